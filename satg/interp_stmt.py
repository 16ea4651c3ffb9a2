"""Statement part of the evaluator: assignments, branches, loops."""
from __future__ import annotations
import ast
import copy, builtins
from .terms import *
from .sem import *
from .interp_base import *


def assigned_names(nodes):
    out = []
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                if x.id not in out:
                    out.append(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name not in out:
                out.append(x.name)
    return out


def has_break(body):
    """a break that belongs to the loop with this body"""
    for x in body:
        if isinstance(x, ast.Break):
            return True
        if isinstance(x, (ast.For, ast.While)):
            if has_break(x.orelse):
                return True
            continue
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if has_break(getattr(x, f, None) or []):
                return True
        for h in getattr(x, "handlers", None) or []:
            if has_break(h.body):
                return True
        for h in getattr(x, "cases", None) or []:
            if has_break(h.body):
                return True
    return False


class StmtMixin:
    def block(self, body, st, fr):
        for s in body:
            if st.pc is FALSE:
                return
            self.cur = s
            self.stmt(s, st, fr)

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown(fr, s, f"statement {type(s).__name__}")
            return
        m(s, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    s_Nonlocal = s_Pass

    def s_Global(self, s, st, fr):
        self.unknown(fr, s, "a name of the module is bound anew")

    def s_Import(self, s, st, fr):
        """names bound inside a function resolve as they would at the top of its module"""
        m = copy.copy(fr.module)
        m.ns, m.stars = {}, []
        self.prog._scan(m, [s])
        for nm in m.ns:
            v = self.resolved(self.prog.lookup(m, nm), st, fr, nm)
            if v is not None:
                st.env[nm] = v

    s_ImportFrom = s_Import

    def s_Expr(self, s, st, fr):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Yield):
            val = self.ev(v.value, st, fr) if v.value else NONE
            self.list_extend(fr.gen, SEQ([self.val(val, st)]), st, fr)
            return
        if isinstance(v, ast.YieldFrom):
            val = self.ev(v.value, st, fr)
            self.list_extend(fr.gen, self.as_seq(val, st, fr), st, fr)
            return
        self.ev(v, st, fr)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        if st.pc is FALSE:
            return
        if fr.loops:
            v = self.val(v, st)
        fr.rets.append((st.copy(), v))
        if fr.loops:
            fr.loops[-1].brk.append((st.copy(), "ret", v))
            fr.rets.pop()
        st.pc = FALSE

    def s_Raise(self, s, st, fr):
        name = "Exception"
        e = s.exc
        if e is not None:
            f = e.func if isinstance(e, ast.Call) else e
            if isinstance(f, ast.Name):
                name = f.id
            elif isinstance(f, ast.Attribute):
                name = f.attr
            v = self.lookup_name(name, st, fr) if isinstance(f, ast.Name) else None
            if v is not None and v.k == "call":
                name = v.a[0].split(".")[-1]
        else:
            name = "reraise"
        self.do_raise(name, st, fr)

    def do_raise(self, name, st, fr):
        if st.pc is FALSE:
            return
        for h in reversed(self.handlers):
            if not catches(h, name):
                continue
            if self.straight(fr, h):
                rs = st.copy()
                if fr is not h["fr"]:
                    rs.env = dict(h["env"])
                h["raised"].append((rs, name))
                st.pc = FALSE
                return
            if not h["reraises"]:
                self.unknown(fr, None, CAUGHT)
                if fr.loops:
                    fr.loops[-1].brk.append((st.copy(), "raise", None))
                else:
                    fr.raisedst.append(st.copy())
                st.pc = FALSE
                return
            break
        self.emit("raise", (name,), st, fr, frozenset())
        if fr.loops:
            fr.loops[-1].brk.append((st.copy(), "raise", None))
        else:
            fr.raisedst.append(st.copy())
        st.pc = FALSE

    def straight(self, fr, h):
        """no loop lies between the point of the raise and the handler"""
        while fr is not None and fr is not h["fr"]:
            if fr.loops:
                return False
            fr = fr.parent
        return fr is h["fr"] and len(fr.loops) == h["loops"]

    def may_throw(self, op, st, fr):
        """an operation behind a contract boundary, performed where a handler would catch what it raises: the error is lost"""
        if not self.handlers or st.pc is FALSE:
            return
        left = {"OSError"} if op.startswith("ext.") else set(self.throwers.get(op, ()))
        for h in reversed(self.handlers):
            got = {x for x in left if catches(h, x)}
            if got and not h["reraises"]:
                st.fx.append(Eff("swallow", (mk("str", op),), st.pc, self.loc(None, fr), frozenset(), False, self.stack[-1].qual if self.stack else ""))
            left -= got

    def s_Assert(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        s2 = st.copy()
        s2.pc = AND(st.pc, NOT(c))
        if s2.pc is not FALSE:
            self.do_raise("AssertionError", s2, fr)
        st.pc = AND(st.pc, c)

    def s_Break(self, s, st, fr):
        fr.loops[-1].brk.append((st.copy(), "brk", None))
        st.pc = FALSE

    def s_Continue(self, s, st, fr):
        fr.loops[-1].cont.append(st.copy())
        st.pc = FALSE

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = self.closure(s, st, fr)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                i = self.ev(t.slice, st, fr) if not isinstance(t.slice, ast.Slice) else mk("sl")
                self.list_set(o, DEL(self.content(o, st), i), st, fr)
            else:
                self.unknown(fr, s, "del")

    # ---- assignment -------------------------------------------------------
    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if v.k in ("seq", "comp", "cat", "flat", "sorted", "rev", "slice") and tyof(v).startswith("list") or v.k in ("slist", "dict", "set"):
                v = self.new_list(v, st)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = self.val(v, st)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if vv.k == "set" and (i, k) == (1, 0):
                    # what the rest holds is of no use but for its length
                    self.assign(t.elts[0], ANYOF(vv), st, fr)
                    self.assign(t.elts[1].value, SLICE(vv, num(1), NONE), st, fr)
                    return
                for j, x in enumerate(t.elts[:i]):
                    self.assign(x, ELT(vv, num(j)), st, fr)
                self.assign(t.elts[i].value, SLICE(vv, num(i), num(-k) if k else NONE), st, fr)
                for j, x in enumerate(t.elts[i + 1:]):
                    self.assign(x, ELT(vv, num(j - k)), st, fr)
                return
            if vv.k == "set" and len(t.elts) == 1:
                return self.assign(t.elts[0], ANYOF(vv), st, fr)
            for j, x in enumerate(t.elts):
                if v.k == "seq" and j < len(v.a[0]):
                    self.assign(x, v.a[0][j], st, fr)
                else:
                    self.assign(x, ELT(vv, num(j)), st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.set_attr(o, self.mangle(t.attr, fr), v, st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                if t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
                    self.list_set(o, copy_of(self.as_seq(v, st, fr)), st, fr)
                else:
                    self.unknown(fr, t, "slice assignment")
                return
            i = self.val(self.ev(t.slice, st, fr), st)
            c = self.content(o, st)
            if c.k == "dict":
                self.list_set(o, self.dict_put(c, i, self.val(v, st)), st, fr)
            else:
                self.list_set(o, mk("upd", c, i, self.val(v, st)), st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            self.unknown(fr, t, "assignment target")

    def dict_put(self, d, k, v):
        items = [(a, b) for a, b in d.a[0] if a is not k]
        return mk("dict", tuple(items + [(k, v)]))

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
           ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}

    def s_AugAssign(self, s, st, fr):
        op = self.OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id, st, fr) or UNDEF
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            name = self.mangle(t.attr, fr)
            cur = self.get_attr(o, name, st, fr)
        else:
            o = self.ev(t.value, st, fr)
            i = self.val(self.ev(t.slice, st, fr), st)
            cur = self.index_val(o, i, st, fr)
        rhs = self.ev(s.value, st, fr)
        c = self.content(cur, st)
        if op == "+" and (tyof(c).startswith("list") or c.k in ("seq", "comp", "cat")) and not isarr(c) and \
                not tyof(c).startswith("SL") and c.k not in ("slist", "sladd"):
            self.list_extend(cur, self.as_seq(rhs, st, fr), st, fr)
            return
        v = self.arith(op, cur, rhs, st, fr)
        if isinstance(t, ast.Name):
            self.assign(t, v, st, fr)
        elif isinstance(t, ast.Attribute):
            self.set_attr(o, name, v, st, fr)
        else:
            self.list_set(o, mk("upd", self.content(o, st), i, self.val(v, st)), st, fr)

    # ---- branches -----------------------------------------------------------
    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if st.pc is FALSE:
            return
        self.branch(c, lambda x: self.block(s.body, x, fr), lambda x: self.block(s.orelse, x, fr), st)

    def branch(self, c, then, els, st):
        pc = st.pc
        p1, p0 = AND(pc, c), AND(pc, NOT(c))
        p1 = self.feasible(p1)
        p0 = self.feasible(p0)
        if p0 is FALSE:
            then(st)
            return
        if p1 is FALSE:
            els(st)
            return
        s1, s0 = st.copy(), st.copy()
        s1.pc, s0.pc = p1, p0
        then(s1)
        els(s0)
        if s1.pc is FALSE and s0.pc is FALSE:
            st.pc = FALSE
            return
        merge_into(st, [s1, s0])

    def feasible(self, pc):
        """FALSE when every cube of pc contradicts the class hierarchy facts."""
        if pc in (TRUE, FALSE):
            return pc
        from .theory import consistent
        for cu in cubes(pc, 64):
            if consistent(cu):
                return pc
        return FALSE

    def s_Match(self, s, st, fr):
        """match as the chain of tests it stands for"""
        subject = ast.Name("\0match%d" % s.lineno, ast.Load())

        def test(p, v):
            """(condition, bindings) of matching v against p; None when not modelled"""
            if isinstance(p, ast.MatchValue):
                return ast.Compare(v, [ast.Eq()], [p.value]), []
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(v, [ast.Is()], [ast.Constant(p.value)]), []
            if isinstance(p, ast.MatchAs):
                c, bs = (ast.Constant(True), []) if p.pattern is None else (test(p.pattern, v) or (None, None))
                if c is None:
                    return None
                return c, bs + ([(p.name, v)] if p.name else [])
            if isinstance(p, ast.MatchOr):
                ts = [test(q, v) for q in p.patterns]
                if any(t is None or t[1] for t in ts):
                    return None
                return ast.BoolOp(ast.Or(), [t[0] for t in ts]), []
            if isinstance(p, ast.MatchClass) and not p.patterns:
                cs, bs = [ast.Call(ast.Name("isinstance", ast.Load()), [v, p.cls], [])], []
                for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                    t = test(q, ast.Attribute(v, a, ast.Load()))
                    if t is None:
                        return None
                    cs.append(t[0])
                    bs += t[1]
                return (cs[0] if len(cs) == 1 else ast.BoolOp(ast.And(), cs)), bs
            if isinstance(p, ast.MatchClass) and len(p.patterns) == 1 and not p.kwd_attrs and isinstance(p.cls, ast.Name) \
                    and p.cls.id in ("str", "int", "float", "list", "tuple", "dict", "bool"):
                t = test(p.patterns[0], v)
                if t is None:
                    return None
                return ast.BoolOp(ast.And(), [ast.Call(ast.Name("isinstance", ast.Load()), [v, p.cls], []), t[0]]), t[1]
            if isinstance(p, ast.MatchSequence) and isinstance(v, (ast.Tuple,)) and len(v.elts) == len(p.patterns) \
                    and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                ts = [test(q, x) for q, x in zip(p.patterns, v.elts)]
                if any(t is None for t in ts):
                    return None
                return ast.BoolOp(ast.And(), [t[0] for t in ts] or [ast.Constant(True)]), [b for t in ts for b in t[1]]
            return None

        # a tuple written out as the subject is matched part by part
        pre = []
        if isinstance(s.subject, ast.Tuple):
            names = []
            for j, x in enumerate(s.subject.elts):
                nm = "\0match%d_%d" % (s.lineno, j)
                pre.append(ast.Assign([ast.Name(nm, ast.Store())], x))
                names.append(ast.Name(nm, ast.Load()))
            v = ast.Tuple(names, ast.Load())
        else:
            pre.append(ast.Assign([ast.Name(subject.id, ast.Store())], s.subject))
            v = subject
        chain = []
        for case in reversed(s.cases):
            t = test(case.pattern, v)
            if t is None:
                self.unknown(fr, s, "match statement")
                return
            c, bs = t
            binds = [ast.Assign([ast.Name(n, ast.Store())], x) for n, x in bs]
            if case.guard is not None:
                if binds:
                    self.unknown(fr, s, "match statement")
                    return
                c = ast.BoolOp(ast.And(), [c, case.guard])
            chain = [ast.If(c, binds + case.body, chain)]
        for x in pre + chain:
            ast.copy_location(x, s)
            ast.fix_missing_locations(x)
        self.block(pre + chain, st, fr)

    # ---- try / with -----------------------------------------------------------
    def s_With(self, s, st, fr):
        for i, it in enumerate(s.items):
            c = it.context_expr
            name = dotted_call(c, self, st, fr)
            if name == "contextlib.suppress":
                rest = s.body if i == len(s.items) - 1 else [ast.copy_location(ast.With(items=s.items[i + 1:], body=s.body), s)]
                kinds = c.args[0] if len(c.args) == 1 else ast.Tuple(list(c.args), ast.Load())
                x = ast.Try(rest, [ast.ExceptHandler(kinds, None, [ast.Pass()])], [], [])
                self.s_Try(ast.fix_missing_locations(ast.copy_location(x, s)), st, fr)
                return
            if name == "warnings.catch_warnings":
                action = next((k.value for k in c.keywords if k.arg == "action"), None)
                if any(k.arg == "record" for k in c.keywords):
                    self.unknown(fr, s, "recorded warnings")
                body = s.body if i == len(s.items) - 1 else [ast.copy_location(ast.With(items=s.items[i + 1:], body=s.body), s)]
                was = self.silent, self.catching
                self.catching = True
                if action is not None:
                    self.filter_warnings(self.val(self.ev(action, st, fr), st), s, st, fr)
                self.block(body, st, fr)
                self.silent, self.catching = was
                return
            v = self.ev(c, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        self.block(s.body, st, fr)

    def filter_warnings(self, action, node, st, fr):
        """what warnings do from here on, until the surrounding catch_warnings() ends"""
        if action is mk("str", "ignore"):
            self.silent = 1
        elif action in (mk("str", "default"), mk("str", "always"), mk("str", "once"), mk("str", "module")):
            self.silent = 0
        else:
            self.emit("ext.simplefilter", (action,), st, fr, frozenset())

    def s_Try(self, s, st, fr):
        """Exception edges: each explicitly raised exception, plus one edge for
        the implicit failure of the guarded block, whose condition is the
        opaque atom throws(<calls evaluated in the block>)."""
        b = s.body[0]
        if len(s.body) == 1 and len(s.handlers) == 1 and isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and not s.orelse and not s.finalbody and \
                isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "remove" and len(b.value.args) == 1 and not s.handlers[0].name and \
                caught_names(s.handlers)[0] in ("ValueError", "Exception", None):
            # x.remove(y), or what the handler does when y is not in x
            c = ast.Compare(b.value.args[0], [ast.In()], [b.value.func.value])
            x = ast.If(c, s.body, s.handlers[0].body)
            self.block([ast.fix_missing_locations(ast.copy_location(x, s))], st, fr)
            return
        pre = st.copy()
        h = {"fr": fr, "loops": len(fr.loops), "raised": [], "calls": [], "env": pre.env, "catches": caught_names(s.handlers),
             "reraises": all(any(isinstance(b, ast.Raise) for b in x.body) for x in s.handlers)}
        mark = fresh("m").a[0]
        self.handlers.append(h)
        self.block(s.body, st, fr)
        self.handlers.pop()
        outs = []
        if s.handlers:
            hd = s.handlers[0]
            exn = ast.unparse(hd.type) if hd.type is not None else "Exception"
            if h["calls"] or h.get("cond", FALSE) is not FALSE:
                at = h.get("cond", FALSE)
                if h["calls"]:
                    at = OR(at, atom(mk("throws", exn, closed_calls(h["calls"], mark))))
                s1 = pre.copy()
                s1.pc = AND(pre.pc, at)
                if hd.name:
                    s1.env[hd.name] = mk("call", "caught", mk("str", exn))
                # effects performed before the failure keep their guards; names
                # assigned in the block are not updated on the failing edge
                self.block(hd.body, s1, fr)
                outs.append(s1)
                st.pc = AND(st.pc, NOT(at))
                self.regard(h, at, st)
            for rs, name in h["raised"]:
                if hd.name:
                    rs.env[hd.name] = mk("call", "caught", mk("str", str(name)))
                self.block(hd.body, rs, fr)
                outs.append(rs)
            if len(s.handlers) > 1:
                self.unknown(fr, s, "several except clauses")
        if s.orelse:
            self.block(s.orelse, st, fr)
        allst = [st.copy()] + outs
        merge_into(st, allst)
        if s.finalbody:
            self.block(s.finalbody, st, fr)

    def regard(self, h, at, st):
        # returns recorded inside the block happen only when it did not fail
        fr = h["fr"]
        for i, (s, v) in enumerate(fr.rets):
            if s.pc is not FALSE and i >= h.get("nrets", 0) and h.get("mark") is None:
                pass
        n = h.get("nrets", None)
        new = []
        for i, (s, v) in enumerate(fr.rets):
            if v in h["calls"] or any(v is c for c in h["calls"]) or self._mentions(v, h["calls"]):
                s = s.copy()
                s.pc = AND(s.pc, NOT(at))
            new.append((s, v))
        fr.rets[:] = new

    def _mentions(self, v, calls):
        seen = set()
        stack = [v]
        while stack:
            x = stack.pop()
            if not isinstance(x, T):
                if isinstance(x, tuple):
                    stack += list(x)
                continue
            if x in seen:
                continue
            seen.add(x)
            if x in calls:
                return True
            stack += list(x.a)
        return False

    # ---- loops ------------------------------------------------------------------
    def s_For(self, s, st, fr):
        t = self.ev(s.iter, st, fr)
        c = self.flat_of(t, st)
        if c is not None and not s.orelse and not has_break(s.body):
            # a loop over lists joined end to end: a loop over the lists, one over the elements of each
            st.env["\0fl"] = c.a[0]
            inner = ast.For(target=s.target, iter=ast.Name("\0fe", ast.Load()), body=s.body, orelse=[], type_comment=None)
            outer = ast.For(target=ast.Name("\0fe", ast.Store()), iter=ast.Name("\0fl", ast.Load()), body=[inner], orelse=[], type_comment=None)
            for x in (inner, outer):
                ast.fix_missing_locations(ast.copy_location(x, s))
            st.env.pop("\0fe", None)
            self.s_For(outer, st, fr)
            return
        parts = self.parts_of(t, st)
        if parts is not None and not s.orelse and not has_break(s.body):
            # a loop over lists joined one after the other: the loop over each of them in turn
            for i, x in enumerate(parts):
                if st.pc is FALSE:
                    break
                st.env["\0fp"] = x
                one = ast.For(target=s.target, iter=ast.Name("\0fp", ast.Load()), body=s.body, orelse=[], type_comment=None)
                self.s_For(ast.fix_missing_locations(ast.copy_location(one, s)), st, fr)
            st.env.pop("\0fp", None)
            return
        it = self.domain(t, st, fr)
        it = (self.same_len(it[0], st),) + it[1:]
        self.for_loop(it, lambda x, st2: self.assign(s.target, x, st2, fr), s.body, s.orelse, st, fr,
                      target_names=assigned_names([s.target]), node=s)

    def flat_of(self, t, st):
        if t.k not in ("lref", "flat", "iter"):
            return None
        if t.k == "iter":
            t = t.a[0]
        c = self.val(self.content(t, st), st) if t.k == "lref" else t
        return c if c.k == "flat" and c.a[0].k == "comp" else None

    def parts_of(self, t, st):
        """the lists that a list written out in part consists of"""
        if t.k == "iter":
            t = t.a[0]
        if t.k not in ("lref", "cat"):
            return None
        c = self.val(self.content(t, st), st) if t.k == "lref" else t
        if c.k != "cat" or not any(x.k == "seq" for x in c.a[0]) or len(c.a[0]) > 4 or \
           any(x.k not in ("seq", "comp") or x.k == "seq" and len(x.a[0]) > 4 for x in c.a[0]):
            return None
        return c.a[0]

    def for_loop(self, dom, bind, body, orelse, st, fr, target_names=(), node=None):
        if st.pc is FALSE:
            return
        n, elem, gfun, live = dom
        if n.k == "int" and n.a[0] <= 4 and n.a[0] >= 0 and n.k == "int" and not self.nounroll:
            return self.unrolled(n.a[0], elem, gfun, bind, body, orelse, st, fr)
        b = fresh("i")
        names = [v for v in self.rebound(body, st) if v not in target_names]
        self.loop_core("for", n, b, lambda s2: bind(elem(b), s2), gfun(b), live, names, body, orelse, st, fr, node)

    def rebound(self, body, st):
        """names of the state that the loop body binds anew; += on a list changes the list, not the name"""
        aug, other = set(), set()
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, ast.Add):
                    aug.add(id(x.target))
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and id(x) not in aug:
                    other.add(x.id)
        if any(v.k == "clo" for v in st.env.values()):
            # what a function of this function binds when it is called from the loop
            used = {x.id for n in body for x in ast.walk(n) if isinstance(x, ast.Name)}
            mine = {k: self.clos[v][0] for k, v in st.env.items() if v.k == "clo"}
            if any(k in used for k in mine):
                far = {x for f in mine.values() for x in outer_names(f)} - set(assigned_names(body))
                return self.rebound_names(body, st, other) + [x for x in sorted(far) if x in st.env]
        return self.rebound_names(body, st, other)

    def rebound_names(self, body, st, other):
        return [v for v in assigned_names(body) if v in st.env and (v in other or st.env[v].k != "lref" or
                not (self.content(st.env[v], st).k in ("seq", "comp", "cat") or tyof(self.content(st.env[v], st)).startswith("list")))]

    def unrolled(self, k, elem, gfun, bind, body, orelse, st, fr):
        """A loop over a literal of known small length."""
        ctx = LoopCtx()
        done = []
        fr.loops.append(ctx)
        for j in range(k):
            if st.pc is FALSE:
                break
            ctx.cont = []
            g = gfun(num(j))
            def go(x, j=j):
                bind(elem(num(j)), x)
                self.block(body, x, fr)
            if g is TRUE:
                go(st)
            else:
                self.branch(g, go, lambda x: None, st)
            if ctx.cont:
                merge_into(st, [st.copy()] + ctx.cont)
        fr.loops.pop()
        if orelse and st.pc is not FALSE:
            self.block(orelse, st, fr)
        outs = [st.copy()]
        for (bs, kind, v) in ctx.brk:
            if kind == "brk":
                outs.append(bs)
            elif kind == "ret":
                if fr.loops:
                    fr.loops[-1].brk.append((bs, "ret", v))
                else:
                    fr.rets.append((bs, v))
            elif fr.loops:
                fr.loops[-1].brk.append((bs, "raise", None))
            else:
                fr.raisedst.append(bs)
        merge_into(st, outs)

    def s_While(self, s, st, fr):
        names = self.rebound([s.test] + s.body, st)
        # counting while: recognised after evaluation through the carry closed forms
        self.while_loop(s, names, st, fr)

    # -- common loop analysis --------------------------------------------------------
    def own_writes(self, fx, b, wf, st):
        """(object, field) pairs where the object is the current element of a sequence and every write of that field in the
        body goes to the current element: elements of one sequence are distinct, so earlier turns left it alone"""
        by, bad = {}, set()

        def scan(es):
            for e in es:
                if isinstance(e, Eff):
                    if e.op == "write":
                        o, f = e.args[0], e.args[1]
                        if o.k == "elt" and o.a[1] is b and b not in o.a[0].fv:
                            by.setdefault(f, set()).add(o)
                        else:
                            bad.add(f)
                    else:
                        bad.update(m.split(":")[0] for m in e.mods)
                else:
                    for m in e.mods:
                        bad.add(m.split(":")[0])
        scan(fx)
        out = []
        for f, os in by.items():
            if f in bad or len(os) != 1:
                continue
            o = next(iter(os))
            if any(hits(wf, x.a[1], x.a[0]) or hits(wf, "*" + x.a[1], x.a[0]) for x in self.attrs_in(o.a[0])):
                continue
            out.append((o, f, st.heap.get((o, f)) or ATTR(o, f, ver_of(st.ver, o, f))))
        return out

    def attrs_in(self, t):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "attr":
                yield x
            st += [y for y in x.a if isinstance(y, T)]

    def run_body(self, st0, fr, bind, body, carry_env, carry_cont, wfields, cond_expr=None, own=()):
        """Evaluate the body once from a generic iteration state."""
        s2 = st0.copy()
        s2.fx = []
        s2.pc = TRUE
        for f in wfields:
            s2.ver[f] = s2.ver.get(f, 0) + 1
        s2.heap = {k: v for k, v in s2.heap.items() if not hits(wfields, k[1], k[0])}
        for o, f, v in own:
            s2.heap[(o, f)] = v
        for k, v in carry_env.items():
            s2.env[k] = v
        for k, v in carry_cont.items():
            s2.cont[k] = v
        ctx = LoopCtx()
        fr.loops.append(ctx)
        self.outer.append(st0.pc)
        c = TRUE
        if cond_expr is not None:
            c = self.cond(cond_expr, s2, fr)
            ex = s2.copy()
            ex.pc = NOT(c)
            if ex.pc is not FALSE:
                ctx.brk.append((ex, "cond", None))
            s2.pc = c
        if bind is not None:
            bind(s2)
        self.block(body, s2, fr)
        fr.loops.pop()
        self.outer.pop()
        return s2, ctx, c

    def body_fields(self, fx):
        r = set()
        for e in fx:
            r |= e.mods
        return r

    def loop_core(self, kind, n, b, bind, g0, live, names, body, orelse, st, fr, node, cond_expr=None):
        loc, fn = self.loc(node, fr), fr.fi.qual
        # pass 1: which list contents and fields does the body touch?
        u0 = len(self.unknowns)
        tags0 = dict(self.tags)
        ce = {v: self.carry_var(st.env[v], st) for v in names}
        s1, c1, _ = self.run_body(st, fr, bind, body, ce, {}, (), cond_expr)
        touched = self.changed_lists(st, [s1] + c1.cont + [x[0] for x in c1.brk])
        wf = self.body_fields(s1.fx)
        own = self.own_writes(s1.fx, b, wf, st) if b is not None else ()
        del self.unknowns[u0:]
        self.tags = tags0
        counted = {}
        if kind == "for" and g0 is TRUE and b is not None and not c1.cont and not c1.brk:
            for l in touched:
                c0, c9 = self.content(l, st), s1.cont[l]
                if l.k == "lref" and c0.k == "seq" and sub(LEN(c9), LEN(c0)) is num(1) and any(x.k == "lref" for x in leaves_of(c9)):
                    counted[l] = v = fresh_t("c", tyof(c0) or "list")
                    COUNTED[v] = add(b, LEN(c0))
        if counted:
            # what the list's length is at each round is known: its last element can be told
            s1, c1, _ = self.run_body(st, fr, bind, body, ce, counted, (), cond_expr)
            touched = self.changed_lists(st, [s1] + c1.cont + [x[0] for x in c1.brk])
            wf = self.body_fields(s1.fx)
            own = self.own_writes(s1.fx, b, wf, st) if b is not None else ()
            del self.unknowns[u0:]
            self.tags = dict(tags0)
            if any(l not in touched for l in counted):
                raise Gaveup("a list's growth is not regular")
        # pass 2
        ce = {v: self.carry_var(st.env[v], st) for v in names}
        cc = {l: counted[l] if l in counted else fresh_t("c", tyof(unset(self.content(l, st))) or "list") for l in touched}
        sets = {l for l in touched if self.content(l, st).k == "set"}
        s2, ctx, cnd = self.run_body(st, fr, bind, body, ce, {l: SET(v) if l in sets else v for l, v in cc.items()}, wf, cond_expr, own)
        end = s2.copy()
        merge_into(end, [s2] + ctx.cont)
        alive = end.pc                                  # reaches the next iteration normally
        carries = []                                    # (kind, key, init, var, next)
        for v in names:
            init = st.env[v]
            nxt = end.env.get(v, UNDEF) if alive is not FALSE else ce[v]
            carries.append(("env", v, self.val(init, st), ce[v], self.val(nxt, end)))
        for l in touched:
            nxt = end.cont.get(l, cc[l]) if alive is not FALSE else cc[l]
            carries.append(("cont", l, unset(self.content(l, st)), cc[l], unset(nxt) if l in sets else nxt))
        if ctx.brk and any(l.k != "lref" and end.cont.get(l, cc[l]) is cc[l] for l in touched):
            self.unknown(fr, node, "a list of an object that changes on the way out of a loop")
        # lists made during a turn: by its end they have their content
        made = {l: v for l, v in end.cont.items() if l.k == "lref" and l not in st.cont}
        if made:
            for _ in range(3):
                made = {l: subst(v, {k: w for k, w in made.items() if k is not l}) for l, v in made.items()}
            carries = [(a, k, i, v, subst(x, made)) if x.k in ("cat", "seq", "ite") else (a, k, i, v, x) for a, k, i, v, x in carries]
        # exits inside the body
        exits = [(x[0].pc, x) for x in ctx.brk]
        E = OR(*[p for p, _ in exits]) if exits else FALSE
        sub_ = {}
        changed = True
        rest = list(carries)
        closed = {}                                     # var -> (at_b, final)
        has_filter = g0 is not TRUE
        while changed:
            changed = False
            for cr in list(rest):
                _, key, init, var, nxt = cr
                nx = subst(nxt, sub_) if sub_ else nxt
                cf = self.closed_form(init, var, nx, n, b, g0, has_filter, [c[3] for c in rest if c is not cr], kind)
                if cf is not None:
                    at_b, final = cf
                    closed[var] = (at_b, final)
                    vk = var.a[0] if var.k == "bdd" else var
                    sub_ = {k: subst(v, {vk: at_b}) for k, v in sub_.items()}
                    sub_[vk] = at_b
                    rest.remove(cr)
                    changed = True
        if kind == "while":
            self.follows_list(rest, sub_, closed)
        S = (lambda t: subst(t, sub_)) if sub_ else (lambda t: t)
        fx = [e.map(S) for e in s2.fx]
        E = S(E)
        if kind == "for":
            E = bound_simp(AND(E, g0), b, n)
        # no earlier exit
        nb = TRUE
        nfinal = n
        if kind == "for" and E is not FALSE:
            if AND(E, NOT(LE(sub(n, num(1)), b))) is FALSE or bound_simp(AND(E, LE(b, sub(n, num(2)))), b, n) is FALSE:
                nb = TRUE                              # can only leave on the last round
            else:
                j = fresh("i")
                nb = NOT(EX(b, subst1(E, b, j), j))
        fx0 = fx
        if kind == "for":
            pre = AND(g0, nb)
            fx = [self.guarded(e, pre) for e in fx]
        # the loop's own effects
        pure_raises = [e for e in fx if isinstance(e, Eff) and e.op == "raise"]
        others = [e for e in fx if not (isinstance(e, Eff) and e.op == "raise")]
        remaining = []
        if kind == "for" and not others and not rest:
            if all(x[1] == "raise" for x in ctx.brk):
                # which round raises first does not matter when nothing else happens in the loop
                pure_raises = [self.guarded(e, g0) for e in fx0]
            for e in pure_raises:
                g = EX(n, e.guard, b)
                if g is not FALSE:
                    st.fx.append(Eff("raise", e.args, AND(st.pc, g), e.loc, e.mods, e.opt, e.fn))
        elif fx:
            mods = self.body_fields(fx)
            lv = None
            if live is not None and self.live_conflict(live, mods):
                lv = live
            cl = [(var, init, S(nxt)) for _, _, init, var, nxt in rest if self.used(var, fx) or kind == "while"]
            while True:
                more = [(var, init, S(nxt)) for _, _, init, var, nxt in rest if all(var is not c[0] for c in cl)
                        and any((var.a[0] if var.k == "bdd" else var) in c[2].fv for c in cl)]
                if not more:
                    break
                cl += more
            n1, fx1 = self.over_source(n, b, fx) if kind == "for" and not cl and lv is None else (n, fx)
            st.fx.append(Loop(n1, b, st.pc, fx1, lv, cl, loc, kind, S(cnd) if kind == "while" else None, fn))
        # values after the loop
        post = st.copy()
        for f in wf:
            post.ver[f] = max(post.ver.get(f, 0), end.ver.get(f, 0)) + 1
        post.heap = {k: v for k, v in post.heap.items() if not hits(wf, k[1], k[0])}
        norm_brk = [x for x in ctx.brk if x[1] == "brk"]
        lk = None
        if kind == "while":
            lk = self.loop_key([c for c in carries if c[3] not in closed], S, n, b, E)
            wexits = [x for x in ctx.brk if x[1] in ("brk", "cond") and S(x[0].pc) is not FALSE]
            wmap = {v: mk("wval", lk, w) for v, w in self.wmap.items()}
        for ck, key, init, var, nxt in carries:
            if kind == "while" and wexits:
                x = self.exit_value(ck, key, var, wexits, S)
                fin = closed[var][1] if x is var and var in closed else subst(x, wmap)
                if var.k == "bdd" and fin.k not in ("bdd", "true", "false"):
                    fin = atom(fin)
            elif var in closed and not norm_brk:
                fin = closed[var][1]
            elif var in closed and norm_brk and kind == "for":
                fin = self.break_value(ck, key, init, var, closed[var], norm_brk, S, n, b, g0, E)
            else:
                E2, step = E, (lambda c: S(c[4]))
                if kind == "for" and norm_brk and len(norm_brk) == len(ctx.brk) and bound_simp(AND(E, LE(b, sub(n, num(2)))), b, n) is FALSE:
                    # leaving on the last round: a round that only makes the break's own changes
                    E2, step = FALSE, (lambda c: ITE(E, self.exit_value(c[0], c[1], c[3], norm_brk, S), S(c[4])))
                fin = self.fold_value(kind, init, var, step((ck, key, init, var, nxt)), n, b, g0, E2, cnd,
                                      [(c[2], c[3], step(c)) for c in rest if c[3] is not var])
            if ck == "env":
                if fin.k in ("comp", "cat", "flat", "seq") and tyof(fin).startswith("list"):
                    fin = self.new_list(fin, post)
                post.env[key] = fin
            else:
                if key in sets:
                    fin = SET(fin)
                post.cont[key] = fin
                if key in st.esc or key.k != "lref":
                    self.escaped_update(key, fin, post, fr, loc)
        # names first bound inside the loop, read afterwards
        for v in end.env:
            if v not in post.env and kind == "for":
                x = S(self.val(end.env[v], end))
                x = self.last_value(x, n, b)
                if norm_brk:
                    # the round that was left by break, if one was
                    y = self.exit_value("env", v, UNDEF, norm_brk, S)
                    g = AND(g0, S(OR(*[q[0].pc for q in norm_brk])))
                    x = ITE(EX(n, g, b), FIRST(n, g, y, b, UNDEF), x) if y is not UNDEF else x
                post.env[v] = x
        if kind == "while":
            for v in {k for x in wexits for k in x[0].env}:
                if v not in post.env:
                    x = self.exit_value("env", v, UNDEF, wexits, S)
                    if x is not UNDEF:
                        post.env[v] = subst(x, wmap)
        # control after the loop
        rets = [x for x in ctx.brk if x[1] == "ret"]
        raises = [x for x in ctx.brk if x[1] == "raise"]
        if kind == "for":
            stop = S(OR(*[x[0].pc for x in rets + raises])) if rets or raises else FALSE
            brk = S(OR(*[x[0].pc for x in norm_brk])) if norm_brk else FALSE
            if rets:
                # first exit wins
                R = OR(*[S(x[0].pc) for x in rets])
                val = NONE
                for x in reversed(rets):
                    val = ITE(restrict(S(x[0].pc), R), S(x[2]), val)
                g_all = AND(g0, E)
                gr = EX(n, AND(g0, nb, R), b)
                v = FIRST(n, AND(g0, R), val, b, NONE) if E is bound_simp(AND(R, g0), b, n) or True else val
                if v.k == "ite" and v.a[2] is NONE:
                    v = v.a[1]
                rs = post.copy()
                rs.pc = AND(st.pc, gr)
                if rs.pc is not FALSE:
                    if fr.loops:
                        fr.loops[-1].brk.append((rs, "ret", v))
                    else:
                        fr.rets.append((rs, v))
            gone = FALSE
            if rets or raises:
                gone = EX(n, AND(g0, nb, stop), b)
            if raises:
                gr = EX(n, AND(g0, nb, S(OR(*[x[0].pc for x in raises]))), b)
                rs = post.copy()
                rs.pc = AND(st.pc, gr)
                if fr.loops:
                    fr.loops[-1].brk.append((rs, "raise", None))
                else:
                    fr.raisedst.append(rs)
            post.pc = AND(st.pc, NOT(gone))
            if orelse:
                left = EX(n, AND(g0, nb, brk), b) if norm_brk else FALSE
                self.branch(NOT(left), lambda x: self.block(orelse, x, fr), lambda x: None, post)
        else:
            only = rets and len(rets) == len(ctx.brk)   # the loop is left by these only
            R = OR(*[S(x[0].pc) for x in rets]) if rets else FALSE
            if rets:
                v = None
                for x in reversed(rets):
                    v = S(x[2]) if v is None else ITE(restrict(S(x[0].pc), R), S(x[2]), v)
                v = subst(v, wmap)
                rs = post.copy()
                rs.pc = st.pc if only else AND(st.pc, atom(mk("wexit", lk, "ret")))
                if fr.loops:
                    fr.loops[-1].brk.append((rs, "ret", v))
                else:
                    fr.rets.append((rs, v))
            if rets:
                post.pc = FALSE if only else AND(st.pc, NOT(atom(mk("wexit", lk, "ret"))))
            if orelse:
                self.unknown(fr, node, "while-else")
        st.take(post)

    def over_source(self, n, b, fx):
        """a loop over the positions of a filtered list is one over what it was filtered from, under the filter's condition"""
        if not (n.k == "len" and n.a[0].k == "comp" and n.a[0].a[1] is not TRUE):
            return n, fx
        ts = []
        for e in fx:
            e.map(lambda t: ts.append(t) or t)
        r = over_source(n, b, ts)
        if r is None:
            return n, fx
        it = iter(r[2])
        return r[0], [self.guarded(e.map(lambda t: next(it)), r[1]) for e in fx]

    @staticmethod
    def follows_list(rest, sub_, closed):
        """a variable that is the last element of a list when the loop starts and again after each round needs no record of its own"""
        lists = [c for c in rest if c[0] == "cont" and c[3].k == "fv"]
        for cr in [c for c in rest if c[0] == "env" and c[3].k == "fv"]:
            for ls in lists:
                if ELT(ls[2], num(-1)) is not cr[2]:
                    continue
                at = ELT(ls[3], num(-1))
                put = {**{k: subst(v, {cr[3]: at}) for k, v in sub_.items()}, cr[3]: at}
                if ELT(subst(ls[4], put), num(-1)) is subst(cr[4], put):
                    sub_.clear()
                    sub_.update(put)
                    closed[cr[3]] = (at, at)
                    rest.remove(cr)
                    break

    def guarded(self, e, g):
        if g is TRUE:
            return e
        if isinstance(e, Eff):
            return Eff(e.op, e.args, AND(g, e.guard), e.loc, e.mods, e.opt, e.fn)
        return Loop(e.n, e.b, AND(g, e.guard), e.body, e.live, e.carries, e.loc, e.kind, e.cond, e.fn)

    def used(self, var, fx):
        var = var.a[0] if var.k == "bdd" else var
        for e in fx:
            if isinstance(e, Eff):
                if var in e.guard.fv or any(isinstance(a, T) and var in a.fv for a in e.args):
                    return True
            else:
                if var in e.guard.fv or var in e.n.fv or self.used(var, e.body) or e.cond is not None and var in e.cond.fv or \
                        any(var in i.fv or var in x.fv for _, i, x in e.carries):
                    return True
        return False

    def live_conflict(self, live, mods):
        t = live
        if t.k == "attr":
            return hits(mods, t.a[1], t.a[0]) or hits(mods, "*" + t.a[1], t.a[0])
        if t.k == "at":
            return self.live_conflict(t.a[0], mods)
        return False

    def changed_lists(self, st, outs):
        r = []
        for o in outs:
            for k, v in o.cont.items():
                if k in r:
                    continue
                if k in st.cont:
                    if st.cont[k] is not v:
                        r.append(k)
                elif k.k != "lref" and not k.fv:
                    r.append(k)
        return r

    def carry_var(self, init, st):
        v = self.val(init, st)
        if v.k in ("true", "false", "bdd"):
            return atom(fresh_t("c", "bool"))
        return fresh_t("c", tyof(v))

    def closed_form(self, init, var, nxt, n, b, g0, filt, others, kind):
        if nxt is var or nxt is UNDEF:
            return (init, init)
        vs = var.a[0] if var.k == "bdd" else var          # bool carries are atoms
        ofv = [o.a[0] if o.k == "bdd" else o for o in others]
        if kind == "while":
            return None
        dep = [o for o in ofv if o in nxt.fv]
        if var.k == "bdd":
            if dep or nxt.k not in ("bdd", "true", "false"):
                return None
            a1, a0 = assign(nxt, {vs: TRUE}), assign(nxt, {vs: FALSE})
            if vs in a1.fv or vs in a0.fv:
                return None
            if a1 is a0:
                if filt:
                    return None
                return (bite(LE0(b), init, subst1(a1, b, sub(b, num(1)))),
                        bite(LE0(n), init, subst1(a1, b, sub(n, num(1)))))
            if a1 is TRUE:
                j = fresh("i")
                return (OR(init, EX(b, subst1(AND(g0, a0), b, j), j)), OR(init, EX(n, AND(g0, a0), b)))
            if a0 is FALSE:
                j = fresh("i")
                na = AND(g0, NOT(a1))
                return (AND(init, NOT(EX(b, subst1(na, b, j), j))), AND(init, NOT(EX(n, na, b))))
            return None
        if dep:
            return None
        if var not in nxt.fv:
            if filt:
                return None
            return (ITE(LE0(b), init, subst1(nxt, b, sub(b, num(1)))), ITE(LE0(n), init, subst1(nxt, b, sub(n, num(1)))))
        # counters
        if tyof(var) in ("int", "num") and (not filt or tyof(var) == "int"):
            d = sub(nxt, var)
            if var not in d.fv and b not in d.fv and d.k == "int" and not filt:
                k = Fraction(d.a[0])
                return (add(init, scale(b, k)), add(init, scale(n, k)))
            d = self.increment(nxt, var)
            if d is not None and var not in d.fv and tyof(d) == "int" and tyof(init) == "int":
                j = fresh("i")
                return (add(init, SUM(b, subst1(g0, b, j), subst1(d, b, j), j)), add(init, SUM(n, g0, d, b)))
        # list accumulators
        app = self.appended(nxt, var)
        if app is not None and var not in app.fv:
            j = fresh("i")
            pref = FLAT(COMP(b, subst1(g0, b, j), subst1(app, b, j), j))
            tot = FLAT(COMP(n, g0, app, b))
            return (CAT(init, pref), CAT(init, tot))
        return None

    def increment(self, nxt, var):
        """nxt = var + d -> d (possibly conditional)"""
        if nxt.k == "ite":
            x, y = self.increment(nxt.a[1], var), self.increment(nxt.a[2], var)
            return None if x is None or y is None else ITE(nxt.a[0], x, y)
        d = sub(nxt, var)
        return None if var in d.fv else d

    def appended(self, nxt, var):
        """nxt = var ++ X  ->  X (possibly conditional)"""
        if nxt is var:
            return EMPTY
        if nxt.k == "cat" and nxt.a[0][0] is var:
            return spread(CAT(*nxt.a[0][1:]))
        if nxt.k == "cat" and nxt.a[0][0].k == "ite":
            x = self.appended(nxt.a[0][0], var)
            if x is not None:
                return spread(CAT(x, *nxt.a[0][1:]))
            return None
        if nxt.k == "comp" and nxt.a[1] is TRUE and nxt.a[2].k == "elt" and nxt.a[2].a[0] is var:
            return EMPTY
        if nxt.k == "ite":
            x, y = self.appended(nxt.a[1], var), self.appended(nxt.a[2], var)
            if x is not None and y is not None:
                if x.k == "seq" and y.k == "seq" and len(x.a[0]) == len(y.a[0]) == 1:
                    return SEQ([ITE(nxt.a[0], x.a[0][0], y.a[0][0])])
                return ITE(nxt.a[0], x, y)
        return None

    def last_value(self, x, n, b):
        if b not in x.fv:
            return x
        return subst1(x, b, sub(n, num(1)))

    def break_value(self, ck, key, init, var, cf, brks, S, n, b, g0, E):
        """value after a for loop left by break"""
        at_b, final = cf
        get = (lambda s: self.val(s.env.get(key, UNDEF), s)) if ck == "env" else (lambda s: unset(s.cont.get(key, var)))
        B = OR(*[S(x[0].pc) for x in brks])
        B = bound_simp(AND(B, g0), b, n)
        val = None
        for x in reversed(brks):
            v = S(get(x[0]))
            val = v if val is None else ITE(restrict(S(x[0].pc), B), v, val)
        if bound_simp(AND(B, LE(b, sub(n, num(2)))), b, n) is FALSE:
            # break happens only in the last round: final value is the break value there
            v = subst1(val, b, sub(n, num(1)))
            gb = subst1(B, b, sub(n, num(1)))
            gb = bound_simp(gb, b, n)
            if gb is TRUE or AND(NOT(LE0(n)), NOT(gb)) is FALSE:
                return ITE(LE0(n), init, v)
            return ITE(AND(NOT(LE0(n)), gb), v, final)
        return FIRST(n, B, val, b, final)

    def fold_value(self, kind, init, var, nxt, n, b, g0, E, cnd, others=()):
        key = lambda v: v.a[0] if v.k == "bdd" else v
        vs = key(var)
        deps, ts = [], [nxt, g0, E] + ([cnd] if cnd is not None else [])
        while True:                        # the other variables this one depends on
            more = [o for o in others if o not in deps and any(key(o[1]) in t.fv for t in ts)]
            if not more:
                break
            deps += more
            ts += [o[2] for o in more]
        deps.sort(key=lambda o: (o[0].id, str(tyof(o[1]))))
        if kind == "for" and E is FALSE:
            for _ in range(2):
                # a last round that changes nothing
                last = NOT(LE(b, sub(n, num(2))))
                if not all(bound_term(x, b, n, last) is v for x, v in [(nxt, var)] + [(o[2], o[1]) for o in deps]):
                    break
                n = sub(n, num(1))
                nxt = bound_term(nxt, b, n)
                deps = [(o[0], o[1], bound_term(o[2], b, n)) for o in deps]
            g0, nxt = bound_simp(g0, b, n), bound_term(nxt, b, n)
        h = 1 + max(t.ht for t in ts)
        m = {b: mk("bv", h), vs: mk("cv", h, tyof(var))}
        for j, o in enumerate(deps):
            m[key(o[1])] = mk("cv", h, tyof(o[1]), j + 1)
        f = lambda t: subst(t, m)
        r = mk("fold", kind, init, n, f(g0), f(nxt), f(E), f(cnd) if cnd is not None else NONE, h)
        if deps:
            r = mk("fold", kind, init, n, f(g0), f(nxt), f(E), f(cnd) if cnd is not None else NONE, h, tuple((o[0], f(o[2])) for o in deps))
        return atom(r) if var.k == "bdd" else r

    def loop_key(self, carries, S, n, b, E):
        cs = sorted(carries, key=lambda c: c[2].id)
        items = [(c[2], S(c[4])) for c in cs]
        m = {b: mk("bv", 99)}
        for j, c in enumerate(cs):
            v = c[3].a[0] if c[3].k == "bdd" else c[3]
            m[v] = mk("cv", 99, tyof(c[3]), j)
        self.wmap = m
        return mk("wloop", tuple((i, subst(x, m)) for i, x in items), subst(E, m))

    def exit_value(self, ck, key, var, exits, S):
        out = None
        tot = OR(*[x[0].pc for x in exits])
        for x in reversed(exits):
            v = self.val(x[0].env.get(key, UNDEF), x[0]) if ck == "env" else unset(x[0].cont.get(key, var))
            out = v if out is None else ITE(restrict(x[0].pc, tot), v, out)
        return S(out) if out is not None else var

    def while_loop(self, s, names, st, fr):
        b = fresh("i")
        # a counting while is analysed as a for loop over the counter
        cnt = self.counting(s, names, st, fr)
        if cnt is not None:
            name, n, init, body = cnt
            nm = [v for v in names if v != name]
            self.loop_core("for", n, b, lambda s2: s2.env.__setitem__(name, add(init, b)), TRUE, None, nm, body, s.orelse, st, fr, s)
            st.env[name] = add(init, n)
            return
        self.loop_core("while", mk("inf"), b, None, TRUE, None, names, s.body, s.orelse, st, fr, s, cond_expr=s.test)

    def counting(self, s, names, st, fr):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq))):
            return None
        if not isinstance(t.left, ast.Name) or t.left.id not in names:
            return None
        name = t.left.id
        incs = [x for x in s.body if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name
                and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1]
        others = [x for x in ast.walk(ast.Module(s.body, [])) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
        if len(incs) != 1 or len(others) != 1 or s.body[-1] is not incs[0]:
            return None
        if any(isinstance(x, ast.Continue) for x in ast.walk(ast.Module(s.body, []))):
            return None
        init = self.val(st.env[name], st)
        bound = self.val(self.ev(t.comparators[0], st, fr), st)
        if isinstance(t.ops[0], ast.LtE):
            bound = add(bound, num(1))
        if not isnum(bound):
            return None
        return name, sub(bound, init), init, s.body[:-1]


def bound_term(t, b, n, also=TRUE):
    """t knowing 0 <= b < n (and also)"""
    if t.k == "ite":
        c = t.a[0]
        if bound_simp(AND(c, also), b, n) is FALSE:
            return bound_term(t.a[2], b, n, also)
        if bound_simp(AND(NOT(c), also), b, n) is FALSE:
            return bound_term(t.a[1], b, n, also)
        return ITE(bound_simp(c, b, n), bound_term(t.a[1], b, n, also), bound_term(t.a[2], b, n, also))
    if t.k == "bdd":
        return bound_simp(t, b, n)
    return t


def fresh_t(tag, ty):
    from . import terms
    terms._fresh[0] += 1
    return mk("fv", terms._fresh[0], tag, ty)


def leaves_of(t):
    """the elements of a list written out"""
    if t.k == "seq":
        return list(t.a[0])
    return [y for x in t.a[0] for y in leaves_of(x)] if t.k == "cat" else []


def caught_names(handlers):
    out = []
    for h in handlers:
        for t in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
            out.append(None if t is None else t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None)
    return out


def dotted_call(c, I, st, fr):
    """full name of the external function a call expression calls"""
    if not isinstance(c, ast.Call):
        return ""
    f, tail = c.func, []
    while isinstance(f, ast.Attribute):
        tail.insert(0, f.attr)
        f = f.value
    if not isinstance(f, ast.Name):
        return ""
    v = I.lookup_name(f.id, st, fr)
    return ".".join([str(v.a[0])] + tail) if v is not None and v.k == "ext" else ""


def closed_calls(calls, mark):
    """the calls of a guarded block, with the loop variables opened inside it closed"""
    out = []
    for t in calls:
        c = subst(t, {v: mk("tv", i) for i, v in enumerate(x for x in fvs(t) if x.a[0] > mark)})
        if c not in out:
            out.append(c)
    return tuple(out)


def fvs(t):
    out, stack = [], [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack += list(x)[::-1]
        elif isinstance(x, T) and x.fv:
            if x.k == "fv" and x not in out:
                out.append(x)
            stack += list(x.a)[::-1]
    return out
