"""Expression part of the evaluator."""
from __future__ import annotations
import ast
from .terms import *
from .sem import *
from .interp_base import *
from .interp_stmt import fresh_t
from .theory import implies

PRAATIO = {"Interval", "Point", "IntervalTier", "PointTier", "Textgrid", "openTextgrid"}


def canon_ext(d):
    if d.startswith("praatio"):
        last = d.split(".")[-1]
        if last in PRAATIO:
            return "praatio." + last
    return {"numpy.concat": "numpy.concatenate", "numpy.absolute": "numpy.abs", "typing.Sequence": "collections.abc.Sequence",
            "numpy.asarray": "numpy.array"}.get(d, d)


class ExprMixin:
    # ---- values ---------------------------------------------------------------
    def new_list(self, v, st):
        self.nlist += 1
        r = mk("lref", self.nlist)
        st.cont[r] = v
        return r

    def content(self, t, st):
        """The current contents of a list-like value."""
        if t.k == "vals":
            t = t.a[0]
        seen = 0
        while seen < 8:
            seen += 1
            if t in st.cont:
                n = st.cont[t]
                if n is t:
                    return t
                t = n
                if t.k != "lref":
                    return t
                continue
            break
        if t.k == "ite":
            return ITE(t.a[0], self.content(t.a[1], st), self.content(t.a[2], st))
        if t.k == "attr":
            v = ver_of(st.ver, t.a[0], "*" + t.a[1])
            if v and tyof(t).startswith(("SL", "list")):
                return mk("at", t, v)
        return t

    def val(self, t, st):
        """Freeze a value: replace references to local lists by their contents."""
        if t.k == "vals":
            t = t.a[0]
        if t.k == "lref":
            return self.val(self.content(t, st), st)
        if not self._has_ref(t, st):
            return self.content(t, st) if t.k == "attr" else t
        refs = {}
        self._refs(t, refs)
        for _ in range(6):
            m = {r: self.content(r, st) for r in refs}
            t = subst(t, m)
            refs = {}
            self._refs(t, refs)
            if not refs:
                break
        return t

    def _refs(self, t, acc, seen=None):
        seen = set() if seen is None else seen
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st += list(x)
                continue
            if not isinstance(x, T) or x in seen:
                continue
            seen.add(x)
            if x.k == "lref":
                acc[x] = 1
            st += list(x.a)

    def _has_ref(self, t, st):
        acc = {}
        self._refs(t, acc)
        return bool(acc)

    def list_set(self, ref, new, st, fr):
        """The list object `ref` now has contents `new`."""
        if ref.k == "vals":
            ref = ref.a[0]
        if ref.k == "ite":
            c = ref.a[0]
            self.branch(c, lambda s: self.list_set(ref.a[1], given(new, c), s, fr),
                        lambda s: self.list_set(ref.a[2], given(new, NOT(c)), s, fr), st)
            return
        old = self.content(ref, st)
        if ref.k == "lref":
            st.cont[ref] = new
            if ref in st.esc:
                self.escaped_update(ref, new, st, fr, None)
            return
        mods = frozenset()
        st.cont[ref] = new
        if ref.k == "attr":
            k = fkind(ref.a[0])
            mods = frozenset({"*" + ref.a[1] + (":" + k if k else "")})
        self.emit("lset", (ref, self.val(new, st)), st, fr, mods)

    def escaped_update(self, ref, new, st, fr, loc):
        if ref in st.esc:
            o, f = st.esc[ref]
            self.emit("lset", (ATTR(o, f), self.val(new, st)), st, fr, frozenset({"*" + f}))
        elif ref.k == "attr":
            self.emit("lset", (ref, self.val(new, st)), st, fr, frozenset({"*" + ref.a[1]}))
        elif ref.k == "p":
            self.emit("lset", (ref, self.val(new, st)), st, fr, frozenset())

    def list_extend(self, ref, items, st, fr):
        c = self.content(ref, st)
        if ref.k in ("seq", "comp", "cat"):
            return          # mutation of a temporary
        self.list_set(ref, CAT(c, items), st, fr)

    def as_seq(self, t, st, fr):
        """Any iterable value as a sequence term."""
        t = self.val(t, st)
        if t.k in ("seq", "comp", "cat", "flat", "slice", "rev", "arr", "slist", "sladd", "sorted"):
            return t
        if t.k == "ite" and all(x.k in ("seq", "comp", "cat", "flat", "slice", "slist") for x in leaves(t)):
            return t
        n, elem, g, live = self.domain(t, st, fr)
        b = fresh("i")
        e = elem(b)
        if g(b) is TRUE and e.k == "elt" and e.a[1] is b and n is LEN(e.a[0]):
            return e.a[0]
        return COMP(n, g(b), e, b)

    def domain(self, t, st, fr):
        """-> (n, elem(i), guard(i), live term or None)"""
        T1 = lambda b: TRUE
        live = None
        if t.k == "lref":
            t = self.content(t, st)
            if t.k == "slist":
                t = self.val(t, st)
        if t.k == "iter":
            return self.domain(t.a[0], st, fr)
        if t.k == "enum":
            n, el, g, lv = self.domain(t.a[0], st, fr)
            if self._guarded(g):
                c = self.as_seq(t.a[0], st, fr)
                n, el, g = LEN(c), (lambda b: ELT(c, b)), T1
            s0 = t.a[1]
            return n, (lambda b: SEQ([add(b, s0), el(b)])), g, lv
        if t.k == "zip":
            ds = [self.domain(x, st, fr) for x in t.a[0]]
            seqs = []
            for x, d in zip(t.a[0], ds):
                if self._guarded(d[2]):
                    c = self.as_seq(x, st, fr)
                    d = (LEN(c), (lambda b, c=c: ELT(c, b)), T1, None)
                seqs.append(d)
            n = seqs[0][0]
            for d in seqs[1:]:
                n = self.minlen(n, d[0], st)
            lv = next((d[3] for d in seqs if d[3] is not None), None)
            return n, (lambda b: SEQ([d[1](b) for d in seqs])), T1, lv
        ty = tyof(t)
        if t.k in ("attr", "p", "elt", "new", "first", "fv", "ite", "at", "fold") and classes_of(ty):
            r = self.obj_domain(t, ty, st, fr)
            if r is not None:
                return r
        c = self.content(t, st)
        if t.k in ("attr", "at", "p", "elt"):
            live = t
        c = self.val(c, st) if c.k != "attr" else c
        if c.k == "arr":
            c = c.a[0]
        if c.k == "comp":
            n, g, e, h = c.a
            return n, (lambda b: open_bv(e, h, b)), (lambda b: open_bv(g, h, b)), None
        if c.k == "dict":
            c = SEQ([k for k, _ in c.a[0]])
        if c.k == "items":
            c = c.a[0]
        if c.k == "set":
            inner = c
            return LEN(inner), (lambda b: ELT(inner, b)), T1, None
        return LEN(c), (lambda b: ELT(c, b)), T1, live

    def _guarded(self, g):
        b = fresh("i")
        return g(b) is not TRUE

    def minlen(self, a, b, st=None):
        if a is b:
            return a
        d = sub(a, b)
        if st is not None and d.k != "int":
            for x, y in sorted(((a, b), (b, a)), key=lambda q: q[0].id):
                if implies(st.pc, LE0(sub(x, y)))[0]:
                    return x
        if d.k == "int":
            return a if d.a[0] < 0 else b
        if a.id > b.id:
            a, b = b, a
        return mk("call", "min2", a, b)

    def same_len(self, n, st):
        """the length, by the one name that lengths known to be equal here go by"""
        if n.k != "len" or st.pc.k != "bdd":
            return n
        best = n
        for a in atoms(st.pc):
            if a.k != "le0":
                continue
            d, c = lin_parts(a.a[0])
            if len(d) == 2 and n in d and sum(d.values()) == 0:
                m = next(x for x in d if x is not n)
                if m.k == "len" and m.id < best.id and implies(st.pc, EQ(m, n))[0]:
                    best = m
        return best

    def obj_domain(self, t, ty, st, fr):
        cs = [self.prog.classes.get(c) for c in classes_of(ty)]
        if not cs or None in cs:
            return None
        itf = {id(c.lookup("__iter__")): c.lookup("__iter__") for c in cs}
        if len(itf) == 1 and list(itf.values())[0] is not None:
            f = list(itf.values())[0]
            r = self.inline(f, [t], {}, st, fr)
            return self.domain(r, st, fr)
        gi = {id(c.lookup("__getitem__")) for c in cs}
        ok = all(c.lookup("__getitem__") and c.lookup("__len__") for c in cs)
        if not ok:
            return None
        n = self.call_method(t, "__len__", [], {}, st, fr)
        b = fresh("i")
        e = self.call_method(t, "__getitem__", [b], {}, st, fr)
        live = e.a[0] if e.k == "elt" else None
        return n, (lambda x: subst1(e, b, x)), (lambda x: TRUE), live

    # ---- conditions -------------------------------------------------------------
    def cond(self, e, st, fr):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = TRUE if isand else FALSE
            pc0 = st.pc
            skipped = FALSE
            for v in e.values:
                if isand:
                    if acc is FALSE:
                        break
                    run = acc
                else:
                    if acc is TRUE:
                        break
                    run = NOT(acc)
                st.pc = AND(pc0, run)
                if st.pc is FALSE:
                    st.pc = pc0
                    continue
                before = st.pc
                c = self.cond(v, st, fr)
                lost = AND(before, NOT(st.pc))
                pc0 = AND(pc0, NOT(lost))
                acc = AND(acc, c) if isand else OR(acc, c)
            st.pc = pc0
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return NOT(self.cond(e.operand, st, fr))
        v = self.ev(e, st, fr)
        return self.truth(v, st, fr)

    def truth(self, v, st, fr):
        c = self.content(v, st) if v.k in ("lref", "attr", "vals") else v
        if v.k == "vals" and c is v.a[0]:
            return NOT(LE0(LEN(c)))
        if c.k == "ite":
            return bite(c.a[0], self.truth(c.a[1], st, fr), self.truth(c.a[2], st, fr))
        cs = classes_of(tyof(c))
        if cs and c.k not in ("none", "attr", "ite") and not tyof(c).startswith("cls:") and all(kind_of(k) in ("seq", "tier", "group", "grid") for k in cs):
            return self.nonempty(c, cs, st, fr)
        return TRUTH(c)

    def nonempty(self, c, cs, st, fr):
        """objects with a length are false when it is 0; those that hold another one (its parent, tier, container) never are"""
        sized = [k for k in cs if self.prog.classes[k].lookup("__len__") is not None]
        if not sized:
            return NOT(ISNONE(c))
        if len(sized) < len(cs):
            return TRUTH(c)
        n = self.call_method(c, "__len__", [], {}, st, fr, None)
        return AND(NOT(ISNONE(c)), NOT(LE0(self.val(n, st))))

    # ---- expressions --------------------------------------------------------------
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown(fr, e, f"expression {type(e).__name__}")
            return mk("unk", type(e).__name__, ast.dump(e)[:80])
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        v = self.lookup_name(e.id, st, fr)
        if v is None:
            self.unknown(fr, e, f"name {e.id}")
            return mk("unk", "name", e.id)
        return pick(v, AND(st.pc, *self.outer)) if v.k == "ite" else v

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return st.env[e.target.id]

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.consumed[id(x.value)] = x.value
                    parts.append(copy_of(self.as_seq(self.ev(x.value, st, fr), st, fr)))
                else:
                    parts.append(SEQ([self.ev(x, st, fr)]))
            return CAT(*parts)
        return SEQ([self.ev(x, st, fr) for x in e.elts])

    e_List = e_Tuple

    def e_Set(self, e, st, fr):
        return SET(self.val(self.e_Tuple(e, st, fr), st))

    def e_Dict(self, e, st, fr):
        if e.keys == [None]:
            v = self.val(self.ev(e.values[0], st, fr), st)
            return v if v.k == "dict" else mk("call", "dict", v)
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.unknown(fr, e, "dict unpacking")
                continue
            items.append((self.val(self.ev(k, st, fr), st), self.val(self.ev(v, st, fr), st)))
        return mk("dict", tuple(items))

    def e_DictComp(self, e, st, fr):
        fake = ast.ListComp(ast.Tuple([e.key, e.value], ast.Load()), e.generators)
        s = self.comp(fake.generators, fake.elt, st, fr)
        if s.k == "seq" and all(x.k == "seq" for x in s.a[0]):
            d = mk("dict", ())
            for x in s.a[0]:
                d = self.dict_put(d, x.a[0][0], x.a[0][1])
            return d
        return mk("dictof", s)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(mk("str", v.value))
            else:
                x = self.val(self.ev(v.value, st, fr), st)
                spec = ast.unparse(v.format_spec) if v.format_spec is not None else ""
                conv = v.conversion
                if spec or (conv not in (-1, 115)):
                    x = mk("call", "format", x, mk("str", spec + str(conv)))
                elif x.k == "int":
                    x = mk("str", str(x.a[0]))
                parts.append(x)
        return FMT(parts)

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        box = {}

        def run(key, ex):
            def f(s):
                v = self.ev(ex, s, fr)
                if isinstance(ex, (ast.List, ast.ListComp)):
                    v = self.new_list(v, s)
                box[key] = v
                s.env["\0ife"] = box[key]
            return f
        p1, p0 = AND(st.pc, c), AND(st.pc, NOT(c))
        if p0 is FALSE:
            return self.ev(e.body, st, fr)
        if p1 is FALSE:
            return self.ev(e.orelse, st, fr)
        self.branch(c, run(1, e.body), run(0, e.orelse), st)
        if 1 in box and 0 in box:
            return ITE(c, box[1], box[0])
        return box.get(1, box.get(0, NONE))

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        vals = []
        pc0 = st.pc
        run = TRUE
        for x in e.values:
            st.pc = AND(pc0, run)
            if st.pc is FALSE:
                break
            v = self.ev(x, st, fr)
            c = self.truth(v, st, fr)
            if isinstance(x, (ast.List, ast.ListComp)):
                v = self.new_list(v, st)
            vals.append((c, v))
            run = AND(run, c if isand else NOT(c))
        st.pc = pc0
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = ITE(c, r, v) if isand else ITE(c, v, r)
        return r

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return self.cond(e, st, fr)
        v = self.val(self.ev(e.operand, st, fr), st)
        if isinstance(e.op, ast.USub):
            return scale(v, Fraction(-1)) if not isarr(v) else mk("op", "neg", v)
        if isinstance(e.op, ast.Invert):
            if v.k == "op" and v.a[0] == "~":
                return v.a[1]
            return mk("op", "~", v)
        return v

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.arith(self.OPS[type(e.op)], a, b, st, fr)

    def arith(self, op, a, b, st, fr):
        if op == "+" and a.k == "vals":
            # the plain list inside a sequence list
            return CAT(self.val(self.content(a, st), st), copy_of(self.as_seq(b, st, fr)))
        for t in (a,):
            cs = classes_of(tyof(t))
            if op == "+" and cs and cs[0] in self.prog.classes and t.k != "lref":
                return self.call_method(t, "__add__", [b], {}, st, fr)
        a, b = self.val(a, st), self.val(b, st)
        if op in ("&", "|"):
            bo = ("true", "false", "bdd")
            if a.k in bo and b.k in bo:
                return AND(a, b) if op == "&" else OR(a, b)
            if a.k == "set" or b.k == "set":
                return mk("op", op, a, b)
            x, y = sorted((a, b), key=lambda t: t.id)
            return mk("op", op, x, y)
        if op == "*" and (isseq(a) or isseq(b)) and not (isarr(a) or isarr(b)):
            if isseq(b):
                a, b = b, a
            if a.k == "seq" and len(a.a[0]) == 1 and tyof(b) == "int":
                i = fresh("i")
                return COMP(b, TRUE, a.a[0][0], i)
            return mk("rep", a, b)
        if op == "+" and (tyof(a).startswith("list") or isseq(a)) and not isarr(a) and not tyof(a).startswith("SL") and a.k not in ("slist", "sladd", "mut"):
            return CAT(a, self.as_seq(b, st, fr))
        return ARITH(op, a, b)

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        acc = TRUE
        first = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            c = self.compare(op, left, right, st, fr)
            if c.k not in ("true", "false", "bdd"):
                if len(e.ops) == 1:
                    return c
                c = TRUTH(c)
            acc = AND(acc, c)
            left = right
        return acc

    def compare(self, op, a, b, st, fr):
        if isinstance(op, (ast.Is, ast.IsNot)):
            va, vb = (a, b)
            if a.k == "lref" or b.k == "lref":
                r = TRUE if a is b else FALSE
            else:
                r = IS(a, b)
            return r if isinstance(op, ast.Is) else NOT(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st, fr)
            return r if isinstance(op, ast.In) else NOT(r)
        a, b = self.val(a, st), self.val(b, st)
        if isarr(a) or isarr(b):
            if isinstance(op, (ast.Gt, ast.GtE)):
                a, b = b, a
            nm = {"Lt": "<", "Gt": "<", "LtE": "<=", "GtE": "<=", "Eq": "==", "NotEq": "!="}[type(op).__name__]
            if nm in ("==", "!=") and a.id > b.id:
                a, b = b, a
            # elementwise over comprehensions with a common domain
            return mk("op", nm, a, b)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return NOT(self.eq(a, b))
        if a.k in ("set",) or b.k in ("set",):
            return atom(mk("setcmp", type(op).__name__, a, b))
        if isinstance(op, ast.Lt):
            return LT(a, b)
        if isinstance(op, ast.LtE):
            return LE(a, b)
        if isinstance(op, ast.Gt):
            return LT(b, a)
        return LE(b, a)

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            # [] == xs  <->  len(xs) == 0
            if x is EMPTY and isseq(y):
                return LE0(LEN(y))
        return EQ(a, b)

    def contains(self, x, s, st, fr):
        ty = tyof(s)
        if s.k == "vals":
            return atom(mk("in", self.val(x, st), self.val(s, st)))
        cs = classes_of(ty)
        if cs and all(c in self.prog.classes for c in cs):
            cl = [self.prog.classes[c] for c in cs]
            fs = {id(c.lookup("__contains__")): c.lookup("__contains__") for c in cl}
            if len(fs) == 1 and list(fs.values())[0] is not None:
                f = list(fs.values())[0]
                if kind_of(cs[0]) == "SL":
                    return IN(self.val(x, st), self.val(s, st))
                r = self.inline(f, [s, x], {}, st, fr)
                return self.truth(r, st, fr)
            d = self.obj_domain(s, ty, st, fr)
            if d is not None:
                seq = self.as_seq(s, st, fr)
                x = self.val(x, st)
                return atom(mk("in", x, seq))
        c = self.content(s, st)
        return IN(self.val(x, st), self.val(c, st))

    def e_Lambda(self, e, st, fr):
        return self.closure(e, st, fr)

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Attribute(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        return self.get_attr(o, self.mangle(e.attr, fr), st, fr)

    def e_Subscript(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        if o.k in ("cls", "ext", "fn"):
            return o                                  # a type expression
        if isinstance(e.slice, ast.Slice):
            f = lambda x: NONE if x is None else self.val(self.ev(x, st, fr), st)
            lo, hi, sp = f(e.slice.lower), f(e.slice.upper), f(e.slice.step)
            if classes_of(tyof(o)):
                o = self.as_seq(o, st, fr)
            return SLICE(self.val(o, st), lo, hi, sp)
        i = self.ev(e.slice, st, fr)
        return self.index_val(o, i, st, fr)

    def caught_here(self, name, fr):
        """a handler without a loop in between is ready for the error"""
        if fr is None:
            return False
        for h in reversed(self.handlers):
            if catches(h, name):
                return self.straight(fr, h)
        return False

    def may_miss(self, c, i, st, fr):
        """an index under a handler for IndexError: the error is raised when there is no such element"""
        if not self.handlers or not (isseq(c) or c.k == "attr" and tyof(c).startswith(("list", "SL"))) or i.fv or not self.caught_here("IndexError", fr):
            return
        n = LEN(c)
        ok = AND(NOT(LE0(sub(n, i))), TRUE if i.k == "int" and i.a[0] >= 0 else LE0(sub(sub(ZERO, n), i)))
        if i.k == "int" and i.a[0] < 0:
            ok = LE0(sub(sub(ZERO, n), i))
        self.branch(NOT(ok), lambda z: self.do_raise("IndexError", z, fr), lambda z: None, st)

    def index_val(self, o, i, st, fr):
        i = self.val(i, st)
        cs = classes_of(tyof(o))
        if cs and all(c in self.prog.classes for c in cs) and kind_of(cs[0]) != "SL" and o.k != "lref":
            return self.call_method(o, "__getitem__", [i], {}, st, fr)
        c = self.content(o, st)
        if c.k == "dict":
            for k, v in c.a[0]:
                if k is i:
                    return v
            if c.a[0]:
                known = IN(i, c)
                if not implies(st.pc, known)[0]:
                    self.branch(NOT(known), lambda x: self.do_raise("KeyError", x, fr), lambda x: None, st)
                r = c.a[0][-1][1]
                for k, v in c.a[0][:-1]:
                    r = ITE(EQ(i, k), v, r)
                return r
        c2 = c
        self.may_miss(self.val(c, st), i, st, fr)
        if c.k in ("seq",) and i.k == "int":
            return ELT(c, i)
        if c.k == "cat":
            r = ELT(c, i)
            if r.k == "lref":
                return r
        return ELT(self.val(c2, st), i)

    # ---- comprehensions -------------------------------------------------------------
    def e_ListComp(self, e, st, fr):
        return self.comp(e.generators, e.elt, st, fr)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        return SET(self.val(self.comp(e.generators, e.elt, st, fr), st))

    def ev_iter(self, e, st, fr):
        t = self.ev(e, st, fr)
        return self.domain(t, st, fr)

    def comp_loop(self, t, gens, elt, st, fr):
        acc, it = f"\0acc{len(fr.loops)}", f"\0it{len(fr.loops)}"
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [elt], []))]
        for g in reversed(gens):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, ast.Name(it, ast.Load()) if g is gens[0] else g.iter, body, [])]
        names = {x.id for g in gens for x in ast.walk(g.target) if isinstance(x, ast.Name)} | {acc, it}
        old = {n: st.env[n] for n in names if n in st.env}
        st.env[acc], st.env[it] = self.new_list(EMPTY, st), t
        self.block([ast.fix_missing_locations(ast.copy_location(x, elt)) for x in body], st, fr)
        r = st.env[acc]
        for n in names:
            st.env.pop(n, None)
        st.env.update(old)
        return r

    def comp(self, gens, elt, st, fr):
        g = gens[0]
        t = self.ev(g.iter, st, fr)
        c = self.flat_of(t, st)
        if c is not None:
            st.env["\0fl"] = c.a[0]
            st.env.pop("\0fe", None)
            n1, n2 = ast.Name("\0fe", ast.Store()), ast.Name("\0fe", ast.Load())
            return self.comp([ast.comprehension(n1, ast.Name("\0fl", ast.Load()), [], 0),
                              ast.comprehension(g.target, n2, g.ifs, 0)] + list(gens[1:]), elt, st, fr)
        n, elem, gf, live = self.domain(t, st, fr)
        n = self.same_len(n, st)
        b = fresh("i")
        u0, tags0 = len(self.unknowns), dict(self.tags)
        s2 = st.copy()
        s2.fx = []
        s2.pc = TRUE
        ctx = LoopCtx()
        fr.loops.append(ctx)
        self.assign(g.target, elem(b), s2, fr)
        guard = gf(b)
        for c in g.ifs:
            s2.pc = guard if guard is not TRUE else TRUE
            k = self.cond(c, s2, fr)
            guard = AND(guard, k)
        s2.pc = TRUE
        if guard is not FALSE:
            if len(gens) == 1:
                v = self.val(self.ev(elt, s2, fr), s2)
                r = COMP(n, guard, v, b)
            else:
                inner = self.comp(gens[1:], elt, s2, fr)
                r = FLAT(COMP(n, guard, self.val(inner, s2), b))
        else:
            r = EMPTY
        fr.loops.pop()
        fx = [self.guarded(e, guard) for e in s2.fx]
        if fx:
            if not all(isinstance(e, Eff) and e.op in ("raise", "warn") for e in fx):
                # what it builds changes objects on the way: a loop that fills a list
                del self.unknowns[u0:]
                self.tags = tags0
                return self.comp_loop(t, gens, elt, st, fr)
            if all(isinstance(e, Eff) and e.op == "raise" for e in fx):
                for e in fx:
                    gg = EX(n, e.guard, b)
                    if gg is not FALSE:
                        st.fx.append(Eff("raise", e.args, AND(st.pc, gg), e.loc, e.mods, e.opt, e.fn))
            else:
                st.fx.append(Loop(n, b, st.pc, fx, None, [], self.loc(None, fr), "for", None, fr.fi.qual))
                self.after_mods(self.body_fields(fx), st)
        rz = [x for x in ctx.brk if x[1] == "raise"]
        if rz:
            E = EX(n, AND(guard, OR(*[x[0].pc for x in rz])), b)
            st.pc = AND(st.pc, NOT(E))
        return r
