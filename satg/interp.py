"""Evaluator: source -> summary (guarded effects + returned value)."""
from __future__ import annotations
import ast, builtins
from .terms import *
from .sem import *
from .interp_base import *
from .interp_stmt import StmtMixin, fresh_t
from .interp_expr import ExprMixin, canon_ext
from .interp_attr import AttrMixin
from .interp_call import CallMixin
from .program import FuncInfo, Prop, ClassInfo, AnalysisBroken


class Interp(StmtMixin, ExprMixin, AttrMixin, CallMixin):
    def __init__(self, prog, opened=()):
        self.prog = prog
        self.bound = {k: v for k, v in BOUND.items() if k not in opened}
        PROG[0] = prog
        self.unknowns, self.tags, self.handlers, self.outer = [], {}, [], []
        self.nlist, self.nounroll, self.stack, self.clos = 0, False, [], {}
        self.consumed = {}
        self.cur, self.opt, self.recursive, self.fns = None, 0, set(), {}
        self.inlined = {}
        self.throwers, self.silent, self.catching = dict(THROWS), 0, False

    def unknown(self, fr, node, msg):
        self.unknowns.append((self.loc(node, fr), msg))

    def loc(self, node, fr):
        n = node if node is not None and hasattr(node, "lineno") else self.cur
        return f"{fr.module.rel}:{getattr(n, 'lineno', 0)}"

    # ---- names --------------------------------------------------------------------
    def lookup_name(self, name, st, fr):
        v = st.env.get(name)
        if v is not None and v is not UNDEF:
            return v
        if v is UNDEF:
            return mk("unk", "unbound", name)
        f = fr
        if f.closure is not None and name in f.closure:
            return f.closure[name]
        return self.resolved(self.prog.lookup(fr.module, name), st, fr, name)

    def resolved(self, r, st, fr, name=None):
        if isinstance(r, ClassInfo):
            return mk("cls", r.name)
        if isinstance(r, FuncInfo):
            k = f"{r.module.name}.{r.name}"
            self.fns[k] = r
            return mk("fn", k)
        if isinstance(r, tuple):
            if r[0] == "mod":
                return mk("mod", r[1]) if r[1] in self.prog.modules else mk("ext", r[1])
            if r[0] == "ext":
                return mk("ext", canon_ext(r[1]))
            if r[0] == "val":
                return self.const_expr(r[1], r[2], st, fr)
        if r is None and name is not None and hasattr(builtins, name):
            return mk("ext", "builtins." + name)
        return None

    # ---- effects --------------------------------------------------------------------
    def emit(self, op, args, st, fr, mods):
        if st.pc is FALSE:
            return
        if op == "warn" and self.silent:
            return
        args = tuple(self.val(a, st) if isinstance(a, T) else a for a in args)
        self.may_throw(op if op != "create" else kind_of(classes_of(tyof(args[0]))[0]) + ".__init__", st, fr)
        st.fx.append(Eff(op, args, st.pc, self.loc(None, fr), frozenset(mods), self.opt > 0, self.stack[-1].qual if self.stack else ""))
        self.after_mods(mods, st, args[0] if op == "write" else None)

    def after_mods(self, mods, st, obj=None):
        if not mods:
            return
        mods = set(mods)
        if st.heap:
            st.heap = {k: v for k, v in st.heap.items()
                       if not hits(mods, k[1], k[0]) or (obj is not None and k[0] is not obj and self.distinct(k[0], obj))}
        for f in mods:
            st.ver[f] = st.ver.get(f, 0) + 1
        for k in list(st.cont):
            if k.k == "attr" and hits(mods, "*" + k.a[1], k.a[0]):
                del st.cont[k]
            elif k in st.esc and hits(mods, "*" + st.esc[k][1], st.esc[k][0]):
                o, f = st.esc[k]
                st.cont[k] = mk("at", ATTR(o, f, 0), ver_of(st.ver, o, "*" + f))

    def distinct(self, a, b):
        ka, kb = classes_of(tyof(a)), classes_of(tyof(b))
        if ka and kb and kind_of(ka[0]) != kind_of(kb[0]):
            return True
        return IS(a, b) is FALSE

    # ---- specs: allowed-but-not-required effects ---------------------------------------
    def s_With(self, s, st, fr):
        e = s.items[0].context_expr
        if isinstance(e, ast.Name) and e.id == "OPTIONAL":
            self.opt += 1
            self.block(s.body, st, fr)
            self.opt -= 1
            return
        StmtMixin.s_With(self, s, st, fr)

    # ---- entry ----------------------------------------------------------------------------
    def s_Expr(self, s, st, fr):
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "REQUIRE" and fi_is_spec(fr):
            self.pre = self.cond(v.args[0], st, fr)
            st.pc = AND(st.pc, self.pre)
            return
        StmtMixin.s_Expr(self, s, st, fr)

    def summarize(self, fi, params, pre=TRUE):
        """params: list of (name, term) bound by position; extra impl parameters take their defaults"""
        self.unknowns, self.tags, self.handlers, self.outer = [], {}, [], []
        self.nlist, self.stack = 0, []
        st = State()
        if fi.opaque:
            self.unknowns.append((fi.loc, f"{fi.qual} is {fi.opaque}"))
        st.pc, self.pre = pre, pre
        fr = Frame(fi, fi.module, fi.cls)
        pos, va, ko, kwa = self.params(fi)
        names = pos + ([va] if va else []) + ko + ([kwa] if kwa else [])
        env = {}
        terms = [t for _, t in params]
        for i, nm in enumerate(names):
            if i < len(terms):
                env[nm] = terms[i]
            else:
                d = self.default_of(fi, nm, st, fr)
                if d is None:
                    d = mk("unk", "param", nm)
                    self.unknowns.append((fi.loc, f"extra parameter {nm}"))
                env[nm] = d
        if len(terms) > len(names):
            self.unknowns.append((fi.loc, "fewer parameters than the contract"))
        fr.selfterm = terms[0] if terms else None
        st.env = env
        self.stack.append(fi)
        from .interp_call import has_yield
        if has_yield(fi.node):
            fr.gen = self.new_list(EMPTY, st)
        self.block(fi.node.body, st, fr)
        self.stack.pop()
        outs = [(s, v) for s, v in fr.rets if s.pc is not FALSE]
        if st.pc is not FALSE:
            outs.append((st, NONE))
        if fr.gen is not None:
            outs = [(s, fr.gen) for s, _ in outs]
        if not outs:
            ret = NONE
        else:
            tot = OR(*[s.pc for s, _ in outs])
            ret = self.val(outs[-1][1], outs[-1][0])
            for s, v in reversed(outs[:-1]):
                ret = ITE(restrict(s.pc, tot), self.val(v, s), ret)
        if fr.gen is not None:
            ret = mk("iter", ret)
        if ret.k == "iter":
            x = ret.a[0]
            # going through the elements of x in order is going through x
            if x.k == "comp" and x.a[1] is TRUE and x.a[2].k == "elt" and x.a[2].a[1] is mk("bv", x.a[3]) and x.a[0] is LEN(x.a[2].a[0]):
                x = x.a[2].a[0]
            elif x.k == "comp" and x.a[1] is TRUE and x.a[2].k == "elt" and x.a[0] is LEN(x.a[2].a[0]) and \
                    x.a[2].a[1] is sub(sub(x.a[0], num(1)), mk("bv", x.a[3])):
                x = mk("rev", x.a[2].a[0])
            ret = x if x.k in ("iter", "rev") else mk("iter", x)
        return Summary(st.fx, ret, list(self.unknowns), fi)


def fi_is_spec(fr):
    return fr.module.name.startswith("specs.")
