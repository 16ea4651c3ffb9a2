"""Calls: boundaries, inlining, builtins, library vocabulary."""
from __future__ import annotations
import ast
from functools import lru_cache
from .terms import *
from .sem import *
from .interp_base import *
from .interp_stmt import fresh_t
from .norm import find_ite
from .program import FuncInfo, Prop, ClassInfo

ALLCLOSE = {"rtol": "1e-05", "atol": "1e-08", "equal_nan": "False"}
EXT_SIG = {
    "praatio.Interval": ("start", "end", "label"), "praatio.Point": ("time", "label"),
    "praatio.IntervalTier": ("name", "entries", "minT", "maxT"), "praatio.PointTier": ("name", "entries", "minT", "maxT"),
    "praatio.Textgrid": ("minTimestamp", "maxTimestamp"),
    "praatio.openTextgrid": ("fnFullPath", "includeEmptyIntervals", "reportingMode", "duplicateNamesMode"),
    "numpy.linspace": ("start", "stop", "num"),
    "addTier": ("tier", "tierIndex", "reportingMode"),
    "save": ("fn", "format", "includeBlankSpaces", "minTimestamp", "maxTimestamp", "minimumIntervalLength", "reportingMode"),
}
EXT_DEFAULT = {("addTier", "reportingMode"): "warning"}
EXT_MUT = {"addTier", "save", "write_text", "write", "unlink", "removeTier", "replaceTier", "write_csv", "write_parquet"}
DICT_MUT = {"pop", "popitem", "clear", "setdefault"}
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "reverse", "sort", "clear"}


AS_LAMBDA = {"operator.eq": "lambda a, b: a == b", "operator.ne": "lambda a, b: a != b", "operator.lt": "lambda a, b: a < b",
             "operator.le": "lambda a, b: a <= b", "operator.gt": "lambda a, b: a > b", "operator.ge": "lambda a, b: a >= b",
             "operator.is_": "lambda a, b: a is b", "operator.is_not": "lambda a, b: a is not b", "operator.not_": "lambda a: not a",
             "operator.contains": "lambda a, b: b in a", "operator.getitem": "lambda a, b: a[b]", "operator.truth": "lambda a: bool(a)",
             "itertools.starmap": "lambda f, it: [f(*x) for x in it]", "itertools.filterfalse": "lambda f, it: [x for x in it if not f(x)]"}


@lru_cache(None)
def lambda_of(src):
    return ast.parse(src, mode="eval").body


def is_state(v):
    """an object's own dictionary, or a copy of it"""
    while v.k == "call" and v.a[0] in (".copy", "dict") and len(v.a) == 2:
        v = v.a[1]
    return v.k == "attr" and v.a[1] == "__dict__"


def has_yield(node):
    """is the function a generator (nested functions aside)?"""
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st += list(ast.iter_child_nodes(x))
    return False


class CallMixin:
    # ---- arguments ------------------------------------------------------------------
    def args_of(self, e, st, fr):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                s = self.content(v, st) if v.k == "lref" else v
                if s.k == "seq":
                    args += list(s.a[0])
                else:
                    q = self.as_seq(v, st, fr)
                    if q.k == "seq":
                        args += list(q.a[0])
                    else:
                        args.append(mk("star", q))
            else:
                args.append(self.ev(a, st, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.val(self.ev(k.value, st, fr), st)
                if v.k == "dict" and all(x.k == "str" for x, _ in v.a[0]):
                    for x, y in v.a[0]:
                        kw[x.a[0]] = y
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = self.ev(k.value, st, fr)
        return args, kw

    def e_Call(self, e, st, fr):
        f = e.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                args, kw = self.args_of(e, st, fr)
                return self.super_call(self.mangle(f.attr, fr), args, kw, st, fr)
            o = self.ev(f.value, st, fr)
            if o.k == "ext":
                args, kw = self.args_of(e, st, fr)
                return self.ext_call(self.canon(o.a[0] + "." + f.attr), args, kw, st, fr, e)
            if o.k == "mod":
                g = self.get_attr(o, f.attr, st, fr)
                args, kw = self.args_of(e, st, fr)
                return self.call(g, args, kw, st, fr, e)
            args, kw = self.args_of(e, st, fr)
            if st.pc is FALSE:
                return NONE
            return self.call_method(o, self.mangle(f.attr, fr), args, kw, st, fr, e)
        g = self.ev(f, st, fr)
        if g.k == "ext" and g.a[0] in ("builtins.any", "builtins.all") and len(e.args) == 1:
            return self.anyall(g.a[0][9:], e.args[0], st, fr)
        if g.k == "ext" and g.a[0] in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.set") and len(e.args) == 1:
            self.consumed[id(e.args[0])] = e.args[0]
        args, kw = self.args_of(e, st, fr)
        if st.pc is FALSE:
            return NONE
        return self.call(g, args, kw, st, fr, e)

    def anyall(self, which, e, st, fr):
        neg = which == "all"
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)):
            gens = e.generators
            return self.anycomp(gens, e.elt, neg, st, fr)
        v = self.ev(e, st, fr)
        return self.anyseq(v, neg, st, fr)

    def anyseq(self, v, neg, st, fr):
        n, elem, g, _ = self.domain(v, st, fr)
        if n.k == "int" and n.a[0] <= 8:
            cs = [(g(mk("int", i)), self.truth(elem(mk("int", i)), st, fr)) for i in range(n.a[0])]
            return AND(*[OR(NOT(h), c) for h, c in cs]) if neg else OR(*[AND(h, c) for h, c in cs])
        b = fresh("i")
        c = self.truth(elem(b), st, fr)
        r = EX(n, AND(g(b), NOT(c) if neg else c), b)
        return NOT(r) if neg else r

    def anycomp(self, gens, elt, neg, st, fr):
        g = gens[0]
        n, elem, gf, _ = self.ev_iter(g.iter, st, fr)
        if n.k == "int" and n.a[0] <= 8:
            rs = [self.anyone(gens, elt, neg, mk("int", i), elem, gf, st, fr) for i in range(n.a[0])]
            return AND(*[NOT(r) for r in rs]) if neg else OR(*rs)
        b = fresh("i")
        r = EX(n, self.anyone(gens, elt, neg, b, elem, gf, st, fr), b)
        return NOT(r) if neg else r

    def anyone(self, gens, elt, neg, b, elem, gf, st, fr):
        """the condition that one value of the outer iteration is a hit (a miss for all())"""
        g = gens[0]
        s2 = st.copy()
        s2.fx = []
        s2.pc = TRUE
        self.assign(g.target, elem(b), s2, fr)
        guard = gf(b)
        for c in g.ifs:
            guard = AND(guard, self.cond(c, s2, fr))
        if len(gens) == 1:
            c = self.truth(self.ev(elt, s2, fr), s2, fr)
            if neg:
                c = NOT(c)
        else:
            c = self.anycomp(gens[1:], elt, neg, s2, fr)
            if neg:
                c = NOT(c)
        if s2.fx:
            self.unknown(fr, elt, "effects inside any/all")
        return AND(guard, c)

    # ---- callable values -----------------------------------------------------------------
    def call(self, g, args, kw, st, fr, e=None):
        if g.k == "ite":
            a, b = g.a[1], g.a[2]
            box = {}
            self.branch(g.a[0], lambda s: box.__setitem__(1, self.call(a, args, kw, s, fr, e)),
                        lambda s: box.__setitem__(0, self.call(b, args, kw, s, fr, e)), st)
            return ITE(g.a[0], self.val(box.get(1, NONE), st), self.val(box.get(0, NONE), st))
        if g.k == "ext":
            n = g.a[0]
            if n.startswith("builtins."):
                return self.builtin(n[9:], args, kw, st, fr, e)
            return self.ext_call(n, args, kw, st, fr, e)
        if g.k == "cls" or g.k in ("newcls", "typeof") or tyof(g).startswith("cls"):
            return self.construct(g, args, kw, st, fr)
        if g.k == "fn":
            return self.call_fn(self.fns[g.a[0]], args, kw, st, fr)
        if g.k == "clo":
            return self.call_clo(g, args, kw, st, fr)
        if g.k == "partial":
            return self.call(g.a[0], list(g.a[1]) + list(args), {**dict(g.a[2]), **kw}, st, fr, e)
        if g.k == "bound":
            return self.call_method(g.a[0], g.a[1], args, kw, st, fr, e)
        if g.k == "attr" and not g.fv and tyof(g) == "":
            pass
        return mk("call", "apply", self.val(g, st), *[self.val(a, st) for a in args])

    def call_fn(self, fi, args, kw, st, fr):
        if ("fn", fi.name) in self.bound and fi.cls is None:
            mods, pure = self.bound[("fn", fi.name)]
            bound = self.bind_for_boundary(fi, args, kw, st, fr)
            if pure:
                return self.pure_call(fi.name, bound, mods, st, fr)
            self.emit(fi.name, tuple(bound), st, fr, mods)
            return NONE
        return self.inline(fi, args, kw, st, fr)

    def pure_call(self, name, args, reads, st, fr):
        stamp = []
        for f in reads:
            n = sum(v for q, v in st.ver.items() if q == f or q.startswith(f + ":"))
            if n:
                stamp.append((f, n))
        stamp = tuple(stamp)
        args = [self.val(a, st) for a in args]
        t = mk("call", name, *args) if not stamp else mk("call", name, *args, mk("stamp", stamp))
        if name in ("clone_class", "custom_classes"):
            t = mk("call", name, *args, mk("tag", self.tag(name, tuple(args))))
        self.note_call(t)
        self.may_throw(name, st, fr)
        return t

    def note_call(self, t):
        for h in self.handlers[-1:]:
            h["calls"].append(t)

    def tag(self, *key):
        n = self.tags.get(key, 0)
        self.tags[key] = n + 1
        return n

    def call_clo(self, g, args, kw, st, fr):
        node, env, module, cls, home = self.clos[g]
        fi = FuncInfo(getattr(node, "name", "<lambda>"), node, module, None)
        live, f = st.env, fr
        if home is not None and fr is not home:
            # called from another function: the names mean what they mean where the closure was written
            while f is not None and f.parent is not home:
                f = f.parent
            live = f.saved if f is not None else {}
        here = {k: v for k, v in live.items() if v is not UNDEF}
        return self.inline(fi, args, kw, st, fr, closure={**env, **here}, cls=cls, home=home)

    def closure(self, node, st, fr):
        t = mk("clo", id(node), len(self.clos))
        self.clos[t] = (node, dict(st.env), fr.module, fr.cls, fr)
        return t

    def members(self, bases, d, fr):
        """the members given to a class made by type(): a constructor that only runs the one it would inherit is left out"""
        if d.k != "dict" or bases.k != "seq":
            return d
        out = []
        for k, v in d.a[0]:
            if k is mk("str", "__init__") and v.k in ("fn", "clo"):
                node, module = (self.fns[v.a[0]].node, self.fns[v.a[0]].module) if v.k == "fn" else (self.clos[v][0], self.clos[v][2])
                body = [x for x in node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] if isinstance(node.body, list) else [node]
                ps = [x.arg for x in node.args.posonlyargs + node.args.args]
                c = body[0].body if isinstance(body[0], ast.Lambda) else getattr(body[0], "value", None)
                base = None
                if len(body) == 1 and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "__init__" and not c.keywords:
                    base = self.prog.resolve_expr(module, c.func.value)
                base = base if isinstance(base, ClassInfo) else None
                init = base.lookup("__init__") if base else None
                if base is None:
                    v = mk("clo", id(node), 0)
                elif len(ps) == len(c.args) == 1 and isinstance(c.args[0], ast.Name) and c.args[0].id == ps[0] and not node.args.vararg and not node.args.kwarg and \
                        bases.a[0] and bases.a[0][0] is mk("cls", base.name) and isinstance(init, FuncInfo) and len(init.node.args.args) == 1 and \
                        not init.node.args.vararg and not init.node.args.kwarg and not init.node.args.kwonlyargs:
                    continue
                else:
                    v = mk("init", base.name, ast.unparse(node.args), ast.unparse(c))
            out.append((k, v))
        return mk("dict", tuple(out))

    def lam(self, g, tys, st, fr):
        """canonical form of a callable used as a value"""
        if g.k == "clo":
            ps = [mk("p", f"λ{i}", ty) for i, ty in enumerate(tys)]
            s2 = st.copy()
            s2.fx = []
            s2.pc = TRUE
            r = self.val(self.call_clo(g, ps, {}, s2, fr), s2)
            return mk("lam", r)
        return self.val(g, st)

    # ---- methods -------------------------------------------------------------------------
    def super_call(self, name, args, kw, st, fr):
        cls = fr.cls
        me = fr.selfterm
        if cls is None or me is None:
            self.unknown(fr, None, "super()")
            return NONE
        rc = self.cinfo(tyof(me))
        start = rc[0] if rc and rc[0].is_sub(cls) else cls
        v = start.lookup(name, after=cls)
        if isinstance(v, FuncInfo):
            if (kind_of(cls.name), name) in self.bound:
                mods, pure = self.bound[(kind_of(cls.name), name)]
                b = self.bind_for_boundary(v, [me] + args, kw, st, fr)
                self.emit(f"{v.cls.name}.{name}", tuple(b), st, fr, mods)
                return NONE
            return self.inline(v, [me] + args, kw, st, fr)
        if isinstance(v, Prop) and v.getter:
            return self.inline(v.getter, [me], {}, st, fr)
        if name == "__init__":
            return NONE
        return mk("call", "super." + name, *[self.val(a, st) for a in args])

    def call_method(self, o, name, args, kw, st, fr, e=None):
        if st.pc is FALSE:
            return NONE
        if o.k == "ite":
            o = pick(o, AND(st.pc, *self.outer))
        if o.k == "ite" and name in ("argsort", "argmin", "argmax", "searchsorted") and name not in self.prog.by_method:
            return self.ext_method(o, name, args, kw, st, fr, e)
        if o.k == "ite" and (tyof(o.a[1]) != tyof(o.a[2]) or name not in LIST_MUT):
            a, b = o.a[1], o.a[2]
            if a is NONE:
                return self.call_method(b, name, args, kw, st, fr, e)
            if b is NONE:
                return self.call_method(a, name, args, kw, st, fr, e)
            box = {}
            self.branch(o.a[0], lambda s: box.__setitem__(1, self.val(self.call_method(a, name, args, kw, s, fr, e), s)),
                        lambda s: box.__setitem__(0, self.val(self.call_method(b, name, args, kw, s, fr, e), s)), st)
            return ITE(o.a[0], box.get(1, NONE), box.get(0, NONE))
        if o.k == "cls" or o.k in ("newcls", "typeof") or tyof(o).startswith("cls"):
            return self.class_method(o, name, args, kw, st, fr)
        ty = tyof(o)
        c = self.content(o, st) if o.k == "lref" else o
        if ty.startswith("SL") or c.k in ("slist", "sladd") or o.k == "lref" and tyof(c).startswith("SL"):
            return self.sl_method(o, name, args, kw, st, fr)
        cs = self.cinfo(ty)
        if cs:
            return self.obj_method(o, name, cs, args, kw, st, fr, e)
        if o.k == "p" and ty == "" or o.k in ("elt", "attr", "unk", "call", "fv", "first") and ty == "":
            return self.ext_method(o, name, args, kw, st, fr, e)
        return self.ext_method(o, name, args, kw, st, fr, e)

    def obj_method(self, o, name, cs, args, kw, st, fr, e):
        kind = kind_of(cs[0].name)
        looks = [(c, c.lookup(name)) for c in cs]
        if (kind, name) in self.bound and any(isinstance(v, FuncInfo) for _, v in looks):
            fi = next(v for _, v in looks if isinstance(v, FuncInfo))
            mods, pure = self.bound[(kind, name)]
            b = self.bind_for_boundary(fi, [o] + args, kw, st, fr)
            if pure:
                return self.pure_call(f"{kind}.{name}", b, mods, st, fr)
            if (kind, name) == ("tier", "append") and mk("kw", 2, FALSE) in b:
                mods = HIER | TIERF          # without re-relating, the group is left alone
            self.emit(f"{kind}.{name}", tuple(b), st, fr, mods)
            if name == "fuse_leftwards":
                return o
            if name in ("_arrange_tiers", "_relate_tiers"):
                return mk("call", f"{kind}.{name}", *[self.val(x, st) for x in b])
            return NONE
        live = [(c, v) for c, v in looks if v is not None]
        if name == "__class__" or all(not isinstance(v, FuncInfo) for _, v in looks) and \
                (any(isinstance(v, (Prop, tuple)) for _, v in looks) or any(field_type(c.name, name) for c in cs)):
            return self.call(self.get_attr(o, name, st, fr), args, kw, st, fr, e)
        if not live:
            if name == "index" or name == "count":
                s = self.as_seq(o, st, fr)
                return self.index_of(s, args, st, name)
            v = st.heap.get((o, name))
            if v is not None:
                return self.call(v, args, kw, st, fr, e)
            owners = self.sub_owners(cs, name)
            if len(owners) == 1:
                # the only class below the static one that has this method
                b = self.bind_for_boundary(owners[0].lookup(name), [o] + args, kw, st, fr)
                self.emit(f"{owners[0].name}.{name}", tuple(b), st, fr, DOWN)
                return NONE
            self.unknown(fr, e, f"method {cs[0].name}.{name}")
            return mk("call", "m:" + name, self.val(o, st), *[self.val(a, st) for a in args])
        if len({id(v) for _, v in live}) == 1:
            v = live[0][1]
            return self.call_member(o, v, name, args, kw, st, fr, e)
        res = {}

        def go(i, s):
            c, v = live[i]
            if i == len(live) - 1:
                res[i] = self.val(self.call_member(o, v, name, args, kw, s, fr, e), s)
                return
            self.branch(self.inst(o, mk("cls", c.name)),
                        lambda x: res.__setitem__(i, self.val(self.call_member(o, v, name, args, kw, x, fr, e), x)),
                        lambda x: go(i + 1, x), s)
        go(0, st)
        out = res.get(len(live) - 1, NONE)
        for i in range(len(live) - 2, -1, -1):
            if i in res:
                out = ITE(self.inst(o, mk("cls", live[i][0].name)), res[i], out)
        return out

    def sub_owners(self, cs, name):
        return [c for c in self.prog.classes.values() if any(c.is_sub(x) for x in cs) and isinstance(c.own.get(name), FuncInfo)]

    def call_member(self, o, v, name, args, kw, st, fr, e):
        if isinstance(v, FuncInfo):
            if v.kind == "static":
                return self.inline(v, args, kw, st, fr)
            if v.kind == "class":
                return self.class_method(TYPEOF(o), name, args, kw, st, fr)
            return self.inline(v, [o] + args, kw, st, fr)
        if isinstance(v, Prop):
            g = self.get_attr(o, name, st, fr)
            return self.call(g, args, kw, st, fr, e)
        self.unknown(fr, e, f"member {name}")
        return mk("unk", "member", name)

    def class_method(self, o, name, args, kw, st, fr):
        if name == "__subclasses__":
            return mk("call", "__subclasses__", o)
        fi = None
        names = [x for x in tyof(o)[4:].split("|") if x] if tyof(o).startswith("cls:") else []
        cs = [self.prog.classes[n] for n in names if n in self.prog.classes]
        if not cs and o.k != "cls":
            cs = [self.prog.classes["SequenceInterval"]] if "SequenceInterval" in self.prog.classes else []
        for c in cs:
            v = c.lookup(name)
            if isinstance(v, FuncInfo):
                fi = v
                break
        if fi is None:
            self.unknown(fr, None, f"class attribute {name}")
            return mk("call", "m:" + name, o, *[self.val(a, st) for a in args])
        if fi.kind == "class":
            if ("cls", name) in self.bound:
                mods, pure = self.bound[("cls", name)]
                b = self.bind_for_boundary(fi, [o] + args, kw, st, fr)
                self.emit(f"cls.{name}", tuple(b), st, fr, mods)
                if name == "_cast":
                    return mk("call", "cls._cast", o, self.val(args[0], st)) if args else NONE
                return NONE
            return self.inline(fi, [o] + args, kw, st, fr)
        # unbound method:  Class.method(obj, ...)
        if fi.kind == "static":
            return self.inline(fi, args, kw, st, fr)
        if args and o.k == "cls":
            k = kind_of(o.a[0])
            if (k, name) in self.bound and name == "__init__":
                b = self.bind_for_boundary(fi, args, kw, st, fr)
                self.emit(f"{fi.cls.name}.{name}", tuple(b), st, fr, self.bound[(k, name)][0])
                return NONE
            return self.inline(fi, args, kw, st, fr)
        self.unknown(fr, None, f"class call {name}")
        return mk("call", "m:" + name, o)

    def sl_method(self, o, name, args, kw, st, fr):
        ci = self.prog.classes["SequenceList"]
        v = ci.lookup(name)
        if ("SL", name) in self.bound and isinstance(v, FuncInfo):
            mods, pure = self.bound[("SL", name)]
            b = self.bind_for_boundary(v, [o] + args, kw, st, fr)
            if o.k == "lref":
                # a local SequenceList: track its contents; it is not observable yet
                old = self.val(o, st)
                new = mk("slmut", name, old, *[self.val(x, st) for x in b[1:]])
                side = frozenset(m for m in mods if m not in SLC)
                if side and name in ("remove", "pop", "concat"):
                    self.emit(f"SL.{name}", (old,) + tuple(b[1:]), st, fr, side)
                st.cont[o] = SLIST(new)
                if o in st.esc:
                    self.escaped_update(o, st.cont[o], st, fr, None)
                return NONE
            self.emit(f"SL.{name}", tuple(b), st, fr, mods)
            return NONE
        if name in ("index", "count") and not isinstance(v, FuncInfo):
            return self.index_of(self.val(self.content(o, st), st), args, st, name)
        if name == "__len__":
            return LEN(self.val(self.content(o, st), st))
        if name == "__getitem__":
            c, i = self.val(self.content(o, st), st), self.val(args[0], st)
            self.may_miss(c, i, st, fr)
            return ELT(c, i)
        if name == "__add__":
            return mk("sladd", self.val(o, st), self.val(args[0], st))
        if isinstance(v, FuncInfo):
            return self.inline(v, [o] + args, kw, st, fr)
        self.unknown(fr, None, f"SequenceList.{name}")
        return mk("call", "m:" + name, self.val(o, st), *[self.val(a, st) for a in args])

    def index_of(self, s, args, st, name="index", fr=None):
        x = self.val(args[0], st)
        if s.k == "arr":
            s = s.a[0]
        if s.k == "comp" and s.a[1] is TRUE and s.a[2].k == "elt" and s.a[2].a[1].k == "bv" and s.a[2].a[1].a[0] == s.a[3] \
                and s.a[0] is LEN(s.a[2].a[0]):
            s = s.a[2].a[0]
        lit = ("str", "int", "cls")
        if s.k == "seq" and x.k in lit and all(y.k in lit for y in s.a[0]):
            if name == "count":
                return num(sum(y is x for y in s.a[0]))
            if name == "index" and x in s.a[0]:
                return num(s.a[0].index(x))
        walked = has_kind(x, ("cv", "wval", "fold")) or has_kind(s, ("cv", "wval", "fold"))
        grown = any(y.k == "cat" and y.a[0][-1] is SEQ([x]) for y in leaves(s))
        if name == "index" and grown and not walked:
            def at(y):
                if y.k == "ite":
                    return ITE(y.a[0], at(y.a[1]), at(y.a[2]))
                if y.k == "cat" and y.a[0][-1] is SEQ([x]):
                    rest = CAT(*y.a[0][:-1])    # the value was just put at the end: found before it, or there
                    return ITE(IN(x, rest), self.index_term(name, rest, x, walked), LEN(rest))
                return self.index_term(name, y, x, walked)
            t = at(s)
        else:
            t = self.index_term(name, s, x, walked)
        if name == "index":
            plain = atom(mk("in", x, s)) if tyof(s).startswith("SL") else IN(x, s)
            if self.caught_here("ValueError", fr):
                self.branch(NOT(plain), lambda z: self.do_raise("ValueError", z, fr), lambda z: None, st)
                return t
            for h in self.handlers[-1:]:
                h["cond"] = OR(h.get("cond", FALSE), AND(st.pc, NOT(plain)))
            if not self.handlers and fr is not None and not fr.loops and not fr.looped and not walked and not (s.k == "attr" and s.a[1] == "contains" or s.k == "at"):
                self.branch(NOT(plain), lambda z: self.do_raise("ValueError", z, fr), lambda z: None, st)
        return t

    @staticmethod
    def index_term(name, s, x, walked):
        if name != "index" or s.k != "comp" or s.a[1] is not TRUE or walked:
            return mk("call", name, s, x)
        b = fresh("i")
        t = FIRST(s.a[0], AND(open_bv(s.a[1], s.a[3], b), EQ(open_bv(s.a[2], s.a[3], b), x)), b, b, NONE)
        return t.a[1] if t.k == "ite" else t

    # ---- constructors ----------------------------------------------------------------------
    def construct(self, g, args, kw, st, fr):
        names = [x for x in tyof(g)[4:].split("|") if x] if tyof(g).startswith("cls:") else []
        k = kind_of(names[0]) if names else None
        if k == "SL":
            seq = self.star_seq(args, st)
            self.may_throw("SL.__init__", st, fr)
            return SLIST(seq)
        if k == "seq":
            self.may_throw("seq.__init__", st, fr)
        if k == "hier":
            names = [n for n in names if kind_of(n) != "hier"] or names
            k = kind_of(names[0])
        cs = [self.prog.classes[n] for n in names if n in self.prog.classes]
        init = cs[0].lookup("__init__") if cs else None
        if isinstance(init, FuncInfo):
            b = self.bind_for_boundary(init, [NONE] + args, kw, st, fr)[1:]
        else:
            b = [self.val(a, st) for a in args] + [mk("kw", n, self.val(v, st)) for n, v in sorted(kw.items())]
        b = [self.val(x, st) for x in b]
        if k == "seq":
            b = [self.seqarg(x) for x in b]
        key = (g, tuple(b))
        t = mk("new", g, tuple(b), self.tag("new", *key))
        if k in ("tier", "group", "grid"):
            self.emit("create", (t,), st, fr, ALL - GROUPF if k == "tier" else ALL)
        return t

    def seqarg(self, x):
        if x.k == "call" and x.a[0] in ("praatio.Interval", "praatio.Point"):
            if len(x.a) == 2 and x.a[1].k == "star":
                return x.a[1].a[0]
            return SEQ(x.a[1:])
        if x.k == "kw" and isinstance(x.a[1], T):
            return mk("kw", x.a[0], self.seqarg(x.a[1]))
        return x

    def star_seq(self, args, st):
        parts = []
        for a in args:
            if a.k == "star":
                parts.append(a.a[0])
            else:
                parts.append(SEQ([self.val(a, st)]))
        if len(parts) == 1:
            return parts[0]
        return CAT(*[p if p.k in ("seq", "comp", "cat") else copy_of(p) for p in parts])

    # ---- binding ---------------------------------------------------------------------------------
    def params(self, fi):
        a = fi.node.args
        return [x.arg for x in a.posonlyargs + a.args], (a.vararg.arg if a.vararg else None), [x.arg for x in a.kwonlyargs], (a.kwarg.arg if a.kwarg else None)

    def default_of(self, fi, name, st, fr):
        a = fi.node.args
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if x.arg == name:
                return self.const_default(d, fi, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name and d is not None:
                return self.const_default(d, fi, st)
        return None

    def const_default(self, d, fi, st):
        f2 = Frame(fi, fi.module, fi.cls)
        s2 = State()
        s2.cont = st.cont
        return self.ev(d, s2, f2)

    def bind_for_boundary(self, fi, args, kw, st, fr):
        """receiver and arguments in parameter order; arguments equal to the default are left out"""
        pos, va, ko, kwa = self.params(fi)
        out = {}
        rest = []
        for i, a in enumerate(args):
            if a.k == "star":
                rest.append(mk("star", self.val(a.a[0], st)))
            elif i < len(pos):
                out[pos[i]] = self.val(a, st) if a.k != "clo" else self.lam(a, ("str", "str"), st, fr)
            else:
                rest.append(self.val(a, st))
        for k, v in kw.items():
            if k == "**":
                rest.append(mk("kw", "**", v))
            elif k in pos or k in ko:
                out[k] = self.val(v, st) if v.k != "clo" else self.lam(v, ("str", "str"), st, fr)
            else:
                rest.append(mk("kw", k, self.val(v, st)))
        res = []
        for i, p in enumerate(pos):
            if p not in out:
                continue
            d = self.default_of(fi, p, st, fr)
            if d is not None:
                if d is out[p]:
                    continue
                if i > 1 or (i == 1 and fi.cls is None):
                    res.append(mk("kw", i, out[p]))
                    continue
            res.append(out[p])
        for p in ko:
            if p in out:
                d = self.default_of(fi, p, st, fr)
                if d is not out[p]:
                    res.append(mk("kw", p, out[p]))
        return res + rest

    def inline(self, fi, args, kw, st, fr, closure=None, cls=None, home=None):
        if st.pc is FALSE:
            return NONE
        if self.stack.count(fi) >= 1 or any(f.node is fi.node or f.standin is fi.node for f in self.stack) or len(self.stack) > 14:
            t = mk("call", "rec:" + fi.name, *[self.val(a, st) for a in args], *[mk("kw", k, self.val(v, st)) for k, v in sorted(kw.items())])
            self.recursive.add(fi.name)
            return t
        node = fi.node
        if fi.opaque:
            self.unknown(fr, None, f"{fi.qual} is {fi.opaque}")
        a = node.args
        pos, va, ko, kwa = self.params(fi)
        env = {}
        extra = []
        kw = dict(kw)
        for i, x in enumerate(args):
            if x.k == "star":
                # a starred sequence fills *args, or positional parameters one by one
                if va and i >= len(pos):
                    extra.append(x)
                else:
                    for j, pn in enumerate(pos[i:]):
                        env[pn] = ELT(x.a[0], num(j))
            elif i < len(pos):
                env[pos[i]] = x
            else:
                extra.append(x)
        for k in list(kw):
            if k in pos or k in ko:
                env[k] = kw.pop(k)
        for p in pos + ko:
            if p not in env:
                d = self.default_of(fi, p, st, fr)
                if d is None:
                    d = mk("unk", "missing", p)
                    self.unknown(fr, node, f"missing argument {p} of {fi.name}")
                env[p] = d
        if va:
            if len(extra) == 1 and extra[0].k == "star":
                env[va] = extra[0].a[0]
            else:
                env[va] = self.star_seq(extra, st)
        if kwa:
            env[kwa] = kw.get("**", mk("dict", tuple((mk("str", k), self.val(v, st)) for k, v in sorted(kw.items()))))
        f2 = Frame(fi, fi.module, cls if cls is not None else fi.cls)
        f2.looped = bool(fr.loops) or fr.looped
        f2.selfterm = args[0] if args else None
        f2.parent = fr
        f2.closure = closure
        f2.saved = saved = st.env
        shared = outer_names(node)
        if shared and fr is not home:
            self.unknown(fr, node, "nonlocal names of a function further out")
        env.update({x: saved[x] for x in shared if x in saved})
        st.env = env
        self.stack.append(fi)
        if isinstance(node, ast.Lambda):
            r = self.ev(node.body, st, f2)
            self.stack.pop()
            st.env = saved
            return r
        pc0 = st.pc
        if has_yield(node):
            f2.gen = self.new_list(EMPTY, st)
        self.block(node.body, st, f2)
        self.stack.pop()
        if f2.raisedst:
            for rs in f2.raisedst:
                rs.env = {**saved, **{x: rs.env[x] for x in shared if x in rs.env}}
                if fr.loops:
                    fr.loops[-1].brk.append((rs, "raise", None))
                else:
                    fr.raisedst.append(rs)
        outs = [(s, v) for s, v in f2.rets if s.pc is not FALSE]
        if st.pc is not FALSE:
            outs.append((st.copy(), NONE))
        gen = f2.gen
        if not outs:
            st.env = saved
            st.pc = FALSE
            return NONE
        tot = OR(*[s.pc for s, _ in outs])
        vals = []
        same = all(v is outs[0][1] for _, v in outs)
        for s, v in outs:
            vals.append((s.pc, v if same or v.k != "lref" and not self._has_ref(v, s) else self.val(v, s)))
        if shared:
            for s, _ in outs:
                s.env = {**saved, **{x: s.env[x] for x in shared if x in s.env}}
        merge_into(st, [s for s, _ in outs], envs=bool(shared))
        if not shared:
            st.env = saved
        if gen is not None:
            return gen
        r = vals[-1][1]
        for pc, v in reversed(vals[:-1]):
            r = ITE(restrict(pc, tot), v, r)
        return r

    # ---- library calls -----------------------------------------------------------------------------
    def canon(self, d):
        from .interp_expr import canon_ext
        return canon_ext(d)

    def sig_args(self, name, args, kw, st):
        sig = EXT_SIG[name]
        vals = {}
        if any(a.k == "star" for a in args):
            return [mk("star", self.val(a.a[0], st)) if a.k == "star" else self.val(a, st) for a in args] + \
                   [mk("kw", k, self.val(v, st)) for k, v in sorted(kw.items())]
        for i, a in enumerate(args):
            vals[sig[i] if i < len(sig) else i] = self.val(a, st)
        for k, v in kw.items():
            vals[k] = self.val(v, st)
        if name in ("praatio.Interval", "praatio.Point"):
            return [vals.get(s, NONE) for s in sig]
        return [mk("kw", k, vals[k]) for k in list(sig) + sorted(k for k in vals if k not in sig) if k in vals]

    def ext_call(self, n, args, kw, st, fr, e=None):
        n = self.canon(n)
        V = lambda a: self.val(a, st)
        if n in EXT_SIG:
            t = mk("call", n, *self.sig_args(n, args, kw, st))
            if n == "praatio.Textgrid":
                return mk("call", n, *t.a[1:], mk("tag", self.tag(n)))
            self.note_call(t)
            return t
        last = n.split(".")[-1]
        if n == "warnings.warn":
            self.emit("warn", (), st, fr, frozenset())
            return NONE
        if n in ("warnings.simplefilter", "warnings.filterwarnings"):
            if self.catching and (args or "action" in kw):
                self.filter_warnings(V(args[0] if args else kw["action"]), e, st, fr)
            else:
                self.emit("ext." + last, tuple(V(a) for a in args), st, fr, frozenset())
            return NONE
        if n.startswith("warnings."):
            return mk("ext", "ctx")
        if n == "builtins.dict.fromkeys" and len(args) == 1:
            s = self.as_seq(args[0], st, fr)
            # elements of one list of package objects are distinct
            return s if classes_of(elem_type(tyof(s))) and s.k in ("attr", "p") else mk("call", n, s)
        if n == "itertools.pairwise":
            s = self.as_seq(args[0], st, fr)
            return mk("zip", (s, SLICE(s, num(1), NONE)))
        if n == "itertools.chain.from_iterable":
            return FLAT(self.as_seq(args[0], st, fr))
        if n == "itertools.chain":
            return CAT(*[copy_of(self.as_seq(a, st, fr)) for a in args])
        if n == "functools.reduce":
            f = args[0]
            f = self.lam(f, ("str", "str"), st, fr) if f.k == "clo" else f
            return mk("call", "reduce", f, *[self.as_seq(a, st, fr) if i == 0 else V(a) for i, a in enumerate(args[1:])])
        if n in AS_LAMBDA and not kw and len(args) == AS_LAMBDA[n].count(",", 0, AS_LAMBDA[n].index(":")) + 1:
            return self.call(self.closure(lambda_of(AS_LAMBDA[n]), State(), fr), args, {}, st, fr, e)
        if n in ("operator.attrgetter", "operator.itemgetter", "operator.methodcaller") and len(args) == 1 and not kw and V(args[0]).k in ("str", "int"):
            k = V(args[0])
            if n == "operator.itemgetter":
                return self.closure(lambda_of(f"lambda x: x[{k.a[0]!r}]"), State(), fr)
            if k.k == "str" and k.a[0].replace(".", "_").isidentifier():
                return self.closure(lambda_of(f"lambda x: x.{k.a[0]}" + ("()" if last == "methodcaller" else "")), State(), fr)
        if n == "itertools.islice" and len(args) in (2, 3):
            s = self.as_seq(args[0], st, fr)
            return SLICE(s, ZERO if len(args) == 2 else V(args[1]), V(args[-1]))
        if n == "functools.partial" and args:
            return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if n.startswith("operator.") and len(args) == 2 and last in ("add", "sub"):
            return self.arith("+" if last == "add" else "-", args[0], args[1], st, fr)
        if n.startswith("numpy."):
            return self.numpy(n, args, kw, st, fr)
        if n.startswith(("typing", "collections.abc")):
            return mk("ext", n)
        vals = [self.as_seq(a, st, fr) if isseq(self.val(a, st)) else V(a) for a in args]
        t = mk("call", n, *vals, *[mk("kw", k, V(v)) for k, v in sorted(kw.items())])
        self.note_call(t)
        if last in EXT_MUT:
            self.emit("ext." + last, tuple(t.a[1:]), st, fr, frozenset())
        return t

    def strip(self, x):
        return x.a[0] if x.k == "arr" else x

    def numpy(self, n, args, kw, st, fr):
        V = lambda a: self.val(a, st)
        if n == "numpy.array":
            v = V(args[0])
            if isarr(v):
                return v
            if classes_of(tyof(v)):
                v = self.as_seq(v, st, fr)
            if v.k in ("seq", "comp", "cat", "flat", "slice", "rev") or tyof(v).startswith(("list", "SL")):
                return ARR(v)
            return mk("call", "numpy.array", v)
        if n in ("numpy.min", "numpy.max", "numpy.sum", "numpy.amin", "numpy.amax") and len(args) == 1 and not kw:
            return self.minmax(n[6:].replace("am", "m"), V(args[0]))
        if n in ("numpy.argmin", "numpy.argmax", "numpy.searchsorted", "numpy.argsort", "numpy.size", "numpy.squeeze"):
            vs = [V(a) for a in args]
            return mk("call", n[6:] if n != "numpy.argsort" else "numpy.argsort", *[self.strip(v) if n == "numpy.argsort" else v for v in vs], *[mk("kw", k, V(v)) for k, v in sorted(kw.items())])
        if n in ("numpy.argwhere", "numpy.flatnonzero", "numpy.where", "numpy.nonzero", "numpy.any", "numpy.all") and len(args) == 1 and not kw:
            r = self.mask_call(n[6:], V(args[0]))
            if r is not None:
                return r
        if n in ("numpy.isclose",):
            n = "numpy.allclose"
        if n == "numpy.minimum" and len(args) == 2 or n == "numpy.maximum" and len(args) == 2:
            a, b = V(args[0]), V(args[1])
            if not isarr(a) and not isarr(b):
                return self.minmax(n[6:9], SEQ([a, b]))
        vs = []
        for a in args:
            v = V(a)
            vs.append(v)
        if n == "numpy.array_equal" and len(vs) == 2 and not kw and not any(isarr(v) or isseq(v) for v in vs):
            return EQ(*vs)
        if n == "numpy.allclose":
            kw = {k: v for k, v in kw.items() if not (k in ALLCLOSE and v.k in ("num", "flt", "float", "const", "int") and str(v.a[0]) == ALLCLOSE[k])}
        if n == "numpy.concatenate":
            vs = [SEQ([ARR(x) if not isarr(x) else x for x in vs[0].a[0]])] + vs[1:] if vs and vs[0].k == "seq" else vs
        if n in ("numpy.logical_and", "numpy.logical_or") and len(vs) == 2:
            x, y = sorted(vs, key=lambda t: t.id)
            return mk("op", "&" if n.endswith("and") else "|", x, y)
        if n == "numpy.logical_not":
            return vs[0].a[1] if vs[0].k == "op" and vs[0].a[0] == "~" else mk("op", "~", vs[0])
        if n in ("numpy.allclose", "numpy.unique", "numpy.isin", "numpy.abs"):
            vs = [ARR(v) if v.k in ("seq", "comp", "cat") else v for v in vs]
        if n == "numpy.allclose" and len(vs) == 2:
            # closeness is symmetric up to the rounding of its own tolerance
            vs.sort(key=skeleton)
        if n == "numpy.abs" and len(vs) == 1 and not kw:
            return ABS(vs[0])
        t = mk("call", n, *vs, *[mk("kw", k, V(v)) for k, v in sorted(kw.items())])
        if n in ("numpy.allclose", "numpy.any", "numpy.all", "numpy.ma.is_masked", "numpy.array_equal"):
            return atom(mk("truth", t))
        return t

    def mask_call(self, name, v):
        if v.k == "comp" and name in ("any", "all"):
            v = ARR(v)
        if name in ("any", "all"):
            b = fresh("i")
            m = MASK(v, b)
            if m is None:
                return None
            return EX(m[1], m[0], b) if name == "any" else NOT(EX(m[1], NOT(m[0]), b))
        h = HITS(v)
        if h is None:
            return None
        return mk("call", "numpy.argwhere", h) if name == "argwhere" else ARR(h) if name == "flatnonzero" else SEQ([ARR(h)])

    def minmax(self, which, v):
        v = self.strip(v)
        if which == "sum" and v.k == "comp":
            b = fresh("i")
            return SUM(v.a[0], open_bv(v.a[1], v.a[3], b), open_bv(v.a[2], v.a[3], b), b)
        if v.k == "seq" and which in ("min", "max"):
            items = sorted(set(v.a[0]), key=lambda t: t.id)
            if len(items) == 1:
                return items[0]
            if which == "min" and len(items) == 2 and all(tyof(x) == "int" for x in items):
                return self.minlen(items[0], items[1])
            v = SEQ(items)
        return mk("call", which, v)

    def ext_method(self, o, name, args, kw, st, fr, e=None):
        V = lambda a: self.val(a, st)
        base = o
        if name in ("index", "count") and (isseq(V(o)) or tyof(V(o)).startswith("list") or o.k == "vals"):
            return self.index_of(V(o), args, st, name, fr)
        v = V(o)
        if v.k == "set" and name == "pop" and not args:
            return ANYOF(v)
        if name in LIST_MUT and not isarr(v) and tyof(v) != "str" and (isseq(v) or o.k in ("lref", "vals") or tyof(v).startswith(("list", "SL")) or tyof(v) == "" and name in ("append", "extend", "insert")):
            return self.list_mut(o, name, args, kw, st, fr)
        if name == "tolist":
            return copy_of(self.strip(v))
        if name == "copy" and isseq(v):
            return copy_of(v)
        if name in ("min", "max", "sum") and not args and not kw:
            return self.minmax(name, v)
        if name in ("any", "all", "nonzero") and not args and not kw:
            r = self.mask_call(name, v)
            if r is not None:
                return r
        if name in ("squeeze", "flatten", "ravel") and not args and not kw:
            if v.k == "call" and v.a[0] == "numpy.argwhere" and v.a[1].k == "comp":
                return ARR(v.a[1])
            if v.k == "arr":
                return v
        if name == "item" and not args and v.k == "arr" and v.a[0].k in ("comp", "seq"):
            return ELT(v, ZERO)
        if name in ("any", "all") and not args:
            return atom(mk("truth", mk("call", "numpy." + name, v)))
        if name == "argsort":
            return mk("call", "numpy.argsort", self.strip(v))
        if name in ("argmin", "argmax", "searchsorted", "squeeze", "item", "astype"):
            return mk("call", name, v, *[V(a) for a in args], *[mk("kw", k, V(x)) for k, x in sorted(kw.items())])
        if name in ("join",):
            return JOIN(v, self.as_seq(args[0], st, fr))
        if name == "find" and len(args) == 1 and tyof(v) == "str":
            return ITE(IN(V(args[0]), v), mk("call", "index", v, V(args[0])), num(-1))
        if name == "rpartition" and len(args) == 1 and tyof(v) == "str":
            return SEQ([mk("call", ".rpartition", v, V(args[0]), num(0)), mk("call", ".rpartition", v, V(args[0]), num(1)),
                        ELT(mk("call", "str.split", v, V(args[0])), num(-1))])
        if name == "rsplit" and len(args) == 1 and tyof(v) == "str":
            return mk("call", "str.split", v, V(args[0]))       # without a limit, the side does not matter
        if name in ("split", "replace", "strip", "lower", "upper", "startswith", "endswith", "lstrip", "rstrip"):
            return mk("call", "str." + name, v, *[V(a) for a in args])
        if name == "get" and v.k == "dict" and args:
            k = V(args[0])
            r = V(args[1]) if len(args) > 1 else NONE
            for a, b in v.a[0]:
                r = ITE(EQ(k, a), b, r)
            return r
        if v.k == "dict" and name == "items":
            return SEQ([SEQ([a, b]) for a, b in v.a[0]])
        if v.k == "dict" and name == "keys":
            return SEQ([a for a, b in v.a[0]])
        if v.k == "dict" and name == "values":
            return SEQ([b for a, b in v.a[0]])
        if name in ("add", "update") and (v.k == "set" or o.k == "lref"):
            items = SEQ([V(args[0])]) if name == "add" else self.as_seq(args[0], st, fr)
            inner = v.a[0] if v.k == "set" else v
            self.list_set(o, SET(CAT(copy_of(inner), items)), st, fr)
            return NONE
        if name in EXT_MUT:
            sa = self.sig_args(name, args, kw, st) if name in EXT_SIG else [V(a) for a in args] + [mk("kw", k, V(x)) for k, x in sorted(kw.items())]
            self.emit("ext." + name, (v,) + tuple(sa), st, fr, frozenset())
            return NONE
        if v.k == "unk":
            return mk("unk", "m", name)
        if v.k == "elt" and LEN(v.a[0]) is num(0):
            return mk("call", "undef")          # an element of an empty list: not reached by a run that returns
        if name in DICT_MUT and (is_state(v) or v.k == "p" and self.stack and self.stack[-1].name == "__setstate__"):
            self.emit("ext.dict." + name, (v,) + tuple(V(a) for a in args), st, fr, frozenset())
            return mk("call", ".pop", v, *[V(a) for a in args])
        # receiver of unknown type with a repo method of that name
        if tyof(v) == "" and name in self.prog.by_method and not v.k == "call":
            self.unknown(fr, e, f"call of .{name} on a value of unknown type")
        t = mk("call", "." + name, v, *[self.as_seq(a, st, fr) if isseq(V(a)) else V(a) for a in args],
               *[mk("kw", k, V(x)) for k, x in sorted(kw.items())])
        self.note_call(t)
        return t

    def list_mut(self, o, name, args, kw, st, fr):
        V = lambda a: self.val(a, st)
        c = self.content(o, st)
        if o.k == "vals":
            o = o.a[0]
        if name == "append":
            x = self.new_list(args[0], st) if args[0] is EMPTY and o.k == "lref" else args[0]
            self.list_extend(o, SEQ([x if x.k == "lref" else V(x)]), st, fr)
        elif name == "extend":
            self.list_extend(o, self.as_seq(args[0], st, fr), st, fr)
        elif name == "insert":
            self.list_set(o, INS(c, V(args[0]), V(args[1])), st, fr)
        elif name == "pop":
            i = V(args[0]) if args else num(-1)
            r = ELT(V(c), i)
            self.list_set(o, DEL(c, i), st, fr)
            return r
        elif name == "remove":
            self.list_set(o, DEL(c, self.index_of(V(c), args, st)), st, fr)
        elif name == "reverse":
            self.list_set(o, c.a[0] if c.k == "rev" else mk("rev", c), st, fr)
        elif name == "clear":
            self.list_set(o, EMPTY, st, fr)
        elif name == "sort":
            self.list_set(o, self.sorted_term(V(c), kw, st, fr), st, fr)
        return NONE

    def sorted_term(self, s, kw, st, fr):
        k = kw.get("key")
        kt = self.lam(k, (elem_type(tyof(s)),), st, fr) if k is not None else NONE
        rev = kw.get("reverse", FALSE)
        return mk("sorted", s, kt, self.val(rev, st))

    # ---- builtins --------------------------------------------------------------------------------------
    def builtin(self, n, args, kw, st, fr, e=None):
        V = lambda a: self.val(a, st)
        if n == "len":
            o = args[0]
            if self.cinfo(tyof(o)) and o.k != "lref":
                return self.call_method(o, "__len__", [], {}, st, fr)
            return LEN(V(self.content(o, st)))
        if n == "isinstance":
            return self.inst(V(args[0]), V(args[1]))
        if n == "issubclass":
            return self.subc(V(args[0]), V(args[1]))
        if n == "hasattr":
            nm = V(args[1])
            if nm.k == "str":
                o = args[0]
                if o.k == "lref":
                    o = V(o)
                return self.has(o, nm.a[0])
            return atom(mk("truth", mk("call", "hasattr", V(args[0]), nm)))
        if n == "getattr":
            nm = V(args[1])
            if nm.k == "str":
                o = V(args[0]) if args[0].k == "lref" else args[0]
                h = self.has(o, nm.a[0]) if len(args) > 2 else TRUE
                if h is FALSE:
                    return args[2]
                v = self.get_attr(args[0], nm.a[0], st, fr)
                return v if h is TRUE else ITE(h, V(v), V(args[2]))
            return mk("call", "getattr", V(args[0]), nm, *[V(a) for a in args[2:]])
        if n == "setattr":
            nm = V(args[1])
            if nm.k == "str":
                self.set_attr(args[0], nm.a[0], args[2], st, fr)
            else:
                self.emit("setattr", (V(args[0]), nm, V(args[2])), st, fr, frozenset())
            return NONE
        if n == "enumerate":
            return mk("enum", args[0], args[1] if len(args) > 1 else kw.get("start", ZERO))
        if n == "zip":
            return mk("zip", tuple(args))
        if n == "range":
            a = [V(x) for x in args]
            lo, hi, sp = (ZERO, a[0], num(1)) if len(a) == 1 else (a[0], a[1], num(1)) if len(a) == 2 else a
            b = fresh("i")
            if sp.k == "int" and sp.a[0] == 1:
                return COMP(sub(hi, lo), TRUE, add(lo, b), b)
            if sp.k == "int" and sp.a[0] == -1:
                return COMP(sub(lo, hi), TRUE, sub(lo, b), b)
            return mk("call", "range", *a)
        if n == "reversed":
            s = self.as_seq(args[0], st, fr)
            if s.k == "seq":
                return SEQ(list(s.a[0])[::-1])
            return s.a[0] if s.k == "rev" else mk("rev", s)
        if n == "sorted":
            return self.sorted_term(self.as_seq(args[0], st, fr), kw, st, fr)
        if n in ("list", "tuple"):
            if not args:
                return EMPTY
            v = V(args[0])
            if v.k == "call" and v.a[0] in ("praatio.Interval", "praatio.Point"):
                return self.seqarg(v)
            return copy_of(self.as_seq(args[0], st, fr))
        if n in ("set", "frozenset"):
            s = copy_of(self.as_seq(args[0], st, fr)) if args else EMPTY
            return SET(s)
        if n == "dict":
            if not args:
                return mk("dict", tuple((mk("str", k), V(v)) for k, v in kw.items()))
            return mk("call", "dict", V(args[0]))
        if n in ("min", "max", "sum"):
            if len(args) == 1:
                v = self.as_seq(args[0], st, fr)
                if set(kw) == {"default"}:
                    return ITE(LE0(LEN(v)), V(kw["default"]), self.minmax(n, v))
                if kw:
                    return mk("call", n, self.strip(v), *[mk("kw", k, self.lam(x, (elem_type(tyof(v)),), st, fr)) for k, x in sorted(kw.items())])
                return self.minmax(n, v)
            return self.minmax(n, SEQ([V(a) for a in args]))
        if n == "round":
            x = V(args[0])
            return x if tyof(x) == "int" else mk("call", "round", *[V(a) for a in args])
        if n == "abs":
            return ABS(V(args[0]))
        if n == "iter":
            return mk("iter", args[0])
        if n == "next":
            a = args[0]
            if a.k == "iter":
                a = a.a[0]
            s = self.as_seq(a, st, fr)
            if s.k == "set" or V(a).k == "set":
                return ANYOF(V(a))
            if s.k == "comp" and s.a[1] is not TRUE:
                b = fresh("i")
                g, x = open_bv(s.a[1], s.a[3], b), open_bv(s.a[2], s.a[3], b)
                d = V(args[1]) if len(args) > 1 else NONE
                r = FIRST(s.a[0], g, x, b, d)
                if len(args) == 1 and r.k == "ite":
                    return r.a[1]
                return r
            r = ELT(s, ZERO)
            if len(args) > 1:
                return ITE(LE0(LEN(s)), V(args[1]), r)
            return r
        if n == "type":
            if len(args) == 1:
                v = V(args[0])
                return TYPEOF(v)
            def make(a, c):
                it = find_ite(SEQ(a)) if c < 4 else None
                if it is not None:
                    k = it.a[0]
                    return ITE(k, make([given(subst(x, {it: it.a[1]}), k) for x in a], c + 1),
                               make([given(subst(x, {it: it.a[2]}), NOT(k)) for x in a], c + 1))
                a = [a[0], a[1], self.members(a[1], a[2], fr)]
                return mk("newcls", a[0], a[1], a[2], self.tag("newcls", *a))
            return make([V(x) for x in args], 0)
        if n == "print":
            return NONE
        if n == "str":
            v = V(args[0])
            return v if tyof(v) == "str" else mk("str", str(v.a[0])) if v.k == "int" else mk("call", "str", v)
        if n == "bool":
            return self.truth(args[0], st, fr)
        if n == "int":
            v = V(args[0])
            if v.k == "arr" and (v.a[0].k == "comp" or v.a[0].k == "seq" and len(v.a[0].a[0]) == 1):
                v = ELT(v, ZERO)
            return v if tyof(v) == "int" else mk("call", "int", v)
        if n == "float":
            v = V(args[0])
            t = mk("call", "float", v)
            self.note_call(t)
            return t
        if n == "repr":
            return mk("call", "repr", V(args[0]))
        if n == "map":
            ds = self.domain(args[1] if len(args) == 2 else mk("zip", tuple(args[1:])), st, fr)
            nn, elem, g, _ = ds
            b = fresh("i")
            s2 = st.copy()
            s2.fx = []
            s2.pc = TRUE
            el = elem(b)
            u0, tags0 = len(self.unknowns), dict(self.tags)
            v = self.val(self.call(args[0], [el] if len(args) == 2 else list(el.a[0]), {}, s2, fr, e), s2)
            if s2.fx and id(e) in self.consumed:
                # used up at once: a loop
                del self.unknowns[u0:]
                self.tags = tags0
                old = st.env.get("\0mf")
                st.env["\0mf"] = args[0]
                names = [f"\0m{i}" for i in range(len(args) - 1)]
                tg = ast.Name(names[0], ast.Store()) if len(names) == 1 else ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())
                call = ast.Call(ast.Name("\0mf", ast.Load()), [ast.Name(x, ast.Load()) for x in names], [])
                call = ast.fix_missing_locations(ast.copy_location(call, e))
                r = self.comp_loop(args[1] if len(args) == 2 else mk("zip", tuple(args[1:])), [ast.comprehension(tg, None, [], 0)], call, st, fr)
                st.env.pop("\0mf")
                if old is not None:
                    st.env["\0mf"] = old
                return r
            if s2.fx:
                self.unknown(fr, e, "effects inside map")
            return COMP(nn, g(b), v, b)
        if n == "filter":
            nn, elem, g, _ = self.domain(args[1], st, fr)
            b = fresh("i")
            s2 = st.copy()
            s2.fx = []
            s2.pc = TRUE
            c = self.truth(elem(b) if args[0] is NONE else self.call(args[0], [elem(b)], {}, s2, fr, e), s2, fr)
            if s2.fx:
                self.unknown(fr, e, "effects inside filter")
            return COMP(nn, AND(g(b), c), elem(b), b)
        if n in ("any", "all"):
            return self.anyseq(args[0], n == "all", st, fr)
        if n == "id":
            return mk("call", "id", V(args[0]))
        if n == "callable":
            return atom(mk("truth", mk("call", "callable", V(args[0]))))
        if n == "slice":
            return mk("call", "slice", *[V(a) for a in args])
        if n == "vars":
            return mk("attr", args[0], "__dict__", 0)
        if n.endswith("Error") or n in ("Exception", "Warning"):
            return mk("call", "exc." + n)
        self.unknown(fr, e, f"builtin {n}")
        return mk("call", "builtins." + n, *[V(a) for a in args])
