"""Does the summary of the analysed function agree with its contract?"""
from __future__ import annotations
from .terms import *
from .terms import _subs
from .sem import *
from .interp_base import *
from .norm import *
from .theory import equivalent, implies, consistent

CAT_FIELD = {"fol": "prec", "prev": "prec", "super_instance": "hier", "subset_list": "hier", "intier": "tier", "tiername": "tier",
             "within": "within", "contains": "within", "start": "time", "end": "time", "time": "time", "label": "label",
             "sequence_list": "members", "tier_list": "members", "tier_groups": "members", "entry_list": "members",
             "name": "name", "_name": "name", "superset_class": "classes", "subset_class": "classes", "__class__": "cast",
             "entry_class": "classes", "level": "polar", "turning_point": "polar", "ranges_tier": "polar", "range_interval": "polar",
             "_cloned_classes": "classes"}
CAT_OP = {"seq.link": "prec", "seq.set_fol": "prec", "seq.set_prev": "prec", "seq.set_initial": "prec", "seq.set_final": "prec",
          "raise": "raise", "warn": "warn", "create": "members", "setattr": "name", "seq._shift": "time", "group.shift": "time",
          "grid.shift": "time", "ext.addTier": "export", "ext.save": "export"}


def category(q):
    op = q.op.split("#")[0]
    if op == "write":
        return CAT_FIELD.get(q.args[1], "state")
    if op == "lset":
        r = q.args[0]
        return CAT_FIELD.get(r.a[1], "state") if r.k == "attr" else "state"
    if op in CAT_OP:
        return CAT_OP[op]
    if op.startswith("seq."):
        return "hier"
    if op.startswith(("SL.", "tier.", "group.", "grid.")):
        return "members"
    if op.startswith("cls."):
        return "cast" if op == "cls._cast" else "classes"
    return "state"


class Diff:
    def __init__(self, cat, kind, text, loc, terms, why=None, key=""):
        self.cat, self.kind, self.text, self.loc, self.terms, self.why, self.key = cat, kind, text, loc, terms, why, key

    def __repr__(self):
        return f"[{self.cat}/{self.kind}] {self.loc}: {self.text}"


# ---- equality of terms modulo the theory of guards --------------------------------------------

def teq(a, b, care=TRUE, depth=0):
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(teq(x, y, care, depth + 1) for x, y in zip(a, b))
        return a == b
    bo = ("true", "false", "bdd")
    if a.k in bo and b.k in bo:
        return feq(a, b, care, depth)
    if depth > 40:
        return False
    if "ite" in (a.k, b.k):
        la, lb = leaves(a), leaves(b)
        if len(la) == len(lb) == 1:
            da, db = {}, {}
            ite_leaves(a, TRUE, da)
            ite_leaves(b, TRUE, db)
            la, lb = [(g, v) for v, g in da.items()], [(g, v) for v, g in db.items()]
        if len(la) > 1 or len(lb) > 1:
            return req(la, lb, care, depth)
    if a.k != b.k or len(a.a) != len(b.a) or depth > 40:
        return False
    if a.k == "lin":
        da, ca = lin_parts(a)
        db, cb = lin_parts(b)
        if ca != cb or len(da) != len(db):
            return False
        rest = list(db.items())
        for x, c in da.items():
            for j, (y, d) in enumerate(rest):
                if c == d and teq(x, y, care, depth + 1):
                    del rest[j]
                    break
            else:
                return False
        return True
    return all(teq(x, y, TRUE if a.k in ("comp", "ex", "first", "fold") else care, depth + 1) for x, y in zip(a.a, b.a))


def feq(f, g, care=TRUE, depth=0):
    """equivalence of formulas, matching atoms that are equal modulo the theory"""
    ok, _ = fdiff(f, g, care, depth)
    return ok


def unify_atoms(f, g, depth=0):
    """rewrite atoms of g that equal an atom of f"""
    fa, ga = atoms(f), atoms(g)
    fs = set(fa)
    m = {}
    for b in ga:
        if b in fs:
            continue
        for a in fa:
            if a.k == b.k and teq_atom(a, b, depth):
                m[b] = atom(a)
                break
    return assign(g, m) if m else g


def teq_atom(a, b, depth):
    if depth > 6 or len(a.a) != len(b.a):
        return False
    if a.k in ("is", "eq"):
        return (teq(a.a[0], b.a[0], TRUE, depth + 1) and teq(a.a[1], b.a[1], TRUE, depth + 1)) or \
               (teq(a.a[0], b.a[1], TRUE, depth + 1) and teq(a.a[1], b.a[0], TRUE, depth + 1))
    return all(teq(x, y, TRUE, depth + 1) for x, y in zip(a.a, b.a))


def fdiff(f, g, care=TRUE, depth=0):
    if f is g:
        return True, None
    ok, cu = equivalent(f, g, care)
    if ok:
        return True, None
    g2 = unify_atoms(f, g, depth)
    if g2 is not g:
        ok, cu = equivalent(f, g2, unify_atoms(f, care, depth))
        if ok:
            return True, None
    return False, cu


def req(ra, rb, care=TRUE, depth=0):
    """two lists of (guard, leaf) denote the same value"""
    ra = merge_leaves(ra)
    rb = merge_leaves(rb)
    for v in list(ra):
        if v in rb:
            continue
        for w in list(rb):
            if w not in ra and teq(v, w, care, depth + 1):
                rb[v] = rb.pop(w)
                break
    for v in set(ra) | set(rb):
        ok, _ = fdiff(ra.get(v, FALSE), rb.get(v, FALSE), care, depth + 1)
        if not ok:
            return False
    return True


def merge_leaves(r):
    d = {}
    for g, v in r:
        d[v] = OR(d.get(v, FALSE), g)
    return d


# ---- vocabulary -------------------------------------------------------------------------------
OPAQUE_KINDS = {"unk", "fold", "wval", "wloop", "wexit", "throws", "mut", "cv", "undef", "star", "clo", "loopx", "lref", "stamp"}


def tokens(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t] if isinstance(t, T) else [x for x in _subs(t)] if isinstance(t, tuple) else []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "attr":
            acc.add(("f", x.a[1]))
        elif x.k == "call":
            acc.add(("call", x.a[0]))
        elif x.k == "ext":
            acc.add(("ext", x.a[0]))
        elif x.k == "op":
            acc.add(("op", x.a[0]))
        elif x.k == "fv" and x.a[1] == "c":
            acc.add(("k", "carry"))
        elif x.k in OPAQUE_KINDS:
            acc.add(("k", x.k))
        elif x.k in ("inst", "has"):
            acc.add((x.k, x.a[1] if isinstance(x.a[1], str) else x.a[1].a[0] if x.a[1].a and isinstance(x.a[1].a[0], str) else "?"))
        elif x.k == "new" and x.a[0].k == "cls":
            acc.add(("new", x.a[0].a[0]))
        st += list(_subs(x.a))
    return acc


KNOWN_CALLS = {"min", "max", "sum", "abs", "int", "float", "str", "index", "count", "round", "copy.copy", "copy.deepcopy", "str.join",
               "str.split", "str.replace", "str.strip", "str.lower", "str.upper", "repr", "argmin", "argmax", "numpy.argmin",
               "numpy.argmax", "numpy.abs", "undef", "numpy.array", "numpy.round", "numpy.argsort", "len", "size", "min2", "numpy.isclose",
               "numpy.allclose", "numpy.floor", "numpy.ceil", "id", "numpy.searchsorted", "searchsorted", "numpy.concatenate",
               "numpy.array_equal", "builtins.dict.fromkeys"}


def base_vocab():
    v = set()
    for c, fs in FIELDS.items():
        for f in fs:
            v.add(("f", f))
    for f in ("__name__", "__dict__", "superset_class", "subset_class", "entry_class", "minTimestamp", "maxTimestamp", "entries",
              "tiers", "tierNames", "name", "label", "start", "end", "time", "level", "turning_point", "_seq_type"):
        v.add(("f", f))
    for c in KNOWN_CALLS:
        v.add(("call", c))
    for o in ("+", "-", "*", "/", "//", "%", "min", "max", "<", "<=", ">", ">=", "==", "!=", "&", "|", "**"):
        v.add(("op", o))
    v.add(("inst", "builtins.float"))
    v.add(("ext", "builtins.float"))
    return v


def norm_vocab(n):
    acc, seen = set(), set()
    for e in n.effects.values():
        for a in e.args:
            if isinstance(a, T):
                tokens(a, acc, seen)
        tokens(e.guard, acc, seen)
        acc.add(("eff", e.op.split("#")[0]))
        if e.op == "write":
            acc.add(("f", e.args[1]))
        for _, m, x in e.binders:
            tokens(m, acc, seen)
            if x is not None:
                tokens(x, acc, seen)
    for v, g in n.rets.items():
        tokens(v, acc, seen)
        tokens(g, acc, seen)
    return acc


def shows(x, lim=260):
    s = show(x) if isinstance(x, T) else str(x)
    return s if len(s) <= lim else s[:lim] + "…"


def cube_text(cu, lim=4):
    if not cu:
        return "always"
    parts = [(shows(a, 110) if v else "not " + shows(a, 110)) for a, v in list(cu.items())[:lim]]
    return " and ".join(parts) + (" …" if len(cu) > lim else "")


# ---- comparison -----------------------------------------------------------------------------------

def compare(spec, impl, opts=()):
    """-> list of Diff (empty: every effect, guard and value agrees)"""
    out = []
    S, I = dict(spec.effects), dict(impl.effects)
    pairs = []
    for k in list(S):
        if k in I:
            pairs.append((S.pop(k), I.pop(k)))
    # same effect up to equality of guards inside its arguments
    for k, e in list(S.items()):
        for j, f in list(I.items()):
            if f.op == e.op and len(f.binders) == len(e.binders) and len(f.args) == len(e.args) and \
                    all(teq(x, y, e.guard) for x, y in zip(e.args, f.args)) and \
                    all(teq(m, n) and (x is y or (x is not None and y is not None and teq(x, y))) for (_, m, x), (_, n, y) in zip(e.binders, f.binders)):
                pairs.append((e, f))
                del S[k], I[j]
                break
    nowarn = "nowarn" in opts
    # a constructor that raises leaves nothing behind: only its completed runs matter
    lax = AND(NOT(spec.raise_guard), NOT(impl.raise_guard)) if "init" in opts else TRUE
    for e, f in pairs:
        if e.op == "warn" and nowarn:
            continue
        rq = spec.req.get(e.key, FALSE)
        if lax is not TRUE and e.op != "raise":
            rq, e, f = AND(rq, lax), e.with_(guard=AND(e.guard, lax)), f.with_(guard=AND(f.guard, lax))
        ok, cu = fdiff(rq, f.guard)
        if ok:
            continue
        if rq is not e.guard:
            a, _ = fimp(rq, f.guard)
            b, _ = fimp(f.guard, e.guard)
            if a and b:
                continue
        n1, c1 = fimp(rq, f.guard)
        terms = [f.guard, e.guard] + [a for a in f.args if isinstance(a, T)]
        if not n1:
            out.append(Diff(category(e), "guard", f"{e.show()[:240]} must also happen when {cube_text(c1)}", f.loc, terms, c1, f"{e.op}"))
        n2, c2 = fimp(f.guard, e.guard)
        if not n2:
            out.append(Diff(category(e), "guard", f"{e.show()[:240]} must not happen when {cube_text(c2)}", f.loc, terms, c2, f"{e.op}"))
    for e in S.values():
        rq = spec.req.get(e.key, FALSE)
        if rq is FALSE or not feas(rq) or (e.op == "warn" and nowarn):
            continue
        out.append(Diff(category(e), "missing", f"required effect is absent: {e.show()[:300]} when {shows(rq)}", None,
                        [a for a in e.args if isinstance(a, T)], None, e.op + (":" + e.args[1] if e.op == "write" else "")))
    for f in I.values():
        if not feas(f.guard) or (f.op == "warn" and nowarn):
            continue
        out.append(Diff(category(f), "extra", f"effect not in the contract: {f.show()[:300]} when {shows(f.guard)}", f.loc,
                        [a for a in f.args if isinstance(a, T)] + [f.guard], None, f.op + (":" + f.args[1] if f.op == "write" else "")))
    # returned value, on paths that do not raise
    care = AND(NOT(spec.raise_guard), NOT(impl.raise_guard))
    if "noret" not in opts:
        ra = [(g, v) for v, g in spec.rets.items()]
        rb = [(g, v) for v, g in impl.rets.items()]
        out += ret_diff(ra, rb, care)
    if "noorder" not in opts:
        out += order_diff(pairs, spec, impl)
    return out


def fimp(f, g):
    ok, cu = implies(f, g)
    if ok:
        return True, None
    g2 = unify_atoms(f, g)
    if g2 is not g:
        ok, cu2 = implies(f, g2)
        if ok:
            return True, None
    return False, cu


def feas(g):
    if g is TRUE:
        return True
    if g is FALSE:
        return False
    return any(consistent(c) for c in cubes(g, 200))


def ret_diff(ra, rb, care):
    A, B = merge_leaves(ra), merge_leaves(rb)
    for v in list(A):
        if v in B:
            continue
        for w in list(B):
            if w not in A and teq(v, w, care):
                B[v] = B.pop(w)
                break
    out = []
    for v in list(A) + [w for w in B if w not in A]:
        ga, gb = A.get(v, FALSE), B.get(v, FALSE)
        if v.k == "bdd" or any(x.k == "bdd" for x in A) or any(x.k == "bdd" for x in B):
            continue
        ok, cu = fdiff(ga, gb, care)
        if not ok:
            verb = "must be" if implies(AND(ga, care), gb)[0] is False else "must not be"
            out.append(Diff("ret", "ret", f"the result {verb} {shows(v)} when {cube_text(cu)}", None, [v, ga, gb] + list(B), cu, "return"))
    bo = ("true", "false", "bdd")
    if any(x.k == "bdd" for x in A) or any(x.k == "bdd" for x in B):
        # boolean results: fold into one formula where possible
        def form(M):
            t = FALSE
            rest = {}
            for v, g in M.items():
                if v.k in bo:
                    t = OR(t, AND(g, v))
                else:
                    rest[v] = g
            return t, rest
        ta, xa = form(A)
        tb, xb = form(B)
        ok, cu = fdiff(ta, tb, care)
        if not ok:
            out.append(Diff("ret", "ret", f"truth of the result differs when {cube_text(cu)}", None, [ta, tb], cu, "return"))
        for v in set(xa) | set(xb):
            ok, cu = fdiff(xa.get(v, FALSE), xb.get(v, FALSE), care)
            if not ok:
                out.append(Diff("ret", "ret", f"the result {shows(v)} differs when {cube_text(cu)}", None, [v], cu, "return"))
    return out


COMMUTE = {"seq.link", "seq.set_initial", "seq.set_final", "warn", "raise", "setattr", "create"}


def order_diff(pairs, spec, impl):
    out = []
    ps = [(e, f) for e, f in pairs if e.key not in spec.many and f.key not in impl.many and e.op not in ("warn", "raise")]
    for i, (a, fa) in enumerate(ps):
        for b, fb in ps[i + 1:]:
            if not conflict(a, b):
                continue
            if AND(a.guard, b.guard) is FALSE:
                continue
            x, y = common(a.ord, b.ord), common(fa.ord, fb.ord)
            if x is None or y is None:
                continue
            if x != y:
                p, q = (a, b) if x else (b, a)
                out.append(Diff(category(a), "order", f"{p.show()[:160]} must happen before {q.show()[:160]}", fa.loc,
                                [t for t in fa.args + fb.args if isinstance(t, T)], None, f"{p.op}<{q.op}"))
    return out


def common(p, q):
    """True: p before q; None: same statement group"""
    for x, y in zip(p, q):
        if x != y:
            return x < y
    return None


def conflict(a, b):
    if a.op in COMMUTE and b.op in COMMUTE:
        return False
    if not overlap(a.mods, b.mods):
        return False
    if a.op == "write" and b.op == "write":
        return a.args[0] is b.args[0] and a.args[1] == b.args[1] and a.args[2] is not b.args[2]
    oa = {x for x in a.args if isinstance(x, T) and classes_of(tyof(x))}
    ob = {x for x in b.args if isinstance(x, T) and classes_of(tyof(x))}
    return bool(oa & ob)
