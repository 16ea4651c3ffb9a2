"""Hash-consed terms, linear arithmetic, and ordered decision diagrams for guards.

The evaluator (interp.py) maps every expression of the analysed source to a
term and every control condition to a canonical decision diagram over atoms.
Terms are interned: structural equality is identity.  Bound indices of loops
and comprehensions are named by the height of their binder, so two terms that
differ only in the choice of loop variable are the same object.
"""
from __future__ import annotations
from fractions import Fraction


class T:
    __slots__ = ("k", "a", "id", "ht", "fv", "__weakref__")

    def __repr__(self):
        return show(self)


_tab: dict = {}
_cnt = [0]


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k, t.a = k, a
        _cnt[0] += 1
        t.id = _cnt[0]
        ht = 0
        fv = _EMPTY
        for x in _subs(a):
            if x.ht > ht:
                ht = x.ht
            if x.fv:
                fv = fv | x.fv
        if k == "fv":
            fv = frozenset((t,))
        if k in ("bv", "cv"):
            ht = max(ht, a[0])
        t.ht, t.fv = ht, fv
        _tab[key] = t
    return t


_EMPTY = frozenset()


def _subs(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _subs(x)


def has_kind(t, ks):
    """does a subterm of t have one of the kinds ks?"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.k in ks:
            return True
        st += _subs(x.a)
    return False


def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return mk("int", v)
    if isinstance(v, float):
        if v == int(v) if v == v and abs(v) < 1e15 else False:
            return mk("int", int(v))
        return mk("flt", repr(v))
    if v is None:
        return NONE
    if isinstance(v, str):
        return mk("str", v)
    return mk("const", repr(v))


TRUE = mk("true")
FALSE = mk("false")
NONE = mk("none")
ZERO = mk("int", 0)

_fresh = [0]


def skeleton(t, depth=7):
    """a text that orders terms independently of the names of their bound variables"""
    if isinstance(t, tuple):
        return "(" + ",".join(skeleton(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if t.k in ("fv", "bv"):
        return "?"
    if depth <= 0:
        return t.k
    if t.k in ("lin", "bdd"):
        return t.k + ",".join(sorted(skeleton(x, depth - 1) for x in t.a))
    return t.k + skeleton(t.a, depth - 1)


def fresh(tag="v"):
    _fresh[0] += 1
    return mk("fv", _fresh[0], tag)


# --- linear arithmetic -------------------------------------------------------

def lin_parts(t):
    """-> (dict term->Fraction, Fraction)"""
    if t.k == "int":
        return {}, Fraction(t.a[0])
    if t.k == "flt":
        try:
            return {}, Fraction(t.a[0])
        except ValueError:
            return {t: Fraction(1)}, Fraction(0)
    if t.k == "lin":
        return dict(t.a[0]), t.a[1]
    return {t: Fraction(1)}, Fraction(0)


def lin_make(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        if c.denominator == 1:
            return mk("int", int(c))
        return mk("flt", str(c))
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", tuple(sorted(d.items(), key=lambda kv: kv[0].id)), c)


def add(x, y, s=1):
    d, c = lin_parts(x)
    e, f = lin_parts(y)
    for k, v in e.items():
        d[k] = d.get(k, 0) + s * v
    return lin_make(d, c + s * f)


def sub(x, y):
    return add(x, y, -1)


def scale(x, r):
    d, c = lin_parts(x)
    return lin_make({k: v * r for k, v in d.items()}, c * r)


def num(i):
    return mk("int", i)


# --- guards: reduced ordered decision diagrams --------------------------------

_ite_memo: dict = {}


def node(atom, hi, lo):
    if hi is lo:
        return hi
    return mk("bdd", atom, hi, lo)


def atom(t):
    if t.k in ("true", "false", "bdd"):
        return t
    return mk("bdd", t, TRUE, FALSE)


def _top(*fs):
    best = None
    for f in fs:
        if f.k == "bdd" and (best is None or f.a[0].id < best.id):
            best = f.a[0]
    return best


def _cof(f, v):
    if f.k == "bdd" and f.a[0] is v:
        return f.a[1], f.a[2]
    return f, f


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = (f.id, g.id, h.id)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    v = _top(f, g, h)
    f1, f0 = _cof(f, v)
    g1, g0 = _cof(g, v)
    h1, h0 = _cof(h, v)
    r = node(v, bite(f1, g1, h1), bite(f0, g0, h0))
    _ite_memo[key] = r
    return r


def AND(*fs):
    r = TRUE
    for f in fs:
        r = bite(r, f, FALSE)
    return r


def OR(*fs):
    r = FALSE
    for f in fs:
        r = bite(r, TRUE, f)
    return r


def NOT(f):
    return bite(f, FALSE, TRUE)


def XOR(f, g):
    return bite(f, NOT(g), g)


def atoms(f, acc=None):
    acc = {} if acc is None else acc
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.k != "bdd" or x in seen:
            continue
        seen.add(x)
        acc[x.a[0]] = 1
        st += [x.a[1], x.a[2]]
    return list(acc)


def assign(f, m):
    """Replace atoms by constants/formulas given in dict m."""
    memo = {}

    def go(x):
        if x.k != "bdd":
            return x
        r = memo.get(x)
        if r is None:
            a, hi, lo = x.a
            if a in m:
                r = bite(m[a], go(hi), go(lo))
            else:
                r = bite(atom(a), go(hi), go(lo))
            memo[x] = r
        return r
    return go(f)


def cubes(f, limit=4000):
    """Paths to TRUE: list of dict atom->bool."""
    out = []

    def go(x, cur):
        if len(out) >= limit:
            return
        if x is TRUE:
            out.append(dict(cur))
            return
        if x is FALSE:
            return
        if x.k != "bdd":
            out.append(dict(cur))
            return
        a, hi, lo = x.a
        cur[a] = True
        go(hi, cur)
        cur[a] = False
        go(lo, cur)
        del cur[a]
    go(f, {})
    return out


def restrict(f, care):
    """Simplify f given that `care` holds (drop atoms decided by care)."""
    if care is TRUE or f in (TRUE, FALSE):
        return f
    if AND(f, care) is FALSE:
        return FALSE
    if AND(NOT(f), care) is FALSE:
        return TRUE
    for a in atoms(f):
        at = atom(a)
        if AND(care, NOT(at)) is FALSE:
            f = assign(f, {a: TRUE})
        elif AND(care, at) is FALSE:
            f = assign(f, {a: FALSE})
        else:
            # try to drop the atom altogether when care makes it irrelevant
            f1 = assign(f, {a: TRUE})
            f0 = assign(f, {a: FALSE})
            if f1 is not f0:
                if AND(XOR(f, f1), care) is FALSE:
                    f = f1
                elif AND(XOR(f, f0), care) is FALSE:
                    f = f0
    return f


# --- pretty printing -----------------------------------------------------------

def show_bdd(f):
    if f is TRUE:
        return "always"
    if f is FALSE:
        return "never"
    cs = cubes(f, 6)
    def lit(a, v):
        s = show(a)
        return s if v else f"not({s})"
    parts = [" and ".join(lit(a, v) for a, v in c.items()) for c in cs[:5]]
    if len(cs) > 5:
        parts.append("...")
    return " or ".join(f"({p})" if len(parts) > 1 else p for p in parts)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    k, a = t.k, t.a
    s = lambda x: show(x, d + 1)
    if k == "int":
        return str(a[0])
    if k == "flt":
        return a[0]
    if k == "str":
        return repr(a[0])
    if k in ("true", "false", "none"):
        return k.capitalize()
    if k == "p":
        return a[0]
    if k == "fv":
        return f"?{a[1]}{a[0]}"
    if k == "bv":
        return f"i{a[0]}"
    if k == "attr":
        v = f"@{a[2]}" if a[2] else ""
        return f"{s(a[0])}.{a[1]}{v}"
    if k == "elt":
        return f"{s(a[0])}[{s(a[1])}]"
    if k == "len":
        return f"len({s(a[0])})"
    if k == "lin":
        out = []
        for x, c in a[0]:
            out.append(s(x) if c == 1 else f"-{s(x)}" if c == -1 else f"{c}*{s(x)}")
        if a[1] != 0:
            out.append(str(a[1]))
        return "(" + " + ".join(out) + ")"
    if k == "bdd":
        return "{" + show_bdd(t) + "}"
    if k == "cls":
        return a[0]
    if k == "ext":
        return a[0]
    if k == "le0":
        return f"{s(a[0])}<=0"
    if k == "lt0":
        return f"{s(a[0])}<0"
    if k == "is":
        return f"{s(a[0])} is {s(a[1])}"
    if k == "eq":
        return f"{s(a[0])}=={s(a[1])}"
    if k == "comp":
        return f"[{s(a[2])} for i{a[3]}<{s(a[0])}" + ("" if a[1] is TRUE else f" if {s(a[1])}") + "]"
    if k == "ex":
        return f"exists i{a[2]}<{s(a[0])}: {s(a[1])}"
    if k == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if k == "seq":
        return "[" + ", ".join(s(x) for x in a[0]) + "]"
    if k == "call":
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    return f"{k}(" + ", ".join(s(x) for x in a) + ")"
