"""Consistency of a conjunction of literals (dict atom -> bool).

Only facts about order of linear terms, identity, None, and the class
hierarchy of the analysed package; anything else is treated as independent.
"""
from __future__ import annotations
from .terms import *
from .sem import *


def _base(p):
    d, c = lin_parts(p)
    return tuple(sorted(((k.id, v) for k, v in d.items()))), c, d


def consistent(cu):
    lo, hi = {}, {}          # linear base -> bounds on base value
    strict_lo, strict_hi = {}, {}
    true_is, false_is = [], []
    inst_t, inst_f = {}, {}
    truth = {}
    members, nones = [], []
    for a, v in cu.items():
        k = a.k
        if k in ("le0", "lt0"):
            key, c, d = _base(a.a[0])
            # base + c <= 0  ->  base <= -c ; negation: base > -c
            integral = all(tyof(x) == "int" for x in d)
            neg = tuple((i, -w) for i, w in key)
            if v:
                b, s = -c, (k == "lt0")
                if integral and s:
                    b, s = b - 1, False
                _upper(hi, strict_hi, key, b, s)
                _upper_neg(lo, strict_lo, neg, -b, s)
            else:
                b, s = -c, (k == "le0")
                if integral and s:
                    b, s = b + 1, False
                _lower(lo, strict_lo, key, b, s)
                _lower_neg(hi, strict_hi, neg, -b, s)
            if integral and all(x.k == "len" for x in d) and all(w > 0 for _, w in key):
                _lower(lo, strict_lo, key, 0, False)
        elif k == "is":
            (true_is if v else false_is).append(a.a)
        elif k == "inst":
            (inst_t if v else inst_f).setdefault(a.a[0], []).append(a.a[1])
        elif k == "sub":
            (inst_t if v else inst_f).setdefault(("s", a.a[0]), []).append(a.a[1])
        elif k == "truth":
            truth[a.a[0]] = v
        elif k in ("in", "slin") and v:
            n = LEN(a.a[1])
            if n.k == "len":
                # what has a member is not empty
                _lower(lo, strict_lo, ((n.id, 1),), 1, False)
                _upper(hi, strict_hi, ((n.id, -1),), -1, False)
            members.append((a.a[0], a.a[1], n, k))
        elif k == "ex" and not v:
            nones.append(a.a)
    for x, s, n, k in members:
        for m, c, h in nones:
            if m is n and witness(x, s, c, h, cu, k == "slin"):
                return False
    for key in hi:
        if key in lo:
            if lo[key] > hi[key]:
                return False
            if lo[key] == hi[key] and (strict_lo.get(key) or strict_hi.get(key)):
                return False
    if not linear(cu):
        return False
    # identity: congruence classes
    par = {}

    def find(x):
        while par.get(x, x) is not x:
            x = par[x]
        return x
    for x, y in true_is:
        par[find(x)] = find(y)
    for x, y in false_is:
        if find(x) is find(y):
            return False
    groups = {}
    for x, y in true_is:
        for z in (x, y):
            groups.setdefault(find(z), set()).add(z)
    for g in groups.values():
        vals = [z for z in g if z.k in ("cls", "none", "int", "str", "ext", "new")]
        if len(set(vals)) > 1:
            return False
        for z in g:
            if truth.get(z) and NONE in g:
                return False
    # classes
    for x, pos in inst_t.items():
        neg = inst_f.get(x, [])
        for p in pos:
            for q in neg:
                if p is q or _sub(p, q):
                    return False
        reps = [p for p in pos if p.k == "cls"]
        for i, p in enumerate(reps):
            for q in reps[i + 1:]:
                if not _compatible(p.a[0], q.a[0]):
                    return False
    # type(x) is K decides isinstance
    for x, y in true_is:
        for t, c in ((x, y), (y, x)):
            if t.k == "typeof" and c.k == "cls":
                for p in inst_t.get(t.a[0], []):
                    if p.k == "cls" and not is_sub(c.a[0], p.a[0]):
                        return False
                for p in inst_f.get(t.a[0], []):
                    if p.k == "cls" and is_sub(c.a[0], p.a[0]):
                        return False
    return True


def witness(x, s, cond, h, cu, alike):
    """x, a member of s, has the property that no member of s is said to have"""
    i = fresh("i")
    g = open_bv(cond, h, i)
    e = ELT(s, i)
    if alike and any(a.k not in ("eq", "is", "le0", "lt0", "inst") or a.k in ("eq", "is") and e in a.a for a in atoms(g)):
        # membership of a list of entries is by times and label
        return False
    g = subst(g, {e: x})
    if i in g.fv:
        return False
    return assign(g, {a: TRUE if v else FALSE for a, v in cu.items() if a.k in ("inst", "eq", "is", "le0", "lt0")}) is TRUE


_LIN = {}


def linear(cu):
    """Is there a point that satisfies the order literals?  Variable elimination over the rationals, with integers tightened;
    gives up (True) when it grows."""
    lits = [(a, v) for a, v in cu.items() if a.k in ("le0", "lt0")]
    if len(lits) < 2:
        return True
    key = frozenset((a.id, v) for a, v in lits)
    if key in _LIN:
        return _LIN[key]
    cons, seen = set(), set()

    def put(d, c, strict):
        if all(tyof(x) == "int" for x in d) and all(Fraction(w).denominator == 1 for w in d.values()) and Fraction(c).denominator == 1 and strict:
            c, strict = c + 1, False
        cons.add((tuple(sorted(((x.id, Fraction(w)) for x, w in d.items() if w))), Fraction(c), strict))

    def var(x):
        if x in seen:
            return
        seen.add(x)
        if x.k == "len":
            put({x: -1}, 0, False)
            s = x.a[0]
            if s.k == "comp":
                d, c = lin_parts(s.a[0])
                # no longer than its domain, where that is not negative
                if len(d) == 1 and c == 0 and list(d.values())[0] == 1 and (nonneg(list(d)[0]) or list(d)[0].k == "call" and list(d)[0].a[0] == "min2"):
                    y = list(d)[0]
                    put({x: 1, y: -1}, 0, False)
                    var(y)
        elif x.k == "call" and x.a[0] == "min2":
            for y in x.a[1:]:
                d, c = lin_parts(y)
                put({x: 1, **{k: -w for k, w in d.items()}}, -c, False)
                for k in d:
                    var(k)
        elif nonneg(x):
            put({x: -1}, 0, False)
    for a, v in lits:
        d, c = lin_parts(a.a[0])
        for x in d:
            var(x)
        if v:
            put(d, c, a.k == "lt0")
        else:
            put({x: -w for x, w in d.items()}, -c, a.k == "le0")
    ok = True
    rows = [(dict(k), c, s) for k, c, s in cons]
    while rows:
        if any(not d and (c > 0 or c == 0 and s) for d, c, s in rows):
            ok = False
            break
        rows = [r for r in rows if r[0]]
        vs = {x for d, _, _ in rows for x in d}
        if not vs or len(rows) > 60:
            break
        x = min(vs, key=lambda v: (sum(1 for d, _, _ in rows if d.get(v, 0) > 0) * sum(1 for d, _, _ in rows if d.get(v, 0) < 0), v))
        up = [r for r in rows if r[0].get(x, 0) > 0]
        dn = [r for r in rows if r[0].get(x, 0) < 0]
        new = {}
        for r in rows:
            if not r[0].get(x, 0):
                new[(tuple(sorted(r[0].items())), r[1], r[2])] = r
        for d1, c1, s1 in up:
            for d2, c2, s2 in dn:
                f, g = -d2[x], d1[x]
                d = {}
                for y in set(d1) | set(d2):
                    w = f * d1.get(y, 0) + g * d2.get(y, 0)
                    if w:
                        d[y] = w
                r = (d, f * c1 + g * c2, s1 or s2)
                new[(tuple(sorted(d.items())), r[1], r[2])] = r
        rows = list(new.values())
    _LIN[key] = ok
    return ok


def _sub(p, q):
    return p.k == "cls" and q.k == "cls" and is_sub(p.a[0], q.a[0])


def _compatible(p, q):
    """may one object be an instance of both repo classes?"""
    prog = PROG[0]
    cp, cq = prog.classes.get(p), prog.classes.get(q)
    if not cp or not cq:
        return True
    return any(c.is_sub(cp) and c.is_sub(cq) for c in prog.classes.values())


def _upper(hi, st, k, b, s):
    if k not in hi or b < hi[k] or (b == hi[k] and s):
        hi[k], st[k] = b, s


def _lower(lo, st, k, b, s):
    if k not in lo or b > lo[k] or (b == lo[k] and s):
        lo[k], st[k] = b, s


_upper_neg = _lower
_lower_neg = _upper


def equivalent(f, g, care=TRUE):
    """(True, None) or (False, distinguishing cube)"""
    x = AND(XOR(f, g), care)
    if x is FALSE:
        return True, None
    for cu in cubes(x):
        if consistent(cu):
            return False, cu
    return True, None


def implies(f, g, care=TRUE):
    x = AND(f, NOT(g), care)
    if x is FALSE:
        return True, None
    for cu in cubes(x):
        if consistent(cu):
            return False, cu
    return True, None
