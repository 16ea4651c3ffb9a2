"""Normal form of summaries: fully fissioned, quantified, guarded effects."""
from __future__ import annotations
from .terms import *
from .terms import _subs
from .sem import *
from .interp_base import *
from .theory import equivalent, implies, consistent

IDEMPOTENT = {"write", "raise", "warn", "setattr", "seq.link", "seq.set_initial", "seq.set_final", "seq.cleanup", "tier.cleanup",
              "group.cleanup", "grid.cleanup", "group.__init__", "seq.subset_list=", "seq.set_super_instance", "seq.append_subset_list",
              "seq.remove_superset", "seq.set_subset_list", "cls._cast", "cls.set_superset_class", "cls.set_subset_class",
              "grid._reclone_classes", "seq.set_level", "seq.set_turning_point", "create", "lset"}


class QE:
    """one effect under the loops that enclose it"""
    __slots__ = ("binders", "guard", "op", "args", "mods", "loc", "opt", "fn", "ord")

    def __init__(self, binders, guard, op, args, mods, loc, opt, fn, ord_):
        self.binders, self.guard, self.op, self.args = tuple(binders), guard, op, tuple(args)
        self.mods, self.loc, self.opt, self.fn, self.ord = mods, loc, opt, fn, ord_

    @property
    def key(self):
        return (self.op, self.args, tuple((n, x) for _, n, x in self.binders))

    def with_(self, **k):
        d = {s: getattr(self, s) for s in QE.__slots__}
        d.update(k)
        return QE(d["binders"], d["guard"], d["op"], d["args"], d["mods"], d["loc"], d["opt"], d["fn"], d["ord"])

    def show(self):
        q = "".join(f"for {show(b)}<{show(n)}{' ' + show(x) if x is not None else ''}: " for b, n, x in self.binders)
        return f"{q}{self.op}({', '.join(show(a) if isinstance(a, T) else str(a) for a in self.args)})"

    __repr__ = show


def flatten(fx, binders=(), guard=TRUE, pos=(), out=None):
    out = [] if out is None else out
    for i, e in enumerate(fx):
        p = pos + (i,)
        if isinstance(e, Eff):
            out.append(QE(binders, AND(guard, e.guard), e.op, e.args, e.mods, e.loc, e.opt, e.fn, p))
        else:
            extra = None
            m = {}
            if e.kind == "while" or e.carries or e.live is not None:
                depth = len(binders)
                cs = sorted(e.carries, key=lambda c: c[1].id)
                for j, (c, i0, x) in enumerate(cs):
                    v = c.a[0] if c.k == "bdd" else c
                    m[v] = mk("fv", -(2000 + 100 * depth + j), "c", tyof(c))
                f = (lambda t: subst(t, m)) if m else (lambda t: t)
                extra = mk("loopx", e.kind, f(e.cond) if e.cond is not None else NONE,
                           e.live if e.live is not None else NONE, tuple((i0, f(x)) for _, i0, x in cs))
            body = [b.map(lambda t: subst(t, m)) for b in e.body] if m else e.body
            flatten(body, binders + ((e.b, e.n, extra),), AND(guard, e.guard), p, out)
    return out


# ---- conditional values ------------------------------------------------------------

_FREE = {}
_BINDS = {"comp": 3, "ex": 2, "first": 3, "fold": 7}


def free_bv(t):
    """the heights of the bound indices that t does not bind itself"""
    if t.ht == 0:
        return frozenset()
    r = _FREE.get(t)
    if r is None:
        if t.k in ("bv", "cv"):
            r = frozenset((t.a[0],))
        else:
            r = frozenset().union(*[free_bv(y) for y in _subs(t.a)])
            if t.k in _BINDS and len(t.a) > _BINDS[t.k]:
                r = r - {t.a[_BINDS[t.k]]}
        _FREE[t] = r
    return r


def find_ite(t, depth=0):
    """an ite inside t whose condition has no bound index of an inner binder"""
    seen = set()

    def go(x):
        if x in seen or x.k == "bdd":
            return None
        seen.add(x)
        if x.k == "ite" and not free_bv(x.a[0]):
            return x
        for y in _subs(x.a):
            r = go(y)
            if r is not None:
                return r
        return None
    return go(t)


_DEEP = {}


def inner(t):
    """an atom of a formula inside the term t, or the condition of a choice in it, that no binder inside t reaches"""
    if t in _DEEP:
        return _DEEP[t]
    r = None
    if t.k == "bdd" and not free_bv(t.a[0]):
        r = t.a[0]
    else:
        for y in _subs(t.a):
            r = inner(y)
            if r is not None:
                break
    _DEEP[t] = r
    return r


def lift(g, k=20):
    """a formula whose atoms hide no choice that could be made outside of them"""
    while k and g.k == "bdd":
        a = next((x for x in map(inner_of, atoms(g)) if x is not None), None)
        if a is None:
            return g
        k -= 1
        g = bite(atom(a), subst(g, {a: TRUE}), subst(g, {a: FALSE}))
    return g


def inner_of(a):
    """the same for the terms inside an atom"""
    for y in _subs(a.a):
        r = inner(y)
        if r is not None:
            return r
    return None


def leaves(t, guard=TRUE, limit=24):
    """[(guard, value)] with every liftable conditional split"""
    out = []
    work = [(guard, t)]
    while work:
        g, x = work.pop()
        if g is FALSE:
            continue
        it = find_ite(x) if len(out) + len(work) < limit else None
        if it is None:
            k = inner(x) if len(out) + len(work) < limit else None
            if k is None:
                out.append((g, x))
            else:
                work += [(AND(g, NOT(atom(k))), subst(x, {k: FALSE})), (AND(g, atom(k)), subst(x, {k: TRUE}))]
            continue
        c = it.a[0]
        g1, g0 = AND(g, c), AND(g, NOT(c))
        if g0 is not FALSE:
            work.append((g0, subst_ite(x, it, it.a[2])))
        if g1 is not FALSE:
            work.append((g1, subst_ite(x, it, it.a[1])))
    return out


def subst_ite(x, it, v):
    return v if x is it else subst(x, {it: v})


def split_args(q, limit=24):
    out = []
    work = [q]
    while work:
        e = work.pop()
        if e.guard is FALSE:
            continue
        it = None
        if len(out) + len(work) < limit:
            for a in e.args:
                if isinstance(a, T):
                    it = find_ite(a)
                    if it is not None:
                        break
            if it is None:
                for _, n, x in e.binders:
                    it = find_ite(n)
                    if it is not None:
                        break
        if it is None:
            k = None
            if len(out) + len(work) < limit:
                k = next((y for y in map(inner, [a for a in e.args if isinstance(a, T)] + [n for _, n, _ in e.binders]) if y is not None), None)
            if k is None:
                v = e.args[-1] if e.op in ("lset", "write") else None
                n = v.a[0] if isinstance(v, T) and v.k == "comp" and v.a[1] is TRUE else None
                if n is not None and not n.fv and not free_bv(n):
                    # the list of no elements
                    z = LE0(n)
                    out.append(e.with_(guard=AND(e.guard, NOT(z))))
                    out.append(e.with_(guard=AND(e.guard, z), args=e.args[:-1] + (EMPTY,)))
                    continue
                out.append(e)
                continue
            for g, v in ((NOT(atom(k)), FALSE), (atom(k), TRUE)):
                f = lambda t: subst(t, {k: v})
                work.append(e.with_(guard=AND(e.guard, g), args=tuple(f(a) if isinstance(a, T) else a for a in e.args),
                                    binders=tuple((b, f(n), x) for b, n, x in e.binders)))
            continue
        c = it.a[0]
        for g, v in ((NOT(c), it.a[2]), (c, it.a[1])):
            f = lambda t: subst_ite(t, it, v)
            work.append(e.with_(guard=AND(e.guard, g), args=tuple(f(a) if isinstance(a, T) else a for a in e.args),
                                binders=tuple((b, f(n), x) for b, n, x in e.binders)))
    return out


def eqmap(g):
    """equations of lengths that a guard imposes, as substitutions"""
    out = []
    if g is TRUE or g is FALSE:
        return out
    for a in [a for a in atoms(g) if a.k == "le0"]:
        p = a.a[0]
        d, c = lin_parts(p)
        if len(d) != 2 or not all(x.k == "len" and abs(v) == 1 for x, v in d.items()):
            continue
        if AND(g, NOT(atom(a))) is not FALSE or AND(g, LE0(add(p, num(1)))) is not FALSE:
            continue
        x = max(d, key=lambda y: y.id)
        out.append({x: sub(x, scale(p, 1 / d[x]))})
    return out


def equalities(q):
    """use an equation of integer terms that the guard imposes"""
    for m in eqmap(q.guard):
        f = lambda t: subst(t, m)
        q = q.with_(args=tuple(f(y) if isinstance(y, T) else y for y in q.args), binders=tuple((b, f(n), e) for b, n, e in q.binders))
    return q


# ---- loops -----------------------------------------------------------------------------

def simplify_binders(q):
    bs = list(q.binders)
    guard, args = q.guard, list(q.args)
    i = len(bs) - 1
    while i >= 0:
        b, n, x = bs[i]
        inner = bs[i + 1:]

        def S(m, k=i):
            nonlocal guard, args
            guard = subst(guard, m)
            args = [subst(a, m) if isinstance(a, T) else a for a in args]
            for j in range(k + 1, len(bs)):
                bb, nn, xx = bs[j]
                bs[j] = (bb, subst(nn, m), subst(xx, m) if xx is not None else None)
        guard = bound_simp(guard, b, n)
        if guard is FALSE:
            return None
        if x is None:
            # one-point: the effect happens for a single index only
            if bound_simp(AND(guard, NOT(LE0(b))), b, n) is FALSE:
                S({b: ZERO})
                guard = AND(guard, NOT(LE0(n)))
                del bs[i]
                i -= 1
                continue
            last = sub(n, num(1))
            if bound_simp(AND(guard, LE(b, sub(n, num(2)))), b, n) is FALSE:
                S({b: last})
                guard = AND(guard, NOT(LE0(n)))
                del bs[i]
                i -= 1
                continue
            for _ in range(3):
                done = True
                if bound_simp(AND(guard, LE0(b)), b, n) is FALSE:
                    n2 = sub(n, num(1))
                    S({b: add(b, num(1))})
                    bs[i] = (b, n2, x)
                    guard = bound_simp(guard, b, n2)
                    n = n2
                    done = False
                elif bound_simp(AND(guard, NOT(LE(b, sub(n, num(2))))), b, n) is FALSE:
                    n2 = sub(n, num(1))
                    bs[i] = (b, n2, x)
                    guard = bound_simp(guard, b, n2)
                    n = n2
                    done = False
                if done or guard is FALSE:
                    break
            if guard is FALSE:
                return None
            used = b in guard.fv or any(isinstance(a, T) and b in a.fv for a in args) or \
                any(b in nn.fv or (xx is not None and b in xx.fv) for _, nn, xx in bs[i + 1:])
            if not used and q.op in IDEMPOTENT:
                guard = AND(guard, NOT(LE0(n)))
                del bs[i]
                i -= 1
                continue
            # descending traversal written upwards
            if used and descending(b, args, guard, n):
                S({b: sub(sub(n, num(1)), b)})
                guard = bound_simp(guard, b, n)
        i -= 1
    return q.with_(binders=tuple(bs), guard=guard, args=tuple(args))


def descending(b, args, guard, n):
    """every index mentioning b has coefficient -1 and the form n-1-b+c"""
    seen, found = set(), []

    def go(x):
        if x in seen or b not in x.fv:
            return True
        seen.add(x)
        if x is b:
            return False
        if x.k == "lin":
            d, c = lin_parts(x)
            if d.get(b) == -1 and all(b not in k.fv for k in d if k is not b):
                found.append(x)
                return True
            if b in d:
                return False
        return all(go(y) for y in _subs(x.a))
    ok = all(go(a) for a in args if isinstance(a, T)) and go(guard)
    return ok and bool(found)


def rename_binders(q):
    m = {}
    bs = []
    for d, (b, n, x) in enumerate(q.binders):
        nb = mk("fv", -(10 + d), "i")
        n2 = subst(n, m) if m else n
        x2 = subst(x, m) if (m and x is not None) else x
        m[b] = nb
        bs.append((nb, n2, subst(x2, {b: nb}) if x2 is not None else None))
    if not m:
        return q
    f = lambda t: subst(t, m)
    return q.with_(binders=tuple(bs), guard=f(q.guard), args=tuple(f(a) if isinstance(a, T) else a for a in q.args))


def domain_simp(guard, binders):
    for b, n, x in reversed(binders):
        if x is None:
            guard = bound_simp(guard, b, n)
    return guard


# ---- canonical operations ------------------------------------------------------------------

def canon_op(q, links):
    if links and q.op == "seq.set_fol":
        return q.with_(op="seq.link")
    if links and q.op == "seq.set_prev":
        return q.with_(op="seq.link", args=(q.args[1], q.args[0]))
    return q


def drop_noop(q, links):
    """a write guarded by 'value differs' is the write"""
    g = q.guard
    m = {}
    if q.op == "write":
        o, f, v = q.args
        for a in atoms(g):
            if a.k in ("is", "eq"):
                for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                    if x.k == "attr" and x.a[0] is o and x.a[1] == f and y is v:
                        m[a] = FALSE
            if a.k == "has" and a.a[0] is o and str(a.a[1]).lstrip("_") == f.lstrip("_"):
                m[a] = FALSE
    elif q.op == "seq.link":
        p, n = q.args
        for a in atoms(g):
            if a.k == "is":
                for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                    if x.k == "attr" and ((x.a[0] is p and x.a[1] == "fol" and y is n) or (x.a[0] is n and x.a[1] == "prev" and y is p)):
                        m[a] = FALSE
    if m:
        q = q.with_(guard=assign(g, m))
    return q


# ---- versions ---------------------------------------------------------------------------------

def vgroup(o, f):
    k = fkind(o)
    return f"{f}:{k}" if k else f


class Versions:
    """compress version stamps to ranks, 0 staying 0"""

    def __init__(self, coarse=False):
        self.used = {}
        self.seen = set()
        self.coarse = coarse                        # tell apart only "as on entry" and "after something may have changed it"

    def collect(self, t):
        st = [t]
        while st:
            x = st.pop()
            if x in self.seen:
                continue
            self.seen.add(x)
            if x.k == "attr" and x.a[2]:
                self.used.setdefault(vgroup(x.a[0], x.a[1]), set()).add(x.a[2])
            elif x.k == "at" and x.a[1]:
                b = x.a[0]
                self.used.setdefault("*" + (vgroup(b.a[0], b.a[1]) if b.k == "attr" else ""), set()).add(x.a[1])
            elif x.k == "stamp":
                for f, v in x.a[0]:
                    self.used.setdefault("s:" + f, set()).add(v)
            st += list(_subs(x.a))

    def done(self):
        self.rank = {g: {v: 1 if self.coarse else i + 1 for i, v in enumerate(sorted(s))} for g, s in self.used.items()}
        self.memo = {}
        self.trivial = all(r == {v: v for v in r} for r in self.rank.values())

    def __call__(self, t):
        if self.trivial or not isinstance(t, T):
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.k == "bdd":
            a = self(t.a[0])
            a = a if a.k in ("true", "false", "bdd") else atom(a)
            r = bite(a, self(t.a[1]), self(t.a[2]))
        else:
            na = self.args(t.a)
            if t.k == "attr" and t.a[2]:
                na = (na[0], na[1], self.rank[vgroup(t.a[0], t.a[1])][t.a[2]])
            elif t.k == "at" and t.a[1]:
                b = t.a[0]
                na = (na[0], self.rank["*" + (vgroup(b.a[0], b.a[1]) if b.k == "attr" else "")][t.a[1]])
            elif t.k == "stamp":
                na = (tuple((f, self.rank["s:" + f][v]) for f, v in t.a[0]),)
            r = t if na == t.a else rebuild(t.k, na)
        self.memo[t] = r
        return r

    def args(self, a):
        return tuple(self(x) if isinstance(x, T) else self.args(x) if isinstance(x, tuple) else x for x in a)


class Windows:
    """[x[i + a] for i in range(n)] is written as x[a:a + n] (they differ only where indexing raises)"""

    def __init__(self):
        self.memo = {}

    def __call__(self, t):
        if not isinstance(t, T) or not has_kind(t, ("comp",)):
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.k == "bdd":
            a = self(t.a[0])
            r = bite(a if a.k in ("true", "false", "bdd") else atom(a), self(t.a[1]), self(t.a[2]))
        else:
            na = self.args(t.a)
            if na != t.a and t.k == "comp":
                b = fresh("i")                       # close it again: what lies inside may have become flatter
                r = COMP(na[0], open_bv(na[1], na[3], b), open_bv(na[2], na[3], b), b)
            else:
                r = t if na == t.a else rebuild(t.k, na)
        if r.k == "comp" and r.a[1] is TRUE and r.a[2].k == "elt":
            x, i = r.a[2].a
            v = mk("bv", r.a[3])
            off = sub(i, v)
            if not any(y is v for y in walk(x)) and not any(y is v for y in walk(off)):
                r = SLICE(x, NONE if off is ZERO else off, add(off, r.a[0]), NONE)
        self.memo[t] = r
        return r

    def args(self, a):
        return tuple(self(x) if isinstance(x, T) else self.args(x) if isinstance(x, tuple) else x for x in a)


def walk(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st += list(_subs(x.a))


def rebuild(k, na):
    if k in _REBK:
        return _REBK[k](na)
    return mk(k, *na)


from .sem import _REB, _ATOMREB
_REBK = {k: v for k, v in list(_REB.items()) + list(_ATOMREB.items()) if k in ("lin", "is", "eq", "le0", "lt0", "cat", "ite")}


# ---- whole summaries ------------------------------------------------------------------------------

class Norm:
    def __init__(self, summary, links=True, coarse=False):
        self.unknowns, self.summary, self.links = summary.unknowns, summary, links
        qs = []
        self.interference = False
        for q in flatten(summary.fx):
            for _, _, x in q.binders:
                if x is not None and x.a[2] is not NONE:
                    self.interference = True
            if coarse:
                q = q.with_(binders=tuple((b, n, None if x is not None and x.a[0] == "for" and not x.a[3] else x) for b, n, x in q.binders))
            for e in split_args(q):
                e = equalities(e.with_(guard=lift(e.guard)))
                e = simplify_binders(e)
                if e is None or e.guard is FALSE:
                    continue
                e = rename_binders(e)
                e = canon_op(e, links)
                e = drop_noop(e, links)
                if e.guard is FALSE:
                    continue
                qs.append(e)
        rg = OR(FALSE, *[e.guard for e in qs if e.op == "raise" and not e.binders])
        rets = []
        for g, v in leaves(summary.ret):
            for m in eqmap(AND(g, NOT(rg))):
                v = subst(v, m)
            rets.append((lift(g), v))
        V = Versions(coarse)
        for e in qs:
            for a in e.args:
                if isinstance(a, T):
                    V.collect(a)
            V.collect(e.guard)
            for _, n, x in e.binders:
                V.collect(n)
                if x is not None:
                    V.collect(x)
        for g, v in rets:
            V.collect(g)
            V.collect(v)
        V.done()
        qs = [e.with_(args=tuple(V(a) for a in e.args), guard=V(e.guard),
                      binders=tuple((b, V(n), V(x) if x is not None else None) for b, n, x in e.binders)) for e in qs]
        rets = [(V(g), V(v)) for g, v in rets]
        W = Windows()
        qs = [e.with_(args=tuple(W(a) for a in e.args), guard=W(e.guard),
                      binders=tuple((b, W(n), W(x) if x is not None else None) for b, n, x in e.binders)) for e in qs]
        rets = [(W(g), W(v)) for g, v in rets]
        self.effects = self.merge(qs)
        self.rets = {}
        for g, v in rets:
            self.rets[v] = OR(self.rets.get(v, FALSE), g)
        self.raise_guard = OR(FALSE, *[e.guard for e in self.effects.values() if e.op == "raise" and not e.binders])

    def merge(self, qs):
        out = {}
        self.req, self.many = {}, set()
        for e in qs:
            k = e.key
            if not e.opt:
                self.req[k] = OR(self.req.get(k, FALSE), e.guard)
            if k in out:
                o = out[k]
                if e.op not in IDEMPOTENT and AND(o.guard, e.guard) is not FALSE:
                    j = 2
                    while (e.op + f"#{j}", e.args, k[2]) in out:
                        j += 1
                    e2 = e.with_(op=e.op + f"#{j}")
                    out[e2.key] = e2
                    self.req[e2.key] = FALSE if e.opt else e.guard
                    continue
                self.many.add(k)
                out[k] = o.with_(guard=domain_simp(OR(o.guard, e.guard), o.binders), opt=o.opt and e.opt)
            else:
                out[k] = e
        return self.dead_stores(out)

    def dead_stores(self, out):
        """a write that a later write of the same field replaces before any call can see it only counts where it is not replaced"""
        es = sorted(out.values(), key=lambda e: e.ord)
        for i, e in enumerate(es):
            if e.op not in ("write", "lset") or e.binders:
                continue
            same = (lambda f: f.args[0] is e.args[0] and f.args[1] == e.args[1]) if e.op == "write" else (lambda f: f.args[0] is e.args[0])
            g, rq = out[e.key].guard, self.req.get(e.key, FALSE)
            for f in es[i + 1:]:
                if f.op == e.op and not f.binders and same(f) and f.key != e.key and len(f.ord) == len(e.ord) == 1:
                    g, rq = AND(g, NOT(f.guard)), AND(rq, NOT(f.guard))
                elif f.op not in ("write", "lset", "raise", "warn"):
                    break
            out[e.key] = e.with_(guard=g)
            self.req[e.key] = rq
        return {k: v for k, v in out.items() if v.guard is not FALSE}
