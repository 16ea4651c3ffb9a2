"""Semantic constructors: simplifying builders for terms, and their types."""
from __future__ import annotations
import re
from fractions import Fraction
from .terms import *
from .terms import _subs

# ----------------------------------------------------------------- types ----
SEQ_KINDS = {"SequenceInterval", "SequencePoint"}

FIELDS = {
    "SequenceInterval": {
        "fol": "=", "prev": "=", "super_instance": "SequenceInterval",
        "subset_list": "SL:SequenceInterval", "intier": "SequenceTier",
        "tiername": "str", "start": "num", "end": "num", "label": "str",
        "contains": "SL:SequenceInterval", "within": "SequenceInterval",
    },
    "SequencePoint": {
        "fol": "=", "prev": "=", "intier": "SequencePointTier", "tiername": "str",
        "time": "num", "label": "str", "within": "SequencePointTier",
        "contains": "list:any",
    },
    "SequenceTier": {
        "sequence_list": "SL:SequenceInterval", "entry_class": "cls:SequenceInterval",
        "superset_class": "cls:SequenceInterval|Top", "subset_class": "cls:Bottom|SequenceInterval",
        "name": "str", "within": "TierGroup", "contains": "SL:SequenceInterval",
        "entry_list": "list:any",
    },
    "SequencePointTier": {
        "sequence_list": "SL:SequencePoint", "entry_class": "cls:SequencePoint",
        "name": "str", "within": "PointsGroup", "contains": "SL:SequencePoint",
        "entry_list": "list:any",
    },
    "TierGroup": {
        "tier_list": "list:SequenceTier", "name": "str", "_name": "str",
        "within": "AlignedTextGrid", "contains": "list:SequenceTier",
    },
    "PointsGroup": {
        "tier_list": "list:SequencePointTier", "name": "str", "_name": "str",
        "within": "AlignedTextGrid", "contains": "list:SequencePointTier",
    },
    "AlignedTextGrid": {
        "tier_groups": "list:TierGroup|PointsGroup", "_cloned_classes": "list:cls:SequenceInterval|SequencePoint",
        "contains": "list:TierGroup|PointsGroup", "within": "none",
        "Levels": "SequencePointTier:Levels", "Ranges": "SequenceTier",
        "TurningPoints": "SequencePointTier:TurningPoints",
    },
    "TurningPoints": {"level": "Levels"},
    "Levels": {"turning_point": "TurningPoints", "ranges_tier": "SequenceTier", "range_interval": "Ranges"},
    "SequenceList": {"entry_class": "cls:SequenceInterval|SequencePoint"},
    "praatio.IntervalTier": {"name": "str", "entries": "list:praatio.Interval", "minTimestamp": "num", "maxTimestamp": "num"},
    "praatio.PointTier": {"name": "str", "entries": "list:praatio.Point", "minTimestamp": "num", "maxTimestamp": "num"},
    "praatio.Interval": {"start": "num", "end": "num", "label": "str"},
    "praatio.Point": {"time": "num", "label": "str"},
    "praatio.Textgrid": {"tiers": "list:praatio.IntervalTier|praatio.PointTier", "tierNames": "list:str"},
}
CLSFIELDS = {"superset_class", "subset_class"}

PROG = [None]   # current Program, for subclass queries


def classes_of(ty):
    if not ty or ty.startswith(("SL", "list", "cls", "arr")):
        return []
    return [c.split(":")[0] for c in ty.split("|")]


def is_sub(a, b):
    """repo class a is a subclass of repo class b (by name)."""
    p = PROG[0]
    ca, cb = p.classes.get(a), p.classes.get(b)
    return ca is not None and cb is not None and ca.is_sub(cb)


def kind_of(cls):
    """seq / tier / group / grid / SL / None for a repo class name."""
    for k, names in (("seq", ("SequenceInterval", "SequencePoint")), ("tier", ("SequenceTier", "SequencePointTier")),
                     ("group", ("TierGroup", "PointsGroup")), ("grid", ("AlignedTextGrid",)), ("SL", ("SequenceList",)),
                     ("hier", ("Top", "Bottom"))):
        for n in names:
            if cls == n or is_sub(cls, n):
                return k
    return None


def field_type(cls, f):
    p = PROG[0]
    ci = p.classes.get(cls)
    names = [c.name for c in ci.mro if not isinstance(c, str)] if ci else [cls]
    for n in names:
        t = FIELDS.get(n, {}).get(f)
        if t:
            return cls if t == "=" else t
    return None


_ty: dict = {}


def tyof(t):
    r = _ty.get(t)
    if r is None:
        r = _tyof(t) or ""
        _ty[t] = r
    return r


_PN = {"int": "int", "flt": "num", "str": "str", "true": "bool", "false": "bool", "bdd": "bool", "none": "none",
       "len": "int", "lin": "num", "bv": "int", "arr": "arr", "fmt": "str", "slist": "SL", "newcls": "cls"}


def elem_type(ty):
    if ty.startswith("SL:"):
        return ty[3:]
    if ty.startswith("list:"):
        return ty[5:]
    if ty.startswith("arr:"):
        return ty[4:]
    if ty.startswith("SequencePointTier:"):
        return ty.split(":", 1)[1]
    if ty == "SequenceTier":
        return "SequenceInterval"
    if ty == "str":
        return "str"
    if ty == "SequencePointTier":
        return "SequencePoint"
    if ty == "TierGroup":
        return "SequenceTier"
    if ty == "PointsGroup":
        return "SequencePointTier"
    if ty == "AlignedTextGrid":
        return "TierGroup|PointsGroup"
    return ""


def _tyof(t):
    k, a = t.k, t.a
    if k == "p":
        return a[1]
    if k == "fv":
        return a[2] if len(a) > 2 else ("int" if a[1] == "i" else "")
    if k == "lin":
        return "int" if all(tyof(x) == "int" and c.denominator == 1 for x, c in a[0]) and a[1].denominator == 1 else "num"
    if k in _PN:
        if k == "slist":
            e = elem_type(tyof(a[0]))
            return "SL:" + e if e else "SL"
        if k == "newcls":
            if len(a) > 1 and isinstance(a[1], T) and a[1].k == "seq" and len(a[1].a[0]) == 1:
                return tyof(a[1].a[0][0]) or "cls"
            return "cls:" + a[0] if isinstance(a[0], str) else "cls"
        if k == "arr":
            e = elem_type(tyof(a[0]))
            return "arr:" + e if e else "arr"
        return _PN[k]
    if k == "attr":
        ot = tyof(a[0])
        if a[1] == "__name__":
            return "str"
        if ot.startswith("SL:") and a[1] == "entry_class":
            return "cls:" + ot[3:]
        if ot.startswith("cls:") and a[1] in CLSFIELDS:
            return "cls:SequenceInterval|Top" if a[1] == "superset_class" else "cls:Bottom|SequenceInterval"
        rs = {field_type(c, a[1]) for c in classes_of(ot)}
        rs.discard(None)
        if len(rs) == 1:
            r = rs.pop()
            if ot.startswith("SequencePointTier:") and a[1] in ("sequence_list", "contains"):
                return "SL:" + ot.split(":", 1)[1]
            return r
        if rs and all(x.startswith("list:") for x in rs):
            return "list:" + "|".join(sorted({x[5:] for x in rs}))
        if rs and all(x.startswith("SL:") for x in rs):
            return "SL:" + "|".join(sorted({x[3:] for x in rs}))
        if rs and all(x.startswith("cls:") for x in rs):
            return "cls:" + "|".join(sorted({x[4:] for x in rs}))
        if rs and not any(":" in x for x in rs):
            return "|".join(sorted(rs))
        return ""
    if k == "typeof":
        c = classes_of(tyof(a[0]))
        return "cls:" + "|".join(c) if c else "cls"
    if k == "cls":
        return "cls:" + a[0]
    if k == "elt":
        return elem_type(tyof(a[0]))
    if k == "slice" or k == "rev" or k == "sorted":
        ty = tyof(a[0])
        return "list:" + ty[3:] if ty.startswith("SL:") else ty
    if k == "seq":
        ts = {tyof(x) for x in a[0]}
        ts.discard("none")
        return "list:" + "|".join(sorted(ts)) if ts and "" not in ts else "list"
    if k == "comp":
        e = tyof(a[2])
        return "list:" + e if e else "list"
    if k == "cat":
        ts = {elem_type(tyof(x)) for x in a[0]}
        ts.discard("")
        return "list:" + ts.pop() if len(ts) == 1 else "list"
    if k == "flat":
        e = elem_type(elem_type(tyof(a[0])))
        return "list:" + e if e else "list"
    if k == "set":
        e = elem_type(tyof(a[0]))
        return "list:" + e if e else "list"
    if k == "new":
        ct = tyof(a[0])
        return _nohier(ct[4:]) if ct.startswith("cls:") else ""
    if k == "vals":
        e = elem_type(tyof(a[0]))
        return "list:" + e if e else "list"
    if k in ("ins", "del", "upd"):
        return tyof(a[0]) if tyof(a[0]).startswith("list") else "list:" + elem_type(tyof(a[0]))
    if k == "slmut":
        return tyof(a[1])
    if k == "sladd":
        return tyof(a[0])
    if k == "ite":
        x, y = tyof(a[1]), tyof(a[2])
        if x == y or y == "none":
            return x
        if x == "none":
            return y
        if classes_of(x) and classes_of(y):
            return "|".join(sorted(set(x.split("|")) | set(y.split("|"))))
        if x.startswith("cls:") and y.startswith("cls:"):
            return "cls:" + "|".join(sorted(set(x[4:].split("|")) | set(y[4:].split("|"))))
        if {x, y} <= {"int", "num"}:
            return "num"
        if x.startswith("list") and y.startswith("list"):
            return x if len(x) > len(y) else y
        if x == "" or y == "":
            return x or y
        return ""
    if k == "first":
        return tyof(a[2])
    if k == "fold":
        return tyof(a[1])
    if k == "wval":
        return tyof(a[1])
    if k == "cv":
        return a[1] if len(a) > 1 else ""
    if k in ("at", "mut"):
        return tyof(a[0])
    if k == "call":
        if a[0] == "cls._cast":
            ct = tyof(a[1])
            return _nohier(ct[4:]) if ct.startswith("cls:") else ""
        if a[0] == "anyof" and a[1].k == "set":
            return elem_type(tyof(a[1].a[0]))
        if a[0] == "group._arrange_tiers":
            return "list:" + elem_type(tyof(a[1]))
        if a[0] in ("argmin", "argmax", ".max", ".min", ".sum") and len(a) > 2:
            return "arr"
        return CALL_TYPES.get(a[0], "")
    if k == "op":
        if any(tyof(x).startswith("arr") for x in a[1:] if isinstance(x, T)):
            return "arr"
        if a[0] == "//" and all(tyof(x) == "int" for x in a[1:]):
            return "int"
        return {"/": "num", "*": "num", "%": "", "//": "num", "min": "num", "max": "num"}.get(a[0], "")
    return ""


def _nohier(ty):
    return "|".join(c for c in ty.split("|") if c not in ("Top", "Bottom")) or ty


# calls whose result may be None
MAYBE_NONE = {"tier.get_interval_at_time", "seq.get_interval_index_at_time", "group.make_name"}
CALL_TYPES = {
    "min2": "int",
    "min": "num", "max": "num", "sum": "num", "abs": "num", "int": "int", "float": "num", "str": "str",
    "str.join": "str", "index": "int", "count": "int", "numpy.array": "arr", "numpy.concatenate": "arr",
    "numpy.unique": "arr", "numpy.isin": "arr", "numpy.minimum.outer": "arr", "numpy.maximum.outer": "arr",
    "numpy.arange": "arr", "numpy.ma.masked_array": "arr", "numpy.argwhere": "arr", "numpy.logical_and": "arr",
    "numpy.argsort": "arr", "numpy.abs": "arr", "argmin": "int", "searchsorted": "int", "str.split": "list:str",
    "str.replace": "str", "tier.get_nearest_point_index": "int", "tier.get_interval_at_time": "int",
    "seq.get_interval_index_at_time": "int",
    "re.sub": "str", "numpy.linspace": "arr", "size": "int", "numpy.allclose": "bool", "numpy.any": "bool", "numpy.all": "bool",
    "group.make_name": "str", "clone_class": "cls:SequenceInterval", "get_class_hierarchy": "list:cls:SequenceInterval",
    "custom_classes": "list:cls:SequenceInterval", "grid.get_class_by_name": "cls:SequenceInterval",
    "copy.copy": "", "shape": "list:int", "tier.__add__": "",
    "grid._relate_tiers": "list:TierGroup|PointsGroup",
    "grid._swap_classes": "list:cls:SequenceInterval|SequencePoint",
}


def isnum(t):
    ty = tyof(t)
    return ty in ("int", "num", "bool")


def isarr(t):
    return tyof(t).startswith("arr")


def isseq(t):
    ty = tyof(t)
    return ty.startswith(("list", "SL", "arr")) or t.k in ("seq", "comp", "cat", "slice", "rev", "flat", "slist", "sladd", "sorted", "set")


# ------------------------------------------------------------ constructors ----

def ATTR(o, f, ver=0):
    if o.k == "ite":
        return ITE(o.a[0], ATTR(o.a[1], f, ver), ATTR(o.a[2], f, ver))
    return mk("attr", o, f, ver)


def TYPEOF(o):
    if o.k == "new":
        return o.a[0]
    if o.k == "ite":
        return ITE(o.a[0], TYPEOF(o.a[1]), TYPEOF(o.a[2]))
    return mk("typeof", o)


def ISNONE(t):
    return IS(t, NONE)


_VALK = {"int", "flt", "str", "true", "false", "none", "cls", "ext", "new", "seq", "comp", "cat", "slist", "newcls",
         "len", "lin", "fmt", "arr", "flat", "bdd", "clo", "bound", "lam", "typeof", "sladd"}


def IS(a, b):
    if a is b:
        return TRUE
    if a.k == "ite":
        return bite(a.a[0], IS(a.a[1], b), IS(a.a[2], b))
    if b.k == "ite":
        return bite(b.a[0], IS(a, b.a[1]), IS(a, b.a[2]))
    if a.k in _VALK and b.k in _VALK:
        if a.k != b.k and not ({a.k, b.k} <= {"true", "false", "bdd"}):
            if not ({a.k, b.k} & {"typeof"}):
                return FALSE
        elif a.k in ("int", "str", "true", "false", "cls", "ext"):
            return FALSE
        elif a.k == "new":
            return FALSE
    if NONE in (a, b):
        o = b if a is NONE else a
        if o.k in _VALK:
            return FALSE
        ty = tyof(o)
        if o.k in ("elt", "bv") and (classes_of(ty)):
            return FALSE
        if o.k == "p" and (classes_of(ty) or ty.startswith(("SL", "list", "cls"))) and not (len(o.a) > 2 and o.a[2]):
            return FALSE
        if o.k == "attr" and ty.startswith(("SL", "list", "cls")):
            nullable = o.a[1] in ("superset_class", "subset_class") or (o.a[1] == "entry_class" and tyof(o.a[0]).startswith("SL"))
            if not nullable:
                return FALSE
        if o.k == "call" and (o.a[0] in ("cls._cast", "praatio.Interval", "praatio.Point", "polars.concat", "polars.DataFrame")
                              or CALL_TYPES.get(o.a[0]) in ("int", "str", "bool") and o.a[0] not in MAYBE_NONE):
            return FALSE
    if "new" in (a.k, b.k):
        o = b if a.k == "new" else a
        if o.k in ("p", "attr", "elt") and not o.fv:
            return FALSE
    for x, y in ((a, b), (b, a)):
        # type(x) is K with x of a statically known builtin type
        if x.k == "typeof" and y.k == "ext" and y.a[0].startswith("builtins."):
            r = _builtin_inst(x.a[0], y.a[0][9:])
            if r is not None:
                return r
    if a.id > b.id:
        a, b = b, a
    return atom(mk("is", a, b))


def _builtin_inst(x, name):
    ty = tyof(x)
    if not ty:
        return None
    base = ty.split(":")[0]
    m = {"int": {"int", "bool"}, "num": {"int", "float"}, "str": {"str"}, "list": {"list", "tuple"}, "bool": {"bool"}, "none": set()}
    if base in m and base not in ("num", "list"):
        return TRUE if name in m[base] and (base == name) else FALSE
    if base == "list" and name in ("list", "tuple") and x.k in ("seq", "comp", "cat", "p", "elt"):
        # list parameters, and their list elements, are taken to be lists
        if x.k != "seq":
            return TRUE if name == "list" else FALSE
        if name == "list":
            return TRUE
    if base == "cls" and name in ("list", "tuple"):
        return FALSE
    if base in ("list", "SL", "arr", "cls") or classes_of(ty):
        if name in ("int", "str", "float", "bool"):
            return FALSE
        if base == "cls" and name != "type":
            return FALSE
        if classes_of(ty) and name in ("list", "tuple", "dict"):
            return FALSE
    return None


NONNEG = {"index", "count", "size", "argmin", "argmax", "numpy.argmin", "numpy.argmax", "searchsorted", "abs", "numpy.abs"}


def nonneg(x):
    return x.k == "len" or x.k == "call" and x.a[0] in NONNEG and len(x.a) > 1


def DUP(L):
    """some value occurs twice in the list L"""
    b = fresh("i")
    return EX(LEN(L), NOT(LE0(sub(mk("call", "count", L, ELT(L, b)), num(1)))), b)


def ANYOF(s):
    """an element of the set s (the code that asks for it has made sure there is one)"""
    L = s.a[0] if s.k == "set" else None
    if L is not None and (L.k == "seq" and L.a[0] or L.k == "comp" and L.a[1] is TRUE):
        return ELT(L, ZERO)
    if L is not None and L.k == "comp":
        b = fresh("i")
        r = FIRST(L.a[0], open_bv(L.a[1], L.a[3], b), open_bv(L.a[2], L.a[3], b), b, NONE)
        return r.a[1] if r.k == "ite" and r.a[2] is NONE else r
    return mk("call", "anyof", s)


def SET(s):
    if s.k == "set":
        return s
    if s.k == "seq":
        return mk("set", SEQ(sorted(set(s.a[0]), key=lambda x: x.id)))
    return mk("set", s)


def unset(s):
    if s.k == "ite":
        return ITE(s.a[0], unset(s.a[1]), unset(s.a[2]))
    return s.a[0] if s.k == "set" else s


def INS(c, i, v):
    if i.k == "ite" and _small(i):
        return ITE(i.a[0], INS(c, i.a[1], v), INS(c, i.a[2], v))
    if i is ZERO:
        return CAT(SEQ([v]), c if c.k in ("seq", "comp", "cat") else copy_of(c))
    if i is LEN(c):
        return CAT(c, SEQ([v]))
    return mk("ins", c, i, v)


def LE0(t):
    """t <= 0 for numeric t"""
    d, c = lin_parts(t)
    if not d:
        return TRUE if c <= 0 else FALSE
    for x, v in d.items():
        # how many different values a list has
        if x.k == "len" and x.a[0].k == "set" and abs(v) == 1 and c.denominator == 1:
            L = x.a[0].a[0]
            if L.k not in ("comp", "seq") or L.k == "comp" and L.a[1] is not TRUE:
                continue
            if len(d) == 1 and v == 1 and c == -1 or len(d) == 1 and v == -1 and c == 2:
                b = fresh("i")
                some = EX(LEN(L), NOT(EQ(ELT(L, b), ELT(L, ZERO))), b)
                return NOT(some) if v == 1 else some
            r = add(t, scale(x, -v))
            n = LEN(L)
            if v == -1 and r is n:
                return NOT(DUP(L))
            if v == 1 and r is sub(num(1), n):
                return DUP(L)
            if v == 1 and r is scale(n, Fraction(-1)):
                return TRUE
            if v == -1 and r is add(n, num(1)):
                return FALSE
    if len(d) == 1:
        (x, v), = d.items()
        if x.k == "ite" and _small(x):
            return bite(x.a[0], LE0(subst1(t, x, x.a[1])), LE0(subst1(t, x, x.a[2])))
        if x.k == "call" and x.a[0] == "count" and v == 1 and c == 0 and tyof(x.a[1]) == "str":
            return NOT(IN(x.a[2], x.a[1]))
        if x.k == "len" and v == 1 and c == 0 and x.a[0].k == "comp" and x.a[0].a[1] is not TRUE:
            y = x.a[0]
            b = fresh("i")
            return NOT(EX(y.a[0], open_bv(y.a[1], y.a[3], b), b))
        if x.k == "len" and v == 1 and c == 0 and x.a[0].k == "flat" and x.a[0].a[0].k == "comp":
            y = x.a[0].a[0]
            b = fresh("i")
            return NOT(EX(y.a[0], AND(open_bv(y.a[1], y.a[3], b), NOT(LE0(LEN(open_bv(y.a[2], y.a[3], b))))), b))
        if x.k == "len" and v == 1 and c == 0 and x.a[0].k == "set":
            return LE0(LEN(x.a[0].a[0]))
    isint = all(tyof(x) == "int" and v.denominator == 1 for x, v in d.items()) and c.denominator == 1
    first = min(d, key=lambda x: x.id)
    if isint:
        # canonical sign: leading coefficient positive.  -p <= 0  <=>  not(p+1 <= 0)
        if d[first] > 0:
            # trivial: lengths are never negative
            if all(nonneg(x) and v > 0 for x, v in d.items()) and c > 0:
                return FALSE
            if len(d) == 1 and d[first] == 1 and c < 0 and first.k == "len":
                # what is said about no entries is said in one way
                return OR(LE0(first), atom(mk("le0", lin_make(d, c))))
            return atom(mk("le0", lin_make(d, c)))
        p = lin_make({x: -v for x, v in d.items()}, -c + 1)
        return NOT(LE0(p)) if True else None
    if d[first] > 0:
        return atom(mk("le0", _unit(d, c)))
    # -p <= 0 <=> not (p < 0)
    return NOT(atom(mk("lt0", _unit({x: -v for x, v in d.items()}, -c))))


def LT0(t):
    d, c = lin_parts(t)
    if not d:
        return TRUE if c < 0 else FALSE
    isint = all(tyof(x) == "int" and v.denominator == 1 for x, v in d.items()) and c.denominator == 1
    if isint:
        return LE0(lin_make(d, c + 1))
    first = min(d, key=lambda x: x.id)
    if d[first] > 0:
        return atom(mk("lt0", _unit(d, c)))
    return NOT(atom(mk("le0", _unit({x: -v for x, v in d.items()}, -c))))


def _unit(d, c):
    first = min(d, key=lambda x: x.id)
    s = d[first]
    return lin_make({x: v / s for x, v in d.items()}, c / s)


def _small(x, depth=3):
    return x.k != "ite" or (depth > 0 and _small(x.a[1], depth - 1) and _small(x.a[2], depth - 1))


def LE(a, b):
    return LE0(sub(a, b))


def LT(a, b):
    return LT0(sub(a, b))


def EQ(a, b):
    if a is b:
        return TRUE
    if a.k == "ite" and _small(a):
        return bite(a.a[0], EQ(a.a[1], b), EQ(a.a[2], b))
    if b.k == "ite" and _small(b):
        return bite(b.a[0], EQ(a, b.a[1]), EQ(a, b.a[2]))
    if NONE in (a, b):
        return IS(a, b)
    if a.k in ("str", "int") and b.k in ("str", "int"):
        return FALSE
    ta, tb = tyof(a), tyof(b)
    if a.k in ("cls", "ext") and b.k in ("cls", "ext"):
        return FALSE
    if a.k == "seq" and b.k == "seq":
        return AND(*[EQ(x, y) for x, y in zip(a.a[0], b.a[0])]) if len(a.a[0]) == len(b.a[0]) else FALSE
    if a.k == "comp" and b.k == "comp" and a.a[1] is TRUE and b.a[1] is TRUE:
        i = fresh("i")
        return AND(EQ(a.a[0], b.a[0]), NOT(EX(a.a[0], NOT(EQ(ELT(a, i), ELT(b, i))), i)))
    if isnum(a) and isnum(b) and "bool" not in (ta, tb):
        d = sub(a, b)
        return AND(LE0(d), NOT(LT0(d)))
    if classes_of(ta) or classes_of(tb) or ta.startswith("cls") or tb.startswith("cls"):
        return IS(a, b)
    if ta == "bool" and tb == "bool":
        return NOT(XOR(a, b)) if a.k in ("true", "false", "bdd") and b.k in ("true", "false", "bdd") else atom(mk("eq", *sorted((a, b), key=lambda x: x.id)))
    if a.id > b.id:
        a, b = b, a
    return atom(mk("eq", a, b))


COUNTED = {}        # a list that a loop adds one element to per round: its length at the start of the round


def LEN(s):
    k, a = s.k, s.a
    if k == "fv" and s in COUNTED:
        return COUNTED[s]
    if k == "seq":
        return num(len(a[0]))
    if k == "str":
        return num(len(a[0]))
    if k == "call" and a[0] in ("praatio.Interval", "praatio.Point"):
        return num(3 if a[0] == "praatio.Interval" else 2)
    if k == "comp":
        if a[1] is TRUE:
            return a[0]
        if a[2] is not ZERO:
            b = fresh("i")
            return mk("len", COMP(a[0], open_bv(a[1], a[3], b), ZERO, b))
    if k in ("arr", "slist", "rev", "sorted", "vals"):
        return LEN(a[0])
    if k == "call" and a[0] == "numpy.argsort":
        return LEN(a[1])
    if k == "cat":
        r = ZERO
        for x in a[0]:
            r = add(r, LEN(x))
        return r
    if k == "slice":
        s0, lo, hi, st = a
        if st is NONE:
            n = LEN(s0)
            l = ZERO if lo is NONE else lo
            h = n if hi is NONE else hi
            if l.k == "int" and l.a[0] >= 0 and (hi is NONE):
                return sub(n, l)
            if h.k == "int" and h.a[0] < 0 and l.k == "int" and l.a[0] >= 0:
                return sub(add(n, h), l)
    if k == "ite":
        return ITE(a[0], LEN(a[1]), LEN(a[2]))
    if k == "op" and a[0] in ("+", "-", "*", "/") and isarr(s):
        for x in a[1:]:
            if isarr(x):
                return LEN(x)
    if k == "call" and a[0] == "numpy.argwhere" and a[1].k == "comp":
        return LEN(a[1])
    return mk("len", s)


def MASK(v, i):
    """element i of an elementwise condition over arrays, and its length; None where it is not one"""
    if v.k == "op" and v.a[0] in ("&", "|") and len(v.a) == 3:
        x, y = MASK(v.a[1], i), MASK(v.a[2], i)
        if x is None or y is None or x[1] is not y[1]:
            return None
        return (AND if v.a[0] == "&" else OR)(x[0], y[0]), x[1]
    if v.k == "op" and v.a[0] == "~" and len(v.a) == 2:
        x = MASK(v.a[1], i)
        return None if x is None else (NOT(x[0]), x[1])
    if v.k == "op" and v.a[0] in ("<", "<=", "==", "!=") and len(v.a) == 3:
        ns = [LEN(x) for x in v.a[1:] if isarr(x)]
        if not ns or any(n is not ns[0] for n in ns):
            return None
        x, y = [ELT(t, i) if isarr(t) else t for t in v.a[1:]]
        if not isnum(x) or not isnum(y):
            return None
        f = {"<": LT, "<=": LE, "==": EQ, "!=": lambda p, q: NOT(EQ(p, q))}[v.a[0]](x, y)
        return f, ns[0]
    if v.k == "arr" and v.a[0].k == "comp" and v.a[0].a[1] is TRUE:
        x = ELT(v, i)
        if x.k in ("true", "false", "bdd"):
            return x, LEN(v)
    return None


def HITS(v):
    """the positions at which an elementwise condition holds, as a comprehension"""
    b = fresh("i")
    m = MASK(v, b)
    return COMP(m[1], m[0], b, b) if m is not None else None


def ELT(s, i):
    k, a = s.k, s.a
    if i.k == "ite" and _small(i):
        return ITE(i.a[0], ELT(s, i.a[1]), ELT(s, i.a[2]))
    if k == "ite":
        return ITE(a[0], ELT(a[1], i), ELT(a[2], i))
    if k == "seq" and i.k == "int":
        if -len(a[0]) <= i.a[0] < len(a[0]):
            return a[0][i.a[0]]
        return mk("elt", s, i)
    if k == "rep" and a[0].k == "seq" and len(a[0].a[0]) == 1:
        return a[0].a[0][0]
    if i.k == "int" and i.a[0] < 0:
        j = add(LEN(s), i)
        return mk("elt", s, i) if j.k == "int" and j.a[0] < 0 else ELT(s, j)
    if i.k == "call" and i.a[0] == "index" and i.a[1] is s and classes_of(tyof(i.a[2])):
        return i.a[2]           # objects of the package compare by identity (checked by the protocol rule)
    if k == "call" and a[0] in ("praatio.Interval", "praatio.Point") and i.k == "int" and len(a) > i.a[0] + 1 and \
            not any(isinstance(x, T) and x.k == "star" for x in a[1:]):
        return a[i.a[0] + 1]
    if k == "comp" and a[1] is TRUE:
        return open_bv(a[2], a[3], i)
    if k == "comp" and i is ZERO:
        b = fresh("i")
        r = FIRST(a[0], open_bv(a[1], a[3], b), open_bv(a[2], a[3], b), b, mk("k", "undef"))
        return r.a[1] if r.k == "ite" and r.a[2] is mk("k", "undef") else r
    if k == "arr":
        return ELT(a[0], i)
    if k == "call" and a[0] == "numpy.argwhere" and a[1].k == "comp":
        return ARR(SEQ([ELT(a[1], i)]))
    if k == "rev":
        return ELT(a[0], sub(sub(LEN(a[0]), num(1)), i))
    if k == "slice" and a[3] is NONE:
        lo = ZERO if a[1] is NONE else a[1]
        # (only going through it stays within a constant upper end)
        cut = a[2].k == "int" and a[2].a[0] >= 0 and not (i.k in ("bv", "fv", "lin") or i.k == "int" and i.a[0] < a[2].a[0])
        if not (lo.k == "int" and lo.a[0] < 0) and not cut:
            return ELT(a[0], add(lo, i))
    if k == "cat" and i.k == "int":
        j = i.a[0]
        for x in a[0]:
            if x.k == "seq":
                if j < len(x.a[0]):
                    return x.a[0][j]
                j -= len(x.a[0])
            else:
                break
    if k == "cat" and i.k in ("lin", "len", "fv"):
        # last elements: len(cat) - c
        last = a[0][-1]
        d = sub(LEN(s), i)
        if last.k == "seq" and d.k == "int" and 1 <= d.a[0] <= len(last.a[0]):
            return last.a[0][-d.a[0]]
    if k == "cat" and i.k == "fv" and i.a[1] == "i" and len(a[0]) == 2:
        # a list with one element put behind or in front of it
        x, y = a[0]
        if x.k == "slice" and x.a[1:] == (num(1), NONE, NONE) and y.k == "seq" and len(y.a[0]) == 1:
            return ITE(LT(i, sub(LEN(x.a[0]), num(1))), ELT(x.a[0], add(i, num(1))), y.a[0][0])
        if y.k == "slice" and y.a[1] in (NONE, ZERO) and y.a[3] is NONE and x.k == "seq" and len(x.a[0]) == 1:
            return ITE(LE0(i), x.a[0][0], ELT(y, sub(i, num(1))))
    if k == "op" and a[0] in ("+", "-") and isarr(s) and len(a) == 3:
        x = ELT(a[1], i) if isarr(a[1]) else a[1]
        y = ELT(a[2], i) if isarr(a[2]) else a[2]
        return add(x, y) if a[0] == "+" else sub(x, y)
    return mk("elt", s, i)


def SEQ(items):
    return mk("seq", tuple(items))


EMPTY = mk("seq", ())


def CAT(*parts):
    out = []
    for p in parts:
        ps = p.a[0] if p.k == "cat" else (p,)
        for q in ps:
            if q.k == "comp" and q.a[1] is TRUE and q.a[2].k == "elt" and q.a[2].a[1].k == "bv" and q.a[0].k == "len" and \
                    q.a[0].a[0] is q.a[2].a[0]:
                q = q.a[2].a[0]         # a copy, joined into a new list anyway
            if q.k == "seq" and not q.a[0]:
                continue
            if q.k == "seq" and out and out[-1].k == "seq":
                out[-1] = mk("seq", out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        o = out[0]
        if o.k in ("p", "attr", "elt", "set"):
            return copy_of(o)
        return o
    return mk("cat", tuple(out))


def leaves(t):
    if t.k == "ite":
        yield from leaves(t.a[1])
        yield from leaves(t.a[2])
    else:
        yield t


def spread(s, k=3):
    """a concatenation with conditional parts as a choice between concatenations"""
    if s.k == "ite" and k > 0:
        return ITE(s.a[0], spread(s.a[1], k - 1), spread(s.a[2], k - 1))
    if s.k != "cat" or k <= 0:
        return s
    for i, p in enumerate(s.a[0]):
        if p.k == "ite":
            f = lambda q, c: spread(CAT(*[given(x, c) for x in s.a[0][:i]], q, *[given(x, c) for x in s.a[0][i + 1:]]), k - 1)
            c = p.a[0]
            return ITE(c, f(p.a[1], c), f(p.a[2], NOT(c)))
    return s


def copy_of(s):
    """A fresh list with the elements of s."""
    if s.k in ("seq", "comp", "cat", "flat", "slice", "rev", "sorted"):
        return s
    if s.k == "arr":
        return copy_of(s.a[0])
    if s.k == "ite":
        return ITE(s.a[0], copy_of(s.a[1]), copy_of(s.a[2]))
    b = fresh("i")
    return COMP(LEN(s), TRUE, ELT(s, b), b)


def filtered(L, g):
    if L.k == "comp":
        b = fresh("i")
        e = open_bv(L.a[2], L.a[3], b)
        return COMP(L.a[0], AND(open_bv(L.a[1], L.a[3], b), g(e)), e, b)
    if L.k == "flat" and L.a[0].k == "comp":
        c = L.a[0]
        b = fresh("i")
        return FLAT(COMP(c.a[0], open_bv(c.a[1], c.a[3], b), filtered(open_bv(c.a[2], c.a[3], b), g), b))
    if L.k == "cat":
        return CAT(*[filtered(x, g) for x in L.a[0]])
    if L.k == "seq" and len(L.a[0]) <= 6:
        return CAT(*[ITE(g(x), SEQ([x]), EMPTY) for x in L.a[0]])
    b = fresh("i")
    return COMP(LEN(L), g(ELT(L, b)), ELT(L, b), b)


def COMP(n, guard, expr, b):
    """[expr for b in range(n) if guard]; closes the free index b."""
    guard = bound_simp(guard, b, n)
    if n.k == "int" and n.a[0] <= 0:
        return EMPTY
    if guard is FALSE:
        return EMPTY
    if n.k == "len" and n.a[0].k == "set" and guard is not TRUE:
        # those of a set's elements that meet a condition
        x = mk("fv", -7, "x")
        o = {ELT(n.a[0], b): x}
        g, r = subst(guard, o), subst(expr, o)
        if b not in g.fv and b not in r.fv:
            s = SET(filtered(n.a[0].a[0], lambda e: subst1(g, x, e)))
            return COMP(LEN(s), TRUE, subst1(r, x, ELT(s, b)), b)
    if n.k == "int" and n.a[0] <= 6 and guard is TRUE:
        return SEQ([subst1(expr, b, num(j)) for j in range(n.a[0])])
    if n.k == "int" and n.a[0] <= 6:
        parts = []
        for j in range(n.a[0]):
            g = subst1(guard, b, num(j))
            parts.append(ITE(g, SEQ([subst1(expr, b, num(j))]), EMPTY))
        return CAT(*parts)
    src = over_source(n, b, (guard, expr))
    if src is not None:
        n0, g0, (guard, expr) = src
        return COMP(n0, AND(g0, guard), expr, b)
    h = 1 + max(guard.ht, expr.ht)
    v = mk("bv", h)
    return mk("comp", n, subst1(guard, b, v), subst1(expr, b, v), h)


def over_source(n, b, ts):
    """positions of a filtered list, where only the elements at them count: positions of what it was filtered from, with the filter's
    condition -> (number, condition, terms) or None"""
    if not (n.k == "len" and n.a[0].k == "comp" and n.a[0].a[1] is not TRUE):
        return None
    found, c = {}, fresh("i")
    st, seen = [t for t in ts if b in t.fv], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "elt" and x.a[1] is b:
            s = x.a[0]
            if not (s.k == "comp" and b not in s.fv and LEN(s) is n):
                return None
            found[x] = open_bv(s.a[2], s.a[3], c)
        elif b in x.fv:
            st += [y for y in _subs(x.a) if b in y.fv]
    if not found:
        return None
    out = [subst(t, found) if b in t.fv else t for t in ts]
    if any(b in t.fv for t in out):
        return None
    return n.a[0].a[0], open_bv(n.a[0].a[1], n.a[0].a[3], b), [subst1(t, c, b) for t in out]


def _shifted(cond, b):
    """the index occurs in cond only as index + 1"""
    return b not in subst(cond, {add(b, num(1)): num(0)}).fv


def EX(n, cond, b):
    """exists b in range(n) with cond -> formula"""
    cond = bound_simp(cond, b, n)
    if cond is FALSE or (n.k == "int" and n.a[0] <= 0):
        return FALSE
    if cond is TRUE:
        return NOT(LE0(n))
    if n.k == "int" and n.a[0] <= 6:
        return OR(*[subst1(cond, b, num(j)) for j in range(n.a[0])])
    if b not in cond.fv:
        return AND(cond, NOT(LE0(n)))
    src = over_source(n, b, (cond,))
    if src is not None:
        return EX(src[0], AND(src[1], src[2][0]), b)
    # a least witness exists: "some b has P and nothing before b has P" says "some b has P"
    for a in atoms(cond):
        if a.k == "ex" and a.a[0] is b and assign(cond, {a: TRUE}) is FALSE:
            h0 = assign(cond, {a: FALSE})
            g = bound_simp(open_bv(a.a[1], a.a[2], b), b, n)
            if g is h0:
                return EX(n, h0, b)
    # only the first round
    z = LE0(b)
    if z.k == "bdd" and assign(cond, {z.a[0]: FALSE}) is FALSE:
        return AND(NOT(LE0(n)), subst1(cond, b, num(0)))
    # distribute over disjunction of cubes only when cheap: pull out atoms not mentioning b
    outs = [a for a in atoms(cond) if b not in a.fv]
    if outs:
        a = outs[0]
        return bite(atom(a), EX(n, assign(cond, {a: TRUE}), b), EX(n, assign(cond, {a: FALSE}), b))
    h = 1 + cond.ht
    # one-point: membership  exists i: L[i] is x
    if cond.k == "bdd" and cond.a[1] is TRUE and cond.a[2] is FALSE:
        at = cond.a[0]
        if at.k in ("is", "eq"):
            for x, y in ((at.a[0], at.a[1]), (at.a[1], at.a[0])):
                if x.k == "elt" and x.a[1] is b and b not in y.fv and b not in x.a[0].fv and n is LEN(x.a[0]):
                    L = x.a[0]
                    if tyof(L).startswith("SL") or L.k in ("slist", "sladd"):
                        return atom(mk("in", y, L))
                    return IN(y, L)
    # some b+1 < n+1 has P, and 0 does not: some b < n+1 has P
    if _shifted(cond, b):
        c1 = subst1(cond, b, sub(b, num(1)))
        if subst1(c1, b, num(0)) is FALSE:
            return EX(add(n, num(1)), c1, b)
    v = mk("bv", h)
    return atom(mk("ex", n, subst1(cond, b, v), h))


def JOIN(sep, s):
    if s.k == "comp" and sep is mk("str", "") and s.a[0].k == "len" and tyof(s.a[0].a[0]) == "str":
        # the text without one of its characters
        t, b = s.a[0].a[0], fresh("i")
        g, e = open_bv(s.a[1], s.a[3], b), open_bv(s.a[2], s.a[3], b)
        if e is ELT(t, b):
            for x in ("?", "*", "]", "[", " ", "-", "_", ".", ","):
                if g is NOT(EQ(e, mk("str", x))):
                    return mk("call", "str.replace", t, mk("str", x), mk("str", ""))
    return mk("call", "str.join", sep, s)


def IN(x, s):
    if s.k == "dict":
        return OR(*[EQ(x, k) for k, _ in s.a[0]])
    if s.k == "seq":
        return OR(*[EQ(x, y) for y in s.a[0]])
    if s.k == "arr":
        return IN(x, s.a[0])
    if s.k == "comp" and s.a[1] is TRUE:
        e = s.a[2]
        if e.k == "elt" and e.a[1].k == "bv" and e.a[1].a[0] == s.a[3] and s.a[0] is LEN(e.a[0]):
            return IN(x, e.a[0])
    if s.k == "comp":
        b = fresh("i")
        return EX(s.a[0], AND(open_bv(s.a[1], s.a[3], b), EQ(x, open_bv(s.a[2], s.a[3], b))), b)
    if s.k == "str" and x.k == "str":
        return TRUE if x.a[0] in s.a[0] else FALSE
    if s.k == "ite":
        return bite(s.a[0], IN(x, s.a[1]), IN(x, s.a[2]))
    if tyof(s).startswith("SL") or s.k in ("slist", "sladd"):
        return atom(mk("slin", x, s))
    if s.k == "set":
        return IN(x, s.a[0])
    return atom(mk("in", x, s))


def FIRST(n, cond, val, b, default):
    """value of `val` at the least b<n with cond, else default"""
    cond = bound_simp(cond, b, n)
    if cond is FALSE:
        return default
    if b not in val.fv:
        return ITE(EX(n, cond, b), val, default)
    src = over_source(n, b, (cond, val))
    if src is not None:
        return FIRST(src[0], AND(src[1], src[2][0]), src[2][1], b, default)
    h = 1 + max(cond.ht, val.ht)
    v = mk("bv", h)
    return ITE(EX(n, cond, b), mk("first", n, subst1(cond, b, v), subst1(val, b, v), h), default)


def ITE(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    bo = ("true", "false", "bdd")
    if a.k in bo and b.k in bo:
        return bite(c, a, b)
    a = given(a, c)
    b = given(b, NOT(c))
    if a is b:
        return a
    # empty special case does not matter when the general value is empty too
    for x, y, cc in ((a, b, c), (b, a, NOT(c))):
        # cc -> x, else y
        xe = x.a[0] if x.k == "arr" else x
        if xe is EMPTY:
            ye = y.a[0] if y.k == "arr" else y
            if (x.k == "arr") == (y.k == "arr") and ye.k in ("comp", "flat", "slice", "rev"):
                n = LEN(ye) if ye.k != "comp" else ye.a[0]
                if ye.k == "flat" and ye.a[0].k == "comp":
                    n = ye.a[0].a[0]
                if AND(cc, NOT(LE0(n))) is FALSE:
                    return y
    # conditional copies:  v if x is v else x
    for x, y, cc in ((a, b, c), (b, a, NOT(c))):
        if cc.k == "bdd" and cc.a[1] is TRUE and cc.a[2] is FALSE and cc.a[0].k == "is":
            p, q = cc.a[0].a
            if {p, q} == {x, y}:
                return y
    if c.k == "bdd" and c.a[1] is FALSE and c.a[2] is TRUE:
        return mk("ite", NOT(c), b, a)
    if a.k == "ite" and a.a[2] is b:
        return ITE(AND(c, a.a[0]), a.a[1], b)
    if a.k == "ite" and a.a[1] is b:
        return ITE(AND(c, NOT(a.a[0])), a.a[2], b)
    if b.k == "ite" and b.a[1] is a:
        return ITE(OR(c, b.a[0]), a, b.a[2])
    if b.k == "ite" and b.a[2] is a:
        return ITE(OR(c, NOT(b.a[0])), a, b.a[1])
    if a.k == "seq" and b.k == "seq" and len(a.a[0]) == len(b.a[0]) <= 3:
        return SEQ([ITE(c, x, y) for x, y in zip(a.a[0], b.a[0])])
    if a.k == "ite" or b.k == "ite":
        # more than two values: one guard per value, values in a fixed order
        d = {}
        ite_leaves(a, c, d)
        ite_leaves(b, NOT(c), d)
        d = {v: g for v, g in d.items() if g is not FALSE}
        for n in (1, 2, 3):
            ss = [v for v in d if v.k == "seq" and len(v.a[0]) == n]
            if len(ss) > 1:
                tot = OR(*[d[v] for v in ss])
                m = ss[-1]
                for v in reversed(ss[:-1]):
                    m = SEQ([ITE(restrict(d[v], tot), x, y) for x, y in zip(v.a[0], m.a[0])])
                for v in ss:
                    del d[v]
                d[m] = tot
        vs = sorted(d, key=lambda v: v.id)
        if len(vs) == 1:
            return vs[0]
        if len(vs) == 2 and NOT(d[vs[0]]).k == "bdd" and d[vs[0]].a[1] is FALSE and d[vs[0]].a[2] is TRUE:
            vs.reverse()
        if len(vs) <= 6:
            r = vs[-1]
            for v in reversed(vs[:-1]):
                r = mk("ite", d[v], v, r)
            return r
    return mk("ite", c, a, b)


def ite_leaves(t, g, d):
    if g is FALSE:
        return
    if t.k == "ite":
        ite_leaves(t.a[1], AND(g, t.a[0]), d)
        ite_leaves(t.a[2], AND(g, NOT(t.a[0])), d)
    else:
        d[t] = OR(d.get(t, FALSE), g)


def pick(t, c):
    """the branch of a conditional value that the path condition c leaves"""
    while t.k == "ite":
        if AND(c, NOT(t.a[0])) is FALSE:
            t = t.a[1]
        elif AND(c, t.a[0]) is FALSE:
            t = t.a[2]
        else:
            break
    return t


def given(t, c):
    """Simplify a top-level ite term assuming c."""
    if t.k == "ite":
        g = restrict(t.a[0], c)
        if g is TRUE:
            return given(t.a[1], c)
        if g is FALSE:
            return given(t.a[2], c)
        if g is not t.a[0]:
            return ITE(g, t.a[1], t.a[2])
        x, y = given(t.a[1], c), given(t.a[2], c)
        if x is not t.a[1] or y is not t.a[2]:
            return ITE(g, x, y)
        return t
    if t.k == "bdd":
        return restrict(t, c)
    return t


def SLICE(s, lo, hi, st=NONE):
    if lo.k == "int" and lo.a[0] == 0:
        lo = NONE
    if st.k == "int" and st.a[0] == 1:
        st = NONE
    if hi is not NONE and hi is LEN(s):
        hi = NONE
    # x[:len(x)-1] -> x[:-1]
    if hi is not NONE and hi.k == "lin":
        d = sub(hi, LEN(s))
        if d.k == "int" and d.a[0] < 0:
            hi = d
    if st.k == "int" and st.a[0] == -1 and lo is NONE and hi is NONE:
        return mk("rev", s)
    if lo is NONE and hi is NONE and st is NONE:
        return copy_of(s) if not isarr(s) else s
    if s.k == "ite":
        return ITE(s.a[0], SLICE(s.a[1], lo, hi, st), SLICE(s.a[2], lo, hi, st))
    if s.k == "arr":
        return mk("arr", SLICE(s.a[0], lo, hi, st))
    if s.k == "seq" and all(x.k in ("int", "none") for x in (lo, hi, st)):
        f = lambda x: None if x is NONE else x.a[0]
        return SEQ(s.a[0][f(lo):f(hi):f(st)])
    if s.k == "slice" and st is NONE and s.a[3] is NONE and hi is NONE and lo.k == "int" and lo.a[0] > 0 and \
            (s.a[1] is NONE or (s.a[1].k == "int" and s.a[1].a[0] >= 0)):
        return SLICE(s.a[0], add(ZERO if s.a[1] is NONE else s.a[1], lo), s.a[2])
    return mk("slice", s, lo, hi, st)


def ARR(s):
    if s.k == "arr" or isarr(s):
        return s
    if s.k == "ite":
        return ITE(s.a[0], ARR(s.a[1]), ARR(s.a[2]))
    return mk("arr", s)


def SUM(n, g, e, b):
    """sum of e over b<n where g"""
    if g is FALSE or e is ZERO:
        return ZERO
    if e.k in ("true", "false", "bdd"):
        return LEN(COMP(n, AND(g, e), b, b))
    if e.k == "ite":
        return add(SUM(n, AND(g, e.a[0]), e.a[1], b), SUM(n, AND(g, NOT(e.a[0])), e.a[2], b))
    if e.k == "int":
        return scale(LEN(COMP(n, g, b, b)), Fraction(e.a[0]))
    if e.k == "lin" and tyof(e) == "int":
        d, c = lin_parts(e)
        r = scale(LEN(COMP(n, g, b, b)), c) if c else ZERO
        for x, v in d.items():
            r = add(r, scale(SUM(n, g, x, b), v))
        return r
    if b not in e.fv and tyof(e) == "int" and g is TRUE and n.k == "int":
        return scale(e, Fraction(n.a[0]))
    if e.k == "len":
        return LEN(FLAT(COMP(n, g, e.a[0], b)))
    return mk("call", "sum", COMP(n, g, e, b))


def FLAT(s):
    if s.k == "seq":
        return CAT(*s.a[0])
    if s.k == "comp":
        e = s.a[2]
        if e.k == "seq" and len(e.a[0]) == 1:
            b = fresh("i")
            return COMP(s.a[0], open_bv(s.a[1], s.a[3], b), open_bv(e.a[0][0], s.a[3], b), b)
        if e.k == "ite":
            # flat([ [x] if c else [] ])
            if e.a[2] is EMPTY and e.a[1].k == "seq" and len(e.a[1].a[0]) == 1:
                b = fresh("i")
                return COMP(s.a[0], AND(open_bv(s.a[1], s.a[3], b), open_bv(e.a[0], s.a[3], b)),
                            open_bv(e.a[1].a[0][0], s.a[3], b), b)
            if e.a[1] is EMPTY and e.a[2].k == "seq" and len(e.a[2].a[0]) == 1:
                b = fresh("i")
                return COMP(s.a[0], AND(open_bv(s.a[1], s.a[3], b), NOT(open_bv(e.a[0], s.a[3], b))),
                            open_bv(e.a[2].a[0][0], s.a[3], b), b)
    return mk("flat", s)


def ABS(x):
    if x.k == "arr" and x.a[0].k == "comp" and x.a[0].a[1] is TRUE:
        i = fresh("i")
        return ARR(COMP(x.a[0].a[0], TRUE, ABS(ELT(x.a[0], i)), i))
    if x.k == "arr" and x.a[0].k == "seq":
        return ARR(SEQ([ABS(y) for y in x.a[0].a[0]]))
    if isarr(x):
        return mk("call", "numpy.abs", x)
    if isnum(x):
        d, _ = lin_parts(x)
        if d and d[min(d, key=lambda t: re.sub(r"\?\w+", "?", repr(t)))] < 0:
            x = scale(x, Fraction(-1))                              # |x| and |-x| are one
    return mk("call", "abs", x)


def ARITH(op, a, b):
    if op in ("+", "-"):
        if op == "+":
            if isseq(a) and isseq(b) and not isarr(a) and not isarr(b):
                if tyof(a).startswith("SL") or a.k in ("slist", "sladd"):
                    return mk("sladd", a, b)
                return CAT(a, b)
            if tyof(a) == "str" or tyof(b) == "str":
                return FMT([a, b])
            if tyof(a).startswith("list") or tyof(b).startswith("list"):
                return CAT(a, b)
        if isarr(a) or isarr(b):
            # elementwise over a comprehension
            ca = a.a[0] if a.k == "arr" else None
            cb = b.a[0] if b.k == "arr" else None
            if ca is not None and ca.k == "comp" and ca.a[1] is TRUE and not isarr(b) and isnum(b):
                i = fresh("i")
                return ARR(COMP(ca.a[0], TRUE, ARITH(op, ELT(ca, i), b), i))
            if cb is not None and cb.k == "comp" and cb.a[1] is TRUE and not isarr(a) and isnum(a):
                i = fresh("i")
                return ARR(COMP(cb.a[0], TRUE, ARITH(op, a, ELT(cb, i)), i))
            if ca is not None and ca.k == "seq" and not isarr(b) and isnum(b):
                return ARR(SEQ([ARITH(op, x, b) for x in ca.a[0]]))
            if cb is not None and cb.k == "seq" and not isarr(a) and isnum(a):
                return ARR(SEQ([ARITH(op, a, x) for x in cb.a[0]]))
            if ca is not None and cb is not None and ca.k == cb.k == "seq" and len(ca.a[0]) == len(cb.a[0]):
                return ARR(SEQ([ARITH(op, x, y) for x, y in zip(ca.a[0], cb.a[0])]))
            if ca is not None and cb is not None and ca.k == cb.k == "comp" and ca.a[0] is cb.a[0] and ca.a[1] is TRUE and cb.a[1] is TRUE:
                i = fresh("i")
                return ARR(COMP(ca.a[0], TRUE, ARITH(op, ELT(ca, i), ELT(cb, i)), i))
            if op == "+" and a.id > b.id:
                a, b = b, a
            return mk("op", op, a, b)
        if a.k == "ite" and _small(a):
            return ITE(a.a[0], ARITH(op, a.a[1], b), ARITH(op, a.a[2], b))
        if b.k == "ite" and _small(b):
            return ITE(b.a[0], ARITH(op, a, b.a[1]), ARITH(op, a, b.a[2]))
        return add(a, b) if op == "+" else sub(a, b)
    if op == "/" and b.k == "int" and b.a[0] != 0 and not isarr(a):
        return scale(a, Fraction(1, b.a[0]))
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if y.k == "int" and isnum(x):
                return scale(x, Fraction(y.a[0]))
            if y.k == "flt" and isnum(x):
                d, c = lin_parts(y)
                if not d:
                    return scale(x, c)
        if a.id > b.id and not isseq(a) and not isseq(b):
            a, b = b, a
    return mk("op", op, a, b)


def FMT(parts):
    out = []
    for p in parts:
        p = p.a[1] if p.k == "call" and p.a[0] == "str" else p
        for q in (p.a[0] if p.k == "fmt" else (p,)):
            if q.k == "str" and q.a[0] == "":
                continue
            if q.k == "str" and out and out[-1].k == "str":
                out[-1] = mk("str", out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return mk("str", "")
    if len(out) == 1 and out[0].k == "str":
        return out[0]
    if len(out) == 1 and tyof(out[0]) == "str":
        return out[0]
    if len(out) == 1 and tyof(out[0]):
        return mk("call", "str", out[0])
    return mk("fmt", tuple(out))


def NEWOBJ(cls, args, tag):
    return mk("new", cls, args, tag)


def TRUTH(t):
    k = t.k
    if k in ("true", "false", "bdd"):
        return t
    if k == "none":
        return FALSE
    if k == "int":
        return TRUE if t.a[0] else FALSE
    if k == "str":
        return TRUE if t.a[0] else FALSE
    if k == "ite":
        return bite(t.a[0], TRUTH(t.a[1]), TRUTH(t.a[2]))
    if k in ("cls", "ext", "clo", "bound", "newcls", "typeof", "lam"):
        return TRUE
    if k in ("seq", "comp", "cat", "slist", "slice", "rev", "flat", "sorted", "sladd"):
        return NOT(LE0(LEN(t)))
    ty = tyof(t)
    if ty in ("int", "num"):
        return AND(NOT(ISNONE(t)), NOT(EQ(t, ZERO)))
    if ty == "str":
        return AND(NOT(ISNONE(t)), NOT(EQ(t, mk("str", ""))))
    if ty.startswith(("SL", "list")):
        return NOT(LE0(LEN(t)))
    if ty.startswith("cls"):
        return NOT(ISNONE(t))
    if any(kind_of(c) for c in classes_of(ty)):
        # tiers, groups and superset intervals are never linked to while empty
        if t.k == "p" and any(kind_of(c) == "seq" and "Point" not in c for c in classes_of(ty)):
            return AND(NOT(ISNONE(t)), atom(mk("truth", t)))
        return NOT(ISNONE(t))
    return atom(mk("truth", t))


def SLIST(s):
    """SequenceList(*s); building one from another changes nothing"""
    return s if s.k == "slist" else mk("slist", s)


# ------------------------------------------------------- substitution ----
_REB = {
    "lin": lambda a: _reb_lin(a), "elt": lambda a: ELT(*a), "len": lambda a: LEN(*a), "attr": lambda a: ATTR(*a),
    "cat": lambda a: CAT(*a[0]), "ite": lambda a: ITE(*a), "slice": lambda a: SLICE(*a), "arr": lambda a: ARR(*a),
    "slist": lambda a: SLIST(*a), "flat": lambda a: FLAT(*a), "fmt": lambda a: FMT(a[0]), "typeof": lambda a: TYPEOF(*a),
    "call": lambda a: _resum(a[1]) if a[0] == "sum" and len(a) == 2 and a[1].k == "comp" else a[1] if a[0] == "min2" and a[1] is a[2] else mk("call", *a),
}
_ATOMREB = {
    "is": lambda a: IS(*a), "eq": lambda a: EQ(*a), "le0": lambda a: LE0(*a), "lt0": lambda a: LT0(*a),
    "in": lambda a: IN(*a), "truth": lambda a: TRUTH(*a), "slin": lambda a: IN(*a) if False else atom(mk("slin", *a)),
}


def _reb_lin(a):
    r = lin_make({}, a[1])
    for x, c in a[0]:
        r = add(r, scale(x, c)) if x.k != "ite" or len(a[0]) > 1 or a[1] != 0 else scale(x, c)
    return r


def DEL(c, i):
    if c.k == "seq" and i.k == "int" and -len(c.a[0]) <= i.a[0] < len(c.a[0]):
        items = list(c.a[0])
        items.pop(i.a[0])
        return SEQ(items)
    return mk("del", c, i)


def _resum(v):
    b = fresh("i")
    return SUM(v.a[0], open_bv(v.a[1], v.a[3], b), open_bv(v.a[2], v.a[3], b), b)


def subst(t, m):
    """Simultaneous substitution of terms (keys) by terms."""
    memo = {}
    keys = set(m)
    keyfv = frozenset().union(*[k.fv for k in keys]) if keys else frozenset()
    only_fv = all(k.k == "fv" for k in keys)
    own = {k.a[0] for k in keys if k.k == "bv"}

    def go(x):
        if x in m:
            return m[x]
        if only_fv and not (x.fv & keyfv):
            return x
        if not only_fv and not any(k.fv <= x.fv for k in keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.k == "bdd":
            at = go_atom(x.a[0])
            r = bite(at, go(x.a[1]), go(x.a[2]))
        else:
            # the index of a binder of that height is the binder's own
            if x.k in ("comp", "ex", "first") and x.a[-1] in own:
                na = (go(x.a[0]),) + x.a[1:]
            elif x.k == "fold" and x.a[7] in own:
                na = x.a[:1] + go_args(x.a[1:3]) + x.a[3:]
            else:
                na = go_args(x.a)
            if na == x.a:
                r = x
            elif x.k in _REB:
                r = _REB[x.k](na)
            elif x.k in _ATOMREB:
                r = _ATOMREB[x.k](na)
            elif x.k == "comp":
                b = fresh("i")
                r = COMP(na[0], open_bv(na[1], na[3], b), open_bv(na[2], na[3], b), b)
            elif x.k == "ex":
                b = fresh("i")
                r = EX(na[0], open_bv(na[1], na[2], b), b)
            elif x.k == "first":
                b = fresh("i")
                c1, v1 = open_bv(na[1], na[3], b), open_bv(na[2], na[3], b)
                h = 1 + max(c1.ht, v1.ht)
                v = mk("bv", h)
                r = mk("first", na[0], subst1(c1, b, v), subst1(v1, b, v), h)
            else:
                r = mk(x.k, *na)
        memo[x] = r
        return r

    def go_atom(x):
        if x in m:
            v = m[x]
            return v if v.k in ("true", "false", "bdd") else atom(v)
        r = go(x)
        return r if r.k in ("true", "false", "bdd") else TRUTHA(r)

    def go_args(a):
        return tuple(go(y) if isinstance(y, T) else go_args(y) if isinstance(y, tuple) else y for y in a)
    return go(t)


def TRUTHA(t):
    """An atom term as formula."""
    return atom(t)


def subst1(t, x, y):
    if x is y:
        return t
    if x.k == "fv" and x not in t.fv:
        return t
    return subst(t, {x: y})


def open_bv(t, h, v):
    bv = mk("bv", h)
    if t.ht < h:
        return t
    return subst(t, {bv: v})


# ------------------------------------------------------- bounds on an index ----

def bound_simp(f, b, n):
    """Simplify formula f knowing 0 <= b < n (b an integer index)."""
    if f.k != "bdd":
        return f
    m = {}
    for a in atoms(f):
        v = bound_atom(a, b, n)
        if v is not None:
            m[a] = v
    return assign(f, m) if m else f


def bound_atom(a, b, n):
    if a.k != "le0":
        return None
    p = a.a[0]
    d, c = lin_parts(p)
    if any(tyof(x) != "int" for x in d):
        return None
    kb = d.get(b, 0)
    # max and min of p over b in [0, n-1]; then use n >= 1 to decide the sign
    lo = subst_lin(p, b, ZERO)
    hi = subst_lin(p, b, sub(n, num(1)))
    if kb < 0:
        lo, hi = hi, lo
    if kb == 0:
        lo = hi = p
    if nonpos(hi, n):
        return TRUE
    if pos(lo, n):
        return FALSE
    return None


def subst_lin(p, b, v):
    d, c = lin_parts(p)
    k = d.pop(b, 0)
    r = lin_make(d, c)
    return add(r, scale(v, Fraction(k))) if k else r


def nonpos(p, n):
    """p <= 0 given n >= 1 (only combinations p = -k*n + c)"""
    d, c = lin_parts(p)
    if not d:
        return c <= 0
    dn, cn = lin_parts(n)
    # p + k*n <= const ?
    for k in (1, 2):
        q = add(p, scale(n, Fraction(k)))
        dd, cc = lin_parts(q)
        if not dd and cc - k <= 0:
            return True
    if all(v < 0 and nonneg(x) for x, v in d.items()) and c <= 0:
        return True
    return False


def pos(p, n):
    """p >= 1 given n >= 1"""
    d, c = lin_parts(p)
    if not d:
        return c >= 1
    for k in (1, 2):
        q = add(p, scale(n, Fraction(-k)))
        dd, cc = lin_parts(q)
        if not dd and cc + k >= 1:
            return True
    if all(v > 0 and nonneg(x) for x, v in d.items()) and c >= 1:
        return True
    return False
