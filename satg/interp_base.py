"""State, effects and summaries of the gated value-graph evaluator."""
from __future__ import annotations
import ast
import builtins
from functools import lru_cache
from .terms import *
from .sem import *

PREC = frozenset({"fol", "prev"})
# a field name may be qualified by the kind of object that is written ("within:seq")
HIER = frozenset({"super_instance", "subset_list", "*subset_list", "within:seq", "contains:seq"}) | PREC
TIME = frozenset({"start", "end", "time"})
TIERF = frozenset({"sequence_list", "*sequence_list", "intier", "tiername", "contains:tier"})
GROUPF = frozenset({"tier_list", "*tier_list", "_name", "within:tier", "contains:group"})
DOWN = frozenset({"level", "turning_point", "range_interval", "ranges_tier"})
ALLQ = HIER | TIME | TIERF | GROUPF | {"label", "tier_groups", "entry_class", "superset_class", "subset_class", "name",
                                       "within:group", "contains:grid"}
ALL = frozenset(f.split(":")[0] for f in ALLQ)
SLC = frozenset({"*subset_list", "*sequence_list", "*contains"})


def fkind(o):
    """kind of the object a field belongs to, as qualifier"""
    ty = tyof(o)
    if ty.startswith("cls"):
        return "cls"
    cs = classes_of(ty)
    ks = {kind_of(c) for c in cs}
    return ks.pop() if len(ks) == 1 else None


def ver_of(ver, o, f):
    k = fkind(o)
    if k is None:
        base = f + ":"
        return ver.get(f, 0) + sum(v for q, v in ver.items() if q.startswith(base))
    return ver.get(f, 0) + ver.get(f"{f}:{k}", 0)


def hits(mods, f, o=None):
    """may an effect with these mods change field f of object o?"""
    if f in mods:
        return True
    k = fkind(o) if o is not None else None
    if k is not None:
        return f"{f}:{k}" in mods
    base = f + ":"
    return any(m.startswith(base) for m in mods)


def overlap(a, b):
    """do two mod sets share a field?"""
    for m in a:
        f, _, k = m.partition(":")
        if k:
            if m in b or f in b:
                return True
        elif hits(b, f):
            return True
    return False

# Calls that stay calls in a summary (each has a contract of its own).
#   (kind, method) -> (fields it may write, pure?, fields it reads)
BOUND = {
    ("seq", "set_fol"): (PREC, False), ("seq", "set_prev"): (PREC, False),
    ("seq", "set_initial"): (PREC, False), ("seq", "set_final"): (PREC, False),
    ("seq", "set_super_instance"): (HIER, False), ("seq", "append_subset_list"): (HIER, False),
    ("seq", "remove_from_subset_list"): (HIER, False), ("seq", "remove_superset"): (HIER, False),
    ("seq", "set_subset_list"): (HIER, False), ("seq", "subset_list="): (HIER, False),
    ("seq", "append"): (HIER | TIERF, False), ("seq", "cleanup"): (HIER | TIERF, False),
    ("seq", "pop"): (HIER, False), ("seq", "_shift"): (TIME, False),
    ("seq", "fuse_rightwards"): (ALLQ, False), ("seq", "fuse_leftwards"): (ALLQ, False),
    ("seq", "__init__"): (ALLQ, False), ("seq", "set_level"): (frozenset({"level", "turning_point"}), False),
    ("seq", "set_turning_point"): (frozenset({"level", "turning_point"}), False),
    ("SL", "append"): (SLC, False), ("SL", "concat"): (SLC | TIME, False),
    ("SL", "remove"): (SLC | HIER, False), ("SL", "pop"): (SLC | HIER, False),
    ("tier", "append"): (HIER | TIERF | TIME | GROUPF, False), ("tier", "pop"): (HIER | TIERF - {"intier", "tiername"}, False),
    ("tier", "concat"): (ALLQ, False), ("tier", "cleanup"): (HIER | TIERF | TIME, False), ("tier", "__init__"): (ALLQ, False),
    ("tier", "get_interval_at_time"): (("start", "end", "sequence_list", "*sequence_list"), True),
    ("tier", "get_nearest_point_index"): (("time", "sequence_list", "*sequence_list"), True),
    ("tier", "return_tier"): (("start", "end", "time", "label", "sequence_list", "*sequence_list", "name"), True),
    ("tier", "__add__"): (("sequence_list", "*sequence_list"), True),
    ("group", "shift"): (TIME, False), ("group", "cleanup"): (HIER | TIERF | TIME, False),
    ("group", "append"): (ALLQ, False), ("group", "concat"): (ALLQ, False), ("group", "__init__"): (ALLQ, False),
    ("group", "make_name"): (("name", "tier_list", "*tier_list", "within"), True),
    ("group", "_arrange_tiers"): (frozenset({"contains:group", "within:tier"}), False),
    ("group", "_project_up"): (HIER | TIERF | TIME, False),
    ("group", "get_intervals_at_time"): (("start", "end", "time", "sequence_list", "*sequence_list", "tier_list"), True),
    ("grid", "append"): (ALLQ, False), ("grid", "cleanup"): (ALLQ, False), ("grid", "shift"): (TIME, False),
    ("grid", "_reclone_classes"): (frozenset({"_cloned_classes"}), False),
    ("grid", "_swap_classes"): ((), True), ("grid", "get_class_by_name"): (("tier_groups", "tier_list", "entry_class"), True),
    ("grid", "_nestify_tiers"): ((), True),
    ("grid", "_relate_tiers"): (frozenset({"_cloned_classes"}), False),
    ("grid", "return_textgrid"): (("tier_groups", "tier_list", "sequence_list"), True),
    ("grid", "__init__"): (ALLQ, False),
    ("cls", "set_superset_class"): (frozenset({"superset_class", "subset_class"}), False),
    ("cls", "set_subset_class"): (frozenset({"superset_class", "subset_class"}), False),
    ("cls", "_cast"): (frozenset({"__class__"}), False),
    ("fn", "clone_class"): ((), True), ("fn", "get_class_hierarchy"): (("superset_class", "subset_class"), True),
    ("fn", "custom_classes"): ((), True), ("fn", "sequence_to_df"): (("start", "end", "time", "label", "contains"), True),
}
# private boundaries: when one is gone from the source its callers become undecided
PRIVATE_BOUND = [k for k in BOUND if k[1].startswith("_") and not k[1].startswith("__")]


CAUGHT = "an error raised inside a loop and caught outside it"
THROWS = {}         # boundary operation -> names of the errors its contract raises (filled from the contracts)


class Eff:
    __slots__ = ("op", "args", "guard", "loc", "mods", "opt", "fn")

    def __init__(self, op, args, guard, loc, mods=frozenset(), opt=False, fn=""):
        self.op, self.args, self.guard, self.loc, self.mods, self.opt, self.fn = op, args, guard, loc, mods, opt, fn

    def map(self, f):
        return Eff(self.op, tuple(f(a) if isinstance(a, T) else a for a in self.args), f(self.guard), self.loc, self.mods, self.opt, self.fn)

    def __repr__(self):
        g = "" if self.guard is TRUE else f"   when {show(self.guard)}"
        return f"{self.op}({', '.join(show(a) if isinstance(a, T) else str(a) for a in self.args)}){g}" + (" [opt]" if self.opt else "")


class Loop:
    __slots__ = ("n", "b", "guard", "body", "live", "carries", "loc", "kind", "cond", "fn")

    def __init__(self, n, b, guard, body, live, carries, loc, kind="for", cond=None, fn=""):
        self.n, self.b, self.guard, self.body, self.live = n, b, guard, body, live
        self.carries, self.loc, self.kind, self.cond, self.fn = carries, loc, kind, cond, fn

    @property
    def mods(self):
        r = frozenset()
        for e in self.body:
            r |= e.mods
        return r

    @property
    def opt(self):
        return all(e.opt for e in self.body)

    def map(self, f):
        return Loop(f(self.n), self.b, f(self.guard), [e.map(f) for e in self.body],
                    f(self.live) if self.live is not None else None,
                    [(c, f(i), f(x)) for c, i, x in self.carries], self.loc, self.kind,
                    f(self.cond) if self.cond is not None else None, self.fn)

    def __repr__(self):
        h = f"{self.kind} {show(self.b)}<{show(self.n)}"
        if self.cond is not None:
            h += f" while {show(self.cond)}"
        if self.live is not None:
            h += f" live({show(self.live)})"
        for c, i, x in self.carries:
            h += f" carry({show(c)}={show(i)} -> {show(x)})"
        g = "" if self.guard is TRUE else f" when {show(self.guard)}"
        return h + g + ": {" + "; ".join(map(repr, self.body)) + "}"


class State:
    __slots__ = ("env", "heap", "cont", "ver", "pc", "fx", "esc")

    def __init__(self):
        self.env, self.heap, self.cont, self.ver = {}, {}, {}, {}
        self.pc, self.fx, self.esc = TRUE, [], {}

    def copy(self):
        s = State()
        s.env, s.heap, s.cont, s.ver = dict(self.env), dict(self.heap), dict(self.cont), dict(self.ver)
        s.pc, s.fx, s.esc = self.pc, self.fx, dict(self.esc)
        return s

    def take(self, o):
        self.env, self.heap, self.cont, self.ver, self.pc, self.esc = o.env, o.heap, o.cont, o.ver, o.pc, o.esc


UNDEF = mk("undef")


def merge_into(dst, states, envs=True):
    """dst := gated merge of `states` (disjoint path conditions)."""
    states = [s for s in states if s.pc is not FALSE]
    if not states:
        dst.pc = FALSE
        return
    acc = states[-1]
    cur = State()
    cur.take(acc.copy())
    for s in reversed(states[:-1]):
        care = OR(s.pc, cur.pc)
        c = restrict(s.pc, care)

        def mix(a, b, dflt, dflt2=None):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                x, y = a.get(k), b.get(k)
                if x is None:
                    x = dflt(k)
                if y is None:
                    y = (dflt2 or dflt)(k)
                if x is y:
                    out[k] = x
                elif x is UNDEF:
                    out[k] = y
                elif y is UNDEF:
                    out[k] = x
                else:
                    out[k] = ITE(c, x, y)
            return out
        if envs:
            cur.env = mix(s.env, cur.env, lambda k: UNDEF)
        cur.heap = mix(s.heap, cur.heap, lambda k: ATTR(k[0], k[1], ver_of(s.ver, k[0], k[1])),
                       lambda k: ATTR(k[0], k[1], ver_of(cur.ver, k[0], k[1])))
        cur.cont = mix(s.cont, cur.cont, lambda k: EMPTY if k.k == "lref" else k)
        for k in s.ver:
            cur.ver[k] = max(s.ver[k], cur.ver.get(k, 0))
        cur.esc.update(s.esc)
        cur.pc = care
    env = cur.env if envs else dst.env
    dst.take(cur)
    dst.env = env


@lru_cache(maxsize=None)
def outer_names(node):
    """the names a function declares nonlocal"""
    if isinstance(node, ast.Lambda):
        return ()
    out, todo = [], list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Nonlocal):
            out += x.names
        elif not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo += ast.iter_child_nodes(x)
    return tuple(sorted(set(out)))


class LoopCtx:
    def __init__(self):
        self.brk, self.cont = [], []


class Frame:
    def __init__(self, fi, module, cls):
        self.fi, self.module, self.cls = fi, module, cls
        self.rets = []       # (state copy, value)
        self.loops = []
        self.looped = False  # called from inside a loop
        self.raised = FALSE
        self.clos = {}
        self.gen = None
        self.selfterm = self.parent = self.closure = self.saved = None
        self.raisedst = []


class Summary:
    def __init__(self, fx, ret, unknowns, fi):
        self.fx, self.ret, self.unknowns, self.fi = fx, ret, unknowns, fi

    def dump(self):
        out = [repr(e) for e in self.fx]
        out.append(f"return {show(self.ret)}")
        if self.unknowns:
            out.append(f"unknowns: {self.unknowns}")
        return "\n".join(out)


def catches(h, name):
    for c in h["catches"]:
        if c in (None, "Exception", "BaseException") or c == name:
            return True
        a, b = getattr(builtins, c, None), getattr(builtins, str(name), None)
        if isinstance(a, type) and isinstance(b, type) and issubclass(b, a):
            return True
    return False
