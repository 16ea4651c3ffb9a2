"""Whole-program rules, by property."""
from __future__ import annotations
import ast
from .terms import *
from .sem import *
from .interp_base import *
from .interp import Interp
from .program import FuncInfo, Prop, ClassInfo


class RuleResult:
    def __init__(self, name, text):
        self.name, self.text = name, text
        self.visited, self.skipped, self.findings = 0, [], []

    def add(self, where, construct, text):
        self.findings.append(RuleFinding(self.name, where, construct, text))


class RuleFinding:
    def __init__(self, rule, where, construct, text):
        self.rule, self.where, self.construct, self.text = rule, where, construct, text


RULES = {}          # property -> [function(book) -> RuleResult]


def rule(*props):
    def deco(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return deco


def run(prop, book):
    return [f(book) for f in RULES.get(prop, [])]


# ---- shared -----------------------------------------------------------------------------------

CONCRETE = ["SequenceInterval", "SequencePoint", "SequenceTier", "SequencePointTier", "TierGroup", "PointsGroup", "AlignedTextGrid",
            "SequenceList", "PrStr", "ToBI", "TurningPoints", "Levels", "Ranges", "PolarGrid", "Word", "Phone"]
READ_PREFIX = ("get_", "return_", "save_", "show_")
READ_NAMES = {"__len__", "__getitem__", "__iter__", "__contains__", "__repr__", "__str__", "index", "validate", "make_name",
              "_get_within_path", "__next__"}


def is_reader(nm):
    return nm.endswith(":get") or nm in READ_NAMES or nm.startswith(READ_PREFIX)


def own_functions(prog):
    """(class or None, name, FuncInfo) of every function of the package"""
    for k in prog.classes.values():
        if k.module.name.startswith("specs."):
            continue
        for nm, m in k.own.items():
            for f, tag in ((m, "") if isinstance(m, FuncInfo) else (None, ""), (m.getter, ":get") if isinstance(m, Prop) else (None, ""),
                           (m.setter, ":set") if isinstance(m, Prop) else (None, "")):
                if isinstance(f, FuncInfo):
                    yield k, nm + tag, f
    for m in prog.modules.values():
        if m.name.startswith("specs."):
            continue
        for v in m.ns.values():
            if isinstance(v, FuncInfo) and v.module is m:
                yield None, v.name, v


def arg_names(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + \
           ([a.kwarg.arg] if a.kwarg else [])


def flat_effects(fx):
    for e in fx:
        if isinstance(e, Loop):
            yield from flat_effects(e.body)
        else:
            yield e


def readers(book):
    """(target, FuncInfo, parameter terms): everything that only looks"""
    prog = book.prog
    byt = {}
    for c, t in book.items:
        byt.setdefault(t, c)
    seen = set()
    for cn in CONCRETE:
        k = prog.classes.get(cn)
        if k is None:
            continue
        names = {}
        for a in k.mro:
            if isinstance(a, str):
                continue
            for nm, m in a.own.items():
                names.setdefault(nm, m)
        for nm, m in names.items():
            if isinstance(m, Prop):
                f, t = m.getter, f"{cn}.{nm}:get"
            elif isinstance(m, FuncInfo) and (nm in READ_NAMES or nm.startswith(READ_PREFIX)):
                f, t = m, f"{cn}.{nm}"
            else:
                continue
            if f is None or (f.node, kind_of(cn), f.cls.name if f.cls and f.cls.name in CONCRETE else cn) in seen:
                continue
            seen.add((f.node, kind_of(cn), f.cls.name if f.cls and f.cls.name in CONCRETE else cn))
            c = byt.get(t)
            if c is not None and len(c.node.args.args) == len(f.node.args.args):
                ps = book.param_terms(c, f, t)
            else:
                base = "SL:SequenceInterval|SequencePoint" if cn == "SequenceList" else cn
                ps = [(n, mk("p", n, (("cls:" if f.kind == "class" else "") + base) if i == 0 and f.kind != "static" else "")) for i, n in enumerate(arg_names(f))]
            yield t, f, ps
    for c, t in book.items:
        if t.startswith("func:outputs") or "to_dataframe" in t:
            f = book.find(t)
            yield t, f, book.param_terms(c, f, t)


def root(t):
    while t.k in ("attr", "idx", "elt", "at", "slice", "rev", "first") and t.a and isinstance(t.a[0], T):
        t = t.a[0]
    return t


FRESH = ("new", "lref", "praatio", "call")


def touches(e):
    """description of the state an effect changes, or None"""
    if e.op in ("raise", "warn", "create", "print") or e.guard is FALSE:
        return None
    if e.op.startswith("ext."):
        return None
    if e.op in ("write", "lset", "setattr", "del"):
        r = root(e.args[0]) if isinstance(e.args[0], T) else None
        if r is None or r.k not in ("p", "cls", "fn", "mod"):
            return None
        if e.op == "write" and e.args[1] == "_name" and e.args[0].k == "p":
            return None                       # a group remembers its default name
        return f"{e.op} {show(e.args[0])[:80]}" + (f".{e.args[1]}" if e.op == "write" else "")
    if e.mods:
        r = root(e.args[0]) if e.args and isinstance(e.args[0], T) else None
        if r is not None and r.k in ("p", "cls"):
            return f"{e.op} on {show(e.args[0])[:80]}"
    return None


@rule("C14")
def pure_readers(book):
    R = RuleResult("readers-write-nothing", "no property getter, query, iteration, export, validation or conversion reaches a write to an "
                   "object that existed before the call (callees inlined; a group remembering its default name excepted)")
    I = Interp(book.prog)
    for t, f, ps in readers(book):
        R.visited += 1
        try:
            s = I.summarize(f, ps)
        except RecursionError:
            R.skipped.append(f"{t}: too deep")
            continue
        except Exception as ex:
            R.skipped.append(f"{t}: {type(ex).__name__}: {ex}")
            continue
        for e in flat_effects(s.fx):
            w = touches(e)
            if w:
                R.add(e.loc, f"{t}:{e.op}:{e.args[1] if e.op == 'write' else ''}", f"reading through {t} ({f.loc}) changes state: {w} when {show(e.guard)[:120]}")
        if s.unknowns:
            R.skipped.append(f"{t}: {s.unknowns[0]}")
    return R


# ---- values that are kept although what they derive from can change ------------------------------
MUTABLE = {"start", "end", "time", "label", "fol", "prev", "super_instance", "subset_list", "sequence_list", "tier_list", "tier_groups",
           "within", "contains", "name", "intier", "tiername", "level", "turning_point", "range_interval", "ranges_tier", "entry_class",
           "superset_class", "subset_class"}
MEMO = ("cached_property", "lru_cache", "cache")


@rule("C16", "C14")
def no_memo(book):
    R = RuleResult("no-memoised-derivations", "no getter or query of a mutable object is memoised by a decorator")
    for k, nm, f in own_functions(book.prog):
        R.visited += 1
        if f.memo and k is not None:
            R.add(f.loc, f"{k.name}.{nm}:{f.memo}", f"{k.name}.{nm} keeps its answers (decorator {f.memo}) although what it derives from can be modified")
        for d in f.decorators or ():
            if d and d.split(".")[-1] in MEMO and k is not None:
                R.add(f.loc, f"{k.name}.{nm}:{d}", f"{k.name}.{nm} keeps its first answer ({d}) although what it derives from can be modified")
    return R


def attr_writers(prog, field):
    """functions that store or delete an attribute of this name"""
    out = []
    for k, nm, f in own_functions(prog):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == field and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append((k, nm, f))
                break
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and len(n.args) > 1 and \
                    isinstance(n.args[1], ast.Constant) and n.args[1].value == field:
                out.append((k, nm, f))
                break
    return out


# ---- defaults of the object protocol the analysis relies on ------------------------------------------
PASS = {"__setattr__": 2, "__delattr__": 1, "__getattribute__": 1, "__new__": 0}


def passes_on(f):
    """the function does nothing but call the method it overrides with the arguments it was given"""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], (ast.Expr, ast.Return)) or not isinstance(body[0].value, ast.Call):
        return False
    c, ps = body[0].value, arg_names(f)
    if not (isinstance(c.func, ast.Attribute) and c.func.attr == f.name) or c.keywords:
        return False
    args = [a.id if isinstance(a, ast.Name) else None for a in c.args]
    sup = isinstance(c.func.value, ast.Call) and isinstance(c.func.value.func, ast.Name) and c.func.value.func.id == "super"
    n = PASS[f.name]
    if f.name == "__new__":
        return args == ps[:1]
    return args == (ps[1:] if sup else ps) and len(ps) == n + 1


def only_raises(f):
    """a fallback that answers nothing: it always raises, or only passes on to the class above"""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Call):
        c = body[0].value.func
        return isinstance(c, ast.Attribute) and c.attr == f.name
    return bool(body) and isinstance(body[-1], ast.Raise) and not any(isinstance(n, ast.Return) for s in body for n in ast.walk(s))


def transparent(p):
    """a property that hands out what was stored, as it was stored"""
    def body(f):
        return [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]

    def field(n, me):
        return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me else None
    if not p.getter or not p.setter:
        return False
    g, s = body(p.getter), body(p.setter)
    gp, sp = arg_names(p.getter), arg_names(p.setter)
    if len(g) != 1 or len(s) != 1 or not isinstance(g[0], ast.Return) or not isinstance(s[0], (ast.Assign, ast.AnnAssign)) or len(gp) != 1 or len(sp) != 2:
        return False
    ts = s[0].targets if isinstance(s[0], ast.Assign) else [s[0].target]
    return len(ts) == 1 and field(g[0].value, gp[0]) is not None and field(ts[0], sp[0]) == field(g[0].value, gp[0]) and \
        isinstance(s[0].value, ast.Name) and s[0].value.id == sp[1]


CORE = {"label", "start", "end", "time", "fol", "prev", "subset_list", "super_instance", "sequence_list", "tier_list", "tier_groups", "within",
        "contains", "name", "intier", "superset_class", "subset_class", "entry_class", "entry_classes", "duration", "xmin", "xmax"}


@rule("C07", "C11", "C14", "C15", "C16", "C19", "C26")
def plain_objects(book):
    R = RuleResult("plain-attribute-access", "no class of the package replaces how attributes of its objects are read, stored or deleted, or which object a construction gives")
    prog = book.prog
    conc = [prog.classes[c] for c in CONCRETE if c in prog.classes]

    def ours(k):
        return k is not None and any(c.is_sub(k) or k.is_sub(c) for c in conc)
    for k, nm, f in own_functions(prog):
        if not ours(k):
            continue
        R.visited += 1
        if nm in PASS and not passes_on(f):
            R.add(f.loc, f"{k.name}.{nm}", f"{k.name} defines {nm}, which does more than pass on its arguments: attributes stored are not the ones read back"
                  if nm != "__new__" else f"{k.name} defines __new__: a construction need not give an object of its own")
        elif nm == "__getattr__" and f.kind == "method" and not only_raises(f):
            R.add(f.loc, f"{k.name}.{nm}", f"{k.name} defines __getattr__, which answers for attributes its objects do not have: asking whether they have one, or reading one by a wrong name, gives an answer")
        elif nm == "__del__":
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in CORE:
                    R.add(f"{f.module.rel}:{n.lineno}", f"{k.name}.{nm}", f"{k.name}.__del__ changes .{n.attr} of an object when another one is no longer used")
        elif nm == "__init_subclass__":
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in CORE:
                    R.add(f"{f.module.rel}:{n.lineno}", f"{k.name}.{nm}", f"{k.name}.__init_subclass__ changes .{n.attr} of every class made from it")
    # a metaclass that does something else than construct
    for k in prog.classes.values():
        if not ours(k) or k.node is None:
            continue
        for kw in getattr(k.node, "keywords", ()):
            mc = prog.resolve_expr(k.module, kw.value) if kw.arg == "metaclass" else None
            R.visited += 1
            call = mc.lookup("__call__") if isinstance(mc, ClassInfo) else None
            if isinstance(call, FuncInfo) and not only_raises(call):
                R.add(call.loc, f"{k.name}:metaclass", f"constructing a {k.name} runs {mc.name}.__call__, which does more than construct the object")
    # what is stored on every object stays what it was in subclasses
    for k in prog.classes.values():
        if not ours(k) or k.module.name.startswith("specs."):
            continue
        for nm, m in k.own.items():
            if not isinstance(m, Prop) or nm not in CORE:
                continue
            above = [c for c in k.mro if isinstance(c, ClassInfo) and c is not k]
            below = next((c.own[nm] for c in above if nm in c.own), None)
            if isinstance(below, (Prop, FuncInfo)) or transparent(m):
                continue
            R.visited += 1
            for c in above:
                init = c.own.get("__init__")
                if isinstance(init, FuncInfo) and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == nm and
                                                      isinstance(n.value, ast.Name) and n.value.id == arg_names(init)[0] for n in ast.walk(init.node)):
                    R.add((m.getter or m.setter).loc, f"{k.name}.{nm}", f"{k.name}.{nm} replaces the attribute that {c.name} stores by one that is computed: what is stored is not what is read back")
                    break
    return R


# ---- shared mutable state --------------------------------------------------------------------------
MUTATE = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "add", "discard", "popitem"}
LITERAL = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MAKERS = {"list", "dict", "set", "SequenceList", "defaultdict", "deque", "SequenceTier", "SequencePointTier", "TierGroup", "PointsGroup",
          "AlignedTextGrid", "bytearray", "Counter", "OrderedDict"}


def mutable_expr(n):
    if isinstance(n, LITERAL):
        return True
    return isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and \
        (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) in MAKERS


def default_params(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        yield x.arg, d


class Shared:
    """flow of one shared object through the local names of a function: where it is changed, kept or handed out"""

    def __init__(self, f, source, names=(), public=True):
        self.f, self.source, self.names, self.public, self.out = f, source, set(names), public, {}
        self.block(f.node.body)

    def holds(self, n):
        if isinstance(n, ast.IfExp):
            return self.holds(n.body) or self.holds(n.orelse)
        if isinstance(n, ast.BoolOp):
            return any(self.holds(x) for x in n.values)
        if isinstance(n, ast.NamedExpr):
            return self.holds(n.value)
        return isinstance(n, ast.Name) and n.id in self.names or self.source(n)

    def note(self, n, what):
        self.out.setdefault((n.lineno, what), (n, what))

    def block(self, body):
        for s in body:
            self.stmt(s, body)

    def stmt(self, s, body):
        nested = [getattr(s, x, None) for x in ("body", "orelse", "finalbody")]
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.expr(e)
            elif isinstance(e, ast.withitem):
                self.expr(e.context_expr)
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            h = s.value is not None and self.holds(s.value)
            for t in ts:
                if isinstance(t, ast.Name):
                    (self.names.add if h else self.names.discard)(t.id)
                elif isinstance(t, ast.Attribute) and h and not replaced_later(self.f, s, t):
                    self.note(s, f"is kept as .{t.attr}")
                elif isinstance(t, (ast.Tuple, ast.List)):
                    vs = s.value.elts if isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(t.elts) else [None] * len(t.elts)
                    for x, v in zip(t.elts, vs):
                        hv = v is not None and self.holds(v)
                        if isinstance(x, ast.Name):
                            (self.names.add if hv else self.names.discard)(x.id)
                        elif isinstance(x, ast.Attribute) and hv:
                            self.note(s, f"is kept as .{x.attr}")
                elif isinstance(t, ast.Subscript) and self.holds(t.value):
                    self.note(s, "is changed in place")
        elif isinstance(s, ast.AugAssign):
            t = s.target
            if self.holds(t) or isinstance(t, ast.Subscript) and self.holds(t.value):
                self.note(s, "is changed in place")
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and self.holds(t.value):
                    self.note(s, "is changed in place")
        elif isinstance(s, ast.Return) and s.value is not None and self.holds(s.value) and self.public:
            self.note(s, "is handed out")
        before = set(self.names)
        after = set(before) if isinstance(s, (ast.For, ast.While, ast.Try)) or isinstance(s, ast.If) and not s.orelse else set()
        for rep in range(2 if isinstance(s, (ast.For, ast.While)) else 1):
            for b in [x for x in nested if isinstance(x, list)] + [h.body for h in getattr(s, "handlers", [])] + [c.body for c in getattr(s, "cases", [])]:
                if not b:
                    continue
                self.names = set(before) if isinstance(s, (ast.If, ast.Match)) else self.names | before
                self.block(b)
                after |= self.names
                before |= self.names if not isinstance(s, (ast.If, ast.Match)) else set()
        if any(isinstance(x, list) and x for x in nested) or getattr(s, "cases", None):
            self.names = after | (before if isinstance(s, ast.Match) else set())

    def expr(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE and self.holds(n.func.value):
                self.note(n, f"is changed by .{n.func.attr}()")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == self.f.name and any(self.holds(x) for x in n.args):
                self.note(n, "is passed on recursively")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and self.holds(n.args[2]):
                self.note(n, "is kept in an attribute")


def uses_default_object(f, p):
    """ways the function mutates or lets escape the object bound to parameter p"""
    return list(Shared(f, lambda n: False, {p}).out.values())


def replaced_later(f, n, t):
    """a later statement of the function's own block, or a method it calls there, stores the same attribute"""
    body = f.node.body
    if n not in body:
        return False
    me = arg_names(f)[:1]
    return any(stores_always(f, x, t.attr, me, 3) if isinstance(t.value, ast.Name) and [t.value.id] == me else
               isinstance(x, ast.Assign) and any(ast.dump(y) == ast.dump(t) for y in x.targets) for x in surely_run(body[body.index(n) + 1:]))


def surely_run(body):
    """the statements of a block up to the first that may leave the function"""
    for x in body:
        yield x
        if any(isinstance(y, ast.Return) for y in own_nodes(x)):
            return


def own_nodes(x):
    yield x
    for c in ast.iter_child_nodes(x):
        if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            yield from own_nodes(c)


def stores_always(f, x, attr, me, depth):
    """the statement surely stores that attribute of the object the method runs for"""
    if isinstance(x, (ast.Assign, ast.AnnAssign)):
        for y in x.targets if isinstance(x, ast.Assign) else [x.target]:
            for z in y.elts if isinstance(y, (ast.Tuple, ast.List)) else [y]:
                if isinstance(z, ast.Attribute) and z.attr == attr and isinstance(z.value, ast.Name) and [z.value.id] == me:
                    return True
    if isinstance(x, ast.If):
        return bool(x.orelse) and all(any(stores_always(f, y, attr, me, depth) for y in surely_run(b)) for b in (x.body, x.orelse))
    c = getattr(x, "value", None) if isinstance(x, (ast.Expr, ast.Assign, ast.Return)) else None
    if depth and f.cls is not None and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and [c.func.value.id] == me:
        g = f.cls.lookup(c.func.attr)
        if not isinstance(g, FuncInfo) and c.func.attr.startswith("__"):
            g = f.cls.lookup(f"_{f.cls.name}{c.func.attr}")
        return isinstance(g, FuncInfo) and g.kind == "method" and any(stores_always(g, y, attr, arg_names(g)[:1], depth - 1) for y in surely_run(g.node.body))
    return False


@rule("C15")
def defaults(book):
    R = RuleResult("defaults-not-shared", "no mutable default argument is modified, kept in an attribute, handed out or passed on")
    for k, nm, f in own_functions(book.prog):
        for p, d in default_params(f):
            R.visited += 1
            if not mutable_expr(d):
                continue
            for n, what in uses_default_object(f, p):
                R.add(f"{f.module.rel}:{n.lineno}", f"{f.qual}:{p}", f"the default object of parameter {p} of {f.qual} is shared by all calls and {what}")
    return R


@rule("C15")
def class_state(book):
    R = RuleResult("class-state-not-shared", "no mutable container that lives on a class or module is modified through instances or functions, bound to an instance attribute, or handed out")
    prog = book.prog
    mods = [m for m in prog.modules.values() if not m.name.startswith("specs.")]
    for k in prog.classes.values():
        if k.module.name.startswith("specs."):
            continue
        for nm, v in k.own.items():
            if not (isinstance(v, tuple) and v[0] == "val"):
                continue
            R.visited += 1
            if not mutable_expr(v[1]):
                continue
            # an instance attribute of the same name assigned in __init__ hides it
            init = k.lookup("__init__")
            own = any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == nm and isinstance(x.value, ast.Name) and x.value.id == "self"
                      for x in ast.walk(init.node)) if isinstance(init, FuncInfo) else False
            for kk, n2, f in own_functions(prog):
                inside = kk is not None and (kk is k or kk.is_sub(k))
                me = arg_names(f)[:1] if f.kind != "static" and inside else []

                def source(n, inside=inside, me=me, f=f):
                    if not (isinstance(n, ast.Attribute) and n.attr in (nm, nm.split("__", 1)[-1] if nm.startswith("_" + k.name + "__") else nm)):
                        return False
                    b = n.value
                    if isinstance(b, ast.Name) and (b.id == k.name or inside and b.id in ("cls", "__class__") or b.id in prog.classes and prog.classes[b.id].is_sub(k)):
                        return True
                    if inside and isinstance(b, ast.Attribute) and b.attr == "__class__" or inside and isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type":
                        return True
                    if isinstance(b, ast.Name) and b.id in me and f.kind == "class":
                        return True
                    return inside and not own and isinstance(b, ast.Name) and b.id in me
                for n, what in Shared(f, source, public=not f.name.startswith("_") or f.name.startswith("__")).out.values():
                    if what.startswith("is kept as .") and what[12:] == nm:
                        continue
                    R.add(f"{f.module.rel}:{n.lineno}", f"{k.name}.{nm}", f"{k.name}.{nm} is one object for all instances and {what} in {f.qual}")
    for m in mods:
        glob = {n: v[1] for n, v in m.ns.items() if isinstance(v, tuple) and v[0] == "val" and isinstance(v[1], ast.AST) and mutable_expr(v[1])}
        R.visited += len(glob)
        for g in glob:
            for kk, n2, f in own_functions(prog):
                if f.module is not m and not isinstance(prog.lookup(f.module, g), tuple):
                    continue
                if f.module is not m and prog.lookup(f.module, g)[1] is not glob[g]:
                    continue
                globals_ = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
                local = ({x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(arg_names(f))) - globals_
                if g in local:
                    continue
                for n, what in Shared(f, lambda n: isinstance(n, ast.Name) and n.id == g, public=not f.name.startswith("_") or f.name.startswith("__")).out.values():
                    R.add(f"{f.module.rel}:{n.lineno}", f"{m.name}.{g}", f"the module's {g} is shared by all objects and {what} in {f.qual}")
    return R


# ---- saving and restoring -----------------------------------------------------------------------------
OWN_COPYING = ("__reduce__", "__reduce_ex__", "__copy__", "__deepcopy__", "__getnewargs__", "__getnewargs_ex__")


def unsaveable(e, f, prog, depth=0):
    """why an object made by this expression cannot be pickled, or None"""
    if isinstance(e, ast.GeneratorExp):
        return "a generator"
    if isinstance(e, ast.IfExp):
        return unsaveable(e.body, f, prog, depth) or unsaveable(e.orelse, f, prog, depth)
    if isinstance(e, (ast.Tuple, ast.List)):
        return next((w for w in (unsaveable(x, f, prog, depth) for x in e.elts) if w), None)
    if isinstance(e, (ast.DictComp, ast.ListComp)):
        return unsaveable(e.value if isinstance(e, ast.DictComp) else e.elt, f, prog, depth)
    if isinstance(e, ast.Name) and depth < 3:
        ws = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        return next((w for w in (unsaveable(x, f, prog, depth + 1) for x in ws) if w), None)
    if isinstance(e, ast.Call):
        n, tail = e.func, []
        while isinstance(n, ast.Attribute):
            tail.insert(0, n.attr)
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        r = prog.lookup(f.module, n.id)
        full = ".".join([r[1] if isinstance(r, tuple) and r[0] == "ext" else n.id] + tail)
        if full.startswith("weakref."):
            return "a weak reference"
        if full == "open" or full.startswith(("io.open", "threading.", "_thread.", "socket.")):
            return f"what {full}() gives"
        if isinstance(r, FuncInfo) and not tail and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(r.node)):
            return "a generator"
    return None


def loses_state(node):
    """a copy or a recipe for one that cannot carry the object's attributes: the object itself, or a fresh construction with nothing put into it"""
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and (n.attr in ("__dict__", "__getstate__") or isinstance(n.ctx, ast.Store)) or \
                isinstance(n, ast.Name) and n.id in ("vars", "setattr", "super") or isinstance(n, ast.Attribute) and n.attr in ("__setattr__", "__setstate__"):
            return None
    rs = [n.value for n in ast.walk(node) if isinstance(n, ast.Return)]
    me = node.args.args[0].arg if node.args.args else ""

    def fresh(v):
        return isinstance(v, ast.Call) and (isinstance(v.func, ast.Name) and v.func.id == "type" or isinstance(v.func, ast.Call) and
                                            isinstance(v.func.func, ast.Name) and v.func.func.id == "type" or
                                            isinstance(v.func, ast.Attribute) and v.func.attr == "__class__")
    if node.name == "__deepcopy__":
        if rs and all(isinstance(v, ast.Name) and v.id == me for v in rs):
            return "gives back the object itself"
        if rs and all(fresh(v) for v in rs):
            return "builds a new object without the attributes of this one"
    elif rs and all(isinstance(v, ast.Tuple) and len(v.elts) == 2 for v in rs):
        return "leaves out the state of the object"
    return None


@rule("C26")
def saveable(book):
    R = RuleResult("state-can-be-saved", "no attribute of the package's objects is given a value that cannot be pickled (generator, weak reference, open file, lock)")
    for k, nm, f in own_functions(book.prog):
        for n in ast.walk(f.node):
            if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None:
                continue
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Attribute):
                    R.visited += 1
                    w = unsaveable(n.value, f, book.prog)
                    if w:
                        R.add(f"{f.module.rel}:{n.lineno}", f"{f.qual}:{t.attr}", f"{f.qual} keeps {w} in .{t.attr}: the object cannot be pickled")
    for k in book.prog.classes.values():
        if k.module.name.startswith("specs."):
            continue
        for n in OWN_COPYING:
            f = k.own.get(n)
            if f is None:
                continue
            w = loses_state(f.node) if isinstance(f, FuncInfo) and n in ("__reduce__", "__reduce_ex__", "__deepcopy__") else None
            if w:
                R.add(f.loc, f"{k.name}.{n}", f"{k.name}.{n} {w}")
            else:
                R.skipped.append(f"{k.name} defines {n}, which is not looked into further")
    return R
