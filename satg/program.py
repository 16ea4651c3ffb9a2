"""Parsed program: modules, classes (C3 MRO), functions, name resolution.

Nothing here imports or runs the analysed code; everything is read from the
syntax trees of /repo/src/aligned_textgrid.
"""
from __future__ import annotations
import ast, os, hashlib
from pathlib import Path
from . import wrap

REPO = Path(os.environ.get("SATG_REPO", "/repo"))
PKG = "aligned_textgrid"


class AnalysisBroken(Exception):
    """An anchor the rules need cannot be found or parsed."""


class FuncInfo:
    __slots__ = ("name", "node", "module", "cls", "kind", "decorators", "closure", "standin", "opaque", "memo")

    def __init__(self, name, node, module, cls=None, kind="func", decorators=()):
        self.name, self.node, self.module = name, node, module
        self.cls, self.kind, self.decorators = cls, kind, decorators
        self.closure = self.standin = self.opaque = self.memo = None

    @property
    def qual(self):
        return f"{self.cls.name}.{self.name}" if self.cls else self.name

    @property
    def loc(self):
        return f"{self.module.rel}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<fn {self.qual}>"


class Prop:
    def __init__(self, getter=None, setter=None):
        self.getter, self.setter = getter, setter


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.own = {}        # attr -> FuncInfo | Prop | ("val", expr)
        self.bases = []      # ClassInfo | str (external)
        self._mro = None

    def __repr__(self):
        return f"<class {self.name}>"

    @property
    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def lookup(self, attr, after=None):
        started = after is None
        for c in self.mro:
            if isinstance(c, str):
                continue
            if started and attr in c.own:
                return c.own[attr]
            if c is after:
                started = True
        return None

    def is_sub(self, other):
        return other in self.mro

    def ext_bases(self):
        return {c for c in self.mro if isinstance(c, str)}


def _lambda_def(name, v, m, c, kind):
    body = ast.FunctionDef(name, v.args, [ast.copy_location(ast.Return(v.body), v.body)], [], None, lineno=v.lineno, col_offset=0)
    return FuncInfo(name, ast.fix_missing_locations(body), m, c, kind)


def _c3(cls):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                return out + [x for s in seqs for x in s if x not in out]
            out.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out
    return [cls] + merge([(b.mro if isinstance(b, ClassInfo) else [b]) for b in cls.bases] + [list(cls.bases)])


class Module:
    def __init__(self, name, path, rel):
        self.name, self.path, self.rel = name, path, rel
        self.src = path.read_text(encoding="utf-8")
        self.tree = ast.parse(self.src, str(path))
        self.ns = {}
        self.stars = []
        self.is_pkg = path.name == "__init__.py"


def _decname(d):
    parts = []
    if isinstance(d, ast.Call):
        d = d.func
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
    return ".".join(reversed(parts))


def mangle(cls, attr):
    if cls is not None and attr.startswith("__") and not attr.endswith("__"):
        return f"_{cls.name.lstrip('_')}{attr}"
    return attr


# The private attributes the contracts speak of, and the classes that keep them.
BACKING = {
    "_values": ("SequenceList",), "_sequence_list": ("SequenceTier", "SequencePointTier"), "_contains": ("WithinMixins",),
    "_within": ("WithinMixins",), "_name": ("TierGroupMixins",), "_time": ("SequencePoint",), "_start": ("SequenceInterval",),
    "_end": ("SequenceInterval",), "_subset_list": ("SequenceInterval",), "_tier_groups": ("AlignedTextGrid",),
    "_cloned_classes": ("AlignedTextGrid",),
}


def _settle_names(modules):
    """A private attribute that goes by another name is given the name the contracts use.

    Renaming an attribute at every occurrence, to a name that the classes concerned do not use, changes nothing about the program; so
    which attribute is taken for which is a matter of precision, not of soundness."""
    classes, uses = {}, {}
    for m in modules:
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                classes.setdefault(c.name, c)
    taken = set()
    for c in classes.values():
        taken |= {f.name for f in c.body if isinstance(f, ast.FunctionDef)}
        taken |= {t.id for a in c.body if isinstance(a, ast.Assign) for t in a.targets if isinstance(t, ast.Name)}
    def private(c):
        """private attributes of self in c -> ways they are used, in order"""
        out = {}
        for n in ast.walk(c):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr.startswith("_") and not n.attr.startswith("__") \
                    and n.attr not in taken and n.value.id == "self":
                out.setdefault(n.attr, []).append(type(n.ctx).__name__)
        return out
    new = {}
    for cname in sorted({x for v in BACKING.values() for x in v}):
        if cname not in classes:
            continue
        has = private(classes[cname])
        missing = [k for k, v in BACKING.items() if cname in v and k not in has]
        spare = [u for u, ways in has.items() if u not in BACKING and "Store" in ways and u != "_seq_type"]
        if not missing or len(spare) < len(missing):
            continue
        if len(missing) > 1:           # told apart by the name they resemble
            import difflib
            spare = [max(spare, key=lambda u: difflib.SequenceMatcher(a=u, b=k).ratio()) for k in missing]
            if len(set(spare)) < len(missing):
                continue
        for k, u in zip(missing, spare):
            if new.setdefault(u, k) != k:
                new.pop(u)
    if not new:
        return
    for m in modules:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr in new:
                n.attr = new[n.attr]
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in new:
                n.value = new[n.value]


class Program:
    def __init__(self, repo=None):
        self.repo = Path(repo or REPO)
        base = self.repo / "src" / PKG
        if not base.is_dir():
            raise AnalysisBroken(f"{base} not found")
        self.modules = {}
        for p in sorted(base.rglob("*.py")):
            relp = p.relative_to(self.repo / "src")
            parts = list(relp.with_suffix("").parts)
            if parts[-1] == "__init__":
                parts = parts[:-1]
            name = ".".join(parts)
            try:
                self.modules[name] = Module(name, p, str(p.relative_to(self.repo)))
            except (SyntaxError, ValueError) as e:
                raise AnalysisBroken(f"cannot parse {p}: {e}")
        _settle_names(self.modules.values())
        for m in self.modules.values():
            self._scan(m, m.tree.body)
        self.classes = {}
        for m in self.modules.values():
            for k, v in list(m.ns.items()):
                if isinstance(v, ClassInfo) and v.module is m:
                    self.classes.setdefault(v.name, v)
        for c in list(self.classes.values()):
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                c.bases.append(r if isinstance(r, ClassInfo) else (r[1] if isinstance(r, tuple) else ast.unparse(b)))
        self.functions = []
        for m in self.modules.values():
            for v in m.ns.values():
                if isinstance(v, FuncInfo) and v.module is m:
                    self.functions.append(v)
        for c in self.classes.values():
            for v in c.own.values():
                if isinstance(v, FuncInfo):
                    self.functions.append(v)
                elif isinstance(v, Prop):
                    self.functions += [f for f in (v.getter, v.setter) if f]
        self._post_class_attrs()
        for f in list(self.functions):
            self._unwrap(f)
        # every attribute name that is read somewhere, directly or by its name
        self.loaded = set()
        for m in self.modules.values():
            for nd in ast.walk(m.tree):
                if isinstance(nd, ast.Attribute) and not isinstance(nd.ctx, ast.Store):
                    self.loaded.add(nd.attr)
                elif isinstance(nd, ast.Constant) and isinstance(nd.value, str):
                    self.loaded.add(nd.value)
        self.by_method = {}
        for c in self.classes.values():
            for k, v in c.own.items():
                self.by_method.setdefault(k, []).append((c, v))

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]

    # -- scanning -----------------------------------------------------------
    def _scan(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.ns[n.name] = FuncInfo(n.name, n, m, None, "func", tuple(_decname(d) for d in n.decorator_list))
            elif isinstance(n, ast.ClassDef):
                m.ns[n.name] = self._scan_class(m, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    nm = a.asname or a.name.split(".")[0]
                    tgt = a.name if a.asname else a.name.split(".")[0]
                    m.ns[nm] = ("mod", tgt)
            elif isinstance(n, ast.ImportFrom):
                src = n.module or ""
                if n.level:
                    base = m.name.split(".") if m.is_pkg else m.name.split(".")[:-1]
                    if n.level > 1:
                        base = base[: -(n.level - 1)]
                    src = ".".join(base + ([src] if src else []))
                for a in n.names:
                    if a.name == "*":
                        m.stars.append(src)
                    else:
                        m.ns.setdefault(a.asname or a.name, ("from", src, a.name))
                        m.ns[a.asname or a.name] = ("from", src, a.name)
            elif isinstance(n, ast.If):
                self._scan(m, n.body)
                self._scan(m, n.orelse)
            elif isinstance(n, ast.Try):
                self._scan(m, n.body)
                for h in n.handlers:
                    self._scan(m, h.body)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.ns[t.id] = ("val", n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                m.ns[n.target.id] = ("val", n.value)

    def _scan_class(self, m, node):
        c = ClassInfo(node.name, node, m)
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = tuple(_decname(d) for d in n.decorator_list)
                nm = mangle(c, n.name)
                if "property" in decs or any(d.endswith("cached_property") for d in decs):
                    f = FuncInfo(n.name, n, m, c, "getter", decs)
                    c.own[nm] = Prop(f, None)
                elif any(d.endswith(".setter") for d in decs):
                    f = FuncInfo(n.name, n, m, c, "setter", decs)
                    p = c.own.get(nm)
                    if not isinstance(p, Prop):
                        p = Prop(None, None)
                    c.own[nm] = Prop(p.getter, f)
                elif any(d.endswith(".deleter") for d in decs):
                    pass
                else:
                    kind = "class" if "classmethod" in decs else "static" if "staticmethod" in decs else "method"
                    c.own[nm] = FuncInfo(n.name, n, m, c, kind, decs)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        v = n.value
                        if isinstance(v, ast.Call) and _decname(v.func) == "property":
                            def g(i, kw):
                                e = v.args[i] if len(v.args) > i else next((k.value for k in v.keywords if k.arg == kw), None)
                                if isinstance(e, ast.Lambda):
                                    return _lambda_def(t.id, e, m, c, "getter" if kw == "fget" else "setter")
                                if isinstance(e, ast.Name):
                                    f = c.own.get(mangle(c, e.id))
                                    return f if isinstance(f, FuncInfo) else None
                            c.own[t.id] = Prop(g(0, "fget"), g(1, "fset"))
                        elif isinstance(v, ast.Name) and isinstance(c.own.get(v.id), (FuncInfo, Prop)):
                            c.own[t.id] = c.own[v.id]
                        else:
                            c.own[mangle(c, t.id)] = ("val", v)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                c.own[mangle(c, n.target.id)] = ("val", n.value)
        return c

    def _unwrap(self, f):
        """replace a decorated function by what the decorator makes of it"""
        decs = [d for d in getattr(f.node, "decorator_list", []) if not wrap.plain(d, _decname(d))]
        for d in reversed(decs):
            r = self.resolve_expr(f.module, d.func if isinstance(d, ast.Call) else d)
            if not isinstance(r, FuncInfo):
                if isinstance(r, ClassInfo) and isinstance(r.lookup("__get__"), FuncInfo) and wrap.keeps_answers(r.lookup("__get__").node):
                    f.memo = r.name
                f.opaque = f"decorated by {_decname(d)}"
                return
            self._wrap(f, r, d)
            if f.opaque:
                return

    def _wrap(self, f, r, d):
        if not isinstance(d, ast.Call) and wrap.unchanged(r.node):
            return
        if wrap.keeps_answers(r.node):
            f.memo = r.name
        sh = wrap.shape(r.node)
        hidden = f"__wrapped_{f.cls.name + '_' if f.cls else ''}{f.name}_{f.kind}_{len(self.hidden)}"
        new = wrap.wrapped(f.node, sh, hidden, d) if sh else None
        simple = all(isinstance(x, ast.Constant) for x in f.node.args.defaults + [y for y in f.node.args.kw_defaults if y is not None])
        if new is None or r.module is not f.module and not simple:
            f.opaque = f"decorated by {r.name}"
            return
        inner = FuncInfo(f.name, f.node, f.module, f.cls, "static" if f.cls else "func", ())
        self.hidden.append(inner)
        r.module.ns[hidden] = inner
        f.node, f.module = new, r.module

    def _post_class_attrs(self):
        """Module-level `Class.method = ...` and `setattr(Class, "method", ...)`: treated as the class's own members."""
        self.patches, self.hidden = [], []
        order = sorted(self.modules.values(), key=lambda m: (m.is_pkg, m.name))
        for m in order:
            for n in m.tree.body:
                for c, attr, v in self._patch(m, n, {}):
                    self.patches.append((m, n))
                    f = None
                    if isinstance(v, ast.Lambda):
                        f = _lambda_def(attr, v, m, c, "method")
                        self.functions.append(f)
                    elif isinstance(v, ast.Call) and _decname(v.func) in ("property", "classmethod", "staticmethod"):
                        g = [self.resolve_expr(m, a) if isinstance(a, ast.Name) else
                             _lambda_def(attr, a, m, c, "method") if isinstance(a, ast.Lambda) else None for a in v.args]
                        g = [FuncInfo(x.name, x.node, x.module, c, {"property": "getter", "classmethod": "class"}.get(_decname(v.func), "static"))
                             if isinstance(x, FuncInfo) else None for x in g]
                        if _decname(v.func) == "property" and g and g[0] is not None:
                            c.own[attr] = Prop(g[0], g[1] if len(g) > 1 else None)
                            self.functions += [x for x in g if x is not None]
                            continue
                        f = g[0] if g else None
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and len(v.args) == 1:
                        r, old = self.resolve_expr(m, v.func), self._member_of(m, v.args[0], c)
                        if isinstance(r, FuncInfo) and isinstance(old, FuncInfo):
                            f = FuncInfo(old.name, old.node, old.module, c, old.kind, old.decorators)
                            self._wrap(f, r, v.func)
                            f = f if not f.opaque else None
                    elif isinstance(v, ast.Name):
                        r = self.resolve_expr(m, v)
                        if isinstance(r, FuncInfo):
                            f = FuncInfo(r.name, r.node, r.module, c, "method", r.decorators)
                    elif isinstance(v, ast.Attribute):
                        r = self._member_of(m, v, c)
                        if isinstance(r, (FuncInfo, Prop)):
                            c.own[attr] = r
                            continue
                    if f is not None:
                        c.own[attr] = f
                    elif isinstance(c.lookup(attr), FuncInfo):
                        old = c.lookup(attr)
                        f = FuncInfo(old.name, old.node, old.module, c, old.kind, old.decorators)
                        f.opaque = f"replaced at {m.rel}:{n.lineno}"
                        c.own[attr] = f
                    elif isinstance(c.lookup(attr), Prop):
                        g = c.lookup(attr).getter
                        f = FuncInfo(g.name, g.node, g.module, c, g.kind, g.decorators)
                        f.opaque = f"replaced at {m.rel}:{n.lineno}"
                        c.own[attr] = Prop(f, f)

    def _member_of(self, m, e, c):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            k = self.lookup(m, e.value.id)
            if isinstance(k, ClassInfo):
                return k.lookup(e.attr)
        return self.resolve_expr(m, e)

    def _patch(self, m, n, env):
        """(class, attribute, value) of the class members a module's own statement sets"""
        def cls_of(e):
            if isinstance(e, ast.Name):
                if e.id in env:
                    return env[e.id]
                k = self.lookup(m, e.id)
                return [k] if isinstance(k, ClassInfo) else []
            return []
        if isinstance(n, (ast.If, ast.Try, ast.With)):
            for b in (n.body, getattr(n, "orelse", [])):
                for x in b:
                    yield from self._patch(m, x, env)
        elif isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.Tuple, ast.List)):
            e2 = {**env, n.target.id: [k for x in n.iter.elts for k in cls_of(x)]}
            for x in n.body:
                yield from self._patch(m, x, e2)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            for c in cls_of(n.targets[0].value):
                v = n.value
                r = self.lookup(m, v.id) if isinstance(v, ast.Name) else None
                yield from [(c, n.targets[0].attr, v)] if isinstance(v, (ast.Lambda, ast.Call, ast.Attribute)) or isinstance(r, FuncInfo) or \
                    isinstance(c.lookup(n.targets[0].attr), (FuncInfo, Prop)) else []
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "setattr" \
                and len(n.value.args) == 3 and isinstance(n.value.args[1], ast.Constant) and isinstance(n.value.args[1].value, str):
            for c in cls_of(n.value.args[0]):
                yield c, n.value.args[1].value, n.value.args[2]

    # -- resolution -----------------------------------------------------------
    def lookup(self, module, name, _seen=None):
        """Resolve a module-level name to ClassInfo | FuncInfo | ("ext",dotted) |
        ("mod",dotted) | ("val",expr,module) | None."""
        seen = _seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        v = module.ns.get(name)
        if v is None:
            for s in module.stars:
                mm = self.modules.get(s)
                if mm:
                    r = self.lookup(mm, name, seen)
                    if r is not None:
                        return r
            return None
        if isinstance(v, (ClassInfo, FuncInfo)):
            return v
        if v[0] == "mod":
            return ("mod", v[1])
        if v[0] == "from":
            src, nm = v[1], v[2]
            mm = self.modules.get(src)
            if mm:
                r = self.lookup(mm, nm, seen)
                if r is not None:
                    return r
                sub = f"{src}.{nm}"
                if sub in self.modules:
                    return ("mod", sub)
                return None
            if f"{src}.{nm}" in self.modules:
                return ("mod", f"{src}.{nm}")
            return ("ext", f"{src}.{nm}")
        if v[0] == "val":
            return ("val", v[1], module)
        return None

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            return self.lookup(module, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(module, e.value)
            return self.member(b, e.attr)
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(module, e.value)
        return None

    def member(self, b, attr):
        if isinstance(b, tuple) and b[0] == "mod":
            mm = self.modules.get(b[1])
            if mm:
                r = self.lookup(mm, attr)
                if r is not None:
                    return r
                if f"{b[1]}.{attr}" in self.modules:
                    return ("mod", f"{b[1]}.{attr}")
                return None
            return ("ext", f"{b[1]}.{attr}")
        if isinstance(b, tuple) and b[0] == "ext":
            return ("ext", f"{b[1]}.{attr}")
        return None

    # -- helpers ------------------------------------------------------------
    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken(f"class {name} not found in {self.repo}/src/{PKG}")
        return c

    def method(self, cname, mname, what="method"):
        c = self.cls(cname)
        v = c.lookup(mname)
        if v is None:
            raise AnalysisBroken(f"{cname}.{mname} not found")
        if what == "getter":
            if not isinstance(v, Prop) or v.getter is None:
                raise AnalysisBroken(f"{cname}.{mname} is not a readable property")
            return v.getter
        if what == "setter":
            if not isinstance(v, Prop) or v.setter is None:
                raise AnalysisBroken(f"{cname}.{mname} is not a settable property")
            return v.setter
        if not isinstance(v, FuncInfo):
            raise AnalysisBroken(f"{cname}.{mname} is not a function")
        return v

    def func(self, modname, fname):
        m = self.modules.get(modname)
        v = self.lookup(m, fname) if m else None
        if not isinstance(v, FuncInfo):
            raise AnalysisBroken(f"function {modname}.{fname} not found")
        return v

    def subclasses(self, cname):
        c = self.cls(cname)
        return [k for k in self.classes.values() if k.is_sub(c)]
