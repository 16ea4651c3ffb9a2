"""Attributes: canonical fields, property inlining, class tests."""
from __future__ import annotations
import ast
from .terms import *
from .sem import *
from .interp_base import *
from .program import FuncInfo, Prop, ClassInfo

# properties kept as plain fields by callers (their accessors are checked on their own)
OPAQUE_PROPS = {("group", "name"): ("name", "_name")}
# fields created lazily by their accessor; a missing one reads as the default
LAZY = {"within", "contains", "tier_groups"}
SEQ_DYN = {"fol", "prev", "super_instance", "intier", "tiername", "label", "pointspool", "ranges_tier", "range_interval",
           "turning_point", "entry_list", "tier_list", "_name", "_cloned_classes", "Levels", "Ranges", "TurningPoints"}


def trivial_getter(f):
    """return self._x   ->  '_x' (also the 'default when unset' idiom)"""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    me = f.node.args.args[0].arg if f.node.args.args else None

    def own(e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me:
            return e.attr
    if len(body) == 1 and isinstance(body[0], ast.Return):
        return own(body[0].value)
    return None


class AttrMixin:
    def cinfo(self, ty):
        cs = classes_of(ty)
        return [self.prog.classes[c] for c in cs if c in self.prog.classes]

    def mangle(self, attr, fr):
        c = fr.cls
        if c is not None and attr.startswith("__") and not attr.endswith("__"):
            return f"_{c.name.lstrip('_')}{attr}"
        return attr

    def alias(self, cls, name):
        """canonical field for a backing attribute: _x -> x when x is a property"""
        if name.startswith("_") and not name.startswith("__") and name != "_name":
            v = cls.lookup(name[1:])
            if isinstance(v, Prop) and v.getter is not None:
                return name[1:]
        return name

    def raw_get(self, o, f, st):
        v = st.heap.get((o, f))
        if v is not None:
            return v
        if o.k == "ite":
            return ITE(o.a[0], self.raw_get(o.a[1], f, st), self.raw_get(o.a[2], f, st))
        if o.k == "new" and tyof(o) and f not in ("subset_list", "contains", "sequence_list"):
            r = self.new_field(o, f, st)
            if r is not None:
                return r
        return ATTR(o, f, ver_of(st.ver, o, f))

    def new_field(self, o, f, st):
        """fields of a freshly built interval or point are its constructor arguments"""
        if ver_of(st.ver, o, f):
            return None
        k = kind_of(classes_of(tyof(o))[0]) if classes_of(tyof(o)) else None
        if k != "seq" or len(o.a[1]) != 1:
            return None
        src = o.a[1][0]
        names = ("time", "label") if is_sub(classes_of(tyof(o))[0], "SequencePoint") else ("start", "end", "label")
        if f not in names:
            return None
        i = names.index(f)
        if src.k == "seq" and i < len(src.a[0]):
            return src.a[0][i]
        if classes_of(tyof(src)) and kind_of(classes_of(tyof(src))[0]) == "seq":
            return self.raw_get(src, f, st)
        return None

    def get_attr(self, o, name, st, fr):
        if name == "__class__":
            return TYPEOF(o)
        if o.k == "ite" and o.a[1].k != "lref" and o.a[2].k != "lref" and (o, name) not in st.heap:
            a, b = o.a[1], o.a[2]
            if a is NONE:
                return self.get_attr(b, name, st, fr)
            if b is NONE:
                return self.get_attr(a, name, st, fr)
            if tyof(a) != tyof(b) or "ext" in (a.k, b.k):
                return ITE(o.a[0], self.get_attr(a, name, st, fr), self.get_attr(b, name, st, fr))
        if o.k == "ext":
            return mk("ext", self.canon(o.a[0] + "." + name))
        if o.k == "mod":
            r = self.prog.member(("mod", o.a[0]), name)
            return self.resolved(r, st, fr)
        if o.k == "cls" or tyof(o).startswith("cls") or o.k in ("newcls", "typeof"):
            return self.class_attr(o, name, st, fr)
        if o.k == "call" and o.a[0] in ("praatio.Interval", "praatio.Point"):
            names = ("start", "end", "label") if o.a[0].endswith("Interval") else ("time", "label")
            if name in names:
                i = names.index(name)
                args = o.a[1:]
                if len(args) == 1 and args[0].k == "star":
                    return ELT(args[0].a[0], num(i))
                if i < len(args):
                    return args[i]
        ty = tyof(o)
        if ty.startswith("SL") or o.k in ("slist", "sladd") or (o.k == "lref" and self.content(o, st).k in ("slist", "sladd")):
            return self.sl_attr(o, name, st, fr)
        cs = self.cinfo(ty)
        if cs:
            return self.obj_attr(o, name, cs, st, fr)
        return self.ext_attr(o, name, st, fr)

    def sl_attr(self, o, name, st, fr):
        if name == "_values":
            return mk("vals", o)
        if name == "entry_class":
            return self.raw_get(o, name, st) if o.k not in ("lref",) else ATTR(self.val(o, st), name, 0)
        ci = self.prog.classes.get("SequenceList")
        v = ci.lookup(name) if ci else None
        if isinstance(v, Prop) and v.getter:
            return self.inline(v.getter, [o], {}, st, fr)
        if isinstance(v, FuncInfo):
            return mk("bound", o, name)
        if name in ("index", "count"):
            return mk("bound", o, name)
        self.unknown(fr, None, f"SequenceList.{name}")
        return ATTR(self.val(o, st), name, 0)

    def obj_attr(self, o, name, cs, st, fr):
        kind = kind_of(cs[0].name)
        hit = st.heap.get((o, name))
        looks = []
        for c in cs:
            v = c.lookup(name)
            looks.append((c, v))
        ids = {id(v) for _, v in looks}
        if len(ids) > 1:
            # same canonical field on every alternative?
            rs = [self.attr_on(o, name, c, v, st.copy(), fr) for c, v in looks]
            if all(r is rs[0] for r in rs):
                return rs[0]
            return self.per_class(o, looks, lambda c, v: self.attr_on(o, name, c, v, st, fr))
        return self.attr_on(o, name, looks[0][0], looks[0][1], st, fr)

    def per_class(self, o, looks, f):
        out = None
        for c, v in reversed(looks):
            r = f(c, v)
            out = r if out is None else ITE(self.inst(o, mk("cls", c.name)), r, out)
        return out

    def attr_on(self, o, name, c, v, st, fr):
        kind = kind_of(c.name)
        if (kind, name) in OPAQUE_PROPS and isinstance(v, Prop) and not self.in_accessor(name):
            return ATTR(o, name, ver_of(st.ver, o, OPAQUE_PROPS[(kind, name)][1]))
        if isinstance(v, Prop):
            if v.getter is None:
                return mk("unk", "attr", name)
            if self.in_getter_of(v, o):
                return self.raw_get(o, name, st)
            if name in LAZY:
                return self.raw_get(o, name, st)
            if name in ("first", "last"):
                l = "subset_list" if kind == "seq" else "sequence_list"
                if kind in ("seq", "tier") and not self.in_accessor(name):
                    s = self.get_attr(o, l, st, fr) if any(c.lookup(l) for _ in (1,)) else None
                    if s is not None:
                        s = self.val(self.content(s, st), st)
                        return ELT(s, ZERO if name == "first" else num(-1))
            t = trivial_getter(v.getter)
            if t is not None and self.alias(c, self.mangle_in(t, v.getter)) == name:
                return self.raw_get(o, name, st)
            return self.inline(v.getter, [o], {}, st, fr)
        if isinstance(v, FuncInfo):
            return mk("bound", o, name)
        if name == "_seq_type":
            return mk("cls", "SequencePoint" if is_sub(c.name, "SequencePoint") or c.name in ("SequencePointTier", "PointsGroup") else "SequenceInterval")
        f = self.alias(c, name)
        if f in CLSFIELDS and kind == "seq":
            return ATTR(TYPEOF(o), f, ver_of(st.ver, TYPEOF(o), f))
        if isinstance(v, tuple) and v[0] == "val" and not field_type(c.name, f) and (o, f) not in st.heap:
            return self.const_expr(v[1], c.module, st, fr)
        if name == "__dict__":
            return mk("attr", o, "__dict__", 0)
        return self.raw_get(o, f, st)

    def mangle_in(self, name, fi):
        c = fi.cls
        if c is not None and name.startswith("__") and not name.endswith("__"):
            return f"_{c.name.lstrip('_')}{name}"
        return name

    def in_getter_of(self, prop, o):
        return any(f is prop.getter for f in self.stack)

    def in_accessor(self, name):
        return bool(self.stack) and self.stack[-1].kind in ("getter", "setter") and self.stack[-1].name == name

    def class_attr(self, o, name, st, fr):
        if name == "__name__":
            if o.k == "cls":
                return mk("str", o.a[0])
            if o.k == "newcls":
                return o.a[0]
            return mk("attr", o, "__name__", 0)
        if name == "__dict__":
            return mk("attr", o, "__dict__", 0)
        if name in CLSFIELDS:
            v = st.heap.get((o, name))
            if v is not None:
                return v
            return ATTR(o, name, ver_of(st.ver, o, name))
        if name == "_seq_type":
            v = st.heap.get((o, name))
            if v is not None:
                return v
            cs = self.cinfo(tyof(o)[4:])
            if cs and len(cs) == 1:
                return mk("cls", "SequencePoint" if is_sub(cs[0].name, "SequencePoint") else "SequenceInterval")
            return ATTR(o, "_seq_type", 0)
        if o.k == "cls":
            c = self.prog.classes.get(o.a[0])
            v = c.lookup(name) if c else None
            if isinstance(v, FuncInfo):
                return mk("bound", o, name)
            if isinstance(v, tuple) and v[0] == "val":
                return self.const_expr(v[1], c.module, st, fr)
        if (o, name) in st.heap:
            return st.heap[(o, name)]
        return mk("bound", o, name)

    def const_expr(self, e, module, st, fr):
        f2 = Frame(FuncInfo("<class body>", e, module), module, None)
        s2 = State()
        s2.cont, s2.ver = st.cont, st.ver
        return self.ev(e, s2, f2)

    def ext_attr(self, o, name, st, fr):
        c = self.content(o, st) if o.k in ("lref", "attr") else o
        if name in ("append", "extend", "insert", "pop", "remove", "reverse", "sort", "clear", "index", "count", "copy",
                    "join", "split", "items", "keys", "values", "get", "add", "update", "format", "startswith", "endswith"):
            return mk("bound", o, name)
        if name in ("size",):
            v = self.val(c, st)
            if v.k == "arr" or v.k == "call" and v.a[0] == "numpy.argwhere" and v.a[1].k == "comp":
                return LEN(v)
            return mk("call", "size", v)
        if (o, name) in st.heap:
            return st.heap[(o, name)]
        if o.k == "ite":
            return ITE(o.a[0], self.get_attr(o.a[1], name, st, fr), self.get_attr(o.a[2], name, st, fr))
        return ATTR(self.val(c, st), name, 0 if not self.repo_field(name) else ver_of(st.ver, c, self.deref(name)))

    def repo_field(self, name):
        return self.deref(name) in ALL

    def deref(self, name):
        return name[1:] if name.startswith("_") and name != "_name" and name[1:] in ALL else name

    # ---- writing ----------------------------------------------------------------
    def set_attr(self, o, name, v, st, fr):
        if st.pc is FALSE:
            return
        if o.k == "ite":
            a, b = o.a[1], o.a[2]
            self.branch(o.a[0], lambda s: self.set_attr(a, name, v, s, fr), lambda s: self.set_attr(b, name, v, s, fr), st)
            return
        ty = tyof(o)
        if o.k == "vals":
            o = o.a[0]
        if ty.startswith("SL") or o.k in ("slist", "sladd"):
            if name == "_values":
                self.list_set(o, copy_of(self.val(v, st)) if self.val(v, st).k not in ("slist", "sladd") else self.val(v, st), st, fr)
                return
            self.write(o, name, v, st, fr)
            return
        if o.k in ("cls", "typeof", "newcls") or ty.startswith("cls"):
            self.write(o, name, v, st, fr)
            return
        cs = self.cinfo(ty)
        if not cs:
            self.write(o, name, v, st, fr)
            return
        looks = [(c, c.lookup(name)) for c in cs]
        if len({id(v0) for _, v0 in looks}) > 1:
            fs = {self.alias(c, name) for c, v0 in looks}
            if all(not isinstance(v0, Prop) or self.triv_setter(c, v0, name) for c, v0 in looks) and len(fs) == 1:
                self.write(o, fs.pop(), v, st, fr)
                return
            rest = looks
            def go(i, s):
                if i == len(rest) - 1:
                    self.set_on(o, name, rest[i][0], rest[i][1], v, s, fr)
                    return
                self.branch(self.inst(o, mk("cls", rest[i][0].name)),
                            lambda x: self.set_on(o, name, rest[i][0], rest[i][1], v, x, fr), lambda x: go(i + 1, x), s)
            go(0, st)
            return
        self.set_on(o, name, looks[0][0], looks[0][1], v, st, fr)

    def triv_setter(self, c, p, name):
        """setter body is exactly self._x = value"""
        if p.setter is None:
            return False
        body = [s for s in p.setter.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) != 1 or not isinstance(body[0], ast.Assign) or len(body[0].targets) != 1:
            return False
        t, ar = body[0].targets[0], p.setter.node.args.args
        return (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and len(ar) == 2 and t.value.id == ar[0].arg
                and self.alias(c, self.mangle_in(t.attr, p.setter)) == name
                and isinstance(body[0].value, ast.Name) and body[0].value.id == ar[1].arg)

    def set_on(self, o, name, c, p, v, st, fr):
        kind = kind_of(c.name)
        if (kind, name + "=") in self.bound and isinstance(p, Prop):
            mods, _ = self.bound[(kind, name + "=")]
            self.emit(f"{kind}.{name}=", (o, self.val(v, st)), st, fr, mods)
            return
        if isinstance(p, Prop):
            if p.setter is None:
                self.emit("raise", ("AttributeError",), st, fr, frozenset())
                return
            if any(f is p.setter for f in self.stack) and self.alias(c, name) == name:
                self.write(o, name, v, st, fr)
                return
            self.inline(p.setter, [o, v], {}, st, fr)
            return
        self.write(o, self.alias(c, name), v, st, fr)

    def unread(self, f):
        """a private attribute that no code of the package reads"""
        if not f.startswith("_") or f.endswith("__") or f in ALL or f[1:] in ALL:
            return False
        return f not in self.prog.loaded and "__" + f.split("__", 1)[-1] not in self.prog.loaded

    def write(self, o, f, v, st, fr):
        if st.pc is FALSE:
            return
        if f in CLSFIELDS and tyof(o) and not tyof(o).startswith("cls") and kind_of((classes_of(tyof(o)) or [""])[0]) == "seq":
            o = TYPEOF(o)
        ov = self.val(o, st)
        vv = self.val(v, st)
        if v.k == "slist" and f == "sequence_list":
            v = self.new_list(v, st)
        k = fkind(o)
        if not self.unread(f):
            self.emit("write", (ov, f, vv), st, fr, frozenset({f"{f}:{k}" if k else f}))
        if v.k == "lref" and not (f == "contains" and v in st.esc):
            st.esc[v] = (ov, f)
        st.heap[(o, f)] = v
        if ov is not o:
            st.heap[(ov, f)] = v
        if f in ("subset_list", "sequence_list", "tier_list", "contains"):
            # a new list object: its content version starts afresh
            if v.k != "lref":
                pass

    # ---- class tests ---------------------------------------------------------------
    def nullable(self, o):
        return ISNONE(o)

    def inst(self, o, k):
        """isinstance(o, k) as a formula"""
        if o.k == "ite":
            return bite(o.a[0], self.inst(o.a[1], k), self.inst(o.a[2], k))
        if k.k == "seq":
            return OR(*[self.inst(o, x) for x in k.a[0]])
        if k.k == "op" and k.a[0] == "|":
            return OR(self.inst(o, k.a[1]), self.inst(o, k.a[2]))
        if o is NONE:
            return FALSE
        if k.k == "ite":
            return bite(k.a[0], self.inst(o, k.a[1]), self.inst(o, k.a[2]))
        if o.k == "new" and o.a[0].k not in ("cls",):
            return self.subc(o.a[0], k)
        if k.k == "cls":
            ty = tyof(o)
            cs = classes_of(ty)
            if cs and all(c in self.prog.classes for c in cs):
                kc = self.prog.classes.get(k.a[0])
                yes = [self.prog.classes[c].is_sub(kc) for c in cs]
                if all(yes):
                    return NOT(ISNONE(o))
                may = [any(s.is_sub(kc) for s in self.prog.subclasses(c)) for c in cs]
                if not any(may):
                    return FALSE
                if any(yes) and not any(m and not y for m, y in zip(may, yes)):
                    # exactly the alternatives below k: name the test by the base of its family
                    no = [c for c, y in zip(cs, yes) if not y]
                    return AND(NOT(ISNONE(o)), self.family_atom(o, cs, yes, k))
                return atom(mk("inst", o, k))
            if ty and (ty.startswith(("SL", "list", "arr", "cls")) or ty in ("str", "int", "num", "bool")):
                if k.a[0] == "SequenceList" and ty.startswith("SL"):
                    return TRUE
                return FALSE
            if ty.startswith("praatio"):
                return FALSE
            if o.k in ("seq", "comp", "cat", "slist", "str", "int"):
                return TRUE if o.k == "slist" and k.a[0] == "SequenceList" else FALSE
        if k.k == "ext":
            n = k.a[0]
            ty = tyof(o)
            if n.startswith("builtins."):
                r = None
                if ty:
                    if n[9:] == "str":
                        r = TRUE if ty == "str" else (FALSE if ty not in ("",) else None)
                    elif n[9:] == "list" and (ty.startswith("list")):
                        r = TRUE
                    elif n[9:] in ("int", "float") and (classes_of(ty) and cs_known(self, ty) or ty.startswith(("list", "SL", "cls"))):
                        r = FALSE
                    elif n[9:] in ("list", "tuple", "dict") and ty.startswith("cls"):
                        r = FALSE
                    elif n[9:] == "tuple" and ty.startswith("list") and o.k in ("comp", "cat", "p", "elt"):
                        r = FALSE
                    elif n[9:] in ("list", "tuple", "dict", "int", "float") and classes_of(ty) and cs_known(self, ty):
                        r = FALSE
                if r is not None:
                    return r
            if n.endswith("Sequence") and (ty.startswith(("SL", "list")) or ty == "str"):
                return TRUE
            if n.endswith("Sequence") and (ty.startswith(("praatio", "cls", "arr")) or ty in ("int", "num", "bool")):
                return FALSE
            if n.startswith("pathlib") and ty:
                return FALSE
            cs = self.cinfo(ty)
            if n.startswith("praatio"):
                if cs or ty.startswith(("SL", "list", "arr", "cls")) or ty in ("str", "int", "num", "bool"):
                    return FALSE
                if ty.startswith("praatio"):
                    return TRUE if ty == n else FALSE
            if n.endswith("Sequence") and cs:
                if all(any(isinstance(b, str) and b.endswith("Sequence") for b in c.mro) for c in cs):
                    return NOT(ISNONE(o))
        return atom(mk("inst", o, k))

    def family_atom(self, o, cs, yes, k):
        """canonical test separating the alternatives of a declared union type"""
        names = sorted(c for c, y in zip(cs, yes) if y)
        rep = sorted(cs)[0]
        if rep in names:
            others = [c for c in names if c != rep]
            if not others:
                return atom(mk("inst", o, mk("cls", rep)))
        no = sorted(c for c, y in zip(cs, yes) if not y)
        if len(no) == 1 and no[0] == rep:
            return NOT(atom(mk("inst", o, mk("cls", rep))))
        return atom(mk("inst", o, k))

    def subc(self, c, k):
        if c.k == "ite":
            return bite(c.a[0], self.subc(c.a[1], k), self.subc(c.a[2], k))
        if k.k == "seq":
            return OR(*[self.subc(c, x) for x in k.a[0]])
        if k.k == "ite":
            return bite(k.a[0], self.subc(c, k.a[1]), self.subc(c, k.a[2]))
        if c is k:
            return TRUE
        if c.k == "typeof":
            return self.inst(c.a[0], k)
        if k.k == "cls":
            kc = self.prog.classes.get(k.a[0])
            ty = tyof(c)
            names = [x for x in ty[4:].split("|")] if ty.startswith("cls:") else []
            if names and kc and all(n in self.prog.classes for n in names):
                yes = [self.prog.classes[n].is_sub(kc) for n in names]
                if all(yes):
                    return TRUE
                may = [any(s.is_sub(kc) for s in self.prog.subclasses(n)) for n in names]
                if not any(may):
                    return FALSE
                if not any(m and not y for m, y in zip(may, yes)) and len(names) > 1:
                    rep = sorted(names)[0]
                    yn = sorted(n for n, y in zip(names, yes) if y)
                    nn = sorted(n for n, y in zip(names, yes) if not y)
                    if yn == [rep]:
                        return atom(mk("sub", c, mk("cls", rep)))
                    if nn == [rep]:
                        return NOT(atom(mk("sub", c, mk("cls", rep))))
        return atom(mk("sub", c, k))

    def has(self, o, name):
        """hasattr(o, name) as a formula"""
        if o.k == "ite":
            return bite(o.a[0], self.has(o.a[1], name), self.has(o.a[2], name))
        if o is NONE:
            return FALSE
        cs = self.cinfo(tyof(o))
        if cs:
            def h(c):
                if c.lookup(name) is not None:
                    return True
                f = self.alias(c, name)
                return field_type(c.name, f) is not None or (f in SEQ_DYN and f in own_fields(c))
            yes = [h(c) for c in cs]
            if all(yes):
                return NOT(ISNONE(o))
            if not any(yes):
                # attributes only subclasses or dynamic code define stay open
                if any(name in own_fields(s) or s.lookup(name) is not None for c in cs for s in self.prog.subclasses(c.name)):
                    return atom(mk("has", o, name))
                return FALSE
            return AND(NOT(ISNONE(o)), self.family_atom(o, [c.name for c in cs], yes, mk("cls", cs[yes.index(True)].name)))
        ty = tyof(o)
        if ty.startswith("praatio."):
            yes = [name in FIELDS.get(c, ()) for c in classes_of(ty)]
            if all(yes):
                return TRUE
            if not any(yes):
                return FALSE
        if ty.startswith(("list", "arr")) or ty in ("int", "num", "str", "bool") or o.k in ("seq", "comp", "cat"):
            return FALSE
        if ty.startswith("SL"):
            c = self.prog.classes["SequenceList"]
            return TRUE if c.lookup(name) or name == "entry_class" else FALSE
        if ty.startswith("cls:"):
            cs = [self.prog.classes[n] for n in ty[4:].split("|") if n in self.prog.classes]
            yes = [c.lookup(name) is not None for c in cs]
            if cs and all(yes):
                return TRUE
            if cs and not any(yes):
                return FALSE
        return atom(mk("has", o, name))


_own: dict = {}


def own_fields(c):
    """attributes assigned on self anywhere in the class or its bases"""
    r = _own.get(c)
    if r is None:
        r = set()
        for k in c.mro:
            if isinstance(k, str):
                continue
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    r.add(n.attr)
        _own[c] = r
    return r


def cs_known(self, ty):
    return all(c in self.prog.classes for c in classes_of(ty))
