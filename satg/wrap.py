"""Decorators and module-level patches, made part of the functions they change.

A function that is wrapped by a decorator of the package is replaced by the wrapper's body, in which the wrapped function goes by a
private name; what cannot be resolved that way marks the function as opaque, so that it decides nothing."""
from __future__ import annotations
import ast, copy

PLAIN = {"property", "classmethod", "staticmethod", "setter", "getter", "deleter", "abstractmethod", "wraps", "cache", "lru_cache",
         "cached_property", "override", "overload", "final", "contextmanager", "spec", "no_type_check", "deprecated", "beartype", "typechecked"}
MEMO_NAMES = {}


def plain(d, dotted):
    return dotted.split(".")[-1] in PLAIN


def strip_doc(body):
    return [s for s in body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str))]


def shape(D):
    """decorator function -> (own parameter names, name of the wrapped function's parameter, statements before, inner def) or None"""
    def one(node):
        body = strip_doc(node.body)
        inner = [s for s in body if isinstance(s, ast.FunctionDef)]
        if len(inner) != 1 or not body or not isinstance(body[-1], ast.Return):
            return None
        r = body[-1].value
        if isinstance(r, ast.Call) and isinstance(r.func, ast.Call) and isinstance(r.func.func, (ast.Name, ast.Attribute)) and \
                (r.func.func.id if isinstance(r.func.func, ast.Name) else r.func.func.attr) == "wraps" and len(r.args) == 1:
            r = r.args[0]
        if not (isinstance(r, ast.Name) and r.id == inner[0].name):
            return None
        keep = [s for s in body[:-1] if s is not inner[0] and not (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute)
                and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == inner[0].name)
                and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and "update_wrapper" in ast.unparse(s.value.func))]
        return inner[0], keep
    r = one(D)
    if r is None:
        return None
    inner, pre = r
    params = [x.arg for x in D.args.posonlyargs + D.args.args + D.args.kwonlyargs]
    deeper = one(inner)
    if deeper is not None and len(inner.args.args) == 1 and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == inner.args.args[0].arg
                                                                for x in ast.walk(deeper[0])):
        return params, inner.args.args[0].arg, pre + deeper[1], deeper[0], D
    if len(params) != 1:
        return None
    return [], params[0], pre, inner, D


def unchanged(D):
    """a decorator that gives back the function it got"""
    body = strip_doc(D.body)
    if not body or not isinstance(body[-1], ast.Return) or len(D.args.args) != 1:
        return False
    p = D.args.args[0].arg
    stores = {x.id for x in ast.walk(D) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return isinstance(body[-1].value, ast.Name) and body[-1].value.id == p and p not in stores and \
        not any(isinstance(x, (ast.Return, ast.If, ast.Try)) for x in body[:-1])


class Rename(ast.NodeTransformer):
    def __init__(self, old, new, star=None, kwname=None, pos=(), kwo=()):
        self.old, self.new, self.star, self.kwname, self.pos, self.kwo = old, new, star, kwname, pos, kwo
        self.left = False

    def visit_Name(self, n):
        if n.id == self.old:
            return ast.copy_location(ast.Name(self.new, n.ctx), n)
        if n.id in (self.star, self.kwname) and n.id:
            self.left = True
        return n

    def visit_Call(self, n):
        args, kws = [], []
        for a in n.args:
            if isinstance(a, ast.Starred) and isinstance(a.value, ast.Name) and a.value.id == self.star and self.star:
                args += [ast.Name(p, ast.Load()) for p in self.pos]
            else:
                args.append(self.visit(a))
        for k in n.keywords:
            if k.arg is None and isinstance(k.value, ast.Name) and k.value.id == self.kwname and self.kwname:
                kws += [ast.keyword(p, ast.Name(p, ast.Load())) for p in self.kwo]
            else:
                kws.append(ast.keyword(k.arg, self.visit(k.value)))
        return ast.fix_missing_locations(ast.copy_location(ast.Call(self.visit(n.func), args, kws), n))


def wrapped(node, sh, hidden, call):
    """the FunctionDef that stands for `node` wrapped by the decorator of this shape, or None"""
    params, fn, pre, inner, D = sh
    if any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(inner)):
        return None
    a, o = inner.args, node.args
    if o.vararg or o.kwarg:
        if ast.dump(a) != ast.dump(o):
            return None
    given = []
    if params:
        if not isinstance(call, ast.Call) or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return None
        vals = dict(zip(params, call.args))
        vals.update({k.arg: k.value for k in call.keywords})
        dpos = D.args.posonlyargs + D.args.args
        for x, d in list(zip(dpos[len(dpos) - len(D.args.defaults):], D.args.defaults)) + [(x, d) for x, d in zip(D.args.kwonlyargs, D.args.kw_defaults) if d]:
            vals.setdefault(x.arg, d)
        if set(vals) != set(params):
            return None
        given = [ast.Assign([ast.Name(p, ast.Store())], v) for p, v in vals.items()]
    inner = copy.deepcopy(inner)
    opos = [x.arg for x in o.posonlyargs + o.args]
    okw = [x.arg for x in o.kwonlyargs]
    ipos = [x.arg for x in inner.args.posonlyargs + inner.args.args]
    if inner.args.vararg and inner.args.kwarg or inner.args.vararg and not okw:
        if inner.args.kwonlyargs or len(ipos) > len(opos):
            return None
        ren = dict(zip(opos, ipos))                 # the wrapper's names for the leading parameters
        args = copy.deepcopy(o)
        for x in args.posonlyargs + args.args:
            x.arg = ren.get(x.arg, x.arg)
        rest = opos[len(ipos):]
        used = {x.id for x in ast.walk(inner) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(inner) if isinstance(x, ast.arg)}
        star, kwname = inner.args.vararg.arg, inner.args.kwarg.arg if inner.args.kwarg else None
        if (set(rest) | set(okw)) & (used - {star, kwname}):
            return None
        rn = Rename(fn, hidden, star, kwname, rest, okw)
        body = [rn.visit(s) for s in inner.body]
        if rn.left:
            tail = [ast.Assign([ast.Name(star, ast.Store())], ast.Tuple([ast.Name(p, ast.Load()) for p in rest], ast.Load()))]
            if kwname:
                tail.append(ast.Assign([ast.Name(kwname, ast.Store())], ast.Dict([], [])))
            body = tail + body
    elif inner.args.vararg or inner.args.kwarg:
        if ast.dump(a) != ast.dump(o):
            return None
        args = inner.args
        rn = Rename(fn, hidden)
        body = [rn.visit(s) for s in inner.body]
    else:
        if len(ipos) != len(opos) or [x.arg for x in inner.args.kwonlyargs] != okw:
            return None
        args = inner.args
        rn = Rename(fn, hidden)
        body = [rn.visit(s) for s in inner.body]
    rn = Rename(fn, hidden)
    pre = [rn.visit(copy.deepcopy(s)) for s in pre]
    new = ast.FunctionDef(node.name, args, given + pre + body, [], None, lineno=node.lineno, col_offset=node.col_offset)
    return ast.fix_missing_locations(new)


def keeps_answers(D):
    """a decorator that stores into a container made when decorating, or into the instance's dictionary: it remembers results"""
    made = {t.id for s in ast.walk(D) if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Dict, ast.List, ast.Call, ast.Set))
            for t in s.targets if isinstance(t, ast.Name)}
    nested = {x.name for x in ast.walk(D) if isinstance(x, ast.FunctionDef)} | {a.arg for a in D.args.args}
    for x in ast.walk(D):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
            v = x.value
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id in nested:
                return True
            if isinstance(v, ast.Name) and v.id in made or isinstance(v, ast.Attribute) and v.attr == "__dict__":
                return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "setdefault":
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and D.name != "__set__":
            return True
    return False
