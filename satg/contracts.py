"""Contracts: /verif/specs/*.py are parsed (never imported) and evaluated by the same evaluator."""
from __future__ import annotations
import ast, copy, signal
from pathlib import Path
from .terms import *
from .terms import _subs as subterms
from .sem import *
from .interp_base import *
from .interp import Interp
from .program import Program, Module, FuncInfo, Prop, ClassInfo, AnalysisBroken, _decname
from .norm import Norm
from .compare import *

SPECS = Path(__file__).resolve().parent.parent / "specs"

DEFAULT_TYPES = {}


class Contract:
    def __init__(self, node, mod, target, props, opts, ptypes, recv=None):
        self.node, self.mod, self.target, self.props, self.opts = node, mod, target, props, opts
        self.ptypes, self.recv = ptypes, recv

    @property
    def name(self):
        return self.target


class Result:
    def __init__(self, contract, impl, target):
        self.contract, self.impl, self.target = contract, impl, target
        self.verdict, self.diffs, self.reason = "HOLDS", [], ""
        self.neffects = self.npaths = 0


def explains(u, d):
    """could the difference d be the other half of the unmodelled difference u?"""
    if u.key == d.key or "ret" in (u.kind, d.kind) and u.kind == d.kind:
        return not getattr(u, "foreign", False)
    return d.kind == "missing" and u.kind == "extra" and not getattr(u, "foreign", False) and u.key.split(":")[0] == d.key.split(":")[0]


def loop_shapes(n):
    """the kinds of variables the while loops of a normal form carry"""
    out, st, seen = [], [], set()
    for e in n.effects.values():
        st += [x for x in e.args if isinstance(x, T)] + [e.guard] + [b[1] for b in e.binders]
    for v, g in n.rets.items():
        st += [v, g]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "wloop":
            out.append(tuple(sorted((i.k, tyof(i)) for i, _ in x.a[0])))
        st += list(subterms(x.a))
    return sorted(out)


class Gaveup(Exception):
    pass


def guarded(secs, fn):
    """bound the time of one comparison; anything that goes wrong inside leaves the contract undecided"""
    def boom(*_):
        raise Gaveup(f"not within {secs} s")
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(secs)
    try:
        return fn(), None
    except AnalysisBroken:
        raise
    except Exception as e:
        return None, f"gave up: {type(e).__name__}: {str(e)[:200]}"
    finally:
        signal.alarm(0)


def calls_in(t, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return out
    seen.add(t)
    if t.k == "call" and isinstance(t.a[0], str):
        out.add(t.a[0])
    for x in t.a:
        if isinstance(x, T):
            calls_in(x, out, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    calls_in(y, out, seen)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            calls_in(z, out, seen)
    return out


def toplevel(m):
    """the module's own statements (what importing it does beyond defining names) as a function"""
    defs = (ast.Import, ast.ImportFrom, ast.ClassDef, ast.FunctionDef)
    body = [n for n in m.tree.body if not isinstance(n, defs) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
    body = [n for n in body if not (isinstance(n, ast.If) and all(isinstance(x, defs) for x in n.body + n.orelse))]
    names = lambda n: {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    used = set()
    for n in body:
        if not isinstance(n, (ast.Assign, ast.AnnAssign)):
            used |= names(n)
    keep = [n for n in body if not isinstance(n, (ast.Assign, ast.AnnAssign)) or
            any(not isinstance(t, ast.Name) or t.id in used for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
    node = ast.FunctionDef("<module>", ast.arguments([], [], None, [], [], None, []), keep or [ast.Pass()], [], None, lineno=1, col_offset=0)
    return FuncInfo("<module>", ast.fix_missing_locations(node), m, None, "static")


class SpecModule(Module):
    def __init__(self, path, prog):
        super().__init__("specs." + path.stem, path, f"specs/{path.name}")
        prog._scan(self, self.tree.body)
        self.stars = [self.name_star for self.name_star in prog.modules if not self.name_star.startswith("specs.")]
        self.prog = prog


def kw(call, name, default=None):
    for k in call.keywords:
        if k.arg == name:
            return ast.literal_eval(k.value)
    return default


class Book:
    """all contracts, resolved against a program"""

    def __init__(self, prog, only=None):
        self.prog = prog
        self.contracts, self.rules = [], []
        self.mods = []
        self.pres = {}
        for p in sorted(SPECS.glob("*.py")):
            m = SpecModule(p, prog)
            self.mods.append(m)
            prog.modules[m.name] = m
        for m in self.mods:
            for n in m.tree.body:
                if not isinstance(n, ast.FunctionDef):
                    continue
                for d in n.decorator_list:
                    if isinstance(d, ast.Call) and _decname(d) == "spec":
                        props = kw(d, "props", "").split()
                        opts = kw(d, "opts", "").split()
                        if any(ast.literal_eval(t).endswith(".__init__") for t in d.args):
                            opts.append("init")
                        for t in d.args:
                            self.contracts.append(Contract(n, m, ast.literal_eval(t), props, opts, None, kw(d, "recv")))
        self.targets = {c.target for c in self.contracts}
        self.expand()

    def expand(self):
        """an override in a subclass must honour the contract of what it overrides"""
        self.items = []
        for c in self.contracts:
            if "optional" in c.opts and not self.defined(c.target):
                continue
            self.items.append((c, c.target))
            if c.target.startswith(("func:", "module:")) or c.target.endswith(".__init__"):
                continue
            cn, _, mn = c.target.partition(".")
            what = mn.partition(":")[2]
            base = self.find(c.target)
            k0 = self.prog.cls(cn)
            for k in self.prog.classes.values():
                if k is k0 or not k.is_sub(k0):
                    continue
                t = f"{k.name}.{mn}"
                if t in self.targets:
                    continue
                # closest ancestor with its own contract
                near = next((a for a in k.mro if not isinstance(a, str) and f"{a.name}.{mn}" in self.targets), None)
                if near is not k0:
                    continue
                try:
                    f = self.find(t)
                except AnalysisBroken:
                    continue
                if f.node is not base.node:
                    self.items.append((c, t))

    def defined(self, target):
        """does the class, or one it inherits from inside the package, define the member?"""
        cn, _, mn = target.partition(".")
        k = self.prog.classes.get(cn)
        return k is not None and k.lookup(mn.partition(":")[0]) is not None

    def find(self, target):
        if target.startswith("func:"):
            mod, _, fn = target[5:].rpartition(".")
            for m in self.prog.modules.values():
                if (m.name == mod or m.name.endswith("." + mod)) and not m.name.startswith("specs."):
                    v = self.prog.lookup(m, fn)
                    if isinstance(v, FuncInfo):
                        return v
            raise AnalysisBroken(f"function {target[5:]} not found")
        if target.startswith("module:"):
            for m in self.prog.modules.values():
                if (m.name == target[7:] or m.name.endswith("." + target[7:])) and not m.name.startswith("specs."):
                    return toplevel(m)
            raise AnalysisBroken(f"module {target[7:]} not found")
        cn, _, mn = target.partition(".")
        mn, _, what = mn.partition(":")
        return self.prog.method(cn, mn, {"get": "getter", "set": "setter", "": "method"}[what])

    def spec_fi(self, c, impl):
        f = FuncInfo(impl.name, c.node, c.mod, impl.cls, impl.kind)
        f.standin = impl.node
        return f

    def param_terms(self, c, impl, target):
        a = c.node.args
        args = list(a.posonlyargs) + list(a.args) + ([a.vararg] if a.vararg else []) + list(a.kwonlyargs) + ([a.kwarg] if a.kwarg else [])
        cn = target.partition(".")[0] if not target.startswith(("func:", "module:")) else None
        out = []
        for i, x in enumerate(args):
            ty = ast.literal_eval(x.annotation) if x.annotation is not None else None
            if i == 0 and cn and impl.kind != "static":
                base = ty or c.recv or ("SL:SequenceInterval|SequencePoint" if cn == "SequenceList" else cn)
                t = mk("p", x.arg, ("cls:" if impl.kind == "class" else "") + base)
            else:
                ty = ty or ""
                if cn:
                    ty = ty.replace("@", cn)
                nul = ty.endswith("?")
                ty = ty.rstrip("?")
                t = NONE if ty == "none" else mk("p", x.arg, ty, True) if nul else mk("p", x.arg, ty)
            out.append((x.arg, t))
        return out

    def missing(self, t, e):
        private = t.rpartition(".")[2].startswith("_") and not t.rpartition(".")[2].startswith("__")
        if not private and "not found" in str(e):
            raise e
        return str(e)

    def one(self, I, c, t, fi, ps):
        isspec = fi.module.name.startswith("specs.")
        s = I.summarize(fi, ps, TRUE if isspec else self.pres.get((id(c), t), TRUE))
        if isspec:
            self.pres[(id(c), t)] = I.pre
        return s, Norm(s, "nolink" not in c.opts)

    def run(self, only=None, want=None, limit=60):
        """-> results; only: property id filter"""
        I = Interp(self.prog)
        todo = [(c, t) for c, t in self.items if (only is None or only in c.props)]
        if want:
            todo = [(c, t) for c, t in todo if want in t]
        specs = {}
        vocab = base_vocab()
        for c, t in self.items:
            if want and (c, t) not in todo:
                continue
            try:
                impl = self.find(t)
            except AnalysisBroken as e:
                specs[(id(c), t)] = (None, self.missing(t, e))
                continue
            ps = self.param_terms(c, impl, t)
            v, bad = guarded(limit, lambda: self.one(I, c, t, self.spec_fi(c, impl), ps))
            if bad:
                specs[(id(c), t)] = (impl, bad)
                continue
            s, n = v
            specs[(id(c), t)] = (n, impl, ps, s)
            vocab |= {x for x in norm_vocab(n) if x[0] != "k"}
        I.throwers = self.throwers(specs)
        out = []
        for c, t in todo:
            if len(specs[(id(c), t)]) == 2:
                r = Result(c, specs[(id(c), t)][0], t)
                r.verdict, r.reason = "UNDECIDED", specs[(id(c), t)][1]
                out.append(r)
                continue
            n, impl, ps, s = specs[(id(c), t)]
            r = Result(c, impl, t)
            out.append(r)
            if s.unknowns:
                r.verdict, r.reason = "SPECBAD", str(s.unknowns[:3])
                continue
            _, bad = guarded(limit, lambda: self.decide(I, r, c, t, n, impl, ps, vocab))
            if bad:
                r.verdict, r.reason = "UNDECIDED", bad
            if r.verdict == "VIOLATED":
                _, r.note = guarded(limit, lambda: self.reopen(r, c, t, impl, ps))
        for t in {r.target for r in out if "alt" in r.contract.opts}:
            alts = [r for r in out if r.target == t and "alt" in r.contract.opts]
            best = next((r for r in alts if r.verdict == "HOLDS"), None) or next((r for r in alts if r.verdict == "UNDECIDED"), None) or alts[0]
            out = [r for r in out if r not in alts or r is best]
        return out

    def throwers(self, specs):
        """boundary operation -> names of the errors it raises, itself or through the operations it uses"""
        own, uses = {}, {}
        for (cid, t), v in specs.items():
            if len(v) == 2:
                continue
            if t.startswith("func:"):
                op = t.rpartition(".")[2]
            else:
                cn, _, mn = t.partition(".")
                k = kind_of(cn)
                if k is None:
                    continue
                op = f"{k}.{mn.replace(':set', '=')}"
            from .rules import flat_effects
            for e in flat_effects(v[3].fx):
                if e.op == "raise":
                    own.setdefault(op, set()).add(e.args[0])
                else:
                    uses.setdefault(op, set()).add(e.op)
        THROWS.clear()
        for op in set(own) | set(uses):
            seen, st = set(), [op]
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st += uses.get(x, ())
            names = {n for x in seen for n in own.get(x, ())}
            if names:
                THROWS[op] = names
                if op.startswith("hier."):
                    THROWS["cls" + op[4:]] = names
        return dict(THROWS)

    def decide(self, I, r, c, t, n, impl, ps, vocab):
        si, ni = self.one(I, c, t, impl, ps)
        r.spec, r.norm = n, ni
        r.neffects, r.npaths = len(n.effects), len(n.rets)
        ds = compare(n, ni, c.opts)
        ds += self.defaults(I, c, impl, t)
        if not ds:
            if si.unknowns:
                r.verdict, r.reason = "UNDECIDED", f"not modelled: {si.unknowns[:3]}"
            return
        mine = vocab | {x for x in norm_vocab(n) if x[0] == "k"}
        bad, known, odd = [], [], []
        for d in ds:
            tk = set()
            for x in d.terms:
                tokens(x, tk)
            if d.kind == "extra" and d.key.startswith("write:"):
                tk.add(("f", d.key[6:]))
                if ("f", d.key[6:]) not in mine:
                    d.foreign = True          # a new private attribute by itself changes nothing observable
            b = [] if "strict" in c.opts else sorted(x for x in tk if x not in mine)
            (odd if b else known).append(d)
            bad += b
        r.diffs = ds
        a, b = loop_shapes(n), loop_shapes(ni)
        if a != b and len(a) == len(b):
            # the same walk written with other loop variables looks different throughout: no proof of a difference
            walks = [d for d in known if any(has_kind(x, ("wval", "wloop")) for x in d.terms if isinstance(x, T))]
            if walks:
                known = [d for d in known if d not in walks]
                odd += walks
                bad.append(("k", "while loop over other variables"))
        if si.unknowns and all(m == CAUGHT for _, m in si.unknowns) and (any(e.op == "raise" for e in n.effects.values()) and
                                                                          not any(e.op == "raise" for e in ni.effects.values())):
            # every error the contract asks for is caught before it leaves the function
            r.verdict, r.diffs = "VIOLATED", [d for d in ds if d.key.startswith("raise")] or ds
            return
        if si.unknowns:
            r.verdict, r.reason = "UNDECIDED", f"not modelled: {si.unknowns[:3]}"
            return
        clear = [d for d in known if not any(explains(u, d) for u in odd)]
        stale = self.stale(bad, n, impl)
        if clear and not stale and (n.interference or ni.interference):
            # a loop whose body may change the list it runs over: what is read when is not followed exactly
            a, b = (Norm(x.summary, x.links, True) for x in (n, ni))
            if not compare(a, b, c.opts) and not self.defaults(I, c, impl, t):
                r.verdict, r.reason = "UNDECIDED", "differs only in when a list that the loop's calls may change is read"
                return
        if clear or stale:
            r.verdict = "VIOLATED"
            r.diffs = clear or [Diff("ret", "stale", stale, impl.loc, [], None, "stale")]
        elif any(not getattr(d, "foreign", False) for d in odd):
            r.verdict, r.reason = "UNDECIDED", f"outside the vocabulary: {bad[:5]}"
        else:
            r.diffs = []

    def stale(self, bad, n, impl):
        """the value comes from an attribute the contract derives it without, and nothing that changes what it derives from renews it"""
        fs = {x[1] for x in bad if x[0] in ("f", "has")}
        if not fs or any(x[0] not in ("f", "has") for x in bad):
            return None
        from .rules import attr_writers, is_reader, MUTABLE
        dep = {x[1] for x in norm_vocab(n) if x[0] == "f"} & MUTABLE
        if not dep:
            return None
        for f in sorted(fs):
            w = attr_writers(self.prog, f)
            if not w:
                return None
            if any(not (nm.split(":")[0] in ("__init__", "__new__") or is_reader(nm) or fi.node is impl.node) for _, nm, fi in w):
                return None
        return f"the result depends on the kept attribute {', '.join(sorted(fs))}, which is not renewed when {', '.join(sorted(dep)[:4])} change"

    def reopen(self, r, c, t, impl, ps):
        """the difference may only be that a call was replaced by the body of the callee (or the reverse):
        compare again with the calls that occur on one side only replaced by their bodies"""
        ops = [set(e.op.split("#")[0] for e in x.effects.values()) for x in (r.spec, r.norm)]
        for x, o in zip((r.spec, r.norm), ops):
            for e in x.effects.values():
                for a in e.args:
                    if isinstance(a, T):
                        o |= calls_in(a)
            for v in x.rets:
                o |= calls_in(v)
        opened = set()
        for _ in range(4):
            one = {tuple(o.split(".", 1)) for o in (ops[0] ^ ops[1]) if "." in o}
            one = {k for k in one if k in BOUND and k[1] != "__init__"} - opened
            if not one:
                return
            opened |= one
            I = Interp(self.prog, opened)
            s, n = self.one(I, c, t, self.spec_fi(c, impl), ps)
            si, ni = self.one(I, c, t, impl, ps)
            if s.unknowns:
                return
            ds = compare(n, ni, c.opts) + self.defaults(I, c, impl, t)
            if not ds:
                r.verdict, r.diffs, r.reason = "HOLDS", [], f"with {sorted(opened)} opened"
                return
            ops = [set(e.op.split("#")[0] for e in x.effects.values()) for x in (n, ni)]

    def defaults(self, I, c, impl, t):
        if "nodefaults" in c.opts:
            return []
        fi = self.spec_fi(c, impl)
        st = State()
        a, b = self.dflt(I, fi, st), self.dflt(I, impl, st)
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            if x is None and y is None:
                continue
            if x is None or y is None or not teq(x[1], y[1]):
                out.append(Diff("default", "default", f"default of parameter {i} is {shows(y[1]) if y else 'absent'}, contract says "
                                f"{shows(x[1]) if x else 'absent'}", impl.loc, [v[1] for v in (x, y) if v], None, f"default{i}"))
        return out

    def dflt(self, I, fi, st):
        pos, va, ko, kwa = I.params(fi)
        fr = Frame(fi, fi.module, fi.cls)
        out = []
        I.nlist = 0
        for nm in pos + ko:
            d = I.default_of(fi, nm, st.copy(), fr)
            if d is None:
                out.append(None)
            else:
                if isinstance(d, T) and d.k == "clo":
                    I.stack.append(fi)
                    d = I.lam(d, ("str",) * len(I.clos[d][0].args.args), st.copy(), fr)
                    I.stack.pop()
                if isinstance(d, T) and d.k == "lref":
                    d = mk("const", "list()")
                out.append((nm, d))
        return out
