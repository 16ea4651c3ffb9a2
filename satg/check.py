"""python3 -m satg.check C01 [...]: decide properties from /repo's current source."""
from __future__ import annotations
import argparse, json, os, sys, time
from pathlib import Path
from .program import Program, AnalysisBroken
from .contracts import Book
from .relevance import concerns, used

HOME = Path(__file__).resolve().parent.parent
REPO = os.environ.get("SATG_REPO", "/repo")
KNOWN = HOME / "known-findings.txt"
OUT = Path(os.environ.get("SATG_EVID", HOME))        # where evidence/ and reports/ go


class Finding:
    def __init__(self, prop, rule, where, construct, text):
        self.prop, self.rule, self.where, self.construct, self.text = prop, rule, where, construct, text

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


def known(prop):
    out = {}
    if KNOWN.exists():
        for ln in KNOWN.read_text().splitlines():
            if ln.startswith("known: "):
                f = dict(x.split("=", 1) for x in ln[7:].split(" ", 2)[:2] if "=" in x)
                if f.get("property") == prop:
                    out[f["key"]] = ln[7:].split(" ", 2)[2] if ln.count(" ") > 2 else ""
    return out


def contract_findings(prop, results):
    out = []
    for r in results:
        if r.verdict != "VIOLATED":
            continue
        for d in r.diffs:
            if not concerns(prop, r, d):
                continue
            out.append(Finding(prop, "contract", d.loc or r.impl.loc, f"{r.target}:{d.cat}:{d.key}",
                               f"{r.target} ({r.impl.loc}) departs from its contract {r.contract.mod.rel}:{r.contract.node.lineno}: {d.text}"))
    return out


def report(prop, fs, tier):
    d = OUT / "reports"
    d.mkdir(parents=True, exist_ok=True)
    p = d / f"{prop}.txt"
    lines = [f"property {prop}, tier {tier}, source {REPO}", ""]
    for f in fs:
        lines += [f"[{f.rule}] {f.where}", f"  construct: {f.construct}", f"  {f.text}", ""]
    lines += [f"replay: cd {HOME} && python3 -m satg.check {prop}"]
    p.write_text("\n".join(lines) + "\n")
    return p


def decide(prop, book, tier, seed):
    t0 = time.time()
    if not hasattr(book, "results"):
        book.results = book.run()
    everything = book.results
    results = [r for r in everything if prop in r.contract.props or used(prop, r.target)]
    from . import rules
    extra = rules.run(prop, book)
    fs = contract_findings(prop, everything) + [Finding(prop, x.rule, x.where, x.construct, x.text) for r in extra for x in r.findings]
    kn = known(prop)
    fresh = [f for f in fs if f.key not in kn]
    for k in sorted({f.key for f in fs if f.key in kn}):
        print(f"KNOWN-FINDING: property={prop} {k} {kn[k]}")
    held = [r for r in results if r.verdict == "HOLDS"]
    und = [r for r in results if r.verdict in ("UNDECIDED", "SPECBAD")]
    viol = [r for r in everything if r.verdict == "VIOLATED" and any(concerns(prop, r, d) for d in r.diffs)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Each function listed is evaluated symbol-free over its syntax tree into a gated value graph with guarded effects "
                           "(all branches, loops as binders, helper calls inlined), normalised, and compared with the contract of the same name in "
                           "/verif/specs; a difference whose terms lie inside the modelled vocabulary is a violation, any other difference is "
                           "reported as undecided and decides nothing. Whole-program rules list the constructs they visited.",
            "contracts": len(results), "contracts_searched_for_related_differences": len(everything), "contracts_holding": len(held), "contracts_undecided": len(und), "contracts_violated": len(viol),
            "effects_compared": sum(r.neffects for r in results), "result_cases_compared": sum(r.npaths for r in results),
            "functions": sorted({f"{r.target} @ {r.impl.loc}" for r in results if r.impl is not None}),
            "undecided": [f"{r.target}: {r.verdict}: {r.reason}" for r in und],
            "rules": [{"rule": r.name, "statement": r.text, "constructs_visited": r.visited, "skipped": r.skipped[:50]} for r in extra],
        },
        "assumptions": ASSUME, "wall_s": round(time.time() - t0, 3), "violations": len(fresh),
    }
    (OUT / "evidence").mkdir(parents=True, exist_ok=True)
    (OUT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    print(f"{prop}: {len(results)} contracts ({len(held)} hold, {len(und)} undecided, {len(viol)} violated), "
          f"{sum(r.neffects for r in results)} effects, {len(extra)} rules over {sum(r.visited for r in extra)} constructs")
    for r in und:
        print(f"  undecided: {r.target}: {r.reason[:200]}")
    if not results and not extra:
        raise AnalysisBroken(f"nothing decides {prop}")
    if fresh:
        p = report(prop, fresh, tier)
        for f in fresh[:8]:
            print(f"  {f.where}: {f.text[:400]}")
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    return 0


ASSUME = [
    "Python semantics of the modelled subset; list, dict, str, numpy, praatio and polars calls are uninterpreted functions with the algebraic laws in satg/sem.py and satg/theory.py",
    "arguments have the types the contract declares; elements of one list are distinct objects",
    "no monkey-patching of the package's classes and no concurrent mutation",
]


def main(argv=None):
    sys.setrecursionlimit(20000)
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rc = 0
    try:
        book = Book(Program(REPO))
        for p in a.props:
            rc = max(rc, decide(p, book, tier, seed))
    except AnalysisBroken as e:
        print(f"ANALYSIS BROKEN: {e}")
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
