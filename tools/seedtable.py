"""markdown table of the planted bugs and what reports each: python3 tools/seedtable.py (scratch copies under a temporary directory)"""
import glob, json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(p):
    n = os.path.basename(p)
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        shutil.copytree("/repo/src", d + "/src")
        subprocess.run(["git", "apply", p + "/patch.diff"], cwd=d, check=True, env=dict(os.environ, GIT_CEILING_DIRECTORIES=os.path.dirname(d)))
        m = json.load(open(p + "/meta.json"))
        subprocess.run(["python3", "-m", "satg.check", m["property"]], cwd=HOME, env=dict(os.environ, SATG_REPO=d, SATG_EVID=d + "/ev"), capture_output=True)
        r = f"{d}/ev/reports/{m['property']}.txt"
        by = sorted({l.split("construct: ")[1].replace("func:", "").split(":")[0] if "[contract]" in prev else prev.split("]")[0].strip("[")
                     for prev, l in zip([""] + open(r).read().splitlines(), open(r).read().splitlines()) if "construct: " in l}) if os.path.exists(r) else []
        return n, m["property"], m["what_it_breaks"], by
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    with ThreadPoolExecutor(8) as ex:
        for n, p, w, by in ex.map(one, sorted(glob.glob(HOME + "/seeded/*"))):
            print(f"| {n} | {p} | {w} | {', '.join('`%s`' % b for b in by[:4]) + (' …' if len(by) > 4 else '') or '**missed**'} |")
