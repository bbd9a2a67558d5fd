"""Writes /verif/seeded/<id>/ from the specs in seeds_*.py and tries each in a scratch copy (SCRATCH, default /tmp/seedsc):
   demo without the patch -> 0, demo with it -> nonzero.  usage: seed.py [ID...] [--check] [--tests]"""
import glob, json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SC = os.environ.get("SCRATCH", "/tmp/seedsc")
BASE = os.environ.get("BASE", "/repo")
S = {}


def bug(id, prop, edits, needs, breaks, demo):
    S[id] = (prop, edits, needs, breaks, demo)


for f in sorted(glob.glob(f"{HERE}/seeds_*.py")):
    exec(open(f).read())


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for id in args or S:
        prop, edits, needs, breaks, demo = S[id]
        sh(f"rm -rf {SC}; cp -a {BASE} {SC}; git -C {SC} add -A")
        d = f"{OUT}/{id}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.py", "w").write(demo.lstrip("\n"))
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$(mktemp -d) exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
        r0 = sh(f"bash {d}/demo.sh", cwd=SC)
        for f, old, new in edits:
            p = f"{SC}/tianshou/{f}"
            t = open(p).read()
            assert t.count(old) == 1, (id, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=SC).stdout)
        r1 = sh(f"bash {d}/demo.sh", cwd=SC)
        ok = r0.returncode == 0 and r1.returncode != 0
        line = f"{id} {prop}: demo {r0.returncode}/{r1.returncode} {'ok' if ok else 'BAD ' + r0.stderr[-400:] + r0.stdout[-200:]} | {(r1.stderr.strip().splitlines() or [''])[-1][:100]}"
        if "--check" in sys.argv:
            r = sh(f"VERIF_REPO={SC} ./check.sh {prop}", cwd=os.path.dirname(HERE))
            line += f" | check {r.returncode} " + (" ".join(l[:160] for l in r.stdout.splitlines() if l.startswith("VIOLATION")) or r.stdout[-200:])
        if "--tests" in sys.argv:
            sh(f"sed 's#/repo#{SC}#g' /opt/vp/test.sh > {SC}.test.sh")
            r = sh(f"bash {SC}.test.sh {SC}.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            res = json.load(open(f"{SC}.json"))
            stable = set(base.get("stable", base.get("passed", [])))
            line += f" | tests: missing {sorted(stable - set(res.get('passed', [])))[:6]}"
        print(line, flush=True)
    sh(f"rm -rf {SC}")


main()
