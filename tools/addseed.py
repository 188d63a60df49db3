"""python3 tools/addseed.py SPEC.py : SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Applies the edit to /repo, confirms demo (0 before, nonzero after) and tests, runs the check, undoes it, stores seeded/ID."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    for s in ns["SEEDS"]:
        one(**s)


def one(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO, skip_tests=False):
    d = f"{V}/seeded/{ID}"
    assert sh("git -C /repo status --short").stdout.strip() == "", "repo is dirty"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.py", "w").write(DEMO)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=PROPERTY, needs=NEEDS, what_it_breaks=BREAKS), open(f"{d}/meta.json", "w"), indent=1)
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    try:
        for f, o, n in EDITS:
            p = f"/repo/{f}"
            s = open(p).read()
            assert s.count(o) == 1, (ID, f, o, s.count(o))
            open(p, "w").write(s.replace(o, n))
        diff = sh("git -C /repo diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
        t = "skipped"
        if not skip_tests:
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            t = compare("/tmp/seed_out.json")
        c = sh(f"VERIF_SEED=1 python3-vt {V}/check.py {PROPERTY}")
    finally:
        sh("git -C /repo checkout -- .")
    ok = r0.returncode == 0 and r1.returncode != 0 and t in ("ok", "skipped")
    print(ID, PROPERTY, "VALID" if ok else f"INVALID(demo {r0.returncode}->{r1.returncode} tests {t})", "CAUGHT" if c.returncode == 1 else f"MISSED(rc={c.returncode})", flush=True)
    if r0.returncode:
        print(r0.stderr[-1500:])
    if c.returncode == 1:
        print("   ", [x for x in c.stdout.split("\n") if x.startswith("  ") and "UNDECIDED" not in x][:1])
    else:
        print(c.stdout[-700:])
    if r1.returncode:
        print("    demo:", (r1.stderr.strip().split("\n") or [""])[-1][:200])


def compare(out):
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(out))
    want = base.get("stable", base.get("passed", base.get("tests")))
    if isinstance(want, dict):
        want = list(want)
    passed = set(res.get("passed", []))
    miss = [w for w in want if w not in passed]
    return "ok" if not miss else f"FAIL {miss[:3]}"


if __name__ == "__main__":
    for p in sys.argv[1:]:
        main(p)
