"""Creates, validates and evaluates planted bugs (seeded/<id>/).

  seedtool.py make SPEC.py    SPEC defines: ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS,
                              DEMO (python source), optional CHECKS (properties to run)
  seedtool.py run ID...       apply, run the property's check (plus extra ones given as P..), undo
"""

import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, check=False, **k)


def clean():
    return not sh("git", "-C", REPO, "status", "--porcelain", "--untracked-files=no").stdout.strip()


def revert():
    sh("git", "-C", REPO, "checkout", "--", ".")


def run_check(p, tier="quick", seed="1"):
    r = sh(PY, f"{HERE}/check.py", p, "--tier", tier, env={**os.environ, "VERIF_SEED": seed})
    v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
    return r.returncode, v, r


def demo(d):
    return sh("sh", f"{d}/demo.sh", cwd=REPO, timeout=300)


def make(spec_path):
    ns = {}
    exec(open(spec_path).read(), ns)
    assert clean(), "repo not clean"
    d = f"{HERE}/seeded/{ns['ID']}"
    os.makedirs(d, exist_ok=True)
    with open(f"{d}/demo.py", "w") as f:
        f.write(ns["DEMO"].lstrip("\n"))
    with open(f"{d}/demo.sh", "w") as f:
        f.write(DEMO_SH)
    with open(f"{d}/meta.json", "w") as f:
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, f, indent=1)
    r = demo(d)
    if r.returncode != 0:
        print("DEMO FAILS ON CLEAN TREE\n", r.stdout[-2000:], r.stderr[-3000:])
        return False
    ok = True
    try:
        for file, old, new in ns["EDITS"]:
            p = f"{REPO}/{file}"
            s = open(p).read()
            assert s.count(old) == 1, (file, s.count(old), old)
            with open(p, "w") as f:
                f.write(s.replace(old, new))
        diff = sh("git", "-C", REPO, "diff").stdout
        with open(f"{d}/patch.diff", "w") as f:
            f.write(diff)
        base = sh("git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD").stdout.strip()
        # all removed lines must be original
        cur = None
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = sh("git", "-C", REPO, "show", f"{base}:{line[6:]}").stdout.splitlines()
            elif line.startswith("-") and not line.startswith("---") and line[1:] not in cur:
                print("WARNING: touches a line not in the base:", line)
        b = sh("bash", "/opt/vp/build.sh")
        if b.returncode:
            print("BUILD FAILS", b.stdout[-1000:], b.stderr[-1000:])
            ok = False
        t = sh("bash", "/opt/vp/test.sh", "/tmp/seed_test.json")
        base_ids = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open("/tmp/seed_test.json"))
        failed = res.get("failed", [])
        if failed or len(res.get("passed", [])) < 235:
            print("TESTS:", len(res.get("passed", [])), "passed; failed", failed[:5], t.stdout[-300:])
            ok = False
        r = demo(d)
        if r.returncode == 0:
            print("DEMO PASSES WITH THE PATCH", r.stdout[-500:])
            ok = False
        else:
            print("demo:", (r.stdout + r.stderr).strip().splitlines()[-1:])
        for p in ns.get("CHECKS", [ns["PROPERTY"]]):
            rc, v, _ = run_check(p)
            print(p, "exit", rc, v[:1])
    finally:
        revert()
        sh("bash", "/opt/vp/build.sh")
    print(ns["ID"], "valid" if ok else "INVALID")
    return ok


def run(args):
    props = [a for a in args if a[0] == "P" and a[1:].isdigit()]
    ids = [a for a in args if a not in props]
    if not ids:
        ids = sorted(os.listdir(f"{HERE}/seeded"))
    for i in ids:
        d = f"{HERE}/seeded/{i}"
        meta = json.load(open(f"{d}/meta.json"))
        assert clean()
        try:
            a = sh("git", "-C", REPO, "apply", f"{d}/patch.diff")
            if a.returncode:
                print(i, "DOES NOT APPLY", a.stderr[:300])
                continue
            for p in [meta["property"], *props]:
                rc, v, _ = run_check(p)
                print(i, p, "exit", rc, [x.split("replay=")[0] for x in v[:1]], flush=True)
        finally:
            revert()


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for s in sys.argv[2:]:
            print("==", s)
            make(s)
    else:
        run(sys.argv[2:])
