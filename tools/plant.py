"""plant.py [ID...]: write seeded/<id>/ from tools/bugs.py and confirm it (applies, original lines, builds, tests pass, demo separates,
which checks catch it).  Development aid; no check reads it."""
import json, os, subprocess, sys, shutil, textwrap, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "c7f6fd6"
sys.path.insert(0, os.path.join(V, "tools"))
PY = "/opt/venv/bin/python"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def original(path):
    """line numbers (1-based) of HEAD's file that come from the base commit"""
    base = sh("git", "-C", "/repo", "rev-parse", BASE).stdout.strip()
    out = sh("git", "-C", "/repo", "blame", "-s", "-l", "--root", path).stdout.splitlines()
    mine = set(sh("git", "-C", "/repo", "log", "--format=%H", BASE + "..HEAD").stdout.split())
    return {i + 1 for i, l in enumerate(out) if l.split()[0].lstrip("^")[:39] not in {m[:39] for m in mine}}


def plant(b, quick=False):
    d = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip(), "repo not clean"
    ok = True
    try:
        for f, old, new in b["edits"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, "%s: %d matches of %r" % (b["id"], s.count(old), old[:80])
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", "/repo", "diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        for f in {e[0] for e in b["edits"]}:
            orig = original_cached(f)
            n = 0
            for l in sh("git", "-C", "/repo", "diff", "-U0", "--", f).stdout.splitlines():
                m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
                if m:
                    a, c = int(m.group(1)), int(m.group(2) or 1)
                    for i in range(a, a + c):
                        if i not in orig:
                            print(b["id"], "NOTE: changes a line of our own fixes: %s:%d" % (f, i))
                        else:
                            n += 1
            if not n:
                print(b["id"], "FAIL: no original line changed in", f)
                ok = False
        open(d + "/demo.py", "w").write(textwrap.dedent(b["demo"]).lstrip())
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("bash", "/opt/vp/build.sh")
        if r.returncode:
            print(b["id"], "FAIL: does not build", r.stderr[-300:]); ok = False
        r = sh("bash", d + "/demo.sh", cwd="/repo", timeout=300)
        if r.returncode == 0:
            print(b["id"], "FAIL: demo passes with the bug"); ok = False
        else:
            print(b["id"], "demo with bug:", (r.stderr.strip().splitlines() or r.stdout.strip().splitlines() or ["?"])[-1][:160])
        if not quick:
            sh("bash", "/opt/vp/test.sh", "/tmp/plant.json")
            got = set(json.load(open("/tmp/plant.json"))["passed"])
            miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got
            if miss:
                print(b["id"], "FAIL: tests fail", sorted(miss)); ok = False
        for pid in [b["property"]] + list(b.get("also", [])):
            r = sh("python3", "-m", "pfsa.run", pid, cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "  violated", "  undecided"))]
            print(b["id"], pid, "CAUGHT" if r.returncode == 1 else "MISSED", "|", (v or [""])[0][:200])
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    r = sh("bash", d + "/demo.sh", cwd="/repo", timeout=300)
    if r.returncode:
        print(b["id"], "FAIL: demo fails on the clean tree:", r.stderr[-400:]); ok = False
    print(b["id"], "OK" if ok else "BAD")
    if not ok:
        shutil.rmtree(d, ignore_errors=True)
    return ok


_c = {}


def original_cached(f):
    if f not in _c:
        # blame of HEAD (the working tree is changed)
        base = sh("git", "-C", "/repo", "rev-parse", BASE).stdout.strip()
        mine = set(sh("git", "-C", "/repo", "log", "--format=%H", BASE + "..HEAD").stdout.split())
        out = sh("git", "-C", "/repo", "blame", "-s", "-l", "--root", "HEAD", "--", f).stdout.splitlines()
        _c[f] = {i + 1 for i, l in enumerate(out) if not any(m.startswith(l.split()[0].lstrip("^")) for m in mine)}
    return _c[f]


if __name__ == "__main__":
    from bugs import BUGS
    quick = "-q" in sys.argv
    ids = [a for a in sys.argv[1:] if a != "-q"]
    for b in BUGS:
        if not ids or b["id"] in ids or b["property"] in ids:
            plant(b, quick)
