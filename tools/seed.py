#!/usr/bin/env python3
"""seed.py ID...: for every seeded change, on /repo: build, demo (must pass), apply, build, tests, demo (must fail), run the
property's check, undo.  Prints what happened.  seed.py --check ID...: only the check.  With --all: the checks of all properties."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def check(i, pids):
    d = os.path.join(S, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed")
    res = []
    try:
        sh("git clone -q /repo %s/r && git -C %s/r apply %s/patch.diff" % (tmp, tmp, d))
        env = dict(os.environ, VERIF_NO_EVIDENCE="1", VERIF_REPO=tmp + "/r")
        for p in pids or [meta["property"]]:
            r = sh("./check %s" % p, cwd=V, env=env)
            lines = [l for l in r.stdout.splitlines() if l.strip()]
            if pids and r.returncode == 0:
                continue
            res.append("%s %s(%d) %s" % (p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), r.returncode, (lines[1].strip() if r.returncode == 1 and len(lines) > 1 else lines[-1] if lines else "")[:140]))
    finally:
        shutil.rmtree(tmp)
    print(i, "|", " | ".join(res), flush=True)


def main():
    quick = "--check" in sys.argv
    every = "--all" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or [i for i in sorted(os.listdir(S)) if os.path.exists(os.path.join(S, i, "meta.json"))]
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    pids = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    if not quick:
        sh("bash /opt/vp/build.sh")
    for i in ids:
        if quick:
            break
        d = os.path.join(S, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        res = []
        try:
            if not quick:
                r = sh("bash %s/demo.sh" % d, cwd="/repo")
                res.append("demo on HEAD %d" % r.returncode + (" !!!" + r.stdout[-500:] if r.returncode else ""))
            r = sh("git -C /repo apply %s/patch.diff" % d)
            if r.returncode:
                print(i, "PATCH DOES NOT APPLY", r.stdout)
                continue
            if not quick:
                r = sh("bash /opt/vp/test.sh /tmp/seed-test.json")
                try:
                    t = json.load(open("/tmp/seed-test.json"))
                    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                    miss = want - set(t["passed"])
                    res.append("tests ok" if not miss and r.returncode in (0, 1) and t["passed"] else "TESTS FAIL %s %s" % (sorted(miss)[:5], r.stdout[-300:] if not t["passed"] else ""))
                except Exception as e:
                    res.append("TESTS? %s" % e)
                r = sh("bash %s/demo.sh" % d, cwd="/repo")
                res.append("demo patched %d" % r.returncode + (" !!! demo passes" if r.returncode == 0 else ""))
        finally:
            sh("git -C /repo checkout -- .")
        print(i, "|", " | ".join(res), flush=True)
    if not quick:
        sh("bash /opt/vp/build.sh")
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        list(ex.map(lambda i: check(i, pids if every else None), ids))


main()
