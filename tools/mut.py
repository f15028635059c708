#!/usr/bin/env python3
"""mut.py FILE [name...]: FILE calls M(name, "C01 C02", file, old, new); every mutation is made in a scratch copy of the sources
(never in /repo) and the checks are run on it.  expect=0 for edits which keep the behaviour."""
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[2:]
BASE = os.environ.get("MUT_BASE", "/repo")


jobs = []


def M(name, checks, f, old=None, new=None, expect=1, count=1):
    if want and not any(w in name for w in want):
        return
    jobs.append((name, checks, f, old, new, expect, count))


def run(name, checks, f, old, new, expect, count):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(BASE + "/src", d + "/r/src")
        shutil.copytree(BASE + "/tools", d + "/r/tools")
        edits = f if isinstance(f, list) else old if isinstance(old, list) else [(f, old, new)]
        for f, old, new in edits:
            p = os.path.join(d, "r", f)
            s = open(p).read()
            if s.count(old) < 1:
                print("%-40s NO SUCH TEXT in %s: %r" % (name, f, old[:60]))
                return
            open(p, "w").write(s.replace(old, new, count))
        for c in checks.split():
            r = subprocess.run(["./check", c], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_NO_EVIDENCE="1"))
            l = [x for x in r.stdout.splitlines() if x.strip()]
            v = {0: "quiet", 1: "ALARM"}.get(r.returncode, "ERROR")
            good = (r.returncode == 1) == (expect == 1) and r.returncode in (0, 1)
            print("%s %-40s %s %s %s" % ("ok  " if good else "BAD ", name, c, v, (l[1].strip() if r.returncode == 1 else l[0] if l else "")[:170] if not (good and r.returncode == 0) else ""), flush=True)
            if not good:
                for x in l[1:6]:
                    print("        " + x[:300])
    finally:
        shutil.rmtree(d)


exec(open(sys.argv[1]).read())
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
    list(ex.map(lambda j: run(*j), jobs))
