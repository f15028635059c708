#!/usr/bin/env python3
"""automut.py N SEED [FILE...]: N random one-token changes to the sources, each in a scratch copy; the checks which belong to the
file are run until one alarms.  Survivors are printed for review (most are equivalent, or outside of the properties)."""
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "src/subrip_reader.cc": "C01 C05 C03 C02 C07 C04 C09", "src/web_vtt_reader.cc": "C01 C05 C08 C02 C09",
    "src/ssa_reader.cc": "C01 C06 C07 C05 C03 C02 C04 C09", "src/stl_text_reader.cc": "C01 C05 C03 C02 C04 C09",
    "src/stl_binary_reader.cc": "C16 C17 C15 C09", "src/stl_binary_writer.cc": "C14 C13 C11 C10 C12 C26",
    "src/sub_time.cc": "C22 C21 C26 C01", "src/colour.cc": "C07 C24", "src/vertical_position.cc": "C25 C24",
    "src/font_size.cc": "C25 C24", "src/rational.cc": "C25 C21 C24 C22", "src/iso6937.cc": "C19 C20", "src/collect.h": "C23",
    "src/subtitle.cc": "C23 C24", "src/util.cc": "C08 C28 C16", "src/stl_util.cc": "C26 C10 C13 C11", "src/locale_convert.cc": "C28 C16",
    "src/raw_convert.cc": "C28", "src/dump.cc": "C29", "src/dump.h": "C29", "src/reader_factory.cc": "C08", "src/stl_binary_tables.cc": "C18", "src/horizontal_position.cc": "C24",
    "src/effect.cc": "C24", "src/web_vtt_reader.cc": "C01 C05 C08 C02 C09",
}
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"(?<![\w.#\\x])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.#\\x])([1-9]\d*)(?![\w.])", lambda m: str(int(m.group(1)) - 1)),
       (r"^(\t+)([\w.\->\[\]()]+ (\+|-|\|)?= [^;]*;|[\w.:\->]+ ?\([^;]*\);|\+\+\w+;|break;|continue;)$", r"\1;"), (r"\+\+", "--"), (r"\+=", "-="), (r"!(?=[\w(])", "")]


def sites():
    out = []
    for f in files:
        s = open("/repo/" + f).read().split("\n")
        comment = False
        for i, l in enumerate(s):
            t = l.strip()
            if "/*" in t:
                comment = True
            skip = comment or t.startswith(("//", "#", "*")) or "SUB_ASSERT" in t or "template" in t
            if "*/" in t:
                comment = False
            if skip or i < 20:
                continue
            for a, b in OPS:
                for m in re.finditer(a, l):
                    n = l[:m.start()] + re.sub(a, b, l[m.start():], count=1)
                    if n != l:
                        out.append((f, i, l, n))
    return out


def run(job):
    f, i, l, n = job
    d = tempfile.mkdtemp(prefix="amut")
    try:
        shutil.copytree("/repo/src", d + "/r/src")
        shutil.copytree("/repo/tools", d + "/r/tools")
        p = d + "/r/" + f
        s = open(p).read().split("\n")
        s[i] = n
        open(p, "w").write("\n".join(s))
        r = subprocess.run(["g++", "-std=c++11", "-fsyntax-only", "-w", "-DLIBSUB_POSIX", "-DBOOST_NO_CXX11_SCOPED_ENUMS", "-I", d + "/r/src", "-I", d + "/r", p if p.endswith(".cc") else d + "/r/src/web_vtt_reader.cc"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return
        res = []
        for c in MAP[f].split():
            try:
                r = subprocess.run(["./check", c], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900,
                                   env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_NO_EVIDENCE="1"))
            except subprocess.TimeoutExpired:
                res.append(c + ":timeout")
                continue
            if r.returncode == 1:
                print("caught   %s:%d %s" % (f, i + 1, c), flush=True)
                return
            m = re.search(r"(\d+) undecided", r.stdout)
            res.append("%s:%s%s" % (c, r.returncode, "u" + m.group(1) if m and m.group(1) != "0" else ""))
        print("SURVIVED %s:%d [%s]\n   - %s\n   + %s" % (f, i + 1, " ".join(res), l.strip(), n.strip()), flush=True)
    finally:
        shutil.rmtree(d)


n, seed = int(sys.argv[1]), int(sys.argv[2])
files = [f for f in (sys.argv[3:] or sorted(MAP)) if os.path.exists("/repo/" + f)]
random.seed(seed)
al = sites()
per = {}
for s in al:
    per.setdefault(s[0], []).append(s)
print({f: len(v) for f, v in per.items()}, flush=True)
jobs = random.sample(al, min(n, len(al)))
with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    list(ex.map(run, jobs))
