"""Runs the AST exporter over the repository under analysis and loads the result."""
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
FLAGS = [
    "-xc++", "-D_FILE_OFFSET_BITS=64", "-D__STDC_FORMAT_MACROS", "-std=c++11",
    "-DBOOST_NO_CXX11_SCOPED_ENUMS", "-DLIBSUB_VERSION=\"devel\"", "-DLIBSUB_POSIX",
    "-fPIC", "-w", "-resource-dir", LLVM + "/lib/clang/18",
]


class AnalysisBroken(Exception):
    pass


def build_dir():
    for d in (os.path.join(HERE, "build"), os.path.join(tempfile.gettempdir(), "verif-build")):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, ".w%d" % os.getpid())
            open(t, "w").close()
            os.unlink(t)
            return d
        except OSError:
            continue
    raise AnalysisBroken("no writable build directory")


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def build_exporter():
    src = os.path.join(HERE, "exporter", "exporter.cc")
    h = sha(open(src, "rb").read())[:16]
    d = build_dir()
    exe = os.path.join(d, "exporter-" + h)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = ["clang++-18", "-O0", "-std=c++17", "-fno-rtti", "-I" + LLVM + "/include",
           "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
           src, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM.so.18.1",
           "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("exporter did not build:\n" + r.stdout[-4000:])
    os.rename(tmp, exe)
    return exe


def units(repo):
    src = sorted(glob.glob(os.path.join(repo, "src", "*.cc")))
    src = [s for s in src if os.path.basename(s) != "version.cc"]
    tools = sorted(glob.glob(os.path.join(repo, "tools", "*.cc")))
    return src + tools


def source_hash(repo):
    files = []
    for d in ("src", "tools"):
        for root, _, names in os.walk(os.path.join(repo, d)):
            for n in names:
                if n.endswith((".cc", ".h", ".hpp", ".cpp", ".hh", ".inc", ".ipp")):
                    files.append(os.path.join(root, n))
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
        h.update(b"\0")
    return h.hexdigest()


def extract(repo=None):
    """Returns a list of per-unit module dictionaries."""
    repo = repo or REPO
    exe = build_exporter()
    us = units(repo)
    if len(us) < 20:
        raise AnalysisBroken("only %d translation units found under %s" % (len(us), repo))
    key = sha(source_hash(repo), os.path.basename(exe), " ".join(FLAGS), repo)[:24]
    cache = os.path.join(build_dir(), "ast-" + key)
    os.makedirs(cache, exist_ok=True)

    def one(u):
        out = os.path.join(cache, os.path.relpath(u, repo).replace("/", "_") + ".json")
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run([exe, repo, tmp, u, "--"] + FLAGS + ["-I" + os.path.join(repo, "src"), "-I" + repo],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=repo)
            if r.returncode != 0 or not os.path.exists(tmp):
                raise AnalysisBroken("cannot parse %s: %s" % (u, r.stdout[-2000:]))
            os.rename(tmp, out)
        with open(out) as f:
            return json.load(f)

    with ThreadPoolExecutor(8) as ex:
        mods = list(ex.map(one, us))
    # drop stale caches
    try:
        olds = sorted((os.path.getmtime(p), p) for p in glob.glob(os.path.join(build_dir(), "ast-*")))
        for t, p in olds[:-6]:
            if p != cache and time.time() - t > 1200:
                for f in glob.glob(os.path.join(p, "*")):
                    os.unlink(f)
                os.rmdir(p)
    except OSError:
        pass
    return mods


if __name__ == "__main__":
    ms = extract()
    print(len(ms), "units", sum(len(m["functions"]) for m in ms), "functions")
