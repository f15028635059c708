"""Abstract runs of the binary STL writer, and views of what it writes"""
from fractions import Fraction

from dom import *
from inputs import *
from state import *
import stlbin

TEXTS = [("OPT", "original programme title"), ("OET", "original episode title"), ("TPT", "translated programme title"), ("TET", "translated episode title"),
         ("TN", "translator's name"), ("TCD", "translator's contact details")]
MS = (1000, 1)
PATH = "/some/where/file.stl"


def at(s, ms=0, rate=MS):
    return time_rec(s, ms, rate)


def row(n):
    """a vertical position which falls on row n (of 23)"""
    return vpos(line=n, lines=23, reference=0)


def simple(text, n=1, vp=None, hp=None):
    """a subtitle of one line of plain text"""
    return subtitle([line([block(text if isinstance(text, Str) else K(text))], vp or row(10), hp)], at(n), at(n + 1))


def write_args(subs, fps=25, language=0, **k):
    def g(n, d):
        v = k.get(n, d)
        return v if isinstance(v, Str) else K(v)
    return ([Vec(subs), fps, language] + [g(n, "") for n, _ in TEXTS] + [g("CD", "201231"), g("RD", "210102"), k.get("RN", 1), g("CO", "GBR"),
            g("PUB", ""), g("EN", ""), g("ECD", ""), g("path", PATH)])


def write(fam, label, subs, expect=(), st=None, **k):
    key = fam.fn("sub::write_stl_binary")
    return fam.run(label, key, write_args(subs, **k), expect=expect, st=st)


def written(s):
    """everything that was written to files, in order"""
    return cat(*[e.info["data"] for e in s.events if e.kind == "stream write"])


def wrote(s):
    return any(e.kind == "stream write" for e in s.events)


def opens(s):
    return [e for e in s.events if e.kind == "open for writing"]


def good(fam, rule, label, out):
    """the states in which the file was written; any other outcome than a failure to write is wrong"""
    r = []
    for s in out or []:
        if s.ctl is None:
            r.append(s)
        elif not any(s.known(e.info["cond"]) is not True for e in s.events if "cond" in e.info):
            fam.unreachable(rule, label, s, "%s at %s although nothing failed" % (fam.outcome(s), fam.where(s)))
        elif not opens(s):
            fam.unreachable(rule, label, s, "%s at %s before anything is written" % (fam.outcome(s), fam.where(s)))
    return r


def piece(s, data, a, n):
    """n bytes of data from a"""
    return s.substr(data, a, n)


def blocks(s, w):
    """the TTI blocks in what was written"""
    n = w.len()
    if not isconst(n):
        return None
    return [s.substr(w, 1024 + 128 * i, 128) for i in range(int(n - 1024) // 128)]


def val(x):
    """the value of a one-byte text"""
    return stlbin.bytenum(x)


def textfield(s, bs):
    return cat(*[s.substr(b, 16, 112) for b in bs])


def lines_sub(lines, f=None, t=None, **k):
    """a subtitle: lines is a list of (position, list of (text, format)) """
    return subtitle([line([block(tx if isinstance(tx, Str) else K(tx), **fm) for tx, fm in l], vp) for vp, l in lines], f or at(1), t or at(2))
