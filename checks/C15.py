"""everything which is acquired is released, once, on every path"""
from check import *
from textdocs import *
from writer import *
import models
import stlbin

EXPLANATION = ("The readers, reader_factory and the writer are abstractly interpreted on good and bad files. Every allocation and every opened FILE is tracked to the end of every path, whether it returns or throws: "
               "it must be released exactly once, in the way that fits how it was acquired, by the code or by its owner (a smart pointer, or an object whose destructor does it), and must not be used after that; "
               "a FILE which the caller passed in must be left open.")
RELEASED = "what is acquired is released once, in the right way"
CALLERS = "the caller's FILE is left open"


def roots(v, out):
    """the objects which a value leads to"""
    if isinstance(v, Ptr) and v.r is not None:
        out.add(v.r.root)
    elif isinstance(v, Smart) and v.r is not None:
        out.add(v.r.root)
    elif isinstance(v, Ref):
        out.add(v.root)
    elif isinstance(v, Rec):
        for x in v.f.values():
            roots(x, out)
    elif isinstance(v, Vec):
        for x in v.items:
            roots(x, out)
    elif isinstance(v, Opt):
        roots(v.v, out)
    return out


def reachable(s, v):
    seen = set()
    work = list(roots(v, set()))
    while work:
        r = work.pop()
        if r in seen:
            continue
        seen.add(r)
        if r in s.mem:
            work.extend(roots(s.mem[r], set()))
    return seen


def name(d):
    if isinstance(d, FnV):
        return d.f["q"].split("::")[-1]
    return str(d)


FITS = {("new", "delete"), ("new[]", "delete[]"), ("fopen", "fclose")}


def finish(fam, s):
    """the states after the destruction of everything which has an owner and is not part of the result"""
    keep = reachable(s, s.result) if s.ctl is None else set()
    s.ctl = None
    live = [s]
    for k in [k for k in s.alloc if isinstance(k, tuple) and k[0] == "owned"]:
        root = k[1]
        if root in keep:
            continue
        nxt = []
        for x in live:
            if root in x.freed:
                x.event("released by its owner although it has been released", None, root=root)
                nxt.append(x)
                continue
            o = x.mem.get(root)
            if isinstance(o, Rec) and x.alloc[k] == "delete":
                for y in fam.I.destroy(x, Ref(root), o):
                    y.freed = y.freed | {root}
                    nxt.append(y)
            else:
                x.freed = x.freed | {root}
                nxt.append(x)
        live = nxt
    return live, keep


HARMLESS = ("stream write", "stream flushed", "stream state", "open for writing", "console output")


def judge(fam, label, out, callers=None):
    for s in out or []:
        outcome = fam.outcome(s)
        at = fam.where(s)
        live, keep = finish(fam, s)
        for x in live:
            bad = [e for e in x.events if e.kind not in HARMLESS]
            if bad:
                e = bad[0]
                x.ctl = None
                fam.unreachable(RELEASED, label, x, "%s at %s %s" % (e.kind, e.loc, e.info))
                continue
            n = 0
            for root, how in x.alloc.items():
                if root[0] in ("count", "owned", "released"):
                    continue
                by = x.alloc.get(("owned", root), x.alloc.get(("released", root)))
                if by is not None and (how, name(by)) not in FITS and not isinstance(by, Closure):
                    fam.unreachable(RELEASED, label, x, "what %s acquires at %s is released by %s" % (how, root[1], name(by)))
                elif root in x.freed or root in keep:
                    n += 1
                else:
                    fam.unreachable(RELEASED, label, x, "what %s acquires at %s is not released (%s%s)" % (how, root[1], outcome, " at %s" % at if outcome.startswith("throw") else ""))
            fam.ok(RELEASED, label, "%d acquired" % n)
            if callers is not None:
                if callers in x.freed:
                    fam.unreachable(CALLERS, label, x, "the FILE which the caller passed in is closed")
                else:
                    fam.ok(CALLERS, label)


T1 = K("text")
GOOD = {
    "sub::SubripReader": "1\n00:00:01,000 --> 00:00:02,000\n<i>text</i>\n\n2\n00:00:03,000 --> 00:00:04,000\nmore\n",
    "sub::WebVTTReader": "WEBVTT\n\n00:00:01.000 --> 00:00:02.000\ntext\n\n",
    "sub::SSAReader": "[Script Info]\n[V4+ Styles]\nFormat: Name, Bold\nStyle: Default,1\n[Events]\nFormat: Start, End, Style, Text\nDialogue: 0:00:01.00,0:00:02.00,Default,te{\\i1}xt\n",
}
BAD = {
    "sub::SubripReader": ("1\nrubbish\n", "1\n00:00:01,000 --> x\n", "1\n00:00:01,000 --> 00:00:02,000\n<font color=\"red\">\n", ""),
    "sub::WebVTTReader": ("rubbish", "WEBVTT\n\na --> b\n", ""),
    "sub::SSAReader": ("rubbish", "[Events]\nDialogue: x\n", "[Events]\nFormat: Start\nDialogue: x\n", "[Events]\nFormat: Text\nDialogue: {\\cx}\n"),
}


@family("readers")
def f(fam):
    for cls in sorted(GOOD):
        for n, src in enumerate((GOOD[cls],) + BAD[cls]):
            for how in (None, "FILE"):
                label = "%s, %s file, from a %s" % (cls, "a good" if n == 0 else "bad %d" % n, how or "string")
                judge(fam, label, read(fam, cls, label, K(src), how=how), "F" if how else None)


def binaries():
    b = stlbin.tti(K("hello\x8athere"))
    yield "no blocks", stlbin.stl([])
    yield "two blocks", stlbin.stl([b, b])
    yield "a truncated header", stlbin.gsi(TNB="00001").segs and K("x" * 500)
    yield "a truncated block", cat(stlbin.gsi(TNB="00002"), b)
    yield "a block with an unknown code", stlbin.stl([stlbin.tti(K("hello"), cf=7)])
    yield "an unknown language", stlbin.stl([b], LC="zz")
    yield "an unknown character", stlbin.stl([stlbin.tti(K("\x00\xff\xc1"))])


@family("binary STL")
def f(fam):
    for n, src in binaries():
        judge(fam, n, stlbin.read_binary(fam, n, src))
        judge(fam, n + ", from a FILE", read(fam, "sub::STLBinaryReader", n, src, how="FILE"), "F")


@family("reader_factory")
def f(fam):
    files = [(".srt", "%s SubRip file %d" % ("a good" if n == 0 else "a bad", n), K(x)) for n, x in enumerate((GOOD["sub::SubripReader"],) + BAD["sub::SubripReader"])]
    files += [(".stl", "a binary STL file with %s" % n, x) for n, x in binaries()]
    files += [(".stl", "an STL text file", K("00:00:01:00 , 00:00:02:00 , text\n")), (".stl", "a bad STL text file", K("x\n:::,:::,x\n")), (".txt", "another file", K("x"))]
    for ext, n, x in files:
        st = fam.I.start()
        st.mem[("content", "/a/file" + ext)] = x
        label = n + " by reader_factory"
        # both when the file can be opened and when it cannot
        judge(fam, label, fam.run(label, fam.fn("sub::reader_factory"), [K("/a/file" + ext)], st=st))


@family("writer")
def f(fam):
    for n, subs, k in (("nothing", [], {}), ("a subtitle", [simple("Hello")], {}), ("long text", [simple("A" * 300)], {}), ("too long a title", [simple("Hello")], {"OPT": "x" * 33}),
                       ("a subtitle without lines", [subtitle([], at(1), at(2))], {})):
        judge(fam, "writing " + n, write(fam, n, subs, **k))
