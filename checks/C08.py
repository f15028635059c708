"""the same content gives the same subtitles wherever it comes from"""
from check import *
from textdocs import *
import models
import stlbin

EXPLANATION = ("Each reader is abstractly interpreted on the same files read from a string, from a FILE and from a stream, with each kind of line end, a byte order mark, an incomplete last line, and lines "
               "which are as long as, longer and shorter than any buffer in the source; what is delivered must be what the file says. reader_factory is interpreted on names with every extension.")
S1 = safe(" <{\\}|^,&\xef")
SAME = "all sources of the same bytes give the same"
TEXTS = (SubRip, WebVTT, SSA)
ASPECTS = ["text", "time", "format", "line"]
BOM = "\xef\xbb\xbf"
PL = lambda s: s.f["vertical_position"].f["proportional"]


def t(n, k=2):
    return T(chars(n, k, S1))


class Ends(object):
    """a document with other line ends, beginning and end"""

    def __init__(self, doc, name, eol="\n", pre="", tail=None, how=None):
        self.doc, self.eol, self.pre, self.tail, self.how = doc, eol, pre, tail, how
        self.name = "%s, %s" % (doc.name, name)
        self.cls = doc.cls
        self.expected = doc.expected
        self.k = doc.k

    def source(self):
        self.doc.eol = self.eol
        s = self.doc.source()
        if self.tail is not None:
            g = list(s.segs)
            assert g[-1][0] == "k"
            g[-1] = ("k", g[-1][1].rstrip("\r\n") + self.tail)
            s = Str(tuple(x for x in g if x[0] != "k" or x[1]))
        return cat(self.pre, s)


def docs(D):
    c = lambda n, ls, k: cue(D, n, ls, k)
    yield D("one cue", [c("a", [[t("p")]], 3)])
    # the times are unknown
    yield D("one cue at any time", [cue(D, "a", [[t("p")]])])
    yield D("two cues", [c("a", [[t("p")], [t("q")]], 3), c("b", [[t("r")]], 5)])
    if D is not WebVTT:
        yield D("formatting", [c("a", [[t("p"), ON("italic"), t("q"), OFF("italic"), t("r")]], 3), c("b", [[t("s")]], 5)])
    yield D("three lines", [c("a", [[t("p")], [t("q")], [t("r")]], 3), c("b", [[t("s")], [t("u")]], 5)])


VARIANTS = [("LF", {}), ("CR LF", {"eol": "\r\n"}), ("a byte order mark", {"pre": BOM}), ("a byte order mark and CR LF", {"pre": BOM, "eol": "\r\n"}),
            ("no newline at the end", {"tail": ""}), ("CR LF, but not at the end", {"tail": "", "eol": "\r\n"}), ("empty lines at the end", {"tail": "\n\n\n\n"}),
            ("empty lines with CR LF at the end", {"tail": "\r\n\r\n\r\n", "eol": "\r\n"})]


def ends(D):
    def f(fam):
        for v, k in VARIANTS:
            for how in (None, "FILE"):
                for d in docs(D):
                    check_doc(fam, Ends(d, v, how=how, **k), [a for a in ASPECTS if not (D is SSA and a == "line")], **({"place": PL} if D is SSA else {}))
    family("%s: line ends" % D.__name__, 300)(f)


for D in TEXTS:
    ends(D)


for D in (SubRip, SSA):
    def alone(D):
        @family("%s: a byte order mark on a line of its own" % D.__name__)
        def f(fam):
            for eol in ("\n", "\r\n"):
                for pre in (BOM, BOM + eol, BOM + eol + eol, eol + BOM + eol if D is SSA else eol):
                    for how in (None, "FILE"):
                        for d in docs(D):
                            check_doc(fam, Ends(d, repr(pre.replace(BOM, "BOM ")), pre=pre + eol, eol=eol, how=how), [a for a in ASPECTS if not (D is SSA and a == "line")],
                                      **({"place": PL} if D is SSA else {}))
    alone(D)


LENGTHS = sorted({b + d for b in (255, 256, 510, 511, 512, 1023, 1024) for d in (-4, -3, -2, -1, 0, 1, 2)} | {100, 765, 2000, 4096, 5000})


SOME = (100, 254, 255, 256, 257, 510, 511, 512, 765, 1022, 1023, 1024)


def long(D, how):
    def f(fam):
        head = D("", [cue(D, "a", [[T("")]], 3)]).source()
        first = {SubRip: 0, WebVTT: 0, SSA: len("Dialogue: 0,0:00:03.00,0:00:04.00,Default,,0,0,0,,")}[D]
        for n in SOME if D is SubRip else LENGTHS:
            for eol in ("\n", "\r\n"):
                    if n - first < 10:
                        continue
                    # unknown characters where a buffer may end
                    x = cat("y" * (n - first - 9), chars("x", 3, S1), "z", chars("w", 2, S1), "end")
                    d = D("a line of %d bytes%s" % (n, " and CR LF" if eol != "\n" else ""), [cue(D, "a", [[T(x)]], 3), cue(D, "b", [[t("q")]], 5)])
                    check_doc(fam, Ends(d, "", eol=eol, how=how), ["text", "time"], **({"place": PL} if D is SSA else {}))
                    if n < 520:
                        d = D("a line of %d bytes at the end" % n, [cue(D, "a", [[T(x)]], 3)])
                        check_doc(fam, Ends(d, "", tail="", how=how), ["text", "time"], **({"place": PL} if D is SSA else {}))
    family("%s: long lines%s" % (D.__name__, " in a FILE" if how else ""), 300)(f)


for D in TEXTS:
    long(D, None)
    long(D, "FILE")


@family("STL text")
def f(fam):
    A = lambda n: T(cat("A", chars(n, 2, S1), "B"))
    for v, k in VARIANTS:
        if "byte order" in v:
            continue
        for d in (STLText("one cue", [cue(STLText, "a", [[A("p")]], 3)]), STLText("one cue at any time", [cue(STLText, "a", [[A("p")]])]),
                  STLText("two cues", [cue(STLText, "a", [[A("p")], [A("q")]], 3), cue(STLText, "b", [[A("r")]], 5)]),
                  STLText("a setting", [cue(STLText, "a", [[A("p")]], 3)], settings="$Italic = True\r\n" if "CR" in v else "$Italic = True\n", base={"italic": 1})):
            check_doc(fam, Ends(d, v, **k), ASPECTS)
    for n in (255, 256, 1024, 5000):
        check_doc(fam, STLText("a line of %d bytes" % n, [cue(STLText, "a", [[T(cat("A" * (n - 5), chars("p", 3, S1), "B"))]], 3), cue(STLText, "b", [[A("r")]], 5)]), ["text", "time"])


def fields(s):
    return dict((n, v) for n, v in s.result.f.items() if n not in ("_tables",))


def binaries():
    b = lambda i, **k: stlbin.tti(cat("A", "BC", "\x8a", "\x80", "D%d" % i), tci=(0, 0, 1 + 2 * i, 0), tco=(0, 0, 2 + 2 * i, 0), **k)
    yield "no blocks", stlbin.stl([])
    yield "one block", stlbin.stl([b(0)])
    yield "three blocks", stlbin.stl([b(0), b(1), b(2)])
    yield "a comment", stlbin.stl([b(0), b(1, cf=1), b(2)])
    yield "an extension block", stlbin.stl([b(0, ebn=0), b(0), b(2)])
    yield "unknown titles", stlbin.stl([b(0)], OPT=stlbin.field("opt", 32), PUB=stlbin.field("pub", 32))
    yield "bytes after the blocks", cat(stlbin.stl([b(0)]), "more")


@family("binary STL")
def f(fam):
    for n, data in binaries():
        ref = stlbin.read_binary(fam, "binary STL, %s, from a stream" % n, data) or []
        if len(ref) != 1 or ref[0].ctl is not None:
            fam.undecided(SAME, n, "from a stream: %s" % [(fam.outcome(s), fam.where(s)) for s in ref][:5])
            continue
        want = fields(ref[0])
        label = "binary STL, %s, from a FILE" % n
        names = sorted(want)
        for s in read(fam, "sub::STLBinaryReader", label, data, how="FILE") or []:
            if s.ctl is not None:
                fam.unreachable(SAME, label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
                continue
            for x in names:
                fam.equal(SAME, "%s: %s" % (label, x), s, s.result.f[x], want[x])


def short(fam, label, data, how):
    for s in (stlbin.read_binary(fam, label, data) if how is None else read(fam, "sub::STLBinaryReader", label, data, how=how)) or []:
        if fam.outcome(s) == "throw sub::STLError":
            fam.ok("an incomplete file is refused", label)
        else:
            fam.unreachable("an incomplete file is refused", label, s, fam.outcome(s))


@family("binary STL: incomplete files")
def f(fam):
    whole = stlbin.stl([stlbin.tti(K("hello")), stlbin.tti(K("world"))])
    st = fam.I.start()
    for n in (0, 1, 10, 11, 500, 1023, 1024, 1025, 1024 + 127, 1024 + 128, 1024 + 255):
        for how in (None, "FILE"):
            short(fam, "the first %d bytes%s" % (n, " from a FILE" if how else ""), st.substr(whole, 0, n), how)


FACTORY = "reader_factory makes the reader for the file"


def made(fam, label, path, data, cls, expected=None):
    st = fam.I.start()
    st.mem[("content", path)] = data
    for s in fam.run(label, fam.fn("sub::reader_factory"), [K(path)], st=st, expect=expected) or []:
        if any(a == "opened" and not v for a, v in opened(s)):
            continue
        if s.ctl is not None:
            fam.unreachable(FACTORY, label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
            continue
        r = s.result
        o = s.read(r.r) if isinstance(r, Smart) and r.r is not None else None
        got = o.cls if o is not None else None
        if got == cls:
            fam.ok(FACTORY, label)
        else:
            fam.unreachable(FACTORY, label, s, "%s is made instead of %s" % (got, cls))
            continue
        if expected is not None and o is not None:
            s.result = o
            rr = raws(s)
            fam.equal(SAME, label, s, tup(texts(runs(rr))), tup(texts(s.mem["EXPECT"])))
            fam.equal(SAME, label + ": times", s, tup(times(runs(rr))), tup(times(s.mem["EXPECT"])))


def opened(s):
    """what is assumed about files which were opened"""
    for e in s.path:
        c = e[1] if isinstance(e, tuple) and len(e) == 2 else e
        x = repr(c)
        if "opened" in x:
            yield "opened", not x.startswith("!")


@family("reader_factory")
def f(fam):
    A = lambda n: T(cat("A", chars(n, 2, S1), "B"))
    srt = SubRip("", [cue(SubRip, "a", [[t("p")], [t("q")]], 3), cue(SubRip, "b", [[t("r")]], 5)])
    txt = STLText("", [cue(STLText, "a", [[A("p")], [A("q")]], 3), cue(STLText, "b", [[A("r")]], 5)])
    bi = stlbin.stl([stlbin.tti(K("hello"))])
    for ext in (".srt", ".SRT", ".Srt"):
        made(fam, "a SubRip file with %s" % ext, "/some/where/file" + ext, srt.source(), "sub::SubripReader", srt.expected())
    for ext in (".stl", ".STL", ".Stl"):
        made(fam, "an STL text file with %s" % ext, "/some/where/file" + ext, txt.source(), "sub::STLTextReader", txt.expected())
        made(fam, "a binary STL file with %s" % ext, "/some/where/file" + ext, bi, "sub::STLBinaryReader")
    for dfc in ("STL23.01", "STL24.01", "STL25.01", "STL30.01"):
        made(fam, "a binary STL file of %s" % dfc, "/some/where/file.stl", stlbin.stl([stlbin.tti(K("hello"))], DFC=dfc), "sub::STLBinaryReader")
    made(fam, "an STL text file with STL in its first line", "/some/where/file.stl", cat("// STL file\n", txt.source()), "sub::STLTextReader", txt.expected())
    made(fam, "an STL text file with a setting", "/some/where/file.stl", cat("$Italic = True\n", txt.source()), "sub::STLTextReader")
    for ext in ("", ".txt", ".srtx", ".st", ".xml"):
        made(fam, "a file with %s" % (ext or "no extension"), "/some/where/file" + ext, srt.source(), None)
    made(fam, "dots in the directory", "/some.srt/where.stl/file", srt.source(), None)
