"""locales"""
from fractions import Fraction

from check import *
from textdocs import *
from writer import *
import stlbin

EXPLANATION = ("The readers, the metadata and the writer are abstractly interpreted twice: in the C locale, and with a decimal comma and digit grouping in force, be it in the C library "
               "(scanf, strtod, printf, localeconv), in the global locale of C++ (streams, lexical_cast), or in both. The results must not differ.")
RULE = "the locale makes no difference"
COMMA = (",", ".")
LOCALES = [("a decimal comma in the C library", COMMA, None), ("a decimal comma in C++", None, COMMA), ("a decimal comma in both", COMMA, COMMA), ("grouped thousands", (".", ","), (".", ",")),
           ("grouped thousands and a decimal comma", (",", " "), (",", " "))]
X = chars("text", 3, safe(" <{\\}|^,&\xef"))


def each(fam, label, run, view):
    """run gives final states; view what matters of one"""
    def go(c, cpp):
        fam.I.c_locale, fam.I.cpp_locale = c, cpp
        try:
            out = run() or []
            r = []
            for s in out:
                r.append((fam.outcome(s), s, view(s) if s.ctl is None else None))
            return r
        finally:
            fam.I.c_locale = fam.I.cpp_locale = None
    base = go(None, None)
    oks = [v for o, s, v in base if o == "ok"]
    outcomes = {o for o, s, v in base}
    for name, c, cpp in LOCALES:
        what = "%s, with %s" % (label, name)
        for o, s, v in go(c, cpp):
            if o != "ok":
                if o not in outcomes:
                    fam.unreachable(RULE, what, s, "%s at %s" % (o, fam.where(s)))
                else:
                    fam.ok(RULE, what)
                continue
            if len(oks) != 1:
                fam.undecided(RULE, what, "%d results in the C locale" % len(oks))
                continue
            fam.equal(RULE, what, s, v, oks[0])


def subs(s):
    r = raws(s)
    return tuple(r) if r is not None else "unknown"


def text(fam, cls, label, doc):
    doc = doc if isinstance(doc, Str) else K(doc)
    each(fam, label, lambda: read(fam, cls, label, doc), subs)


SUBRIP = "1\n%s --> 01:02:07,250\n%s\n\n"


@family("SubRip")
def f(fam):
    for label, times, line in (("times", "01:02:03,456", K("p")), ("unknown text", "00:00:01,000", X), ("a colour", "00:00:01,000", K("<font color=\"#0a0B0c\">p</font>q")),
                               ("a colour in rgba", "00:00:01,000", K("<font color=\"rgba(10,200,30,1)\">p</font>q")), ("positions", "00:00:01,000", K("{\\an8}{\\pos(12.5,7.25)}p")),
                               ("formatting", "00:00:01,000", K("<i>p</i><B>q</B>"))):
        text(fam, "sub::SubripReader", label, cat(*[K("1\n%s --> 01:02:07,250\n" % times), line, K("\n\n")]))


@family("WebVTT")
def f(fam):
    for label, times, line in (("times", "01:02:03.456", K("p")), ("unknown text", "00:00:01.000", X)):
        text(fam, "sub::WebVTTReader", label, cat(K("WEBVTT\n\n1\n%s --> 01:02:07.250\n" % times), line, K("\n\n")))


STYLE = "Format: Name, Fontname, Fontsize, PrimaryColour, BackColour, Bold, Italic, Underline, BorderStyle, Alignment, MarginL, MarginR, MarginV\nStyle: Default,Arial,%s,&H102030,&H0,0,0,0,0,%d,%s,%s,%s\n"


@family("SSA")
def f(fam):
    def doc(x="p", size="20", margins=("10", "20", "30"), own=("0", "0", "0"), res=("640", "480"), times=("1:02:03.45", "1:02:07.89"), alignment=2):
        x = x if isinstance(x, Str) else K(x)
        return cat(K("[Script Info]\nPlayResX: %s\nPlayResY: %s\n[V4+ Styles]\n" % res + STYLE % ((size, alignment) + tuple(margins)) + "[Events]\nFormat: " + SSA.FORMAT
                     + "\nDialogue: 0,%s,%s,Default,,%s,%s,%s,," % (times + tuple(own))), x, K("\n"))
    for label, d in [("times", doc()), ("unknown text", doc(X)), ("a screen of thousands", doc(res=("3840", "2160"))), ("a fractional size of the style", doc(size="22.5")),
                     ("margins of the event", doc(own=("11", "12", "13.5"))), ("a thousand as margin", doc(own=("1000", "1200", "1500"), res=("3840", "2160"))),
                     ("\\pos", doc("{\\pos(12.5,7.25)}p")), ("\\pos of thousands", doc("{\\pos(1234,1000.5)}p", res=("3840", "2160"))), ("\\fs", doc("{\\fs22.5}p")), ("\\fs of thousands", doc("{\\fs1000}p")),
                     ("\\c", doc("{\\c&H102030&}p")), ("\\an", doc("{\\an7}p"))] + [("alignment %d" % a, doc(alignment=a)) for a in range(1, 10)]:
        text(fam, "sub::SSAReader", label, d)


@family("STL text")
def f(fam):
    for label, d in (("times", K("01:02:03:12 , 01:02:07:20 , p\n")), ("unknown text", cat("01:02:03:12 , 01:02:07:20 , ", X, "\n")), ("a font size", K("$FontSize = 42\n01:02:03:12 , 01:02:07:20 , p\n")),
                     ("a large font size", K("$FontSize = 1234\n01:02:03:12 , 01:02:07:20 , p\n"))):
        text(fam, "sub::STLTextReader", label, d)


def binary(fam, label, data):
    def run():
        out = []
        for s in stlbin.read_binary(fam, label, data) or []:
            if s.ctl is not None:
                out.append(s)
                continue
            s.mem["R"] = s.result
            whole = s.result
            for t in fam.run(label, fam.fn("sub::STLBinaryReader::metadata"), [], Ref("R"), st=s) or []:
                t.mem["WHOLE"] = whole
                out.append(t)
        return out

    def view(t):
        w = t.mem["WHOLE"]
        names = sorted(n for n, v in w.f.items() if isnum(v) or isinstance(v, Str))
        sub_ = w.f["_subs"]
        r = t.result
        return tuple(w.f[n] for n in names) + tuple(sub_.items) + tuple(x for k, v in sorted(r.items, key=lambda z: str(z[0])) for x in (k, v))
    each(fam, label, run, view)


@family("binary STL")
def f(fam):
    binary(fam, "numbers below a thousand", stlbin.stl([stlbin.tti(K("abc"))], TNS="00321", TNG="017", CPN="437"))
    binary(fam, "a thousand subtitles", stlbin.stl([], TNS="01000"))
    binary(fam, "many subtitles", stlbin.stl([], TNS="98765", MNC="40"))
    for c in ("STL23.01", "STL24.01", "STL25.01", "STL29.01", "STL30.01", "STL50.01"):
        binary(fam, "frame rate %s" % c, stlbin.stl([stlbin.tti(K("abc"), tci=(1, 2, 3, 4), tco=(1, 2, 9, 22))], DFC=c))
    binary(fam, "text", stlbin.stl([stlbin.tti(K("abc\xc8ade"))]))


@family("writing binary STL", 200)
def f(fam):
    def output(label, n, **k):
        ls = [simple("abc", i + 1) for i in range(n)]
        def run():
            return good(fam, "a good list is written", label, write(fam, label, ls, **k))
        each(fam, label, run, lambda s: written(s))
    for n in (0, 1, 3):
        output("%d subtitles" % n, n)
    for fps in (24, 25, 30):
        output("%d frames per second" % fps, 1, fps=fps)
    output("revision 42", 1, RN=42)
    # the counts are of five digits: some thousand blocks, without running the writer on them
    k = [q for q in fam.I.fn if "put_int_as_string" in q and fam.I.fn[q][1].get("body") is not None]
    for q in k[:1]:
        for v, w in ((7, 2), (42, 2), (7, 5), (999, 5), (1000, 5), (12345, 5), (99999, 5)):
            label = "the number %d in %d digits" % (v, w)

            def run():
                st = fam.I.start()
                st.mem["B"] = K("." * 8)
                return fam.run(label, q, [Ptr(Ref("B", (("i", 0),))), v, w], st=st)
            each(fam, label, run, lambda s: s.mem["B"])
