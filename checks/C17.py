"""TTI blocks of a binary STL file, as read"""
import itertools

from check import *
from writer import *

EXPLANATION = ("STLBinaryReader is abstractly interpreted on files whose time codes, vertical positions and texts are unknown, and on all sequences of control codes of length two (thorough: three); "
               "the subtitles that it delivers are compared with what EBU Tech 3264 says that the blocks mean.")
RATES = {"STL23.01": (23976, 1000), "STL24.01": (24, 1), "STL25.01": (25, 1), "STL30.01": (30, 1)}
TEXT = "the text field is delivered with its lines, italics, underlining and colours"
TIME = "the time codes are delivered"
PLACE = "the vertical position and justification are delivered"
ACCENT = {0xc1: "\u0300", 0xc2: "\u0301", 0xc3: "\u0302", 0xc4: "\u0303", 0xc5: "\u0304", 0xc6: "\u0306", 0xc7: "\u0307", 0xc8: "\u0308", 0xca: "\u030a", 0xcb: "\u0327", 0xcd: "\u030b", 0xce: "\u0328", 0xcf: "\u030c"}
LETTER = {0xc1: "a", 0xc2: "e", 0xc3: "i", 0xc4: "n", 0xc5: "u", 0xc6: "g", 0xc7: "z", 0xc8: "u", 0xca: "a", 0xcb: "c", 0xcd: "o", 0xce: "a", 0xcf: "s"}


def read(fam, label, data, expect=()):
    r = []
    for s in stlbin.read_binary(fam, label, data, expect) or []:
        if s.ctl is not None:
            fam.unreachable("a well-formed file is read", label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
        else:
            r.append(s)
    return r


def meaning(data):
    """lines of runs (text, italic, underline, colour) of the (joined) text field of a subtitle"""
    import unicodedata
    lines = [[]]
    it = un = 0
    col = (1, 1, 1)
    accent = ""
    for c in data:
        o = ord(c)
        if o == 0x8f:
            break
        if o in (0x80, 0x81):
            it = 1 - (o & 1)
        elif o in (0x82, 0x83):
            un = 1 - (o & 1)
        elif o == 0x8a:
            lines.append([])
            col = (1, 1, 1)
            accent = ""
        elif o < 8:
            col = stlbin.COLOURS[o]
        elif o in ACCENT:
            accent = ACCENT[o]
        else:
            t = unicodedata.normalize("NFC", c + accent)
            accent = ""
            l = lines[-1]
            if l and l[-1][1:] == (it, un, col):
                l[-1] = (l[-1][0] + t,) + l[-1][1:]
            else:
                l.append((t, it, un, col))
    return lines


def want_runs(data, vp, when=None):
    out = []
    for j, l in enumerate(meaning(data)):
        if l:
            out.append((some(add(vp, j)), tuple((K(t.encode("utf-8").decode("latin-1")), (i, u, colour(*c))) for t, i, u, c in l)))
    return tuple(out)


def got_runs(s, extra=()):
    return tuple((l[0], tuple((t, f) for t, f in l[1])) for c in runs(raws(s), ("italic", "underline", "colour")) for l in c[1])


def compare(fam, label, s, want, rule=TEXT):
    rr = raws(s)
    if rr is None:
        fam.undecided(rule, label, "the subtitles are not known")
        return
    fam.equal(rule, label, s, got_runs(s), want)


def bytes_time(name, top):
    b = [chars("%s.%d" % (name, i), 1, [chr(x) for x in range(n)]) for i, n in enumerate((24, 60, 60, top))]
    h, m, ss, ff = (val(x) for x in b)
    return b, (add(mul(h, 3600), add(mul(m, 60), ss)), ff)


@family("time codes", 200)
def f(fam):
    for code, r in RATES.items():
        top = -(-r[0] // r[1])
        bl, w = [], []
        for i in range(2):
            a, av = bytes_time("%s in %d" % (code, i), top)
            b, bv = bytes_time("%s out %d" % (code, i), top)
            bl.append(stlbin.tti(K("one" if i == 0 else "two"), tci=a, tco=b))
            w.append((time_rec(av[0], av[1], r), time_rec(bv[0], bv[1], r)))
        for s in read(fam, code, stlbin.stl(bl, DFC=code), tuple(w)):
            rr = raws(s)
            fam.equal(TIME, code, s, tuple((x.f["from"], x.f["to"]) for x in rr), s.mem["EXPECT"])
            fam.equal(TEXT, code, s, tuple(x.f["text"] for x in rr), (K("one"), K("two")))


@family("time codes of all lines and runs", 200)
def f(fam):
    a, av = bytes_time("in", 25)
    b, bv = bytes_time("out", 25)
    w = (time_rec(av[0], av[1], (25, 1)), time_rec(bv[0], bv[1], (25, 1)))
    for s in read(fam, "five pieces", stlbin.stl([stlbin.tti(K("a\x80b\x81c\x8ad\x01e"), tci=a, tco=b)]), w):
        rr = [x for x in raws(s) if not (isinstance(x.f["text"], Str) and x.f["text"].const() == "")]
        fam.equal(TEXT, "five pieces", s, tuple(x.f["text"] for x in rr), tuple(K(c) for c in "abcde"))
        fam.equal(TIME, "five pieces", s, tuple((x.f["from"], x.f["to"]) for x in rr), (s.mem["EXPECT"],) * 5)


@family("positions", 200)
def f(fam):
    for n in (1, 2, 3):
        v = chars("vp%d" % n, 1, [chr(x) for x in range(0, 23 - n + 1)])
        for jc, ref in ((0, 1), (1, 0), (2, 1), (3, 2)):
            label = "%d lines, justification %d" % (n, jc)
            for s in read(fam, label, stlbin.stl([stlbin.tti(K("\x8a".join("abc"[:n])), vp=v, jc=jc)]), val(v)):
                w = s.mem["EXPECT"]
                rr = raws(s)
                fam.equal(PLACE, label, s, tuple(x.f["vertical_position"] for x in rr), tuple(vpos(line=add(w, j), lines=23, reference=0) for j in range(n)))
                fam.equal(PLACE, label + " (horizontal)", s, tuple(x.f["horizontal_position"].f["reference"] for x in rr), (ref,) * n)
    for rows in (11, 23, 40, 98):
        for vp in (0, 1, rows // 2, rows - 1, rows):
            label = "row %d of %d" % (vp, rows)
            for s in read(fam, label, stlbin.stl([stlbin.tti(K("x"), vp=vp)], MNR="%02d" % rows)):
                fam.equal(PLACE, label, s, tuple(x.f["vertical_position"] for x in raws(s)), (vpos(line=vp, lines=rows, reference=0),))
    # positions of several subtitles which do not all fit are moved by the same amount
    for a, b in ((1, 23), (23, 5), (20, 22), (10, 24)):
        label = "two lines from row %d, three from row %d of 23" % (a, b)
        for s in read(fam, label, stlbin.stl([stlbin.tti(K("a\x8ab"), vp=a), stlbin.tti(K("c\x8ad\x8ae"), tci=(0, 0, 3, 0), tco=(0, 0, 4, 0), vp=b)])):
            top = max(a + 1, b + 2)
            d = max(0, top - 23)
            fam.equal("lines below the screen are moved onto it, together with all others", label, s,
                      tuple(x.f["vertical_position"].f["line"] for x in raws(s)), tuple(some(x - d) for x in (a, a + 1, b, b + 1, b + 2)))


CODES = [chr(c) for c in list(range(8)) + [0x80, 0x81, 0x82, 0x83, 0x8a]]


def codes(first, n, tier="quick"):
    def f(fam):
        for rest in itertools.product(CODES, repeat=n - 1):
            t = "".join("%c%s" % (65 + i, c) for i, c in enumerate(first + "".join(rest))) + "Z"
            label = "text %s" % ascii(t)
            for s in read(fam, label, stlbin.stl([stlbin.tti(K(t)), stlbin.tti(K("next"), tci=(0, 0, 3, 0), tco=(0, 0, 4, 0))])):
                compare(fam, label, s, want_runs(t, 10) + want_runs("next", 10))
    family("%d codes, the first %02Xh" % (n, ord(first)), 300, tier)(f)


for c in CODES:
    codes(c, 2)
    codes(c, 3, "thorough")


@family("codes without text between them")
def f(fam):
    for a, b in itertools.product(CODES, repeat=2):
        t = a + b + "xy"
        label = "text %s" % ascii(t)
        for s in read(fam, label, stlbin.stl([stlbin.tti(K(t))])):
            compare(fam, label, s, want_runs(t, 10))


@family("texts")
def f(fam):
    for t in ("", " ", "A", "\x8aA", "A\x8a\x8aB", "a\x8a", "x" * 111, "x" * 112, "caf\xc2e", "\xc8u\xc8U\xc1a", "a b  c ", "!\"%&'()*+,-./:;<=>?@[]_{|}", "\x80", "\x8a\x8a", "\x80ab\x8acd",
              "\x82\x80ab\x81\x8acd\x83ef", "a\x8a\x8fjunk", "\x8fjunk", "a\x80\x8fjunk", "ab\x8fc", "a\x8f\x8f\x8fjunk\x80\x8f\x01x"):
        label = "text %s" % ascii(t[:20])
        for s in read(fam, label, stlbin.stl([stlbin.tti(K(t)), stlbin.tti(K("next"), tci=(0, 0, 3, 0), tco=(0, 0, 4, 0))])):
            compare(fam, label, s, want_runs(t, 10) + want_runs("next", 10))
    # what follows the end of the text does not count
    for s in read(fam, "after 8Fh", stlbin.stl([stlbin.tti(cat("ab\x8f", opaque("junk", [c for c in range(1, 256) if c != 0x8a], 0, 50)))])):
        compare(fam, "after 8Fh", s, want_runs("ab", 10))


@family("comments")
def f(fam):
    bl = lambda n, cf: stlbin.tti(K("text %d" % n), tci=(0, 0, n, 0), tco=(0, 0, n + 1, 0), cf=cf)
    for cfs in itertools.product((0, 1), repeat=3):
        label = "comment flags %s" % (cfs,)
        for s in read(fam, label, stlbin.stl([bl(i, c) for i, c in enumerate(cfs)])):
            fam.equal("comments are left out, and nothing else", label, s, tuple((x.f["text"], x.f["from"].f["_seconds"]) for x in raws(s)),
                      tuple((K("text %d" % i), i) for i, c in enumerate(cfs) if not c))


@family("each subtitle has its own details")
def f(fam):
    v = [chars("v%d" % i, 1, [chr(x) for x in range(20)]) for i in range(3)]
    bl = [stlbin.tti(K("text %d" % i), tci=(0, i, 7, i), tco=(0, i, 8, 2 * i), vp=v[i], jc=i + 1, sn=i, sgn=i, cs=i) for i in range(3)]
    for s in read(fam, "three subtitles", stlbin.stl(bl), tuple(val(x) for x in v)):
        w = s.mem["EXPECT"]
        fam.equal("each block is a subtitle with its own details", "three subtitles", s,
                  tuple((x.f["text"], x.f["from"], x.f["to"], x.f["vertical_position"].f["line"], x.f["horizontal_position"].f["reference"]) for x in raws(s)),
                  tuple((K("text %d" % i), time_rec(60 * i + 7, i, (25, 1)), time_rec(60 * i + 8, 2 * i, (25, 1)), some(w[i]), i) for i in range(3)))


EXT = "the text goes on in extension blocks"


def extended(fam, label, pieces, follow=True):
    """a subtitle in several blocks: only the first says when and where"""
    bl = []
    for i, p in enumerate(pieces):
        t, jc, vp = (1, 2, 6) if i == 0 else (50 + i, 3, 2 + i)
        bl.append(stlbin.tti(K(p), tci=(0, 0, t, 0), tco=(0, 0, t + 1, 0), vp=vp, jc=jc, ebn=0xff if i == len(pieces) - 1 else i))
    if follow:
        bl.append(stlbin.tti(K("next"), tci=(0, 0, 3, 0), tco=(0, 0, 4, 0), vp=10, jc=2))
    for s in read(fam, label, stlbin.stl(bl)):
        compare(fam, label, s, want_runs("".join(pieces), 6) + (want_runs("next", 10) if follow else ()), EXT)
        rr = raws(s)
        fam.equal(EXT + " with the times and place of the first", label, s,
                  tuple((x.f["from"].f["_seconds"], x.f["to"].f["_seconds"], x.f["horizontal_position"].f["reference"]) for x in rr if x.f["text"].const() != "next"),
                  ((1, 2, 1),) * (len(rr) - follow))


@family("extension blocks", 300)
def f(fam):
    t = "a\x80b\x8ac\xc2e\x82d\x01f\x83\x81g\x8a\x8ah"
    for i in range(len(t) + 1):
        extended(fam, "text %s, from block to block after %d bytes" % (ascii(t), i), [t[:i], t[i:]])
    x = ("abcdefghijklmnopqrstuvwxyz" * 20)
    for n in (113, 224, 225, 300):
        extended(fam, "%d characters" % n, [x[i:min(i + 112, n)] for i in range(0, n, 112)])
    extended(fam, "four blocks", ["a\x80b", "c\x04d", "e\x8af", "g\xc3"], False)
    extended(fam, "eight blocks", list("abcdefgh"))


@family("characters over the end of a block", 300)
def f(fam):
    for m, l in sorted(LETTER.items()):
        for a, x in (("", ""), ("a", "b"), ("\x80a\x8a", "b\x81"), ("\xc2a", "")):
            # the mark at the end of one block, and its letter at the start of the next
            extended(fam, "mark %02Xh at the end of a block, after %s" % (m, ascii(a)), [a + chr(m), l + x])


@family("many extension blocks", 300)
def f(fam):
    for n in (16, 17, 18, 40):
        extended(fam, "%d blocks" % n, [chr(97 + i % 26) for i in range(n)])


@family("very many extension blocks", 600, "thorough")
def f(fam):
    extended(fam, "240 blocks", [chr(97 + i % 26) for i in range(240)])


@family("subtitles after extension blocks", 300)
def f(fam):
    for ns in ((2, 2), (1, 3, 1), (3, 1, 2)):
        bl, want = [], ()
        for i, n in enumerate(ns):
            ps = ["\x82%s\x81" % "abc"[j] if j % 2 else "\x80%s\x8a" % "xyz"[j] for j in range(n)]
            for j, p in enumerate(ps):
                bl.append(stlbin.tti(K(p), tci=(0, 0, 10 * i, 0), tco=(0, 0, 10 * i + 5, 0), vp=5 + i, ebn=0xff if j == n - 1 else j))
            want += want_runs("".join(ps), 5 + i)
        label = "subtitles of %s blocks" % (ns,)
        for s in read(fam, label, stlbin.stl(bl)):
            compare(fam, label, s, want, EXT)
