"""dump"""
from fractions import Fraction
from check import *
from inputs import *
from state import *
import models
import stlbin

EXPLANATION = ("sub::dump is abstractly interpreted on readers with lists of raw subtitles (unknown texts; every pattern of italics and underline in up to three pieces, every kind of position), "
               "and what it writes to the stream is compared with what the subtitles are.")
RULE = "all of the subtitles are printed"
T = [c for c in range(1, 256)]
RATE = (1000, 1)
REFERENCE = {0: "top", 1: "centre", 2: "bottom", 3: "top of subtitle", None: None}


def word(name, n=3):
    return chars(name, n, T)


def at(n, ms=0, rate=RATE):
    return time_rec(n, ms, rate), "%02d:%02d:%02d:%d" % (n // 3600, n // 60 % 60, n % 60, ms) + (" @ %d/%d" % rate if rate else "")


def place(v):
    f = {k: (None if x.e is False else x.v) for k, x in v.f.items()}
    out = ""
    if f["proportional"] is not None:
        out = "%g of screen" % float(f["proportional"])
    elif f["line"] is not None and f["lines"] is not None:
        out = "%d lines of %d" % (f["line"], f["lines"])
    return out + ("" if f["reference"] is None else " from " + REFERENCE[f["reference"]])


def marked(pieces):
    out = []
    i = u = 0
    for t, a, b in pieces:
        if a != i:
            out.append("<i>" if a else "</i>")
        if b != u:
            out.append("<u>" if b else "</u>")
        i, u = a, b
        out.append(t)
    return cat(*(out + ["</i>" if i else "", "</u>" if u else ""]))


def dump(fam, label, raws_, want, cls="sub::SubripReader", fields=None):
    st = fam.I.start()
    st.mem["R"] = Rec(cls, dict(fields or {}, _subs=Vec(raws_)))
    st.mem["SUBS"] = Vec(raws_)
    st.mem["O"] = models.ostream(EMPTY)
    for s in fam.run(label, fam.fn("sub::dump"), [Smart(Ref("R"), "R"), Ref("O")], None, st, want) or []:
        if s.ctl is not None:
            fam.unreachable(RULE, label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
            continue
        fam.equal(RULE, label, s, s.mem["O"].f["out"], s.mem["EXPECT"])
        fam.equal("the subtitles stay as they are", label, s, s.mem["R"].f["_subs"], s.mem["SUBS"])


P1, P2, P3 = vpos(line=1, lines=12, reference=0), vpos(line=2, lines=12, reference=0), vpos(line=3, lines=12, reference=0)


def sub_(pieces, vp, f, t, **k):
    return [raw(x, italic=a, underline=b, vertical_position=vp, **dict({"from": f[0], "to": t[0]}, **k)) for x, a, b in pieces]


def head(n, f, t):
    return "Subtitle %d at %s -> %s\n" % (n, f[1], t[1])


@family("nothing")
def f(fam):
    dump(fam, "no subtitles", [], K(""))


@family("one line")
def f(fam):
    import itertools
    a, b = at(3723, 45), at(7322, 999)
    for n in (1, 2, 3):
        for flags in itertools.product((0, 1), repeat=2 * n):
            ps = [(word("t%d" % i), flags[2 * i], flags[2 * i + 1]) for i in range(n)]
            dump(fam, "pieces in italics and underlined: %s" % " ".join("%d%d" % (flags[2 * i], flags[2 * i + 1]) for i in range(n)), sub_(ps, P1, a, b),
                 cat(head(0, a, b), "\t" + place(P1) + "\t", marked(ps), "\n"))
    dump(fam, "no text", sub_([(K(""), 0, 0)], P1, a, b), cat(head(0, a, b), "\t" + place(P1) + "\t\n"))
    x = opaque("any", T, 0)
    dump(fam, "a text of any length", sub_([(x, 0, 0)], P1, a, b), cat(head(0, a, b), "\t" + place(P1) + "\t", x, "\n"))
    dump(fam, "bold and coloured", sub_([(x, 0, 0)], P1, a, b, bold=1, colour=colour(1, 0, 0)), cat(head(0, a, b), "\t" + place(P1) + "\t", x, "\n"))


@family("places")
def f(fam):
    a, b = at(1), at(2)
    x = word("t")
    for r in (None, 0, 1, 2, 3):
        for v in (vpos(reference=r), vpos(proportional=Fraction(1, 4), reference=r), vpos(line=7, lines=23, reference=r), vpos(line=7, reference=r), vpos(lines=7, reference=r), vpos(Fraction(1, 2), 3, 12, r),
                  vpos(proportional=0, reference=r), vpos(line=0, lines=12, reference=r)):
            dump(fam, "place %r from %s" % (place(v), REFERENCE[r]), sub_([(x, 0, 0)], v, a, b), cat(head(0, a, b), "\t" + place(v) + "\t", x, "\n"))


@family("several lines and subtitles")
def f(fam):
    a, b, c, d, e, g = [at(n * 61, n) for n in range(1, 7)]
    x, y, z = word("x"), word("y"), word("z")
    dump(fam, "two lines", sub_([(x, 1, 0)], P1, a, b) + sub_([(y, 0, 1)], P2, a, b),
         cat(head(0, a, b), "\t" + place(P1) + "\t", marked([(x, 1, 0)]), "\n\t" + place(P2) + "\t", marked([(y, 0, 1)]), "\n"))
    dump(fam, "three lines", sub_([(x, 0, 0)], P1, a, b) + sub_([(y, 0, 0)], P2, a, b) + sub_([(z, 0, 0)], P3, a, b),
         cat(head(0, a, b), "\t" + place(P1) + "\t", x, "\n\t" + place(P2) + "\t", y, "\n\t" + place(P3) + "\t", z, "\n"))
    dump(fam, "two subtitles", sub_([(x, 1, 1)], P1, a, b) + sub_([(y, 0, 0)], P1, c, d),
         cat(head(0, a, b), "\t" + place(P1) + "\t", marked([(x, 1, 1)]), "\n", head(1, c, d), "\t" + place(P1) + "\t", y, "\n"))
    dump(fam, "three subtitles, not in order", sub_([(z, 0, 0)], P1, e, g) + sub_([(x, 0, 0)], P1, a, b) + sub_([(y, 0, 0)], P2, c, d),
         cat(head(0, a, b), "\t" + place(P1) + "\t", x, "\n", head(1, c, d), "\t" + place(P2) + "\t", y, "\n", head(2, e, g), "\t" + place(P1) + "\t", z, "\n"))
    many = [at(i) for i in range(14)]
    want, rs = [], []
    for i in range(13):
        t = word("m%d" % i, 1)
        rs += sub_([(t, i % 2, 0)], P1, many[i], many[i + 1])
        want += [head(i, many[i], many[i + 1]), "\t" + place(P1) + "\t", marked([(t, i % 2, 0)]), "\n"]
    dump(fam, "thirteen subtitles", rs, cat(*want))


@family("times")
def f(fam):
    x = word("t")
    for n, ms, rate in ((0, 0, None), (59, 24, (25, 1)), (60, 7, (24, 1)), (3599, 1, (30000, 1001)), (3600, 999, RATE), (359999, 10, RATE), (360000, 0, RATE), (86399, 100, None)):
        a, b = at(n, ms, rate), at(n + 1, ms, rate)
        dump(fam, "from %s" % a[1], sub_([(x, 0, 0)], P1, a, b), cat(head(0, a, b), "\t" + place(P1) + "\t", x, "\n"))
    st = fam.I.start()
    for s in fam.run("unknown", fam.fn("sub::operator<<", "Time"), [Ref("O"), Ref("T")], None, (lambda st: (st.mem.update({"O": models.ostream(EMPTY), "T": T0}), st)[1])(st)) or []:
        sec, fr = T0.f["_seconds"], T0.f["_frames"]
        want = cat(models.dec(s, idiv(sec, 3600), 2), ":", models.dec(s, imod(idiv(sec, 60), 60), 2), ":", models.dec(s, imod(sec, 60), 2), ":", models.dec(s, fr), " @ 1000/1")
        fam.equal("a time is printed with all its digits", "unknown time", s, s.mem["O"].f["out"], want)


T0 = time_rec(sym("seconds", lo=0, hi=359999), sym("ms", lo=0, hi=999), RATE)


@family("metadata")
def f(fam):
    w = {n: field_(n) for n in ("OPT", "TN")}
    data = stlbin.stl([], **w)
    for s in stlbin.read_binary(fam, "metadata", data, tuple(w[n] for n in sorted(w))) or []:
        if s.ctl is not None:
            continue
        s.mem["R"] = s.result
        for t in fam.run("metadata", fam.fn("sub::STLBinaryReader::metadata"), [], Ref("R"), st=s) or []:
            m = t.result
            want = cat(*[y for k, v in sorted(m.items, key=lambda z: z[0].const()) for y in (k, ": ", v, "\n")])
            u = t.copy()
            u.mem["O"] = models.ostream(EMPTY)
            for v in fam.run("metadata", fam.fn("sub::dump"), [Smart(Ref("R"), "R"), Ref("O")], None, u, want) or []:
                if v.ctl is not None:
                    fam.unreachable(RULE, "metadata", v, "%s at %s" % (fam.outcome(v), fam.where(v)))
                    continue
                fam.equal("the metadata are printed", "metadata", v, v.mem["O"].f["out"], v.mem["EXPECT"])


def field_(n):
    return chars("f" + n, 32, [c for c in range(33, 127)])
