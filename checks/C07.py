"""colours"""
from fractions import Fraction

from check import *
from textdocs import *

EXPLANATION = ("Colour::from_rgb_hex and from_rgba_hex are abstractly interpreted on unknown hexadecimal digits, and the readers on files in which colours are written in every way that the formats have, "
               "with unknown digits; each component must be the number written for it, divided by 255.")
RULE = "a colour has the components written for it, from 0 to 1"
BAD = "what is not a colour is reported"
S1 = safe(" <{\\}|^,&\xef")
N = lambda *v: tuple(Fraction(i, 255) for i in v)


def hexes(name, n=6):
    """digits, and the numbers of their pairs"""
    x = chars(name, n, HEX)
    return x, [unit(hexnum(Str(x.segs[i:i + 2]))) for i in range(0, n, 2)]


def same(fam, label, s, got, want):
    fam.equal(RULE, label, s, (got.f["r"], got.f["g"], got.f["b"]), tuple(want), Fraction(1, 100000))
    for n in "rgb":
        fam.truth("components are between 0 and 1", "%s: %s" % (label, n), s, True, ("and", le(0, got.f[n]), le(got.f[n], 1)), fmt_num(got.f[n])[:100])


def direct(fam, label, fn, source, want):
    for s in fam.run(label, fam.fn("sub::Colour::" + fn), [source]) or []:
        if s.ctl is not None:
            fam.unreachable("a well-formed colour is read", label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
            continue
        same(fam, label, s, s.result, want)


@family("hexadecimal")
def f(fam):
    x, w = hexes("x")
    direct(fam, "from_rgb_hex", "from_rgb_hex", x, w)
    x, w = hexes("x", 8)
    direct(fam, "from_rgba_hex", "from_rgba_hex", x, w[:3])
    for v in ("000000", "ffffff", "FFFFFF", "ff0000", "00ff00", "0000ff", "0a0B0c", "010203", "fefdfc"):
        c = N(*(int(v[i:i + 2], 16) for i in (0, 2, 4)))
        direct(fam, "from_rgb_hex %s" % v, "from_rgb_hex", K(v), c)
        for a in ("00", "ff", "7F"):
            direct(fam, "from_rgba_hex %s%s" % (v, a), "from_rgba_hex", K(v + a), c)
    for fn, vs in (("from_rgb_hex", ("", "z", "ff", "ffff", "zzzzzz", "ffzzzz", "ffffzz", "#ffffff")), ("from_rgba_hex", ("", "ffffff", "ffffffzz", "zzffffff", "#ffffffff"))):
        for v in vs:
            label = "%s %s" % (fn, v or "(nothing)")
            for s in fam.run(label, fam.fn("sub::Colour::" + fn), [K(v)]) or []:
                if fam.outcome(s) == "throw sub::XMLError":
                    fam.ok(BAD, label)
                else:
                    fam.unreachable(BAD, label, s, "%s for what is not a colour" % fam.outcome(s))


def find(fam, label, cls, source, text, want, what="colour"):
    """the colour (or effect colour) of the piece with this text"""
    for s in read(fam, cls, label, source) or []:
        if s.ctl is not None:
            fam.unreachable("a well-formed colour is read", label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
            continue
        rr = raws(s)
        if rr is None or any(isinstance(x, Many) for x in rr):
            fam.undecided(RULE, label, "the list of subtitles is not known: %s" % s.imp)
            continue
        mine = [x for x in rr if repr(x.f["text"]) == repr(text)]
        if len(mine) != 1:
            fam.equal("the text whose colour it is, is a piece of its own", label, s, tuple(x.f["text"] for x in rr), (text,))
            continue
        c = mine[0].f[what]
        if isinstance(c, Opt):
            if c.e is not True:
                fam.equal(RULE, label, s, c, some(colour(*want)))
                continue
            c = c.v
        same(fam, label, s, c, want)


def ssa(columns, values, text, style="Default"):
    return cat("[Script Info]\n[V4+ Styles]\nFormat: Name, " + columns + "\nStyle: Default,", values, "\n[Events]\nFormat: " + SSA.FORMAT + "\nDialogue: 0,0:00:01.00,0:00:02.00," + style + ",,0,0,0,,", text, "\n")


def decimal(name, n):
    d = cat(chars(name + "a", 1, "123456789"), digits(name + "b", n - 1)) if n > 1 else digits(name, 1)
    return d, num(d)


T1 = K("text")


@family("SSA: styles")
def f(fam):
    for col, what in (("PrimaryColour", "colour"), ("BackColour", "effect_colour")):
        for n, pre in ((6, ""), (8, ""), (6, "00"), (6, "7F"), (6, "ff")):
            x, w = hexes("x", n)
            bgr = w[-3:]
            find(fam, "%s &H%s and %d digits" % (col, pre, n), SSA.cls, ssa(col, cat("&H" + pre, x), T1), T1, bgr[::-1], what)
            find(fam, "%s &H%s and %d digits, among others" % (col, pre, n), SSA.cls,
                 ssa("Fontname, Fontsize, SecondaryColour, %s, OutlineColour, Bold" % col, cat("Arial,20,&H00ABCDEF,&H" + pre, x, ",&H00FEDCBA,0"), T1), T1, bgr[::-1], what)
        for v, c in (("&H0", (0, 0, 0)), ("&HFF", (255, 0, 0)), ("&HFF00", (0, 255, 0)), ("&HFF0000", (0, 0, 255)), ("&H00FFFFFF", (255, 255, 255)), ("&H1", (1, 0, 0)), ("&H80", (128, 0, 0)),
                     ("&H010203", (3, 2, 1)), ("&HFF010203&", (3, 2, 1)), ("&HFFFFFF", (255, 255, 255)), ("&H80000008", (8, 0, 0))):
            find(fam, "%s %s" % (col, v), SSA.cls, ssa(col, K(v), T1), T1, N(*c), what)
        for v in (0, 1, 255, 256, 65535, 65536, 16777215, 8421504, 65280, 16711680, 1193046, 16777216 + 66051, 2147483647):
            find(fam, "%s %d" % (col, v), SSA.cls, ssa(col, K(str(v)), T1), T1, N(v & 255, v >> 8 & 255, v >> 16 & 255), what)
        # small numbers are amounts of red
        for n in (1, 2):
            d, v = decimal("d", n)
            find(fam, "%s of %d decimal digits" % (col, n), SSA.cls, ssa(col, d, T1), T1, (mul(v, Fraction(1, 255)), 0, 0), what)


@family("SSA: overrides")
def f(fam):
    for lead in ("", "b"):
        for n in (6, 8):
            x, w = hexes("x", n)
            for pre in ("", "\\b1", "\\foo"):
                find(fam, "\\c of %d digits%s%s" % (n, pre and " after " + pre, lead and " within text"), SSA.cls, ssa("Bold", K("0"), cat(lead + "{" + pre + "\\c&H", x, "&}text")), T1, w[-3:][::-1])
        for v, c in (("&HFF&", (255, 0, 0)), ("&HFF00&", (0, 255, 0)), ("&HFF0000&", (0, 0, 255)), ("&H0&", (0, 0, 0)), ("&HFFFFFF&", (255, 255, 255)), ("&H1&", (1, 0, 0))):
            find(fam, "\\c%s%s" % (v, lead and " within text"), SSA.cls, ssa("Bold", K("0"), K(lead + "{\\c" + v + "}text")), T1, N(*c))
        x, w = hexes("x")
        find(fam, "\\c goes back to the style's %s" % (lead and " within text"), SSA.cls, ssa("PrimaryColour", cat("&H", x), K(lead + "{\\c&H123456&}other{\\c}text")), T1, w[::-1])
        y, v = hexes("y")
        find(fam, "\\c twice%s" % (lead and " within text"), SSA.cls, ssa("PrimaryColour", K("&Habcdef"), cat(lead + "{\\c&H", x, "&}other{\\c&H", y, "&}text")), T1, v[::-1])
        find(fam, "\\c twice, the first%s" % (lead and " within text"), SSA.cls, ssa("PrimaryColour", K("&Habcdef"), cat(lead + "{\\c&H", x, "&}text{\\c&H", y, "&}other")), T1, w[::-1])


def srt(text):
    return cat("1\n00:00:01,000 --> 00:00:02,000\n", text, "\n")


@family("SubRip")
def f(fam):
    for lead in ("", "b"):
        for q in ('"', "'", ""):
            for n in (6, 8):
                x, w = hexes("x", n)
                for extra in ("", " size=3", " face='Arial'"):
                    label = "<font color=%s#%s, %d digits%s%s" % (q, q, n, extra, lead and " within text")
                    find(fam, label, SubRip.cls, srt(cat(lead + "<font color=" + q + "#", x, q + extra + ">text</font>b")), T1, w[:3])
        for n in (1, 2, 3):
            ds = [decimal(c, n) if n < 3 else (lambda a: (cat("1", a), add(100, num(a))))(digits(c, 2)) for c in "rgb"]
            for fmt in ("rgba(%s,%s,%s,%s)", "rgba(%s, %s, %s, %s)", "rgba( %s ,%s , %s,%s )"):
                p = fmt.split("%s")
                src = cat(lead + '<font color="' + p[0], ds[0][0], p[1], ds[1][0], p[2], ds[2][0], p[3], digits("a", 2), p[4] + '">text</font>b')
                find(fam, "%s with %d digits%s" % (fmt % (("n",) * 4), n, lead and " within text"), SubRip.cls, srt(src), T1, [mul(v, Fraction(1, 255)) for _, v in ds])
        for r, g, b in ((255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 255), (254, 128, 1)):
            find(fam, "rgba(%d,%d,%d)%s" % (r, g, b, lead and " within text"), SubRip.cls, srt(K(lead + '<font color="rgba(%d,%d,%d,0)">text</font>b' % (r, g, b))), T1, N(r, g, b))
        x, w = hexes("x")
        find(fam, "{\\c}%s" % (lead and " within text"), SubRip.cls, srt(cat(lead + "{\\c&H", x, "&}text")), T1, w[::-1])


@family("SubRip: not colours")
def f(fam):
    for v in ("", "red", "#", "#12345", "#1234567", "#123456789", "#zzzzzz", "rgba(1,2,3)", "rgba(1,2,3,4,5)", "rgba(a,b,c,d)", "123456"):
        label = "<font color=\"%s\">" % v
        for s in read(fam, SubRip.cls, label, srt(K(label + "text</font>"))) or []:
            if fam.outcome(s) == "throw sub::SubripError":
                fam.ok(BAD, label)
            else:
                fam.unreachable(BAD, label, s, "%s for what is not a colour" % fam.outcome(s))


@family("SSA: not colours")
def f(fam):
    for v in ("{\\cred}", "{\\cH102030&}", "{\\c102030&}", "{\\c&}", "{\\c&102030&}"):
        label = "override %s" % v
        for s in read(fam, SSA.cls, label, ssa("Bold", K("0"), K(v + "text"))) or []:
            if fam.outcome(s) == "throw sub::SSAError":
                fam.ok(BAD, label)
            else:
                fam.unreachable(BAD, label, s, "%s for what is not a colour" % fam.outcome(s))
