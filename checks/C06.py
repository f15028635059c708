"""positions of SSA/ASS subtitles"""
from fractions import Fraction
import itertools

from check import *
from textdocs import *
import ebu

EXPLANATION = ("SSAReader is abstractly interpreted on files with every alignment (in the style, by an override, or none), with margins of unknown size in the style and in the event, with "
               "several resolutions and numbers of lines; the position of each line must be where the alignment, margins, font size and resolution put it.")
RULE = "each line is where its alignment, margins and font size put it"
ABC = [chr(c) for c in range(97, 123)]
TOL = Fraction(1, 100000)


def refs(fam):
    v = ebu.enumerators(fam.I, "VerticalReference")
    h = ebu.enumerators(fam.I, "HorizontalReference")
    return ([v["BOTTOM_OF_SCREEN"]] * 3 + [v["VERTICAL_CENTRE_OF_SCREEN"]] * 3 + [v["TOP_OF_SCREEN"]] * 3,
            [h["LEFT_OF_SCREEN"], h["HORIZONTAL_CENTRE_OF_SCREEN"], h["RIGHT_OF_SCREEN"]] * 3)


def source(res, style, event, text):
    """style: dict of columns or None; event: (MarginL, MarginR, MarginV)"""
    s = [K("[Script Info]\n")]
    if res is not None:
        s.append(K("PlayResX: %d\nPlayResY: %d\n" % res))
    if style is not None:
        n = list(style)
        s += [K("[V4+ Styles]\nFormat: Name, " + ", ".join(n) + "\nStyle: Default")]
        for k in n:
            s += [K(","), style[k] if isinstance(style[k], Str) else K(str(style[k]))]
        s.append(K("\n"))
    s.append(K("[Events]\nFormat: " + SSA.FORMAT + "\nDialogue: 0,0:00:01.00,0:00:02.00,Default,,"))
    for m in event:
        s += [m if isinstance(m, Str) else K(m), K(",")]
    s += [K(","), text, K("\n")]
    return cat(*s)


def inv(x):
    return Fraction(1, x)


def where(fam, an, n, size, ml, mr, mv, res):
    """(vertical reference, vertical, horizontal reference, horizontal) of each of n lines for alignment an (1-9)"""
    vr, hr = refs(fam)
    row, col = (an - 1) // 3, (an - 1) % 3
    line = mul(size, Fraction(12, 10) * inv(res[1]))
    out = []
    for k in range(n):
        if row == 0:
            v = add(mul(mv, inv(res[1])), mul(line, n - 1 - k))
        elif row == 1:
            v = sub(mul(line, k), mul(line, Fraction(n, 2)))
        else:
            v = add(mul(mv, inv(res[1])), mul(line, k))
        h = mul(sub(ml, mr), inv(2 * res[0])) if col == 1 else mul(ml if col == 0 else mr, inv(res[0]))
        out.append((some(vr[an - 1]), some(v), hr[an - 1], h))
    return tuple(out)


def compare(fam, label, data, want):
    key = reader_key(fam, SSA.cls)
    for s in fam.make(label, key, [data], expect=want) or []:
        if s.ctl is not None:
            fam.unreachable("a well-formed document is read", label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
            continue
        rr = raws(s)
        if rr is None or any(isinstance(x, Many) for x in rr):
            fam.undecided(RULE, label, "the list of subtitles is not known")
            continue
        got = tuple((x.f["vertical_position"].f["reference"], x.f["vertical_position"].f["proportional"], x.f["horizontal_position"].f["reference"],
                     x.f["horizontal_position"].f["proportional"]) for x in rr)
        fam.equal(RULE, label, s, got, s.mem["EXPECT"], TOL)


def lines_text(n, before=""):
    """lines separated by both kinds of line breaks"""
    return K(before + "".join(("\\N" if (n + i) % 2 else "\\n") * (i > 0) + ABC[i] for i in range(n)))


RES = [(1920, 1080), (640, 480), None]


@family("alignment of the style", 300)
def f(fam):
    for an in range(1, 10):
        for n in (1, 2, 3, 5):
            for res in RES:
                st = {"Fontsize": 30, "Alignment": an, "MarginL": digits("l", 2), "MarginR": digits("r", 2), "MarginV": digits("v", 3)}
                label = "alignment %d, %d lines, resolution %s" % (an, n, res)
                compare(fam, label, source(res, st, ("0", "0", "0"), lines_text(n)),
                        where(fam, an, n, 30, num(st["MarginL"]), num(st["MarginR"]), num(st["MarginV"]), res or (288, 288)))


@family("alignment by an override", 300)
def f(fam):
    for base in range(1, 10):
        for an in range(1, 10):
            for n in (1, 3):
                res = RES[(base + an) % 3]
                st = {"Alignment": base, "MarginL": digits("l", 2), "MarginR": digits("r", 2), "MarginV": digits("v", 3), "Fontsize": 40}
                label = "alignment %d in the style, \\an%d, %d lines" % (base, an, n)
                compare(fam, label, source(res, st, ("0", "0", "0"), lines_text(n, "{\\an%d}" % an)),
                        where(fam, an, n, 40, num(st["MarginL"]), num(st["MarginR"]), num(st["MarginV"]), res or (288, 288)))


@family("margins of the event", 300)
def f(fam):
    z = ("0", "00", "0000")
    nz = lambda name: cat(chars(name + "a", 1, "123456789"), digits(name + "b", 2))
    for an in range(1, 10):
        for which in range(8):
            for zero in z:
                st = {"Alignment": an, "MarginL": "11", "MarginR": "22", "MarginV": "33", "Fontsize": 50}
                ev = [nz("lrv"[i]) if which >> i & 1 else K(zero) for i in range(3)]
                w = [num(ev[i]) if which >> i & 1 else (11, 22, 33)[i] for i in range(3)]
                label = "alignment %d, margins given in the event: %d of 0-7, others %s" % (an, which, zero)
                compare(fam, label, source((1920, 1080), st, ev, lines_text(2)), where(fam, an, 2, 50, w[0], w[1], w[2], (1920, 1080)))
    # four digits
    for an in (1, 5, 9):
        st = {"Alignment": an, "MarginL": "11", "MarginR": "22", "MarginV": "33", "Fontsize": 50}
        ev = [cat("0", digits("q%d" % i, 2), chars("p%d" % i, 1, "123456789")) for i in range(3)]
        compare(fam, "alignment %d, margins of four digits" % an, source((1920, 1080), st, ev, lines_text(2)), where(fam, an, 2, 50, num(ev[0]), num(ev[1]), num(ev[2]), (1920, 1080)))


@family("margins without a style", 300)
def f(fam):
    for res in RES:
        r = res or (288, 288)
        for n in (1, 2, 4):
            # a font of 72 points and bottom centre are the defaults
            compare(fam, "no style, %d lines, resolution %s" % (n, res), source(res, None, ("0", "0", "0"), lines_text(n)), where(fam, 2, n, 72, 0, 0, 0, r))
            ev = [cat(chars("m%d" % i, 1, "123456789"), digits("n%d" % i, 1)) for i in range(3)]
            compare(fam, "no style, margins, %d lines, resolution %s" % (n, res), source(res, None, ev, lines_text(n)), where(fam, 2, n, 72, num(ev[0]), num(ev[1]), num(ev[2]), r))
            for an in range(1, 10):
                compare(fam, "no style, margins, \\an%d, %d lines, resolution %s" % (an, n, res), source(res, None, ev, lines_text(n, "{\\an%d}" % an)),
                        where(fam, an, n, 72, num(ev[0]), num(ev[1]), num(ev[2]), r))


@family("font size", 300)
def f(fam):
    for an in (2, 5, 8):
        for n in (1, 2, 3):
            d = cat(chars("f", 1, "123456789"), digits("g", 1))
            for res in RES:
                compare(fam, "font size unknown, alignment %d, %d lines, resolution %s" % (an, n, res), source(res, {"Fontsize": d, "Alignment": an, "MarginV": "10"}, ("0", "0", "0"), lines_text(n)),
                        where(fam, an, n, num(d), 0, 0, 10, res or (288, 288)))


@family("formatting does not move text", 300)
def f(fam):
    for an in (1, 5, 9):
        for ov in ("\\i1", "\\b1", "\\c&H102030&", "\\u0", "\\foo", "\\i1\\b0"):
            st = {"Alignment": an, "MarginL": "11", "MarginR": "22", "MarginV": "33", "Fontsize": 50}
            w = where(fam, an, 2, 50, 11, 22, 33, (1920, 1080))
            compare(fam, "alignment %d, %s within lines" % (an, ov), source((1920, 1080), st, ("0", "0", "0"), K("a{%s}b\\N{%s}c{%s}d" % (ov, ov, ov))), (w[0], w[0], w[1], w[1]))
            compare(fam, "alignment %d, %s between lines" % (an, ov), source((1920, 1080), st, ("0", "0", "0"), K("a{%s}\\Nc" % ov)), w)


@family("\\pos", 300)
def f(fam):
    v = ebu.enumerators(fam.I, "VerticalReference")["TOP_OF_SCREEN"]
    h = ebu.enumerators(fam.I, "HorizontalReference")["LEFT_OF_SCREEN"]
    for res in RES:
        r = res or (288, 288)
        x, y = digits("x", 3), digits("y", 3)
        one = (some(v), some(mul(num(y), inv(r[1]))), h, mul(num(x), inv(r[0])))
        for style in (None, {"Fontsize": 20, "Alignment": 2}, {"Fontsize": 20, "Alignment": 5}, {"Fontsize": 20, "Alignment": 9, "MarginL": 5, "MarginR": 6}):
            label = "\\pos, resolution %s, style %s" % (res, style)
            compare(fam, label, source(res, style, ("0", "0", "0"), cat("{\\pos(", x, ",", y, ")}a")), (one,))
            # text before is where it would be otherwise
            w = where(fam, style["Alignment"] if style else 2, 1, style["Fontsize"] if style else 72, style.get("MarginL", 0) if style else 0,
                      style.get("MarginR", 0) if style else 0, 0, r)
            compare(fam, label + ", in the middle", source(res, style, ("0", "0", "0"), cat("b{\\pos(", x, ",", y, ")}a")), w + (one,))
        compare(fam, "\\pos with fractions, resolution %s" % (res,), source(res, None, ("0", "0", "0"), K("{\\pos(100.5,20.25)}a")),
                ((some(v), some(Fraction(2025, 100) / r[1]), h, Fraction(1005, 10) / r[0]),))


SUBRIP_AN = "\\an in SubRip puts text where it says"


@family("\\an in SubRip", 300)
def f(fam):
    vr, hr = refs(fam)
    for an in range(1, 10):
        d = SubRip("\\an%d" % an, [cue(SubRip, "a", [[("raw", K("{\\an%d}" % an)), T("x")], [T("y")]], 3), cue(SubRip, "b", [[T("z")]], 5)])
        for s in read(fam, d.cls, d.name, d.source()) or []:
            if s.ctl is not None:
                fam.unreachable("a well-formed document is read", d.name, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
                continue
            rr = raws(s)
            fam.equal(SUBRIP_AN, d.name, s, tuple((x.f["vertical_position"].f["reference"], x.f["horizontal_position"].f["reference"], x.f["horizontal_position"].f["proportional"])
                                                  for x in rr[:2]), ((some(vr[an - 1]), hr[an - 1], 0),) * 2)
