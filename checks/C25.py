"""places, sizes and ratios"""
from fractions import Fraction
from check import *
from inputs import *

EXPLANATION = ("VerticalPosition::fraction_from_screen_top and operator<, the conversions of FontSize and those of Rational are abstractly interpreted on unknown proportions, lines, sizes and screens, "
               "and their results compared, as formulas, with what the values denote.")
PLACE = "a vertical position is where it says"
ORDER = "vertical positions are ordered from the top of the screen down"
SIZE = "a font size in one unit converts to the other"
RATIO = "ratios have the value of numerator over denominator"
TOP, CENTRE, BOTTOM, SUBTITLE = range(4)
NAMES = ("top of screen", "centre", "bottom", "top of subtitle")
EPS = Fraction(1, 100000)


def unknown(name, lo=0, hi=1):
    return sym(name, False, lo=Fraction(lo), hi=Fraction(hi))


def from_top(reference, prop):
    return {TOP: prop, CENTRE: add(prop, Fraction(1, 2)), BOTTOM: sub(1, prop), SUBTITLE: prop}[reference]


def run(fam, label, q, this, args=(), make=None, rule=PLACE, n=None, pat=None):
    st = fam.I.start()
    st.mem["A"] = this
    for i, a in enumerate(make or []):
        st.mem["B%d" % i] = a
    for s in fam.run(label, fam.fn(q, pat, n), list(args) + [Ref("B%d" % i) for i in range(len(make or []))], Ref("A") if this is not None else None, st) or []:
        if s.ctl is not None:
            fam.unreachable(rule, label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
            continue
        yield s


FRACTION = "sub::VerticalPosition::fraction_from_screen_top"


@family("places on the screen")
def f(fam):
    for r in range(4):
        p = unknown("p", -1, 2)
        label = "a proportion from %s" % NAMES[r]
        for s in run(fam, label, FRACTION, vpos(proportional=p, reference=r)):
            fam.equal(PLACE, label, s, s.result, from_top(r, p), EPS)
        l = sym("line", lo=-99, hi=999)
        for n in (1, 2, 12, 23, 99, 1080):
            label = "a line of %d from %s" % (n, NAMES[r])
            for s in run(fam, label, FRACTION, vpos(line=l, lines=n, reference=r)):
                fam.equal(PLACE, label, s, s.result, from_top(r, mul(l, Fraction(1, n))), EPS)
        for i in (0, 1, 11, 12):
            n = sym("lines", lo=1, hi=9999)
            label = "line %d of an unknown number from %s" % (i, NAMES[r])
            for s in run(fam, label, FRACTION, vpos(line=i, lines=n, reference=r)):
                fam.equal(PLACE, label, s, s.result, from_top(r, fdiv(i, n)), EPS)
        label = "a proportion and lines from %s" % NAMES[r]
        for s in run(fam, label, FRACTION, vpos(p, l, 12, r)):
            fam.equal(PLACE, label, s, s.result, from_top(r, p), EPS)


@family("places which are not known")
def f(fam):
    p, l = unknown("p"), sym("line", lo=0, hi=99)
    for label, v in [("nothing", vpos()), ("a proportion without a reference", vpos(proportional=p)), ("a line without a reference", vpos(line=l, lines=12))] + [
            x for r in range(4) for x in ((NAMES[r] + " alone", vpos(reference=r)), ("a line from %s, of an unknown number" % NAMES[r], vpos(line=l, reference=r)),
                                          ("a number of lines from %s, but no line" % NAMES[r], vpos(lines=12, reference=r)))]:
        for s in run(fam, label, FRACTION, v):
            fam.equal("a place which is not known counts as the top", label, s, s.result, 0)


@family("order of places")
def f(fam):
    p, q = unknown("p"), unknown("q")
    l, m = sym("l", lo=0, hi=99), sym("m", lo=0, hi=99)
    for a in range(4):
        for b in range(4):
            for what, x, y, fx, fy in (("proportions", vpos(proportional=p, reference=a), vpos(proportional=q, reference=b), p, q),
                                       ("lines of one screen", vpos(line=l, lines=16, reference=a), vpos(line=m, lines=16, reference=b), mul(l, Fraction(1, 16)), mul(m, Fraction(1, 16))),
                                       ("lines of two screens", vpos(line=l, lines=16, reference=a), vpos(line=m, lines=64, reference=b), mul(l, Fraction(1, 16)), mul(m, Fraction(1, 64))),
                                       ("a proportion and a line", vpos(proportional=p, reference=a), vpos(line=m, lines=32, reference=b), p, mul(m, Fraction(1, 32)))):
                label = "%s from %s and from %s" % (what, NAMES[a], NAMES[b])
                for s in run(fam, label, "sub::VerticalPosition::operator<", x, make=[y], rule=ORDER):
                    fam.truth(ORDER, label, s, s.result, lt(from_top(a, fx), from_top(b, fy)), "the first is further up")


@family("font sizes")
def f(fam):
    h, n = sym("screen", lo=1, hi=9999), sym("points", lo=0, hi=999)
    p = unknown("p")
    PR, PT = "sub::FontSize::proportional", "sub::FontSize::points"
    for s in run(fam, "points as points", PT, font_size(points=n), [h], rule=SIZE, n=1):
        fam.equal(SIZE, "points as points", s, s.result, n)
    for s in run(fam, "a proportion as a proportion", PR, font_size(proportional=p), [h], rule=SIZE, n=1):
        fam.equal(SIZE, "a proportion as a proportion", s, s.result, p)
    for k in (1, 2, 288, 792, 1080, 11 * 72):
        label = "points as a proportion of %d" % k
        for s in run(fam, label, PR, font_size(points=n), [k], rule=SIZE, n=1):
            fam.equal(SIZE, label, s, s.result, mul(n, Fraction(1, k)), EPS)
        label = "a proportion of %d as points" % k
        for s in run(fam, label, PT, font_size(proportional=p), [k], rule=SIZE, n=1):
            d = sub(s.result, mul(p, k))
            fam.truth("rounding is by less than a point", label, s, True, ("and", lt(-1, d), lt(d, 1)), "less than a point off")
    for k in (0, 1, 42, 999):
        label = "%d points as a proportion" % k
        for s in run(fam, label, PR, font_size(points=k), [h], rule=SIZE, n=1):
            fam.equal(SIZE, label, s, s.result, fdiv(k, h), EPS)
    for label, v, w in (("nothing", font_size(), False), ("points", font_size(points=n), True), ("a proportion", font_size(proportional=p), True), ("both", font_size(p, n), True)):
        for s in run(fam, "whether %s is specified" % label, "sub::FontSize::specified", v, rule=SIZE):
            fam.truth(SIZE, "whether %s is specified" % label, s, s.result, w, "a size is specified")
        for q, x in ((PR, v.f["_proportional"]), (PT, v.f["_points"])):
            what = "%s of %s" % (q.split(":")[-1], label)
            for s in run(fam, what, q, v, n=0, rule=SIZE) if 0 else run(fam, what, q, v, rule=SIZE, pat=lambda k: fam.I.fn[k][1]["params"] == []):
                fam.equal(SIZE, what, s, s.result, x)
    for label, q, x, w in (("from points", "sub::FontSize::from_points", n, font_size(points=n)), ("from a proportion", "sub::FontSize::from_proportional", p, font_size(proportional=p))):
        for s in fam.run(label, fam.fn(q), [x]) or []:
            fam.equal(SIZE, label, s, s.result, w)


@family("ratios")
def f(fam):
    a, b = sym("numerator", lo=1, hi=1000000), sym("denominator", lo=1, hi=1001)
    R = "sub::Rational::"
    for d in (1, 2, 3, 10, 1001):
        label = "over %d" % d
        for s in run(fam, label, R + "fraction", rational(a, d), rule=RATIO):
            fam.equal(RATIO, "fraction, " + label, s, s.result, mul(a, Fraction(1, d)), EPS)
        for s in run(fam, label, R + "integer_fraction", rational(a, d), rule=RATIO):
            r = sub(mul(Fraction(1, d), a), s.result)
            fam.truth(RATIO, "whole part, " + label, s, True, ("and", le(0, r), lt(r, 1)), "the whole part")
    for n in (24, 25, 30, 24000, 30000, 60000, 1000):
        label = "%d over" % n
        for s in run(fam, label, R + "fraction", rational(n, b), rule=RATIO):
            fam.equal(RATIO, "fraction, " + label, s, s.result, fdiv(n, b), EPS)
        for d in (1, 2, 3, 5, 7, 12, 1001, n):
            label = "%d/%d" % (n, d)
            for s in run(fam, label, R + "integer", rational(n, d), rule=RATIO):
                fam.truth(RATIO, "whether %s is whole" % label, s, s.result, n % d == 0, "it is whole")
    ks = fam.fn("sub::max", "Rational")
    c = sym("other numerator", lo=1, hi=1000000)
    for d, e in ((1, 1), (1, 1001), (1001, 1), (2, 3), (1001, 1001)):
        label = "the larger of ratios over %d and %d" % (d, e)
        st = fam.I.start()
        st.mem["A"], st.mem["B"] = rational(a, d), rational(c, e)
        for s in fam.run(label, ks, [Ref("A"), Ref("B")], None, st) or []:
            if s.ctl is not None:
                fam.unreachable(RATIO, label, s, fam.outcome(s))
                continue
            r = s.result if isinstance(s.result, Rec) else s.read(s.result)
            x, y = mul(a, Fraction(1, d)), mul(c, Fraction(1, e))
            g = fdiv(r.f["numerator"], r.f["denominator"])
            fam.truth(RATIO, label, s, True, ("and", le(x, g), ("and", le(y, g), ("or", eq(sub(x, g), 0), eq(sub(y, g), 0)))), "the larger one")
