"""ordering of times"""
from fractions import Fraction
from check import *
from inputs import *

EXPLANATION = ("The comparison operators of Time are abstractly interpreted for unknown seconds and frames at every pair of the usual frame rates, and compared "
               "with the order of the instants.")

RATES = [(24, 1), (25, 1), (30, 1), (48, 1), (50, 1), (60, 1), (1000, 1), (24000, 1001), (30000, 1001), (60000, 1001), (90000, 1)]
OPS = [("operator<", "lt"), ("operator>", "gt"), ("operator==", "eq"), ("operator!=", "ne")]


def op(fam, name):
    return fam.fn("sub::" + name, lambda k: k.count("Time") >= 1 and "Raw" not in k and "S2_" in k, 2)


def time(fam, name, rate, s):
    top = 0 if rate is None else -(-rate[0] // rate[1]) - 1
    fr = sym("%s.frames%s" % (name, "" if rate is None else "@%d/%d" % rate), lo=0, hi=99 if rate is None else top)
    return time_rec(s, fr, rate), fr


def seconds():
    """two unknown numbers of seconds: the same, the first smaller, the first larger"""
    s = sym("seconds", lo=0, hi=359999)
    t = add(s, add(1, sym("more seconds", lo=0, hi=359999)))
    return [("in the same second", s, s), ("the first in an earlier second", s, t), ("the first in a later second", t, s)]


def want(kind, A, B):
    l, g, e = lt(A, B), lt(B, A), eq(sub(A, B), 0)
    return {"lt": l, "gt": g, "eq": e, "ne": ("not", e)}[kind]


def compare(fam, ra, rb, what):
    fam.I.overflows = []
    compare2(fam, ra, rb, what)
    fam.no_overflow("no signed overflow", what)


def compare2(fam, ra, rb, what):
    for o, kind in OPS:
        for where, sa, sb in seconds():
            ta, fa = time(fam, "a", ra, sa)
            tb, fb = time(fam, "b", rb, sb)
            st = fam.I.start()
            st.mem["A"] = ta
            st.mem["B"] = tb
            name = "%s, %s, %s" % (o, what, where)
            A = add(sa, mul(fa, Fraction(ra[1], ra[0]) if ra else Fraction(1, 100000)))
            B = add(sb, mul(fb, Fraction(rb[1], rb[0]) if rb else Fraction(1, 100000)))
            for s in fam.run(name, op(fam, o), [Ref("A"), Ref("B")], st=st) or []:
                if fam.outcome(s) != "ok":
                    fam.unreachable("comparable times are compared", name, s, fam.outcome(s))
                    continue
                fam.truth("the order of times is that of the instants", name, s, s.result, want(kind, A, B))


@family("both times have the same rate")
def f(fam):
    for r in RATES:
        compare(fam, r, r, "both at %d/%d" % r)
    compare(fam, None, None, "neither has a rate")


for i, ra in enumerate(RATES):
    def g(ra):
        @family("a time at %d/%d against other rates" % ra)
        def f(fam):
            for rb in RATES:
                if rb != ra:
                    compare(fam, ra, rb, "%d/%d against %d/%d" % (ra + rb))
    g(ra)


def any_rate(fam, what, ra, rb, extra=()):
    """unknown frame rates"""
    for o, kind in OPS:
        for where, sa, sb in seconds():
            st = fam.I.start()
            fa, fb = sym("a.frames", lo=0, hi=999), sym("b.frames", lo=0, hi=999)
            if "same" in where and kind in ("eq", "ne") and extra == "equal":
                fb = fa
            st.mem["A"] = Rec("sub::Time", dict(time_rec(sa, fa, (25, 1)).f, _rate=some(rational(*ra))))
            st.mem["B"] = Rec("sub::Time", dict(time_rec(sb, fb, (25, 1)).f, _rate=some(rational(*rb))))
            name = "%s, %s, %s" % (o, what, where)
            # frames stay below the rate
            st.assume(lt(mul(fa, ra[1]), ra[0]), True)
            st.assume(lt(mul(fb, rb[1]), rb[0]), True)
            A = mul(fa, mul(ra[1], rb[0]))
            B = mul(fb, mul(rb[1], ra[0]))
            w = {"in the same second": {"lt": lt(A, B), "gt": lt(B, A), "eq": eq(sub(A, B), 0), "ne": ("not", eq(sub(A, B), 0))}[kind],
                 "the first in an earlier second": kind in ("lt", "ne"), "the first in a later second": kind in ("gt", "ne")}[where]
            for s in fam.run(name, op(fam, o), [Ref("A"), Ref("B")], st=st) or []:
                if fam.outcome(s) != "ok":
                    fam.unreachable("comparable times are compared", name, s, fam.outcome(s))
                    continue
                fam.truth("the order of times is that of the instants", name, s, s.result, w)


def unknown(name):
    return sym(name, lo=1, hi=100000)


@family("unknown frame rates")
def f(fam):
    n, m, d, e = unknown("a.numerator"), unknown("b.numerator"), unknown("a.denominator"), unknown("b.denominator")
    any_rate(fam, "any rates", (n, d), (m, e))
    any_rate(fam, "the same rate", (n, d), (n, d))
    any_rate(fam, "the same numerator", (n, d), (n, e))
    any_rate(fam, "the same denominator", (n, d), (m, d))
    any_rate(fam, "whole rates", (n, 1), (m, 1))
    any_rate(fam, "one whole rate", (n, 1), (m, e))
    any_rate(fam, "the same frames", (n, d), (m, e), "equal")
    for k in (2, 5, 1000):
        any_rate(fam, "a rate in other words, times %d" % k, (n, d), (mul(n, k), mul(d, k)))


@family("rates with equal parts")
def f(fam):
    for ra, rb in (((24000, 1000), (24000, 1001)), ((30000, 1001), (30000, 1000)), ((24, 1), (24000, 1000)), ((50, 2), (25, 1)), ((50, 2), (50, 1)),
                   ((60000, 2002), (30000, 1001)), ((1000, 40), (1000, 1)), ((48, 2), (50, 2))):
        compare(fam, ra, rb, "%d/%d against %d/%d" % (ra + rb))
        compare(fam, rb, ra, "%d/%d against %d/%d" % (rb + ra))


@family("one time has no rate")
def f(fam):
    for o, kind in OPS:
        for ra, rb in (((25, 1), None), (None, (25, 1))):
            # same second: which is first depends on the unknown rate
            s0 = sym("seconds", lo=0, hi=359999)
            ta, _ = time(fam, "a", ra, s0)
            tb, _ = time(fam, "b", rb, s0)
            st = fam.I.start()
            st.mem["A"] = ta
            st.mem["B"] = tb
            name = "%s, %s" % (o, "only the first has a rate" if ra else "only the second has a rate")
            for s in fam.run(name, op(fam, o), [Ref("A"), Ref("B")], st=st) or []:
                if fam.outcome(s) == "throw sub::UnknownFrameRateError":
                    fam.ok("an unknown frame rate is reported", name)
                else:
                    fam.unreachable("an unknown frame rate is reported", name, s, "times in the same second, one without a frame rate, are compared: %s" % fam.outcome(s))
