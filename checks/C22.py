"""arithmetic of times"""
from fractions import Fraction
from check import *
from inputs import *

EXPLANATION = ("The constructors, accessors and arithmetic of Time are abstractly interpreted for unknown hours, minutes, seconds and frames at the usual "
               "rates and compared with the instants; roundings are bounded by what they round.")

RATES = [(24, 1), (25, 1), (30, 1), (48, 1), (60, 1), (1000, 1), (50, 2)]
ODD = [(24000, 1001), (30000, 1001)]
M = "sub::Time::"


def rt(r):
    return "%d/%d" % r


def parts(tag, rate, hours=99):
    top = -(-rate[0] // rate[1]) - 1
    return (sym("h" + tag, lo=0, hi=hours), sym("m" + tag, lo=0, hi=59), sym("s" + tag, lo=0, hi=59), sym("f%s@%s" % (tag, rt(rate)), lo=0, hi=top))


def secs(p):
    return add(mul(p[0], 3600), add(mul(p[1], 60), p[2]))


def instant(p, rate):
    return add(secs(p), mul(p[3], Fraction(rate[1], rate[0])))


def build(fam, name, p, rate):
    """the states after Time::from_hmsf"""
    fam.I.floats = True
    out = fam.run(name, fam.fn(M + "from_hmsf"), [p[0], p[1], p[2], p[3], some(rational(*rate))])
    r = []
    for s in out or []:
        if fam.outcome(s) != "ok":
            fam.unreachable("a time can be made", name, s, fam.outcome(s))
            continue
        s.mem["T"] = s.result
        r.append(s)
    return r


def call(fam, name, f, args, s):
    """final states of a call on T; exceptions are violations"""
    out = []
    for x in fam.run(name, fam.fn(M + f), args, Ref("T"), s.copy()) or []:
        if fam.outcome(x) != "ok":
            fam.unreachable("no exception", name, x, "%s throws %s" % (f, fam.outcome(x)))
        else:
            out.append(x)
    return out


def near(fam, rule, name, s, got, exact, tol):
    """|got - exact| <= tol"""
    if not isnum(got):
        fam.undecided(rule, name, repr(got)[:100])
        return
    d = sub(got, exact)
    fam.truth(rule, name, s, True, ("and", le(d, tol), le(neg(d), tol)), "%s is within %s of %s" % (fmt_num(got)[:100], tol, fmt_num(exact)[:100]))


@family("hours, minutes, seconds and frames")
def f(fam):
    for rate in RATES + ODD:
        p = parts("", rate)
        for s in build(fam, "from_hmsf at " + rt(rate), p, rate):
            for what, want in (("hours", p[0]), ("minutes", p[1]), ("seconds", p[2])):
                for x in call(fam, what + " at " + rt(rate), what, [], s):
                    fam.equal("a time has the parts that it was made of", "%s at %s" % (what, rt(rate)), x, x.result, want)
            for x in call(fam, "frames_at " + rt(rate), "frames_at", [rational(*rate)], s):
                fam.equal("a time has the parts that it was made of", "frames at " + rt(rate), x, x.result, p[3])
    p = parts("", (1000, 1))
    for s in fam.run("from_hms", fam.fn(M + "from_hms"), list(p)) or []:
        s.mem["T"] = s.result
        for what, want in (("hours", p[0]), ("minutes", p[1]), ("seconds", p[2]), ("milliseconds", p[3])):
            for x in call(fam, what + " after from_hms", what, [], s):
                fam.equal("a time has the parts that it was made of", what + " after from_hms", x, x.result, want)


@family("frames at another rate are the nearest ones")
def f(fam):
    for rate in RATES + ODD:
        p = parts("", rate)
        for s in build(fam, "from_hmsf at " + rt(rate), p, rate):
            for r2 in RATES + ODD:
                if r2 != rate:
                    n = "%s as frames at %s" % (rt(rate), rt(r2))
                    for x in call(fam, n, "frames_at", [rational(*r2)], s):
                        near(fam, "conversion to the nearest frame", n, x, x.result, mul(p[3], Fraction(rate[1] * r2[0], rate[0] * r2[1])), Fraction(1, 2))
            for x in call(fam, "milliseconds of %s" % rt(rate), "milliseconds", [], s):
                near(fam, "conversion to the nearest millisecond", "milliseconds of %s" % rt(rate), x, x.result, mul(p[3], Fraction(rate[1] * 1000, rate[0])), Fraction(1, 2))


@family("the whole time in seconds")
def f(fam):
    for rate in RATES + ODD:
        p = parts("", rate)
        for s in build(fam, "from_hmsf at " + rt(rate), p, rate):
            n = "all_as_seconds of %s" % rt(rate)
            for x in call(fam, n, "all_as_seconds", [], s):
                near(fam, "the whole time in seconds", n, x, x.result, instant(p, rate), Fraction(1, 2000))


def check_frames(fam, rule, n, x, t, rate):
    fr = t.f.get("_frames")
    if isnum(fr):
        fam.truth(rule, n, x, True, ("and", le(0, fr), lt(fr, Fraction(*rate))), "there are fewer frames than the frame rate")


def value(t):
    r = t.f["_rate"].v
    return add(t.f["_seconds"], mul(t.f["_frames"], Fraction(r.f["denominator"], r.f["numerator"])))


@family("a time from a number of frames")
def f(fam):
    for rate in RATES:
        n = "from_frames at " + rt(rate)
        fam.I.floats = True
        k = sym("frames%d.%d" % rate, lo=0, hi=86400 * 20 * rate[0])
        for s in fam.run(n, fam.fn(M + "from_frames"), [k, rational(*rate)]) or []:
            if fam.outcome(s) != "ok":
                fam.unreachable("no exception", n, s, fam.outcome(s))
                continue
            check_frames(fam, "frames stay below the rate", n, s, s.result, rate)
            fam.equal("a time from a number of frames is that many frames", n, s, value(s.result), mul(k, Fraction(rate[1], rate[0])))


@family("the sum of two times")
def f(fam):
    for ra in RATES:
        for rb in RATES:
            n = "%s added to %s" % (rt(rb), rt(ra))
            p, q = parts("a", ra, 50), parts("b", rb, 50)
            for s in build(fam, n, p, ra):
                t1 = s.result
                for s2 in build_from(fam, n, q, rb, s):
                    for x in call(fam, n, "add", [s2.result], s2):
                        t = x.mem["T"]
                        fast = max(ra, rb, key=lambda r: Fraction(*r))
                        check_frames(fam, "frames stay below the rate", n, x, t, fast)
                        want = add(instant(p, ra), instant(q, rb))
                        if ra == rb == (1000, 1):
                            fam.equal("the sum is the sum of the instants", n, x, value(t), want)
                        else:
                            # each time is known to the nearest millisecond, the sum to the nearest frame
                            near(fam, "the sum is the sum of the instants", n, x, value(t), want, Fraction(1, 1000) + Fraction(fast[1], 2 * fast[0]))


def build_from(fam, name, p, rate, s):
    out = fam.run(name, fam.fn(M + "from_hmsf"), [p[0], p[1], p[2], p[3], some(rational(*rate))], None, s.copy())
    return [x for x in out or [] if fam.outcome(x) == "ok"]


@family("a scaled time")
def f(fam):
    for rate in RATES:
        for k in (Fraction(1, 2), Fraction(3, 4), 1, Fraction(5, 4), 2, Fraction(24, 25), Fraction(25, 24)):
            n = "%s scaled by %s" % (rt(rate), k)
            p = parts("", rate)
            for s in build(fam, n, p, rate):
                for x in call(fam, n, "scale", [k], s):
                    t = x.mem["T"]
                    check_frames(fam, "frames stay below the rate", n, x, t, rate)
                    near(fam, "the scaled time is the scaled instant", n, x, value(t), mul(instant(p, rate), k), Fraction(k) / 2000 + Fraction(rate[1], 2 * rate[0]))


@family("a time without a frame rate")
def f(fam):
    for what, args in (("frames_at", [rational(25, 1)]), ("milliseconds", []), ("all_as_seconds", [])):
        st = fam.I.start()
        st.mem["T"] = time_rec(sym("s", lo=0, hi=359999), sym("f", lo=0, hi=99), None)
        n = what + " without a frame rate"
        for x in fam.run(n, fam.fn(M + what), args, Ref("T"), st) or []:
            if fam.outcome(x) == "throw sub::UnknownFrameRateError":
                fam.ok("an unknown frame rate is reported", n)
            else:
                fam.unreachable("an unknown frame rate is reported", n, x, fam.outcome(x))


@family("frame rates")
def f(fam):
    rates = RATES + ODD + [(60000, 1001), (23976, 1000)]
    mx = fam.fn("sub::max", lambda k: "Rational" in k)
    for ra in rates:
        for rb in rates:
            st = fam.I.start()
            st.mem["A"], st.mem["B"] = rational(*ra), rational(*rb)
            n = "max of %s and %s" % (rt(ra), rt(rb))
            for x in fam.run(n, mx, [Ref("A"), Ref("B")], st=st) or []:
                if fam.outcome(x) != "ok":
                    fam.unreachable("no exception", n, x, fam.outcome(x))
                    continue
                r = x.result
                r = x.read(r) if isinstance(r, Ref) else r
                fam.equal("the larger of two rates", n, x, fdiv(r.f["numerator"], r.f["denominator"]), max(Fraction(*ra), Fraction(*rb)))
    k = fam.fn("sub::Rational::integer")
    for r in rates:
        st = fam.I.start()
        st.mem["A"] = rational(*r)
        for x in fam.run("integer " + rt(r), k, [], Ref("A"), st) or []:
            fam.truth("whole rates", rt(r), x, x.result, r[0] % r[1] == 0)
    n = sym("numerator", lo=1, hi=100000)
    st = fam.I.start()
    st.mem["A"] = rational(n, 1)
    for x in fam.run("integer n/1", k, [], Ref("A"), st) or []:
        fam.truth("whole rates", "n/1", x, x.result, True)
