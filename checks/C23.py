"""collecting raw subtitles"""
import itertools
from fractions import Fraction
from check import *
from inputs import *

EXPLANATION = ("collect() is abstractly interpreted on lists of raw subtitles with unknown start times, for every pattern of equal and different times, fades and "
               "positions, and its result compared with the grouping that these require in each possible order of the times.")
RATE = (1000, 1)


def key_of(fam):
    ks = [k for k in fam.I.fn if "3sub7collect" in k and fam.I.fn[k][1].get("body") is not None]
    if not ks:
        raise AnalysisBroken("no instance of sub::collect found")
    fam.anchors += 1
    return sorted(ks)[0]


def at(s, ms=0):
    return time_rec(s, ms, RATE)


def orders(names):
    """all weak orders of the names: lists of lists of equals"""
    if not names:
        yield []
        return
    for n in range(1, len(names) + 1):
        for g in itertools.combinations(names, n):
            for rest in orders([x for x in names if x not in g]):
                yield [list(g)] + rest


def expected(order, items, same_cue, same_line):
    """items: index -> raw; order: list of lists of indices with the same start, earliest first"""
    seq = [i for g in order for i in sorted(g)]
    where = {i: n for n, g in enumerate(order) for i in g}
    out = []
    for i in seq:
        if out and where[out[-1][0]] == where[i] and same_cue(out[-1][0], i):
            ls = out[-1][1]
            if same_line(ls[-1][0], i):
                ls[-1].append(i)
            else:
                ls.append([i])
        else:
            out.append((i, [[i]]))

    def blk(r):
        return block(**{k: r.f[k] for k in ("text", "font", "font_size", "effect", "effect_colour", "colour", "bold", "italic", "underline")})
    r = []
    for first, ls in out:
        f = items[first]
        s = subtitle([line([blk(items[i]) for i in l], items[l[0]].f["vertical_position"], items[l[0]].f["horizontal_position"]) for l in ls], f.f["from"], f.f["to"])
        s.f["fade_up"] = f.f["fade_up"]
        s.f["fade_down"] = f.f["fade_down"]
        r.append(s)
    return Vec(r)


def check_collect(fam, name, items, same_cue, same_line, starts):
    k = key_of(fam)
    for s in fam.run(name, k, [Vec(items)]) or []:
        if fam.outcome(s) != "ok":
            fam.unreachable("subtitles are collected", name, s, fam.outcome(s))
            continue
        for order in orders(list(range(len(items)))):
            s2 = s.copy()
            ok = True
            for a, b in zip(order, order[1:]):
                ok = ok and s2.assume(lt(starts[a[0]], starts[b[0]]), True)
            for g in order:
                for x in g[1:]:
                    ok = ok and s2.assume(eq(sub(starts[x], starts[g[0]]), 0), True)
            if not ok:
                continue
            fam.equal("raw subtitles are grouped by time and position, in order", name, s2, s2.result,
                      expected(order, items, same_cue, same_line))


def patterns(n):
    """which of n items have equal values: lists of class numbers"""
    def go(p):
        if len(p) == n:
            yield p
            return
        for c in range(max(p, default=-1) + 2):
            for x in go(p + [c]):
                yield x
    return list(go([]))


def full(i, **k):
    """a raw subtitle whose contents are all its own"""
    n = "abcdefgh"[i]
    r = raw(opaque("text " + n, safe(), 1), font=some(opaque("font " + n, safe(), 1)), font_size=font_size(proportional=sym("size " + n, False, 0, 1)),
            effect=some(i % 2), effect_colour=some(colour(*[sym("effect %s %s" % (c, n), False, 0, 1) for c in "rgb"])),
            colour=colour(*[sym("%s %s" % (c, n), False, 0, 1) for c in "rgb"]), bold=i % 2, italic=(i + 1) % 2, underline=i % 2)
    r.f.update(k)
    return r


ATTRS = {
    "to": lambda c: {"to": at(100 + c)},
    "milliseconds of to": lambda c: {"to": at(100, 1 + c)},
    "fade_up": lambda c: {"fade_up": NONE if c == 0 else some(at(c))},
    "fade_down": lambda c: {"fade_down": NONE if c == 0 else some(at(c))},
    "horizontal reference": lambda c: {"horizontal_position": hpos(reference=c)},
    "horizontal proportion": lambda c: {"horizontal_position": hpos(proportional=Fraction(c, 10))},
    "line": lambda c: {"vertical_position": vpos(line=c, reference=3)},
    "line of so many": lambda c: {"vertical_position": vpos(line=c, lines=23, reference=0)},
    "number of lines": lambda c: {"vertical_position": vpos(line=3, lines=20 + c, reference=0)},
    "vertical proportion": lambda c: {"vertical_position": vpos(proportional=Fraction(c, 10), reference=2)},
    "vertical reference": lambda c: {"vertical_position": vpos(proportional=Fraction(1, 10), reference=c)},
}
CUE = ("to", "milliseconds of to", "fade_up", "fade_down")


for _a in ATTRS:
    def g(a):
        @family("patterns of " + a)
        def f(fam):
            for pat in patterns(3):
                starts = [sym("start%d" % i, lo=0, hi=99) for i in range(3)]
                items = []
                for i, c in enumerate(pat):
                    k = {"from": at(starts[i]), "to": at(100), "vertical_position": vpos(line=0, reference=3)}
                    k.update(ATTRS[a](c))
                    items.append(full(i, **k))
                same = lambda i, j: pat[i] == pat[j]
                yes = lambda i, j: True
                check_collect(fam, "%s like %s" % (a, pat), items, same if a in CUE else yes, yes if a in CUE else same, starts)
    g(_a)


@family("four pieces")
def f(fam):
    for lines in ((0, 0, 1, 1), (0, 1, 0, 1), (0, 1, 1, 2), (0, 0, 0, 0)):
        starts = [sym("start%d" % i, lo=0, hi=99) for i in (0, 0, 2, 2)]
        items = [full(i, **{"from": at(starts[i]), "to": at(100), "vertical_position": vpos(line=lines[i], reference=3)}) for i in range(4)]
        check_collect(fam, "two cues of two pieces, lines %s" % (lines,), items, lambda i, j: True, lambda i, j: lines[i] == lines[j], starts)


@family("nearly the same horizontal position")
def f(fam):
    k = key_of(fam)
    p, q = sym("p", False, 0, 1), sym("q", False, 0, 1)
    items = [full(i, **{"from": at(1), "to": at(2), "vertical_position": vpos(line=0, reference=3), "horizontal_position": hpos(proportional=x)}) for i, x in enumerate((p, q))]
    for s in fam.run("less than a pixel apart", k, [Vec(items)]) or []:
        d = sub(p, q)
        for cs, same in (([lt(d, Fraction(1, 1999)), lt(neg(d), Fraction(1, 1999))], True), ([le(Fraction(1, 1997), d)], False), ([le(Fraction(1, 1997), neg(d))], False)):
            s2 = s.copy()
            if all(s2.assume(c, True) for c in cs):
                fam.equal("positions less than a pixel apart are the same", "p and q", s2, s2.result, expected([[0, 1]], items, lambda i, j: True, lambda i, j: same))


@family("no subtitles, one subtitle")
def f(fam):
    check_collect(fam, "none", [], None, None, [])
    s = sym("start", lo=0, hi=99)
    check_collect(fam, "one", [full(0, **{"from": at(s), "to": at(100), "vertical_position": vpos(line=2, reference=0), "fade_up": some(at(3)), "fade_down": some(at(4))})], None, None, [s])
