"""rows of a written binary STL file"""
import itertools

from check import *
from writer import *

EXPLANATION = ("write_stl_binary is abstractly interpreted with unknown proportions and line numbers from each reference; the vertical position that it writes is compared with the "
               "fraction of 23 rows; the new-line codes between lines are counted for pairs and triples of lines.")
RULE = "the vertical position is the row of the top line"
NEWLINE = "each line is on its own row, or on the row below the line before it"
REF = (("top", 0, 0), ("centre", 1, Fraction(1, 2)), ("bottom", 2, 1))
ROWS = 23


def fraction(ref, x):
    return {0: x, 1: add(x, Fraction(1, 2)), 2: sub(1, x)}[ref]


def one(fam, label, vp, n=1, before=None):
    st = fam.I.start()
    if before:
        before(st)
    ls = [(vp, [("Hello", {})])]
    for s in good(fam, "a file which can be written is written", label, write(fam, label, [lines_sub(ls)], st=st)):
        b = blocks(s, written(s))
        if b is None or s.imp is not None:
            fam.undecided(RULE, label, "imprecise: %s" % s.imp)
            continue
        yield s, val(s.substr(b[0], 13, 1))


@family("proportions")
def f(fam):
    for name, r, _ in REF:
        lo, hi = (Fraction(-1, 2), Fraction(1, 2)) if r == 1 else (0, 1)
        p = sym("p" + name, False, lo=lo, hi=hi)
        for s, v in one(fam, "proportion from the %s" % name, vpos(proportional=p, reference=r)):
            d = sub(v, mul(fraction(r, p), ROWS))
            fam.truth(RULE, "proportion from the %s" % name, s, True, ("and", le(d, Fraction(1, 2)), le(neg(d), Fraction(1, 2))), fmt_num(d)[:100])
    p = sym("pnone", False, lo=0, hi=1)
    for s, v in one(fam, "proportion from nowhere", vpos(proportional=p)):
        d = sub(v, mul(p, ROWS))
        fam.truth(RULE, "proportion without a reference is from the top", s, True, ("and", le(d, Fraction(1, 2)), le(neg(d), Fraction(1, 2))), fmt_num(d)[:100])


@family("line numbers")
def f(fam):
    for name, r, _ in REF:
        for d in (23, 1, 2, 11, 12, 15, 24, 46, 99, 100, 576):
            lo, hi = (-(d // 2), d // 2) if r == 1 else (0, d)
            n = sym("n%s%d" % (name, d), lo=lo, hi=hi)
            label = "line n of %d from the %s" % (d, name)
            for s, v in one(fam, label, vpos(line=n, lines=d, reference=r)):
                w = sub(mul(fraction(r, mul(n, Fraction(1, d))), ROWS), v)
                fam.truth(RULE, label, s, True, ("and", le(0, w), lt(w, 1)), fmt_num(w)[:100])
    n = sym("nnone", lo=0, hi=22)
    for s, v in one(fam, "line without a reference", vpos(line=n, lines=23)):
        fam.equal(RULE, "a line without a reference is from the top", s, v, n)
    for label, vp in (("no position", vpos()), ("a line without their number", vpos(line=3, reference=0))):
        for s, v in one(fam, label, vp):
            fam.equal(RULE, label, s, v, 0)


def gaps(data):
    """the text of a constant text field, split into text and numbers of new lines"""
    import re
    return [len(x) if x[:1] == "\x8a" else x for x in re.findall("\x8a+|[^\x8a]+", re.sub("[\x80-\x83]", "", data).rstrip("\x8f"))]


def constant(s, x):
    out = []
    for g in s.current(x).segs:
        if g[0] == "k":
            out.append(g[1])
        elif g[0] == "r" and isconst(g[2]):
            out.append(chr(g[1]) * int(g[2]))
        else:
            return None
    return "".join(out)


def stack(fam, label, rows, vps):
    """rows: the row on which each line should be"""
    ls = [(vp, [("ABCD"[i], {})]) for i, vp in enumerate(vps)]
    for s in good(fam, "a file which can be written is written", label, write(fam, label, [lines_sub(ls), lines_sub([(row(3), [("Z", {})])], at(5), at(6))])):
        b = blocks(s, written(s))
        t = None if b is None or s.imp is not None else constant(s, s.substr(b[0], 16, 112))
        if t is None:
            fam.undecided(NEWLINE, label, "imprecise: %s" % s.imp)
            continue
        fam.equal(RULE, label, s, tuple(val(s.substr(x, 13, 1)) for x in b), (min(rows), 3))
        want, at_ = ["A"], rows[0]
        for i, r in enumerate(rows[1:], 1):
            to = max(r, at_ + 1)
            want += [to - at_, "ABCD"[i]]
            at_ = to
        g = gaps(t)
        if g == want:
            fam.ok(NEWLINE, label)
        else:
            fam.violated(NEWLINE, label, "write_stl_binary writes %s where %s (texts and numbers of new lines) is required" % (g, want))
        z = constant(s, s.substr(b[1], 16, 112))
        if z is None:
            fam.undecided(NEWLINE, label + ": next subtitle", "imprecise: %s" % s.imp)
        elif gaps(z) == ["Z"]:
            fam.ok(NEWLINE, label + ": next subtitle")
        else:
            fam.violated(NEWLINE, label + ": next subtitle", "write_stl_binary writes %s where ['Z'] (texts and numbers of new lines) is required" % gaps(z))


def pairs(k):
    def f(fam):
        for a in range(k, 23, 6):
            for b in range(23):
                stack(fam, "lines on rows %d and %d" % (a, b), (a, b), (row(a), row(b)))
    family("two lines on any rows (%d)" % k, 200)(f)


for k in range(6):
    pairs(k)


@family("three lines")
def f(fam):
    for t in ((0, 1, 2), (5, 7, 9), (5, 5, 5), (5, 5, 7), (20, 21, 22), (0, 11, 22), (9, 7, 5), (5, 9, 7), (1, 1, 2), (12, 10, 16)):
        stack(fam, "lines on rows %s" % (t,), t, [row(x) for x in t])
    stack(fam, "four lines without position", (0, 0, 0, 0), [vpos()] * 4)
    stack(fam, "three lines of a SubRip file", (0, 0, 0), [vpos(line=i, reference=3) for i in range(3)])


@family("two lines by proportion and from different edges")
def f(fam):
    h = Fraction
    for name, vps, rows in (("proportions from the bottom", [vpos(proportional=h(3, 23), reference=2), vpos(proportional=h(1, 23), reference=2)], (20, 22)),
                            ("lines from the bottom", [vpos(line=5, lines=23, reference=2), vpos(line=3, lines=23, reference=2)], (18, 20)),
                            ("lines from the centre", [vpos(line=-5, lines=46, reference=1), vpos(line=1, lines=46, reference=1)], (9, 12)),
                            ("top and bottom", [vpos(line=4, lines=23, reference=0), vpos(line=4, lines=23, reference=2)], (4, 19)),
                            ("proportions from the top", [vpos(proportional=h(1, 10), reference=0), vpos(proportional=h(9, 10), reference=0)], (2, 21))):
        stack(fam, name, rows, vps)


@family("other properties of a line do not move it")
def f(fam):
    for r in range(3):
        label = "horizontal position from %d" % r
        ls = [line([block(K(t))], vp, hpos(r, Fraction(1, 4))) for t, vp in (("A", row(4)), ("B", row(7)))]
        for s in good(fam, NEWLINE, label, write(fam, label, [subtitle(ls, at(1), at(2))])):
            b = blocks(s, written(s))
            fam.equal(RULE, label, s, val(s.substr(b[0], 13, 1)), 4)
            t = None if s.imp is not None else constant(s, s.substr(b[0], 16, 112))
            if t is None:
                fam.undecided(NEWLINE, label, "imprecise: %s" % s.imp)
            elif gaps(t) == ["A", 3, "B"]:
                fam.ok(NEWLINE, label)
            else:
                fam.violated(NEWLINE, label, "write_stl_binary writes %s where ['A', 3, 'B'] (texts and numbers of new lines) is required" % gaps(t))
