"""text is delivered on the line on which it stands"""
import pairs
from check import *
from textdocs import *

EXPLANATION = ("Each text reader is abstractly interpreted on cues of up to six lines whose texts are unknown, with formatting inside and across the lines and with line breaks of each kind that "
               "the format has; the line number (for SSA: the order and distance of positions) of each piece of text must be that of the line on which it stands.")
S1 = safe(" <{\\}|^,&\xef")
SEP = "\xe2\x80\xa8"
RULE = "the line on which text is"


def t(n, k=2):
    return T(chars(n, k, S1))


def dropped(cls):
    """without lines which hold no text"""
    class D(cls):
        joins = {}

        def expected(self):
            return tuple((w, tuple(l for l in ls if l[1])) for w, ls in cls.expected(self))
    return D


class Srt(dropped(SubRip)):
    """lines may be separated by U+2028"""

    def source(self):
        s = []
        for i, c in enumerate(self.cues):
            s += [K("%d\n" % (i + 1)), c[3].text, K(" --> "), c[4].text, K("\n")]
            for j, l in enumerate(c[2]):
                s += [self.token(x) for x in l] + [K(SEP if j in self.k.get("sep", ()) else "\n")]
            s.append(K("\n"))
        return cat(*s)


class Vtt(dropped(WebVTT)):
    def source(self):
        s = [K("WEBVTT\n\n")]
        for i, c in enumerate(self.cues):
            s += [c[3].text, K(" --> "), c[4].text, K("\n")]
            for j, l in enumerate(c[2]):
                s += [x[1] for x in l] + [K(SEP if j in self.k.get("sep", ()) else "\n")]
            s.append(K("\n"))
        return cat(*s)


Stl = dropped(STLText)


def lines(n):
    return [[t("l%d" % i)] for i in range(n)]


def referenced(fam, doc, ref):
    """the positions refer to the top of the subtitle"""
    name = "%s, %s" % (doc.cls.split("::")[-1], doc.name)
    for s in read(fam, doc.cls, name, doc.source()) or []:
        if s.ctl is None and raws(s) is not None:
            for x in raws(s):
                v = x.f["vertical_position"]
                fam.equal("lines are counted from the top of the subtitle", name, s, (v.f["reference"], v.f["proportional"], v.f["lines"]), (some(ref), NONE, NONE))


def seps(n):
    """which line breaks are U+2028: all subsets"""
    for b in range(1 << (n - 1)):
        yield tuple(i for i in range(n - 1) if b >> i & 1)


def separated(D):
    def f(fam):
        top = ebuless(fam)
        for n in range(1, 7):
            for sp in (seps(n) if n < 5 else [(), (0,), (n - 2,), tuple(range(n - 1))]):
                d = D("%d lines, U+2028 after %s" % (n, sp), [cue(D, "a", lines(n), 3), cue(D, "b", [[t("x")], [t("y")]], 5)], sep=sp)
                check_doc(fam, d, ["line", "text"])
                if n < 4:
                    referenced(fam, d, top)
        # lines without text between separators count
        for pat in itertools.product((0, 1), repeat=4):
            if pat[0] and pat[3]:
                ls = [[t("l%d" % i)] if p else [] for i, p in enumerate(pat)]
                check_doc(fam, D("lines with text: %s" % (pat,), [cue(D, "a", ls, 3), cue(D, "b", [[t("x")]], 5)], sep=(0, 1, 2)), ["line", "text"])
        # bytes which are like the start of U+2028, and other breaks which do not break lines
        for x in ("\xe2\x80", "\xe2", "\xe2\x80\xa9", "\xe2\x80\xa6", "\x80\xa8", "\x0b", "\x0c", "|", "\\N", "\\n"):
            if x.startswith("\\") and D is Srt:
                continue
            ls = [[("t", cat(chars("p", 1, S1), x, chars("q", 1, [c for c in S1 if c < 128])))], [t("r")]]
            check_doc(fam, D("%s in the text" % ascii(x), [cue(D, "a", ls, 3)]), ["line", "text"])
    return f


def ebuless(fam):
    import ebu
    return ebu.enumerators(fam.I, "VerticalReference")["TOP_OF_SUBTITLE"]


import itertools
family("SubRip: lines", 300)(separated(Srt))
family("WebVTT: lines", 300)(separated(Vtt))


def marked(extra=()):
    """formatting in and between three lines"""
    marks = [[ON("bold")], [OFF("bold")], [ON("italic"), ON("underline")], [OFF("italic")]] + [list(x) for x in extra]
    for m in marks:
        for at in range(7):
            ls = [[t("a"), t("b")], [t("c"), t("d")], [t("e"), t("f")]]
            # before, within and after each line
            l, k = (at // 3, at % 3) if at < 6 else (2, 2)
            ls[l][k:k] = m
            yield "%s at place %d" % (ascii([x[1] if len(x) > 1 else x[0] for x in m])[:60], at), ls


@family("SubRip: formatting", 300)
def f(fam):
    font = ("font", K("<font color=\"#ff0000\">"), (1, 0, 0))
    for n, ls in marked([[font], [("endfont",)], [font, ON("bold")], [("raw", K("{\\i1}"))]]):
        for sp in ((), (0,), (0, 1)):
            check_doc(fam, Srt("%s, U+2028 after %s" % (n, sp), [cue(Srt, "a", ls, 3), cue(Srt, "b", [[t("x")], [t("y")]], 5)], sep=sp), ["line", "text"])


@family("STL text: lines and formatting", 300)
def f(fam):
    A = lambda ls: [[("t", cat("A", x[1], "B")) if x[0] == "t" else x for x in l] for l in ls]
    top = ebuless(fam)
    for n in range(1, 7):
        d = Stl("%d lines" % n, [cue(Stl, "a", A(lines(n)), 3), cue(Stl, "b", A([[t("x")], [t("y")]]), 5)])
        check_doc(fam, d, ["line", "text"])
        referenced(fam, d, top)
    for pat in itertools.product((0, 1), repeat=4):
        if pat[3]:
            ls = A([[t("l%d" % i)] if p else [] for i, p in enumerate(pat)])
            check_doc(fam, Stl("lines with text: %s" % (pat,), [cue(Stl, "a", ls, 3), cue(Stl, "b", A([[t("x")]]), 5)]), ["line", "text"])
    for n, ls in marked():
        check_doc(fam, Stl(n, [cue(Stl, "a", A(ls), 3), cue(Stl, "b", A([[t("x")], [t("y")]]), 5)]), ["line", "text"])


@family("SSA: lines", 300)
def f(fam):
    """lines one above the other, in order"""
    for br in ("\\N", "\\n"):
        for n in range(1, 7):
            d = SSA("%d lines" % n, [cue(SSA, "a", lines(n), 3)])
            src = []
            for i in range(n):
                src += [K(br)] * (i > 0) + [chars("l%d" % i, 2, S1)]
            d.cues[0] = d.cues[0][:2] + ([[("t", cat(*src))]],) + d.cues[0][3:]
            name = "SSA, %d lines with %s" % (n, br)
            for s in read(fam, d.cls, name, d.source()) or []:
                if s.ctl is not None:
                    fam.unreachable("a well-formed document is read", name, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
                    continue
                rr = raws(s)
                fam.equal("each line is a piece of its own", name, s, tuple(x.f["text"] for x in rr), tuple(chars("l%d" % i, 2, S1) for i in range(n)))
                v = [x.f["vertical_position"].f["proportional"] for x in rr]
                for i in range(len(v) - 1):
                    if not isinstance(v[i], Opt) or not isinstance(v[i + 1], Opt):
                        fam.undecided("each line is below the one before", name, repr(v)[:100])
                        continue
                    fam.truth("each line is below the one before", "%s: %d" % (name, i), s, lt(v[i + 1].v, v[i].v), True, "positions from the bottom")


for D, n in ((SubRip, 8), (SSA, 4), (STLText, 2)):
    pairs.families(D, ["line"], ["xtxtx"], n)
    pairs.families(D, ["line"], ["xtxtxtx"], 2 * n, 3, "thorough")
