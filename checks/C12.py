"""the text field of a written binary STL file"""
import itertools

from check import *
from writer import *

EXPLANATION = ("write_stl_binary is abstractly interpreted for all sequences of up to three (thorough: four) blocks with the four combinations of italics and underlining, "
               "in one line, over lines and over subtitles; the bytes that it writes are read by the rules of EBU Tech 3264 and compared with what was given.")
FORMATS = list(itertools.product((0, 1), (0, 1)))
RULE = "the text field, read as EBU Tech 3264 says, holds the text with its lines, italics and underlining"
ACCENT = {0xc1: "\u0300", 0xc2: "\u0301", 0xc3: "\u0302", 0xc4: "\u0303", 0xc8: "\u0308", 0xcb: "\u0327", 0xca: "\u030a", 0xcf: "\u030c"}
OTHER = {0xa4: "$", 0xa6: "#", 0xa9: "\u2018", 0xaa: "\u201c", 0xb9: "\u2019", 0xba: "\u201d", 0xd0: "\u2015", 0xd5: "\u266a", 0xe1: "\u00c6", 0xf1: "\u00e6", 0xfb: "\u00df"}


def decode(data):
    """lines of runs (text, italic, underline), what is left on at the end, and errors"""
    import unicodedata
    lines, cur, it, un, errors, accent = [], [], 0, 0, [], ""
    ended = False
    for c in data:
        o = ord(c)
        if ended and o != 0x8f:
            errors.append("%02Xh after the end" % o)
            continue
        if o == 0x8f:
            ended = True
        elif o == 0x80 or o == 0x81:
            it = 1 - (o & 1)
        elif o == 0x82 or o == 0x83:
            un = 1 - (o & 1)
        elif o == 0x8a:
            if not lines or lines[-1] is not cur:
                lines.append(cur)
                cur = []
            elif cur:
                errors.append("confused")
        elif o < 0x20 or 0x7f <= o < 0xa0:
            errors.append("code %02Xh" % o)
        elif 0xc1 <= o <= 0xcf:
            if o not in ACCENT or accent:
                errors.append("code %02Xh" % o)
            else:
                accent = ACCENT[o]
        else:
            t = unicodedata.normalize("NFC", c + accent) if accent else OTHER.get(o, c if o < 0x7f else None)
            accent = ""
            if t is None:
                errors.append("code %02Xh" % o)
                continue
            if cur and cur[-1][1:] == (it, un):
                cur[-1] = (cur[-1][0] + t, it, un)
            else:
                cur.append((t, it, un))
    lines.append(cur)
    if not ended:
        errors.append("no 8Fh")
    return lines, (it, un), errors


def rows_of(data):
    """as decode, but any number of 8Ah between two lines is one break"""
    import re
    return decode(re.sub("\x8a+", "\x8a", data))


def runs_of(lines):
    out = []
    for l in lines:
        rr = []
        for t, i, u in l:
            if rr and rr[-1][1:] == (i, u):
                rr[-1] = (rr[-1][0] + t, i, u)
            elif t:
                rr.append((t, i, u))
        out.append(rr)
    return out


def wstr(t):
    return K(t.encode("utf-8").decode("latin-1"))


def sub_of(lines, n, extra=None):
    ls = []
    for j, l in enumerate(lines):
        ls.append((row(8 + 2 * j), [(wstr(t), dict(extra or {}, italic=i, underline=u)) for t, i, u in l]))
    return lines_sub(ls, at(10 * n), at(10 * n + 5))


def check(fam, label, subs, extra=None):
    """subs: list of lines of (text, italic, underline)"""
    for s in good(fam, "a file which can be written is written", label, write(fam, label, [sub_of(l, i, extra) for i, l in enumerate(subs)])):
        w = written(s)
        bs = blocks(s, w)
        if bs is None or s.imp is not None:
            fam.undecided(RULE, label, "imprecise: %s" % s.imp)
            continue
        got = [""]
        for k, b in enumerate(bs):
            t = witness_const(s, s.substr(b, 16, 112))
            n = val(s.substr(b, 3, 1))
            if t is None or not isconst(n):
                got = None
                break
            got[-1] += t
            if n == 255:
                got.append("")
        if got is None:
            fam.undecided(RULE, label, "the text is not known: %r" % (s.current(s.substr(bs[0], 16, 112)).segs,))
            continue
        got.pop()
        if len(got) != len(subs):
            fam.violated(RULE, label, "%d subtitles instead of %d" % (len(got), len(subs)))
            continue
        for i, (g, l) in enumerate(zip(got, subs)):
            lines, on, errors = rows_of(g)
            want = runs_of(l)
            lb = label if len(subs) == 1 else "%s (%d)" % (label, i)
            if lines == want and not errors and on == (0, 0):
                fam.ok(RULE, lb)
            else:
                fam.violated(RULE, lb, "write_stl_binary writes %s: that is %s%s%s instead of %s" % (
                    " ".join("%02X" % ord(c) for c in g.rstrip("\x8f")[:60]), lines, " with " + ", ".join(errors) if errors else "",
                    "; italics/underline left on" if on != (0, 0) else "", want))


def witness_const(s, x):
    """the text x, if it is constant"""
    out = []
    for g in s.current(x).segs:
        if g[0] == "k":
            out.append(g[1])
        elif g[0] == "r" and isconst(g[2]):
            out.append(chr(g[1]) * int(g[2]))
        else:
            return None
    return "".join(out)


def show(l):
    return "/".join(" ".join("%s%s%s" % (t[:6], "i" if i else "", "u" if u else "") for t, i, u in x) for x in l)


def shape(name, fs, n, tier="quick"):
    """fs: first format; all formats of the other n - 1 blocks"""
    def f(fam):
        for rest in itertools.product(FORMATS, repeat=n - 1):
            bl = [("%c%c" % (97 + j, 65 + j), i, u) for j, (i, u) in enumerate((fs,) + rest)]
            for br in itertools.product((0, 1), repeat=n - 1):
                if n > 3 and sum(br) > 1:
                    continue
                lines = [[bl[0]]]
                for b, x in zip(br, bl[1:]):
                    if b:
                        lines.append([x])
                    else:
                        lines[-1].append(x)
                # the next subtitle starts with plain text
                check(fam, show(lines), [lines, [[("zz", 0, 0)]]])
    family(name, 300, tier)(f)


for fs in FORMATS:
    shape("three blocks, the first %s" % (fs,), fs, 3)
    shape("four blocks, the first %s" % (fs,), fs, 4, "thorough")


@family("subtitles do not influence each other")
def f(fam):
    for a in FORMATS:
        for b in FORMATS:
            for c in FORMATS:
                check(fam, "subtitles with %s" % ((a, b, c),), [[[("ab",) + a]], [[("cd",) + b], [("ef",) + c]], [[("gh",) + a]]])


@family("empty blocks")
def f(fam):
    for a, b, c in itertools.product(FORMATS, repeat=3):
        check(fam, "empty block with %s" % ((a, b, c),), [[[("ab",) + a, ("",) + b, ("cd",) + c]], [[("ef",) + b]]])


@family("blocks of a space")
def f(fam):
    for a, b, c in itertools.product(FORMATS, repeat=3):
        check(fam, "a space with %s" % ((a, b, c),), [[[("ab",) + a, (" ",) + b, ("cd",) + c], [("ef",) + c, (" ",) + a], [(" ",) + b, ("gh",) + b]]])


@family("empty lines")
def f(fam):
    for a, b, c in itertools.product(FORMATS, repeat=3):
        check(fam, "empty line with %s" % ((a, b, c),), [[[("ab",) + a], [("",) + b]], [[("cd",) + c]]])


@family("other formatting makes no difference")
def f(fam):
    for n, e in (("bold", {"bold": 1}), ("red", {"colour": colour(1, 0, 0)}), ("size", {"font_size": font_size(points=30)}), ("font", {"font": some(K("Arial"))})):
        check(fam, n, [[[("ab", 0, 0), ("cd", 1, 0)], [("ef", 1, 1), ("gh", 0, 1)]], [[("zz", 0, 0)]]], e)


@family("characters")
def f(fam):
    for t in ("caf\u00e9", "\u00c0\u00e8\u00ee\u00f5\u00fc", "\u00e5\u00e7\u0161", "\u2018a\u2019 \u201cb\u201d", "\u00e6\u00df\u00c6", "$#", "a b  c ", " lead", "!\"%&'()*+,-./:;<=>?@[]_{|}"):
        check(fam, "text %s" % ascii(t), [[[(t, 0, 0)]]])
        check(fam, "text %s twice" % ascii(t), [[[(t, 1, 0)], [(t, 0, 0), (t, 0, 1)]]])


def ends(ns):
    family("switches at the end of a block: %s" % (ns,), 300)(lambda fam: end(fam, ns))


def end(fam, ns):
    for n in ns:
        for a, b in (((1, 0), (0, 1)), ((0, 0), (1, 1)), ((1, 1), (0, 0))):
            check(fam, "%d characters %s, then %s" % (n, a, b), [[[("x" * (n - 1),) + a, ("yz",) + b]], [[("zz", 0, 0)]]])
        check(fam, "%d characters, then a line" % n, [[[("x" * n, 0, 0)], [("yz", 0, 1)]]])


ends((109, 110))
ends((111,))
ends((112, 113))
