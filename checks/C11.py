"""TTI blocks of a written binary STL file"""
from check import *
from writer import *

EXPLANATION = ("write_stl_binary is abstractly interpreted for unknown start and end times (seconds, frames) at each frame rate, each justification and texts around "
               "the size of a block; the bytes of each TTI block are compared with EBU Tech 3264: time codes with the nearest frame, numbering of extension blocks, "
               "padding, and that no text is lost between blocks.")
RATES = [25, 24, 30, Fraction(23976, 1000)]
SRC = [(1000, 1), (25, 1), (24, 1), (30, 1), (24000, 1001)]


def rt(r):
    return "%d/%d" % r


def runs_of(fam, rule, label, subs, **k):
    for s in good(fam, "a file which can be written is written", label, write(fam, label, subs, **k)):
        w = written(s)
        b = blocks(s, w)
        if b is None or s.imp is not None:
            fam.undecided(rule, label, "imprecise: %s" % s.imp)
            continue
        yield s, b


def timecode(fam, label, s, b, o, sec, fr, fps):
    h, m, ss, ff = (val(s.substr(b, o + i, 1)) for i in range(4))
    if not all(isnum(x) for x in (h, m, ss, ff)):
        fam.undecided("a time code", label, repr((h, m, ss, ff))[:200])
        return
    rule = "a time code has fewer frames than the frame rate, and fewer than 60 minutes and seconds"
    fam.truth(rule, label, s, True, ("and", le(0, ff), lt(ff, fps), le(0, ss), lt(ss, 60), le(0, m), lt(m, 60)), "%s:%s:%s" % tuple(fmt_num(x)[:60] for x in (m, ss, ff)))
    # in frames
    d = add(mul(sub(add(mul(h, 3600), add(mul(m, 60), ss)), sec), fps), sub(ff, mul(fr, fps)))
    fam.truth("a time code is the nearest frame", label, s, True, ("and", le(d, Fraction(1, 2)), le(neg(d), Fraction(1, 2))),
              "%s of %s seconds" % (fmt_num(d)[:120], fmt_num(add(sec, fr))[:60]))


def times_family(fps):
    def f(fam):
        for r in SRC:
            top = -(-r[0] // r[1]) - 1
            a, fa = sym("sa", lo=0, hi=86000), sym("fa@" + rt(r), lo=0, hi=top)
            b, fb = sym("sb", lo=0, hi=86000), sym("fb@" + rt(r), lo=0, hi=top)
            label = "times at %s, file at %s" % (rt(r), float(fps))
            if Fraction(top * r[1], r[0]) >= 1:
                continue
            sb = subtitle([line([block(K("Hello"))], row(10))], at(a, fa, r), at(b, fb, r))
            for s, bl in runs_of(fam, "a time code", label, [sb], fps=fps):
                if len(bl) != 1:
                    fam.violated("number of blocks", label, "%d blocks" % len(bl))
                    continue
                timecode(fam, "start, " + label, s, bl[0], 5, a, mul(fa, Fraction(r[1], r[0])), fps)
                timecode(fam, "end, " + label, s, bl[0], 9, b, mul(fb, Fraction(r[1], r[0])), fps)
    family("time codes at %s frames a second" % float(fps), 200)(f)


for r in RATES:
    times_family(r)


def text_family(ns, tier="quick"):
    def f(fam):
        for n in ns:
            text_of(fam, n)
    family("the text goes on from block to block: %s" % (ns,), 300, tier)(f)


def text_of(fam, n, cheap=False):
        rule = "the text is in the blocks, in order, and what is left is filled with 8Fh"
        tx = ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.!" * (n // 64 + 1))[:n]
        source = tx
        if cheap:
            # characters which are found early in the table of the code
            tx = ("\xa1\xa1\xa2\xa1\xa1" * n)[:n]
            source = "".join("\xc2" + c for c in tx)
        label = "text of %d characters" % n
        subs = [simple(source)]
        for s, bl in runs_of(fam, rule, label, subs):
            nb = n // 112 + 1
            fam.equal("number of blocks", label, s, len(bl), nb)
            fam.equal(rule, label, s, textfield(s, bl), K(tx + "\x8f" * (112 * nb - n)))
            if len(bl) != nb:
                continue
            fam.equal("extension blocks are numbered from 0, FFh marks the last", label, s, cat(*[s.substr(b, 3, 1) for b in bl]), K("".join(map(chr, range(nb - 1))) + "\xff"))
            for b in bl[1:]:
                fam.equal("all blocks of a subtitle say the same about it", label, s, cat(s.substr(b, 0, 3), s.substr(b, 4, 12)), cat(s.substr(bl[0], 0, 3), s.substr(bl[0], 4, 12)))


for ns in ((0, 1, 50, 110, 111), (112, 113, 150), (222, 223), (224, 225), (337,)):
    text_family(ns)
@family("many blocks", 300)
def f(fam):
    for n in (448, 560):
        text_of(fam, n)


@family("more than 128 blocks", 300)
def f(fam):
    for n in (150 * 112 + 5,):
        text_of(fam, n, True)


for ns in ((335,), (336,), (447,), (448,), (449,), (700,)):
    text_family(ns, "thorough")


@family("each subtitle has blocks of its own")
def f(fam):
    for sizes in ([1, 1], [111, 112], [112, 5, 113], [3, 2, 1, 4], [300, 1]):
        label = "subtitles of %s characters" % (sizes,)
        subs = [subtitle([line([block(K(chr(65 + i) * n))], row(i + 3))], at(10 * i), at(10 * i + 5)) for i, n in enumerate(sizes)]
        for s, bl in runs_of(fam, "blocks of several subtitles", label, subs):
            want, w = [], []
            for i, n in enumerate(sizes):
                nb = n // 112 + 1
                t = chr(65 + i) * n + "\x8f" * (nb * 112 - n)
                for j in range(nb):
                    want.append("%s%s%s%s\x02\x00%s" % (chr(j if j < nb - 1 else 255), "\x00", "\x00\x00%c\x00" % (10 * i) + "\x00\x00%c\x00" % (10 * i + 5), chr(i + 3), t[112 * j:112 * j + 112]))
            fam.equal("the blocks of the subtitles follow each other", label, s, tuple(s.substr(b, 3, 125) for b in bl), tuple(K(x) for x in want))


@family("justification")
def f(fam):
    for v, c, n in ((0, 1, "left"), (1, 2, "centre"), (2, 3, "right")):
        for s, bl in runs_of(fam, "justification", n, [simple("Hello", hp=hpos(v))]):
            fam.equal("the justification is that of the text", n, s, val(s.substr(bl[0], 14, 1)), c)
            fam.equal("a subtitle is no comment and not cumulative", n, s, cat(s.substr(bl[0], 15, 1), s.substr(bl[0], 4, 1)), K("\0\0"))
        two = [simple("Hello", hp=hpos(v)), simple("there", 3, hp=hpos((v + 1) % 3)), simple("you", 5, hp=hpos(v))]
        for s, bl in runs_of(fam, "justification", n + ", several", two):
            fam.equal("the justification is that of the text", n + ", several", s, tuple(val(s.substr(b, 14, 1)) for b in bl), (c, c % 3 + 1, c))


@family("each subtitle has its own times")
def f(fam):
    k = ("a", "b", "c")
    t = {x: (sym("s" + x, lo=0, hi=86000), sym("f" + x, lo=0, hi=24)) for x in ("fa", "ta", "fb", "tb", "fc", "tc")}
    subs = [subtitle([line([block(K("Hello"))], row(10))], at(t["f" + x][0], t["f" + x][1], (25, 1)), at(t["t" + x][0], t["t" + x][1], (25, 1))) for x in k]
    for s, bl in runs_of(fam, "a time code", "three subtitles", subs):
        if len(bl) != 3:
            fam.violated("number of blocks", "three subtitles", "%d blocks" % len(bl))
            continue
        for x, b in zip(k, bl):
            for o, w in ((5, "f"), (9, "t")):
                timecode(fam, "%s of subtitle %s of three" % ({"f": "start", "t": "end"}[w], x), s, b, o, t[w + x][0], mul(t[w + x][1], Fraction(1, 25)), 25)
