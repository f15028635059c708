"""writing to binary STL and reading back"""
import itertools

from check import *
from writer import *
import models

EXPLANATION = ("write_stl_binary is abstractly interpreted on subtitles with unknown texts, times and rows; STLBinaryReader is then abstractly interpreted on the bytes which it wrote, as abstract values, "
               "and the subtitles which it delivers are compared with those which were given.")
TEXT = "the text comes back as it was given"
FORMAT = "italics and underlining come back as they were given"
TIME = "the times come back, to the nearest frame"
PLACE = "the lines come back on the rows on which they were"
HEADER = "what the header holds comes back"
S = [ord(c) for c in "abcXYZ09 ,.!?"]


def again(fam, label, subs, expect=(), **k):
    """the reader's object, for each way in which the subtitles are written"""
    out = []
    for s in good(fam, "the subtitles are written", label, write(fam, label, subs, expect=expect, **k)):
        data = written(s)
        exp = s.mem["EXPECT"]
        s = s.copy()
        s.ctl, s.frames, s.vals, s.result, s.events = None, s.frames[:1], [], None, ()
        s.mem["S"] = models.istream(data)
        for t in fam.make(label, fam.fn("sub::STLBinaryReader::STLBinaryReader", "Si"), [Ref("S")], st=s, expect=exp) or []:
            if t.ctl is not None:
                fam.unreachable("what is written can be read", label, t, "%s at %s" % (fam.outcome(t), fam.where(t)))
            elif raws(t) is None:
                fam.undecided("what is written can be read", label, "the subtitles are not known")
            else:
                out.append(t)
    return out


def pieces(t, fmt=("italic", "underline")):
    """per cue: times, and lines of runs (text, formatting)"""
    return runs(raws(t), fmt)


def frames(secs, n):
    """the time fields of a subtitle delivered: seconds, frames"""
    return (secs, n)


def text_format(fam, label, lines, **k):
    """lines: list of (row, list of (text, italic, underline))"""
    sub_ = lines_sub([(row(n), [(x if isinstance(x, Str) else K(x), dict(italic=i, underline=u)) for x, i, u in l]) for n, l in lines])
    want = []
    for n, l in lines:
        rr = []
        for x, i, u in l:
            x = x if isinstance(x, Str) else K(x)
            if not x.segs:
                continue
            if rr and rr[-1][1] == (i, u):
                rr[-1] = (cat(rr[-1][0], x), (i, u))
            else:
                rr.append((x, (i, u)))
        want.append(rr)
    exp = tuple(tuple(x for x, f in l) for l in want)
    for t in again(fam, label, [sub_], exp, **k):
        cues = pieces(t)
        if len(cues) != 1:
            fam.equal(TEXT, label, t, len(cues), 1)
            continue
        got = cues[0][1]
        e = t.mem["EXPECT"]
        if fam.equal(TEXT, label, t, tuple(cat(*[r[0] for r in l[1]]) for l in got), tuple(cat(*l) for l in e)):
            fam.equal(FORMAT, label, t, tuple(tuple(r[1] for r in l[1]) for l in got), tuple(tuple(f for x, f in l) for l in want))


def some_text(name, n=2):
    """texts are known here: that each character comes back is for another family"""
    return K((name * n)[:n])


@family("texts")
def f(fam):
    for n in (1, 2, 4):
        text_format(fam, "%d characters" % n, [(10, [(some_text("x", n), 0, 0)])])
    text_format(fam, "two lines", [(10, [(some_text("x"), 0, 0)]), (12, [(some_text("y"), 0, 0)])])
    text_format(fam, "three lines", [(8, [(some_text("x"), 0, 0)]), (10, [(some_text("y"), 0, 0)]), (12, [(some_text("z"), 0, 0)])])


def u8(t):
    return K(t.encode("utf-8").decode("latin-1"))


@family("characters")
def f(fam):
    for c in "àáâãāăäåçéèêëíîïñóôõöőúùûüűųýÿšžčřěċėġŁłØøÆæŒœßĐđħıĸŋ¡¿«»°±×÷¼½¾£¥§¶µ©®™♪#$%&()*+-/:;<=>@[\\]_{|}'\"!?":
        text_format(fam, "a%sb" % c, [(10, [(cat(K("a"), u8(c), K("b")), 0, 0)])])


@family("formatting", 200)
def f(fam):
    F = list(itertools.product((0, 1), (0, 1)))
    for a in F:
        for b in F:
            text_format(fam, "%s%s in a line" % (a, b), [(10, [(some_text("x"),) + a, (some_text("y"),) + b])])
            text_format(fam, "%s%s on two lines" % (a, b), [(10, [(some_text("x"),) + a]), (12, [(some_text("y"),) + b])])


for first in itertools.product((0, 1), (0, 1)):
    @family("formatting of three pieces, %s first" % (first,), 100)
    def f(fam, first=first):
        F = list(itertools.product((0, 1), (0, 1)))
        for b in F:
            for c in F:
                text_format(fam, "%s%s%s" % (first, b, c), [(10, [(K("p"),) + first, (K("q"),) + b]), (12, [(K("r"),) + c])])


@family("long texts")
def f(fam):
    for n in (30, 111, 112, 113, 200, 223, 224, 225, 300):
        text_format(fam, "%d characters" % n, [(10, [(K("".join(chr(97 + i % 26) for i in range(n))), 0, 0)])])
    for n in (109, 110, 111, 112):
        text_format(fam, "an accent after %d characters" % n, [(10, [(cat(K("".join(chr(97 + i % 26) for i in range(n))), u8("é"), K("x")), 0, 0)])])
        text_format(fam, "italics after %d characters" % n, [(10, [(K("a" * n), 0, 0), (K("bc"), 1, 0), (K("d"), 0, 0)])])
        text_format(fam, "a line after %d characters" % n, [(10, [(K("a" * n), 1, 0)]), (12, [(K("bc"), 1, 0)])])


def when(fam, label, f, t, rate, wf, wt, **k):
    """the delivered times must be (seconds, frames) of wf and wt"""
    for s in again(fam, label, [subtitle([line([block(K("p"))], row(10))], f, t)], (wf, wt), fps=rate, **k):
        for r in raws(s):
            for n, w in (("from", s.mem["EXPECT"][0]), ("to", s.mem["EXPECT"][1])):
                v = r.f[n]
                fam.equal(TIME, "%s: %s" % (label, n), s, (v.f["_seconds"], v.f["_frames"], v.f["_rate"]), (w[0], w[1], some(rational(rate, 1))))


@family("times", 200)
def f(fam):
    for rate in (24, 25, 30):
        s1, s2 = sym("s1/%d" % rate, True, 0, 86398), sym("s2/%d" % rate, True, 0, 86398)
        f1, f2 = sym("f1/%d" % rate, True, 0, rate - 1), sym("f2/%d" % rate, True, 0, rate - 1)
        when(fam, "unknown frames at %d" % rate, time_rec(s1, f1, (rate, 1)), time_rec(s2, f2, (rate, 1)), rate, (s1, f1), (s2, f2))
        when(fam, "whole seconds in milliseconds at %d" % rate, at(s1), at(s2), rate, (s1, 0), (s2, 0))
    for ms, fr in ((0, 0), (40, 1), (39, 1), (21, 1), (19, 0), (501, 13), (960, 24)):
        s1 = sym("s1/%d ms" % ms, True, 0, 86397)
        when(fam, "%d ms at 25" % ms, at(s1, ms), at(add(s1, 1), ms), 25, (s1, fr), (add(s1, 1), fr))
    s1 = sym("s1/999 ms", True, 0, 86397)
    when(fam, "999 ms at 25", at(s1, 999), at(add(s1, 1), 999), 25, (add(s1, 1), 0), (add(s1, 2), 0))


@family("rows", 200)
def f(fam):
    for n in range(0, 23):
        label = "row %d" % n
        for s in again(fam, label, [subtitle([line([block(K("p"))], row(n)), line([block(K("q"))], row(n + 2))], at(1), at(2))] if n < 21 else [subtitle([line([block(K("p"))], row(n))], at(1), at(2))]):
            got = [r.f["vertical_position"].f["line"] for r in raws(s)]
            fam.equal(PLACE, label, s, tuple(got), tuple(some(x) for x in ((n, n + 2) if n < 21 else (n,))))


@family("several subtitles")
def f(fam):
    for n in (2, 3):
        xs = [some_text("xyz"[i]) for i in range(n)]
        label = "%d subtitles" % n
        for s in again(fam, label, [subtitle([line([block(x, italic=i % 2)], row(5 + i))], at(10 * i), at(10 * i + 5)) for i, x in enumerate(xs)], tuple(xs)):
            cues = pieces(s)
            fam.equal(TEXT, label, s, tuple(cat(*[r[0] for l in c[1] for r in l[1]]) for c in cues), tuple(s.mem["EXPECT"]))
            fam.equal(TIME, label, s, tuple(x.f["_seconds"] for c in cues for x in c[0]), tuple(x for i in range(n) for x in (10 * i, 10 * i + 5)))
            fam.equal(FORMAT, label, s, tuple(r[1][0] for c in cues for l in c[1] for r in l[1]), tuple(i % 2 for i in range(n)))
            fam.equal(PLACE, label, s, tuple(l[0] for c in cues for l in c[1]), tuple(some(5 + i) for i in range(n)))


FIELDS = {"OPT": "original_programme_title", "OET": "original_episode_title", "TPT": "translated_programme_title", "TET": "translated_episode_title", "TN": "translator_name",
          "TCD": "translator_contact_details", "PUB": "publisher", "EN": "editor_name", "ECD": "editor_contact_details"}


LEN = {n: l for n, o, l in stlbin.GSI}


@family("header")
def f(fam):
    ks = sorted(FIELDS)
    vs = [chars("h" + k, 3, S) for k in ks]
    for s in again(fam, "texts", [simple("abc")], tuple(vs), **dict(zip(ks, vs))):
        for k, v in zip(ks, s.mem["EXPECT"]):
            fam.equal(HEADER, k, s, s.result.f[FIELDS[k]], cat(v, K(" " * (LEN[k] - 3))))
    for n in (0, 1, 2, 5):
        for s in again(fam, "%d subtitles" % n, [simple("abc", i + 1) for i in range(n)]):
            fam.equal(HEADER, "%d subtitles" % n, s, (s.result.f["tti_blocks"], s.result.f["number_of_subtitles"]), (n, n))
    for rate in (24, 25, 30):
        for s in again(fam, "%d frames per second" % rate, [simple("abc")], fps=rate):
            fam.equal(HEADER, "%d frames per second" % rate, s, s.result.f["frame_rate"], rate)
    for l in (0, 1, 5, 9, 30):
        for s in again(fam, "language %d" % l, [simple("abc")], language=l):
            fam.equal(HEADER, "language %d" % l, s, s.result.f["language"], l)
