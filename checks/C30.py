"""where and why a text file is refused"""
from check import *
from textdocs import *

EXPLANATION = ("The SubRip and WebVTT readers are abstractly interpreted on files with one fault (a time line of another form, a field which is no number, a colour which is none) on every "
               "line up to the tenth, of unknown texts, from a string and from a FILE; the number of the line, the lines around it and the message of the exception must be those of the file.")
S1 = safe(" <{\\}|^,&\xef")
LINE = "the exception has the number of the line"
CONTEXT = "the exception has the lines around the fault"
MESSAGE = "the message says where, what was seen and what was expected"
NODIGIT = [c for c in range(33, 256) if chr(c) not in "0123456789+-:,. \t"]


def t(n, k=2):
    return chars(n, k, S1)


def stamp(sep, h=1):
    return "00:%02d:01%s000" % (h, sep)


def wrong(cls, text):
    return {"sub::SubripReader": "sub::SubripError", "sub::WebVTTReader": "sub::WebVTTError"}[cls]


def report(fam, cls, name, lines, bad, saw, more, words, eol="\n", how=None, pre="", last=True, expecting=None):
    """lines[bad] is refused for saw; more: the two lines after it are reported as well; words: what the message must speak of"""
    src = K(pre)
    for i, l in enumerate(lines):
        src = cat(src, l, K(eol if last or i < len(lines) - 1 else ""))
    exc = wrong(cls, saw)
    name = "%s%s%s: %s" % (cls.split("::")[-1], ", from a " + how if how else "", ", CR LF" if eol != "\n" else "", name)
    for s in read(fam, cls, name, src, how=how) or []:
        if fam.outcome(s) != "throw " + exc:
            fam.unreachable("a fault is reported", name, s, "%s, where %s is required" % ("the file is read" if s.ctl is None else fam.outcome(s) + " at " + fam.where(s), exc))
            continue
        v = s.ctl[1].v
        if not isinstance(v, Rec):
            fam.undecided("a fault is reported", name, "the exception is not known")
            continue
        if exc == "sub::SubripError":
            fam.equal(LINE, name, s, v.f.get("_line_number"), bad + 1)
        context = v.f.get("_context")
        want = lines[max(0, bad - 4):bad + 1] + (lines[bad + 1:bad + 3] if more else [])
        if not isinstance(context, Vec) or any(isinstance(x, Many) for x in context.items):
            fam.undecided(CONTEXT, name, "the lines are not known: %s" % s.imp)
        else:
            fam.equal(CONTEXT, name, s, tuple(context.items), tuple(K(x) if isinstance(x, str) else x for x in want))
        what = v.f.get("what")
        if not isinstance(what, Str):
            fam.undecided(MESSAGE, name, "the message is not known")
            continue
        shown = cat(saw) if not isinstance(saw, str) else K(saw)
        if shown.const() == "":
            shown = K("an empty string")
        start = cat("Error in SubRip file line %d: saw " % (bad + 1) if exc == "sub::SubripError" else "Error in WebVTT file: saw ", shown, " when expecting ")
        fam.equal(MESSAGE, name, s, what, cat(start, expecting))


TIME_LINE = {"sub::SubripReader": "a time/position line", "sub::WebVTTReader": "a time line"}


def good(D, n, k):
    """the lines of n cues"""
    sep = D.sep
    out = []
    for i in range(n):
        if D is SubRip:
            out.append(K(str(i + 1)))
        out += [K("%s --> %s" % (stamp(sep, i), stamp(sep, i + 1))), t("g%d" % i), K("")]
    return out


def head(D):
    return [] if D is SubRip else [K("WEBVTT"), K("")]


def time_lines(D, full=True):
    """(name, the line, what was seen, further lines are reported, what was expected)"""
    sep = D.sep
    a, b = stamp(sep), stamp(sep, 2)
    tl = TIME_LINE[D.cls]
    x = chars("x", 1, NODIGIT)
    out = [("two words", a + " -->", a + " -->", True, tl), ("four words", a + " --> " + b + " X1:1", a + " --> " + b + " X1:1", True, tl),
           ("eight words", a + " --> " + b + " a b c d e", a + " --> " + b + " a b c d e", True, tl),
           ("one word of unknown text", cat(t("w", 3), "-->" if D is WebVTT else ""), cat(t("w", 3), "-->" if D is WebVTT else ""), True, tl)]
    out.append(("no start", " --> " + b, "", False, "time in the format h:m:s,ms"))
    if D is SubRip:
        out.append(("an empty line", "", "", True, tl))
    names = ("hour", "minute", "second", "millisecond")
    for which in (0, 1) if full else (1,):
        for i in range(4):
            p = [K("00"), K("01"), K("02"), K("003")]
            p[i] = cat(chars("d", 1, "0123456789"), x)
            st = cat(p[0], ":", p[1], ":", p[2], sep, p[3])
            out.append(("%s %s" % (names[i], "of the start" if which == 0 else "of the end"), cat(st, " --> ", b) if which == 0 else cat(a, " --> ", st), st, False, "integer %s value" % names[i]))
        for n, bad, exp in (("no hours", "01:02%s003" % sep, "time in the format h:m:s%sms" % (sep if D is WebVTT else ",")), ("four fields", "0:0:0:1%s003" % sep, None), ("no milliseconds", "00:00:01", "ms"),
                            ("two fractions", "00:00:01%s1%s2" % (sep, sep), "ms")):
            exp = "time in the format h:m:s,ms" if exp != "ms" else "time in the format h:m:s%sms" % sep
            out.append(("%s %s" % (n, "in the start" if which == 0 else "in the end"), bad + " --> " + b if which == 0 else a + " --> " + bad, bad, False, exp))
    return out


def run(fam, D, how=None, eol="\n", places=(0, 1, 2, 3), after=(0, 1, 2, 3), full=True):
    for c in places:
        for n, line, saw, more, exp in time_lines(D, full):
            k = head(D) + good(D, c, 0)
            if D is SubRip:
                k.append(K(str(c + 1)))
            bad = len(k)
            k.append(line if isinstance(line, Str) else K(line))
            for x in after if more else (2,):
                rest = [t("after%d" % i) for i in range(x)]
                report(fam, D.cls, "%s, %d cues before, %d lines after" % (n, c, x), k + rest, bad, saw, more, (), eol=eol, how=how, expecting=exp)


@family("SubRip: time lines", 50)
def f(fam):
    run(fam, SubRip)


@family("SubRip: time lines of a FILE", 30)
def f(fam):
    run(fam, SubRip, "FILE", "\n", (0, 2), full=False)
    run(fam, SubRip, "FILE", "\r\n", (1,), full=False)


@family("SubRip: time lines with other ends", 30)
def f(fam):
    run(fam, SubRip, None, "\r\n", (0, 2), full=False)


@family("WebVTT: time lines", 50)
def f(fam):
    run(fam, WebVTT)


@family("WebVTT: time lines of a FILE", 30)
def f(fam):
    run(fam, WebVTT, "FILE", "\n", (0, 2), full=False)
    run(fam, WebVTT, "FILE", "\r\n", (1,), full=False)


@family("WebVTT: time lines with other ends", 30)
def f(fam):
    run(fam, WebVTT, None, "\r\n", (0, 2), full=False)


COLOUR = "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)"


@family("SubRip: colours")
def f(fam):
    hexd = "0123456789abcdefABCDEF"
    for c in (0, 1, 2):
        for n in (0, 1, 2, 3):
            for what, tag in (("five digits", cat(" color=\"#", chars("h", 5, hexd), "\"")), ("seven digits", cat(" color=\"#", chars("h", 7, hexd), "\"")), ("one digit", cat(" color=#", chars("h", 1, hexd))),
                              ("no colour", K(" face=\"x\"")), ("rgb", K(" color=\"rgb(1,2,3)\""))):
                for where, wrap in (("at the start", lambda y: y), ("after text", lambda y: cat(t("b4"), y, t("af"))), ("after a line separator", lambda y: cat(t("b4"), "\xe2\x80\xa8", y, t("af"))),
                                    ("after another tag", lambda y: cat("<i>", t("b4"), "</i>", y))):
                    k = good(SubRip, c, 0) + [K(str(c + 1)), K(stamp(",") + " --> " + stamp(",", 2))] + [t("l%d" % i) for i in range(n)]
                    bad = len(k)
                    k += [wrap(cat("<font", tag, ">")), t("z1"), t("z2")]
                    report(fam, "sub::SubripReader", "%s %s, %d cues and %d lines before" % (what, where, c, n), k, bad, tag, False, (), expecting=COLOUR)


@family("empty lines and notes before the fault")
def f(fam):
    for n in (1, 2, 3, 4, 5, 6, 7):
        k = [K("")] * n + [K("1")]
        report(fam, "sub::SubripReader", "%d empty lines before" % n, k + [K("x"), t("z1"), t("z2")], len(k), "x", True, (), expecting=TIME_LINE["sub::SubripReader"])
        k = [K("WEBVTT"), K("")] + [K("NOTE")] + [t("note%d" % i) for i in range(n)] + [K("")]
        report(fam, "sub::WebVTTReader", "a note of %d lines before" % n, k + [K("x -->"), t("z1"), t("z2")], len(k), "x -->", True, (), expecting=TIME_LINE["sub::WebVTTReader"])
        k = [K("1"), K(stamp(",") + " --> " + stamp(",", 2))] + [t("l%d" % i) for i in range(n)] + [K(""), K("2")]
        report(fam, "sub::SubripReader", "a cue of %d lines before" % n, k + [K("x"), t("z1"), t("z2")], len(k), "x", True, (), expecting=TIME_LINE["sub::SubripReader"])


@family("no header in a WebVTT file")
def f(fam):
    rule = "a file without its header is reported"
    for n in range(1, 7):
        for x in (chars("h", n, [c for c in S1 if c not in b"W"]), cat("W", chars("i", n, [c for c in S1 if c not in b"E"])), K("WEBVTT"[:n] if n < 6 else "webvtt"), K(" WEBVTT"), K("")):
            for s in read(fam, "sub::WebVTTReader", "first line %r" % (x,), cat(x, "\n\n00:00:01.000 --> 00:00:02.000\n", t("p"), "\n")) or []:
                if fam.outcome(s) != "throw sub::WebVTTHeaderError":
                    fam.unreachable(rule, "first line %r" % (x,), s, fam.outcome(s))
                else:
                    fam.ok(rule, "first line %r" % (x,))
