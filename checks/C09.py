"""whatever is in a file, a reader gives subtitles or one of the library's exceptions"""
from check import *
from textdocs import *
import models
import stlbin

EXPLANATION = ("Each reader is abstractly interpreted on files in which one place (a line, a field, a number, a time, a tag, a code) holds unknown bytes, is missing or stands twice; "
               "every path must end normally or with an exception of the library, with nothing undefined (an element outside a container, an empty optional, a null pointer, an uninitialised value) on the way.")
DEFINED = "only subtitles or one of the library's exceptions come from a file"
ANY = [c for c in range(256) if c not in (0,)]
LIB = ("sub::SubripError", "sub::WebVTTError", "sub::WebVTTHeaderError", "sub::SSAError", "sub::STLError", "sub::XMLError", "sub::UnknownFrameRateError", "sub::ProgrammingError")


def judge(fam, label, out):
    n = 0
    for s in out or []:
        bad = [e for e in s.events if e.kind not in ("stream write", "stream flushed", "stream state", "open for writing", "console output")]
        o = fam.outcome(s)
        if bad:
            e = bad[0]
            fam.unreachable(DEFINED, label, s, "%s at %s %s" % (e.kind, e.loc, e.info))
        elif o == "ok" or (o.startswith("throw ") and o[6:] in LIB):
            n += 1
            if s.imp is not None:
                fam.undecided(DEFINED, label, "imprecise: %s" % s.imp)
            else:
                fam.ok(DEFINED, label)
        else:
            fam.unreachable(DEFINED, label, s, "%s at %s" % (o, fam.where(s)))


def doc(fam, cls, label, *parts):
    fam.I.exact = True
    for how in (None,):
        judge(fam, label, read(fam, cls, label, put(parts)))


COUNT = [0]


def unknown(n, S=ANY):
    COUNT[0] += 1
    return chars("x%d" % COUNT[0], n, list(S))


class Slot(object):
    """what may stand in a place: nothing, the words given, or any few bytes"""

    def __init__(self, x=None, n=0, S=ANY):
        self.x, self.n, self.S = x, n, S

    def get(self):
        return K(self.x) if self.x is not None else unknown(self.n, self.S)


def fills(names, wide=2, S=ANY):
    for x in names:
        yield repr(x), Slot(x)
    for n in range(1, wide + 1):
        yield "%d unknown bytes" % n, Slot(None, n, S)


def put(parts):
    """the parts with their slots filled"""
    out = []
    for p in parts:
        if isinstance(p, Slot):
            p = p.get()
        elif isinstance(p, (list, tuple)):
            p = put(p)
        out.append(p)
    return cat(*out)


NL = [c for c in ANY if c not in (10,)]
NUMBERS = ("", "0", "-1", "x", " ", "1x", "99999999999", "1.5", "+", "-", "1e9", "2147483648")
# without the letters of nan, inf and 0x
NUMERIC = [c for c in NL if chr(c) not in "nNiIxX"]


@family("SubRip: lines")
def f(fam):
    for n, x in fills(("", "1", "\n", "\xef\xbb\xbf", "\xe2\x80\xa8", "x" * 5), 3):
        doc(fam, SubRip.cls, "only %s" % n, x)
        doc(fam, SubRip.cls, "number %s" % n, x, "\n00:00:01,000 --> 00:00:02,000\ntext\n\n")
    for n, x in fills(("", "\n", "x", "-->", "00:00:01,000", "00:00:01,000 -->", "00:00:01,000 --> 00:00:02,000 X1:1", " --> ", "a b c", "1:2:3,4 --> 5:6:7,8 a b c d", "a b c d e f g"), 2):
        doc(fam, SubRip.cls, "time line %s" % n, "1\n", x, "\ntext\n\n")
        doc(fam, SubRip.cls, "last line %s" % n, "1\n", x)
        doc(fam, SubRip.cls, "last line %s and more" % n, "1\n", x, "\n")
    for n, x in fills(("", "\n", "\n\n\n"), 2):
        doc(fam, SubRip.cls, "after the time line %s" % n, "1\n00:00:01,000 --> 00:00:02,000", x)
    good = "00:00:01,000"
    for n, x in fills(("", "::", ":", ":::", "::,", "0:0:0,", "0:0:,0", "0::0,0", ":0:0,0", "0:0:0,0,0", "0:0:0", "0:0", "0,0:0:0", "99999999999:0:0,0"), 2, [c for c in NL if c != 32]):
        doc(fam, SubRip.cls, "start %s" % n, "1\n", x, " --> " + good + "\ntext\n")
        doc(fam, SubRip.cls, "end %s" % n, "1\n" + good + " --> ", x, "\ntext\n")
    for n, x in fills(NUMBERS, 2, [c for c in NL if c != 32]):
        for i in range(4):
            p = ["00", ":", "00", ":", "01", ",", "000"]
            p[2 * i] = x
            doc(fam, SubRip.cls, "part %d of the time %s" % (i, n), "1\n", *(p + [" --> " + good + "\ntext\n"]))


TEXTS = ("", "<", "<b", "</", "</b", "{", "{\\", "{\\}", "{b", "{/", "</font", "<font", "<font>", "<font ", "</font>", "</font></font>", "\xe2", "\xe2\x80", "\xe2\x80\xa8", "\xe2\x80\xa8\xe2\x80\xa8",
         "\xe2\x80\xab", "{\\an", "{\\pos(", "{\\pos(1", "{\\pos(1,2,3)}", "{\\fs", "{\\fs}", "{\\c", "{\\c}", "{\\c&}", "{\\c&H}", "{\\c&H", "{\\ca}", "{\\clip(1,2,3,4)}", "{\\fscx100}", "{\\fsp2}", "{\\b1\\i1}", "{\\\\}", "{\\an10}")


@family("SubRip: text", 200)
def f(fam):
    for n, x in fills(TEXTS, 3, NL):
        for pre, post in (("", ""), ("a", "b"), ("a", "\nb")):
            doc(fam, SubRip.cls, "text %s%s%s" % (pre, n, repr(post)), "1\n00:00:01,000 --> 00:00:02,000\n" + pre, x, post)


@family("SubRip: tags", 200)
def f(fam):
    for tag in ("<font %s>", "<font color=\"%s\">", "<font color=\"#%s\">", "<font color='#%s'", "<font color=\"rgba(%s,1,1,1)\">", "<font color=\"rgba(1,1,1,%s)\">"):
        for n, x in fills(("",) + NUMBERS + ("zzzzzz", "#", "ffffff", "rgba", "rgba("), 2, NL):
            a, b = tag.split("%s")
            doc(fam, SubRip.cls, "%s with %s" % (tag, n), "1\n00:00:01,000 --> 00:00:02,000\na" + a, x, b + "b</font>c\n")


@family("SubRip: overrides", 200)
def f(fam):
    for tag in ("{\\%s}", "{\\%s", "{\\an%s}", "{\\pos(%s)}", "{\\pos(%s,1)}", "{\\pos(1,%s)}", "{\\fs%s}", "{\\c%s}", "{\\c&H%s&}", "{\\i%s}"):
        for n, x in fills(NUMBERS, 2, NUMERIC):
            a, b = tag.split("%s")
            doc(fam, SubRip.cls, "%s with %s" % (tag, n), "1\n00:00:01,000 --> 00:00:02,000\na" + a, x, b + "b\n")


@family("WebVTT")
def f(fam):
    for n, x in fills(("", "\n", "WEBVTT", "WEBVTT\n", "\xef\xbb\xbfWEBVTT", "WEBVT"), 3):
        doc(fam, WebVTT.cls, "only %s" % n, x)
    for n, x in fills(("", "\n", "NOTE", "NOTE\n", "NOTE x\n\n", "STYLE", "-->", " --> ", "a --> ", "a --> b", "00:00:01.000 --> ", "00:00:01.000 --> 00:00:02.000", "a b --> c", "a b c d e -->", "1\n-->"), 3):
        doc(fam, WebVTT.cls, "data %s" % n, "WEBVTT\n\n", x)
        doc(fam, WebVTT.cls, "data %s and text" % n, "WEBVTT\n\n", x, "\ntext\n\n")
    good = "00:00:01.000"
    for n, x in fills(("", "::", ":", ":::", "::.", "0:0:0.", "0:0:.0", "0::0.0", ":0:0.0", "0:0:0.0.0", "0:0:0", "00:01.000", "0.0:0:0", "99999999999:0:0.0"), 2, [c for c in NL if c != 32]):
        doc(fam, WebVTT.cls, "start %s" % n, "WEBVTT\n\n", x, " --> " + good + "\ntext\n")
        doc(fam, WebVTT.cls, "end %s" % n, "WEBVTT\n\n" + good + " --> ", x, "\ntext\n")
    for n, x in fills(NUMBERS, 2, [c for c in NL if c != 32]):
        for i in range(4):
            p = ["00", ":", "00", ":", "01", ".", "000"]
            p[2 * i] = x
            doc(fam, WebVTT.cls, "part %d of the time %s" % (i, n), "WEBVTT\n\n", *(p + [" --> " + good + "\ntext\n"]))
    for n, x in fills(("\xe2", "\xe2\x80", "\xe2\x80\xa8", "\xe2\x80\xa8\xe2\x80\xa8", "<", "<b", "-->"), 3):
        doc(fam, WebVTT.cls, "text %s" % n, "WEBVTT\n\n" + good + " --> " + good + "\n", x)
        doc(fam, WebVTT.cls, "text a%sb" % n, "WEBVTT\n\n" + good + " --> " + good + "\na", x, "b\n\n")


HEAD = "[Script Info]\nPlayResX: 640\nPlayResY: 480\n"
STYLES = "[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, BackColour, Bold, BorderStyle, Alignment, MarginL, MarginR, MarginV\n"
STYLE = ["Default", "Arial", "20", "&H00FFFFFF", "&H00000000", "0", "1", "2", "10", "10", "10"]
EVENTS = "[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n"
EVENT = ["0", "0:00:01.00", "0:00:02.00", "Default", "", "0", "0", "0", "", "text"]


def joined(l, i=None, x=None):
    out = []
    for n, v in enumerate(l):
        if n:
            out.append(",")
        out.append(x if n == i else v)
    return out


def ssa(fam, label, head=(HEAD,), styles=None, events=None):
    doc(fam, SSA.cls, label, *(list(head) + [STYLES, "Style: "] + (joined(STYLE) if styles is None else styles) + ["\n" + EVENTS + "Dialogue: "] + (joined(EVENT) if events is None else events) + ["\n"]))


@family("SSA: lines", 200)
def f(fam):
    for n, x in fills(("", "\n", ":", ";", "[", "[x]", "[Events]", "[Events]\n:", "[Events]\nDialogue:", "[Events]\nDialogue: 0", "[Events]\nFormat:", "[Events]\nFormat:\nDialogue:", "[Events]\nFormat:,\nDialogue:,",
                       "[Events]\nFormat: Text\nDialogue: a,b,c", "[Events]\nFormat: Start\nDialogue: a", "[V4+ Styles]\nStyle: a", "[V4+ Styles]\nFormat:\nStyle: a", "[V4+ Styles]\nFormat: Name\nStyle:",
                       "[V4+ Styles]\nFormat: Name\nStyle: a,b", "[V4+ Styles]\nFormat: Name, Bold\nStyle: a", "PlayResX", "\xef\xbb\xbf", "Dialogue: 0,0:00"), 3):
        doc(fam, SSA.cls, "only %s" % n, x)
        doc(fam, SSA.cls, "a line %s in Script Info" % n, HEAD, x, "\n", EVENTS + "Dialogue: " + ",".join(EVENT) + "\n")
        doc(fam, SSA.cls, "a line %s in Styles" % n, HEAD, STYLES, x, "\n", EVENTS + "Dialogue: " + ",".join(EVENT) + "\n")
        doc(fam, SSA.cls, "a line %s in Events" % n, HEAD, EVENTS, x, "\nDialogue: " + ",".join(EVENT) + "\n")
        doc(fam, SSA.cls, "type %s" % n, HEAD, EVENTS, x, ": " + ",".join(EVENT) + "\n")
        doc(fam, SSA.cls, "style format %s" % n, "[V4+ Styles]\nFormat:", x, "\nStyle: " + ",".join(STYLE) + "\n")
        doc(fam, SSA.cls, "event format %s" % n, "[Events]\nFormat:", x, "\nDialogue: " + ",".join(EVENT) + "\n")
    for k in ("PlayResX", "PlayResY"):
        for n, x in fills(NUMBERS, 2, NL):
            ssa(fam, "%s %s" % (k, n), ("[Script Info]\n" + k + ": ", x, "\n"))


@family("SSA: styles", 200)
def f(fam):
    for n, x in fills(NUMBERS + ("&", "&H", "&HG", "&H&", "H", "&&", ",", ",,", "-0"), 2, NL):
        for i in range(len(STYLE)):
            ssa(fam, "style field %d %s" % (i, n), styles=joined(STYLE, i, x))
    for n in range(len(STYLE) + 2):
        ssa(fam, "%d style fields" % n, styles=joined((STYLE + ["x", "y"])[:n]))


@family("SSA: events", 200)
def f(fam):
    for n, x in fills(NUMBERS + ("*", "**", "*Default", "Nonesuch", ":", "::", "::.", "0:0:0", "0:0:0.", "0:0:.0", "0:0:0.0.0", "0:0:0:0"), 2, NUMERIC):
        for i in range(len(EVENT) - 1):
            ssa(fam, "event field %d %s" % (i, n), events=joined(EVENT, i, x))
    for n in range(len(EVENT) + 2):
        ssa(fam, "%d event fields" % n, events=joined((EVENT + ["x", "y"])[:n]))
    for n, x in fills(NUMBERS, 2, [c for c in NL if c != 32]):
        for i in range(4):
            p = ["0", ":", "00", ":", "01", ".", "00"]
            p[2 * i] = x
            ssa(fam, "part %d of the time %s" % (i, n), events=joined(EVENT, 1, p))


@family("SSA: text", 200)
def f(fam):
    for n, x in fills(TEXTS + ("}", "{}", "\\", "\\N", "\\n", "\\N\\N", "{\\N}", "a{", "{a", "{a}b{", "\\h", ",", "{\\r}", "{\\rNone}", "{\\fad(1,2)}"), 3, NL):
        for pre, post in (("", ""), ("a", "b")):
            for st in ("Default", "None"):
                ssa(fam, "text %s%s%s, style %s" % (pre, n, post, st), events=joined(EVENT[:3] + [st] + EVENT[4:], 9, [pre, x, post]))


@family("SSA: overrides", 200)
def f(fam):
    for tag in ("{\\%s}", "{\\an%s}", "{\\pos(%s)}", "{\\pos(%s,1)}", "{\\pos(1,%s)}", "{\\fs%s}", "{\\c%s}", "{\\c&H%s&}", "{\\i%s}"):
        for n, x in fills(NUMBERS, 2, NUMERIC):
            a, b = tag.split("%s")
            ssa(fam, "%s with %s" % (tag, n), events=joined(EVENT, 9, ["a" + a, x, b + "b"]))


def stlt(fam, label, *parts):
    doc(fam, "sub::STLTextReader", label, *parts)


@family("STL text", 200)
def f(fam):
    for n, x in fills(("", "\n", "$", "$=", "$==", "$x", "//", "/", ",", ",,", ",,,", "a,b,c", "0:0:0:0,0:0:0:0,", "0:0:0:0,0:0:0:0", "0:0:0:0 , 0:0:0:0 , a"), 3):
        stlt(fam, "only %s" % n, x)
        stlt(fam, "a line %s" % n, x, "\n00:00:01:00 , 00:00:02:00 , text\n")
    good = "00:00:01:00"
    for n, x in fills(("", ":", ":::", "::::", "0:0:0", "0:0:0:0:0", "0:0:0:", ":0:0:0", "0::0:0", "x:0:0:0"), 2, NL):
        stlt(fam, "start %s" % n, x, " , " + good + " , text\n")
        stlt(fam, "end %s" % n, good + " , ", x, " , text\n")
    for n, x in fills(NUMBERS, 2, [c for c in NL if c != 32]):
        for i in range(4):
            p = ["00", ":", "00", ":", "01", ":", "00"]
            p[2 * i] = x
            stlt(fam, "part %d of the start %s" % (i, n), *(p + [" , " + good + " , text\n"]))
            stlt(fam, "part %d of the end %s" % (i, n), *([good + " , "] + p + [" , text\n"]))
    for v in ("$FontName", "$Bold", "$Italic", "$Underlined", "$FontSize", "$Nonesuch", ""):
        for n, x in fills(NUMBERS + ("True", "False", "=", "a=b"), 2, NL):
            stlt(fam, "%s %s" % (v, n), v + " = ", x, "\n" + good + " , " + good + " , text\n")
    for n, x in fills(("^", "^^", "|", "||", "^B", "^|", "a^", "|^", "^B^I^U", "a^B"), 3, NL):
        stlt(fam, "text %s" % n, good + " , " + good + " , ", x)
        stlt(fam, "text a%sb" % n, good + " , " + good + " , a", x, "b\n" + good + " , " + good + " , text\n")


def binary(fam, label, data):
    fam.I.exact = True
    judge(fam, label, stlbin.read_binary(fam, label, data))


@family("binary STL: header", 200)
def f(fam):
    b = [stlbin.tti(K("hello"))]
    for n, o, l in stlbin.GSI:
        if l <= 2:
            binary(fam, "%s is %d unknown bytes" % (n, l), cat(stlbin.gsi(**dict({"TNB": "00001"}, **{n: unknown(l)})), *b))
        for w in ("", "x", "0", "-1", "99999", "  1"):
            binary(fam, "%s is %r" % (n, w), cat(stlbin.gsi(**dict({"TNB": "00001"}, **{n: w[:l]})), *b))
        if n not in ("TNB",):
            binary(fam, "%s is unknown printing characters" % n, cat(stlbin.gsi(**dict({"TNB": "00001"}, **{n: unknown(l, PRINT)})), *b))
    for w in ("STL25.01", "STL30.01", "STL29.01", "STL00.01", "STL-1.01", "STLab.01", "        ", "STL99.99"):
        binary(fam, "DFC %r" % w, cat(stlbin.gsi(TNB="00001", DFC=w), *b))
    binary(fam, "no blocks and no more", stlbin.gsi(TNB="00000"))
    for w in ("00002", "99999", "-0001", "0x002", "abcde"):
        binary(fam, "%r blocks" % w, cat(stlbin.gsi(TNB=w), *b))


@family("binary STL: blocks", 200)
def f(fam):
    B = lambda n: unknown(1, range(256))
    two = stlbin.tti(K("world"))
    for n, k in (("SGN", {"sgn": B("x")}), ("EBN", {"ebn": B("x")}), ("CS", {"cs": B("x")}), ("VP", {"vp": B("x")}), ("JC", {"jc": B("x")}), ("CF", {"cf": B("x")}),
                 ("TCI", {"tci": [B("h"), B("m"), B("s"), B("f")]}), ("TCO", {"tco": [B("h"), B("m"), B("s"), B("f")]}), ("EBN and VP", {"ebn": B("x"), "vp": B("y")})):
        binary(fam, "%s unknown" % n, cat(stlbin.gsi(TNB="00001"), stlbin.tti(K("hello\x8athere"), **k)))
        binary(fam, "%s unknown in the first of two" % n, cat(stlbin.gsi(TNB="00002"), stlbin.tti(K("hello\x8athere"), **k), two))
        binary(fam, "%s unknown in the second of two" % n, cat(stlbin.gsi(TNB="00002"), stlbin.tti(K("hello"), ebn=0), stlbin.tti(K("hello\x8athere"), **k)))
    for dfc in ("STL23.01", "STL24.01", "STL25.01", "STL30.01"):
        binary(fam, "%s, unknown times" % dfc, cat(stlbin.gsi(TNB="00001", DFC=dfc), stlbin.tti(K("hello"), tci=[B("h"), B("m"), B("s"), B("f")])))


@family("binary STL: codes", 200)
def f(fam):
    for n, S in ((1, range(256)), (2, list(range(0, 9)) + list(range(0x7e, 0x92)) + [0x41, 0xc1, 0xcf, 0xff])):
        for pre, post in (("", ""), ("a", "b"), ("a\x8a", "\x8ab"), ("\xc1", "a"), ("\x80", "\x81"), ("\x8f", "a")):
            binary(fam, "%d unknown codes between %r and %r" % (n, pre, post), cat(stlbin.gsi(TNB="00001"), stlbin.tti(cat(pre, unknown(n, S), post))))
    for n in ("\xc1", "\xc1\xc1", "\xcf", "\xc9a", "\xcc", "\xff", "\x00", "\x9f", "\xc1\x8f", "\xc1\x8a", "\xc1\x00a"):
        binary(fam, "text %r" % n, cat(stlbin.gsi(TNB="00001"), stlbin.tti(K(n))))
        binary(fam, "text %r, continued" % n, cat(stlbin.gsi(TNB="00002"), stlbin.tti(K(n), ebn=0), stlbin.tti(K(n))))
        binary(fam, "a full block ending in %r" % n, cat(stlbin.gsi(TNB="00002"), stlbin.tti(K("a" * (112 - len(n)) + n), ebn=0), stlbin.tti(K("bc"))))
