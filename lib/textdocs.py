"""Abstract documents in the text formats, with what they mean (written from the formats, not from the readers)."""
from fractions import Fraction

from dom import *
from inputs import *
from state import *

HEX = "0123456789abcdefABCDEF"


def hexval():
    t = [0] * 256
    for c in HEX:
        t[ord(c)] = int(c, 16)
    return tuple(t)


HEXTBL = hexval()


def hexnum(s):
    """the value of a string of (possibly unknown) hexadecimal digits"""
    v = 0
    for g in s.segs:
        if g[0] == "k":
            for c in g[1]:
                v = add(mul(v, 16), int(c, 16))
        else:
            v = add(mul(v, 16), bv_num(BV(g[1].a, HEXTBL)))
    return v


def unit(v):
    return mul(v, Fraction(1, 255))


class Doc(object):
    """cues: list of (from, to, lines); a line is a list of tokens
    ("t", text) | ("on", attr) | ("off", attr) | ("font", source, (r, g, b)) | ("endfont",) | ("raw", source)
    attr is one of bold, italic, underline"""

    eol = "\n"

    def __init__(self, name, cues, **k):
        self.name = name
        self.cues = cues
        self.k = k

    def expected(self):
        out = []
        for c in self.cues:
            f = {"bold": 0, "italic": 0, "underline": 0}
            f.update(self.k.get("base", {}))
            col = [self.k.get("base_colour", colour())]
            lines = []
            for n, l in enumerate(c[2]):
                rr = []
                for t in l:
                    if t[0] == "t":
                        fmt = (f["bold"], f["italic"], f["underline"], col[-1])
                        if rr and key(rr[-1][1]) == key(fmt):
                            rr[-1] = (cat(rr[-1][0], t[1]), fmt)
                        else:
                            rr.append((t[1], fmt))
                    elif t[0] == "on":
                        f[t[1]] = 1
                    elif t[0] == "off":
                        f[t[1]] = 0
                    elif t[0] == "font":
                        col.append(colour(*t[2]))
                    elif t[0] == "colour":
                        col[-1] = colour(*t[2]) if t[2] is not None else self.k.get("base_colour", colour())
                    elif t[0] == "endfont" and len(col) > 1:
                        col.pop()
                lines.append((n, tuple(rr)))
            out.append(((c[0], c[1]), tuple(lines)))
        return tuple(out)


class SubRip(Doc):
    cls = "sub::SubripReader"
    sep = ","

    def __init__(self, name, cues, braces=False, upper=False, pre="", tail=None, **k):
        Doc.__init__(self, name, cues, **k)
        self.braces = braces
        self.upper = upper
        self.pre = pre
        self.tail = tail

    def token(self, t):
        if t[0] == "t" or t[0] == "raw":
            return t[1]
        o, c = "{}" if self.braces else "<>"
        if t[0] == "on":
            s = o + t[1][0] + c
        elif t[0] == "off":
            s = o + "/" + t[1][0] + c
        elif t[0] in ("font", "colour"):
            return t[1]
        else:
            s = "</font>"
        return K(s.upper() if self.upper else s)

    def source(self):
        e = self.eol
        s = [K(self.pre)]
        for i, c in enumerate(self.cues):
            s += [K("%d%s" % (i + 1, e)), c[3].text, K(" --> "), c[4].text, K(e)]
            for l in c[2]:
                for t in l:
                    s.append(self.token(t))
                s.append(K(e))
            if self.tail is not None and i == len(self.cues) - 1:
                s[-1:] = [K(self.tail)]
            else:
                s.append(K(e))
        return cat(*s)


class WebVTT(Doc):
    cls = "sub::WebVTTReader"
    sep = "."

    def __init__(self, name, cues, ids=False, note=None, settings="", header="WEBVTT", **k):
        Doc.__init__(self, name, cues, **k)
        self.ids = ids
        self.note = note
        self.settings = settings
        self.header = header

    def source(self):
        e = self.eol
        s = [K(self.header + e + e)]
        for i, c in enumerate(self.cues):
            if self.note is not None:
                s += [K("NOTE" if self.note == "" else "NOTE "), self.note, K(e + e)]
            if self.ids:
                s += [K("cue%d" % i) if self.ids is True else self.ids[i], K(e)]
            s += [c[3].text, K(" --> "), c[4].text, K(self.settings + e)]
            for l in c[2]:
                for t in l:
                    s.append(t[1])
                s.append(K(e))
            s.append(K(e))
        return cat(*s)


class SSA(Doc):
    cls = "sub::SSAReader"
    sep = "."
    FORMAT = "Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text"

    def __init__(self, name, cues, head="", style="Default", margins=("0", "0", "0"), header=None, **k):
        Doc.__init__(self, name, cues, **k)
        self.head = head
        self.style = style
        self.margins = margins
        self.header = header

    def token(self, t):
        if t[0] == "t" or t[0] == "raw":
            return t[1]
        if t[0] in ("on", "off"):
            return K("{\\%s%d}" % (t[1][0], t[0] == "on"))
        return t[1]

    def source(self):
        e = self.eol
        s = [K(self.header if self.header is not None else "[Script Info]" + e), K(self.head),
             K("[Events]" + e + "Format: " + self.FORMAT + e)]
        for c in self.cues:
            m = [x if isinstance(x, Str) else K(x) for x in self.margins]
            s += [K("Dialogue: 0,"), c[3].text, K(","), c[4].text, K(","), K(self.style), K(",,"), m[0], K(","), m[1], K(","), m[2], K(",,")]
            for i, l in enumerate(c[2]):
                if i:
                    s.append(K("\\N"))
                for t in l:
                    s.append(self.token(t))
            s.append(K(e))
        return cat(*s)


class STLText(Doc):
    cls = "sub::STLTextReader"
    sep = ":"

    def __init__(self, name, cues, settings="", gap=" ", before=" ", **k):
        Doc.__init__(self, name, cues, **k)
        self.settings = settings
        self.gap = gap
        self.before = before

    def source(self):
        e = self.eol
        s = [K(self.settings)]
        for c in self.cues:
            s += [c[3].text, K(self.before + "," + self.gap), c[4].text, K(self.before + ",")]
            for i, l in enumerate(c[2]):
                if i:
                    s.append(K("|"))
                for t in l:
                    s.append(K("^" + t[1][0].upper()) if t[0] in ("on", "off") else t[1])
            s.append(K(e))
        return cat(*s)


class FrameTime(object):
    """hh:mm:ss:ff"""

    def __init__(self, name, n=2):
        self.h, self.m, self.s, self.f = (digits(name + x, 2) for x in "hmsf")
        self.text = cat(self.h, ":", self.m, ":", self.s, ":", self.f)

    def hms(self):
        return time_rec(add(mul(num(self.h), 3600), add(mul(num(self.m), 60), num(self.s))), num(self.f))


class SsaTime(Cue):
    """h:mm:ss.cc"""

    def __init__(self, name):
        Cue.__init__(self, name, 1, 2, ".")

    def hms(self):
        return Cue.hms(self, 10)


def clock(doc, name):
    if issubclass(doc, SubRip):
        return Cue(name, 2, 3, ",")
    if issubclass(doc, WebVTT):
        return Cue(name, 2, 3, ".")
    if issubclass(doc, SSA):
        return SsaTime(name)
    return FrameTime(name)


class Fixed(object):
    """a constant time of the right shape"""

    def __init__(self, doc, n):
        h, m, s = n // 3600, n // 60 % 60, n % 60
        if issubclass(doc, SubRip):
            self.text, fr, rate = K("%02d:%02d:%02d,000" % (h, m, s)), 0, (1000, 1)
        elif issubclass(doc, WebVTT):
            self.text, fr, rate = K("%02d:%02d:%02d.000" % (h, m, s)), 0, (1000, 1)
        elif issubclass(doc, SSA):
            self.text, fr, rate = K("%d:%02d:%02d.00" % (h, m, s)), 0, (1000, 1)
        else:
            self.text, fr, rate = K("%02d:%02d:%02d:00" % (h, m, s)), 0, None
        self.v = time_rec(n, 0, rate)

    def hms(self):
        return self.v


def cue(doc, name, lines, fixed=None):
    """a cue with unknown times, or with known ones"""
    if fixed is None:
        a, b = clock(doc, name + "f"), clock(doc, name + "t")
    else:
        a, b = Fixed(doc, fixed), Fixed(doc, fixed + 1)
    return (a.hms(), b.hms(), lines, a, b)


def T(s):
    return ("t", s if isinstance(s, Str) else K(s))


def ON(a):
    return ("on", a)


def OFF(a):
    return ("off", a)


# ---------------------------------------------------------------- running a document through its reader

def reader_key(fam, cls):
    short = cls.split("::")[-1]
    if short.startswith("STL"):
        return fam.fn(cls + "::" + short, "Si")
    return fam.fn(cls + "::" + short, "basic_string")


def read(fam, cls, label, source, expect=(), how=None):
    """the reader's object, made from a string (STL text: an istream), or from a FILE"""
    import models
    st = fam.I.start()
    if how == "FILE":
        st.mem["F"] = Rec("FILE", {"data": source, "pos": 0, "path": K("the file")})
        return fam.make(label, fam.fn(cls + "::" + cls.split("::")[-1], "FILE"), [Ptr(Ref("F"))], st=st, expect=expect)
    k = reader_key(fam, cls)
    if cls.split("::")[-1].startswith("STL"):
        st.mem["S"] = models.istream(source)
        return fam.make(label, k, [Ref("S")], st=st, expect=expect)
    return fam.make(label, k, [source], st=st, expect=expect)


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def check_doc(fam, doc, aspects, place=None):
    """aspects: subset of text, format, time, line"""
    how = getattr(doc, "how", None)
    name = "%s, %s%s" % (doc.cls.split("::")[-1], doc.name, ", from a " + how if how else "")
    out = read(fam, doc.cls, name, doc.source(), doc.expected(), how)
    if out is None:
        return
    for s in out:
        exp = s.mem["EXPECT"]
        if s.ctl is not None:
            fam.unreachable("a well-formed document is read", name, s,
                            "%s at %s for a well-formed document" % (fam.outcome(s), fam.where(s)))
            continue
        subs = raws(s)
        if subs is None or any(isinstance(x, Many) for x in subs):
            fam.undecided("abstract run", name, "the list of subtitles is not known: %s" % s.imp)
            continue
        got = runs(subs, place=place) if place else runs(subs)
        te = tup(texts(exp))
        same_text = None
        if "text" in aspects:
            same_text = fam.equal("all of the text, in order, once", name, s, tup(texts(got)), te)
        if "time" in aspects:
            fam.equal("the times of the cue", name, s, tup(times(got)), tup(times(exp)))
        if "line" in aspects:
            fam.equal("the line on which text is", name, s, tup(line_numbers(got)), tup([[some(n) for n in c] for c in line_numbers(exp)]))
        if "format" in aspects:
            if len(got) == len(exp) and [len(c[1]) for c in got] == [len(c[1]) for c in exp]:
                fam.equal("the formatting in force at each character", name, s, tup(formats(got)), tup(formats(exp)))
            else:
                fam.equal("the formatting in force at each character", name, s, tup(texts(got)), te)
