"""ISO 6937 coding of text"""
import unicodedata

from check import *
from inputs import *

EXPLANATION = ("iso6937_to_utf16 and utf16_to_iso6937, with the tables that make_iso6937_tables fills, are abstractly interpreted on every code, every pair of a diacritical mark and a byte, "
               "every character of the repertoire, and on texts in which they stand next to each other; the oracle is Unicode's composition and the code table of ISO 6937 (as used by EBU Tech 3264).")
ACCENT = {0xc1: 0x300, 0xc2: 0x301, 0xc3: 0x302, 0xc4: 0x303, 0xc5: 0x304, 0xc6: 0x306, 0xc7: 0x307, 0xc8: 0x308, 0xca: 0x30a, 0xcb: 0x327, 0xcd: 0x30b, 0xce: 0x328, 0xcf: 0x30c}
LETTERS = {0xc1: "AEIOUaeiou", 0xc2: "ACEILNORSUYZacegilnorsuyz", 0xc3: "ACEGHIJOSUWYaceghijosuwy", 0xc4: "AINOUainou", 0xc5: "AEIOUaeiou", 0xc6: "AGUagu", 0xc7: "CEGIZcegz",
           0xc8: "AEIOUYaeiouy", 0xca: "AUau", 0xcb: "CGKLNRSTcklnrst", 0xcd: "OUou", 0xce: "AEIUaeiu", 0xcf: "CDELNRSTZcdelnrstz"}
G1 = """a1 a1 a2 a2 a3 a3 a4 24 a5 a5 a7 a7 a8 a4 a9 2018 aa 201c ab ab ac 2190 ad 2191 ae 2192 af 2193 b0 b0 b1 b1 b2 b2 b3 b3 b4 d7 b5 b5 b6 b6 b7 b7 b8 f7 b9 2019 ba 201d
bb bb bc bc bd bd be be bf bf d0 2015 d1 b9 d2 ae d3 a9 d4 2122 d5 266a d6 ac d7 a6 dc 215b dd 215c de 215d df 215e e0 2126 e1 c6 e2 110 e3 aa e4 126 e6 132 e7 13f e8 141 e9 d8
ea 152 eb ba ec de ed 166 ee 14a ef 149 f0 138 f1 e6 f2 111 f3 f0 f4 127 f5 131 f6 133 f7 140 f8 142 f9 f8 fa 153 fb df fc fe fd 167 fe 14b ff ad""".split()
CHAR = {i: i for i in range(32, 127)}
CHAR[10] = 10
CHAR.update({int(a, 16): int(b, 16) for a, b in zip(G1[::2], G1[1::2])})
# '$' may be written with either of its codes
SUBSTITUTE = {0x201e: "\xaa", 0x2013: "\xd0", 0x2014: "\xd0", 0x2010: "-", 0x2011: "-", 0x2012: "-", 0x2032: "'"}


def decode(fam, label, data, st=None, expect=()):
    key = fam.fn("sub::iso6937_to_utf16")
    return fam.run(label, key, [data if isinstance(data, Str) else K(data)], st=st, expect=expect) or []


def encode(fam, label, text, st=None, expect=()):
    key = fam.fn("sub::utf16_to_iso6937")
    return fam.run(label, key, [text if isinstance(text, Str) else K(text)], st=st, expect=expect) or []


def same(fam, rule, label, out, want):
    for s in out:
        if s.ctl is not None:
            fam.unreachable(rule, label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
        else:
            fam.equal(rule, label, s, s.result, want if isinstance(want, Str) else K(want))


def comp(a, c):
    return unicodedata.normalize("NFC", c + chr(ACCENT[a]))


@family("single codes")
def f(fam):
    rule = "each code is decoded as ISO 6937 says"
    for c, u in sorted(CHAR.items()):
        same(fam, rule, "code %02Xh" % c, decode(fam, "code %02Xh" % c, chr(c)), chr(u))
    for c in range(1, 256):
        if c not in CHAR and c not in ACCENT:
            label = "code %02Xh" % c
            if c not in (0xc9, 0xcc):       # these are marks in some versions
                same(fam, "a code without a meaning is left out and does not touch its neighbours", label, decode(fam, label, "a%cb" % c), "ab")


@family("letters with diacritical marks")
def f(fam):
    rule = "a diacritical mark and the letter after it are decoded as the composed letter"
    for a in sorted(ACCENT):
        label = "mark %02Xh" % a
        data = "".join(chr(a) + c + "|" for c in LETTERS[a])
        same(fam, rule, label, decode(fam, label, data), "".join(comp(a, c) + "|" for c in LETTERS[a]))
        # without anything between
        data = "".join(chr(a) + c for c in LETTERS[a])
        same(fam, rule, label + " (dense)", decode(fam, label, data + "z"), "".join(comp(a, c) for c in LETTERS[a]) + "z")


@family("marks without their letters")
def f(fam):
    for a in sorted(ACCENT):
        for label, data, want in (("at the end", "ab%c" % a, "ab"), ("alone", chr(a), "")):
            same(fam, "a mark at the end of the text does nothing", "mark %02Xh %s" % (a, label), decode(fam, label, data), want)
        # a mark affects just one character
        c = LETTERS[a][0]
        same(fam, "a mark affects one letter only", "mark %02Xh" % a, decode(fam, "mark", "x%c%c%cy" % (a, c, c)), "x" + comp(a, c) + c + "y")


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


REPERTOIRE = [(chr(u), chr(c)) for c, u in sorted(CHAR.items()) if u != 36] + [(comp(a, c), chr(a) + c) for a in sorted(ACCENT) for c in LETTERS[a]]


def encodings(i, part):
    def f(fam):
        rule = "a character is encoded as its ISO 6937 code"
        for u, c in part:
            label = "U+%04X" % ord(u)
            same(fam, rule, label, encode(fam, label, u), c)
    family("encoding %d" % i, 200)(f)


@family("dollar")
def f(fam):
    for s in encode(fam, "dollar", "a$b"):
        g = s.result.const() if isinstance(s.result, Str) and s.ctl is None else None
        fam.equal("a character is encoded as its ISO 6937 code", "dollar (A4h or 24h)", s, s.result, K("a\xa4b" if g == "a\xa4b" else "a$b"))
        same(fam, "text survives encoding and decoding", "dollar", decode(fam, "dollar", s.result, st=s.copy()), "a$b")


for i, p in enumerate(chunks(REPERTOIRE, 60)):
    encodings(i, p)


@family("round trip", 300)
def f(fam):
    for i, p in enumerate(chunks(REPERTOIRE, 24)):
        t = "".join(u for u, c in p)
        label = "text of repertoire %d" % i
        for s in encode(fam, label, t):
            if s.ctl is not None:
                fam.unreachable("text survives", label, s, fam.outcome(s))
                continue
            same(fam, "text survives encoding and decoding", label, decode(fam, label, s.result, st=s.copy()), t)


@family("characters which ISO 6937 does not have")
def f(fam):
    for u, c in sorted(SUBSTITUTE.items()):
        label = "U+%04X" % u
        same(fam, "quotation marks and dashes are replaced by similar ones", label, encode(fam, label, "a%cb" % u), "a%sb" % c)
    for u in (0x410, 0x3b1, 0x4e00, 0x1f600, 0x2028, 0xa0, 0x7f, 0x1e9e, 0x200b):
        label = "U+%04X" % u
        same(fam, "other characters are left out and do not touch their neighbours", label, encode(fam, label, "a%cb" % u), "ab")


@family("combining marks")
def f(fam):
    rule = "a letter followed by a combining mark is encoded like the composed letter"
    for a in sorted(ACCENT):
        for c in (LETTERS[a][0], LETTERS[a][-1]):
            label = "%s with U+%04X" % (c, ACCENT[a])
            same(fam, rule, label, encode(fam, label, "x%c%cy" % (c, ACCENT[a])), "x%c%cy" % (a, c))


@family("texts do not depend on what was coded before")
def f(fam):
    rule = "coding has no memory"
    tests = ["caf\xc2e", "a\xffb", "\xc1x", "\xc0q", "\xc9e\xcca", "plain", "\xc2", "e\xc8u"]
    wants = ["caf\u00e9", "a\u00adb", None, None, None, "plain", "", "e\u00fc"]
    st = [fam.I.start()]
    for r in range(2):
        for t, w in zip(tests, wants):
            nxt = []
            for s0 in st:
                for s in decode(fam, ascii(t), t, st=s0):
                    if s.ctl is not None:
                        fam.unreachable(rule, ascii(t), s, fam.outcome(s))
                        continue
                    if w is not None:
                        fam.equal(rule, "%s, round %d" % (ascii(t), r), s, s.result, K(w))
                    nxt.append(s)
            st = nxt
    for s0 in st:
        same(fam, rule, "encoding after it", encode(fam, "after", "\u00e9\u00fc\u00e0", st=s0), "\xc2e\xc8u\xc1a")
