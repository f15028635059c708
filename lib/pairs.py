"""Documents of all sequences of mark-up tokens, with unknown characters between, and what they mean.

A token is (name, source, effect): the effect changes the formatting in force, or is a text, or a new line."""
import itertools

from check import *
from textdocs import *

S1 = safe(" <{\\}|^,&\xef")
FIELDS = ("bold", "italic", "underline", "colour", "font_size")
BLUE = colour(0, 0, 1)


class Now(object):
    """what is in force, and what has been said"""

    def __init__(self, **base):
        self.f = {"bold": 0, "italic": 0, "underline": 0, "font_size": font_size(), "colour": colour()}
        self.f.update(base)
        self.base = dict(self.f)
        self.stack = []
        self.line = 0
        self.breaks = 0
        self.out = []

    def text(self, s):
        k = (self.line,) + tuple(self.f[n] for n in FIELDS)
        if self.out and key(self.out[-1][1]) == key(k):
            self.out[-1] = (cat(self.out[-1][0], s), k)
        else:
            self.out.append((s, k))


def put(**k):
    return lambda n: n.f.update(k)


def font(c):
    def f(n):
        n.stack.append(n.f["colour"])
        n.f["colour"] = colour(*c)
    return f


def endfont(n):
    if n.stack:
        n.f["colour"] = n.stack.pop()


def newline(n):
    n.line += 1


def words(s):
    return lambda n: n.text(K(s))


def nothing(n):
    pass


def subrip():
    r = []
    for a in ("bold", "italic", "underline"):
        c = a[0]
        up = c.upper()
        for v, l in ((1, ("<%s>" % c, "{%s}" % c, "{\\%s1}" % c)), (0, ("</%s>" % c, "{/%s}" % c, "{\\%s0}" % c))):
            for x in l:
                r.append((x, K(x), put(**{a: v})))
        r.append(("<%s>" % up, K("<%s>" % up), put(**{a: 1})))
        r.append(("</%s>" % up, K("</%s>" % up), put(**{a: 0})))
    for n, s, c in (("<font #hex>", '<font color="#00ff00">', (0, 1, 0)), ("<font #hex8>", "<font color='#ff000080'>", (1, 0, 0)), ("<font rgba()>", '<font color="rgba(0,255,255,9)">', (0, 1, 1)),
                    ("<font no quotes>", "<font face=Arial color=#ff00FF size=3>", (1, 0, 1))):
        r.append((n, K(s), font(c)))
    r.append(("</font>", K("</font>"), endfont))
    r.append(("{\\c}", K("{\\c&Hff0000&}"), put(colour=BLUE)))
    r.append(("{\\fs}", K("{\\fs36}"), put(font_size=font_size(Fraction(36, 288)))))
    r.append(("{\\i1\\b1}", K("{\\i1\\b1}"), put(italic=1, bold=1)))
    r.append(("{\\an8}", K("{\\an8}"), nothing))
    r.append(("{\\pos}", K("{\\pos(10,20)}"), nothing))
    r.append(("{\\fad}", K("{\\fad(100,200)}"), nothing))
    r.append(("newline", K("\n"), newline))
    r.append(("U+2028", K("\xe2\x80\xa8"), newline))
    r.append(("U+202B", K("\xe2\x80\xab"), nothing))
    for x in ("<-", "{-", " ", "<x>", "}", "\\", ">", "-->"):
        r.append(("'%s'" % x, K(x), words(x)))
    return r


def ssa():
    r = []
    for a in ("bold", "italic", "underline"):
        for v in (1, 0):
            r.append(("{\\%s%d}" % (a[0], v), K("{\\%s%d}" % (a[0], v)), put(**{a: v})))
    r.append(("{\\i}", K("{\\i}"), put(italic=0)))
    r.append(("{\\fs36}", K("{\\fs36}"), put(font_size=font_size(Fraction(36, 288)))))
    r.append(("{\\fs12.5}", K("{\\fs12.5}"), put(font_size=font_size(Fraction(25, 576)))))
    r.append(("{\\c&H}", K("{\\c&Hff0000&}"), put(colour=BLUE)))
    r.append(("{\\c}", K("{\\c}"), lambda n: n.f.update(colour=n.base["colour"])))
    r.append(("{\\i1\\b1}", K("{\\i1\\b1}"), put(italic=1, bold=1)))
    r.append(("{\\u0\\fs36\\c&H&}", K("{\\u0\\fs36\\c&Hff0000&}"), put(underline=0, font_size=font_size(Fraction(36, 288)), colour=BLUE)))
    for x in ("{\\clip(1,2,3,4)}", "{\\fad(100,200)}", "{a comment}", "{}", "{\\blur2}"):
        r.append((x, K(x), nothing))
    r.append(("\\N", K("\\N"), newline))
    r.append(("\\n", K("\\n"), newline))
    for x in (" ", ",", "<b>", "}", "N", ":", "&"):
        r.append(("'%s'" % x, K(x), words(x)))
    return r


def stl():
    r = []
    for a in ("bold", "italic", "underline"):
        r.append(("^" + a[0].upper(), K("^" + a[0].upper()), lambda n, a=a: n.f.update({a: 1 - n.f[a]})))
    r.append(("|", K("|"), newline))
    for x in (" ", ",", "<b>", "{", "\\", "//", "$", "=", ":"):
        r.append(("'%s'" % x, K(x), words(x)))
    return r


TOKENS = {SubRip: subrip, SSA: ssa, STLText: stl}


# one token of each kind, for longer sequences
REDUCED = {SubRip: ["<b>", "</b>", "{i}", "{\\i1}", "{\\i0}", "</u>", "<font #hex>", "<font rgba()>", "</font>", "{\\c}", "{\\i1\\b1}", "{\\an8}", "newline", "U+2028", "U+202B", "'<-'", "'{-'", "'}'"],
           SSA: ["{\\b1}", "{\\b0}", "{\\u1}", "{\\fs36}", "{\\c&H}", "{\\c}", "{\\i1\\b1}", "{\\u0\\fs36\\c&H&}", "{a comment}", "{}", "\\N", "\\n", "' '", "','", "'}'", "'N'"],
           STLText: ["^B", "^I", "^U", "|", "' '", "','", "'<b>'", "'\\'", "'//'", "'$'"]}


def excluded(D, toks):
    """combinations for which the format does not say what they mean, or which would be other tokens"""
    n = [t[0] for t in toks]
    if D is SubRip:
        cs = [i for i, x in enumerate(n) if x == "{\\c}"]
        fs = [i for i, x in enumerate(n) if x == "</font>"]
        if cs and fs:
            return True
    return False


def spoilt(D, src):
    """a source which holds mark-up that no token stands for, or lines which end the cue"""
    s = "".join(g[1] if g[0] == "k" else "\0" for g in src.segs)
    if D is SubRip and (s.startswith("\n") or "\n\n" in s or s.endswith("\n") or any(not l for l in s.split("\n"))):
        return True
    return False


def sequence(toks, shape, base, before="", after=""):
    """shape: a string of t (the next token) and x (an unknown character)"""
    now = Now(**base)
    src, it, n = [K(before)], iter(toks), 0
    if before:
        now.text(K(before))
    for c in shape:
        if c == "x":
            x = chars("x%d" % n, 1, S1)
            n += 1
            src.append(x)
            now.text(x)
        else:
            t = next(it)
            src.append(t[1])
            t[2](now)
    if after:
        now.text(K(after))
    return cat(*(src + [K(after)])), now


HEAD = {SubRip: "1\n00:00:01,000 --> 00:00:02,000\n", SSA: "[Script Info]\n[Events]\nFormat: " + SSA.FORMAT + "\nDialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,", STLText: "00:00:01:00 , 00:00:02:00 ,"}
TAIL = {SubRip: "\n\n", SSA: "\n", STLText: "\n"}
RULE = {"text": "all of the text, in order, once", "format": "the formatting in force at each character", "line": "the line on which text is"}


def check(fam, D, toks, shape, aspects, base=None, fields=None):
    if excluded(D, toks):
        return
    base = dict(base or {})
    if D is SSA:
        base.setdefault("font_size", font_size(Fraction(72, 288)))
    # (readers of SSA and STL text trim the text)
    src, now = sequence(toks, shape, base, "" if D is SubRip else "A", "" if D is SubRip else "B")
    if spoilt(D, src):
        return
    want = tuple(now.out)
    label = "%s, %s" % (D.cls.split("::")[-1], " ".join([t[0] for t in toks] + ["as " + shape]))
    out = read(fam, D.cls, label, cat(HEAD[D], src, TAIL[D]), want)
    for s in out or []:
        w = s.mem["EXPECT"]
        if s.ctl is not None:
            fam.unreachable("a well-formed document is read", label, s, "%s at %s for a well-formed document" % (fam.outcome(s), fam.where(s)))
            continue
        rr = raws(s)
        if rr is None or any(isinstance(x, Many) for x in rr):
            fam.undecided("abstract run", label, "the list of subtitles is not known: %s" % s.imp)
            continue
        got = []
        for x in rr:
            if isinstance(x.f["text"], Str) and not x.f["text"].segs:
                continue
            vp = x.f["vertical_position"].f
            ln = vp["proportional"] if D is SSA else vp["line"].v if isinstance(vp["line"], Opt) else vp["line"]
            got.append((x.f["text"], (ln,) + tuple(x.f[n] for n in FIELDS)))
        if "text" in aspects:
            fam.equal(RULE["text"], label, s, cat(K(""), *[g[0] for g in got]), cat(K(""), *[g[0] for g in w]))
        if "format" in aspects:
            fam.equal(RULE["format"], label, s, join(got, slice(1, None)), join(w, slice(1, None)), Fraction(1, 100000))
        if "line" in aspects:
            if D is SSA:
                ranks = {}
                g = []
                for tx, k in got:
                    v = k[0].v if isinstance(k[0], Opt) else k[0]
                    ranks.setdefault(key(v), v)
                vals = list(ranks.values())
                if not all(isnum(v) and isconst(v) for v in vals):
                    fam.undecided(RULE["line"], label, "positions %s" % (vals,))
                    continue
                order = sorted(vals, reverse=True)
                # from the bottom: the higher the proportion, the higher the line
                lines = sorted({k[0] for _, k in w})
                idx = {key(v): lines[i] if i < len(lines) else -1 for i, v in enumerate(order)}
                got = [(tx, (idx[key(k[0].v if isinstance(k[0], Opt) else k[0])],)) for tx, k in got]
                fam.equal(RULE["line"], label, s, join(got, slice(0, 1)), join(w, slice(0, 1)))
            else:
                fam.equal(RULE["line"], label, s, join(got, slice(0, 1)), join(w, slice(0, 1)))


def join(pieces, part):
    """runs which are equal in this part"""
    out = []
    for t, k in pieces:
        k = k[part]
        if out and key(out[-1][1]) == key(k):
            out[-1] = (cat(out[-1][0], t), k)
        else:
            out.append((t, k))
    return tuple(out)


def families(D, aspects, shapes, parts, depth=2, tier="quick", seconds=300):
    """all sequences of tokens, in several families by the first one"""
    toks = TOKENS[D]()
    if depth > 2:
        toks = [x for x in toks if x[0] in REDUCED[D]]
    n = len(toks)
    for p in range(parts):
        def f(fam, p=p):
            for i in range(p, n, parts):
                for rest in itertools.product(toks, repeat=depth - 1):
                    for sh in shapes:
                        check(fam, D, [toks[i]] + list(rest), sh, aspects)
        family("%s: all sequences of %s, as %s, part %d" % (D.__name__, {1: "one token", 2: "two tokens", 3: "three tokens"}[depth], " and ".join(shapes), p + 1), seconds, tier)(f)
