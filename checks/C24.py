"""comparison and conversion of values"""
from fractions import Fraction
from check import *
from inputs import *

EXPLANATION = ("The comparison operators of the public classes, and the constructors which make subtitles, lines and blocks of raw subtitles, are abstractly interpreted on values whose "
               "fields are unknown: comparison must say 'equal' exactly if every field is, and the constructors must copy every field.")
RULE = "values are equal exactly if all that they hold is"
COPY = "nothing is lost or changed on conversion"
RATE = (1000, 1)
TEXT = [c for c in range(1, 256)]


def word(name, n=3):
    return chars(name, n, TEXT)


def unknown(name, lo=0, hi=1):
    return sym(name, False, lo=Fraction(lo), hi=Fraction(hi))


def op(fam, name, cls):
    ks = [k for k in fam.I.find("sub::" + name) + fam.I.find("sub::%s::%s" % (cls, name)) if fam.I.fn[k][1].get("body") is not None]
    for k in ks:
        f = fam.I.fn[k][1]
        p = f["params"]
        if len(p) == 2 and "%d%s" % (len(cls), cls) in k:
            fam.anchors += 1
            return k, False
        if len(p) == 1 and "%d%s" % (len(cls), cls) in k:
            fam.anchors += 1
            return k, True
    raise AnalysisBroken("no %s of %s found" % (name, cls))


def compare(fam, cls, label, a, b, want, name="operator=="):
    k, member = op(fam, name, cls)
    st = fam.I.start()
    st.mem["A"] = a
    st.mem["B"] = b
    label = "%s: %s" % (cls, label)
    for s in (fam.run(label, k, [Ref("B")], Ref("A"), st) if member else fam.run(label, k, [Ref("A"), Ref("B")], None, st)) or []:
        if s.ctl is not None:
            fam.unreachable(RULE, label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
            continue
        fam.truth(RULE, label, s, s.result, want, "equality")


def both(fam, cls, label, a, b, want):
    compare(fam, cls, label, a, b, want)
    compare(fam, cls, label + " (the other way round)", b, a, want)


# ---- values of each kind, all of them different

def t(i, name):
    """unknown times: the i-th kind of them"""
    return time_rec(sym("%s.seconds" % name, lo=1000 * i, hi=1000 * i + 999), sym("%s.ms" % name, lo=0, hi=999), RATE)


def values(name):
    """field -> two or more different values"""
    lo, hi = Fraction(1, 10), Fraction(2, 10)
    return {
        "text": [word(name + ".text"), cat(word(name + ".text2"), "x"), K("")],
        "font": [NONE, some(word(name + ".font")), some(cat(word(name + ".font2"), "y"))],
        "font_size": [font_size(), font_size(points=12), font_size(points=13), font_size(proportional=lo), font_size(proportional=hi)],
        "effect": [NONE, some(0), some(1)],
        "effect_colour": [NONE, some(colour(0, 0, 0)), some(colour(1, 0, 0)), some(colour(0, 1, 0)), some(colour(0, 0, 1))],
        "colour": [colour(1, 1, 1), colour(lo, 1, 1), colour(1, lo, 1), colour(1, 1, lo)],
        "bold": [0, 1], "italic": [0, 1], "underline": [0, 1],
    }


def times(name):
    return {"from": [t(1, name + ".from"), t(2, name + ".from2")], "to": [t(3, name + ".to"), t(4, name + ".to2")],
            "fade_up": [NONE, some(t(0, name + ".up")), some(t(5, name + ".up2"))], "fade_down": [NONE, some(t(0, name + ".down")), some(t(6, name + ".down2"))]}


def positions(name):
    p = unknown(name + ".p", 0, Fraction(1, 3))
    q = unknown(name + ".q", Fraction(1, 2), 1)
    return {"vertical_position": [vpos(proportional=p, reference=0), vpos(proportional=q, reference=0), vpos(proportional=p, reference=2),
                                  vpos(line=3, lines=12, reference=0), vpos(line=4, lines=12, reference=0), vpos(line=3, lines=24, reference=0), vpos(line=3, lines=12, reference=2)],
            "horizontal_position": [hpos(0, p), hpos(1, p), hpos(2, p), hpos(0, q)]}


def with_(r, **k):
    f = dict(r.f)
    f.update(k)
    return Rec(r.cls, f)


def pairs(vs):
    return [(a, b) for i, a in enumerate(vs) for b in vs[i + 1:]]


@family("blocks")
def f(fam):
    vs = values("block")
    for k in (0, 1, -1):
        b = block(vs["text"][k], **{n: v[k] for n, v in vs.items() if n != "text"})
        both(fam, "Block", "a block and its copy, %d" % k, b, b, True)
    for n, v in vs.items():
        for base in (0, 1):
            d = {m: w[base] for m, w in vs.items()}
            for i, (x, y) in enumerate(pairs(v)):
                both(fam, "Block", "only %s differs, %d.%d" % (n, base, i), block(**dict(d, **{n: x})), block(**dict(d, **{n: y})), False)
    a, b = word("a", 3), word("b", 3)
    compare(fam, "Block", "unknown texts, of which one is longer", block(a), block(cat(b, "x")), False)


@family("lines")
def f(fam):
    vs = positions("line")
    blocks = [block(word("one")), block(word("two"))]
    for i, v in enumerate(vs["vertical_position"]):
        for j, h in enumerate(vs["horizontal_position"]):
            l = line(blocks, v, h)
            compare(fam, "Line", "a line and its copy, %d.%d" % (i, j), l, l, True)
    v, h = vs["vertical_position"][0], vs["horizontal_position"][0]
    for i, (x, y) in enumerate(pairs(vs["vertical_position"])):
        both(fam, "Line", "only the vertical position differs, %d" % i, line(blocks, x, h), line(blocks, y, h), False)
    for i, (x, y) in enumerate(pairs(vs["horizontal_position"])):
        both(fam, "Line", "only the horizontal position differs, %d" % i, line(blocks, v, x), line(blocks, v, y), False)
    one, two, other = block(word("one")), block(cat(word("two"), "y")), block(cat(word("three"), "zz"))
    for what, x, y in (("one has another block at the end", [one], [one, two]), ("one has no blocks", [], [one]), ("the blocks stand in another order", [one, two], [two, one]),
                       ("the first block differs", [one, two], [other, two]), ("the last block differs", [one, two], [one, other]), ("a block in the middle differs", [one, two, one], [one, other, one]),
                       ("the last block differs in italics", [one, two], [one, with_(two, italic=1)])):
        both(fam, "Line", what, line(x, v, h), line(y, v, h), False)


@family("subtitles")
def f(fam):
    vs = times("subtitle")
    p = positions("subtitle")
    ls = [line([block(word("one"))], p["vertical_position"][3], p["horizontal_position"][0]), line([block(cat(word("two"), "x"))], p["vertical_position"][4], p["horizontal_position"][0])]
    rec = lambda d, l: subtitle(l, d["from"], d["to"], *[None if d[k].e is False else d[k].v for k in ("fade_up", "fade_down")])
    for base in (0, 1):
        d = {m: w[base] for m, w in vs.items()}
        both(fam, "Subtitle", "a subtitle and its copy, %d" % base, rec(d, ls), rec(d, ls), True)
        for n, v in vs.items():
            for i, (x, y) in enumerate(pairs(v)):
                both(fam, "Subtitle", "only %s differs, %d.%d" % (n, base, i), rec(dict(d, **{n: x}), ls), rec(dict(d, **{n: y}), ls), False)
        for what, x, y in (("one has another line", ls[:1], ls), ("one has no lines", [], ls), ("the lines stand in another order", ls, ls[::-1]), ("the last line differs", ls, [ls[0], ls[0]]),
                           ("the first line differs", ls, [ls[1], ls[1]])):
            both(fam, "Subtitle", "%s, %d" % (what, base), rec(d, x), rec(d, y), False)
    x, y = sym("x.ms", lo=0, hi=999), sym("y.ms", lo=0, hi=999)
    s = sym("seconds", lo=0, hi=99999)
    at = lambda ms: time_rec(s, ms, RATE)
    for n, mk in (("from", lambda v: subtitle(ls, v, vs["to"][0])), ("to", lambda v: subtitle(ls, at(0), v)),
                  ("fade_up", lambda v: subtitle(ls, at(0), vs["to"][0], v)), ("fade_down", lambda v: subtitle(ls, at(0), vs["to"][0], None, v))):
        both(fam, "Subtitle", "%s in the same second" % n, mk(at(x)), mk(at(y)), eq(sub(x, y), 0))


@family("colours")
def f(fam):
    for i in range(3):
        a, b = unknown("a"), unknown("b")
        c = [unknown("c%d" % j) for j in range(3)]
        x, y = list(c), list(c)
        x[i], y[i] = a, b
        both(fam, "Colour", "component %d unknown" % i, colour(*x), colour(*y), eq(sub(a, b), 0))
    c = [unknown("c%d" % j) for j in range(3)]
    compare(fam, "Colour", "a colour and its copy", colour(*c), colour(*c), True)


@family("font sizes")
def f(fam):
    p, q, x, y = unknown("p"), unknown("q"), sym("x", lo=0, hi=999), sym("y", lo=0, hi=999)
    both(fam, "FontSize", "points", font_size(points=x), font_size(points=y), eq(sub(x, y), 0))
    both(fam, "FontSize", "proportional", font_size(proportional=p), font_size(proportional=q), eq(sub(p, q), 0))
    both(fam, "FontSize", "points and proportional", font_size(points=x), font_size(proportional=q), False)
    both(fam, "FontSize", "none and points", font_size(), font_size(points=x), False)
    both(fam, "FontSize", "none and proportional", font_size(), font_size(proportional=q), False)
    both(fam, "FontSize", "none", font_size(), font_size(), True)
    both(fam, "FontSize", "both, equal points", font_size(p, x), font_size(q, x), eq(sub(p, q), 0))
    both(fam, "FontSize", "both, equal proportions", font_size(p, x), font_size(p, y), eq(sub(x, y), 0))


@family("vertical positions")
def f(fam):
    p, q = unknown("p"), unknown("q")
    for a in range(4):
        for b in range(4):
            same = a == b
            what = "%d and %d" % (a, b)
            both(fam, "VerticalPosition", "proportional, references " + what, vpos(proportional=p, reference=a), vpos(proportional=q, reference=b), eq(sub(p, q), 0) if same else False)
            l, m = sym("l", lo=0, hi=99), sym("m", lo=0, hi=99)
            both(fam, "VerticalPosition", "lines, references " + what, vpos(line=l, lines=12, reference=a), vpos(line=m, lines=12, reference=b), eq(sub(l, m), 0) if same else False)
            both(fam, "VerticalPosition", "lines of different screens, references " + what, vpos(line=l, lines=12, reference=a), vpos(line=m, lines=24, reference=b), False)
            both(fam, "VerticalPosition", "lines of an unknown screen, references " + what, vpos(line=l, reference=a), vpos(line=m, reference=b), eq(sub(l, m), 0) if same else False)
            both(fam, "VerticalPosition", "a proportion and a line, references " + what, vpos(proportional=p, reference=a), vpos(line=l, lines=12, reference=b), False)
    for r in (0, 3):
        both(fam, "VerticalPosition", "one without any place, reference %d" % r, vpos(reference=r), vpos(proportional=p, reference=r), False)
        both(fam, "VerticalPosition", "one without a reference, %d" % r, vpos(proportional=p), vpos(proportional=p, reference=r), False)
        both(fam, "VerticalPosition", "one line without a reference, %d" % r, vpos(line=1, lines=12), vpos(line=1, lines=12, reference=r), False)


@family("horizontal positions")
def f(fam):
    p, q = unknown("p"), unknown("q")
    d = Fraction(1, 1998)
    near = ("and", lt(sub(p, q), d), lt(sub(q, p), d))
    for a in range(3):
        for b in range(3):
            both(fam, "HorizontalPosition", "references %d and %d" % (a, b), hpos(a, p), hpos(b, q), near if a == b else False)
            both(fam, "HorizontalPosition", "the same place, references %d and %d" % (a, b), hpos(a, p), hpos(b, p), a == b)


@family("ratios")
def f(fam):
    a, b, c, d = [sym(n, lo=1, hi=100000) for n in "abcd"]
    both(fam, "Rational", "numerators", rational(a, c), rational(b, c), eq(sub(a, b), 0))
    both(fam, "Rational", "denominators", rational(a, c), rational(a, d), eq(sub(c, d), 0))


# ---- conversion of raw subtitles

def samples():
    v, w, x = values("raw"), times("raw"), positions("raw")
    v.update(w)
    v.update(x)
    base = {n: y[0] for n, y in v.items()}
    for i in (0, 1, 2, -1):
        yield "sample %d" % i, {n: y[i if abs(i) < len(y) else -1] for n, y in v.items()}
    for n, y in v.items():
        for i, z in enumerate(y[1:]):
            yield "%s, %d" % (n, i), dict(base, **{n: z})


BLOCK = ("text", "font", "font_size", "effect", "effect_colour", "colour", "bold", "italic", "underline")
LINE = ("horizontal_position", "vertical_position")
SUBTITLE = ("from", "to", "fade_up", "fade_down")


def ctor(fam, cls):
    return fam.fn("sub::%s::%s" % (cls, cls), "RawSubtitle")


for cls, names in (("Block", BLOCK), ("Line", LINE), ("Subtitle", SUBTITLE)):
    def g(cls, names):
        @family("a %s of a raw subtitle" % cls.lower())
        def f(fam):
            for label, d in samples():
                st = fam.I.start()
                st.mem["A"] = raw(**d)
                for s in fam.make("%s of %s" % (cls, label), ctor(fam, cls), [Ref("A")] if False else [raw(**d)], "R", st) or []:
                    if s.ctl is not None:
                        fam.unreachable(COPY, label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
                        continue
                    r = s.mem["R"]
                    for n in names:
                        fam.equal(COPY, "%s of a raw subtitle, %s: %s" % (cls, label, n), s, r.f[n], d[n])
                    inner = {"Line": "blocks", "Subtitle": "lines"}.get(cls)
                    if inner:
                        b = block(**{n: d[n] for n in BLOCK})
                        want = Vec([b]) if cls == "Line" else Vec([line([b], d["vertical_position"], d["horizontal_position"])])
                        fam.equal(COPY, "%s of a raw subtitle, %s: %s" % (cls, label, inner), s, r.f[inner], want)
    g(cls, names)


for cls, names in (("Line", LINE), ("Subtitle", SUBTITLE)):
    def g(cls, names):
        @family("a raw subtitle which belongs to a %s" % cls.lower())
        def f(fam):
            k = fam.fn("sub::%s::same_metadata" % cls)
            d = dict(list(samples())[0][1])
            alt = dict(values("raw"))
            alt.update(times("raw"))
            alt.update(positions("raw"))
            other = [n for n in alt if n not in names]

            def go(label, mine, his, want):
                st = fam.I.start()
                if cls == "Line":
                    st.mem["A"] = line([block(K("x"))], mine["vertical_position"], mine["horizontal_position"])
                else:
                    st.mem["A"] = subtitle([], mine["from"], mine["to"], *[None if mine[n].e is False else mine[n].v for n in ("fade_up", "fade_down")])
                for s in fam.run(label, k, [raw(**his)], Ref("A"), st) or []:
                    if s.ctl is not None:
                        fam.unreachable(RULE, label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
                        continue
                    fam.truth(RULE, label, s, s.result, want, "the raw subtitle belongs to it")
            go("%s: all is the same" % cls, d, d, True)
            for n in names:
                for i, (x, y) in enumerate(pairs(alt[n])):
                    go("%s: only %s differs, %d" % (cls, n, i), dict(d, **{n: x}), dict(d, **{n: y}), False)
                    go("%s: only %s differs, %d, the other way round" % (cls, n, i), dict(d, **{n: y}), dict(d, **{n: x}), False)
            for n in other:
                for i, x in enumerate(alt[n]):
                    go("%s: %s does not matter, %d" % (cls, n, i), d, dict(d, **{n: x}), True)
    g(cls, names)


@family("order of raw subtitles")
def f(fam):
    k, member = op(fam, "operator<", "RawSubtitle")
    s0 = sym("seconds", lo=0, hi=99999)
    x, y = sym("x", lo=0, hi=999), sym("y", lo=0, hi=999)
    st = fam.I.start()
    v = dict(list(samples())[1][1])
    v2 = dict(list(samples())[0][1])
    st.mem["A"] = raw(**dict(v, **{"from": time_rec(s0, x, RATE)}))
    st.mem["B"] = raw(**dict(v2, **{"from": time_rec(s0, y, RATE)}))
    for s in fam.run("raw subtitles", k, [Ref("A"), Ref("B")], None, st) or []:
        if s.ctl is not None:
            fam.unreachable(RULE, "order", s, fam.outcome(s))
            continue
        fam.truth("raw subtitles are ordered by their start", "raw subtitles in the same second", s, s.result, lt(x, y))
