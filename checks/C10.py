"""layout of the GSI block of a written binary STL file"""
from check import *
from writer import *
import ebu

EXPLANATION = ("write_stl_binary is abstractly interpreted with every title, name, date and number unknown (of every length that fits); the bytes that it gives to its "
               "output are compared, field by field, with the layout of EBU Tech 3264.")
RULE = "the field holds the value given"
OFF = {n: (o, l) for n, o, l in stlbin.GSI}


def padded(s, n):
    return cat(s, Str([("r", 32, sub(n, s.len()))]))


def header(fam, label, subs, **k):
    """states with the written bytes; s.result is replaced by the header"""
    for s in good(fam, "a file which can be written is written", label, write(fam, label, subs, **k)):
        yield s, written(s)


def fields(fam, label, s, w, want, rule=RULE):
    """want: field -> text"""
    for n, v in want.items():
        o, l = OFF[n]
        try:
            got = s.substr(w, o, l)
        except (Imprecise, NeedSplit) as e:
            fam.undecided(rule, "%s: %s" % (label, n), "imprecise: %s" % e)
            continue
        fam.equal(rule, "%s: %s" % (label, n), s, got, v if isinstance(v, Str) else K(v))


ONE = [simple("Hello")]


@family("texts")
def f(fam):
    names = [c for c, _ in TEXTS] + ["PUB", "EN", "ECD"]
    # all at once, all of different unknown lengths
    ls = [0, 1, 5, 17, 30, 31, 32, 8, 12]
    for r in range(9):
        k = {c: opaque("%s.%d" % (c, ls[(i + r) % 9]), None, 0, ls[(i + r) % 9]) for i, c in enumerate(names)}
        d = {"CD": opaque("cd", PRINT, 0, 6), "RD": opaque("rd", PRINT, 0, 6), "CO": opaque("co", PRINT, 0, 3)}
        label = "texts of %s characters" % [ls[(i + r) % 9] for i in range(9)]
        for s, w in header(fam, label, ONE, **dict(k, **d)):
            want = {c: padded(v, 32) for c, v in k.items()}
            want.update(d)
            fields(fam, label, s, w, want)


@family("texts of any length")
def f(fam):
    for c in [c for c, _ in TEXTS] + ["PUB", "EN", "ECD"]:
        st = fam.I.start()
        v = opaque("any " + c, PRINT)
        st.assume(le(v.len(), 32), True)
        label = "%s of any length" % c
        key = fam.fn("sub::write_stl_binary")
        for s in good(fam, RULE, label, fam.run(label, key, write_args(ONE, **{c: v}), st=st)):
            fields(fam, label, s, written(s), {c: padded(v, 32), "CD": "201231", "PUB": padded(v, 32) if c == "PUB" else " " * 32})


@family("fixed fields")
def f(fam):
    for label, subs in (("no subtitles", []), ("one", ONE), ("two", [simple("Hello"), simple("A" * 200, 3)])):
        for s, w in header(fam, label, subs):
            fields(fam, label, s, w, {"CPN": "850", "DSC": "0", "CCT": "00", "SLR": "0" * 16, "TNG": "001", "MNR": "23", "TCS": "1", "TND": "1",
                                      "DSN": "1"}, "the field says what the writer writes")
            fam.equal("the block is 1024 bytes, what is not used is always the same", label, s, s.substr(w, 373, 651), K("\0" * 651))


@family("frame rates")
def f(fam):
    for r, c in list(ebu.DFC.items()) + [(Fraction(24000, 1001), "STL23.01"), (Fraction(23976, 1000), "STL23.01")]:
        label = "%s frames a second" % r
        for s, w in header(fam, label, ONE, fps=r):
            fields(fam, label, s, w, {"DFC": c})


@family("languages")
def f(fam):
    vals = ebu.enumerators(fam.I, "Language")
    for n, c in sorted(ebu.CODES["Language"].items()):
        for s, w in header(fam, n, [], language=vals[n]):
            fields(fam, n, s, w, {"LC": c})


@family("numbers")
def f(fam):
    v = sym("revision", lo=0, hi=99)
    for s, w in header(fam, "revision", ONE, RN=v):
        got = s.substr(w, 236, 2)
        # as a number of two digits
        import models
        fam.equal("the field holds the value given", "revision: RN", s, got, models.dec(s.copy(), v, 2, "0"))
    for r in (0, 1, 9, 10, 42, 99):
        for s, w in header(fam, "revision %d" % r, ONE, RN=r):
            fields(fam, "revision %d" % r, s, w, {"RN": "%02d" % r})
    for sizes in ([], [1], [5, 5], [111], [112], [113], [223, 1, 224], [1] * 12, [336, 600], [112, 112, 112]):
        subs = [simple("A" * n, 2 * i + 1) for i, n in enumerate(sizes)]
        label = "subtitles of %s characters" % (sizes,)
        for s, w in header(fam, label, subs):
            nb = sum(n // 112 + 1 for n in sizes)
            fields(fam, label, s, w, {"TNB": "%05d" % nb, "TNS": "%05d" % len(sizes)}, "counts are those of the file")
            fam.equal("counts are those of the file", label + ": size", s, w.len(), 1024 + 128 * nb)


@family("longest row")
def f(fam):
    def many(*ls):
        return subtitle([line([block(K(b)) for b in l], row(10 + i)) for i, l in enumerate(ls)], at(1), at(2))
    cases = [([], 0), ([many(["A"])], 1), ([many(["A" * 37])], 37), ([many(["A" * 12, "B" * 7])], 19), ([many(["A" * 12], ["B" * 7])], 12),
             ([many(["A" * 3], ["B" * 17])], 17), ([many(["A" * 40]), many(["A" * 4])], 40), ([many(["A" * 4]), many(["A", "B" * 40])], 41),
             ([many(["A" * 98])], 98), ([many(["A" * 99])], 99), ([many(["A" * 100])], 99), ([many(["A" * 500])], 99),
             ([many(["\u00e9\u00e0"], ["A"])], 2), ([many(["\u2019" * 5], ["A" * 7])], 7)]
    for subs, n in cases:
        subs = [Rec(x.cls, x.f) for x in subs]
        label = "longest row of %d (%s)" % (n, [[[str(b.f["text"])[:12] for b in l.f["blocks"].items] for l in x.f["lines"].items] for x in subs])
        subs = [utf8(x) for x in subs]
        for s, w in header(fam, label[:200], subs):
            fields(fam, label[:200], s, w, {"MNC": "%02d" % n}, "the longest row, in characters")


def utf8(x):
    ls = []
    for l in x.f["lines"].items:
        bs = [b.with_("text", K("".join(g[1] if g[0] == "k" else "" for g in b.f["text"].segs).encode("utf-8").decode("latin-1")) if any(
            g[0] == "k" and any(ord(c) > 127 for c in g[1]) for g in b.f["text"].segs) else b.f["text"]) for b in l.f["blocks"].items]
        ls.append(l.with_("blocks", Vec(bs)))
    return x.with_("lines", Vec(ls))
