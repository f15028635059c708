"""every character carries the formatting in force where it stands"""
import pairs
from check import *
from textdocs import *

EXPLANATION = ("Each reader is abstractly interpreted on documents whose text consists of unknown characters with formatting "
               "codes between them; bold, italic, underline and colour of the subtitles delivered must be those in force at each character.")

S1 = safe(" <{\\}|^,&\xef")
A = ("bold", "italic", "underline")


def t(n, k=2):
    return T(chars(n, k, S1))


def toggles():
    out = []
    for a in A:
        out.append([[t("p"), ON(a), t("q"), OFF(a), t("r")]])
        out.append([[t("p"), ON(a), t("q"), ON(a), t("r"), OFF(a), t("s")]])
        for b in A:
            if a != b:
                out.append([[t("p"), ON(a), t("q"), ON(b), t("r"), OFF(a), t("s"), OFF(b), t("u")]])
                out.append([[ON(a), ON(b), t("q"), OFF(b), t("r"), OFF(a), t("s")]])
                out.append([[ON(a), t("q"), OFF(a), ON(b), t("r"), OFF(b)]])
        out.append([[t("p"), ON(a), t("q")], [t("r"), OFF(a), t("s")], [t("u")]])
        out.append([[t("p"), ON(a)], [t("r")], [OFF(a), t("s")]])
        out.append([[t("p"), OFF(a), t("q")]])
    out.append([[ON("bold"), ON("italic"), ON("underline"), t("p"), OFF("bold"), t("q"), OFF("italic"), t("r"), OFF("underline"), t("s")]])
    return out


def paired(ls):
    """only lists in which each code is switched on, then off (for formats which have toggles)"""
    for l in ls:
        s = {}
        ok = True
        for x in l:
            for k in x:
                if k[0] in ("on", "off"):
                    if (s.get(k[1], 0) == 1) == (k[0] == "on"):
                        ok = False
                    s[k[1]] = 1 if k[0] == "on" else 0
        if ok:
            yield l


def hexfont(name, q='"', n=6, upper=False):
    x = chars(name, n, HEX)
    col = tuple(unit(hexnum(Str(x.segs[i:i + 2]))) for i in (0, 2, 4))
    return ("font", cat("<font color=%s#" % q, x, q + ">"), col)


@family("SubRip: <b>, <i>, <u>")
def f(fam):
    for i, l in enumerate(toggles()):
        for up in (False, True):
            for br in (False, True):
                check_doc(fam, SubRip("codes %d%s%s" % (i, " upper case" if up else "", " in braces" if br else ""), [cue(SubRip, "a", l, 3)], upper=up, braces=br), ["format"])


@family("SubRip: <font>")
def f(fam):
    for q in ('"', "'", ""):
        check_doc(fam, SubRip("#rrggbb in %s" % (q or "no quotes"), [cue(SubRip, "a", [[t("p"), hexfont("x", q), t("q"), ("endfont",), t("r")]], 3)]), ["format"])
    check_doc(fam, SubRip("#rrggbbaa", [cue(SubRip, "a", [[t("p"), hexfont("x", '"', 8), t("q"), ("endfont",), t("r")]], 3)]), ["format"])


def dec(n):
    """a font tag with symbolic decimal components, each below 200"""
    d = [cat(chars("d%s%d" % (n, i), 1, "01"), digits("e%s%d" % (n, i), 2)) for i in range(3)]
    return ("font", cat("<font color=\"rgba(", d[0], ",", d[1], ",", d[2], ",", digits("al" + n, 2), ")\">"), tuple(unit(num(x)) for x in d))


@family("SubRip: <font color=rgba()>")
def f(fam):
    check_doc(fam, SubRip("rgba()", [cue(SubRip, "a", [[t("p"), dec("a"), t("q"), ("endfont",), t("r")]], 3)]), ["format"])
    d = ("font", cat("<font color=\"rgba( 10 , 20 ,30 , 40 )\">"), (Fraction(10, 255), Fraction(20, 255), Fraction(30, 255)))
    check_doc(fam, SubRip("rgba() with spaces", [cue(SubRip, "a", [[t("p"), d, t("q"), ("endfont",), t("r")]], 3)]), ["format"])


def red():
    return ("font", K("<font color=\"#ff0000\">"), (1, 0, 0))


def green():
    return ("font", K("<font color=\"#00FF00\">"), (0, 1, 0))


@family("SubRip: nested and unmatched <font>")
def f(fam):
    e = ("endfont",)
    fs = [
        ("nested", [[t("p"), red(), t("q"), green(), t("r"), e, t("s"), e, t("u")]]),
        ("one after another", [[red(), t("q"), e, green(), t("r"), e, t("s")]]),
        ("over two lines", [[red(), t("q")], [t("r"), e, t("s")]]),
        ("unmatched end", [[t("p"), e, t("q"), red(), t("r"), e, e, t("s")]]),
        ("with italics inside", [[red(), t("p"), ON("italic"), t("q"), OFF("italic"), t("r"), e, t("s")]]),
        ("inside italics", [[ON("italic"), t("p"), red(), t("q"), e, t("r"), OFF("italic"), t("s")]]),
        ("interleaved with bold", [[ON("bold"), t("p"), red(), t("q"), OFF("bold"), t("r"), e, t("s")]]),
        ("upper case end", [[red(), t("p"), ("raw", K("</FONT>")), t("q")]]),
        ("attributes before the colour", [[("font", K("<font size=\"3\" color=\"#ff0000\">"), (1, 0, 0)), t("p"), e, t("q")]]),
        ("attributes after the colour", [[("font", K("<font color=\"#ff0000\" face=\"Arial\">"), (1, 0, 0)), t("p"), e, t("q")]]),
        ("upper case tag", [[("font", K("<FONT color=\"#ff0000\">"), (1, 0, 0)), t("p"), e, t("q")]]),
    ]
    for n, l in fs:
        d = SubRip(n, [cue(SubRip, "a", l, 3)])
        if n == "upper case end":
            d.token = lambda t, d=d: K("</FONT>") if t[0] == "endfont" else SubRip.token(d, t)
            d.cues[0][2][0][2] = e
        check_doc(fam, d, ["format"])


NOTATIONS = ("#rrggbb", "#rrggbbaa", "rgba()", "no quotes")


def named(n, c):
    """a font tag with the colour c = (r, g, b) out of 255, in notation n"""
    v = {"#rrggbb": '"#%02x%02x%02x"', "#rrggbbaa": '"#%02X%02x%02x80"', "rgba()": '"rgba(%d, %d,%d,128)"', "no quotes": "#%02x%02x%02x"}[n] % c
    return ("font", K("<font color=%s>" % v), tuple(Fraction(x, 255) for x in c))


@family("SubRip: notations of colours within each other")
def f(fam):
    e = ("endfont",)
    for i, a in enumerate(NOTATIONS):
        for b in NOTATIONS:
            l = [t("p"), named(a, (16, 32, 48)), t("q"), named(b, (255, 0, 200)), t("r"), e, t("s"), e, t("u")]
            check_doc(fam, SubRip("%s in %s" % (b, a), [cue(SubRip, "a", [l], 3)]), ["format"])
        b, c = NOTATIONS[(i + 1) % 4], NOTATIONS[(i + 2) % 4]
        l = [named(a, (1, 2, 3)), t("p"), named(b, (4, 5, 6)), named(c, (7, 8, 9)), t("q"), e, t("r"), named(a, (10, 11, 12)), t("s"), e, e, t("u"), e, t("v")]
        check_doc(fam, SubRip("%s in %s in %s" % (c, b, a), [cue(SubRip, "a", [l], 3)]), ["format"])


@family("SSA: overrides")
def f(fam):
    pl = lambda s: s.f["vertical_position"].f["proportional"]
    for i, l in enumerate(toggles()):
        check_doc(fam, SSA("codes %d" % i, [cue(SSA, "a", l, 3)]), ["format"], place=pl)
    both = ("raw", K("{\\b1\\i1}"))
    d = SSA("two overrides in one", [cue(SSA, "a", [[t("p"), ON("bold"), ON("italic"), t("q"), OFF("italic"), t("r")]], 3)])
    seen = []

    def tok(x, d=d):
        if x == ON("bold"):
            return K("{\\b1")
        if x == ON("italic"):
            return K("\\i1}")
        return SSA.token(d, x)
    d.token = tok
    check_doc(fam, d, ["format"], place=pl)


def ssa_colour(n):
    x = chars(n, 6, HEX)
    b, g, r = (unit(hexnum(Str(x.segs[i:i + 2]))) for i in (0, 2, 4))
    return x, (r, g, b)


@family("SSA: colours")
def f(fam):
    pl = lambda s: s.f["vertical_position"].f["proportional"]
    x, col = ssa_colour("x")
    check_doc(fam, SSA("\\c", [cue(SSA, "a", [[t("p"), ("colour", cat("{\\c&H", x, "&}"), col), t("q"), ON("bold"), t("r")]], 3)]), ["format"], place=pl)
    check_doc(fam, SSA("\\c without a colour", [cue(SSA, "a", [[t("p"), ("colour", K("{\\c&H102030&}"), (Fraction(0x30, 255), Fraction(0x20, 255), Fraction(0x10, 255))), t("q"), ("colour", K("{\\c}"), None), t("r")]], 3)]), ["format"], place=pl)


STYLES = "[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, Bold, Italic, Underline\nStyle: Default,Arial,20,"


@family("SSA: styles")
def f(fam):
    pl = lambda s: s.f["vertical_position"].f["proportional"]
    for bits in range(8):
        v = ["-1" if bits >> i & 1 else "0" for i in range(3)]
        h = STYLES + "&H102030," + ",".join(v) + "\n"
        d = SSA("style bold %s italic %s underline %s" % tuple(v), [cue(SSA, "a", [[t("p"), ON("bold"), t("q"), OFF("italic"), t("r")], [t("s"), ON("underline"), t("u")]], 3)], head=h,
                base={a: bits >> i & 1 for i, a in enumerate(A)}, base_colour=colour(Fraction(0x30, 255), Fraction(0x20, 255), Fraction(0x10, 255)))
        check_doc(fam, d, ["format"], place=pl)
    h = STYLES + "&H102030,0,0,0\n"
    d = SSA("\\c goes back to the colour of the style", [cue(SSA, "a", [[t("p"), ("colour", K("{\\c&Hff0000&}"), (0, 0, 1)), t("q"), ("colour", K("{\\c}"), None), t("r")]], 3)], head=h,
            base_colour=colour(Fraction(0x30, 255), Fraction(0x20, 255), Fraction(0x10, 255)))
    check_doc(fam, d, ["format"], place=pl)


@family("STL text: ^B, ^I, ^U")
def f(fam):
    for i, l in enumerate(paired(toggles())):
        l = [[("t", cat("A", k[1], "B")) if k[0] == "t" else k for k in x] for x in l]
        check_doc(fam, STLText("codes %d" % i, [cue(STLText, "a", l, 3)]), ["format"])
    for a, n in (("bold", "Bold"), ("italic", "Italic"), ("underline", "Underlined")):
        d = STLText("$%s = True" % n, [cue(STLText, "a", [[T("A"), t("p"), OFF(a), t("q")], [ON(a), t("r"), T("B")]], 3)], settings="$%s = True\n" % n, base={a: 1})
        check_doc(fam, d, ["format"])


ALL = ("bold", "italic", "underline", "colour", "font", "font_size", "effect", "effect_colour")


def pieces(fam, label, D, source, want, base=None):
    """want: list of (text, fields) of the runs of equal formatting, fields being those which are not as in base"""
    b = {"bold": 0, "italic": 0, "underline": 0, "colour": colour(), "font": NONE, "font_size": font_size(), "effect": NONE, "effect_colour": NONE}
    b.update(base or {})
    rule = "font, size, effect and colour in force at each character"
    w = tuple((tx, tuple(dict(b, **f)[n] for n in ALL)) for tx, f in want)
    for s in read(fam, D.cls, label, source, w) or []:
        if s.ctl is not None:
            fam.unreachable("a well-formed document is read", label, s, "%s at %s for a well-formed document" % (fam.outcome(s), fam.where(s)))
            continue
        rr = raws(s)
        if rr is None or any(isinstance(x, Many) for x in rr):
            fam.undecided(rule, label, "the list of subtitles is not known: %s" % s.imp)
            continue
        got = []
        for x in rr:
            if isinstance(x.f["text"], Str) and not x.f["text"].segs:
                continue
            k = tuple(x.f[n] for n in ALL)
            if got and repr(got[-1][1]) == repr(k):
                got[-1] = (cat(got[-1][0], x.f["text"]), k)
            else:
                got.append((x.f["text"], k))
        fam.equal(rule, label, s, tuple(got), s.mem["EXPECT"], Fraction(1, 100000))


def size(n, res):
    return {"font_size": font_size(mul(n, Fraction(1, res)))}


def x(n):
    return chars(n, 2, S1)


DEF = Fraction(72, 288)


# overrides which a reader leaves out
UNKNOWN = ("\\clip(1,2,30,40)", "\\fscx120", "\\fscy80", "\\fsp3", "\\blur2", "\\be1", "\\bord3", "\\shad2", "\\frz45", "\\fad(100,200)", "\\k50", "\\q2", "\\org(1,2)", "\\fnArial", "\\p0", "\\fax1")


@family("SSA: overrides which are left out")
def f(fam):
    for u in UNKNOWN:
        src = cat("[Script Info]\n[Events]\nFormat: " + SSA.FORMAT + "\nDialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,", x("p"), "{" + u + "}", x("q"), "{\\b1" + u + "\\i1}", x("r"), "\n")
        b = {"font_size": font_size(Fraction(72, 288))}
        pieces(fam, "SSA, {%s}" % u, SSA, src, [(cat(x("p"), x("q")), b), (x("r"), dict(b, bold=1, italic=1))])


@family("SubRip: SSA overrides")
def f(fam):
    def doc(*ls):
        s = [K("1\n00:00:01,000 --> 00:00:02,000\n")]
        for l in ls:
            s += list(l) + [K("\n")]
        return cat(*(s + [K("\n2\n00:00:03,000 --> 00:00:04,000\nend\n")]))
    end = (K("end"), {})
    c, col = ssa_colour("c")
    for up in (1, 0):
        for a in A:
            tag = K("{\\%s%d}" % (a[0], up))
            pieces(fam, "SubRip, {\\%s%d} between texts" % (a[0], up), SubRip, doc([x("p"), tag, x("q")]), [(x("p"), {}), (x("q"), {a: 1}), end] if up else [(cat(x("p"), x("q"), "end"), {})])
            pieces(fam, "SubRip, {\\%s%d} at the start" % (a[0], up), SubRip, doc([tag, x("q")]), [(x("q"), {a: 1}), end] if up else [(cat(x("q"), "end"), {})])
        pieces(fam, "SubRip, {\\b1} and {\\b0}", SubRip, doc([x("p"), K("{\\b1}"), x("q"), K("{\\b0}"), x("r")]), [(x("p"), {}), (x("q"), {"bold": 1}), (cat(x("r"), "end"), {})])
    pieces(fam, "SubRip, {\\c}", SubRip, doc([x("p"), K("{\\c&H"), c, K("&}"), x("q")]), [(x("p"), {}), (x("q"), {"colour": colour(*col)}), end])
    d = cat(chars("m", 1, "123456789"), digits("n", 1))
    pieces(fam, "SubRip, two overrides", SubRip, doc([x("p"), K("{\\i1\\b1}"), x("q"), K("{\\b0\\u1}"), x("r")]), [(x("p"), {}), (x("q"), {"bold": 1, "italic": 1}), (x("r"), {"italic": 1, "underline": 1}), end] )
    pieces(fam, "SubRip, three overrides", SubRip, doc([K("{\\b1\\c&H"), c, K("&\\i1}"), x("q")]), [(x("q"), {"bold": 1, "italic": 1, "colour": colour(*col)}), end])
    for u in UNKNOWN:
        pieces(fam, "SubRip, {%s}" % u, SubRip, doc([x("p"), K("{" + u + "}"), x("q")]), [(cat(x("p"), x("q"), "end"), {})])
    pieces(fam, "SubRip, {\\fs}", SubRip, doc([x("p"), K("{\\fs"), d, K("}"), x("q")]), [(x("p"), {}), (x("q"), size(num(d), 288)), end])


@family("SSA: fonts and sizes")
def f(fam):
    def doc(text, head="", style="Default"):
        return cat("[Script Info]\n", head, "[Events]\nFormat: " + SSA.FORMAT + "\nDialogue: 0,0:00:01.00,0:00:02.00," + style + ",,0,0,0,,", text, "\n")
    d, e = (cat(chars(n + "a", 1, "123456789"), digits(n + "b", 1)) for n in "de")
    for res in (None, 100, 480, 1080):
        h = "" if res is None else "PlayResY: %d\n" % res
        r = res or 288
        b = {"font_size": font_size(Fraction(72, r))}
        for n, tx, want in (
            ("\\fs between texts", cat(x("p"), "{\\fs", d, "}", x("q")), [(x("p"), {}), (x("q"), size(num(d), r))]),
            ("\\fs twice", cat(x("p"), "{\\fs", d, "}", x("q"), "{\\fs", e, "}", x("r")), None),
            ("\\fs with a fraction", cat(x("p"), "{\\fs20.5}", x("q")), [(x("p"), {}), (x("q"), size(Fraction(41, 2), r))]),
            ("\\fs over lines", cat(x("p"), "{\\fs", d, "}", x("q"), "\\N", x("r")), [(x("p"), {}), (cat(x("q"), x("r")), size(num(d), r))]),
            ("\\fs and \\b1 together", cat(x("p"), "{\\fs", d, "\\b1}", x("q")), [(x("p"), {}), (x("q"), dict(size(num(d), r), bold=1))]),
            ("\\b1 and \\fs together", cat(x("p"), "{\\b1\\fs", d, "}", x("q")), [(x("p"), {}), (x("q"), dict(size(num(d), r), bold=1))]),
        ):
            if want is None:
                want = [(x("p"), {}), (x("q"), size(num(d), r)), (x("r"), size(num(e), r))]
            pieces(fam, "SSA, %s, resolution %s" % (n, res), SSA, doc(tx, h), want, b)
        # styles
        fn = chars("f", 3, [chr(i) for i in range(65, 91)])
        head = cat(h, "[V4+ Styles]\nFormat: Name, Fontname, Fontsize\nStyle: Default,", fn, ",", d, "\nStyle: Other,Times New Roman,", e, "\n")
        dfl = dict(size(num(d), r), font=some(fn))
        oth = dict(size(num(e), r), font=some(K("Times New Roman")))
        for st, w in (("Default", dfl), ("Other", oth), ("*Other", oth), ("**Other", oth), ("***Other", oth), ("***Default", dfl), ("Nothing", dfl), ("", dfl), ("other", dfl)):
            pieces(fam, "SSA, style %s, resolution %s" % (st, res), SSA, doc(x("p"), head, st), [(x("p"), {})], w)
            pieces(fam, "SSA, style %s and \\fs40, resolution %s" % (st, res), SSA, doc(cat(x("p"), "{\\fs40}", x("q")), head, st), [(x("p"), {}), (x("q"), size(40, r))], w)
        head = cat(h, "[V4+ Styles]\nFormat: Name, Fontname, Fontsize\nStyle: Other,Times,", e, "\n")
        pieces(fam, "SSA, unknown style and no default, resolution %s" % res, SSA, doc(x("p"), head, "Nothing"), [(x("p"), {})], b)


@family("SSA: outline and shadow")
def f(fam):
    g = lambda a, b, c: colour(Fraction(a, 255), Fraction(b, 255), Fraction(c, 255))
    for border, eff in ((1, "SHADOW"), (3, None)):
        head = ("[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, BackColour, Bold, Italic, Underline, BorderStyle\n"
                "Style: Default,Arial,20,&H102030,&H405060,-1,0,0,%d\nStyle: Other,Times,30,&H112233,&H445566,0,-1,-1,%d\n" % (border, border))
        import ebu
        effect = some(ebu.enumerators(fam.I, "Effect")[eff]) if eff else NONE
        dfl = dict(size(20, 288), font=some(K("Arial")), colour=g(0x30, 0x20, 0x10), effect_colour=some(g(0x60, 0x50, 0x40)), bold=1, effect=effect)
        oth = dict(size(30, 288), font=some(K("Times")), colour=g(0x33, 0x22, 0x11), effect_colour=some(g(0x66, 0x55, 0x44)), italic=1, underline=1, effect=effect)
        for st, w in (("Default", dfl), ("Other", oth), ("Nothing", dfl)):
            src = cat("[Script Info]\n", head, "[Events]\nFormat: " + SSA.FORMAT + "\nDialogue: 0,0:00:01.00,0:00:02.00," + st + ",,0,0,0,,", x("p"), "{\\i0\\c&Hff&}", x("q"), "\n")
            red = {"italic": 0, "colour": g(255, 0, 0)}
            pieces(fam, "SSA, style %s, border style %d" % (st, border), SSA, src, [(x("p"), {}), (x("q"), red)], w)


@family("STL text: fonts and sizes")
def f(fam):
    d = cat(chars("m", 1, "123456789"), digits("n", 1))
    fn = chars("f", 3, [chr(i) for i in range(65, 91)])
    c1, c2 = "00:00:01:00 , 00:00:02:00 ,", "\n00:00:03:00 , 00:00:04:00 ,"
    pt = {"font_size": font_size(None, num(d))}
    fo = {"font": some(fn)}
    X = lambda n: cat("A", x(n), "B")
    for n, src, want in (
        ("no settings", [c1, X("p")], [(X("p"), {})]),
        ("$FontName", ["$FontName = ", fn, "\n", c1, X("p")], [(X("p"), fo)]),
        ("$FontSize", ["$FontSize = ", d, "\n", c1, X("p")], [(X("p"), pt)]),
        ("both, no spaces", ["$FontName=", fn, "\n$FontSize=", d, "\n", c1, X("p"), "^I", X("q")], [(X("p"), dict(fo, **pt)), (X("q"), dict(fo, italic=1, **pt))]),
        ("$FontName between cues", [c1, X("p"), "\n$FontName = ", fn, c2, X("q")], [(X("p"), {}), (X("q"), fo)]),
        ("$FontSize between cues", [c1, X("p"), "\n$FontSize = ", d, c2, X("q")], [(X("p"), {}), (X("q"), pt)]),
        ("other settings", ["$FontColor = 3\n$HorzAlign = Left\n$Bold = False\n", c1, X("p")], [(X("p"), {})]),
        ("bold on and off", ["$Bold = True\n", c1, X("p"), "\n$Bold = False", c2, X("q")], [(X("p"), {"bold": 1}), (X("q"), {})]),
        ("italic on and off", ["$Italic = True\n", c1, X("p"), "\n$Italic = False", c2, X("q")], [(X("p"), {"italic": 1}), (X("q"), {})]),
        ("underlined on and off", ["$Underlined = True\n", c1, X("p"), "\n$Underlined = False", c2, X("q")], [(X("p"), {"underline": 1}), (X("q"), {})]),
    ):
        pieces(fam, "STL text, " + n, STLText, cat(*(src + ["\n"])), want)


for D, n in ((SubRip, 8), (SSA, 4), (STLText, 2)):
    pairs.families(D, ["format"], ["xtxtx"], n)
    pairs.families(D, ["format"], ["xttxtx", "xtxttx"], 2 * n, 3, "thorough")
