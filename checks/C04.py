"""a cue does not depend on the other cues of its file"""
from check import *
from textdocs import *

EXPLANATION = ("Each reader is abstractly interpreted on a cue alone and on the same cue after (and before) other cues which end in every kind of formatting; "
               "everything delivered for the cue (times, text, formatting, positions) must be the same.")
RULE = "what is delivered for a cue does not depend on the other cues"
S1 = safe(" <{\\}|^,&\xef")
FIELDS = ("text", "from", "to", "font", "font_size", "effect", "effect_colour", "colour", "bold", "italic", "underline", "horizontal_position", "vertical_position",
          "fade_up", "fade_down")


def t(n, k=2):
    return T(chars(n, k, S1))


def delivered(fam, doc, label):
    """what is delivered: list of tuples of the fields of each raw subtitle (in the only state which there is)"""
    out = read(fam, doc.cls, label, doc.source())
    if out is None or len(out) != 1 or out[0].ctl is not None or raws(out[0]) is None:
        fam.undecided(RULE, label, "the cue alone: %s" % (out and [fam.outcome(s) for s in out][:4]))
        return None
    return [tuple(x.f[n] for n in FIELDS) for x in raws(out[0])]


def isolated(fam, D, label, before, cue_, after, **k):
    """cue_ alone, and between before and after"""
    alone = delivered(fam, D("", [cue_], **k), label + " (alone)")
    if alone is None:
        return
    for what, cues, first in (("after", before + [cue_], False), ("before", [cue_] + after, True), ("between", before + [cue_] + after, None)):
        if first is not None and len(cues) == 1:
            continue
        name = "%s: %s %s" % (D.cls.split("::")[-1], label, what)
        for s in read(fam, D.cls, name, D("", cues, **k).source()) or []:
            if s.ctl is not None:
                fam.unreachable("a well-formed document is read", name, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
                continue
            rr = raws(s)
            if rr is None or any(isinstance(x, Many) for x in rr):
                fam.undecided(RULE, name, "the list of subtitles is not known")
                continue
            # the cue's own subtitles, known by its time
            mine = [x for x in rr if repr(x.f["from"]) == repr(cue_[0])]
            for i, a in enumerate(alone):
                if i < len(mine):
                    for n, w in zip(FIELDS, a):
                        fam.equal(RULE, "%s: %s of piece %d" % (name, n, i + 1), s, mine[i].f[n], w)
            fam.equal(RULE, name + ": number of pieces", s, len(mine), len(alone))


def font(c):
    return ("font", K("<font color=\"#%s\">" % c), (0, 0, 0))


R = lambda x: ("raw", K(x))
SUBRIP = [
    ("bold left on", [[ON("bold"), t("p")]]), ("italic left on", [[t("p"), ON("italic")]]), ("underline left on", [[ON("underline"), t("p")], [t("q")]]),
    ("a colour left on", [[font("ff8000"), t("p")]]), ("two colours left on", [[font("ff8000"), t("p"), font("102030"), t("q")]]),
    ("a colour left on at the end", [[t("p"), font("ff8000")]]), ("rgba left on", [[R("<font color=\"rgba(1,2,3,4)\">"), t("p")]]),
    ("\\an8", [[R("{\\an8}"), t("p")]]), ("\\an1", [[t("p"), R("{\\an1}")]]), ("\\an6", [[R("{\\an6}"), t("p")], [t("q")]]), ("\\pos", [[R("{\\pos(100,50)}"), t("p")]]),
    ("\\b1", [[R("{\\b1}"), t("p")]]), ("\\c", [[R("{\\c&H102030&}"), t("p")]]), ("\\fs", [[R("{\\fs30}"), t("p")]]),
    ("three lines", [[t("p")], [t("q")], [t("r")]]), ("U+2028", [[t("p"), R("\xe2\x80\xa8"), t("q")]]), ("nothing but markup", [[ON("bold"), OFF("italic")]]),
    ("unmatched ends", [[OFF("bold"), ("endfont",), t("p"), ("endfont",)]]),
]
SUBRIP_CUE = [("plain", [[t("x")]]), ("two lines", [[t("x")], [t("y")]]), ("formatted", [[t("x"), ON("italic"), t("y"), OFF("italic"), t("z")]]),
              ("coloured", [[t("x"), font("0000ff"), t("y"), ("endfont",), t("z")]]), ("positioned", [[R("{\\an3}"), t("x")]])]


@family("SubRip", 300)
def f(fam):
    for n, l in SUBRIP:
        for m, c in SUBRIP_CUE:
            isolated(fam, SubRip, "%s, among cues with %s" % (m, n), [cue(SubRip, "a", l, 3)], cue(SubRip, "b", c, 5), [cue(SubRip, "c", l, 7)])


@family("SubRip: several cues before", 300)
def f(fam):
    for i in range(len(SUBRIP)):
        pre = [cue(SubRip, "a%d" % j, SUBRIP[(i + 5 * j) % len(SUBRIP)][1], 1 + j) for j in range(3)]
        for m, c in SUBRIP_CUE[:2]:
            isolated(fam, SubRip, "%s, after three cues starting with %s" % (m, SUBRIP[i][0]), pre, cue(SubRip, "b", c, 9), [])


VTT = [("one line", [[t("p")]]), ("three lines", [[t("p")], [t("q")], [t("r")]]), ("U+2028", [[t("p"), R("\xe2\x80\xa8"), t("q")]]), ("no text", []), ("tags", [[R("<i>"), t("p")]])]


@family("WebVTT", 300)
def f(fam):
    for n, l in VTT:
        for m, c in (("plain", [[t("x")]]), ("two lines", [[t("x")], [t("y")]])):
            for k in ({}, {"ids": True}, {"note": K("about this")}):
                isolated(fam, WebVTT, "%s, among cues with %s %s" % (m, n, k and list(k)[0] or ""), [cue(WebVTT, "a", l, 3)], cue(WebVTT, "b", c, 5), [cue(WebVTT, "c", l, 7)], **k)


OV = lambda x: ("raw", K("{%s}" % x))
SSAS = [("%s" % x, [[t("p"), OV(x), t("q")]]) for x in ("\\i1", "\\b1", "\\u1", "\\i1\\b1", "\\c&H102030&", "\\fs40", "\\an7", "\\an5", "\\pos(10,20)", "\\b0")] + [
    ("two lines", [[t("p")], [t("q")]]), ("an override at the end", [[t("p"), OV("\\i1")]])]
HEAD = ("PlayResX: 640\nPlayResY: 480\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, BackColour, Bold, Italic, Underline, BorderStyle, Alignment, MarginL, MarginR, MarginV\n"
        "Style: Default,Arial,20,&H102030,&H0,0,0,0,0,2,10,20,30\nStyle: Other,Times,30,&H405060,&H102030,-1,-1,-1,1,7,1,2,3\n")


class Dialogues(SSA):
    """cues may have a style and margins of their own (index 5 of the cue)"""

    def source(self):
        s = [K("[Script Info]\n" + self.head + "[Events]\nFormat: " + self.FORMAT + "\n")]
        for c in self.cues:
            s += [K("Dialogue: 0,"), c[3].text, K(","), c[4].text, K(",%s,,%s,%s,%s,," % (c[5] if len(c) > 5 else ("Default", "0", "0", "0")))]
            for i, l in enumerate(c[2]):
                s += [K("\\N")] * (i > 0) + [self.token(x) for x in l]
            s.append(K("\n"))
        return cat(*s)


@family("SSA", 300)
def f(fam):
    for head in ("", HEAD):
        for n, l in SSAS:
            for m, c in (("plain", [[t("x")]]), ("two lines", [[t("x")], [t("y")]]), ("italic", [[t("x"), OV("\\i1"), t("y")]])):
                isolated(fam, Dialogues, "%s, among cues with %s%s" % (m, n, " and styles" if head else ""), [cue(SSA, "a", l, 3)], cue(SSA, "b", c, 5), [cue(SSA, "c", l, 7)], head=head)


@family("SSA: styles and margins", 300)
def f(fam):
    st = [("Other", "0", "0", "0"), ("Default", "7", "0", "0"), ("Default", "0", "8", "0"), ("Default", "0", "0", "9"), ("*Other", "7", "8", "9"), ("Unknown", "0", "0", "0")]
    for a in st:
        for b in st + [("Default", "0", "0", "0")]:
            x = cue(SSA, "b", [[t("x")], [t("y")]], 5) + (b,)
            isolated(fam, Dialogues, "style and margins %s among %s" % (b, a), [cue(SSA, "a", [[t("p"), OV("\\an4"), t("q")]], 3) + (a,)], x, [cue(SSA, "c", [[t("p")]], 7) + (a,)], head=HEAD)
            y = cue(SSA, "b", [[t("x"), OV("\\c"), t("y")]], 5) + (b,)
            isolated(fam, Dialogues, "style and margins %s among %s, no default style" % (b, a), [cue(SSA, "a", [[t("p"), OV("\\an4"), t("q")]], 3) + (a,)], y, [],
                     head=HEAD.replace("Style: Default", "Style: Else"))
            isolated(fam, Dialogues, "style and margins %s among %s, styles unknown" % (b, a), [cue(SSA, "a", [[t("p")]], 3) + (a,)], x, [cue(SSA, "c", [[t("p")]], 7) + (a,)])


@family("STL text", 300)
def f(fam):
    A = lambda n: T(cat("A", chars(n, 2, S1), "B"))
    # what is switched on stays on in this format, so everything is switched off again
    ls = [("two lines", [[A("p")], [A("q")]]), ("four lines", [[A("p")], [A("q")], [A("r")], [A("s")]])] + [
        (x, [[A("p"), ON(x), A("q"), OFF(x)], [A("r")]]) for x in ("bold", "italic", "underline")] + [
        ("%s over lines" % x, [[A("p"), ON(x), A("q")], [A("r"), OFF(x)]]) for x in ("bold", "italic", "underline")]
    for n, l in ls:
        for m, c in (("plain", [[A("x")]]), ("two lines", [[A("x")], [A("y")]]), ("bold", [[A("x"), ON("bold"), A("y"), OFF("bold")]])):
            for settings in ("", "$FontName = Arial\n$FontSize = 20\n$Italic = True\n"):
                isolated(fam, STLText, "%s, among cues with %s%s" % (m, n, " and settings" if settings else ""), [cue(STLText, "a", l, 3)], cue(STLText, "b", c, 5), [cue(STLText, "c", l, 7)],
                         settings=settings)
