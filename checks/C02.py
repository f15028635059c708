"""all of the text, once, in order"""
import pairs
from check import *
from textdocs import *

EXPLANATION = ("Each reader is abstractly interpreted on documents whose text consists of unknown characters (and, in some families, "
               "of unknown texts of any length); the text of the delivered subtitles must be the text of the document.")

S1 = safe("<{\\}|^,&\xef")
S2 = safe("<{\\}|^&\xef")


def t(n, k=2, s=S1):
    return T(chars(n, k, s))


def structures(D):
    """cue/line structures with unknown text"""
    yield "one cue", [cue(D, "a", [[t("p")]], 3)]
    yield "two lines", [cue(D, "a", [[t("p")], [t("q")]], 3)]
    yield "three lines of different lengths", [cue(D, "a", [[t("p", 1)], [t("q", 3)], [t("r", 2)]], 3)]
    yield "three cues", [cue(D, "a", [[t("p")], [t("q")]], 3), cue(D, "b", [[t("r")]], 5), cue(D, "c", [[t("s")], [t("u")], [t("v")]], 7)]
    yield "equal times", [cue(D, "a", [[t("p")]], 3), cue(D, "b", [[t("q")]], 5), cue(D, "c", [[t("r")]], 5 if False else 6)]
    yield "cues out of order", [cue(D, "a", [[t("p")]], 9), cue(D, "b", [[t("q")]], 5)]


def formatted(D):
    for a in ("bold", "italic", "underline"):
        yield "%s" % a, [cue(D, "a", [[t("p"), ON(a), t("q"), OFF(a), t("r")], [ON(a), t("s")], [t("u"), OFF(a)]], 3)]
    yield "all at once", [cue(D, "a", [[ON("bold"), ON("italic"), t("p"), OFF("italic"), t("q"), ON("underline"), t("r"), OFF("bold"), OFF("underline")]], 3)]
    yield "formatting which holds no text", [cue(D, "a", [[t("p"), ON("bold"), OFF("bold"), t("q"), ON("italic"), OFF("italic")]], 3)]
    yield "nothing but formatting on a line", [cue(D, "a", [[t("p")], [t("q", 1), ON("bold"), t("r"), OFF("bold")]], 3)]


def long_text(D, minlen):
    s = opaque("tx", S1, minlen)
    return [cue(D, "a", [[("t", cat("A", s, "B"))]], 3)]


@family("SubRip: structure")
def f(fam):
    for n, c in structures(SubRip):
        check_doc(fam, SubRip(n, c), ["text"])
    for n, c in structures(SubRip):
        check_doc(fam, SubRip(n + ", blank lines first", c, pre="\n\n"), ["text"])
    for n, c in structures(SubRip):
        check_doc(fam, SubRip(n + ", no newline at the end", c, tail=""), ["text"])
        check_doc(fam, SubRip(n + ", no blank line at the end", c, tail="\n"), ["text"])
        check_doc(fam, SubRip(n + ", blank lines at the end", c, tail="\n\n\n\n"), ["text"])


@family("SubRip: formatting")
def f(fam):
    for n, c in formatted(SubRip):
        for br in (False, True):
            check_doc(fam, SubRip(n + (" in braces" if br else ""), c, braces=br), ["text"])
    x = chars("x", 6, "0123456789")
    f1 = ("font", cat("<font color=\"#", x, "\">"), tuple(unit(hexnum(Str(x.segs[i:i + 2]))) for i in (0, 2, 4)))
    check_doc(fam, SubRip("colour", [cue(SubRip, "a", [[t("p"), f1, t("q"), ("endfont",), t("r")]], 3)]), ["text"])


@family("SubRip: texts of any length", 200)
def f(fam):
    check_doc(fam, SubRip("one text", long_text(SubRip, 0)), ["text"])
    s, u = opaque("s", S1, 9), opaque("u", S1, 9)
    check_doc(fam, SubRip("two texts around a tag", [cue(SubRip, "a", [[("t", cat("A", s)), ON("italic"), ("t", u)]], 3)]), ["text"])


@family("SubRip: text which looks like markup")
def f(fam):
    notag = [c for c in S2 if chr(c) not in "bBiIuUfF/<"]
    for o in "<{":
        c = chars("c", 1, [x for x in notag if chr(x) != "\\"])
        check_doc(fam, SubRip("'%s' which starts no tag" % o, [cue(SubRip, "a", [[("t", cat(chars("p", 2, S1), o, c, chars("q", 2, S1)))]], 3)]), ["text"])
        check_doc(fam, SubRip("'%s' at the end of a line" % o, [cue(SubRip, "a", [[("t", cat(chars("p", 2, S1), o))], [t("q")]], 3)]), ["text"])
    for tag in ("<bx>", "<ix>", "<ux>", "</bx>", "{ix}", "<br>", "</x>", "<x>", "<c>", ">", "}", "&amp;", "-", "<<", "<"):
        check_doc(fam, SubRip("text holding %s" % tag, [cue(SubRip, "a", [[("t", cat(chars("p", 2, S1), tag, "x", chars("q", 2, S1)))]], 3)]), ["text"])
    check_doc(fam, SubRip("a line which is a number", [cue(SubRip, "a", [[t("p")], [("t", digits("n", 2))], [t("q")]], 3)]), ["text"])
    check_doc(fam, SubRip("a line which looks like a time", [cue(SubRip, "a", [[t("p")], [("t", cat(digits("n", 2), ":00:00,000 --> 00:00:01,000"))], [t("q")]], 3)]), ["text"])
    check_doc(fam, SubRip("spaces around the text", [cue(SubRip, "a", [[("t", cat("  ", chars("p", 2, S1), "  "))], [("t", K(" "))], [t("q")]], 3)]), ["text"])


@family("WebVTT: structure")
def f(fam):
    for n, c in structures(WebVTT):
        check_doc(fam, WebVTT(n, c), ["text"])
        check_doc(fam, WebVTT(n + ", with identifiers", c, ids=True), ["text"])
        check_doc(fam, WebVTT(n + ", with notes", c, note=chars("n", 2, safe("->"))), ["text"])
        check_doc(fam, WebVTT(n + ", with a title", c, header="WEBVTT - Title"), ["text"])


@family("WebVTT: identifiers and notes")
def f(fam):
    """an identifier is any line without an arrow; a comment is NOTE, alone or with a blank after it"""
    one = lambda: [cue(WebVTT, "a", [[("t", chars("ida", 1, S1))]], 3), cue(WebVTT, "b", [[("t", chars("idb", 1, S1))]], 7)]
    for i in ("NOTES", "NOTEBOOK 1", "NOTE1", "NOTE-1", "note 1", "ANOTE", "STYLE", "REGION 1", "1", "0", "-", "->", "--", "WEBVTT", "a b", "{\\an8}", "00:00:01.000"):
        check_doc(fam, WebVTT("identifiers %r" % i, one(), ids=[K(i), K(i)]), ["text"])
    for n in (1, 2, 3, 5):
        first, rest = ([c for c in S1 if c not in b"N-"], [c for c in S1 if c not in b"->"])
        x = [cat(chars("idf" + k, 1, first), chars("idr" + k, n - 1, rest) if n > 1 else K("")) for k in "ab"]
        check_doc(fam, WebVTT("identifiers of %d characters" % n, one(), ids=x), ["text"])
        x = [cat("NOTE", chars("idn%s" % k, 1, [c for c in S1 if c not in b" ->\t"]), chars("idm%s" % k, n, rest)) for k in "ab"]
        check_doc(fam, WebVTT("identifiers of NOTE and %d characters" % (n + 1), one(), ids=x), ["text"])
    for n in ("", K("x"), K("a\nb"), K("a\nb\nc"), K(" "), K("NOTE")):
        check_doc(fam, WebVTT("notes %s" % (n,), one(), note=n), ["text"])
    check_doc(fam, WebVTT("a note between two cues", one(), note=chars("nt", 3, safe("->\n")), ids=[K("1"), K("NOTEs")]), ["text"])


@family("WebVTT: texts of any length", 200)
def f(fam):
    check_doc(fam, WebVTT("one text", long_text(WebVTT, 0)), ["text"])
    s, u = opaque("s", S1, 9), opaque("u", S1, 9)
    check_doc(fam, WebVTT("two lines of text", [cue(WebVTT, "a", [[("t", cat("A", s))], [("t", cat("B", u))]], 3)]), ["text"])


@family("SSA: structure")
def f(fam):
    pl = lambda s: s.f["vertical_position"].f["proportional"]
    nosp = [c for c in S1 if c != 32]
    for n, c in structures(SSA):
        c = [(x[0], x[1], [[("t", cat("A", tk[1], "B")) if tk[0] == "t" else tk for tk in l] for l in x[2]], x[3], x[4]) for x in c]
        check_doc(fam, SSA(n, c), ["text"], place=pl)
    for n, c in formatted(SSA):
        c = [(x[0], x[1], [[("t", cat("A", tk[1], "B")) if tk[0] == "t" else tk for tk in l] for l in x[2]], x[3], x[4]) for x in c]
        check_doc(fam, SSA(n, c), ["text"], place=pl)
    for n in range(1, 4):
        s = K("A")
        for i in range(n):
            s = cat(s, ",", chars("np%d" % i, 2, nosp))
        check_doc(fam, SSA("%d commas in the text" % n, [cue(SSA, "a", [[("t", s)]], 3)]), ["text"], place=pl)
    for c in "[;:":
        check_doc(fam, SSA("'%s' in the text" % c, [cue(SSA, "a", [[("t", cat(c, chars("np", 2, nosp), c))]], 3)]), ["text"], place=pl)


@family("SSA: texts of any length", 200)
def f(fam):
    pl = lambda s: 0
    check_doc(fam, SSA("one text", long_text(SSA, 0)), ["text"], place=pl)
    s, u = opaque("s", S1, 9), opaque("u", S1, 9)
    check_doc(fam, SSA("two texts around an override", [cue(SSA, "a", [[("t", cat("A", s)), ON("italic"), ("t", cat(u, "B"))]], 3)]), ["text"], place=pl)


@family("STL text: structure")
def f(fam):
    for n, c in structures(STLText):
        c = [(x[0], x[1], [[("t", cat("A", tk[1], "B")) if tk[0] == "t" else tk for tk in l] for l in x[2]], x[3], x[4]) for x in c]
        check_doc(fam, STLText(n, c), ["text"])
    for n, c in formatted(STLText):
        c = [(x[0], x[1], [[("t", cat("A", tk[1], "B")) if tk[0] == "t" else tk for tk in l] for l in x[2]], x[3], x[4]) for x in c]
        check_doc(fam, STLText(n, c), ["text"])
    check_doc(fam, STLText("commas in the text", [cue(STLText, "a", [[("t", cat("A", ",", chars("p", 2, S1), ",", "B"))]], 3)]), ["text"])


@family("STL text: texts of any length", 200)
def f(fam):
    check_doc(fam, STLText("one text", long_text(STLText, 0)), ["text"])
    s, u = opaque("s", S1, 9), opaque("u", S1, 9)
    check_doc(fam, STLText("two texts around a toggle", [cue(STLText, "a", [[("t", cat("A", s)), ON("italic"), ("t", cat(u, "B"))]], 3)]), ["text"])


@family("SSA: events which are not dialogue")
def f(fam):
    """comments and the like are not shown"""
    for kind in ("Comment", "Picture", "Sound", "Movie", "Command"):
        for first in (True, False):
            d = SSA("an event of the kind %s %s the dialogue" % (kind, "before" if first else "after"), [cue(SSA, "a", [[("t", cat("A", chars("p", 2, S1), "B"))]], 3)])
            src = d.source()
            line = cat("%s: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,A" % kind, chars("c", 2, S1), "B\n")
            segs, i = list(src.segs), [j for j, g in enumerate(src.segs) if g[0] == "k" and "Dialogue: " in g[1]][0]
            at = segs[i][1].index("Dialogue: ")
            whole = cat(src, line) if not first else cat(*([Str((x,)) for x in segs[:i]] + [K(segs[i][1][:at]), line, K(segs[i][1][at:])] + [Str((x,)) for x in segs[i + 1:]]))
            for s in read(fam, d.cls, d.name, whole) or []:
                if s.ctl is not None:
                    fam.unreachable("a well-formed document is read", d.name, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
                    continue
                fam.equal("only dialogue is shown", d.name, s, tuple(x.f["text"] for x in raws(s)), (cat("A", chars("p", 2, S1), "B"),))


for D, n in ((SubRip, 8), (SSA, 4), (STLText, 2)):
    pairs.families(D, ["text"], ["xttx", "xtxt"], n)
    pairs.families(D, ["text"], ["xtxtxt"], 2 * n, 3, "thorough")
