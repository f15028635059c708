"""cue times"""
from check import *
from textdocs import *

EXPLANATION = ("Each reader is abstractly interpreted on documents whose time stamps consist of unknown digits; the times of "
               "the delivered subtitles are compared, as polynomials of those digits, with the instants that the time stamps denote.")

S1 = safe(" <{\\}|^,&\xef")


def t(n, k=2):
    return T(chars(n, k, S1))


@family("SubRip: every time stamp")
def f(fam):
    check_doc(fam, SubRip("one cue", [cue(SubRip, "a", [[t("p")]])]), ["time"])
    check_doc(fam, SubRip("two cues", [cue(SubRip, "a", [[t("p")]]), cue(SubRip, "b", [[t("q")], [t("r")]])]), ["time"])
    check_doc(fam, SubRip("a cue whose text changes formatting", [cue(SubRip, "a", [[t("p"), ON("bold"), t("q")], [OFF("bold"), t("r")]])]), ["time"])
    d = SubRip("coordinates after the times", [cue(SubRip, "a", [[t("p")]])])
    d.cues[0][4].text = cat(d.cues[0][4].text, " X1:", digits("x1", 3), " X2:", digits("x2", 3), " Y1:", digits("y1", 3), " Y2:", digits("y2", 3))
    check_doc(fam, d, ["time"])
    d = SubRip("spaces after the times", [cue(SubRip, "a", [[t("p")]])])
    d.cues[0][4].text = cat(d.cues[0][4].text, "   ")
    check_doc(fam, d, ["time"])
    for sp in ("  ", "     "):
        d = SubRip("%d spaces between the times" % len(sp), [cue(SubRip, "a", [[t("p")]]), cue(SubRip, "b", [[t("q")]])])
        d.source = lambda d=d, sp=sp: cat(K("1\n"), d.cues[0][3].text, K(sp + "-->" + sp), d.cues[0][4].text, K("\n"), d.cues[0][2][0][0][1], K("\n\n2\n"), d.cues[1][3].text, K(" -->" + sp),
                                           d.cues[1][4].text, K("\n"), d.cues[1][2][0][0][1], K("\n"))
        check_doc(fam, d, ["time"])
    for h in (1, 3):
        a, b = Cue("af%d" % h, h), Cue("at%d" % h, h)
        check_doc(fam, SubRip("hours of %d digits" % h, [(a.hms(), b.hms(), [[t("p")]], a, b)]), ["time"])


@family("WebVTT: every time stamp")
def f(fam):
    check_doc(fam, WebVTT("one cue", [cue(WebVTT, "a", [[t("p")]])]), ["time"])
    check_doc(fam, WebVTT("two cues", [cue(WebVTT, "a", [[t("p")]]), cue(WebVTT, "b", [[t("q")], [t("r")]])]), ["time"])
    check_doc(fam, WebVTT("cues with identifiers", [cue(WebVTT, "a", [[t("p")]]), cue(WebVTT, "b", [[t("q")]])], ids=True), ["time"])
    check_doc(fam, WebVTT("cues after notes", [cue(WebVTT, "a", [[t("p")]]), cue(WebVTT, "b", [[t("q")]])], note=chars("n", 2, safe("->"))), ["time"])
    check_doc(fam, WebVTT("four settings", [cue(WebVTT, "a", [[t("p")]])], settings=" align:start line:0 position:1% size:2%"), ["time"])
    check_doc(fam, WebVTT("spaces after the times", [cue(WebVTT, "a", [[t("p")]])], settings="  "), ["time"])


@family("WebVTT: spaces and hours")
def f(fam):
    for sp in ("  ", "     "):
        d = WebVTT("%d spaces between the times" % len(sp), [cue(WebVTT, "a", [[t("p")]]), cue(WebVTT, "b", [[t("q")]])])
        d.source = lambda d=d, sp=sp: cat(K("WEBVTT\n\n"), d.cues[0][3].text, K(sp + "-->" + sp), d.cues[0][4].text, K("\n"), d.cues[0][2][0][0][1], K("\n\n"), d.cues[1][3].text, K(" -->" + sp),
                                           d.cues[1][4].text, K("\n"), d.cues[1][2][0][0][1], K("\n"))
        check_doc(fam, d, ["time"])
    for h in (1, 3):
        a, b = Cue("af%d" % h, h, 3, "."), Cue("at%d" % h, h, 3, ".")
        check_doc(fam, WebVTT("hours of %d digits" % h, [(a.hms(), b.hms(), [[t("p")]], a, b)]), ["time"])


@family("SSA: every time stamp")
def f(fam):
    check_doc(fam, SSA("one cue", [cue(SSA, "a", [[t("p")]])]), ["time"], place=lambda s: 0)
    check_doc(fam, SSA("two cues", [cue(SSA, "a", [[t("p")]]), cue(SSA, "b", [[t("q"), ON("italic"), t("r")]])]), ["time"], place=lambda s: 0)
    d = SSA("a format line with the fields in another order", [cue(SSA, "a", [[t("p")]])])
    d.FORMAT = "End, Start, Text"
    c = d.cues[0]
    d.source = lambda: cat(K("[Script Info]\n[Events]\nFormat: End, Start, Text\nDialogue: "), c[4].text, K(","), c[3].text, K(","), c[2][0][0][1], K("\n"))
    check_doc(fam, d, ["time"], place=lambda s: 0)


@family("STL text: every time stamp")
def f(fam):
    check_doc(fam, STLText("one cue", [cue(STLText, "a", [[t("p")]])]), ["time"])
    for before in ("", "  ", "\t"):
        for gap in ("", "  ", "\t"):
            check_doc(fam, STLText("one cue with %r before and %r after the commas" % (before, gap), [cue(STLText, "a", [[t("p")]])], before=before, gap=gap), ["time", "text"])
    check_doc(fam, STLText("two cues", [cue(STLText, "a", [[t("p")]]), cue(STLText, "b", [[t("q")], [t("r")]])]), ["time"])


NODIGIT = [c for c in range(33, 256) if chr(c) not in "0123456789+-:,. \t"]


def bad_times(D, sep):
    """time stamps which are not times: (description, source)"""
    g = lambda i: digits("g%d" % i, 2)
    x = chars("x", 1, NODIGIT)
    out = []
    names = ("hours", "minutes", "seconds", "milliseconds")
    for i in range(4):
        for form in ("first", "last"):
            p = [g(0), g(1), g(2), digits("g3", 3)]
            p[i] = cat(x, p[i]) if form == "first" else cat(p[i], x)
            out.append(("%s which %s with a character that is not a digit" % (names[i], "start" if form == "first" else "end"),
                        cat(p[0], ":", p[1], ":", p[2], sep, p[3])))
        p = [g(0), g(1), g(2), digits("g3", 3)]
        p[i] = K("")
        out.append(("no " + names[i], cat(p[0], ":", p[1], ":", p[2], sep, p[3])))
    out.append(("no hours field", cat(g(0), ":", g(1), sep, digits("g3", 3))))
    out.append(("no milliseconds field", cat(g(0), ":", g(1), ":", g(2))))
    out.append(("five fields", cat(g(0), ":", g(1), ":", g(2), ":", g(2), sep, digits("g3", 3))))
    other = "." if sep == "," else ","
    out.append(("'%s' before the milliseconds" % other, cat(g(0), ":", g(1), ":", g(2), other, digits("g3", 3))))
    out.append(("':' before the milliseconds", cat(g(0), ":", g(1), ":", g(2), ":", digits("g3", 3))))
    out.append(("'%s' after the minutes" % sep, cat(g(0), ":", g(1), sep, g(2), sep, digits("g3", 3))))
    out.append(("'-' between the parts", cat(g(0), "-", g(1), "-", g(2), sep, digits("g3", 3))))
    for i in range(4):
        p = [g(0), g(1), g(2), digits("g3", 3)]
        p[i] = cat(chars("y1", 1, "0123456789"), x, chars("z1", 1, "0123456789"))
        out.append(("%s with a character that is not a digit inside" % names[i], cat(p[0], ":", p[1], ":", p[2], sep, p[3])))
        p[i] = cat(chars("y", 1, "3456789"), digits("z", 9))
        out.append(("%s of ten digits, more than an int holds" % names[i], cat(p[0], ":", p[1], ":", p[2], sep, p[3])))
    out.append(("a second fraction", cat(g(0), ":", g(1), ":", g(2), sep, digits("g3", 3), sep, digits("g4", 3))))
    return out


def malformed(fam, D, sep, exc):
    for what, bad in bad_times(D, sep):
        for which in ("start", "end"):
            d = D(what, [cue(D, "a", [[T("hello")]], 3), cue(D, "b", [[T("world")]], 5)])
            c = d.cues[1]
            (c[3] if which == "start" else c[4]).text = bad
            name = "%s: %s time with %s" % (D.cls.split("::")[-1], which, what)
            out = read(fam, D.cls, name, d.source())
            for s in out or []:
                o = fam.outcome(s)
                if o == "throw " + exc:
                    if fam.reachable(s) is None:
                        fam.undecided("a malformed time is reported", name, s.imp)
                    else:
                        fam.ok("a malformed time is reported", name)
                else:
                    fam.unreachable("a malformed time is reported", name, s, "%s, where %s is required" % (
                        "the subtitle is read" if o == "ok" else o + " at " + fam.where(s), exc))


@family("SubRip: malformed time stamps")
def f(fam):
    malformed(fam, SubRip, ",", "sub::SubripError")


@family("WebVTT: malformed time stamps")
def f(fam):
    malformed(fam, WebVTT, ".", "sub::WebVTTError")
