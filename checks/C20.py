"""nothing is shared between documents"""
from check import *
from textdocs import *
from writer import *
import models
import stlbin

EXPLANATION = ("Readers and the writer are abstractly interpreted, recording each write to what has static storage duration (globals, static locals, static members) other than the initialisation of a static local, "
               "which C++ does once and for one thread at a time; and each of a list of documents is read (or written) after each other one in the same abstract memory, and the result compared with the one it gives alone.")
RULE = "nothing of static storage is written after its initialisation"
ALONE = "a document gives the same after another one"
X = chars("text", 2, safe(" <{\\}|^,&\xef"))


def shared(fam, label, out):
    for s in out or []:
        w = sorted((fam.I.glob[k][1].get("q") or k, f, l) for k, f, l in s.gwrites if not (k in fam.I.glob and fam.I.glob[k][1].get("tls")))
        if not w:
            fam.ok(RULE, label)
        elif s.imp is not None:
            fam.undecided(RULE, label, "%s may be written in %s (%s)" % (w[0][0], w[0][1], s.imp))
        else:
            fam.violated(RULE, "%s in %s" % w[0][:2], "%s: it is written at %s; two threads which do so at once race" % (label, w[0][2]))


class Job(object):
    def __init__(self, name, go, view):
        self.name, self.go, self.view = name, go, view


def text(cls, name, source, own=""):
    src = source if isinstance(source, Str) else K(source)

    def go(fam, label, st, root):
        k = reader_key(fam, cls)
        if cls.split("::")[-1].startswith("STL"):
            st.mem["S" + root] = models.istream(src)
            return fam.make(label, k, [Ref("S" + root)], root=root, st=st)
        return fam.make(label, k, [src], root=root, st=st)
    return Job(cls.split("::")[-1] + ", " + name, go, lambda s: tuple(raws(s)) if raws(s) is not None else "unknown")


def binary(name, data):
    def go(fam, label, st, root):
        st.mem["S" + root] = models.istream(data)
        out = []
        for s in fam.make(label, fam.fn("sub::STLBinaryReader::STLBinaryReader", "Si"), [Ref("S" + root)], root=root, st=st) or []:
            if s.ctl is not None:
                out.append(s)
                continue
            w = s.result
            for t in fam.run(label, fam.fn("sub::STLBinaryReader::metadata"), [], Ref(root), st=s) or []:
                names = sorted(n for n, v in w.f.items() if isnum(v) or isinstance(v, Str))
                t.result = tuple(w.f[n] for n in names) + tuple(w.f["_subs"].items) + tuple(x for k, v in sorted(t.result.items, key=lambda z: str(z[0])) for x in (k, v))
                out.append(t)
        return out
    return Job("STLBinaryReader, " + name, go, lambda t: t.result)


def writing(name, subs, **k):
    def go(fam, label, st, root):
        return [s for s in write(fam, label, subs, st=st, **k) or [] if all(s.known(e.info["cond"]) is True for e in s.events if "cond" in e.info)]
    return Job("write_stl_binary, " + name, go, written)


def collecting(name, rs):
    def go(fam, label, st, root):
        st.mem["C" + root] = Vec(rs)
        ks = [k for k in fam.I.find("sub::collect") if "vector" in k]
        return fam.run(label, ks[0], [Ref("C" + root)], None, st) if ks else None
    return Job("collect, " + name, go, lambda s: tuple(s.result.items) if isinstance(s.result, Vec) else s.result)


SUB = "1\n00:00:01,000 --> 00:00:02,000\n%s\n\n"
VTT = "WEBVTT\n\n00:00:01.000 --> 00:00:02.000\n%s\n\n"
STYLE = "Format: Name, Fontname, Fontsize, PrimaryColour, BackColour, Bold, Italic, Underline, BorderStyle, Alignment, MarginL, MarginR, MarginV\nStyle: %s\n"


def ssa(text="p", style="Default,Arial,20,&H102030,&H0,0,0,0,0,2,10,20,30", res="PlayResX: 640\nPlayResY: 480\n", fmt=SSA.FORMAT):
    return "[Script Info]\n" + res + "[V4+ Styles]\n" + STYLE % style + "[Events]\nFormat: " + fmt + "\nDialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,," + text + "\n"


TXT = "00:00:01:00 , 00:00:02:00 , %s\n"


def jobs():
    return [
        text("sub::SubripReader", "plain", SUB % "p"),
        text("sub::SubripReader", "formatting left on, a position", SUB % "{\\an8}<b><i><u><font color=\"#102030\">p"),
        text("sub::SubripReader", "malformed", "1\n00:00:01\np\n"),
        text("sub::SubripReader", "several cues, CRLF", (SUB % "p" + SUB.replace("1\n", "2\n", 1) % "<i>q</i>\nr").replace("\n", "\r\n")),
        text("sub::WebVTTReader", "plain", VTT % "p"),
        text("sub::WebVTTReader", "two lines", VTT % "p\nq"),
        text("sub::WebVTTReader", "malformed", "nothing\n"),
        text("sub::SSAReader", "styled", ssa("{\\i1\\c&H123456&\\an8\\pos(10,20)}p", style="Default,Arial,32,&H00FF00,&H0,1,1,1,0,8,10,20,30", res="PlayResX: 1920\nPlayResY: 1080\n")),
        text("sub::SSAReader", "no resolution", ssa("p", res="")),
        text("sub::SSAReader", "malformed", "[Events]\nFormat: Layer, Start\nDialogue: 0,x\n"),
        text("sub::STLTextReader", "plain", TXT % "p"),
        text("sub::STLTextReader", "settings and toggles left on", "$FontName = Times\n$FontSize = 20\n$Bold = True\n$HorzAlign = Left\n$VertAlign = Top\n" + TXT % "^Bp^Iq|r"),
        text("sub::STLTextReader", "malformed", "00:00 , x\n"),
        binary("plain", stlbin.stl([stlbin.tti(K("abc"))])),
        binary("marks, colours and positions", stlbin.stl([stlbin.tti(K("\xc8a\x80d\x8ae\x01f"), vp=3, jc=1)], DFC="STL30.01", TNS="00001")),
        binary("cut short", K("850STL25.01")),
        writing("one subtitle", [simple("abc", 1)]),
        writing("two subtitles, 30 frames per second", [simple("q", 1), simple("r", 2)], fps=30, TPT="title"),
        collecting("one", [raw(K("p"), **{"from": at(1), "to": at(2), "vertical_position": vpos(line=1, lines=12, reference=0)})]),
    ]


def result(fam, s, view):
    return (fam.outcome(s), view(s) if s.ctl is None else None)


def fresh(s):
    """the memory which a finished run leaves"""
    s = s.copy()
    s.ctl = None
    s.frames = s.frames[:1]
    s.vals = []
    s.result = None
    s.events = ()
    return s


def after(fam, i):
    js = jobs()
    a = js[i]
    first = a.go(fam, a.name, fam.I.start(), "R")
    shared(fam, a.name, first)
    if not first:
        return
    for b in js:
        alone = b.go(fam, b.name, fam.I.start(), "B")
        if not alone or len(alone) != 1:
            fam.undecided(ALONE, b.name, "%d outcomes" % len(alone or []))
            continue
        want = result(fam, alone[0], b.view)
        label = "%s after %s" % (b.name, a.name)
        for f in first:
            out = b.go(fam, label, fresh(f), "B")
            shared(fam, label, out)
            for s in out or []:
                o, v = result(fam, s, b.view)
                if o != want[0]:
                    fam.unreachable(ALONE, label, s, "%s at %s, but alone %s" % (o, fam.where(s), want[0]))
                elif o == "ok":
                    fam.equal(ALONE, label, s, v, want[1])
                else:
                    fam.ok(ALONE, label)


for i, j in enumerate(jobs()):
    @family("after " + j.name)
    def f(fam, i=i):
        after(fam, i)
