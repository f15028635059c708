"""failures to write a binary STL file are reported"""
from check import *
from writer import *

EXPLANATION = ("write_stl_binary is abstractly interpreted with every opening and flushing of its output allowed to fail independently; a normal return is only "
               "allowed in states which know that each of them succeeded after the last byte was written. What cannot be represented in the format must be "
               "refused with an exception before anything is written.")
RULE = "success is only reported if everything was written"
REFUSE = "what does not fit the format is refused before a file is made"


def cases():
    yield "no subtitles", [], {}
    yield "one subtitle", [simple("Hello")], {}
    yield "a subtitle which starts and ends at any time", [subtitle([line([block(K("Hello"))], row(10))], at(sym("s0", lo=0, hi=80000), sym("m0", lo=0, hi=999)), at(sym("s1", lo=0, hi=80000), sym("m1", lo=0, hi=999)))], {}
    yield "several subtitles", [simple("Hello"), simple("there", 3), simple("you", 5)], {}
    yield "several blocks of one subtitle", [simple("A" * 300)], {}
    yield "titles", [simple("Hello")], dict(OPT=opaque("opt", PRINT, 0, 7), PUB="P")


@family("failures of the file")
def f(fam):
    for n, subs, k in cases():
        out = write(fam, n, subs, **k)
        oks = 0
        for s in out or []:
            if s.ctl is not None:
                continue
            oks += 1
            if s.imp is not None:
                fam.undecided(RULE, n, "imprecise: %s" % s.imp)
                continue
            if not opens(s):
                fam.unreachable(RULE, n, s, "returns without opening a file")
                continue
            bad = None
            for i, e in enumerate(s.events):
                if e.kind in ("open for writing", "stream flushed", "stream state") and s.known(e.info["cond"]) is not True:
                    t = s.copy()
                    if t.assume(e.info["cond"], False):
                        bad = "a failure of '%s' at %s is not reported" % (e.kind, e.loc)
                if e.kind == "stream write" and not any(x.kind == "stream flushed" for x in s.events[i + 1:]):
                    bad = "nothing after the write at %s would notice that it failed" % (e.loc,)
            if bad:
                fam.violated(RULE, n, bad + "\n    " + fam.describe(s))
            else:
                fam.ok(RULE, n)
        if out is not None and not oks:
            fam.undecided(RULE, n, "no normal outcome")


@family("failures are reported as exceptions of the library")
def f(fam):
    rule = "a failure to write is reported as an STLError"
    for n, subs, k in cases():
        for s in write(fam, n, subs, **k) or []:
            if s.ctl is None:
                continue
            conds = [e.info["cond"] for e in s.events if "cond" in e.info]
            if s.ctl[0] == "throw" and s.ctl[1].cls == "sub::STLError":
                fam.ok(rule, n)
            else:
                fam.unreachable(rule, n, s, "%s at %s" % (fam.outcome(s), fam.where(s)))


def refuse(fam, n, subs, **k):
    out = write(fam, n, subs, **k)
    for s in out or []:
        if s.ctl is None:
            fam.unreachable(REFUSE, n, s, "is written without complaint")
        elif s.ctl[0] != "throw":
            fam.unreachable(REFUSE, n, s, "ends with %s" % (s.ctl[0],))
        elif opens(s):
            fam.unreachable(REFUSE, n, s, "is refused only after the file has been opened")
        elif s.imp is None:
            fam.ok(REFUSE, n)
        else:
            fam.undecided(REFUSE, n, "imprecise: %s" % s.imp)


def accept(fam, n, subs, **k):
    rule = "what fits the format is written"
    out = write(fam, n, subs, **k)
    for s in good(fam, rule, n, out):
        if s.imp is None:
            fam.ok(rule, n)
        else:
            fam.undecided(rule, n, "imprecise: %s" % s.imp)


@family("what does not fit")
def f(fam):
    one = [simple("Hello")]
    for c, what in TEXTS + [("PUB", "publisher"), ("EN", "editor's name"), ("ECD", "editor's contact details")]:
        for l in (33, 34, 100):
            refuse(fam, "%s of %d characters" % (what, l), one, **{c: opaque("x%d" % l, PRINT, 0, l)})
        refuse(fam, "%s of any length over 32" % what, one, **{c: opaque("y33", PRINT, 33)})
        for l in (0, 1, 31, 32):
            accept(fam, "%s of %d characters" % (what, l), one, **{c: opaque("x%d" % l, PRINT, 0, l)})
    for c, what, n in (("CD", "creation date", 6), ("RD", "revision date", 6), ("CO", "country", 3)):
        for l in (0, 1, n - 1, n + 1, 50):
            refuse(fam, "%s of %d characters" % (what, l), one, **{c: opaque("x%d" % l, PRINT, 0, l)})
        refuse(fam, "%s of any length over %d" % (what, n), one, **{c: opaque("y%d" % n, PRINT, n + 1)})
        accept(fam, "%s of %d characters" % (what, n), one, **{c: opaque("x%d" % n, PRINT, 0, n)})
    v = sym("rev", lo=100, hi=10 ** 6)
    refuse(fam, "revision number over 99", one, RN=v)
    accept(fam, "revision number to 99", one, RN=sym("rv", lo=0, hi=99))
    refuse(fam, "a subtitle without lines", [simple("A"), subtitle([], at(3), at(4)), simple("B", 5)])
    refuse(fam, "only a subtitle without lines", [subtitle([], at(3), at(4))])
