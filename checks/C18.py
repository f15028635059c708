"""code tables of binary STL"""
from check import *
from inputs import *
import ebu

EXPLANATION = ("STLBinaryTables is abstractly constructed and each of its conversions interpreted for every enumerator and for every possible code (all bytes, all pairs of hexadecimal "
               "digits, unknown bytes); so are the conversions between frame rates and disk format codes. The oracle is the list of codes in EBU Tech 3264.")
INT = ("CumulativeStatus", "Justification", "Comment")


def tables(fam):
    key = fam.fn("sub::STLBinaryTables::STLBinaryTables", n=0)
    out = fam.make("tables", key, [], "T") or []
    s = out[0]
    s.mem["T"] = s.result
    return s


def call(fam, label, s, name, args, expect=()):
    return fam.run(label, fam.fn("sub::STLBinaryTables::" + name), args, Ref("T"), st=s.copy(), expect=expect) or []


def value(fam, rule, label, out, want):
    for t in out:
        if t.ctl is not None:
            fam.unreachable(rule, label, t, "%s at %s" % (fam.outcome(t), fam.where(t)))
        else:
            fam.equal(rule, label, t, t.result, want)


def refused(fam, label, out):
    rule = "an unknown code is refused with STLError"
    for t in out:
        if t.ctl is None or t.ctl[0] != "throw" or t.ctl[1].cls != "sub::STLError":
            fam.unreachable(rule, label, t, "%s, %s" % (fam.outcome(t), str(t.result)[:60]))
        else:
            fam.ok(rule, label)


def one(e):
    def f(fam):
        s = tables(fam)
        vals = ebu.enumerators(fam.I, e)
        codes = ebu.CODES[e]
        fld = ebu.FIELD[e]
        fam.equal("the enumerators are those of the format", e, s, tuple(sorted(vals)), tuple(sorted(codes)))
        for n, c in sorted(codes.items()):
            v = K(c) if isinstance(c, str) else c
            value(fam, "each code is converted to its meaning", "%s from %r" % (n, c), call(fam, n, s, fld + "_file_to_enum", [v]), vals[n])
            if fam.I.find("sub::STLBinaryTables::%s_enum_to_file" % fld):
                value(fam, "each meaning is converted to its code", "%s to %r" % (n, c), call(fam, n, s, fld + "_enum_to_file", [vals[n]]), v)
        known = set(codes.values())
        if e in INT:
            for c in list(range(256)) + [-1, 256]:
                if c not in known:
                    refused(fam, "%s code %d" % (e, c), call(fam, "code", s, fld + "_file_to_enum", [c]))
        else:
            n = len(next(iter(known)))
            cand = [chr(c) for c in range(256)] if n == 1 else ["%02X" % c for c in range(256)] + ["%02x" % c for c in range(0xa, 256)] + [" 1", "1 ", "  ", "\0\0", "0", "1", "", "000", "U7", "u8"]
            for c in cand:
                if c not in known:
                    refused(fam, "%s code %r" % (e, c), call(fam, "code", s, fld + "_file_to_enum", [K(c)]))
    family(e, 200)(f)


for e in ebu.CODES:
    one(e)


def descriptions(e):
    def f(fam):
        s = tables(fam)
        fld = ebu.FIELD[e]
        vals = ebu.enumerators(fam.I, e)
        seen = {}
        rule = "descriptions identify what they describe"
        for n in sorted(vals):
            for t in call(fam, n, s, fld + "_enum_to_description", [vals[n]]):
                d = t.result.const() if t.ctl is None and isinstance(t.result, Str) else None
                if d is None:
                    fam.undecided(rule, n, "not constant")
                    continue
                if d == "" or d in seen:
                    fam.violated(rule, n, "STLBinaryTables::%s_enum_to_description gives %r for %s%s" % (fld, d, n, " and " + seen[d] if d in seen else ""))
                else:
                    fam.ok(rule, n)
                seen[d] = n
                if fam.I.find("sub::STLBinaryTables::%s_description_to_enum" % fld):
                    value(fam, "a description leads back to what it describes", n, call(fam, d, s, fld + "_description_to_enum", [K(d)]), some(vals[n]))
                if e == "Language":
                    fam.equal("the description is the name of the language", n, t, norm(d), norm(n[9:]))
        if fam.I.find("sub::STLBinaryTables::%s_description_to_enum" % fld):
            for d in ("", "Klingon", "english", "English "):
                value(fam, "an unknown description has no meaning", repr(d), call(fam, d, s, fld + "_description_to_enum", [K(d)]), NONE)
    family("descriptions of " + e, 200)(f)


def norm(t):
    """without differences between the spellings of names and descriptions"""
    t = "".join(c for c in t.lower() if c.isalpha())
    return {"gujurati": "gujarati"}.get(t, t)


for e in ebu.CODES:
    descriptions(e)


@family("disk format codes")
def f(fam):
    a, b = fam.fn("sub::stl_frame_rate_to_dfc"), fam.fn("sub::stl_dfc_to_frame_rate")
    known = {"STL23.01": Fraction(23976, 1000), "STL24.01": 24, "STL25.01": 25, "STL30.01": 30}
    for c, r in known.items():
        value(fam, "each disk format code is converted to its frame rate", c, fam.run(c, b, [K(c)]) or [], r)
        value(fam, "each frame rate is converted to its disk format code", c, fam.run(c, a, [r]) or [], K(c))
    value(fam, "each frame rate is converted to its disk format code", "24000/1001", fam.run("24000/1001", a, [Fraction(24000, 1001)]) or [], K("STL23.01"))
    # close to a frame rate
    for r in (24, 25, 30):
        for d in (Fraction(1, 100000), Fraction(-1, 100000)):
            value(fam, "each frame rate is converted to its disk format code", str(float(r + d)), fam.run("close", a, [r + d]) or [], K("STL%d.01" % r))
    for c in ["STL%d.01" % i for i in range(0, 100)] + ["STL%d.%02d" % (i, j) for i in (23, 24, 25, 30) for j in (0, 2, 10, 98, 99)] + ["STL25.", "STL25.0", "STL2", "STL25.011", "STL2501", "stl25.01", "        ", "", "STL25.1", "STL25.01 ", "DSK25.01"]:
        if c not in known:
            refused(fam, "disk format code %r" % c, fam.run(c, b, [K(c)]) or [])


from fractions import Fraction
