"""the GSI block of a binary STL file, as read"""
from check import *
from writer import *
import ebu

EXPLANATION = ("STLBinaryReader is abstractly interpreted on files whose header fields are unknown (one after the other and all at once); the values that it delivers, and its metadata(), "
               "are compared with the bytes of EBU Tech 3264's fields.")
RULE = "the field of the header is delivered"
MEMBER = {"OPT": "original_programme_title", "OET": "original_episode_title", "TPT": "translated_programme_title", "TET": "translated_episode_title",
          "TN": "translator_name", "TCD": "translator_contact_details", "SLR": "subtitle_list_reference_code", "CD": "creation_date", "RD": "revision_date",
          "RN": "revision_number", "TCP": "start_of_programme", "TCF": "first_in_cue", "CO": "country_of_origin", "PUB": "publisher", "EN": "editor_name",
          "ECD": "editor_contact_details"}
NUMBER = {"CPN": "code_page_number", "TNS": "number_of_subtitles", "TNG": "subtitle_groups", "MNC": "maximum_characters", "MNR": "maximum_rows",
          "TND": "disks", "DSN": "disk_sequence_number"}
TITLE = {"CPN": "Code page number", "TNS": "Number of subtitles", "TNG": "Subtitle groups", "MNC": "Maximum characters", "MNR": "Maximum rows",
         "TND": "Disks", "DSN": "Disk sequence number", "OPT": "Original programme title", "OET": "Original episode title", "TPT": "Translated programme title",
         "TET": "Translated episode title", "TN": "Translator name", "TCD": "Translator contact details", "SLR": "Subtitle list reference code",
         "CD": "Creation date", "RD": "Revision date", "RN": "Revision number", "TCP": "Start of programme", "TCF": "First in cue", "CO": "Country of origin",
         "PUB": "Publisher", "EN": "Editor name", "ECD": "Editor contact details"}
LEN = {n: l for n, o, l in stlbin.GSI}


def read(fam, label, data, expect=()):
    r = []
    for s in stlbin.read_binary(fam, label, data, expect) or []:
        if s.ctl is not None:
            fam.unreachable("a well-formed file is read", label, s, "%s at %s" % (fam.outcome(s), fam.where(s)))
        else:
            r.append(s)
    return r


@family("texts", 200)
def f(fam):
    k = {n: opaque("t" + n, None, 0, LEN[n]) for n in MEMBER}
    out = read(fam, "all texts unknown", stlbin.stl([], **k), tuple(k[n] for n in sorted(k)))
    for s in out:
        want = s.mem["EXPECT"]
        for n, w in zip(sorted(k), want):
            fam.equal(RULE, n, s, s.result.f[MEMBER[n]], w)


def metadata(fam, label, s):
    """states of metadata() on what was read in s, with the map as a dictionary"""
    key = fam.fn("sub::STLBinaryReader::metadata")
    s = s.copy()
    s.mem["R"] = s.result
    for t in fam.run(label, key, [], Ref("R"), st=s, expect=s.mem["EXPECT"]) or []:
        if t.ctl is not None:
            fam.unreachable("metadata", label, t, "%s at %s" % (fam.outcome(t), fam.where(t)))
            continue
        d = as_dict(t.result)
        if d is None:
            fam.undecided("metadata", label, repr(t.result)[:200])
            continue
        yield t, d


def as_dict(m):
    if not isinstance(m, Map):
        return None
    return {k.const(): v for k, v in m.items}


@family("metadata", 200)
def f(fam):
    k = {n: opaque("m" + n, None, 0, LEN[n]) for n in MEMBER}
    number = {"CPN": "437", "TNS": "01234", "TNG": "007", "MNC": "40", "MNR": "11", "TND": "3", "DSN": "2"}
    for s in read(fam, "metadata", stlbin.stl([], DFC="STL30.01", DSC="1", CCT="03", LC="0F", TCS="0", **dict(k, **number)), tuple(k[n] for n in sorted(k))):
        for t, d in metadata(fam, "metadata", s):
            for n, w in zip(sorted(k), t.mem["EXPECT"]):
                if TITLE[n] in d:
                    fam.equal("metadata() has the field", TITLE[n], t, d[TITLE[n]], w)
                else:
                    fam.violated("metadata() has the field", TITLE[n], "STLBinaryReader::metadata has no " + TITLE[n])
            want = {TITLE[n]: str(int(v)) for n, v in number.items()}
            want.update({"TTI blocks": "0", "Frame rate": "30", "Display standard": "Level 1 teletext", "Language group": "Latin/Greek", "Language": "French",
                         "Timecode status": "Not intended for use"})
            for n, w in want.items():
                if n in d:
                    fam.equal("metadata() has the field", n, t, d[n], K(w))
                else:
                    fam.violated("metadata() has the field", n, "STLBinaryReader::metadata has no " + n)
            fam.equal("metadata() has nothing else", "metadata", t, sorted(set(d) - set(want) - set(TITLE.values())) == [], True)


@family("metadata: noughts", 200)
def f(fam):
    for n in NUMBER:
        for v in (0, 1, 8):
            for s in read(fam, "metadata", stlbin.stl([], **{n: K(str(v).rjust(LEN[n], "0"))})):
                for t, d in metadata(fam, "metadata", s):
                    if TITLE[n] in d:
                        fam.equal("metadata() has the field", "%s of %d" % (TITLE[n], v), t, d[TITLE[n]], K(str(v)))
                    else:
                        fam.violated("metadata() has the field", TITLE[n], "STLBinaryReader::metadata has no " + TITLE[n])


@family("numbers", 200)
def f(fam):
    for n in NUMBER:
        d = digits("d" + n, LEN[n])
        for s in read(fam, n, stlbin.stl([], **{n: d}), num(d)):
            w = s.mem["EXPECT"]
            # an "infinite" number of rows is taken as 12, which EBU Tech 3360 recommends
            for inf in ((True, False) if n == "MNR" else (False,)):
                t = s.copy()
                if n != "MNR" or t.assume(eq(w, 99), inf):
                    fam.equal(RULE, "MNR 99" if inf else n, t, t.result.f[NUMBER[n]], 12 if inf else w)
    for n, v, w in (("TNS", "   12", 12), ("MNC", " 4", 4), ("MNR", "09", 9), ("TNG", "  1", 1), ("CPN", "865", 865)):
        for s in read(fam, "%s %r" % (n, v), stlbin.stl([], **{n: K(v)})):
            fam.equal(RULE, "%s %r" % (n, v), s, s.result.f[NUMBER[n]], w)
    # all different at once
    v = {"CPN": "860", "TNS": "04321", "TNG": "017", "MNC": "41", "MNR": "13", "TND": "5", "DSN": "4"}
    for s in read(fam, "all", stlbin.stl([], **v)):
        for n in v:
            fam.equal(RULE, n + " of all", s, s.result.f[NUMBER[n]], int(v[n]))


@family("number of blocks", 200)
def f(fam):
    for n in (0, 1, 2, 5, 12):
        for w in ("%05d", "%5d"):
            label = "TNB %r" % (w % n)
            data = cat(stlbin.gsi(TNB=w % n), *([stlbin.tti(K("x"), tci=(0, 0, i, 0), tco=(0, 0, i + 1, 0)) for i in range(n)] + [K("not part of the file")]))
            for s in read(fam, label, data):
                fam.equal(RULE, label, s, s.result.f["tti_blocks"], n)
                fam.equal("as many blocks are read as the header says", label, s, len(raws(s)), n)


CODED = [("DSC", "DisplayStandard", "display_standard"), ("CCT", "LanguageGroup", "language_group"), ("LC", "Language", "language"),
         ("TCS", "TimecodeStatus", "timecode_status")]


@family("codes", 300)
def f(fam):
    for n, e, m in CODED:
        vals = ebu.enumerators(fam.I, e)
        for name, code in sorted(ebu.CODES[e].items()):
            for s in read(fam, name, stlbin.stl([], **{n: code})):
                fam.equal(RULE, name, s, s.result.f[m], vals[name])


@family("frame rates")
def f(fam):
    for c, r, shown in (("STL23.01", Fraction(23976, 1000), "23.976"), ("STL24.01", 24, "24"), ("STL25.01", 25, "25"), ("STL30.01", 30, "30")):
        for s in read(fam, c, stlbin.stl([], DFC=c)):
            fam.equal(RULE, c, s, s.result.f["frame_rate"], r)
            for t, d in metadata(fam, c, s):
                fam.equal("metadata() has the field", c, t, d.get("Frame rate"), K(shown))
