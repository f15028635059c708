"""Abstract EBU STL (Tech 3264) files: built from the specification of the format"""
from dom import *
from inputs import *
from state import *
import models

# name, offset, length: Tech 3264-E, General Subtitle Information block
GSI = [
    ("CPN", 0, 3), ("DFC", 3, 8), ("DSC", 11, 1), ("CCT", 12, 2), ("LC", 14, 2), ("OPT", 16, 32), ("OET", 48, 32),
    ("TPT", 80, 32), ("TET", 112, 32), ("TN", 144, 32), ("TCD", 176, 32), ("SLR", 208, 16), ("CD", 224, 6), ("RD", 230, 6),
    ("RN", 236, 2), ("TNB", 238, 5), ("TNS", 243, 5), ("TNG", 248, 3), ("MNC", 251, 2), ("MNR", 253, 2), ("TCS", 255, 1),
    ("TCP", 256, 8), ("TCF", 264, 8), ("TND", 272, 1), ("DSN", 273, 1), ("CO", 274, 3), ("PUB", 277, 32), ("EN", 309, 32),
    ("ECD", 341, 32), ("SPARE", 373, 75), ("UDA", 448, 576),
]

DEFAULT = {"CPN": "850", "DFC": "STL25.01", "DSC": "0", "CCT": "00", "LC": "09", "TNB": "00000", "TNS": "00001", "TNG": "001",
           "MNC": "38", "MNR": "23", "TCS": "1", "TCP": "00000000", "TCF": "00000000", "TND": "1", "DSN": "1", "CO": "GBR",
           "CD": "201231", "RD": "201231", "RN": "01"}


def gsi(**k):
    out = []
    for n, o, l in GSI:
        v = k.get(n, DEFAULT.get(n, ""))
        if not isinstance(v, Str):
            v = K(v.ljust(l))
        out.append(v)
    return cat(*out)


def byte(n):
    """one byte with a known or unknown value"""
    if isinstance(n, Str):
        return n
    return K(chr(n))


def field(name, n, cs=PRINT):
    return opaque(name, cs, 0, n)


def tti(text, tci=(0, 0, 1, 0), tco=(0, 0, 2, 0), vp=10, jc=2, cf=0, sgn=0, sn=0, ebn=0xff, cs=0):
    """text: the text field without its padding"""
    n = text.len()
    p = [byte(sgn), byte(sn) if isinstance(sn, Str) else K(chr(sn & 255) + chr(sn >> 8)), byte(ebn), byte(cs)]
    p += [byte(x) for x in tci] + [byte(x) for x in tco]
    p += [byte(vp), byte(jc), byte(cf)]
    pad = sub(112, n)
    return cat(*(p + [text, K("\x8f" * int(pad))]))


def bytenum(s):
    """value of a one-byte string"""
    g = s.segs[0]
    if g[0] == "k":
        return ord(g[1])
    return bv_num(g[1]) if isinstance(g[1], BV) else g[1]


def stl(blocks, **k):
    return cat(gsi(TNB="%05d" % len(blocks), **k), *blocks)


def read_binary(fam, label, data, expect=()):
    key = fam.fn("sub::STLBinaryReader::STLBinaryReader", "Si")
    st = fam.I.start()
    st.mem["S"] = models.istream(data)
    return fam.make(label, key, [Ref("S")], st=st, expect=expect)


CODE = {"bold": None, ("italic", 1): "\x80", ("italic", 0): "\x81", ("underline", 1): "\x82", ("underline", 0): "\x83"}
COLOURS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1)]

LETTERS = [ord(c) for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .,!?-"]
