"""Abstract inputs, and views of abstract outputs, shared by the checks."""
from fractions import Fraction

import models
from dom import *
from state import *

DIG = "0123456789"
PRINT = list(range(32, 127))


def some(v):
    return Opt(True, v)


def opt(v):
    return NONE if v is None else Opt(True, v)


# ---------------------------------------------------------------- values of the public classes

def rational(n, d):
    return Rec("sub::Rational", {"numerator": n, "denominator": d})


def time_rec(s, f=0, rate=None):
    return Rec("sub::Time", {"_seconds": s, "_frames": f, "_rate": NONE if rate is None else some(rational(*rate))})


def colour(r=1, g=1, b=1):
    return Rec("sub::Colour", {"r": r, "g": g, "b": b})


def font_size(proportional=None, points=None):
    return Rec("sub::FontSize", {"_proportional": opt(proportional), "_points": opt(points)})


def vpos(proportional=None, line=None, lines=None, reference=None):
    return Rec("sub::VerticalPosition", {"proportional": opt(proportional), "line": opt(line), "lines": opt(lines),
                                         "reference": opt(reference)})


def hpos(reference=1, proportional=0):
    return Rec("sub::HorizontalPosition", {"reference": reference, "proportional": proportional})


def raw(text, **k):
    f = {"text": text, "font": NONE, "font_size": font_size(), "effect": NONE, "effect_colour": NONE, "colour": colour(),
         "bold": 0, "italic": 0, "underline": 0, "horizontal_position": hpos(), "vertical_position": vpos(),
         "from": time_rec(0), "to": time_rec(0), "fade_up": NONE, "fade_down": NONE}
    f.update(k)
    return Rec("sub::RawSubtitle", f)


def block(text, **k):
    f = {"text": text, "font": NONE, "font_size": font_size(), "effect": NONE, "effect_colour": NONE, "colour": colour(),
         "bold": 0, "italic": 0, "underline": 0}
    f.update(k)
    return Rec("sub::Block", f)


def line(blocks, vp=None, hp=None):
    return Rec("sub::Line", {"horizontal_position": hp or hpos(), "vertical_position": vp or vpos(), "blocks": Vec(blocks)})


def subtitle(lines, f, t, up=None, down=None):
    return Rec("sub::Subtitle", {"from": f, "to": t, "fade_up": opt(up), "fade_down": opt(down), "lines": Vec(lines)})


# ---------------------------------------------------------------- pieces of text

def safe(exclude=""):
    """printing ASCII and every byte >= 0x80 but the lead byte of U+2028/U+202B, without some characters"""
    return [c for c in range(32, 256) if c != 127 and c != 0xe2 and chr(c) not in exclude]


def digits(name, n):
    return chars(name, n, DIG)


def num(d):
    """the number which a string of digits stands for"""
    v = 0
    for s in d.segs:
        if s[0] == "k":
            for c in s[1]:
                v = add(mul(v, 10), ord(c) - 48)
        else:
            v = add(mul(v, 10), sub(bv_num(s[1]), 48))
    return v


class Cue(object):
    """an abstract time of a cue: source text and the value it stands for"""

    def __init__(self, name, h=2, ms=3, sep=","):
        self.h, self.m, self.s, self.ms = (digits(name + "h", h), digits(name + "m", 2), digits(name + "s", 2), digits(name + "x", ms))
        self.text = cat(self.h, ":", self.m, ":", self.s, sep, self.ms)

    def hms(self, scale=1):
        """the value of a time given in hours, minutes, seconds and milliseconds (a rate of 1000 frames a second)"""
        return time_rec(add(mul(num(self.h), 3600), add(mul(num(self.m), 60), num(self.s))), mul(num(self.ms), scale), (1000, 1))


# ---------------------------------------------------------------- views of results

def raws(st):
    """the list of RawSubtitle of a reader object"""
    r = st.result
    v = r.f.get("_subs") if isinstance(r, Rec) else None
    if not isinstance(v, Vec):
        return None
    return v.items


FMT = ("bold", "italic", "underline", "colour")


def key(v):
    return repr(v)


def runs(subs, fmt=FMT, place=lambda s: s.f["vertical_position"].f["line"]):
    """cues -> lines -> runs of equal formatting; empty pieces vanish and equal neighbours are joined"""
    out = []
    for s in subs:
        t = s.f["text"]
        if isinstance(t, Str) and not t.segs:
            continue
        when = (s.f["from"], s.f["to"])
        ln = place(s)
        f = tuple(s.f[x] for x in fmt)
        if not out or key(out[-1][0]) != key(when):
            out.append((when, []))
        lines = out[-1][1]
        if not lines or key(lines[-1][0]) != key(ln):
            lines.append((ln, []))
        rr = lines[-1][1]
        if rr and key(rr[-1][1]) == key(f):
            rr[-1] = (cat(rr[-1][0], t), f)
        else:
            rr.append((t, f))
    return out


def texts(cues):
    return [[cat(*[r[0] for r in l[1]]) for l in c[1]] for c in cues]


def times(cues):
    return [c[0] for c in cues]


def formats(cues):
    return [[l[1] for l in c[1]] for c in cues]


def line_numbers(cues):
    return [[l[0] for l in c[1]] for c in cues]
