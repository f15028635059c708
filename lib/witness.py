"""Concretisation of abstract values.

A difference between two abstract values is only reported when some member of the concretisation of the
abstract state tells them apart: an assignment of the atoms (unknown numbers, unknown bytes, contents of
opaque strings) which satisfies every fact of the state.  Nothing of the program is executed here.
"""
import math
import os
import random
import re
from fractions import Fraction

import dom
from dom import *
from state import *


class Unknown(Exception):
    pass


class Free(Exception):
    """a condition which may be true or false whatever the input is"""


# a fact which cannot be evaluated does not hold: without it there might be no such member
STRICT = not os.environ.get("VERIF_LAX")


class Model(object):
    def __init__(self, rnd, st):
        self.rnd = rnd
        self.st = st
        self.subs = dict(st.subs)
        self.num = {}
        self.txt = {}
        self.memo = {}

    # ---- base atoms
    def content(self, sid):
        if sid.key[0] == "dec":
            return self.decimal(sid)
        t = self.txt.get(sid)
        if t is None:
            if sid.fixed is not None:
                n = int(sid.fixed)
            elif sid.lenatom() in self.subs:
                n = max(0, int(self.n(self.subs[sid.lenatom()])))
            else:
                lo, hi = self.st.bound(sid.lenatom())
                lo = int(lo or 0)
                hi = int(hi) if hi is not None else lo + 40
                n = self.rnd.choice([lo, lo + 1, min(hi, lo + 2), self.rnd.randint(lo, max(lo, min(hi, lo + 12)))])
                n = max(lo, min(n, hi))
            t = [self.char(sid) for _ in range(n)]
            self.txt[sid] = t
        return t

    def decimal(self, sid):
        """the digits of a number: they follow from its value"""
        x, width, pad = sid.key[1:4]
        v = self.n(x)
        if v != int(v):
            raise Unknown("digits of %s" % (v,))
        t = str(abs(int(v)))
        if pad == "0":
            t = "-" * (v < 0) + t.rjust(width - (v < 0), "0")
        else:
            t = ("-" * (v < 0) + t).rjust(width, pad)
        return [ord(c) for c in t]

    def char(self, sid):
        if sid.wide:
            return self.rnd.choice([0x41, 0x42, 0x2603, 0x1F600, self.rnd.randint(0x4e00, 0x9fff)])
        cs = mask_chars(sid.mask)
        return self.rnd.choice(cs)

    def resize(self, sid, n):
        if sid.key[0] == "dec":
            if isinstance(sid.key[1], Poly) and 1 <= n <= 18:
                self.repair(("eq", sub(sid.key[1], self.rnd.randint(10 ** (int(n) - 1), 10 ** int(n) - 1)), True))
            return True
        t = self.content(sid)
        if sid.fixed is not None:
            return False
        n = int(n)
        if n < 0 or n > 5000:
            return False
        self.memo = {}
        while len(t) < n:
            t.append(self.char(sid))
        del t[n:]
        return True

    def base(self, at):
        v = self.num.get(at)
        if v is None and at in self.subs:
            return self.n(self.subs[at])
        if v is None:
            v = self.pick(at)
            self.num[at] = v
        return v

    def pick(self, at):
        k = at.key[0]
        if k == "byte":
            return self.rnd.choice(mask_chars(self.st.mask(at)) or [0])
        lo, hi = self.st.bound(at)
        c = [0, 1, 2, 3, 7, 59, 60, 61, 3599, 3600, 3661, self.rnd.randint(0, 100), self.rnd.randint(0, 100000)]
        c = [x for x in c if (lo is None or x >= lo) and (hi is None or x <= hi)]
        for b in (lo, hi):
            if b is not None:
                c += [b, b]
        if lo is not None and hi is not None and lo <= hi:
            if at.isint:
                c += [self.rnd.randint(math.ceil(lo), math.floor(hi)) for _ in range(4)]
            else:
                c += [lo + (hi - lo) * Fraction(self.rnd.randint(0, 997), 997) for _ in range(6)]
        elif lo is not None:
            c += [lo + 1, lo + self.rnd.randint(0, 50)]
        v = self.rnd.choice(c) if c else 0
        return int(v) if at.isint and v == int(v) else v

    # ---- numbers
    def n(self, x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, (int, Fraction)):
            return x
        if isinstance(x, Poly):
            r = 0
            for m, c in x.t:
                p = c
                for aid, e in m:
                    v = self.a(dom._atom_list[aid])
                    if e < 0:
                        if v == 0:
                            raise Unknown("division by zero")
                        p = p * Fraction(1) / (Fraction(v) ** (-e))
                    else:
                        p = p * v ** e
                r = r + p
            return r
        if isinstance(x, BV):
            return x.tbl[self.a(x.a)]
        if isinstance(x, Cond):
            return int(self.c(x))
        raise Unknown(repr(x))

    def a(self, at):
        v = self.memo.get(at)
        if v is None:
            v = self.a0(at)
            self.memo[at] = v
        return v

    def a0(self, at):
        k = at.key
        t = k[0]
        if t in ("sym", "tau", "gen", "byte", "wch0"):
            return self.base(at)
        if t == "len":
            return len(self.content(k[1]))
        if t in ("ch", "wch"):
            i = self.n(k[2])
            c = self.content(k[1])
            if i != int(i) or not 0 <= i < len(c):
                raise Unknown("outside")
            return c[int(i)]
        if t == "bv":
            return self.a(k[1])
        if t == "bvf":
            return k[2][self.a(k[1])]
        if t == "idiv":
            a, b = self.n(k[1]), self.n(k[2])
            if b == 0:
                raise Unknown("division by zero")
            return idiv(int(a), int(b))
        if t == "trunc":
            return math.trunc(self.n(k[1]))
        if t == "floor":
            return math.floor(self.n(k[1]))
        if t == "rint":
            return round(Fraction(self.n(k[1])))
        if t == "round":
            x = self.n(k[1])
            return math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2))
        if t == "wrap":
            w, u = k[1], k[2]
            x = int(self.n(k[3])) & ((1 << w) - 1)
            if not u and x >> (w - 1):
                x -= 1 << w
            return x
        if t == "and":
            return int(self.n(k[1])) & int(self.n(k[2]))
        if t == "bits":
            return (int(self.n(k[1])) >> k[2]) & ((1 << (k[3] - k[2])) - 1)
        if t == "inv":
            x = self.n(k[1])
            if x == 0:
                raise Unknown("division by zero")
            return Fraction(1) / x
        if t == "gcd":
            return math.gcd(int(self.n(k[1])), int(self.n(k[2])))
        if t == "single":
            v = self.n(k[1])
            return dom.single(v) - v
        if t == "num10":
            s = self.s(k[1])
            if not s or any(not 48 <= c <= 57 for c in s):
                raise Unknown("not digits")
            return int("".join(map(chr, s)))
        if t == "trim":
            s = self.s(k[1])
            if k[3] == "r":
                s = s[::-1]
            n = 0
            while n < len(s) and k[2] >> (s[n] & 255) & 1:
                n += 1
            return n
        if t == "findpos":
            for i, c in enumerate(self.s(k[1])):
                if k[2] >> (c & 255) & 1:
                    return i
            raise Unknown("not found")
        if t == "rfindpos":
            s = self.s(k[1])
            for i in range(len(s) - 1, -1, -1):
                if k[2] >> (s[i] & 255) & 1:
                    return i
            raise Unknown("not found")
        if t in ("lex", "lexp", "float"):
            v = number_prefix("".join(map(chr, self.s(k[1]))), t == "float")
            if v is None:
                raise Unknown("not a number")
            return v
        raise Unknown(t)

    # ---- strings
    def s(self, x):
        out = []
        for g in x.segs:
            if g[0] == "k":
                out.extend(ord(c) for c in g[1])
            elif g[0] == "v":
                v = g[1]
                if isinstance(v, tuple):
                    raise Unknown("value")
                out.append(int(self.n(v)))
            elif g[0] == "s":
                c = self.content(g[1])
                lo, hi = self.n(g[2]), self.n(g[3])
                if not 0 <= lo <= hi <= len(c):
                    raise Unknown("slice outside")
                p = c[int(lo):int(hi)]
                if g[4] is not None:
                    if not isinstance(g[4], tuple) or len(g[4]) != 256:
                        raise Unknown("transformed text")
                    p = [g[4][b] & 255 for b in p]
                out.extend(p)
            elif g[0] == "r":
                n = self.n(g[2])
                if n < 0 or n > 10 ** 6:
                    raise Unknown("run")
                out.extend([g[1]] * int(n))
            else:
                raise Unknown("undefined bytes")
        return out

    def c(self, x):
        if isinstance(x, bool):
            return x
        k = x.kind
        if k == "lt":
            r = self.n(x.a) < 0
        elif k == "eq":
            r = self.n(x.a) == 0
        elif k == "bm":
            r = bool(x.b >> self.a(x.a) & 1)
        else:
            r = self.op(x.a)
        return r != x.neg

    def op(self, key):
        if isinstance(key, tuple):
            if key[0] == "streq":
                return self.s(key[1]) == self.s(key[2])
            if key[0] == "has":
                return any(key[2] >> (c & 255) & 1 for c in self.s(key[1]))
            if key[0] == "isnum":
                s = "".join(map(chr, self.s(key[1])))
                return bool(s) and s.lstrip("+-").isdigit() and len(s) - len(s.lstrip("+-")) <= 1
            if key[0] in ("numprefix", "fltprefix"):
                return number_prefix("".join(map(chr, self.s(key[1]))), key[0] == "fltprefix") is not None
            if key[0] in ("opened", "flushed", "exists"):
                raise Free("the environment decides")
        raise Unknown("op")

    # ---- facts
    def violated(self):
        """the facts which do not hold (list of (kind, payload))"""
        st = self.st
        bad = []
        self.skipped = 0

        def chk(f, what):
            try:
                if not f():
                    bad.append(what)
            except Free:
                pass
            except Unknown:
                self.skipped += 1
                if STRICT:
                    bad.append(("unknown", what))
        for at, (lo, hi) in st.bounds.items():
            chk(lambda: (lo is None or self.a(at) >= lo) and (hi is None or self.a(at) <= hi), ("bound", at))
        for at, v in self.subs.items():
            # (what is not derived from something else has the value of its substitute anyway)
            if at.key[0] not in ("sym", "tau", "gen", "byte", "wch0"):
                chk(lambda: self.a(at) == self.n(v), ("eq", sub(P(at), v), True))
        for p, strict in st.lins:
            chk(lambda: self.n(p) > 0 if strict else self.n(p) >= 0, ("lin", p))
        for at, m in st.cs.items():
            chk(lambda: bool(m >> self.a(at) & 1), ("cs", at, m))
        for k, v in st.eqs.items():
            if isinstance(k, tuple) and k[0] == "lt":
                chk(lambda: (self.n(k[1]) < 0) == v, ("lin", k[1]))
            elif isinstance(k, tuple) and k[0] == "eq":
                chk(lambda: (self.n(k[1]) == 0) == v, ("eq", k[1], v))
            else:
                chk(lambda: self.op(k) == v, ("op", k, v))
        for g in st.alts:
            w = self.group(g)
            if w:
                bad.append(self.rnd.choice(w))
        return bad

    def group(self, g):
        """no alternative of the group holds: the facts which are wrong in some alternative; otherwise ()"""
        all_ = []
        for alt in g:
            bad = []

            def chk(f, what):
                try:
                    if not f():
                        bad.append(what)
                except Unknown:
                    bad.append(what)
            for at, (lo, hi) in alt.bounds.items():
                chk(lambda: (lo is None or self.a(at) >= lo) and (hi is None or self.a(at) <= hi), ("bound", at))
            for p, strict in alt.lins:
                chk(lambda: self.n(p) > 0 if strict else self.n(p) >= 0, ("lin", p))
            for at, m in alt.cs.items():
                chk(lambda: bool(m >> self.a(at) & 1), ("cs", at, m))
            for k, v in alt.eqs.items():
                if isinstance(k, tuple) and k[0] == "lt":
                    chk(lambda: (self.n(k[1]) < 0) == v, ("lin", k[1]))
                elif isinstance(k, tuple) and k[0] == "eq":
                    chk(lambda: (self.n(k[1]) == 0) == v, ("eq", k[1], v))
                else:
                    chk(lambda: self.op(k) == v, ("op", k, v))
            for at, v in alt.subs:
                chk(lambda: self.a(at) == self.n(v), ("eq", sub(P(at), v), True))
            for h in alt.alts:
                w = self.group(h)
                if w:
                    bad.append(self.rnd.choice(w))
            if not bad:
                return ()
            all_.append(bad)
        return self.rnd.choice(all_)

    def repair(self, f):
        rnd = self.rnd
        self.memo_clear()
        if f[0] == "cs":
            at, m = f[1], f[2]
            if at.key[0] in ("ch", "wch"):
                try:
                    i = int(self.n(at.key[2]))
                    c = self.content(at.key[1])
                    if 0 <= i < len(c):
                        ch = [x for x in mask_chars(m & at.key[1].mask)]
                        if ch:
                            c[i] = rnd.choice(ch)
                except Unknown:
                    pass
            elif at.key[0] == "byte":
                self.num[at] = rnd.choice(mask_chars(m & base_mask(at)) or [0])
        elif f[0] == "bound" and f[1].key[0] == "len":
            lo, hi = self.st.bound(f[1])
            self.resize(f[1].key[1], rnd.choice([x for x in (lo, hi) if x is not None and x < 4000]))
        else:
            ats = []
            collect_atoms(f[1], ats)
            if not ats:
                return
            at = rnd.choice(ats)
            if at.key[0] == "len":
                n = len(self.content(at.key[1]))
                self.resize(at.key[1], n + rnd.choice([-3, -2, -1, 1, 2, 3, 8, rnd.randint(-120, 120)]))
            elif at.key[0] in ("ch", "wch"):
                try:
                    i = int(self.n(at.key[2]))
                    c = self.content(at.key[1])
                    if 0 <= i < len(c):
                        c[i] = self.char(at.key[1])
                        co = [k for q, k in f[1].t if q == ((at.id, 1),)] if f[0] == "eq" and isinstance(f[1], Poly) else []
                        if co:
                            # the character which makes it so
                            z = c[i] - Fraction(self.n(f[1])) / co[0]
                            if z == int(z) and (at.key[1].wide or 0 <= z < 256 and at.key[1].mask >> int(z) & 1):
                                c[i] = int(z)
                except Unknown:
                    pass
            elif at.key[0] in ("sym", "tau", "gen", "byte"):
                self.num.pop(at, None)
                d = divided(f[1], at)
                if d and at.isint and rnd.random() < 0.5:
                    # next to a multiple of what it is divided by
                    x, k = rnd.choice(d)
                    self.num[at] = 0
                    self.memo_clear()
                    try:
                        z = int(math.floor(self.n(x)))
                        lo, hi = self.st.bound(at)
                        lo, hi = 0 if lo is None else math.ceil(lo), 100 * k if hi is None else math.floor(hi)
                        v = rnd.choice([0, -1, 1]) - z + k * rnd.randint((lo + z) // k, (hi + z) // k)
                        self.num[at] = min(max(v, lo), hi)
                    except (Unknown, ValueError):
                        self.num.pop(at, None)
                elif f[0] in ("lin", "eq") and isinstance(f[1], Poly) and rnd.random() < 0.6:
                    # solve for this atom when it occurs linearly
                    co = None
                    try:
                        for m, c in f[1].t:
                            if m == ((at.id, 1),):
                                co = c
                        if co:
                            self.num[at] = 0
                            self.memo_clear()
                            z = -Fraction(self.n(f[1])) / co
                            lo, hi = self.st.bound(at)
                            z = z + (0 if f[0] == "eq" else rnd.choice([0, 1, -1]))
                            if at.isint:
                                z = math.floor(z)
                            if lo is not None:
                                z = max(z, lo)
                            if hi is not None:
                                z = min(z, hi)
                            self.num[at] = z
                    except Unknown:
                        self.num.pop(at, None)
            elif at.key[0] == "txt":
                self.txt.pop(at.key[1], None)
        self.memo_clear()

    def memo_clear(self):
        self.memo = {}


class _T(object):
    def __init__(self, key):
        self.key = key
        self.isint = True
        self.id = -1


def divided(x, at):
    """(numerator, divisor) of the divisions by constants in x in which at is added to something"""
    out = []

    def go(y):
        if isinstance(y, Poly):
            for m, _ in y.t:
                for aid, _e in m:
                    go(dom._atom_list[aid])
        elif isinstance(y, Atom):
            if y.key[0] in ("idiv", "imod") and isinstance(y.key[1], Poly) and isconst(y.key[2]) and y.key[2] > 1:
                if any(m == ((at.id, 1),) and c == 1 for m, c in y.key[1].t):
                    out.append((y.key[1], int(y.key[2])))
            for z in y.key[1:]:
                go(z)
        elif isinstance(y, tuple):
            for z in y:
                go(z)
    go(x)
    return out


def collect_atoms(x, out):
    if isinstance(x, Poly):
        for m, _ in x.t:
            for aid, _e in m:
                collect_atoms(dom._atom_list[aid], out)
    elif isinstance(x, BV):
        collect_atoms(x.a, out)
    elif isinstance(x, Atom):
        if x.key[0] in ("sym", "tau", "gen", "byte", "len", "ch", "wch"):
            out.append(x)
            if x.key[0] in ("ch", "wch"):
                collect_atoms(x.key[2], out)
        else:
            for y in x.key[1:]:
                collect_atoms(y, out)
    elif isinstance(x, Str):
        for g in x.segs:
            for y in g[1:]:
                collect_atoms(y, out)
            if g[0] == "s":
                out.append(_T(("txt", g[1])))
    elif isinstance(x, tuple):
        for y in x:
            collect_atoms(y, out)
    elif isinstance(x, Sid):
        if x.fixed is None:
            out.append(x.lenatom())
        out.append(_T(("txt", x)))


def models(st, n=24, seed=1, tries=60):
    """up to n members of the concretisation of st"""
    rnd = random.Random(seed)
    got = 0
    for _ in range(max(n * 4, 12)):
        m = Model(rnd, st)
        ok = False
        for _t in range(tries):
            bad = m.violated()
            if not bad:
                ok = True
                break
            m.repair(rnd.choice(bad))
        if ok:
            yield m
            got += 1
            if got >= n:
                return


def number_prefix(t, fl):
    """what scanf would make of the text, or None"""
    m = re.match(r"[ \t-\r]*[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?" if fl else r"[ \t-\r]*[+-]?\d+", t)
    if m is None or fl and m.group(3) and len(m.group(3)) > 5:
        return None
    v = Fraction(m.group(0).strip())
    return v if fl else int(v)


def feasible(st, seed=1):
    for m in models(st, 1, seed):
        return m
    return None


# ---------------------------------------------------------------- comparison

class Differ(Exception):
    def __init__(self, path, a, b):
        Exception.__init__(self, path)
        self.path = path
        self.a = a
        self.b = b


class _Shape(object):
    """stands for a value whose representation is not the one that the oracle is written in: nothing can be said"""

    def __repr__(self):
        return "?"


SHAPE = _Shape()


def conc(m, v):
    """a concrete image of an abstract value under model m"""
    if isinstance(v, Rec):
        return {k: conc(m, x) for k, x in v.f.items()}
    if isinstance(v, Opt):
        e = v.e
        if not isinstance(e, bool):
            e = m.c(e)
        return ("some", conc(m, v.v)) if e else None
    if isinstance(v, Vec):
        return [conc(m, x) for x in v.items]
    if isinstance(v, Str):
        return m.s(v)
    if v is SHAPE:
        raise Unknown("another representation")
    if isinstance(v, (Poly, BV, int, Fraction, bool)):
        return m.n(v)
    if isinstance(v, Cond):
        return int(m.c(v))
    if isinstance(v, (tuple, list)):
        return [conc(m, x) for x in v]
    if v is None:
        return None
    if isinstance(v, Many):
        raise Unknown("many")
    raise Unknown(repr(v)[:40])


def same_value(st, a, b, path=""):
    """True when a and b are proved equal in every member of st; otherwise yields where they may differ"""
    out = []

    def go(x, y, p):
        if x is y:
            return
        if isinstance(x, bool):
            x = int(x)
        if isinstance(y, bool):
            y = int(y)
        if isinstance(x, BV):
            x = bv_num(x)
        if isinstance(y, BV):
            y = bv_num(y)
        if isinstance(x, Rec) and isinstance(y, Rec):
            for k in sorted(set(x.f) | set(y.f)):
                if k not in x.f or k not in y.f:
                    out.append((p + "." + k, SHAPE, SHAPE))
                else:
                    go(x.f[k], y.f[k], p + "." + k)
            return
        if isinstance(x, Opt) and isinstance(y, Opt):
            if isinstance(x.e, bool) and isinstance(y.e, bool):
                if x.e != y.e:
                    out.append((p, x, y))
                elif x.e:
                    go(x.v, y.v, p)
                return
            out.append((p, x, y))
            return
        if isinstance(x, Vec) and isinstance(y, Vec):
            if len(x.items) != len(y.items):
                out.append((p + ".size", x, y))
                return
            for i, (u, w) in enumerate(zip(x.items, y.items)):
                go(u, w, "%s[%d]" % (p, i))
            return
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            if len(x) != len(y):
                out.append((p + ".size", x, y))
                return
            for i, (u, w) in enumerate(zip(x, y)):
                go(u, w, "%s[%d]" % (p, i))
            return
        if isinstance(x, Str) and isinstance(y, Str):
            if x == y:
                return
            try:
                if st.copy().streq(x, y) is True:
                    return
            except (NeedSplit, Imprecise):
                pass
            out.append((p, x, y))
            return
        if isnum(x) and isnum(y):
            if st.known(eq(sub(x, y), 0)) is True:
                return
            out.append((p, x, y))
            return
        if type(x) is type(y) and x == y:
            return
        if type(x) is not type(y) and not (x is None or y is None or isinstance(x, Cond) or isinstance(y, Cond)):
            x = y = SHAPE
        out.append((p, x, y))
    go(a, b, path)
    return out


def compare(st, got, want, seed=1, tol=None):
    """('same', None) | ('differ', (where, got, want, witness)) | ('undecided', where)"""
    want = st.current(want)
    d = same_value(st, got, want)
    if not d:
        return "same", None
    unknown = None
    n = 0
    for m in models(st, 40, seed):
        n += 1
        for p, x, y in d:
            try:
                cx, cy = conc(m, x), conc(m, y)
            except Unknown as u:
                unknown = "%s: %s" % (p, u)
                continue
            if not close(cx, cy, tol):
                return "differ", (p, x, y, show(cx), show(cy), m)
    return "undecided", (d[0][0], d[0][1], d[0][2], unknown or ("no difference in %d members" % n))


def close(a, b, tol):
    if tol is not None and isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return abs(a - b) <= tol
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return a == b


def show(x):
    if isinstance(x, list) and x and all(isinstance(c, int) and 0 <= c < 0x110000 for c in x):
        return repr("".join(map(chr, x)))[:120]
    if isinstance(x, Fraction):
        return "%g" % float(x)
    return repr(x)[:160]
