"""Abstract domain: polynomials over atoms, linear facts, byte tables, segmented strings.

Numbers    int | Fraction | Poly        (polynomials with rational coefficients over atoms)
Bytes      BV(atom, table)              (any function of one unknown byte, as a 256 entry table)
Booleans   bool | Cond
Strings    Str(segments)                (constant pieces, single symbolic characters, slices of
                                         opaque segments with a character set, runs, undefined bytes)
"""
import functools
import math
import struct
from fractions import Fraction

ALLMASK = (1 << 256) - 1


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


@functools.lru_cache(maxsize=4096)
def mask_chars(m):
    return [i for i in range(256) if m >> i & 1]


# ---------------------------------------------------------------- atoms

class Atom(object):
    __slots__ = ("id", "key", "isint", "lo", "hi")

    def __repr__(self):
        return fmt_atom(self)


_atoms = {}
_atom_list = []


def single(v):
    """the nearest single precision number"""
    return Fraction(struct.unpack("f", struct.pack("f", float(v)))[0])


def atom(kind, *args, **kw):
    key = (kind,) + args
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atom_list)
        a.key = key
        a.isint = kw.get("isint", True)
        a.lo = kw.get("lo")
        a.hi = kw.get("hi")
        _atoms[key] = a
        _atom_list.append(a)
    return a


def fmt_atom(a):
    k = a.key
    if k[0] in ("sym", "tau", "gen"):
        return str(k[1])
    if k[0] == "len":
        return "len(%s)" % (k[1],)
    if k[0] == "byte":
        return "byte(%s)" % (k[1],)
    if k[0] == "bvf":
        return "f%d(%s)" % (hash(k[2]) % 1000, k[1])
    return "%s(%s)" % (k[0], ", ".join(str(x) for x in k[1:]))


# ---------------------------------------------------------------- polynomials

class Poly(object):
    __slots__ = ("t", "isint", "_h", "_lin", "__weakref__")

    def __repr__(self):
        return fmt_num(self)

    def atoms(self):
        s = set()
        for mono, _ in self.t:
            for aid, _e in mono:
                s.add(aid)
        return s


_polys = {}


def _mk(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return 0
    if len(items) == 1 and items[0][0] == ():
        c = items[0][1]
        if isinstance(c, Fraction) and c.denominator == 1:
            return int(c)
        return c
    items = tuple(sorted((m, int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in items))
    p = _polys.get(items)
    if p is None:
        p = Poly()
        p.t = items
        p._h = hash(items)
        p._lin = None
        p.isint = all(
            (isinstance(c, int)) and all(_atom_list[a].isint and e > 0 for a, e in m) for m, c in items)
        _polys[items] = p
    return p


def P(a):
    return _mk({((a.id, 1),): 1})


def sym(name, isint=True, lo=None, hi=None):
    a = atom("sym", name, isint=isint, lo=lo, hi=hi)
    if (a.isint, a.lo, a.hi) != (isint, lo, hi):
        raise ValueError("the unknown number %s is declared twice" % (name,))
    return P(a)


def terms(x):
    if isinstance(x, Poly):
        return dict(x.t)
    return {(): x} if x != 0 else {}


def isnum(x):
    return isinstance(x, (int, Fraction, Poly)) and not isinstance(x, bool)


def isconst(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def nint(x):
    if isinstance(x, Poly):
        return x.isint
    if isinstance(x, Fraction):
        return x.denominator == 1
    return True


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def add(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return norm(a + b)
    d = terms(a)
    for m, c in terms(b).items():
        d[m] = d.get(m, 0) + c
    return _mk(d)


def neg(a):
    if not isinstance(a, Poly):
        return -a
    return _mk({m: -c for m, c in a.t})


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e != 0))


def mul(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return norm(a * b)
    d = {}
    for m, c in terms(a).items():
        for n, e in terms(b).items():
            k = _mulmono(m, n)
            d[k] = d.get(k, 0) + c * e
    return _mk(d)


def fdiv(a, b):
    """real division"""
    if isconst(b):
        if b == 0:
            return P(atom("nan", isint=False))
        return mul(a, Fraction(1) / Fraction(b))
    if len(b.t) == 1:
        m, c = b.t[0]
        inv = _mk({tuple((x, -e) for x, e in m): Fraction(1) / Fraction(c)})
        return mul(a, inv)
    return mul(a, P(atom("inv", b, isint=False)))


def trunc_const(x):
    if isinstance(x, int):
        return x
    return int(x)      # Fraction -> truncates toward zero


def idiv(a, b, st=None):
    """C integer division"""
    if isconst(a) and isconst(b):
        if b == 0:
            return P(atom("nan"))
        q = abs(int(a)) // abs(int(b))
        return q if (a >= 0) == (b >= 0) else -q
    if isconst(b) and b == 1:
        return a
    if isconst(a) and a == 0:
        return 0
    # exact multiples come out of the division: (c*k*x + r) / c is not in general k*x + r/c in C
    # unless the signs agree; keep the quotient opaque but normalise the nested form (x/c)/d = x/(c*d)
    if isconst(b) and b > 1 and isinstance(a, Poly):
        if all(nint(Fraction(c) / b) for _, c in a.t) and a.isint:
            return mul(a, Fraction(1, b))
        if len(a.t) == 1 and a.t[0][1] == 1 and len(a.t[0][0]) == 1 and a.t[0][0][0][1] == 1:
            at = _atom_list[a.t[0][0][0][0]]
            if at.key[0] == "idiv" and isconst(at.key[2]) and at.key[2] > 0:
                return idiv(at.key[1], at.key[2] * b, st)
        if st is not None and st.nonneg(a):
            # split a = b*q + r with r the part whose coefficients are not multiples; valid when both
            # parts are non-negative
            q, r = {}, {}
            for m, c in a.t:
                if isinstance(c, int) and c % b == 0:
                    q[m] = c // b
                else:
                    r[m] = c
            if q:
                rp = _mk(r)
                if st.nonneg(rp):
                    return add(_mk(q), idiv(rp, b, st))
    lo = None
    return P(atom("idiv", a, b, lo=lo))


def imod(a, b, st=None):
    if isconst(a) and isconst(b):
        if b == 0:
            return P(atom("nan"))
        r = abs(int(a)) % abs(int(b))
        return r if a >= 0 else -r
    return sub(a, mul(b, idiv(a, b, st)))


def unop(name, a, isint=True):
    return P(atom(name, a, isint=isint))


def fmt_num(x):
    if isinstance(x, Poly):
        out = []
        for m, c in x.t:
            f = []
            for a, e in m:
                s = fmt_atom(_atom_list[a])
                f.append(s if e == 1 else "%s^%d" % (s, e))
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append("*".join(f))
            elif c == -1:
                out.append("-" + "*".join(f))
            else:
                out.append("%s*%s" % (c, "*".join(f)))
        return " + ".join(out).replace("+ -", "- ")
    return str(x)


def subst_num(x, a, v):
    """replace atom a by number v, including inside nested atoms"""
    if not isinstance(x, Poly):
        return x
    hit = False
    for m, _ in x.t:
        for aid, _e in m:
            if aid == a.id or atom_mentions(_atom_list[aid], a):
                hit = True
    if not hit:
        return x
    r = 0
    for m, c in x.t:
        t = c
        for aid, e in m:
            at = _atom_list[aid]
            if at is a:
                y = v
            else:
                y = subst_atom(at, a, v)
            if e > 0:
                for _ in range(e):
                    t = mul(t, y)
            else:
                for _ in range(-e):
                    t = fdiv(t, y)
        r = add(r, t)
    return r


_mention_cache = {}


def _mentions(x, a):
    if isinstance(x, Poly):
        return any(aid == a.id or atom_mentions(_atom_list[aid], a) for m, _ in x.t for aid, _e in m)
    if isinstance(x, Atom):
        return x is a or atom_mentions(x, a)
    if isinstance(x, BV):
        return x.a is a or atom_mentions(x.a, a)
    if isinstance(x, Str):
        return any(_mentions(y, a) for s in x.segs for y in s[1:])
    if isinstance(x, Sid):
        return _mentions(x.key, a)
    if isinstance(x, (tuple, list)):
        return any(_mentions(y, a) for y in x)
    if isinstance(x, Cond):
        return _mentions(x.a, a) or _mentions(x.b, a)
    return False


def atom_mentions(at, a):
    k = (at.id, a.id)
    r = _mention_cache.get(k)
    if r is None:
        r = any(_mentions(x, a) for x in at.key[1:])
        _mention_cache[k] = r
    return r


def subst_any(x, a, v):
    if isinstance(x, Poly):
        return subst_num(x, a, v)
    if isinstance(x, Atom):
        n = subst_atom(x, a, v)
        if isinstance(n, Poly) and len(n.t) == 1 and n.t[0][1] == 1 and len(n.t[0][0]) == 1:
            return _atom_list[n.t[0][0][0][0]]
        return x
    if isinstance(x, BV):
        n = subst_any(x.a, a, v)
        return x if n is x.a else BV(n, x.tbl)
    if isinstance(x, Str):
        return x.subst(a, v)
    if isinstance(x, Sid):
        nk = subst_any(x.key, a, v)
        if nk != x.key:
            return sid_for(nk, x.mask, x.wide, x.minlen, x.fixed)
        return x
    if isinstance(x, tuple) and not isinstance(x, Cond):
        return tuple(subst_any(y, a, v) for y in x)
    if isinstance(x, Cond):
        return Cond(x.kind, subst_any(x.a, a, v), subst_any(x.b, a, v), x.neg)
    return x


def subst_atom(at, a, v):
    if at is a:
        return v
    if not atom_mentions(at, a):
        return P(at)
    k = at.key
    args = tuple(subst_any(x, a, v) for x in k[1:])
    if k[0] == "idiv":
        return idiv(args[0], args[1])
    if k[0] == "inv":
        return fdiv(1, args[0])
    if k[0] == "len":
        return P(args[0].lenatom()) if isinstance(args[0], Sid) else P(at)
    return P(atom(k[0], *args, isint=at.isint, lo=at.lo, hi=at.hi))


# ---------------------------------------------------------------- bytes

IDENT = tuple(range(256))
SIGNED = tuple(i if i < 128 else i - 256 for i in range(256))


class BV(object):
    """a function (table) of one unknown byte"""
    __slots__ = ("a", "tbl")

    def __init__(self, a, tbl):
        self.a = a
        self.tbl = tbl

    def __eq__(self, o):
        return isinstance(o, BV) and self.a is o.a and self.tbl == o.tbl

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.a.id, self.tbl))

    def __repr__(self):
        return "BV(%r%s)" % (self.a, "" if self.tbl == IDENT else ",f")


def bv_num(bv):
    """as a polynomial atom"""
    lo, hi = min(bv.tbl), max(bv.tbl)
    if bv.tbl == IDENT:
        return P(atom("bv", bv.a, lo=0, hi=255))
    t = bv.tbl
    d = t[1] - t[0]
    if all(t[i] == t[0] + d * i for i in range(256)):
        return add(mul(P(atom("bv", bv.a, lo=0, hi=255)), d), t[0])
    return P(atom("bvf", bv.a, bv.tbl, lo=lo, hi=hi))


# ---------------------------------------------------------------- conditions

class Cond(tuple):
    """kind in lt (a<0), eq (a==0), bm (byte atom a in mask b), op (opaque key a)"""
    __slots__ = ()

    def __new__(cls, kind, a, b=None, neg=False):
        return tuple.__new__(cls, (kind, a, b, neg))

    kind = property(lambda s: s[0])
    a = property(lambda s: s[1])
    b = property(lambda s: s[2])
    neg = property(lambda s: s[3])

    def __repr__(self):
        n = "!" if self.neg else ""
        if self.kind == "lt":
            return "%s(%s < 0)" % (n, fmt_num(self.a))
        if self.kind == "eq":
            return "%s(%s == 0)" % (n, fmt_num(self.a))
        if self.kind == "bm":
            return "%s(%r in {%s})" % (n, self.a, fmt_mask(self.b))
        return "%s%s" % (n, fmt_key(self.a))


def fmt_key(k):
    if isinstance(k, tuple):
        return "(" + " ".join(fmt_key(x) for x in k) + ")"
    return str(k)


def fmt_mask(m):
    c = mask_chars(m)
    if len(c) > 128:
        return "all but " + fmt_mask(ALLMASK & ~m)
    return ",".join(repr(chr(x)) if 32 <= x < 127 else "%02x" % x for x in c)


def cnot(c):
    if isinstance(c, bool):
        return not c
    return Cond(c.kind, c.a, c.b, not c.neg)


def primitive(d):
    """d scaled by a positive number so that its coefficients are integers without a common factor"""
    g, l = 0, 1
    for _, c in d.t:
        if isinstance(c, int):
            g = math.gcd(g, c)
            if g == 1 and l == 1:
                g = 1
        else:
            l = l * c.denominator // math.gcd(l, c.denominator)
    if l == 1:
        if g == 1:
            return d
        return _mk({m: c // g for m, c in d.t})
    g = 0
    for _, c in d.t:
        g = math.gcd(g, int(c * l))
    return _mk({m: Fraction(c * l) / g for m, c in d.t})


def lt(a, b):
    d = sub(a, b)
    if isconst(d):
        return d < 0
    return Cond("lt", primitive(d))


def le(a, b):
    return cnot(lt(b, a))


def eq(a, b):
    d = sub(a, b)
    if isconst(d):
        return d == 0
    # normalise the sign
    if d.t[-1][1] < 0:
        d = neg(d)
    return Cond("eq", primitive(d))


def bm(a, m):
    if m == 0:
        return False
    if m == ALLMASK:
        return True
    return Cond("bm", a, m)


class NeedSplit(Exception):
    def __init__(self, cond):
        Exception.__init__(self, repr(cond))
        self.cond = cond


class Imprecise(Exception):
    """an operation this domain cannot model"""


# ---------------------------------------------------------------- opaque string sources

class Sid(object):
    __slots__ = ("key", "mask", "wide", "minlen", "fixed", "_len", "id")

    def lenatom(self):
        return self._len

    def length(self):
        return self.fixed if self.fixed is not None else P(self._len)

    def __repr__(self):
        return fmt_key(self.key)


_sids = {}


def sid_for(key, mask=ALLMASK, wide=False, minlen=0, fixed=None, maxlen=10 ** 9):
    s = _sids.get(key)
    if s is None:
        s = Sid()
        s.key = key
        s.mask = mask
        s.wide = wide
        s.minlen = minlen
        s.fixed = fixed
        s.id = len(_sids)
        s._len = atom("len", s, lo=minlen, hi=maxlen)
        _sids[key] = s
    elif key[0] == "txt" and (s.mask, s.minlen, s.fixed) != (mask, minlen, fixed):
        raise ValueError("the unknown text %s is declared twice" % (key,))
    return s


def chatom(sid, idx):
    return atom("ch", sid, idx)


# ---------------------------------------------------------------- strings

def seg_len(s):
    k = s[0]
    if k == "k":
        return len(s[1])
    if k == "v":
        return 1
    if k == "s":
        return sub(s[3], s[2])
    if k == "r":
        return s[2]
    return s[1]     # 'u'


class Str(object):
    __slots__ = ("segs", "_len", "_h")

    def __init__(self, segs=()):
        out = []
        for s in segs:
            if s[0] == "k":
                if not s[1]:
                    continue
                if out and out[-1][0] == "k":
                    out[-1] = ("k", out[-1][1] + s[1])
                    continue
            elif s[0] == "v":
                if isinstance(s[1], int):
                    c = chr(s[1])
                    if out and out[-1][0] == "k":
                        out[-1] = ("k", out[-1][1] + c)
                    else:
                        out.append(("k", c))
                    continue
                # a character read from an opaque segment is a slice of length one of it
                if isinstance(s[1], BV) and s[1].a.key[0] == "ch":
                    sid, idx = s[1].a.key[1], s[1].a.key[2]
                    s = ("s", sid, idx, add(idx, 1), None if s[1].tbl == IDENT else s[1].tbl)
                elif isinstance(s[1], Poly) and len(s[1].t) == 1 and s[1].t[0][1] == 1 and len(s[1].t[0][0]) == 1 \
                        and _atom_list[s[1].t[0][0][0][0]].key[0] == "wch":
                    at = _atom_list[s[1].t[0][0][0][0]]
                    s = ("s", at.key[1], at.key[2], add(at.key[2], 1), None)
            if s[0] == "s":
                if s[2] == s[3]:
                    continue
                if out and out[-1][0] == "s" and out[-1][1] is s[1] and out[-1][4] == s[4] and out[-1][3] == s[2]:
                    out[-1] = ("s", s[1], out[-1][2], s[3], s[4])
                    continue
            elif s[0] == "r":
                if s[2] == 0:
                    continue
                if isconst(s[2]) and s[2] <= 64:
                    c = chr(s[1]) * s[2]
                    if out and out[-1][0] == "k":
                        out[-1] = ("k", out[-1][1] + c)
                    else:
                        out.append(("k", c))
                    continue
                if out and out[-1][0] == "r" and out[-1][1] == s[1]:
                    out[-1] = ("r", s[1], add(out[-1][2], s[2]))
                    continue
                if out and out[-1][0] == "k" and out[-1][1][-1] == chr(s[1]):
                    k = out[-1][1].rstrip(chr(s[1]))
                    n = len(out[-1][1]) - len(k)
                    out[-1] = ("k", k)
                    if not k:
                        out.pop()
                    if out and out[-1][0] == "r" and out[-1][1] == s[1]:
                        out[-1] = ("r", s[1], add(out[-1][2], add(s[2], n)))
                        continue
                    s = ("r", s[1], add(s[2], n))
            elif s[0] == "u":
                if s[1] == 0:
                    continue
                if out and out[-1][0] == "u":
                    out[-1] = ("u", add(out[-1][1], s[1]))
                    continue
            if s[0] == "k" and out and out[-1][0] == "r" and s[1] and ord(s[1][0]) == out[-1][1]:
                k = s[1].lstrip(chr(out[-1][1]))
                n = len(s[1]) - len(k)
                out[-1] = ("r", out[-1][1], add(out[-1][2], n))
                if not k:
                    continue
                s = ("k", k)
            out.append(s)
        self.segs = tuple(out)
        n = 0
        for s in out:
            n = add(n, seg_len(s))
        self._len = n
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Str) and (self is o or self.segs == o.segs)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.segs)
        return self._h

    def len(self):
        return self._len

    def const(self):
        if not self.segs:
            return ""
        if len(self.segs) == 1 and self.segs[0][0] == "k":
            return self.segs[0][1]
        if all(s[0] == "k" or (s[0] == "r" and isconst(s[2])) for s in self.segs):
            return "".join(s[1] if s[0] == "k" else chr(s[1]) * s[2] for s in self.segs)
        return None

    def __repr__(self):
        out = []
        for s in self.segs:
            if s[0] == "k":
                out.append(repr(s[1]))
            elif s[0] == "v":
                out.append("<%r>" % (s[1],))
            elif s[0] == "s":
                full = s[2] == 0 and s[3] == s[1].length()
                out.append("%s%s%s" % (s[1], "" if full else "[%s:%s]" % (fmt_num(s[2]), fmt_num(s[3])), "~" if s[4] else ""))
            elif s[0] == "r":
                out.append("%r*%s" % (chr(s[1]), fmt_num(s[2])))
            else:
                out.append("undef*%s" % fmt_num(s[1]))
        return "".join(out) if out else "''"

    def subst(self, a, v):
        out = []
        ch = False
        for s in self.segs:
            n = s
            if s[0] == "v":
                n = ("v", subst_any(s[1], a, v))
            elif s[0] == "s":
                sid = subst_any(s[1], a, v)
                n = ("s", sid, subst_any(s[2], a, v), subst_any(s[3], a, v), s[4])
            elif s[0] == "r":
                n = ("r", s[1], subst_any(s[2], a, v))
            elif s[0] == "u":
                n = ("u", subst_any(s[1], a, v))
            if n != s:
                ch = True
            out.append(n)
        return Str(out) if ch else self


EMPTY = Str()


def K(s):
    return Str((("k", s),)) if s else EMPTY


def opaque(name, chars=None, minlen=0, fixed=None, wide=False):
    """a fresh opaque string whose characters all lie in chars"""
    mask = ALLMASK if chars is None else (chars if isinstance(chars, int) else mask_of(chars))
    s = sid_for(("txt", name), mask, wide, minlen, fixed)
    return Str((("s", s, 0, s.length(), None),))


def chars(name, n, chars_):
    """n individually symbolic characters"""
    mask = chars_ if isinstance(chars_, int) else mask_of(chars_)
    return Str([("v", BV(bytesym("%s.%d" % (name, i), mask), IDENT)) for i in range(n)])


_bytemask = {}


def bytesym(name, mask=ALLMASK):
    a = atom("byte", name)
    if _bytemask.get(a.id, mask) != mask:
        raise ValueError("the unknown byte %s is declared twice" % (name,))
    _bytemask[a.id] = mask
    return a


def base_mask(a):
    k = a.key
    if k[0] == "byte":
        return _bytemask.get(a.id, ALLMASK)
    if k[0] == "ch":
        return k[1].mask
    return ALLMASK


def cat(*ss):
    segs = []
    for s in ss:
        if isinstance(s, str):
            segs.append(("k", s))
        else:
            segs.extend(s.segs)
    return Str(segs)


def seg_map_mask(s):
    """set of code units a segment's characters can take (as a mask), before fact refinement"""
    if s[0] == "k":
        m = 0
        for c in s[1]:
            o = ord(c)
            if o < 256:
                m |= 1 << o
        return m
    if s[0] == "v":
        if isinstance(s[1], BV):
            b = base_mask(s[1].a)
            m = 0
            for i in range(256):
                if b >> i & 1:
                    m |= 1 << (s[1].tbl[i] & 255)
            return m
        return ALLMASK
    if s[0] == "s":
        b = s[1].mask
        if s[4] is None:
            return b
        m = 0
        for i in range(256):
            if b >> i & 1:
                m |= 1 << (s[4][i] & 255)
        return m
    if s[0] == "r":
        return 1 << s[1] if s[1] < 256 else 0
    return ALLMASK
