"""Abstract states: memory, facts, control stack; and the string operations which need facts."""
import math
from fractions import Fraction
from dom import *
import dom

NPOS = (1 << 64) - 1


# ---------------------------------------------------------------- structured values

class Rec(object):
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def with_(self, n, v):
        d = dict(self.f)
        d[n] = v
        return Rec(self.cls, d)

    def __eq__(self, o):
        return self is o or (isinstance(o, Rec) and self.cls == o.cls and self.f == o.f)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "%s{%s}" % (self.cls.split("::")[-1], ", ".join("%s=%r" % i for i in self.f.items()))


class Opt(object):
    """boost::optional; e is True, False or a Cond"""
    __slots__ = ("e", "v")

    def __init__(self, e, v=None):
        self.e = e
        self.v = v

    def __eq__(self, o):
        return self is o or (isinstance(o, Opt) and self.e == o.e and (self.e is False or self.v == o.v))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        if self.e is False:
            return "none"
        if self.e is True:
            return "some(%r)" % (self.v,)
        return "opt(%r,%r)" % (self.e, self.v)


NONE = Opt(False)


class Many(object):
    """an unknown number of unknown elements"""
    __slots__ = ("n", "tid", "tag")

    def __init__(self, n, tid, tag):
        self.n = n
        self.tid = tid
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, Many) and self.n == o.n and self.tag == o.tag

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "Many(%s)" % fmt_num(self.n)


class Vec(object):
    __slots__ = ("items", "t")

    def __init__(self, items, t=None):
        self.items = tuple(items)
        self.t = t

    def __eq__(self, o):
        return self is o or (isinstance(o, Vec) and self.items == o.items)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "[%s]" % ", ".join(map(repr, self.items))

    def size(self):
        n = 0
        for i in self.items:
            n = add(n, i.n if isinstance(i, Many) else 1)
        return n

    def known(self):
        return not any(isinstance(i, Many) for i in self.items)


class Map(object):
    """ordered association; keys are values. open: may hold other, unknown entries"""
    __slots__ = ("items", "open", "t")

    def __init__(self, items=(), open_=False, t=None):
        self.items = tuple(items)
        self.open = open_
        self.t = t

    def __eq__(self, o):
        return self is o or (isinstance(o, Map) and self.items == o.items and self.open == o.open)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "{%s%s}" % (", ".join("%r: %r" % i for i in self.items), ", ..." if self.open else "")


class Ref(object):
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ref) and self.root == o.root and self.path == o.path

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return "&%s%s" % (self.root, "".join("." + str(p[-1]) for p in self.path))

    def f(self, *p):
        return Ref(self.root, self.path + (p,))


class Ptr(object):
    """raw pointer; r is a Ref, or None for null"""
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.r == o.r

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.r)

    def __repr__(self):
        return "null" if self.r is None else "ptr(%r)" % self.r


NULL = Ptr(None)


class Smart(object):
    """shared_ptr / unique_ptr; cb identifies the owned object (its root)"""
    __slots__ = ("r", "cb", "deleter", "arr")

    def __init__(self, r, cb=None, deleter=None, arr=False):
        self.r = r
        self.cb = cb
        self.deleter = deleter
        self.arr = arr

    def __eq__(self, o):
        return isinstance(o, Smart) and self.r == o.r and self.cb == o.cb

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.r, self.cb))

    def __repr__(self):
        return "smart(%r)" % (self.r,)


class FnV(object):
    __slots__ = ("mod", "f")

    def __init__(self, mod, f):
        self.mod = mod
        self.f = f

    def __eq__(self, o):
        return isinstance(o, FnV) and self.f["key"] == o.f["key"]

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.f["key"])

    def __repr__(self):
        return "fn(%s)" % self.f["q"]


class Closure(object):
    __slots__ = ("mod", "f", "caps", "this")

    def __init__(self, mod, f, caps, this):
        self.mod = mod
        self.f = f
        self.caps = caps      # var id -> Ref (by reference) or ("val", value)
        self.this = this

    def __eq__(self, o):
        return self is o or (isinstance(o, Closure) and self.f["key"] == o.f["key"] and self.caps == o.caps and self.this == o.this)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "closure(%s)" % self.f["key"]


class Bound(object):
    __slots__ = ("fn", "args")

    def __init__(self, fn, args):
        self.fn = fn
        self.args = tuple(args)

    def __eq__(self, o):
        return isinstance(o, Bound) and self.fn == o.fn and self.args == o.args

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "bind(%r,%r)" % (self.fn, self.args)


class It(object):
    """iterator: container Ref and position (a number), or ('key', k) / 'end' for maps"""
    __slots__ = ("c", "pos", "rev")

    def __init__(self, c, pos, rev=False):
        self.c = c
        self.pos = pos
        self.rev = rev

    def __eq__(self, o):
        return isinstance(o, It) and self.c == o.c and self.pos == o.pos and self.rev == o.rev

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "it(%r,%s)" % (self.c, self.pos if not isnum(self.pos) else fmt_num(self.pos))


class Tag(object):
    """library helper values: placeholders, manipulators, predicates, regexes..."""
    __slots__ = ("k", "v")

    def __init__(self, k, v=None):
        self.k = k
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Tag) and self.k == o.k and self.v == o.v

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "%s(%r)" % (self.k, self.v)


class Top(object):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Top)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 17

    def __repr__(self):
        return "T(%s)" % self.why


class Uninit(object):
    def __repr__(self):
        return "uninit"


UNINIT = Uninit()


class Exc(object):
    """an exception in flight: cls is the class name, v the object"""
    __slots__ = ("cls", "v", "loc")

    def __init__(self, cls, v, loc):
        self.cls = cls
        self.v = v
        self.loc = loc

    def __repr__(self):
        return "exc(%s at %s)" % (self.cls, self.loc)

    def __eq__(self, o):
        return isinstance(o, Exc) and self.cls == o.cls and self.v == o.v

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Frame(object):
    __slots__ = ("mod", "name", "vars", "this", "caps", "depth", "ntemp", "curexc", "loc", "fn")

    def __init__(self, mod, name, depth, this=None, caps=None, loc=None, fn=None):
        self.mod = mod
        self.name = name
        self.vars = {}
        self.this = this
        self.caps = caps
        self.depth = depth
        self.ntemp = 0
        self.curexc = None
        self.loc = loc
        self.fn = fn

    def copy(self):
        f = Frame.__new__(Frame)
        f.mod = self.mod
        f.name = self.name
        f.vars = dict(self.vars)
        f.this = self.this
        f.caps = self.caps
        f.depth = self.depth
        f.ntemp = self.ntemp
        f.curexc = self.curexc
        f.loc = self.loc
        f.fn = self.fn
        return f


class Event(object):
    __slots__ = ("kind", "loc", "info", "imp", "stack")

    def __init__(self, kind, loc, info, imp, stack):
        self.kind = kind
        self.loc = loc
        self.info = info
        self.imp = imp
        self.stack = stack

    def __repr__(self):
        return "%s @%s %s%s" % (self.kind, self.loc, self.info, " [imprecise: %s]" % self.imp if self.imp else "")


def rounded(x):
    """a rounding is one of the terms"""
    return isinstance(x, Poly) and any(len(m) == 1 and dom._atom_list[m[0][0]].key[0] in ("rint", "floor", "trunc", "idiv", "round") for m, _ in x.t)


class State(object):
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.bounds = {}
        self.lins = ()          # (poly, strict): poly >= 0 or > 0
        self.cs = {}            # byte atom -> mask
        self.eqs = {}           # opaque condition key -> bool
        self.ver = 0
        self.imp = None
        self.events = ()
        self.alloc = {}
        self.path = ()          # human readable decisions
        self.freed = frozenset()
        self.result = None
        self.vals = []
        self.ctl = None
        self.alts = ()          # what was lost by joins: groups of alternatives, one of each group holds
        self.subs = ()          # substitutions made, in order
        self.once = 0           # within the initialisation of a static local (which C++ does once, and for one thread at a time)
        self.gwrites = frozenset()      # other writes to what has static storage: (variable, function, place)

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.bounds = dict(self.bounds)
        s.lins = self.lins
        s.cs = dict(self.cs)
        s.eqs = dict(self.eqs)
        s.ver = self.ver
        s.imp = self.imp
        s.events = self.events
        s.alloc = dict(self.alloc)
        s.path = self.path
        s.freed = self.freed
        s.result = self.result
        s.vals = list(self.vals)
        s.ctl = self.ctl
        s.alts = self.alts
        s.subs = self.subs
        s.once = self.once
        s.gwrites = self.gwrites
        return s

    def become(self, o):
        self.__dict__.update(o.__dict__)

    # ------------------------------------------------ facts

    def mask(self, a):
        m = self.cs.get(a)
        if m is None:
            m = base_mask(a)
        return m

    def bound(self, at):
        b = self.bounds.get(at)
        lo, hi = at.lo, at.hi
        if b is not None:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
        k = at.key
        if k[0] == "bv":
            vals = mask_chars(self.mask(k[1]))
            if vals:
                return min(vals), max(vals)
        elif k[0] == "bvf":
            vals = [k[2][i] for i in mask_chars(self.mask(k[1]))]
            if vals:
                return min(vals), max(vals)
        elif k[0] == "idiv" and isconst(k[2]) and k[2] > 0:
            l2, h2 = self.interval(k[1])
            l3 = idiv(int(l2) if l2 == int(l2) else l2, k[2]) if l2 is not None else None
            h3 = idiv(int(h2) if h2 == int(h2) else h2, k[2]) if h2 is not None else None
            if l3 is not None and (lo is None or l3 > lo):
                lo = l3
            if h3 is not None and (hi is None or h3 < hi):
                hi = h3
        elif k[0] in ("trunc", "rint", "floor"):
            l2, h2 = self.interval(k[1])
            import math
            if l2 is not None:
                l3 = math.floor(l2) if k[0] != "trunc" or l2 < 0 else math.floor(l2)
                if k[0] == "rint":
                    l3 = math.floor(l2 + Fraction(1, 2)) if l2 != int(l2) else int(l2)
                if lo is None or l3 > lo:
                    lo = l3
            if h2 is not None:
                h3 = math.ceil(h2)
                if k[0] != "rint" and h2 >= 0:
                    h3 = math.floor(h2)
                if hi is None or h3 < hi:
                    hi = h3
        return lo, hi

    def _mono_interval(self, m):
        lo, hi = 1, 1
        for aid, e in m:
            al, ah = self.bound(dom._atom_list[aid])
            if e < 0:
                if al is not None and al > 0:
                    al, ah = (Fraction(1) / ah if ah not in (None,) else 0), Fraction(1) / al
                else:
                    return None, None
                e = -e
            for _ in range(e):
                # multiply intervals with possible infinities
                cands_lo, cands_hi = [], []
                inf_lo = inf_hi = False
                for x, xs in ((lo, -1), (hi, 1)):
                    for y, ys in ((al, -1), (ah, 1)):
                        if x is not None and y is not None:
                            cands_lo.append(x * y)
                            cands_hi.append(x * y)
                        else:
                            # sign of infinite product
                            sx = xs if x is None else (0 if x == 0 else (1 if x > 0 else -1))
                            sy = ys if y is None else (0 if y == 0 else (1 if y > 0 else -1))
                            s = sx * sy
                            if s > 0:
                                inf_hi = True
                            elif s < 0:
                                inf_lo = True
                            else:
                                cands_lo.append(0)
                                cands_hi.append(0)
                lo = None if inf_lo or not cands_lo else min(cands_lo)
                hi = None if inf_hi or not cands_hi else max(cands_hi)
        return lo, hi

    def interval(self, x):
        if not isinstance(x, Poly):
            return x, x
        lo, hi = 0, 0
        for m, c in x.t:
            if m == ():
                l, h = 1, 1
            else:
                l, h = self._mono_interval(m)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi

    def _pos(self, x, strict, depth):
        lo, _ = self.interval(x)
        if lo is not None and (lo > 0 or (not strict and lo >= 0)):
            return True
        if depth == 0 or not isinstance(x, Poly):
            return False
        # pick facts which share a monomial with the same sign and subtract them
        mons = dict(x.t)
        for f, fstrict in self.lins:
            if not isinstance(f, Poly):
                continue
            for m, c in f.t:
                if m != () and m in mons and (mons[m] > 0) == (c > 0):
                    k = Fraction(mons[m]) / c
                    y = sub(x, mul(f, k))
                    if self._pos(y, strict and not fstrict, depth - 1):
                        return True
                    break
        # roundings are monotone: round(p) >= n if p >= n, for a whole number n
        d = dict(x.t)
        c0 = d.pop((), 0)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and m[0][1] == 1 and dom._atom_list[m[0][0]].key[0] in ("rint", "floor", "round"):
                p = dom._atom_list[m[0][0]].key[1]
                n = Fraction(-c0) / c
                if strict:
                    n = math.floor(n) + 1 if c > 0 else math.ceil(n) - 1
                else:
                    n = math.ceil(n) if c > 0 else math.floor(n)
                if self._pos(sub(p, n) if c > 0 else sub(n, p), False, depth - 1):
                    return True
        # quotients are monotone: a / k - b / k >= 0 if a >= b
        if depth > 1:
            qs = [(m, c, dom._atom_list[m[0][0]].key) for m, c in x.t if len(m) == 1 and m[0][1] == 1 and dom._atom_list[m[0][0]].key[0] == "idiv"]
            for m, c, k in qs:
                for n, d, l in qs:
                    if c > 0 and d == -c and isconst(k[2]) and isconst(l[2]) and k[2] == l[2] and k[2] > 0:
                        e = sub(k[1], l[1])
                        if isconst(e) and e >= 0 and self._pos(sub(x, dom._mk({m: c, n: d})), strict, depth - 1):
                            return True
        # replace a rounded term by what it is the rounding of
        for m, c in x.t:
            if len(m) == 1 and m[0][1] == 1:
                at = dom._atom_list[m[0][0]]
                k = at.key
                st = strict
                if k[0] == "rint":
                    b = add(k[1], Fraction(-1, 2) if c > 0 else Fraction(1, 2))
                elif k[0] == "floor" or k[0] == "trunc" and self.nonneg(k[1]):
                    b = sub(k[1], 1) if c > 0 else k[1]
                    st = strict and not c > 0       # x - 1 < floor(x)
                elif k[0] == "idiv" and isconst(k[2]) and k[2] > 0 and nint(k[1]) and self.nonneg(k[1]):
                    b = mul(add(k[1], 1 - k[2] if c > 0 else 0), Fraction(1, k[2]))
                else:
                    continue
                if self._pos(add(sub(x, dom._mk({m: c})), mul(b, c)), st, depth - 1):
                    return True
        return False

    def nonneg(self, x):
        if isconst(x):
            return x >= 0
        return self._pos(x, False, 3) or rounded(x) and nint(x) and self._pos(add(x, 1), True, 3)

    def positive(self, x):
        if isconst(x):
            return x > 0
        if nint(x):
            return self._pos(sub(x, 1), False, 3) or rounded(x) and self._pos(x, True, 3)
        return self._pos(x, True, 3)

    def known(self, c):
        """True / False / None"""
        if isinstance(c, bool):
            return c
        k = c.kind
        r = None
        if k == "lt":
            p = c.a
            if self.nonneg(p):
                r = False
            elif self.positive(neg(p)):
                r = True
            else:
                r = self.eqs.get(("lt", p))
        elif k == "eq":
            p = c.a
            if self.positive(p) or self.positive(neg(p)):
                r = False
            elif self.nonneg(p) and self.nonneg(neg(p)):
                r = True
            else:
                e = self.eqs.get(("eq", p))
                if e is not None:
                    r = e
                else:
                    r = self._bv_eq(p)
        elif k == "bm":
            m = self.mask(c.a)
            if m & c.b == 0:
                r = False
            elif m & ~c.b == 0:
                r = True
        else:
            r = self.eqs.get(c.a)
            if r is None and isinstance(c.a, tuple) and c.a[0] == "streq":
                r = self._streq_known(c.a)
        if r is None:
            return None
        return r != c.neg

    def _bv_eq(self, p):
        # a*f(byte) + const == 0
        ats = p.atoms()
        if len(ats) == 1:
            at = dom._atom_list[next(iter(ats))]
            if at.key[0] in ("bv", "bvf") and all(len(m) <= 1 and all(e == 1 for _, e in m) for m, _ in p.t):
                c0 = c1 = 0
                for m, c in p.t:
                    if m == ():
                        c0 = c
                    else:
                        c1 = c
                tbl = IDENT if at.key[0] == "bv" else at.key[2]
                vals = set(c1 * tbl[i] + c0 for i in mask_chars(self.mask(at.key[1])))
                if 0 not in vals:
                    return False
                if vals == {0}:
                    return True
        return None

    def _streq_known(self, key):
        # equal to one constant rules out other constants
        _, a, b = key
        for (k2), v in self.eqs.items():
            if v and isinstance(k2, tuple) and k2[0] == "streq":
                for x, y in ((k2[1], k2[2]), (k2[2], k2[1])):
                    for u, w in ((a, b), (b, a)):
                        if x == u and y != w and y.const() is not None and w.const() is not None:
                            return False
        return None

    def decide(self, c):
        r = self.known(c)
        if r is None:
            raise NeedSplit(Cond(c.kind, c.a, c.b, False))
        return r

    def assume(self, c, val):
        """add a fact; False if contradictory"""
        if isinstance(c, bool):
            return c == val
        k = self.known(c)
        if k is not None:
            return k == val
        val = val != c.neg
        self.ver += 1
        kind = c.kind
        if kind == "bm":
            m = self.mask(c.a) & (c.b if val else ~c.b)
            if m == 0:
                return False
            self.cs[c.a] = m
            return True
        if kind == "op":
            self.eqs[c.a] = val
            return True
        p = c.a
        if kind == "lt":
            self.eqs[("lt", p)] = val
            if val:
                return self.add_ge(sub(neg(p), 1) if nint(p) else neg(p), not nint(p))
            return self.add_ge(p, False)
        # eq
        if not val:
            self.eqs[("eq", p)] = False
            if self.nonneg(p):
                self.add_ge(sub(p, 1) if nint(p) else p, not nint(p))
            elif self.nonneg(neg(p)):
                self.add_ge(sub(neg(p), 1) if nint(p) else neg(p), not nint(p))
            return True
        # equality: substitute generated counters, or constants for single atoms
        lin = {}
        ok = True
        for m, co in p.t:
            if len(m) == 1 and m[0][1] == 1:
                lin[m[0][0]] = co
            elif m != ():
                ok = False
        if ok:
            for aid, co in lin.items():
                at = dom._atom_list[aid]
                if at.key[0] in ("tau", "gen"):
                    v = mul(sub(mul(P(at), co), p), Fraction(1, co) if isinstance(co, int) else 1 / co)
                    if at.isint and not nint(v):
                        continue
                    lo, hi = self.bound(at)
                    if lo is not None and self.known(lt(v, lo)) is True:
                        return False
                    if hi is not None and self.known(lt(hi, v)) is True:
                        return False
                    if not _mentions(v, at):
                        self.substitute(at, v)
                        if lo is not None and isinstance(v, Poly):
                            self.add_ge(sub(v, lo), False)
                        if hi is not None and isinstance(v, Poly):
                            self.add_ge(sub(hi, v), False)
                        return True
            if len(lin) == 1:
                aid, co = next(iter(lin.items()))
                at = dom._atom_list[aid]
                v = norm(Fraction(0 if () not in dict(p.t) else -dict(p.t)[()]) / co)
                if at.isint and not nint(v):
                    return False
                if at.key[0] in ("bv", "bvf"):
                    tbl = IDENT if at.key[0] == "bv" else at.key[2]
                    m = mask_of(i for i in range(256) if tbl[i] == v) & self.mask(at.key[1])
                    if m == 0:
                        return False
                    self.cs[at.key[1]] = m
                    return True
                if at.key[0] in ("sym", "len", "lex"):
                    self.substitute(at, v)
                    return True
        self.eqs[("eq", p)] = True
        for q in (p, neg(p)):
            if (q, False) not in self.lins:
                self.lins = self.lins + ((q, False),)
        return True

    def add_ge(self, p, strict):
        """fact p >= 0 (or > 0)"""
        if isconst(p):
            return p > 0 if strict else p >= 0
        if len(p.t) <= 2:
            # single atom bound?
            d = dict(p.t)
            c0 = d.pop((), 0)
            if len(d) == 1:
                (m, c), = d.items()
                if len(m) == 1 and m[0][1] == 1 and not strict:
                    at = dom._atom_list[m[0][0]]
                    v = Fraction(-c0) / c
                    if at.key[0] in ("bv", "bvf"):
                        tbl = IDENT if at.key[0] == "bv" else at.key[2]
                        mk = self.mask(at.key[1])
                        m2 = mask_of(i for i in mask_chars(mk) if (tbl[i] >= v if c > 0 else tbl[i] <= v))
                        if m2 == 0:
                            return False
                        self.cs[at.key[1]] = m2
                        return True
                    lo, hi = self.bounds.get(at, (None, None))
                    import math
                    if c > 0:
                        if at.isint:
                            v = math.ceil(v)
                        lo = v if lo is None else max(lo, v)
                    else:
                        if at.isint:
                            v = math.floor(v)
                        hi = v if hi is None else min(hi, v)
                    self.bounds[at] = (norm(lo), norm(hi))
                    l, h = self.bound(at)
                    if at.key[0] in ("rint", "floor"):
                        # what is rounded is bounded too
                        q, r = at.key[1], at.key[0] == "rint"
                        if c > 0:
                            if not self.add_ge(sub(q, add(lo, Fraction(-1, 2) if r else 0)), False):
                                return False
                        elif not self.add_ge(sub(add(hi, Fraction(1, 2) if r else 1), q), not r):
                            return False
                    if l is not None and h is not None:
                        if l > h:
                            return False
                        if l == h and at.key[0] in ("tau", "gen", "len", "sym", "lex"):
                            self.substitute(at, l)
                    return True
        if not strict and self.nonneg(neg(p)):
            e = eq(p, 0)
            if self.known(e) is not True:
                return self.assume(e, True)
            return True
        if (p, strict) not in self.lins:
            self.lins = self.lins + ((p, strict),)
        # contradiction check
        if self._pos(neg(p), not strict, 3) and not (not strict and self.nonneg(p)):
            lo, hi = self.interval(p)
            # p <= 0 is entailed; contradictory only if p < 0 entailed (or p <= 0 when strict)
            if strict or self._pos(neg(p), True, 3):
                return False
        return True

    def current(self, x):
        """x, which was made before this state, in terms of what the state still speaks of"""
        for at, v in self.subs:
            x = subst_value(x, at, v)
        return x

    def substitute(self, at, v):
        self.subs = self.subs + ((at, v),)
        def s(x):
            return subst_value(x, at, v)
        for k in list(self.mem):
            self.mem[k] = s(self.mem[k])
        self.vals = [s(x) for x in self.vals]
        if self.ctl is not None and len(self.ctl) > 1:
            self.ctl = (self.ctl[0], s(self.ctl[1]))
        for f in self.frames:
            f.vars = {i: s(r) for i, r in f.vars.items()}
            if f.this is not None:
                f.this = s(f.this)
            if f.caps is not None:
                f.caps = {i: s(r) for i, r in f.caps.items()}
        nl = []
        for p, st in self.lins:
            q = subst_num(p, at, v)
            if isinstance(q, Poly):
                nl.append((q, st))
        self.lins = tuple(nl)
        nb = {}
        for a, b in self.bounds.items():
            if a is at:
                continue
            if atom_mentions(a, at):
                n = subst_atom(a, at, v)
                if isinstance(n, Poly) and len(n.t) == 1 and n.t[0][1] == 1 and len(n.t[0][0]) == 1:
                    nb[dom._atom_list[n.t[0][0][0][0]]] = b
            else:
                nb[a] = b
        self.bounds = nb
        ncs = {}
        for a, m in self.cs.items():
            n = subst_any(a, at, v)
            ncs[n] = ncs.get(n, ALLMASK) & m
        self.cs = ncs
        self.eqs = {subst_any(k, at, v): x for k, x in self.eqs.items()}
        self.events = tuple(e for e in self.events)
        if self.result is not None:
            self.result = s(self.result)

    def note_imp(self, why):
        if self.imp is None:
            self.imp = why

    def event(self, kind, loc, **info):
        stk = tuple(f.name for f in self.frames)
        self.events = self.events + (Event(kind, loc, info, self.imp, stk),)

    # ------------------------------------------------ memory

    def read(self, ref):
        if ref.root[0] == "lit":
            v = K(ref.root[1])
        else:
            v = self.mem.get(ref.root, UNINIT)
        for i, p in enumerate(ref.path):
            v = self.step(v, p, ref, i)
        return v

    def step(self, v, p, ref=None, i=0):
        if isinstance(v, Top):
            return v
        if v is UNINIT:
            return UNINIT
        k = p[0]
        if k == "f":
            if isinstance(v, Rec):
                return v.f.get(p[1], UNINIT)
            raise Imprecise("field %s of %r" % (p[1], v))
        if k == "i":
            if isinstance(v, Vec):
                n = p[1]
                if isconst(n):
                    if v.known():
                        if 0 <= n < len(v.items):
                            return v.items[int(n)]
                        return Top("out of range element")
                    if 0 <= n < len(v.items) and not any(isinstance(x, Many) for x in v.items[:int(n) + 1]):
                        return v.items[int(n)]
                else:
                    # decide the position from the end
                    d = sub(v.size(), n)
                    if isconst(d) and 0 < d <= len(v.items) and not any(isinstance(x, Many) for x in v.items[-int(d):]):
                        return v.items[-int(d)]
                    if v.known():
                        lo, hi = self.interval(n)
                        for j in range(len(v.items)):
                            if self.decide(eq(n, j)):
                                return v.items[j]
                        return Top("out of range element")
                raise Imprecise("element at unknown position")
            if isinstance(v, Str):
                return self.char_at(v, p[1])
            if p[1] == 0:
                return v
            raise Imprecise("index into %r" % (v,))
        if k == "o":
            if isinstance(v, Opt):
                if v.e is False:
                    return UNINIT
                return v.v
            raise Imprecise("optional deref of %r" % (v,))
        if k == "m":
            if isinstance(v, Map):
                for mk, mv in v.items:
                    if mk == p[1]:
                        return mv
            raise Imprecise("map lookup")
        if k == "mp":
            if isinstance(v, Map) and isconst(p[1]) and 0 <= p[1] < len(v.items):
                a, b = v.items[p[1]]
                return Rec("std::pair", {"first": a, "second": b})
            raise Imprecise("map element")
        if k == "mk":
            return p[1]
        if k == "c":
            if isinstance(v, Str):
                return self.char_at(v, p[1])
            raise Imprecise("char of %r" % (v,))
        raise Imprecise("path " + k)

    def write(self, ref, val):
        if ref.root[0] == "g" and not self.once:
            f = self.frames[-1]
            self.gwrites = self.gwrites | {(ref.root[1], f.name, f.loc)}
        if not ref.path:
            self.mem[ref.root] = val
            return
        self.mem[ref.root] = self._wr(self.mem.get(ref.root, UNINIT), ref.path, 0, val)

    def _wr(self, v, path, i, val):
        if i == len(path):
            return val
        p = path[i]
        if isinstance(v, Top):
            return v
        k = p[0]
        if k == "f":
            if not isinstance(v, Rec):
                raise Imprecise("field store")
            return v.with_(p[1], self._wr(v.f.get(p[1], UNINIT), path, i + 1, val))
        if k == "i" and isinstance(v, Vec):
            n = p[1]
            idx = None
            if isconst(n) and 0 <= n < len(v.items) and not any(isinstance(x, Many) for x in v.items[:int(n) + 1]):
                idx = int(n)
            elif not isconst(n):
                d = sub(v.size(), n)
                if isconst(d) and 0 < d <= len(v.items) and not any(isinstance(x, Many) for x in v.items[-int(d):]):
                    idx = len(v.items) - int(d)
                elif v.known():
                    for j in range(len(v.items)):
                        if self.decide(eq(n, j)):
                            idx = j
                            break
            if idx is None:
                raise Imprecise("store at unknown position")
            items = list(v.items)
            items[idx] = self._wr(items[idx], path, i + 1, val)
            return Vec(items, v.t)
        if k in ("i", "c") and isinstance(v, Str):
            return self.str_store(v, p[1], val)
        if k == "i" and p[1] == 0:
            return self._wr(v, path, i + 1, val)
        if k == "o":
            if not isinstance(v, Opt):
                raise Imprecise("optional store")
            return Opt(v.e, self._wr(v.v, path, i + 1, val))
        if k == "m" and isinstance(v, Map):
            items = list(v.items)
            for j, (mk, mv) in enumerate(items):
                if mk == p[1]:
                    items[j] = (mk, self._wr(mv, path, i + 1, val))
                    return Map(items, v.open, v.t)
            raise Imprecise("map store")
        if k == "mp" and isinstance(v, Map) and isconst(p[1]) and 0 <= p[1] < len(v.items):
            items = list(v.items)
            a, b = items[p[1]]
            r = self._wr(Rec("std::pair", {"first": a, "second": b}), path, i + 1, val)
            items[p[1]] = (r.f["first"], r.f["second"])
            return Map(items, v.open, v.t)
        raise Imprecise("store through %s into %r" % (k, v))

    # ------------------------------------------------ strings

    def bv_const(self, v):
        """normalise a byte value whose byte is known (or whose table is constant on it)"""
        if isinstance(v, BV):
            m = self.mask(v.a)
            vals = set(v.tbl[i] for i in mask_chars(m))
            if len(vals) == 1:
                return vals.pop()
        return v

    def locate(self, s, pos):
        """(index of segment, offset within) of position pos, which must be < len; needs decisions"""
        off = 0
        for i, g in enumerate(s.segs):
            L = seg_len(g)
            if isconst(pos) and isconst(off) and isconst(L):
                if pos < off + L:
                    return i, pos - off
            elif self.decide(lt(pos, add(off, L))):
                return i, sub(pos, off)
            off = add(off, L)
        return len(s.segs), sub(pos, off)

    def seg_char(self, g, o):
        k = g[0]
        if k == "k":
            if isconst(o):
                return ord(g[1][int(o)])
            # unknown position in a constant piece
            for j in range(len(g[1])):
                if self.decide(eq(o, j)):
                    return ord(g[1][j])
            raise Imprecise("position")
        if k == "v":
            return self.bv_const(g[1])
        if k == "s":
            if g[1].wide:
                return P(atom("wch", g[1], add(g[2], o)))
            a = chatom(g[1], add(g[2], o))
            return self.bv_const(BV(a, g[4] if g[4] is not None else IDENT))
        if k == "r":
            return g[1]
        return UNINIT

    def char_at(self, s, pos):
        i, o = self.locate(s, pos)
        if i == len(s.segs):
            return 0       # the terminator (callers check bounds)
        return self.seg_char(s.segs[i], o)

    def cut(self, g, o):
        """split a segment at offset o (0 <= o <= len)"""
        k = g[0]
        if k == "k":
            if not isconst(o):
                for j in range(len(g[1]) + 1):
                    if self.decide(eq(o, j)):
                        o = j
                        break
            return ("k", g[1][:int(o)]), ("k", g[1][int(o):])
        if k == "v":
            if not isconst(o):
                o = 0 if self.decide(eq(o, 0)) else 1
            return (("k", ""), g) if o == 0 else (g, ("k", ""))
        if k == "s":
            m = add(g[2], o)
            return ("s", g[1], g[2], m, g[4]), ("s", g[1], m, g[3], g[4])
        if k == "r":
            return ("r", g[1], o), ("r", g[1], sub(g[2], o))
        return ("u", o), ("u", sub(g[1], o))

    def split_at(self, s, pos):
        if isconst(pos) and pos == 0:
            return EMPTY, s
        if pos == s.len():
            return s, EMPTY
        off = 0
        for i, g in enumerate(s.segs):
            L = seg_len(g)
            e = add(off, L)
            if pos == e:
                return Str(s.segs[:i + 1]), Str(s.segs[i + 1:])
            if (isconst(pos) and isconst(e) and pos < e) or (not (isconst(pos) and isconst(e)) and self.decide(lt(pos, e))):
                a, b = self.cut(g, sub(pos, off))
                return Str(s.segs[:i] + (a,)), Str((b,) + s.segs[i + 1:])
            off = e
        return s, EMPTY

    def substr(self, s, pos, n=None):
        """pos <= len(s) must have been checked"""
        _, r = self.split_at(s, pos)
        if n is None or (isconst(n) and n >= NPOS):
            return r
        if self.decide(lt(r.len(), n)):
            return r
        a, _ = self.split_at(r, n)
        return a

    def str_store(self, s, pos, val):
        if isinstance(val, BV):
            val = BV(val.a, tuple(x & 255 for x in val.tbl))
        elif isinstance(val, int) and val < 0:
            val &= 255
        elif isinstance(val, int) and val > 255:
            pass
        a, b = self.split_at(s, pos)
        _, c = self.split_at(b, 1)
        return cat(a, Str((("v", val),)), c)

    def streq(self, a, b):
        """bool, or raises NeedSplit"""
        if a == b:
            return True
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            return ca == cb
        d = sub(a.len(), b.len())
        if isconst(d):
            if d != 0:
                return False
        elif self.positive(d) or self.positive(neg(d)):
            return False
        r = self._streq_scan(a, b)
        if r is not None:
            return r
        if ca == "" or cb == "":
            return self.decide(eq((b if ca == "" else a).len(), 0))
        # single symbolic characters: decide them
        key = ("streq",) + ((a, b) if repr(a) <= repr(b) else (b, a))
        known = self.eqs.get(key)
        if known is None:
            known = self._streq_known(key)
        if known is not None:
            return known
        c = self._streq_cond(a, b)
        if c is not None:
            raise NeedSplit(c)
        raise NeedSplit(Cond("op", key))

    def _cells_eq(self, x, y):
        """equality of two code units: True/False/Cond"""
        x, y = self.bv_const(x), self.bv_const(y)
        if isconst(x) and isconst(y):
            return x == y
        if isinstance(x, BV) and isconst(y):
            return bm(x.a, mask_of(i for i in range(256) if (x.tbl[i] & 255) == y & 255 and x.tbl[i] >= 0 or x.tbl[i] == y))
        if isinstance(y, BV) and isconst(x):
            return self._cells_eq(y, x)
        if isinstance(x, BV) and isinstance(y, BV):
            if x == y:
                return True
            if x.a is y.a:
                return bm(x.a, mask_of(i for i in range(256) if x.tbl[i] == y.tbl[i]))
            xs = set(x.tbl[i] for i in mask_chars(self.mask(x.a)))
            ys = set(y.tbl[i] for i in mask_chars(self.mask(y.a)))
            if not xs & ys:
                return False
            return eq(bv_num(x), bv_num(y))
        if isnum(x) and isnum(y):
            return eq(x, y)
        if isinstance(x, BV):
            return eq(bv_num(x), y)
        if isinstance(y, BV):
            return eq(x, bv_num(y))
        raise Imprecise("character comparison")

    def _streq_scan(self, a, b):
        """compare from both ends as far as facts allow; True/False/None"""
        for rev in (False, True):
            A = list(reversed(a.segs)) if rev else list(a.segs)
            B = list(reversed(b.segs)) if rev else list(b.segs)
            while A and B:
                g, h = A[0], B[0]
                if g == h:
                    A.pop(0)
                    B.pop(0)
                    continue
                if g[0] == "k" and h[0] == "k":
                    n = min(len(g[1]), len(h[1]))
                    x, y = (g[1][-n:], h[1][-n:]) if rev else (g[1][:n], h[1][:n])
                    if x != y:
                        return False
                    for lst, s in ((A, g), (B, h)):
                        rest = s[1][:-n] if rev else s[1][n:]
                        if rest:
                            lst[0] = ("k", rest)
                        else:
                            lst.pop(0)
                    continue
                # single cells at this end, if each segment is known to be non-empty
                if any(s[0] in ("s", "r", "u") and not self.positive(seg_len(s)) for s in (g, h)):
                    break
                cells = []
                for s in (g, h):
                    if s[0] == "u":
                        raise Imprecise("comparison of undefined bytes")
                    o = 0 if not rev else sub(seg_len(s), 1)
                    cells.append(self.seg_char(s, o))
                c = self._cells_eq(*cells)
                r = c if isinstance(c, bool) else self.known(c)
                if r is False:
                    return False
                if r is None:
                    break
                for lst, s in ((A, g), (B, h)):
                    if s[0] == "v":
                        lst.pop(0)
                    else:
                        L = seg_len(s)
                        x, y = self.cut(s, sub(L, 1) if rev else 1)
                        lst[0] = x if rev else y
                        if seg_len(lst[0]) == 0:
                            lst.pop(0)
            else:
                if not A and not B:
                    return True
                for s in A + B:
                    if self.positive(seg_len(s)):
                        return False
                if not rev:
                    continue
        return None

    def _streq_cond(self, a, b):
        """a condition on one character which would help to decide, when all segments have known length"""
        if not isconst(a.len()) or not isconst(b.len()):
            return None
        n = a.len()
        for i in range(int(n)):
            c = self._cells_eq(self.char_at(a, i), self.char_at(b, i))
            if not isinstance(c, bool) and self.known(c) is None:
                if c.kind == "bm":
                    return Cond(c.kind, c.a, c.b, False)
                return None
        return None

    def find(self, s, pat, pos, rev=False):
        """position of the first occurrence of any char in the set `pat` (a mask) at or after pos,
        or None"""
        off = pos
        _, rest = self.split_at(s, pos)
        for g in rest.segs:
            if g[0] == "k":
                for j, ch in enumerate(g[1]):
                    if ord(ch) < 256 and pat >> ord(ch) & 1:
                        return add(off, j)
            elif g[0] == "v":
                if isinstance(g[1], BV):
                    m = mask_of(i for i in range(256) if g[1].tbl[i] >= -128 and pat >> (g[1].tbl[i] & 255) & 1)
                    c = bm(g[1].a, m)
                    if c if isinstance(c, bool) else self.decide(c):
                        return off
                else:
                    raise Imprecise("find")
            elif g[0] == "s":
                m = seg_map_mask(g)
                if m & pat:
                    if isconst(seg_len(g)):
                        n = seg_len(g)
                        for j in range(int(n)):
                            bv = self.seg_char(g, j)
                            if isinstance(bv, int):
                                if pat >> (bv & 255) & 1:
                                    return add(off, j)
                                continue
                            mm = mask_of(i for i in range(256) if pat >> (bv.tbl[i] & 255) & 1)
                            c = bm(bv.a, mm)
                            if c if isinstance(c, bool) else self.decide(c):
                                return add(off, j)
                        off = add(off, seg_len(g))
                        continue
                    key = ("has", Str((g,)), pat)
                    if self.decide(Cond("op", key)):
                        a = atom("findpos", Str((g,)), pat, lo=0)
                        self.add_ge(sub(sub(seg_len(g), 1), P(a)), False)
                        ca = chatom(g[1], add(g[2], P(a)))
                        if g[4] is None:
                            self.cs[ca] = self.mask(ca) & pat
                        return add(off, P(a))
            elif g[0] == "r":
                if pat >> g[1] & 1:
                    if self.decide(lt(0, g[2])):
                        return off
            elif g[0] == "u":
                raise Imprecise("search in undefined bytes")
            off = add(off, seg_len(g))
        return None

    def find_str(self, s, pat, pos):
        """first occurrence of the constant string pat"""
        if len(pat) == 1:
            return self.find(s, mask_of([ord(pat)]) if ord(pat) < 256 else 0, pos)
        if pat == "":
            return pos
        # candidate positions by first character
        p = pos
        for _ in range(1000):
            q = self.find(s, mask_of(ord(pat[0])), p) if False else self.find(s, mask_of([ord(pat[0])]), p)
            if q is None:
                return None
            if self.decide(lt(s.len(), add(q, len(pat)))):
                return None
            if self.streq(self.substr(s, q, len(pat)), K(pat)):
                return q
            p = add(q, 1)
        raise Imprecise("find_str")

    def map_chars(self, s, tbl):
        """apply a byte table to every character"""
        out = []
        for g in s.segs:
            if g[0] == "k":
                out.append(("k", "".join(chr(tbl[ord(c)] & 255) if ord(c) < 256 else c for c in g[1])))
            elif g[0] == "v":
                if isinstance(g[1], BV):
                    out.append(("v", BV(g[1].a, tuple(tbl[x & 255] & 255 for x in g[1].tbl))))
                else:
                    raise Imprecise("map")
            elif g[0] == "s":
                old = g[4] or IDENT
                new = tuple(tbl[x & 255] & 255 for x in old)
                m = g[1].mask
                if all(new[i] == i for i in mask_chars(m)):
                    new = None
                out.append(("s", g[1], g[2], g[3], new))
            elif g[0] == "r":
                out.append(("r", tbl[g[1]] & 255, g[2]))
            else:
                out.append(g)
        return Str(out)

    def trim(self, s, pat, left=True, right=True):
        segs = list(s.segs)
        if left:
            while segs:
                r = self._trim_one(segs, 0, pat)
                if not r:
                    break
        if right:
            while segs:
                r = self._trim_one(segs, -1, pat)
                if not r:
                    break
        return Str(segs)

    def _trim_one(self, segs, end, pat):
        """try to remove one character (or a whole segment) at an end; True if something was removed"""
        g = segs[end]
        if g[0] == "k":
            k = g[1]
            c = k[end]
            if ord(c) < 256 and pat >> ord(c) & 1:
                k = k[1:] if end == 0 else k[:-1]
                if k:
                    segs[end] = ("k", k)
                else:
                    segs.pop(end)
                return True
            return False
        if g[0] == "v":
            if not isinstance(g[1], BV):
                raise Imprecise("trim")
            m = mask_of(i for i in range(256) if pat >> (g[1].tbl[i] & 255) & 1)
            c = bm(g[1].a, m)
            if c if isinstance(c, bool) else self.decide(c):
                segs.pop(end)
                return True
            return False
        if g[0] == "s":
            m = seg_map_mask(g)
            if m & ~pat == 0:
                segs.pop(end)
                return True
            if m & pat == 0:
                if self.decide(lt(0, seg_len(g))):
                    return False
                segs.pop(end)
                return True
            # some opaque part goes away: a new bound for the slice
            L = seg_len(g)
            if isconst(L) and L == 1:
                bv = self.seg_char(g, 0)
                if isinstance(bv, int):
                    hit = bool(pat >> (bv & 255) & 1)
                else:
                    mm = mask_of(i for i in range(256) if pat >> (bv.tbl[i] & 255) & 1)
                    c = bm(bv.a, mm)
                    hit = c if isinstance(c, bool) else self.decide(c)
                if hit:
                    segs.pop(end)
                    return True
                return False
            a = atom("trim", Str((g,)), pat, "l" if end == 0 else "r", lo=0)
            key = ("trimdone", a)
            if self.eqs.get(key):
                return False
            self.add_ge(sub(L, P(a)), False)
            if end == 0:
                segs[0] = ("s", g[1], add(g[2], P(a)), g[3], g[4])
            else:
                segs[-1] = ("s", g[1], g[2], sub(g[3], P(a)), g[4])
            if not self.decide(lt(P(a), L)):
                segs.pop(end)
                return True
            # the new end character is not in pat
            g2 = segs[end]
            if g2[4] is None:
                ca = chatom(g2[1], g2[2] if end == 0 else sub(g2[3], 1))
                self.cs[ca] = self.mask(ca) & ~pat
            return False
        if g[0] == "r":
            if pat >> g[1] & 1:
                segs.pop(end)
                return True
            if self.decide(lt(0, g[2])):
                return False
            segs.pop(end)
            return True
        raise Imprecise("trim undefined bytes")


def subst_value(x, at, v):
    if isinstance(x, (int, bool, Fraction, Top, Uninit)) or x is None:
        return x
    if isinstance(x, Poly):
        return subst_num(x, at, v)
    if isinstance(x, (BV, Str, Cond, Atom)):
        if not _mentions(x, at):
            return x
        return subst_any(x, at, v)
    if isinstance(x, Rec):
        nf = {}
        ch = False
        for k, y in x.f.items():
            z = subst_value(y, at, v)
            nf[k] = z
            if z is not y:
                ch = True
        return Rec(x.cls, nf) if ch else x
    if isinstance(x, Opt):
        e = subst_value(x.e, at, v)
        w = subst_value(x.v, at, v)
        return x if e is x.e and w is x.v else Opt(e, w)
    if isinstance(x, Vec):
        it = tuple(subst_value(y, at, v) for y in x.items)
        return x if all(a is b for a, b in zip(it, x.items)) else Vec(it, x.t)
    if isinstance(x, Many):
        return Many(subst_value(x.n, at, v), x.tid, x.tag)
    if isinstance(x, Map):
        it = tuple((subst_value(k, at, v), subst_value(y, at, v)) for k, y in x.items)
        return Map(it, x.open, x.t)
    if isinstance(x, Ref):
        p = tuple(tuple(subst_value(z, at, v) if not isinstance(z, str) else z for z in y) for y in x.path)
        return x if p == x.path else Ref(x.root, p)
    if isinstance(x, Ptr):
        return x if x.r is None else Ptr(subst_value(x.r, at, v))
    if isinstance(x, It):
        pos = x.pos
        if isnum(pos):
            pos = subst_num(pos, at, v)
        return It(subst_value(x.c, at, v), pos, x.rev)
    if isinstance(x, Tag):
        return Tag(x.k, subst_value(x.v, at, v))
    if isinstance(x, tuple):
        return tuple(subst_value(y, at, v) if not isinstance(y, str) else y for y in x)
    if isinstance(x, list):
        return [subst_value(y, at, v) for y in x]
    if isinstance(x, dict):
        return {k: subst_value(y, at, v) for k, y in x.items()}
    if isinstance(x, Closure):
        return Closure(x.mod, x.f, {k: subst_value(y, at, v) for k, y in x.caps.items()}, subst_value(x.this, at, v) if x.this is not None else None)
    if isinstance(x, Bound):
        return Bound(subst_value(x.fn, at, v), [subst_value(y, at, v) for y in x.args])
    if isinstance(x, Exc):
        return Exc(x.cls, subst_value(x.v, at, v), x.loc)
    return x


def _mentions(x, at):
    return dom._mentions(x, at)
