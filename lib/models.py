"""Abstract semantics of the library functions which the code under analysis calls.

Each model is the documented contract of the function on abstract values; where the contract depends
on something the domain does not know, the model asks for a case split (NeedSplit) or gives up
(Imprecise), which the checks treat as "no verdict".
"""
from fractions import Fraction
import math
import re
import struct

try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:      # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

import dom
from dom import *
from state import *

DIGITS = mask_of("0123456789")
HEX = mask_of("0123456789abcdefABCDEF")
SPACE = mask_of(" \t\n\v\f\r")
IOSTREAM = ("std::basic_ostream", "std::basic_istream", "std::basic_ios", "std::basic_ofstream", "std::basic_ifstream",
            "std::basic_ostringstream", "std::basic_stringstream", "std::basic_istringstream", "std::basic_fstream",
            "std::ios_base", "std::basic_iostream")


def _throw(cls, v=None):
    import interp
    raise interp.Throw(cls, v)


def _abort():
    import interp
    raise interp.Abort()


def bad(I, st, kind, **info):
    st.event(kind, I.where(st), **info)
    _abort()


# ---------------------------------------------------------------- helpers

def V(st, x):
    """the value of an argument"""
    if isinstance(x, Ref):
        return st.read(x)
    return x


def obj(I, st, x):
    """location of the object a method is called on"""
    r = I.objref(st, x) if not isinstance(x, Top) else None
    if r is None:
        raise Imprecise("method of unknown object")
    if r.root in st.freed:
        bad(I, st, "use after free", root=r.root)
    return r


def oval(I, st, x):
    r = obj(I, st, x)
    v = st.read(r)
    if isinstance(v, Top):
        raise Imprecise("unknown object: " + v.why)
    if v is UNINIT:
        raise Imprecise("object with unknown contents")
    return r, v


def num(I, st, x):
    v = V(st, x)
    if isinstance(v, Top):
        raise Imprecise(v.why)
    return I.num(st, v)


def cstr(I, st, p):
    """the C string a pointer designates"""
    if p.r is None:
        bad(I, st, "null dereference")
    if p.r.root in st.freed:
        bad(I, st, "use after free", root=p.r.root)
    path = p.r.path
    if path and path[-1][0] in ("c", "i"):
        c = st.read(Ref(p.r.root, path[:-1]))
        i = path[-1][1]
    else:
        c = st.read(p.r)
        i = 0
    if not isinstance(c, Str):
        raise Imprecise("C string from %r" % (c,))
    _, rest = st.split_at(c, i)
    z = st.find(rest, 1, 0)
    if z is None:
        return rest
    return st.split_at(rest, z)[0]


def S(I, st, x):
    """an argument as a string"""
    v = V(st, x)
    if isinstance(v, Str):
        return v
    if isinstance(v, Ptr):
        return cstr(I, st, v)
    if isinstance(v, Top):
        raise Imprecise("unknown string: " + v.why)
    if isinstance(v, (int, BV, Poly)):
        return Str((("v", v),))
    raise Imprecise("string from %r" % (v,))


def konst(I, st, x, what):
    s = S(I, st, x).const()
    if s is None:
        raise Imprecise(what + " is not constant")
    return s


def code(st, v):
    """a value stored as a character"""
    if isinstance(v, BV):
        return st.bv_const(BV(v.a, tuple(x & 255 for x in v.tbl)))
    if isinstance(v, int) and -128 <= v < 0:
        return v & 255
    return v


def vmask(v, m):
    """bytes for which the value v (BV) is in the mask m"""
    return mask_of(i for i in range(256) if m >> (v.tbl[i] & 255) & 1)


def char_in(I, st, v, m):
    v = st.bv_const(v) if isinstance(v, BV) else v
    if isinstance(v, BV):
        return bm(v.a, vmask(v, m))
    if isconst(v):
        return bool(v < 256 and m >> (int(v) & 255) & 1)
    if isinstance(v, Poly):
        for c in mask_chars(m):
            if st.decide(eq(v, c)):
                return True
        return False
    raise Imprecise("character class")


def dec(st, x, width=0, pad="0"):
    """decimal representation"""
    if isconst(x):
        if not nint(x):
            return K(fmt_float(x))
        s = str(int(x))
        if width and len(s) < width:
            if pad == "0" and x < 0:
                s = "-" + s[1:].rjust(width - 1, "0")
            else:
                s = s.rjust(width, pad)
        return K(s)
    lo, hi = st.interval(x)
    m = DIGITS
    if lo is None or lo < 0:
        m |= mask_of("-")
    if not nint(x):
        m |= mask_of(".e+-")
    if width and pad != "0":
        m |= mask_of(pad)
    fixed = None
    if lo is not None and lo >= 0 and hi is not None and nint(x):
        if hi < 10 ** max(width, 1):
            fixed = max(width, 1)
        elif len(str(int(lo))) == len(str(int(hi))):
            fixed = len(str(int(hi)))
    # no number of the program has more than 64 bits
    s = sid_for(("dec", x, width, pad, fixed, m), m, False, max(1, width), fixed, max(24, width))
    return Str((("s", s, 0, s.length(), None),))


def fmt_float(x):
    return ("%g" % float(x))


def undec(s):
    """the number whose representation s is, if s was made by dec()"""
    if len(s.segs) == 1 and s.segs[0][0] == "s":
        g = s.segs[0]
        if g[1].key[0] == "dec" and g[2] == 0 and g[3] == g[1].length() and g[4] is None and nint(g[1].key[1]):
            return g[1].key[1]
    return None


def digits_value(st, s):
    """value of a non-empty string of decimal digits, or None if it is not known to be one"""
    c = s.const()
    if c is not None:
        return int(c) if c and all(x in "0123456789" for x in c) else None
    u = undec(s)
    if u is not None and st.nonneg(u):
        return u
    if not st.positive(s.len()):
        return None
    for i, g in enumerate(s.segs):
        if g[0] == "u":
            return None
        if seg_known_mask(st, g) & ~DIGITS:
            return None
    if isconst(s.len()) and s.len() <= 12:
        v = 0
        for i in range(int(s.len())):
            x = st.char_at(s, i)
            if isinstance(x, BV):
                x = add(bv_num(BV(x.a, IDENT)), 0) if x.tbl == IDENT else bv_num(x)
            v = add(mul(v, 10), sub(x, 48))
        return v
    return P(atom("num10", s, lo=0))


def seg_known_mask(st, g):
    if g[0] == "v" and isinstance(g[1], BV):
        m = 0
        for i in mask_chars(st.mask(g[1].a)):
            m |= 1 << (g[1].tbl[i] & 255)
        return m
    if g[0] == "s" and isconst(seg_len(g)) and seg_len(g) <= 12:
        m = 0
        for j in range(int(seg_len(g))):
            x = st.seg_char(g, j)
            if isinstance(x, BV):
                for i in mask_chars(st.mask(x.a)):
                    m |= 1 << (x.tbl[i] & 255)
            else:
                m |= 1 << (x & 255)
        return m
    return seg_map_mask(g)


# ---------------------------------------------------------------- types

STRINGS = ("std::basic_string", "std::string")
SEQ = ("std::vector", "std::list", "std::deque", "std::initializer_list")
MAPS = ("std::map", "std::multimap", "std::unordered_map", "std::set")
BYTEVEC = ("char", "unsigned char", "signed char")


def elem_is_byte(t):
    n = t.get("n") or ""
    return bool(re.match(r"std::(vector|array)<(const )?(unsigned |signed )?char[,>]", n))


def default_of(t):
    q = t.get("q")
    if q in STRINGS:
        return EMPTY
    if q in ("boost::optional", "std::optional"):
        return NONE
    if q in SEQ:
        if elem_is_byte(t):
            return EMPTY
        return Vec((), t.get("n"))
    if q == "std::array":
        m = re.search(r", (\d+)>$", t["n"])
        n = int(m.group(1)) if m else 0
        if elem_is_byte(t):
            return Str([("u", n)])
        return Vec([UNINIT] * n)
    if q in MAPS:
        return Map((), False, t.get("n"))
    if q in ("std::shared_ptr", "std::unique_ptr", "boost::shared_ptr", "boost::scoped_ptr", "boost::scoped_array", "boost::shared_array"):
        return Smart(None, arr="[]" in t["n"] or q.endswith("array"))
    if q in ("boost::function", "std::function"):
        return NULL
    if q == "boost::match_results":
        return Rec("match", {"g": Vec(())})
    if q == "boost::basic_regex":
        return Tag("regex", "")
    if q == "boost::filesystem::path":
        return EMPTY
    if q in ("std::basic_ostringstream", "std::basic_stringstream", "std::basic_ofstream"):
        return ostream(EMPTY)
    if q == "std::pair":
        return None
    if q in ("std::allocator", "std::locale", "boost::noncopyable_::noncopyable"):
        return Tag(q)
    return None


def ostream(path=None):
    return Rec("std::ostream", {"out": EMPTY, "path": path if path is not None else EMPTY, "w": 0, "fill": 32})


def istream(data, path=None):
    return Rec("std::istream", {"data": data, "pos": 0, "gcount": 0, "good": True, "fail": False, "path": path if path is not None else EMPTY})


def ttarg(I, st, t, i=0):
    return None


# ---------------------------------------------------------------- iterators

def csize(v):
    if isinstance(v, Str):
        return v.len()
    if isinstance(v, Vec):
        return v.size()
    if isinstance(v, Map):
        return len(v.items)
    raise Imprecise("size of %r" % (v,))


def it_ref(I, st, it):
    v = st.read(it.c)
    if isinstance(v, Top):
        raise Imprecise(v.why)
    pos = sub(it.pos, 1) if it.rev else it.pos
    n = csize(v)
    if st.decide(lt(pos, 0)) or st.decide(le(n, pos)):
        bad(I, st, "iterator dereferenced outside its container", index=str(pos), size=str(n))
    if isinstance(v, Map):
        return it.c.f("mp", pos)
    return it.c.f("i", pos)


def check_index(I, st, c, i, n, what):
    if st.decide(lt(i, 0)) or st.decide(le(n, i)):
        bad(I, st, "index out of bounds", index=fmt_num(i), size=fmt_num(n), what=what)


def it_of(I, st, x):
    v = V(st, x)
    if isinstance(v, It):
        return v
    if isinstance(v, Ptr) and v.r is not None and v.r.path and v.r.path[-1][0] in ("i", "c"):
        return It(Ref(v.r.root, v.r.path[:-1]), v.r.path[-1][1])
    if isinstance(v, Ptr) and v.r is not None:
        return It(v.r, 0)
    raise Imprecise("iterator %r" % (v,))


def rng(I, st, a, b):
    a, b = it_of(I, st, a), it_of(I, st, b)
    if a.c != b.c or a.rev != b.rev:
        raise Imprecise("iterator range")
    return a.c, a.pos, b.pos, a.rev


def it_cmp(I, st, op, a, b):
    a, b = V(st, a), V(st, b)
    if not isinstance(a, It) or not isinstance(b, It):
        if isinstance(a, Top) or isinstance(b, Top):
            raise Imprecise("iterator comparison")
        return I.binop(st, op, a, b, {"k": "bool"})
    if a.c != b.c:
        raise Imprecise("comparison of iterators of different containers")
    x, y = a.pos, b.pos
    if a.rev:
        x, y = y, x
    r = {"==": lambda: eq(x, y), "!=": lambda: cnot(eq(x, y)), "<": lambda: lt(x, y), ">": lambda: lt(y, x),
         "<=": lambda: le(x, y), ">=": lambda: le(y, x)}[op]()
    return r


def it_step(d):
    def f(I, st, r, a, e):
        ref = obj(I, st, a[0])
        it = V(st, ref)
        if isinstance(it, Top):
            raise Imprecise(it.why)
        if isinstance(it, Ptr):
            st.write(ref, I.ptr_add(st, it, d))
            return it if len(a) > 1 else ref
        new = It(it.c, add(it.pos, -d if it.rev else d), it.rev)
        st.write(ref, new)
        return it if len(a) > 1 else ref
    return f


def it_plus(sign):
    def f(I, st, r, a, e):
        it = V(st, a[0])
        o = V(st, a[1])
        if isinstance(o, It) and isinstance(it, It):
            return sub(o.pos, it.pos) if it.rev else sub(it.pos, o.pos)
        if not isinstance(it, It):
            raise Imprecise("iterator arithmetic")
        n = num(I, st, o)
        if sign < 0:
            n = neg(n)
        return It(it.c, sub(it.pos, n) if it.rev else add(it.pos, n), it.rev)
    return f


# ---------------------------------------------------------------- equality

def repo_op(I, op, cls):
    """a function of the repository comparing two objects of class cls"""
    for k, (m, f) in I.fn.items():
        r = m["fnrefs"][f["ref"]]
        if f.get("body") is None or not r["q"].endswith("operator" + op):
            continue
        ps = f["params"]
        if r.get("cls") == cls and len(ps) == 1:
            return k, True
        if not r.get("cls") and len(ps) == 2:
            t = m["types"][ps[0][2]]
            if t["k"] == "ref":
                t = m["types"][t["to"]]
            if t.get("n") == cls:
                return k, False
    return None


def cmp_values(I, s, op, x, y):
    """compare two values with == (or <); pushes a bool/Cond; returns states"""
    x, y = V(s, x), V(s, y)
    if isinstance(x, Rec) and isinstance(y, Rec):
        h = repo_op(I, op, x.cls)
        if h is None and op == "==":
            h2 = repo_op(I, "!=", x.cls)
        if h is None:
            if x.cls in ("std::pair", "std::tuple") and x.cls == y.cls and len(x.f) == len(y.f):
                if op == "==":
                    return cmp_list(I, s, [x.f[k] for k in sorted(x.f)], [y.f[k] for k in sorted(x.f)])
                if op == "<":
                    return less_list(I, s, [x.f[k] for k in sorted(x.f)], [y.f[k] for k in sorted(x.f)])
            s.note_imp("comparison of " + x.cls)
            s.vals.append(Top("comparison of " + x.cls))
            return [s]
        key, member = h
        rx, ry = I.temp(s, x), I.temp(s, y)
        if member:
            return I.call_fn(s, key, [ry], rx)
        return I.call_fn(s, key, [rx, ry], None)
    if isinstance(x, Opt) and isinstance(y, Opt):
        return cmp_opt(I, s, x, y)
    if isinstance(x, Opt) != isinstance(y, Opt):
        if isinstance(y, Opt):
            x, y = y, x
        if op == "==":
            return cmp_opt(I, s, x, Opt(True, y))
    if isinstance(x, Vec) and isinstance(y, Vec) and op == "==":
        if x.known() and y.known():
            if len(x.items) != len(y.items):
                s.vals.append(False)
                return [s]
            return cmp_list(I, s, x.items, y.items)
        s.note_imp("comparison of sequences of unknown length")
        s.vals.append(Top("comparison"))
        return [s]
    if isinstance(x, Map) and isinstance(y, Map) and op == "==":
        if len(x.items) != len(y.items):
            s.vals.append(False)
            return [s]
        return cmp_list(I, s, [z for p in x.items for z in p], [z for p in y.items for z in p])

    def f(st, a):
        u, w = a
        if isinstance(u, Str) and isinstance(w, Str):
            if op == "==":
                return st.streq(u, w)
            return str_less(st, u, w)
        return I.binop(st, op, u, w, {"k": "bool"})
    s.vals.extend([x, y])
    return I.prim(s, 2, f)


def str_less(st, u, w):
    a, b = u.const(), w.const()
    if a is not None and b is not None:
        return a < b
    raise Imprecise("ordering of strings")


def cmp_list(I, s, xs, ys):
    out = []
    live = [s]
    for x, y in zip(xs, ys):
        nxt = []
        for st in live:
            for o in cmp_values(I, st, "==", x, y):
                if o.ctl is not None:
                    out.append(o)
                    continue
                t, f = I.branch(o)
                nxt.extend(t)
                for z in f:
                    z.vals.append(False)
                    out.append(z)
        live = nxt
    for o in live:
        o.vals.append(True)
        out.append(o)
    return out


def less_list(I, s, xs, ys):
    """lexicographic <"""
    out = []
    live = [s]
    for n, (x, y) in enumerate(zip(xs, ys)):
        nxt = []
        for st in live:
            for o in cmp_values(I, st, "<", x, y):
                if o.ctl is not None or n == len(xs) - 1:
                    out.append(o)
                    continue
                t, f = I.branch(o)
                for z in t:
                    z.vals.append(True)
                    out.append(z)
                for z in f:
                    for q in cmp_values(I, z, "<", y, x):
                        if q.ctl is not None:
                            out.append(q)
                            continue
                        t2, f2 = I.branch(q)
                        for w in t2:
                            w.vals.append(False)
                            out.append(w)
                        nxt.extend(f2)
        live = nxt
    return out


def cmp_opt(I, s, x, y):
    out = []
    s.vals.append(x.e)
    t1, f1 = I.branch(s)
    for z in t1:
        z.vals.append(y.e)
        t2, f2 = I.branch(z)
        for w in t2:
            out.extend(cmp_values(I, w, "==", x.v, y.v))
        for w in f2:
            w.vals.append(False)
            out.append(w)
    for z in f1:
        z.vals.append(y.e)
        t2, f2 = I.branch(z)
        for w in t2:
            w.vals.append(False)
            out.append(w)
        for w in f2:
            w.vals.append(True)
            out.append(w)
    return out


def not_top(states):
    for s in states:
        if s.ctl is None and not isinstance(s.vals[-1], Top):
            s.vals[-1] = cnot(s.vals[-1])
    return states


def norm_pair(I, s, a):
    """values for a comparison: C strings become strings"""
    out = []
    vs = [V(s, x) for x in a]
    for x in vs:
        out.append(x)
    return out


def c_equal(I, s, r, a, e):
    op = r["q"].split("operator")[-1].strip()
    vs = [V(s, x) for x in a]
    if any(isinstance(v, (It,)) for v in vs):
        s.vals.extend(vs)
        return I.prim(s, 2, lambda st, z: it_cmp(I, st, op, z[0], z[1]))
    if any(isinstance(v, Top) for v in vs):
        s.note_imp("comparison of unknown value")
        s.vals.append(Top("comparison"))
        return [s]
    # a string against a C string (or none)
    if any(isinstance(v, Str) for v in vs):
        def f(st, z):
            u, w = S(I, st, z[0]), S(I, st, z[1])
            if op in ("==", "!="):
                c = st.streq(u, w)
                return c if op == "==" else cnot(c)
            if op == "<":
                return str_less(st, u, w)
            if op == ">":
                return str_less(st, w, u)
            raise Imprecise("operator" + op)
        s.vals.extend(a)
        return I.prim(s, 2, f)
    if any(isinstance(v, (Ptr, Smart)) for v in vs):
        s.vals.extend(vs)
        return I.prim(s, 2, lambda st, z: I.binop(st, op, z[0], z[1], {"k": "bool"}))
    # against none
    for i in (0, 1):
        if isinstance(vs[i], Opt) and isinstance(vs[1 - i], Tag) and "none" in str(vs[1 - i]):
            vs[1 - i] = NONE
    if op == "==":
        return cmp_values(I, s, "==", *vs)
    if op == "!=":
        return not_top(cmp_values(I, s, "==", *vs))
    if op == "<":
        return cmp_values(I, s, "<", *vs)
    if op == ">":
        return cmp_values(I, s, "<", vs[1], vs[0])
    if op == ">=":
        return not_top(cmp_values(I, s, "<", *vs))
    if op == "<=":
        return not_top(cmp_values(I, s, "<", vs[1], vs[0]))
    s.note_imp("operator" + op)
    s.vals.append(Top("operator" + op))
    return [s]


# ---------------------------------------------------------------- constructors

def find_ctor(I, r):
    q = r["q"]
    cls = q.rsplit("::", 1)[0]
    if cls in STRINGS:
        return ct_string
    if cls in ("boost::optional", "std::optional"):
        return ct_opt
    if cls in SEQ or cls == "std::array":
        return ct_vec
    if cls in MAPS:
        return ct_map
    if cls in ("boost::function", "std::function"):
        return ct_fn
    if cls in ("std::runtime_error", "std::logic_error", "std::invalid_argument", "std::out_of_range", "std::exception", "std::range_error",
               "std::length_error", "std::bad_alloc", "boost::bad_lexical_cast", "std::bad_cast", "boost::bad_optional_access"):
        return ct_exc
    if cls in ("std::shared_ptr", "std::unique_ptr", "boost::shared_ptr", "boost::scoped_ptr", "boost::scoped_array", "boost::shared_array"):
        return ct_smart
    if cls in ("std::pair", "std::tuple"):
        return lambda I, st, r, t, a, e: Rec("std::pair", dict(zip(("first", "second", "third", "fourth", "fifth"), [V(st, x) for x in a]))) if a else None
    if cls in ("std::_List_const_iterator", "std::_Rb_tree_const_iterator", "std::_List_iterator", "std::_Rb_tree_iterator",
               "__gnu_cxx::__normal_iterator", "std::reverse_iterator", "boost::sub_match", "boost::algorithm::detail::is_any_ofF",
               "std::fpos", "boost::_bi::bind_t", "std::_Setw", "std::_Setfill"):
        return lambda I, st, r, t, a, e: V(st, a[0]) if a else Tag(cls)
    if cls == "boost::basic_regex":
        return lambda I, st, r, t, a, e: Tag("regex", konst(I, st, a[0], "regular expression")) if not isinstance(V(st, a[0]), Tag) else V(st, a[0])
    if cls == "boost::match_results":
        return lambda I, st, r, t, a, e: Rec("match", {"g": Vec(())})
    if cls == "boost::filesystem::path":
        return lambda I, st, r, t, a, e: S(I, st, a[0]) if a else EMPTY
    if cls == "std::basic_ofstream":
        return ct_ofstream
    if cls == "std::basic_ifstream":
        return ct_ifstream
    if cls == "std::basic_istringstream":
        return lambda I, st, r, t, a, e: istream(S(I, st, a[0]) if a else EMPTY)
    if cls in ("std::basic_ostringstream", "std::basic_stringstream"):
        def ct_ss(I, st, r, t, a, e):
            o = ostream(EMPTY)
            if a:
                try:
                    o = o.with_("out", S(I, st, a[0]))
                except Imprecise:
                    pass
            if cls == "std::basic_stringstream":
                o = o.with_("rpos", 0).with_("rfail", False)
            return o
        return ct_ss
    if cls == "std::locale":
        def ct_locale(I, st, r, t, a, e):
            if not a:
                return Tag(cls, "global")
            v = V(st, a[0])
            if isinstance(v, Tag):
                return v
            return Tag(cls, "classic" if konst(I, st, a[0], "locale") in ("C", "POSIX") else "global")
        return ct_locale
    if cls in ("std::allocator", "boost::noncopyable_::noncopyable"):
        return lambda I, st, r, t, a, e: Tag(cls)
    return None


def ct_string(I, st, r, t, a, e):
    if not a:
        return EMPTY
    pt = r["pt"]
    v = V(st, a[0])
    if isinstance(v, It):
        c, lo, hi, _ = rng(I, st, a[0], a[1])
        s = st.read(c)
        if not isinstance(s, Str):
            raise Imprecise("string from a range")
        return st.substr(s, lo, sub(hi, lo))
    if isinstance(v, Vec):
        return Str([("v", code(st, x)) for x in v.items])
    if isnum(v) or isinstance(v, BV):
        n = num(I, st, v)
        c = code(st, V(st, a[1]))
        c = st.bv_const(c)
        if isinstance(c, int):
            if st.decide(lt(n, 0)):
                raise Imprecise("string of negative length")
            return Str([("r", c, n)])
        if isconst(n) and n <= 64:
            return Str([("v", c)] * int(n))
        raise Imprecise("string fill")
    if isinstance(v, Ptr) and len(a) >= 2 and isnum(V(st, a[1])):
        s, i = bufpos(I, st, v)
        n = num(I, st, a[1])
        if st.decide(lt(s.len(), add(i, n))):
            if not (v.r.root[0] == "lit" or v.r.path[-1][0] == "c") or st.decide(lt(add(s.len(), 1), add(i, n))):
                bad(I, st, "read beyond the end of a buffer", size=fmt_num(s.len()), end=fmt_num(add(i, n)))
            return cat(st.substr(s, i), "\0")
        return st.substr(s, i, n)
    if isinstance(v, Ptr) and len(a) >= 2 and isinstance(V(st, a[1]), Ptr):
        x, y = v, V(st, a[1])
        s, i = bufpos(I, st, x)
        _, j = bufpos(I, st, y)
        return st.substr(s, i, sub(j, i))
    if isinstance(v, Str) and len(a) >= 2 and isnum(V(st, a[1])) and len(pt) >= 2:
        return m_substr(I, st, r, a, e)
    return S(I, st, v)


def ct_opt(I, st, r, t, a, e):
    if not a:
        return NONE
    v = V(st, a[0])
    if len(a) == 2 and isinstance(v, (bool, Cond)):
        return Opt(v, V(st, a[1]))
    if isinstance(v, Opt):
        return v
    if isinstance(v, Tag) and "none" in repr(v):
        return NONE
    if isinstance(v, (NULL.__class__,)) and "none_t" in str([I.T(I.mod(st), p)["s"] for p in r["pt"]]):
        return NONE
    if any("none_t" in I.T(I.mod(st), p)["s"] for p in r["pt"][:1]):
        return NONE
    return Opt(True, v)


def ct_vec(I, st, r, t, a, e):
    byte = elem_is_byte(t)
    if not a:
        return EMPTY if byte else Vec((), t.get("n"))
    v = V(st, a[0])
    if isinstance(v, It) or (isinstance(v, Ptr) and len(a) >= 2):
        c, lo, hi, rev = rng(I, st, a[0], a[1])
        s = st.read(c)
        if isinstance(s, Str):
            s = st.substr(s, lo, sub(hi, lo))
            if byte:
                return s
            raise Imprecise("vector from a string")
        if isinstance(s, Vec) and isconst(lo) and isconst(hi) and not rev:
            return Vec(s.items[int(lo):int(hi)], t.get("n"))
        raise Imprecise("vector from a range")
    if isnum(v) or isinstance(v, BV):
        n = num(I, st, v)
        fill = V(st, a[1]) if len(a) > 1 and not isinstance(V(st, a[1]), Tag) else None
        if byte:
            c = 0 if fill is None else st.bv_const(code(st, fill))
            if isinstance(c, int):
                return Str([("r", c, n)])
            raise Imprecise("vector fill")
        if isconst(n) and n <= 4096:
            if fill is None:
                m = I.mod(st)
                et = None
                if t.get("args"):
                    et = t["args"][0]
                fill = I.zero(m, et) if et is not None and isinstance(et, int) else Top("element")
            return Vec([fill] * int(n), t.get("n"))
        raise Imprecise("vector of unknown size")
    if isinstance(v, (Vec, Str)):
        return v if not isinstance(v, Vec) or not byte else Str([("v", code(st, x)) for x in v.items])
    if isinstance(v, Tag):
        return EMPTY if byte else Vec((), t.get("n"))
    raise Imprecise("vector from %r" % (v,))


def ct_map(I, st, r, t, a, e):
    m = Map((), False, t.get("n"))
    for x in a:
        v = V(st, x)
        if isinstance(v, Map):
            return v
        if isinstance(v, Vec):
            for p in v.items:
                p = V(st, p)
                m = map_put(st, m, p.f["first"], p.f["second"])
    return m


def ct_fn(I, st, r, t, a, e):
    if not a:
        return NULL
    v = V(st, a[0])
    return v


def ct_exc(I, st, r, t, a, e):
    cls = r["q"].rsplit("::", 1)[0]
    if a:
        v = V(st, a[0])
        if isinstance(v, Rec):
            return v
        try:
            return Rec(cls, {"what": S(I, st, v)})
        except Imprecise:
            return Rec(cls, {"what": Top("message")})
    return Rec(cls, {"what": EMPTY})


def own(st, root, how="delete"):
    """how the last owner releases it: "delete", "delete[]", or a deleter (a function value)"""
    st.alloc = dict(st.alloc)
    st.alloc[("owned", root)] = how


def ct_smart(I, st, r, t, a, e):
    arr = "[]" in (t.get("n") or "") or r["q"].endswith("array")
    if not a:
        return Smart(None, arr=arr)
    v = V(st, a[0])
    if isinstance(v, Smart):
        if isinstance(a[0], Ref) and "unique" in r["q"] or r.get("ctor") == "move" and isinstance(a[0], Ref):
            st.write(a[0], Smart(None, arr=v.arr))
        return v
    if isinstance(v, Ptr):
        d = V(st, a[1]) if len(a) > 1 else None
        if isinstance(d, Tag):
            d = None
        if v.r is None:
            return Smart(None, arr=arr)
        if v.r.root[0] in ("v", "t", "g") and d is None:
            st.event("smart pointer to a non-heap object", I.where(st))
        own(st, v.r.root, d if d is not None else "delete[]" if arr else "delete")
        return Smart(v.r, v.r.root, d, arr)
    raise Imprecise("smart pointer from %r" % (v,))


def ct_ofstream(I, st, r, t, a, e):
    p = S(I, st, a[0]) if a else EMPTY
    return opened(I, st, ostream(p), p)


def opened(I, st, x, p):
    """a file opened for writing: opening may fail, and so may every moment at which data is flushed"""
    n = 1 + sum(1 for e in st.events if e.kind == "open for writing")
    c = Cond("op", ("opened", p, n))
    st.event("open for writing", I.where(st), path=p, cond=c)
    return x.with_("open", (c,)).with_("file", n).with_("path", p)


def m_open(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    if not isinstance(v, Rec) or "out" not in v.f:
        raise Imprecise("open")
    v = opened(I, st, v, S(I, st, a[1]))
    raise_if_bad(st, v)
    st.write(ref, v)
    return None


def raise_if_bad(st, v):
    if v.f.get("exc"):
        for c in v.f["open"]:
            if not st.decide(c):
                _throw("std::ios_base::failure")


def m_flush(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    if isinstance(v, Rec) and "file" in v.f:
        c = Cond("op", ("flushed", v.f["path"], v.f["file"], sum(1 for e in st.events if e.kind == "stream flushed")))
        v = v.with_("open", v.f["open"] + (c,))
        raise_if_bad(st, v)
        st.event("stream flushed", I.where(st), file=v.f["file"], cond=c, stream=ref)
        st.write(ref, v)
    return a[0] if r["q"].endswith("flush") else None


def m_exceptions(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    if len(a) > 1 and isinstance(v, Rec) and "file" in v.f:
        m = num(I, st, a[1])
        if not isconst(m) or m not in (0, 1, 4, 5, 7):
            raise Imprecise("stream exceptions %s" % (m,))
        v = v.with_("exc", int(m & 5 != 0))
        raise_if_bad(st, v)
        st.write(ref, v)
    return None


def content(st, p):
    """what is in a file: given by the check, otherwise unknown"""
    c = st.mem.get(("content", p.const()))
    if c is not None:
        return c
    s = sid_for(("file", p))
    return Str((("s", s, 0, s.length(), None),))


def ct_ifstream(I, st, r, t, a, e):
    p = S(I, st, a[0]) if a else EMPTY
    return istream(content(st, p), p)


# ---------------------------------------------------------------- buffers

def bufpos(I, st, p):
    if isinstance(p, Ref):
        p = Ptr(p)
    if isinstance(p, It):
        p = Ptr(p.c.f("i", p.pos))
    if isinstance(p, Smart):
        p = Ptr(p.r)
    if not isinstance(p, Ptr):
        raise Imprecise("buffer %r" % (p,))
    if p.r is None:
        bad(I, st, "null dereference")
    if p.r.root in st.freed:
        bad(I, st, "use after free", root=p.r.root)
    path = p.r.path
    if path and path[-1][0] in ("c", "i"):
        c = st.read(Ref(p.r.root, path[:-1]))
        i = path[-1][1]
        if isinstance(c, Str):
            return c, i
        raise Imprecise("buffer of %r" % (c,))
    c = st.read(p.r)
    if isinstance(c, Str):
        return c, 0
    raise Imprecise("buffer of %r" % (c,))


def buf_write(I, st, p, s, what):
    """store the characters of s at p, checking the bounds"""
    if isinstance(p, Smart):
        p = Ptr(p.r)
    if isinstance(p, It):
        p = Ptr(p.c.f("i", p.pos))
    c, i = bufpos(I, st, p)
    n = s.len()
    if st.decide(lt(i, 0)) or st.decide(lt(c.len(), add(i, n))):
        bad(I, st, "write outside a buffer", what=what, start=fmt_num(i), end=fmt_num(add(i, n)), size=fmt_num(c.len()))
    x, rest = st.split_at(c, i)
    _, y = st.split_at(rest, n)
    path = p.r.path
    ref = Ref(p.r.root, path[:-1]) if path and path[-1][0] in ("c", "i") else p.r
    st.write(ref, cat(x, s, y))


def f_memcpy(I, st, r, a, e):
    d, s = V(st, a[0]), V(st, a[1])
    n = num(I, st, a[2])
    if st.decide(lt(n, 0)):
        bad(I, st, "copy of a negative length", length=fmt_num(n))
    if n == 0:
        return d
    src, i = bufpos(I, st, s)
    lim = src.len()
    if s.r.root[0] == "lit" or s.r.path and s.r.path[-1][0] == "c":
        src = cat(src, "\0")
        lim = add(lim, 1)
    if st.decide(lt(lim, add(i, n))):
        bad(I, st, "read beyond the end of a buffer", size=fmt_num(lim), end=fmt_num(add(i, n)))
    buf_write(I, st, d, st.substr(src, i, n), r["q"])
    return d


def f_memset(I, st, r, a, e):
    d = V(st, a[0])
    c = st.bv_const(code(st, V(st, a[1])))
    n = num(I, st, a[2])
    if st.decide(lt(n, 0)):
        bad(I, st, "fill of a negative length", length=fmt_num(n))
    if not isinstance(c, int):
        raise Imprecise("memset of unknown byte")
    if n == 0:
        return d
    buf_write(I, st, d, Str([("r", c & 255, n)]), r["q"])
    return d


def f_fill(I, st, r, a, e):
    c, lo, hi, rev = rng(I, st, a[0], a[1])
    v = st.read(c)
    n = sub(hi, lo)
    x = V(st, a[2])
    if isinstance(v, Str):
        x = st.bv_const(code(st, x))
        if not isinstance(x, int):
            raise Imprecise("fill")
        if n != 0:
            buf_write(I, st, Ptr(c.f("i", lo)), Str([("r", x & 255, n)]), "fill")
        return None
    if isinstance(v, Vec) and isconst(lo) and isconst(hi):
        it = list(v.items)
        for i in range(int(lo), int(hi)):
            it[i] = x
        st.write(c, Vec(it, v.t))
        return None
    raise Imprecise("fill")


def f_fill_n(I, st, r, a, e):
    it = it_of(I, st, a[0])
    n = num(I, st, a[1])
    return f_fill(I, st, r, [it, It(it.c, add(it.pos, n)), a[2]], e)


def f_copy(I, st, r, a, e):
    c, lo, hi, rev = rng(I, st, a[0], a[1])
    v = st.read(c)
    d = V(st, a[2])
    if isinstance(d, Tag) and d.k == "back_inserter":
        t = st.read(d.v)
        if isinstance(v, Vec) and isinstance(t, Vec) and isconst(lo) and isconst(hi):
            st.write(d.v, Vec(t.items + v.items[int(lo):int(hi)], t.t))
            return d
        if isinstance(v, Str) and isinstance(t, Str):
            st.write(d.v, cat(t, st.substr(v, lo, sub(hi, lo))))
            return d
        raise Imprecise("copy")
    if isinstance(v, Str):
        s = st.substr(v, lo, sub(hi, lo))
        if s.len() != 0:
            buf_write(I, st, d, s, "copy")
        if isinstance(d, It):
            return It(d.c, add(d.pos, sub(hi, lo)))
        return I.ptr_add(st, d, sub(hi, lo))
    if isinstance(v, Vec) and isconst(lo) and isconst(hi) and isinstance(d, It) and isconst(d.pos):
        t = st.read(d.c)
        it = list(t.items)
        n = int(hi - lo)
        if d.pos + n > len(it):
            bad(I, st, "write outside a container", what="copy")
        it[int(d.pos):int(d.pos) + n] = v.items[int(lo):int(hi)]
        st.write(d.c, Vec(it, t.t))
        return It(d.c, d.pos + n)
    raise Imprecise("copy")


def f_copy_n(I, st, r, a, e):
    it = it_of(I, st, a[0])
    return f_copy(I, st, r, [it, It(it.c, add(it.pos, num(I, st, a[1]))), a[2]], e)


def f_snprintf(I, st, r, a, e):
    q = r["q"].split("::")[-1]
    if q == "sprintf":
        buf, fmt, args, cap = V(st, a[0]), konst(I, st, a[1], "format"), a[2:], None
    else:
        buf, cap, fmt, args = V(st, a[0]), num(I, st, a[1]), konst(I, st, a[2], "format"), a[3:]
    s = do_format(I, st, fmt, args)
    n = s.len()
    if cap is not None and st.decide(le(cap, n)):
        s = st.substr(s, 0, sub(cap, 1))
    buf_write(I, st, buf, cat(s, "\0"), q)
    return n


def do_format(I, st, fmt, args):
    out = []
    i = 0
    args = list(args)
    for m in re.finditer(r"%(%|([-0+ #]*)(\d+|\*)?(?:\.(\d+))?(hh|h|ll|l|z|j)?([a-zA-Z]))|[^%]+", fmt):
        t = m.group(0)
        if t[0] != "%":
            out.append(K(t))
            continue
        if t == "%%":
            out.append(K("%"))
            continue
        flags, width, prec, conv = m.group(2), m.group(3), m.group(4), m.group(6)
        if width == "*":
            width = num(I, st, args.pop(0))
            if not isconst(width):
                raise Imprecise("format width")
        if not args:
            raise Imprecise("format")
        x = args.pop(0)
        w = int(width) if width else 0
        if conv in "diu" and prec is None and "-" not in flags and "+" not in flags and " " not in flags:
            v = num(I, st, x)
            out.append(dec(st, v, w, "0" if "0" in flags else " "))
        elif conv == "s" and not width and prec is None:
            out.append(S(I, st, x))
        elif conv in "fg":
            v = num(I, st, x)
            if isconst(v):
                k = K(t % float(v))
                out.append(k if I.c_locale is None else swap_point(st, k, I.c_locale[0]))
            else:
                sd = sid_for(("fmt", t, v), DIGITS | mask_of(".-+einfa "), False, 1)
                out.append(Str((("s", sd, 0, sd.length(), None),)))
        elif conv == "c":
            out.append(Str((("v", code(st, V(st, x))),)))
        else:
            v = num(I, st, x)
            if isconst(v):
                out.append(K(t % int(v)))
            else:
                raise Imprecise("format " + t)
    return cat(*out)


# ---------------------------------------------------------------- number parsing

def scan_int(I, st, s, strict):
    """(value or None, rest) of a decimal integer at the start of s"""
    c = s.const()
    if c is not None:
        m = re.match(r"[+-]?\d+$" if strict else r"\s*[+-]?\d+", c)
        return int(m.group(0)) if m else None
    d = digits_value(st, s)
    if d is not None:
        return d
    u = undec(s)
    if u is not None:
        return u
    if not st.decide(lt(0, s.len())):
        return None
    # decide characters one at a time
    segs = s
    pos = 0
    if not strict:
        while True:
            if st.decide(le(s.len(), pos)):
                return None
            ch = st.char_at(s, pos)
            b = char_in(I, st, ch, SPACE)
            if not (b if isinstance(b, bool) else st.decide(b)):
                break
            pos += 1
            if pos > 40:
                raise Imprecise("number with leading space")
    sign = 1
    ch = st.char_at(s, pos)
    b = char_in(I, st, ch, mask_of("+-"))
    if b if isinstance(b, bool) else st.decide(b):
        b = char_in(I, st, ch, mask_of("-"))
        if b if isinstance(b, bool) else st.decide(b):
            sign = -1
        pos += 1
    start = pos
    v = 0
    while True:
        if st.decide(le(s.len(), pos)):
            break
        _, rest = st.split_at(s, pos)
        g = rest.segs[0]
        if not isconst(seg_len(g)) or seg_len(g) > 20:
            m = seg_map_mask(g)
            if m & DIGITS == 0:
                if st.decide(lt(0, seg_len(g))):
                    if strict:
                        return None
                    break
            # opaque remainder
            if strict:
                if st.decide(Cond("op", ("isnum", s))):
                    return P(atom("lex", s))
                return None
            if pos == start:
                if st.decide(Cond("op", ("numprefix", s))):
                    return P(atom("lexp", s))
                return None
            return P(atom("lexp", s))
        ch = st.char_at(s, pos)
        b = char_in(I, st, ch, DIGITS)
        if not (b if isinstance(b, bool) else st.decide(b)):
            if strict:
                return None
            break
        ch = bv_num(ch) if isinstance(ch, BV) else ch
        v = add(mul(v, 10), sub(ch, 48))
        pos += 1
        if pos > 60:
            raise Imprecise("very long number")
    if pos == start:
        return None
    return mul(sign, v)


SWAP = {}


def swap_point(st, s, point):
    """a number whose decimal point is another character, written with a point"""
    if point not in SWAP:
        SWAP[point] = tuple(46 if i == ord(point) else ord(point) if i == 46 else i for i in range(256))
    c = s.const()
    if c is not None:
        return K("".join(chr(SWAP[point][ord(x)]) if ord(x) < 256 else x for x in c))
    return st.map_chars(s, SWAP[point])


def point_of(loc):
    return "." if loc is None else loc[0]


def group_dec(I, st, x, loc):
    """a whole number in decimal, its digits grouped as the locale has it"""
    if loc is None or not loc[1]:
        return dec(st, x)
    if isconst(x):
        if not nint(x):
            return swap_point(st, K(fmt_float(x)), loc[0])
        return K("{:,}".format(int(x)).replace(",", loc[1]))
    if not nint(x):
        raise Imprecise("a real number in a locale")
    if st.decide(lt(x, 0)):
        raise Imprecise("a negative number in a locale")
    if st.decide(lt(x, 1000)):
        return dec(st, x)
    if st.decide(lt(x, 1000000)):
        return cat(dec(st, idiv(x, 1000)), loc[1], dec(st, imod(x, 1000), 3))
    raise Imprecise("a large number in a locale")


def scan_float(I, st, s, loc=None):
    if loc is not None and loc[0] != ".":
        s = swap_point(st, s, loc[0])
    c = s.const()
    if c is not None:
        m = re.match(r"\s*[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?", c)
        if not m:
            if re.match(r"\s*[+-]?(inf|nan|0x)", c, re.I):
                raise Imprecise("special float")
            return None
        return norm(Fraction(m.group(0).strip()))
    d = digits_value(st, s)
    if d is not None:
        return d
    if not st.decide(lt(0, s.len())):
        return None
    # digits . digits with every piece of known class
    parts = []
    ok = True
    allmask = 0
    for g in s.segs:
        m = seg_known_mask(st, g)
        allmask |= m
    if allmask & ~(DIGITS | mask_of(".")) == 0:
        g = s.segs[0]
        m0 = st.char_at(s, 0)
        b = char_in(I, st, m0, DIGITS)
        if b is True or (not isinstance(b, bool) and st.known(b) is True):
            dots = [i for i, g in enumerate(s.segs) if g[0] == "k" and "." in g[1]]
            if len(dots) == 1 and isconst(s.len()) and s.len() < 20:
                n = int(s.len())
                v, scale = 0, None
                for i in range(n):
                    x = st.char_at(s, i)
                    if x == 46:
                        if scale is not None:
                            break
                        scale = 1
                        continue
                    x = bv_num(x) if isinstance(x, BV) else x
                    if scale is None:
                        v = add(mul(v, 10), sub(x, 48))
                    else:
                        scale *= 10
                        v = add(v, mul(sub(x, 48), Fraction(1, scale)))
                return v
            return P(atom("float", s, isint=False, lo=0))
    if isconst(s.len()) and s.len() <= 40:
        return float_chars(I, st, s, int(s.len()))
    if st.decide(Cond("op", ("fltprefix", s))):
        return P(atom("float", s, isint=False))
    return None


def float_chars(I, st, s, n):
    """a number at the start of a text of n characters, looking at one after the other"""
    def has(i, cs):
        if i >= n:
            return False
        b = char_in(I, st, st.char_at(s, i), cs)
        return b if isinstance(b, bool) else st.decide(b)

    def digit(i):
        x = st.char_at(s, i)
        return sub(bv_num(x) if isinstance(x, BV) else x, 48)
    i = 0
    while has(i, SPACE):
        i += 1
    sign = 1
    if has(i, mask_of("+-")):
        if has(i, mask_of("-")):
            sign = -1
        i += 1
    if has(i, mask_of("iInN")):
        raise Imprecise("special float")
    if has(i, mask_of("0")) and has(i + 1, mask_of("xX")):
        raise Imprecise("hexadecimal float")
    v, scale, k = 0, 1, 0
    while has(i, DIGITS):
        v = add(mul(v, 10), digit(i))
        i += 1
        k += 1
    if has(i, mask_of(".")):
        i += 1
        while has(i, DIGITS):
            scale *= 10
            v = add(v, mul(digit(i), Fraction(1, scale)))
            i += 1
            k += 1
    if k == 0:
        return None
    if has(i, mask_of("eE")) and i + 1 < n:
        raise Imprecise("exponent")
    return mul(sign, v)


def scan_hex(I, st, s, pos, width):
    """%<width>x at position pos: (value or None, new position)"""
    v = 0
    n = 0
    while n < width:
        if st.decide(le(s.len(), pos)):
            break
        ch = st.char_at(s, pos)
        b = char_in(I, st, ch, HEX)
        if not (b if isinstance(b, bool) else st.decide(b)):
            if n == 0:
                b = char_in(I, st, ch, SPACE | mask_of("+-"))
                if b if isinstance(b, bool) else st.decide(b):
                    return scan_hex_sign(I, st, s, pos, width)
            if n == 1 and width >= 2:
                b = char_in(I, st, ch, mask_of("xX"))
                if b if isinstance(b, bool) else st.decide(b):
                    z = char_in(I, st, st.char_at(s, sub(pos, 1)), mask_of("0"))
                    if z if isinstance(z, bool) else st.decide(z):
                        raise Imprecise("0x prefix")
            break
        v = add(mul(v, 16), nibble(ch))
        pos = add(pos, 1)
        n += 1
    return (v if n else None), pos


def scan_hex_sign(I, st, s, pos, width):
    ch = st.char_at(s, pos)
    b = char_in(I, st, ch, SPACE)
    if b if isinstance(b, bool) else st.decide(b):
        return scan_hex(I, st, s, add(pos, 1), width)
    if width < 2:
        return None, pos
    neg_ = char_in(I, st, ch, mask_of("-"))
    neg_ = neg_ if isinstance(neg_, bool) else st.decide(neg_)
    if st.decide(le(s.len(), add(pos, 1))):
        return None, pos
    c2 = char_in(I, st, st.char_at(s, add(pos, 1)), HEX)
    if not (c2 if isinstance(c2, bool) else st.decide(c2)):
        return None, pos
    v, p = scan_hex(I, st, s, add(pos, 1), width - 1)
    if v is None:
        return None, pos
    return (neg(v) if neg_ else v), p


def nib(i):
    c = chr(i)
    return int(c, 16) if c in "0123456789abcdefABCDEF" else 0


NIB = tuple(nib(i) for i in range(256))


def nibble(ch):
    if isinstance(ch, BV):
        return bv_num(BV(ch.a, tuple(NIB[x & 255] for x in ch.tbl)))
    return NIB[ch & 255]


def f_sscanf(I, st, r, a, e):
    s = S(I, st, a[0])
    fmt = konst(I, st, a[1], "format")
    toks = re.findall(r"%(\d*)(l*h*)([a-zA-Z])|(\s+)|([^%\s])", fmt)
    pos = 0
    got = 0
    outs = []
    for w, ln, conv, ws, lit in toks:
        if ws:
            raise Imprecise("scanf format")
        if lit:
            if st.decide(le(s.len(), pos)):
                break
            b = char_in(I, st, st.char_at(s, pos), mask_of(lit))
            if not (b if isinstance(b, bool) else st.decide(b)):
                break
            pos = add(pos, 1)
            continue
        if conv in "xX":
            v, pos = scan_hex(I, st, s, pos, int(w) if w else 64)
        elif conv in "diu":
            if len(toks) > 1 or w:
                raise Imprecise("scanf format")
            v = scan_int(I, st, s, False)
            if v is not None:
                v = I.to_type(st, v, {"k": "int", "w": 64 if "l" in ln else 32, "u": conv == "u"})
        elif conv in "fg":
            if len(toks) > 1 or w:
                raise Imprecise("scanf format")
            v = scan_float(I, st, s, I.c_locale)
        else:
            raise Imprecise("scanf format")
        if v is None:
            break
        outs.append((a[2 + got], v))
        got += 1
    for p, v in outs:
        p = V(st, p)
        st.write(I.deref(st, p), v)
    if got == 0 and st.decide(eq(s.len(), 0)):
        return -1
    return got


def f_strtoll(I, st, r, a, e):
    s = S(I, st, a[0])
    base = num(I, st, a[2]) if len(a) > 2 else 10
    endp = V(st, a[1]) if len(a) > 1 else NULL
    if isinstance(endp, Ptr) and endp.r is not None:
        raise Imprecise("strtol end pointer")
    if base == 0:
        c = s.const()
        if c is not None:
            m = re.match(r"\s*([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)", c)
            if not m:
                return 0
            v = int(m.group(2), 16 if m.group(2)[:2].lower() == "0x" else 8 if m.group(2)[0] == "0" else 10)
            return -v if m.group(1) == "-" else v
        # only if it is clear that it is a decimal number
        if st.decide(lt(0, s.len())):
            b = char_in(I, st, st.char_at(s, 0), mask_of("123456789"))
            if not (b if isinstance(b, bool) else st.decide(b)):
                raise Imprecise("strtol of a number which may be octal")
        base = 10
    if base == 16:
        pos = 0
        v, pos = scan_hex(I, st, s, 0, 64)
        return v if v is not None else 0
    if base == 10:
        v = scan_int(I, st, s, False)
        return v if v is not None else 0
    if isconst(base) and s.const() is not None and 2 <= base <= 36:
        m = re.match(r"\s*([+-]?)([0-9a-zA-Z]+)", s.const())
        t = m.group(2) if m else ""
        while t:
            try:
                v = int(t, int(base))
                return -v if m.group(1) == "-" else v
            except ValueError:
                t = t[:-1]
        return 0
    raise Imprecise("strtol base")


def f_atoi(I, st, r, a, e):
    v = scan_int(I, st, S(I, st, a[0]), False)
    return v if v is not None else 0


def f_atof(I, st, r, a, e):
    v = scan_float(I, st, S(I, st, a[0]), I.c_locale)
    return v if v is not None else 0


def in_range(I, st, x, t):
    """is the number x one of the integer type t?"""
    if t["k"] != "int":
        return True
    w = t["w"]
    lo, hi = (0, (1 << w) - 1) if t.get("u") else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if isconst(x):
        return lo <= x <= hi
    a, b = st.interval(x)
    if a is None and b is None:
        # the value of a text which is known only to be a number
        return True
    return (b is not None and b <= hi or st.decide(le(x, hi))) and (a is not None and a >= lo or st.decide(le(lo, x)))


def f_stoi(I, st, r, a, e):
    """std::stoi, stol, stoul and the like"""
    if len(a) > 1 and V(st, a[1]) is not None:
        p = V(st, a[1])
        if isinstance(p, Ptr) and p.r is not None:
            raise Imprecise("stoi: number of characters")
    base = num(I, st, a[2]) if len(a) > 2 else 10
    s = S(I, st, a[0])
    if base == 10:
        v = scan_int(I, st, s, False)
    elif base == 16:
        v, _ = scan_hex(I, st, s, 0, 64)
    else:
        raise Imprecise("stoi base")
    if v is None:
        _throw("std::invalid_argument")
    if not in_range(I, st, v, I.T(I.mod(st), r["ret"])):
        _throw("std::out_of_range")
    return v


def f_stof(I, st, r, a, e):
    v = scan_float(I, st, S(I, st, a[0]), I.c_locale)
    if v is None:
        _throw("std::invalid_argument")
    return v


def f_lexical_cast(I, st, r, a, e):
    m = I.mod(st)
    rt = I.T(m, r["ret"])
    v = V(st, a[0])
    if rt["k"] == "rec":
        if isinstance(v, Str):
            return v
        t0 = I.T(m, r["pt"][0])
        if t0["k"] == "ref":
            t0 = I.T(m, t0["to"])
        if t0.get("ch"):
            return Str((("v", code(st, v)),))
        v = num(I, st, v)
        if t0["k"] == "float" and not (isconst(v) and nint(v)):
            if not isconst(v):
                raise Imprecise("lexical_cast of a real number")
            # as many digits as its type can need
            if t0.get("w", t0.get("b", 0)) in (32, 4):
                k = K("%.9g" % struct.unpack("f", struct.pack("f", float(v)))[0])
            else:
                k = K("%.17g" % float(v))
            return k if I.c_locale is None else swap_point(st, k, I.c_locale[0])
        if t0["k"] == "float":
            return dec(st, v)
        return group_dec(I, st, v, I.cpp_locale)
    if isinstance(v, (Str, Ptr)):
        s = S(I, st, v)
        if rt["k"] == "int":
            x = scan_int(I, st, s, True)
        elif rt["k"] == "float":
            if I.cpp_locale is not None:
                s = swap_point(st, s, I.cpp_locale[0])
            x = scan_float(I, st, s)
            if s.const() is None and digits_value(st, s) is None:
                # strictness of the cast beyond the prefix is not decided
                raise Imprecise("lexical_cast to float")
            if s.const() is not None and not re.match(r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?$", s.const()):
                x = None
        else:
            raise Imprecise("lexical_cast")
        if x is None or rt["k"] == "int" and not in_range(I, st, x, rt):
            _throw("boost::bad_lexical_cast")
        return I.to_type(st, x, rt) if rt["k"] == "int" else x
    if rt["k"] == "int":
        return I.to_type(st, I.float_to_int(st, v), rt)
    return num(I, st, v)


def f_to_string(I, st, r, a, e):
    m = I.mod(st)
    v = num(I, st, a[0])
    if I.T(m, r["pt"][0])["k"] == "float":
        if not isconst(v):
            raise Imprecise("to_string of a real number")
        k = K("%f" % float(v))
        return k if I.c_locale is None else swap_point(st, k, I.c_locale[0])
    return dec(st, v)


# ---------------------------------------------------------------- arithmetic

def f_rint(I, st, r, a, e):
    x = num(I, st, a[0])
    if isconst(x):
        f = math.floor(x)
        d = Fraction(x) - f
        if d < Fraction(1, 2) or (d == Fraction(1, 2) and f % 2 == 0):
            return f
        return f + 1
    if nint(x):
        return x
    return P(atom("rint", x))


def f_round(I, st, r, a, e):
    x = num(I, st, a[0])
    if isconst(x):
        x = Fraction(x)
        return int(math.floor(abs(x) + Fraction(1, 2))) * (1 if x >= 0 else -1)
    if nint(x):
        return x
    return P(atom("round", x))


def f_floor(I, st, r, a, e):
    x = num(I, st, a[0])
    if isconst(x):
        return math.floor(x)
    if nint(x):
        return x
    return P(atom("floor", x))


def f_ceil(I, st, r, a, e):
    x = num(I, st, a[0])
    if isconst(x):
        return math.ceil(x)
    if nint(x):
        return x
    return neg(P(atom("floor", neg(x))))


def f_abs(I, st, r, a, e):
    x = num(I, st, a[0])
    if isconst(x):
        return abs(x)
    if st.decide(lt(x, 0)):
        return neg(x)
    return x


def f_minmax(mx):
    def f(I, st, r, a, e):
        if len(a) == 1:
            raise Imprecise("initializer_list min/max")
        x, y = num(I, st, a[0]), num(I, st, a[1])
        less = lt(x, y) if mx else lt(y, x)
        if isinstance(less, bool):
            b = less
        else:
            b = st.decide(less)
        return a[1] if b else a[0]
    return f


def f_swap(I, st, r, a, e):
    x, y = V(st, a[0]), V(st, a[1])
    st.write(a[0], y)
    st.write(a[1], x)
    return None


def f_gcd(I, st, r, a, e):
    x, y = num(I, st, a[0]), num(I, st, a[1])
    if isconst(x) and isconst(y):
        return math.gcd(int(x), int(y))
    return P(atom("gcd", x, y, lo=0))


def ctype(name):
    fn = {"tolower": lambda c: ord(chr(c).lower()) if c < 128 else c, "toupper": lambda c: ord(chr(c).upper()) if c < 128 else c,
          "isspace": lambda c: int(c in (32, 9, 10, 11, 12, 13)), "isdigit": lambda c: int(48 <= c < 58),
          "isxdigit": lambda c: int(chr(c) in "0123456789abcdefABCDEF"), "isalpha": lambda c: int(c < 128 and chr(c).isalpha()),
          "isalnum": lambda c: int(c < 128 and chr(c).isalnum()), "isupper": lambda c: int(65 <= c < 91), "islower": lambda c: int(97 <= c < 123),
          "isprint": lambda c: int(32 <= c < 127), "ispunct": lambda c: int(33 <= c < 127 and not chr(c).isalnum()),
          "iscntrl": lambda c: int(c < 32 or c == 127)}[name]
    tbl = [fn(i) for i in range(256)]

    def f(I, st, r, a, e):
        v = V(st, a[0])
        if isinstance(v, BV):
            if name in ("tolower", "toupper"):
                return BV(v.a, tuple((tbl[x] if 0 <= x < 256 else x) for x in v.tbl))
            return BV(v.a, tuple((tbl[x & 255]) for x in v.tbl))
        v = num(I, st, v)
        if isconst(v):
            if name in ("tolower", "toupper"):
                return tbl[int(v)] if 0 <= v < 256 else v
            return tbl[int(v) & 255]
        raise Imprecise(name)
    return f


# ---------------------------------------------------------------- strings

def m_substr(I, st, r, a, e):
    _, s = oval(I, st, a[0])
    pos = num(I, st, a[1]) if len(a) > 1 else 0
    n = num(I, st, a[2]) if len(a) > 2 else NPOS
    if st.decide(lt(s.len(), pos)):
        _throw("std::out_of_range")
    return st.substr(s, pos, n)


def m_size(I, st, r, a, e):
    _, v = oval(I, st, a[0])
    if isinstance(v, Smart):
        v = st.read(v.r)
    return csize(v)


def m_empty(I, st, r, a, e):
    _, v = oval(I, st, a[0])
    return eq(csize(v), 0)


def m_c_str(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if isinstance(v, Str) and "vector" not in r["q"] and "array" not in r["q"]:
        return Ptr(ref.f("c", 0))
    return Ptr(ref.f("i", 0))


def m_clear(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    st.write(ref, EMPTY if isinstance(v, Str) else Map((), False, v.t) if isinstance(v, Map) else Vec((), v.t))


def m_str_index(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    i = num(I, st, a[1])
    if isinstance(v, Str) and r["q"].startswith("std::basic_string"):
        check_index(I, st, ref, i, add(v.len(), 1), "string")
        if st.decide(eq(i, v.len())):
            return 0
        return ref.f("c", i)
    check_index(I, st, ref, i, csize(v), "element")
    return ref.f("i", i)


def m_at(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if isinstance(v, Map):
        k = map_find(I, st, v, V(st, a[1]))
        if k is None:
            _throw("std::out_of_range")
        return ref.f("m", v.items[k][0])
    i = num(I, st, a[1])
    if st.decide(lt(i, 0)) or st.decide(le(csize(v), i)):
        _throw("std::out_of_range")
    return ref.f("c" if isinstance(v, Str) else "i", i)


def m_append(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if not isinstance(v, Str):
        raise Imprecise("append to %r" % (v,))
    if len(a) == 2:
        x = V(st, a[1])
        if isinstance(x, (int, BV)) or isinstance(x, Poly):
            t = I.T(I.mod(st), I.mod(st)["fnrefs"][e["f"]]["pt"][0]) if e.get("f") is not None else None
            x = Str((("v", x if t is not None and t.get("w", 8) > 8 else code(st, x)),))
        else:
            x = S(I, st, x)
    elif len(a) == 3:
        x0 = V(st, a[1])
        if isinstance(x0, It):
            c, lo, hi, _ = rng(I, st, a[1], a[2])
            x = st.substr(st.read(c), lo, sub(hi, lo))
        elif isinstance(x0, (Ptr,)):
            x = ct_string(I, st, r, {"n": ""}, a[1:], e)
        else:
            x = ct_string(I, st, r, {"n": ""}, a[1:], e)
    else:
        x = S(I, st, a[1])
        p, n = num(I, st, a[2]), num(I, st, a[3])
        if st.decide(lt(x.len(), p)):
            _throw("std::out_of_range")
        x = st.substr(x, p, n)
    st.write(ref, cat(v, x))
    return ref


def m_push_back(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if isinstance(v, Str):
        st.write(ref, cat(v, Str((("v", code(st, V(st, a[1]))),))))
        return None
    if not isinstance(v, Vec):
        raise Imprecise("push_back")
    st.write(ref, Vec(v.items + (V(st, a[1]),), v.t))


def m_push_front(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    st.write(ref, Vec((V(st, a[1]),) + v.items, v.t))


def m_pop_back(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if st.decide(eq(csize(v), 0)):
        bad(I, st, "pop from an empty container")
    if isinstance(v, Str):
        st.write(ref, st.substr(v, 0, sub(v.len(), 1)))
    else:
        if isinstance(v.items[-1], Many):
            raise Imprecise("pop_back")
        st.write(ref, Vec(v.items[:-1], v.t))


def m_pop_front(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if st.decide(eq(csize(v), 0)):
        bad(I, st, "pop from an empty container")
    if isinstance(v.items[0], Many):
        raise Imprecise("pop_front")
    st.write(ref, Vec(v.items[1:], v.t))


def m_back(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if st.decide(eq(csize(v), 0)):
        bad(I, st, "back() of an empty container")
    return ref.f("c" if isinstance(v, Str) else "i", sub(csize(v), 1))


def m_front(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if st.decide(eq(csize(v), 0)):
        bad(I, st, "front() of an empty container")
    return ref.f("c" if isinstance(v, Str) else "i", 0)


def m_begin(I, st, r, a, e):
    ref = obj(I, st, a[0])
    v = V(st, ref)
    if isinstance(v, Top):
        raise Imprecise(v.why)
    if r["q"].startswith("std::initializer_list"):
        return Ptr(ref.f("i", 0))
    return It(ref, 0)


def m_end(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if r["q"].startswith("std::initializer_list"):
        return Ptr(ref.f("i", csize(v)))
    return It(ref, csize(v))


def m_rbegin(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    return It(ref, csize(v), True)


def m_rend(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    return It(ref, 0, True)


def m_erase(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    x = V(st, a[1]) if len(a) > 1 else 0
    if isinstance(v, Map):
        if isinstance(x, It):
            items = list(v.items)
            del items[int(x.pos)]
            st.write(ref, Map(items, v.open, v.t))
            return It(ref, x.pos)
        k = map_find(I, st, v, x)
        if k is None:
            return 0
        items = list(v.items)
        del items[k]
        st.write(ref, Map(items, v.open, v.t))
        return 1
    if isinstance(x, It):
        lo = x.pos
        hi = V(st, a[2]).pos if len(a) > 2 else add(lo, 1)
        if st.decide(lt(csize(v), hi)) or st.decide(lt(lo, 0)):
            bad(I, st, "erase outside a container")
        if isinstance(v, Str):
            p, rest = st.split_at(v, lo)
            _, q = st.split_at(rest, sub(hi, lo))
            st.write(ref, cat(p, q))
            return It(ref, lo)
        if isconst(lo) and isconst(hi) and v.known():
            st.write(ref, Vec(v.items[:int(lo)] + v.items[int(hi):], v.t))
            return It(ref, lo)
        raise Imprecise("erase")
    pos = num(I, st, x)
    n = num(I, st, a[2]) if len(a) > 2 else NPOS
    if st.decide(lt(v.len(), pos)):
        _throw("std::out_of_range")
    p, rest = st.split_at(v, pos)
    if isconst(n) and n >= NPOS or st.decide(le(rest.len(), n)):
        st.write(ref, p)
    else:
        _, q = st.split_at(rest, n)
        st.write(ref, cat(p, q))
    return ref


def m_replace(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    pos = V(st, a[1])
    if isinstance(pos, It):
        lo, hi = pos.pos, V(st, a[2]).pos
        n = sub(hi, lo)
        pos = lo
    else:
        pos, n = num(I, st, pos), num(I, st, a[2])
    if st.decide(lt(v.len(), pos)):
        _throw("std::out_of_range")
    x = S(I, st, a[3])
    p, rest = st.split_at(v, pos)
    if st.decide(le(rest.len(), n)):
        q = EMPTY
    else:
        _, q = st.split_at(rest, n)
    st.write(ref, cat(p, x, q))
    return ref


def m_insert(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    x = V(st, a[1])
    if isinstance(v, Map):
        p = V(st, a[1]) if not isinstance(x, It) else V(st, a[2])
        if not isinstance(p, Rec):
            raise Imprecise("map insert")
        k = None if "multimap" in r["q"] else map_find(I, st, v, p.f["first"])
        if k is not None:
            return Rec("std::pair", {"first": It(ref, k), "second": False})
        st.write(ref, map_put(st, v, p.f["first"], p.f["second"], True))
        nv = st.read(ref)
        k = [i for i, z in enumerate(nv.items) if z[0] == p.f["first"]][-1]
        return Rec("std::pair", {"first": It(ref, k), "second": True})
    if isinstance(x, It):
        pos = x.pos
        if isinstance(v, Vec):
            if not isconst(pos):
                d = sub(csize(v), pos)
                if d == 0:
                    pos = None
                else:
                    raise Imprecise("insert position")
            if len(a) >= 4 and isinstance(V(st, a[2]), It):
                c, lo, hi, rev = rng(I, st, a[2], a[3])
                src = st.read(c)
                if not (isinstance(src, Vec) and isconst(lo) and isconst(hi)) or rev:
                    raise Imprecise("insert range")
                new = src.items[int(lo):int(hi)]
            else:
                new = (V(st, a[2]),)
            if pos is None:
                st.write(ref, Vec(v.items + tuple(new), v.t))
                return It(ref, x.pos)
            if any(isinstance(z, Many) for z in v.items[:int(pos)]):
                raise Imprecise("insert position")
            st.write(ref, Vec(v.items[:int(pos)] + tuple(new) + v.items[int(pos):], v.t))
            return It(ref, pos)
        if isinstance(v, Str):
            if len(a) >= 4 and isinstance(V(st, a[2]), (It, Ptr)):
                c, lo, hi, rev = rng(I, st, a[2], a[3])
                new = st.substr(st.read(c), lo, sub(hi, lo))
            else:
                new = Str((("v", code(st, V(st, a[2]))),))
            p, q = st.split_at(v, pos)
            st.write(ref, cat(p, new, q))
            return It(ref, pos)
    if isinstance(v, Str):
        pos = num(I, st, x)
        if st.decide(lt(v.len(), pos)):
            _throw("std::out_of_range")
        if len(a) == 4 and isnum(V(st, a[2])):
            new = ct_string(I, st, r, {"n": ""}, a[2:], e)
        else:
            new = S(I, st, a[2])
        p, q = st.split_at(v, pos)
        st.write(ref, cat(p, new, q))
        return ref
    raise Imprecise("insert")


def pattern(I, st, x):
    v = V(st, x)
    if isinstance(v, (int, BV)) and not isinstance(v, bool):
        v = st.bv_const(v)
        if isinstance(v, int):
            return chr(v & 255)
        raise Imprecise("search for unknown character")
    return konst(I, st, x, "search pattern")


def m_find(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if isinstance(v, Map):
        k = map_find(I, st, v, V(st, a[1]))
        return It(ref, len(v.items) if k is None else k)
    pos = num(I, st, a[2]) if len(a) > 2 else 0
    if st.decide(lt(v.len(), pos)):
        return NPOS
    x = V(st, a[1])
    try:
        p = pattern(I, st, a[1])
    except Imprecise:
        raise
    q = st.find_str(v, p, pos)
    return NPOS if q is None else q


def m_find_first_of(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    pos = num(I, st, a[2]) if len(a) > 2 else 0
    p = mask_of(pattern(I, st, a[1]))
    if r["q"].endswith("not_of"):
        p = ALLMASK & ~p
    if st.decide(le(v.len(), pos)):
        return NPOS
    q = st.find(v, p, pos)
    return NPOS if q is None else q


def rfind_set(st, s, m):
    """last position of a character in the mask m"""
    off = s.len()
    for g in reversed(s.segs):
        off = sub(off, seg_len(g))
        if g[0] == "k":
            for j in range(len(g[1]) - 1, -1, -1):
                if ord(g[1][j]) < 256 and m >> ord(g[1][j]) & 1:
                    return add(off, j)
        elif g[0] == "v":
            c = char_in(None, st, g[1], m)
            if c if isinstance(c, bool) else st.decide(c):
                return off
        elif g[0] == "s":
            gm = seg_map_mask(g)
            if gm & m == 0:
                continue
            if gm & ~m == 0:
                if st.decide(lt(0, seg_len(g))):
                    return add(off, sub(seg_len(g), 1))
                continue
            L = seg_len(g)
            if isconst(L) and L <= 16:
                for j in range(int(L) - 1, -1, -1):
                    c = char_in(None, st, st.seg_char(g, j), m)
                    if c if isinstance(c, bool) else st.decide(c):
                        return add(off, j)
                continue
            key = ("has", Str((g,)), m)
            if st.decide(Cond("op", key)):
                at = atom("rfindpos", Str((g,)), m, lo=0)
                st.add_ge(sub(sub(L, 1), P(at)), False)
                ca = chatom(g[1], add(g[2], P(at)))
                if g[4] is None:
                    st.cs[ca] = st.mask(ca) & m
                return add(off, P(at))
        elif g[0] == "r":
            if m >> g[1] & 1 and st.decide(lt(0, g[2])):
                return add(off, sub(g[2], 1))
        else:
            raise Imprecise("search in undefined bytes")
    return None


def m_find_last_of(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if len(a) > 2 and num(I, st, a[2]) != NPOS:
        n = num(I, st, a[2])
        if not st.decide(le(v.len(), n)):
            v = st.substr(v, 0, add(n, 1))
    m = mask_of(pattern(I, st, a[1]))
    if r["q"].endswith("not_of"):
        m = ALLMASK & ~m
    q = rfind_set(st, v, m)
    return NPOS if q is None else q


def m_rfind(I, st, r, a, e):
    p = pattern(I, st, a[1])
    if len(p) == 1:
        return m_find_last_of(I, st, r, a, e)
    ref, v = oval(I, st, a[0])
    if len(a) > 2 and num(I, st, a[2]) == 0:
        # prefix test
        if st.decide(lt(v.len(), len(p))):
            return NPOS
        return 0 if st.streq(st.substr(v, 0, len(p)), K(p)) else NPOS
    c = v.const()
    if c is not None:
        q = c.rfind(p)
        return NPOS if q < 0 else q
    raise Imprecise("rfind")


def m_compare(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if len(a) == 2:
        w = S(I, st, a[1])
    elif len(a) == 4:
        pos, n = num(I, st, a[1]), num(I, st, a[2])
        if st.decide(lt(v.len(), pos)):
            _throw("std::out_of_range")
        v = st.substr(v, pos, n)
        w = S(I, st, a[3])
    else:
        raise Imprecise("compare")
    if st.streq(v, w):
        return 0
    x, y = v.const(), w.const()
    if x is not None and y is not None:
        return -1 if x < y else 1
    at = P(atom("cmp", v, w))
    st.assume(eq(at, 0), False)
    return at


def m_resize(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    n = num(I, st, a[1])
    if isinstance(v, Str):
        if st.decide(le(n, v.len())):
            st.write(ref, st.substr(v, 0, n))
        else:
            c = st.bv_const(code(st, V(st, a[2]))) if len(a) > 2 else 0
            if not isinstance(c, int):
                raise Imprecise("resize")
            st.write(ref, cat(v, Str([("r", c, sub(n, v.len()))])))
        return None
    if isinstance(v, Vec) and isconst(n) and v.known():
        it = list(v.items[:int(n)])
        while len(it) < n:
            if len(a) > 2:
                it.append(V(st, a[2]))
            else:
                raise Imprecise("resize")
        st.write(ref, Vec(it, v.t))
        return None
    raise Imprecise("resize")


def m_assign(I, st, r, a, e):
    """operator= and assign"""
    ref = obj(I, st, a[0])
    x = a[1]
    v = V(st, x)
    if r["q"].startswith("std::basic_string"):
        if len(a) > 2:
            v = ct_string(I, st, r, {"n": ""}, a[1:], e)
        elif isinstance(v, (int, BV)):
            v = Str((("v", code(st, v)),))
        else:
            v = S(I, st, x)
    elif isinstance(v, Smart) and isinstance(x, Ref) and "unique" in r["q"]:
        st.write(x, Smart(None, arr=v.arr))
    elif len(a) > 2 and r["q"].endswith("assign"):
        v = ct_vec(I, st, r, {"n": ""}, a[1:], e)
    st.write(ref, v)
    return ref


def m_str_plus(I, st, r, a, e):
    v0, v1 = V(st, a[0]), V(st, a[1])
    if isinstance(v0, It):
        return it_plus(1)(I, st, r, a, e)
    return cat(S(I, st, a[0]), S(I, st, a[1]))


def f_starts_with(I, st, r, a, e):
    s, p = S(I, st, a[0]), S(I, st, a[1])
    if st.decide(lt(s.len(), p.len())):
        return False
    return st.streq(st.substr(s, 0, p.len()), p)


def f_ends_with(I, st, r, a, e):
    s, p = S(I, st, a[0]), S(I, st, a[1])
    if st.decide(lt(s.len(), p.len())):
        return False
    return st.streq(st.substr(s, sub(s.len(), p.len())), p)


def f_contains(I, st, r, a, e):
    s = S(I, st, a[0])
    return st.find_str(s, konst(I, st, a[1], "pattern"), 0) is not None


def f_iequals(I, st, r, a, e):
    s, p = S(I, st, a[0]), S(I, st, a[1])
    return st.streq(st.map_chars(s, LOWER), st.map_chars(p, LOWER))


LOWER = tuple(ord(chr(i).lower()) if i < 128 else i for i in range(256))
UPPER = tuple(ord(chr(i).upper()) if i < 128 else i for i in range(256))


def f_mapcase(tbl, copy):
    def f(I, st, r, a, e):
        s = st.map_chars(S(I, st, a[0]), tbl)
        if copy:
            return s
        st.write(a[0], s)
    return f


def pred_mask(I, st, x):
    v = V(st, x)
    if isinstance(v, Tag) and v.k == "chpred":
        return v.v
    if isinstance(v, FnV):
        n = v.f["q"].split("::")[-1]
        if n in ("isspace", "isdigit", "isalpha", "isalnum", "isxdigit", "isupper", "islower"):
            t = ctype(n)
            return mask_of(i for i in range(256) if t(I, st, v.f, [i], {}))
    raise Imprecise("character predicate")


def f_trim(left, right, pred, copy):
    def f(I, st, r, a, e):
        s = S(I, st, a[0])
        m = pred_mask(I, st, a[1]) if pred else SPACE
        s = st.trim(s, m, left, right)
        if copy:
            return s
        st.write(a[0], s)
    return f


def f_is_any_of(I, st, r, a, e):
    return Tag("chpred", mask_of(konst(I, st, a[0], "character set")))


def split_mask(I, st, s, m, compress):
    out = []
    pos = 0
    start = 0
    for _ in range(2000):
        q = st.find(s, m, pos)
        if q is None:
            break
        out.append(st.substr(s, start, sub(q, start)))
        pos = add(q, 1)
        if compress:
            while st.decide(lt(pos, s.len())):
                c = char_in(I, st, st.char_at(s, pos), m)
                if not (c if isinstance(c, bool) else st.decide(c)):
                    break
                pos = add(pos, 1)
        start = pos
    else:
        raise Imprecise("split")
    out.append(st.substr(s, start))
    return out


def f_split(I, st, r, a, e):
    s = S(I, st, a[1])
    m = pred_mask(I, st, a[2])
    comp = num(I, st, a[3]) if len(a) > 3 else 1     # token_compress_on == 0
    out = split_mask(I, st, s, m, comp == 0)
    cur = V(st, a[0])
    st.write(a[0], Vec(out, cur.t if isinstance(cur, Vec) else None))
    return a[0]


def f_split_regex(I, st, r, a, e):
    s = S(I, st, a[1])
    x = V(st, a[2])
    if not (isinstance(x, Tag) and x.k == "regex") or re.search(r"[\\^$.|?*+()\[\]{}]", x.v) or not x.v:
        raise Imprecise("split by a regular expression")
    out = []
    start = 0
    for _ in range(500):
        q = st.find_str(s, x.v, start)
        if q is None:
            break
        out.append(st.substr(s, start, sub(q, start)))
        start = add(q, len(x.v))
    out.append(st.substr(s, start))
    cur = V(st, a[0])
    st.write(a[0], Vec(out, cur.t if isinstance(cur, Vec) else None))
    return a[0]


def f_join(I, st, r, a, e):
    v = V(st, a[0])
    sep = S(I, st, a[1])
    if not isinstance(v, Vec) or not v.known():
        raise Imprecise("join")
    out = []
    for i, x in enumerate(v.items):
        if i:
            out.append(sep)
        out.append(S(I, st, x))
    return cat(*out)


def replace_all(I, st, s, p, w):
    out = []
    start = 0
    if p == "":
        return s
    for _ in range(2000):
        q = st.find_str(s, p, start)
        if q is None:
            break
        out.append(st.substr(s, start, sub(q, start)))
        out.append(w)
        start = add(q, len(p))
    else:
        raise Imprecise("replace_all")
    out.append(st.substr(s, start))
    return cat(*out)


def replace_one(I, st, s, p, w, last=False):
    q = None
    if p == "":
        return s
    q = st.find_str(s, p, 0)
    if q is None:
        return s
    if last:
        while True:
            n = st.find_str(s, p, add(q, 1))
            if n is None:
                break
            q = n
    return cat(st.substr(s, 0, q), w, st.substr(s, add(q, len(p))))


def f_replace_all(copy, erase=False, one=None):
    def f(I, st, r, a, e):
        if one:
            s = S(I, st, a[0])
            w = EMPTY if erase else S(I, st, a[2])
            res = replace_one(I, st, s, konst(I, st, a[1], "pattern"), w, one == "last")
            if copy:
                return res
            return st.write(a[0], res)
        s = S(I, st, a[0])
        w = EMPTY if erase else S(I, st, a[2])
        res = replace_all(I, st, s, konst(I, st, a[1], "pattern"), w)
        if copy:
            return res
        st.write(a[0], res)
    return f


def f_std_replace(I, st, r, a, e):
    c, lo, hi, rev = rng(I, st, a[0], a[1])
    s = st.read(c)
    if not isinstance(s, Str):
        raise Imprecise("std::replace")
    x, y = st.bv_const(code(st, V(st, a[2]))), st.bv_const(code(st, V(st, a[3])))
    tbl = tuple(y if i == x else i for i in range(256))
    p, rest = st.split_at(s, lo)
    m, q = st.split_at(rest, sub(hi, lo))
    st.write(c, cat(p, st.map_chars(m, tbl), q))


# ---------------------------------------------------------------- maps

def map_find(I, st, m, k):
    """index of key k, or None"""
    if isinstance(k, BV):
        k = st.bv_const(k)
    if isinstance(k, int) or (isinstance(k, Str) and k.const() is not None):
        allk = True
        for i, (mk, _) in enumerate(m.items):
            if mk == k and type(mk) is type(k):
                return i
            if not (isinstance(mk, int) or (isinstance(mk, Str) and mk.const() is not None)):
                allk = False
        if allk:
            if m.open:
                raise Imprecise("lookup in a map with unknown contents")
            return None
    for i, (mk, _) in enumerate(m.items):
        if isinstance(k, Str) and isinstance(mk, Str):
            if st.streq(mk, k):
                return i
        elif isinstance(k, BV) and isconst(mk):
            c = bm(k.a, mask_of(j for j in range(256) if k.tbl[j] == mk))
            if c if isinstance(c, bool) else st.decide(c):
                return i
        elif isnum(k) and isnum(mk):
            c = eq(k, mk)
            if c if isinstance(c, bool) else st.decide(c):
                return i
        else:
            raise Imprecise("map key")
    if m.open:
        raise Imprecise("lookup in a map with unknown contents")
    return None


def sort_key(k):
    if isinstance(k, int):
        return (0, k, "")
    if isinstance(k, Str) and k.const() is not None:
        return (1, 0, k.const())
    return None


def map_put(st, m, k, v, force=False):
    items = list(m.items)
    if not force:
        for i, (mk, _) in enumerate(items):
            if mk == k:
                items[i] = (mk, v)
                return Map(items, m.open, m.t)
    items.append((k, v))
    ks = [sort_key(x[0]) for x in items]
    if all(x is not None for x in ks):
        items = [x for _, x in sorted(zip(ks, items), key=lambda z: z[0])]
    return Map(items, m.open, m.t)


def m_map_index(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    k = V(st, a[1])
    if isinstance(k, Ptr):
        k = S(I, st, k)
    if isinstance(k, BV):
        k = st.bv_const(k)
    i = map_find(I, st, v, k)
    if i is None:
        m = I.mod(st)
        rt = I.T(m, r["ret"])
        tid = rt["to"] if rt["k"] == "ref" else r["ret"]
        et = I.T(m, tid)
        d = default_of(et) if et["k"] == "rec" else None
        if d is None:
            d = default_construct(I, st, m, tid)
        st.write(ref, map_put(st, v, k, d, True))
        return ref.f("m", k)
    return ref.f("m", v.items[i][0])


def default_construct(I, st, m, tid):
    """value-initialised object of a repository class: run its default constructor"""
    et = I.T(m, tid)
    if et["k"] == "rec":
        rr = I.rec.get(et["n"]) or I.rec.get(et["q"])
        if rr is not None:
            for mt in rr["methods"]:
                if mt.get("ctor") and mt["key"] in I.fn and not I.fn[mt["key"]][1]["params"] and I.fn[mt["key"]][1].get("body") is not None:
                    s2 = st.copy()
                    root = ("dflt",)
                    s2.mem[root] = Rec(et["n"], {})
                    out = I.call_fn(s2, mt["key"], [], Ref(root))
                    out = [o for o in out if o.ctl is None]
                    if len(out) == 1:
                        return out[0].mem[root]
                    raise Imprecise("default constructor")
    return I.zero(m, tid)


def m_count(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    return 0 if map_find(I, st, v, V(st, a[1])) is None else 1


def m_emplace(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if isinstance(v, Map):
        if len(a) == 2:
            return m_insert(I, st, r, a, e)
        p = Rec("std::pair", {"first": V(st, a[1]), "second": V(st, a[2])})
        if isinstance(p.f["first"], Ptr):
            p = p.with_("first", S(I, st, p.f["first"]))
        return m_insert(I, st, r, [a[0], p], e)
    raise Imprecise("emplace")


def m_bound(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    k = V(st, a[1])
    up = r["q"].endswith("upper_bound")
    if not isconst(k):
        raise Imprecise("lower_bound")
    for i, (mk, _) in enumerate(v.items):
        if not isconst(mk):
            raise Imprecise("lower_bound")
        if mk > k or (mk == k and not up):
            return It(ref, i)
    return It(ref, len(v.items))


# ---------------------------------------------------------------- optional, smart pointers

def opt_engaged(I, st, v):
    e = v.e
    if isinstance(e, bool):
        return e
    return st.decide(e)


def opt_ref(I, st, x):
    ref, v = oval(I, st, x)
    if not isinstance(v, Opt):
        raise Imprecise("optional %r" % (v,))
    if not opt_engaged(I, st, v):
        bad(I, st, "empty optional dereferenced")
    return ref.f("o",)


def m_opt_get(I, st, r, a, e):
    return opt_ref(I, st, a[0])


def m_opt_arrow(I, st, r, a, e):
    return Ptr(opt_ref(I, st, a[0]))


def m_opt_value_or(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if opt_engaged(I, st, v):
        return v.v
    return V(st, a[1])


def m_opt_bool(I, st, r, a, e):
    _, v = oval(I, st, a[0])
    return v.e


def m_opt_not(I, st, r, a, e):
    _, v = oval(I, st, a[0])
    return cnot(v.e)


def m_opt_assign(I, st, r, a, e):
    ref = obj(I, st, a[0])
    x = V(st, a[1])
    if isinstance(x, Opt):
        st.write(ref, x)
    elif any("none_t" in I.T(I.mod(st), p)["s"] for p in r["pt"][:1]):
        st.write(ref, NONE)
    else:
        # conversion to the element type
        m = I.mod(st)
        mm = re.match(r"(?:boost|std)::optional<(.*)>$", r.get("cls") or "")
        el = mm.group(1) if mm else ""
        if el == "int" and not isinstance(x, (BV, Top)):
            x = I.float_to_int(st, x)
        if el.startswith("std::basic_string") and isinstance(x, Ptr):
            x = S(I, st, x)
        st.write(ref, Opt(True, x))
    return ref


def m_opt_reset(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if len(a) > 1:
        st.write(ref, Opt(True, V(st, a[1])))
    else:
        st.write(ref, NONE)


def m_smart_get(I, st, r, a, e):
    _, v = oval(I, st, a[0])
    return Ptr(v.r)


def m_smart_deref(I, st, r, a, e):
    _, v = oval(I, st, a[0])
    return I.deref(st, Ptr(v.r))


def m_smart_index(I, st, r, a, e):
    _, v = oval(I, st, a[0])
    ref = I.deref(st, I.ptr_add(st, Ptr(v.r), num(I, st, a[1])))
    I.check_elem(st, ref)
    return ref


def m_smart_bool(I, st, r, a, e):
    _, v = oval(I, st, a[0])
    return v.r is not None


def m_smart_release(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    st.write(ref, Smart(None, arr=v.arr))
    if v.cb is not None:
        st.alloc = dict(st.alloc)
        st.alloc.pop(("owned", v.cb), None)
    return Ptr(v.r)


def users(st, cb):
    """how many smart pointers share an object"""
    n = 0

    def w(v):
        nonlocal n
        if isinstance(v, Smart):
            n += v.cb == cb
        elif isinstance(v, Rec):
            for y in v.f.values():
                w(y)
        elif isinstance(v, Vec):
            for y in v.items:
                w(y)
        elif isinstance(v, Opt):
            w(v.v)
    for v in st.mem.values():
        w(v)
    return n


def m_smart_reset(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if v.cb is not None and users(st, v.cb) == 1 and not (isinstance(st.mem.get(v.cb), Rec) and I.dtors(st.mem[v.cb].cls)):
        st.freed = st.freed | {v.cb}
        st.alloc = dict(st.alloc)
        st.alloc[("released", v.cb)] = st.alloc.pop(("owned", v.cb), None)
    if len(a) > 1:
        st.write(ref, ct_smart(I, st, r, {"n": r.get("cls") or ""}, a[1:], e))
    else:
        st.write(ref, Smart(None, arr=v.arr))


# ---------------------------------------------------------------- regular expressions

POSIX = {"[:xdigit:]": "0-9a-fA-F", "[:digit:]": "0-9", "[:space:]": r"\s", "[:alpha:]": "a-zA-Z", "[:alnum:]": "a-zA-Z0-9",
         "[:upper:]": "A-Z", "[:lower:]": "a-z"}


def regex_nodes(src):
    for k, v in POSIX.items():
        src = src.replace(k, v)
    return sre_parse.parse(src)


CATS = {"CATEGORY_DIGIT": DIGITS, "CATEGORY_SPACE": SPACE, "CATEGORY_WORD": mask_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")}


def in_mask(items):
    m = 0
    inv = False
    for op, av in items:
        n = str(op)
        if n == "NEGATE":
            inv = True
        elif n == "LITERAL":
            m |= 1 << av
        elif n == "RANGE":
            for c in range(av[0], av[1] + 1):
                m |= 1 << c
        elif n == "CATEGORY":
            c = str(av)
            if c in CATS:
                m |= CATS[c]
            else:
                m |= ALLMASK & ~CATS[c.replace("NOT_", "")]
        else:
            raise Imprecise("regular expression class")
    return ALLMASK & ~m if inv else m


def regex_search(I, st, s, src):
    """leftmost match (Perl semantics): list of group strings, or None"""
    if not isconst(s.len()):
        raise Imprecise("regular expression on a string of unknown length")
    n = int(s.len())
    tree = regex_nodes(src)

    def ch(i, m):
        c = char_in(I, st, st.char_at(s, i), m)
        return c if isinstance(c, bool) else st.decide(c)

    def certainly_not(i, m):
        c = char_in(I, st, st.char_at(s, i), m)
        return (c if isinstance(c, bool) else st.known(c)) is False

    def single(name, av):
        return (1 << av) if name == "LITERAL" else (ALLMASK & ~(1 << av)) if name == "NOT_LITERAL" else ALLMASK if name == "ANY" else in_mask(av)

    SINGLE = ("LITERAL", "NOT_LITERAL", "ANY", "IN")

    def run(nodes, k, i, groups, cont):
        if k == len(nodes):
            return cont(i, groups)
        op, av = nodes[k]
        name = str(op)
        nxt = lambda j, g: run(nodes, k + 1, j, g, cont)
        if name in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            m = single(name, av)
            # what is certain about the rest comes first, so that nothing is decided in vain
            for off, (o, v) in enumerate(nodes[k:]):
                if str(o) not in SINGLE:
                    break
                if i + off >= n or certainly_not(i + off, single(str(o), v)):
                    return None
            if i < n and ch(i, m):
                return nxt(i + 1, groups)
            return None
        if name == "AT":
            w = str(av)
            if "BEGINNING" in w:
                return nxt(i, groups) if i == 0 else None
            if "END" in w:
                return nxt(i, groups) if i == n else None
            raise Imprecise("regular expression anchor")
        if name == "SUBPATTERN":
            gi, body = av[0], list(av[-1])

            def fin(j, g):
                if gi is not None:
                    g = dict(g)
                    g[gi] = (i, j)
                return nxt(j, g)
            return run(body, 0, i, groups, fin)
        if name == "BRANCH":
            for alt in av[1]:
                r = run(list(alt), 0, i, groups, nxt)
                if r is not None:
                    return r
            return None
        if name in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, body = av
            body = list(body)
            hi = n + 1 if str(hi) == "MAXREPEAT" else int(hi)

            def rep(cnt, j, g):
                def more():
                    if cnt < hi:
                        return run(body, 0, j, g, lambda jj, gg: rep(cnt + 1, jj, gg) if jj > j else None)
                    return None

                def stop():
                    return nxt(j, g) if cnt >= lo else None
                order = (more, stop) if name == "MAX_REPEAT" else (stop, more)
                for o in order:
                    r = o()
                    if r is not None:
                        return r
                return None
            return rep(0, i, groups)
        raise Imprecise("regular expression " + name)

    ng = tree.state.groups if hasattr(tree, "state") else tree.pattern.groups
    for start in range(n + 1):
        r = run(list(tree), 0, start, {}, lambda j, g: (j, g))
        if r is not None:
            end, g = r
            out = [st.substr(s, start, end - start)]
            for k in range(1, ng):
                out.append(st.substr(s, g[k][0], g[k][1] - g[k][0]) if k in g else EMPTY)
            return out
    return None


def f_regex(full):
    def f(I, st, r, a, e):
        s = S(I, st, a[0])
        tags = [(i, V(st, x)) for i, x in enumerate(a)]
        rx = [v for _, v in tags if isinstance(v, Tag) and v.k == "regex"]
        if not rx:
            raise Imprecise("regular expression")
        src = rx[0].v
        if full:
            src = "(?:" + src + ")$"
        m = [x for x in a if isinstance(x, Ref) and isinstance(st.read(x), Rec) and st.read(x).cls == "match"]
        res = regex_search(I, st, s, src)
        if full and res is not None and res[0] != s:
            res = None
        if m:
            st.write(m[0], Rec("match", {"g": Vec(res or ())}))
        return res is not None
    return f


def m_match_index(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    i = num(I, st, a[1])
    g = v.f["g"].items
    if isconst(i) and 0 <= i < len(g):
        return g[int(i)]
    return EMPTY


def m_match_size(I, st, r, a, e):
    _, v = oval(I, st, a[0])
    return len(v.f["g"].items)


# ---------------------------------------------------------------- streams and files

def stream_obj(I, st, x):
    v = V(st, x)
    if isinstance(v, Tag) and v.k == "global":
        return None, v
    r = obj(I, st, x)
    return r, st.read(r)


def put(I, st, a, s):
    ref, v = stream_obj(I, st, a)
    if ref is None:
        st.event("console output", I.where(st), stream=v.v)
        return a
    if isinstance(v, Rec) and "out" in v.f:
        w = v.f.get("w", 0)
        if w:
            n = s.len()
            if isconst(n):
                if n < w:
                    s = cat(Str([("r", v.f["fill"], w - n)]), s)
            else:
                d = undec(s)
                if d is not None and isconst(v.f["fill"]):
                    s = dec(st, d, w, chr(v.f["fill"]))
                elif st.decide(lt(n, w)):
                    s = cat(Str([("r", v.f["fill"], sub(w, n))]), s)
            v = v.with_("w", 0)
        if "file" in v.f:
            st.event("stream write", I.where(st), data=s, file=v.f["file"])
        st.write(ref, v.with_("out", cat(v.f["out"], s)))
        return a
    raise Imprecise("output to %r" % (v,))


def f_shl(I, st, r, a, e):
    x = V(st, a[1])
    if isinstance(x, Tag) and x.k == "setw":
        ref, v = stream_obj(I, st, a[0])
        if ref is not None and isinstance(v, Rec):
            st.write(ref, v.with_("w", x.v))
        return a[0]
    if isinstance(x, Tag) and x.k == "setfill":
        ref, v = stream_obj(I, st, a[0])
        if ref is not None and isinstance(v, Rec):
            st.write(ref, v.with_("fill", x.v))
        return a[0]
    if isinstance(x, FnV):
        if x.f["q"] in ("std::endl",):
            return put(I, st, a[0], K("\n"))
        if x.f["q"] not in ("std::flush", "std::dec", "std::left", "std::right"):
            raise Imprecise("output format %s" % x.f["q"])
        return a[0]
    pt = [I.T(I.mod(st), p) for p in r["pt"]]
    last = pt[-1]
    if isinstance(x, (Str, Ptr)):
        return put(I, st, a[0], S(I, st, x))
    if last.get("ch"):
        return put(I, st, a[0], Str((("v", code(st, x)),)))
    loc = I.cpp_locale
    if loc is not None:
        ref, v = stream_obj(I, st, a[0])
        if isinstance(v, Rec) and v.f.get("classic"):
            loc = None
    return put(I, st, a[0], group_dec(I, st, num(I, st, x), loc))


def f_shr(I, st, r, a, e):
    """formatted input"""
    ref, v = stream_obj(I, st, a[0])
    x = V(st, a[1])
    if isinstance(x, FnV):
        n = x.f["q"].split("::")[-1]
        if n not in ("hex", "dec", "ws", "skipws"):
            raise Imprecise("input format %s" % n)
        if n != "skipws" and n != "ws":
            st.write(ref, v.with_("base", 16 if n == "hex" else 10))
        return a[0]
    two = "rpos" in v.f
    data, pos, failed = (v.f["out"], v.f["rpos"], v.f["rfail"]) if two else (v.f["data"], v.f["pos"], v.f["fail"])
    if failed is True or failed is not False and st.decide(failed):
        return a[0]
    m = I.mod(st)
    t = I.T(m, r["pt"][-1])
    while t["k"] == "ref":
        t = I.T(m, t["to"])
    s = st.substr(data, pos, sub(data.len(), pos))
    loc = None if v.f.get("classic") else I.cpp_locale
    dest = a[1]
    c = s.const()

    def done(val, end, ok):
        if val is not None:
            st.write(dest, val)
        if two:
            st.write(ref, st.read(ref).with_("rpos", end).with_("rfail", not ok))
        else:
            w = st.read(ref).with_("pos", end)
            at_end = eq(sub(data.len(), end), 0)
            at_end = at_end if isinstance(at_end, bool) else st.decide(at_end)
            st.write(ref, w.with_("fail", not ok).with_("good", ok and not at_end))
        return a[0]
    if t.get("ch"):
        if not st.decide(lt(0, s.len())):
            return done(None, data.len(), False)
        i = 0
        while True:
            b = char_in(I, st, st.char_at(s, i), SPACE)
            if not (b if isinstance(b, bool) else st.decide(b)):
                break
            i += 1
            if i > 20:
                raise Imprecise("formatted input")
            if not st.decide(lt(i, s.len())):
                return done(None, data.len(), False)
        return done(st.char_at(s, i), add(pos, i + 1), True)
    if t["k"] == "int":
        if v.f.get("base", 10) == 16:
            val, end = scan_hex(I, st, s, 0, 64)
            return done(0 if val is None else I.to_type(st, val, t), add(pos, end if isnum(end) else 0), val is not None)
        if c is not None:
            g = re.match(r"\s*[+-]?\d+", c)
            good = bool(g)
            if g and loc is not None and loc[1]:
                # separators may be left out, but those which are there must be in the right places
                g = re.match(r"\s*[+-]?[\d%s]+" % re.escape(loc[1]), c)
                parts = g.group(0).lstrip().lstrip("+-").split(loc[1])
                good = len(parts) == 1 or 1 <= len(parts[0]) <= 3 and all(len(x) == 3 for x in parts[1:])
            x = int(g.group(0).replace(loc[1] if loc and loc[1] else "\0", "")) if g else 0
            if not in_range(I, st, x, t):
                good = False
                x = max(-(1 << (t["w"] - 1)), min(x, (1 << (t["w"] - 1)) - 1)) if not t.get("u") else (1 << t["w"]) - 1
            return done(x, add(pos, g.end() if g else 0), good)
        d = digits_value(st, s)
        if d is not None and not in_range(I, st, d, t):
            return done((1 << (t["w"] - (not t.get("u")))) - 1, data.len(), False)
        if d is not None:
            return done(I.to_type(st, d, t), data.len(), True)
        raise Imprecise("formatted input")
    if t["k"] == "float":
        if c is not None:
            pt = re.escape(point_of(loc))
            g = re.match(r"\s*[+-]?(\d+(%s\d*)?|%s\d+)([eE][+-]?\d+)?" % (pt, pt), c)
            return done(norm(Fraction(g.group(0).strip().replace(point_of(loc), "."))) if g else 0, add(pos, g.end() if g else 0), bool(g))
        d = digits_value(st, s)
        if d is not None:
            return done(d, data.len(), True)
        val = scan_float(I, st, s, loc)
        if val is None:
            return done(0, pos, False)
        w = st.read(ref)
        done(val, data.len(), True)
        return a[0]
    if t["k"] == "rec" and c is not None:
        g = re.match(r"\s*(\S+)", c)
        return done(K(g.group(1)) if g else EMPTY, add(pos, g.end() if g else len(c)), bool(g))
    raise Imprecise("formatted input")


def m_imbue(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    l = V(st, a[1])
    if ref is not None and isinstance(v, Rec):
        st.write(ref, v.with_("classic", isinstance(l, Tag) and l.v == "classic"))
    return Tag("std::locale", "global")


def m_ostream_write(I, st, r, a, e):
    p = V(st, a[1])
    n = num(I, st, a[2])
    c, i = bufpos(I, st, p)
    if p.r.root[0] == "lit" or p.r.path and p.r.path[-1][0] == "c":
        c = cat(c, "\0")
    if st.decide(lt(c.len(), add(i, n))):
        bad(I, st, "read beyond the end of a buffer", size=fmt_num(c.len()), end=fmt_num(add(i, n)))
    s = st.substr(c, i, n)
    return put(I, st, a[0], s)


def m_put(I, st, r, a, e):
    return put(I, st, a[0], Str((("v", code(st, V(st, a[1]))),)))


def m_str(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    return v.f["out"]


def stream_state(st, v, what):
    if "data" in v.f:
        return v.f["good"] if what == "good" else cnot(v.f["fail"])
    o = v.f.get("open")
    return all(st.decide(c) for c in o) if o is not None else True


def m_good(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    if isinstance(v, Rec) and "rfail" in v.f:
        return cnot(v.f["rfail"])
    if ref is None:
        return True
    return stream_state(st, v, "good" if r["q"].endswith("good") else "ok")


def m_fail(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    if isinstance(v, Rec) and "rfail" in v.f:
        return v.f["rfail"]
    if ref is None:
        return False
    return cnot(stream_state(st, v, "ok"))


def m_eof(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    return cnot(v.f["good"])


def m_is_open(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    o = v.f.get("open")
    return st.decide(o[0]) if o else False if "out" in v.f else True


def m_noop(I, st, r, a, e):
    return a[0] if a else None


def m_istream_read(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    n = num(I, st, a[2])
    p = V(st, a[1])
    avail = sub(v.f["data"].len(), v.f["pos"])
    if st.decide(le(n, avail)):
        k, ok = n, True
    else:
        k, ok = avail, False
    s = st.substr(v.f["data"], v.f["pos"], k)
    if s.len() != 0:
        buf_write(I, st, p, s, "istream::read")
    v = V(st, ref)
    d = dict(v.f)
    d.update({"pos": add(v.f["pos"], k), "gcount": k, "good": ok, "fail": not ok})
    st.write(ref, Rec(v.cls, d))
    return a[0]


def m_gcount(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    return v.f["gcount"]


def m_seekg(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    n = V(st, a[1])
    if not isconst(n):
        raise Imprecise("seekg")
    # a failed stream stays failed; eof is cleared
    d = dict(v.f)
    d["good"] = cnot(v.f["fail"])
    if st.decide(v.f["fail"]) if not isinstance(v.f["fail"], bool) else v.f["fail"]:
        d["good"] = False
    else:
        d["pos"] = n
    st.write(ref, Rec(v.cls, d))
    return a[0]


def m_tellg(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    return v.f["pos"]


def take_line(I, st, data, pos, delim=10):
    """(line, new position, found newline)"""
    _, rest = st.split_at(data, pos)
    q = st.find(rest, 1 << delim, 0)
    if q is None:
        return rest, data.len(), False
    return st.substr(rest, 0, q), add(pos, add(q, 1)), True


def f_getline(I, st, r, a, e):
    ref, v = stream_obj(I, st, a[0])
    delim = 10
    if len(a) > 2:
        delim = V(st, a[2])
    d = dict(v.f)
    g = v.f["good"]
    g = g if isinstance(g, bool) else st.decide(g)
    if not g:
        d["fail"] = True
        d["good"] = False
        st.write(ref, Rec(v.cls, d))
        return a[0]
    line, pos, nl = take_line(I, st, v.f["data"], v.f["pos"], delim)
    if nl:
        d["pos"] = pos
        st.write(a[1], line)
    else:
        d["good"] = False
        if st.decide(eq(line.len(), 0)):
            d["fail"] = True
            st.write(a[1], EMPTY)
        else:
            d["pos"] = pos
            st.write(a[1], line)
    st.write(ref, Rec(v.cls, d))
    return a[0]


def f_fgets(I, st, r, a, e):
    buf, n, f = V(st, a[0]), num(I, st, a[1]), V(st, a[2])
    ref = I.deref(st, f)
    v = st.read(ref)
    if not isinstance(v, Rec) or "data" not in v.f:
        raise Imprecise("fgets")
    data, pos = v.f["data"], v.f["pos"]
    if st.decide(le(data.len(), pos)):
        st.write(ref, v.with_("eof", True))
        return NULL
    line, np, nl = take_line(I, st, data, pos)
    L = add(line.len(), 1 if nl else 0)
    if st.decide(lt(sub(n, 1), L)):
        s = st.substr(data, pos, sub(n, 1))
        np = add(pos, sub(n, 1))
    else:
        s = cat(line, "\n") if nl else line
        if not nl and st.decide(lt(L, sub(n, 1))):
            v = v.with_("eof", True)
    buf_write(I, st, buf, cat(s, "\0"), "fgets")
    st.write(ref, v.with_("pos", np))
    return buf


def f_fread(I, st, r, a, e):
    buf, sz, n, f = V(st, a[0]), num(I, st, a[1]), num(I, st, a[2]), V(st, a[3])
    ref = I.deref(st, f)
    v = st.read(ref)
    if not isinstance(v, Rec) or "data" not in v.f or sz != 1:
        raise Imprecise("fread")
    avail = sub(v.f["data"].len(), v.f["pos"])
    k = n if st.decide(le(n, avail)) else avail
    s = st.substr(v.f["data"], v.f["pos"], k)
    if s.len() != 0:
        buf_write(I, st, buf, s, "fread")
    v = st.read(ref)
    st.write(ref, v.with_("pos", add(v.f["pos"], k)) if k is n else v.with_("pos", add(v.f["pos"], k)).with_("eof", True))
    return k


def in_file(I, st, f):
    ref = I.deref(st, V(st, f))
    v = st.read(ref)
    if not isinstance(v, Rec) or "data" not in v.f:
        raise Imprecise("FILE")
    return ref, v


def f_feof(I, st, r, a, e):
    return 1 if in_file(I, st, a[0])[1].f.get("eof") else 0


def f_fgetc(I, st, r, a, e):
    ref, v = in_file(I, st, a[0])
    if st.decide(le(v.f["data"].len(), v.f["pos"])):
        st.write(ref, v.with_("eof", True))
        return -1
    c = st.char_at(v.f["data"], v.f["pos"])
    st.write(ref, v.with_("pos", add(v.f["pos"], 1)))
    return bv_num(c) if isinstance(c, BV) else c


def f_rewind(I, st, r, a, e):
    ref, v = in_file(I, st, a[0])
    if len(a) > 1 and (num(I, st, a[1]) != 0 or num(I, st, a[2]) != 0):
        raise Imprecise("fseek")
    st.write(ref, v.with_("pos", 0).with_("eof", False))
    return 0


def m_istream_get(peek):
    def f(I, st, r, a, e):
        if len(a) > 1:
            raise Imprecise("istream::get with arguments")
        ref, v = stream_obj(I, st, a[0])
        d = dict(v.f)
        if st.decide(le(v.f["data"].len(), v.f["pos"])):
            d["good"] = False
            if not peek:
                d["fail"] = True
            st.write(ref, Rec(v.cls, d))
            return -1
        c = st.char_at(v.f["data"], v.f["pos"])
        if not peek:
            d["pos"] = add(v.f["pos"], 1)
            d["gcount"] = 1
            st.write(ref, Rec(v.cls, d))
        return bv_num(c) if isinstance(c, BV) else c
    return f


def f_fopen(I, st, r, a, e):
    p = S(I, st, a[0])
    mode = konst(I, st, a[1], "file mode")
    out = "w" in mode or "a" in mode
    if out:
        n = 1 + sum(1 for e in st.events if e.kind == "open for writing")
        cond = Cond("op", ("opened", p, n))
        st.event("open for writing", I.where(st), path=p, cond=cond)
    else:
        cond = Cond("op", ("opened", p))
    if not st.decide(cond):
        return NULL
    loc = I.where(st)
    c = st.alloc.get(("count", loc), 0)
    st.alloc = dict(st.alloc)
    st.alloc[("count", loc)] = c + 1
    root = ("h", loc, c)
    st.alloc[root] = "fopen"
    if out:
        st.mem[root] = Rec("FILE", {"out": EMPTY, "path": p, "n": n})
    else:
        st.mem[root] = Rec("FILE", {"data": content(st, p), "pos": 0, "path": p})
    return Ptr(Ref(root))


def f_fwrite(I, st, r, a, e):
    p, sz, n, f = V(st, a[0]), num(I, st, a[1]), num(I, st, a[2]), V(st, a[3])
    c, i = bufpos(I, st, p)
    ref = I.deref(st, f)
    v = st.read(ref)
    n2 = mul(sz, n)
    if st.decide(lt(c.len(), add(i, n2))):
        bad(I, st, "read beyond the end of a buffer")
    s = st.substr(c, i, n2)
    if not isinstance(v, Rec) or "out" not in v.f:
        raise Imprecise("fwrite")
    st.event("stream write", I.where(st), data=s, file=v.f["n"])
    st.write(ref, v.with_("out", cat(v.f["out"], s)))
    # all the writes to a file succeed, or none
    return n if file_result(I, st, v, "written") else 0


def file_result(I, st, v, what):
    """the result of something done to a file opened by fopen() for writing"""
    c = Cond("op", (what, v.f["path"], v.f["n"]) + ((sum(1 for e in st.events if e.kind == "stream flushed"),) if what == "flushed" else ()))
    st.event("stream flushed" if what == "flushed" else "stream state", I.where(st), file=v.f["n"], cond=c)
    return st.decide(c)


def written_file(I, st, f):
    f = V(st, f)
    v = st.read(f.r) if isinstance(f, (Ptr, Smart)) and f.r is not None and f.r.root not in st.freed else None
    return v if isinstance(v, Rec) and v.cls == "FILE" and "out" in v.f else None


def f_fflush(I, st, r, a, e):
    v = written_file(I, st, a[0])
    if v is None:
        raise Imprecise("fflush")
    return 0 if file_result(I, st, v, "flushed") else -1


def f_ferror(I, st, r, a, e):
    v = written_file(I, st, a[0])
    if v is None:
        return 0
    return 0 if file_result(I, st, v, "written") else 1


def f_fclose(I, st, r, a, e):
    f = V(st, a[0])
    if isinstance(f, Smart):
        f = Ptr(f.r)
    if not isinstance(f, Ptr):
        raise Imprecise("fclose")
    if f.r is None:
        bad(I, st, "fclose of a null FILE*")
    if f.r.root in st.freed:
        bad(I, st, "double fclose", root=f.r.root)
    v = written_file(I, st, f)
    st.freed = st.freed | {f.r.root}
    if v is not None:
        return 0 if file_result(I, st, v, "flushed") else -1
    return 0


def f_free(I, st, r, a, e):
    f = V(st, a[0])
    if isinstance(f, Ptr) and f.r is not None:
        if f.r.root in st.freed:
            bad(I, st, "double free", root=f.r.root)
        st.freed = st.freed | {f.r.root}


def f_exit(I, st, r, a, e):
    st.event("process exit", I.where(st), call=r["q"])
    _abort()


def f_printf(I, st, r, a, e):
    st.event("console output", I.where(st), stream=r["q"])
    return 0


def f_localeconv(I, st, r, a, e):
    root = ("lconv",)
    p, t = I.c_locale or (".", "")
    st.mem[root] = Rec("lconv", {"decimal_point": Ptr(Ref(("lit", p), (("i", 0),))), "thousands_sep": Ptr(Ref(("lit", t), (("i", 0),)))})
    return Ptr(Ref(root))


def f_utf(I, st, r, a, e):
    s = S(I, st, a[0])
    m = I.mod(st)
    rt = I.T(m, r["ret"])
    wide = "wchar_t" in rt["s"] or "char32_t" in rt["s"]
    c = s.const()
    if wide:
        if c is not None:
            try:
                return K(bytes(ord(x) & 255 for x in c).decode("utf-8", errors="ignore"))
            except ValueError:
                pass
        if len(s.segs) == 1 and s.segs[0][0] == "s" and s.segs[0][1].key[0] == "narrow" and s.segs[0][2] == 0 \
                and s.segs[0][3] == s.segs[0][1].length():
            return s.segs[0][1].key[1]
        sd = sid_for(("wide", s), ALLMASK, True)
        if st.known(eq(s.len(), 0)) is True:
            return EMPTY
        return Str((("s", sd, 0, sd.length(), None),))
    if c is not None:
        return K(c.encode("utf-8", "ignore").decode("latin-1"))
    if len(s.segs) == 1 and s.segs[0][0] == "s" and s.segs[0][1].key[0] == "wide" and s.segs[0][2] == 0 \
            and s.segs[0][3] == s.segs[0][1].length():
        return s.segs[0][1].key[1]
    sd = sid_for(("narrow", s), ALLMASK, False)
    return Str((("s", sd, 0, sd.length(), None),))


def f_path_extension(I, st, r, a, e):
    _, s = oval(I, st, a[0])
    c = s.const()
    if c is not None:
        b = c.rsplit("/", 1)[-1]
        if b in (".", "..") or "." not in b:
            return EMPTY
        return K(b[b.rindex("."):])
    # a path ending in a constant piece with a dot and no slash
    g = s.segs[-1] if s.segs else None
    if g is not None and g[0] == "k" and "." in g[1] and "/" not in g[1][g[1].rindex("."):]:
        return K(g[1][g[1].rindex("."):])
    if g is not None and len(s.segs) == 2 and s.segs[0][0] == "k" and s.segs[0][1].endswith(".") and len(s.segs[0][1]) > 1 \
            and s.segs[0][1][-2] != "/":
        pass
    # constant dot followed by symbolic characters which are neither dot nor slash
    for i in range(len(s.segs) - 1, -1, -1):
        h = s.segs[i]
        if h[0] == "k" and "." in h[1]:
            j = h[1].rindex(".")
            if "/" in h[1][j:]:
                break
            return cat(K(h[1][j:]), Str(s.segs[i + 1:]))
        if seg_known_mask(st, h) & mask_of("./"):
            break
    raise Imprecise("extension of an unknown path")


# ---------------------------------------------------------------- miscellaneous

def f_bind(I, st, r, a, e):
    fn = V(st, a[0])
    if isinstance(fn, Ptr) and fn.r is not None:
        fn = st.read(fn.r)
    args = []
    for x in a[1:]:
        v = V(st, x)
        args.append(v)
    return Bound(fn, args)


def f_ident(I, st, r, a, e):
    return a[0]


def f_make_pair(I, st, r, a, e):
    return Rec("std::pair", {"first": V(st, a[0]), "second": V(st, a[1])})


def f_distance(I, st, r, a, e):
    c, lo, hi, rev = rng(I, st, a[0], a[1])
    return sub(lo, hi) if rev else sub(hi, lo)


def f_next(sign):
    def f(I, st, r, a, e):
        n = num(I, st, a[1]) if len(a) > 1 else 1
        return it_plus(sign)(I, st, r, [a[0], n], e)
    return f


def f_strlen(I, st, r, a, e):
    return S(I, st, a[0]).len()


def f_back_inserter(I, st, r, a, e):
    return Tag("back_inserter", a[0])


def f_exists(I, st, r, a, e):
    return Cond("op", ("exists", S(I, st, a[0])))


def f_strcmp(I, st, r, a, e):
    x, y = S(I, st, a[0]), S(I, st, a[1])
    if len(a) > 2:
        n = num(I, st, a[2])
        x, y = st.substr(x, 0, n), st.substr(y, 0, n)
    if st.streq(x, y):
        return 0
    at = P(atom("cmp", x, y))
    st.assume(eq(at, 0), False)
    return at


def f_reverse(I, st, r, a, e):
    c, lo, hi, rev = rng(I, st, a[0], a[1])
    v = st.read(c)
    if isinstance(v, Vec) and v.known() and isconst(lo) and isconst(hi):
        it = list(v.items)
        it[int(lo):int(hi)] = reversed(it[int(lo):int(hi)])
        st.write(c, Vec(it, v.t))
        return None
    raise Imprecise("reverse")


def f_std_remove_char(I, st, r, a, e):
    raise Imprecise("std::remove")


FUNCS = {
    "memcpy": f_memcpy, "memmove": f_memcpy, "memset": f_memset, "std::fill": f_fill, "std::fill_n": f_fill_n, "std::copy": f_copy,
    "std::copy_n": f_copy_n,
    "snprintf": f_snprintf, "sprintf": f_snprintf, "sscanf": f_sscanf, "strtoll": f_strtoll, "strtol": f_strtoll, "strtoul": f_strtoll,
    "strtoull": f_strtoll, "atoi": f_atoi, "atol": f_atoi, "atof": f_atof, "std::stoi": f_stoi, "std::stol": f_stoi, "std::stoll": f_stoi, "std::stoul": f_stoi, "std::stoull": f_stoi, "std::stof": f_stof, "std::stod": f_stof,
    "std::locale::classic": lambda I, st, r, a, e: Tag("std::locale", "classic"), "boost::lexical_cast": f_lexical_cast, "std::to_string": f_to_string,
    "rint": f_rint, "rintf": f_rint, "lrint": f_rint, "lrintf": f_rint, "nearbyint": f_rint, "round": f_round, "lround": f_round, "floor": f_floor, "ceil": f_ceil,
    "trunc": lambda I, st, r, a, e: I.float_to_int(st, num(I, st, a[0])),
    "fabs": f_abs, "fabsf": f_abs, "abs": f_abs, "labs": f_abs, "llabs": f_abs, "std::max": f_minmax(True), "std::min": f_minmax(False),
    "std::swap": f_swap, "std::__gcd": f_gcd,
    "boost::algorithm::starts_with": f_starts_with, "boost::algorithm::ends_with": f_ends_with, "boost::algorithm::contains": f_contains,
    "boost::algorithm::iequals": f_iequals,
    "boost::algorithm::to_lower": f_mapcase(LOWER, False), "boost::algorithm::to_lower_copy": f_mapcase(LOWER, True),
    "boost::algorithm::to_upper": f_mapcase(UPPER, False), "boost::algorithm::to_upper_copy": f_mapcase(UPPER, True),
    "boost::algorithm::trim": f_trim(True, True, False, False), "boost::algorithm::trim_copy": f_trim(True, True, False, True),
    "boost::algorithm::trim_left": f_trim(True, False, False, False), "boost::algorithm::trim_right": f_trim(False, True, False, False),
    "boost::algorithm::trim_left_copy": f_trim(True, False, False, True), "boost::algorithm::trim_right_copy": f_trim(False, True, False, True),
    "boost::algorithm::trim_if": f_trim(True, True, True, False), "boost::algorithm::trim_left_if": f_trim(True, False, True, False),
    "boost::algorithm::trim_right_if": f_trim(False, True, True, False), "boost::algorithm::trim_copy_if": f_trim(True, True, True, True),
    "boost::algorithm::trim_left_copy_if": f_trim(True, False, True, True), "boost::algorithm::trim_right_copy_if": f_trim(False, True, True, True),
    "boost::algorithm::is_any_of": f_is_any_of, "boost::algorithm::is_space": lambda I, st, r, a, e: Tag("chpred", SPACE),
    "boost::algorithm::is_digit": lambda I, st, r, a, e: Tag("chpred", DIGITS),
    "boost::algorithm::split": f_split, "boost::algorithm::split_regex": f_split_regex, "boost::algorithm::join": f_join,
    "boost::algorithm::replace_all": f_replace_all(False), "boost::algorithm::replace_all_copy": f_replace_all(True),
    "boost::algorithm::replace_first": f_replace_all(False, one="first"), "boost::algorithm::replace_first_copy": f_replace_all(True, one="first"),
    "boost::algorithm::replace_last": f_replace_all(False, one="last"), "boost::algorithm::erase_first": f_replace_all(False, True, "first"),
    "boost::algorithm::erase_all": f_replace_all(False, True), "boost::algorithm::erase_all_copy": f_replace_all(True, True),
    "std::replace": f_std_replace,
    "boost::regex_search": f_regex(False), "boost::regex_match": f_regex(True), "std::regex_search": f_regex(False),
    "boost::bind": f_bind, "std::bind": f_bind, "std::move": f_ident, "std::forward": f_ident, "std::ref": f_ident, "std::cref": f_ident,
    "std::make_pair": f_make_pair, "std::distance": f_distance, "std::next": f_next(1), "std::prev": f_next(-1),
    "std::back_inserter": f_back_inserter,
    "strlen": f_strlen, "strcmp": f_strcmp, "strncmp": f_strcmp, "memcmp": f_strcmp, "std::reverse": f_reverse,
    "std::getline": f_getline, "fgets": f_fgets, "fread": f_fread, "fopen": f_fopen, "fclose": f_fclose, "fwrite": f_fwrite, "free": f_free,
    "exit": f_exit, "_exit": f_exit, "abort": f_exit, "std::terminate": f_exit, "quick_exit": f_exit, "_Exit": f_exit,
    "printf": f_printf, "puts": f_printf, "putchar": f_printf, "perror": f_printf,
    "localeconv": f_localeconv, "boost::locale::conv::utf_to_utf": f_utf,
    "boost::filesystem::path::extension": f_path_extension, "boost::filesystem::exists": f_exists,
    "boost::filesystem::path::string": lambda I, st, r, a, e: oval(I, st, a[0])[1],
    "boost::filesystem::path::c_str": m_c_str,
    "std::setw": lambda I, st, r, a, e: Tag("setw", num(I, st, a[0])), "std::setfill": lambda I, st, r, a, e: Tag("setfill", V(st, a[0])),
    "std::begin": lambda I, st, r, a, e: It(a[0], 0), "std::end": lambda I, st, r, a, e: It(a[0], csize(V(st, a[0]))),
    "boost::make_optional": lambda I, st, r, a, e: Opt(True, V(st, a[-1])) if len(a) == 1 else Opt(V(st, a[0]), V(st, a[1])),
    "boost::get_optional_value_or": m_opt_value_or,
    "getopt_long": lambda I, st, r, a, e: P(atom("getopt", I.where(st))),
    "std::isnan": lambda I, st, r, a, e: False, "std::uncaught_exception": lambda I, st, r, a, e: False,
    "std::__addressof": lambda I, st, r, a, e: Ptr(a[0]), "std::addressof": lambda I, st, r, a, e: Ptr(a[0]),
}
for _n in ("tolower", "toupper", "isspace", "isdigit", "isxdigit", "isalpha", "isalnum", "isupper", "islower", "isprint", "ispunct", "iscntrl"):
    FUNCS[_n] = ctype(_n)
    FUNCS["std::" + _n] = ctype(_n)
for _n in list(FUNCS):
    if "::" not in _n:
        FUNCS.setdefault("std::" + _n, FUNCS[_n])

STRM = {"substr": m_substr, "size": m_size, "length": m_size, "empty": m_empty, "c_str": m_c_str, "data": m_c_str, "clear": m_clear,
        "operator[]": m_str_index, "at": m_at, "operator+=": m_append, "append": m_append, "push_back": m_push_back, "pop_back": m_pop_back,
        "back": m_back, "front": m_front, "begin": m_begin, "end": m_end, "cbegin": m_begin, "cend": m_end, "rbegin": m_rbegin, "rend": m_rend,
        "erase": m_erase, "replace": m_replace, "insert": m_insert, "find": m_find, "find_first_of": m_find_first_of,
        "find_first_not_of": m_find_first_of, "find_last_of": m_find_last_of, "find_last_not_of": m_find_last_of, "rfind": m_rfind,
        "compare": m_compare, "resize": m_resize, "operator=": m_assign, "assign": m_assign, "reserve": m_noop, "shrink_to_fit": m_noop,
        "swap": lambda I, st, r, a, e: f_swap(I, st, r, [obj(I, st, a[0]), a[1]], e), "crbegin": m_rbegin, "crend": m_rend}
VECM = dict(STRM)
VECM.update({"push_front": m_push_front, "pop_front": m_pop_front, "emplace_back": m_push_back})
MAPM = {"size": m_size, "empty": m_empty, "clear": m_clear, "operator[]": m_map_index, "at": m_at, "begin": m_begin, "end": m_end,
        "cbegin": m_begin, "cend": m_end, "find": m_find, "count": m_count, "insert": m_insert, "emplace": m_emplace, "erase": m_erase,
        "lower_bound": m_bound, "upper_bound": m_bound, "operator=": m_assign}
OPTM = {"get": m_opt_get, "operator*": m_opt_get, "value": m_opt_get, "operator->": m_opt_arrow, "get_value_or": m_opt_value_or, "value_or": m_opt_value_or,
        "operator conv": m_opt_bool, "operator!": m_opt_not, "is_initialized": m_opt_bool, "has_value": m_opt_bool, "operator=": m_opt_assign,
        "reset": m_opt_reset, "get_ptr": m_opt_arrow}
PTRM = {"get": m_smart_get, "operator*": m_smart_deref, "operator->": m_smart_get, "operator[]": m_smart_index, "operator conv": m_smart_bool,
        "operator bool": m_smart_bool, "operator!": lambda I, st, r, a, e: not m_smart_bool(I, st, r, a, e), "release": m_smart_release,
        "reset": m_smart_reset, "operator=": m_assign}
ITM = {"operator++": it_step(1), "operator--": it_step(-1), "operator*": lambda I, st, r, a, e: I.deref(st, V(st, a[0])),
       "operator->": lambda I, st, r, a, e: Ptr(I.deref(st, V(st, a[0]))), "operator+": it_plus(1), "operator-": it_plus(-1),
       "operator[]": lambda I, st, r, a, e: I.deref(st, it_plus(1)(I, st, r, a, e)), "operator=": m_assign,
       "operator+=": lambda I, st, r, a, e: (st.write(obj(I, st, a[0]), it_plus(1)(I, st, r, a, e)), a[0])[1],
       "operator-=": lambda I, st, r, a, e: (st.write(obj(I, st, a[0]), it_plus(-1)(I, st, r, a, e)), a[0])[1]}
STRMM = {"write": m_ostream_write, "put": m_put, "str": m_str, "good": m_good, "fail": m_fail, "bad": m_fail, "operator!": m_fail, "operator conv": m_good,
         "operator bool": m_good, "eof": m_eof, "is_open": m_is_open, "close": m_flush, "flush": m_flush, "open": m_open, "exceptions": m_exceptions, "clear": m_noop,
         "read": m_istream_read, "gcount": m_gcount, "seekg": m_seekg, "tellg": m_tellg, "operator<<": f_shl, "operator>>": f_shr, "imbue": m_imbue}


def find_call(I, r):
    q = r["q"]
    h = FUNCS.get(q)
    if h is not None:
        return h
    if "::" not in q:
        return None
    cls, name = q.rsplit("::", 1)
    if name.startswith("operator ") and name != "operator conv":
        name = "operator conv"
    if cls in STRINGS:
        return STRM.get(name)
    if cls in SEQ or cls == "std::array":
        return VECM.get(name)
    if cls in MAPS or cls.startswith("std::_Rb_tree") and cls.endswith("tree"):
        return MAPM.get(name)
    if cls in ("boost::optional", "std::optional") or cls.startswith("boost::optional_detail"):
        return OPTM.get(name)
    if cls in ("std::__shared_ptr", "std::__shared_ptr_access", "std::shared_ptr", "std::unique_ptr", "boost::shared_ptr", "boost::scoped_ptr",
               "boost::scoped_array", "boost::shared_array"):
        return PTRM.get(name)
    if "iterator" in cls:
        return ITM.get(name)
    if cls in IOSTREAM:
        return STRMM.get(name)
    if cls == "boost::match_results":
        return {"operator[]": m_match_index, "size": m_match_size, "empty": lambda I, st, r, a, e: eq(m_match_size(I, st, r, a, e), 0)}.get(name)
    if cls == "boost::sub_match":
        return {"operator conv": lambda I, st, r, a, e: oval(I, st, a[0])[1], "str": lambda I, st, r, a, e: oval(I, st, a[0])[1],
                "length": m_size}.get(name)
    if cls == "boost::basic_regex" and name == "operator=":
        return m_assign
    if cls == "boost::filesystem::path" and name in ("operator=",):
        return lambda I, st, r, a, e: (st.write(obj(I, st, a[0]), S(I, st, a[1])), a[0])[1]
    if cls in ("boost::function", "std::function", "boost::function0", "boost::function_base"):
        if name == "operator=":
            return m_assign
        if name in ("operator conv", "operator bool"):
            return lambda I, st, r, a, e: not (oval(I, st, a[0])[1] == NULL)
    if cls in ("std::exception", "std::runtime_error", "std::logic_error") and name == "what":
        return m_what
    if q in ("std::operator+",):
        return m_str_plus
    if q == "std::operator>>":
        return f_shr
    if q == "std::operator<<":
        return f_shl
    if name in ("operator+", "operator-") and cls in ("__gnu_cxx",):
        return it_plus(1 if name[-1] == "+" else -1)
    return None


def m_what(I, st, r, a, e):
    ref, v = oval(I, st, a[0])
    if isinstance(v, Rec):
        w = v.f.get("what", EMPTY)
        t = I.temp(st, w)
        return Ptr(t.f("c", 0))
    raise Imprecise("what")


# ---------------------------------------------------------------- models which call back

def find_complex(I, r):
    q = r["q"]
    if q in COMPLEX:
        return COMPLEX[q]
    name = q.rsplit("::", 1)[-1]
    if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and \
            q.split("::")[0] in ("std", "boost", "__gnu_cxx"):
        return c_equal
    if q in ("boost::function0::operator()", "std::function::operator()", "boost::function1::operator()", "boost::function::operator()",
             "boost::_bi::bind_t::operator()", "boost::function2::operator()"):
        return c_call
    if q in ("std::vector::emplace_back", "std::list::emplace_back", "std::deque::emplace_back"):
        return c_emplace_back
    if q in ("std::make_shared", "std::make_unique", "boost::make_shared"):
        return c_make_shared
    return None


def c_call(I, s, r, a, e):
    fv = V(s, a[0])
    return I.call_value(s, fv, list(a[1:]), e)


def build(I, s, cls, args, heap=False):
    """construct an object of a repository class from arguments: states with the value pushed, or None"""
    rr = I.rec.get(cls)
    if rr is None:
        return None
    cands = []
    for mt in rr["methods"]:
        if mt.get("ctor") and mt["key"] in I.fn:
            m, f = I.fn[mt["key"]]
            if f.get("body") is not None and len(f["params"]) == len(args):
                ref = m["fnrefs"][f["ref"]]
                if ref.get("ctor") not in ("copy", "move"):
                    cands.append(mt["key"])
    if len(cands) > 1:
        good = [k for k in cands if all(plausible(I, s, k, i, x) for i, x in enumerate(args))]
        cands = good or cands
    if len(cands) != 1:
        return None
    if heap:
        loc = I.where(s)
        c = s.alloc.get(("count", loc), 0)
        s.alloc = dict(s.alloc)
        s.alloc[("count", loc)] = c + 1
        root = ("h", loc, c)
        s.alloc[root] = "new"
    else:
        root = I.temp(s, UNINIT).root
    s.mem[root] = Rec(cls, {})
    out = I.call_fn(s, cands[0], args, Ref(root))
    for o in out:
        if o.ctl is None:
            o.vals[-1] = Ref(root)
        elif heap and o.ctl[0] == "throw":
            o.freed = o.freed | {root}
    return out


def plausible(I, s, key, i, x):
    m, f = I.fn[key]
    t = m["types"][f["params"][i][2]]
    if t["k"] == "ref":
        t = m["types"][t["to"]]
    v = V(s, x)
    if isinstance(v, Str):
        return t.get("q") in STRINGS
    if isinstance(v, Rec):
        return t["k"] == "rec" and (t.get("n") == v.cls or I.is_a(v.cls, t.get("n")) or v.cls in ("std::istream", "FILE"))
    if isinstance(v, Ptr):
        return t["k"] == "ptr"
    if isinstance(v, (Opt,)):
        return "optional" in (t.get("q") or "")
    if isnum(v) or isinstance(v, (BV, bool, Cond)):
        return t["k"] in ("int", "float", "bool", "enum")
    return True


def c_emplace_back(I, s, r, a, e):
    ref = a[0]
    if isinstance(ref, Ptr):
        ref = ref.r
    m = re.match(r"std::(?:vector|list|deque)<(.*)>$", r.get("cls") or "")
    el = m.group(1) if m else ""
    el = el.split(", std::allocator")[0]
    args = list(a[1:])

    def fin(st, v):
        cur = st.read(ref)
        if isinstance(cur, Vec):
            st.write(ref, Vec(cur.items + (v,), cur.t))
            st.vals.append(ref.f("i", sub(Vec(cur.items + (v,)).size(), 1)))
        elif isinstance(cur, Str):
            st.write(ref, cat(cur, Str((("v", code(st, v)),))))
            st.vals.append(None)
        else:
            st.note_imp("emplace_back")
            st.vals.append(Top("emplace_back"))
        return st
    if len(args) == 1:
        v = V(s, args[0])
        if isinstance(v, Rec) and v.cls == el or el not in I.rec:
            if el.startswith("std::basic_string") and isinstance(v, Ptr):
                s.vals.append(v)
                out = I.prim(s, 1, lambda st, z: S(I, st, z[0]))
                return [fin(o, o.vals.pop()) if o.ctl is None else o for o in out]
            return [fin(s, v)]
    if not args and el not in I.rec:
        s.note_imp("emplace_back")
        return [fin(s, EMPTY if el.startswith("std::basic_string") else Top("emplace_back"))]
    out = build(I, s, el, args)
    if out is None:
        rr = I.rec.get(el)
        if not args and rr is not None:
            mm = I.recmod[el]
            for i, t in enumerate(mm["types"]):
                if t["k"] == "rec" and t.get("n") == el:
                    return [fin(s, I.zero(mm, i))]
        s.note_imp("emplace_back of " + el)
        return [fin(s, Top("emplace_back of " + el))]
    return [fin(o, o.read(o.vals.pop())) if o.ctl is None else o for o in out]


def c_make_shared(I, s, r, a, e):
    m = I.mod(s)
    rt = I.T(m, r["ret"])
    mm = re.match(r"(?:std|boost)::(?:shared_ptr|unique_ptr)<(.*)>$", rt.get("n") or "")
    cls = mm.group(1).split(", std::default_delete")[0] if mm else ""
    out = build(I, s, cls, list(a), True)
    if out is None:
        s.note_imp("make_shared<%s>" % cls)
        s.vals.append(Top("make_shared"))
        return [s]
    for o in out:
        if o.ctl is None:
            ref = o.vals.pop()
            own(o, ref.root)
            o.vals.append(Smart(ref, ref.root))
        elif o.ctl[0] == "throw":
            pass
    return out


def each(I, s, c, lo, hi, rev, f):
    """states after calling f(state, element ref) for each element; f returns states with a value pushed"""
    raise NotImplementedError


def positions(I, s, a, b):
    c, lo, hi, rev = rng(I, s, a, b)
    if not isconst(lo) or not isconst(hi):
        raise Imprecise("range of unknown length")
    if rev:
        return c, list(range(int(lo) - 1, int(hi) - 1, -1)), rev
    return c, list(range(int(lo), int(hi))), rev


def guarded(f):
    def g(I, s, r, a, e):
        import interp
        work = [s]
        out = []
        while work:
            x = work.pop()
            x0 = x.copy()
            try:
                out.extend(f(I, x, r, a, e))
            except NeedSplit as ns:
                I.split(x0, ns.cond, work)
            except interp.Abort:
                x.ctl = ("abort",)
                out.append(x)
            except Imprecise as im:
                x0.note_imp(str(im) + " at " + str(I.where(x0)))
                x0.vals.append(Top(str(im)))
                out.append(x0)
        return out
    return g


def elem(st, c, i):
    v = st.read(c)
    if isinstance(v, Str):
        return st.char_at(v, i)
    if isinstance(v, Map):
        return c.f("mp", i)
    return c.f("i", i)


def search(I, s, a, want, on_hit, on_miss):
    """first element for which the predicate a[2] equals want"""
    c, pos, rev = positions(I, s, a[0], a[1])
    out = []
    live = [s]
    for i in pos:
        nxt = []
        for st in live:
            for o in I.call_value(st, V(st, a[2]), [elem(st, c, i)], {}):
                if o.ctl is not None:
                    out.append(o)
                    continue
                t, f = I.branch(o)
                hit, miss = (t, f) if want else (f, t)
                for z in hit:
                    z.vals.append(on_hit(c, i, rev))
                    out.append(z)
                nxt.extend(miss)
        live = nxt
    for o in live:
        o.vals.append(on_miss(o))
        out.append(o)
    return out


def c_any(kind):
    @guarded
    def f(I, s, r, a, e):
        # a character predicate over a whole string
        c, lo, hi, rev = rng(I, s, a[0], a[1])
        v = s.read(c)
        p = V(s, a[2])
        if isinstance(v, Str) and not isconst(v.len()):
            m = None
            if isinstance(p, Tag) and p.k == "chpred" or isinstance(p, FnV):
                m = pred_mask(I, s, p)
            elif isinstance(p, Closure):
                m = closure_mask(I, s, p)
            if m is None:
                raise Imprecise("predicate over a string of unknown length")
            sub_ = s.substr(v, lo, sub(hi, lo))
            mm = m if kind != "all" else ALLMASK & ~m
            q = s.find(sub_, mm, 0)
            res = q is not None
            if kind != "any":
                res = not res
            s.vals.append(res)
            return [s]
        if kind == "any":
            return search(I, s, a, True, lambda c, i, rv: True, lambda o: False)
        if kind == "all":
            return search(I, s, a, False, lambda c, i, rv: False, lambda o: True)
        return search(I, s, a, True, lambda c, i, rv: False, lambda o: True)
    return f


def closure_mask(I, s, cl):
    """the set of bytes a character predicate accepts, if it is a function of the byte alone"""
    st = s.copy()
    at = bytesym("pred.probe")
    st.cs.pop(at, None)
    out = I.call_value(st, cl, [BV(at, SIGNED)], {})
    m = 0
    for o in out:
        if o.ctl is not None or o.imp is not None and s.imp is None:
            return None
        v = o.vals[-1]
        if isinstance(v, bool):
            if v:
                m |= o.mask(at)
        elif isinstance(v, Cond) and v.kind == "bm" and v.a is at:
            m |= o.mask(at) & (~v.b if v.neg else v.b) & ALLMASK
        elif isinstance(v, BV) and v.a is at:
            m |= mask_of(i for i in mask_chars(o.mask(at)) if v.tbl[i])
        else:
            return None
    return m


def c_find_if(want):
    @guarded
    def f(I, s, r, a, e):
        end = V(s, a[1])
        c, lo, hi, rev = rng(I, s, a[0], a[1])
        v = s.read(c)
        if isinstance(v, Str) and not isconst(v.len()):
            p = V(s, a[2])
            m = closure_mask(I, s, p) if isinstance(p, Closure) else pred_mask(I, s, p)
            if m is None or rev:
                raise Imprecise("find_if")
            sub_ = s.substr(v, lo, sub(hi, lo))
            q = s.find(sub_, m if want else ALLMASK & ~m, 0)
            s.vals.append(end if q is None else It(c, add(lo, q)))
            return [s]
        return search(I, s, a, want, lambda c, i, rv: It(c, i + 1 if rv else i, rv), lambda o: end)
    return f


@guarded
def c_std_find(I, s, r, a, e):
    c, pos, rev = positions(I, s, a[0], a[1])
    end = V(s, a[1])
    out = []
    live = [s]
    for i in pos:
        nxt = []
        for st in live:
            for o in cmp_values(I, st, "==", V(st, elem(st, c, i)), V(st, a[2])):
                if o.ctl is not None:
                    out.append(o)
                    continue
                t, f = I.branch(o)
                for z in t:
                    z.vals.append(It(c, i + 1 if rev else i, rev))
                    out.append(z)
                nxt.extend(f)
        live = nxt
    for o in live:
        o.vals.append(end)
        out.append(o)
    return out


@guarded
def c_count_if(I, s, r, a, e):
    c, pos, rev = positions(I, s, a[0], a[1])
    live = [(s, 0)]
    out = []
    for i in pos:
        nxt = []
        for st, n in live:
            for o in I.call_value(st, V(st, a[2]), [elem(st, c, i)], {}):
                if o.ctl is not None:
                    out.append(o)
                    continue
                t, f = I.branch(o)
                nxt.extend((z, n + 1) for z in t)
                nxt.extend((z, n) for z in f)
        live = nxt
    for o, n in live:
        o.vals.append(n)
        out.append(o)
    return out


@guarded
def c_for_each(I, s, r, a, e):
    c, pos, rev = positions(I, s, a[0], a[1])
    fn = V(s, a[2])
    live = [s]
    for i in pos:
        live = [o for st in live for o in I.seq([st], lambda x: I.seq(I.call_value(x, fn, [elem(x, c, i)], {}), lambda y: (y.vals.pop(), [y])[1]))]
    for o in live:
        if o.ctl is None:
            o.vals.append(fn)
    return live


@guarded
def c_transform(I, s, r, a, e):
    c, lo, hi, rev = rng(I, s, a[0], a[1])
    v = s.read(c)
    fn = V(s, a[-1])
    d = V(s, a[2])
    if isinstance(v, Str) and len(a) == 4:
        tbl = None
        if isinstance(fn, FnV) and fn.f["q"].split("::")[-1] in ("tolower", "toupper"):
            tbl = LOWER if fn.f["q"].endswith("tolower") else UPPER
        elif isinstance(fn, Closure):
            st = s.copy()
            at = bytesym("transform.probe")
            out = I.call_value(st, fn, [BV(at, IDENT)], {})
            if len(out) == 1 and out[0].ctl is None and isinstance(out[0].vals[-1], BV) and out[0].vals[-1].a is at:
                tbl = tuple(x & 255 for x in out[0].vals[-1].tbl)
        if tbl is None:
            raise Imprecise("transform")
        x = s.map_chars(s.substr(v, lo, sub(hi, lo)), tbl)
        if isinstance(d, Tag) and d.k == "back_inserter":
            s.write(d.v, cat(s.read(d.v), x))
            s.vals.append(d)
            return [s]
        if x.len() != 0:
            buf_write(I, s, d, x, "transform")
        s.vals.append(It(d.c, add(d.pos, x.len())) if isinstance(d, It) else d)
        return [s]
    c, pos, rev = positions(I, s, a[0], a[1])
    live = [s]
    out = []
    for n, i in enumerate(pos):
        nxt = []
        for st in live:
            for o in I.call_value(st, fn, [elem(st, c, i)], {}):
                if o.ctl is not None:
                    out.append(o)
                    continue
                x = V(o, o.vals.pop())
                if isinstance(d, Tag) and d.k == "back_inserter":
                    cur = o.read(d.v)
                    if isinstance(cur, Vec):
                        o.write(d.v, Vec(cur.items + (x,), cur.t))
                    else:
                        o.write(d.v, cat(cur, Str((("v", code(o, x)),))))
                else:
                    o.write(I.deref(o, It(d.c, add(d.pos, n))), x)
                nxt.append(o)
        live = nxt
    for o in live:
        o.vals.append(d)
        out.append(o)
    return out


@guarded
def c_accumulate(I, s, r, a, e):
    c, pos, rev = positions(I, s, a[0], a[1])
    live = [(s, V(s, a[2]))]
    out = []
    m = I.mod(s)
    for i in pos:
        nxt = []
        for st, acc in live:
            if len(a) > 3:
                for o in I.call_value(st, V(st, a[3]), [acc, elem(st, c, i)], {}):
                    if o.ctl is not None:
                        out.append(o)
                    else:
                        nxt.append((o, V(o, o.vals.pop())))
            else:
                x = V(st, elem(st, c, i))
                if isinstance(acc, Str):
                    nxt.append((st, cat(acc, S(I, st, x))))
                elif isnum(acc) and isnum(x):
                    nxt.append((st, add(acc, x)))
                else:
                    raise Imprecise("accumulate")
        live = nxt
    for o, acc in live:
        o.vals.append(acc)
        out.append(o)
    return out


@guarded
def c_unstable_sort(I, s, r, a, e):
    """the order of elements which compare equal is not specified: both as they were and reversed"""
    other = s.copy()
    out = c_sort(I, s, r, a, e)
    c, pos, rev = positions(I, other, a[0], a[1])
    if len(pos) > 1:
        out = out + c_sort(I, other, r, a, e, True)
    return out


def c_sort(I, s, r, a, e, reverse=False):
    c, pos, rev = positions(I, s, a[0], a[1])
    v = s.read(c)
    if not isinstance(v, Vec) or rev or not v.known():
        raise Imprecise("sort")
    less = V(s, a[2]) if len(a) > 2 else None
    out = []
    # insertion sort, stable; every comparison is the program's own
    live = [(s, [])]
    for i in (list(pos)[::-1] if reverse else pos):
        x = v.items[i]
        nxt = []
        for st, done in live:
            work = [(st, len(done))]
            while work:
                st2, k = work.pop()
                if k == 0:
                    nxt.append((st2, [x] + done))
                    continue
                if less is not None:
                    res = I.call_value(st2, less, [I.temp(st2, x), I.temp(st2, done[k - 1])], {})
                else:
                    res = cmp_values(I, st2, "<", x, done[k - 1])
                for o in res:
                    if o.ctl is not None:
                        out.append(o)
                        continue
                    t, f = I.branch(o)
                    work.extend((z, k - 1) for z in t)
                    for z in f:
                        nxt.append((z, done[:k] + [x] + done[k:]))
        live = nxt
    for o, done in live:
        items = list(o.read(c).items)
        for j, i in enumerate(pos):
            items[i] = done[j]
        # values may have been refined by substitutions since they were read
        o.write(c, Vec(items, v.t))
        o.vals.append(None)
        out.append(o)
    return out


def lessthan(I, s, pred, x, y):
    """states with the truth of x < y pushed"""
    if pred is not None:
        return I.call_value(s, pred, [I.temp(s, V(s, x)), I.temp(s, V(s, y))], {})
    return cmp_values(I, s, "<", V(s, x), V(s, y))


def c_extreme(mx):
    @guarded
    def f(I, s, r, a, e):
        c, pos, rev = positions(I, s, a[0], a[1])
        pred = V(s, a[2]) if len(a) > 2 else None
        if not pos:
            s.vals.append(V(s, a[1]))
            return [s]
        at = lambda i: It(c, i + 1 if rev else i, rev)
        out = []
        live = [(s, pos[0])]
        for i in pos[1:]:
            nxt = []
            for st, best in live:
                x, y = (elem(st, c, best), elem(st, c, i))
                for o in (lessthan(I, st, pred, x, y) if mx else lessthan(I, st, pred, y, x)):
                    if o.ctl is not None:
                        out.append(o)
                        continue
                    t, f_ = I.branch(o)
                    nxt.extend((z, i) for z in t)
                    nxt.extend((z, best) for z in f_)
            live = nxt
        for o, best in live:
            o.vals.append(at(best))
            out.append(o)
        return out
    return f


def chosen(I, s, a, pick):
    """[(state, positions for which pick gives true)], finished states"""
    c, pos, rev = positions(I, s, a[0], a[1])
    live = [(s, ())]
    out = []
    for i in pos:
        nxt = []
        for st, done in live:
            for o in pick(st, elem(st, c, i)):
                if o.ctl is not None:
                    out.append(o)
                    continue
                t, f = I.branch(o)
                nxt.extend((z, done + (i,)) for z in t)
                nxt.extend((z, done) for z in f)
        live = nxt
    return c, pos, rev, live, out


@guarded
def c_count(I, s, r, a, e):
    want = V(s, a[2])
    c, pos, rev, live, out = chosen(I, s, a, lambda st, x: cmp_values(I, st, "==", V(st, x), want))
    for o, done in live:
        o.vals.append(len(done))
        out.append(o)
    return out


@guarded
def c_copy_if(I, s, r, a, e):
    fn = V(s, a[3])
    d = V(s, a[2])
    c, pos, rev, live, out = chosen(I, s, a, lambda st, x: I.call_value(st, fn, [x], {}))
    if not (isinstance(d, Tag) and d.k == "back_inserter"):
        raise Imprecise("copy_if")
    for o, done in live:
        for i in done:
            x = V(o, elem(o, c, i))
            cur = o.read(d.v)
            o.write(d.v, Vec(cur.items + (x,), cur.t) if isinstance(cur, Vec) else cat(cur, Str((("v", code(o, x)),))))
        o.vals.append(d)
        out.append(o)
    return out


def c_remove(pred):
    @guarded
    def f(I, s, r, a, e):
        fn = V(s, a[2])
        c, pos, rev, live, out = chosen(I, s, a, lambda st, x: I.call_value(st, fn, [x], {}) if pred else cmp_values(I, st, "==", V(st, x), fn))
        if rev:
            raise Imprecise("remove")
        for o, done in live:
            v = o.read(c)
            keep = [i for i in pos if i not in done]
            if isinstance(v, Vec):
                items = list(v.items)
                for n, i in enumerate(keep):
                    items[pos[0] + n] = v.items[i]
                o.write(c, Vec(items, v.t))
            elif isinstance(v, Str) and pos:
                x = cat(o.substr(v, 0, pos[0]), *([o.substr(v, i, 1) for i in keep] + [o.substr(v, pos[0] + len(keep), sub(v.len(), pos[0] + len(keep)))]))
                o.write(c, x)
            elif pos:
                raise Imprecise("remove")
            o.vals.append(It(c, (pos[0] if pos else 0) + len(keep)))
            out.append(o)
        return out
    return f


@guarded
def c_std_equal(I, s, r, a, e):
    c, pos, _ = positions(I, s, a[0], a[1])
    x = [V(s, elem(s, c, i)) for i in pos]
    d = V(s, a[2])
    if len(a) == 3 and isinstance(d, It) and isconst(d.pos) and not d.rev:
        y = [V(s, elem(s, d.c, int(d.pos) + n)) for n in range(len(x))]
    elif len(a) == 4 and isinstance(V(s, a[3]), It):
        c2, pos2, _ = positions(I, s, a[2], a[3])
        y = [V(s, elem(s, c2, i)) for i in pos2]
        if len(x) != len(y):
            s.vals.append(False)
            return [s]
    else:
        raise Imprecise("equal")
    return cmp_list(I, s, x, y)


@guarded
def c_clamp(I, s, r, a, e):
    out = []
    for o in cmp_values(I, s, "<", V(s, a[0]), V(s, a[1])):
        if o.ctl is not None:
            out.append(o)
            continue
        t, f = I.branch(o)
        for z in t:
            z.vals.append(a[1])
            out.append(z)
        for z in f:
            for q in cmp_values(I, z, "<", V(z, a[2]), V(z, a[0])):
                if q.ctl is None:
                    t2, f2 = I.branch(q)
                    for w in t2:
                        w.vals.append(a[2])
                    for w in f2:
                        w.vals.append(a[0])
                    out.extend(t2 + f2)
                else:
                    out.append(q)
    return out


def f_exchange(I, st, r, a, e):
    x = V(st, a[0])
    st.write(a[0], V(st, a[1]))
    return x


def f_tuple(I, st, r, a, e):
    return Rec("std::tuple", {"%02d" % i: V(st, x) for i, x in enumerate(a)})


FUNCS.update({n: f for x, f in (("feof", f_feof), ("ferror", f_ferror), ("fflush", f_fflush), ("fgetc", f_fgetc), ("getc", f_fgetc), ("rewind", f_rewind), ("fseek", f_rewind)) for n in (x, "std::" + x)})
STRMM.update({"get": m_istream_get(False), "peek": m_istream_get(True)})
FUNCS.update({"std::exchange": f_exchange, "std::tie": f_tuple, "std::make_tuple": f_tuple, "std::forward_as_tuple": f_tuple})

COMPLEX = {
    "std::min_element": c_extreme(False), "std::max_element": c_extreme(True), "std::count": c_count, "std::copy_if": c_copy_if,
    "std::remove_if": c_remove(True), "std::remove": c_remove(False), "std::equal": c_std_equal, "std::clamp": c_clamp,
    "std::any_of": c_any("any"), "std::all_of": c_any("all"), "std::none_of": c_any("none"),
    "std::find_if": c_find_if(True), "std::find_if_not": c_find_if(False), "std::find": c_std_find, "std::count_if": c_count_if,
    "std::for_each": c_for_each, "std::transform": c_transform, "std::accumulate": c_accumulate,
    "std::stable_sort": c_sort, "std::sort": c_unstable_sort,
}


# ---------------------------------------------------------------- String::compose

def compose(I, st, a):
    fmt = konst(I, st, a[0], "format")
    args = []
    n = 1
    subst = {}
    for x in a[1:]:
        v = V(st, x)
        if isinstance(v, Top):
            s = Str((("s", sid_for(("unknown", v.why)), 0, sid_for(("unknown", v.why)).length(), None),))
        elif isinstance(v, (Str, Ptr)):
            s = S(I, st, v)
        else:
            s = dec(st, num(I, st, v))
        # an argument which converts to nothing does not consume a place
        e = eq(s.len(), 0)
        if isinstance(e, bool):
            if e:
                continue
        elif st.known(e) is True:
            continue
        subst[n] = s
        n += 1
    out = []
    for m in re.finditer(r"%(\d+)|%%|[^%]+|%", fmt):
        t = m.group(0)
        if m.group(1):
            out.append(subst.get(int(m.group(1)), EMPTY))
        elif t == "%%":
            out.append(K("%"))
        else:
            out.append(K(t))
    return cat(*out)
