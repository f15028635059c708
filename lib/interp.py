"""Structural abstract interpreter over the exported, type-checked syntax trees.

Every expression and statement is mapped to a function from an abstract state to a list of abstract
states (disjunctive completion); states whose memory agrees are joined; loops are solved by iterating
until the state at the head is covered by an inductive generalisation in a loop counter.
"""
import itertools
import sys
from fractions import Fraction

import dom
from dom import *
import state as S
from state import *
import models

sys.setrecursionlimit(20000)

_fresh = itertools.count()


class Budget(Exception):
    pass


class Throw(Exception):
    """raised by a library model: a C++ exception of the given class"""

    def __init__(self, cls, v=None):
        Exception.__init__(self, cls)
        self.cls = cls
        self.v = v


class Abort(Exception):
    """raised by a model: execution cannot continue (after an event)"""


STD_BASES = {
    "std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"],
    "std::ios_base::failure": ["std::runtime_error"], "std::out_of_range": ["std::logic_error"], "std::invalid_argument": ["std::logic_error"],
    "std::length_error": ["std::logic_error"], "std::bad_cast": ["std::exception"],
    "std::range_error": ["std::runtime_error"], "std::overflow_error": ["std::runtime_error"],
    "boost::bad_lexical_cast": ["std::bad_cast"], "std::bad_alloc": ["std::exception"],
    "boost::bad_function_call": ["std::runtime_error"], "std::bad_function_call": ["std::exception"],
    "boost::wrapexcept": ["boost::bad_lexical_cast"],
    "boost::bad_optional_access": ["std::logic_error"], "boost::locale::conv::conversion_error": ["std::runtime_error"],
}


class Interp(object):
    def __init__(self, mods, budget=3000000):
        self.mods = mods
        self.fn = {}
        self.rec = {}
        self.recmod = {}
        self.glob = {}
        self.enum = {}
        for m in mods:
            m["Tcache"] = m["types"]
            for k, f in m["functions"].items():
                if k not in self.fn or (self.fn[k][1].get("body") is None and f.get("body") is not None):
                    self.fn[k] = (m, f)
            for k, r in m["records"].items():
                if k not in self.rec:
                    self.rec[k] = r
                    self.recmod[k] = m
                self.rec.setdefault(r["q"], r)
                self.recmod.setdefault(r["q"], m)
            for k, g in m["globals"].items():
                if k not in self.glob or (not self.glob[k][1].get("def") and g.get("def")):
                    self.glob[k] = (m, g)
            for k, e in m["enums"].items():
                self.enum.setdefault(k, e)
        self.summaries = {}      # function key prefix or q -> handler(I, st, ref, obj, args, e) -> list of states
        self.c_locale = None    # (decimal point, thousands separator) of the C library
        self.cpp_locale = None  # those of std::locale::global
        self.exact = False      # follow every iteration of every loop
        self.steps = 0
        self.budget = budget
        self.visited = set()     # functions entered
        self.unmodelled = {}
        self.overflows = None       # list: collect signed results which may overflow
        self.floats = False         # follow the roundings of single precision
        self.EV = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith("ev_")}
        self.EX = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith("ex_")}
        self._vt = {}
        self.loops_generalised = {}
        self.maxstates = 400

    # ------------------------------------------------------------ types

    def T(self, mod, t):
        return mod["types"][t]

    def find(self, pattern):
        """function keys whose qualified name is pattern"""
        out = []
        for k, (m, f) in self.fn.items():
            if m["fnrefs"][f["ref"]]["q"] == pattern:
                out.append(k)
        return out

    # ------------------------------------------------------------ outcomes

    def prim(self, st, n, f):
        """f(state, args) -> value; args are the top n values, which f's value replaces"""
        work = [st]
        out = []
        while work:
            s = work.pop()
            args = s.vals[len(s.vals) - n:] if n else []
            try:
                v = f(s, args)
            except NeedSplit as ns:
                self.split(s, ns.cond, work)
                continue
            except Throw as t:
                s.ctl = ("throw", Exc(t.cls, t.v if t.v is not None else Rec(t.cls, {"what": K(t.cls)}), self.where(s)))
                out.append(s)
                continue
            except Abort:
                s.ctl = ("abort",)
                out.append(s)
                continue
            except Imprecise as m:
                s.note_imp(str(m) + " at " + str(self.where(s)))
                v = Top(str(m))
            if n:
                del s.vals[len(s.vals) - n:]
            s.vals.append(v)
            out.append(s)
        return out

    def primc(self, st, n, f):
        """like prim, for operations which may change the state before they need a decision"""
        work = [st]
        out = []
        while work:
            s0 = work.pop()
            s = s0.copy()
            args = s.vals[len(s.vals) - n:] if n else []
            try:
                v = f(s, args)
            except NeedSplit as ns:
                self.split(s0, ns.cond, work)
                continue
            except Throw as t:
                s.ctl = ("throw", Exc(t.cls, t.v if t.v is not None else Rec(t.cls, {"what": K(t.cls)}), self.where(s)))
                out.append(s)
                continue
            except Abort:
                s.ctl = ("abort",)
                out.append(s)
                continue
            except Imprecise as m:
                s = s0
                s.note_imp(str(m) + " at " + str(self.where(s)))
                v = Top(str(m))
            if n:
                del s.vals[len(s.vals) - n:]
            s.vals.append(v)
            out.append(s)
        return out

    def split(self, s, cond, work):
        s2 = s.copy()
        if s2.assume(cond, False):
            s2.path = s2.path + ((self.where(s2), cnot(cond)),)
            work.append(s2)
        if s.assume(cond, True):
            s.path = s.path + ((self.where(s), cond),)
            work.append(s)

    def where(self, st):
        return st.frames[-1].loc if st.frames else None

    def seq(self, states, f):
        if len(states) == 1 and states[0].ctl is None:
            return f(states[0])
        out = []
        for s in states:
            if s.ctl is not None:
                out.append(s)
            else:
                out.extend(f(s))
        return out

    def tick(self, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("step budget exhausted at %s" % self.where(st))

    # ------------------------------------------------------------ expressions

    def ev(self, e, st):
        self.tick(st)
        h = self.EV.get(e["e"])
        if h is None:
            st.note_imp("expression %s" % e["e"])
            st.vals.append(Top("expression " + e["e"]))
            return [st]
        l = e.get("l")
        if l:
            st.frames[-1].loc = l
        return h(e, st)

    def evs(self, es, st):
        """evaluate a list of expressions, leaving their values on the stack"""
        states = [st]
        for e in es:
            states = self.seq(states, lambda s, e=e: self.ev(e, s))
        return states

    def push(self, st, v):
        st.vals.append(v)
        return [st]

    def mod(self, st):
        return st.frames[-1].mod

    def ev_int(self, e, st):
        return self.push(st, int(e["v"]))

    def ev_float(self, e, st):
        return self.push(st, norm(Fraction(str(e["v"]))))

    def ev_bool(self, e, st):
        return self.push(st, bool(e["v"]))

    def ev_null(self, e, st):
        return self.push(st, NULL)

    def ev_str(self, e, st):
        return self.push(st, Ref(("lit", "".join(chr(c) for c in e["v"]))))

    def ev_this(self, e, st):
        return self.push(st, Ptr(st.frames[-1].this))

    def ev_var(self, e, st):
        f = st.frames[-1]
        r = None
        if e.get("cap") and f.caps is not None and e["id"] in f.caps:
            r = f.caps[e["id"]]
        elif e["id"] in f.vars:
            r = f.vars[e["id"]]
        if r is None:
            st.note_imp("unknown variable %s" % e.get("n"))
            return self.push(st, Ref(("unk", e.get("n"))))
        return self.push(st, r)

    def ev_global(self, e, st):
        return self.push(st, self.global_ref(st, e["k"]))

    def global_ref(self, st, k):
        root = ("g", k)
        if root not in st.mem:
            mg = self.glob.get(k)
            v = None
            if mg is not None:
                m, g = mg
                if g.get("init") is not None:
                    v = self.const_eval(m, g["init"], g["type"])
                elif g.get("repo"):
                    v = self.zero(m, g["type"])
                elif (g.get("q") or "").endswith("::npos"):
                    v = models.NPOS
                else:
                    v = Tag("global", g.get("q"))
            if v is None:
                v = Tag("global", k)
            st.mem[root] = v
        return Ref(root)

    def const_eval(self, m, e, t):
        s = State()
        s.frames.append(Frame(m, "<static initialiser>", 0))
        out = self.init_value(e, m, t, s, ("tmpinit",))
        out = [o for o in out if o.ctl is None]
        if len(out) == 1:
            v = out[0].vals[-1]
            if isinstance(v, Ref):
                v = out[0].read(v)
            return v
        return None

    def init_value(self, e, m, t, st, root):
        """evaluate an initialiser and push the value (not reference) it gives"""
        return self.seq(self.ev(e, st), lambda s: self.prim(s, 1, lambda s2, a: self.rv(s2, a[0], m, t)))

    def rv(self, st, v, m=None, t=None):
        if isinstance(v, Ref) and not (t is not None and self.T(m, t)["k"] == "ref"):
            return st.read(v)
        return v

    def ev_fn(self, e, st):
        m = self.mod(st)
        return self.push(st, FnV(m, m["fnrefs"][e["f"]]))

    def objref(self, st, v):
        """the location designated by an object expression's value"""
        if isinstance(v, Ref):
            return v
        if isinstance(v, Ptr):
            return self.deref(st, v)
        if isinstance(v, Smart):
            return self.deref(st, Ptr(v.r))
        return self.temp(st, v)

    def temp(self, st, v):
        f = st.frames[-1]
        root = ("t", f.depth, f.ntemp)
        f.ntemp += 1
        st.mem[root] = v
        return Ref(root)

    def deref(self, st, v):
        if isinstance(v, Ref):
            return v
        if isinstance(v, Smart):
            v = Ptr(v.r)
        if isinstance(v, It):
            return models.it_ref(self, st, v)
        if isinstance(v, Ptr):
            if v.r is None:
                st.event("null dereference", self.where(st))
                raise Abort()
            if v.r.root in st.freed:
                st.event("use after free", self.where(st), root=v.r.root)
                raise Abort()
            return v.r
        if v is UNINIT:
            st.event("dereference of an uninitialised pointer", self.where(st))
            raise Abort()
        if isinstance(v, Top):
            raise Imprecise("dereference of unknown pointer")
        raise Imprecise("dereference of %r" % (v,))

    def ev_field(self, e, st):
        def f(s, a):
            b = a[0]
            if isinstance(b, Top):
                return b
            r = self.deref(s, b) if e.get("arrow") else self.objref(s, b)
            r = r.f("f", e["n"])
            if e.get("isref"):
                v = s.read(r)
                return v
            return r
        return self.seq(self.ev(e["b"], st), lambda s: self.prim(s, 1, f))

    def ev_un(self, e, st):
        op = e["op"]
        m = self.mod(st)

        def f(s, a):
            v = a[0]
            if op == "*":
                if isinstance(v, Top):
                    return v
                if isinstance(v, FnV):
                    return v
                return self.deref(s, v)
            if op == "&":
                if isinstance(v, Ref):
                    return Ptr(v)
                return v
            if op in ("++", "--"):
                if isinstance(v, Top):
                    return v
                cur = s.read(v)
                if cur is UNINIT:
                    s.event("read of an uninitialised value", self.where(s))
                    raise Abort()
                new = self.binop(s, "+" if op == "++" else "-", cur, 1, self.T(m, e["a"]["t"]))
                new = self.to_type(s, new, self.T(m, e["a"]["t"]))
                s.write(v, new)
                return cur if e.get("post") else v
            if isinstance(v, Top):
                return v
            if op == "!":
                v = self.tobool(s, v)
                if isinstance(v, Top):
                    return v
                return cnot(v)
            if op == "-":
                if isinstance(v, BV):
                    return BV(v.a, tuple(-x for x in v.tbl))
                return neg(self.num(s, v))
            if op == "+":
                return v
            if op == "~":
                if isinstance(v, BV):
                    return BV(v.a, tuple(~x for x in v.tbl))
                n = self.num(s, v)
                t = self.T(m, e["t"])
                r = sub(neg(n), 1)
                return self.to_type(s, r, t)
            raise Imprecise("operator " + op)
        return self.seq(self.ev(e["a"], st), lambda s: self.prim(s, 1, f))

    def tobool(self, st, v):
        if isinstance(v, (bool, Cond, Top)):
            return v
        if v is UNINIT:
            st.event("branch on an uninitialised value", self.where(st))
            raise Abort()
        if isinstance(v, Ptr):
            return v.r is not None
        if isinstance(v, Smart):
            return v.r is not None
        if isinstance(v, BV):
            return bm(v.a, mask_of(i for i in range(256) if v.tbl[i] != 0) & ALLMASK) if True else None
        if isnum(v):
            return cnot(eq(v, 0))
        if isinstance(v, (FnV, Closure, Bound)):
            return True
        raise Imprecise("truth of %r" % (v,))

    def num(self, st, v):
        if isinstance(v, bool):
            return int(v)
        if isnum(v):
            return v
        if isinstance(v, BV):
            v = st.bv_const(v)
            return bv_num(v) if isinstance(v, BV) else v
        if isinstance(v, Cond):
            return int(st.decide(v) )
        if v is UNINIT:
            st.event("use of an uninitialised value", self.where(st))
            raise Abort()
        raise Imprecise("number from %r" % (v,))

    def ev_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            want = op == "&&"

            def after(s):
                out = []
                t, f = self.branch(s)
                go, stop = (t, f) if want else (f, t)
                for x in stop:
                    x.vals.append(not want)
                    out.append(x)
                for x in go:
                    out.extend(self.seq(self.ev(e["b"], x), lambda y: self.prim(y, 1, lambda z, a: self.tobool(z, a[0]))))
                return out
            return self.seq(self.ev(e["a"], st), after)
        if op == ",":
            def drop(s):
                s.vals.pop()
                return self.ev(e["b"], s)
            return self.seq(self.ev(e["a"], st), drop)
        if op == "=":
            def store(s, a):
                tgt, v = a
                if isinstance(tgt, Top):
                    s.note_imp("store to unknown location")
                    return tgt
                if isinstance(v, Ref):
                    v = s.read(v)
                s.write(tgt, v)
                return tgt

            def rhs_first(s):
                return self.seq(self.ev(e["b"], s), lambda x: self.prim(x, 2, store))
            return self.seq(self.ev(e["a"], st), rhs_first)
        m = self.mod(st)
        t = self.T(m, e["t"])
        states = self.seq(self.ev(e["a"], st), lambda s: self.ev(e["b"], s))
        return self.seq(states, lambda s: self.prim(s, 2, lambda x, a: self.binop(x, op, a[0], a[1], t)))

    def ev_cassign(self, e, st):
        m = self.mod(st)
        op = e["op"][:-1] if e["op"].endswith("=") else e["op"]
        ct = self.T(m, e["ct"]) if e.get("ct") is not None else self.T(m, e["t"])
        rt = self.T(m, e["a"]["t"])

        def f(s, a):
            tgt, v = a
            if isinstance(tgt, Top):
                return tgt
            cur = s.read(tgt)
            if cur is UNINIT:
                s.event("read of an uninitialised value", self.where(s))
                raise Abort()
            cur = self.load_conv(s, cur, rt)
            if ct["k"] == "float" and isinstance(cur, (BV, Cond, bool)):
                cur = self.num(s, cur)
            r = self.binop(s, op, cur, v, ct)
            if ct["k"] == "float" and rt["k"] in ("int", "enum"):
                r = self.float_to_int(s, r)
            r = self.to_type(s, r, rt)
            s.write(tgt, r)
            return tgt
        states = self.seq(self.ev(e["a"], st), lambda s: self.ev(e["b"], s))
        return self.seq(states, lambda s: self.prim(s, 2, f))

    def ptr_add(self, st, p, n):
        if p.r is None:
            st.event("arithmetic on a null pointer", self.where(st))
            raise Abort()
        path = p.r.path
        if path and path[-1][0] in ("i", "c"):
            return Ptr(Ref(p.r.root, path[:-1] + ((path[-1][0], add(path[-1][1], n)),)))
        if isconst(n) and n == 0:
            return p
        return Ptr(Ref(p.r.root, path + (("i", n),)))

    def binop(self, st, op, a, b, t):
        if isinstance(a, Ref):
            a = st.read(a)
        if isinstance(b, Ref):
            b = st.read(b)
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if a is UNINIT or b is UNINIT:
            st.event("use of an uninitialised value", self.where(st))
            raise Abort()
        if isinstance(a, (Ptr, Smart)) or isinstance(b, (Ptr, Smart)):
            return self.ptr_binop(st, op, a, b)
        if op in ("==", "!=") and (isinstance(a, (FnV, Closure, Bound)) or isinstance(b, (FnV, Closure, Bound))):
            return (a == b) == (op == "==")
        # bytes
        a = st.bv_const(a)
        b = st.bv_const(b)
        if isinstance(a, BV) and isconst(b) and nint(b):
            r = self.bv_op(op, a, int(b), False)
            if r is not None:
                return r
        if isinstance(b, BV) and isconst(a) and nint(a):
            r = self.bv_op(op, b, int(a), True)
            if r is not None:
                return r
        if isinstance(a, BV) and isinstance(b, BV) and a.a is b.a:
            r = self.bv_bv(op, a, b)
            if r is not None:
                return r
        if op in ("&", "|", "^") and isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            x, y = st.decide(a) if not isinstance(a, bool) else a, st.decide(b) if not isinstance(b, bool) else b
            return (x and y) if op == "&" else (x or y) if op == "|" else x != y
        if op in ("==", "!=") and isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                return a if b == (op == "==") else cnot(a)
            x, y = st.decide(a), st.decide(b)
            return (x == y) == (op == "==")
        x, y = self.num(st, a), self.num(st, b)
        if op == "<":
            return lt(x, y)
        if op == ">":
            return lt(y, x)
        if op == "<=":
            return le(x, y)
        if op == ">=":
            return le(y, x)
        if op == "==":
            return eq(x, y)
        if op == "!=":
            return cnot(eq(x, y))
        isf = t["k"] == "float"
        if op == "+":
            return self.single(st, self.fits(st, self.wrapu(st, add(x, y), t), t), t)
        if op == "-":
            return self.single(st, self.fits(st, self.wrapu(st, sub(x, y), t), t), t)
        if op == "*":
            return self.single(st, self.fits(st, mul(x, y), t), t)
        if op == "/":
            if isf:
                if isconst(y) and y == 0:
                    return P(atom("fdiv0", x, isint=False))
                return self.single(st, fdiv(x, y), t)
            if isconst(y):
                if y == 0:
                    st.event("division by zero", self.where(st))
                    raise Abort()
            elif st.decide(eq(y, 0)):
                st.event("division by zero", self.where(st))
                raise Abort()
            return idiv(x, y, st)
        if op == "%":
            if isconst(y):
                if y == 0:
                    st.event("division by zero", self.where(st))
                    raise Abort()
            elif st.decide(eq(y, 0)):
                st.event("division by zero", self.where(st))
                raise Abort()
            return imod(x, y, st)
        if op == "<<":
            if isconst(y):
                return self.to_type(st, mul(x, 1 << int(y)), t)
        if op == ">>":
            if isconst(x) and isconst(y):
                return int(x) >> int(y)
            if isconst(y) and st.nonneg(x):
                return self.bitslice(st, x, int(y), 80)
        if op in ("&", "|", "^"):
            if isconst(x) and isconst(y):
                x, y = int(x), int(y)
                return x & y if op == "&" else x | y if op == "|" else x ^ y
            if op == "&":
                if isconst(x):
                    x, y = y, x
                if isconst(y) and int(y) >= 0:
                    mk = int(y)
                    if mk == 0:
                        return 0
                    lo = (mk & -mk).bit_length() - 1
                    hi = mk.bit_length()
                    if mk == (1 << hi) - (1 << lo):
                        if st.nonneg(x):
                            return mul(self.bitslice(st, x, lo, hi), 1 << lo)
                return P(atom("and", x, y, lo=0 if isconst(y) and y >= 0 else None, hi=int(y) if isconst(y) and y >= 0 else None))
            if op == "|":
                # disjoint bit ranges add up
                if isconst(x) and x == 0:
                    return y
                if isconst(y) and y == 0:
                    return x
                for u, w in ((x, y), (y, x)):
                    lo, hi = st.interval(u)
                    if lo is not None and lo >= 0 and hi is not None and nint(u):
                        k = int(hi).bit_length()
                        if all(isinstance(c, int) and c % (1 << k) == 0 for c in terms(w).values()) and st.nonneg(w):
                            return add(u, w)
            return P(atom("bit" + op, x, y))
        raise Imprecise("operator %s on %r, %r" % (op, a, b))

    def fits(self, st, v, t):
        """note a signed result which may not fit its type"""
        if self.overflows is not None and t["k"] == "int" and not t.get("u") and t["w"] >= 32:
            h = 1 << (t["w"] - 1)
            lo, hi = st.interval(v)
            if lo is not None and hi is not None and (hi >= h or lo < -h) and len(self.overflows) < 60:
                self.overflows.append((st.copy(), v, h, self.where(st)))
        return v

    def single(self, st, v, t):
        """the rounding of a single precision result, where it may be seen: floating point is exact otherwise"""
        if not self.floats or t["k"] != "float" or t["w"] != 32 or not (isinstance(v, Poly) or isconst(v)):
            return v
        lo, hi = st.interval(v)
        if lo is None or hi is None:
            return v
        e = max(abs(lo), abs(hi)) * Fraction(1, 1 << 24)
        if e <= Fraction(1, 10 ** 6):
            return v
        if isconst(v):
            return dom.single(v)
        if e <= 1 and all(isinstance(c, int) for _, c in v.t) and all(dom._atom_list[a].isint for mo, _ in v.t for a, _ in mo):
            return v
        return add(v, P(atom("single", v, isint=False, lo=-e, hi=e)))

    def wrapu(self, st, v, t):
        """unsigned results do not go below zero"""
        if t["k"] == "int" and t.get("u") and not isinstance(v, Fraction):
            if isconst(v):
                return v % (1 << t["w"])
            if st.nonneg(v):
                return v
            if st.decide(lt(v, 0)):
                return add(v, 1 << t["w"])
        return v

    def bitslice(self, st, x, lo, hi):
        """(x >> lo) & ((1 << (hi-lo)) - 1) for non-negative x"""
        if isconst(x):
            return (int(x) >> lo) & ((1 << (hi - lo)) - 1)
        low, mid, rest = {}, {}, {}
        ok = True
        for mo, c in x.t:
            if not isinstance(c, int):
                ok = False
                break
            if c % (1 << hi) == 0:
                rest[mo] = c
            elif c % (1 << lo) == 0:
                mid[mo] = c
            else:
                low[mo] = c
        if ok:
            lp, mp = dom._mk(low), dom._mk(mid)
            ll, lh = st.interval(lp)
            ml, mh = st.interval(mp)
            if ll is not None and ll >= 0 and lh is not None and lh < (1 << lo) and ml is not None and ml >= 0 \
                    and mh is not None and mh < (1 << hi) and st.nonneg(dom._mk(rest)):
                return mul(mp, Fraction(1, 1 << lo))
        l, h = st.interval(x)
        if h is not None and h < (1 << hi) or st.positive(sub(1 << hi, x)):
            return idiv(x, 1 << lo, st)
        if lo == 0:
            return P(atom("and", x, (1 << hi) - 1, lo=0, hi=(1 << hi) - 1))
        return P(atom("bits", x, lo, hi, lo=0, hi=(1 << (hi - lo)) - 1))

    def ptr_binop(self, st, op, a, b):
        if isinstance(a, Smart):
            a = Ptr(a.r)
        if isinstance(b, Smart):
            b = Ptr(b.r)
        if op in ("==", "!=") and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is None or b.r is None:
                r = a.r is b.r
            elif a.r.root != b.r.root:
                r = False
            elif a.r == b.r:
                r = True
            elif a.r.path and b.r.path and a.r.path[:-1] == b.r.path[:-1] and isnum(a.r.path[-1][1]) and isnum(b.r.path[-1][1]):
                r = eq(a.r.path[-1][1], b.r.path[-1][1])
            else:
                r = False
            return r if op == "==" else cnot(r)
        if op in ("==", "!=") and (b == 0 or a == 0):
            p = a if isinstance(a, Ptr) else b
            return (p.r is None) == (op == "==")
        if op in ("+", "-") and isinstance(a, Ptr) and not isinstance(b, Ptr):
            n = self.num(st, b)
            return self.ptr_add(st, a, n if op == "+" else neg(n))
        if op == "+" and isinstance(b, Ptr):
            return self.ptr_add(st, b, self.num(st, a))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is not None and b.r is not None and a.r.root == b.r.root:
            def idx(p):
                return p.r.path[-1][1] if p.r.path and p.r.path[-1][0] in ("i", "c") else 0
            x, y = idx(a), idx(b)
            if op == "-":
                return sub(x, y)
            return {"<": lt(x, y), ">": lt(y, x), "<=": le(x, y), ">=": le(y, x)}[op]
        raise Imprecise("pointer operation " + op)

    def bv_op(self, op, a, k, swapped):
        def tb(f):
            if swapped:
                return tuple(f(k, x) for x in a.tbl)
            return tuple(f(x, k) for x in a.tbl)
        cm = {"<": lambda x, y: x < y, ">": lambda x, y: x > y, "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y,
              "==": lambda x, y: x == y, "!=": lambda x, y: x != y}
        if op in cm:
            return bm(a.a, mask_of(i for i, x in enumerate(tb(cm[op])) if x))
        ar = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "&": lambda x, y: x & y,
              "|": lambda x, y: x | y, "^": lambda x, y: x ^ y}
        if op in ar:
            return BV(a.a, tb(ar[op]))
        if op in ("<<", ">>") and not swapped and 0 <= k < 32:
            return BV(a.a, tuple(x << k if op == "<<" else x >> k for x in a.tbl))
        if op in ("/", "%") and not swapped and k != 0:
            return BV(a.a, tuple((idiv(x, k) if op == "/" else imod(x, k)) for x in a.tbl))
        return None

    def bv_bv(self, op, a, b):
        cm = {"<": lambda x, y: x < y, ">": lambda x, y: x > y, "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y,
              "==": lambda x, y: x == y, "!=": lambda x, y: x != y}
        if op in cm:
            return bm(a.a, mask_of(i for i in range(256) if cm[op](a.tbl[i], b.tbl[i])))
        ar = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y}
        if op in ar:
            return BV(a.a, tuple(ar[op](a.tbl[i], b.tbl[i]) for i in range(256)))
        return None

    # conversions

    def load_conv(self, st, v, t):
        """a value read from memory, as a value of type t"""
        if t["k"] == "int" and t["w"] == 8:
            if isinstance(v, BV):
                v = st.bv_const(v)
            if isinstance(v, BV):
                f = (lambda x: x & 255) if t.get("u") else (lambda x: (x & 255) - 256 if (x & 255) >= 128 else x & 255)
                nt = tuple(f(x) for x in v.tbl)
                return v if nt == v.tbl else BV(v.a, nt)
            if isinstance(v, int) and not isinstance(v, bool):
                v &= 255
                return v if t.get("u") or v < 128 else v - 256
            if isinstance(v, Poly):
                return self.to_type(st, v, t)
        return v

    def to_type(self, st, v, t):
        """wrap an integer value into an integer type"""
        if t["k"] not in ("int", "enum") or isinstance(v, (Top, bool, Cond)) or v is UNINIT:
            return v
        if t["k"] == "enum":
            return v
        w, u = t["w"], t.get("u")
        if isinstance(v, BV):
            if u:
                nt = tuple(x & ((1 << w) - 1) for x in v.tbl)
            else:
                h = 1 << (w - 1)
                nt = tuple(((x + h) & ((1 << w) - 1)) - h for x in v.tbl)
            return v if nt == v.tbl else BV(v.a, nt)
        if isconst(v):
            if not nint(v):
                return v
            v = int(v)
            if u:
                return v & ((1 << w) - 1)
            h = 1 << (w - 1)
            return ((v + h) & ((1 << w) - 1)) - h
        if isinstance(v, Poly):
            lo, hi = (0, (1 << w) - 1) if u else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            l, h = st.interval(v)
            if (l is not None and l >= lo or st.nonneg(sub(v, lo))) and (w >= 64 or h is not None and h <= hi or st.nonneg(sub(hi, v))):
                return v
            if w >= 32 and not u:
                return v          # assumption: no signed overflow of int
            if len(v.t) == 1 and v.t[0][1] == 1 and len(v.t[0][0]) == 1:
                at = dom._atom_list[v.t[0][0][0][0]]
                if at.key[0] == "wrap" and at.key[1] == w:
                    return self.to_type(st, at.key[3], t)
            return P(atom("wrap", w, 1 if u else 0, v, lo=lo, hi=hi))
        return v

    def float_to_int(self, st, v):
        if isinstance(v, Top):
            return v
        v = self.num(st, v)
        if isconst(v):
            return int(v) if nint(v) else trunc_const(v)
        if nint(v):
            return v
        return P(atom("trunc", v))

    def ev_cast(self, e, st):
        k = e["k"]
        m = self.mod(st)
        t = self.T(m, e["t"])

        def f(s, a):
            v = a[0]
            if isinstance(v, Top):
                return v
            if k == "LValueToRValue":
                r = v
                if isinstance(v, Ref):
                    if v.root in s.freed:
                        s.event("use after free", self.where(s), root=v.root)
                        raise Abort()
                    v = s.read(v)
                if v is UNINIT and t["k"] in ("int", "float", "bool", "ptr", "enum"):
                    s.event("read of an uninitialised value", self.where(s), ref=repr(r))
                    raise Abort()
                return self.load_conv(s, v, t)
            if k == "ArrayToPointerDecay":
                if isinstance(v, Ref):
                    return Ptr(v.f("i", 0))
                return v
            if k in ("IntegralCast", "BooleanToSignedIntegral"):
                if isinstance(v, (bool, Cond)):
                    v = self.num(s, v)
                return self.to_type(s, v, t)
            if k in ("IntegralToFloating",):
                return self.single(s, self.num(s, v), t)
            if k == "FloatingCast":
                return self.single(s, v, t)
            if k == "FloatingToIntegral":
                return self.to_type(s, self.float_to_int(s, v), t)
            if k in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
                return self.tobool(s, v)
            if k in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic"):
                return v
            if k in ("NullToPointer", "NullToMemberPointer"):
                return NULL
            if k == "ToVoid":
                return None
            if k == "BitCast" or k == "LValueBitCast":
                return v
            return v
        return self.seq(self.ev(e["a"], st), lambda s: self.prim(s, 1, f))

    def ev_cond(self, e, st):
        def after(s):
            t, f = self.branch(s)
            out = []
            for x in t:
                out.extend(self.ev(e["a"], x))
            for x in f:
                out.extend(self.ev(e["b"], x))
            return self.merge(out)
        return self.seq(self.ev(e["c"], st), after)

    def ev_mat(self, e, st):
        def f(s, a):
            if isinstance(a[0], Ref):
                return a[0]
            return self.temp(s, a[0])
        return self.seq(self.ev(e["a"], st), lambda s: self.prim(s, 1, f))

    def ev_index(self, e, st):
        def f(s, a):
            b, i = a
            if isinstance(b, Top) or isinstance(i, Top):
                return b if isinstance(b, Top) else i
            if not isinstance(b, Ptr) and isinstance(i, Ptr):
                b, i = i, b
            i = self.num(s, i)
            if isinstance(b, Ref):
                return b.f("i", i)
            p = self.ptr_add(s, b, i)
            r = self.deref(s, p)
            self.check_elem(s, r)
            return r
        states = self.seq(self.ev(e["a"], st), lambda s: self.ev(e["b"], s))
        return self.seq(states, lambda s: self.prim(s, 2, f))

    def check_elem(self, s, r):
        """an element of an array is about to be designated by subscripting"""
        if not r.path or r.path[-1][0] not in ("i", "c"):
            return
        if r.root in s.freed:
            s.event("use after free", self.where(s), root=r.root)
            raise Abort()
        c = s.read(Ref(r.root, r.path[:-1]))
        i = r.path[-1][1]
        if isinstance(c, Str):
            n = c.len()
            lim = add(n, 1) if r.root[0] == "lit" or r.path[-1][0] == "c" else n
        elif isinstance(c, Vec):
            lim = c.size()
        else:
            return
        if s.decide(lt(i, 0)) or s.decide(le(lim, i)):
            s.event("index out of bounds", self.where(s), index=str(i), size=str(lim))
            raise Abort()

    def ev_initlist(self, e, st):
        m = self.mod(st)
        t = self.T(m, e["t"])
        n = len(e["a"])

        def f(s, a):
            a = [s.read(x) if isinstance(x, Ref) else x for x in a]
            if t["k"] == "arr":
                el = self.T(m, t["to"])
                size = t.get("size", n)
                if el["k"] == "int" and el.get("ch") and el["w"] == 8:
                    o = Str([("v", x if not isinstance(x, int) else x & 255) for x in a])
                    if isconst(o.len()) and o.len() < size:
                        o = cat(o, "\0" * (size - o.len()))
                    return o
                items = list(a)
                while len(items) < size:
                    items.append(self.zero(m, t["to"]))
                return Vec(items)
            if t["k"] == "rec":
                r = self.rec.get(t["n"]) or self.rec.get(t["q"])
                if r is None:
                    if len(a) == 1:
                        return a[0]
                    return Vec(a)
                d = {}
                for fd, v in zip(r["fields"], a):
                    d[fd["name"]] = v
                for fd in r["fields"][len(a):]:
                    d[fd["name"]] = self.zero(self.recmod[t["n"] if t["n"] in self.recmod else t["q"]], fd["type"])
                return Rec(t["n"], d)
            if n == 1:
                return a[0]
            if n == 0:
                return self.zero(m, e["t"])
            raise Imprecise("initialiser list")
        return self.seq(self.evs(e["a"], st), lambda s: self.prim(s, n, f))

    def ev_zeroinit(self, e, st):
        return self.push(st, self.zero(self.mod(st), e["t"]))

    def zero(self, m, tid):
        t = self.T(m, tid)
        k = t["k"]
        if k in ("int", "float", "enum"):
            return 0
        if k == "bool":
            return False
        if k in ("ptr", "nullptr", "memptr"):
            return NULL
        if k == "arr":
            el = self.T(m, t["to"])
            if el["k"] == "int" and el["w"] == 8:
                return K("\0" * (t.get("size") or 0))
            return Vec([self.zero(m, t["to"]) for _ in range(t.get("size") or 0)])
        if k == "rec":
            v = models.default_of(t)
            if v is not None:
                return v
            r = self.rec.get(t["n"]) or self.rec.get(t["q"])
            if r is not None:
                mm = self.recmod.get(t["n"]) or self.recmod.get(t["q"])
                d = {}
                for b in r.get("bases", []):
                    bt = self.T(mm, b)
                    bv = self.zero(mm, b)
                    if isinstance(bv, Rec):
                        d.update(bv.f)
                for fd in r["fields"]:
                    d[fd["name"]] = self.zero(mm, fd["type"])
                return Rec(t["n"], d)
            return Tag("obj", t.get("q"))
        return Top("zero of " + t["s"])

    def ev_stdinit(self, e, st):
        """std::initializer_list from an array"""
        def f(s, a):
            v = a[0]
            if isinstance(v, Ref):
                v = s.read(v)
            return v
        return self.seq(self.ev(e["a"], st), lambda s: self.prim(s, 1, f))

    def ev_lambda(self, e, st):
        m = self.mod(st)
        fr = st.frames[-1]
        ref = m["fnrefs"][e["f"]]
        caps = {}
        this = None
        inits = []
        for c in e["caps"]:
            if c.get("this"):
                this = fr.this
            elif c.get("ref"):
                r = fr.caps.get(c["id"]) if fr.caps is not None and c["id"] in fr.caps else fr.vars.get(c["id"])
                caps[c["id"]] = r
            elif c.get("init") is not None:
                inits.append(c)
            else:
                r = fr.caps.get(c["id"]) if fr.caps is not None and c["id"] in fr.caps else fr.vars.get(c["id"])
                caps[c["id"]] = ("val", st.read(r) if isinstance(r, Ref) else Top("capture"))
        n = len(inits)

        def f(s, a):
            cc = dict(caps)
            # references may have been rewritten by substitutions meanwhile
            frm = s.frames[-1]
            for i in list(cc):
                r = (frm.caps or {}).get(i) or frm.vars.get(i)
                if isinstance(cc[i], Ref) and r is not None:
                    cc[i] = r
                elif isinstance(r, Ref):
                    cc[i] = ("val", s.read(r))
            for c, v in zip(inits, a):
                cc[c["id"]] = ("val", s.read(v) if isinstance(v, Ref) else v)
            return Closure(m, ref, cc, frm.this if this is not None else None)
        return self.seq(self.evs([c["init"] for c in inits], st), lambda s: self.prim(s, n, f))

    def ev_throw(self, e, st):
        if e.get("a") is None:
            x = st.frames[-1].curexc
            st.ctl = ("throw", x) if x is not None else ("abort",)
            return [st]

        def f(s):
            v = s.vals.pop()
            if isinstance(v, Ref):
                v = s.read(v)
            cls = v.cls if isinstance(v, Rec) else (v.k if isinstance(v, Tag) else "?")
            s.ctl = ("throw", Exc(cls, v, e.get("l")))
            return [s]
        return self.seq(self.ev(e["a"], st), f)

    def ev_new(self, e, st):
        m = self.mod(st)
        at = self.T(m, e["at"])
        loc = e.get("l")

        def alloc(s, n):
            c = s.alloc.get(("count", loc), 0)
            s.alloc = dict(s.alloc)
            s.alloc[("count", loc)] = c + 1
            root = ("h", loc, c)
            s.alloc[root] = "new[]" if e.get("arr") else "new"
            return root
        if e.get("arr"):
            def f(s, a):
                n = self.num(s, s.read(a[0]) if isinstance(a[0], Ref) else a[0])
                root = alloc(s, n)
                if at["k"] == "int" and at["w"] == 8:
                    if e.get("i") is not None and e["i"]["e"] in ("zeroinit", "initlist"):
                        s.mem[root] = Str([("r", 0, n)])
                    else:
                        s.mem[root] = Str([("u", n)])
                else:
                    if not isconst(n):
                        raise Imprecise("array of unknown size")
                    s.mem[root] = Vec([UNINIT] * int(n))
                return Ptr(Ref(root, (("i", 0),)))
            nexpr = e.get("n")
            if not isinstance(nexpr, dict):
                nexpr = {"e": "int", "v": nexpr or 0, "t": 0}
            return self.seq(self.ev(nexpr, st), lambda s: self.primc(s, 1, f))
        root = alloc(st, None)
        st.mem[root] = UNINIT
        if e.get("i") is None:
            return self.push(st, Ptr(Ref(root)))
        states = self.construct(e["i"], st, root)

        def done(s):
            s.vals.append(Ptr(Ref(root)))
            return [s]
        out = []
        for s in states:
            if s.ctl is not None:
                if s.ctl[0] == "throw":
                    s.freed = s.freed | {root}     # a throwing constructor releases the storage
                out.append(s)
            else:
                out.extend(done(s))
        return out

    def construct(self, e, st, root):
        """evaluate initialiser e directly into root; nothing is pushed"""
        while e["e"] == "ctor" and (e.get("elide") or self.is_copy(st, e)) and e["a"] and e["a"][0]["e"] == "mat" \
                and e["a"][0]["a"]["e"] in ("ctor",):
            e = e["a"][0]["a"]
        if e["e"] == "ctor":
            return self.do_ctor(e, st, root)

        def put(s):
            v = s.vals.pop()
            if isinstance(v, Ref):
                v = s.read(v)
            s.mem[root] = v
            return [s]
        return self.seq(self.ev(e, st), put)

    def is_copy(self, st, e):
        r = self.mod(st)["fnrefs"][e["f"]]
        return r.get("ctor") in ("copy", "move") and not (r["key"] in self.fn and not r.get("implicit") and self.fn[r["key"]][1].get("body") is not None
                                                          and not self.defaulted(r))

    def defaulted(self, r):
        return bool(r.get("implicit"))

    def ev_ctor(self, e, st):
        m = self.mod(st)
        r = m["fnrefs"][e["f"]]
        if self.is_copy(st, e) or e.get("elide"):
            if len(e["a"]) >= 1:
                def cp(s, a):
                    v = s.read(a[0]) if isinstance(a[0], Ref) else a[0]
                    if isinstance(v, Smart) and r.get("ctor") == "move" and isinstance(a[0], Ref):
                        pass
                    return v
                return self.seq(self.ev(e["a"][0], st), lambda s: self.prim(s, 1, cp))
        if r["key"] in self.fn:
            f = st.frames[-1]
            root = ("t", f.depth, f.ntemp)
            f.ntemp += 1

            def out(s):
                v = s.mem.pop(root, UNINIT)
                s.vals.append(v)
                return [s]
            return self.seq(self.do_ctor(e, st, root), out)
        t = self.T(m, e["t"])
        n = len(e["a"])
        return self.seq(self.evs(e["a"], st), lambda s: self.lib_ctor(s, r, t, n, e))

    def lib_ctor(self, st, r, t, n, e):
        h = models.find_ctor(self, r)
        if h is None:
            self.unmodelled[r["q"]] = self.unmodelled.get(r["q"], 0) + 1

            def unk(s, a):
                self.havoc(s, r, a)
                raise Imprecise("constructor " + r["q"])
            return self.primc(st, n, unk)
        return self.primc(st, n, lambda s, a: h(self, s, r, t, a, e))

    def do_ctor(self, e, st, root):
        """run a constructor on root"""
        m = self.mod(st)
        r = m["fnrefs"][e["f"]]
        t = self.T(m, e["t"])
        if (self.is_copy(st, e) or r["key"] not in self.fn) and e["a"]:
            def put(s):
                s.mem[root] = s.vals.pop()
                return [s]
            return self.seq(self.ev_ctor(e, st), put)
        if r["key"] not in self.fn:
            v = models.default_of(t)
            if v is None:
                def put2(s):
                    s.mem[root] = s.vals.pop()
                    return [s]
                return self.seq(self.lib_ctor(st, r, t, 0, e), put2)
            st.mem[root] = v
            return [st]
        n = len(e["a"])
        cls = r.get("cls") or t.get("n")

        def run(s):
            args = s.vals[len(s.vals) - n:] if n else []
            if n:
                del s.vals[len(s.vals) - n:]
            s.mem[root] = Rec(cls, {})
            return self.seq(self.call_fn(s, r["key"], args, Ref(root)), lambda x: (x.vals.pop(), [x])[1])
        return self.seq(self.evs(e["a"], st), run)

    def ev_delete(self, e, st):
        def go(s):
            v = s.vals.pop()
            return self.do_delete(s, v, "new[]" if e.get("arr") else "new")

        def fin(s):
            s.vals.append(None)
            return [s]
        return self.seq(self.seq(self.ev(e["a"], st), go), fin)

    def do_delete(self, s, v, kind):
        if isinstance(v, Top):
            s.note_imp("delete of unknown pointer")
            return [s]
        if v is UNINIT:
            s.event("delete of an uninitialised pointer", self.where(s))
            s.ctl = ("abort",)
            return [s]
        if isinstance(v, Ptr) and v.r is None:
            return [s]
        root = v.r.root
        if root in s.freed:
            s.event("double delete", self.where(s), root=root)
            s.ctl = ("abort",)
            return [s]
        how = s.alloc.get(root)
        if how in ("new", "new[]") and how != kind:
            s.event("mismatched delete", self.where(s), allocated=how, released=kind)
        if root[0] in ("v", "t", "g", "lit"):
            s.event("delete of a non-heap object", self.where(s), root=root)

        def fin(x):
            x.freed = x.freed | {root}
            return [x]
        obj = s.mem.get(root)
        if isinstance(obj, Rec):
            return self.seq(self.destroy(s, Ref(root), obj), fin)
        return fin(s)

    def destroy(self, s, ref, obj):
        """run the user-provided destructors of an object"""
        states = [s]
        for key in self.dtors(obj.cls):
            states = self.seq(states, lambda x, key=key: self.seq(self.call_fn(x, key, [], ref), lambda y: (y.vals.pop(), [y])[1]))
        return states

    def dtors(self, cls):
        out = []
        r = self.rec.get(cls)
        if r is None:
            return out
        for mth in r["methods"]:
            if mth.get("dtor") and mth.get("user") and mth["key"] in self.fn and self.fn[mth["key"]][1].get("body") is not None:
                b = self.fn[mth["key"]][1]["body"]
                if b.get("b"):
                    out.append(mth["key"])
        mm = self.recmod[cls]
        for b in r.get("bases", []):
            out.extend(self.dtors(self.T(mm, b)["n"]))
        return out

    def ev_arrcopy(self, e, st):
        return self.ev(e["a"], st)

    # ------------------------------------------------------------ calls

    def ev_call(self, e, st):
        m = self.mod(st)
        if e.get("f") is None:
            # through a function value
            n = len(e["a"])

            def go(s):
                args = s.vals[len(s.vals) - n:] if n else []
                if n:
                    del s.vals[len(s.vals) - n:]
                fv = s.vals.pop()
                if isinstance(fv, Ref):
                    fv = s.read(fv)
                return self.call_value(s, fv, args, e)
            return self.seq(self.seq(self.ev(e["fe"], st), lambda s: self.evs(e["a"], s)), go)
        r = m["fnrefs"][e["f"]]
        args = list(e["a"])
        has_obj = e.get("obj") is not None or e.get("objptr") is not None
        states = [st]
        if has_obj:
            states = self.ev(e.get("obj") if e.get("obj") is not None else e["objptr"], st)
        states = self.seq(states, lambda s: self.evs(args, s))
        n = len(args)
        return self.seq(states, lambda s: self.dispatch(s, r, has_obj, n, e))

    def dispatch(self, s, r, has_obj, n, e):
        self.tick(s)
        s.frames[-1].loc = e.get("l") or s.frames[-1].loc
        m = self.mod(s)
        tot = n + (1 if has_obj else 0)
        # implicit assignment of records
        if r.get("assign") in ("copy", "move") and has_obj and n == 1 and (r.get("implicit") or r["key"] not in self.fn) \
                and not models.find_call(self, r):
            def asg(x, a):
                if isinstance(a[0], Top):
                    return a[0]
                tgt = self.objref(x, a[0])
                v = x.read(a[1]) if isinstance(a[1], Ref) else a[1]
                if v is UNINIT:
                    v = UNINIT
                x.write(tgt, v)
                return tgt
            return self.prim(s, 2, asg)
        sm = self.summaries.get(r["key"]) or self.summaries.get(r["q"])
        if sm is not None:
            args = s.vals[len(s.vals) - tot:] if tot else []
            if tot:
                del s.vals[len(s.vals) - tot:]
            return sm(self, s, r, args[0] if has_obj else None, args[1:] if has_obj else args, e)
        key = r["key"]
        if r.get("virtual") and not e.get("novirt") and has_obj:
            o = s.vals[len(s.vals) - tot]
            try:
                ref = self.objref(s, o) if not isinstance(o, Top) else None
            except Abort:
                s.ctl = ("abort",)
                return [s]
            except Imprecise as x:
                s.note_imp(str(x))
                ref = None
            v = s.read(ref) if ref is not None else None
            if isinstance(v, Rec):
                key = self.resolve(v.cls, r["key"])
        if r["q"].startswith("String::compose"):
            return self.primc(s, tot, lambda x, a: models.compose(self, x, a))
        if key in self.fn and self.fn[key][1].get("body") is not None:
            args = s.vals[len(s.vals) - tot:] if tot else []
            if tot:
                del s.vals[len(s.vals) - tot:]
            this = None
            closure = None
            if has_obj:
                o = args[0]
                args = args[1:]
                if key.startswith("lambda@"):
                    c = s.read(o) if isinstance(o, Ref) else o
                    if isinstance(c, Closure):
                        closure = c
                    else:
                        s.note_imp("lambda object")
                if closure is None:
                    if isinstance(o, Top):
                        s.note_imp("method on unknown object")
                        s.vals.append(o)
                        return [s]
                    try:
                        this = self.objref(s, o)
                    except Abort:
                        s.ctl = ("abort",)
                        return [s]
                    except Imprecise as x:
                        s.note_imp(str(x))
                        s.vals.append(Top(str(x)))
                        return [s]
            return self.call_fn(s, key, args, this, closure)
        h = models.find_complex(self, r)
        if h is not None:
            args = s.vals[len(s.vals) - tot:] if tot else []
            if tot:
                del s.vals[len(s.vals) - tot:]
            return h(self, s, r, args, e)
        h = models.find_call(self, r)
        if h is None:
            self.unmodelled[r["q"]] = self.unmodelled.get(r["q"], 0) + 1

            def unk(x, a):
                self.havoc(x, r, a)
                raise Imprecise("call of " + r["q"])

            def unk2(x, a):
                try:
                    unk(x, a)
                except Imprecise as im:
                    x.note_imp(str(im) + " at " + str(self.where(x)))
                return Top("result of " + r["q"])
            return self.prim(s, tot, unk2)

        def pure_virtual(x):
            return x
        return self.primc(s, tot, lambda x, a: h(self, x, r, a, e))

    def havoc(self, s, r, a):
        for v in a:
            if isinstance(v, Ptr):
                v = v.r
            if isinstance(v, Ref) and v.root[0] != "lit":
                try:
                    s.write(v, Top("modified by " + r["q"]))
                except (Imprecise, NeedSplit):
                    s.mem[v.root] = Top("modified by " + r["q"])

    def resolve(self, cls, key):
        k = (cls, key)
        if k in self._vt:
            return self._vt[k]
        res = key
        todo = [cls]
        seen = set()
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            r = self.rec.get(c)
            if r is None:
                continue
            hit = None
            for mth in r["methods"]:
                if mth["key"] == key or self.overrides(mth, key):
                    hit = mth["key"]
            if hit:
                res = hit
                break
            todo.extend(self.T(self.recmod[c], b)["n"] for b in r.get("bases", []))
        self._vt[k] = res
        return res

    def overrides(self, mth, key):
        ov = mth.get("over") or []
        if key in ov:
            return True
        for o in ov:
            for r in self.rec.values():
                for m2 in r["methods"]:
                    if m2["key"] == o and m2 is not mth and self.overrides(m2, key):
                        return True
        return False

    def call_value(self, s, fv, args, e=None):
        """call a function value; the result is pushed"""
        if isinstance(fv, Ref):
            fv = s.read(fv)
        if isinstance(fv, Closure):
            return self.call_fn(s, fv.f["key"], args, None, fv)
        if isinstance(fv, FnV):
            if fv.f["key"] in self.fn:
                return self.call_fn(s, fv.f["key"], args, None)
            h = models.find_call(self, fv.f)
            if h is not None:
                s.vals.extend(args)
                return self.primc(s, len(args), lambda x, a: h(self, x, fv.f, a, e or {}))
            s.note_imp("call of " + fv.f["q"])
            s.vals.append(Top("call of " + fv.f["q"]))
            return [s]
        if isinstance(fv, Bound):
            full = []
            for b in fv.args:
                if isinstance(b, Tag) and b.k == "placeholder":
                    full.append(args[b.v - 1])
                else:
                    full.append(b)
            f = fv.fn
            return self.call_value(s, f, full, e)
        if isinstance(fv, Rec):
            # function object
            for mth in (self.rec.get(fv.cls) or {"methods": []})["methods"]:
                if mth["name"] == "operator()" and mth["key"] in self.fn:
                    r = self.temp(s, fv)
                    return self.call_fn(s, mth["key"], args, r)
        if isinstance(fv, Tag) and fv.k == "chpred":
            s.vals.append(args[0])

            def f(x, a):
                v = x.read(a[0]) if isinstance(a[0], Ref) else a[0]
                return models.char_in(self, x, v, fv.v)
            return self.prim(s, 1, f)
        if fv is None or fv == NULL:
            s.event("call through an empty function", self.where(s))
            s.ctl = ("abort",)
            return [s]
        s.note_imp("call of unknown function value %r" % (fv,))
        s.vals.append(Top("call of unknown function"))
        return [s]

    def call_fn(self, s, key, args, this, closure=None):
        m, f = self.fn[key]
        ref = m["fnrefs"][f["ref"]]
        depth = len(s.frames)
        if depth > 60:
            raise Budget("recursion")
        self.visited.add(key)
        fr = Frame(m, ref["q"], depth, this, None, self.where(s), key)
        base = len(s.vals)
        ctemps = s.frames[-1].ntemp if s.frames else 0
        if closure is not None:
            fr.caps = {}
            for i, c in closure.caps.items():
                if isinstance(c, tuple) and c[0] == "val":
                    root = ("cap", depth, i)
                    s.mem[root] = c[1]
                    fr.caps[i] = Ref(root)
                else:
                    fr.caps[i] = c
            fr.this = closure.this
        params = f["params"]
        owned = []
        for i, p in enumerate(params):
            if i >= len(args):
                break
            t = self.T(m, p[2])
            a = args[i]
            if t["k"] == "ref":
                if isinstance(a, Ref):
                    fr.vars[p[0]] = a
                else:
                    root = ("v", depth, p[0])
                    s.mem[root] = a
                    fr.vars[p[0]] = Ref(root)
                    owned.append(root)
            else:
                if isinstance(a, Ref):
                    a = s.read(a)
                root = ("v", depth, p[0])
                s.mem[root] = a
                fr.vars[p[0]] = Ref(root)
                owned.append(root)
        s.frames.append(fr)
        states = [s]
        if f.get("inits") is not None:
            states = self.run_inits(s, m, f)
        if f.get("body") is not None:
            states = self.seq(states, lambda x: self.ex(f["body"], x))
        out = []
        rett = self.T(m, f["ret"]) if f.get("ret") is not None else None
        for x in states:
            if x.ctl is not None and x.ctl[0] == "throw" and f.get("nothrow"):
                x.event("process exit", x.ctl[1].loc, call="std::terminate, as an exception leaves %s, which must not throw" % ref["q"])
                x.ctl = ("abort",)
            if x.ctl is not None and x.ctl[0] in ("abort", "exit"):
                x.frames.pop()
                out.append(x)
                continue
            v = None
            if x.ctl is not None and x.ctl[0] == "ret":
                v = x.vals[-1]
                x.ctl = None
            elif x.ctl is None and rett is not None and rett["k"] not in ("void",) and not f.get("inits") and "ctor" not in ref:
                if not (ref["q"].split("::")[-1].startswith("~")) and rett["k"] != "void":
                    v = UNINIT
            del x.vals[base:]
            self.cleanup(x, owned)
            x.frames.pop()
            for i in (closure.caps if closure is not None else ()):
                x.mem.pop(("cap", depth, i), None)
            if x.ctl is None:
                if isinstance(v, Ref) and rett is not None and rett["k"] != "ref" and v.root in x.mem:
                    v = x.read(v)
                x.vals.append(v)
            out.append(x)
        return self.merge(out)

    def cleanup(self, s, roots):
        for r in roots:
            s.mem.pop(r, None)

    def uninit_arrays(self, s, this, v, cls):
        """the arrays among the members of a new object exist before anything is done to them"""
        r = self.rec.get(cls)
        if r is None:
            return
        m = self.recmod.get(cls)
        for b in r.get("bases", []):
            t = self.T(m, b)
            self.uninit_arrays(s, this, v, t["n"] if t["n"] in self.rec else t.get("q"))
        for fd in r["fields"]:
            t = self.T(m, fd["type"])
            if t["k"] == "arr" and fd["name"] not in v.f:
                s.write(this.f("f", fd["name"]), self.uninit(m, t))

    def run_inits(self, s, m, f):
        this = s.frames[-1].this
        v = s.read(this) if this is not None else None
        if isinstance(v, Rec):
            self.uninit_arrays(s, this, v, v.cls)
        states = [s]
        for i in f["inits"]:
            states = self.seq(states, lambda x, i=i: self.run_init(x, m, i))
        return states

    def uninit(self, m, t):
        """an object of a type without a constructor, not initialised"""
        if t["k"] != "arr":
            return UNINIT
        el = self.T(m, t["to"])
        if el["k"] == "int" and el["w"] == 8:
            return Str([("u", t.get("size") or 0)])
        return Vec([self.uninit(m, el) for _ in range(t.get("size") or 0)])

    def run_init(self, s, m, i):
        this = s.frames[-1].this
        e = i["e"]
        if i.get("field"):
            ft = self.T(m, i["ft"])
            ref = this.f("f", i["field"])
            if e is None:
                s.write(ref, self.uninit(m, ft))
                return [s]
            if ft["k"] == "ref":
                def bind(x):
                    x.write(x.frames[-1].this.f("f", i["field"]), x.vals.pop())
                    return [x]
                return self.seq(self.ev(e, s), bind)

            def put(x):
                v = x.vals.pop()
                if isinstance(v, Ref):
                    v = x.read(v)
                x.write(x.frames[-1].this.f("f", i["field"]), v)
                return [x]
            if e["e"] == "str" and ft["k"] == "arr":
                pass
            return self.seq(self.ev(e, s), put)
        # base or delegating constructor: runs on the same object
        if e["e"] == "ctor":
            r = m["fnrefs"][e["f"]]
            if r["key"] in self.fn and self.fn[r["key"]][1].get("body") is not None and not self.is_copy(s, e):
                n = len(e["a"])

                def run(x):
                    args = x.vals[len(x.vals) - n:] if n else []
                    if n:
                        del x.vals[len(x.vals) - n:]
                    return self.seq(self.call_fn(x, r["key"], args, x.frames[-1].this), lambda y: (y.vals.pop(), [y])[1])
                return self.seq(self.evs(e["a"], s), run)

        def base(x):
            v = x.vals.pop()
            if isinstance(v, Ref):
                v = x.read(v)
            cur = x.read(x.frames[-1].this)
            if isinstance(v, Rec) and isinstance(cur, Rec):
                d = dict(cur.f)
                d.update(v.f)
                x.write(x.frames[-1].this, Rec(cur.cls, d))
            return [x]
        return self.seq(self.ev(e, s), base)

    # ------------------------------------------------------------ statements

    def branch(self, s):
        """pop a condition; states in which it is true, and false"""
        v = s.vals[-1]
        if isinstance(v, Ref):
            v = s.read(v)
        try:
            v = self.tobool(s, v)
        except Abort:
            s.ctl = ("abort",)
            return [s], []
        except Imprecise as x:
            s.note_imp(str(x))
            v = Top(str(x))
        s.vals.pop()
        if isinstance(v, Top):
            s.note_imp("branch on an unknown value: %s at %s" % (v.why, self.where(s)))
            return [s], [s.copy()]
        k = s.known(v)
        if k is True:
            return [s], []
        if k is False:
            return [], [s]
        s2 = s.copy()
        t, f = [], []
        if s2.assume(v, False):
            s2.path = s2.path + ((self.where(s2), cnot(v)),)
            f.append(s2)
        if s.assume(v, True):
            s.path = s.path + ((self.where(s), v),)
            t.append(s)
        return t, f

    def ex(self, x, st):
        self.tick(st)
        l = x.get("l")
        if l:
            st.frames[-1].loc = l
        h = self.EX.get(x["s"])
        if h is None:
            st.note_imp("statement " + x["s"])
            return [st]
        return h(x, st)

    def ex_expr(self, x, st):
        base = len(st.vals)
        fr = st.frames[-1]
        nt = fr.ntemp
        out = self.ev(x["e"], st)
        for s in out:
            if s.ctl is None:
                del s.vals[base:]
            f = s.frames[-1]
            self.drop_temps(s, f, nt)
        return out

    def drop_temps(self, s, f, nt):
        if f.ntemp > nt:
            for i in range(nt, f.ntemp):
                s.mem.pop(("t", f.depth, i), None)
            f.ntemp = nt

    def ex_null(self, x, st):
        return [st]

    def ex_block(self, x, st):
        return self.scope(st, lambda s: self.run_list(x["b"], s))

    def run_list(self, stmts, st):
        live = [st]
        done = []
        for y in stmts:
            nxt = []
            for s in live:
                for o in self.ex(y, s):
                    (nxt if o.ctl is None else done).append(o)
            live = self.merge(nxt) if len(nxt) > 1 else nxt
            if not live:
                break
        return live + done

    def scope(self, st, f):
        """run f and drop the variables and temporaries it created in this frame"""
        fr = st.frames[-1]
        before = set(fr.vars)
        nt = fr.ntemp
        out = []
        for s in f(st):
            if s.ctl is not None and s.ctl[0] in ("abort", "exit"):
                out.append(s)
                continue
            f2 = s.frames[-1]
            new = [i for i in f2.vars if i not in before]
            states = [s]
            # destructors of class objects, in reverse order
            for i in reversed(new):
                r = f2.vars[i]
                if r.root == ("v", f2.depth, i) and not r.path:
                    o = s.mem.get(r.root)
                    if isinstance(o, Rec) and self.dtors(o.cls):
                        ctl, keep = s.ctl, s.vals[:]
                        s.ctl = None
                        states = self.destroy(s, r, o)
                        for y in states:
                            if y.ctl is None:
                                y.ctl = ctl
                        s = states[0] if len(states) == 1 else s
            for s in states:
                f2 = s.frames[-1]
                ret = None
                if s.ctl is not None and s.ctl[0] == "ret" and isinstance(s.vals[-1], Ref):
                    ret = s.vals[-1].root
                for i in new:
                    root = ("v", f2.depth, i)
                    if root == ret:
                        # a local returned by value
                        s.vals[-1] = s.read(s.vals[-1])
                    r = f2.vars.pop(i, None)
                    s.mem.pop(root, None)
                if not (ret is not None and ret[0] == "t"):
                    self.drop_temps(s, f2, nt)
                out.append(s)
        return out

    def ex_decl(self, x, st):
        states = [st]
        for d in x["d"]:
            states = self.seq(states, lambda s, d=d: self.ex_decl1(d, s))
        return states

    def static_local(self, d, st):
        """the first time, initialise it; C++ lets other threads wait meanwhile"""
        k = d["static"]
        root = ("g", k)
        fr = st.frames[-1]
        g = fr.mod["globals"].get(k)
        if root in st.mem or g is None or g.get("init") is None or self.T(fr.mod, g["type"])["k"] in ("ref", "arr"):
            self.global_ref(st, k)
            return [st]
        nt = fr.ntemp
        st.once += 1
        out = self.construct(g["init"], st, root)
        for s in out:
            s.once -= 1
            if s.ctl is not None:
                s.mem.pop(root, None)
            else:
                self.drop_temps(s, s.frames[-1], nt)
        return out

    def ex_decl1(self, d, st):
        fr = st.frames[-1]
        m = fr.mod
        if d.get("static"):
            return self.static_local(d, st)
        t = self.T(m, d["type"])
        if d.get("l"):
            fr.loc = d["l"]
        e = d.get("init")
        root = ("v", fr.depth, d["id"])
        if t["k"] == "ref":
            def bind(s):
                v = s.vals.pop()
                f = s.frames[-1]
                if isinstance(v, Ref):
                    f.vars[d["id"]] = v
                else:
                    s.mem[root] = v
                    f.vars[d["id"]] = Ref(root)
                return [s]
            return self.seq(self.ev(e, st), bind)
        nt = fr.ntemp

        def reg(s):
            f = s.frames[-1]
            f.vars[d["id"]] = Ref(root)
            self.drop_temps(s, f, nt)
            return [s]
        if e is None:
            if t["k"] == "arr":
                el = self.T(m, t["to"])
                if el["k"] == "int" and el["w"] == 8:
                    st.mem[root] = Str([("u", t.get("size") or 0)])
                else:
                    st.mem[root] = Vec([UNINIT] * (t.get("size") or 0))
            elif t["k"] == "rec":
                v = models.default_of(t)
                st.mem[root] = v if v is not None else UNINIT
            else:
                st.mem[root] = UNINIT
            return reg(st)
        if t["k"] == "arr" and e["e"] == "str":
            s0 = "".join(chr(c) for c in e["v"])
            st.mem[root] = K(s0 + "\0" * ((t.get("size") or len(s0) + 1) - len(s0)))
            return reg(st)
        if t["k"] == "arr" and e["e"] == "ctor":
            n = t.get("size") or 0
            st.mem[root] = UNINIT

            def fill(s):
                v = s.vals.pop()
                s.mem[root] = Vec([v] * n)
                return [s]
            return self.seq(self.seq(self.ev_ctor(dict(e, t=t["to"]), st), fill), reg)
        return self.seq(self.construct(e, st, root), reg)

    def ex_if(self, x, st):
        def go(s0):
            states = [s0]
            if x.get("init") is not None:
                states = self.ex(x["init"], s0)
            if x.get("cv") is not None:
                states = self.seq(states, lambda s: self.ex(x["cv"], s))
            states = self.seq(states, lambda s: self.cond(x["c"], s))
            out = []
            for s in states:
                if s.ctl is not None:
                    out.append(s)
                    continue
                t, f = self.branch(s)
                for y in t:
                    if y.ctl is not None:
                        out.append(y)
                    else:
                        out.extend(self.ex(x["t"], y))
                for y in f:
                    if x.get("f") is not None:
                        out.extend(self.ex(x["f"], y))
                    else:
                        out.append(y)
            return self.merge(out)
        if x.get("init") is not None or x.get("cv") is not None:
            return self.scope(st, go)
        return go(st)

    def cond(self, c, s):
        """evaluate a controlling expression (a full expression: temporaries end here)"""
        nt = s.frames[-1].ntemp
        out = self.ev(c, s)
        for y in out:
            if y.ctl is None:
                v = y.vals[-1]
                if isinstance(v, Ref):
                    y.vals[-1] = y.read(v)
                self.drop_temps(y, y.frames[-1], nt)
        return out

    def ex_return(self, x, st):
        if x.get("e") is None:
            st.vals.append(None)
            st.ctl = ("ret",)
            return [st]
        m = self.mod(st)
        key = st.frames[-1].fn
        f = self.fn[key][1] if key in self.fn else None
        isref = f is not None and f.get("ret") is not None and self.T(m, f["ret"])["k"] == "ref"

        def done(s):
            v = s.vals[-1]
            if isinstance(v, Ref) and not isref:
                s.vals[-1] = s.read(v)
            s.ctl = ("ret",)
            return [s]
        return self.seq(self.ev(x["e"], st), done)

    def ex_break(self, x, st):
        st.ctl = ("brk",)
        return [st]

    def ex_continue(self, x, st):
        st.ctl = ("cont",)
        return [st]

    def ex_switch(self, x, st):
        def go(s0):
            states = [s0]
            if x.get("init") is not None:
                states = self.ex(x["init"], s0)
            if x.get("cv") is not None:
                states = self.seq(states, lambda s: self.ex(x["cv"], s))
            states = self.seq(states, lambda s: self.cond(x["c"], s))
            flat = []
            self.flatten(x["b"]["b"] if x["b"]["s"] == "block" else [x["b"]], flat)
            out = []
            for s in states:
                if s.ctl is not None:
                    out.append(s)
                    continue
                v = s.vals.pop()
                if isinstance(v, Top):
                    s.note_imp("switch on unknown value")
                    tg = sorted(set([i for i, (lb, _) in enumerate(flat) if lb]))
                    for i in tg:
                        out.extend(self.run_from(flat, i, s.copy()))
                    if not any(l is None for lb, _ in flat for l in lb):
                        out.append(s)
                    continue
                out.extend(self.switch_on(flat, v, s))
            for s in out:
                if s.ctl is not None and s.ctl[0] == "brk":
                    s.ctl = None
            return self.merge(out)
        return self.scope(st, go)

    def flatten(self, stmts, out):
        for y in stmts:
            labels = []
            z = y
            while z is not None and z["s"] in ("case", "default"):
                if z["s"] == "case":
                    labels.append((z["lo"], z.get("hi")))
                else:
                    labels.append(None)
                z = z.get("b")
            out.append((labels, z))

    def label(self, l, s):
        o = []
        for side in l:
            if side is None:
                o.append(None)
            elif isinstance(side, dict):
                r = self.ev(side, s)
                o.append(r[0].vals.pop())
            else:
                o.append(int(side))
        return o

    def switch_on(self, flat, v, s):
        labels = []
        default = None
        for i, (ls, _) in enumerate(flat):
            for l in ls:
                if l is None:
                    default = i
                else:
                    lo, hi = self.label(l, s)
                    labels.append((lo, hi, i))
        out = []
        s.vals.append(v)
        work = [(s, 0)]
        groups = {}
        while work:
            y, k = work.pop()
            done = False
            while k < len(labels):
                lo, hi, i = labels[k]
                w = y.vals[-1]
                try:
                    if hi is None:
                        c = self.binop(y, "==", w, lo, {"k": "int"})
                    else:
                        c1 = self.binop(y, ">=", w, lo, {"k": "int"})
                        c2 = self.binop(y, "<=", w, hi, {"k": "int"})
                        c = c2 if (c1 is True or y.known(c1) is True) else (False if y.known(c1) is False else None)
                        if c is None:
                            raise NeedSplit(c1)
                    r = y.known(c)
                except NeedSplit as ns:
                    tmp = []
                    self.split(y, ns.cond, tmp)
                    work.extend((z, k) for z in tmp)
                    done = True
                    break
                except Abort:
                    y.ctl = ("abort",)
                    out.append(y)
                    done = True
                    break
                if r is None:
                    y2 = y.copy()
                    if y2.assume(c, False):
                        y2.path = y2.path + ((self.where(y2), cnot(c)),)
                        work.append((y2, k + 1))
                    if y.assume(c, True):
                        y.path = y.path + ((self.where(y), c),)
                        y.vals.pop()
                        groups.setdefault(i, []).append(y)
                    done = True
                    break
                if r:
                    y.vals.pop()
                    groups.setdefault(i, []).append(y)
                    done = True
                    break
                k += 1
            if not done:
                y.vals.pop()
                if default is not None:
                    groups.setdefault(default, []).append(y)
                else:
                    out.append(y)
        for i in sorted(groups):
            for y in self.merge(groups[i]):
                out.extend(self.run_from(flat, i, y))
        return out

    def run_from(self, flat, i, s):
        return self.run_list([z for _, z in flat[i:] if z is not None], s)

    def ex_case(self, x, st):
        return self.ex(x["b"], st) if x.get("b") else [st]

    ex_default = ex_case

    def ex_try(self, x, st):
        base = len(st.vals)
        depth = len(st.frames)
        m = self.mod(st)
        out = []
        for s in self.ex(x["b"], st):
            if s.ctl is None or s.ctl[0] != "throw":
                out.append(s)
                continue
            exc = s.ctl[1]
            hit = None
            for h in x["h"]:
                if h.get("type") is None:
                    hit = h
                    break
                t = self.T(m, h["type"])
                if t["k"] == "ref":
                    t = self.T(m, t["to"])
                if t["k"] == "rec" and self.is_a(exc.cls, t["n"]):
                    hit = h
                    break
            if hit is None:
                out.append(s)
                continue
            s.ctl = None
            del s.vals[base:]
            old = s.frames[-1].curexc
            s.frames[-1].curexc = exc

            def handler(y, hit=hit):
                if hit.get("id") is not None and hit.get("type") is not None:
                    root = ("v", y.frames[-1].depth, hit["id"])
                    y.mem[root] = exc.v
                    y.frames[-1].vars[hit["id"]] = Ref(root)
                return self.ex(hit["b"], y)
            for o in self.scope(s, handler):
                if o.frames and len(o.frames) == depth:
                    o.frames[-1].curexc = old
                out.append(o)
        return out

    def is_a(self, cls, base):
        if cls == base or cls.split("<")[0] == base.split("<")[0]:
            return True
        r = self.rec.get(cls)
        if r is not None:
            return any(self.is_a(self.T(self.recmod[cls], b)["n"], base) for b in r.get("bases", []))
        return any(self.is_a(b, base) for b in STD_BASES.get(cls.split("<")[0], []))

    # ------------------------------------------------------------ loops

    def ex_while(self, x, st):
        def test(s):
            states = [s]
            if x.get("cv") is not None:
                states = self.ex(x["cv"], s)
            return self.seq(states, lambda y: self.cond(x["c"], y))
        return self.loop(st, x, test, lambda s: self.ex(x["b"], s), None)

    def ex_do(self, x, st):
        out = []
        for s in self.ex(x["b"], st):
            if s.ctl is None or s.ctl[0] == "cont":
                s.ctl = None
                out.extend(self.loop(s, x, lambda y: self.cond(x["c"], y), lambda y: self.ex(x["b"], y), None))
            elif s.ctl[0] == "brk":
                s.ctl = None
                out.append(s)
            else:
                out.append(s)
        return out

    def ex_for(self, x, st):
        def go(s0):
            states = [s0]
            if x.get("i") is not None:
                states = self.ex(x["i"], s0)

            def test(s):
                states = [s]
                if x.get("cv") is not None:
                    states = self.ex(x["cv"], s)
                if x.get("c") is None:
                    return self.seq(states, lambda y: self.push(y, True))
                return self.seq(states, lambda y: self.cond(x["c"], y))

            def inc(s):
                if x.get("inc") is None:
                    return [s]
                return self.ex_expr({"e": x["inc"]}, s)
            return self.seq(states, lambda s: self.loop(s, x, test, lambda y: self.ex(x["b"], y), inc))
        return self.scope(st, go)

    def ex_forrange(self, x, st):
        def go(s0):
            states = [s0]
            if x.get("init") is not None:
                states = self.ex(x["init"], s0)
            for d in ("r", "bs", "es"):
                states = self.seq(states, lambda s, d=d: self.ex(x[d], s))

            def body(s):
                return self.scope(s, lambda y: self.seq(self.ex(x["lv"], y), lambda z: self.ex(x["b"], z)))
            return self.seq(states, lambda s: self.loop(s, x, lambda y: self.cond(x["c"], y), body,
                                                        lambda y: self.ex_expr({"e": x["inc"]}, y)))
        return self.scope(st, go)

    def iteration(self, s, test, body, inc):
        """one iteration from head state s: (exits, back edge states)"""
        exits, backs = [], []
        for y in test(s):
            if y.ctl is not None:
                exits.append(y)
                continue
            t, f = self.branch(y)
            for z in f:
                exits.append(z)
            for z in t:
                if z.ctl is not None:
                    exits.append(z)
                    continue
                for o in self.scope(z, body):
                    if o.ctl is None or o.ctl[0] == "cont":
                        o.ctl = None
                        if inc is not None:
                            for p in inc(o):
                                (backs if p.ctl is None else exits).append(p)
                        else:
                            backs.append(o)
                    elif o.ctl[0] == "brk":
                        o.ctl = None
                        exits.append(o)
                    else:
                        exits.append(o)
        return exits, self.merge(backs)

    def loop(self, st, x, test, body, inc):
        out = []
        loc = x.get("l")
        # entries: (state, previous head state or None, number of iterations, undecided iterations)
        work = [(st, None, 0, 0)]
        total = 0
        while work:
            s, prev, n, und = work.pop()
            total += 1
            if total > 30000:
                s.note_imp("loop at %s not resolved" % loc)
                raise Budget("loop at %s" % loc)
            if und > 40:
                s.note_imp("loop at %s not resolved after %d undecided iterations" % (loc, und))
                s.event("loop given up", loc)
                s.ctl = ("abort",)
                out.append(s)
                continue
            if prev is not None and s.ver == prev.ver:
                if s.mem == prev.mem and s.frames[-1].vars == prev.frames[-1].vars and s.alloc == prev.alloc and s.freed == prev.freed:
                    s.event("loop does not terminate", loc)
                    s.ctl = ("abort",)
                    out.append(s)
                    continue
            if prev is not None and s.ver != prev.ver and not self.exact:
                r = self.generalise(prev, s, x, test, body, inc, und)
                if r is not None:
                    ex, more = r
                    out.extend(ex)
                    for y in more:
                        work.append((y, None, n + 1, 0))
                    continue
                und += 1
            elif prev is not None and self.exact and s.ver != prev.ver and n > 2000:
                raise Budget("loop at %s" % loc)
            head = s.copy()
            ex, backs = self.iteration(s, test, body, inc)
            out.extend(ex)
            if len(out) > self.maxstates:
                out = self.merge(out)
                if len(out) > self.maxstates:
                    raise Budget("too many states leaving the loop at %s" % loc)
            for b in backs:
                work.append((b, head, n + 1, und))
        return self.merge(out)

    # -- generalisation

    def generalise(self, prev, cur, x, test, body, inc, und=0):
        tau = atom("tau", "k%d" % next(_fresh), lo=0)
        g = self.anti_state(prev, cur, tau)
        if g is None:
            return None
        state, moving = g
        cands = []
        lens = set()
        for v in self.numbers(state):
            if isinstance(v, Poly):
                for aid in v.atoms():
                    at = dom._atom_list[aid]
                    if at is not tau and at.key[0] in ("len", "sym", "tau", "gen", "lex", "num10", "trim", "findpos"):
                        lens.add(at)
        for s in (prev, cur):
            for f, _ in s.lins:
                if isinstance(f, Poly):
                    for aid in f.atoms():
                        at = dom._atom_list[aid]
                        if at is not tau and at.key[0] in ("len", "sym", "tau", "gen"):
                            lens.add(at)
            for at in s.bounds:
                if at.key[0] in ("len", "sym"):
                    lens.add(at)
        exprs = set()
        for it in self.iterators(state):
            # an iterator stays within its container
            try:
                c = state.read(it.c)
            except Exception:
                continue
            if isinstance(c, Vec) and isinstance(it.pos, Poly):
                exprs.add(sub(len(c.items), it.pos))
        for mv in moving:
            for at in lens:
                exprs.add(sub(P(at), mv))
                exprs.add(sub(mv, P(at)))
            lo0 = subst_num(mv, tau, 0)
            exprs.add(sub(lo0, mv))
            exprs.add(sub(mv, lo0))
            if isconst(lo0) and lo0 > 0:
                exprs.add(mv)
        for f, strict in prev.lins + cur.lins:
            if (f, strict) in prev.lins and (f, strict) in cur.lins:
                continue
            # facts about the moving value at this iteration, as a function of the counter
        for c in exprs:
            if not isinstance(c, Poly):
                continue
            a, b = subst_num(c, tau, 0), subst_num(c, tau, 1)
            if prev.nonneg(a) and cur.nonneg(b):
                cands.append(c)
        cands = [c for c in cands if any(aid == tau.id for aid in c.atoms())]
        for attempt in range(6):
            s = state.copy()
            dead = False
            for c in cands:
                if not s.add_ge(c, False):
                    dead = True
            if dead:
                return None
            s.ver += 1
            head = s.copy()
            steps0 = self.steps
            ex, backs = self.iteration(s, test, body, inc)
            more = []
            bad = set()
            fail = False
            for b in backs:
                if not self.mentions_state(b, tau) and not any(self.loop_mentions(e, tau) for e in ()):
                    more.append(b)
                    continue
                ok, badc = self.subsumed(b, head, tau, cands)
                if ok is None:
                    # the counter survives only in values which no longer move: a fresh start is sound
                    if self.frozen(b, tau, moving):
                        more.append(b)
                        continue
                    fail = True
                    break
                bad |= badc
            if fail:
                return None
            if not bad:
                k = x.get("l")
                lost = self.lost_facts(prev, cur, state, tau, cands)
                if lost is not None:
                    if und < self.patience:
                        return None
                    for y in ex + more:
                        y.note_imp("what earlier iterations of the loop at %s found (%s) is forgotten" % (k, lost))
                self.loops_generalised[k] = self.loops_generalised.get(k, 0) + 1
                return ex, more
            cands = [c for c in cands if c not in bad]
        return None

    def lost_facts(self, a, b, state, tau, cands):
        """a fact about the data which holds after the iteration from a to b, and did not before, but which the generalised head does not have"""
        h = state.copy()
        for c in cands:
            c = subst_num(c, tau, 1)
            if not isconst(c):
                h.add_ge(c, False)

        def length(x):
            """nothing but lengths: what is learnt of them by looking ahead does not constrain earlier iterations"""
            return isinstance(x, Poly) and all(dom._atom_list[i].key[0] in ("len", "tau") for i in x.atoms())
        for f, strict in b.lins:
            if not length(f) and not (h.positive(f) if strict else h.nonneg(f)):
                return "%s %s 0" % (fmt_num(f), ">" if strict else ">=")
        for at in b.bounds:
            lo, hi = b.bound(at)
            if at.key[0] in ("len", "tau"):
                continue
            if lo is not None and not h.nonneg(sub(P(at), lo)) or hi is not None and not h.nonneg(sub(hi, P(at))):
                return "%s..%s" % (lo, hi)
        for k in b.cs:
            if b.mask(k) != h.mask(k):
                return "a character"
        for k, v in b.eqs.items():
            if h.eqs.get(k) != v and not (isinstance(k, tuple) and k[0] in ("lt", "eq") and length(k[1])):
                return str(k)[:80]
        return None

    patience = 12

    def loop_mentions(self, e, tau):
        return False

    def frozen(self, b, tau, moving):
        return False

    def iterators(self, s):
        out = []

        def w(v):
            if isinstance(v, It):
                out.append(v)
            elif isinstance(v, Rec):
                for y in v.f.values():
                    w(y)
        for v in s.mem.values():
            w(v)
        for f in s.frames:
            for v in f.vars.values():
                w(v)
        for v in s.vals:
            w(v)
        return out

    def numbers(self, s):
        out = []

        def w(v):
            if isinstance(v, Poly):
                out.append(v)
            elif isinstance(v, Str):
                for g in v.segs:
                    if g[0] == "s":
                        out.append(g[2])
                        out.append(g[3])
                        out.append(g[1].length())
                    elif g[0] == "r":
                        out.append(g[2])
                    elif g[0] == "u":
                        out.append(g[1])
            elif isinstance(v, Rec):
                for y in v.f.values():
                    w(y)
            elif isinstance(v, Vec):
                for y in v.items:
                    w(y)
            elif isinstance(v, Opt):
                w(v.v)
            elif isinstance(v, It):
                w(v.pos)
            elif isinstance(v, Ptr) and v.r is not None:
                for p in v.r.path:
                    w(p[1] if len(p) > 1 else None)
        for v in s.mem.values():
            w(v)
        return out

    def mentions_state(self, s, tau):
        for v in s.mem.values():
            if mentions_value(v, tau):
                return True
        for f in s.frames:
            for r in f.vars.values():
                if mentions_value(r, tau):
                    return True
        for v in s.vals:
            if mentions_value(v, tau):
                return True
        return False

    def anti_state(self, a, b, tau):
        if set(a.mem) != set(b.mem) or a.freed != b.freed or len(a.frames) != len(b.frames):
            return None
        if a.alloc != b.alloc:
            return None
        moving = set()
        try:
            mem = {k: anti(a.mem[k], b.mem[k], tau, moving) for k in a.mem}
            frames = []
            for fa, fb in zip(a.frames, b.frames):
                if set(fa.vars) != set(fb.vars):
                    return None
                f = fb.copy()
                f.vars = {i: anti(fa.vars[i], fb.vars[i], tau, moving) for i in fa.vars}
                if fa.this is not None:
                    f.this = anti(fa.this, fb.this, tau, moving)
                frames.append(f)
            if len(a.vals) != len(b.vals):
                return None
            vals = [anti(p, q, tau, moving) for p, q in zip(a.vals, b.vals)]
        except NoAnti:
            return None
        if not moving:
            return None
        s = b.copy()
        s.mem = mem
        s.frames = frames
        s.vals = vals
        join_facts(s, a, b)
        s.path = a.path
        s.imp = a.imp or b.imp
        s.ver = max(a.ver, b.ver) + 1
        return s, moving

    def subsumed(self, b, head, tau, cands):
        """is b an instance of head with tau replaced by tau+1?  (True/None, failing candidates)"""
        v = add(P(tau), 1)
        if set(b.mem) != set(head.mem) or b.freed != head.freed or b.alloc != head.alloc:
            return None, set()
        for k in head.mem:
            if subst_value(head.mem[k], tau, v) != b.mem[k]:
                if self.trace:
                    print("  not inductive:", k, subst_value(head.mem[k], tau, v), b.mem[k])
                return None, set()
        for fa, fb in zip(head.frames, b.frames):
            if {i: subst_value(r, tau, v) for i, r in fa.vars.items()} != fb.vars:
                return None, set()
        if [subst_value(q, tau, v) for q in head.vals] != b.vals:
            return None, set()
        bad = set()
        for c in cands:
            if not b.nonneg(subst_num(c, tau, v)):
                bad.add(c)
        # the other facts of the head do not mention tau, or were joined away; they persist unless the
        # state b has lost them (facts are never lost along a path)
        return True, bad

    trace = False

    # ------------------------------------------------------------ joins

    def merge(self, states):
        if len(states) < 2:
            return states
        out = []
        for s in states:
            if s.ctl is not None and s.ctl[0] == "abort":
                out.append(s)
                continue
            for o in out:
                if same(o, s):
                    join_into(o, s)
                    break
            else:
                out.append(s)
        return out

    # ------------------------------------------------------------ entry points

    def start(self):
        s = State()
        s.frames.append(Frame(self.mods[0], "<entry>", 0))
        return s

    def run(self, key, args, this=None, st=None):
        """abstractly execute a function; returns the final states with the result in .result"""
        s = st or self.start()
        out = self.call_fn(s, key, args, this)
        for o in out:
            if o.ctl is None:
                o.result = o.vals.pop()
        return out

    def make(self, mod, ctor_key, args, root=("obj",), st=None):
        s = st or self.start()
        m, f = self.fn[ctor_key]
        cls = m["fnrefs"][f["ref"]]["cls"]
        s.mem[root] = Rec(cls, {})
        out = self.call_fn(s, ctor_key, args, Ref(root))
        for o in out:
            if o.ctl is None:
                o.vals.pop()
                o.result = o.read(Ref(root))
        return out


class NoAnti(Exception):
    pass


def mentions_value(x, at):
    if isinstance(x, (bool, int, Fraction, Top, S.Uninit)) or x is None:
        return False
    if isinstance(x, (Poly, BV, Str, Cond, Atom)):
        return dom._mentions(x, at)
    if isinstance(x, Rec):
        return any(mentions_value(y, at) for y in x.f.values())
    if isinstance(x, Opt):
        return mentions_value(x.e, at) or mentions_value(x.v, at)
    if isinstance(x, Vec):
        return any(mentions_value(y, at) for y in x.items)
    if isinstance(x, Map):
        return any(mentions_value(k, at) or mentions_value(y, at) for k, y in x.items)
    if isinstance(x, Ref):
        return any(mentions_value(z, at) for p in x.path for z in p if not isinstance(z, str))
    if isinstance(x, Ptr):
        return x.r is not None and mentions_value(x.r, at)
    if isinstance(x, It):
        return mentions_value(x.c, at) or (not isinstance(x.pos, str) and mentions_value(x.pos, at))
    if isinstance(x, Tag):
        return mentions_value(x.v, at)
    if isinstance(x, tuple):
        return any(mentions_value(y, at) for y in x if not isinstance(y, str))
    return False


def anti(a, b, tau, moving):
    """least general generalisation of a (at tau = 0) and b (at tau = 1)"""
    if a is b:
        return a
    if isinstance(a, bool) or isinstance(b, bool):
        if a == b and type(a) is type(b):
            return a
        raise NoAnti()
    if isnum(a) and isnum(b):
        d = sub(b, a)
        if isconst(d):
            if d == 0:
                return a
            r = add(a, mul(d, P(tau)))
            if not nint(d):
                raise NoAnti()
            moving.add(r)
            return r
        raise NoAnti()
    if type(a) is not type(b):
        if isinstance(a, (BV, int, Poly)) and isinstance(b, (BV, int, Poly)):
            return Top("loop variable")
        raise NoAnti()
    if a == b:
        return a
    if isinstance(a, Str):
        return anti_str(a, b, tau, moving)
    if isinstance(a, BV):
        if a.tbl == b.tbl and a.a.key[0] == "ch" and b.a.key[0] == "ch" and a.a.key[1] is b.a.key[1]:
            return BV(chatom(a.a.key[1], anti(a.a.key[2], b.a.key[2], tau, moving)), a.tbl)
        return Top("loop variable")
    if isinstance(a, Rec):
        if a.cls != b.cls or set(a.f) != set(b.f):
            raise NoAnti()
        return Rec(a.cls, {k: anti(a.f[k], b.f[k], tau, moving) for k in a.f})
    if isinstance(a, Opt):
        if a.e != b.e:
            raise NoAnti()
        return Opt(a.e, anti(a.v, b.v, tau, moving))
    if isinstance(a, Vec):
        if len(a.items) != len(b.items):
            raise NoAnti()
        return Vec([anti(p, q, tau, moving) for p, q in zip(a.items, b.items)], a.t)
    if isinstance(a, Ref):
        if a.root != b.root or len(a.path) != len(b.path):
            raise NoAnti()
        path = []
        for p, q in zip(a.path, b.path):
            if p == q:
                path.append(p)
            elif p[0] == q[0] and len(p) == len(q) == 2 and isnum(p[1]) and isnum(q[1]):
                path.append((p[0], anti(p[1], q[1], tau, moving)))
            else:
                raise NoAnti()
        return Ref(a.root, tuple(path))
    if isinstance(a, Ptr):
        if a.r is None or b.r is None:
            raise NoAnti()
        return Ptr(anti(a.r, b.r, tau, moving))
    if isinstance(a, It):
        if a.c != b.c or a.rev != b.rev or not isnum(a.pos) or not isnum(b.pos):
            raise NoAnti()
        return It(a.c, anti(a.pos, b.pos, tau, moving), a.rev)
    if isinstance(a, Tag) and a.k == b.k:
        if a.k == "ostream":
            return Tag(a.k, anti(a.v, b.v, tau, moving))
    raise NoAnti()


def anti_str(a, b, tau, moving):
    A, B = list(a.segs), list(b.segs)
    pre, post = [], []
    while A and B and A[0] == B[0]:
        pre.append(A.pop(0))
        B.pop(0)
    while A and B and A[-1] == B[-1]:
        post.insert(0, A.pop())
        B.pop()
    t = P(tau)
    if not A and len(B) == 1:
        g = B[0]
        if g[0] == "s":
            n = sub(g[3], g[2])
            if isconst(n) and n >= 1:
                e = add(g[2], mul(n, t))
                moving.add(e)
                return Str(pre + [("s", g[1], g[2], e, g[4])] + post)
        if g[0] == "k" and len(g[1]) == 1:
            moving.add(t)
            return Str(pre + [("r", ord(g[1]), t)] + post)
        if g[0] == "k" and len(set(g[1])) == 1:
            moving.add(t)
            return Str(pre + [("r", ord(g[1][0]), mul(len(g[1]), t))] + post)
        if g[0] == "v":
            raise NoAnti()
    if not B and len(A) == 1:
        raise NoAnti()
    if len(A) == 1 and len(B) == 1:
        g, h = A[0], B[0]
        if g[0] == "k" and h[0] == "k":
            # a constant piece which grows by one repeated character at its end or start
            if h[1].startswith(g[1]) and len(set(h[1][len(g[1]):])) == 1:
                k = h[1][len(g[1]):]
                moving.add(t)
                return Str(pre + [g, ("r", ord(k[0]), mul(len(k), t))] + post)
            if h[1].endswith(g[1]) and len(set(h[1][:-len(g[1])])) == 1:
                k = h[1][:-len(g[1])]
                moving.add(t)
                return Str(pre + [("r", ord(k[0]), mul(len(k), t)), g] + post)
            if len(g[1]) == len(h[1]):
                raise NoAnti()
        if g[0] == "s" and h[0] == "s" and g[1] is h[1] and g[4] == h[4]:
            return Str(pre + [("s", g[1], anti(g[2], h[2], tau, moving), anti(g[3], h[3], tau, moving), g[4])] + post)
        if g[0] == "r" and h[0] == "r" and g[1] == h[1]:
            return Str(pre + [("r", g[1], anti(g[2], h[2], tau, moving))] + post)
    if len(A) == len(B):
        # constant piece followed by the moving slice
        out = []
        for g, h in zip(A, B):
            if g == h:
                out.append(g)
            elif g[0] == "s" and h[0] == "s" and g[1] is h[1] and g[4] == h[4]:
                out.append(("s", g[1], anti(g[2], h[2], tau, moving), anti(g[3], h[3], tau, moving), g[4]))
            elif g[0] == "r" and h[0] == "r" and g[1] == h[1]:
                out.append(("r", g[1], anti(g[2], h[2], tau, moving)))
            elif g[0] == "u" and h[0] == "u":
                out.append(("u", anti(g[1], h[1], tau, moving)))
            else:
                raise NoAnti()
        return Str(pre + out + post)
    # one string: prefix moved into the other (a buffer being filled from the left)
    if len(B) == len(A) + 1 and B[0][0] == "s" and A and A[0][0] == "u" and B[1][0] == "u":
        n = sub(B[0][3], B[0][2])
        if isconst(n) and n >= 1:
            e = add(B[0][2], mul(n, t))
            moving.add(e)
            return Str(pre + [("s", B[0][1], B[0][2], e, B[0][4]), ("u", anti(A[0][1], B[1][1], tau, moving))] + post)
    raise NoAnti()


def same(a, b):
    if a.ctl != b.ctl and not (a.ctl is not None and b.ctl is not None and a.ctl[0] == b.ctl[0] == "throw" and a.ctl[1] == b.ctl[1]):
        return False
    if len(a.frames) != len(b.frames) or len(a.vals) != len(b.vals) or a.freed != b.freed or a.alloc != b.alloc:
        return False
    if len(a.events) != len(b.events) or a.events != b.events:
        return False
    if (a.imp is None) != (b.imp is None):
        return False
    for fa, fb in zip(a.frames, b.frames):
        if fa.vars != fb.vars:
            return False
    return a.vals == b.vals and a.mem == b.mem


def join_facts(s, a, b):
    """facts of s := those implied by both a and b"""
    nb = {}
    for at in set(a.bounds) | set(b.bounds):
        la, ha = a.bound(at)
        lb, hb = b.bound(at)
        lo = None if la is None or lb is None else min(la, lb)
        hi = None if ha is None or hb is None else max(ha, hb)
        if lo is not None or hi is not None:
            nb[at] = (lo, hi)
    s.bounds = nb
    lins = []
    for f in a.lins:
        if f in b.lins or (b.positive(f[0]) if f[1] else b.nonneg(f[0])):
            lins.append(f)
    for f in b.lins:
        if f not in lins and (a.positive(f[0]) if f[1] else a.nonneg(f[0])):
            lins.append(f)
    s.lins = tuple(lins)
    s.cs = {k: a.mask(k) | b.mask(k) for k in set(a.cs) & set(b.cs)}
    s.gwrites = a.gwrites | b.gwrites
    s.eqs = {k: v for k, v in a.eqs.items() if b.eqs.get(k) == v}


class Alt(object):
    """facts of one of the states which were joined (those that the join does not have)"""
    __slots__ = ("bounds", "lins", "cs", "eqs", "alts", "subs")

    def __init__(self, a, j, common):
        self.subs = a.subs[len(j.subs):]
        self.bounds = {k: v for k, v in a.bounds.items() if j.bounds.get(k) != v}
        self.lins = tuple(f for f in a.lins if f not in j.lins)
        self.cs = {k: v for k, v in a.cs.items() if j.cs.get(k) != v}
        self.eqs = {k: v for k, v in a.eqs.items() if k not in j.eqs}
        self.alts = a.alts[common:]

    def trivial(self):
        return not (self.bounds or self.lins or self.cs or self.eqs or self.alts or self.subs)


def join_into(o, s):
    a, b = o.copy(), s
    join_facts(o, a, b)
    n = 0
    while n < len(a.alts) and n < len(b.alts) and a.alts[n] is b.alts[n]:
        n += 1
    k = 0
    while k < len(a.subs) and k < len(b.subs) and a.subs[k] == b.subs[k]:
        k += 1
    o.subs = a.subs[:k]
    x, y = Alt(a, o, n), Alt(b, o, n)
    o.alts = a.alts[:n]
    if not x.trivial() and not y.trivial():
        o.alts = o.alts + ((x, y),)
    n = 0
    for x, y in zip(a.path, b.path):
        if x != y:
            break
        n += 1
    o.path = a.path[:n]
    o.ver = max(a.ver, b.ver)
