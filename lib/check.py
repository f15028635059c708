"""Obligations, verdicts, evidence.

A check is a module checks/<id>.py which defines families (functions decorated with @family).  Every family
analyses the current source of the repository and records obligations: 'discharged', 'undecided' or 'violated'.
Only a violation which is definite is reported; anything the analysis could not decide is counted as undecided
in the evidence, and a family whose anchors vanished makes the whole check end with an error exit.
"""
import gc
import importlib.util
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.setrecursionlimit(20000)

import extract
import interp
import witness
from dom import *
from state import *

AnalysisBroken = extract.AnalysisBroken


class TooLong(Exception):
    pass


FAMILIES = []


def family(name, limit=120, tier="quick"):
    def d(f):
        FAMILIES.append((name, f, limit, tier))
        return f
    return d


# interpreter shared (by fork) between the families of one check
_MODS = None
_I = None
DEADLINE = None     # when everything has to be over


def interpreter():
    global _MODS, _I
    if _I is None:
        _MODS = extract.extract()
        _I = interp.Interp(_MODS)
    return _I


def show_loc(l):
    return str(l) if l is not None else "?"


class Fam(object):
    """what one family records"""

    def __init__(self, name, seed):
        self.name = name
        self.seed = seed
        self.I = interpreter()
        self.ob = []           # (status, rule, construct, text)
        self.states = 0
        self.notes = []
        self.entries = set()
        self.anchors = 0

    # ---- anchors

    def fn(self, q, pat=None, n=None, body=True):
        """the one function with this qualified name (and a pattern in its mangled key)"""
        ks = [k for k in self.I.find(q) if pat is None or (pat(k) if callable(pat) else pat in k)]
        ks = [k for k in ks if not body or self.I.fn[k][1].get("body") is not None]
        if not ks:
            raise AnalysisBroken("no definition of %s%s found in the source" % (q, " (%s)" % pat if pat else ""))
        if n is not None:
            ks = [k for k in ks if len(self.I.fn[k][1]["params"]) == n]
            if not ks:
                raise AnalysisBroken("no definition of %s with %d parameters" % (q, n))
        self.anchors += 1
        return ks[0]

    # ---- running

    def run(self, label, key, args, this=None, st=None, expect=None):
        """final states of an abstract run, or None"""
        st = st or self.I.start()
        st.mem["EXPECT"] = expect if expect is not None else Vec([])
        return self._run(label, key, lambda s: self.I.run(key, list(args), this, s), st)

    def make(self, label, key, args, root="R", st=None, expect=None):
        """abstract construction of an object; expect is carried through, so that what is learnt about the input
        (which byte it is, say) is also learnt about what is expected"""
        st = st or self.I.start()
        st.mem["EXPECT"] = expect if expect is not None else Vec([])
        return self._run(label, key, lambda s: self.I.make(self.I.fn[key][0], key, list(args), root, s), st)

    def _run(self, label, key, f, st):
        self.I.steps = 0
        m, fn = self.I.fn[key]
        self.entries.add(fn.get("q") or key)
        s = st or self.I.start()
        try:
            out = f(s)
        except interp.Budget as e:
            self.undecided("abstract run", label, "gave up: %s" % e)
            return None
        except (TooLong, AnalysisBroken, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.undecided("abstract run", label, "engine: %s: %s (%s)" % (type(e).__name__, str(e)[:120],
                           " < ".join("%s:%d" % (t.name, t.lineno) for t in tb[-1:-4:-1])))
            return None
        self.states += len(out)
        return out

    # ---- verdicts

    def ok(self, rule, construct, text=""):
        self.ob.append(("discharged", rule, construct, text))

    def undecided(self, rule, construct, text=""):
        self.ob.append(("undecided", rule, construct, str(text)[:400]))

    def violated(self, rule, construct, text=""):
        self.ob.append(("violated", rule, construct, text))

    # ---- comparisons

    def describe(self, st, m=None):
        try:
            return self._describe(st, m)
        except (KeyError, ValueError, TypeError, AttributeError) as e:
            return "(cannot be described: %s)" % e

    def _describe(self, st, m=None):
        out = []
        if st.path:
            seen = []
            for e in st.path[-14:]:
                w, c = e if isinstance(e, tuple) and len(e) == 2 else (None, e)
                seen.append("%s [%s]" % (show_loc(w), str(c)[:90]))
            out.append("path: " + " -> ".join(seen))
        if m is not None:
            ex = []
            for sid, t in list(m.txt.items())[:12]:
                ex.append("%s=%s" % (sid_name(sid), witness.show(t) if t else "''"))
            for a, v in list(m.num.items())[:16]:
                ex.append("%s=%s" % (fmt_atom(a)[:50], v))
            out.append("for instance: " + ", ".join(ex)[:900])
        return "\n    ".join(out)

    def equal(self, rule, construct, st, got, want, tol=None):
        """st's value got must be want in every member of st"""
        if st.imp is not None:
            self.undecided(rule, construct, "imprecise: %s" % st.imp)
            return False
        try:
            r, info = witness.compare(st, got, want, self.seed, tol)
        except TooLong:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.undecided(rule, construct, "engine: %s: %s (%s)" % (type(e).__name__, str(e)[:120],
                           " < ".join("%s:%d" % (t.name, t.lineno) for t in tb[-1:-4:-1])))
            return False
        if r == "same":
            self.ok(rule, construct)
            return True
        if r == "differ":
            p, x, y, cx, cy, m = info
            self.violated(rule, construct, "%s: the source computes %s where %s is required\n    abstractly: %s instead of %s\n    %s" % (
                p or "value", cx, cy, str(x)[:300], str(y)[:300], self.describe(st, m)))
            return False
        self.undecided(rule, construct, "%s: %s" % (info[0], info[3]) if isinstance(info, tuple) else str(info))
        return False

    def truth(self, rule, construct, st, got, want, what=""):
        """in every member of st, got (a truth value) must be what want says: a bool, Cond, ("and", ...), ("or", ...)"""
        if st.imp is not None:
            self.undecided(rule, construct, "imprecise: %s" % st.imp)
            return False
        if isinstance(got, BV):
            got = bv_num(got)
        if isnum(got):
            got = cnot(eq(got, 0)) if not isconst(got) else got != 0
        unknown = None
        for gv in (True, False):
            for conj in dnf(st.current(want), not gv):
                s = st.copy()
                try:
                    if not all(s.assume(c, v) for c, v in [(got, gv)] + conj):
                        continue
                    m = witness.feasible(s, self.seed)
                except (NeedSplit, Imprecise, RecursionError) as e:
                    unknown = unknown or "cannot compare: %s" % e
                    continue
                if m is None:
                    unknown = unknown or "no witness, no proof: got %s, wanted %s" % (got, conj)
                    continue
                self.violated(rule, construct, "the source says %s where %s is required: %s\n    %s" % (gv, not gv, what, self.describe(s, m)))
                return False
        if unknown:
            self.undecided(rule, construct, unknown)
            return False
        self.ok(rule, construct)
        return True

    def no_overflow(self, rule, construct):
        """after runs with self.I.overflows = []: no signed result may leave the range of its type"""
        seen = {}
        for st, v, h, where in self.I.overflows:
            if seen.get(str(where)) == "violated":
                continue
            for c in (lt(h - 1, v), lt(v, -h)):
                s = st.copy()
                try:
                    if not s.assume(c, True):
                        continue
                    m = witness.feasible(s, self.seed) if s.imp is None else None
                except (NeedSplit, Imprecise, RecursionError):
                    m = None
                if m is not None:
                    seen[str(where)] = "violated"
                    self.violated(rule, construct, "signed overflow at %s: %s\n    %s" % (where, fmt_num(v)[:200], self.describe(s, m)))
                    break
                seen.setdefault(str(where), "undecided")
        for w, x in seen.items():
            if x == "undecided":
                self.undecided(rule, construct, "possible overflow at %s" % w)
        if not seen:
            self.ok(rule, construct)
        self.I.overflows = []

    def reachable(self, st):
        """a member of the state, if the analysis is exact there"""
        if st.imp is not None:
            return None
        try:
            return witness.feasible(st, self.seed)
        except (NeedSplit, Imprecise, RecursionError):
            return None

    def unreachable(self, rule, construct, st, text):
        """the state must not exist"""
        m = self.reachable(st)
        if m is None:
            self.undecided(rule, construct, text + " (imprecise: %s)" % st.imp)
        else:
            self.violated(rule, construct, text + "\n    " + self.describe(st, m))

    def outcome(self, st):
        if st.ctl is None:
            return "ok"
        if st.ctl[0] == "throw":
            return "throw " + str(st.ctl[1].cls)
        return st.ctl[0]

    def where(self, st):
        if st.ctl is not None and st.ctl[0] == "throw":
            return show_loc(st.ctl[1].loc)
        return "?"


def dnf(w, val):
    """list of conjunctions (lists of (condition, truth value)) whose disjunction says that w has the value val"""
    if isinstance(w, tuple) and w and w[0] in ("and", "or"):
        if (w[0] == "or") == val:
            return [c for x in w[1:] for c in dnf(x, val)]
        out = [[]]
        for x in w[1:]:
            out = [a + b for a in out for b in dnf(x, val)]
        return out
    if isinstance(w, tuple) and w and w[0] == "not":
        return dnf(w[1], not val)
    if isinstance(w, bool):
        return [[]] if w == val else []
    return [[(w, val)]]


def sid_name(sid):
    k = sid.key
    while isinstance(k, tuple) and k:
        k = k[-1] if isinstance(k[-1], str) else k[0]
        if isinstance(k, str):
            break
    return str(k)


# ---------------------------------------------------------------- driver

def load(pid):
    p = os.path.join(HERE, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def roomy():
    """A function which calls f(x) from a frame so large that the frames below it share its chunk of stack: otherwise
    Python maps and unmaps memory again and again when the depth of calls moves over the border between two chunks."""
    n = 140000
    d = {}
    exec("def call(f, x):\n if f is None:\n  %s = 0\n return f(x)\n" % " = ".join("v%d" % i for i in range(n)), d)
    return d["call"]


def work(args):
    i, seed = args
    name, f, limit, _ = FAMILIES[i]
    fam = Fam(name, seed)
    t = time.time()
    broken = None

    def alarm(*a):
        raise TooLong()
    signal.signal(signal.SIGALRM, alarm)
    if DEADLINE is not None:
        limit = max(1, min(limit, DEADLINE - time.time()))
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        roomy()(f, fam)
    except AnalysisBroken as e:
        broken = str(e)
    except TooLong:
        fam.undecided("abstract run", name, "stopped after %d s" % limit)
    except interp.Budget as e:
        fam.undecided("abstract run", name, "gave up: %s" % e)
    except Exception as e:
        fam.undecided("abstract run", name, "engine: %s" % " ".join(x for x in traceback.format_exc().split() if "^^" not in x)[-250:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {"name": name, "ob": fam.ob, "states": fam.states, "steps": fam.I.steps, "notes": fam.notes,
            "visited": sorted(fam.I.visited), "unmodelled": dict(fam.I.unmodelled),
            "loops": {str(k): v for k, v in fam.I.loops_generalised.items()}, "entries": sorted(fam.entries),
            "anchors": fam.anchors, "broken": broken, "wall": time.time() - t}


def known_findings(pid):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv[1:]:
        if a == "--thorough":
            tier = "thorough"
    only = [a[7:] for a in argv[1:] if a.startswith("--only=")]
    verbose = "-v" in argv
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    global DEADLINE
    DEADLINE = t0 + float(os.environ.get("VERIF_DEADLINE", "600"))
    try:
        mod = load(pid)
        interpreter()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    fams = [i for i, (n, f, l, t) in enumerate(FAMILIES) if (t == "quick" or tier == "thorough") and (not only or n in only)]
    if not fams:
        print("ANALYSIS-BROKEN property=%s no families" % pid)
        return 3
    fams.sort(key=lambda i: -FAMILIES[i][2])
    n = max(1, min(len(fams), os.cpu_count() or 2, 8))
    gc.collect()
    gc.freeze()
    gc.set_threshold(20000, 20, 100)
    if len(fams) > 1:
        with multiprocessing.get_context("fork").Pool(n, maxtasksperchild=1) as pool:
            res = pool.map(work, [(i, seed) for i in fams], chunksize=1)
    else:
        res = [work((fams[0], seed))]
    res.sort(key=lambda r: [x[0] for x in FAMILIES].index(r["name"]))
    rc = finish(pid, mod, tier, seed, res, t0, verbose)
    return rc


def finish(pid, mod, tier, seed, res, t0, verbose):
    count = {"discharged": 0, "undecided": 0, "violated": 0}
    viol = []
    rules = {}
    und = {}
    visited, entries, loops, unmod = set(), set(), {}, {}
    broken = []
    for r in res:
        for st, rule, cons, text in r["ob"]:
            count[st] += 1
            rr = rules.setdefault(rule, {"discharged": 0, "undecided": 0, "violated": 0})
            rr[st] += 1
            if st == "violated":
                viol.append((r["name"], rule, cons, text))
            elif st == "undecided":
                und.setdefault("%s: %s: %s" % (r["name"], rule, cons), text)
        visited.update(r["visited"])
        entries.update(r["entries"])
        for k, v in r["loops"].items():
            loops[k] = loops.get(k, 0) + v
        for k, v in r["unmodelled"].items():
            unmod[k] = unmod.get(k, 0) + v
        if r["broken"]:
            broken.append("%s: %s" % (r["name"], r["broken"]))
        if not r["ob"] and not r["broken"]:
            broken.append("%s: the family has no instance left" % r["name"])
    known = known_findings(pid)
    seen_known = {}
    fresh = []
    for v in viol:
        for k in known:
            if v[1] == k["rule"] and v[2] == k["construct"]:
                seen_known[k["rule"] + "|" + k["construct"]] = k
                break
        else:
            fresh.append(v)
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s [%s: %s]" % (pid, k["what"], k["rule"], k["construct"]))
    total = sum(count.values())
    from collections import OrderedDict
    samples = []
    for r in res:
        for o in r["ob"][:2]:
            samples.append("%s / %s / %s: %s" % (r["name"], o[1], o[2], o[0]))
    I = interpreter()
    names = sorted({(I.fn[k][1].get("q") or k) for k in visited if k in I.fn})
    expl = ("%s Analysed from the source, nothing executed: %d translation units, %d function definitions reachable from "
            "%d entry points were abstractly interpreted, giving %d final abstract states; %d loops were resolved by an "
            "invariant for any number of iterations. %d obligations: %d discharged, %d undecided, %d violated." % (
                getattr(mod, "EXPLANATION", ""), len(I.mods), len(names), len(entries), sum(r["states"] for r in res),
                len(loops), total, count["discharged"], count["undecided"], count["violated"]))
    ev = OrderedDict([
        ("property", pid), ("tier", tier if tier in ("quick", "thorough") else "quick"), ("seed", seed), ("level", "other"),
        ("coverage", OrderedDict([
            ("explanation", expl),
            ("obligations", total), ("discharged", count["discharged"]),
            ("undecided", count["undecided"]),
            ("rules", rules),
            ("entry_points", sorted(entries)),
            ("functions_analysed", names),
            ("loops_generalised", sorted(loops)),
            ("families", [OrderedDict([("name", r["name"]), ("obligations", len(r["ob"])), ("final_states", r["states"]),
                                       ("anchors", r["anchors"]), ("wall_s", round(r["wall"], 2)),
                                       ("notes", r["notes"][:20])]) for r in res]),
            ("undecided_obligations", ["%s -- %s" % x for x in sorted(und.items())][:60]),
            ("calls_without_a_model", unmod),
            ("samples", samples[:40]),
        ])),
        ("assumptions", getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS),
        ("wall_s", round(time.time() - t0, 2)),
        ("violations", len(fresh)),
        ("known_findings", len(seen_known)),
    ])
    if not os.environ.get("VERIF_NO_EVIDENCE"):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d families, %d functions, %.1f s" % (
        pid, total, count["discharged"], count["undecided"], count["violated"], len(res), len(names), time.time() - t0))
    if verbose:
        for r in res:
            print("  family %s: %d obligations, %d states, %.1f s" % (r["name"], len(r["ob"]), r["states"], r["wall"]))
        for k, v in sorted(und.items()):
            print("  UNDECIDED %s -- %s" % (k, v[:300]))
        if unmod:
            print("  unmodelled:", unmod)
    if fresh:
        rp = os.path.join(HERE, "evidence", "%s.violations.txt" % pid)
        with open(rp, "w") as f:
            for v in fresh:
                f.write("property %s\nfamily %s\nrule %s\nconstruct %s\n    %s\n\n" % (pid, v[0], v[1], v[2], v[3]))
        for v in fresh[:5]:
            print("  %s / %s / %s\n    %s" % (v[0], v[1], v[2], v[3][:900]))
        if len(fresh) > 5:
            print("  ... and %d more in %s" % (len(fresh) - 5, rp))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken:
        for b in broken:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, b))
        return 3
    if count["discharged"] == 0:
        print("ANALYSIS-BROKEN property=%s nothing could be decided" % pid)
        return 3
    return 0


COMMON_ASSUMPTIONS = [
    "clang 18's AST of the sources (with the build's flags) is the program that is built",
    "the C++ standard library and Boost behave as modelled in lib/models.py",
    "floating point arithmetic is treated as exact real arithmetic",
    "memory allocation does not fail",
]

