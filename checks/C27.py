"""effects on the process"""
from check import *

EXPLANATION = ("The call graph of the library (calls, constructions and destructions, virtual calls to every override, functions whose address is taken, lambdas) is searched for direct effects on the process, "
               "and each is followed back to the public functions which can cause it; every throw expression is typed.")

EXITS = {"exit", "_exit", "_Exit", "quick_exit", "abort", "std::exit", "std::abort", "std::quick_exit", "std::terminate", "std::_Exit", "raise", "std::raise", "kill", "longjmp", "std::longjmp"}
SETTINGS = {"setlocale", "std::setlocale", "uselocale", "std::locale::global", "boost::filesystem::path::imbue", "std::set_terminate", "std::set_unexpected", "std::set_new_handler", "signal", "std::signal", "sigaction",
            "atexit", "std::atexit", "at_quick_exit", "setenv", "putenv", "unsetenv", "clearenv", "chdir", "fchdir", "boost::filesystem::current_path", "std::filesystem::current_path", "umask", "setrlimit", "nice",
            "srand", "std::srand", "srandom", "tzset", "close", "dup2", "std::ios_base::sync_with_stdio", "alarm", "fesetround", "std::fesetround", "feenableexcept"}
HIDDEN = {"strtok", "std::strtok", "rand", "std::rand", "random", "setlocale", "gmtime", "std::gmtime", "localtime", "std::localtime", "asctime", "std::asctime", "ctime", "std::ctime", "tmpnam", "std::tmpnam", "strerror_l", "getenv_s"}
OTHERS = {"system", "std::system", "popen", "fork", "vfork", "execv", "execve", "execvp", "execl", "execlp", "posix_spawn", "remove", "std::remove", "unlink", "rmdir", "rename", "std::rename", "mkdir", "truncate", "ftruncate", "chmod",
          "chown", "symlink", "link", "mkstemp", "tmpfile", "std::tmpfile", "socket", "connect", "boost::filesystem::remove", "boost::filesystem::remove_all", "boost::filesystem::rename",
          "boost::filesystem::create_directory", "boost::filesystem::create_directories", "boost::filesystem::copy_file", "boost::filesystem::resize_file", "boost::filesystem::permissions",
          "std::filesystem::remove", "std::filesystem::remove_all", "std::filesystem::rename"}
CONSOLE = {"printf", "std::printf", "vprintf", "std::vprintf", "puts", "std::puts", "putchar", "std::putchar", "perror", "std::perror", "getchar", "std::getchar", "gets", "scanf", "std::scanf", "syslog", "putwchar", "wprintf"}
STREAMS = {"std::cout", "std::cerr", "std::clog", "std::wcout", "std::wcerr", "std::wclog", "std::cin", "std::wcin", "stdout", "stderr", "stdin"}


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            for y in walk(v):
                yield y
    elif isinstance(x, list):
        for v in x:
            for y in walk(v):
                yield y


def literal(n):
    """the text of a string literal in an expression"""
    for x in walk(n):
        if x.get("e") == "str":
            return "".join(chr(c) for c in x["v"])
    return None


class Graph(object):
    def __init__(self, I):
        self.I = I
        self.callers = {}
        self.direct = {}        # effect -> list of (function key, what, where)
        self.throws = []
        self.sites = 0
        self.fns = {k: v for k, v in I.fn.items() if v[1].get("body") is not None and str(v[1].get("file")).startswith("src/")}
        overriders = {}
        for k, (m, f) in I.fn.items():
            r = m["fnrefs"][f["ref"]]
            if r.get("cls"):
                overriders.setdefault(r["q"].split("::")[-1], []).append((r["cls"], k))
        for k, (m, f) in self.fns.items():
            for n in walk([f["body"], f.get("inits")]):
                e = n.get("e")
                if e == "global":
                    g = m["globals"].get(n["k"], {})
                    q = g.get("q") or n["k"]
                    if q in STREAMS:
                        self.add("console", k, q, n)
                if e == "throw" and n.get("a"):
                    self.throws.append((k, m, n))
                if isinstance(e, str) and isinstance(n.get("f"), int) and e in ("call", "ctor", "fn", "new", "delete"):
                    r = m["fnrefs"][n["f"]]
                    self.sites += 1
                    self.edge(k, r["key"])
                    if r.get("virtual"):
                        for c, o in overriders.get(r["q"].split("::")[-1], ()):
                            if I.is_a(c, r.get("cls", "")):
                                self.edge(k, o)
                    if e == "ctor" and r.get("cls"):
                        for c, o in overriders.get("~" + r["cls"].split("<")[0].split("::")[-1], ()):
                            if c == r["cls"]:
                                self.edge(k, o)
                    self.effect(k, m, r, n)

    def edge(self, a, b):
        if b in self.fns:
            self.callers.setdefault(b, set()).add(a)

    def add(self, kind, k, q, n):
        self.direct.setdefault(kind, []).append((k, q, n.get("l")))

    def effect(self, k, m, r, n):
        q = r["q"]
        if str(r.get("loc")).startswith(("src/", "tools/")) or q in ("std::remove", "remove") and len(n.get("a") or []) != 1:
            return      # a function of the library by the same name, or the algorithm
        for kind, names in (("exit", EXITS), ("setting", SETTINGS), ("hidden state", HIDDEN), ("other", OTHERS), ("console", CONSOLE)):
            if q in names:
                if q == "boost::filesystem::current_path" and not n.get("a"):
                    continue
                if q in ("setlocale", "std::setlocale") and len(n.get("a") or []) > 1 and any(x.get("e") == "null" for x in walk(n["a"][1])):
                    continue
                self.add(kind, k, q, n)
        if q in ("fopen", "std::fopen", "freopen", "std::freopen", "fdopen", "boost::filesystem::fopen"):
            mode = literal(n["a"][1]) if len(n.get("a") or []) > 1 else None
            self.add("reading" if mode is not None and mode.startswith("r") and "+" not in mode else "writing", k, "%s(%r)" % (q, mode), n)
        cls = (r.get("clsq") or "").split("::")[-1]
        last = q.split("::")[-1]
        if (last == cls and r.get("ctor") not in ("default", "copy", "move") and n.get("a") or last == "open") and cls in ("basic_ifstream", "basic_ofstream", "basic_fstream", "basic_filebuf", "ifstream", "ofstream", "fstream"):
            self.add("reading" if cls in ("basic_ifstream", "ifstream") else "writing", k, cls.replace("basic_", ""), n)
        if q in ("open", "creat", "open64", "openat"):
            self.add("writing", k, q, n)

    def q(self, k):
        m, f = self.fns[k]
        return m["fnrefs"][f["ref"]]["q"]

    def roots(self, k, cut):
        """the functions which nothing calls from which k can be reached other than through those of cut: (root, path)"""
        if self.q(k) in cut:
            return []
        seen = {k: [self.q(k)]}
        todo = [k]
        out = []
        blocked = False
        while todo:
            x = todo.pop()
            cs = [c for c in self.callers.get(x, ()) if c != x]
            if not cs:
                out.append((self.q(x), seen[x]))
            for c in cs:
                blocked = blocked or self.q(c) in cut
                if c not in seen and self.q(c) not in cut:
                    seen[c] = [self.q(c)] + seen[x]
                    todo.append(c)
        return out or ([] if blocked else [(self.q(k), [self.q(k)])])


def graph(fam):
    g = Graph(fam.I)
    if len(g.fns) < 100:
        raise AnalysisBroken("only %d functions of src/" % len(g.fns))
    fam.anchors += 1
    for k in g.fns:
        fam.I.visited.add(k)
    return g


def only_through(fam, kind, allowed, rule, per_function=True):
    g = graph(fam)
    for a in allowed:
        fam.fn(a)
    bad = set()
    for k, what, where in g.direct.get(kind, ()):
        rs = g.roots(k, set(allowed))
        for root, path in rs:
            bad.add(root)
            fam.violated(rule, "%s: %s" % (path[-1], what), "at %s, reached by %s" % (where, " -> ".join(path)))
        if not rs:
            fam.ok(rule, "%s in %s" % (what, g.q(k)))
    for k in g.fns:
        if g.q(k) not in bad:
            fam.ok(rule, g.q(k))


@family("console")
def f(fam):
    only_through(fam, "console", ["sub::Reader::warn"], "the library prints nothing but warnings")


@family("exit")
def f(fam):
    only_through(fam, "exit", [], "the library never ends the process")


@family("settings")
def f(fam):
    only_through(fam, "setting", [], "the library changes no setting of the process")


@family("hidden state")
def f(fam):
    only_through(fam, "hidden state", [], "the library uses no function of the C library with hidden state, which threads would share")


@family("other processes and files")
def f(fam):
    only_through(fam, "other", [], "the library runs no programs and removes, renames or makes no files")


@family("reading")
def f(fam):
    only_through(fam, "reading", ["sub::reader_factory"], "only reader_factory opens files to read")


@family("writing")
def f(fam):
    only_through(fam, "writing", ["sub::write_stl_binary"], "only write_stl_binary opens files to write")


@family("exceptions")
def f(fam):
    g = graph(fam)
    rule = "everything thrown is a std::exception"
    if len(g.throws) < 20:
        raise AnalysisBroken("only %d throw expressions" % len(g.throws))
    for k, m, n in g.throws:
        a = n["a"]
        t = None
        while isinstance(a, dict):
            if isinstance(a.get("t"), int):
                t = fam.I.T(m, a["t"])
                if t.get("k") == "rec":
                    break
            a = a.get("a") if isinstance(a.get("a"), dict) else None
        label = "%s: %s" % (g.q(k), (t or {}).get("n") or (t or {}).get("k"))
        if t is None:
            fam.undecided(rule, label, "the type is not known")
        elif t["k"] == "rec" and fam.I.is_a(t["n"], "std::exception"):
            fam.ok(rule, label)
        elif t["k"] == "rec" and t["n"] not in fam.I.rec and not t["n"].startswith("std::"):
            fam.undecided(rule, label, "the class is not known")
        else:
            fam.violated(rule, label, "thrown at %s" % n.get("l"))
