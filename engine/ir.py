"""Loading of the extracted clang AST, interned types, z3 sorts."""
import json, os, subprocess, hashlib, sys
import z3


class Unsupported(Exception):
    """The verifier's fragment does not cover this construct."""


class Type:
    __slots__ = ("k", "n", "args", "e", "const", "bits", "sg", "fp", "isint", "full", "size", "lam", "s")

    def __init__(self, **kw):
        for a in self.__slots__:
            setattr(self, a, kw.get(a))

    def __repr__(self):
        return self.s

    def deref(self):
        return self.e if self.k in ("r",) else self

    @property
    def is_ptr(self):
        return self.k == "p" or (self.k == "c" and self.n in ("std::shared_ptr", "std::unique_ptr"))

    @property
    def pointee(self):
        return self.e if self.k == "p" else self.args[0]


_types = {}


def mk(**kw):
    s = short_of(kw)
    t = _types.get(s)
    if t is None:
        kw["s"] = s
        t = Type(**kw)
        _types[s] = t
    return t


CONT_DROP = {"std::vector": 1, "std::deque": 1, "std::map": 2, "std::unordered_map": 2, "std::set": 1,
             "std::unordered_set": 1, "std::shared_ptr": 1, "std::unique_ptr": 1, "std::list": 1,
             "std::initializer_list": 1, "std::optional": 1, "std::priority_queue": 1, "std::multiset": 1}


def short_of(kw):
    k = kw["k"]
    if k == "b":
        return kw["n"]
    if k == "p":
        return kw["e"].s + "*"
    if k == "r":
        return kw["e"].s + "&"
    if k == "a":
        return kw["e"].s + "[%d]" % kw["size"]
    if k == "e":
        return kw["n"]
    if k == "f":
        return "fn(%s)" % kw.get("full", "")
    if k == "c":
        n = kw["n"]
        if n == "std::basic_string":
            return "string"
        if n.startswith("std::mersenne_twister"):
            return "PRNG"
        a = kw.get("args")
        if kw.get("lam"):
            return "lambda " + kw["full"]
        if a is None:
            return n
        return n.replace("std::", "") + "<" + ",".join(x.s if isinstance(x, Type) else str(x) for x in a) + ">"
    return "?" + str(kw.get("n"))


BOOL = mk(k="b", n="bool", isint=True, bits=8, sg=False)
INT = mk(k="b", n="int", isint=True, bits=32, sg=True)
LONG = mk(k="b", n="long", isint=True, bits=64, sg=True)
SIZE = mk(k="b", n="unsigned long", isint=True, bits=64, sg=False)
CHAR = mk(k="b", n="char", isint=True, bits=8, sg=True)
DOUBLE = mk(k="b", n="double", fp=True)
VOID = mk(k="b", n="void")
STRING = mk(k="c", n="std::basic_string", args=[CHAR], full="std::string")


def vec_t(t):
    return mk(k="c", n="std::vector", args=[t], full="vector")


class Record:
    def __init__(self, name, d):
        self.name = name
        self.d = d
        self.fields = []   # (name, Type, initnode) own fields
        self.bases = []


class Func:
    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.key = d["key"]
        self.q = d["q"]
        self.name = d["n"]
        self.cls = d.get("cls")
        self.rt = d["rt"]
        self.params = d["params"]
        self.body = d["body"]
        self.virt = d.get("virt", False)
        self.over = d.get("over", [])
        self.file = d["file"]
        self.line = d["line"]
        if self.cls is not None and not d.get("lam"):
            self.sname = self.cls.s + "::" + self.name
        else:
            self.sname = self.q
        self.sig = self.sname + "(" + ",".join(p["t"].s for p in self.params) + ")"

    def __repr__(self):
        return self.sig


class Program:
    def __init__(self):
        self.funcs = {}      # fkey -> Func
        self.by_sname = {}   # sname -> [Func]
        self.records = {}    # short type name -> Record
        self.subclasses = {}

    def load(self, data, tu):
        tys = data["types"]
        done = [None] * len(tys)

        def conv(i):
            if i is None or i < 0:
                return VOID
            if done[i] is not None:
                return done[i]
            o = tys[i]
            if o is None:
                t = VOID
            elif o["k"] == "b":
                n = {"_Bool": "bool"}.get(o["n"], o["n"])
                t = mk(k="b", n=n, bits=o.get("bits"), sg=o.get("sg"), fp=o.get("fp"), isint=o.get("int"))
            elif o["k"] in ("p", "r"):
                t = mk(k=o["k"], e=conv(o["e"]), const=None)
            elif o["k"] == "a":
                t = mk(k="a", e=conv(o["e"]), size=o["sz"])
            elif o["k"] == "e":
                t = mk(k="e", n=o["n"])
            elif o["k"] == "c":
                args = None
                if "a" in o:
                    flat = []

                    def add(x):
                        if isinstance(x, list):
                            for y in x:
                                add(y)
                        elif isinstance(x, int):
                            flat.append(conv(x))
                        else:
                            flat.append(str(x.get("int", x)))
                    for x in o["a"]:
                        add(x)
                    args = flat
                    if o["n"] in CONT_DROP:
                        args = args[:CONT_DROP[o["n"]]]
                    if o["n"] == "std::basic_string":
                        args = [CHAR]
                    if o["n"].startswith("std::mersenne"):
                        args = None
                t = mk(k="c", n=o["n"], args=args, full=o["f"], lam=o.get("lam"))
            elif o["k"] == "f":
                t = mk(k="f", n="fn", args=[conv(x) for x in o["a"]], e=conv(o["r"]), full=str(i) + tu)
            else:
                t = mk(k="?", n=o.get("n", "?"))
            done[i] = t
            return t

        def walk(x):
            if isinstance(x, list):
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                for key in ("t", "rt", "cls", "et", "ct", "lt", "base"):
                    if key in x and isinstance(x[key], int) and not (key == "cls" and "k" in x and x["k"] == "unk"):
                        x[key] = conv(x[key])
                if "ta" in x:
                    x["ta"] = [conv(y) if isinstance(y, int) else y for y in x["ta"]]
                for y in x.values():
                    if isinstance(y, (dict, list)):
                        walk(y)
        walk(data["funcs"])
        walk(data["records"])
        for i, o in enumerate(tys):
            if o and o["k"] == "c" and o["f"] in data["records"]:
                t = conv(i)
                d = data["records"][o["f"]]
                if t.s not in self.records:
                    r = Record(t.s, d)
                    r.fields = [(f["n"], f["t"], f.get("init")) for f in d["fields"]]
                    r.bases = [conv(b) if isinstance(b, int) else b for b in d["bases"]]
                    r.type = t
                    r.generic = d["n"]
                    self.records[t.s] = r
        for f in data["funcs"]:
            if f["key"] in self.funcs:
                continue
            fn = Func(f, tu)
            self.funcs[fn.key] = fn
            self.by_sname.setdefault(fn.sname, []).append(fn)

    def find(self, sname, nparams=None, sig=None):
        c = self.by_sname.get(sname, [])
        if sig is not None:
            c = [f for f in c if f.sig == sname + "(" + sig + ")"]
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if len(c) == 0:
            raise Unsupported("function not found: %s" % sname)
        if len(c) > 1:
            raise Unsupported("function ambiguous: %s: %s" % (sname, [f.sig for f in c]))
        return c[0]

    # all fields including inherited, base first
    def all_fields(self, cname):
        r = self.records.get(cname)
        if r is None:
            raise Unsupported("no record " + cname)
        out = []
        for b in r.bases:
            if b.s in self.records:
                out += self.all_fields(b.s)
        out += r.fields
        return out

    def base_chain(self, cname):
        out = [cname]
        r = self.records.get(cname)
        if r:
            for b in r.bases:
                out += self.base_chain(b.s)
        return out


HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CXX = os.environ.get("VERIF_DEV_REPO", "/repo") + "/cxx/"   # VERIF_DEV_REPO: development only


def build_dir():
    d = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
    os.makedirs(d, exist_ok=True)
    return d


def tool():
    """The extractor binary, built from engine/extract.cpp when missing."""
    src = os.path.join(HERE, "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    exe = os.path.join(build_dir(), "extract-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        subprocess.check_call(["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                               "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM.so.18.1"])
        os.rename(tmp, exe)
    return exe


def extract(files, extra_args=()):
    """files: paths relative to /repo/cxx or absolute driver files."""
    exe = tool()
    procs = []
    for f in files:
        p = f if os.path.isabs(f) else CXX + f
        procs.append((f, subprocess.Popen([exe, CXX, p, "-iquote", CXX, *extra_args], stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    prog = Program()
    import threading
    outs = {}

    def rd(f, pr):
        outs[f] = pr.communicate()
    ths = [threading.Thread(target=rd, args=x) for x in procs]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for f, pr in procs:
        o, e = outs[f]
        if pr.returncode != 0:
            raise Unsupported("front end rejects %s: %s" % (f, e.decode()[:2000]))
        prog.load(json.loads(o), f)
    return prog
