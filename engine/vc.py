"""Symbolic executor / verification-condition generator over the extracted AST."""
import sys, itertools
import z3
from ir import *
from sorts import *

sys.setrecursionlimit(20000)


class St:
    __slots__ = ("env", "heap", "pc", "draws")

    def __init__(self, env=None, heap=None, pc=(), draws=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.draws = draws

    def copy(self):
        return St(dict(self.env), dict(self.heap), self.pc, self.draws)

    def with_pc(self, c):
        s = self.copy()
        c = z3.simplify(c)
        if not z3.is_true(c):
            s.pc = self.pc + (c,)
        return s


class Place:
    """root: ('v', fid, did) | ('h', clsname) (first path element then ('ref', r)) ; path tuple of
    ('f', idx) record field, ('i', idx) vec element, ('k', key) map value, ('o',) optional value"""
    __slots__ = ("root", "path", "t")

    def __init__(self, root, path, t):
        self.root, self.path, self.t = root, tuple(path), t

    def ext(self, el, t):
        return Place(self.root, self.path + (el,), t)

    def same(self, o):
        if self.root != o.root or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if a[0] != b[0] or len(a) != len(b):
                return False
            if len(a) > 1:
                if isinstance(a[1], z3.ExprRef) or isinstance(b[1], z3.ExprRef):
                    if not (isinstance(a[1], z3.ExprRef) and isinstance(b[1], z3.ExprRef) and a[1].eq(b[1])):
                        return False
                elif a[1] != b[1]:
                    return False
        return True


class Ref:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class PtrTo:
    """address of a non-heap place; nz: condition under which the pointer is not null"""
    __slots__ = ("p", "nz")

    def __init__(self, p, nz=None):
        self.p, self.nz = p, nz


class Closure:
    __slots__ = ("node", "frame", "this")

    def __init__(self, node, frame, this):
        self.node, self.frame, self.this = node, frame, this


class Iter:
    """iterator: container place or term, kind fwd/rev, index"""
    __slots__ = ("cont", "ct", "idx", "rev", "key")

    def __init__(self, cont, ct, idx, rev=False, key=None):
        self.cont, self.ct, self.idx, self.rev, self.key = cont, ct, idx, rev, key


class IList:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = vals


class Opaque:
    __slots__ = ("kind", "data")

    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data


class Poison:
    def __init__(self, why):
        self.why = why


class FnRef:
    def __init__(self, f):
        self.f = f


def is_term(v):
    return isinstance(v, z3.ExprRef)


class Obl:
    __slots__ = ("name", "kind", "pc", "nfacts", "goal", "where", "unit", "extra", "result", "backend", "secs", "model", "facts")

    def __init__(self, name, kind, pc, nfacts, goal, where):
        self.name, self.kind, self.pc, self.nfacts, self.goal, self.where = name, kind, pc, nfacts, goal, where
        self.result = None
        self.facts = ()
        self.extra = []
        self.model = None


def hyps_of(ex, o):
    """hypotheses of obligation o: global facts, facts in scope, path condition"""
    dead = o.facts or ()
    fs = ex.facts[:o.nfacts]
    if dead:
        fs = [f for i, f in enumerate(fs) if not any(a <= i < b for a, b in dead)]
    return list(ex.globals) + fs + list(o.extra) + list(o.pc)


class LoopCtx:
    def __init__(self):
        self.brk, self.cont = [], []


class Frame:
    _n = 0

    def __init__(self, func, this=None):
        Frame._n += 1
        self.id = Frame._n
        self.func = func
        self.this = this
        self.rets = []
        self.loops = []
        self.parent = None


NOQUIET = object()


class FactList(list):
    """facts in scope order; cutting the tail also cuts the dead ranges that pointed into it"""
    def __init__(self, dead):
        super().__init__()
        self.deadr = dead

    def __delitem__(self, k):
        super().__delitem__(k)
        n = len(self)
        self.deadr[:] = [(a, min(b, n)) for a, b in self.deadr if a < n]


class Exec:
    def __init__(self, prog, contracts=None, opts=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.opts = opts or {}
        self.dead = []
        self.facts = FactList(self.dead)
        self.obls = []
        self.quiet = 0
        self.notes = []
        self.used_contracts = set()
        self.inlined = set()
        self.visited = set()
        self.axioms_used = set()
        self.trusted_spec = set()
        self.depth = 0
        self.ctor_zero = {}
        self.line = 0
        self.loop_inv = None
        self.newborn = {}      # address term -> live-map before its creation
        self.itervars = []     # index of the current iteration of each enclosing loop
        self.havocked = []
        self.step_extra = []
        self.cardseen = {}
        self.cardsorts = set()
        self.globals = []
        self.lens = []
        self.aliases = {}
        self.enumseen = {}
        self.assume_asserts = False

    # ---------------------------------------------------------------- facts
    def fact(self, st, f):
        g = f
        if st is not None and st.pc:
            g = z3.Implies(z3.And(*st.pc), f)
        self.facts.append(g)

    def oblige(self, st, goal, name, kind):
        goal = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if self.quiet:
            self.fact(st, goal)
            return
        if z3.is_true(goal):
            self.obls.append(self._triv(st, name, kind, goal))
            return
        w = "%s:%s" % (self.frames[-1].func.file if self.frames else "", self.line)
        o = Obl(name, kind, st.pc, len(self.facts), goal, w)
        o.extra = list(self.step_extra)
        o.facts = tuple(self.dead)
        self.obls.append(o)
        self.fact(st, goal)

    def _triv(self, st, name, kind, goal):
        o = Obl(name, kind, st.pc, len(self.facts), goal, "%s:%s" % (self.frames[-1].func.file if self.frames else "", self.line))
        o.result = "proved"
        o.backend = "simplifier"
        o.secs = 0
        return o

    frames = []

    @property
    def fr(self):
        return self.frames[-1]

    # ---------------------------------------------------------- container facts
    def card(self, st, c):
        k = z3.simplify(c)
        if z3.is_app(k) and k.decl().kind() == z3.Z3_OP_CONST_ARRAY and (z3.is_false(k.arg(0)) or (is_opt(k.arg(0).sort()) and z3.is_true(z3.simplify(z3.Not(is_some(k.arg(0))))))):
            return z3.IntVal(0)
        n = CARD(c)
        if c.sort().sexpr() not in self.cardsorts:
            self.cardsorts.add(c.sort().sexpr())
            cs = c.sort()
            emp = default(cs)
            self.globals.append(CARD(emp) == 0)
            v, x = fresh("c", cs), fresh("x", cs.domain())
            w = z3.Function("wit_" + an_(cs), cs, cs.domain())(v)
            self.globals.append(z3.ForAll([v], z3.And(CARD(v) >= 0, z3.Implies(CARD(v) > 0, inn(v, w))), patterns=[CARD(v)]))
            self.globals.append(z3.ForAll([v, x], z3.Implies(inn(v, x), CARD(v) > 0), patterns=[z3.MultiPattern(CARD(v), z3.Select(v, x))]))
            b, k, e = fresh("b", cs), fresh("k", cs.domain()), fresh("e", cs.range())
            after = e if e.sort() == B else is_some(e)
            self.globals.append(z3.ForAll([b, k, e], CARD(z3.Store(b, k, e)) == CARD(b) + z3.If(after, 1, 0) - z3.If(inn(b, k), 1, 0), patterns=[CARD(z3.Store(b, k, e))]))
        if c.get_id() not in self.cardseen or self.quiet:
            if not self.quiet:
                self.cardseen[c.get_id()] = c
            self.card_facts(c)
        return n

    def card_facts(self, c):
        n = CARD(c)
        self.facts.append(n >= 0)
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_STORE:
            b, k, v = c.children()
            after = v if v.sort() == B else is_some(v)
            self.facts.append(n == self.card(None, b) + z3.If(after, 1, 0) - z3.If(inn(b, k), 1, 0))
        elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
            self.facts.append(n == z3.If(c.arg(0), self.card(None, c.arg(1)), self.card(None, c.arg(2))))
        # emptiness
        ks = c.sort().domain()
        w = z3.Function("wit_" + an_(c.sort()), c.sort(), ks)(c)
        self.facts.append(z3.Implies(n > 0, inn(c, w)))
        x = fresh("k", ks)
        body = z3.Implies(inn(c, x), n > 0)
        try:
            pat = z3.Select(c, x)
            self.facts.append(z3.ForAll([x], body, patterns=[pat]) if z3.is_const(c) or z3.is_app(c) and c.decl().kind() == z3.Z3_OP_SELECT else z3.ForAll([x], body))
        except z3.Z3Exception:
            self.facts.append(z3.ForAll([x], body))

    def card_update(self, st, c, c2, k, present_after):
        """c2 = c with membership of k set to present_after"""
        a = self.card(st, c)
        b = self.card(st, c2)

    def alias(self, c):
        """a constant equal to the container term c (patterns may not contain binders)"""
        if z3.is_const(c) or (z3.is_app(c) and not any(z3.is_quantifier(x) or z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE for x in subterms([c])) and c.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_UNINTERPRETED)):
            return c
        k = c.get_id()
        if k in self.aliases:
            return self.aliases[k][1]
        a = fresh("cont", c.sort())
        self.aliases[k] = (c, a)
        self.facts.append(a == c)
        q = fresh("q", c.sort().domain())
        self.facts.append(z3.ForAll([q], z3.Select(a, q) == z3.simplify(select(c, q)), patterns=[z3.Select(a, q)]))
        self.facts.append(CARD(a) == self.card(None, c))
        return a

    def enum(self, st, c, ordered):
        c = self.alias(c)
        key = c.get_id()
        e = EN(c)
        n = self.card(st, c)
        if key in self.enumseen and not self.quiet:
            return e, n
        if not self.quiet:
            self.enumseen[key] = c
        i = fresh("i", I)
        k = fresh("k", c.sort().domain())
        self.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(inn(c, e[i]), POS(c, e[i]) == i)), patterns=[e[i]]))
        self.facts.append(z3.ForAll([k], z3.Implies(inn(c, k), z3.And(0 <= POS(c, k), POS(c, k) < n, e[POS(c, k)] == k)), patterns=[POS(c, k), z3.Select(c, k)]))
        if ordered and c.sort().domain() in (I, R):
            j = fresh("j", I)
            self.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), e[i] < e[j]), patterns=[z3.MultiPattern(e[i], e[j])]))
        return e, n

    # -------------------------------------------------------------- places
    def field_idx(self, t, name):
        for i, (f, _) in enumerate(rec_fields(t)):
            if f == name:
                return i
        raise Unsupported("field %s of %s" % (name, t.s))

    def hkey(self, cls, fi):
        """heap component of a field: the topmost base class that has it, so that up- and downcasts see one object"""
        f = rec_fields(cls)[fi][0]
        for b in reversed(self.prog.base_chain(cls.s)):
            if b in self.prog.records and b != cls.s:
                for i, (g, _) in enumerate(rec_fields(self.type_by_name(b))):
                    if g == f:
                        return (b, i)
        return (cls.s, fi)

    def heap_arr(self, st, cls, fi):
        key = self.hkey(cls, fi)
        if key not in st.heap:
            cls = self.type_by_name(key[0])
            f, ft = rec_fields(cls)[key[1]]
            st.heap[key] = z3.Const("heap_%s.%s" % (nm(cls.s), f), z3.ArraySort(I, fsort(ft)))
        return st.heap[key]

    def load(self, st, p):
        if p.root[0] == "h":
            cls = p.root[1]
            r = p.path[0][1]
            if len(p.path) >= 2 and p.path[1][0] == "f":
                v = select(self.heap_arr(st, cls, p.path[1][1]), r)
                rest = p.path[2:]
            else:
                rs = rec_sort(cls)
                v = rs.constructor(0)(*[select(self.heap_arr(st, cls, i), r) for i in range(len(rec_fields(cls)))])
                rest = p.path[1:]
        else:
            if p.root not in st.env:
                raise Unsupported("use of unknown variable %s" % (p.root,))
            v = st.env[p.root]
            rest = p.path
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            if isinstance(v, Ref):
                return self.load(st, Place(v.p.root, v.p.path + tuple(rest), p.t))
        for el in rest:
            v = self.proj(v, el)
        if rest and is_term(v) and is_vec(v.sort()):
            self.lenfact(v)
        return v

    def lenfact(self, v):
        """lengths of vectors stored in containers are not negative"""
        n = vlen(v)
        k = n.get_id()
        self._lenseen = getattr(self, "_lenseen", {})
        if k not in self._lenseen and not z3.is_int_value(n):
            self._lenseen[k] = n
            if len(subterms([n])) < 400:
                self.lens.append(n >= 0)
                self.globals.append(n >= 0)

    def proj(self, v, el):
        if not is_term(v):
            raise Unsupported("projection of %r" % (v,))
        k = el[0]
        if k == "f":
            return sel(v, el[1])
        if k == "i":
            return select(varr(v), el[1])
        if k == "k":
            return oval(select(v, el[1]))
        if k == "o":
            return oval(v)
        raise Unsupported(k)

    def inject(self, v, path, new):
        if not path:
            return new
        el = path[0]
        sub = self.inject(self.proj(v, el), path[1:], new) if len(path) > 1 else new
        k = el[0]
        if k == "f":
            return upd(v, el[1], sub)
        if k == "i":
            return mkvec(v.sort(), vlen(v), z3.Store(varr(v), el[1], sub))
        if k == "k":
            os = v.sort().range()
            return z3.Store(v, el[1], os.constructor(1)(sub))
        if k == "o":
            return v.sort().constructor(1)(sub)
        raise Unsupported(k)

    def store(self, st, p, val):
        if p.root[0] == "h":
            cls = p.root[1]
            r = p.path[0][1]
            if len(p.path) >= 2 and p.path[1][0] == "f":
                fi = p.path[1][1]
                a = self.heap_arr(st, cls, fi)
                st.heap[self.hkey(cls, fi)] = z3.Store(a, r, self.inject(select(a, r), p.path[2:], val))
            else:
                for fi in range(len(rec_fields(cls))):
                    a = self.heap_arr(st, cls, fi)
                    st.heap[self.hkey(cls, fi)] = z3.Store(a, r, sel(val, fi))
            return
        if not p.path:
            cur = st.env.get(p.root)
            if isinstance(cur, Ref):
                return self.store(st, cur.p, val)
            st.env[p.root] = val
            return
        cur = st.env[p.root]
        if isinstance(cur, Ref):
            return self.store(st, Place(cur.p.root, cur.p.path + p.path, p.t), val)
        # place through a map value updates cardinalities only when the key was absent; keys are present by construction
        st.env[p.root] = self.inject(cur, p.path, val)

    def heap_place(self, cls, r):
        return Place(("h", cls), (("ref", r),), cls)

    def fld(self, p, name):
        t = p.t
        i = self.field_idx(t, name)
        ft = rec_fields(t)[i][1]
        return p.ext(("f", i), ft if isinstance(ft, Type) else None)

    def temp(self, st, v, t):
        Frame._n += 1
        key = ("v", "tmp", Frame._n)
        st.env[key] = v
        return Place(key, (), t)

    # ------------------------------------------------------------- merging
    def merge(self, c, a, b, base_pc):
        """state that is a when c, else b"""
        if a is None and b is None:
            return None
        if a is None:
            return b
        if b is None:
            return a
        s = St({}, {}, base_pc)
        for k in a.env:
            if k in b.env:
                s.env[k] = self.mergev(c, a.env[k], b.env[k])
        for k in set(a.heap) | set(b.heap):
            va, vb = a.heap.get(k), b.heap.get(k)
            if va is None or vb is None:
                tmp = St()
                cls = k[0]
                base = None
                t = self.type_by_name(k[0])
                base = self.heap_arr(tmp, t, k[1])
                va = base if va is None else va
                vb = base if vb is None else vb
            s.heap[k] = va if va.eq(vb) else z3.If(c, va, vb)
        da = a.draws
        db = b.draws
        if da == db:
            s.draws = da
        else:
            n = 0
            while n < len(da) and n < len(db) and da[n] is db[n]:
                n += 1
            s.draws = da[:n] + tuple(("ite", c, x) for x in da[n:]) + tuple(("ite", z3.Not(c), x) for x in db[n:])
        return s

    def type_by_name(self, n):
        from ir import _types
        return _types[n]

    def mergev(self, c, a, b):
        if a is b:
            return a
        if is_term(a) and is_term(b):
            if a.eq(b):
                return a
            if a.sort() != b.sort():
                return Poison("merge of different sorts")
            return z3.If(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.p.same(b.p):
            return a
        if isinstance(a, PtrTo) and isinstance(b, PtrTo) and a.p.same(b.p):
            return a
        if isinstance(a, Iter) and isinstance(b, Iter) and a.key is None and b.key is None and a.rev == b.rev:
            if is_term(a.cont) and is_term(b.cont) and a.cont.eq(b.cont) or (isinstance(a.cont, Place) and isinstance(b.cont, Place) and a.cont.same(b.cont)):
                return Iter(a.cont, a.ct, a.idx if a.idx.eq(b.idx) else z3.If(c, a.idx, b.idx), a.rev)
        return Poison("merge of incompatible values")

    def merge_many(self, base_pc, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        n = len(base_pc)
        conds = [z3.And(*s.pc[n:]) if len(s.pc) > n else z3.BoolVal(True) for s in sts]
        res = sts[-1]
        for s, c in list(zip(sts, conds))[-2::-1]:
            res = self.merge(c, s, res, base_pc)
        res = res.copy()
        allc = z3.simplify(z3.Or(*conds))
        res.pc = base_pc if z3.is_true(allc) else base_pc + (allc,)
        return res

    # ---------------------------------------------------------- statements
    def block(self, ss, st):
        for s in ss:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if s is None:
            return st
        self.line = s.get("l", self.line)
        self.visited.add((self.fr.func.key, self.line))
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported("statement %s (%s)" % (k, s.get("cls")))
        return m(s, st)

    def s_null(self, s, st):
        return st

    def s_expr(self, s, st):
        self.eval(s["e"], st)
        if st.pc and any(z3.is_false(c) for c in st.pc):
            return None
        return st

    def s_block(self, s, st):
        return self.block(s["c"], st)

    def s_try(self, s, st):
        return self.stmt(s["body"], st)

    def s_decl(self, s, st):
        for d in s["c"]:
            self.declare(d, st)
        return st

    def declare(self, d, st):
        if d.get("slocal"):
            # static local: initialised once; treat constants only
            pass
        if d["k"] == "decomp":
            return self.decomp(d, st)
        t = d["t"]
        key = ("v", self.fr.id, d["d"])
        if t.k == "r":
            st.env[key] = self.bind_ref(d["init"], st, t.e)
            return
        init = d.get("init")
        if init is None:
            try:
                st.env[key] = fresh(d["n"], sort(t))
            except Unsupported:
                st.env[key] = Poison("uninitialised " + d["n"])
            return
        v = self.conv(self.eval(init, st), t, st)
        st.env[key] = v

    def bind_ref(self, node, st, t):
        """value for a reference variable bound to expression node"""
        p = self.try_lval(node, st)
        if p is not None:
            if isinstance(p, Place):
                return Ref(p)
            return p
        v = self.eval(node, st)
        if isinstance(v, Ref):
            return v
        if is_term(v) or isinstance(v, IList):
            v = self.conv(v, t, st)
            return Ref(self.temp(st, v, t))
        return v

    def decomp(self, d, st):
        t = d["t"]
        p = None
        if t.k == "r":
            r = self.bind_ref(d["init"], st, t.e)
            if isinstance(r, Ref):
                p = r.p
            else:
                p = self.temp(st, r, t.e)
        else:
            v = self.eval(d["init"], st)
            if isinstance(v, Ref):
                v = self.load(st, v.p)
            p = self.temp(st, v, t)
        self.bind_parts(d, p, st)

    def bind_parts(self, d, p, st):
        for i, b in enumerate(d["b"]):
            r = Ref(p.ext(("f", i), b["t"].deref()))
            st.env[("v", self.fr.id, b["d"])] = r
            if "hv" in b:
                st.env[("v", self.fr.id, b["hv"])] = r

    def s_ret(self, s, st):
        fr = self.fr
        v = None
        if s.get("e") is not None:
            rt = fr.func.rt
            if rt.k == "r":
                v = self.bind_ref(s["e"], st, rt.e)
                if isinstance(v, Ref):
                    pass
            else:
                v = self.eval(s["e"], st)
                if isinstance(v, Ref):
                    v = self.load(st, v.p)
                if rt.s != "void":
                    v = self.conv(v, rt, st)
        if st.pc and any(z3.is_false(c) for c in st.pc):
            return None
        fr.rets.append((st, v))
        return None

    def s_if(self, s, st):
        if s.get("init"):
            st = self.stmt(s["init"], st)
        if s.get("cv"):
            self.declare(s["cv"], st)
        c = self.truth(self.eval(s["e"], st), st)
        c = self.decide(z3.simplify(c), st)
        if st.pc and any(z3.is_false(x) for x in st.pc):
            return None
        if z3.is_true(c):
            return self.stmt(s["then"], st)
        if z3.is_false(c):
            return self.stmt(s["else"], st) if s.get("else") else st
        base = st.pc
        a = self.stmt(s["then"], st.with_pc(c))
        b = st.with_pc(z3.Not(c))
        if s.get("else"):
            b = self.stmt(s["else"], b)
        if a is None or b is None:
            return a if b is None else b
        # extra path facts accumulated in the branches are kept as implications
        for x, g in ((a, c), (b, z3.Not(c))):
            for e in x.pc[len(base) + 1:]:
                self.facts.append(z3.Implies(z3.And(*base, g), e) if False else z3.BoolVal(True))
        m = self.merge(c, a, b, base)
        ea = a.pc[len(base):]
        eb = b.pc[len(base):]
        if len(ea) > 1 or len(eb) > 1:
            m.pc = base + (z3.simplify(z3.Or(z3.And(*ea), z3.And(*eb))),)
        return m

    def decide(self, c, st):
        """a branch condition settled by the quantifier-free facts at hand is replaced by its value (option prune)"""
        if not self.opts.get("prune") or z3.is_true(c) or z3.is_false(c):
            return c
        s = z3.Solver()
        s.set("timeout", 150)
        for i, f in enumerate(self.facts):
            if not any(a <= i < b for a, b in self.dead) and not self.hasq(f):
                s.add(f)
        s.add(*st.pc, *self.lens)
        for g, r in ((c, z3.BoolVal(False)), (z3.Not(c), z3.BoolVal(True))):
            s.push()
            s.add(g)
            if s.check() == z3.unsat:
                return r
            s.pop()
        return c

    def hasq(self, f):
        k = f.get_id()
        self._hasq = getattr(self, "_hasq", {})
        if k not in self._hasq:
            self._hasq[k] = (f, any(z3.is_quantifier(x) for x in subterms([f])))
        return self._hasq[k][1]

    def s_break(self, s, st):
        self.fr.loops[-1].brk.append(st)
        return None

    def s_continue(self, s, st):
        self.fr.loops[-1].cont.append(st)
        return None

    def s_switch(self, s, st):
        v = self.eval(s["e"], st)
        body = s["body"]["c"] if s["body"]["k"] == "block" else [s["body"]]
        # collect arms
        arms = []
        cur = None

        def add(x):
            nonlocal cur
            if x["k"] in ("case", "default"):
                labels = []
                y = x
                while y is not None and y["k"] in ("case", "default"):
                    labels.append(y)
                    y = y["body"]
                cur = [labels, [y]]
                arms.append(cur)
            elif cur is not None:
                cur[1].append(x)
        for x in body:
            add(x)
        base = st.pc
        lc = LoopCtx()
        self.fr.loops.append(lc)
        prev = None
        rest = st
        outs = []
        dflt = None
        negs = []
        carried = None
        allv = []
        for labels, ss in arms:
            for l in labels:
                if l["k"] == "case":
                    allv.append(self.eval(l["e"], st))
        for labels, ss in arms:
            conds = []
            for l in labels:
                if l["k"] == "case":
                    conds.append(v == self.eval(l["e"], st))
                else:
                    conds.append(z3.And(*[v != w for w in allv]) if allv else z3.BoolVal(True))
            c = z3.Or(*conds)
            s1 = st.with_pc(c)
            if carried is not None:
                s1 = self.merge_many(base, [s1, carried])
            carried = self.block(ss, s1)
        self.fr.loops.pop()
        hasd = any(l["k"] == "default" for ls, _ in arms for l in ls)
        outs = lc.brk + ([carried] if carried is not None else [])
        if not hasd:
            outs.append(st.with_pc(z3.And(*[v != w for w in allv])))
        return self.merge_many(base, outs)

    # ---- loops: in loops.py
    def s_for(self, s, st):
        if s.get("init"):
            st = self.stmt(s["init"], st)
        return self.loop(st, s.get("e"), s.get("inc"), s["body"], None, s)

    def s_while(self, s, st):
        if s.get("cv"):
            raise Unsupported("while condition variable")
        return self.loop(st, s.get("e"), None, s["body"], None, s)

    def s_do(self, s, st):
        raise Unsupported("do loop")

    def s_frange(self, s, st):
        return self.range_loop(s, st)

    # ---------------------------------------------------------- expressions
    def eval(self, e, st):
        if e is None:
            return None
        if "l" in e:
            self.line = e["l"]
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression %s (%s)" % (e["k"], e.get("cls")))
        v = m(e, st)
        if isinstance(v, Ref):
            v = self.load(st, v.p)
        return v

    def try_lval(self, e, st):
        """Place for an lvalue expression, else None (prvalue)."""
        k = e["k"]
        if k == "var":
            key = self.varkey(e, st)
            if key is None:
                return None
            v = st.env.get(key)
            if isinstance(v, Ref):
                return v.p
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            if v is not None and not is_term(v):
                return Place(key, (), e["t"]) if isinstance(v, (Iter, PtrTo, Opaque)) else None
            return Place(key, (), e["t"])
        if k == "mem":
            if e.get("static"):
                return None
            b = e["c"][0]
            if e["arrow"]:
                p = self.deref(self.eval(b, st), b["t"], st)
            else:
                p = self.try_lval(b, st)
                if p is None:
                    v = self.eval(b, st)
                    if isinstance(v, Iter) or not is_term(v):
                        return None
                    p = self.temp(st, v, b["t"])
            if not isinstance(p, Place):
                return None
            return self.member(p, e, st)
        if k == "un" and e["op"] == "*":
            v = self.eval(e["c"][0], st)
            return self.deref(v, e["c"][0]["t"], st)
        if k == "un" and e["op"] in ("++", "--") and not e["post"]:
            self.eval(e, st)
            return self.try_lval(e["c"][0], st)
        if k == "this":
            return None
        if k == "idx":
            b = self.try_lval(e["c"][0], st)
            i = self.eval(e["c"][1], st)
            if b is None:
                b = self.temp(st, self.eval(e["c"][0], st), e["c"][0]["t"])
            v = self.load(st, b)
            self.oblige(st, z3.And(0 <= i, i < vlen(v)), "array index in range", "safety")
            return b.ext(("i", i), e["t"])
        if k == "cast" and e["ck"] in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
            return self.try_lval(e["c"][0], st)
        if k in ("opcall", "mcall", "call"):
            v = getattr(self, "e_" + k)(e, st)
            if isinstance(v, Ref):
                return v.p
            if e.get("lv") and is_term(v):
                return self.temp(st, v, e["t"])
            if v is None:
                return self.temp(st, z3.IntVal(0), e["t"])
            try:
                tt = e["t"]
                if is_term(v) or isinstance(v, (Iter, PtrTo, Opaque, Closure)):
                    return self.temp(st, v, tt)
            except Unsupported:
                pass
            raise Unsupported("call result %r as place" % (v,))
        if k in ("bin",) and e["op"] in ("=",) or k == "cas":
            self.eval(e, st)
            return self.try_lval(e["c"][0], st)
        if k == "cond" and e.get("lv"):
            a = None
        return None

    def varkey(self, e, st):
        fr = self.fr
        f = fr
        while f is not None:
            key = ("v", f.id, e["d"])
            if key in st.env:
                return key
            f = f.parent
        if e.get("glob"):
            return None
        raise Unsupported("unknown variable " + e["n"])

    def member(self, p, e, st):
        t = p.t.deref() if p.t is not None else None
        if t is not None and t.k == "c" and t.n == "std::pair":
            i = {"first": 0, "second": 1}[e["n"]]
            return p.ext(("f", i), t.args[i])
        # dynamic place may be of a derived class: fields are flattened by name
        return self.fld(p, e["n"])

    def deref(self, v, t, st):
        """Place for *v"""
        t = t.deref()
        if isinstance(v, PtrTo):
            if v.nz is not None:
                self.oblige(st, v.nz, "pointer dereferenced is not null", "safety")
            return v.p
        if isinstance(v, Iter):
            return self.iter_place(v, st)
        if isinstance(v, Place):
            return v
        if isinstance(v, Opaque) and v.kind == "this":
            return v.data
        if t.is_ptr:
            pt = t.pointee
            if pt.s == "PRNG":
                return Opaque("prng")
            if not is_term(v):
                raise Unsupported("deref of %r" % (v,))
            self.oblige(st, v != 0, "pointer dereferenced is not null", "safety")
            return self.heap_place(self.heap_class(pt), v)
        if t.k == "c" and t.n == "std::optional":
            raise Unsupported("optional deref of rvalue")
        raise Unsupported("deref of type %s" % t.s)

    def heap_class(self, t):
        return t

    def iter_place(self, it, st):
        c = it.cont
        if isinstance(c, Place):
            cv = self.load(st, c)
        else:
            cv = c
        ct = it.ct
        if it.key is not None:
            k = it.key
        elif is_seq(ct):
            i = it.idx if not it.rev else vlen(cv) - 1 - it.idx
            self.oblige(st, z3.And(0 <= i, i < vlen(cv)), "iterator dereference in range", "safety")
            if isinstance(c, Place):
                return c.ext(("i", i), elem_t(ct))
            return self.temp(st, select(varr(cv), i), elem_t(ct))
        else:
            cv = self.alias(cv)
            e, n = self.enum(st, cv, ct.n in ("std::map", "std::set"))
            i = it.idx if not it.rev else n - 1 - it.idx
            self.oblige(st, z3.And(0 <= i, i < n), "iterator dereference in range", "safety")
            k = e[i]
            self.fact(st, z3.And(inn(cv, k), POS(cv, k) == i))
        if is_set(ct):
            return self.temp(st, k, ct.args[0])
        # map: a pair place (key, ref to value)
        return self.pair_place(st, k, c.ext(("k", k), ct.args[1]) if isinstance(c, Place) else None, oval(select(cv, k)), ct)

    def pair_place(self, st, k, vplace, v, ct):
        ps = tup_sort([sort(ct.args[0]), sort(ct.args[1])])
        pt = mk(k="c", n="std::pair", args=[ct.args[0], ct.args[1]], full="pair")
        p = self.temp(st, ps.constructor(0)(k, v), pt)
        if vplace is None:
            return p
        return PairPlace(p, vplace, ct)

    # --- literals
    def e_int(self, e, st):
        t = e["t"].deref()
        return z3.IntVal(int(e["v"]))

    def e_flt(self, e, st):
        from fractions import Fraction
        f = Fraction(float(e["v"]))
        # decimal literal taken as its decimal value
        try:
            f = Fraction(e["v"])
        except Exception:
            pass
        return z3.RealVal(f)

    def e_bool(self, e, st):
        return z3.BoolVal(e["v"])

    def e_str(self, e, st):
        v = e.get("v")
        if v is None:
            raise Unsupported("string literal")
        return self.strlit(v)

    def strlit(self, v):
        s = vec_sort(I)
        a = z3.K(I, z3.IntVal(0))
        for i, ch in enumerate(v.encode()):
            if ch != 0:
                a = z3.Store(a, i, ch)
        return s.constructor(0)(z3.IntVal(len(v.encode())), a)

    def e_null(self, e, st):
        return z3.IntVal(0)

    def e_zero(self, e, st):
        return default(sort(e["t"]))

    def e_this(self, e, st):
        fr = self.fr
        while fr is not None and fr.this is None:
            fr = fr.parent
        return PtrTo(fr.this)

    def e_var(self, e, st):
        key = self.varkey(e, st)
        if key is None:
            if e.get("init") is not None:
                return self.conv(self.eval(e["init"], st), e["t"], st)
            g = e["glob"]
            if g in ("std::cout", "std::cerr", "std::clog"):
                return Opaque("ostream")
            return z3.Const("global_" + g, sort(e["t"]))
        v = st.env[key]
        if isinstance(v, Ref):
            if isinstance(v.p, PairPlace):
                return v.p.value(self, st)
            return self.load(st, v.p)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def e_mem(self, e, st):
        if e.get("static"):
            if e.get("init"):
                return self.conv(self.eval(e["init"], st), e["t"], st)
            raise Unsupported("static member")
        p = self.try_lval(e, st)
        if p is None:
            b = self.eval(e["c"][0], st)
            raise Unsupported("member of %r" % (b,))
        return self.load(st, p)

    def e_fn(self, e, st):
        return FnRef(e["f"])

    def e_lambda(self, e, st):
        fr = self.fr
        this = fr.this
        # by-value captures: snapshot
        cl = Closure(e, fr, this)
        caps = {}
        for c in e["caps"]:
            if "d" in c and not c["byref"]:
                try:
                    caps[c["d"]] = self.e_var({"k": "var", "d": c["d"], "n": c["n"], "t": VOID}, st)
                except Unsupported:
                    pass
        cl.node = dict(e)
        cl.node["capvals"] = caps
        return cl

    def e_idx(self, e, st):
        return self.load(st, self.try_lval(e, st))

    def e_stdinit(self, e, st):
        return self.eval(e["c"][0], st)

    def e_ilist(self, e, st):
        vals = [self.eval(x, st) for x in e["c"]]
        t = e["t"].deref()
        if t.k == "c" and t.s in self.prog.records:
            return self.conv(IList(vals), t, st)
        if is_seq(t) or t.k == "a":
            return self.conv(IList(vals), t, st)
        if len(vals) == 1 and (t.k in ("b", "p", "e")):
            return vals[0]
        if not vals and t.k in ("b", "p", "e"):
            return default(sort(t))
        if t.k == "c" and t.n in ("std::pair", "std::tuple"):
            return self.conv(IList(vals), t, st)
        return IList(vals)

    def e_assert(self, e, st):
        c = self.truth(self.eval(e["c"][0], st), st)
        if z3.is_false(z3.simplify(c)):
            self.oblige(st, z3.BoolVal(False), "assert(false) unreachable", "assert")
            st.pc = st.pc + (z3.BoolVal(False),)
            return None
        if self.opts.get("skip_float_assert") and self.has_real(c):
            self.notes.append("floating-point equality assert at line %s checked in real arithmetic only" % self.line)
        self.oblige(st, c, "assert holds", "assert")
        return None

    def e_throw(self, e, st):
        self.oblige(st, z3.BoolVal(False), "throw unreachable", "assert")
        st.pc = st.pc + (z3.BoolVal(False),)
        return None

    def e_new(self, e, st):
        t = e["et"]
        init = e["c"][0]
        if t.k == "c" and t.s in self.prog.records:
            r = self.alloc(st)
            p = self.heap_place(t, r)
            if init is not None and init["k"] == "ctor":
                self.construct(init, st, p)
            else:
                self.store(st, p, self.default_obj(t, st))
            return r
        raise Unsupported("new " + t.s)

    def alloc(self, st):
        r = fresh("new", I)
        self.facts.append(r > 0)
        a = st.heap.get("$alloc")
        self.allocs = getattr(self, "allocs", [])
        for q in self.allocs:
            self.facts.append(r != q)
        self.allocs.append(r)
        for f in getattr(self, "alloc_hooks", []):
            f(self, st, r)
        return r

    def per_iter(self, name, srt):
        """an arbitrary value, chosen anew in every iteration of the enclosing loops"""
        if not self.itervars:
            return fresh(name, srt)
        memo = self.__dict__.setdefault("_periter", {})
        k = (name, tuple(n for n, _ in self.itervars))
        if k not in memo:
            memo[k] = z3.Function(name + "@%d" % (len(memo),), *([I] * len(self.itervars)), srt)
        return memo[k](*[v for _, v in self.itervars])

    def e_del(self, e, st):
        v = self.eval(e["c"][0], st)
        t = e["c"][0]["t"].deref()
        if self.opts.get("live") and t.is_ptr and is_term(v):
            pt = t.pointee
            if pt.s in self.prog.records and any(f == "live" for f, _ in rec_fields(pt)):
                p = self.fld(self.heap_place(pt, v), "live")
                self.oblige(st, self.load(st, p), "the object deleted exists", "safety")
                for i, (f, ft) in enumerate(rec_fields(pt)):
                    # an object created here and deleted again leaves no trace; its memory is no longer observable
                    k = self.hkey(pt, i)
                    a = st.heap.get(k)
                    born = self.newborn.get(v.get_id())
                    if f != "live" and a is not None and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and a.arg(1).eq(v):
                        st.heap[k] = a.arg(0)
                    elif f == "live":
                        if a is not None and born is not None and a.decl().kind() == z3.Z3_OP_STORE and a.arg(1).eq(v) and a.arg(0).eq(born[1]):
                            st.heap[k] = a.arg(0)
                        else:
                            self.store(st, p, z3.BoolVal(False))
        return None

    def e_cond(self, e, st):
        c = self.truth(self.eval(e["c"][0], st), st)
        c = self.decide(z3.simplify(c), st)
        if z3.is_true(c):
            return self.eval(e["c"][1], st)
        if z3.is_false(c):
            return self.eval(e["c"][2], st)
        a = st.with_pc(c)
        b = st.with_pc(z3.Not(c))
        va = self.eval(e["c"][1], a)
        vb = self.eval(e["c"][2], b)
        self.join(st, c, a, b)
        if va is None and vb is None:
            return None
        return self.mergev(c, va, vb)

    def join(self, st, c, a, b):
        """st := merge(a,b), in place"""
        base = st.pc
        m = self.merge(c, a, b, base)
        st.env.clear()
        st.env.update(m.env)
        # variables created in only one branch (temporaries)
        for x in (a, b):
            for k, v in x.env.items():
                if k not in st.env:
                    st.env[k] = v
        st.heap.clear()
        st.heap.update(m.heap)
        st.draws = m.draws
        ea, eb = a.pc[len(base):], b.pc[len(base):]
        if any(z3.is_false(x) for x in ea) and not any(z3.is_false(x) for x in eb):
            st.pc = b.pc
        elif any(z3.is_false(x) for x in eb) and not any(z3.is_false(x) for x in ea):
            st.pc = a.pc

    def truth(self, v, st):
        if isinstance(v, Ref):
            v = self.load(st, v.p)
        if isinstance(v, PtrTo) and v.nz is not None:
            return v.nz
        if isinstance(v, (PtrTo, Closure)):
            return z3.BoolVal(True)
        if not is_term(v):
            raise Unsupported("truth of %r" % (v,))
        if v.sort() == B:
            return v
        if v.sort() == I:
            return v != 0
        if v.sort() == R:
            return v != 0
        if is_opt(v.sort()):
            return is_some(v)
        raise Unsupported("truth of sort %s" % v.sort())

    def toint(self, v):
        if v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def toreal(self, v):
        if v.sort() == R:
            return v
        v = self.toint(v)
        if z3.is_int_value(v):
            return z3.RealVal(v.as_long())
        return z3.ToReal(v)

    def wrapu(self, v, t, st):
        """value of v converted to the unsigned type t (v may be negative)"""
        m = 1 << (t.bits or 64)
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return z3.IntVal(v.as_long() % m)
        return z3.If(v >= 0, v, v + m)

    def e_cast(self, e, st):
        ck = e["ck"]
        sub = e["c"][0]
        t = e["t"].deref()
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "NoOp", "BitCast", "LValueToRValue"):
            if e["t"].is_ptr or e.get("lv") is None:
                v = self.eval(sub, st)
                return v
            return self.eval(sub, st)
        if ck == "ToVoid":
            self.eval(sub, st)
            return None
        v = self.eval(sub, st)
        if ck == "IntegralToFloating":
            return self.toreal(v)
        if ck == "FloatingCast":
            return v
        if ck == "FloatingToIntegral":
            tr = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            if t.n == "bool":
                return v != 0
            self.notes.append("float-to-int conversion")
            return self.wrapu(tr, t, st) if t.sg is False else tr
        if ck == "IntegralCast":
            if t.n == "bool":
                return self.truth(v, st)
            v = self.toint(v)
            ft = sub["t"].deref()
            if t.k == "b" and t.sg is False and (ft.k != "b" or ft.sg or (ft.bits or 0) > (t.bits or 0)):
                if ft.k == "b" and ft.n == "bool":
                    return v
                return self.wrapu(v, t, st)
            if t.k == "b" and t.sg and t.bits == 8 and not (z3.is_int_value(v)):
                # narrowing to char: value must fit (checked)
                if ft.bits and ft.bits > 8:
                    self.oblige(st, z3.And(v >= -128, v <= 127), "narrowing to char keeps the value", "safety")
            return v
        if ck == "BooleanToSignedIntegral":
            return self.toint(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.truth(v, st)
        if ck == "NullToPointer":
            return z3.IntVal(0)
        if ck == "Dependent":
            return v
        if ck == "ReinterpretMemberPointer":
            raise Unsupported(ck)
        raise Unsupported("cast " + ck)

    def e_un(self, e, st):
        op = e["op"]
        sub = e["c"][0]
        if op == "&":
            p = self.try_lval(sub, st)
            if p is None:
                raise Unsupported("address of rvalue")
            if isinstance(p, Place) and p.root[0] == "h" and len(p.path) == 1:
                return p.path[0][1]
            return PtrTo(p)
        if op == "*":
            p = self.try_lval(e, st)
            if isinstance(p, Opaque):
                return p
            if isinstance(p, PairPlace):
                return p.value(self, st)
            return self.load(st, p)
        if op in ("++", "--"):
            p = self.try_lval(sub, st)
            if p is None:
                raise Unsupported("++ on rvalue")
            v = self.load(st, p)
            if isinstance(v, Iter):
                d = 1 if op == "++" else -1
                nv = Iter(v.cont, v.ct, v.idx + d, v.rev)
            else:
                one = z3.RealVal(1) if v.sort() == R else z3.IntVal(1)
                nv = v + one if op == "++" else v - one
                t = sub["t"].deref()
                if op == "--" and t.k == "b" and t.isint and t.sg is False:
                    nv = self.wrapu(nv, t, st)
            self.store(st, p, nv)
            return v if e["post"] else nv
        v = self.eval(sub, st)
        if op == "!":
            return z3.Not(self.truth(v, st))
        if op == "-":
            v = self.toint(v)
            return -v
        if op == "+":
            return self.toint(v)
        raise Unsupported("unary " + op)

    def e_bin(self, e, st):
        op = e["op"]
        a, b = e["c"]
        if op == ",":
            self.eval(a, st)
            return self.eval(b, st)
        if op in ("&&", "||"):
            va = z3.simplify(self.truth(self.eval(a, st), st))
            if z3.is_true(va):
                return self.truth(self.eval(b, st), st) if op == "&&" else va
            if z3.is_false(va):
                return va if op == "&&" else self.truth(self.eval(b, st), st)
            g = va if op == "&&" else z3.Not(va)
            s1 = st.with_pc(g)
            vb = self.truth(self.eval(b, s1), s1)
            s2 = st.with_pc(z3.Not(g))
            self.join(st, g, s1, s2)
            return z3.And(va, vb) if op == "&&" else z3.Or(va, vb)
        if op == "=":
            # right operand first (C++17)
            vb = self.eval(b, st)
            p = self.try_lval(a, st)
            if p is None:
                raise Unsupported("assignment target")
            if not is_term(vb) and not isinstance(vb, (Iter, PtrTo)):
                vb = self.conv(vb, a["t"].deref(), st)
            elif is_term(vb):
                vb = self.conv(vb, a["t"].deref(), st)
            self.store(st, p, vb)
            return vb
        va = self.eval(a, st)
        vb = self.eval(b, st)
        return self.binop(op, va, vb, e["t"].deref(), st, a["t"].deref())

    def binop(self, op, va, vb, t, st, at=None):
        if isinstance(va, Iter) or isinstance(vb, Iter):
            return self.iter_op(op, va, vb, st)
        if isinstance(va, PtrTo) or isinstance(vb, PtrTo):
            if op in ("==", "!="):
                if isinstance(va, PtrTo) and isinstance(vb, PtrTo):
                    r = z3.BoolVal(va.p.same(vb.p))
                else:
                    r = z3.BoolVal(False)
                return r if op == "==" else z3.Not(r)
            raise Unsupported("pointer op")
        if op in ("==", "!="):
            if va.sort() != vb.sort():
                if va.sort() == R or vb.sort() == R:
                    va, vb = self.toreal(va), self.toreal(vb)
                else:
                    va, vb = self.toint(va), self.toint(vb)
            r = va == vb
            return r if op == "==" else z3.Not(r)
        if op in ("&", "|", "^"):
            ba, bb = self.flag(va), self.flag(vb)
            if ba is not None and bb is not None:
                r = z3.And(ba, bb) if op == "&" else z3.Or(ba, bb) if op == "|" else z3.Xor(ba, bb)
                return z3.If(r, z3.IntVal(1), z3.IntVal(0))
        va, vb = self.toint(va), self.toint(vb)
        if va.sort() != vb.sort():
            va, vb = self.toreal(va), self.toreal(vb)
        uns = t.k == "b" and t.isint and t.sg is False and t.n != "bool"
        if op == "+":
            return va + vb
        if op == "-":
            r = va - vb
            return self.wrapu(r, t, st) if uns else r
        if op == "*":
            return va * vb
        if op == "/":
            if va.sort() == R:
                if not self.opts.get("no_div_check"):
                    self.oblige(st, vb != 0, "division by non-zero", "arith")
                return va / vb
            self.oblige(st, vb != 0, "integer division by non-zero", "safety")
            if uns:
                return va / vb
            q = va / vb
            return z3.If(z3.Or(va >= 0, va % vb == 0), q, z3.If(vb > 0, q + 1, q - 1))
        if op == "%":
            self.oblige(st, vb != 0, "modulo by non-zero", "safety")
            if uns:
                return va % vb
            m = va % vb
            return z3.If(z3.Or(va >= 0, m == 0), m, m - z3.If(vb > 0, vb, -vb))
        if op == "<":
            return va < vb
        if op == "<=":
            return va <= vb
        if op == ">":
            return va > vb
        if op == ">=":
            return va >= vb
        if op in ("&", "|", "^", "<<", ">>"):
            f = z3.Function("bit" + {"&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr"}[op], I, I, I)
            return f(va, vb)
        raise Unsupported("binary " + op)

    def flag(self, v):
        """the truth value behind an operand promoted from bool"""
        if v.sort() == B:
            return v
        v = z3.simplify(v) if not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE) else v
        if z3.is_int_value(v) and v.as_long() in (0, 1):
            return z3.BoolVal(v.as_long() == 1)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)) and v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0:
            return v.arg(0)
        return None

    def e_cas(self, e, st):
        a, b = e["c"]
        vb = self.eval(b, st)
        p = self.try_lval(a, st)
        va = self.load(st, p)
        if isinstance(va, Iter):
            d = vb if e["op"] == "+" else -vb
            self.store(st, p, Iter(va.cont, va.ct, va.idx + d, va.rev))
            return va
        t = a["t"].deref()
        ct = e["ct"].deref()
        if ct.fp:
            x = self.toreal(va)
            r = self.binop(e["op"], x, self.toreal(vb), ct, st)
            if not t.fp:
                tr = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
                r = tr
                self.notes.append("compound assignment truncates a floating value to %s at line %s" % (t.s, self.line))
        else:
            r = self.binop(e["op"], self.toint(va) if is_term(va) else va, self.toint(vb), ct, st)
            if t.fp:
                r = self.toreal(r)
            elif t.n == "bool" and r.sort() == I:
                q = self.flag(r)
                r = q if q is not None else r != 0
        self.store(st, p, r)
        return r

    # conversion of a value to the sort of type t
    def conv(self, v, t, st):
        t = t.deref()
        if isinstance(v, Ref):
            v = self.load(st, v.p)
        if isinstance(v, IList):
            return self.from_ilist(v, t, st)
        if not is_term(v):
            return v
        try:
            s = sort(t)
        except Unsupported:
            return v
        if v.sort() == s:
            return v
        if s == R:
            return self.toreal(v)
        if s == I and v.sort() == B:
            return self.toint(v)
        if s == B and v.sort() == I:
            return v != 0
        if is_opt(s) and v.sort() == s.accessor(1, 0).range():
            return s.constructor(1)(v)
        if t.k == "c" and t.n == "std::variant":
            cands = [i for i, a in enumerate(t.args) if sort(a) == v.sort()]
            if len(cands) == 1:
                return self.mkvariant(t, cands[0], v)
        if is_vec(s) and is_vec(v.sort()):
            return v
        if t.k == "c" and t.n in ("std::tuple", "std::pair") and is_rec(v.sort()):
            c = s.constructor(0)
            return c(*[self.conv(sel(v, i), t.args[i], st) for i in range(c.arity())])
        if (is_map(t) or is_set(t)) and is_vec(v.sort()):
            n = z3.simplify(vlen(v))
            if z3.is_int_value(n):
                return self.from_ilist(IList([select(varr(v), z3.IntVal(i)) for i in range(n.as_long())]), t, st)
        raise Unsupported("convert %s to %s" % (v.sort(), t.s))

    def mkvariant(self, t, i, v):
        s = sort(t)
        c = s.constructor(0)
        return c(z3.IntVal(i), *[v if j == i else default(c.domain(j + 1)) for j in range(len(t.args))])

    def from_ilist(self, v, t, st):
        s = sort(t)
        if is_seq(t):
            a = z3.K(I, default(s.accessor(0, 1).range().range()))
            for i, x in enumerate(v.vals):
                a = z3.Store(a, i, self.conv(x, elem_t(t), st))
            n = len(v.vals)
            if t.k == "a":
                n = t.size
            return s.constructor(0)(z3.IntVal(n), a)
        if t.k == "c" and t.n in ("std::pair", "std::tuple"):
            return s.constructor(0)(*[self.conv(x, t.args[i], st) for i, x in enumerate(v.vals)])
        if is_set(t):
            c = z3.K(s.domain(), z3.BoolVal(False))
            for x in v.vals:
                c = self.set_insert(st, c, self.conv(x, t.args[0], st))
            return c
        if is_map(t):
            c = default(s)
            for x in v.vals:
                if isinstance(x, IList):
                    kk, vv = x.vals
                else:
                    kk, vv = sel(x, 0), sel(x, 1)
                c = self.map_put(st, c, self.conv(kk, t.args[0], st), self.conv(vv, t.args[1], st))
            return c
        if t.k == "c" and t.s in self.prog.records:
            fs = rec_fields(t)
            vals = []
            for i, (f, ft) in enumerate(fs):
                if i < len(v.vals) and v.vals[i] is not None:
                    vals.append(self.conv(v.vals[i], ft, st))
                else:
                    vals.append(default(fsort(ft)))
            return s.constructor(0)(*vals)
        if len(v.vals) == 1:
            return self.conv(v.vals[0], t, st)
        if not v.vals:
            return default(s)
        raise Unsupported("initializer list for " + t.s)

    def set_insert(self, st, c, k):
        c2 = z3.Store(c, k, z3.BoolVal(True))
        self.card_update(st, c, c2, k, True)
        return c2

    def map_put(self, st, c, k, v):
        c2 = z3.Store(c, k, c.sort().range().constructor(1)(v))
        self.card_update(st, c, c2, k, True)
        return c2

    # ---------------------------------------------------------------- calls
    def e_ctor(self, e, st):
        return self.ctor_value(e, st)

    def default_obj(self, t, st):
        """default member initialisation of a record"""
        fs = rec_fields(t)
        vals = []
        inits = {}
        for f, ft, init in self.prog.all_fields(t.s):
            inits[f] = (ft, init)
        fr = Frame(DummyFunc, None)
        for f, ft in fs:
            ft_init = inits.get(f)
            if ft_init and ft_init[1] is not None:
                self.frames.append(fr)
                vals.append(self.conv(self.eval(ft_init[1], st), ft, st))
                self.frames.pop()
            else:
                if isinstance(ft, Type) and ft.k in ("b", "p", "e"):
                    vals.append(fresh("uninit_" + f, fsort(ft)))
                elif isinstance(ft, Type) and ft.k == "c" and ft.s in self.prog.records:
                    vals.append(self.default_obj(ft, st))
                else:
                    vals.append(default(fsort(ft)))
        return rec_sort(t).constructor(0)(*vals)

    def construct(self, e, st, place):
        """run constructor e (ctor node) on place"""
        t = e["t"].deref()
        f = self.prog.funcs.get(e["f"].get("key"))
        if f is None or not f.d.get("ctor") or f.d.get("dflt"):
            if e.get("copy"):
                self.store(st, place, self.eval(e["c"][0], st))
                return
            self.store(st, place, self.default_obj(t, st))
            return
        args = [self.arg(a, p["t"], st) for a, p in zip(e["c"], f.params)]
        self.run_ctor(f, t, place, args, st)

    def run_ctor(self, f, t, place, args, st):
        self.store(st, place, self.default_obj(t, st))
        c = self.lookup_contract(f, place)
        if c is not None:
            self.used_contracts.add((c.name, f.sname))
            c.apply(self, f, place, args, st)
            return
        fr = Frame(f, place)
        self.frames.append(fr)
        try:
            for p, a in zip(f.params, args):
                st.env[("v", fr.id, p["d"])] = a
            for ini in f.d["inits"]:
                if "m" in ini:
                    fp = self.fld(place, ini["m"])
                    v = self.eval(ini["e"], st)
                    if fp.t is not None:
                        v = self.conv(v, fp.t, st)
                    if is_term(v):
                        self.store(st, fp, v)
                elif "base" in ini:
                    be = ini["e"]
                    bf = self.prog.funcs.get(be["f"].get("key")) if be["k"] == "ctor" else None
                    if bf is not None and not bf.d.get("dflt") and bf.d.get("ctor"):
                        bargs = [self.arg(a, p["t"], st) for a, p in zip(be["c"], bf.params)]
                        self.run_base_ctor(bf, place, bargs, st)
            r = self.run_body(f, fr, st)
        finally:
            self.frames.pop()

    def run_base_ctor(self, f, place, args, st):
        fr = Frame(f, place)
        self.frames.append(fr)
        try:
            for p, a in zip(f.params, args):
                st.env[("v", fr.id, p["d"])] = a
            for ini in f.d["inits"]:
                if "m" in ini:
                    fp = self.fld(place, ini["m"])
                    v = self.conv(self.eval(ini["e"], st), fp.t, st)
                    self.store(st, fp, v)
            self.run_body(f, fr, st)
        finally:
            self.frames.pop()

    def run_body(self, f, fr, st):
        """execute body of f in frame fr, mutating st; returns value"""
        base = st.pc
        end = self.block([f.body], st.copy())
        outs = list(fr.rets)
        if end is not None:
            outs.append((end, None))
        if not outs:
            st.pc = st.pc + (z3.BoolVal(False),)
            return None
        n = len(base)
        conds = [z3.And(*s.pc[n:]) if len(s.pc) > n else z3.BoolVal(True) for s, _ in outs]
        res, val = outs[-1]
        for (s, v), c in list(zip(outs, conds))[-2::-1]:
            res = self.merge(c, s, res, base)
            if v is not None or val is not None:
                val = self.mergev(c, v, val)
        allc = z3.simplify(z3.Or(*conds))
        st.env.clear()
        st.env.update(res.env)
        st.heap.clear()
        st.heap.update(res.heap)
        st.draws = res.draws
        st.pc = base if z3.is_true(allc) else base + (allc,)
        return val

    def arg(self, a, pt, st):
        """argument value for a parameter of type pt"""
        if pt.k == "r":
            return self.bind_ref(a, st, pt.e)
        v = self.eval(a, st)
        return self.conv(v, pt, st)

    def find_override(self, f, cls):
        """most derived override of method f in class cls"""
        sig = (f.name, tuple(p["t"].s for p in f.params))
        for c in self.prog.base_chain(cls.s):
            for g in self.prog.by_sname.get(c + "::" + f.name, []):
                if tuple(p["t"].s for p in g.params) == sig[1]:
                    return g
        return None

    def call_func(self, f, this, args, st):
        """call function f (Func) with this Place and prepared args"""
        c = self.lookup_contract(f, this)
        if c is not None:
            self.used_contracts.add((c.name, f.sname))
            return c.apply(self, f, this, args, st)
        if self.depth > 40:
            raise Unsupported("inlining depth at " + f.sname)
        for fr in self.frames:
            if fr.func is f and not f.d.get("lam"):
                raise Unsupported("recursion at " + f.sname)
        self.inlined.add(f.sname)
        fr = Frame(f, this)
        self.frames.append(fr)
        self.depth += 1
        line = self.line
        try:
            for p, a in zip(f.params, args):
                st.env[("v", fr.id, p["d"])] = a
            v = self.run_body(f, fr, st)
            for k in [k for k in st.env if k[1] == fr.id]:
                del st.env[k]
            return v
        finally:
            self.depth -= 1
            self.frames.pop()
            self.line = line

    def lookup_contract(self, f, this):
        c = self.contracts.get(f.sname)
        if c is None:
            import re
            g = re.sub(r"<.*>", "", f.sname)
            c = self.contracts.get(g)
        if c is not None and self.target is not None and f is self.target:
            # the function under proof itself is never replaced by its own contract at top level
            if len([x for x in self.frames if x.func is f]) == 0:
                return None
        return c

    target = None

    def call_closure(self, cl, args_nodes, st, vals=None):
        if isinstance(cl, FnRef):
            f = self.prog.funcs.get(cl.f.get("key"))
            if f is None:
                return self.std_call_vals(cl.f, vals, st)
            return self.call_func(f, None, vals, st)
        ops = cl.node["ops"]
        fs = [self.prog.funcs[o] for o in ops if o in self.prog.funcs]
        if vals is None:
            vals = args_nodes
        if len(fs) > 1:
            raise Unsupported("generic lambda with several instantiations")
        if not fs:
            raise Unsupported("lambda body not found")
        return self.call_lambda(cl, fs[0], vals, st)

    def call_lambda(self, cl, f, vals, st):
        fr = Frame(f, cl.this)
        fr.parent = cl.frame
        self.frames.append(fr)
        self.depth += 1
        try:
            for d, v in cl.node.get("capvals", {}).items():
                st.env[("v", fr.id, d)] = v
            for p, a in zip(f.params, vals):
                if p["t"].k == "r" and is_term(a):
                    a = Ref(self.temp(st, a, p["t"].e))
                elif p["t"].k != "r":
                    a = self.conv(a, p["t"], st)
                st.env[("v", fr.id, p["d"])] = a
            return self.run_body(f, fr, st)
        finally:
            self.depth -= 1
            self.frames.pop()

    def e_call(self, e, st):
        fr = e.get("f")
        if fr is None:
            fe = self.eval(e["fe"], st)
            if isinstance(fe, (Closure, FnRef)):
                vals = [self.eval(a, st) for a in e["c"]]
                return self.call_closure(fe, None, st, vals)
            raise Unsupported("indirect call")
        if fr.get("key") and fr["key"] in self.prog.funcs:
            f = self.prog.funcs[fr["key"]]
            args = [self.arg(a, p["t"], st) for a, p in zip(e["c"], f.params)]
            return self.call_func(f, None, args, st)
        if fr.get("root"):
            c = self.contracts.get(fr["q"])
            if c is not None:
                args = []
                for a in e["c"]:
                    p = self.try_lval(a, st)
                    args.append(Ref(p) if isinstance(p, Place) else self.eval(a, st))
                self.used_contracts.add((c.name, fr["q"]))
                return c.apply(self, ExtFunc(fr), None, args, st)
        return self.std_call(e, fr, st)

    def recv(self, e, st):
        """receiver place of member call"""
        o = e["obj"]
        if e.get("arrow"):
            v = self.eval(o, st)
            return self.deref(v, o["t"], st)
        p = self.try_lval(o, st)
        if p is not None:
            return p
        v = self.eval(o, st)
        if isinstance(v, (Place, PairPlace)):
            return v
        if isinstance(v, (Iter, Opaque, Closure, IList)):
            return v
        return self.temp(st, v, o["t"])

    def e_mcall(self, e, st):
        fr = e.get("f")
        if fr is None:
            raise Unsupported("member call")
        if fr.get("root"):
            p = self.recv(e, st)
            if not isinstance(p, Place):
                raise Unsupported("receiver %r" % (p,))
            return self.method(fr, p, e["c"], st, e.get("nonvirt"))
        return self.std_mcall(e, fr, st)

    def method(self, fr, p, argnodes, st, nonvirt=False):
        f = self.prog.funcs.get(fr.get("key"))
        name = fr["q"].split("::")[-1]
        dyn = p.t
        if (fr.get("virt") and not nonvirt) or f is None:
            # dynamic class of the receiver place
            cands = None
            for c in self.prog.base_chain(dyn.s):
                for g in self.prog.by_sname.get(c + "::" + name, []):
                    if len(g.params) == len(argnodes) and (f is None or [q["t"].s for q in g.params] == [q["t"].s for q in f.params]):
                        cands = g
                        break
                if cands:
                    break
            abstract = dyn.s in self.prog.records and self.abstract_dyn(dyn, p)
            if abstract:
                c = self.contracts.get(self.generic(dyn) + "::" + name)
                if c is None:
                    raise Unsupported("virtual call without contract: %s::%s" % (dyn.s, name))
                ext = ExtFunc(fr)
                ptys = [q["t"] for q in (cands.params if cands else [])] if cands else None
                args = []
                for i, a in enumerate(argnodes):
                    q = self.try_lval(a, st)
                    args.append(Ref(q) if isinstance(q, Place) else self.eval(a, st))
                self.used_contracts.add((c.name, dyn.s + "::" + name))
                return c.apply(self, ext, p, args, st)
            if cands is not None:
                f = cands
        if f is None:
            c = self.contracts.get(self.generic(dyn) + "::" + name) or self.contracts.get(dyn.s + "::" + name)
            if c is not None:
                args = []
                for a in argnodes:
                    q = self.try_lval(a, st)
                    args.append(Ref(q) if isinstance(q, Place) else self.eval(a, st))
                self.used_contracts.add((c.name, dyn.s + "::" + name))
                return c.apply(self, ExtFunc(fr), p, args, st)
            raise Unsupported("no body for %s" % fr["q"])
        args = [self.arg(a, q["t"], st) for a, q in zip(argnodes, f.params)]
        return self.call_func(f, p, args, st)

    def abstract_dyn(self, t, p):
        """is the dynamic class of this receiver unknown (pointer/reference to a polymorphic base)?"""
        r = self.prog.records[t.s].d
        if p.root[0] == "h" and len(p.path) == 1 and r["abstract"]:
            return True
        return t.s in self.opts.get("abstract", ())

    def generic(self, t):
        r = self.prog.records.get(t.s)
        return r.generic if r else t.n

    def e_opcall(self, e, st):
        return self.std_opcall(e, st)

    # ---- entry points used by specifications
    def call(self, sname, this=None, args=(), st=None, nparams=None, sig=None):
        f = self.prog.find(sname, nparams, sig)
        vals = []
        for p, a in zip(f.params, args):
            if p["t"].k == "r" and is_term(a):
                a = Ref(self.temp(st, a, p["t"].e))
            vals.append(a)
        v = self.call_func(f, this, vals, st)
        if isinstance(v, Ref):
            v = self.load(st, v.p)
        return v


class PairPlace(Place):
    """place of a map element: .first is the key, .second is the mapped value in place"""
    __slots__ = ("pp", "vp", "ct")

    def __init__(self, pp, vp, ct):
        Place.__init__(self, pp.root, pp.path, pp.t)
        self.pp, self.vp, self.ct = pp, vp, ct

    def ext(self, el, t):
        if el[0] == "f" and el[1] == 1:
            return self.vp
        return self.pp.ext(el, t)

    def value(self, ex, st):
        k = ex.load(st, self.pp.ext(("f", 0), None))
        v = ex.load(st, self.vp)
        ps = tup_sort([k.sort(), v.sort()])
        return ps.constructor(0)(k, v)


class ExtFunc:
    def __init__(self, fr):
        self.q = fr["q"]
        self.sname = fr["q"]
        self.rt = fr["rt"]
        self.params = []


class _D:
    file = ""
    key = "dummy"
    sname = "dummy"
    params = []
    d = {}


DummyFunc = _D()
