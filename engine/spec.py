"""Specification API: units (function bodies against contracts, lemmas over real functions)."""
import sys
import time, traceback, fnmatch, re
import z3
from ir import *
from sorts import *
import sorts, solve
from vc import *
from loops import *


def And(*a):
    a = [x for x in a]
    return z3.And(*a) if a else z3.BoolVal(True)


Or, Not, Implies, If = z3.Or, z3.Not, z3.Implies, z3.If


def ForAll(ss, f, pat=None):
    """ForAll over sorts/types, body given by python function"""
    if not isinstance(ss, (list, tuple)):
        ss = [ss]
    vs = [fresh("q", s if isinstance(s, z3.SortRef) else sort(s)) for s in ss]
    b = f(*vs)
    if z3.is_true(b):
        return b
    if pat is not None:
        p = pat(*vs)
        return z3.ForAll(vs, b, patterns=[p] if not isinstance(p, list) else [z3.MultiPattern(*p)])
    return z3.ForAll(vs, b)


def Exists(ss, f):
    if not isinstance(ss, (list, tuple)):
        ss = [ss]
    vs = [fresh("q", s if isinstance(s, z3.SortRef) else sort(s)) for s in ss]
    return z3.Exists(vs, f(*vs))


def MAXKEY(ex, c):
    """largest key of an int-keyed container, -1 when empty (spec function with its defining facts)"""
    c = ex.alias(raw(c))
    f = z3.Function("MAXKEY_" + an_(c.sort()), c.sort(), I)
    m = f(c)
    k = fresh("k", I)
    n = ex.card(None, c)
    ex.facts.append(z3.If(n == 0, m == -1, inn(c, m)))
    ex.facts.append(z3.ForAll([k], z3.Implies(inn(c, k), z3.And(k <= m, n > 0)), patterns=[z3.Select(c, k)]))
    ex.trusted_spec.add("MAXKEY")
    return m


class View:
    """typed view of a z3 term of record/container sort"""
    __slots__ = ("ex", "_t", "_ty")

    def __init__(self, ex, t, ty):
        self.ex, self._t, self._ty = ex, t, ty

    @property
    def t(self):
        return self._t

    @property
    def ty(self):
        return self._ty

    def __getattr__(self, n):
        fs = rec_fields(self._ty)
        for i, (f, ft) in enumerate(fs):
            if f == n or f == n + "_":
                return wrap(self.ex, sel(self._t, i), ft)
        raise Unsupported("contract mentions field %s.%s which does not exist" % (self._ty.s, n))

    def __getitem__(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        if isinstance(i, View):
            i = i.t
        if is_seq(self._ty):
            return wrap(self.ex, select(varr(self._t), i), elem_t(self._ty))
        if is_map(self._ty):
            return wrap(self.ex, oval(select(self._t, i)), self._ty.args[1])
        raise Unsupported("index of " + self._ty.s)

    def part(self, i):
        return wrap(self.ex, sel(self._t, i), self._ty.args[i])

    def has(self, k):
        if isinstance(k, View):
            k = k.t
        return inn(self._t, k)

    @property
    def len(self):
        return vlen(self._t)

    def card(self):
        return self.ex.card(None, self._t)

    def eq(self, o):
        return self._t == (o.t if isinstance(o, View) else o)

    @property
    def keysort(self):
        return self._t.sort().domain()


def wrap(ex, t, ty):
    if isinstance(ty, Type):
        ty = ty.deref()
        if ty.k == "c" and not ty.is_ptr and ty.s != "PRNG" and not isinstance(t, Opaque):
            return View(ex, t, ty)
        if ty.k == "a":
            return View(ex, t, ty)
    return t


def raw(x):
    return x.t if isinstance(x, View) else x


class Ctx:
    """context of one verification unit"""

    def __init__(self, prog, contracts, opts=None):
        set_prog(prog)
        self.prog = prog
        self.ex = Loops(prog, contracts, opts or {})
        self.ex.frames = []
        self.ex.calls = []
        self.st = St()
        self.vars = {}

    def type(self, name):
        from ir import _types
        if name not in _types:
            raise Unsupported("type %s not found" % name)
        return _types[name]

    def obj(self, tname, name="self"):
        """symbolic object; returns Place"""
        t = self.type(tname) if isinstance(tname, str) else tname
        key = ("v", "spec", name)
        c = fresh(name, sort(t))
        if t.s in self.prog.records:
            # as an explicit constructor application so fields stay separate terms
            rs = rec_sort(t)
            c = rs.constructor(0)(*[fresh(name + "." + f, fsort(ft)) for f, ft in rec_fields(t)])
        self.st.env[key] = c
        p = Place(key, (), t)
        self.lenfacts(c, t)
        return p

    def lenfacts(self, c, t):
        """vector lengths are non-negative"""
        if t.k == "c" and t.s in self.prog.records:
            for i, (f, ft) in enumerate(rec_fields(t)):
                if isinstance(ft, Type) and ft.k == "c":
                    self.lenfacts(sel(c, i), ft)
        elif is_seq(t):
            self.ex.facts.append(vlen(c) >= 0)

    def val(self, tname, name):
        t = self.type(tname) if isinstance(tname, str) else tname
        v = fresh(name, sort(t))
        if is_seq(t):
            self.ex.facts.append(vlen(v) >= 0)
        if t.k == "b" and t.isint and t.sg is False and t.n != "bool":
            self.ex.facts.append(v >= 0)
        if t.s == "char":
            self.ex.facts.append(And(v >= -128, v <= 127))
        return v

    def out(self, tname, name):
        """pointer to a fresh variable (output parameter)"""
        t = self.type(tname) if isinstance(tname, str) else tname
        key = ("v", "spec", name)
        self.st.env[key] = fresh(name, sort(t))
        return PtrTo(Place(key, (), t))

    def view(self, p, st=None):
        return View(self.ex, self.ex.load(st or self.st, p), p.t)

    def V(self, t, ty):
        return wrap(self.ex, t, self.type(ty) if isinstance(ty, str) else ty)

    def assume(self, *cs):
        for c in cs:
            if isinstance(c, (list, tuple)):
                for x in c:
                    self.assume(x[1] if isinstance(x, tuple) else x)
            elif isinstance(c, tuple):
                self.assume(c[1])
            else:
                self.ex.facts.append(c)

    def check(self, cond, name, kind="post"):
        if isinstance(cond, (list, tuple)):
            for n, c in cond:
                self.check(c, name + ": " + n, kind)
            return
        self.ex.oblige(self.st, cond, name, kind)

    def define(self, name, term):
        """a fresh name for a term"""
        c = fresh(name, term.sort())
        self.ex.facts.append(c == term)
        return c

    def lemma(self, cond, name):
        """an obligation that later obligations may use"""
        self.check(cond, "lemma: " + name, "lemma")
        self.ex.fact(self.st, cond)

    def shape(self, ok, msg):
        """the argument of this unit needs this shape of the code; without it the unit is undecided, not violated"""
        if not ok:
            raise Unsupported("shape not covered by the argument: " + msg)

    def drawlaw(self, weights_logs=False):
        """the single categorical draw of the code just run: (log-weights?, weight function, number, drawn index)"""
        cs = [(n, c) for n, c in self.ex.calls if n in ("choice", "log_choice", "sample_from_logps")]
        ds = [d for d in self.st.draws]
        self.shape(len(cs) + len(ds) == 1, "exactly one categorical draw (%d calls, %d draws)" % (len(cs), len(ds)))
        if cs:
            n, c = cs[0]
            w = c.args[0].t
            return n != "choice", (lambda i: select(varr(w), i)), vlen(w), c.ret
        d = ds[0]
        self.shape(d[0] == "draw" and d[1] == "discrete_distribution", "a categorical draw")
        w = d[2][0]
        return False, (lambda i: select(varr(w), i)), vlen(w), d[3]

    def call(self, sname, this=None, args=(), **kw):
        return self.ex.call(sname, this, args, self.st, **kw)

    def snapshot(self):
        return self.st.copy()

    def reach(self, name):
        """the assumptions so far are satisfiable (not vacuous)"""
        o = Obl(name, "reach", self.st.pc, len(self.ex.facts), z3.BoolVal(False), "")
        o.facts = tuple(self.ex.dead)
        self.ex.obls.append(o)


    def lastcall(self, name):
        l = [c for n, c in self.ex.calls if n == name]
        if len(l) != 1:
            raise Unsupported("%d calls of %s" % (len(l), name))
        return l[0]

    def quiet(self, f):
        """evaluate f() without generating obligations"""
        self.ex.quiet += 1
        try:
            return f()
        finally:
            self.ex.quiet -= 1


class Unit:
    def __init__(self, name, files, props, fn, funcs=(), contracts=(), opts=None, tmo=None):
        self.name, self.files, self.props, self.fn = name, files, props, fn
        self.funcs = list(funcs)
        self.contracts = list(contracts)
        self.opts = opts or {}
        self.tmo = tmo


UNITS = []


def unit(name, files, props, funcs=(), contracts=(), opts=None, tmo=None):
    def deco(fn):
        UNITS.append(Unit(name, [files] if isinstance(files, str) else list(files), props.split() if isinstance(props, str) else props, fn, funcs, contracts, opts, tmo))
        return fn
    return deco


class CallView:
    """what a contract sees of one call"""
    pass


class Contract:
    """pre(c) / post(c) take a CallView: c.this0/c.this (views before/after), c.args (terms, views or places), c.ret"""

    def __init__(self, name, sname, pre=None, post=None, modifies=(), value=None, outs=(), assign=None, effect=None):
        """assign: field -> function giving the new value (other fields of modifies are arbitrary afterwards);
        effect(c): changes c.st beyond the receiver (heap objects) and may set c.ret0"""
        self.name, self.sname, self.pre, self.post, self.modifies, self.value, self.outs = name, sname, pre, post, modifies, value, outs
        self.assign, self.effect = assign or {}, effect

    def apply(self, ex, f, this, args, st):
        c = CallView()
        c.ex, c.st, c.f, c.place = ex, st, f, this
        c.st0 = st.copy()
        vals = []
        for a in args:
            if isinstance(a, Ref):
                v = ex.load(st, a.p) if not isinstance(a.p, PairPlace) else a.p.value(ex, st)
                vals.append(wrap(ex, v, a.p.t) if a.p.t is not None else v)
            else:
                vals.append(a)
        c.args = [a for a in vals]
        c.rawargs = args
        c.this0 = View(ex, ex.load(st, this), this.t) if this is not None else None
        if self.pre:
            for n, g in self.pre(c):
                ex.oblige(st, g, "precondition of %s: %s" % (self.name, n), "pre")
        if this is not None:
            news = {m: g(c) for m, g in self.assign.items()}
            for m in self.modifies:
                p = this
                fs = m.split(".")
                for fn in fs:
                    p = ex.fld(p, fn)
                old = ex.load(st, p)
                ex.store(st, p, news[m] if m in news else fresh("m_" + m, old.sort()))
        if self.effect:
            self.effect(c)
        c.this = View(ex, ex.load(st, this), this.t) if this is not None else None
        c.out = {}
        for i in self.outs:
            a = args[i]
            if not isinstance(a, (PtrTo, Ref)) or not isinstance(a.p, Place):
                raise Unsupported("output argument %d of %s" % (i, self.name))
            old = ex.load(st, a.p)
            ex.store(st, a.p, fresh("out_%d" % i, old.sort()))
            c.out[i] = wrap(ex, ex.load(st, a.p), a.p.t) if a.p.t is not None else ex.load(st, a.p)
        rt = f.rt
        c.ret = None
        r = None
        if rt is not None and rt.s != "void":
            r = self.value(c) if self.value else c.ret0 if getattr(c, "ret0", None) is not None else fresh("ret_" + self.name.split("::")[-1], sort(rt))
            c.ret = wrap(ex, r, rt.deref())
        if self.post:
            for n, g in self.post(c):
                ex.fact(st, g)
        ex.calls.append((self.name, c))
        return r


def prove_body(ctx, k, this=None, args=(), sig=None, nparams=None, extra_pre=(), sname=None):
    """generate the obligations that the body of contract k's function satisfies the contract"""
    ex, st = ctx.ex, ctx.st
    f = ctx.prog.find(sname or k.sname, nparams, sig)
    c = CallView()
    c.ex, c.st, c.f, c.place = ex, st, f, this
    c.st0 = st.copy()
    vals = []
    c.args = []
    for p, a in zip(f.params, args):
        c.args.append(wrap(ex, ex.load(st, a.p), a.p.t) if isinstance(a, Ref) and isinstance(a.p, Place) else wrap(ex, a, p["t"].deref()) if is_term(a) else a)
        if p["t"].k == "r" and is_term(a):
            a = Ref(ex.temp(st, a, p["t"].e))
        vals.append(a)
    c.rawargs = vals
    c.this0 = ctx.view(this) if this is not None else None
    if k.pre:
        for n, g in k.pre(c):
            ctx.assume(g)
    ctx.reach("precondition of %s is satisfiable" % k.name)
    ex.target = f
    v = ex.call_func(f, this, vals, st)
    if isinstance(v, Ref):
        v = ex.load(st, v.p)
    c.ret = wrap(ex, v, f.rt.deref()) if f.rt.s != "void" and is_term(v) else v
    c.this = ctx.view(this) if this is not None else None
    c.out = {i: ctx.view(vals[i].p) if vals[i].p.t.k == "c" else ex.load(st, vals[i].p) for i in k.outs}
    for m, g in k.assign.items():
        p = this
        for fn in m.split("."):
            p = ex.fld(p, fn)
        for e in expand_eq(z3.simplify(ex.load(st, p)), z3.simplify(raw(g(c)))):
            ctx.check(e, "%s ensures the new %s" % (k.name, m), "post")
    if k.value:
        ctx.check(raw(c.ret) == k.value(c), "%s returns its specified value" % k.name, "post")
    if k.post:
        for n, g in k.post(c):
            ctx.check(g, "%s ensures %s" % (k.name, n), "post")
    if this is not None:
        mods = set(m.split(".")[0] for m in k.modifies)
        for fn, ft in rec_fields(this.t):
            if fn not in mods:
                a, b = raw(getattr(c.this0, fn)), raw(getattr(c.this, fn))
                if not a.eq(b):
                    ctx.check(a == b, "%s leaves %s unchanged" % (k.name, fn), "frame")
    return c


class Result:
    pass


def run_units(units, contracts, prog, procs=8, tmo=None, verbose=False):
    """returns list of per-unit results"""
    jobs, owners = [], []
    out = []
    for u in units:
        r = Result()
        r.unit = u
        r.status = "ok"
        r.err = None
        t0 = time.time()
        own = getattr(sys.modules.get(u.fn.__module__), "CONTRACTS", contracts)
        ks = {k: own[k] for k in u.contracts}
        try:
            ctx = Ctx(prog, {c.sname: c for c in ks.values()}, u.opts)
            Exec.frames = []
            ctx.ex.frames = []
            u.fn(ctx)
            r.obls = ctx.ex.obls
            r.ex = ctx.ex
        except Unsupported as e:
            r.status = "unsupported"
            r.err = str(e)
            r.obls = []
            r.ex = None
        except (z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, AssertionError, RecursionError, ValueError) as e:
            r.status = "unsupported"
            r.err = "%s: %s" % (type(e).__name__, e)
            r.tb = traceback.format_exc()
            if verbose:
                print(r.tb)
            r.obls = []
            r.ex = None
        r.gen_s = time.time() - t0
        for o in r.obls:
            o.unit = u.name
            if o.result is None:
                hy = hyps_of(r.ex, o)
                if o.kind == "reach":
                    continue
                jobs.append((hy, o.goal))
                owners.append(o)
        out.append(r)
    t1 = time.time()
    rs, used = solve.run(jobs, procs, tmo)
    late = [i for i, r in enumerate(rs) if r[0] == "timeout"]
    if 0 < len(late) <= 12 and time.time() - t1 < 260:
        # a second, longer attempt for the few obligations that ran out of time
        again, used2 = solve.run([jobs[i] for i in late], procs, 2 * (tmo or solve.TMO))
        used |= used2
        for i, r in zip(late, again):
            if r[0] != "timeout":
                rs[i] = r
    for o, (res, back, secs, model) in zip(owners, rs):
        o.result, o.backend, o.secs, o.model = res, back, secs, model
    # vacuity: a 'reach' obligation must NOT be provable
    rj, ro = [], []
    for r in out:
        for o in r.obls:
            if o.kind == "reach":
                rj.append((hyps_of(r.ex, o), z3.BoolVal(False)))
                ro.append(o)
    rs2, _ = solve.run(rj, procs, 1500)
    for o, (res, back, secs, model) in zip(ro, rs2):
        o.result = "vacuous" if res == "proved" else "proved"
        o.backend, o.secs, o.model = "z3 (not contradictory)", secs, None
    return out, used
