"""Resampling a latent clean value (C12): transition_latent_value and its four steps, each under its own contract.

The base relation is known through the interface of relations (absrel), extended by rin = the values its blocks
currently absorb (equal to rdata between moves).  A noisy relation is known through: npair = the (clean, dirty) pairs
its error model records, ncl = the pairs its error model's blocks currently absorb (equal to npair between moves), and
nhyp = everything else its score depends on.  The one-step operations are proved against these laws in clean.py/noisy.py."""
from spec import *
import absdom, absdist as _ad, absrel, clean, noisy
from clean import FA, MP, named, harr, hset, VI, frame_heap
from absdom import put, drop
from noisy import BASE
import util_math as _um

DRV = clean.DRV
CONTRACTS = dict(_um.CONTRACTS)
CONTRACTS.update(_ad.CONTRACTS)
CONTRACTS.update(absrel.CONTRACTS)


def vt(n):
    from ir import _types
    return sort(_types[n].args[0])


def psort(n):
    s = vt(n)
    return tup_sort([s, s])


def parr(n):
    return z3.ArraySort(VI(), opt_sort(psort(n)))


ghost_fields("NoisyRelation", [("npair", parr), ("ncl", parr), ("nhyp", I)], inherit=False)


def NT(T):
    return "NoisyRelation<%s>" % T


def RT(T):
    return "Relation<%s>" % T


def some(v):
    return opt_sort(v.sort()).constructor(1)(v)


def none(s):
    return opt_sort(s).constructor(0)()


def MIX(A1, A0, S, t):
    """A1 at the first t elements of S, A0 elsewhere"""
    return z3.Function("MIX_" + an_(A0.sort()), A0.sort(), A0.sort(), S.sort(), I, A0.sort())(A1, A0, S, t)


def ALL(A1, A0, S):
    """A1 at the elements of S, A0 elsewhere"""
    return z3.Function("ALL_" + an_(A0.sort()), A0.sort(), A0.sort(), S.sort(), A0.sort())(A1, A0, S)


def mix_facts(arrs, ss):
    a1, a0, S, t, k = fresh("a1", arrs), fresh("a0", arrs), fresh("S", ss), fresh("t", I), fresh("k", arrs.domain())
    m, l = MIX(a1, a0, S, t), ALL(a1, a0, S)
    return [FA([a1, a0, S, t, k], select(m, k) == If(And(inn(S, k), POS(S, k) < t), select(a1, k), select(a0, k)), patterns=[z3.Select(m, k)]),
            FA([a1, a0, S, k], select(l, k) == If(inn(S, k), select(a1, k), select(a0, k)), patterns=[z3.Select(l, k)])]


# ---- one-step operations of the base relation on its blocks
def same_at(c, its):
    return And(inn(c.this0.rin, its), oval(select(c.this0.rin, its)) == oval(select(c.this0.rdata, its)))


def SCR2(rin, rcl, rhyp):
    return z3.Function("RSCORE_" + an_(rin.sort().range()), rin.sort(), rcl.sort(), I, R)(rin, rcl, rhyp)


RK = [
    Contract("Relation::unincorporate_from_cluster", "Relation::unincorporate_from_cluster",
        pre=lambda c: [("the tuple is stored", inn(c.this0.rdata, raw(c.args[0]))), ("its block absorbs the stored value", same_at(c, raw(c.args[0])))],
        assign={"rin": lambda c: drop(c.this0.rin, raw(c.args[0]))}, modifies=["rin"]),
    Contract("Relation::incorporate_to_cluster", "Relation::incorporate_to_cluster",
        pre=lambda c: [("the tuple is stored", inn(c.this0.rdata, raw(c.args[0]))), ("its block absorbs nothing for it", Not(inn(c.this0.rin, raw(c.args[0]))))],
        assign={"rin": lambda c: put(c.this0.rin, raw(c.args[0]), raw(c.args[1]))}, modifies=["rin"]),
    Contract("Relation::update_value", "Relation::update_value",
        pre=lambda c: [("the tuple is stored", inn(c.this0.rdata, raw(c.args[0]))), ("its block absorbs the stored value", same_at(c, raw(c.args[0])))],
        assign={"rin": lambda c: put(c.this0.rin, raw(c.args[0]), raw(c.args[1])), "rdata": lambda c: put(c.this0.rdata, raw(c.args[0]), raw(c.args[1]))}, modifies=["rin", "rdata"]),
    Contract("Relation::logp_score/in", "Relation::logp_score", value=lambda c: SCR2(c.this0.rin, raw(c.this0.rcl), c.this0.rhyp)),
    Contract("Relation::nearest", "Relation::nearest"),
]


# ---- one-step operations of a noisy relation
def basev(c, its):
    """current clean value of the tuple"""
    T = c.this0.ty.args[0].s
    from ir import _types
    rt = _types[RT(T)]
    b = View(c.ex, c.ex.load(c.st0, c.ex.heap_place(rt, raw(c.this0.base_relation))), rt)
    bt = BASE()(its, vlen(raw(b.rdoms)))
    return inn(b.rdata, bt), oval(select(b.rdata, bt))


def pairv(c, its, v):
    s = c.this0.ncl.sort().range().constructor(1).domain(0) if False else psort(c.this0.ty.s)
    return s.constructor(0)(basev(c, its)[1], v)


def nsame(c, its):
    return And(inn(c.this0.npair, its), select(c.this0.ncl, its) == select(c.this0.npair, its))


NK = [
    Contract("NoisyRelation::unincorporate_from_cluster", "NoisyRelation::unincorporate_from_cluster",
        pre=lambda c: [("its block absorbs the recorded pair", nsame(c, raw(c.args[0])))],
        assign={"ncl": lambda c: drop(c.this0.ncl, raw(c.args[0]))}, modifies=["ncl"]),
    Contract("NoisyRelation::incorporate_to_cluster", "NoisyRelation::incorporate_to_cluster",
        pre=lambda c: [("the tuple is recorded", inn(c.this0.npair, raw(c.args[0]))), ("its block absorbs nothing for it", Not(inn(c.this0.ncl, raw(c.args[0])))), ("its clean value is known", basev(c, raw(c.args[0]))[0])],
        assign={"ncl": lambda c: put(c.this0.ncl, raw(c.args[0]), pairv(c, raw(c.args[0]), raw(c.args[1])))}, modifies=["ncl"]),
    Contract("NoisyRelation::update_value", "NoisyRelation::update_value",
        pre=lambda c: [("the tuple is stored", c.this0.data.has(raw(c.args[0]))), ("its block absorbs the recorded pair", nsame(c, raw(c.args[0]))), ("its clean value is known", basev(c, raw(c.args[0]))[0])],
        assign={"data": lambda c: put(raw(c.this0.data), raw(c.args[0]), raw(c.args[1])), "npair": lambda c: put(c.this0.npair, raw(c.args[0]), pairv(c, raw(c.args[0]), raw(c.args[1]))),
            "ncl": lambda c: put(c.this0.ncl, raw(c.args[0]), pairv(c, raw(c.args[0]), raw(c.args[1])))}, modifies=["data", "npair", "ncl"]),
    Contract("NoisyRelation::logp_score", "NoisyRelation::logp_score", value=lambda c: NSC(c.this0.ncl, c.this0.nhyp)),
    Contract("NoisyRelation::get_emission_clusters", "NoisyRelation::get_emission_clusters", post=lambda c: gec_post(c)),
]


def NSC(ncl, h):
    return z3.Function("NSCORE_" + an_(ncl.sort().range()), ncl.sort(), I, R)(ncl, h)


def gec_post(c):
    z, j = fresh("z", VI()), fresh("its", VI())
    d = raw(c.this0.data)
    r = raw(c.ret)
    return [("every block is an object", FA([z], Implies(inn(r, z), oval(select(r, z)) > 0), patterns=[z3.Select(r, z)])),
            ("a relation with observations has a block", FA([j], Implies(inn(d, j), CARD(r) > 0), patterns=[z3.Select(d, j)]))]


for k in RK + NK:
    CONTRACTS[k.name] = k
RKN, NKN = [k.name for k in RK], [k.name for k in NK]


class Env:
    """the relations a latent value touches, in one state"""

    def __init__(s, ex, st, T, b, base, M, ar=None):
        from ir import _types
        s.ex, s.st, s.T, s.b, s.base, s.M = ex, st, T, b, base, M
        s.h = {f: named(ex, harr(ex, st, NT(T), f)) for f in ("data", "base_to_noisy_items", "base_relation", "npair", "ncl", "nhyp")}
        rt = _types[RT(T)]
        s.B = View(ex, ex.load(st, ex.heap_place(rt, base)), rt)
        s.vs = sort(_types[T])
        s.ps = tup_sort([s.vs, s.vs])
        s.ar = vlen(s.B.rdoms)

    def own(s, p):
        return z3.Function("OWN_" + s.T, I, SSrt())(p)

    def ptr(s, nm):
        return oval(select(s.M, nm))

    def hit(s, p):
        return And(inn(s.M, s.own(p)), s.ptr(s.own(p)) == p)

    def items(s, p):
        """dirty tuples derived from the latent value"""
        return oval(select(select(s.h["base_to_noisy_items"], p), s.b))

    def D(s, p):
        return select(s.h["data"], p)

    def PD(s, D, v):
        """every dirty value paired with the clean value v"""
        return z3.Function("PAIRED_" + s.T, D.sort(), s.vs, s.h["npair"].sort().range())(D, v)

    def NO(s):
        return z3.Const("NOPAIR_" + s.T, s.h["npair"].sort().range())

    def NOV(s):
        return z3.Const("NOVALUE_" + s.T, s.h["data"].sort().range())

    def defs(s):
        D, v, k = fresh("D", s.h["data"].sort().range()), fresh("v", s.vs), fresh("k", VI())
        ss = s.items(z3.IntVal(0)).sort()
        pd = s.PD(D, v)
        out = [FA([D, v, k], select(pd, k) == some(s.ps.constructor(0)(v, oval(select(D, k)))), patterns=[z3.Select(pd, k)]),
               FA([k], select(s.NO(), k) == none(s.ps), patterns=[z3.Select(s.NO(), k)]),
               FA([k], select(s.NOV(), k) == none(s.vs), patterns=[z3.Select(s.NOV(), k)])]
        return out + mix_facts(s.h["npair"].sort().range(), ss) + mix_facts(s.h["data"].sort().range(), ss)

    def wf(s, listed=True):
        """the maps agree: distinct noisy relations of this base, each listing stored dirty values of the latent value"""
        nm, p, k = fresh("nm", SSrt()), fresh("p", I), fresh("k", VI())
        q = s.ptr(nm)
        S = s.items(p)
        hasb = inn(select(s.h["base_to_noisy_items"], p), s.b)
        out = [("noisy relations are distinct objects over this base", FA([nm], Implies(inn(s.M, nm), And(q > 0, s.own(q) == nm, select(s.h["base_relation"], q) == s.base)), patterns=[z3.Select(s.M, nm)])),
            ("listed dirty tuples are stored and derive from the latent value", FA([p, k], Implies(And(s.hit(p), hasb, inn(S, k)), And(inn(s.D(p), k), BASE()(k, s.ar) == s.b)), patterns=[z3.Select(S, k)])),
            ("the latent value is stored", And(inn(s.B.rdata, s.b), s.base > 0))]
        if listed:
            out.append(("every noisy relation lists the latent value", FA([p], Implies(s.hit(p), hasb), patterns=[z3.Select(s.h["base_to_noisy_items"], p)])))
        return out

    def latent(s):
        return oval(select(s.B.rdata, s.b))

    def paired(s, absorbed):
        """recorded pairs are those of the current values; absorbed or not"""
        p, k = fresh("p", I), fresh("k", VI())
        S = s.items(p)
        pr, cl = select(select(s.h["npair"], p), k), select(select(s.h["ncl"], p), k)
        hasb = inn(select(s.h["base_to_noisy_items"], p), s.b)
        m = And(s.hit(p), hasb, inn(S, k))
        return [("each dirty value is paired with the current clean value", FA([p, k], Implies(m, pr == some(s.ps.constructor(0)(s.latent(), oval(select(s.D(p), k))))), patterns=[z3.Select(S, k)])),
            ("its block absorbs %s" % ("that pair" if absorbed else "nothing for it"), FA([p, k], Implies(m, cl == pr if absorbed else cl == none(s.ps)), patterns=[z3.Select(S, k)])),
            ("the clean block absorbs %s" % ("the current clean value" if absorbed else "nothing for it"), select(s.B.rin, s.b) == (select(s.B.rdata, s.b) if absorbed else none(s.vs)))]

    def obs(s, o):
        """the stored dirty values"""
        p, k = fresh("p", I), fresh("k", VI())
        S = s.items(p)
        w = select(oval(select(o, s.own(p))), k)
        return [("every dirty value was stored", FA([p, k], Implies(And(s.hit(p), inn(S, k)), And(inn(o, s.own(p)), w == select(s.D(p), k))), patterns=[z3.Select(S, k)])),
                ("every noisy relation has an entry", FA([p], Implies(s.hit(p), inn(o, s.own(p))), patterns=[s.own(p)]))]

    def arr(s, f, old, A1):
        """field f afterwards: A1 on the dirty tuples of every noisy relation, unchanged elsewhere"""
        p = fresh("p", I)
        new = fresh("heap_" + f, old.sort())
        return new, FA([p], select(new, p) == If(s.hit(p), ALL(A1(p), select(old, p), s.items(p)), select(old, p)), patterns=[z3.Select(new, p)])


def SSrt():
    return absrel.SS()


def setb(c, e, **kw):
    """new ghost values of the base relation"""
    from ir import _types
    pl = c.ex.heap_place(_types[RT(e.T)], e.base)
    for f, v in kw.items():
        c.ex.store(c.st, c.ex.fld(pl, f), v)


def env(c, ib, ibase, im):
    from ir import _types
    base = raw(c.args[ibase])
    T = c.f.params[ibase]["t"].deref().s if hasattr(c.f.params[ibase]["t"], "deref") else None
    T = [t for t in absrel.VT if RT(t) in c.f.params[ibase]["t"].s][0]
    return Env(c.ex, c.st0, T, raw(c.args[ib]), base, raw(c.args[im]))


# ---- the steps
def touch(e, p):
    m = select(e.h["base_to_noisy_items"], p)
    emp = z3.K(VI(), z3.BoolVal(False))
    return z3.Store(m, e.b, some(If(inn(m, e.b), oval(select(m, e.b)), emp)))


def store_effect(c):
    e = env(c, 0, 1, 2)
    p = fresh("p", I)
    b0 = e.h["base_to_noisy_items"]
    b1 = fresh("heap_b2n", b0.sort())
    c.ex.globals.append(FA([p], select(b1, p) == If(e.hit(p), touch(e, p), select(b0, p)), patterns=[z3.Select(b1, p)]))
    hset(c.ex, c.st, NT(e.T), "base_to_noisy_items", b1)
    k = fresh("k", VI())
    n1 = fresh("heap_ncl", e.h["ncl"].sort())
    hasb = inn(select(b0, p), e.b)
    c.ex.globals.append(FA([p, k], select(select(n1, p), k) == If(And(e.hit(p), hasb, inn(e.items(p), k)), none(e.ps), select(select(e.h["ncl"], p), k)), patterns=[z3.Select(z3.Select(n1, p), k)]))
    hset(c.ex, c.st, NT(e.T), "ncl", n1)
    setb(c, e, rin=drop(e.B.rin, e.b))


def store_post(c):
    e = env(c, 0, 1, 2)
    e1 = Env(c.ex, c.st, e.T, e.b, e.base, e.M)
    return e1.obs(raw(c.ret))


def inc_effect(c):
    e = env(c, 0, 3, 4)
    c.ex.globals.extend(e.defs())
    inc_to(c, e, raw(c.args[1]))


def inc_to(c, e, v):
    for f in ("ncl", "npair"):
        a, q = e.arr(f, e.h[f], lambda p: e.PD(e.D(p), v))
        c.ex.globals.append(q)
        hset(c.ex, c.st, NT(e.T), f, a)
    setb(c, e, rin=put(e.B.rin, e.b, v), rdata=put(e.B.rdata, e.b, v))


def lat_effect(c):
    """relations are handed back emptied of the latent value; the recorded value is one of the candidates"""
    e = env(c, 0, 3, 4)
    c.ex.globals.extend(e.defs())
    w = fresh("last", e.vs)
    a, q = e.arr("npair", e.h["npair"], lambda p: e.PD(e.D(p), w))
    n = vlen(raw(c.args[1]))
    c.ex.globals.append(q)
    c.ex.globals.append(Implies(n == 0, w == e.latent()))
    hset(c.ex, c.st, NT(e.T), "npair", a)
    setb(c, e, rdata=put(e.B.rdata, e.b, w))


def SCOREF(e, v):
    """joint score with the latent value v"""
    nm = fresh("nm", SSrt())
    p = e.ptr(nm)
    t = NSC(ALL(e.PD(e.D(p), v), select(e.h["ncl"], p), e.items(p)), select(e.h["nhyp"], p))
    return SCR2(put(e.B.rin, e.b, v), raw(e.B.rcl), e.B.rhyp) + SETSUMF(SSrt())(z3.Lambda([nm], If(inn(e.M, nm), t, z3.RealVal(0))))


def BASELINE(e):
    nm = fresh("nm", SSrt())
    p = e.ptr(nm)
    return SCR2(e.B.rin, raw(e.B.rcl), e.B.rhyp) + SETSUMF(SSrt())(z3.Lambda([nm], If(inn(e.M, nm), NSC(select(e.h["ncl"], p), select(e.h["nhyp"], p)), z3.RealVal(0))))


def choose_effect(c):
    e = env(c, 1, 5, 6)
    c.ex.globals.extend(e.defs())
    k = fresh("drawn", I)
    cs = raw(c.args[2])
    c.ex.globals.append(And(0 <= k, k < vlen(cs)))
    c.k = k
    inc_to(c, e, select(varr(cs), k))


K_STORE = Contract("unincorporate_and_store_values", "unincorporate_and_store_values",
    pre=lambda c: (lambda e: e.wf(False) + e.paired(True))(env(c, 0, 1, 2)), effect=store_effect, post=store_post)
K_INC = Contract("incorporate_latent_value", "incorporate_latent_value",
    pre=lambda c: (lambda e: e.wf() + e.paired(False) + e.obs(raw(c.args[2])))(env(c, 0, 3, 4)), effect=inc_effect)
K_LAT = Contract("latent_values_incremental_logp", "latent_values_incremental_logp",
    pre=lambda c: (lambda e: e.wf() + e.paired(False) + e.obs(raw(c.args[2])))(env(c, 0, 3, 4)), effect=lat_effect,
    post=lambda c: [("one weight per candidate", vlen(raw(c.ret)) == vlen(raw(c.args[1])))])
K_CH = Contract("choose_and_incorporate_value", "choose_and_incorporate_value",
    pre=lambda c: (lambda e: e.wf() + e.paired(False) + e.obs(raw(c.args[4])) + [("some candidate, one weight each", And(vlen(raw(c.args[2])) > 0, vlen(raw(c.args[3])) == vlen(raw(c.args[2]))))])(env(c, 1, 5, 6)), effect=choose_effect)
for k in (K_STORE, K_INC, K_LAT, K_CH):
    CONTRACTS[k.name] = k


def reg(T):
    O = "unordered_map<string,unordered_map<vector<int>,%s>>" % T
    MT = "unordered_map<string,%s*>" % NT(T)
    SIG = {"transition_latent_value": "PRNG*,vector<int>,%s*,%s" % (RT(T), MT),
        "unincorporate_and_store_values": "vector<int>,%s*,%s" % (RT(T), MT),
        "incorporate_latent_value": "vector<int>&,%s&,%s&,%s*,%s&" % (T, O, RT(T), MT),
        "latent_values_incremental_logp": "vector<int>,vector<%s>,%s,%s*,%s" % (T, O, RT(T), MT),
        "choose_and_incorporate_value": "PRNG*,vector<int>,vector<%s>,vector<double>,%s,%s*,%s" % (T, O, RT(T), MT)}

    def call(x, fn, args):
        return x.ex.call(fn, None, args, x.st, sig=SIG[fn])

    def start(x):
        for f in absrel.GH + ("rin",):
            harr(x.ex, x.st, RT(T), f)
        for f, _ in rec_fields(x.type(NT(T))):
            try:
                harr(x.ex, x.st, NT(T), f)
            except Exception:
                pass
        b = x.val("vector<int>", "base_items")
        M = x.val(MT, "noisy_relations")
        base = x.val("int", "base_relation")
        e = Env(x.ex, x.st, T, b, base, M)
        x.assume(*e.defs())
        return e

    def fields(x, e, st):
        return {f: named(x.ex, harr(x.ex, st, NT(T), f)) for f in e.h}

    def others(x, e, st0, changed):
        """nothing else changes"""
        e1 = Env(x.ex, x.st, T, e.b, e.base, e.M)
        frame_heap(x, st0.heap, "resampling", allow=[k for k in x.st.heap if k[0] in (RT(T), NT(T))])
        p = fresh("p", I)
        for f, _ in rec_fields(x.type(RT(T))):
            a0, a1 = harr(x.ex, st0, RT(T), f), harr(x.ex, x.st, RT(T), f)
            if not a0.eq(a1):
                x.check(Implies(p != e.base, select(a1, p) == select(a0, p)), "other relations keep their %s" % f, "frame")
                if f not in ("rdata", "rin"):
                    x.check(select(a1, e.base) == select(a0, e.base), "the base relation keeps its %s" % f, "frame")
        for f, _ in rec_fields(x.type(NT(T))):
            a0, a1 = st0.heap.get((NT(T), fidx(x, f))), x.st.heap.get((NT(T), fidx(x, f)))
            if a0 is None or a1 is None or a0.eq(a1) or f in changed:
                continue
            x.check(select(a1, p) == select(a0, p), "noisy relations keep their %s" % f, "frame")
        return e1

    def fidx(x, f):
        return [i for i, (n, _) in enumerate(rec_fields(x.type(NT(T)))) if n == f][0]

    def posfact(x, S, j):
        k = fresh("k", S.sort().domain())
        x.assume(FA([k], Implies(And(inn(S, k), POS(S, k) == j), k == EN(S)[j]), patterns=[POS(S, k)]))

    def hooks(x, e, A1):
        """A1(leaf name) -> target array of a relation p, given the state at the start of the nest"""
        def hook(L, node, s0, s, j, N, rng, havoc):
            x.shape(rng is not None, "loops over the noisy relations and their dirty tuples")
            outer = rng[1].n.endswith("map")
            i0 = j if outer else x.ex.itervars[-1][1]
            x.shape(i0 is not None, "nested loops")
            M = e.M
            cur = oval(select(M, EN(M)[i0]))
            e0 = Env(x.ex, s0, T, e.b, e.base, e.M)
            if outer:
                posfact(x, M, j)
            else:
                posfact(x, e0.items(cur), j)
            p = fresh("p", I)
            tgt = {k: A1(L.leafname(k), e0) for k in havoc if k[0] == "h"}
            x.shape(all(v is not None for v in tgt.values()), "loop changes %s" % [L.leafname(k) for k in tgt])
            loc = {k: A1(L.leafname(k), e0) for k in havoc if k[0] != "h"}

            def inv(stt, t):
                out = []
                for k, f in tgt.items():
                    a1, a0 = L.get_leaf(stt, k), L.get_leaf(s0, k)
                    o = select(a0, p)
                    nm = L.leafname(k).split(".")[-1]
                    if outer:
                        new = If(And(e0.hit(p), POS(M, e0.own(p)) < t), f(p, o, None), o)
                    else:
                        new = If(p == cur, f(p, o, t), o)
                    out.append(("%s so far" % nm, FA([p], select(a1, p) == new, patterns=[z3.Select(a1, p)])))
                for k, f in loc.items():
                    x.shape(f is not None, "loop changes %s" % L.leafname(k))
                    out += f(L, k, stt, s0, t, outer, cur, i0)
                return out
            return inv
        x.ex.loop_inv = hook

    def mixer(A):
        """turns an array function into the loop's state: everything (None) or the first t elements"""
        return lambda e0: lambda p, o, t: ALL(A(e0, p, o), o, e0.items(p)) if t is None else MIX(A(e0, p, o), o, e0.items(p), t)

    FN = "incorporate_latent_value"

    @unit("%s<%s> puts the value and every dirty value back, paired with it" % (FN, T), DRV, "C12", funcs=[FN], contracts=RKN[:-1] + ["Relation::get_value"] + NKN, opts=dict(havoc_ok=True))
    def _(x):
        e = start(x)
        v, o = x.val(T, "value"), x.val(O, "noisy_observations")
        x.assume(*[q for _, q in e.wf() + e.paired(False) + e.obs(o)])
        x.reach("precondition")
        st0 = x.st.copy()
        old = e.latent()

        def A1(leaf, e0):
            f = leaf.split(".")[-1]
            val = e0.latent()
            if f in ("ncl", "npair"):
                return mixer(lambda e0, p, o: e0.PD(e0.D(p), val))(e0)
            if f == "data":
                return lambda p, o, t: o
            return None
        hooks(x, e, A1)
        call(x, FN, [e.b, v, o, e.base, e.M])
        x.reach("end")
        e1 = others(x, e, st0, ("ncl", "npair"))
        p = fresh("p", I)
        for f in ("ncl", "npair"):
            x.check(select(e1.h[f], p) == If(e.hit(p), ALL(e.PD(e.D(p), v), select(e.h[f], p), e.items(p)), select(e.h[f], p)), "%s: exactly the dirty values of the latent value are paired with the new value" % f)
        x.check(e1.B.rdata == put(e.B.rdata, e.b, v), "the base relation records the new value")
        x.check(e1.B.rin == put(e.B.rin, e.b, v), "its block absorbs the new value")


    def SETP(e, p):
        """dirty tuples listed under the latent value (none when it is not listed)"""
        m = select(e.h["base_to_noisy_items"], p)
        return If(inn(m, e.b), oval(select(m, e.b)), z3.K(VI(), z3.BoolVal(False)))

    FS = "unincorporate_and_store_values"

    @unit("%s<%s> empties the blocks of the latent value and its dirty values, and stores those" % (FS, T), DRV, "C12", funcs=[FS], contracts=RKN[:-1] + ["Relation::get_value"] + NKN, opts=dict(havoc_ok=True))
    def _(x):
        e = start(x)
        x.assume(*[q for _, q in e.wf(False) + e.paired(True)])
        x.reach("precondition")
        st0 = x.st.copy()

        def A1(leaf, e0):
            f = leaf.split(".")[-1]
            if f == "ncl":
                return lambda p, o, t: ALL(e.NO(), o, SETP(e, p)) if t is None else MIX(e.NO(), o, SETP(e, p), t)
            if f == "base_to_noisy_items":
                return lambda p, o, t: touch(e, p) if t is None else o
            if leaf.startswith("v"):
                def f(L, k, stt, s0, t, outer, cur, i0):
                    a1, a0 = L.get_leaf(stt, k), L.get_leaf(s0, k)
                    nm = fresh("nm", SSrt())
                    p = e.ptr(nm)
                    x.shape(a1.sort().kind() == z3.Z3_ARRAY_SORT and a1.sort().domain() == SSrt(), "a map of stored values")
                    if outer:
                        new = If(And(inn(e.M, nm), POS(e.M, nm) < t), some(ALL(e.D(p), e.NOV(), SETP(e, p))), select(a0, nm))
                    else:
                        new = If(nm == EN(e.M)[i0], some(MIX(e.D(cur), e.NOV(), SETP(e, cur), t)), select(a0, nm))
                    return [("stored values so far", FA([nm], select(a1, nm) == new, patterns=[z3.Select(a1, nm)]))]
                return f
            return None
        hooks(x, e, A1)
        r = raw(call(x, FS, [e.b, e.base, e.M]))
        x.reach("end")
        e1 = others(x, e, st0, ("ncl", "base_to_noisy_items"))
        p, k = fresh("p", I), fresh("k", VI())
        S = SETP(e, p)
        x.check(select(e1.h["base_to_noisy_items"], p) == If(e.hit(p), touch(e, p), select(e.h["base_to_noisy_items"], p)), "the lookup lists the same dirty values")
        x.check(select(select(e1.h["ncl"], p), k) == If(And(e.hit(p), inn(S, k)), none(e.ps), select(select(e.h["ncl"], p), k)), "exactly the dirty values of the latent value leave their blocks")
        x.check(e1.B.rin == drop(e.B.rin, e.b), "the clean block gives up the clean value")
        x.check(e1.B.rdata == e.B.rdata, "the recorded clean value stays", "frame")
        for n, q in e1.obs(r):
            x.check(q, n)

    FL = "latent_values_incremental_logp"

    @unit("%s<%s> weighs each candidate by the joint score with it" % (FL, T), DRV, "C12", funcs=[FL], contracts=RKN[:-1] + NKN + ["incorporate_latent_value"], opts=dict(havoc_ok=True))
    def _(x):
        e = start(x)
        cs, o = x.val("vector<%s>" % T, "candidates"), x.val(O, "noisy_observations")
        x.assume(*[q for _, q in e.wf() + e.paired(False) + e.obs(o)])
        x.reach("precondition")
        st0 = x.st.copy()
        SC = z3.Function("SCOREWITH_" + T, e.vs, R)
        BL = x.define("baseline", BASELINE(e))
        cand = lambda i: select(varr(cs), i)

        def A1(leaf, e0):
            if leaf.split(".")[-1] == "ncl":
                return mixer(lambda e0, p, o: e0.NO())(e0)
            return None
        hooks(x, e, A1)
        nest = x.ex.loop_inv

        def hook(L, node, s0, s, j, N, rng, havoc):
            if rng is None or not is_seq(rng[1]):
                return nest(L, node, s0, s, j, N, rng, havoc)
            x.assume(SC(cand(j)) == SCOREF(e, cand(j)))
            p, i = fresh("p", I), fresh("i", I)

            def inv(stt, t):
                out = []
                e0 = Env(x.ex, s0, T, e.b, e.base, e.M)
                w = cand(t - 1)
                for k in havoc:
                    a1, a0 = L.get_leaf(stt, k), L.get_leaf(s0, k)
                    f = L.leafname(k).split(".")[-1] if k[0] == "h" else None
                    if f is None:
                        x.shape(is_vec(a1.sort()) and a1.sort() == vec_sort(R), "a vector of weights")
                        out += [("one weight per candidate so far", vlen(a1) == t), ("weight: score with the candidate minus score without it", FA([i], Implies(And(0 <= i, i < t), select(varr(a1), i) == SC(cand(i)) - BL), patterns=[z3.Select(varr(a1), i)]))]
                    elif f == "rdata":
                        out.append(("the base relation records the last candidate", FA([p], select(a1, p) == If(And(p == e.base, t > 0), put(select(a0, p), e.b, w), select(a0, p)), patterns=[z3.Select(a1, p)])))
                    elif f == "npair":
                        out.append(("dirty values are paired with the last candidate", FA([p], select(a1, p) == If(And(e.hit(p), t > 0), ALL(e.PD(e.D(p), w), select(a0, p), e.items(p)), select(a0, p)), patterns=[z3.Select(a1, p)])))
                    elif f in ("ncl", "rin"):
                        out.append(("%s is as before" % f, FA([p], select(a1, p) == select(a0, p), patterns=[z3.Select(a1, p)])))
                    else:
                        x.shape(False, "loop over the candidates changes " + f)
                return out
            return inv
        x.ex.loop_inv = hook
        r = raw(call(x, FL, [e.b, cs, o, e.base, e.M]))
        x.reach("end")
        e1 = others(x, e, st0, ("npair", "ncl"))
        p, i = fresh("p", I), fresh("i", I)
        n = vlen(cs)
        w = If(n == 0, e.latent(), cand(n - 1))
        x.check(vlen(r) == n, "one weight per candidate")
        x.assume(SC(cand(i)) == SCOREF(e, cand(i)))
        x.check(Implies(And(0 <= i, i < n), select(varr(r), i) == SC(cand(i)) - BL), "weight: joint score with the candidate minus the score without the latent value")
        x.check(select(e1.h["ncl"], p) == select(e.h["ncl"], p), "blocks are as before")
        x.check(select(e1.h["npair"], p) == If(e.hit(p), ALL(e.PD(e.D(p), w), select(e.h["npair"], p), e.items(p)), select(e.h["npair"], p)), "dirty values stay paired with the recorded clean value")
        x.check(e1.B.rin == e.B.rin, "the clean block is as before")
        x.check(e1.B.rdata == put(e.B.rdata, e.b, w), "only the latent value is replaced")

    FC = "choose_and_incorporate_value"

    @unit("%s<%s> draws a candidate by the weights and puts everything back with it" % (FC, T), DRV, "C12", funcs=[FC], contracts=["log_choice", "incorporate_latent_value"])
    def _(x):
        e = start(x)
        g, cs, lp, o = x.val("int", "prng"), x.val("vector<%s>" % T, "candidates"), x.val("vector<double>", "logpx"), x.val(O, "noisy_observations")
        x.assume(*[q for _, q in e.wf() + e.paired(False) + e.obs(o)])
        x.assume(vlen(cs) > 0, vlen(lp) == vlen(cs), g != 0)
        x.reach("precondition")
        st0 = x.st.copy()
        call(x, FC, [g, e.b, cs, lp, o, e.base, e.M])
        x.reach("end")
        c = x.lastcall("log_choice")
        k = raw(c.ret)
        x.check(And(0 <= k, k < vlen(cs)), "a candidate is drawn")
        i = fresh("i", I)
        x.check(And(vlen(raw(c.args[0])) == vlen(lp), Implies(And(0 <= i, i < vlen(lp)), select(varr(raw(c.args[0])), i) == select(varr(lp), i))), "the draw uses the weights")
        v = select(varr(cs), k)
        e1 = others(x, e, st0, ("ncl", "npair"))
        p = fresh("p", I)
        for f in ("ncl", "npair"):
            x.check(select(e1.h[f], p) == If(e.hit(p), ALL(e.PD(e.D(p), v), select(e.h[f], p), e.items(p)), select(e.h[f], p)), "%s: exactly the dirty values of the latent value are paired with the drawn value" % f)
        x.check(And(e1.B.rdata == put(e.B.rdata, e.b, v), e1.B.rin == put(e.B.rin, e.b, v)), "the base relation records and absorbs the drawn value")

    FT = "transition_latent_value"

    @unit("%s<%s> leaves every statistic equal to the data" % (FT, T), DRV, "C12", funcs=[FT], contracts=["Relation::nearest", "NoisyRelation::get_emission_clusters", "Emission::propose_clean", K_STORE.name, K_LAT.name, K_CH.name], opts=dict(havoc_ok=True))
    def _(x):
        e = start(x)
        g = x.val("int", "prng")
        x.assume(*[q for _, q in e.wf(False) + e.paired(True)])
        x.assume(g != 0)
        x.reach("precondition")
        st0 = x.st.copy()
        NE = z3.Function("HASDATA_" + T, I, B)
        p, k = fresh("p", I), fresh("k", VI())
        wit = z3.Function("SOMETUPLE_" + T, I, VI())
        x.assume(FA([p, k], Implies(inn(e.D(p), k), NE(p)), patterns=[z3.Select(e.D(p), k)]), FA([p], NE(p) == inn(e.D(p), wit(p)), patterns=[NE(p)]))

        def hook(L, node, s0, s, j, N, rng, havoc):
            x.shape(rng is not None and all(q[0] == "e" and is_vec(L.get_leaf(s0, q).sort()) for q in havoc), "vectors are collected: %s" % [L.leafname(q) for q in havoc])
            nm = fresh("nm", SSrt())
            src = x.ex.load(s0, rng[0])
            isM = src.eq(e.M) or z3.simplify(src).eq(e.M)
            ks = [c for n, c in x.ex.calls if n == "NoisyRelation::get_emission_clusters"]
            inner = not isM and bool(ks) and raw(ks[-1].ret).eq(src)
            x.assume(FA([nm], Implies(And(inn(e.M, nm), POS(e.M, nm) == j), nm == EN(e.M)[j]), patterns=[POS(e.M, nm)]))

            def inv(stt, t):
                out = []
                for q in havoc:
                    v1, v0 = L.get_leaf(stt, q), L.get_leaf(s0, q)
                    out.append(("length", vlen(v1) >= 0))
                    if isM:
                        out.append(("a candidate for every relation with observations so far", FA([nm], Implies(And(inn(e.M, nm), POS(e.M, nm) < t, NE(e.ptr(nm))), vlen(v1) > 0), patterns=[POS(e.M, nm)])))
                    elif inner:
                        out.append(("one candidate per block", vlen(v1) >= vlen(v0) + t))
                return out
            return inv
        x.ex.loop_inv = hook
        call(x, FT, [g, e.b, e.base, e.M])
        x.reach("end")
        cs = [c for n, c in x.ex.calls if n == K_CH.name]
        x.shape(len(cs) == 1, "one choice among candidates")
        c, l = cs[0], x.lastcall(K_LAT.name)
        cand = raw(c.args[2])
        v = select(varr(cand), c.k)
        i = fresh("i", I)
        x.check(And(vlen(raw(l.args[1])) == vlen(cand), Implies(And(0 <= i, i < vlen(cand)), select(varr(raw(l.args[1])), i) == select(varr(cand), i))), "the candidates drawn from are those weighed")
        x.check(And(vlen(raw(l.ret)) == vlen(raw(c.args[3])), Implies(And(0 <= i, i < vlen(cand)), select(varr(raw(l.ret)), i) == select(varr(raw(c.args[3])), i))), "the weights are the joint scores")
        e1 = others(x, e, st0, ("ncl", "npair", "base_to_noisy_items"))
        some_ = z3.Exists([p, k], And(e.hit(p), inn(SETP(e, p), k)))
        act = x.define("resampled", some_)
        S = SETP(e, p)
        for f in ("ncl", "npair"):
            was, now = select(select(e.h[f], p), k), select(select(e1.h[f], p), k)
            x.check(now == If(And(act, e.hit(p), inn(S, k)), some(e.ps.constructor(0)(v, oval(select(e.D(p), k)))), was), "%s: exactly the dirty values of the latent value are paired with the new value" % f)
        x.check(e1.B.rdata == If(act, put(e.B.rdata, e.b, v), e.B.rdata), "only the latent value is replaced, by the drawn candidate")
        x.check(e1.B.rin == If(act, put(e.B.rin, e.b, v), e.B.rin), "its block absorbs exactly the new value")
        m0, m1 = select(e.h["base_to_noisy_items"], p), select(e1.h["base_to_noisy_items"], p)
        bb = fresh("b", VI())
        x.check(And(inn(m1, bb), inn(oval(select(m1, bb)), k)) == And(inn(m0, bb), inn(oval(select(m0, bb)), k)), "the lookup lists the same dirty values")
        for n, q in e1.paired(True):
            x.check(q, "afterwards: " + n)


for T in ("double", "string"):
    reg(T)
