"""HIRM (C15): relations, codes, components.

Components (IRM objects) are known through what they hold: IRM.relations maps a relation's name to its object; the
objects' recorded observations are the ghost rdata of specs/absrel.py.  A noisy relation's base_relation field is real."""
from spec import *
import absrel, clean, crp
from clean import FA, MP, named, harr, hset, frame_heap, unchanged
from absdom import put, drop
from absrel import VT, SS
from dist import snap
from irm import TYPES, RT
import util_math as _um
from sorts import an_

F = ["hirm.cc"]
CONTRACTS = dict(_um.CONTRACTS)
CONTRACTS.update(crp.CONTRACTS)
CONTRACTS.update(absrel.CONTRACTS)


def NT(T):
    return "NoisyRelation<%s>" % T


def tyirm():
    from ir import _types
    return _types["IRM"]


def KTYPES():
    """value type of each alternative of RelationVariant, in declaration order"""
    t = [ft for f, ft in rec_fields(tyirm()) if f == "relations"][0].args[1]
    out = []
    for a in t.args:
        out.append([T for T in VT if RT(T) in a.deref().s][0])
    return out


def relsort():
    t = [ft for f, ft in rec_fields(tyirm()) if f == "relations"][0].args[1]
    return sort(t)


def trel_types():
    t = [ft for f, ft in rec_fields(tyirm()) if f == "schema"][0].args[1]
    return t.args


def trel_types_variant():
    return [ft for f, ft in rec_fields(tyirm()) if f == "schema"][0].args[1]


def fresh_objects(x, w):
    """a new object is none of the objects of the model"""
    def hook(ex, st, q):
        t, r = fresh("t", I), fresh("r", SS())
        x.ex.globals.append(FA([t], Implies(inn(w.irms, t), w.irm(t) != q), patterns=[z3.Select(w.irms, t)]))
        for j, T in enumerate(w.K):
            x.ex.globals.append(FA([r], Implies(And(w.known(r), sel(w.cur(r), 0) == j), sel(w.cur(r), j + 1) != q), patterns=[z3.Select(w.r2c, r)]))
    x.ex.alloc_hooks = [hook]


def tfield(k, v, name):
    """field of the clean (k=0) or noisy (k=1) alternative of a schema entry v"""
    a = trel_types()[k]
    return sel(sel(v, k + 1), [i for i, (f, _) in enumerate(rec_fields(a)) if f == name][0])


def isnoisy(v):
    return sel(v, 0) == 1


def NDOM(v):
    return If(isnoisy(v), vlen(tfield(1, v, "domains")), vlen(tfield(0, v, "domains")))


def KINDC(c):
    """value type of a clean relation, from its distribution"""
    return z3.Function("KINDC", c.sort(), I)(c)


def rdarr(ex, st, T):
    return harr(ex, st, RT(T), "rdata")


# ---- components
def mkvar(k, q):
    s = relsort()
    return s.constructor(0)(k, *[q for _ in range(s.constructor(0).arity() - 1)])


def irmrel(c):
    return raw(c.this0.relations)


def cur(c, r):
    return oval(select(irmrel(c), r))


def setrel(c, m):
    for f in ("schema", "domains", "domain_to_relations", "base_to_noisy_relations"):
        p = c.ex.fld(c.place, f)
        c.ex.store(c.st, p, fresh("m_" + f, c.ex.load(c.st, p).sort()))
    c.ex.store(c.st, c.ex.fld(c.place, "relations"), m)


def inc_pre(c):
    r, its, v = raw(c.args[1]), raw(c.args[2]), raw(c.args[3])
    out = [("a generator is given", c.args[0] != 0), ("the component holds the relation", inn(irmrel(c), r))]
    names = obsnames(c)
    for k, T in enumerate(KTYPES()):
        q = sel(cur(c, r), k + 1)
        out.append(("the value has the relation's type, the tuple is new and of the right length",
            Implies(sel(cur(c, r), 0) == k, And(sel(v, 0) == names[T], Not(inn(select(rdarr(c.ex, c.st0, T), q), its)), vlen(its) == vlen(select(harr(c.ex, c.st0, RT(T), "rdoms"), q))))))
    return out


def obsnames(c):
    t = [f for f in c.ex.prog.funcs.values() if f.sname == "HIRM::incorporate"][0].params[3]["t"].deref()
    ns = [a.s for a in t.args]
    return {T: [i for i, n in enumerate(ns) if n == T or (T == "string" and "string" in n)][0] for T in VT}


def inc_effect(c):
    r, its, v = raw(c.args[1]), raw(c.args[2]), raw(c.args[3])
    names = obsnames(c)
    for k, T in enumerate(KTYPES()):
        q, a = sel(cur(c, r), k + 1), rdarr(c.ex, c.st, T)
        hset(c.ex, c.st, RT(T), "rdata", z3.Store(a, q, If(sel(cur(c, r), 0) == k, put(select(a, q), its, sel(v, names[T] + 1)), select(a, q))))


def uninc_pre(c):
    r, its = raw(c.args[0]), raw(c.args[1])
    out = [("the component holds the relation", inn(irmrel(c), r))]
    for k, T in enumerate(KTYPES()):
        out.append(("the tuple is stored", Implies(sel(cur(c, r), 0) == k, inn(select(rdarr(c.ex, c.st0, T), sel(cur(c, r), k + 1)), its))))
    return out


def uninc_effect(c):
    r, its = raw(c.args[0]), raw(c.args[1])
    for k, T in enumerate(KTYPES()):
        q, a = sel(cur(c, r), k + 1), rdarr(c.ex, c.st, T)
        hset(c.ex, c.st, RT(T), "rdata", z3.Store(a, q, If(sel(cur(c, r), 0) == k, drop(select(a, q), its), select(a, q))))


def EMPTY(ex, st, T):
    return default(rdarr(ex, st, T).sort().range())


def add_effect(c, name, kind, ndom, base=None):
    q = c.ex.alloc(c.st)
    c.newrel = q
    setrel(c, put(irmrel(c), name, mkvar(kind, q)))
    for k, T in enumerate(KTYPES()):
        for f, val in (("rdata", EMPTY(c.ex, c.st, T)), ("rdoms", None)):
            a = harr(c.ex, c.st, RT(T), f)
            if val is None:
                val = fresh("rdoms", vec_sort(I))
                c.ex.fact(c.st, vlen(val) == ndom)
            hset(c.ex, c.st, RT(T), f, z3.Store(a, q, If(kind == k, val, select(a, q))))
        if base is not None:
            a = harr(c.ex, c.st, NT(T), "base_relation")
            hset(c.ex, c.st, NT(T), "base_relation", z3.Store(a, q, If(kind == k, sel(base, k + 1), select(a, q))))


def add_clean(c):
    if raw(c.args[1]).sort() != sort(trel_types()[0]):
        raise Unsupported("IRM::add_relation of a noisy relation from the hierarchical model")
    v = raw(c.args[1])
    i = [j for j, (f, _) in enumerate(rec_fields(trel_types()[0])) if f == "domains"][0]
    kind = KINDC(v)
    c.ex.fact(c.st, And(0 <= kind, kind < len(KTYPES())))
    add_effect(c, raw(c.args[0]), kind, vlen(sel(v, i)))


def add_noisy(c):
    v, b = raw(c.args[1]), raw(c.args[2])
    i = [j for j, (f, _) in enumerate(rec_fields(trel_types()[1])) if f == "domains"][0]
    add_effect(c, raw(c.args[0]), sel(b, 0), vlen(sel(v, i)), base=b)


def rem_effect(c):
    r = raw(c.args[0])
    setrel(c, drop(irmrel(c), r))
    for k, T in enumerate(KTYPES()):
        # the object is gone: whatever is read through it afterwards is arbitrary
        q, a = sel(cur(c, r), k + 1), rdarr(c.ex, c.st, T)
        hset(c.ex, c.st, RT(T), "rdata", z3.Store(a, q, If(sel(cur(c, r), 0) == k, fresh("dead", a.sort().range()), select(a, q))))


def newirm(c):
    m = raw(c.args[0])
    if not m.eq(z3.simplify(default(m.sort()))) and not m.eq(default(m.sort())):
        raise Unsupported("a component made from a schema")
    setrel(c, default(irmrel(c).sort()))


for k in (
    Contract("IRM::IRM", "IRM::IRM", effect=newirm),
    Contract("IRM::incorporate", "IRM::incorporate", pre=inc_pre, effect=inc_effect),
    Contract("IRM::unincorporate", "IRM::unincorporate", pre=uninc_pre, effect=uninc_effect),
    Contract("IRM::add_relation", "IRM::add_relation", pre=lambda c: [("the component does not hold the relation", Not(inn(irmrel(c), raw(c.args[0]))))], effect=add_clean),
    Contract("IRM::add_relation_with_base", "IRM::add_relation_with_base", pre=lambda c: [("the component does not hold the relation", Not(inn(irmrel(c), raw(c.args[0])))), ("the base relation is an object", And(*[Implies(sel(raw(c.args[2]), 0) == k, sel(raw(c.args[2]), k + 1) != 0) for k in range(4)]))], effect=add_noisy),
    Contract("IRM::remove_relation", "IRM::remove_relation", pre=lambda c: [("the component holds the relation", inn(irmrel(c), raw(c.args[0])))], effect=rem_effect),
    Contract("IRM::logp_score", "IRM::logp_score", value=lambda c: IRMSC(c.place.path[0][1])),
    Contract("CRP::logp_score/h", "CRP::logp_score", value=lambda c: z3.Function("CRPSCORE", c.this0.t.sort(), R)(c.this0.t)),
    Contract("CRP::sample/h", "CRP::sample", pre=lambda c: crp.crp_inv(c.this0), post=lambda c: [("a table id", c.ret >= 0)]),
):
    CONTRACTS[k.name] = k
IRMK = ["IRM::incorporate", "IRM::unincorporate", "IRM::add_relation", "IRM::add_relation_with_base", "IRM::remove_relation", "IRM::IRM"]


def IRMSC(p):
    return z3.Function("IRMSCORE", I, R)(p)


# ---- the model
class W:
    """the hierarchical model in one state"""
    n = 0

    def __init__(s, x, m, st=None, tag=""):
        st = st or x.st
        s.x, s.m, s.st, s.tag = x, m, st, tag
        def nm(t):
            c = G.setdefault("names", {})
            if t.get_id() not in c:
                c[t.get_id()] = (t, named(x.ex, t))
            return c[t.get_id()][1]
        s.schema, s.irms, s.r2c, s.c2r, s.b2n = (nm(raw(getattr(m, f))) for f in ("schema", "irms", "relation_to_code", "code_to_relation", "base_to_noisy_relations"))
        s.A, s.TB = nm(raw(m.crp.assignments)), nm(raw(m.crp.tables))
        s.RM = nm(harr(x.ex, st, "IRM", "relations"))
        s.K = KTYPES()
        s.RD = [nm(harr(x.ex, st, RT(T), "rdata")) for T in s.K]
        s.RO = [nm(harr(x.ex, st, RT(T), "rdoms")) for T in s.K]
        s.NB = [nm(harr(x.ex, st, NT(T), "base_relation")) for T in s.K]

    def known(s, r): return inn(s.r2c, r)
    def code(s, r): return oval(select(s.r2c, r))
    def tab(s, r): return oval(select(s.A, s.code(r)))
    def irm(s, t): return oval(select(s.irms, t))
    def held(s, p, r): return inn(select(s.RM, p), r)
    def rel(s, p, r): return oval(select(select(s.RM, p), r))
    def cur(s, r): return s.rel(s.irm(s.tab(r)), r)
    def sch(s, r): return oval(select(s.schema, r))
    def base(s, r): return tfield(1, s.sch(r), "base_relation")
    def noisy(s, r): return And(inn(s.schema, r), isnoisy(s.sch(r)))
    def obs(s, r, k): return select(s.RD[k], sel(s.cur(r), k + 1))
    def lst(s, b): return oval(select(s.b2n, b))

    def listed(s, r): return z3.Function("LISTED" + s.tag, SS(), I)(r)

    def inv(s, assume, stale=None, wit=None, own=None):
        """named clauses; assumed with triggers, checked for arbitrary constants"""
        r, c, t, u, q, i, its = (fresh(n, so) for n, so in (("r", SS()), ("c", I), ("t", I), ("u", I), ("q", SS()), ("i", I), ("its", vec_sort(I))))

        def qf(v, body, pats):
            return FA(v, body, patterns=pats) if assume else body
        H = z3.Select
        o = []
        add = lambda n, v, b, p: o.append((n, qf(v, b, p)))
        add("each relation has one code, and the code names it", [r], Implies(s.known(r), And(inn(s.c2r, s.code(r)), oval(select(s.c2r, s.code(r))) == r, inn(s.A, s.code(r)))), [H(s.r2c, r)])
        add("each code names a relation with that code", [c], Implies(inn(s.c2r, c), And(s.known(oval(select(s.c2r, c))), s.code(oval(select(s.c2r, c))) == c)), [H(s.c2r, c)])
        add("the relation clustering seats exactly the codes", [c], inn(s.A, c) == inn(s.c2r, c), [H(s.A, c), H(s.c2r, c)])
        add("the components are the tables of the relation clustering", [t], inn(s.irms, t) == inn(s.TB, t), [H(s.irms, t), H(s.TB, t)])
        if assume:
            OWN = lambda p: z3.Function("OWNI" + s.tag, I, I)(p)
            add("components are objects of their own", [t], Implies(inn(s.irms, t), And(s.irm(t) > 0, OWN(s.irm(t)) == t)), [H(s.irms, t)])
        elif own is not None:
            add("components are objects of their own", [t], Implies(inn(s.irms, t), And(s.irm(t) > 0, own(None, s.irm(t)) == t)), None)
        else:
            add("components are objects of their own", [t, u], Implies(inn(s.irms, t), And(s.irm(t) > 0, Implies(And(inn(s.irms, u), u != t), s.irm(u) != s.irm(t)))), None)
        add("a component holds exactly the relations whose code names it", [t, r], Implies(inn(s.irms, t), s.held(s.irm(t), r) == And(s.known(r), s.tab(r) == t)), [H(H(s.RM, s.irm(t)), r)])
        add("the schema lists exactly the relations", [r], inn(s.schema, r) == s.known(r), [H(s.schema, r), H(s.r2c, r)])
        k = s.K
        v = s.cur(r)
        tag = sel(v, 0)
        add("a relation's object has the type of its schema entry", [r], Implies(s.known(r), And(0 <= tag, tag < len(k), 0 <= sel(s.sch(r), 0), sel(s.sch(r), 0) < 2, NDOM(s.sch(r)) >= 0, Implies(Not(isnoisy(s.sch(r))), tag == KINDC(sel(s.sch(r), 1))))), [H(s.r2c, r)])
        for j, T in enumerate(k):
            p = sel(v, j + 1)
            if assume:
                OWN = lambda a: z3.Function("OWNR%d" % j + s.tag, I, SS())(a)
                add("%s relations are objects of their own" % T, [r], Implies(And(s.known(r), tag == j), And(p > 0, OWN(p) == r)), [H(s.r2c, r)])
            elif own is not None:
                add("%s relations are objects of their own" % T, [r], Implies(And(s.known(r), tag == j), And(p > 0, own(j, p) == r)), None)
            else:
                w = s.cur(q)
                add("%s relations are objects of their own" % T, [r, q], Implies(And(s.known(r), tag == j), And(p > 0, Implies(And(s.known(q), q != r, sel(w, 0) == j), sel(w, j + 1) != p))), None)
            add("%s relations are over as many domains as their schema entry" % T, [r], Implies(And(s.known(r), tag == j), vlen(select(s.RO[j], p)) == NDOM(s.sch(r))), [H(s.r2c, r)])
            add("observations of %s relations have one entity per domain" % T, [r, its], Implies(And(s.known(r), tag == j, inn(select(s.RD[j], p), its)), vlen(its) == NDOM(s.sch(r))), [MP(H(s.r2c, r), H(H(s.RD[j], p), its))])
        b = s.base(r)
        add("a noisy relation's base is in the model and of the same type", [r], Implies(s.noisy(r), And(s.known(b), b != r, sel(s.cur(b), 0) == tag)), [H(s.schema, r)])
        for j, T in enumerate(k):
            add("a noisy %s relation points to the current object of its base" % T, [r], Implies(And(s.noisy(r), tag == j, b != stale if stale is not None else True), select(s.NB[j], sel(v, j + 1)) == sel(s.cur(b), j + 1)), [H(s.schema, r)])
        l = s.lst(r)
        e = select(varr(l), i)
        add("relations listed under a base are its noisy relations", [r, i], Implies(And(inn(s.b2n, r), 0 <= i, i < vlen(l)), And(s.noisy(e), s.base(e) == r)), [H(varr(l), i)])
        if assume:
            add("lists have a length", [r], Implies(inn(s.b2n, r), vlen(l) >= 0), [H(s.b2n, r)])
            ix = s.listed(r)
            add("every noisy relation is listed under its base", [r], Implies(s.noisy(r), And(inn(s.b2n, b), 0 <= ix, ix < vlen(s.lst(b)), select(varr(s.lst(b)), ix) == r)), [H(s.schema, r)])
        else:
            if wit is not None:
                i = wit(r)
                add("every noisy relation is listed under its base", [r], Implies(s.noisy(r), And(inn(s.b2n, b), 0 <= i, i < vlen(s.lst(b)), select(varr(s.lst(b)), i) == r)), None)
            else:
                add("every noisy relation is listed under its base", [r], Implies(s.noisy(r), And(inn(s.b2n, b), z3.Exists([i], And(0 <= i, i < vlen(s.lst(b)), select(varr(s.lst(b)), i) == r)))), None)
        o += [(n, f) for n, f in crp.crp_inv(s.m.crp)]
        return o


def same_but(w, b, w0, b0, r):
    """base pointers b of the model w against those b0 before: the noisy relations of r point to its object"""
    q = fresh("q", SS())
    out = []
    for j, T in enumerate(w.K):
        a = sel(w.cur(q), j + 1)
        hit = And(w.noisy(q), w.base(q) == r)
        out.append(("noisy %s relations of the relation point to its current object, others keep theirs" % T,
            q, Implies(And(w.known(q), sel(w.cur(q), 0) == j), select(b[j], a) == If(hit, sel(w.cur(r), j + 1), select(b0[j], a))), a, j))
    return out


def ub_pre(c):
    c.w = W(c, c.this0, c.st0, tag="U%d" % next(_fresh_ids))
    r = raw(c.args[0])
    G["w1"] = c.w
    lem = G["lemmas"](c.w) if G.get("lemmas") else []
    return [("the relation is in the model", c.w.known(r))] + lem + c.w.inv(False, stale=r, wit=G.get("wit"), own=G["own"](c.w) if G.get("own") else None)


def ub_effect(c):
    r = raw(c.args[0])
    new = []
    for j, T in enumerate(c.w.K):
        a = fresh("nbase", c.w.NB[j].sort())
        new.append(a)
        hset(c.ex, c.st, NT(T), "base_relation", a)
    for n, q, f, a, j in same_but(c.w, new, c.w, c.w.NB, r):
        c.ex.globals.append(FA([q], f, patterns=[z3.Select(new[j], a)]))


import itertools
G = {}
_fresh_ids = itertools.count()
CONTRACTS["HIRM::update_base_relation"] = Contract("HIRM::update_base_relation", "HIRM::update_base_relation", pre=ub_pre, effect=ub_effect)


def start(x, stale=None):
    p = x.obj("HIRM")
    m = snap(x, p)
    g = x.val("int", "prng")
    G.clear()
    G["p"] = p
    x.assume(g != 0)
    for f in ("relations", "schema", "domains", "domain_to_relations", "base_to_noisy_relations"):
        harr(x.ex, x.st, "IRM", f)
    for T in VT:
        for f in absrel.GH + ("rin",):
            harr(x.ex, x.st, RT(T), f)
        harr(x.ex, x.st, NT(T), "base_relation")
    w = W(x, m, tag="0")
    x.assume(*[q for _, q in w.inv(True, stale)])
    return p, m, g, w


FIELDS = ("schema", "irms", "relation_to_code", "code_to_relation", "base_to_noisy_relations", "crp")


@unit("HIRM: the component and the object of a relation are those its code names", F, "C15", funcs=["HIRM::relation_to_table", "HIRM::relation_to_irm", "HIRM::get_relation"])
def _(x):
    p, m, g, w = start(x)
    r = x.val("string", "r")
    x.assume(w.known(r))
    st0 = x.st.copy()
    x.reach("precondition")
    x.check(raw(x.call("HIRM::relation_to_table", p, [r])) == w.tab(r), "table of the relation's code")
    x.check(raw(x.call("HIRM::relation_to_irm", p, [r])) == w.irm(w.tab(r)), "component of the relation's code")
    x.check(raw(x.call("HIRM::get_relation", p, [r])) == w.cur(r), "the relation's object in its component")
    unchanged(x, m, snap(x, p), FIELDS)
    frame_heap(x, st0.heap, "looking up")


@unit("HIRM::incorporate stores the observation in the relation its code names", F, "C15", funcs=["HIRM::incorporate"], contracts=IRMK)
def _(x):
    p, m, g, w = start(x)
    r, its = x.val("string", "r"), x.val("vector<int>", "items")
    f = [f for f in x.prog.funcs.values() if f.sname == "HIRM::incorporate"][0]
    val = x.val(f.params[3]["t"].deref(), "value")
    names = [a.s for a in f.params[3]["t"].deref().args]
    ix = {T: [i for i, n in enumerate(names) if n == T or (T == "string" and "string" in n)][0] for T in VT}
    x.assume(w.known(r), vlen(its) == NDOM(w.sch(r)))
    for k, T in enumerate(w.K):
        x.assume(Implies(sel(w.cur(r), 0) == k, And(sel(val, 0) == ix[T], Not(inn(w.obs(r, k), its)))))
    x.reach("precondition")
    x.call("HIRM::incorporate", p, [g, r, its, val])
    d = snap(x, p)
    w1 = W(x, d, tag="1")
    x.check(w1.inv(False), "afterwards")
    q = fresh("q", SS())
    for k, T in enumerate(w.K):
        x.check(Implies(And(w.known(q), sel(w.cur(q), 0) == k), w1.obs(q, k) == If(q == r, put(w.obs(q, k), its, sel(val, ix[T] + 1)), w.obs(q, k))), "exactly this observation is added (%s)" % T)
    unchanged(x, m, d, FIELDS)


@unit("HIRM::unincorporate removes the observation from the relation its code names", F, "C15", funcs=["HIRM::unincorporate"], contracts=IRMK)
def _(x):
    p, m, g, w = start(x)
    r, its = x.val("string", "r"), x.val("vector<int>", "items")
    x.assume(w.known(r))
    for k, T in enumerate(w.K):
        x.assume(Implies(sel(w.cur(r), 0) == k, inn(w.obs(r, k), its)))
    x.reach("precondition")
    x.call("HIRM::unincorporate", p, [r, its])
    d = snap(x, p)
    w1 = W(x, d, tag="1")
    x.check(w1.inv(False), "afterwards")
    q = fresh("q", SS())
    for k, T in enumerate(w.K):
        x.check(Implies(And(w.known(q), sel(w.cur(q), 0) == k), w1.obs(q, k) == If(q == r, drop(w.obs(q, k), its), w.obs(q, k))), "exactly this observation is removed (%s)" % T)
    unchanged(x, m, d, FIELDS)


@unit("HIRM::logp_score adds the scores of the relation clustering and of the components", F, "C15", funcs=["HIRM::logp_score"], contracts=["IRM::logp_score", "CRP::logp_score/h"])
def _(x):
    p, m, g, w = start(x)
    st0 = x.st.copy()
    x.reach("precondition")
    s = raw(x.call("HIRM::logp_score", p, []))
    k = fresh("k", I)
    want = z3.Function("CRPSCORE", m.crp.t.sort(), R)(m.crp.t) + SETSUMF(I)(z3.Lambda([k], If(inn(w.irms, k), IRMSC(oval(select(w.irms, k))), z3.RealVal(0))))
    x.check(s == want, "relation clustering plus the sum over the components")
    unchanged(x, m, snap(x, p), FIELDS)
    frame_heap(x, st0.heap, "scoring")


@unit("HIRM::update_base_relation redirects every noisy relation of a relation to its current object", F, "C15", funcs=["HIRM::update_base_relation"], opts={"havoc_ok": True})
def _(x):
    r = x.val("string", "r")
    p, m, g, w = start(x, stale=r)
    x.assume(w.known(r))
    st0 = x.st.copy()
    x.reach("precondition")

    def hook(L, node, st_, s0, j, N, rng, havoc):
        l = w.lst(r)
        i, q = fresh("i", I), fresh("q", SS())

        def inv(stt, t):
            out = []
            for k, T in enumerate(w.K):
                b = harr(x.ex, stt, NT(T), "base_relation")
                e = select(varr(l), i)
                out.append(("listed %s relations so far point to the current object" % T, FA([i], Implies(And(0 <= i, i < t, sel(w.cur(r), 0) == k), select(b, sel(w.cur(e), k + 1)) == sel(w.cur(r), k + 1)), patterns=[z3.Select(varr(l), i)])))
                out.append(("other %s relations keep their base" % T, FA([q], Implies(And(w.known(q), sel(w.cur(q), 0) == k, Not(And(w.noisy(q), w.base(q) == r))), select(b, sel(w.cur(q), k + 1)) == select(w.NB[k], sel(w.cur(q), k + 1))), patterns=[z3.Select(w.r2c, q)])))
            return out
        return inv
    x.ex.loop_inv = hook
    x.call("HIRM::update_base_relation", p, [r])
    x.reach("end")
    d = snap(x, p)
    w1 = W(x, d, tag="1")
    for n, q, f, a, j in same_but(w, w1.NB, w, w.NB, r):
        x.check(f, n)
    x.check(w1.inv(False), "afterwards")
    unchanged(x, m, d, FIELDS)
    frame_heap(x, st0.heap, "redirecting", allow=[k for k in x.st.heap if rec_fields(x.ex.type_by_name(k[0]))[k[1]][0] == "base_relation"])


def alone(x, w, r):
    """a table of one customer seats no other relation"""
    t = oval(select(w.TB, w.tab(r)))
    c = fresh("c", I)
    x.ex.card(x.st, t)
    x.ex.card(x.st, z3.Store(t, w.code(r), z3.BoolVal(False)))
    lone = x.define("lone", CARD(t) == 1)
    x.lemma(FA([c], Implies(And(lone, inn(t, c)), c == w.code(r)), patterns=[z3.Select(t, c)]), "a table of one customer seats no other relation")
    rels = select(w.RM, w.irm(w.tab(r)))
    x.ex.card(x.st, rels)
    rest = drop(rels, r)
    x.ex.card(x.st, rest)
    cc = z3.Function("wit_" + an_(t.sort()), t.sort(), I)(z3.Store(t, w.code(r), z3.BoolVal(False)))
    x.lemma(Implies(Not(lone), And(inn(t, cc), cc != w.code(r))), "a table of several customers seats another relation")
    q = oval(select(w.c2r, cc))
    x.lemma(Implies(Not(lone), And(inn(rels, q), q != r)), "its component holds another relation")
    x.lemma((CARD(rest) == 0) == lone, "the component is empty without the relation iff it was alone")
    return lone


def others(x, w, w1, r, what):
    """relations other than r keep their code, cluster, schema entry, type and observations"""
    q = fresh("q", SS())
    hyp = And(w.known(q), q != r)
    pats = [z3.Select(w.r2c, q), z3.Select(w1.r2c, q), z3.Select(w1.schema, q)]
    x.lemma(FA([q], Implies(hyp, And(w1.known(q), w1.code(q) == w.code(q), w1.tab(q) == w.tab(q), w1.sch(q) == w.sch(q))), patterns=pats), "other relations keep their code, cluster and schema entry " + what)
    x.lemma(FA([q], Implies(hyp, And(w1.irm(w1.tab(q)) == w.irm(w.tab(q)), w1.cur(q) == w.cur(q))), patterns=pats), "other relations keep their component and object " + what)
    for k, T in enumerate(w.K):
        x.lemma(FA([q], Implies(And(hyp, sel(w.cur(q), 0) == k), And(w1.obs(q, k) == w.obs(q, k), select(w1.RO[k], sel(w1.cur(q), k + 1)) == select(w.RO[k], sel(w.cur(q), k + 1)), select(w1.NB[k], sel(w1.cur(q), k + 1)) == select(w.NB[k], sel(w.cur(q), k + 1)))), patterns=pats), "other %s relations keep their observations %s" % (T, what))


@unit("HIRM::remove_relation removes the relation everywhere", F, "C15", funcs=["HIRM::remove_relation"], contracts=IRMK + ["CRP::unincorporate"], opts={"havoc_ok": True})
def _(x):
    p, m, g, w = start(x)
    r, q = x.val("string", "r"), fresh("q", SS())
    x.assume(w.known(r), FA([q], Implies(w.noisy(q), w.base(q) != r), patterns=[z3.Select(w.schema, q)]))
    st0 = x.st.copy()
    alone(x, w, r)
    x.reach("precondition")
    x.call("HIRM::remove_relation", p, [r])
    x.reach("end")
    d = snap(x, p)
    w1 = W(x, d, tag="1")
    others(x, w, w1, r, "after the removal")
    x.check(w1.inv(False), "afterwards")
    q = fresh("q", SS())
    x.check(w1.known(q) == And(w.known(q), q != r), "exactly this relation is gone")


CONTRACTS["HIRM::add_relation/never"] = Contract("HIRM::add_relation/never", "HIRM::add_relation", pre=lambda c: [("the base relation is added before its noisy relations", z3.BoolVal(False))])


@unit("HIRM::add_relation adds the relation to the component of its cluster", F, "C15", funcs=["HIRM::add_relation", "HIRM::add_relation_to_irm"], contracts=IRMK + ["CRP::incorporate", "CRP::sample/h", "HIRM::add_relation/never"], opts={"havoc_ok": True})
def _(x):
    p, m, g, w = start(x)
    r = x.val("string", "r")
    rel = x.val(trel_types_variant(), "rel")
    v = raw(rel)
    fresh_objects(x, w)
    base = tfield(1, v, "base_relation")
    x.assume(Not(inn(w.schema, r)), 0 <= sel(v, 0), sel(v, 0) < 2, vlen(tfield(0, v, "domains")) >= 0, vlen(tfield(1, v, "domains")) >= 0, Implies(isnoisy(v), And(w.known(base), base != r)))
    x.reach("precondition")
    fs = [f for f in x.prog.funcs.values() if f.sname == "HIRM::add_relation"]
    x.ex.target = fs[0]
    x.call("HIRM::add_relation", p, [g, r, rel])
    x.reach("end")
    d = snap(x, p)
    w1 = W(x, d, tag="1")
    q = fresh("q", SS())
    t, tr = fresh("t", I), w1.tab(r)
    x.lemma(FA([t], inn(w1.irms, t) == Or(inn(w.irms, t), t == tr), patterns=[z3.Select(w1.irms, t)]), "components: one for the relation's table is made if needed")
    x.lemma(FA([t], Implies(inn(w.irms, t), w1.irm(t) == w.irm(t)), patterns=[z3.Select(w1.irms, t), z3.Select(w.irms, t)]), "components stay")
    x.lemma(FA([t], Implies(And(inn(w.irms, t), t != tr), w.irm(t) != w1.irm(tr)), patterns=[z3.Select(w1.irms, t), z3.Select(w.irms, t)]), "other components are other objects")
    x.lemma(FA([t], Implies(And(inn(w.irms, t), t != tr), select(w1.RM, w.irm(t)) == select(w.RM, w.irm(t))), patterns=[z3.Select(w1.irms, t), z3.Select(w.irms, t)]), "other components hold what they held")
    x.lemma(FA([q], Implies(q != r, And(w1.held(w1.irm(tr), q) == And(inn(w.irms, tr), w.held(w.irm(tr), q)), Implies(inn(w.irms, tr), w1.rel(w1.irm(tr), q) == w.rel(w.irm(tr), q)))), patterns=[z3.Select(z3.Select(w1.RM, w1.irm(tr)), q)]), "the relation's component holds what it held")
    others(x, w, w1, r, "after the addition")
    x.check(w1.inv(False, wit=lambda a: If(a == r, If(inn(w.b2n, base), vlen(w.lst(base)), 0), w.listed(a))), "afterwards")
    q = fresh("q", SS())
    x.check(w1.known(q) == Or(w.known(q), q == r), "exactly this relation is added")
    x.check(w1.sch(r) == v, "with its schema entry")
    for k, T in enumerate(w.K):
        x.check(Implies(sel(w1.cur(r), 0) == k, w1.obs(r, k) == EMPTY(x.ex, x.st, T)), "without observations (%s)" % T)


def samecard(ex, st, a, b):
    """two containers with the same keys have the same size (a distinguishing key otherwise)"""
    w = fresh("dk", a.sort().domain())
    ex.globals.append(Or(inn(a, w) != inn(b, w), ex.card(st, a) == ex.card(st, b)))


def crp_eff(c):
    pass


def crp_post(c):
    out = crp.k_inc.post(c) if c.f.sname.endswith("::incorporate") else crp.k_uninc.post(c)
    samecard(c.ex, c.st, c.ex.load(c.st, c.ex.fld(G["p"], "irms")), raw(c.this.tables))
    return out


CONTRACTS["CRP::incorporate/h"] = Contract("CRP::incorporate/h", "CRP::incorporate", pre=crp.k_inc.pre, post=crp_post, modifies=crp.k_inc.modifies)


def relocated(w, w1, r, t0, tr, lone):
    """the relation r left the component of table t0 (gone if it was alone there) for that of table tr"""
    t, q = fresh("t", I), fresh("q", SS())
    gone = lambda t: And(t == t0, lone)
    o = []
    H = z3.Select
    o.append(("components: a relation alone takes its component along, and one is made for its table if needed", FA([t], inn(w1.irms, t) == Or(t == tr, And(inn(w.irms, t), Not(gone(t)))), patterns=[H(w1.irms, t)])))
    o.append(("components stay", FA([t], Implies(And(inn(w.irms, t), Not(gone(t))), w1.irm(t) == w.irm(t)), patterns=[H(w1.irms, t), H(w.irms, t)])))
    o.append(("other components are other objects", FA([t], Implies(And(inn(w.irms, t), t != tr), w.irm(t) != w1.irm(tr)), patterns=[H(w1.irms, t), H(w.irms, t)])))
    o.append(("other components hold what they held", FA([t], Implies(And(inn(w.irms, t), t != tr, t != t0), select(w1.RM, w.irm(t)) == select(w.RM, w.irm(t))), patterns=[H(w1.irms, t), H(w.irms, t)])))
    had = And(inn(w.irms, tr), Not(gone(tr)))
    o.append(("the new component holds what it held", FA([q], Implies(q != r, And(w1.held(w1.irm(tr), q) == And(had, w.held(w.irm(tr), q)), Implies(had, w1.rel(w1.irm(tr), q) == w.rel(w.irm(tr), q)))), patterns=[H(H(w1.RM, w1.irm(tr)), q)])))
    o.append(("the old component holds what it held", FA([q], Implies(And(q != r, Not(lone)), And(w1.held(w1.irm(t0), q) == w.held(w.irm(t0), q), w1.rel(w1.irm(t0), q) == w.rel(w.irm(t0), q))), patterns=[H(H(w1.RM, w1.irm(t0)), q)])))
    c = fresh("c", I)
    rc = w.code(r)
    T1 = lambda t: oval(select(w1.TB, t))
    T0 = lambda t: oval(select(w.TB, t))
    # the clustering
    o.append(("tables afterwards seat the relation or what they seated", FA([t], Implies(And(inn(w1.TB, t), t != tr), And(inn(w.TB, t), Not(gone(t)))), patterns=[H(w1.TB, t)])))
    o.append(("the relation's table exists", inn(w1.TB, tr)))
    o.append(("tables of other codes stay", FA([c], Implies(And(inn(w.A, c), c != rc), And(inn(w1.TB, oval(select(w.A, c))))), patterns=[H(w.A, c)])))
    o.append(("tables that seated another code stay", FA([t], Implies(And(inn(w.TB, t), Not(gone(t))), inn(w1.TB, t)), patterns=[H(w.TB, t), H(w1.TB, t)])))
    o.append(("the components are the tables afterwards", FA([t], inn(w1.irms, t) == inn(w1.TB, t), patterns=[H(w1.irms, t), H(w1.TB, t)])))
    o.append(("the new component holds the relation", w1.held(w1.irm(tr), r)))
    o.append(("the old component does not", Implies(And(t0 != tr, Not(lone)), Not(w1.held(w1.irm(t0), r)))))
    return o


def otherfacts(w, w1, r, what, final=False):
    q = fresh("q", SS())
    hyp = And(w.known(q), q != r)
    pats = [z3.Select(w.r2c, q), z3.Select(w1.r2c, q), z3.Select(w1.schema, q)]
    o = [("other relations keep their code, cluster and schema entry " + what, FA([q], Implies(hyp, And(w1.known(q), w1.code(q) == w.code(q), w1.tab(q) == w.tab(q), w1.sch(q) == w.sch(q))), patterns=pats)),
         ("other relations keep their component and object " + what, FA([q], Implies(hyp, And(w1.irm(w1.tab(q)) == w.irm(w.tab(q)), w1.cur(q) == w.cur(q))), patterns=pats))]
    for k, T in enumerate(w.K):
        a, b = sel(w.cur(q), k + 1), sel(w1.cur(r), k + 1)
        hk = And(hyp, sel(w.cur(q), 0) == k)
        o.append(("other %s relations are other objects %s" % (T, what), FA([q], Implies(And(hk, sel(w1.cur(r), 0) == k), a != b), patterns=pats)))
        o.append(("other %s relations were other objects %s" % (T, what), FA([q], Implies(And(hk, sel(w.cur(r), 0) == k), a != sel(w.cur(r), k + 1)), patterns=pats)))
        own = z3.Function("OWNR%d0" % k, I, SS())
        o.append(("other %s relations own their objects %s" % (T, what), FA([q], Implies(hk, And(sel(w1.cur(q), 0) == k, a > 0, sel(w1.cur(q), k + 1) == a, own(a) == q)), patterns=pats)))
        for n, x0, x1 in (("observations", w.RD, w1.RD), ("number of domains", w.RO, w1.RO), ("base", w.NB, w1.NB)):
            pp = fresh("p", I)
            if not final:
                o.append(("%s of other %s objects stay" % (n, T), FA([pp], Implies(And(pp != b, pp != sel(w.cur(r), k + 1)), select(x1[k], pp) == select(x0[k], pp)), patterns=[z3.Select(x1[k], pp)])))
            o.append(("other %s relations keep their %s %s" % (T, n, what), FA([q], Implies(hk, select(x1[k], a) == select(x0[k], a)), patterns=pats)))
    return o


def sameobs(w, w1, r):
    """the relation keeps its type and, tuple by tuple, its observations"""
    its = fresh("its", vec_sort(I))
    o = [("the moved relation keeps its type", sel(w1.cur(r), 0) == sel(w.cur(r), 0))]
    for k, T in enumerate(w.K):
        o.append(("the moved relation keeps its %s observations" % T, Implies(sel(w.cur(r), 0) == k, FA([its], select(w1.obs(r, k), its) == select(w.obs(r, k), its), patterns=[z3.Select(w1.obs(r, k), its)]))))
    return o


def copying(x, w, r, table):
    """loop hook: the observations of r copied so far are in the relation held by the component of the table"""
    def hook(L, node, st_, s0, j, N, rng, havoc):
        x.shape(rng is not None and rng[1].n.endswith("map"), "a loop over the relation's observations")
        D = x.ex.alias(x.ex.load(s0, rng[0]))
        its = fresh("its", vec_sort(I))
        x.assume(FA([its], Implies(And(inn(D, its), POS(D, its) == j), its == EN(D)[j]), patterns=[POS(D, its)]))
        irms = x.ex.load(s0, x.ex.fld(G["p"], "irms"))
        v = oval(select(select(harr(x.ex, s0, "IRM", "relations"), oval(select(irms, table))), r))
        p = fresh("p", I)
        x.shape(all(k[0] == "h" for k in havoc), "only the relation's observations change")

        def inv(stt, t):
            out = []
            for lf in havoc:
                a1, a0 = L.get_leaf(stt, lf), L.get_leaf(s0, lf)
                k = [i for i, T in enumerate(w.K) if L.leafname(lf) == RT(T) + ".rdata"]
                x.shape(len(k) == 1, "only the relation's observations change: " + L.leafname(lf))
                k = k[0]
                if a1.sort().range() != D.sort():
                    out.append(("%s relations keep their observations" % w.K[k], FA([p], select(a1, p) == select(a0, p), patterns=[z3.Select(a1, p)])))
                    continue
                q = sel(v, k + 1)
                out.append(("other %s relations keep their observations" % w.K[k], FA([p], Implies(p != q, select(a1, p) == select(a0, p)), patterns=[z3.Select(a1, p)])))
                out.append(("observations copied so far", FA([its], select(select(a1, q), its) == If(And(inn(D, its), POS(D, its) < t), select(D, its), select(select(a0, q), its)), patterns=[z3.Select(z3.Select(a1, q), its)])))
            return out
        return inv
    return hook


def moving(T):
  @unit("HIRM::set_cluster_assignment_gibbs moves a %s relation and its observations to the requested component" % T, F, "C15", funcs=["HIRM::set_cluster_assignment_gibbs", "HIRM::add_relation_to_irm"], contracts=IRMK + ["CRP::incorporate/h", "CRP::unincorporate", "HIRM::update_base_relation", "Relation::get_data"], opts={"havoc_ok": True, "prune": True})
  def _(x):
      p, m, g, w = start(x)
      r, table = x.val("string", "r"), x.val("int", "table")
      fresh_objects(x, w)
      x.assume(w.known(r), table >= 0, sel(w.cur(r), 0) == w.K.index(T))
      st0 = x.st.copy()
      samecard(x.ex, x.st, raw(m.irms), raw(m.crp.tables))
      lone = alone(x, w, r)
      t0 = x.define("t0", w.tab(r))
      G["wit"] = w.listed
      G["own"] = lambda w1: lambda j, p: If(p == w1.irm(table), table, z3.Function("OWNI0", I, I)(p)) if j is None else If(And(sel(w1.cur(r), 0) == j, p == sel(w1.cur(r), j + 1)), r, z3.Function("OWNR%d0" % j, I, SS())(p))
      G["lemmas"] = lambda w1: relocated(w, w1, r, t0, table, lone) + otherfacts(w, w1, r, "after the move") + sameobs(w, w1, r)
      x.ex.loop_inv = copying(x, w, r, table)
      x.reach("precondition")
      x.call("HIRM::set_cluster_assignment_gibbs", p, [g, r, table])
      x.reach("end")
      d = snap(x, p)
      w1 = W(x, d, tag="1")
      wu = G["w1"]
      for k, T2 in enumerate(w.K):
          q = fresh("q", SS())
          a = sel(wu.cur(q), k + 1)
          x.lemma(FA([q], Implies(And(wu.noisy(q), sel(wu.cur(q), 0) == k), select(w1.NB[k], a) == If(wu.base(q) == r, sel(wu.cur(r), k + 1), select(wu.NB[k], a))), patterns=[z3.Select(wu.schema, q)]), "noisy %s relations of the relation are redirected" % T2)
      x.check(w1.inv(False, wit=w.listed, own=G["own"](w1)), "afterwards")
      x.check(w1.tab(r) == table, "the relation's code sits at the requested table")
      q = fresh("q", SS())
      x.check(w1.known(q) == w.known(q), "no relation appears or disappears")
      for n, f in [f for f in otherfacts(w, w1, r, "at the end", True) if "base" not in f[0]] + sameobs(w, w1, r):
          x.check(f, n)
      unchanged(x, m, d, [f for f in FIELDS if f not in ("irms", "crp")])


for _T in VT:
    moving(_T)
