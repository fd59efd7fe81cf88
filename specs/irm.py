"""IRM (C13, C14): entities of the domains, Gibbs moves of one entity, joint score.

Relations are heap objects of four value types known through their interface contract (absrel); domains through absdom."""
from spec import *
import absdom, absrel, clean, crp
from clean import FA, MP, named, harr, hset, domh, frame_heap, unchanged, crp_assign, MD, MN, ment_def, ment_facts
from absdom import put, drop, DOMOK
from absrel import VT, SS, LPG, SCR
from dist import snap
import util_math as _um

F = ["irm.cc"]

CONTRACTS = dict(_um.CONTRACTS)
CONTRACTS.update(absdom.CONTRACTS)
CONTRACTS.update(absrel.CONTRACTS)




def TWG(d):
    """weights offered for reseating an entity (C02 proves what they are)"""
    return z3.Function("TWGIBBS", d.crp.t.sort(), I, z3.ArraySort(I, opt_sort(R)))


def twg_post(c):
    k = fresh("k", I)
    w = raw(c.ret)
    cr = c.this0.crp
    it = raw(c.args[0])
    return [("tables are ids, weights are positive", FA([k], Implies(inn(w, k), And(k >= 0, oval(select(w, k)) > 0)), patterns=[z3.Select(w, k)])),
            ("the entity's own table is offered", inn(w, oval(select(cr.assignments.t, it))))]


CONTRACTS["Domain::tables_weights_gibbs"] = Contract("Domain::tables_weights_gibbs", "Domain::tables_weights_gibbs",
    pre=lambda c: [("the domain is consistent", DOMOK(c.this0)), ("item is present", c.this0.items.has(c.args[0]))],
    value=lambda c: TWG(c.this0)(c.this0.crp.t, raw(c.args[0])), post=twg_post)


def RT(T):
    return "Relation<%s>" % T


def rheap(x, st, T):
    return {f: named(x.ex, harr(x.ex, st, RT(T), f)) for f in absrel.GH}


def rel_of(irm, r, i):
    """pointer held by relations[r] in alternative i"""
    return sel(oval(select(raw(irm.relations), r)), i + 1)


def rel_tag(irm, r):
    return sel(oval(select(raw(irm.relations), r)), 0)


def alts(x):
    """value type of every alternative, in order"""
    t = [ft for f, ft in rec_fields(x.type("IRM")) if f == "relations"][0].args[1]
    return [a.deref().pointee.args[0].s if hasattr(a, "pointee") else None for a in t.args]


def base(x):
    p = x.obj("IRM")
    m = snap(x, p)
    g = x.val("int", "prng")
    x.assume(g != 0)
    for T in VT:
        for f in absrel.GH:
            harr(x.ex, x.st, RT(T), f)
    for f in ("name", "items", "crp"):
        harr(x.ex, x.st, "Domain", f)
    return p, m, g


def TYPES(x):
    """alternatives of RelationVariant in declaration order"""
    t = [ft for f, ft in rec_fields(x.type("IRM")) if f == "relations"][0].args[1]
    out = []
    for a in t.args:
        n = a.deref().s
        out.append([T for T in VT if RT(T) in n][0])
    return out


def model_ok(x, m):
    """the maps agree: every relation over a domain is known, is an object of its own, and is over that domain"""
    d, r, q = fresh("d", SS()), fresh("r", SS()), fresh("q", SS())
    rel, dom, d2r = (named(x.ex, raw(getattr(m, f))) for f in ("relations", "domains", "domain_to_relations"))
    nh, ih, ch = (domh(x.ex, x.st, f) for f in ("name", "items", "crp"))
    ptr = oval(select(dom, d))
    mem = And(inn(d2r, d), inn(oval(select(d2r, d)), r))
    v = oval(select(rel, r))
    OV = z3.Function("OVER", vec_sort(I), SS(), B)
    out = [FA([d], Implies(inn(dom, d), And(ptr > 0, select(nh, ptr) == d, vlen(d) > 0)), patterns=[z3.Select(dom, d)]),
        FA([d], inn(dom, d) == inn(d2r, d), patterns=[z3.Select(dom, d), z3.Select(d2r, d)]),
        FA([d, r], Implies(mem, inn(rel, r)), patterns=[z3.Select(oval(z3.Select(d2r, d)), r)]),
        FA([r], Implies(inn(rel, r), And(0 <= sel(v, 0), sel(v, 0) < 4)), patterns=[z3.Select(rel, r)])]
    y = fresh("y", I)
    it, cr = select(ih, ptr), select(ch, ptr)
    out.append(FA([d], Implies(inn(dom, d), z3.Function("DOMOK", it.sort(), cr.sort(), B)(it, cr)), patterns=[z3.Select(dom, d)]))
    out.append(FA([d, y], Implies(inn(dom, d), select(it, y) == inn(crp_assign(cr), y)), patterns=[MP(z3.Select(dom, d), z3.Select(it, y))]))
    for i, T in enumerate(TYPES(x)):
        h = rheap(x, x.st, T)
        own = z3.Function("OWNER_" + T, I, SS())
        pt = sel(v, i + 1)
        out.append(FA([r], Implies(And(inn(rel, r), sel(v, 0) == i), And(pt > 0, own(pt) == r)), patterns=[z3.Select(rel, r)]))
        out.append(FA([d, r], Implies(And(mem, sel(v, 0) == i), OV(select(h["rdoms"], pt), d)), patterns=[z3.Select(oval(z3.Select(d2r, d)), r)]))
    return out


@unit("IRM::transition_cluster_assignment_item moves one entity in every relation that mentions it", F, "C14", funcs=["IRM::transition_cluster_assignment_item", "Domain::tables_weights_gibbs"],
      contracts=absdom.DOMK + absrel.ALL + ["log_choice", "Domain::tables_weights_gibbs"], opts=dict(havoc_ok=True))
def _(x):
    p, m, g = base(x)
    d, e = x.val("string", "d"), x.val("int", "item")
    x.assume(*model_ok(x, m))
    x.assume(m.domains.has(d))
    dp = raw(m.domains[d])
    ih, ch, nh = (domh(x.ex, x.st, f) for f in ("items", "crp", "name"))
    x.assume(select(select(ih, dp), e))
    cur = oval(select(crp_assign(select(ch, dp)), e))
    x.reach("precondition")
    st0 = x.st.copy()
    rel = named(x.ex, raw(m.relations))
    S = named(x.ex, oval(select(raw(m.domain_to_relations), d)))
    H0 = {T: rheap(x, st0, T) for T in VT}
    W = z3.Function("TWGIBBS", ch.sort().range(), I, z3.ArraySort(I, opt_sort(R)))(select(ch, dp), e)
    TY = TYPES(x)
    acc = z3.Function("ACCLOGP", I, I, R)
    state = {}

    def contrib(r, tabs, i):
        """contribution of relation r to the weight of the i-th table"""
        v = oval(select(rel, r))
        out = z3.RealVal(0)
        for k, T in enumerate(TY):
            h = H0[T]
            q = sel(v, k + 1)
            f = z3.Function("LPGIBBS_" + an_(h["rdata"].sort().range().range()), h["rdata"].sort().range(), h["rcl"].sort().range(), I, SS(), I, vec_sort(I), vec_sort(R))
            lp = f(select(h["rdata"], q), select(h["rcl"], q), select(h["rhyp"], q), d, e, tabs)
            out = If(sel(v, 0) == k, If(select(select(select(h["rment"], q), d), e), select(varr(lp), i), z3.RealVal(0)), out)
        return out

    def moved(stt, t, choice):
        """blocks follow the move in the first t relations over the domain, nothing else"""
        out = []
        q = fresh("q", I)
        for k, T in enumerate(TY):
            h, c1 = H0[T], named(x.ex, harr(x.ex, stt, RT(T), "rcl"))
            own = z3.Function("OWNER_" + T, I, SS())(q)
            v = oval(select(rel, own))
            c0 = select(h["rcl"], q)
            hit = And(inn(S, own), inn(rel, own), sel(v, 0) == k, sel(v, k + 1) == q, POS(S, own) < t, select(select(select(h["rment"], q), d), e))
            new = z3.Store(c0, d, z3.Store(select(c0, d), e, choice))
            out.append(("blocks of %s relations follow the move exactly where they mention the entity" % T, FA([q], select(c1, q) == If(hit, new, c0), patterns=[z3.Select(c1, q)])))
        return out

    def hook(L, node, s0, s, j, N, rng, havoc):
        r = fresh("r", SS())
        x.assume(FA([r], Implies(And(inn(S, r), POS(S, r) == j), r == EN(S)[j]), patterns=[POS(S, r)]))
        if all(k[0] == "h" for k in havoc):
            c = x.lastcall("log_choice")
            choice = select(varr(state["tables"]), raw(c.ret))
            return lambda stt, t: moved(stt, t, choice)
        x.shape(len(havoc) == 1, "one vector of weights is accumulated")
        lp = havoc[0]
        ks = [c for n, c in x.ex.calls if n == "Relation::logp_gibbs_exact"]
        tabs = raw(ks[-1].args[2]) if ks else None
        x.shape(tabs is not None, "a vector of tables")
        state["tables"], state["lp0"] = tabs, L.get_leaf(s0, lp)
        i = fresh("i", I)
        x.assume(FA([i], acc(0, i) == select(varr(state["lp0"]), i), patterns=[acc(0, i)]), FA([i], acc(j + 1, i) == acc(j, i) + contrib(EN(S)[j], tabs, i), patterns=[acc(j + 1, i)]))

        def inv(stt, t):
            v = L.get_leaf(stt, lp)
            return [("one weight per table", vlen(v) == vlen(tabs)), ("weights are accumulated over the relations", FA([i], Implies(And(0 <= i, i < vlen(tabs)), select(varr(v), i) == acc(t, i)), patterns=[acc(t, i)]))]
        return inv
    x.ex.loop_inv = hook
    x.call("IRM::transition_cluster_assignment_item", p, [g, d, e])
    x.reach("end")
    c = x.lastcall("log_choice")
    tabs, lps, k = state["tables"], raw(c.args[0]), raw(c.ret)
    i, y = fresh("i", I), fresh("y", I)
    choice = select(varr(tabs), k)
    n = CARD(W)
    x.check(And(vlen(tabs) == n, vlen(lps) == n), "one candidate per offered table")
    x.check(Implies(And(0 <= i, i < n), And(inn(W, select(varr(tabs), i)), select(varr(tabs), i) == EN(W)[i])), "the candidates are the tables offered by the clustering prior")
    x.check(Implies(And(0 <= i, i < n), select(varr(state["lp0"]), i) == _um.LN(oval(select(W, select(varr(tabs), i))))), "prior weight of a candidate")
    x.check(Implies(And(0 <= i, i < n), select(varr(lps), i) == acc(CARD(S), i)), "weight: prior plus the data probability over every relation that mentions the entity")
    x.check(moved(x.st, If(choice != cur, CARD(S), 0), choice), "after the move")
    d1 = snap(x, p)
    unchanged(x, m, d1, ("domains", "relations", "domain_to_relations", "base_to_noisy_relations", "schema"))
    c1 = domh(x.ex, x.st, "crp")
    q = fresh("q", I)
    x.check(Implies(q != dp, select(c1, q) == select(ch, q)), "other domains keep their clustering", "frame")
    a0, a1 = crp_assign(select(ch, dp)), crp_assign(select(c1, dp))
    x.check(And(inn(a1, e), oval(select(a1, e)) == choice), "the entity sits at the drawn table")
    x.check(Implies(y != e, select(a1, y) == select(a0, y)), "every other entity keeps its table", "frame")
    frame_heap(x, st0.heap, "moving an entity", allow=[k for k in x.st.heap if rec_fields(x.ex.type_by_name(k[0]))[k[1]][0] in ("rcl", "crp")])


# ---- the entities of a domain are those its relations mention (C13)
def stored(x, m, st, r, nm, e, heaps=None):
    """relation r (by name) mentions entity e of domain nm"""
    v = oval(select(named(x.ex, raw(m.relations)), r))
    out = z3.BoolVal(False)
    for k, T in enumerate(TYPES(x)):
        h = (heaps or {}).get(T) or rheap(x, st, T)
        out = If(sel(v, 0) == k, select(select(select(h["rment"], sel(v, k + 1)), nm), e), out)
    return out


@unit("IRM::has_observation tells whether some relation over the domain mentions the entity", F, "C13", funcs=["IRM::has_observation"], contracts=absdom.DOMK + absrel.ALL, opts=dict(havoc_ok=True))
def _(x):
    p, m, g = base(x)
    d, e = x.val("string", "d"), x.val("int", "item")
    x.assume(*model_ok(x, m))
    x.assume(m.domains.has(d))
    st0 = x.st.copy()
    S = named(x.ex, oval(select(raw(m.domain_to_relations), d)))
    x.reach("precondition")
    b = raw(x.call("IRM::has_observation", p, [d, e]))
    r = fresh("r", SS())
    x.check(Implies(And(inn(S, r), stored(x, m, st0, r, d, e)), b), "an entity some relation mentions is reported")
    x.check(Implies(b, z3.Exists([r], And(inn(S, r), stored(x, m, st0, r, d, e)))), "an entity no relation mentions is not")
    unchanged(x, m, snap(x, p), [f for f, _ in rec_fields(p.t)])
    frame_heap(x, st0.heap, "asking")


CONTRACTS["CRP::logp_score"] = Contract("CRP::logp_score", "CRP::logp_score", value=lambda c: z3.Function("CRPSCORE", c.this0.t.sort(), R)(c.this0.t))


@unit("IRM::logp_score adds the scores of the domains' clusterings and of the relations", F, "C13", funcs=["IRM::logp_score"], contracts=absrel.ALL + ["CRP::logp_score"])
def _(x):
    p, m, g = base(x)
    x.assume(*model_ok(x, m))
    st0 = x.st.copy()
    ch = domh(x.ex, x.st, "crp")
    x.reach("precondition")
    s = raw(x.call("IRM::logp_score", p, []))
    k = fresh("k", SS())
    cs = z3.Function("CRPSCORE", ch.sort().range(), R)
    dom, rel = raw(m.domains), raw(m.relations)
    v = oval(select(rel, k))
    sc = z3.RealVal(0)
    for i, T in enumerate(TYPES(x)):
        h = rheap(x, st0, T)
        q = sel(v, i + 1)
        f = z3.Function("RSCORE_" + an_(h["rdata"].sort().range().range()), h["rdata"].sort().range(), h["rcl"].sort().range(), I, R)
        sc = If(sel(v, 0) == i, f(select(h["rdata"], q), select(h["rcl"], q), select(h["rhyp"], q)), sc)
    SF = SETSUMF(SS())
    want = SF(z3.Lambda([k], If(inn(dom, k), cs(select(ch, oval(select(dom, k)))), z3.RealVal(0)))) + SF(z3.Lambda([k], If(inn(rel, k), sc, z3.RealVal(0))))
    x.check(s == want, "sum over the domains plus sum over the relations")
    unchanged(x, m, snap(x, p), [f for f, _ in rec_fields(p.t)])
    frame_heap(x, st0.heap, "scoring")


def mentions(x, m, st, name):
    """predicate: relation (by name) mentions entity e of domain nm"""
    P = z3.Function(name, SS(), SS(), I, B)
    r, nm, e = fresh("r", SS()), fresh("nm", SS()), fresh("e", I)
    H = {T: rheap(x, st, T) for T in VT}
    x.assume(FA([r, nm, e], P(r, nm, e) == stored(x, m, st, r, nm, e, H), patterns=[P(r, nm, e)]))
    return P


def same_entities(x, m, st, ents=None, pred=None):
    """a domain holds an entity exactly when one of its relations mentions it"""
    d, e, r = fresh("d", SS()), fresh("e", I), fresh("r", SS())
    dom, d2r = named(x.ex, raw(m.domains)), named(x.ex, raw(m.domain_to_relations))
    ih = domh(x.ex, st, "items")
    S = oval(select(d2r, d))
    H = {T: rheap(x, st, T) for T in VT}
    it = select(select(ih, oval(select(dom, d))), e)
    mem = And(inn(dom, d), inn(S, r), pred(r, d, e) if pred is not None else stored(x, m, st, r, d, e, H))
    return [("every entity a relation mentions is in the domain", FA([d, e, r], Implies(mem, it), patterns=[MP(z3.Select(oval(z3.Select(d2r, d)), r), z3.Select(z3.Select(ih, oval(z3.Select(dom, d))), e))])),
            ("every entity of the domain is mentioned by one of its relations", FA([d, e], Implies(And(inn(dom, d), it), z3.Exists([r], mem)), patterns=[z3.Select(z3.Select(ih, oval(z3.Select(dom, d))), e)]))]


def rel_over(x, m, st, r):
    """relation r is over domains the model lists it under, and its object knows them"""
    i = fresh("i", I)
    dom, d2r, nh = named(x.ex, raw(m.domains)), named(x.ex, raw(m.domain_to_relations)), domh(x.ex, st, "name")
    v = oval(select(named(x.ex, raw(m.relations)), r))
    out = []
    for k, T in enumerate(TYPES(x)):
        dv = select(rheap(x, st, T)["rdoms"], sel(v, k + 1))
        nm = select(nh, select(varr(dv), i))
        out.append(Implies(sel(v, 0) == k, And(vlen(dv) >= 0, FA([i], Implies(And(0 <= i, i < vlen(dv)), And(inn(dom, nm), oval(select(dom, nm)) == select(varr(dv), i), inn(oval(select(d2r, nm)), r))), patterns=[z3.Select(varr(dv), i)]))))
    return out


@unit("IRM::incorporate keeps each domain's entities those its relations mention", F, "C13", funcs=["IRM::incorporate"], contracts=absdom.DOMK + absrel.ALL)
def _(x):
    p, m, g = base(x)
    r, its = x.val("string", "r"), x.val("vector<int>", "items")
    ov = [f for f in x.prog.funcs.values() if f.sname == "IRM::incorporate"][0].params[3]["t"]
    val = x.val(ov, "value")
    x.assume(*model_ok(x, m))
    x.assume(*rel_over(x, m, x.st, r))
    x.assume(m.relations.has(r))
    x.assume(*[q for _, q in same_entities(x, m, x.st)])
    v = oval(select(named(x.ex, raw(m.relations)), r))
    names = [a.s for a in ov.args]
    H0 = {T: rheap(x, x.st, T) for T in VT}
    for k, T in enumerate(TYPES(x)):
        h = H0[T]
        q = sel(v, k + 1)
        ix = [i for i, n in enumerate(names) if n == T or (T == "string" and "string" in n)][0]
        x.assume(Implies(sel(v, 0) == k, And(sel(val, 0) == ix, Not(inn(select(h["rdata"], q), its)), vlen(its) == vlen(select(h["rdoms"], q)))))
    st0 = x.st.copy()
    x.reach("precondition")
    x.call("IRM::incorporate", p, [g, r, its, val])
    x.reach("end")
    d = snap(x, p)
    x.check(same_entities(x, d, x.st), "afterwards")
    for k, T in enumerate(TYPES(x)):
        h, h1 = H0[T], rheap(x, x.st, T)
        q, o = sel(v, k + 1), fresh("o", I)
        ix = [i for i, n in enumerate(names) if n == T or (T == "string" and "string" in n)][0]
        x.check(Implies(sel(v, 0) == k, select(h1["rdata"], q) == put(select(h["rdata"], q), its, sel(val, ix + 1))), "exactly this observation is added to a %s relation" % T)
        for f in absrel.GH:
            x.check(Implies(Not(And(sel(v, 0) == k, o == q)), select(h1[f], o) == select(h[f], o)), "other %s relations keep their %s" % (T, f), "frame")
    unchanged(x, m, d, [f for f, _ in rec_fields(p.t)])


def schema_doms(x, m, r):
    """domain names the schema gives relation r, per alternative"""
    t = [ft for f, ft in rec_fields(x.type("IRM")) if f == "schema"][0].args[1]
    v = oval(select(named(x.ex, raw(m.schema)), r))
    out = []
    for k, a in enumerate(t.args):
        i = [j for j, (f, _) in enumerate(rec_fields(a)) if f == "domains"][0]
        out.append(sel(sel(v, k + 1), i))
    return out, And(0 <= sel(v, 0), sel(v, 0) < len(t.args))


@unit("IRM::unincorporate keeps each domain's entities those its relations mention", F, "C13", funcs=["IRM::unincorporate"], contracts=absdom.DOMK + absrel.ALL, opts=dict(havoc_ok=True))
def _(x):
    p, m, g = base(x)
    r, its = x.val("string", "r"), x.val("vector<int>", "items")
    x.assume(*model_ok(x, m))
    x.assume(*rel_over(x, m, x.st, r))
    x.assume(m.relations.has(r), m.schema.has(r))
    STO0 = mentions(x, m, x.st, "MENTIONS0")
    x.assume(*[q for _, q in same_entities(x, m, x.st, pred=STO0)])
    rel, S2 = named(x.ex, raw(m.relations)), named(x.ex, raw(m.domain_to_relations))
    dom = named(x.ex, raw(m.domains))
    v = oval(select(rel, r))
    H0 = {T: rheap(x, x.st, T) for T in VT}
    ih, ch, nh = (domh(x.ex, x.st, f) for f in ("items", "crp", "name"))
    dv, nms, wf = fresh("doms", vec_sort(I)), fresh("names", vec_sort(SS())), []
    # the alternatives that are not held are unobservable: any value will do there
    for k, T in enumerate(TYPES(x)):
        wf.append(select(H0[T]["rdoms"], sel(v, k + 1)) == dv)
    alts, tag = schema_doms(x, m, r)
    wf += [q == nms for q in alts] + [tag]
    i = fresh("i", I)
    n = vlen(dv)
    x.assume(*wf)
    # the relation is over the domains the schema lists; its index lists the entities of its tuples
    x.assume(vlen(nms) == n, vlen(its) == n, FA([i], Implies(And(0 <= i, i < n), select(nh, select(varr(dv), i)) == select(varr(nms), i)), patterns=[z3.Select(varr(nms), i)]))
    for k, T in enumerate(TYPES(x)):
        h, q = H0[T], sel(v, k + 1)
        x.assume(Implies(sel(v, 0) == k, And(inn(select(h["rdata"], q), its), FA([i], Implies(And(0 <= i, i < n), STO0(r, select(varr(nms), i), select(varr(its), i))), patterns=[z3.Select(varr(its), i)]))))
    st0 = x.st.copy()
    x.reach("precondition")
    sp = {}

    def HA(nm, e):
        return z3.Function("MENTIONED", SS(), I, B)(nm, e)

    STO = z3.Function("MENTIONS1", SS(), SS(), I, B)

    def defs(stt):
        """HA: some relation over the domain still mentions the entity"""
        nm, e, a = fresh("nm", SS()), fresh("e", I), fresh("r", SS())
        mentions(x, m, stt, "MENTIONS1")
        sp["heaps"] = {T: rheap(x, stt, T) for T in VT}
        w = z3.Function("MENTIONER", SS(), I, SS())
        mem = lambda q: And(inn(oval(select(S2, nm)), q), STO(q, nm, e))
        x.assume(FA([nm, e], HA(nm, e) == mem(w(nm, e)), patterns=[HA(nm, e)]))
        x.assume(FA([nm, e, a], Implies(mem(a), HA(nm, e)), patterns=[STO(a, nm, e)]))
        x.lemma(FA([nm, e, a], And(Implies(STO(a, nm, e), STO0(a, nm, e)), Implies(And(STO0(a, nm, e), Not(MN(dv, nh, its, n, nm, e))), STO(a, nm, e))), patterns=[STO(a, nm, e), STO0(a, nm, e)]), "which entities are still mentioned")

    def hook(L, node, s0, s, j, N, rng, havoc):
        heap = [k for k in havoc if k[0] == "h"]
        mp = [k for k in havoc if k[0] != "h" and L.get_leaf(s0, k).sort().range().name().startswith("Opt_Bool")]
        same = [k for k in havoc if k[0] != "h" and k not in mp]
        x.shape(len(mp) == 1, "one map of flags")
        mk = L.get_leaf(s0, mp[0]).sort().domain()
        P = lambda t: mk.constructor(0)(select(varr(nms), t), select(varr(its), t))
        a = fresh("a", I)
        M = lambda stt, t: select(L.get_leaf(stt, mp[0]), P(t))
        rg = lambda t, hi: And(0 <= t, t < hi)
        pat = [z3.Select(varr(nms), a)]
        x.assume(*ment_facts(dv, nh, its, [j]))
        if x.ex.quiet or not sp.get("defs"):
            sp["defs"] = not x.ex.quiet
            for q in ment_def(dv, nh, its):
                x.assume(q)
            defs(s0)
        ha = lambda t: HA(select(varr(nms), t), select(varr(its), t))
        if heap:
            nm, e, q = fresh("nm", SS()), fresh("e", I), fresh("q", I)

            def inv(stt, t):
                i1, c1 = domh(x.ex, stt, "items"), domh(x.ex, stt, "crp")
                gone = And(inn(dom, select(nh, q)), oval(select(dom, select(nh, q))) == q, MN(dv, nh, its, t, select(nh, q), e), Not(HA(select(nh, q), e)))
                a1, a0 = select(crp_assign(select(c1, q)), e), select(crp_assign(select(ch, q)), e)
                ok = z3.Function("DOMOK", i1.sort().range(), c1.sort().range(), B)
                return [("left alone", L.get_leaf(stt, k) == L.get_leaf(s0, k)) for k in same] + [("every pair has a flag", FA([a], Implies(rg(a, n), inn(L.get_leaf(stt, mp[0]), P(a))), patterns=pat)),
                    ("flags: still mentioned, or already removed", FA([a], Implies(rg(a, n), oval(M(stt, a)) == Or(ha(a), MN(dv, nh, its, t, select(varr(nms), a), select(varr(its), a)))), patterns=pat)),
                    ("entities no relation mentions any more are gone", FA([q, e], select(select(i1, q), e) == And(select(select(ih, q), e), Not(gone)), patterns=[z3.Select(z3.Select(i1, q), e)])),
                    ("the others keep their tables", FA([q, e], Implies(Not(gone), a1 == a0), patterns=[a1])),
                    ("the partition holds the same entities", FA([q, e], Implies(inn(dom, select(nh, q)), Implies(oval(select(dom, select(nh, q))) == q, select(select(i1, q), e) == inn(crp_assign(select(c1, q)), e))), patterns=[z3.Select(z3.Select(i1, q), e)])),
                    ("domains stay consistent", FA([q], Implies(And(inn(dom, select(nh, q)), oval(select(dom, select(nh, q))) == q), ok(select(i1, q), select(c1, q))), patterns=[z3.Select(i1, q), z3.Select(c1, q)]))]
            return inv
        base_ = lambda stt, t: [("every pair has a flag", FA([a], Implies(rg(a, n), inn(L.get_leaf(stt, mp[0]), P(a))), patterns=pat)),
                                ("a raised flag means a mention", FA([a], Implies(And(rg(a, n), oval(M(stt, a))), ha(a)), patterns=pat)),
                                ("pairs visited are raised when mentioned", FA([a], Implies(And(rg(a, n), a < t, ha(a)), oval(M(stt, a))), patterns=pat))]
        if rng is not None:
            sp["inner"] = True
            i0 = x.ex.itervars[-1][1] if x.ex.itervars else None
            x.shape(i0 is not None, "loop over relations inside the loop over domains")
            Si = oval(select(S2, select(varr(nms), i0)))
            q = fresh("r", SS())
            x.assume(FA([q], Implies(And(inn(Si, q), POS(Si, q) == j), q == EN(Si)[j]), patterns=[POS(Si, q)]))
            cur = EN(Si)[j]
            x.assume(STO(cur, select(varr(nms), i0), select(varr(its), i0)) == stored(x, m, s0, cur, select(varr(nms), i0), select(varr(its), i0), sp["heaps"]))
            return lambda stt, t: base_(stt, i0) + [("relations seen so far raise the flag", FA([q], Implies(And(inn(Si, q), POS(Si, q) < t, STO(q, select(varr(nms), i0), select(varr(its), i0))), oval(M(stt, i0))), patterns=[POS(Si, q)]))]
        if not sp.get("inner"):
            return lambda stt, t: [("a lowered flag for every pair so far", FA([a], Implies(rg(a, t), And(inn(L.get_leaf(stt, mp[0]), P(a)), Not(oval(M(stt, a))))), patterns=pat)),
                                   ("no flag is raised", FA([a], Implies(inn(L.get_leaf(stt, mp[0]), P(a)), Not(oval(M(stt, a)))), patterns=pat))]
        return base_
    x.ex.loop_inv = hook
    x.call("IRM::unincorporate", p, [r, its])
    x.reach("end")
    d = snap(x, p)
    M2 = mentions(x, d, x.st, "MENTIONS2")
    a, nm, e = fresh("r", SS()), fresh("nm", SS()), fresh("e", I)
    x.lemma(FA([a, nm, e], M2(a, nm, e) == STO(a, nm, e), patterns=[M2(a, nm, e), STO(a, nm, e)]), "mentions are those after the removal")
    x.check(same_entities(x, d, x.st, pred=M2), "afterwards")
    for k, T in enumerate(TYPES(x)):
        h, h1 = H0[T], rheap(x, x.st, T)
        q, o = sel(v, k + 1), fresh("o", I)
        x.check(Implies(sel(v, 0) == k, select(h1["rdata"], q) == drop(select(h["rdata"], q), its)), "exactly this observation is removed from a %s relation" % T)
        for f in absrel.GH:
            x.check(Implies(Not(And(sel(v, 0) == k, o == q)), select(h1[f], o) == select(h[f], o)), "other %s relations keep their %s" % (T, f), "frame")
    unchanged(x, m, d, [f for f, _ in rec_fields(p.t)])
