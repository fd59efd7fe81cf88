"""NoisyRelation<T> (C11): pairing with the base relation's current values, own record, lookup from base to noisy tuples.

The embedded error-model relation is a CleanRelation over pairs, known through contracts proved in specs/clean.py;
the base relation is any Relation<T> whose get_value/get_data/get_domains report its stored observations."""
import os
from spec import *
import absdom, absdist as _ad, clean
from clean import FA, MP, named, harr, hset, domh, VI, ZOF, zof_facts, zof_all, doms_ok, names_in, clusters_ok, present, nonempty, inv_rel, MK, HF, DT, dh, touch, frame_heap, unchanged, MN, MD, ment_def, dr_key, dr_mem
from dist import snap
from absdom import put, drop

DRV = clean.DRV
CONTRACTS = dict(clean.CONTRACTS)
DK, AK = absdom.DOMK, _ad.ABS


import absrel
CONTRACTS.update(absrel.CONTRACTS)
RK = ["Relation::get_value", "Relation::get_data", "Relation::get_domains"]


def BASE():
    """the base relation's tuple: the first arity entities"""
    return z3.Function("BASETUPLE", VI(), I, VI())


def base_facts(items, ar):
    b = BASE()(items, ar)
    i = fresh("i", I)
    return And(vlen(b) == ar, FA([i], select(varr(b), i) == If(And(0 <= i, i < ar), select(varr(items), i), 0), patterns=[z3.Select(varr(b), i)]))


def base_all(ar):
    j, i = fresh("its", VI()), fresh("i", I)
    b = BASE()(j, ar)
    return And(FA([j], vlen(b) == ar, patterns=[b]), FA([j, i], select(varr(b), i) == If(And(0 <= i, i < ar), select(varr(j), i), 0), patterns=[z3.Select(varr(b), i)]))


def brel(x, n, st=None):
    """base relation's stored data and arity"""
    st = st or x.st
    t = n.base_relation.t if hasattr(n.base_relation, "t") else None
    return t


def reg(T):
    P = "pair<%s,%s>" % (T, T)
    K = "NoisyRelation<%s>" % T
    EK = "CleanRelation<%s>" % P

    # ---- contracts of the error-model relation used here (bodies: specs/clean.py, units of CleanRelation<pair>)
    def havoc(c):
        for f in HF:
            a = harr(c.ex, c.st, DT(P), f)
            hset(c.ex, c.st, DT(P), f, fresh("heap_" + f, a.sort()))

    def havocd(c):
        havoc(c)
        for f in ("items", "crp"):
            a = harr(c.ex, c.st, "Domain", f)
            hset(c.ex, c.st, "Domain", f, fresh("heap_" + f, a.sort()))

    def emok(c):
        e = c.this0
        return [("the error model's relation is consistent", And(doms_ok(c.ex, c.st0, raw(e.domains)), names_in(raw(e.data_r), raw(e.domains), domh(c.ex, c.st0, "name")), nonempty(raw(e.data_r)), clusters_ok(c.ex, c.st0, P, e)))]

    def tup(c, i=0):
        return [("one entity per domain", vlen(raw(c.args[i])) == vlen(raw(c.this0.domains)))]
    k_inc = Contract("CleanRelation::incorporate<%s>" % P, EK + "::incorporate", pre=lambda c: [("a generator is given", c.args[0] != 0), ("the tuple is new", Not(c.this0.data.has(raw(c.args[1]))))] + tup(c, 1) + emok(c),
        assign={"data": lambda c: put(raw(c.this0.data), raw(c.args[1]), raw(c.args[2]))}, modifies=["data", "data_r", "clusters"], effect=havocd)

    def stored(c):
        z = ZOF()(raw(c.this0.domains), domh(c.ex, c.st0, "crp"), raw(c.args[0]))
        return [("the tuple is stored", c.this0.data.has(raw(c.args[0]))), ("its entities are in their domains", present(c.ex, c.st0, raw(c.this0.domains), raw(c.args[0]))), ("its block exists", c.this0.clusters.has(z))]
    k_uninc = Contract("CleanRelation::unincorporate<%s>" % P, EK + "::unincorporate", pre=lambda c: tup(c) + stored(c) + emok(c),
        assign={"data": lambda c: drop(raw(c.this0.data), raw(c.args[0]))}, modifies=["data", "data_r", "clusters"], effect=havoc)
    k_upd = Contract("CleanRelation::update_value<%s>" % P, EK + "::update_value", pre=lambda c: tup(c) + stored(c) + emok(c),
        assign={"data": lambda c: put(raw(c.this0.data), raw(c.args[0]), raw(c.args[1]))}, modifies=["data"], effect=havoc)
    k_cd = Contract("CleanRelation::cleanup_data<%s>" % P, EK + "::cleanup_data", pre=lambda c: clean.cd_pre(c.ex, c.st0, c.this0, raw(c.args[0])), post=lambda c: clean.cd_post(c.ex, c.st, c.this0, c.this, raw(c.args[0]))[1:],
        assign={"data": lambda c: drop(raw(c.this0.data), raw(c.args[0]))}, modifies=["data", "data_r"])
    for k in (k_inc, k_uninc, k_upd, k_cd):
        CONTRACTS[k.name] = k
    def rdoms(c):
        from ir import _types
        rt = _types["Relation<%s>" % T]
        return View(c.ex, c.ex.load(c.st, c.ex.heap_place(rt, raw(c.this0.base_relation))), rt).rdoms
    k_gbi = Contract("NoisyRelation::get_base_items<%s>" % T, K + "::get_base_items", pre=lambda c: [("as many entities as the base relation has domains", And(0 <= vlen(rdoms(c)), vlen(rdoms(c)) <= vlen(raw(c.args[0]))))],
        value=lambda c: BASE()(raw(c.args[0]), vlen(rdoms(c))))
    CONTRACTS[k_gbi.name] = k_gbi
    RC = RK + [k_gbi.name]
    EC = [k_inc.name, k_uninc.name, k_upd.name, k_cd.name]

    # ---- state
    def base(x):
        p = x.obj(K, "self")
        n = snap(x, p)
        it = fresh("items", VI())
        g = x.val("int", "prng")
        from ir import _types
        rt = _types["Relation<%s>" % T]
        place = x.ex.heap_place(rt, raw(n.base_relation))
        B = View(x.ex, x.ex.load(x.st, place), rt)
        bd, doms = B.rdata, B.rdoms
        ar = vlen(doms)
        x.assume(g != 0, raw(n.base_relation) != 0, vlen(it) >= 0, vlen(it) == vlen(raw(n.domains)), 0 <= ar, ar <= vlen(raw(n.domains)), raw(n.emission_relation.domains) == raw(n.domains), base_all(ar))
        e = n.emission_relation
        dv, ch = raw(n.domains), domh(x.ex, x.st, "crp")
        x.assume(doms_ok(x.ex, x.st, dv), names_in(raw(e.data_r), dv, domh(x.ex, x.st, "name")), nonempty(raw(e.data_r)), clusters_ok(x.ex, x.st, P, e), inv_rel(x.ex, x.st, P, e), zof_all(x.ex, dv, ch))
        touch(x.ex, x.st, P)
        return p, n, it, g, bd, ar

    def inv(x, n, bd, ar):
        """the pairing and the lookup"""
        e, d, m = named(x.ex, raw(n.emission_relation.data)), named(x.ex, raw(n.data)), named(x.ex, raw(n.base_to_noisy_items))
        j, b = fresh("its", VI()), fresh("b", VI())
        Bt = BASE()(j, ar)
        pr = oval(select(e, j))
        mem = And(inn(m, b), inn(oval(select(m, b)), j))
        return [("its record and the error model's record list the same tuples", FA([j], inn(d, j) == inn(e, j), patterns=[z3.Select(d, j), z3.Select(e, j)])),
            ("each dirty value is paired with the base relation's current value", FA([j], Implies(inn(d, j), And(inn(bd, Bt), sel(pr, 0) == oval(select(bd, Bt)), sel(pr, 1) == oval(select(d, j)))), patterns=[z3.Select(d, j), z3.Select(e, j)])),
            ("the lookup lists every tuple under its base tuple", FA([j], Implies(inn(d, j), And(inn(m, Bt), inn(oval(select(m, Bt)), j))), patterns=[z3.Select(d, j)])),
            ("the lookup lists only tuples derived from the base tuple", FA([b, j], Implies(mem, And(inn(d, j), Bt == b)), patterns=[z3.Select(oval(z3.Select(m, b)), j)]))]

    def done(x, p, n, bd, ar, fields):
        d = snap(x, p)
        x.check(inv(x, d, bd, ar), "invariant")
        unchanged(x, n, d, fields)
        from ir import _types
        rt = _types["Relation<%s>" % T]
        b2 = View(x.ex, x.ex.load(x.st, x.ex.heap_place(rt, raw(n.base_relation))), rt)
        x.check(b2.rdata == bd, "the base relation is untouched", "frame")
        return d

    FIX = ("name", "domains", "base_relation")
    C = ["%s::get_base_items" % K, "%s::get_base_value" % K]

    @unit(K + "::get_base_items is the base relation's part of the tuple", DRV, "C11", funcs=C, contracts=RK)
    def _(x):
        p, n, it, g, bd, ar = base(x)
        b = raw(x.call(K + "::get_base_items", p, [it]))
        i = fresh("i", I)
        x.check(vlen(b) == ar, "as many entities as the base relation has domains")
        x.check(Implies(And(0 <= i, i < ar), select(varr(b), i) == select(varr(it), i)), "its leading entities")
        bt = BASE()(it, ar)
        x.assume(inn(bd, bt))
        x.check(And(vlen(b) == vlen(bt), select(varr(b), i) == select(varr(bt), i)), "canonical form")

    @unit(K + "::incorporate pairs the new dirty value with the current clean value", DRV, "C11", funcs=[K + "::incorporate"] + C, contracts=RC + [k_inc.name])
    def _(x):
        p, n, it, g, bd, ar = base(x)
        v = x.val(T, "value")
        bt = BASE()(it, ar)
        x.assume(*[q for _, q in inv(x, n, bd, ar)])
        x.assume(inn(bd, bt), Not(n.data.has(it)))
        x.reach("precondition")
        x.call(K + "::incorporate", p, [g, it, v])
        d = done(x, p, n, bd, ar, FIX)
        x.check(raw(d.data) == put(raw(n.data), it, raw(v)), "exactly this dirty value is added")

    @unit(K + "::unincorporate removes exactly the dirty value", DRV, "C11", funcs=[K + "::unincorporate", K + "::cleanup_base_to_noisy"] + C, contracts=RC + [k_uninc.name])
    def _(x):
        p, n, it, g, bd, ar = base(x)
        x.assume(*[q for _, q in inv(x, n, bd, ar)])
        x.assume(n.data.has(it))
        x.reach("precondition")
        x.call(K + "::unincorporate", p, [it])
        d = done(x, p, n, bd, ar, FIX)
        x.check(raw(d.data) == drop(raw(n.data), it), "exactly this dirty value is removed")

    @unit(K + "::update_value keeps the pairing with the current clean value", DRV, "C11 C12", funcs=[K + "::update_value"] + C, contracts=RC + [k_upd.name])
    def _(x):
        p, n, it, g, bd, ar = base(x)
        v = x.val(T, "value")
        x.assume(*[q for _, q in inv(x, n, bd, ar)])
        x.assume(n.data.has(it))
        x.reach("precondition")
        x.call(K + "::update_value", p, [it, v])
        d = done(x, p, n, bd, ar, FIX + ("base_to_noisy_items",))
        x.check(raw(d.data) == put(raw(n.data), it, raw(v)), "exactly this dirty value is replaced")

    @unit(K + "::update_value records the pair of the current clean value and the new dirty value, even while the recorded pairs are stale", DRV, "C12", funcs=[K + "::update_value"] + C, contracts=RC + [k_upd.name])
    def _(x):
        p, n, it, g, bd, ar = base(x)
        v = x.val(T, "value")
        bt = BASE()(it, ar)
        e0 = n.emission_relation
        z = ZOF()(raw(e0.domains), domh(x.ex, x.st, "crp"), it)
        x.assume(n.data.has(it), e0.data.has(it), inn(bd, bt), present(x.ex, x.st, raw(e0.domains), it), e0.clusters.has(z))
        x.reach("precondition")
        x.call(K + "::update_value", p, [it, v])
        d = snap(x, p)
        unchanged(x, n, d, FIX + ("base_to_noisy_items",))
        x.check(raw(d.data) == put(raw(n.data), it, raw(v)), "exactly this dirty value is replaced")
        c = x.lastcall(k_upd.name)
        x.check(And(raw(c.args[0]) == it, sel(raw(c.args[1]), 0) == oval(select(bd, bt)), sel(raw(c.args[1]), 1) == raw(v)), "the error model gets the pair of current clean value and new dirty value")

    @unit(K + "::get_emission_clusters lists exactly the error model's blocks", DRV, "C11 C12", funcs=[K + "::get_emission_clusters"], contracts=RC, opts=dict(havoc_ok=True))
    def _(x):
        p, n, it, g, bd, ar = base(x)
        x.assume(*[q for _, q in inv(x, n, bd, ar)])
        x.reach("precondition")
        r = raw(x.call(K + "::get_emission_clusters", p, []))
        e = n.emission_relation
        cl = raw(e.clusters)
        z, j = fresh("z", VI()), fresh("its", VI())
        x.check(And(inn(r, z) == inn(cl, z), Implies(inn(r, z), And(oval(select(r, z)) == oval(select(cl, z)), oval(select(r, z)) > 0))), "every block, as the object it is")
        zz = ZOF()(raw(e.domains), domh(x.ex, x.st, "crp"), j)
        x.assume(inn(cl, zz) == inn(r, zz), Implies(inn(raw(e.data), j), inn(raw(e.data), j)))
        x.check(Implies(inn(raw(n.data), j), x.ex.card(None, r) > 0), "a relation with observations has a block")

    @unit(K + "::cleanup_data removes exactly the dirty value's records", DRV, "C11", funcs=[K + "::cleanup_data", K + "::cleanup_base_to_noisy"] + C, contracts=RC + [k_cd.name])
    def _(x):
        p, n, it, g, bd, ar = base(x)
        x.assume(*[q for _, q in inv(x, n, bd, ar)])
        x.assume(n.data.has(it))
        x.reach("precondition")
        x.call(K + "::cleanup_data", p, [it])
        d = done(x, p, n, bd, ar, FIX)
        x.check(raw(d.data) == drop(raw(n.data), it), "exactly this dirty value is removed")

    @unit(K + "::get_value and get_data report the stored dirty values", DRV, "C11", funcs=[K + "::get_value"], contracts=RC)
    def _(x):
        p, n, it, g, bd, ar = base(x)
        x.assume(n.data.has(it))
        x.check(x.call(K + "::get_value", p, [it]) == raw(n.data[it]), "the stored value")

    CC = ["CleanRelation::clusters_contains", "CleanRelation::get_cluster_assignment"]
    EM = ["Emission::sample_corrupted"]

    @unit(K + "::sample_and_incorporate draws a dirty value for the clean value and records exactly it", DRV, "C11", funcs=[K + "::sample_and_incorporate", K + "::sample_at_items", K + "::get_base_value"],
          contracts=RC + CC + MK + DK + AK + ["CleanRelation::incorporate_items<%s>" % P])
    def _(x):
        p, n, it, g, bd, ar = base(x)
        bt = BASE()(it, ar)
        e0 = n.emission_relation
        x.assume(*[q for _, q in inv(x, n, bd, ar)])
        x.assume(ment_def(raw(n.domains), domh(x.ex, x.st, "name"), it))
        x.assume(inn(bd, bt), Not(n.data.has(it)), Not(e0.data.has(it)))
        x.reach("precondition")
        st0 = x.st.copy()
        v = x.call(K + "::sample_and_incorporate", p, [g, it])
        d = done(x, p, n, bd, ar, FIX)
        cs = [c for q, c in x.ex.calls if q == "Emission::sample_corrupted"]
        for c in cs:
            x.check(raw(c.args[0]) == oval(select(bd, bt)), "the draw corrupts the current clean value")
        x.check(Or(*[raw(v) == raw(c.ret) for c in cs]), "the drawn value is returned")
        x.check(raw(d.data) == put(raw(n.data), it, raw(v)), "exactly this dirty value is added")
        clean.ADDED[P](x, p, e0, d.emission_relation, it, oval(select(raw(d.emission_relation.data), it)), st0)

    @unit(K + "::cluster_or_prior_logp_from_items is the error model's predictive of the pair", DRV, "C11 C12", funcs=[K + "::cluster_or_prior_logp_from_items"] + C, contracts=RC + CC + MK + DK + AK + [], opts=dict(live=True))
    def _(x):
        p, n, it, g, bd, ar = base(x)
        v = x.val(T, "value")
        bt = BASE()(it, ar)
        e = n.emission_relation
        z = ZOF()(raw(e.domains), domh(x.ex, x.st, "crp"), it)
        x.assume(*[q for _, q in inv(x, n, bd, ar)])
        x.assume(inn(bd, bt))
        x.reach("precondition")
        h0 = dh(x.ex, x.st, P)
        hp0 = dict(x.st.heap)
        s = raw(x.call(K + "::cluster_or_prior_logp_from_items", p, [g, it, v]))
        ps = h0["obs"].sort().range().domain()
        w = ps.constructor(0)(oval(select(bd, bt)), raw(v))
        r = raw(e.clusters[z])
        old = _ad.LPF(ps)(select(h0["obs"], r), select(h0["hyp"], r), w)
        new = _ad.LPF(ps)(z3.K(ps, z3.RealVal(0)), x.ex.newhyps[-1], w)
        pr = present(x.ex, x.st, raw(e.domains), it)
        x.check(Implies(And(pr, e.clusters.has(z)), s == old), "predictive of the tuple's block for the pair of clean and dirty value")
        x.check(Implies(Not(And(pr, e.clusters.has(z))), s == new), "predictive of a new block for the pair of clean and dirty value")
        d = snap(x, p)
        unchanged(x, n, d, FIX + ("data", "base_to_noisy_items"))
        unchanged(x, e, d.emission_relation, ("data", "data_r", "clusters", "domains"))
        frame_heap(x, hp0, "predicting")

    # ---- functions that hand over to the error model's relation
    def hand(fn, props, args, want, val=False, mut=(), pre=(), contracts=()):
        k = Contract("%s<%s>!" % (fn, P), EK + "::" + fn, modifies=list(mut), effect=(havocd if mut else None))
        CONTRACTS[k.name] = k

        @unit(K + "::%s hands the question to the error model's relation" % fn, DRV, props, funcs=[K + "::" + fn] + C, contracts=RC + [k.name] + list(contracts))
        def _(x):
            p, n, it, g, bd, ar = base(x)
            bt = BASE()(it, ar)
            x.assume(*[q for _, q in inv(x, n, bd, ar)])
            x.assume(inn(bd, bt))
            a = args(x, it, g)
            r = x.call(K + "::" + fn, p, a)
            c = x.lastcall(k.name)
            x.check(z3.BoolVal(c.place.same(x.ex.fld(p, "emission_relation"))), "asks its own error model's relation")
            w = want(x, it, g, a, oval(select(bd, bt)))
            for i, q in enumerate(w):
                if q is not None:
                    x.check(q(c.args[i]) if callable(q) else raw(c.args[i]) == raw(q), "argument %d is handed over" % i)
            if val:
                x.check(raw(r) == raw(c.ret), "the answer is handed back")
            d = snap(x, p)
            unchanged(x, n, d, ("name", "domains", "base_relation", "data", "base_to_noisy_items"))

    dm = lambda x: Ref(x.obj("Domain", "domain"))
    pair_ = lambda b, v: lambda q: And(sel(raw(q), 0) == b, sel(raw(q), 1) == raw(v))
    same = lambda x, it, g, a, b: [q if not isinstance(q, Ref) else View(x.ex, x.ex.load(x.st, q.p), q.p.t) for q in a]
    MUT = ("data", "data_r", "clusters")
    hand("logp_gibbs_approx", "C10", lambda x, it, g: [dm(x), x.val("int", "item"), x.val("int", "table"), g], same, val=True)
    hand("logp_gibbs_exact", "C10", lambda x, it, g: [dm(x), x.val("int", "item"), x.val("vector<int>", "tables"), g], same, val=True)
    hand("logp_score", "C11 C12", lambda x, it, g: [], same, val=True)
    hand("set_cluster_assignment_gibbs", "C09 C11", lambda x, it, g: [dm(x), x.val("int", "item"), x.val("int", "table"), g], same, mut=("clusters",))
    hand("has_observation", "C11", lambda x, it, g: [dm(x), x.val("int", "item")], same, val=True)
    hand("clusters_contains", "C11", lambda x, it, g: [it], same, val=True)
    hand("get_cluster_assignment", "C11", lambda x, it, g: [it], same, val=True)
    hand("unincorporate_from_cluster", "C11 C12", lambda x, it, g: [it], same, mut=())
    hand("incorporate_to_cluster", "C11 C12", lambda x, it, g: [it, x.val(T, "value")], lambda x, it, g, a, b: [it, pair_(b, a[1])])
    hand("logp", "C11", lambda x, it, g: [it, x.val(T, "value"), g], lambda x, it, g, a, b: [it, pair_(b, a[1]), g], val=True)
    hand("transition_cluster_hparams", "C11", lambda x, it, g: [g, x.val("int", "steps")], same, mut=("clusters",))
    hand("cleanup_clusters", "C11", lambda x, it, g: [], same, mut=("clusters",))


for T in ("double", "string"):
    reg(T)
