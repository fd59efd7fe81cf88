"""CleanRelation<T> (C08, C09, C10): observations, lookup index and blocks.

Domains and distributions are heap objects known through their interface contracts (absdom, absdist)."""
import os
from spec import *
import absdom, absdist as _ad
from dist import snap
import util_math as _um
from absdom import put, drop, DOMOK

_ad.setup()
DRV = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine", "drivers", "inst_rel.cc")]
CONTRACTS = dict(_um.CONTRACTS)
CONTRACTS.update(_ad.CONTRACTS)
CONTRACTS.update(absdom.CONTRACTS)
DK = absdom.DOMK
AK = _ad.ABS
T0 = ["double", "string", "bool", "int", "pair<double,double>", "pair<string,string>"]


def FA(vs, body, patterns=None):
    """ForAll whose patterns are used only when z3 accepts them"""
    if patterns is not None:
        bad = any(z3.is_quantifier(t) or (z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE)) for t in subterms([q for p in patterns for q in (p.children() if False else [p]) if z3.is_expr(q)]))
        if not bad:
            try:
                return z3.ForAll(vs, body, patterns=patterns)
            except z3.Z3Exception:
                pass
    return z3.ForAll(vs, body)


MP = z3.MultiPattern


def named(ex, t):
    """a constant for a heap component, so that it can occur in patterns"""
    if z3.is_const(t):
        return t
    memo = ex.__dict__.setdefault("_named", {})
    if t.get_id() not in memo:
        a = fresh("heap", t.sort())
        ex.globals.append(a == t)
        memo[t.get_id()] = (t, a)
    return memo[t.get_id()][1]


# ---- heap views
def harr(ex, st, tname, field):
    from ir import _types
    t = _types[tname]
    for i, (f, ft) in enumerate(rec_fields(t)):
        if f == field:
            return ex.heap_arr(st, t, i)
    raise Unsupported("contract mentions field %s.%s which does not exist" % (tname, field))


def hset(ex, st, tname, field, val):
    from ir import _types
    t = _types[tname]
    for i, (f, ft) in enumerate(rec_fields(t)):
        if f == field:
            st.heap[ex.hkey(t, i)] = val
            return
    raise Unsupported(field)


def domh(ex, st, field):
    return named(ex, harr(ex, st, "Domain", field))


def crp_assign(crp):
    """assignments of a CRP term"""
    from ir import _types
    for i, (f, ft) in enumerate(rec_fields(_types["CRP"])):
        if f == "assignments":
            return sel(crp, i)
    raise Unsupported("CRP::assignments")


def table_of(ch, d, it):
    """table of entity it in the domain at address d"""
    return oval(select(crp_assign(select(ch, d)), it))


def VI():
    return vec_sort(I)


def ZOF():
    """table multi-index of an item tuple: function of the domain list, the domains' clusterings and the tuple"""
    from ir import _types
    return z3.Function("ZOF", VI(), z3.ArraySort(I, rec_sort(_types["CRP"])), VI(), VI())


def zof_facts(dv, ch, items):
    z = ZOF()(dv, ch, items)
    i = fresh("i", I)
    return And(vlen(z) == vlen(dv),
        FA([i], select(varr(z), i) == If(And(0 <= i, i < vlen(dv)), table_of(ch, select(varr(dv), i), select(varr(items), i)), 0), patterns=[z3.Select(varr(z), i)]))


def ZGF():
    from ir import _types
    return z3.Function("ZGOF", VI(), z3.ArraySort(I, rec_sort(_types["CRP"])), z3.ArraySort(I, sort(_types["string"])), VI(), sort(_types["string"]), I, I, VI())


def hit(dv, nh, items, dname, item, i):
    return And(select(nh, select(varr(dv), i)) == dname, select(varr(items), i) == item)


def zg_facts(dv, ch, nh, items, dname, item, table):
    z = ZGF()(dv, ch, nh, items, dname, item, table)
    i = fresh("i", I)
    return And(vlen(z) == vlen(dv),
        FA([i], select(varr(z), i) == If(And(0 <= i, i < vlen(dv)), If(hit(dv, nh, items, dname, item, i), table, table_of(ch, select(varr(dv), i), select(varr(items), i))), 0), patterns=[z3.Select(varr(z), i)]))


def present(ex, st, dv, items, skip=None):
    """every entity of the tuple is in its domain (and the domains are consistent objects)"""
    ih, ch = domh(ex, st, "items"), domh(ex, st, "crp")
    i = fresh("i", I)
    d = select(varr(dv), i)
    g = select(select(ih, d), select(varr(items), i))
    if skip is not None:
        g = Or(skip(i), g)
    return FA([i], Implies(And(0 <= i, i < vlen(dv)), g), patterns=[z3.Select(varr(dv), i)])


def doms_ok(ex, st, dv):
    ih, ch = domh(ex, st, "items"), domh(ex, st, "crp")
    i, y = fresh("i", I), fresh("y", I)
    d = select(varr(dv), i)
    it, cr = select(ih, d), select(ch, d)
    return And(FA([i], Implies(And(0 <= i, i < vlen(dv)), And(d != 0, z3.Function("DOMOK", it.sort(), cr.sort(), B)(it, cr))), patterns=[z3.Select(varr(dv), i)]),
        FA([i, y], Implies(And(0 <= i, i < vlen(dv)), select(it, y) == inn(crp_assign(cr), y)), patterns=[z3.MultiPattern(z3.Select(varr(dv), i), z3.Select(it, y))]))


def dv_of(c):
    return raw(c.this0.domains)


def zval(c):
    return ZOF()(dv_of(c), domh(c.ex, c.st0, "crp"), raw(c.args[0]))


def gca_pre(c):
    dv, it = dv_of(c), raw(c.args[0])
    return [("one entity per domain", vlen(it) == vlen(dv)), ("the domains are consistent", doms_ok(c.ex, c.st0, dv)), ("every entity is in its domain", present(c.ex, c.st0, dv, it))]


k_gca = Contract("CleanRelation::get_cluster_assignment", "CleanRelation::get_cluster_assignment", pre=gca_pre, value=zval,
    post=lambda c: [("the tables of its entities, in order", zof_facts(dv_of(c), domh(c.ex, c.st0, "crp"), raw(c.args[0])))])


def zgval(c):
    dv, it = dv_of(c), raw(c.args[0])
    return ZGF()(dv, domh(c.ex, c.st0, "crp"), domh(c.ex, c.st0, "name"), it, raw(c.args[1].name), raw(c.args[2]), raw(c.args[3]))


def gcag_pre(c):
    dv, it = dv_of(c), raw(c.args[0])
    nh = domh(c.ex, c.st0, "name")
    i = fresh("i", I)
    return [("one entity per domain", vlen(it) == vlen(dv)), ("the domains are consistent", doms_ok(c.ex, c.st0, dv)),
        ("every entity is in its domain", present(c.ex, c.st0, dv, it)),
        ("the tuple mentions the entity", z3.Exists([i], And(0 <= i, i < vlen(dv), hit(dv, nh, it, raw(c.args[1].name), raw(c.args[2]), i))))]


k_gcag = Contract("CleanRelation::get_cluster_assignment_gibbs", "CleanRelation::get_cluster_assignment_gibbs", pre=gcag_pre, value=zgval,
    post=lambda c: [("as now, with the given table for the entity", zg_facts(dv_of(c), domh(c.ex, c.st0, "crp"), domh(c.ex, c.st0, "name"), raw(c.args[0]), raw(c.args[1].name), raw(c.args[2]), raw(c.args[3])))])

k_cc = Contract("CleanRelation::clusters_contains", "CleanRelation::clusters_contains",
    pre=lambda c: [("one entity per domain", vlen(raw(c.args[0])) == vlen(dv_of(c))), ("the domains are consistent", doms_ok(c.ex, c.st0, dv_of(c)))],
    value=lambda c: And(present(c.ex, c.st0, dv_of(c), raw(c.args[0])), c.this0.clusters.has(zval(c))),
    post=lambda c: [("tables of the entities", zof_facts(dv_of(c), domh(c.ex, c.st0, "crp"), raw(c.args[0])))])

for k in (k_gca, k_gcag, k_cc):
    CONTRACTS[k.name] = k


# ---- lookup index: data_r[name][entity] is a set of tuples
def dr_outer(dr, nm):
    return inn(dr, nm)


def dr_key(dr, nm, e):
    return And(inn(dr, nm), inn(oval(select(dr, nm)), e))


def dr_mem(dr, nm, e, its):
    return And(dr_key(dr, nm, e), inn(oval(select(oval(select(dr, nm)), e)), its))


def SS():
    from ir import _types
    return sort(_types["string"])


def MD(dv, its, t, d, y):
    """one of the first t positions of the tuple is entity y of the domain at address d"""
    return z3.Function("MENTD", VI(), VI(), I, I, I, B)(dv, its, t, d, y)


def MN(dv, nh, its, t, nm, y):
    """one of the first t positions is entity y of a domain named nm"""
    return z3.Function("MENTN", VI(), nh.sort(), VI(), I, SS(), I, B)(dv, nh, its, t, nm, y)


def ment_facts(dv, nh, its, ts):
    """defining recursion of both at the positions in ts"""
    out = []
    d, y, nm = fresh("d", I), fresh("y", I), fresh("nm", SS())
    out.append(FA([d, y], Not(MD(dv, its, z3.IntVal(0), d, y)), patterns=[MD(dv, its, z3.IntVal(0), d, y)]))
    out.append(FA([nm, y], Not(MN(dv, nh, its, z3.IntVal(0), nm, y)), patterns=[MN(dv, nh, its, z3.IntVal(0), nm, y)]))
    for t in ts:
        a, b = MD(dv, its, t + 1, d, y), MN(dv, nh, its, t + 1, nm, y)
        out.append(Implies(t >= 0, FA([d, y], a == Or(MD(dv, its, t, d, y), And(select(varr(dv), t) == d, select(varr(its), t) == y)), patterns=[a])))
        out.append(Implies(t >= 0, FA([nm, y], b == Or(MN(dv, nh, its, t, nm, y), And(select(nh, select(varr(dv), t)) == nm, select(varr(its), t) == y)), patterns=[b])))
    return out


def ment_def(dv, nh, its):
    """closed form over all positions"""
    n = vlen(dv)
    d, y, nm, i = fresh("d", I), fresh("y", I), fresh("nm", SS()), fresh("i", I)
    a, b = MD(dv, its, n, d, y), MN(dv, nh, its, n, nm, y)
    return [FA([d, y], a == z3.Exists([i], And(0 <= i, i < n, select(varr(dv), i) == d, select(varr(its), i) == y)), patterns=[a]),
            FA([nm, y], b == z3.Exists([i], And(0 <= i, i < n, select(nh, select(varr(dv), i)) == nm, select(varr(its), i) == y)), patterns=[b]),
            FA([i], Implies(And(0 <= i, i < n), And(MD(dv, its, n, select(varr(dv), i), select(varr(its), i)), MN(dv, nh, its, n, select(nh, select(varr(dv), i)), select(varr(its), i)))), patterns=[z3.Select(varr(dv), i)])]


def names_in(dr, dv, nh):
    i = fresh("i", I)
    return FA([i], Implies(And(0 <= i, i < vlen(dv)), inn(dr, select(nh, select(varr(dv), i)))), patterns=[z3.Select(varr(dv), i)])


def dom_delta(ih0, ch0, ih, ch, mention):
    """domains after absorbing the mentioned entities: present ones keep their table, nothing else changes"""
    d, y = fresh("d", I), fresh("y", I)
    a0, a1 = select(crp_assign(select(ch0, d)), y), select(crp_assign(select(ch, d)), y)
    from ir import _types
    ai = [i for i, (f, _) in enumerate(rec_fields(_types["CRP"])) if f == "alpha"][0]
    return [("domains gain exactly the entities mentioned", FA([d, y], select(select(ih, d), y) == Or(select(select(ih0, d), y), mention(d, y)), patterns=[z3.Select(z3.Select(ih, d), y)])),
            ("entities already present keep their tables", FA([d, y], Implies(Or(select(select(ih0, d), y), Not(mention(d, y))), a1 == a0), patterns=[a1])),
            ("concentrations are unchanged", FA([d], sel(select(ch, d), ai) == sel(select(ch0, d), ai), patterns=[z3.Select(ch, d)]))]


def dr_delta(dr0, dr, its, mention):
    nm, e, j = fresh("nm", SS()), fresh("e", I), fresh("its", VI())
    return [("the index keeps its domains", FA([nm], inn(dr, nm) == inn(dr0, nm))),
            ("the index gains exactly the entities mentioned", FA([nm, e], dr_key(dr, nm, e) == Or(dr_key(dr0, nm, e), And(inn(dr0, nm), mention(nm, e))))),
            ("the index gains exactly the tuple, under the entities it mentions", FA([nm, e, j], dr_mem(dr, nm, e, j) == Or(dr_mem(dr0, nm, e, j), And(inn(dr0, nm), mention(nm, e), j == its))))]


# ---- creating a block
def fresh_dist(c, T=None):
    """a new distribution object: no data, not any object in use"""
    rt = c.f.rt.deref()
    pt = rt.pointee
    ex, st = c.ex, c.st
    r = fresh("newdist", I)
    ex.facts.append(r > 0)
    tn = pt.s
    lv = harr(ex, st, tn, "live")
    ex.fact(st, Not(select(lv, r)))
    hset(ex, st, tn, "live", z3.Store(lv, r, True))
    N, ob, hy = harr(ex, st, tn, "N"), harr(ex, st, tn, "obs"), harr(ex, st, tn, "hyp")
    hset(ex, st, tn, "N", z3.Store(N, r, z3.RealVal(0)))
    hset(ex, st, tn, "obs", z3.Store(ob, r, z3.K(ob.sort().range().domain(), z3.RealVal(0))))
    ex.newborn[r.get_id()] = (r, lv)
    h = ex.per_iter("newhyp", I)
    ex.__dict__.setdefault("newhyps", []).append(h)
    hset(ex, st, tn, "hyp", z3.Store(hy, r, h))
    c.ret0 = r


CONTRACTS["CleanRelation::make_new_distribution"] = Contract("CleanRelation::make_new_distribution", "CleanRelation::make_new_distribution", effect=fresh_dist)
MK = ["CleanRelation::make_new_distribution"]


def leaf(L, havoc, name):
    c = [h for h in havoc if L.leafname(h).split(".")[-1] == name or L.leafname(h) == name]
    return c[0] if len(c) == 1 else None


def DT(T):
    return "Distribution<%s>" % T


def rel(x, T, name="self"):
    p = x.obj("CleanRelation<%s>" % T, name)
    return p, snap(x, p)


def items(x, name="items"):
    v = fresh(name, VI())
    x.assume(vlen(v) >= 0)
    return v


def heap_same(x, st0, what, only=(), T=None, msg=""):
    """named heap components are untouched"""
    pass


def frame_heap(x, h0, msg, allow=()):
    """no heap component other than allow changed"""
    for k, v in x.st.heap.items():
        if k in allow:
            continue
        t = x.ex.type_by_name(k[0])
        o = h0.get(k)
        if o is None:
            tmp = St()
            o = x.ex.heap_arr(tmp, t, k[1])
        if not v.eq(o):
            for g in expand_eq(z3.simplify(v), z3.simplify(o)):
                x.check(g, "%s: %s of every %s object is unchanged" % (msg, rec_fields(t)[k[1]][0], t.s), "frame")


HF = ("N", "obs", "hyp", "live")


def touch(ex, st, T):
    for f in HF:
        harr(ex, st, DT(T), f)
    for f in ("name", "items", "crp"):
        harr(ex, st, "Domain", f)


def dh(ex, st, T):
    """the distributions' heap components"""
    return {f: harr(ex, st, DT(T), f) for f in HF}


def unchanged(x, c, d, fields):
    for f in fields:
        a, b = raw(getattr(c, f)), raw(getattr(d, f))
        if not a.eq(b):
            x.check(a == b, "unchanged: " + f, "frame")


def clusters_ok(ex, st, T, c):
    """blocks are distinct existing objects"""
    lv = named(ex, harr(ex, st, DT(T), "live"))
    cl = named(ex, raw(c.clusters))
    z, w = fresh("z", VI()), fresh("w", VI())
    r = lambda k: oval(select(cl, k))
    return And(FA([z], Implies(inn(cl, z), And(r(z) > 0, select(lv, r(z)))), patterns=[z3.Select(cl, z)]),
               FA([z, w], Implies(And(inn(cl, z), inn(cl, w), z != w), r(z) != r(w)), patterns=[MP(z3.Select(cl, z), z3.Select(cl, w))]))


def ii_pre(ex, st, T, c, g, it):
    dv = raw(c.domains)
    return [("a generator is given", g != 0), ("one entity per domain", vlen(it) == vlen(dv)), ("the domains are consistent", doms_ok(ex, st, dv)), ("the tuple is new", Not(c.data.has(it))),
        ("the index lists every domain", names_in(raw(c.data_r), dv, domh(ex, st, "name"))), ("blocks are distinct existing objects", clusters_ok(ex, st, T, c))]


def ii_post(ex, st0, st, T, c, d, it, z):
    dv = raw(c.domains)
    n = vlen(dv)
    nh = domh(ex, st0, "name")
    ih, ch = domh(ex, st, "items"), domh(ex, st, "crp")
    h0, h1 = dh(ex, st0, T), dh(ex, st, T)
    z = raw(z)
    r = raw(d.clusters[z])
    w, q, v = fresh("w", VI()), fresh("q", I), fresh("v", h0["obs"].sort().range().domain())
    lv0, cl1 = named(ex, h0["live"]), named(ex, raw(d.clusters))
    n1 = {f: named(ex, h1[f]) for f in HF}
    out = [("domains are consistent afterwards", doms_ok(ex, st, dv)), ("every entity of the tuple is in its domain", present(ex, st, dv, it))]
    out += dom_delta(domh(ex, st0, "items"), domh(ex, st0, "crp"), ih, ch, lambda a, y: MD(dv, it, n, a, y))
    out += dr_delta(raw(c.data_r), raw(d.data_r), it, lambda nm, e: MN(dv, nh, it, n, nm, e))
    out += [("returns the block of the tuple", And(z == ZOF()(dv, ch, it), zof_facts(dv, ch, it))), ("the block exists", And(d.clusters.has(z), r > 0, select(n1["live"], r))),
        ("other blocks are the same objects", FA([w], Implies(Or(w != z, c.clusters.has(z)), select(raw(d.clusters), w) == select(raw(c.clusters), w)), patterns=[z3.Select(cl1, w)])),
        ("a new block starts without data", Implies(Not(c.clusters.has(z)), And(Not(select(lv0, r)), select(h1["N"], r) == 0, FA([v], select(select(h1["obs"], r), v) == 0)))),
        ("blocks are distinct existing objects", clusters_ok(ex, st, T, d))]
    for f in HF:
        out.append(("existing blocks keep their " + f, FA([q], Implies(select(lv0, q), select(h1[f], q) == select(h0[f], q)), patterns=[z3.Select(n1[f], q)])))
    return out


def k_ii(T):
    def effect(c):
        for f in HF:
            a = harr(c.ex, c.st, DT(T), f)
            hset(c.ex, c.st, DT(T), f, fresh("heap_" + f, a.sort()))
        for f in ("items", "crp"):
            a = harr(c.ex, c.st, "Domain", f)
            hset(c.ex, c.st, "Domain", f, fresh("heap_" + f, a.sort()))
    return Contract("CleanRelation::incorporate_items<%s>" % T, "CleanRelation<%s>::incorporate_items" % T,
        pre=lambda c: ii_pre(c.ex, c.st, T, c.this0, c.args[0], raw(c.args[1])),
        post=lambda c: ii_post(c.ex, c.st0, c.st, T, c.this0, c.this, raw(c.args[1]), c.ret),
        modifies=["data_r", "clusters"], effect=effect)


def nonempty(dr):
    """the index lists no entity without observations"""
    nm, e = fresh("nm", SS()), fresh("e", I)
    return FA([nm, e], Implies(dr_key(dr, nm, e), CARD(oval(select(oval(select(dr, nm)), e))) > 0))


def dr_removed(dr0, dr, its, mention):
    nm, e, j = fresh("nm", SS()), fresh("e", I), fresh("its", VI())
    return [("the index keeps its domains", FA([nm], inn(dr, nm) == inn(dr0, nm))),
            ("the index loses exactly the tuple, under the entities it mentions", FA([nm, e, j], dr_mem(dr, nm, e, j) == And(dr_mem(dr0, nm, e, j), Not(And(mention(nm, e), j == its))))),
            ("the index lists no new entity", FA([nm, e], Implies(dr_key(dr, nm, e), dr_key(dr0, nm, e)))),
            ("the index lists no entity without observations", nonempty(dr))]


def cd_pre(ex, st, c, it):
    dv = raw(c.domains)
    return [("one entity per domain", vlen(it) == vlen(dv)), ("domains exist", FA([i_ := fresh("i", I)], Implies(And(0 <= i_, i_ < vlen(dv)), select(varr(dv), i_) != 0), patterns=[z3.Select(varr(dv), i_)])),
        ("the index lists every domain", names_in(raw(c.data_r), dv, domh(ex, st, "name"))), ("the index lists no entity without observations", nonempty(raw(c.data_r)))]


def cd_post(ex, st, c, d, it):
    dv = raw(c.domains)
    return [("the record loses exactly the tuple", raw(d.data) == drop(raw(c.data), it))] + dr_removed(raw(c.data_r), raw(d.data_r), it, lambda nm, e: MN(dv, domh(ex, st, "name"), it, vlen(dv), nm, e))


k_cd = Contract("CleanRelation::cleanup_data", "CleanRelation::cleanup_data", pre=lambda c: cd_pre(c.ex, c.st0, c.this0, raw(c.args[0])),
    post=lambda c: cd_post(c.ex, c.st, c.this0, c.this, raw(c.args[0])), modifies=["data", "data_r"])
CONTRACTS[k_cd.name] = k_cd


def score(ex, st, T, c):
    h = dh(ex, st, T)
    cl = raw(c.clusters)
    z = fresh("z", VI())
    r = oval(select(cl, z))
    s = h["obs"].sort().range().domain()
    return SETSUMF(VI())(z3.Lambda([z], If(inn(cl, z), _ad.SCF(s)(select(h["obs"], r), select(h["hyp"], r)), z3.RealVal(0))))


ADDED = {}     # per T: the checks that exactly one observation was added


def reg(T):
    K = "CleanRelation<%s>" % T

    @unit(K + "::get_cluster_assignment gives the tables of the entities", DRV, "C08", funcs=[K + "::get_cluster_assignment"], contracts=DK)
    def _(x):
        p, c = rel(x, T)
        it = items(x)
        z = ZOF()(raw(c.domains), domh(x.ex, x.st, "crp"), it)
        x.assume(zof_facts(raw(c.domains), domh(x.ex, x.st, "crp"), it))
        prove_body(x, k_gca, p, [it], sname=K + "::get_cluster_assignment")

    @unit(K + "::get_cluster_assignment_gibbs replaces only the entity's table", DRV, "C09 C10", funcs=[K + "::get_cluster_assignment_gibbs"], contracts=DK)
    def _(x):
        p, c = rel(x, T)
        it = items(x)
        d = x.obj("Domain", "domain")
        item, table = x.val("int", "item"), x.val("int", "table")
        x.assume(zg_facts(raw(c.domains), domh(x.ex, x.st, "crp"), domh(x.ex, x.st, "name"), it, raw(x.view(d).name), item, table))
        prove_body(x, k_gcag, p, [it, Ref(d), item, table], sname=K + "::get_cluster_assignment_gibbs")

    @unit(K + "::clusters_contains tells whether the block of the entities exists", DRV, "C08", funcs=[K + "::clusters_contains"], contracts=DK)
    def _(x):
        p, c = rel(x, T)
        it = items(x)
        x.assume(zof_facts(raw(c.domains), domh(x.ex, x.st, "crp"), it))
        prove_body(x, k_cc, p, [it], sname=K + "::clusters_contains")

    dtn = DT(T)

    def ii_hook(x, p, c, it, h0):
        dv, nh = raw(c.domains), h0["nh"]

        def hook(L, node, st0, s, j, N, rng, havoc):
            x.assume(ment_facts(dv, nh, it, [j]))

            def inv(stt, t):
                ih, ch = domh(x.ex, stt, "items"), domh(x.ex, stt, "crp")
                dr = raw(x.view(p, stt).data_r)
                return ([("domains stay consistent", doms_ok(x.ex, stt, dv))] + dom_delta(h0["ih"], h0["ch"], ih, ch, lambda d, y: MD(dv, it, t, d, y))
                    + dr_delta(raw(c.data_r), dr, it, lambda nm, e: MN(dv, nh, it, t, nm, e)))
            return inv
        return hook

    @unit(K + "::incorporate_items adds the entities, indexes the tuple and makes sure its block exists", DRV, "C08", funcs=[K + "::incorporate_items"], contracts=DK + MK + ["CleanRelation::get_cluster_assignment"], opts=dict(live=True, havoc_ok=True))
    def _(x):
        p, c = rel(x, T)
        it = items(x)
        g = x.val("int", "prng")
        x.assume(*[q for _, q in ii_pre(x.ex, x.st, T, c, g, it)])
        dv = raw(c.domains)
        h0 = dict(nh=domh(x.ex, x.st, "name"), ih=domh(x.ex, x.st, "items"), ch=domh(x.ex, x.st, "crp"))
        x.assume(ment_def(dv, h0["nh"], it))
        x.reach("precondition")
        touch(x.ex, x.st, T)
        st0 = x.st.copy()
        x.ex.loop_inv = ii_hook(x, p, c, it, h0)
        z = x.call(K + "::incorporate_items", p, [g, it])
        d = snap(x, p)
        x.reach("end")
        x.check(ii_post(x.ex, st0, x.st, T, c, d, it, z), "ensures")
        unchanged(x, c, d, ("name", "domains", "prior_spec", "data"))

    # ---- removing from the index
    def cd_hook(x, p, c, it, nh):
        dv = raw(c.domains)

        def hook(L, node, st0, s, j, N, rng, havoc):
            x.assume(ment_facts(dv, nh, it, [j]))
            return lambda stt, t: dr_removed(raw(c.data_r), raw(x.view(p, stt).data_r), it, lambda nm, e: MN(dv, nh, it, t, nm, e))
        return hook

    @unit(K + "::cleanup_data removes exactly the tuple from the record and the index", DRV, "C08", funcs=[K + "::cleanup_data"], contracts=DK, opts=dict(havoc_ok=True))
    def _(x):
        p, c = rel(x, T)
        it = items(x)
        nh = domh(x.ex, x.st, "name")
        x.assume(*[q for _, q in cd_pre(x.ex, x.st, c, it)])
        x.assume(ment_def(raw(c.domains), nh, it))
        x.reach("precondition")
        h0 = dict(x.st.heap)
        x.ex.loop_inv = cd_hook(x, p, c, it, nh)
        x.call(K + "::cleanup_data", p, [it])
        d = snap(x, p)
        x.reach("end")
        x.check(cd_post(x.ex, x.st, c, d, it), "ensures")
        unchanged(x, c, d, ("name", "domains", "prior_spec", "clusters"))
        frame_heap(x, h0, "removing an observation's record")

    def base(x, extra=()):
        """a relation in a consistent state, with heap snapshot"""
        p, c = rel(x, T)
        it = items(x)
        g = x.val("int", "prng")
        x.assume(g != 0, vlen(it) == vlen(raw(c.domains)), doms_ok(x.ex, x.st, raw(c.domains)), names_in(raw(c.data_r), raw(c.domains), domh(x.ex, x.st, "name")), nonempty(raw(c.data_r)), clusters_ok(x.ex, x.st, T, c))
        x.assume(zof_facts(raw(c.domains), domh(x.ex, x.st, "crp"), it))
        x.assume(ment_def(raw(c.domains), domh(x.ex, x.st, "name"), it))
        touch(x.ex, x.st, T)
        return p, c, it, g, x.st.copy()

    def same_doms(x, st0):
        for f in ("items", "crp", "name"):
            a, b = harr(x.ex, x.st, "Domain", f), harr(x.ex, st0, "Domain", f)
            if not a.eq(b):
                x.check(a == b, "the domains' %s are unchanged" % f, "frame")

    def same_hyp(x, st0):
        x.check(harr(x.ex, x.st, dtn, "hyp") == harr(x.ex, st0, dtn, "hyp"), "no hyperparameter changes", "frame")

    @unit(K + "::unincorporate removes exactly the observation", DRV, "C08", funcs=[K + "::unincorporate"], contracts=DK + AK + ["CleanRelation::get_cluster_assignment", "CleanRelation::cleanup_data"], opts=dict(live=True))
    def _(x):
        p, c, it, g, st0 = base(x)
        z = ZOF()(raw(c.domains), domh(x.ex, x.st, "crp"), it)
        x.assume(c.data.has(it), present(x.ex, x.st, raw(c.domains), it), c.clusters.has(z))
        x.reach("precondition")
        x.call(K + "::unincorporate", p, [it])
        d = snap(x, p)
        r, v = raw(c.clusters[z]), raw(c.data[it])
        x.check(cd_post(x.ex, x.st, c, d, it), "record and index")
        h0, h1 = dh(x.ex, st0, T), dh(x.ex, x.st, T)
        last = select(h0["N"], r) == 1
        x.check(Implies(last, And(raw(d.clusters) == drop(raw(c.clusters), z), h1["live"] == z3.Store(h0["live"], r, False))), "a block left without data disappears")
        x.check(Implies(Not(last), And(raw(d.clusters) == raw(c.clusters), h1["live"] == h0["live"], h1["N"] == z3.Store(h0["N"], r, select(h0["N"], r) - 1),
                h1["obs"] == z3.Store(h0["obs"], r, _ad.absorb(select(h0["obs"], r), v, z3.RealVal(-1))))), "otherwise its block gives back exactly the value and no other block changes")
        q = fresh("q", I)
        x.check(Implies(q != r, And(*[select(h1[f], q) == select(h0[f], q) for f in h0])), "other blocks are untouched", "frame")
        x.check(clusters_ok(x.ex, x.st, T, d), "blocks are distinct existing objects")
        unchanged(x, c, d, ("name", "domains", "prior_spec"))
        same_doms(x, st0)
        same_hyp(x, st0)

    @unit(K + "::incorporate adds exactly the observation", DRV, "C08", funcs=[K + "::incorporate"], contracts=DK + AK + ["CleanRelation::incorporate_items<%s>" % T], opts=dict(live=True))
    def _(x):
        p, c, it, g, st0 = base(x)
        v = x.val(T, "value")
        x.assume(Not(c.data.has(it)))
        x.reach("precondition")
        x.call(K + "::incorporate", p, [g, it, v])
        d = snap(x, p)
        added(x, p, c, d, it, v, st0)

    def added(x, p, c, d, it, v, st0):
        dv = raw(c.domains)
        n = vlen(dv)
        z = ZOF()(dv, domh(x.ex, x.st, "crp"), it)
        nh = domh(x.ex, x.st, "name")
        h0, h1 = dh(x.ex, st0, T), dh(x.ex, x.st, T)
        x.check(raw(d.data) == put(raw(c.data), it, raw(v)), "the record gains exactly this observation")
        x.check(dr_delta(raw(c.data_r), raw(d.data_r), it, lambda nm, e: MN(dv, nh, it, n, nm, e)), "index")
        x.check(d.clusters.has(z), "its block exists")
        r = raw(d.clusters[z])
        w, q, y = fresh("w", VI()), fresh("q", I), fresh("y", h0["obs"].sort().range().domain())
        x.check(Implies(Or(w != z, c.clusters.has(z)), select(raw(d.clusters), w) == select(raw(c.clusters), w)), "other blocks are the same objects")
        old = c.clusters.has(z)
        x.check(select(h1["N"], r) == If(old, select(h0["N"], r), 0) + 1, "its block counts the value")
        x.check(select(select(h1["obs"], r), y) == If(old, select(select(h0["obs"], r), y), 0) + If(y == raw(v), z3.RealVal(1), z3.RealVal(0)), "its block absorbs exactly the value")
        x.check(Implies(And(select(h0["live"], q), q != r), And(*[select(h1[f], q) == select(h0[f], q) for f in h0])), "other blocks are untouched", "frame")
        x.check(Implies(select(h0["live"], q), select(h1["hyp"], q) == select(h0["hyp"], q)), "no hyperparameter of an existing block changes", "frame")
        x.check(clusters_ok(x.ex, x.st, T, d), "blocks are distinct existing objects")
        x.check(dom_delta(domh(x.ex, st0, "items"), domh(x.ex, st0, "crp"), domh(x.ex, x.st, "items"), domh(x.ex, x.st, "crp"), lambda a, y: MD(dv, it, n, a, y)), "domains")
        unchanged(x, c, d, ("name", "domains", "prior_spec"))

    ADDED[T] = added

    @unit(K + "::sample_and_incorporate adds exactly one observation", DRV, "C08", funcs=[K + "::sample_and_incorporate"], contracts=DK + AK + ["CleanRelation::incorporate_items<%s>" % T, "CleanRelation::clusters_contains", "CleanRelation::get_cluster_assignment"] + MK, opts=dict(live=True))
    def _(x):
        p, c, it, g, st0 = base(x)
        x.assume(Not(c.data.has(it)))
        x.reach("precondition")
        v = x.call(K + "::sample_and_incorporate", p, [g, it])
        d = snap(x, p)
        added(x, p, c, d, it, v, st0)

    @unit(K + "::update_value exchanges exactly one value", DRV, "C08 C11 C12", funcs=[K + "::update_value", K + "::incorporate_to_cluster", K + "::unincorporate_from_cluster", K + "::get_value"], contracts=DK + AK + ["CleanRelation::get_cluster_assignment"], opts=dict(live=True))
    def _(x):
        p, c, it, g, st0 = base(x)
        v = x.val(T, "value")
        z = ZOF()(raw(c.domains), domh(x.ex, x.st, "crp"), it)
        x.assume(c.data.has(it), present(x.ex, x.st, raw(c.domains), it), c.clusters.has(z))
        x.reach("precondition")
        x.call(K + "::update_value", p, [it, v])
        d = snap(x, p)
        r, o = raw(c.clusters[z]), raw(c.data[it])
        h0, h1 = dh(x.ex, st0, T), dh(x.ex, x.st, T)
        x.check(raw(d.data) == put(raw(c.data), it, v), "the record holds the new value, others keep theirs")
        x.check(h1["obs"] == z3.Store(h0["obs"], r, _ad.absorb(_ad.absorb(select(h0["obs"], r), o, z3.RealVal(-1)), v, z3.RealVal(1))), "its block gives back the old value and absorbs the new one; no other block changes")
        x.check(And(h1["N"] == h0["N"], h1["live"] == h0["live"]), "block sizes are unchanged")
        unchanged(x, c, d, ("name", "domains", "prior_spec", "clusters", "data_r"))
        same_doms(x, st0)
        same_hyp(x, st0)

    @unit(K + "::incorporate_to_cluster and unincorporate_from_cluster move one value of one block", DRV, "C08 C12", funcs=[K + "::incorporate_to_cluster", K + "::unincorporate_from_cluster"], contracts=DK + AK + ["CleanRelation::get_cluster_assignment"], opts=dict(live=True))
    def _(x):
        p, c, it, g, st0 = base(x)
        z = ZOF()(raw(c.domains), domh(x.ex, x.st, "crp"), it)
        x.assume(c.data.has(it), present(x.ex, x.st, raw(c.domains), it), c.clusters.has(z))
        x.reach("precondition")
        x.call(K + "::unincorporate_from_cluster", p, [it])
        d = snap(x, p)
        r, o = raw(c.clusters[z]), raw(c.data[it])
        h0, h1 = dh(x.ex, st0, T), dh(x.ex, x.st, T)
        x.check(And(h1["N"] == z3.Store(h0["N"], r, select(h0["N"], r) - 1), h1["obs"] == z3.Store(h0["obs"], r, _ad.absorb(select(h0["obs"], r), o, z3.RealVal(-1)))), "the block gives back exactly the recorded value")
        unchanged(x, c, d, ("name", "domains", "prior_spec", "clusters", "data", "data_r"))
        x.call(K + "::incorporate_to_cluster", p, [it, o])
        d, h1 = snap(x, p), dh(x.ex, x.st, T)
        for f in h0:
            x.check(h1[f] == h0[f], "putting the value back restores the blocks: " + f)
        unchanged(x, c, d, ("name", "domains", "prior_spec", "clusters", "data", "data_r"))
        same_doms(x, st0)

    @unit(K + "::logp_score is the sum of the blocks' scores", DRV, "C08 C10 C13", funcs=[K + "::logp_score"], contracts=DK + AK, opts=dict(live=True))
    def _(x):
        p, c, it, g, st0 = base(x)
        s = x.call(K + "::logp_score", p, [])
        x.check(s == score(x.ex, x.st, T, c), "sum over the blocks")
        unchanged(x, c, snap(x, p), ("name", "domains", "prior_spec", "clusters", "data", "data_r"))
        frame_heap(x, st0.heap, "scoring")

    @unit(K + ": lookups report the stored observations", DRV, "C08", funcs=[K + "::has_observation", K + "::get_value"], contracts=DK + AK)
    def _(x):
        p, c, it, g, st0 = base(x)
        x.assume(c.data.has(it))
        x.check(x.call(K + "::get_value", p, [it]) == raw(c.data[it]), "the stored value")
        dm = x.obj("Domain", "domain")
        x.assume(dr_outer(raw(c.data_r), raw(x.view(dm).name)))
        e = x.val("int", "item")
        h = x.call(K + "::has_observation", p, [Ref(dm), e])
        x.check(h == dr_key(raw(c.data_r), raw(x.view(dm).name), e), "whether the index lists the entity")
        unchanged(x, c, snap(x, p), ("name", "domains", "prior_spec", "clusters", "data", "data_r"))


# ---- consistent relations: every stored observation has its entities, its block and its index entries
def inv_rel(ex, st, T, c, skipitem=None):
    """all of it, quantified over the stored observations"""
    dv, data = raw(c.domains), named(ex, raw(c.data))
    nh, ih, ch = domh(ex, st, "name"), domh(ex, st, "items"), domh(ex, st, "crp")
    n = vlen(dv)
    j, i = fresh("its", VI()), fresh("i", I)
    z = ZOF()(dv, ch, j)
    cl, N = named(ex, raw(c.clusters)), named(ex, harr(ex, st, DT(T), "N"))
    dr = raw(c.data_r)
    nm, e = fresh("nm", SS()), fresh("e", I)
    d = lambda k: select(varr(dv), k)
    return And(
        FA([j], Implies(inn(data, j), And(vlen(j) == n, inn(cl, z))), patterns=[z3.Select(data, j)]),
        FA([j, i], Implies(And(inn(data, j), 0 <= i, i < n), select(select(ih, d(i)), select(varr(j), i))), patterns=[MP(z3.Select(data, j), z3.Select(varr(j), i)), z3.Select(z3.Select(ih, d(i)), z3.Select(varr(j), i))]),
        FA([nm, e, j], Implies(dr_mem(dr, nm, e, j), And(inn(data, j), z3.Exists([i], And(0 <= i, i < n, select(nh, d(i)) == nm, select(varr(j), i) == e))))))


def zof_all(ex, dv, ch):
    """defining equations of ZOF for every tuple"""
    j, i = fresh("its", VI()), fresh("i", I)
    z = ZOF()(dv, ch, j)
    return And(FA([j], vlen(z) == vlen(dv), patterns=[z]),
        FA([j, i], select(varr(z), i) == If(And(0 <= i, i < vlen(dv)), table_of(ch, select(varr(dv), i), select(varr(j), i)), 0), patterns=[z3.Select(varr(z), i)]))


def zgof_all(ex, dv, ch, nh, dname, item, table):
    j, i = fresh("its", VI()), fresh("i", I)
    z = ZGF()(dv, ch, nh, j, dname, item, table)
    return And(FA([j], vlen(z) == vlen(dv), patterns=[z]),
        FA([j, i], select(varr(z), i) == If(And(0 <= i, i < vlen(dv)), If(hit(dv, nh, j, dname, item, i), table, table_of(ch, select(varr(dv), i), select(varr(j), i))), 0), patterns=[z3.Select(varr(z), i)]))


def regg(T):
    """Gibbs scoring and reclustering"""
    K = "CleanRelation<%s>" % T
    dtn = DT(T)

    def base(x):
        p, c = rel(x, T)
        dm = x.obj("Domain", "domain")
        e = x.val("int", "item")
        dv = raw(c.domains)
        g = x.val("int", "prng")
        ch = domh(x.ex, x.st, "crp")
        nm = raw(x.view(dm).name)
        x.assume(g != 0, doms_ok(x.ex, x.st, dv), names_in(raw(c.data_r), dv, domh(x.ex, x.st, "name")), clusters_ok(x.ex, x.st, T, c), inv_rel(x.ex, x.st, T, c), zof_all(x.ex, dv, ch))
        x.assume(dr_key(raw(c.data_r), nm, e))
        touch(x.ex, x.st, T)
        S = oval(select(oval(select(raw(c.data_r), nm)), e))
        return p, c, dm, nm, e, g, S, x.st.copy()

    @unit(K + "::logp_gibbs_approx_current sums the leave-one-out predictives and changes nothing", DRV, "C10", funcs=[K + "::logp_gibbs_approx_current"], contracts=DK + AK + ["CleanRelation::get_cluster_assignment"], opts=dict(live=True))
    def _(x):
        p, c, dm, nm, e, g, S, st0 = base(x)
        x.reach("precondition")
        s = x.call(K + "::logp_gibbs_approx_current", p, [Ref(dm), e])
        h0 = dh(x.ex, st0, T)
        j = fresh("its", VI())
        ss = h0["obs"].sort().range().domain()
        v = raw(c.data[j])
        r = oval(select(raw(c.clusters), ZOF()(raw(c.domains), domh(x.ex, st0, "crp"), j)))
        t = _ad.LPF(ss)(_ad.absorb(select(h0["obs"], r), v, z3.RealVal(-1)), select(h0["hyp"], r), v)
        x.check(s == SETSUMF(VI())(z3.Lambda([j], If(inn(S, j), t, z3.RealVal(0)))), "sum over the entity's observations of the predictive given all others of the block")
        unchanged(x, c, snap(x, p), ("name", "domains", "prior_spec", "clusters", "data", "data_r"))
        frame_heap(x, st0.heap, "scoring the current table")

    def pred(x, st0, h0, its, v, z, newhyp):
        """predictive of v in block z as it stands; a block that does not exist is a new empty one"""
        ss = h0["obs"].sort().range().domain()
        r = oval(select(raw(x.c0.clusters), z))
        return If(inn(raw(x.c0.clusters), z), _ad.LPF(ss)(select(h0["obs"], r), select(h0["hyp"], r), v), _ad.LPF(ss)(z3.K(ss, z3.RealVal(0)), newhyp, v))

    @unit(K + "::logp_gibbs_approx_variant sums the predictives of the blocks the entity would move to and changes nothing", DRV, "C10", funcs=[K + "::logp_gibbs_approx_variant"], contracts=DK + AK + MK + ["CleanRelation::get_cluster_assignment_gibbs"], opts=dict(live=True))
    def _(x):
        p, c, dm, nm, e, g, S, st0 = base(x)
        x.c0 = c
        t = x.val("int", "table")
        dname = raw(x.view(dm).name)
        nh, ch = domh(x.ex, x.st, "name"), domh(x.ex, x.st, "crp")
        dv = raw(c.domains)
        x.assume(zgof_all(x.ex, dv, ch, nh, dname, e, t))
        x.reach("precondition")
        s = x.call(K + "::logp_gibbs_approx_variant", p, [Ref(dm), e, t, g])
        h0 = dh(x.ex, st0, T)
        j = fresh("its", VI())
        nhp = x.ex.newhyps[-1]
        x.shape(nhp.num_args() == 1, "one fresh block per observation")
        z = ZGF()(dv, ch, nh, j, dname, e, t)
        tt = pred(x, st0, h0, j, raw(c.data[j]), z, nhp.decl()(POS(S, j)))
        x.check(s == SETSUMF(VI())(z3.Lambda([j], If(inn(S, j), tt, z3.RealVal(0)))), "sum over the entity's observations of the predictive of the block under the new table")
        unchanged(x, c, snap(x, p), ("name", "domains", "prior_spec", "clusters", "data", "data_r"))
        frame_heap(x, st0.heap, "scoring another table")

    def items_list(x, c):
        """a non-empty list of stored tuples"""
        from ir import _types
        l = fresh("items_list", vec_sort(VI()))
        k = fresh("k", I)
        x.assume(vlen(l) > 0, FA([k], Implies(And(0 <= k, k < vlen(l)), c.data.has(select(varr(l), k))), patterns=[z3.Select(varr(l), k)]))
        return l

    def count(c, l, ss, sign):
        v, k = fresh("v", ss), fresh("k", I)
        return v, SUMF(z3.Lambda([k], If(raw(c.data[select(varr(l), k)]) == v, z3.RealVal(sign), z3.RealVal(0))), z3.IntVal(0), vlen(l))

    @unit(K + "::logp_gibbs_exact_current is the score the observations contribute to their block, and changes nothing", DRV, "C10", funcs=[K + "::logp_gibbs_exact_current"], contracts=DK + AK + ["CleanRelation::get_cluster_assignment"], opts=dict(live=True))
    def _(x):
        p, c, dm, nm, e, g, S, st0 = base(x)
        l = items_list(x, c)
        z = ZOF()(raw(c.domains), domh(x.ex, x.st, "crp"), select(varr(l), 0))
        x.reach("precondition")
        s = x.call(K + "::logp_gibbs_exact_current", p, [l])
        h0 = dh(x.ex, st0, T)
        ss = h0["obs"].sort().range().domain()
        x.check(s == ec_value(x.ex, st0, c, l), "score with minus score without the listed observations")
        unchanged(x, c, snap(x, p), ("name", "domains", "prior_spec", "clusters", "data", "data_r"))
        frame_heap(x, st0.heap, "scoring the current table")

    @unit(K + "::logp_gibbs_exact_variant is the score the observations would add to the block they would move to, and changes nothing", DRV, "C10", funcs=[K + "::logp_gibbs_exact_variant"], contracts=DK + AK + MK + ["CleanRelation::get_cluster_assignment_gibbs"], opts=dict(live=True))
    def _(x):
        p, c, dm, nm, e, g, S, st0 = base(x)
        l = items_list(x, c)
        t = x.val("int", "table")
        nh, ch = domh(x.ex, x.st, "name"), domh(x.ex, x.st, "crp")
        dv = raw(c.domains)
        k, i = fresh("k", I), fresh("i", I)
        first = select(varr(l), 0)
        x.assume(zgof_all(x.ex, dv, ch, nh, nm, e, t), z3.Exists([i], And(0 <= i, i < vlen(dv), hit(dv, nh, first, nm, e, i))))
        x.reach("precondition")
        s = x.call(K + "::logp_gibbs_exact_variant", p, [Ref(dm), e, t, l, g])
        h0 = dh(x.ex, st0, T)
        ss = h0["obs"].sort().range().domain()
        z = ZGF()(dv, ch, nh, first, nm, e, t)
        r = raw(c.clusters[z])
        v, cnt = count(c, l, ss, 1)
        has = c.clusters.has(z)
        o, hy = If(has, select(h0["obs"], r), z3.K(ss, z3.RealVal(0))), If(has, select(h0["hyp"], r), x.ex.newhyps[-1])
        for cs, nme, o, hy in ((has, "existing block", select(h0["obs"], r), select(h0["hyp"], r)), (Not(has), "new block", z3.K(ss, z3.RealVal(0)), x.ex.newhyps[-1])):
            x.check(Implies(cs, s == _ad.SCF(ss)(z3.Lambda([v], select(o, v) + cnt), hy) - _ad.SCF(ss)(o, hy)), "score with the listed observations added minus score without: " + nme)
        unchanged(x, c, snap(x, p), ("name", "domains", "prior_spec", "clusters", "data", "data_r"))
        h1, q = dh(x.ex, x.st, T), fresh("q", I)
        for f in HF:
            x.check(Implies(select(h0["live"], q), select(h1[f], q) == select(h0[f], q)), "scoring another table leaves every block as it was: " + f, "frame")

    @unit(K + "::logp_gibbs_approx scores the entity's own table leave-one-out and any other table as a move", DRV, "C10", funcs=[K + "::logp_gibbs_approx"], contracts=DK + AK + MK + ["CleanRelation::get_cluster_assignment", "CleanRelation::get_cluster_assignment_gibbs"], opts=dict(live=True))
    def _(x):
        p, c, dm, nm, e, g, S, st0 = base(x)
        x.c0 = c
        t = x.val("int", "table")
        nh, ch = domh(x.ex, x.st, "name"), domh(x.ex, x.st, "crp")
        dv = raw(c.domains)
        x.assume(zgof_all(x.ex, dv, ch, nh, nm, e, t))
        dom = x.view(dm)
        y = fresh("y", I)
        x.assume(dom.items.has(e), dom.crp.assignments.has(e), FA([y], dom.items.has(y) == dom.crp.assignments.has(y), patterns=[z3.Select(raw(dom.items), y)]))
        from ir import _types
        x.assume(z3.Function("DOMOK", raw(dom.items).sort(), raw(dom.crp).sort(), B)(raw(dom.items), raw(dom.crp)))
        cur = dom.crp.assignments[e]
        x.reach("precondition")
        s = x.call(K + "::logp_gibbs_approx", p, [Ref(dm), e, t, g])
        h0 = dh(x.ex, st0, T)
        j = fresh("its", VI())
        ss = h0["obs"].sort().range().domain()
        nhp = x.ex.newhyps[-1]
        x.shape(nhp.num_args() == 1, "one fresh block per observation")
        v = raw(c.data[j])
        z = ZGF()(dv, ch, nh, j, nm, e, t)
        r0 = oval(select(raw(c.clusters), ZOF()(dv, ch, j)))
        own = _ad.LPF(ss)(_ad.absorb(select(h0["obs"], r0), v, z3.RealVal(-1)), select(h0["hyp"], r0), v)
        tt = pred(x, st0, h0, j, v, z, nhp.decl()(POS(S, j)))
        SF = SETSUMF(VI())
        x.check(Implies(raw(cur) == t, s == SF(z3.Lambda([j], If(inn(S, j), own, z3.RealVal(0))))), "own table: sum of leave-one-out predictives")
        x.check(Implies(raw(cur) != t, s == SF(z3.Lambda([j], If(inn(S, j), tt, z3.RealVal(0))))), "other table: sum of predictives of the blocks moved to")
        unchanged(x, c, snap(x, p), ("name", "domains", "prior_spec", "clusters", "data", "data_r"))
        frame_heap(x, st0.heap, "scoring a table")

    @unit(K + ": the predictive of a value is its block's, or a new block's", DRV, "C08 C12", funcs=[K + "::cluster_or_prior_logp", K + "::cluster_or_prior_logp_from_items", K + "::prior_logp"], contracts=DK + AK + MK + ["CleanRelation::get_cluster_assignment", "CleanRelation::clusters_contains"], opts=dict(live=True))
    def _(x):
        p, c, dm, nm, e, g, S, st0 = base(x)
        x.c0 = c
        it = items(x)
        v = x.val(T, "value")
        x.assume(vlen(it) == vlen(raw(c.domains)))
        z = fresh("z", VI())
        x.assume(vlen(z) >= 0)
        x.reach("precondition")
        h0 = dh(x.ex, st0, T)
        s = x.call(K + "::cluster_or_prior_logp", p, [g, z, v])
        x.check(s == pred(x, st0, h0, it, v, z, x.ex.newhyps[-1]), "predictive of the block, or of a new one")
        s = x.call(K + "::cluster_or_prior_logp_from_items", p, [g, it, v])
        z2 = ZOF()(raw(c.domains), domh(x.ex, st0, "crp"), it)
        ss = h0["obs"].sort().range().domain()
        new = _ad.LPF(ss)(z3.K(ss, z3.RealVal(0)), x.ex.newhyps[-1], v)
        pr = present(x.ex, st0, raw(c.domains), it)
        x.check(Implies(pr, s == pred(x, st0, h0, it, v, z2, x.ex.newhyps[-1])), "predictive of the tuple's block, or of a new one")
        x.check(Implies(Not(pr), s == new), "a tuple with a new entity has no block yet")
        unchanged(x, c, snap(x, p), ("name", "domains", "prior_spec", "clusters", "data", "data_r"))
        frame_heap(x, st0.heap, "predicting")

    # ---- reclustering
    def moved(x, p, c, dm, nm, e, S, st0):
        """contents of the blocks when the first t of the entity's observations have moved:
        CN(t, z) = number of observations in block z, WZ(t, z, v) = number of those with value v"""
        dv, ch, nh = raw(c.domains), domh(x.ex, st0, "crp"), domh(x.ex, st0, "name")
        ss = dh(x.ex, st0, T)["obs"].sort().range().domain()
        CN = z3.Function("CN", I, VI(), R)
        WZ = z3.Function("WZ", I, VI(), ss, R)
        return CN, WZ

    def zt(x, c, S, st0, nm, e, table):
        dv, ch, nh = raw(c.domains), domh(x.ex, st0, "crp"), domh(x.ex, st0, "name")

        def f(t, its):
            return If(And(inn(S, its), POS(S, its) < t), ZGF()(dv, ch, nh, its, nm, e, table), ZOF()(dv, ch, its))
        return f

    def blocks(x, stt, p, t, CN, WZ):
        """the blocks are exactly the non-empty groups, with their contents"""
        cl = named(x.ex, raw(x.view(p, stt).clusters))
        h = {f: named(x.ex, a) for f, a in dh(x.ex, stt, T).items()}
        z, w, v = fresh("z", VI()), fresh("w", VI()), fresh("v", h["obs"].sort().range().domain())
        r = lambda k: oval(select(cl, k))
        pt = [z3.Select(cl, z)]
        return [("a block exists exactly for every non-empty group", FA([z], inn(cl, z) == (CN(t, z) > 0), patterns=[z3.Select(cl, z), CN(t, z)])),
            ("blocks are existing objects of the group's size", FA([z], Implies(inn(cl, z), And(r(z) > 0, select(h["live"], r(z)), select(h["N"], r(z)) == CN(t, z))), patterns=pt)),
            ("blocks hold the group's values", FA([z, v], Implies(inn(cl, z), select(select(h["obs"], r(z)), v) == WZ(t, z, v)), patterns=[WZ(t, z, v), MP(z3.Select(cl, z), z3.Select(z3.Select(h["obs"], r(z)), v))])),
            ("blocks are distinct", FA([z, w], Implies(And(inn(cl, z), inn(cl, w), z != w), r(z) != r(w)), patterns=[MP(z3.Select(cl, z), z3.Select(cl, w))]))]

    @unit(K + "::set_cluster_assignment_gibbs moves exactly the entity's observations", DRV, "C09", funcs=[K + "::set_cluster_assignment_gibbs"], contracts=DK + AK + MK + ["CleanRelation::get_cluster_assignment", "CleanRelation::get_cluster_assignment_gibbs"], opts=dict(live=True, havoc_ok=True))
    def _(x):
        p, c, dm, nm, e, g, S, st0 = base(x)
        table = x.val("int", "table")
        dv, ch, nh = raw(c.domains), domh(x.ex, x.st, "crp"), domh(x.ex, x.st, "name")
        x.assume(zgof_all(x.ex, dv, ch, nh, nm, e, table))
        dom = x.view(dm)
        y = fresh("y", I)
        x.assume(dom.items.has(e), dom.crp.assignments.has(e), FA([y], dom.items.has(y) == dom.crp.assignments.has(y), patterns=[z3.Select(raw(dom.items), y)]))
        x.assume(z3.Function("DOMOK", raw(dom.items).sort(), raw(dom.crp).sort(), B)(raw(dom.items), raw(dom.crp)), raw(dom.crp.assignments[e]) != table)
        CN, WZ = moved(x, p, c, dm, nm, e, S, st0)
        Z = zt(x, c, S, st0, nm, e, table)
        zero = z3.IntVal(0)
        x.assume(*[q for _, q in blocks(x, x.st, p, zero, CN, WZ)])
        h0, cl0 = dh(x.ex, st0, T), named(x.ex, raw(c.clusters))
        j, z, v = fresh("its", VI()), fresh("z", VI()), fresh("v", h0["obs"].sort().range().domain())
        touched = z3.Function("TOUCHED", VI(), B)
        x.assume(FA([j], Implies(inn(S, j), And(touched(ZOF()(dv, ch, j)), touched(ZGF()(dv, ch, nh, j, nm, e, table)))), patterns=[z3.Select(S, j)]))
        x.reach("precondition")

        def others(stt):
            cl = named(x.ex, raw(x.view(p, stt).clusters))
            h = {f: named(x.ex, a) for f, a in dh(x.ex, stt, T).items()}
            r0 = oval(select(cl0, z))
            return [("other blocks are the same objects with the same contents and parameters", FA([z], Implies(And(inn(cl0, z), Not(touched(z))), And(select(cl, z) == select(cl0, z), *[select(h[f], r0) == select(h0[f], r0) for f in HF])), patterns=[z3.Select(cl0, z)]))]

        def hook(L, node, s0, s, t, N, rng, havoc):
            k = EN(S)[t]
            xv = raw(c.data[k])
            zp, zn = ZOF()(dv, ch, k), ZGF()(dv, ch, nh, k, nm, e, table)
            one = lambda b: If(b, z3.RealVal(1), z3.RealVal(0))
            x.assume(FA([z], CN(t + 1, z) == CN(t, z) - one(z == zp) + one(z == zn), patterns=[CN(t + 1, z)]),
                     FA([z, v], WZ(t + 1, z, v) == WZ(t, z, v) - one(And(z == zp, v == xv)) + one(And(z == zn, v == xv)), patterns=[WZ(t + 1, z, v)]),
                     FA([z], CN(t, z) >= 0, patterns=[CN(t, z)]), CN(t, zp) >= 1, Implies(And(CN(t, zp) == 1), True),
                     FA([z], Or(CN(t, z) == 0, CN(t, z) >= 1), patterns=[CN(t, z)]),
                     FA([z, v], Implies(CN(t, z) == 0, WZ(t, z, v) == 0), patterns=[WZ(t, z, v)]),
                     FA([z, v], Implies(CN(t, z) - one(z == zp) == 0, WZ(t, z, v) - one(And(z == zp, v == xv)) == 0), patterns=[WZ(t, z, v)]))
            return lambda stt, u: blocks(x, stt, p, u, CN, WZ) + others(stt)
        x.ex.loop_inv = hook
        x.call(K + "::set_cluster_assignment_gibbs", p, [Ref(dm), e, table, g])
        d = snap(x, p)
        x.reach("end")
        x.check(blocks(x, x.st, p, CARD(S), CN, WZ), "after the move")
        x.check(others(x.st), "after the move")
        unchanged(x, c, d, ("name", "domains", "prior_spec", "data", "data_r"))
        same = ("items", "crp", "name")
        for f in same:
            a, b = harr(x.ex, x.st, "Domain", f), harr(x.ex, st0, "Domain", f)
            if not a.eq(b):
                x.check(a == b, "the domains' %s are unchanged" % f, "frame")

    @unit(K + ": counting the observations of each block, one moved observation at a time (lemma)", DRV, "C09", funcs=[], contracts=[])
    def _(x):
        """the recursion used for CN and WZ is that of sums over the stored observations"""
        p, c, dm, nm, e, g, S, st0 = base(x)
        table, t = x.val("int", "table"), x.val("int", "t")
        Z = zt(x, c, S, st0, nm, e, table)
        dv, ch, nh = raw(c.domains), domh(x.ex, st0, "crp"), domh(x.ex, st0, "name")
        k = EN(S)[t]
        x.assume(0 <= t, t < CARD(S), inn(S, k), POS(S, k) == t)
        j, w = fresh("its", VI()), fresh("w", VI())
        x.assume(FA([j], Implies(And(inn(S, j), POS(S, j) == t), j == k), patterns=[POS(S, j)]), c.data.has(k))
        z = fresh("z", VI())
        one, zero = z3.RealVal(1), z3.RealVal(0)
        v = fresh("v", dh(x.ex, st0, T)["obs"].sort().range().domain())
        zp, zn = ZOF()(dv, ch, k), ZGF()(dv, ch, nh, k, nm, e, table)

        def cnt(u, extra=lambda q: z3.BoolVal(True), skip=None):
            b = lambda q: And(c.data.has(q), Z(u, q) == z, extra(q), *([q != skip] if skip is not None else []))
            return SETSUMF(VI())(z3.Lambda([j], If(b(j), one, zero)))
        ind = lambda b: If(b, one, zero)
        val = lambda q: raw(c.data[q]) == v
        for nme, ex in (("sizes", lambda q: z3.BoolVal(True)), ("values", val)):
            a, b, r = cnt(t, ex), cnt(t + 1, ex), cnt(t, ex, skip=k)
            x.check(a == r + ind(And(zp == z, ex(k))), "before the move: %s are those of the others plus the observation's" % nme, "lemma")
            x.check(b == r + ind(And(zn == z, ex(k))), "after the move: %s are those of the others plus the observation's" % nme, "lemma")
            x.check(r >= 0, "%s of the others are not negative" % nme, "lemma")
        q = fresh("its", VI())
        mem = lambda q: And(c.data.has(q), Z(t, q) == z)
        x.check(Implies(mem(q), And(cnt(t) == cnt(t, skip=q) + 1, cnt(t, skip=q) >= 0)), "a group with an observation is not empty", "lemma")
        x.check(Implies(FA([j], Not(mem(j))), cnt(t, val) == 0), "an empty group has no values", "lemma")

    @unit(K + ": after the domain's own update the blocks agree with the clustering (lemma)", DRV, "C09 C14", funcs=[], contracts=[])
    def _(x):
        """group of a tuple after Domain::set_cluster_assignment_gibbs is the group it was moved to"""
        p, c, dm, nm, e, g, S, st0 = base(x)
        table = x.val("int", "table")
        dv, ch, nh = raw(c.domains), domh(x.ex, st0, "crp"), domh(x.ex, st0, "name")
        d = fresh("dom", I)
        crp2 = fresh("crp2", rec_sort(__import__("ir")._types["CRP"]))
        a0, a2 = crp_assign(select(ch, d)), crp_assign(crp2)
        y, i = fresh("y", I), fresh("i", I)
        x.assume(FA([y], Implies(y != e, select(a2, y) == select(a0, y)), patterns=[z3.Select(a2, y)]), inn(a2, e), oval(select(a2, e)) == table)
        x.assume(FA([i], Implies(And(0 <= i, i < vlen(dv)), (select(varr(dv), i) == d) == (select(nh, select(varr(dv), i)) == nm)), patterns=[z3.Select(varr(dv), i)]))
        its = fresh("its", VI())
        x.assume(c.data.has(its))
        x.assume(zgof_all(x.ex, dv, ch, nh, nm, e, table))
        ch2 = named(x.ex, z3.Store(ch, d, crp2))
        x.assume(zof_all(x.ex, dv, ch2))
        z1, z2, z0 = ZOF()(dv, ch2, its), ZGF()(dv, ch, nh, its, nm, e, table), ZOF()(dv, ch, its)
        k = fresh("k", I)
        x.check(And(vlen(z1) == vlen(z2), select(varr(z1), k) == select(varr(z2), k)), "a tuple that mentions the entity is now in the block it was moved to", "lemma")
        x.assume(FA([i], Implies(And(0 <= i, i < vlen(dv)), Not(hit(dv, nh, its, nm, e, i))), patterns=[z3.Select(varr(dv), i)]))
        x.check(And(vlen(z1) == vlen(z0), select(varr(z1), k) == select(varr(z0), k)), "any other tuple is in the block it was in", "lemma")

    # ---- grouping the entity's observations by block
    def groups(m, t, S, Z, CL):
        """m lists the first t observations of S by block, each once, in order"""
        z, i = fresh("z", VI()), fresh("i", I)
        l = lambda k: oval(select(m, k))
        at = lambda k, q: select(varr(l(k)), q)
        return [("a group exists for every block with such an observation", FA([z], inn(m, z) == (CL(t, z) > 0), patterns=[z3.Select(m, z), CL(t, z)])),
            ("each group has as many entries as observations", FA([z], Implies(inn(m, z), vlen(l(z)) == CL(t, z)), patterns=[z3.Select(m, z)])),
            ("entries are observations of the group", FA([z, i], Implies(And(inn(m, z), 0 <= i, i < vlen(l(z))), And(inn(S, at(z, i)), POS(S, at(z, i)) < t, Z(at(z, i)) == z)), patterns=[z3.Select(varr(l(z)), i)])),
            ("entries are distinct", FA([z, i], Implies(And(inn(m, z), 0 < i, i < vlen(l(z))), POS(S, at(z, i - 1)) < POS(S, at(z, i))), patterns=[z3.Select(varr(l(z)), i)]))]

    def cl_facts(CL, S, Z, t):
        z = fresh("z", VI())
        return [FA([z], CL(z3.IntVal(0), z) == 0, patterns=[CL(z3.IntVal(0), z)]),
                FA([z], CL(t + 1, z) == CL(t, z) + If(z == Z(EN(S)[t]), 1, 0), patterns=[CL(t + 1, z)]),
                FA([z], CL(t, z) >= 0, patterns=[CL(t, z)])]

    def CLF():
        return z3.Function("CL", I, VI(), I)

    def gl_set(c):
        nm, e = raw(c.args[0].name), raw(c.args[1])
        return oval(select(oval(select(raw(c.this0.data_r), nm)), e))

    def gl_post(c):
        m = named(c.ex, raw(c.ret))
        S = gl_set(c)
        dv, ch = raw(c.this0.domains), domh(c.ex, c.st0, "crp")
        return groups(m, CARD(S), S, lambda j: ZOF()(dv, ch, j), CLF())

    k_gl = Contract("CleanRelation::get_cluster_to_items_list<%s>" % T, K + "::get_cluster_to_items_list",
        pre=lambda c: [("the entity has observations", dr_key(raw(c.this0.data_r), raw(c.args[0].name), raw(c.args[1]))), ("the relation is consistent", inv_rel(c.ex, c.st0, T, c.this0)), ("the domains are consistent", doms_ok(c.ex, c.st0, raw(c.this0.domains)))], post=gl_post)
    CONTRACTS[k_gl.name] = k_gl

    @unit(K + "::get_cluster_to_items_list lists every observation of the entity once, under its block", DRV, "C10", funcs=[K + "::get_cluster_to_items_list"], contracts=DK + ["CleanRelation::get_cluster_assignment"], opts=dict(havoc_ok=True))
    def _(x):
        p, c, dm, nm, e, g, S, st0 = base(x)
        dv, ch = raw(c.domains), domh(x.ex, x.st, "crp")
        Z = lambda j: ZOF()(dv, ch, j)
        CL = CLF()
        h0 = dict(x.st.heap)
        x.reach("precondition")

        def hook(L, node, s0, s, t, N, rng, havoc):
            x.assume(*cl_facts(CL, S, Z, t))
            x.shape(len(havoc) == 1, "one container is filled")
            return lambda stt, u: groups(named(x.ex, L.get_leaf(stt, havoc[0])), u, S, Z, CL)
        x.ex.loop_inv = hook
        prove_body(x, k_gl, p, [Ref(dm), e], sname=K + "::get_cluster_to_items_list")

    def cnt_of(data, l, ss, sign):
        v, k = fresh("v", ss), fresh("k", I)
        return v, SUMF(z3.Lambda([k], If(oval(select(data, select(varr(l), k))) == v, z3.RealVal(sign), z3.RealVal(0))), z3.IntVal(0), vlen(l))

    def ec_value(ex, st, c, l):
        h = dh(ex, st, T)
        ss = h["obs"].sort().range().domain()
        r = oval(select(raw(c.clusters), ZOF()(raw(c.domains), domh(ex, st, "crp"), select(varr(l), 0))))
        v, cnt = cnt_of(raw(c.data), l, ss, -1)
        o, hy = select(h["obs"], r), select(h["hyp"], r)
        return _ad.SCF(ss)(o, hy) - _ad.SCF(ss)(z3.Lambda([v], select(o, v) + cnt), hy)

    def ev_value(ex, st, c, nm, e, t, l, newhyp):
        h = dh(ex, st, T)
        ss = h["obs"].sort().range().domain()
        z = ZGF()(raw(c.domains), domh(ex, st, "crp"), domh(ex, st, "name"), select(varr(l), 0), nm, e, t)
        r = oval(select(raw(c.clusters), z))
        has = inn(raw(c.clusters), z)
        v, cnt = cnt_of(raw(c.data), l, ss, 1)
        f = lambda o, hy: _ad.SCF(ss)(z3.Lambda([v], select(o, v) + cnt), hy) - _ad.SCF(ss)(o, hy)
        return If(has, f(select(h["obs"], r), select(h["hyp"], r)), f(z3.K(ss, z3.RealVal(0)), newhyp))

    def opaque(name, ex, st, c, *args):
        """the same value, as a function symbol of everything it depends on (defined by the units of the helpers)"""
        h = dh(ex, st, T)
        a = [h["obs"], h["hyp"], raw(c.clusters), raw(c.data), raw(c.domains), domh(ex, st, "crp"), domh(ex, st, "name")] + [raw(q) for q in args]
        return z3.Function(name + "_" + T, *[q.sort() for q in a], R)(*a)

    def list_pre(c, l):
        k = fresh("k", I)
        return [("the list is not empty", vlen(l) > 0), ("it lists stored observations", FA([k], Implies(And(0 <= k, k < vlen(l)), c.this0.data.has(select(varr(l), k))), patterns=[z3.Select(varr(l), k)])),
                ("the relation is consistent", And(inv_rel(c.ex, c.st0, T, c.this0), doms_ok(c.ex, c.st0, raw(c.this0.domains)), clusters_ok(c.ex, c.st0, T, c.this0)))]

    k_ec = Contract("CleanRelation::logp_gibbs_exact_current<%s>" % T, K + "::logp_gibbs_exact_current",
        pre=lambda c: list_pre(c, raw(c.args[0])), value=lambda c: opaque("GEXC", c.ex, c.st0, c.this0, c.args[0]))

    def ev_pre(c):
        i = fresh("i", I)
        l, dv = raw(c.args[3]), raw(c.this0.domains)
        return list_pre(c, l) + [("a generator is given", c.args[4] != 0),
            ("it mentions the entity", z3.Exists([i], And(0 <= i, i < vlen(dv), hit(dv, domh(c.ex, c.st0, "name"), select(varr(l), 0), raw(c.args[0].name), raw(c.args[1]), i))))]

    def ev_val(c):
        hy = c.ex.per_iter("newhyp", I)
        c.ex.__dict__.setdefault("newhyps", []).append(hy)
        return opaque("GEXV", c.ex, c.st0, c.this0, c.args[0].name, c.args[1], c.args[2], c.args[3], hy)
    k_ev = Contract("CleanRelation::logp_gibbs_exact_variant<%s>" % T, K + "::logp_gibbs_exact_variant", pre=ev_pre, value=ev_val)
    CONTRACTS[k_ec.name] = k_ec
    CONTRACTS[k_ev.name] = k_ev

    @unit(K + "::logp_gibbs_exact sums the blocks' score changes for every table and changes nothing", DRV, "C10", funcs=[K + "::logp_gibbs_exact"], contracts=DK + AK + [k_gl.name, k_ec.name, k_ev.name], opts=dict(live=True))
    def _(x):
        from ir import _types
        p, c, dm, nm, e, g, S, st0 = base(x)
        tables = fresh("tables", vec_sort(I))
        x.assume(vlen(tables) >= 0)
        dv, ch = raw(c.domains), domh(x.ex, x.st, "crp")
        x.assume(*cl_facts(CLF(), S, lambda j: ZOF()(dv, ch, j), CARD(S)))
        dom = x.view(dm)
        y = fresh("y", I)
        x.assume(dom.items.has(e), dom.crp.assignments.has(e), FA([y], dom.items.has(y) == dom.crp.assignments.has(y), patterns=[z3.Select(raw(dom.items), y)]))
        x.assume(z3.Function("DOMOK", raw(dom.items).sort(), raw(dom.crp).sort(), B)(raw(dom.items), raw(dom.crp)))
        cur = raw(dom.crp.assignments[e])
        x.reach("precondition")
        s = raw(x.call(K + "::logp_gibbs_exact", p, [Ref(dm), e, tables, g]))
        m = raw(x.lastcall(k_gl.name).ret)
        hy = x.ex.newhyps[-1]
        x.shape(hy.num_args() == 2, "one fresh block per table and group")
        i, z = fresh("i", I), fresh("z", VI())
        x.check(vlen(s) == vlen(tables), "one score per table")
        x.assume(0 <= i, i < vlen(tables))
        t = select(varr(tables), i)
        l = oval(select(m, z))
        own, oth = opaque("GEXC", x.ex, st0, c, l), opaque("GEXV", x.ex, st0, c, nm, e, t, l, hy.decl()(i, POS(m, z)))
        SF = SETSUMF(VI())
        x.check(Implies(t == cur, select(varr(s), i) == SF(z3.Lambda([z], If(inn(m, z), own, z3.RealVal(0))))), "own table: sum of the groups' contributions to the score")
        x.check(Implies(t != cur, select(varr(s), i) == SF(z3.Lambda([z], If(inn(m, z), oth, z3.RealVal(0))))), "other table: sum of the groups' score increments in the blocks moved to")
        unchanged(x, c, snap(x, p), ("name", "domains", "prior_spec", "clusters", "data", "data_r"))
        frame_heap(x, st0.heap, "scoring tables")



for T in T0:
    CONTRACTS[k_ii(T).name] = k_ii(T)
    reg(T)
    regg(T)
