"""From tables to observations and back (C26)."""
from spec import *
from vc import Ref, Opaque, Place, PtrTo
from sorts import an_
from dist import snap

PL = "pclean/pclean_lib.cc"
FILES = [PL, "gendb.cc", "hirm.cc", "relation.cc"]
CONTRACTS = {}
NK = 4
PRINT = z3.Function("isprint", I, I)
import sorts as _s


def FA(ss, f, pat=None):
    vs = [fresh("q", s) for s in ss]
    b = f(*vs)
    return z3.ForAll(vs, b, patterns=[pat(*vs)] if pat else [])


def obs_t(x):
    return x.type("ObservationVariant") if False else [f for f in x.prog.funcs.values() if f.sname == "HIRM::incorporate"][0].params[3]["t"].deref()


RELOF = lambda ss, vs: z3.Function("RELATION_OF", ss, vs)


def rel_value(c):
    """the relation object of a name does not depend on the data the relations hold"""
    rs = sort(c.f.rt)
    r = RELOF(raw(c.args[0]).sort(), rs)(raw(c.args[0]))
    return r


def rel_post(c):
    r = raw(c.ret)
    return [("a relation object", And(0 <= sel(r, 0), sel(r, 0) < NK, *[Implies(sel(r, 0) == k, sel(r, k + 1) > 0) for k in range(NK)]))]


def parse(ptr, s, rs):
    """what the relation object reads from the text of a cell"""
    return z3.Function("PARSED_" + an_(rs), I, s.sort(), rs)(ptr, s)


def parse_value(c):
    return parse(c.place.path[0][1], raw(c.args[0]), sort(c.f.rt))


CONTRACTS.update({k.name: k for k in [
    Contract("HIRM::get_relation/d", "HIRM::get_relation", value=rel_value, post=rel_post),
    Contract("Relation::from_string", "Relation::from_string", value=parse_value),
]})


def gendb_effect(c):
    """records the row handed over; the data of the model changes arbitrarily"""
    st, ex = c.st, c.ex
    kn, kr, ku = ("v", "spec", "rows_n"), ("v", "spec", "rows"), ("v", "spec", "rows_unique")
    n = st.env[kn]
    st.env[kr] = z3.Store(st.env[kr], n, raw(c.args[1]))
    st.env[ku] = z3.Store(st.env[ku], n, c.args[2] if z3.is_bool(c.args[2]) else z3.BoolVal(bool(c.args[2])))
    st.env[kn] = n + 1


CONTRACTS["GenDB::incorporate"] = Contract("GenDB::incorporate", "GenDB::incorporate", effect=gendb_effect, modifies=("reference_values", "entity_crps"))


@unit("incorporate_observations hands over every row with exactly its present queried cells", FILES, "C26", funcs=["incorporate_observations"], contracts=["HIRM::get_relation/d", "GenDB::incorporate", "Relation::from_string"], opts=dict(havoc_ok=True))
def _(x):
    ex = x.ex
    g = x.out("GenDB", "gendb")
    d = x.obj("DataFrame", "df")
    start = x.val("int", "start_row")
    f = [f for f in x.prog.funcs.values() if f.sname == "GenDB::incorporate"][0]
    rowt = f.params[1]["t"].deref()
    rs = sort(rowt)
    x.st.env[("v", "spec", "rows")] = fresh("rows", z3.ArraySort(I, rs))
    x.st.env[("v", "spec", "rows_unique")] = fresh("rows_unique", z3.ArraySort(I, B))
    x.st.env[("v", "spec", "rows_n")] = z3.IntVal(0)
    df = snap(x, d)
    D = df.data.t
    fields = x.view(g.p).schema.query.fields.t
    ms = sel(fresh("r", rs), 1).sort()
    ks, vs = ms.domain(), ms.range()
    x.assume(x.view(g.p).hirm != 0 if not hasattr(x.view(g.p).hirm, "t") else x.view(g.p).hirm.t != 0)
    # cells hold printable characters (the code stops otherwise)
    x.assume(FA([I], lambda v: PRINT(v) != 0, lambda v: PRINT(v)))
    nrows = fresh("num_rows", I)
    x.assume(nrows >= 0, FA([ks], lambda c: Implies(inn(D, c), vlen(oval(z3.Select(D, c))) == nrows), lambda c: z3.Select(D, c)), Implies(FA([ks], lambda c: Not(inn(D, c))), nrows == 0))
    rel = RELOF(ks, sort([f for f in x.prog.funcs.values() if f.sname == "HIRM::get_relation"][0].rt))
    obt = rowt.args[1].args[1]
    names = [a.s for a in obt.args]
    rvt = [f for f in x.prog.funcs.values() if f.sname == "HIRM::get_relation"][0].rt.deref()

    def value(c, s):
        """the observation a cell stands for: what the relation of the column reads, tagged with its type"""
        r = rel(c)
        out = None
        for k in range(NK - 1, -1, -1):
            vt = rvt.args[k].e.args[0] if rvt.args[k].k == "p" else rvt.args[k].args[0]
            i = names.index(vt.s)
            v = default(sort(obt))
            v = upd(v, 0, z3.IntVal(i))
            v = upd(v, i + 1, parse(sel(r, k + 1), s, sort(vt)))
            out = v if out is None else z3.If(sel(r, 0) == k, v, out)
        return out

    def want(q, c):
        cell = select(varr(oval(z3.Select(D, c))), q)
        return z3.If(And(inn(D, c), inn(fields, c), vlen(cell) != 0), some(vs, value(c, cell)), default(vs))
    M = z3.Function("ROW", I, ms)
    q0, c0 = fresh("q", I), fresh("c", ks)
    ex.globals.append(z3.ForAll([q0, c0], z3.Select(M(q0), c0) == want(q0, c0), patterns=[z3.Select(M(q0), c0)]))

    def hook(L, node, st_, s0, j, N, rng, havoc):
        lv = [h for h in havoc]
        rowsk = [h for h in lv if h[0] == "e" and h[1] == ("v", "spec", "rows")]
        mk = [h for h in lv if L.get_leaf(s0, h).sort() == ms]
        if rng is None and rowsk:
            def inv(stt, t):
                rw = stt.env[("v", "spec", "rows")]
                q = fresh("q", I)
                return [("one hand-over per row", stt.env[("v", "spec", "rows_n")] == t),
                        ("the row ids count up from the start row", z3.ForAll([q], Implies(And(0 <= q, q < t), sel(z3.Select(rw, q), 0) == start + q))),
                        ("a row is its present queried cells", z3.ForAll([q], Implies(And(0 <= q, q < t), sel(z3.Select(rw, q), 1) == M(q)))),
                        ("new rows get their own entities", z3.ForAll([q], Implies(And(0 <= q, q < t), z3.Select(stt.env[("v", "spec", "rows_unique")], q))))]
            return inv
        if rng is not None and mk:
            x.shape(len(mk) == 1 and L.itervars, "row loop")
            row = L.itervars[-1][1] if False else None
            dv = L.alias(L.load(s0, rng[0]))
            outer = [v for _, v in L.itervars][-1]

            def inv(stt, t):
                m = L.get_leaf(stt, mk[0])
                c = fresh("c", ks)
                return [("the columns seen so far", z3.ForAll([c], z3.Select(m, c) == z3.If(And(inn(dv, c), POS(dv, c) < t), z3.Select(M(outer), c), default(vs)), patterns=[z3.Select(m, c)]))]
            kk = fresh("k", ks)
            L.facts.append(z3.ForAll([kk], Implies(And(inn(dv, kk), POS(dv, kk) == j), kk == EN(dv)[j]), patterns=[POS(dv, kk)]))
            return inv
        return None
    ex.loop_inv = hook
    x.call("incorporate_observations", None, [Opaque("prng"), g, Ref(d), start])
    x.reach("incorporate_observations returns")
    q = fresh("q", I)
    rows = x.st.env[("v", "spec", "rows")]
    inr = And(0 <= q, q < nrows)
    x.check(x.st.env[("v", "spec", "rows_n")] == nrows, "every row is handed over once")
    x.check(Implies(inr, sel(z3.Select(rows, q), 0) == start + q), "row q is handed over under the entity start_row + q")
    x.check(Implies(inr, z3.Select(sel(z3.Select(rows, q), 1), c0) == want(q, c0)), "with exactly its present queried cells, as written")
    x.check(Implies(inr, z3.Select(x.st.env[("v", "spec", "rows_unique")], q)), "with entities of its own")


@unit("a text cell is read as written", FILES, "C26", funcs=["Relation<string>::from_string"])
def _(x):
    fs = [f for f in x.prog.funcs.values() if f.sname == "Relation<string>::from_string"]
    x.shape(len(fs) == 1, "one reader of strings")
    p = x.obj(fs[0].d["cls"], "rel")
    s = x.val("string", "s")
    x.check(raw(x.call("Relation<string>::from_string", p, [s])) == s, "the value is the text")


DRAWN = lambda n, ss: z3.Function("DRAWN", I, ss, ss)


def sample_effect(c):
    """the n-th sampled row's value of a field; the number of the row is a ghost"""
    row = c.st.env[("v", "spec", "sample")]
    c.ret0 = DRAWN(row, raw(c.args[1]).sort())(row, raw(c.args[1]))


def ENT(path, item, rs):
    """the entities a row's query path leads to"""
    return z3.Function("ENTITIES", path.sort(), I, rs)(path, item)


def ent_effect(c):
    b, e = c.rawargs[2], c.rawargs[3]
    if not (hasattr(b, "idx") and hasattr(e, "idx")):
        raise Unsupported("class path iterators")
    path = c.ex.cont_val(b, c.st)
    c.ex.oblige(c.st, And(b.idx == 0, e.idx == vlen(path), c.ex.cont_val(e, c.st) == path), "precondition of GenDB::sample_entities_relation: the whole query path is walked", "pre")
    c.ret0 = ENT(path, c.args[4], sort(c.f.rt.deref()))


CONTRACTS["GenDB::sample_entities_relation"] = Contract("GenDB::sample_entities_relation", "GenDB::sample_entities_relation",
    pre=lambda c: [("the path starts at the record class", raw(c.args[1]) == c.this0.schema.query.record_class.t)], modifies=("reference_values", "entity_crps"), effect=ent_effect)


def sampled_pre(c):
    """the value is drawn for the entities its query path leads to"""
    F_, item = c.ex.query_fields, c.st.env[("v", "spec", "sample")]
    n = raw(c.args[1])
    path = sel(oval(z3.Select(F_[0], n)), F_[1])
    return [("a queried column", inn(F_[0], n)), ("the entities of the row along the column's path", raw(c.args[2]) == ENT(path, item, raw(c.args[2]).sort()))]


CONTRACTS["HIRM::sample_and_incorporate_relation/d"] = Contract("HIRM::sample_and_incorporate_relation/d", "HIRM::sample_and_incorporate_relation", pre=sampled_pre, effect=sample_effect)


def sample_setup(x):
    g = x.out("GenDB", "gendb")
    v = x.view(g.p)
    F_ = v.schema.query.fields.t
    ks = F_.sort().domain()
    qt = v.schema.query.fields.ty.args[1]
    x.st.env[("v", "spec", "sample")] = fresh("sample", I)
    nm_i = [f for f, _ in rec_fields(qt)].index("name")
    # a query's fields are filed under their own names
    x.assume(FA([ks], lambda c: Implies(inn(F_, c), sel(oval(z3.Select(F_, c)), nm_i) == c), lambda c: z3.Select(F_, c)))
    h = v.hirm
    x.assume((h.t if hasattr(h, "t") else h) != 0)
    x.ex.query_fields = (F_, [f for f, _ in rec_fields(qt)].index("class_path"))
    return g, F_, ks


def sampled_post(F_, ks, ms, row):
    c = fresh("c", ks)
    return lambda m, m0: [("every queried column gets the value drawn for it", z3.ForAll([c], z3.Select(m, c) == z3.If(inn(F_, c), some(ms.range(), DRAWN(row, ks)(row, c)), z3.Select(m0, c))))]


@unit("make_pclean_sample draws a value for every queried column", FILES, "C26", funcs=["make_pclean_sample"], contracts=["GenDB::sample_entities_relation", "HIRM::sample_and_incorporate_relation/d"], opts=dict(havoc_ok=True))
def _(x):
    g, F_, ks = sample_setup(x)
    f = [f for f in x.prog.funcs.values() if f.sname == "make_pclean_sample"][0]
    o = x.out(f.params[3]["t"].e if f.params[3]["t"].k == "p" else f.params[3]["t"].args[0], "query_values")
    m0 = x.view(o.p).t
    row = x.st.env[("v", "spec", "sample")]

    def hook(L, node, st_, s0, j, N, rng, havoc):
        mk = [h for h in havoc if L.get_leaf(s0, h).sort() == m0.sort()]
        if rng is None or len(mk) != 1:
            return None
        dv = L.alias(L.load(s0, rng[0]))
        kk = fresh("k", ks)
        L.facts.append(z3.ForAll([kk], z3.Implies(z3.And(inn(dv, kk), POS(dv, kk) == j), kk == EN(dv)[j]), patterns=[POS(dv, kk)]))

        def inv(stt, t):
            m = L.get_leaf(stt, mk[0])
            c = fresh("c", ks)
            return [("the columns sampled so far", z3.ForAll([c], z3.Select(m, c) == z3.If(And(inn(dv, c), POS(dv, c) < t), some(m0.sort().range(), DRAWN(row, ks)(row, c)), z3.Select(m0, c)), patterns=[z3.Select(m, c)]))]
        return inv
    x.ex.loop_inv = hook
    x.call("make_pclean_sample", None, [Opaque("prng"), g, row, o])
    x.reach("make_pclean_sample returns")
    m = x.view(o.p).t
    for n, c in sampled_post(F_, ks, m0.sort(), row)(m, m0):
        x.check(c, n)


def ms_assign(c):
    g = c.rawargs[1]
    F_, ks = c.ex.query_fields[0], c.ex.query_fields[0].sort().domain()
    o = c.rawargs[3]
    m0 = c.ex.load(c.st, o.p)
    m = fresh("sampled", m0.sort())
    item = c.args[2]
    for n, p in sampled_post(F_, ks, m0.sort(), item)(m, m0):
        c.ex.fact(c.st, p)
    c.ex.store(c.st, o.p, m)


CONTRACTS["make_pclean_sample"] = Contract("make_pclean_sample", "make_pclean_sample", effect=ms_assign)


@unit("make_pclean_samples tabulates the values drawn for each row", FILES, "C26", funcs=["make_pclean_samples"], contracts=["make_pclean_sample"], opts=dict(havoc_ok=True))
def _(x):
    g, F_, ks = sample_setup(x)
    n, start = x.val("int", "num_samples"), x.val("int", "start_row")
    x.assume(n >= 0)
    D = lambda i, c: DRAWN(start + i, ks)(start + i, c)

    def shape(dat, t, i, c):
        """dat holds the first t samples of every column"""
        v = oval(z3.Select(dat, c))
        return [("columns with data", z3.ForAll([c], inn(dat, c) == And(t > 0, inn(F_, c)))),
                ("one entry per sample", z3.ForAll([c], Implies(inn(dat, c), vlen(v) == t))),
                ("entry i is what was drawn for row start_row + i", z3.ForAll([c, i], Implies(And(inn(dat, c), 0 <= i, i < t), select(varr(v), i) == D(i, c))))]

    def hook(L, node, st_, s0, j, N, rng, havoc):
        mk = [h for h in havoc if is_datamap(L.get_leaf(s0, h).sort())]
        if len(mk) != 1:
            return None
        c, i = fresh("c", ks), fresh("i", I)
        if rng is None:
            return lambda stt, t: shape(L.get_leaf(stt, mk[0]), t, i, c)
        dv = L.alias(L.load(s0, rng[0]))
        kk = fresh("k", ks)
        L.facts.append(z3.ForAll([kk], z3.Implies(z3.And(inn(dv, kk), POS(dv, kk) == j), kk == EN(dv)[j]), patterns=[POS(dv, kk)]))
        x.shape(len(L.itervars) >= 1, "sample loop")
        o = L.itervars[-1][1]

        def inv(stt, t):
            dat = L.get_leaf(stt, mk[0])
            v = oval(z3.Select(dat, c))
            done = And(inn(dv, c), POS(dv, c) < t)
            ln = o + z3.If(done, 1, 0)
            return [("columns with data", z3.ForAll([c], inn(dat, c) == And(ln > 0, inn(F_, c)))),
                    ("one entry per sample", z3.ForAll([c], Implies(inn(dat, c), vlen(v) == ln))),
                    ("entry i is what was drawn for row start_row + i", z3.ForAll([c, i], Implies(And(inn(dat, c), 0 <= i, i < ln), select(varr(v), i) == D(i, c))))]
        return inv

    def is_datamap(s):
        return z3.is_array_sort(s) and s.domain() == ks and s.range().name().startswith("Opt") and "vec" in s.range().constructor(1).domain(0).name().lower() if False else (s.kind() == z3.Z3_ARRAY_SORT and s.domain() == ks and s.range() == ds.range())
    ft = [f for f in x.prog.funcs.values() if f.sname == "make_pclean_samples"][0].rt.deref()
    ds = sort(ft).accessor(0, [f for f, _ in rec_fields(ft)].index("data")).range()
    x.ex.loop_inv = hook
    r = x.call("make_pclean_samples", None, [n, start, g, Opaque("prng")])
    x.reach("make_pclean_samples returns")
    r = raw(r)
    v = wrap(x.ex, r, ft)
    cols, dat = v.columns, v.data.t
    q, c = fresh("q", I), fresh("c", ks)
    x.check(cols.len == CARD(F_), "one column per queried field")
    x.check(Implies(inn(F_, c), And(0 <= POS(F_, c), POS(F_, c) < cols.len, select(varr(cols.t), POS(F_, c)) == c)), "every queried field is a column")
    x.check(Implies(n > 0, inn(dat, c) == inn(F_, c)), "the columns with data are the queried fields")
    x.check(Implies(inn(dat, c), vlen(oval(z3.Select(dat, c))) == n), "one entry per sample")
    x.check(Implies(And(inn(dat, c), 0 <= q, q < n), select(varr(oval(z3.Select(dat, c))), q) == D(q, c)), "entry i is what was drawn for row start_row + i")


MAXT = lambda t: z3.Function("MAX_TABLE", t.sort(), I)(t)
CONTRACTS["CRP::max_table/e"] = Contract("CRP::max_table/e", "CRP::max_table", value=lambda c: MAXT(c.this0.t))


@unit("make_dummy_encoding_from_gendb names every stored entity", FILES, "C26", funcs=["make_dummy_encoding_from_gendb"], contracts=["CRP::max_table/e"], opts=dict(havoc_ok=True))
def _(x):
    ex = x.ex
    g = x.obj("GenDB", "gendb")
    v = x.view(g)
    E = v.entity_crps.t
    ks = E.sort().domain()
    hp = v.hirm
    x.assume((hp.t if hasattr(hp, "t") else hp) != 0)
    h = ex.deref(hp.t if hasattr(hp, "t") else hp, hp.ty if hasattr(hp, "ty") else [t for f, t in rec_fields(g.t) if f == "hirm"][0], x.st)
    hv = x.view(h)
    M = hv.irms.t
    it = hv.irms.ty.args[1]
    dt = None

    st0 = x.st.copy()

    def at(ptr, ty):
        return x.quiet(lambda: x.view(ex.deref(ptr, ty, st0), st0))

    def irm(c):
        return at(oval(z3.Select(M, c)), it)

    def items(c, n):
        d = irm(c).domains
        return at(oval(z3.Select(d.t, n)), d.ty.args[1]).items.t
    x.assume((hp.t if hasattr(hp, "t") else hp) != 0, FA([I], lambda c: Implies(inn(M, c), oval(z3.Select(M, c)) != 0), lambda c: z3.Select(M, c)))
    qc, qn = fresh("c", I), fresh("n", ks)
    dm = irm(qc).domains.t
    x.assume(z3.ForAll([qc, qn], Implies(And(inn(M, qc), inn(dm, qn)), oval(z3.Select(dm, qn)) != 0), patterns=[z3.MultiPattern(z3.Select(M, qc), z3.Select(dm, qn))]))

    decs = sort([f for f in x.prog.funcs.values() if f.sname == "make_dummy_encoding_from_gendb"][0].rt.deref()).accessor(0, 1).range()
    def has(m, n, i):
        return z3.If(inn(m, n), inn(oval(z3.Select(m, n)), i), z3.BoolVal(False))

    def all_(vs, b, m, n, i, pat=False):
        return z3.ForAll(vs, b, patterns=[z3.Select(oval(z3.Select(m, n)), i)] if pat and z3.is_const(m) and len(vs) == 2 else [])

    def hook(L, node, st_, s0, j, N, rng, havoc):
        mk = [k for k in havoc if L.get_leaf(s0, k).sort().kind() == z3.Z3_ARRAY_SORT and L.get_leaf(s0, k).sort().domain() == ks and k[0] == "e"]
        if len(mk) != 1:
            return None
        n, i, c = fresh("n", ks), fresh("i", I), fresh("c", I)
        m0 = L.get_leaf(st_, mk[0])
        out = [v for _, v in L.itervars]
        keep = lambda m, pat=False: ("names stay", all_([n, i], Implies(has(m0, n, i), has(m, n, i)), m, n, i, pat))
        if rng is None:
            x.shape(len(out) >= 1, "table loop")
            nn = EN(E)[out[-1]]
            return lambda stt, t: [keep(L.get_leaf(stt, mk[0]), True), ("the entities so far are named", z3.ForAll([i], Implies(And(0 <= i, i < t), has(L.get_leaf(stt, mk[0]), nn, i))))]
        dv = L.alias(L.load(s0, rng[0]))
        kk = fresh("k", dv.sort().domain())
        L.facts.append(z3.ForAll([kk], z3.Implies(z3.And(inn(dv, kk), POS(dv, kk) == j), kk == EN(dv)[j]), patterns=[POS(dv, kk)]))
        if dv.sort() == E.sort():
            at_k = lambda k: EN(dv)[k]
            q = fresh("q", I)

            def named(m, r):
                return Implies(And(0 <= i, i <= MAXT(oval(z3.Select(E, at_k(r))))), has(m, at_k(r), i))
            return lambda stt, t: [keep(L.get_leaf(stt, mk[0]), True),
                                   ("the classes before are named", z3.ForAll([q, i], Implies(And(0 <= q, q < t - 1), named(L.get_leaf(stt, mk[0]), q)))),
                                   ("the latest class is named", z3.ForAll([i], Implies(t >= 1, named(L.get_leaf(stt, mk[0]), t - 1)))),
                                   ("the classes so far are named", z3.ForAll([q, i], Implies(And(0 <= q, Or(q < t - 1, q == t - 1)), named(L.get_leaf(stt, mk[0]), q))))]
        if dv.sort() == M.sort():
            return lambda stt, t: [keep(L.get_leaf(stt, mk[0])), ("the components so far are named", z3.ForAll([c, n, i], Implies(And(inn(dv, c), POS(dv, c) < t, inn(irm(c).domains.t, n), inn(items(c, n), i)), has(L.get_leaf(stt, mk[0]), n, i))))]
        if dv.sort() == irm(qc).domains.t.sort():
            x.shape(len(out) >= 1, "domain loop")
            dd = irm(qc).domains.ty.args[1]
            its = lambda n: at(oval(z3.Select(dv, n)), dd).items.t
            return lambda stt, t: [keep(L.get_leaf(stt, mk[0])), ("the domains so far are named", z3.ForAll([n, i], Implies(And(inn(dv, n), POS(dv, n) < t, inn(its(n), i)), has(L.get_leaf(stt, mk[0]), n, i))))]
        x.shape(len(out) >= 2, "item loop")
        ec = EN(M)[out[-2]]
        nn = EN(irm(ec).domains.t)[out[-1]]
        return lambda stt, t: [keep(L.get_leaf(stt, mk[0])), ("the items so far are named", z3.ForAll([i], Implies(And(inn(dv, i), POS(dv, i) < t), has(L.get_leaf(stt, mk[0]), nn, i))))]
    ex.loop_inv = hook
    r = x.call("make_dummy_encoding_from_gendb", None, [Ref(g)])
    x.reach("make_dummy_encoding_from_gendb returns")
    dec = sel(raw(r), 1)
    n, i, c = fresh("n", ks), fresh("i", I), fresh("c", I)
    x.check(Implies(And(inn(E, n), 0 <= i, i <= MAXT(oval(z3.Select(E, n)))), has(dec, n, i)), "every entity of a class has a name")
    x.check(Implies(And(inn(M, c), inn(irm(c).domains.t, n), inn(items(c, n), i)), has(dec, n, i)), "every entity of a domain of the model has a name")
