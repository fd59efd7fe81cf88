"""References between entities (C21): stored references, entity clusterings and item tuples agree."""
from spec import *
from vc import Ref, Opaque, Place, PtrTo
from sorts import an_
import clean

FILES = ["gendb.cc", "hirm.cc", "relation.cc"]
CONTRACTS = {}


def plain(p):
    """usable as a pattern: no connectives and no if-then-else inside"""
    todo = [p]
    while todo:
        t = todo.pop()
        if not z3.is_app(t) or t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES):
            return False
        todo += t.children()
    return True


def FA(ss, f, pat=None):
    vs = [fresh("q", s) for s in ss]
    b = f(*vs)
    ps = pat(*vs) if pat else ()
    ps = ps if isinstance(ps, tuple) else (ps,)
    return z3.ForAll(vs, b, patterns=[z3.MultiPattern(*ps)] if ps and all(map(plain, ps)) else [])


def put(m, k, v):
    return z3.Store(m, k, m.sort().range().constructor(1)(v))


def crp_tables(crp):
    from ir import _types
    for i, (f, ft) in enumerate(rec_fields(_types["CRP"])):
        if f == "tables":
            return sel(crp, i)


def crp_ok(asg, tables):
    """the tables are those of the customers (C01)"""
    w = z3.Function("CUSTOMER_AT", asg.sort(), I, I)
    return [("customers sit at tables", FA([I], lambda i: Implies(inn(asg, i), inn(tables, oval(z3.Select(asg, i)))), lambda i: z3.Select(asg, i))),
            ("no empty table", FA([I], lambda t: Implies(inn(tables, t), And(inn(asg, w(asg, t)), oval(z3.Select(asg, w(asg, t))) == t)), lambda t: z3.Select(tables, t)))]


class G:
    """the parts of a GenDB the references live in"""

    def __init__(self, v):
        self.RV, self.E = v.reference_values.t, v.entity_crps.t
        self.classes = v.schema.classes.t
        ct = v.schema.classes.ty.args[1]
        self.vi = [f for f, _ in rec_fields(ct)].index("vars")
        vt = [t for f, t in rec_fields(ct) if f == "vars"][0]
        pt = vt.args[1]
        self.si = [f for f, _ in rec_fields(pt)].index("spec")
        self.st = [t for f, t in rec_fields(pt) if f == "spec"][0]
        self.ks = self.classes.sort().domain()
        self.ps = z3.simplify(oval(z3.Select(self.RV, fresh("k", self.ks)))).sort().domain()

    def key(self, f, i):
        return self.ps.constructor(0)(f, i)

    def vars(self, c):
        return sel(oval(z3.Select(self.classes, c)), self.vi)

    def spec(self, c, f):
        return sel(oval(z3.Select(self.vars(c), f)), self.si)

    def isref(self, c, f):
        return And(inn(self.classes, c), inn(self.vars(c), f), sel(self.spec(c, f), 0) == 1)

    def target(self, c, f):
        return sel(sel(self.spec(c, f), 2), 0)

    def has(self, c, k):
        return z3.If(inn(self.RV, c), inn(oval(z3.Select(self.RV, c)), k), z3.BoolVal(False))

    def val(self, c, k):
        return oval(z3.Select(oval(z3.Select(self.RV, c)), k))

    def asg(self, c):
        return clean.crp_assign(oval(z3.Select(self.E, c)))

    def tables(self, c):
        return crp_tables(oval(z3.Select(self.E, c)))

    def alive(self, c, i):
        """some reference leads to entity i of class c"""
        return inn(self.tables(c), i)

    def kf(self, k):
        return self.ps.accessor(0, 0)(k)

    def ki(self, k):
        return self.ps.accessor(0, 1)(k)

    def rid(self, c, k):
        return REFID(self.ks)(c, self.kf(k), self.ki(k))

    def cust(self, c, k):
        """the reference is a customer of the clustering of its referents"""
        t = self.target(c, self.kf(k))
        return z3.If(inn(self.E, t), inn(self.asg(t), self.rid(c, k)), z3.BoolVal(False))

    def missing(self, c, k):
        return And(self.has(c, k), Not(self.cust(c, k)))


def REFID(ks):
    return z3.Function("REFERENCE_ID", ks, ks, I, I)


def REFOF(ks):
    return [z3.Function("REFERENCE_ID_" + n, I, s) for n, s in (("class", ks), ("field", ks), ("item", I))]


def refid_axioms(ks):
    """ids of different references differ"""
    r, (a, b, c) = REFID(ks), REFOF(ks)
    return FA([ks, ks, I], lambda k, f, i: And(a(r(k, f, i)) == k, b(r(k, f, i)) == f, c(r(k, f, i)) == i), lambda k, f, i: r(k, f, i))


def schema_wf(g):
    ks = g.ks
    return [("references lead to classes", FA([ks, ks], lambda c, f: Implies(g.isref(c, f), inn(g.classes, g.target(c, f))), lambda c, f: z3.Select(g.vars(c), f))),
            ("attributes are scalars or references", FA([ks, ks], lambda c, f: Implies(And(inn(g.classes, c), inn(g.vars(c), f)), And(0 <= sel(g.spec(c, f), 0), sel(g.spec(c, f), 0) < 2)), lambda c, f: z3.Select(g.vars(c), f)))]


def agree(g):
    """the clusterings of entities hold exactly customers that are stored references, with their referents"""
    ks, ps = g.ks, g.ps
    rid, (rc, rf, ri) = REFID(ks), REFOF(ks)

    def ref_ok(c, k):
        t = g.target(c, g.kf(k))
        return Implies(g.has(c, k), And(g.isref(c, g.kf(k)), g.val(c, k) >= 0, inn(g.E, t), Implies(inn(g.asg(t), g.rid(c, k)), oval(z3.Select(g.asg(t), g.rid(c, k))) == g.val(c, k))))

    def id_ok(c, i):
        k = g.key(rf(i), ri(i))
        return Implies(And(inn(g.E, c), inn(g.asg(c), i)), And(g.has(rc(i), k), rid(rc(i), rf(i), ri(i)) == i, g.isref(rc(i), rf(i)), g.target(rc(i), rf(i)) == c))
    return [("every class has its references and its clustering", FA([ks], lambda c: Implies(inn(g.classes, c), And(inn(g.RV, c), inn(g.E, c))), lambda c: z3.Select(g.classes, c))),
            ("a stored reference sits with its referent", FA([ks, ps], ref_ok, lambda c, k: z3.Select(oval(z3.Select(g.RV, c)), k))),
            ("every customer is a stored reference", FA([ks, I], id_ok, lambda c, i: z3.Select(g.asg(c), i))),
            ("customers sit at tables", FA([ks, I], lambda c, i: Implies(And(inn(g.E, c), inn(g.asg(c), i)), inn(g.tables(c), oval(z3.Select(g.asg(c), i)))), lambda c, i: z3.Select(g.asg(c), i))),
            ("no empty table", FA([ks, I], lambda c, t: Implies(And(inn(g.E, c), inn(g.tables(c), t)), And(inn(g.asg(c), WIT(g.asg(c), t)), oval(z3.Select(g.asg(c), WIT(g.asg(c), t))) == t)), lambda c, t: z3.Select(g.tables(c), t)))]


def WIT(asg, t):
    return z3.Function("CUSTOMER_AT", asg.sort(), I, I)(asg, t)


def same_missing(g0, g):
    return [("exactly the stored references that were customers and the new ones are customers", FA([g.ks, g.ps], lambda c, k: Implies(g.has(c, k), g.cust(c, k) == Or(Not(g0.has(c, k)), g0.cust(c, k))), lambda c, k: z3.Select(oval(z3.Select(g.RV, c)), k)))]


def fixed(g0, g):
    ks, ps = g.ks, g.ps
    return [("stored references are fixed", FA([ks, ps], lambda c, k: Implies(g0.has(c, k), And(g.has(c, k), g.val(c, k) == g0.val(c, k))), lambda c, k: z3.Select(oval(z3.Select(g.RV, c)), k))),
            ("classes stay", FA([ks], lambda c: And(inn(g.RV, c) == inn(g0.RV, c), inn(g.E, c) == inn(g0.E, c))))]


def unshared(g0, g):
    """a reference stored meanwhile leads to an entity no other reference leads to"""
    ks, ps = g.ks, g.ps
    f = lambda k: ps.accessor(0, 0)(k)
    return [("new entities are not shared", FA([ks, ps, ks, ps], lambda c, k, d, l: Implies(And(g.has(c, k), Not(g0.has(c, k)), g.has(d, l), g.cust(d, l), Or(c != d, k != l), g.target(c, f(k)) == g.target(d, f(l))), g.val(c, k) != g.val(d, l)),
                                               lambda c, k, d, l: (z3.Select(oval(z3.Select(g.RV, c)), k), z3.Select(oval(z3.Select(g.RV, d)), l))))]


MAXT = lambda t: z3.Function("MAX_TABLE", t.sort(), I)(t)


def maxt_post(c):
    a = c.this0.assignments.t
    return [("no entity above it", And(MAXT(c.this0.t) >= -1, FA([I], lambda i: Implies(inn(a, i), oval(z3.Select(a, i)) <= MAXT(c.this0.t)), lambda i: z3.Select(a, i))))]


CONTRACTS.update({k.name: k for k in [
    Contract("CRP::max_table/r", "CRP::max_table", value=lambda c: MAXT(c.this0.t), post=maxt_post),
    Contract("CRP::incorporate/r", "CRP::incorporate",
        pre=lambda c: [("a customer is added once", Not(inn(c.this0.assignments.t, c.args[0]))), ("an entity number", c.args[1] >= 0)],
        post=lambda c: crp_ok(c.this.assignments.t, c.this.tables.t) + [("it sits with its entity", c.this.assignments.t == put(c.this0.assignments.t, c.args[0], c.args[1]))], modifies=("N", "tables", "assignments")),
    Contract("CRP::sample/r", "CRP::sample", post=lambda c: [("an entity number", c.ret >= 0)]),
    Contract("GenDB::get_reference_id/r", "GenDB::get_reference_id", value=lambda c: REFID(raw(c.args[0]).sort())(raw(c.args[0]), raw(c.args[1]), c.args[2])),
]})
CRPK = ["CRP::max_table/r", "CRP::incorporate/r", "CRP::sample/r", "GenDB::get_reference_id/r"]
MODS = ("reference_values", "entity_crps")


def g0g(c):
    return G(c.this0), G(c.this)


def base_pre(c, cls):
    g = G(c.this0)
    return [("a class of the schema", inn(g.classes, cls))] + schema_wf(g) + agree(g) + [("reference ids", refid_axioms(g.ks))]


def sref_post(c):
    g0, g = g0g(c)
    k = raw(c.args[2])
    return agree(g) + fixed(g0, g) + same_missing(g0, g) + [("only this reference is stored", z3.And(g.has(raw(c.args[1]), k), FA([g.ks, g.ps], lambda d, l: Implies(g.has(d, l), Or(g0.has(d, l), And(d == raw(c.args[1]), l == k))))))]


def sref_pre(c):
    g = G(c.this0)
    k = raw(c.args[2])
    cl = raw(c.args[1])
    f = sel(k, 0)
    return base_pre(c, cl) + [("a reference of the class that is not stored yet", And(g.isref(cl, f), g.target(cl, f) == raw(c.args[3]), Not(g.has(cl, k))))]


K_sref = Contract("GenDB::sample_and_incorporate_reference", "GenDB::sample_and_incorporate_reference", pre=sref_pre, post=sref_post, modifies=MODS)


def pop_post(c):
    g0, g = g0g(c)
    cl, it = raw(c.args[0]), c.args[1]
    return agree(g) + fixed(g0, g) + same_missing(g0, g) + unshared(g0, g) + [("every reference of the entity is stored", FA([g.ks], lambda f: Implies(g.isref(cl, f), g.has(cl, g.key(f, it))), lambda f: z3.Select(g.vars(cl), f)))]


K_pop = Contract("GenDB::populate_unique_ancestors", "GenDB::populate_unique_ancestors", pre=lambda c: base_pre(c, raw(c.args[0])), post=pop_post, modifies=MODS)
for k in (K_sref, K_pop):
    CONTRACTS[k.name] = k


@unit("GenDB::sample_and_incorporate_reference stores one reference and one customer", FILES, "C21", funcs=["GenDB::sample_and_incorporate_reference"], contracts=CRPK)
def _(x):
    g = x.obj("GenDB")
    f = [f for f in x.prog.funcs.values() if f.sname == "GenDB::sample_and_incorporate_reference"][0]
    prove_body(x, K_sref, g, [Opaque("prng"), x.val("string", "class_name"), x.val(f.params[2]["t"].deref(), "ref_key"), x.val("string", "ref_class")])


@unit("GenDB::populate_unique_ancestors stores every missing reference with an entity of its own", FILES, "C21", funcs=["GenDB::populate_unique_ancestors"], contracts=CRPK + ["GenDB::populate_unique_ancestors"], opts=dict(havoc_ok=True))
def _(x):
    p = x.obj("GenDB")
    cl, it = x.val("string", "class_name"), x.val("int", "class_item")

    def hook(L, node, st_, s0, j, N, rng, havoc):
        if rng is None:
            return None
        dv = L.alias(L.load(s0, rng[0]))
        kk = fresh("k", dv.sort().domain())
        L.facts.append(z3.ForAll([kk], z3.Implies(z3.And(inn(dv, kk), POS(dv, kk) == j), kk == EN(dv)[j]), patterns=[POS(dv, kk)]))
        g0 = G(x.view(p, st_))

        def inv(stt, t):
            g = G(x.view(p, stt))
            return agree(g) + fixed(g0, g) + same_missing(g0, g) + unshared(g0, g) + [("the references so far are stored", FA([g.ks], lambda f: Implies(And(inn(dv, f), POS(dv, f) < t, g.isref(cl, f)), g.has(cl, g.key(f, it)))))]
        return inv
    x.ex.loop_inv = hook
    prove_body(x, K_pop, p, [cl, it])


# ---- item tuples of relations

class Rel:
    """a relation's domains and reference indices"""

    def __init__(self, c, ex, st, view, rel):
        self.g = G(view)
        h = view.hirm
        ht = [t for f, t in rec_fields(ex.type_by_name("GenDB")) if f == "hirm"][0]
        self.h = h.t if hasattr(h, "t") else h
        q = ex.quiet
        ex.quiet += 1
        try:
            hv = wrap(ex, ex.load(st, ex.deref(self.h, ht, st)), ht.e)
        finally:
            ex.quiet = q
        sch = hv.schema
        self.sm = sch.t
        self.rt = sch.ty.args[1]
        self.rel = rel
        self.ks = self.sm.sort().domain()
        self.idx = view.relation_reference_indices.t
        self.trel = oval(z3.Select(self.sm, rel))
        self.dom = z3.If(sel(self.trel, 0) == 0, sel(sel(self.trel, 1), self.di(0)), sel(sel(self.trel, 2), self.di(1)))
        self.byind = oval(z3.Select(self.idx, rel))

    def di(self, i):
        return [f for f, _ in rec_fields(self.rt.args[i])].index("domains")

    def d(self, i):
        return select(varr(self.dom), i)

    def refs(self, i):
        return oval(z3.Select(self.byind, i))

    def has(self, i, f):
        """domain i has the reference f in the relation's index table"""
        return z3.If(z3.If(inn(self.idx, self.rel), inn(self.byind, i), z3.BoolVal(False)), inn(self.refs(i), f), z3.BoolVal(False))

    def to(self, i, f):
        return oval(z3.Select(self.refs(i), f))

    def below(self, a, p):
        return z3.Function("BELOW", self.ks, I, I, B)(self.rel, a, p)

    def via(self, a, p):
        return z3.Function("VIA", self.ks, I, I, self.ks)(self.rel, a, p)

    def wf(self):
        """the index table is a tree over the domains that follows the schema's references"""
        ks, g = self.ks, self.g
        n = vlen(self.dom)
        return [("the model is there", self.h != 0), ("a relation of the model", And(inn(self.sm, self.rel), 0 <= sel(self.trel, 0), sel(self.trel, 0) < 2)),
                ("references point to earlier domains of their class", FA([I, ks], lambda i, f: Implies(And(self.has(i, f), 0 <= i, i < n), And(0 <= self.to(i, f), self.to(i, f) < n, self.to(i, f) != i, g.isref(self.d(i), f), g.target(self.d(i), f) == self.d(self.to(i, f)))))),
                ("domains are classes", FA([I], lambda i: Implies(And(0 <= i, i < n), inn(g.classes, self.d(i))))),
                ("below: itself", FA([I], lambda i: self.below(i, i), lambda i: self.below(i, i))),
                ("below: what a reference is above", FA([I, ks, I], lambda i, f, p: Implies(And(self.has(i, f), self.below(self.to(i, f), p)), And(self.below(i, p), p != i, self.via(i, p) == f)), lambda i, f, p: (z3.Select(self.refs(i), f), self.below(self.to(i, f), p)))),
                ("below: a referent", FA([I, ks], lambda i, f: Implies(self.has(i, f), And(self.below(self.to(i, f), self.to(i, f)), self.below(i, self.to(i, f)), self.via(i, self.to(i, f)) == f)), lambda i, f: z3.Select(self.refs(i), f))),
                ("below: along references", FA([I, I, ks], lambda i, p, f: Implies(And(self.below(i, p), self.has(p, f)), self.below(i, self.to(p, f))), lambda i, p, f: (self.below(i, p), z3.Select(self.refs(p), f)))),
                ("below: nothing else", FA([I, I], lambda i, p: Implies(And(self.below(i, p), p != i), And(self.has(i, self.via(i, p)), self.below(self.to(i, self.via(i, p)), p))), lambda i, p: self.below(i, p)))]

    def chain(self, g, items, p, f):
        """item p's reference f leads to the item at f's index"""
        k = g.key(f, select(varr(items), p))
        return Implies(self.has(p, f), And(g.has(self.d(p), k), g.val(self.d(p), k) == select(varr(items), self.to(p, f))))


def rel_of(c, st, view):
    return Rel(c, c.ex, st, view, raw(c.args[0]))


def items_pre(c):
    r = rel_of(c, c.st0, c.this0)
    ind = c.args[1]
    return r.wf() + [("an index of the relation", And(0 <= ind, ind < vlen(r.dom), vlen(raw(c.args[3])) == vlen(r.dom)))] + schema_wf(r.g) + agree(r.g) + [("reference ids", refid_axioms(r.g.ks))]


def items_post(c):
    r = rel_of(c, c.st, c.this)
    g = r.g
    ind, it, it0 = c.args[1], raw(c.out[3]), raw(c.args[3])
    return [("the tuple keeps its length", vlen(it) == vlen(it0)), ("the entity itself", select(varr(it), ind) == c.args[2]),
            ("other positions stay", FA([I], lambda p: Implies(And(0 <= p, Not(r.below(ind, p))), select(varr(it), p) == select(varr(it0), p)), lambda p: select(varr(it), p))),
            ("the reference chain gives the tuple", FA([I, r.ks], lambda p, f: Implies(And(r.below(ind, p), 0 <= p, p < vlen(r.dom)), r.chain(g, it, p, f))))]


def uniq_post(c):
    g0, g = g0g(c)
    return agree(g) + fixed(g0, g) + same_missing(g0, g) + unshared(g0, g) + items_post(c)


K_uniq = Contract("GenDB::get_unique_entities_relation", "GenDB::get_unique_entities_relation", pre=items_pre, post=uniq_post, modifies=MODS, outs=[3])


def STORED(r):
    return z3.Function("STORED", r.g.RV.sort(), r.ks, I, I, B)


def stored_pre(c):
    """all references below the entity are stored already"""
    r = rel_of(c, c.st0, c.this0)
    g, s = r.g, STORED(r)
    return items_pre(c) + [("its references are stored", s(g.RV, r.rel, c.args[1], c.args[2]))]


def stored_axiom(c):
    r = rel_of(c, c.st0, c.this0)
    g, s = r.g, STORED(r)
    return FA([I, I, r.ks], lambda i, e, f: Implies(And(s(g.RV, r.rel, i, e), r.has(i, f)), And(g.has(r.d(i), g.key(f, e)), s(g.RV, r.rel, r.to(i, f), g.val(r.d(i), g.key(f, e))))))


K_get = Contract("GenDB::get_relation_items", "GenDB::get_relation_items", pre=lambda c: stored_pre(c) + [("what stored means", stored_axiom(c))], post=items_post, outs=[3])
for k in (K_uniq, K_get):
    CONTRACTS[k.name] = k


def items_hook(x, p, o, rel, unique):
    def hook(L, node, st_, s0, j, N, rng, havoc):
        if rng is None:
            return None
        dv = L.alias(L.load(s0, rng[0]))
        kk = fresh("k", dv.sort().domain())
        L.facts.append(z3.ForAll([kk], z3.Implies(z3.And(inn(dv, kk), POS(dv, kk) == j), kk == EN(dv)[j]), patterns=[POS(dv, kk)]))
        r = Rel(None, x.ex, st_, x.view(p, st_), rel)
        g0 = G(x.view(p, st_))
        ind, item = x.unit_ind
        it0 = raw(L.load(st_, o.p))

        def inv(stt, t):
            g = G(x.view(p, stt))
            it = raw(L.load(stt, o.p))
            out = agree(g) + fixed(g0, g) + same_missing(g0, g) + unshared(g0, g) if unique else []
            done = lambda f: And(inn(dv, f), POS(dv, f) < t)
            return out + [("the tuple keeps its length", vlen(it) == vlen(it0)),
                          ("other positions stay", FA([I], lambda q: Implies(And(0 <= q, Or(q == ind, Not(r.below(ind, q)))), select(varr(it), q) == select(varr(it0), q)))),
                          ("the references so far are followed", FA([r.ks], lambda f: Implies(done(f), r.chain(g, it, ind, f)))),
                          ("and what is below them", FA([I, r.ks], lambda q, f: Implies(And(r.below(ind, q), q != ind, 0 <= q, q < vlen(r.dom), done(r.via(ind, q))), r.chain(g, it, q, f))))]
        return inv
    return hook


def items_unit(x, k, unique):
    p = x.obj("GenDB")
    rel, ind, item = x.val("string", "rel_name"), x.val("int", "ind"), x.val("int", "class_item")
    f = [f for f in x.prog.funcs.values() if f.sname == k.sname][0]
    o = x.out(f.params[3]["t"].deref(), "items")
    x.unit_ind = (ind, item)
    x.ex.loop_inv = items_hook(x, p, o, rel, unique)
    prove_body(x, k, p, [rel, ind, item, Ref(o.p)])


@unit("GenDB::get_relation_items follows the reference chain", FILES, "C21 C22", funcs=["GenDB::get_relation_items"], contracts=CRPK + ["GenDB::get_relation_items"], opts=dict(havoc_ok=True))
def _(x):
    items_unit(x, K_get, False)


@unit("GenDB::get_unique_entities_relation follows the reference chain and gives new references entities of their own", FILES, "C21", funcs=["GenDB::get_unique_entities_relation"], contracts=CRPK + ["GenDB::get_unique_entities_relation"], opts=dict(havoc_ok=True))
def _(x):
    items_unit(x, K_uniq, True)


# ---- sampling the entities of a row

def anc_post(c):
    g0, g = g0g(c)
    cl, it, r = raw(c.args[1]), c.args[2], raw(c.ret)
    return agree(g) + fixed(g0, g) + same_missing(g0, g) + [("the entity is listed last", And(vlen(r) >= 1, select(varr(r), vlen(r) - 1) == it)),
                                      ("every reference of the entity is stored", FA([g.ks], lambda f: Implies(g.isref(cl, f), g.has(cl, g.key(f, it))), lambda f: z3.Select(g.vars(cl), f)))]


K_anc = Contract("GenDB::sample_class_ancestors", "GenDB::sample_class_ancestors", pre=lambda c: base_pre(c, raw(c.args[1])) + [("a generator", c.args[0] != 0)], post=anc_post, modifies=MODS)


def CLS(path, i, ks):
    return z3.Function("PATH_CLASS", path.sort(), I, ks)(path, i)


def path_of(c):
    b, e = c.rawargs[2], c.rawargs[3]
    if not (hasattr(b, "idx") and hasattr(e, "idx")):
        raise Unsupported("class path iterators")
    pb, pe = c.ex.cont_val(b, c.st0), c.ex.cont_val(e, c.st0)
    return pb, b.idx, pe, e.idx


def ent_pre(c):
    g = G(c.this0)
    cl = raw(c.args[1])
    p, b, pe, e = path_of(c)
    at = lambda i: select(varr(p), i)
    return base_pre(c, cl) + [("a generator", c.args[0] != 0), ("a path", And(p == pe, 0 <= b, b < e, e <= vlen(p), CLS(p, b, g.ks) == cl)),
                              ("the path follows references", FA([I], lambda i: Implies(And(b <= i, i < e - 1), And(g.isref(CLS(p, i, g.ks), at(i)), CLS(p, i + 1, g.ks) == g.target(CLS(p, i, g.ks), at(i)))), lambda i: CLS(p, i, g.ks)))]


def ent_post(c):
    g0, g = g0g(c)
    p, b, pe, e = path_of(c)
    r, n = raw(c.ret), vlen(raw(c.ret))
    at = lambda i: select(varr(p), i)
    at_r = lambda i: select(varr(r), n - 1 - (i - b))
    key = lambda i: g.key(at(i), at_r(i))
    return agree(g) + fixed(g0, g) + same_missing(g0, g) + [("the row's entity is listed last", And(n >= e - b, select(varr(r), n - 1) == c.args[4])),
                                      ("the tuple follows the stored references along the path", FA([I], lambda i: Implies(And(b <= i, i < e - 1), And(g.has(CLS(p, i, g.ks), key(i)), g.val(CLS(p, i, g.ks), key(i)) == at_r(i + 1)))))]


K_ent = Contract("GenDB::sample_entities_relation/r", "GenDB::sample_entities_relation", pre=ent_pre, post=ent_post, modifies=MODS)
for k in (K_anc, K_ent):
    CONTRACTS[k.name] = k
REFK = CRPK + ["GenDB::sample_and_incorporate_reference"]


@unit("GenDB::sample_class_ancestors stores the references it follows", FILES, "C21", funcs=["GenDB::sample_class_ancestors"], contracts=REFK + ["GenDB::sample_class_ancestors"], opts=dict(havoc_ok=True))
def _(x):
    p = x.obj("GenDB")
    cl, it = x.val("string", "class_name"), x.val("int", "class_item")

    def hook(L, node, st_, s0, j, N, rng, havoc):
        if rng is None:
            return None
        dv = L.alias(L.load(s0, rng[0]))
        kk = fresh("k", dv.sort().domain())
        L.facts.append(z3.ForAll([kk], z3.Implies(z3.And(inn(dv, kk), POS(dv, kk) == j), kk == EN(dv)[j]), patterns=[POS(dv, kk)]))
        g0 = G(x.view(p, st_))
        iv = [k for k, v in L.leaves(s0).items() if k in havoc and v.sort() == vec_sort(I)]

        def inv(stt, t):
            g = G(x.view(p, stt))
            return agree(g) + fixed(g0, g) + same_missing(g0, g) + [("a list", vlen(L.get_leaf(stt, k)) >= 0) for k in iv] + [("the references so far are stored", FA([g.ks], lambda f: Implies(And(inn(dv, f), POS(dv, f) < t, g.isref(cl, f)), g.has(cl, g.key(f, it)))))]
        return inv
    x.ex.loop_inv = hook
    prove_body(x, K_anc, p, [x.val("int", "prng"), cl, it])


@unit("GenDB::sample_entities_relation follows the query path", FILES, "C21", funcs=["GenDB::sample_entities_relation"], contracts=REFK + ["GenDB::sample_class_ancestors", "GenDB::sample_entities_relation/r"])
def _(x):
    from vc import Iter
    p = x.obj("GenDB")
    cl, it = x.val("string", "class_name"), x.val("int", "class_item")
    o = x.out("vector<string>", "class_path")
    b, e = x.val("int", "b"), x.val("int", "e")
    prove_body(x, K_ent, p, [x.val("int", "prng"), cl, Iter(o.p, o.p.t, b), Iter(o.p, o.p.t, e), it])


# ---- dropping the references of entities nothing refers to any more (C22)

CONTRACTS["CRP::unincorporate/r"] = Contract("CRP::unincorporate/r", "CRP::unincorporate",
    pre=lambda c: [("a customer", inn(c.this0.assignments.t, c.args[0]))],
    post=lambda c: crp_ok(c.this.assignments.t, c.this.tables.t) + [("it is gone", c.this.assignments.t == z3.Store(c.this0.assignments.t, c.args[0], c.this0.assignments.t.sort().range().constructor(0)()))], modifies=("N", "tables", "assignments"))
CONTRACTS["CRP::logp/r"] = Contract("CRP::logp/r", "CRP::logp")
CONTRACTS["CRP::logp_new_table/r"] = Contract("CRP::logp_new_table/r", "CRP::logp_new_table")
UNK = ["CRP::unincorporate/r", "CRP::logp/r", "CRP::logp_new_table/r", "GenDB::get_reference_id/r"]
EXEMPT = ("v", "spec", "exempt")


def exempt(c, st):
    """the reference being moved: it is not a customer while it is moved"""
    if EXEMPT not in st.env:
        raise Unsupported("no reference is being moved")
    return st.env[EXEMPT]


def is_exempt(g, st, c, k):
    ec, ek = exempt(None, st)
    return And(c == ec, k == ek)


def live(g, st):
    return [("only the references of dropped entities are not customers", FA([g.ks, g.ps], lambda c, k: Implies(And(g.missing(c, k), Not(is_exempt(g, st, c, k))), Not(g.alive(c, g.ki(k)))), lambda c, k: z3.Select(oval(z3.Select(g.RV, c)), k)))]


def shrunk(g0, g):
    """customers only leave"""
    return [("customers only leave", FA([g.ks, I], lambda c, i: Implies(And(inn(g.E, c), inn(g.asg(c), i)), And(inn(g0.asg(c), i), z3.Select(g.asg(c), i) == z3.Select(g0.asg(c), i))), lambda c, i: z3.Select(g.asg(c), i))),
            ("classes stay", FA([g.ks], lambda c: And(inn(g.E, c) == inn(g0.E, c))))]


def tkey(us, g, c, k):
    """the key of a stored reference in the list of removed ones"""
    return us.domain().constructor(0)(c, g.kf(k), g.ki(k))


def listed(g0, g, u0, u):
    """the list grows by exactly the references that are not customers any more, with their referents"""
    us = u.sort()
    T = us.domain()
    t = fresh("t", T)
    c, k = T.accessor(0, 0)(t), g.key(T.accessor(0, 1)(t), T.accessor(0, 2)(t))
    left = And(g0.has(c, k), g0.cust(c, k), Not(g.cust(c, k)))
    return [("the removed references are listed with their referents", z3.ForAll([t], z3.Select(u, t) == z3.If(left, some(us.range(), g0.val(c, k)), z3.Select(u0, t)), patterns=[z3.Select(u, t)] if z3.is_const(u) else []))]


def newly_dead(g0, g, c, i):
    return And(g0.alive(c, i), Not(g.alive(c, i)))


def dropped(g0, g, extra=lambda c, k: z3.BoolVal(False), but=lambda c, k: z3.BoolVal(False)):
    """a reference stops being a customer when its entity is dropped, and then all references of that entity do"""
    sel_ = lambda c, k: z3.Select(oval(z3.Select(g.RV, c)), k)
    return [("only references of entities that are dropped now are removed", FA([g.ks, g.ps], lambda c, k: Implies(And(g0.has(c, k), g0.cust(c, k), Not(g.cust(c, k))), Or(extra(c, k), newly_dead(g0, g, c, g.ki(k)))), sel_)),
            ("no dropped entity keeps a reference", FA([g.ks, g.ps], lambda c, k: Implies(And(g.has(c, k), g.cust(c, k), newly_dead(g0, g, c, g.ki(k))), but(c, k)), sel_))]


def uec_key(c):
    g = G(c.this0)
    return raw(c.args[0]), g.key(raw(c.args[1]), c.args[2])


def RANK(g, c):
    return z3.Function("CLASS_RANK", g.ks, I)(c)


def acyclic(g):
    return FA([g.ks, g.ks], lambda c, f: Implies(g.isref(c, f), RANK(g, g.target(c, f)) < RANK(g, c)), lambda c, f: z3.Select(g.vars(c), f))


def uec_pre(c):
    g = G(c.this0)
    cl, k = uec_key(c)
    anc = c.args[4]
    anc = anc if z3.is_expr(anc) else z3.BoolVal(bool(anc))
    return base_pre(c, cl) + live(g, c.st0) + [("a stored reference", g.has(cl, k)),
            ("an ancestor's reference is a customer of an entity that is dropped; otherwise it is the one being moved", If(anc, And(g.cust(cl, k), Not(g.alive(cl, g.ki(k))), Not(is_exempt(g, c.st0, cl, k))), And(Not(g.cust(cl, k)), is_exempt(g, c.st0, cl, k)))),
            ("classes do not refer to themselves along any path", acyclic(g)), ("the moved reference is at or below its class", If(anc, RANK(g, cl) < RANK(g, exempt(c, c.st0)[0]), cl == exempt(c, c.st0)[0])),
            ("the references of the entity it led to are customers", Implies(Not(anc), FA([g.ps], lambda l: Implies(And(g.has(g.target(cl, g.kf(k)), l), g.ki(l) == g.val(cl, k)), g.cust(g.target(cl, g.kf(k)), l)))))]


def uec_post(c):
    g0, g = g0g(c)
    cl, k = uec_key(c)
    anc = c.args[4]
    anc = anc if z3.is_expr(anc) else z3.BoolVal(bool(anc))
    u0, u = raw(c.args[3]), raw(c.out[3])
    top = lambda d, l: And(anc, d == cl, l == k)
    # the entity the moved reference led to may have lost its last customer before
    t = g.target(cl, g.kf(k))
    gone = lambda d, l: And(Not(anc), d == t, g.ki(l) == g.val(cl, k), Not(g0.alive(t, g.val(cl, k))))
    return agree(g) + live(g, c.st) + shrunk(g0, g) + listed(g0, g, u0, u) + dropped(g0, g, lambda d, l: Or(top(d, l), gone(d, l))) + [
        ("the reference is not a customer", Not(g.cust(cl, k))),
        ("no reference of the entity it led to is left if no reference leads there", FA([g.ps], lambda l: Implies(And(Not(g.alive(t, g.val(cl, k))), Or(anc, Not(g0.alive(t, g.val(cl, k)))), g.has(t, l), g.ki(l) == g.val(cl, k)), Not(g.cust(t, l)))))]


K_uec = Contract("GenDB::unincorporate_from_entity_cluster", "GenDB::unincorporate_from_entity_cluster", pre=uec_pre, post=uec_post, modifies=("entity_crps",), outs=[3])
CONTRACTS[K_uec.name] = K_uec


def exempt_setup(x, p):
    g = G(x.view(p))
    x.st.env[EXEMPT] = (fresh("moved_class", g.ks), fresh("moved_ref", g.ps))
    return g


@unit("GenDB::unincorporate_from_entity_cluster removes the references of dropped entities", FILES, "C22", funcs=["GenDB::unincorporate_from_entity_cluster"], contracts=UNK + ["GenDB::unincorporate_from_entity_cluster"], opts=dict(havoc_ok=True))
def _(x):
    p = x.obj("GenDB")
    g00 = exempt_setup(x, p)
    f = [f for f in x.prog.funcs.values() if f.sname == K_uec.sname][0]
    cl, fd, it = x.val("string", "class_name"), x.val("string", "ref_field"), x.val("int", "class_item")
    o = x.out(f.params[3]["t"].deref(), "unincorporated")
    k = g00.key(fd, it)
    ri = g00.val(cl, k)
    t = g00.target(cl, fd)

    def hook(L, node, st_, s0, j, N, rng, havoc):
        if rng is None:
            return None
        dv = L.alias(L.load(s0, rng[0]))
        kk = fresh("k", dv.sort().domain())
        L.facts.append(z3.ForAll([kk], z3.Implies(z3.And(inn(dv, kk), POS(dv, kk) == j), kk == EN(dv)[j]), patterns=[POS(dv, kk)]))
        g0 = G(x.view(p, st_))
        u0 = raw(L.load(st_, o.p))

        def inv(stt, tt):
            g = G(x.view(p, stt))
            u = raw(L.load(stt, o.p))
            own = lambda d, l: And(d == t, g.ki(l) == ri)
            return agree(g) + live(g, st_) + shrunk(g0, g) + listed(g0, g, u0, u) + dropped(g0, g, own) + [
                ("the references so far are removed", FA([g.ks], lambda f_: Implies(And(inn(dv, f_), POS(dv, f_) < tt, g.has(t, g.key(f_, ri))), Not(g.cust(t, g.key(f_, ri)))))),
                ("the others are not", FA([g.ps], lambda l: Implies(And(g.has(t, l), g.ki(l) == ri, Not(And(inn(dv, g.kf(l)), POS(dv, g.kf(l)) < tt))), g.cust(t, l)))),
                ("the entity stays dropped", Not(g.alive(t, ri)))]
        return inv
    x.ex.loop_inv = hook
    prove_body(x, K_uec, p, [cl, fd, it, Ref(o.p), x.val("bool", "is_ancestor_reference")])
