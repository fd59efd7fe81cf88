from spec import *
from crp import *
import crp as _crp

DOMF = "irm.cc"


def dom_inv(d):
    return crp_wf(d.crp) + [("Domain items are the items of its partition", ForAll(I, lambda x: d.items.has(x) == d.crp.assignments.has(x)))]


k_dinc = Contract("Domain::incorporate", "Domain::incorporate",
    pre=lambda c: dom_inv(c.this0) + [
        ("table given only for a new item", Implies(c.this0.items.has(c.args[1]), c.args[2] == -1)),
        ("table id is -1 or a table", c.args[2] >= -1),
        ("a generator is given when the table is to be sampled", Implies(And(Not(c.this0.items.has(c.args[1])), c.args[2] == -1), c.args[0] != 0))],
    post=lambda c: dom_inv(c.this) + [
        ("the item is in the domain", c.this.items.has(c.args[1])),
        ("a present item keeps its table and nothing changes", Implies(c.this0.items.has(c.args[1]), And(c.this.items.t == c.this0.items.t, c.this.crp.t == c.this0.crp.t))),
        ("a new item goes to the requested table", Implies(And(Not(c.this0.items.has(c.args[1])), c.args[2] >= 0), c.this.crp.assignments[c.args[1]] == c.args[2])),
        ("other items stay", ForAll(I, lambda y: Implies(y != c.args[1], c.this.items.has(y) == c.this0.items.has(y)))),
        ("other items keep their tables", same_except(c.this.crp, c.this0.crp, c.args[1]))],
    modifies=["items", "crp"])

k_duninc = Contract("Domain::unincorporate", "Domain::unincorporate",
    pre=lambda c: dom_inv(c.this0) + [("item is present", c.this0.items.has(c.args[0]))],
    post=lambda c: dom_inv(c.this) + [
        ("the item is gone", Not(c.this.items.has(c.args[0]))),
        ("other items stay", ForAll(I, lambda y: Implies(y != c.args[0], c.this.items.has(y) == c.this0.items.has(y)))),
        ("other items keep their tables", same_except(c.this.crp, c.this0.crp, c.args[0]))],
    modifies=["items", "crp"])

k_dset = Contract("Domain::set_cluster_assignment_gibbs", "Domain::set_cluster_assignment_gibbs",
    pre=lambda c: dom_inv(c.this0) + [("item is present", c.this0.items.has(c.args[0])), ("a different table", c.this0.crp.assignments[c.args[0]] != c.args[1]), ("table id", c.args[1] >= 0)],
    post=lambda c: dom_inv(c.this) + [
        ("the item sits at the new table", And(c.this.items.has(c.args[0]), c.this.crp.assignments[c.args[0]] == c.args[1])),
        ("other items keep their tables", same_except(c.this.crp, c.this0.crp, c.args[0])),
        ("concentration unchanged", c.this.crp.alpha == c.this0.crp.alpha)],
    modifies=["crp"])

k_dget = Contract("Domain::get_cluster_assignment", "Domain::get_cluster_assignment",
    pre=lambda c: dom_inv(c.this0) + [("item is present", c.this0.items.has(c.args[0]))],
    post=lambda c: [("reports the item's table", c.ret == c.this0.crp.assignments[c.args[0]])])

# CRP contracts carrying the full invariant, for callers
k_inc2 = Contract("CRP::incorporate+", "CRP::incorporate",
    pre=lambda c: crp_wf(c.this0) + [("item is new", Not(c.this0.assignments.has(c.args[0]))), ("table id >= 0", c.args[1] >= 0)],
    post=lambda c: crp_wf(c.this) + [x for x in k_inc.post(c)[-3:]],
    modifies=["N", "tables", "assignments"])
k_uninc2 = Contract("CRP::unincorporate+", "CRP::unincorporate",
    pre=lambda c: crp_wf(c.this0) + [("item is present", c.this0.assignments.has(c.args[0]))],
    post=lambda c: crp_wf(c.this) + [x for x in k_uninc.post(c)[-3:]],
    modifies=["N", "tables", "assignments"])
k_sample = Contract("CRP::sample", "CRP::sample",
    pre=lambda c: crp_wf(c.this0),
    post=lambda c: [("a table id", c.ret >= 0)])

CONTRACTS = dict(_crp.CONTRACTS)
CONTRACTS.update({k.name: k for k in (k_dinc, k_duninc, k_dset, k_dget, k_inc2, k_uninc2, k_sample)})


@unit("CRP::incorporate keeps the counted partition", CRPF, "C01", funcs=["CRP::incorporate"])
def _(x):
    prove_body(x, k_inc2, x.obj("CRP"), [x.val("int", "item"), x.val("int", "table")])


@unit("CRP::unincorporate keeps the counted partition", CRPF, "C01", funcs=["CRP::unincorporate"])
def _(x):
    prove_body(x, k_uninc2, x.obj("CRP"), [x.val("int", "item")])


@unit("CRP::sample returns a table id", [CRPF, "util_math.cc"], "C01", funcs=["CRP::sample"], contracts=["CRP::tables_weights", "CRP::max_table"])
def _(x):
    prove_body(x, k_sample, x.obj("CRP"), [x.val("int", "prng")])


@unit("Domain::incorporate", DOMF, "C01", funcs=["Domain::incorporate"], contracts=["CRP::incorporate+", "CRP::sample"])
def _(x):
    prove_body(x, k_dinc, x.obj("Domain"), [x.val("int", "prng"), x.val("int", "item"), x.val("int", "table")])


@unit("Domain::unincorporate", DOMF, "C01", funcs=["Domain::unincorporate"], contracts=["CRP::unincorporate+"])
def _(x):
    prove_body(x, k_duninc, x.obj("Domain"), [x.val("int", "item")])


@unit("Domain::set_cluster_assignment_gibbs", DOMF, "C01", funcs=["Domain::set_cluster_assignment_gibbs"], contracts=["CRP::incorporate+", "CRP::unincorporate+"])
def _(x):
    prove_body(x, k_dset, x.obj("Domain"), [x.val("int", "item"), x.val("int", "table")])


@unit("Domain::get_cluster_assignment", DOMF, "C01", funcs=["Domain::get_cluster_assignment"])
def _(x):
    prove_body(x, k_dget, x.obj("Domain"), [x.val("int", "item")])


# the clauses that callers use (specs/absdom.py), proved here with the concrete invariant
import absdom
KD = absdom.mk(lambda d: dom_inv(d))
CONTRACTS.update({"D:" + n: k for n, k in KD.items()})


@unit("Domain::incorporate meets its interface", DOMF, "C01 C08 C13", funcs=["Domain::incorporate"], contracts=["CRP::incorporate+", "CRP::sample"])
def _(x):
    prove_body(x, KD["inc"], x.obj("Domain"), [x.val("int", "prng"), x.val("int", "item"), x.val("int", "table")])


@unit("Domain::unincorporate meets its interface", DOMF, "C01 C08 C13", funcs=["Domain::unincorporate"], contracts=["CRP::unincorporate+"])
def _(x):
    prove_body(x, KD["uninc"], x.obj("Domain"), [x.val("int", "item")])


@unit("Domain::set_cluster_assignment_gibbs meets its interface", DOMF, "C01 C09 C14", funcs=["Domain::set_cluster_assignment_gibbs"], contracts=["CRP::incorporate+", "CRP::unincorporate+"])
def _(x):
    prove_body(x, KD["set"], x.obj("Domain"), [x.val("int", "item"), x.val("int", "table")])


@unit("Domain::get_cluster_assignment meets its interface", DOMF, "C01 C08", funcs=["Domain::get_cluster_assignment"])
def _(x):
    prove_body(x, KD["get"], x.obj("Domain"), [x.val("int", "item")])


@unit("Domain::tables_weights_gibbs offers the weights without the entity", [DOMF, CRPF], "C02 C14", funcs=["Domain::tables_weights_gibbs", "CRP::tables_weights_gibbs"], contracts=["CRP::tables_weights", "CRP::max_table"])
def _(x):
    p = x.obj("Domain")
    d = x.view(p)
    x.assume(dom_inv(d))
    e = x.val("int", "item")
    x.assume(d.items.has(e), d.crp.N > 0)
    c = d.crp
    t = raw(c.assignments[e])
    x.reach("precondition")
    w = x.V(x.call("Domain::tables_weights_gibbs", p, [e]), "map<int,double>")
    x.check(x.view(p).eq(d), "query leaves the domain unchanged", "frame")
    m = MAXKEY(x.ex, c.tables) + 1
    size = lambda k: z3.ToReal(x.ex.card(None, c.tables[k].t))
    single = x.ex.card(None, c.tables[t].t) == 1
    x.check(w.has(t), "the entity's own table is offered")
    x.check(ForAll(I, lambda k: Implies(w.has(k), And(k >= 0, w[k] > 0))), "tables are ids, weights are positive")
    x.check(ForAll(I, lambda k: Implies(And(c.tables.has(k), k != t), And(w.has(k), w[k] == size(k)))), "other tables keep weight = size")
    x.check(Implies(Not(single), And(w[t] == size(t) - 1, w.has(m), w[m] == c.alpha)), "a shared table counts without the entity, a fresh one weighs alpha")
    x.check(Implies(single, w[t] == c.alpha), "the entity's own table takes the role of the fresh one")
    x.check(ForAll(I, lambda k: Implies(w.has(k), Or(c.tables.has(k), And(k == m, Not(single))))), "exactly one fresh table is offered")
