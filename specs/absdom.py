"""Interface contract of Domain for its callers: dom_inv of specs/domain.py under an opaque name.

Each clause is proved from the source with the concrete invariant in specs/domain.py (C01)."""
from spec import *


def DOMOK(d):
    return z3.Function("DOMOK", d.items.t.sort(), d.crp.t.sort(), B)(d.items.t, d.crp.t)


def mk(inv, tag=""):
    """the contracts over an invariant"""
    def dinc_post(c):
        it = c.args[1]
        was = c.this0.items.has(it)
        t = If(c.args[2] >= 0, c.args[2], oval(select(c.this.crp.assignments.t, it)))
        return inv(c.this) + [
            ("the item is added", c.this.items.t == z3.Store(c.this0.items.t, it, True)),
            ("a present item changes nothing", Implies(was, And(c.this.items.t == c.this0.items.t, c.this.crp.t == c.this0.crp.t))),
            ("a new item gets a table, others keep theirs", Implies(Not(was), And(t >= 0, c.this.crp.assignments.t == put(c.this0.crp.assignments.t, it, t)))),
            ("concentration unchanged", c.this.crp.alpha == c.this0.crp.alpha)]

    k = {}
    k["inc"] = Contract("Domain::incorporate" + tag, "Domain::incorporate",
        pre=lambda c: inv(c.this0) + [
            ("table given only for a new item", Implies(c.this0.items.has(c.args[1]), c.args[2] == -1)),
            ("table id is -1 or a table", c.args[2] >= -1),
            ("a generator is given when the table is to be sampled", Implies(And(Not(c.this0.items.has(c.args[1])), c.args[2] == -1), c.args[0] != 0))],
        post=dinc_post, modifies=["items", "crp"])
    k["uninc"] = Contract("Domain::unincorporate" + tag, "Domain::unincorporate",
        pre=lambda c: inv(c.this0) + [("item is present", c.this0.items.has(c.args[0]))],
        post=lambda c: inv(c.this) + [
            ("the item is removed", c.this.items.t == z3.Store(c.this0.items.t, c.args[0], False)),
            ("others keep their tables", c.this.crp.assignments.t == drop(c.this0.crp.assignments.t, c.args[0])),
            ("concentration unchanged", c.this.crp.alpha == c.this0.crp.alpha)],
        modifies=["items", "crp"])
    k["set"] = Contract("Domain::set_cluster_assignment_gibbs" + tag, "Domain::set_cluster_assignment_gibbs",
        pre=lambda c: inv(c.this0) + [("item is present", c.this0.items.has(c.args[0])), ("a different table", c.this0.crp.assignments[c.args[0]] != c.args[1]), ("table id", c.args[1] >= 0)],
        post=lambda c: inv(c.this) + [
            ("the item sits at the new table, others keep theirs", c.this.crp.assignments.t == put(c.this0.crp.assignments.t, c.args[0], c.args[1])),
            ("concentration unchanged", c.this.crp.alpha == c.this0.crp.alpha)],
        modifies=["crp"])
    k["get"] = Contract("Domain::get_cluster_assignment" + tag, "Domain::get_cluster_assignment",
        pre=lambda c: inv(c.this0) + [("item is present", c.this0.items.has(c.args[0]))],
        value=lambda c: raw(c.this0.crp.assignments[c.args[0]]),
        post=lambda c: [("a table id", c.ret >= 0)])
    return k


def put(m, k, v):
    return z3.Store(m, k, m.sort().range().constructor(1)(v))


def drop(m, k):
    return z3.Store(m, k, m.sort().range().constructor(0)())


K = mk(lambda d: [("the domain is consistent", DOMOK(d)), ("its items are those of its partition", ForAll(I, lambda x: d.items.has(x) == d.crp.assignments.has(x)))])
CONTRACTS = {k.name: k for k in K.values()}
DOMK = list(CONTRACTS)
