from spec import *
import util_math as _um

CRPF = "distributions/crp.cc"


def crp_inv(c):
    """representation invariant of CRP: assignments and tables are the same partition, no empty table, N counts customers"""
    return [
        ("every assigned item sits at its table", ForAll(I, lambda x: Implies(c.assignments.has(x), And(c.tables.has(c.assignments[x]), c.tables[c.assignments[x]].has(x))))),
        ("every customer of a table is assigned to it", ForAll([I, I], lambda t, x: Implies(And(c.tables.has(t), c.tables[t].has(x)), And(c.assignments.has(x), c.assignments[x] == t)))),
        ("no empty table", ForAll(I, lambda t: Implies(c.tables.has(t), Exists(I, lambda x: c.tables[t].has(x))))),
        ("N is the number of items", c.N == c.assignments.card()),
        ("table ids are not negative", ForAll(I, lambda t: Implies(c.tables.has(t), t >= 0))),
    ]


def same_except(new, old, item):
    return ForAll(I, lambda x: Implies(x != item, And(new.assignments.has(x) == old.assignments.has(x), Implies(old.assignments.has(x), new.assignments[x] == old.assignments[x]))))


k_inc = Contract("CRP::incorporate", "CRP::incorporate",
    pre=lambda c: crp_inv(c.this0) + [("item is new", Not(c.this0.assignments.has(c.args[0]))), ("table id >= 0", c.args[1] >= 0)],
    post=lambda c: crp_inv(c.this) + [
        ("exactly this assignment is added", c.this.assignments.t == z3.Store(c.this0.assignments.t, c.args[0], c.this0.assignments.t.sort().range().constructor(1)(c.args[1]))),
        ("item is assigned to the table", And(c.this.assignments.has(c.args[0]), c.this.assignments[c.args[0]] == c.args[1])),
        ("other items keep their tables", same_except(c.this, c.this0, c.args[0])),
        ("N grows by one", c.this.N == c.this0.N + 1)],
    modifies=["N", "tables", "assignments"])

k_uninc = Contract("CRP::unincorporate", "CRP::unincorporate",
    pre=lambda c: crp_inv(c.this0) + [("item is present", c.this0.assignments.has(c.args[0]))],
    post=lambda c: crp_inv(c.this) + [
        ("exactly this assignment is removed", c.this.assignments.t == z3.Store(c.this0.assignments.t, c.args[0], c.this0.assignments.t.sort().range().constructor(0)())),
        ("item is gone", Not(c.this.assignments.has(c.args[0]))),
        ("other items keep their tables", same_except(c.this, c.this0, c.args[0])),
        ("N shrinks by one", c.this.N == c.this0.N - 1)],
    modifies=["N", "tables", "assignments"])


@unit("CRP::incorporate keeps one partition", CRPF, "C01", funcs=["CRP::incorporate"])
def _(x):
    prove_body(x, k_inc, x.obj("CRP"), [x.val("int", "item"), x.val("int", "table")])


@unit("CRP::unincorporate keeps one partition", CRPF, "C01", funcs=["CRP::unincorporate"])
def _(x):
    prove_body(x, k_uninc, x.obj("CRP"), [x.val("int", "item")])


LOGF = z3.Function("ln", R, R)
LGAMMAF = z3.Function("lgamma", R, R)


def same_crp(a, b):
    return [("alpha", a.alpha == b.alpha), ("N", a.N == b.N), ("tables", a.tables.t == b.tables.t), ("assignments", a.assignments.t == b.assignments.t)]


def customers(c):
    """sum of table sizes"""
    return SETSUMF(I)(lam(I, lambda t: If(c.tables.has(t), z3.ToReal(CARD(c.tables[t].t)), z3.RealVal(0))))


def crp_wf(c):
    """crp_inv plus: table sizes sum to N"""
    return crp_inv(c) + [("table sizes sum to N", customers(c) == z3.ToReal(c.N)), ("alpha > 0", c.alpha > 0)]


k_maxtable = Contract("CRP::max_table", "CRP::max_table",
    pre=lambda c: crp_inv(c.this0),
    post=lambda c: [
        ("is the largest table id, -1 when empty", c.ret == MAXKEY(c.ex, c.this0.tables))])


@unit("CRP::max_table is the largest table", CRPF, "C01 C02", funcs=["CRP::max_table"])
def _(x):
    prove_body(x, k_maxtable, x.obj("CRP"))


def newtable(c, m):
    """m is the id one above every existing table (0 when empty)"""
    return And(If(c.N == 0, m == 0, And(c.tables.has(m - 1))), ForAll(I, lambda t: Implies(c.tables.has(t), t < m)))


def tw_post(c, w, ex):
    o = c
    m = MAXKEY(ex, o.tables) + 1
    return [
        ("empty process: the only choice is table 0", Implies(o.N == 0, ForAll(I, lambda t: w.has(t) == (t == 0)))),
        ("tables keep weight = size", ForAll(I, lambda t: Implies(o.tables.has(t), And(w.has(t), w[t] == z3.ToReal(ex.card(None, o.tables[t].t)))))),
        ("exactly one new table, weight alpha", And(w.has(m), w[m] == o.alpha, ForAll(I, lambda t: Implies(And(w.has(t), t != m), o.tables.has(t))))),
        ("weights are positive", ForAll(I, lambda t: Implies(w.has(t), w[t] > 0))),
    ]


k_tw = Contract("CRP::tables_weights", "CRP::tables_weights",
    pre=lambda c: crp_wf(c.this0),
    post=lambda c: tw_post(c.this0, c.ret, c.ex))


@unit("CRP::tables_weights lists sizes and one new table", CRPF, "C02", funcs=["CRP::tables_weights"], contracts=["CRP::max_table"])
def _(x):
    prove_body(x, k_tw, x.obj("CRP"))

CONTRACTS = {k.name: k for k in (k_inc, k_uninc, k_maxtable, k_tw)}
CONTRACTS.update(_um.CONTRACTS)


@unit("CRP::logp is the incorporate score difference", CRPF, "C02", funcs=["CRP::logp", "CRP::logp_score", "CRP::incorporate"])
def _(x):
    p = x.obj("CRP")
    c = x.view(p)
    x.assume(crp_wf(c))
    t, i = x.val("int", "t"), x.val("int", "i")
    x.assume(t >= 0, Not(c.assignments.has(i)))
    s0 = x.call("CRP::logp_score", p)
    lp = x.call("CRP::logp", p, [t])
    m = x.call("CRP::max_table", p)
    x.assume(Or(c.tables.has(t), t == m + 1))
    x.check(x.view(p).eq(c), "logp and logp_score leave the process unchanged", "frame")
    x.call("CRP::incorporate", p, [i, t])
    s1 = x.call("CRP::logp_score", p)
    x.check(lp == s1 - s0, "logp(t) = change of logp_score")


@unit("CRP::logp_new_table is logp of the new table", CRPF, "C02", funcs=["CRP::logp_new_table", "CRP::logp"], contracts=["CRP::max_table", "CRP::tables_weights"])
def _(x):
    p = x.obj("CRP")
    c = x.view(p)
    x.assume(crp_wf(c), c.N > 0)
    m = x.call("CRP::max_table", p)
    a = x.call("CRP::logp_new_table", p)
    b = x.call("CRP::logp", p, [m + 1])
    x.check(a == b, "logp_new_table() == logp(max_table()+1)")
    x.check(x.view(p).eq(c), "queries leave the process unchanged", "frame")


@unit("CRP::logp of a table that cannot be chosen is -inf", CRPF, "C02", funcs=["CRP::logp"], contracts=["CRP::tables_weights", "CRP::max_table"])
def _(x):
    p = x.obj("CRP")
    c = x.view(p)
    x.assume(crp_wf(c), c.N > 0)
    t = x.val("int", "t")
    m = x.call("CRP::max_table", p)
    x.assume(Not(c.tables.has(t)), t != m + 1)
    x.check(x.call("CRP::logp", p, [t]) == -z3.Const("POS_INF", R), "impossible table has log probability -inf")


@unit("CRP::tables_weights_gibbs equals the weights without one customer", CRPF, "C02", funcs=["CRP::tables_weights_gibbs"], contracts=["CRP::tables_weights", "CRP::max_table"])
def _(x):
    p = x.obj("CRP")
    c = x.view(p)
    x.assume(crp_wf(c), c.N > 0)
    t = x.val("int", "t")
    x.assume(c.tables.has(t))
    r = x.call("CRP::tables_weights_gibbs", p, [t])
    w = x.V(r, "map<int,double>")
    x.check(x.view(p).eq(c), "query leaves the process unchanged", "frame")
    m = MAXKEY(x.ex, c.tables) + 1
    size = lambda k: z3.ToReal(x.ex.card(None, c.tables[k].t))
    single = x.ex.card(None, c.tables[t].t) == 1
    x.check(ForAll(I, lambda k: Implies(And(c.tables.has(k), k != t), And(w.has(k), w[k] == size(k)))), "other tables keep weight = size")
    x.check(Implies(Not(single), And(w.has(t), w[t] == size(t) - 1, w.has(m), w[m] == c.alpha)), "shared table counts without the customer, new table weighs alpha")
    x.check(Implies(single, And(w.has(t), w[t] == c.alpha)), "a singleton table takes the role of the new table with weight alpha")
    x.check(ForAll(I, lambda k: Implies(w.has(k), Or(c.tables.has(k), And(k == m, Not(single))))), "no other choice is offered")
    x.check(ForAll(I, lambda k: Implies(w.has(k), w[k] > 0)), "weights are positive")


@unit("CRP: adding and removing an item restores the process", CRPF, "C01", funcs=["CRP::incorporate", "CRP::unincorporate"])
def _(x):
    p = x.obj("CRP")
    c = x.view(p)
    x.assume(crp_wf(c))
    i, t = x.val("int", "i"), x.val("int", "t")
    x.assume(Not(c.assignments.has(i)), t >= 0)
    x.call("CRP::incorporate", p, [i, t])
    d = x.view(p)
    x.check(customers(d) == z3.ToReal(d.N), "table sizes sum to N after incorporate")
    x.check(d.tables[t].has(i), "item sits at the requested table")
    x.call("CRP::unincorporate", p, [i])
    e = x.view(p)
    for n in ("alpha", "N", "tables", "assignments"):
        x.check(raw(getattr(e, n)) == raw(getattr(c, n)), "remove undoes add: " + n)


@unit("CRP: removing and re-adding an item restores the process", CRPF, "C01", funcs=["CRP::incorporate", "CRP::unincorporate"])
def _(x):
    p = x.obj("CRP")
    c = x.view(p)
    x.assume(crp_wf(c))
    i = x.val("int", "i")
    x.assume(c.assignments.has(i))
    t = c.assignments[i]
    x.call("CRP::unincorporate", p, [i])
    d = x.view(p)
    x.check(customers(d) == z3.ToReal(d.N), "table sizes sum to N after unincorporate")
    x.call("CRP::incorporate", p, [i, t])
    e = x.view(p)
    for n in ("alpha", "N", "tables", "assignments"):
        x.check(raw(getattr(e, n)) == raw(getattr(c, n)), "add undoes remove: " + n)


def choice_law(x, st, draws):
    ds = [d for d in draws if d[0] == "draw"]
    return ds


@unit("CRP::sample draws a table from tables_weights", [CRPF, "util_math.cc"], "C02 C05", funcs=["CRP::sample", "choice"], contracts=["CRP::tables_weights", "CRP::max_table"])
def _(x):
    p = x.obj("CRP")
    c = x.view(p)
    x.assume(crp_wf(c))
    n0 = len(x.ex.facts)
    g = x.val("int", "prng")
    r = x.call("CRP::sample", p, [g])
    ds = [d for d in x.st.draws if d[0] == "draw"]
    x.check(z3.BoolVal(len(ds) == 1 and len(x.st.draws) == 1 and ds[0][1] == "discrete_distribution"), "exactly one categorical draw")
    w, d = ds[0][2][0], ds[0][3]
    tw = x.ex.call("CRP::tables_weights", p, [], x.st)
    x.check(x.view(p).eq(c), "sampling leaves the process unchanged", "frame")
    # the sampled distribution, table by table, is the one the weights describe
    i, j = x.val("int", "i"), x.val("int", "j")
    x.assume(0 <= i, i < vlen(w), 0 <= j, j < vlen(w))
    ri, rj = z3.substitute(r, (d, i)), z3.substitute(r, (d, j))
    t1 = [t for t in x.ex.facts[n0:] if False]
    dist = getattr(x, "last_tw", None)
    x.check(Implies(c.N == 0, ri == 0), "an empty process opens table 0")
    x.check(Implies(c.tables.has(ri), select(varr(w), i) == z3.ToReal(x.ex.card(None, c.tables[ri].t))), "existing table drawn with weight = size")
    m = MAXKEY(x.ex, c.tables) + 1
    x.check(Implies(And(c.N > 0, Not(c.tables.has(ri))), And(ri == m, select(varr(w), i) == c.alpha)), "the only other outcome is the new table, with weight alpha")
    x.check(Implies(i != j, ri != rj), "each table is offered once")


@unit("CRP::transition_alpha only changes alpha, to a grid point scored by logp_score", [CRPF, "util_math.cc"], "C06", funcs=["CRP::transition_alpha", "CRP::logp_score"], contracts=["log_linspace", "log_choice"])
def _(x):
    p = x.obj("CRP")
    c = x.view(p)
    x.assume(crp_wf(c))
    g = x.val("int", "prng")
    x.call("CRP::transition_alpha", p, [g])
    d = x.view(p)
    for n in ("N", "tables", "assignments"):
        x.check(raw(getattr(d, n)) == raw(getattr(c, n)), "transition_alpha keeps " + n, "frame")
    x.check(d.alpha > 0, "alpha stays positive")
