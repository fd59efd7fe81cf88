"""Interface of Relation<T> for its callers (inference over several relations, error models, saving and loading).

Ghost state of a relation object: rdata = recorded observations, rdoms = its domains, rment[name][entity] = the index
lists the entity, rcl[name][entity] = the table its blocks follow for that entity, rhyp = identity of everything else
(hyperparameters), rin = the values its blocks currently absorb (rdata, except inside a latent move: specs/tlv.py).  CleanRelation and NoisyRelation are proved against the same laws in specs/clean.py and specs/noisy.py."""
from spec import *
from absdom import put, drop
from clean import MD, MN, FA, MP, domh, hset, harr, dom_delta, doms_ok, named, ment_def

VT = ["string", "double", "int", "bool"]


def _dsort(b):
    from ir import _types
    return z3.ArraySort(vec_sort(I), opt_sort(sort(_types[b].args[0])))


def SS():
    from ir import _types
    return sort(_types["string"])


def mentsort(b):
    return z3.ArraySort(SS(), z3.ArraySort(I, B))


def clsort(b):
    return z3.ArraySort(SS(), z3.ArraySort(I, I))


GH = ("rdata", "rdoms", "rment", "rcl", "rhyp")
ghost_fields("Relation", [("rdata", _dsort), ("rdoms", vec_sort(I)), ("rment", mentsort), ("rcl", clsort), ("rhyp", I), ("rin", _dsort)], inherit=False)


def dname(d):
    """name of a domain given as an object or as a temporary"""
    from ir import _types
    return raw(d.name) if isinstance(d, View) else sel(raw(d), [i for i, (f, _) in enumerate(rec_fields(_types["Domain"])) if f == "name"][0])


def has(c, dom, item):
    return select(select(raw(c.this0.rment), dname(dom)), raw(item))


def LPG(s):
    """data probability of an entity's observations at each of the given tables (C10 gives its definition)"""
    return z3.Function("LPGIBBS_" + an_(s.rdata.sort().range()), s.rdata.t.sort() if isinstance(s.rdata, View) else s.rdata.sort(), s.rcl.sort(), I, SS(), I, vec_sort(I), vec_sort(R))


def lpg_val(c):
    s = c.this0
    return LPG(s)(raw(s.rdata), raw(s.rcl), s.rhyp, raw(c.args[0].name), raw(c.args[1]), raw(c.args[2]))


def SCR(s):
    return z3.Function("RSCORE_" + an_(s.rdata.sort().range()), s.rdata.sort(), s.rcl.sort(), I, R)


def over(c):
    """the relation is over the domain"""
    i = fresh("i", I)
    return z3.Function("OVER", vec_sort(I), SS(), B)(raw(c.this0.rdoms), dname(c.args[0]))


CONTRACTS = {}
for k in (
    Contract("Relation::get_value", "Relation::get_value", pre=lambda c: [("the base tuple is stored", inn(c.this0.rdata, raw(c.args[0])))], value=lambda c: oval(select(c.this0.rdata, raw(c.args[0])))),
    Contract("Relation::get_data", "Relation::get_data", value=lambda c: c.this0.rdata),
    Contract("Relation::get_domains", "Relation::get_domains", value=lambda c: c.this0.rdoms),
    Contract("Relation::has_observation", "Relation::has_observation", pre=lambda c: [("the relation is over the domain", over(c))], value=lambda c: has(c, c.args[0], c.args[1])),
    Contract("Relation::logp_gibbs_exact", "Relation::logp_gibbs_exact",
        pre=lambda c: [("the relation is over the domain", over(c)), ("the entity has observations", has(c, c.args[0], c.args[1])), ("a generator is given", c.args[3] != 0)],
        value=lpg_val, post=lambda c: [("one score per table", vlen(raw(c.ret)) == vlen(raw(c.args[2])))]),
    Contract("Relation::set_cluster_assignment_gibbs", "Relation::set_cluster_assignment_gibbs",
        pre=lambda c: [("the relation is over the domain", over(c)), ("the entity has observations", has(c, c.args[0], c.args[1])), ("a generator is given", c.args[3] != 0),
            ("the domain still holds the old table", And(c.args[0].crp.assignments.has(c.args[1]), c.args[0].crp.assignments[c.args[1]] != c.args[2]))],
        assign={"rcl": lambda c: z3.Store(raw(c.this0.rcl), raw(c.args[0].name), z3.Store(select(raw(c.this0.rcl), raw(c.args[0].name)), raw(c.args[1]), raw(c.args[2])))}, modifies=["rcl"]),
    Contract("Relation::logp_score", "Relation::logp_score", value=lambda c: SCR(c.this0)(raw(c.this0.rdata), raw(c.this0.rcl), c.this0.rhyp)),
):
    CONTRACTS[k.name] = k
ALL = list(CONTRACTS)


def inc_effect(c):
    for f in ("items", "crp"):
        a = harr(c.ex, c.st, "Domain", f)
        hset(c.ex, c.st, "Domain", f, fresh("heap_" + f, a.sort()))


def inc_ment(c):
    s, its = c.this0, raw(c.args[1])
    nh = domh(c.ex, c.st0, "name")
    nm, e = fresh("nm", SS()), fresh("e", I)
    r = fresh("rment", s.rment.sort())
    m = select(select(r, nm), e)
    c.ex.globals.append(FA([nm, e], m == Or(select(select(s.rment, nm), e), MN(raw(s.rdoms), nh, its, vlen(raw(s.rdoms)), nm, e)), patterns=[z3.Select(z3.Select(r, nm), e)]))
    return r


def inc_post(c):
    s, its = c.this0, raw(c.args[1])
    dv = raw(s.rdoms)
    return ([("domains stay consistent", doms_ok(c.ex, c.st, dv))] + [("definition", q) for q in ment_def(dv, domh(c.ex, c.st0, "name"), its)]
        + dom_delta(domh(c.ex, c.st0, "items"), domh(c.ex, c.st0, "crp"), domh(c.ex, c.st, "items"), domh(c.ex, c.st, "crp"), lambda d, y: MD(dv, its, vlen(dv), d, y)))


def uninc_ment(c):
    s, its = c.this0, raw(c.args[0])
    nh = domh(c.ex, c.st0, "name")
    nm, e = fresh("nm", SS()), fresh("e", I)
    r = fresh("rment", s.rment.sort())
    m, m0 = select(select(r, nm), e), select(select(s.rment, nm), e)
    c.ex.globals.append(FA([nm, e], And(Implies(m, m0), Implies(And(m0, Not(MN(raw(s.rdoms), nh, its, vlen(raw(s.rdoms)), nm, e))), m)), patterns=[z3.Select(z3.Select(r, nm), e)]))
    return r


KI = Contract("Relation::incorporate", "Relation::incorporate",
    pre=lambda c: [("a generator is given", c.args[0] != 0), ("the tuple is new", Not(inn(c.this0.rdata, raw(c.args[1])))), ("one entity per domain", vlen(raw(c.args[1])) == vlen(raw(c.this0.rdoms))), ("the domains are consistent", doms_ok(c.ex, c.st0, raw(c.this0.rdoms)))],
    assign={"rdata": lambda c: put(c.this0.rdata, raw(c.args[1]), raw(c.args[2])), "rment": inc_ment}, modifies=["rdata", "rment", "rcl", "rhyp", "rin"], effect=inc_effect, post=inc_post)
KU = Contract("Relation::unincorporate", "Relation::unincorporate",
    pre=lambda c: [("the tuple is stored", inn(c.this0.rdata, raw(c.args[0]))), ("one entity per domain", vlen(raw(c.args[0])) == vlen(raw(c.this0.rdoms)))],
    assign={"rdata": lambda c: drop(c.this0.rdata, raw(c.args[0])), "rment": uninc_ment}, modifies=["rdata", "rment", "rhyp", "rin"],
    post=lambda c: [("definition", q) for q in ment_def(raw(c.this0.rdoms), domh(c.ex, c.st0, "name"), raw(c.args[0]))])
for k in (KI, KU):
    CONTRACTS[k.name] = k
ALL = list(CONTRACTS)
