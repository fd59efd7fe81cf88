"""Entity encodings (C17)."""
from spec import *
from vc import Ref, Opaque, Place, PtrTo
from sorts import an_

FILES = ["util_io.cc", "irm.cc", "hirm.cc", "relation.cc"]
CONTRACTS = {}


def FA(ss, f, pat=None):
    vs = [fresh("q", s) for s in ss]
    b = f(*vs)
    return z3.ForAll(vs, b, patterns=[pat(*vs)] if pat else [])


def fld(t, n):
    return [f for f, _ in rec_fields(t)].index(n)


def domains_of(rt, v):
    """the domains of a relation of a schema: of whichever alternative is active"""
    a, b = rt.args
    return z3.If(sel(v, 0) == 0, sel(sel(v, 1), fld(a, "domains")), sel(sel(v, 2), fld(b, "domains")))


def both(m, d, s):
    return z3.If(inn(m, d), inn(oval(z3.Select(m, d)), s), z3.BoolVal(False))


def code(m, d, s):
    return oval(z3.Select(oval(z3.Select(m, d)), s))


def pos_facts(L, dv, j):
    kk = fresh("k", dv.sort().domain())
    L.facts.append(z3.ForAll([kk], z3.Implies(z3.And(inn(dv, kk), POS(dv, kk) == j), kk == EN(dv)[j]), patterns=[POS(dv, kk)]))


def fn_(x, n):
    return [f for f in x.prog.funcs.values() if f.sname == n][0]


@unit("calculate_encoding pairs every entity of a domain with one code", FILES, "C17", funcs=["calculate_encoding"], opts=dict(havoc_ok=True))
def _(x):
    ex = x.ex
    f = fn_(x, "calculate_encoding")
    S = x.obj(f.params[0]["t"].deref(), "schema")
    O = x.obj(f.params[1]["t"].deref(), "observations")
    sm, om = x.view(S).t, x.view(O).t
    rt = f.params[0]["t"].deref().args[1]
    ks = sm.sort().domain()
    ets = sort(f.rt.deref())
    fs, rs = ets.accessor(0, 0).range(), ets.accessor(0, 1).range()
    cnts = z3.simplify(oval(z3.Select(z3.Const("_", fs), z3.Const("_k", ks)))).sort()

    def dom(k):
        return domains_of(rt, oval(z3.Select(sm, k)))

    def obs(k):
        return oval(z3.Select(om, k))

    def items(k, q):
        return sel(select(varr(obs(k)), q), 0)
    # every observation belongs to a relation of the schema and names at most one entity per domain
    x.assume(FA([ks], lambda k: Implies(inn(om, k), inn(sm, k)), lambda k: z3.Select(om, k)),
             FA([ks], lambda k: Implies(inn(sm, k), And(0 <= sel(oval(z3.Select(sm, k)), 0), sel(oval(z3.Select(sm, k)), 0) < 2)), lambda k: z3.Select(sm, k)),
             FA([ks, I], lambda k, q: Implies(And(inn(om, k), 0 <= q, q < vlen(obs(k))), And(0 <= vlen(items(k, q)), vlen(items(k, q)) <= vlen(dom(k)))), lambda k, q: select(varr(obs(k)), q)))
    d, s, c, k, q, i = fresh("d", ks), fresh("s", ks), fresh("c", I), fresh("k", ks), fresh("q", I), fresh("i", I)

    def leaf(L, st, srt):
        ls = [k_ for k_, v in L.leaves(st).items() if k_[0] == "e" and v.sort() == srt]
        return ls

    def bij(F_, R, C):
        return [("the domains of both directions agree", z3.ForAll([d], And(inn(F_, d) == inn(R, d), inn(F_, d) == inn(C, d)))),
                ("codes count up", z3.ForAll([d], Implies(inn(C, d), oval(z3.Select(C, d)) >= 0))),
                ("a code decodes to its entity", z3.ForAll([d, s], Implies(both(F_, d, s), And(0 <= code(F_, d, s), code(F_, d, s) < oval(z3.Select(C, d)), both(R, d, code(F_, d, s)), code(R, d, code(F_, d, s)) == s)), patterns=[z3.Select(oval(z3.Select(F_, d)), s)] if z3.is_const(F_) else [])),
                ("an entity encodes to its code", z3.ForAll([d, c], Implies(both(R, d, c), And(0 <= c, c < oval(z3.Select(C, d)), both(F_, d, code(R, d, c)), code(F_, d, code(R, d, c)) == c)), patterns=[z3.Select(oval(z3.Select(R, d)), c)] if z3.is_const(R) else []))]

    def empty(F_, R, C):
        return [("the domains of both directions agree", z3.ForAll([d], And(inn(F_, d) == inn(R, d), inn(F_, d) == inn(C, d)))),
                ("no codes yet", z3.ForAll([d], Implies(inn(C, d), oval(z3.Select(C, d)) == 0))),
                ("no entity yet", z3.ForAll([d, s], Not(both(F_, d, s)))),
                ("no name yet", z3.ForAll([d, c], Not(both(R, d, c))))]

    phase = {}

    def hook(L, node, st_, s0, j, N, rng, havoc):
        if rng is None:
            return None
        dv = L.load(s0, rng[0])
        keys = {}
        for n_, srt in (("F", fs), ("R", rs), ("C", cnts)):
            ls = leaf(L, s0, srt)
            x.shape(len(ls) == 1, "one map of each kind")
            keys[n_] = ls[0]
        g = lambda stt: tuple(L.get_leaf(stt, keys[n_]) for n_ in "FRC")
        F0, R0, C0 = g(st_)
        depth = len(L.itervars)
        outer = [v for _, v in L.itervars]
        if depth == 0:
            dv = L.alias(dv)
            pos_facts(L, dv, j)
            if dv.sort() == sm.sort():
                phase["now"] = "schema"
                return lambda stt, t: empty(*g(stt)) + [("the domains so far are known", z3.ForAll([k, i], Implies(And(inn(dv, k), POS(dv, k) < t, 0 <= i, i < vlen(dom(k))), inn(g(stt)[0], select(varr(dom(k)), i)))))]
            x.shape(dv.sort() == om.sort(), "observations loop")
            phase["now"] = "obs"
        if phase["now"] == "schema":
            kk = EN(sm)[outer[-1]]
            return lambda stt, t: empty(*g(stt)) + [("domains stay", z3.ForAll([d], Implies(inn(F0, d), inn(g(stt)[0], d)))),
                                                    ("the relation's domains so far are known", z3.ForAll([i], Implies(And(0 <= i, i < t), inn(g(stt)[0], select(varr(dom(kk)), i)))))]

        def inv(stt, t):
            F_, R, C = g(stt)
            out = bij(F_, R, C) + [("domains stay", z3.ForAll([d], inn(F_, d) == inn(F0, d))),
                                   ("codes stay", z3.ForAll([d, s], Implies(both(F0, d, s), both(F_, d, s)), patterns=[z3.Select(oval(z3.Select(F_, d)), s)] if z3.is_const(F_) else []))]
            if depth == 0:
                out.append(("the entities of the relations so far have codes", z3.ForAll([k, q, i], Implies(And(inn(dv, k), POS(dv, k) < t, 0 <= q, q < vlen(obs(k)), 0 <= i, i < vlen(items(k, q))), both(F_, select(varr(dom(k)), i), select(varr(items(k, q)), i))))))
            elif depth == 1:
                kk = EN(om)[outer[0]]
                out.append(("the entities of the observations so far have codes", z3.ForAll([q, i], Implies(And(0 <= q, q < t, 0 <= i, i < vlen(items(kk, q))), both(F_, select(varr(dom(kk)), i), select(varr(items(kk, q)), i))))))
            else:
                kk = EN(om)[outer[0]]
                out.append(("the entities so far have codes", z3.ForAll([i], Implies(And(0 <= i, i < t), both(F_, select(varr(dom(kk)), i), select(varr(items(kk, outer[1])), i))))))
            return out
        return inv
    ex.loop_inv = hook
    r = raw(x.call("calculate_encoding", None, [Ref(S), Ref(O)]))
    x.reach("calculate_encoding returns")
    F_, R = sel(r, 0), sel(r, 1)
    x.check(Implies(And(inn(om, k), 0 <= q, q < vlen(obs(k)), 0 <= i, i < vlen(items(k, q))), both(F_, select(varr(dom(k)), i), select(varr(items(k, q)), i))), "every observed entity has a code in its domain")
    x.check(Implies(both(F_, d, s), And(both(R, d, code(F_, d, s)), code(R, d, code(F_, d, s)) == s)), "decoding a code gives back the entity")
    x.check(Implies(both(R, d, c), And(both(F_, d, code(R, d, c)), code(F_, d, code(R, d, c)) == c)), "encoding a name gives back its code")


@unit("encode_observations replaces every entity by its code", FILES, "C17", funcs=["encode_observations"], opts=dict(havoc_ok=True))
def _(x):
    ex = x.ex
    f = fn_(x, "encode_observations")
    O = x.obj(f.params[0]["t"].deref(), "observations")
    E = x.obj(f.params[1]["t"].deref(), "encoding")
    h = x.val(f.params[2]["t"], "h_irm")
    om, F_ = x.view(O).t, sel(raw(ex.load(x.st, E)), 0)
    ks = om.sort().domain()
    x.assume(0 <= sel(h, 0), sel(h, 0) < 2, sel(h, 1) != 0, sel(h, 2) != 0)
    st0 = x.st.copy()
    hv = [x.quiet(lambda k=k: x.view(ex.deref(sel(h, k + 1), f.params[2]["t"].args[k], st0), st0).schema) for k in range(2)]
    rt = hv[0].ty.args[1]
    sm = z3.If(sel(h, 0) == 0, hv[0].t, hv[1].t)
    es = sort(f.rt.deref())

    def dom(k):
        return domains_of(rt, oval(z3.Select(sm, k)))

    def obs(k):
        return oval(z3.Select(om, k))

    def items(k, q):
        return sel(select(varr(obs(k)), q), 0)
    x.assume(FA([ks], lambda k: Implies(inn(om, k), And(inn(sm, k), *[And(0 <= sel(oval(z3.Select(m.t, k)), 0), sel(oval(z3.Select(m.t, k)), 0) < 2) for m in hv])), lambda k: z3.Select(om, k)),
             FA([ks, I], lambda k, q: Implies(And(inn(om, k), 0 <= q, q < vlen(obs(k))), And(0 <= vlen(items(k, q)), vlen(items(k, q)) <= vlen(dom(k)))), lambda k, q: select(varr(obs(k)), q)),
             FA([ks, I, I], lambda k, q, i: Implies(And(inn(om, k), 0 <= q, q < vlen(obs(k)), 0 <= i, i < vlen(items(k, q))), both(F_, select(varr(dom(k)), i), select(varr(items(k, q)), i))), lambda k, q, i: select(varr(items(k, q)), i)))
    x.assume(FA([ks], lambda k: Implies(inn(om, k), vlen(obs(k)) >= 0), lambda k: z3.Select(om, k)))
    d, k, q, i = fresh("d", ks), fresh("k", ks), fresh("q", I), fresh("i", I)

    def good(e, k, q):
        """the encoded observation e says what observation q of relation k says"""
        return And(vlen(sel(e, 0)) == vlen(items(k, q)), sel(e, 1) == sel(select(varr(obs(k)), q), 1),
                   z3.ForAll([i], Implies(And(0 <= i, i < vlen(items(k, q))), select(varr(sel(e, 0)), i) == code(F_, select(varr(dom(k)), i), select(varr(items(k, q)), i)))))

    GOOD = z3.Function("ENCODES", sel(select(varr(oval(z3.Select(z3.Const("_e", es), k))), q), 0).sort(), sel(select(varr(oval(z3.Select(z3.Const("_e", es), k))), q), 1).sort(), ks, I, B)

    def hook(L, node, st_, s0, j, N, rng, havoc):
        if rng is None:
            return None
        ls = [k_ for k_, v in L.leaves(s0).items() if k_[0] == "e" and v.sort() == es]
        x.shape(len(ls) == 1, "one encoded map")
        g = lambda stt: L.get_leaf(stt, ls[0])
        outer = [v for _, v in L.itervars]
        if not outer:
            dv = L.alias(L.load(s0, rng[0]))
            pos_facts(L, dv, j)
            done = lambda k, t: And(inn(dv, k), POS(dv, k) < t)
            return lambda stt, t: [("the relations so far", z3.ForAll([k], inn(g(stt), k) == And(done(k, t), vlen(obs(k)) > 0))),
                                   ("all their observations", z3.ForAll([k], Implies(inn(g(stt), k), vlen(oval(z3.Select(g(stt), k))) == vlen(obs(k))))),
                                   ("encoded", z3.ForAll([k, q], Implies(And(inn(g(stt), k), 0 <= q, q < vlen(obs(k))), good(select(varr(oval(z3.Select(g(stt), k))), q), k, q))))]
        if len(outer) == 1:
            kk = EN(om)[outer[0]]
            m0 = g(st_)
            return lambda stt, t: [("other relations stay", z3.ForAll([k], Implies(k != kk, z3.Select(g(stt), k) == z3.Select(m0, k)))),
                                   ("this relation once it has an observation", inn(g(stt), kk) == (t > 0)),
                                   ("the observations so far", Implies(t > 0, vlen(oval(z3.Select(g(stt), kk))) == t)),
                                   ("encoded", z3.ForAll([q], Implies(And(0 <= q, q < t), good(select(varr(oval(z3.Select(g(stt), kk))), q), kk, q))))]
        return None
    ex.loop_inv = hook
    r = raw(x.call("encode_observations", None, [Ref(O), Ref(E), h]))
    x.reach("encode_observations returns")
    x.check(inn(r, k) == And(inn(om, k), vlen(obs(k)) > 0), "the relations with observations")
    x.check(Implies(inn(r, k), vlen(oval(z3.Select(r, k))) == vlen(obs(k))), "one encoded observation each")
    x.check(Implies(And(inn(r, k), 0 <= q, q < vlen(obs(k))), good(select(varr(oval(z3.Select(r, k))), q), k, q)), "with the same value and the entities' codes in order")
