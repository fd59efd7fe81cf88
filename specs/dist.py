"""Component models: contracts of the sufficient-statistics distributions."""
from spec import *
from z3 import Or
import util_math as _um
LN, EXPF, SUMV, LG = _um.LN, _um.EXPF, _um.SUMV, _um.LG

BB, DC, NO, ZM = "distributions/beta_bernoulli.cc", "distributions/dirichlet_categorical.cc", "distributions/normal.cc", "distributions/zero_mean_normal.cc"


def same_all(x, a, b, msg, kind="frame"):
    """two snapshots of one object agree field by field"""
    for f, ft in rec_fields(a.ty):
        u, v = raw(getattr(a, f)), raw(getattr(b, f))
        if not u.eq(v):
            for g in expand_eq(z3.simplify(u), z3.simplify(v)):
                x.check(g, "%s: %s" % (msg, f), kind)


def snap(x, p):
    return View(x.ex, x.ex.load(x.st, p), p.t)


# every family is described once: class, file, type of an observation, valid states, valid observations, statistics
class Fam:
    def __init__(self, cls, file, xt, inv, okx=None, stats=(), okw=None, score_ok=None, extra=()):
        self.cls, self.file, self.xt, self.inv, self.okx, self.stats = cls, file, xt, inv, okx or (lambda c, v: []), stats
        self.okw = okw or (lambda c, v, w: [])
        self.score_ok = score_ok or (lambda c: [])
        self.files = [file] + list(extra)


FAMS = [
    Fam("BetaBernoulli", BB, "bool", lambda c: [c.alpha > 0, c.beta > 0, c.s >= 0, c.N >= c.s], stats=["N", "s"]),
    Fam("DirichletCategorical", DC, "int",
        lambda c: [c.alpha > 0, c.counts.len >= 1, c.N >= 0, ForAll(I, lambda i: Implies(And(0 <= i, i < c.counts.len), c.counts[i] >= 0))],
        okx=lambda c, v: [v >= 0, v < c.counts.len], stats=["N", "counts"]),
    Fam("ZeroMeanNormal", ZM, "double", lambda c: [c.alpha > 0, c.beta > 0, c.N >= 0, c.var >= 0, Implies(c.N == 0, c.var == 0)], stats=["N", "var"]),
    Fam("Normal", NO, "double", lambda c: [c.r > 0, c.v > 0, c.s > 0, c.N >= 0, c.var >= 0, Implies(c.N == 0, And(c.mean == 0, c.var == 0))], stats=["N", "mean", "var"]),
]


def reg(fam):
    K, T = fam.cls, fam.xt
    kinc = Contract(K + "::incorporate", K + "::incorporate",
        pre=lambda c: [("valid state", And(*fam.inv(c.this0)))] + [("valid observation", g) for g in fam.okx(c.this0, c.args[0])] + [("total weight stays >= 0", c.this0.N + c.args[1] >= 0)],
        post=lambda c: [("N grows by the weight", c.this.N == c.this0.N + c.args[1])],
        modifies=fam.stats)

    @unit(K + "::incorporate adds the weight and keeps the hyperparameters", fam.files, "C03", funcs=[K + "::incorporate"])
    def _(x):
        prove_body(x, kinc, x.obj(K), [x.val(T, "x"), x.val("double", "w")])

    @unit(K + ": removing an absorbed observation restores the model", fam.files, "C03", funcs=[K + "::incorporate", "Distribution<%s>::unincorporate" % T])
    def _(x):
        p = x.obj(K)
        c = snap(x, p)
        v = x.val(T, "x")
        x.assume(*fam.inv(c), *fam.okx(c, v))
        x.call(K + "::incorporate", p, [v, z3.RealVal(1)])
        x.reach("state")
        x.call("Distribution<%s>::unincorporate" % T, p, [v])
        same_all(x, snap(x, p), c, "remove undoes add", "post")

    @unit(K + ": a weighted observation is undone by the opposite weight", fam.files, "C03", funcs=[K + "::incorporate"])
    def _(x):
        p = x.obj(K)
        c = snap(x, p)
        v, w = x.val(T, "x"), x.val("double", "w")
        x.assume(*fam.inv(c), *fam.okx(c, v), w > 0)
        x.call(K + "::incorporate", p, [v, w])
        x.call(K + "::incorporate", p, [v, -w])
        same_all(x, snap(x, p), c, "remove undoes add", "post")

    if K != "Normal":
     @unit(K + ": observations absorbed in either order give the same statistics", fam.files, "C03", funcs=[K + "::incorporate"])
     def _(x):
        p, q = x.obj(K), x.obj(K, "other")
        c = snap(x, p)
        x.ex.store(x.st, q, x.ex.load(x.st, p))
        a, b, wa, wb = x.val(T, "a"), x.val(T, "b"), x.val("double", "wa"), x.val("double", "wb")
        x.assume(*fam.inv(c), *fam.okx(c, a), *fam.okx(c, b), wa > 0, wb > 0)
        x.call(K + "::incorporate", p, [a, wa])
        x.call(K + "::incorporate", p, [b, wb])
        x.call(K + "::incorporate", q, [b, wb])
        x.call(K + "::incorporate", q, [a, wa])
        same_all(x, snap(x, p), snap(x, q), "order does not matter", "post")

    @unit(K + ": absorbing twice equals absorbing once with the summed weight", fam.files, "C03", funcs=[K + "::incorporate"])
    def _(x):
        p, q = x.obj(K), x.obj(K, "other")
        c = snap(x, p)
        x.ex.store(x.st, q, x.ex.load(x.st, p))
        a, wa, wb = x.val(T, "a"), x.val("double", "wa"), x.val("double", "wb")
        x.assume(*fam.inv(c), *fam.okx(c, a), wa > 0, wb > 0)
        x.call(K + "::incorporate", p, [a, wa])
        x.call(K + "::incorporate", p, [a, wb])
        x.call(K + "::incorporate", q, [a, wa + wb])
        same_all(x, snap(x, p), snap(x, q), "weights add", "post")

    @unit(K + "::logp is the change of logp_score", fam.files + ["util_math.cc"], "C04", funcs=[K + "::logp", K + "::logp_score", K + "::incorporate"], contracts=["Normal::posterior_hypers"] if K == "Normal" else [])
    def _(x):
        p = x.obj(K)
        c = snap(x, p)
        v = x.val(T, "x")
        x.assume(*fam.inv(c), *fam.okx(c, v))
        s0 = x.call(K + "::logp_score", p)
        lp = x.call(K + "::logp", p, [v])
        same_all(x, snap(x, p), c, "asking for a probability or score changes nothing")
        x.ex.store(x.st, p, c.t)   # proved equal just above
        x.call(K + "::incorporate", p, [v, z3.RealVal(1)])
        s1 = x.call(K + "::logp_score", p)
        x.check(lp == s1 - s0, "logp(x) = logp_score after - logp_score before")

    @unit(K + "::sample leaves the model unchanged", fam.files + ["util_math.cc"], "C05", funcs=[K + "::sample"], contracts=["Normal::posterior_hypers"] if K == "Normal" else [])
    def _(x):
        p = x.obj(K)
        c = snap(x, p)
        x.assume(*fam.inv(c))
        x.call(K + "::sample", p, [x.val("int", "prng")])
        same_all(x, snap(x, p), c, "sampling changes nothing")


NOF = FAMS[3]
k_no_inc = Contract("Normal::incorporate", "Normal::incorporate",
    pre=lambda c: [("valid state", And(*NOF.inv(c.this0))), ("total weight stays >= 0", c.this0.N + c.args[1] >= 0)],
    post=lambda c: [("N grows by the weight", c.this.N == c.this0.N + c.args[1]),
        ("weighted sum of the values", Implies(c.this.N != 0, c.this.N * c.this.mean == c.this0.N * c.this0.mean + c.args[1] * c.args[0])),
        ("weighted sum of squares", Implies(c.this.N != 0, c.this.N * (c.this.var + c.this.mean * c.this.mean) == c.this0.N * (c.this0.var + c.this0.mean * c.this0.mean) + c.args[1] * c.args[0] * c.args[0])),
        ("adding weight keeps the variance >= 0", Implies(And(c.this0.var >= 0, c.args[1] >= 0), c.this.var >= 0)),
        ("an empty model has zero statistics", Implies(c.this.N == 0, And(c.this.mean == 0, c.this.var == 0)))],
    modifies=["N", "mean", "var"])

k_no_post = Contract("Normal::posterior_hypers", "Normal::posterior_hypers",
    pre=lambda c: [("valid state", And(c.this0.r > 0, c.this0.N >= 0))],
    post=lambda c: [("posterior mean", c.out[0] == (c.this0.r * c.this0.m + c.this0.N * c.this0.mean) / (c.this0.r + c.this0.N)),
        ("posterior scale", c.out[1] == c.this0.s + c.this0.N * c.this0.var + c.this0.r * c.this0.N * (c.this0.m - c.this0.mean) * (c.this0.m - c.this0.mean) / (c.this0.r + c.this0.N)),
        ("posterior scale >= s when var >= 0", Implies(c.this0.var >= 0, c.out[1] >= c.this0.s))],
    outs=[0, 1])
CONTRACTS = dict(_um.CONTRACTS)
CONTRACTS.update({k.name: k for k in (k_no_inc, k_no_post)})


@unit("Normal::incorporate tracks the first two moments", [NO], "C03", funcs=["Normal::incorporate"])
def _(x):
    prove_body(x, k_no_inc, x.obj("Normal"), [x.val("double", "x"), x.val("double", "w")])


@unit("Normal::posterior_hypers is the conjugate update", [NO], "C04 C05", funcs=["Normal::posterior_hypers"])
def _(x):
    prove_body(x, k_no_post, x.obj("Normal"), [x.out("double", "mp"), x.out("double", "sp")])


@unit("Normal: observations absorbed in either order give the same statistics", [NO], "C03", funcs=["Normal::incorporate"], contracts=["Normal::incorporate"])
def _(x):
    p, q = x.obj("Normal"), x.obj("Normal", "other")
    c = snap(x, p)
    x.ex.store(x.st, q, x.ex.load(x.st, p))
    a, b, wa, wb = x.val("double", "a"), x.val("double", "b"), x.val("double", "wa"), x.val("double", "wb")
    x.assume(*NOF.inv(c), wa > 0, wb > 0)
    for o, l in ((p, ((a, wa), (b, wb))), (q, ((b, wb), (a, wa)))):
        for v, w in l:
            x.call("Normal::incorporate", o, [v, w])
            x.check(snap(x, o).var >= 0, "variance stays >= 0")
    s, t = snap(x, p), snap(x, q)
    x.check(s.N == t.N, "order does not matter: N")
    x.check(s.N * s.mean == t.N * t.mean, "order does not matter: sum")
    x.check(s.mean == t.mean, "order does not matter: mean")
    x.check(s.N * (s.var + s.mean * s.mean) == t.N * (t.var + t.mean * t.mean), "order does not matter: sum of squares")
    x.check(s.var == t.var, "order does not matter: var")


for f in FAMS:
    reg(f)



# ---- hyperparameter moves (C06)
def hyper_inv(x, p, K, fields, valid):
    """loop invariant for grid searches: two vectors grow together, every recorded score is logp_score under the recorded setting"""
    ex = x.ex

    def hook(L, node, st0, s, j, N, rng, havoc):
        vecs = [h for h in havoc if h[0] == "e" and is_vec(L.get_leaf(s, h).sort())]
        wl = [h for h in vecs if L.get_leaf(s, h).sort() == sort(x.type("vector<double>"))]
        hl = [h for h in vecs if h not in wl]
        if len(wl) != 1 or len(hl) != 1:
            return None

        def inv(stt, t):
            w, h = L.get_leaf(stt, wl[0]), L.get_leaf(stt, hl[0])
            q = fresh("q", I)
            tup = select(varr(h), q)

            def score():
                s2 = stt.copy()
                o = ex.load(s2, p)
                for i, f in enumerate(fields):
                    o = upd(o, ex.field_idx(p.t, f), sel(tup, i))
                ex.store(s2, p, o)
                nf = len(ex.facts)
                r = ex.call(K + "::logp_score", p, [], s2)
                del ex.facts[nf:]
                return r
            sc = x.quiet(score)
            vs = [sel(tup, i) for i in range(len(fields))]
            return [("same length", And(vlen(w) == vlen(h), vlen(w) >= 0)),
                    ("at least one setting per iteration", vlen(w) >= vlen(L.get_leaf(st0, wl[0])) + t),
                    ("each score is logp_score under its setting", z3.ForAll([q], Implies(And(0 <= q, q < vlen(w)), And(select(varr(w), q) == sc, *valid(vs)))))]
        return inv
    return hook


def c06(K, file, fields, valid, inv, stats, extra_assume=lambda c: [], opts=None, contracts=("sample_from_logps",), post=None):
    @unit(K + "::transition_hyperparameters scores each setting by logp_score and ends in one of them", [file, "util_math.cc"], "C06", funcs=[K + "::transition_hyperparameters", K + "::logp_score"], contracts=list(contracts), opts=dict(opts or {}, havoc_ok=True))
    def _(x):
        p = x.obj(K)
        c = snap(x, p)
        x.assume(*inv(c), *extra_assume(c))
        x.ex.loop_inv = hyper_inv(x, p, K, fields, valid)
        x.call(K + "::transition_hyperparameters", p, [x.val("int", "prng")])
        d = snap(x, p)
        cv = x.lastcall("sample_from_logps")
        x.check(cv.args[0].len > 0, "at least one candidate")
        for f, ft in rec_fields(c.ty):
            if f not in fields:
                for g in expand_eq(z3.simplify(raw(getattr(d, f))), z3.simplify(raw(getattr(c, f)))):
                    x.check(g, "the move keeps " + f, "frame")
        for g in valid([raw(getattr(d, f)) for f in fields]):
            x.check(g, "hyperparameters stay valid")
        sc = x.quiet(lambda: x.call(K + "::logp_score", p))
        x.check(select(varr(cv.args[0].t), cv.ret) == sc, "the weight of the chosen setting is logp_score under exactly that setting")


c06("BetaBernoulli", BB, ["alpha", "beta"], lambda v: [v[0] > 0, v[1] > 0], FAMS[0].inv, [],
    extra_assume=lambda c: [c.alpha_grid.len >= 1, c.beta_grid.len >= 1] + [ForAll(I, lambda i: Implies(And(0 <= i, i < g.len), g[i] > 0)) for g in (c.alpha_grid, c.beta_grid)])
c06("DirichletCategorical", DC, ["alpha"], lambda v: [v[0] > 0], FAMS[1].inv, [])
c06("ZeroMeanNormal", ZM, ["alpha", "beta"], lambda v: [v[0] > 0, v[1] > 0], FAMS[2].inv, [], opts={"unroll": 0})
c06("Normal", NO, ["r", "v", "m", "s"], lambda v: [v[0] > 0, v[1] > 0, v[3] > 0], FAMS[3].inv, [], opts={"unroll": 0})


@unit("BetaBernoulli starts with a positive grid and no data", [BB, "util_math.cc"], "C03 C06", funcs=["BetaBernoulli::BetaBernoulli"], contracts=["log_linspace"])
def _(x):
    p = x.obj("BetaBernoulli")
    f = x.prog.find("BetaBernoulli::BetaBernoulli", 0)
    x.ex.run_ctor(f, p.t, p, [], x.st)
    c = snap(x, p)
    for g, n in ((c.alpha_grid, "alpha"), (c.beta_grid, "beta")):
        x.check(And(g.len >= 1, ForAll(I, lambda i: Implies(And(0 <= i, i < g.len), g[i] > 0))), n + " grid is not empty and positive")
    x.check(And(c.N == 0, c.s == 0, c.alpha > 0, c.beta > 0), "no data, valid hyperparameters")


# ---- predictive probabilities and samples (C05)
def prob(x, K, p, v):
    return x.quiet(lambda: EXPF(x.call(K + "::logp", p, [v])))


def catlaw(K, fam, files, nvals, outcomes):
    """sample() returns value v with probability proportional to exp(logp(v)), over all values"""
    @unit(K + "::sample draws value v with probability proportional to exp(logp(v))", files, "C05", funcs=[K + "::sample", K + "::logp"], contracts=["choice", "log_choice", "sample_from_logps"])
    def _(x):
        p = x.obj(K)
        c = snap(x, p)
        x.assume(*fam.inv(c))
        r = x.call(K + "::sample", p, [x.val("int", "prng")])
        logs, w, n, d = x.drawlaw()
        x.check(n == nvals(c), "one weight per value")
        i, j = x.val("int", "i"), x.val("int", "j")
        x.assume(0 <= i, i < n, 0 <= j, j < n)
        r = z3.simplify(r)
        val = lambda q: z3.simplify(z3.substitute(r, (d, q)))
        vi, vj = val(i), val(j)
        x.check(outcomes(c, vi), "every drawn value is a possible observation")
        x.check(Implies(i != j, vi != vj), "different indices give different values")
        li, lj = x.quiet(lambda: x.call(K + "::logp", p, [vi])), x.quiet(lambda: x.call(K + "::logp", p, [vj]))
        if logs:
            x.check(w(i) - w(j) == li - lj, "log weights follow logp")
        else:
            x.check(w(i) * EXPF(lj) == w(j) * EXPF(li), "weights follow exp(logp)")
            x.check(w(i) >= 0, "weights are not negative")


catlaw("BetaBernoulli", FAMS[0], [BB, "util_math.cc"], lambda c: z3.IntVal(2), lambda c, v: z3.BoolVal(True))
catlaw("DirichletCategorical", FAMS[1], [DC, "util_math.cc"], lambda c: c.counts.len, lambda c, v: And(0 <= v, v < c.counts.len))


@unit("BetaBernoulli: the two predictive probabilities sum to one", [BB, "util_math.cc"], "C05", funcs=["BetaBernoulli::logp"])
def _(x):
    p = x.obj("BetaBernoulli")
    x.assume(*FAMS[0].inv(snap(x, p)))
    t, f = (x.call("BetaBernoulli::logp", p, [z3.BoolVal(b)]) for b in (True, False))
    x.check(EXPF(t) + EXPF(f) == 1, "exp(logp(true)) + exp(logp(false)) = 1")


def dc_sum(c):
    return SUMV(lambda i: c.counts[i], z3.IntVal(0), c.counts.len) == c.N


@unit("DirichletCategorical: the predictive probabilities sum to one", [DC, "util_math.cc"], "C05", funcs=["DirichletCategorical::logp"])
def _(x):
    p = x.obj("DirichletCategorical")
    c = snap(x, p)
    v = x.val("int", "v")
    x.assume(*FAMS[1].inv(c), dc_sum(c), 0 <= v, v < c.counts.len)
    l = x.call("DirichletCategorical::logp", p, [v])
    den = c.N + c.alpha * z3.ToReal(c.counts.len)
    x.check(EXPF(l) == (c.alpha + c.counts[v]) / den, "P(v) = (alpha + count of v) / (N + k alpha)")
    x.check(SUMV(lambda i: (c.alpha + c.counts[i]) / den, z3.IntVal(0), c.counts.len) == 1, "these sum to one over the k values")


@unit("DirichletCategorical: N is the sum of the counts", [DC, "util_math.cc"], "C03 C05", funcs=["DirichletCategorical::incorporate"])
def _(x):
    p = x.obj("DirichletCategorical")
    c = snap(x, p)
    v = x.val("int", "v")
    x.assume(*FAMS[1].inv(c), dc_sum(c), 0 <= v, v < c.counts.len)
    x.call("DirichletCategorical::incorporate", p, [v, x.val("double", "w")])
    x.check(dc_sum(snap(x, p)), "N = sum of counts after incorporate")


def log_t(y, nu, var):
    """log density of the Student-t with nu degrees of freedom and squared scale var"""
    pi = z3.RealVal("314159265358979323851/100000000000000000000")
    return LG((nu + 1) / 2) - LG(nu / 2) - LN(nu * pi * var) / 2 - (nu + 1) / 2 * LN(1 + y * y / (nu * var))


@unit("ZeroMeanNormal: the predictive is the Student-t of the posterior", [ZM, "util_math.cc"], "C05", funcs=["ZeroMeanNormal::logp"])
def _(x):
    p = x.obj("ZeroMeanNormal")
    c = snap(x, p)
    v = x.val("double", "v")
    x.assume(*FAMS[2].inv(c))
    a, b = c.alpha + c.N / 2, c.beta + c.N * c.var / 2
    x.check(x.call("ZeroMeanNormal::logp", p, [v]) == log_t(v, 2 * a, b / a), "logp is the t density with 2(alpha+N/2) degrees of freedom and scale^2 (beta+N var/2)/(alpha+N/2)")


@unit("Normal: the predictive is the Student-t of the posterior", [NO, "util_math.cc"], "C05", funcs=["Normal::logp"], contracts=["Normal::posterior_hypers"])
def _(x):
    p = x.obj("Normal")
    c = snap(x, p)
    v = x.val("double", "v")
    x.assume(*NOF.inv(c))
    lp = x.call("Normal::logp", p, [v])
    rn, nu = c.r + c.N, c.v + c.N
    m = (c.r * c.m + c.N * c.mean) / rn
    s = c.s + c.N * c.var + c.r * c.N * (c.m - c.mean) * (c.m - c.mean) / rn
    ks = [k for n, k in x.ex.calls if n == "Normal::posterior_hypers"]
    x.shape(len(ks) == 2, "posterior before and after absorbing the value")
    s1, s2 = ks[0].out[1], ks[1].out[1]
    y = v - m
    x.lemma(s1 == s, "scale before")
    x.lemma(rn > 0, "rn > 0")
    x.lemma(s > 0, "s > 0")
    S, RN = x.define("scale", s), x.define("rn", rn)
    Q = x.define("Q", 1 + y * y * RN / (S * (RN + 1)))
    var = s * (rn + 1) / (rn * nu)
    x.lemma(S > 0, "scale > 0")
    x.lemma(Q > 0, "Q > 0")
    x.lemma(s2 == S * Q, "scale after")
    x.lemma(1 + y * y / (nu * var) == Q, "t argument")
    x.lemma(LN(S * Q) == LN(S) + LN(Q), "ln of a product")
    x.lemma(LN(s2) == LN(S) + LN(Q), "ln of the scale after")
    x.lemma(LN(s1) == LN(S), "ln of the scale before")
    pi = z3.RealVal("314159265358979323851/100000000000000000000")
    R1, V = x.define("rn1", rn + 1), x.define("V", nu * pi * var)
    x.lemma(R1 > 0, "rn + 1 > 0")
    x.lemma(V == pi * S * R1 / RN, "t scale")
    x.lemma(LN(pi * S * R1 / RN) == LN(pi) + LN(S) + LN(R1) - LN(RN), "ln of a product")
    x.lemma(LN(nu * pi * var) == LN(V), "ln of the t scale")
    x.lemma(LN(V) == LN(pi) + LN(S) + LN(R1) - LN(RN), "ln of the t scale, expanded")
    x.lemma(LN(1 + y * y / (nu * var)) == LN(Q), "ln of the t argument")
    x.lemma(And(LN(rn) == LN(RN), LN(rn + 1) == LN(R1)), "ln of the weights")
    x.check(lp == log_t(v - m, nu, s * (rn + 1) / (rn * nu)), "logp is the t density of the normal-inverse-gamma posterior")


@unit("Normal::sample draws precision, mean and value from the posterior", [NO, "util_math.cc"], "C05", funcs=["Normal::sample"], contracts=["Normal::posterior_hypers"])
def _(x):
    p = x.obj("Normal")
    c = snap(x, p)
    x.assume(*NOF.inv(c))
    r = x.call("Normal::sample", p, [x.val("int", "prng")])
    ds = x.st.draws
    x.shape(len(ds) == 3 and [d[1] for d in ds] == ["gamma_distribution", "normal_distribution", "normal_distribution"], "gamma, normal, normal draws")
    rn, nu = c.r + c.N, c.v + c.N
    m = (c.r * c.m + c.N * c.mean) / rn
    s = c.s + c.N * c.var + c.r * c.N * (c.m - c.mean) * (c.m - c.mean) / rn
    (sh, sc), (m1, d1), (m2, d2) = [d[2] for d in ds]
    rho, mu = ds[0][3], ds[1][3]
    x.check(sh == nu / 2, "precision ~ gamma, shape")
    x.check(sc == 2 / s, "precision ~ gamma, scale")
    x.check(m1 == m, "mean ~ normal, mean")
    x.check(And(d1 > 0, d1 * d1 * rho * rn == 1), "mean ~ normal, deviation")
    x.check(m2 == mu, "value ~ normal, mean")
    x.check(And(d2 > 0, d2 * d2 * rho == 1), "value ~ normal, deviation")
    x.check(r == ds[2][3], "the value drawn is returned")


# ZeroMeanNormal::sample uses the scale (beta + N var)/(alpha + N/2): recorded as a known finding (known_findings.txt, zmn-sample-scale);
# a stable test of the repository fixes that scale.  Anything other than that scale or the right one is a violation.
@unit("ZeroMeanNormal::sample draws a scaled Student-t", [ZM, "util_math.cc"], "C05", funcs=["ZeroMeanNormal::sample"])
def _(x):
    p = x.obj("ZeroMeanNormal")
    c = snap(x, p)
    x.assume(*FAMS[2].inv(c))
    r = x.call("ZeroMeanNormal::sample", p, [x.val("int", "prng")])
    ds = x.st.draws
    x.shape(len(ds) == 1 and ds[0][1] == "student_t_distribution", "one Student-t draw")
    a = c.alpha + c.N / 2
    x.check(ds[0][2][0] == 2 * a, "degrees of freedom 2(alpha + N/2)")
    t = ds[0][3]
    x.check(Or(*[r * r * a == t * t * b for b in (c.beta + c.N * c.var / 2, c.beta + c.N * c.var)]), "scale^2 (beta + N var/2)/(alpha + N/2), or the recorded finding's")
    x.check(r * t >= 0, "sign of the draw is kept")
