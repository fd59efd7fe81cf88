"""Error models (C24): interface laws of every emission class that is within reach.

Sometimes<T>::be is an arbitrary error model known only through the interface contract of specs/absdist.py."""
from spec import *
import util_math as _um
import dist as _dist
import absdist as _ad
from dist import snap, same_all, FAMS
LN, EXPF = _um.LN, _um.EXPF

_ad.setup()
CONTRACTS = dict(_um.CONTRACTS)
CONTRACTS.update(_ad.CONTRACTS)
ABSE = [k for k in _ad.ABS if k != "Distribution::unincorporate"]
import os
GE = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine", "drivers", "inst_emis.cc")]
BBF, ZMF, DCF = "distributions/beta_bernoulli.cc", "distributions/zero_mean_normal.cc", "distributions/dirichlet_categorical.cc"


def pair(x, T, name="x"):
    return x.val("pair<%s,%s>" % (T, T), name)


def fst(v):
    return sel(v, 0)


def snd(v):
    return sel(v, 1)


# ---- a categorical component seen through its laws (each discharged from the source under C03/C04)
def dc_fn(c, name, *ss):
    return z3.Function("DC_" + name, c.this0.t.sort(), *ss)


def DCS(s):
    return z3.Function("DC_score", s, R)


def DCL(s):
    return z3.Function("DC_logp", s, I, R)


def DCI(s):
    return z3.Function("DC_absorb", s, I, R, s)


def dci(s, o, v, w):
    """the laws of absorbing, stated at this point"""
    r = DCI(s)(o, v, w)
    return r, And(Implies(w == 1, And(DCS(s)(r) == DCS(s)(o) + DCL(s)(o, v), DCI(s)(r, v, z3.RealVal(-1)) == o)))


k_dcinc = Contract("DirichletCategorical::incorporate", "DirichletCategorical::incorporate",
    pre=lambda c: [("category in range", And(0 <= c.args[0], c.args[0] < c.this0.counts.len))],
    post=lambda c: (lambda r, law: [("deterministic", c.this.t == r), ("score law and inverse", law), ("same categories", c.this.counts.len == c.this0.counts.len)])(*dci(c.this0.t.sort(), c.this0.t, c.args[0], c.args[1])),
    modifies=["N", "counts"])
k_dclogp = Contract("DirichletCategorical::logp", "DirichletCategorical::logp",
    pre=lambda c: [("category in range", And(0 <= c.args[0], c.args[0] < c.this0.counts.len))],
    value=lambda c: DCL(c.this0.t.sort())(c.this0.t, raw(c.args[0])))
k_dcscore = Contract("DirichletCategorical::logp_score", "DirichletCategorical::logp_score",
    value=lambda c: DCS(c.this0.t.sort())(c.this0.t))
k_dcsample = Contract("DirichletCategorical::sample", "DirichletCategorical::sample",
    post=lambda c: [("a category", And(0 <= c.ret, c.ret < c.this0.counts.len))])
for k in (k_dcinc, k_dclogp, k_dcscore, k_dcsample):
    CONTRACTS[k.name] = k
DCK = ["DirichletCategorical::incorporate", "DirichletCategorical::logp", "DirichletCategorical::logp_score", "DirichletCategorical::sample"]


class Em:
    def __init__(self, cls, T, files, inv=lambda c: [], okx=lambda c, v: [], contracts=(), score=True, undo=True, opts=None, conj=True):
        self.cls, self.T, self.files, self.inv, self.okx, self.contracts, self.score, self.opts = cls, T, GE + files, inv, okx, list(contracts), score, opts or {}
        self.undo, self.conj = undo, conj


def ce_inv(c):
    n = c.emission_dists.len
    return [n >= 1, ForAll(I, lambda i: Implies(And(0 <= i, i < n), c.emission_dists[i].counts.len == n))]


EMS = [
    Em("BitFlip", "bool", [], okx=lambda c, v: [fst(v) != snd(v)]),
    Em("IdentityEmission<string>", "string", []),
    Em("IdentityEmission<bool>", "bool", []),
    Em("GaussianEmission", "double", [ZMF, "util_math.cc"], inv=lambda c: FAMS[2].inv(c.zmn)),
    Em("CategoricalEmission", "int", [DCF, "util_math.cc"], inv=ce_inv, contracts=DCK,
       okx=lambda c, v: [0 <= fst(v), fst(v) < c.emission_dists.len, 0 <= snd(v), snd(v) < c.emission_dists.len]),
]


def reg(e):
    K, T = e.cls, e.T
    D = "Distribution<pair<%s,%s>>" % (T, T)

    @unit(K + ": removing an absorbed pair restores the model", e.files, "C24", funcs=[K + "::incorporate", D + "::unincorporate"], contracts=e.contracts, opts=e.opts)
    def _(x):
        p = x.obj(K)
        c = snap(x, p)
        v = pair(x, T)
        x.assume(*e.inv(c), *e.okx(c, v))
        x.call(K + "::incorporate", p, [v, z3.RealVal(1)])
        x.check(snap(x, p).N == c.N + 1, "N counts the pair")
        x.reach("state")
        x.call(D + "::unincorporate", p, [v])
        same_all(x, snap(x, p), c, "remove undoes add", "post")

    @unit(K + "::logp is the change of logp_score", e.files, "C24", funcs=[K + "::logp", K + "::logp_score", K + "::incorporate"], contracts=e.contracts, opts=e.opts)
    def _(x):
        p = x.obj(K)
        c = snap(x, p)
        v = pair(x, T)
        x.assume(*e.inv(c), *e.okx(c, v))
        s0 = x.call(K + "::logp_score", p)
        lp = x.call(K + "::logp", p, [v])
        same_all(x, snap(x, p), c, "asking for a probability or score changes nothing")
        x.ex.store(x.st, p, c.t)
        x.call(K + "::incorporate", p, [v, z3.RealVal(1)])
        s1 = x.call(K + "::logp_score", p)
        x.check(lp == s1 - s0, "logp(x) = logp_score after - logp_score before")

    @unit(K + ": corrupting and proposing leave the statistics unchanged", e.files, "C24", funcs=[K + "::sample_corrupted", K + "::propose_clean"], contracts=e.contracts, opts=dict(e.opts, havoc_ok=True))
    def _(x):
        p = x.obj(K)
        c = snap(x, p)
        v = x.val(T, "clean")
        x.assume(*e.inv(c))
        if K == "CategoricalEmission":
            x.assume(0 <= v, v < c.emission_dists.len)
        r = x.call(K + "::sample_corrupted", p, [v, x.val("int", "prng")])
        same_all(x, snap(x, p), c, "corrupting changes nothing")
        if K == "BitFlip":
            x.check(r == Not(v), "a flipped bit")
        elif K.startswith("Identity"):
            x.check(r == v, "the clean value itself")
        elif K == "CategoricalEmission":
            x.check(And(0 <= r, r < c.emission_dists.len), "a category")
        x.ex.store(x.st, p, c.t)
        q = x.val("vector<%s>" % T, "corrupted")
        x.assume(vlen(q) >= 1)
        if K == "CategoricalEmission":
            x.assume(ForAll(I, lambda i: Implies(And(0 <= i, i < vlen(q)), And(0 <= select(varr(q), i), select(varr(q), i) < c.emission_dists.len))))
            x.ex.loop_inv = argmax_hook
        r = x.call(K + "::propose_clean", p, [q, x.val("int", "prng2")])
        same_all(x, snap(x, p), c, "proposing changes nothing")
        if K == "BitFlip":
            x.check(r == Not(select(varr(q), z3.IntVal(0))), "the value whose flip was seen")
        elif K.startswith("Identity"):
            x.check(r == select(varr(q), z3.IntVal(0)), "the value seen")
        elif K == "CategoricalEmission":
            x.check(And(0 <= r, r < c.emission_dists.len), "a category")


def argmax_hook(L, node, st0, s, j, N, rng, havoc):
    """havocked integers stay within [0, j] (index of the best so far)"""
    ints = [h for h in havoc if L.get_leaf(s, h).sort() == I]

    def inv(stt, t):
        return [("best index is one already seen", And(0 <= L.get_leaf(stt, h), Or(L.get_leaf(stt, h) < t, L.get_leaf(stt, h) == 0))) for h in ints]
    return inv


for e in EMS:
    reg(e)


@unit("GaussianEmission::propose_clean proposes the mean of the values seen", GE + [ZMF], "C24", funcs=["GaussianEmission::propose_clean"], opts=dict(havoc_ok=True))
def _(x):
    p = x.obj("GaussianEmission")
    q = x.val("vector<double>", "corrupted")
    x.assume(vlen(q) >= 1)

    def hook(L, node, st0, s, j, N, rng, havoc):
        if len(havoc) != 1:
            return None
        S_ = lambda t: _um.SUMV(q, t) if False else SUMF(varr(q), z3.IntVal(0), t)
        return lambda stt, t: [("running mean", z3.ToReal(t) * L.get_leaf(stt, havoc[0]) == S_(t))]
    x.ex.loop_inv = hook
    r = x.call("GaussianEmission::propose_clean", p, [q, x.val("int", "prng")])
    x.check(z3.ToReal(vlen(q)) * r == SUMF(varr(q), z3.IntVal(0), vlen(q)), "the mean")


# ---- Sometimes<T>: a coin (BetaBernoulli) over an arbitrary error model
def sometimes(T, extra=()):
    K = "Sometimes<%s>" % T
    D = "Distribution<pair<%s,%s>>" % (T, T)
    files = GE + [BBF, "util_math.cc"]

    def setup(x):
        p = x.obj(K)
        c = snap(x, p)
        x.assume(*FAMS[0].inv(c.bb), raw(c.be) != 0)
        return p, c

    def bev(x, c):
        t = x.type("Emission<%s>" % T)
        return View(x.ex, x.ex.load(x.st, x.ex.heap_place(t, raw(c.be))), t)

    def past_same(x, d, c, v, msg):
        """per value, the recorded splits agree (an absent entry is an empty list)"""
        vs = sort(x.type("vector<double>"))
        ks = c.past_p_came_from_be.keysort
        k = fresh("k", ks)
        f = lambda o: oval(select(raw(o.past_p_came_from_be), k))
        ln = lambda o: If(o.past_p_came_from_be.has(k), vlen(f(o)), 0)
        x.check(ln(d) == ln(c), msg + ": number of recorded splits", "frame")
        i = fresh("i", I)
        x.check(Implies(And(0 <= i, i < ln(c)), select(varr(f(d)), i) == select(varr(f(c)), i)), msg + ": recorded splits", "frame")

    def same(x, d, c, b1, b0, v, msg, past=True):
        for f in ("N", "bb", "be", "dirty_can_equal_clean"):
            for g in expand_eq(z3.simplify(raw(getattr(d, f))), z3.simplify(raw(getattr(c, f)))):
                x.check(g, "%s: %s" % (msg, f), "post")
        for f in ("obs", "hyp", "N"):
            for g in expand_eq(z3.simplify(raw(getattr(b1, f))), z3.simplify(raw(getattr(b0, f)))):
                x.check(g, "%s: inner model's %s" % (msg, f), "post")
        if past:
            past_same(x, d, c, v, msg)

    # the three situations of a pair: changed; unchanged and the inner model always changes; unchanged and the inner model may keep the value
    CASES = [("changed value", lambda c, v: [fst(v) != snd(v)]),
             ("unchanged value, inner model always changes", lambda c, v: [fst(v) == snd(v), Not(c.dirty_can_equal_clean)]),
             ("unchanged value, inner model may keep it", lambda c, v: [fst(v) == snd(v), c.dirty_can_equal_clean])]

    def cased(i, name, case):
        @unit(K + ": removing an absorbed pair restores the coin, the inner model and the recorded splits (%s)" % name, files, "C24", funcs=[K + "::incorporate", D + "::unincorporate"], contracts=ABSE, opts=dict(prune=True))
        def _(x):
            p, c = setup(x)
            b0 = bev(x, c)
            v = pair(x, T)
            x.assume(*case(c, v))
            x.call(K + "::incorporate", p, [v, z3.RealVal(1)])
            d = snap(x, p)
            x.check(d.N == c.N + 1, "N counts the pair")
            x.check(d.bb.N == c.bb.N + 1, "the coin's total weight grows by one")
            b1 = bev(x, d)
            if i == 0:
                x.check(And(d.bb.s == c.bb.s + 1, raw(b1.obs) == _ad.absorb(raw(b0.obs), v, z3.RealVal(1))), "heads, absorbed by the inner model")
            elif i == 1:
                x.check(And(d.bb.s == c.bb.s, raw(b1.obs) == raw(b0.obs)), "tails, not absorbed by the inner model")
            else:
                x.check(raw(b1.obs) == _ad.absorb(raw(b0.obs), v, d.bb.s - c.bb.s), "coin and inner model absorb the same share")
                x.check(d.bb.s >= c.bb.s, "the share is not negative")
            x.reach("state")
            x.call(D + "::unincorporate", p, [v])
            e = snap(x, p)
            same(x, e, c, bev(x, e), b0, v, "remove undoes add")

        @unit(K + "::logp accounts for both explanations (%s)" % name, files, "C24", funcs=[K + "::logp"], contracts=ABSE, opts=dict(prune=True))
        def _(x):
            p, c = setup(x)
            b0 = bev(x, c)
            v = pair(x, T)
            x.assume(*case(c, v))
            lp = x.call(K + "::logp", p, [v])
            d = snap(x, p)
            same(x, d, c, bev(x, d), b0, v, "asking for a probability changes nothing")
            heads = (c.bb.s + c.bb.alpha) / (c.bb.N + c.bb.alpha + c.bb.beta)
            tails = (c.bb.N - c.bb.s + c.bb.beta) / (c.bb.N + c.bb.alpha + c.bb.beta)
            inner = _ad.LPF(fst_sort(x, T))(raw(b0.obs), b0.hyp, v)
            x.lemma(And(heads > 0, tails > 0, heads + tails == 1), "coin probabilities")
            if i == 0:
                x.check(lp == LN(heads) + inner, "coin heads and the inner model")
            elif i == 1:
                x.check(lp == LN(tails), "coin tails")
            else:
                x.check(EXPF(lp) == tails + heads * EXPF(inner), "both explanations")

    for i, (n, f) in enumerate(CASES):
        cased(i, n, f)

    @unit(K + ": recorded splits of two pairs do not mix", files, "C24", funcs=[K + "::incorporate"], contracts=ABSE, opts=dict(prune=True))
    def _(x):
        p, c = setup(x)
        b0 = bev(x, c)
        v, w = pair(x, T), pair(x, T, "y")
        x.assume(fst(v) != fst(w), fst(v) == snd(v), fst(w) == snd(w), c.dirty_can_equal_clean)
        for z in (v, w):
            x.call(K + "::incorporate", p, [z, z3.RealVal(1)])
        for z in (v, w):
            x.call(D + "::unincorporate", p, [z])
        e = snap(x, p)
        same(x, e, c, bev(x, e), b0, v, "remove undoes add", past=False)

    @unit(K + "::logp is the change of logp_score when the explanation is unique", files, "C24", funcs=[K + "::logp", K + "::logp_score", K + "::incorporate"], contracts=ABSE)
    def _(x):
        p, c = setup(x)
        v = pair(x, T)
        x.assume(Or(fst(v) != snd(v), Not(c.dirty_can_equal_clean)))
        s0 = x.call(K + "::logp_score", p)
        lp = x.call(K + "::logp", p, [v])
        x.ex.store(x.st, p, c.t)
        x.call(K + "::incorporate", p, [v, z3.RealVal(1)])
        s1 = x.call(K + "::logp_score", p)
        x.check(lp == s1 - s0, "logp(x) = logp_score after - logp_score before")

    @unit(K + "::sample_corrupted keeps the value on tails and leaves the statistics unchanged", files, "C24", funcs=[K + "::sample_corrupted"], contracts=ABSE)
    def _(x):
        p, c = setup(x)
        b0 = bev(x, c)
        v = x.val(T, "clean")
        r = x.call(K + "::sample_corrupted", p, [v, x.val("int", "prng")])
        d = snap(x, p)
        same(x, d, c, bev(x, d), b0, v, "corrupting changes nothing")
        calls = [k for n, k in x.ex.calls if n == "Emission::sample_corrupted"]
        x.shape(len(calls) == 1 and len(x.st.draws) == 1, "one coin draw, one inner call")
        x.check(Or(r == v, r == raw(calls[0].ret)), "the clean value or a value the inner model emits")
        x.check(raw(calls[0].args[0]) == v, "the inner model corrupts the clean value")

    @unit(K + "::propose_clean proposes one of the values seen and leaves the statistics unchanged", files, "C24", funcs=[K + "::propose_clean"], contracts=ABSE, opts=dict(havoc_ok=True))
    def _(x):
        p, c = setup(x)
        b0 = bev(x, c)
        q = x.val("vector<%s>" % T, "corrupted")
        x.assume(vlen(q) >= 1)
        es = varr(q).sort().range()

        def hook(L, node, st0, s, j, N, rng, havoc):
            vals = [h for h in havoc if L.get_leaf(s, h).sort() == es and (es != I or h in modes(L, s, havoc, st0))]
            if len(vals) != 1:
                return None

            def inv(stt, t):
                i = fresh("i", I)
                return [("the value kept is one of those seen", z3.Exists([i], And(0 <= i, i < vlen(q), select(varr(q), i) == L.get_leaf(stt, vals[0]))))]
            return inv

        def modes(L, s, havoc, st0):
            # for int: the variable that starts as corrupted[0], not the counter that starts at 0
            return [h for h in havoc if z3.simplify(L.get_leaf(st0, h)).eq(z3.simplify(select(varr(q), z3.IntVal(0))))]
        x.ex.loop_inv = hook
        r = x.call(K + "::propose_clean", p, [q, x.val("int", "prng")])
        d = snap(x, p)
        same(x, d, c, bev(x, d), b0, q, "proposing changes nothing")
        i = fresh("i", I)
        x.check(z3.Exists([i], And(0 <= i, i < vlen(q), select(varr(q), i) == r)), "one of the values seen")

    @unit(K + "::transition_hyperparameters moves hyperparameters only", files, "C24", funcs=[K + "::transition_hyperparameters"], contracts=ABSE + ["BetaBernoulli::transition_hyperparameters"])
    def _(x):
        p, c = setup(x)
        b0 = bev(x, c)
        x.call(K + "::transition_hyperparameters", p, [x.val("int", "prng")])
        d = snap(x, p)
        b1 = bev(x, d)
        x.check(And(d.N == c.N, d.bb.s == c.bb.s, d.bb.N == c.bb.N, raw(b1.obs) == raw(b0.obs), b1.N == b0.N), "data are kept")


def fst_sort(x, T):
    return sort(x.type("pair<%s,%s>" % (T, T)))


CONTRACTS["BetaBernoulli::transition_hyperparameters"] = Contract("BetaBernoulli::transition_hyperparameters", "BetaBernoulli::transition_hyperparameters", modifies=["alpha", "beta"])
for T in ("bool", "int", "double", "string"):
    sometimes(T)
