"""Nearest representable value (C25)."""
from spec import *
from dist import snap, same_all, FAMS

DCF, BG, SC = "distributions/dirichlet_categorical.cc", "distributions/bigram.cc", "distributions/stringcat.cc"
CONTRACTS = {}
DRV = __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "..", "engine", "drivers", "inst_dist.cc")


@unit("DirichletCategorical::nearest is a category, and the value itself when it is one", [DCF], "C25", funcs=["DirichletCategorical::nearest"])
def _(x):
    p = x.obj("DirichletCategorical")
    c = snap(x, p)
    v = x.val("int", "x")
    x.assume(c.counts.len >= 1, c.counts.len <= 2147483647, v >= -2147483648, v <= 2147483647)
    r = x.call("DirichletCategorical::nearest", p, [v])
    same_all(x, snap(x, p), c, "rounding changes nothing")
    x.check(And(0 <= r, r < c.counts.len), "a category the model accepts")
    x.check(Implies(And(0 <= v, v < c.counts.len), r == v), "a representable value is kept")
    q = x.call("DirichletCategorical::nearest", p, [r])
    x.check(q == r, "idempotent")


def bg_ok(c, s):
    """s is a string the n-gram model accepts"""
    i = fresh("i", I)
    return And(Or(c.max_length == 0, vlen(s) <= c.max_length), z3.ForAll([i], Implies(And(0 <= i, i < vlen(s)), And(c.min_char <= select(varr(s), i), select(varr(s), i) <= c.max_char))))


def prefix(s, x, t):
    i = fresh("i", I)
    return And(vlen(s) == t, z3.ForAll([i], Implies(And(0 <= i, i < t), select(varr(s), i) == select(varr(x), i))))


def bigram(K, files):
    def setup(x):
        p = x.obj(K)
        c = snap(x, p)
        x.assume(c.max_length >= 0)
        v = x.val("string", "x")

        def hook(L, node, st0, s, j, N, rng, havoc):
            ss = [h for h in havoc if is_vec(L.get_leaf(s, h).sort())]
            if len(ss) != 1 or len(havoc) != 1:
                return None

            def inv(stt, t):
                o = L.get_leaf(stt, ss[0])
                return [("no longer than what was read", And(0 <= vlen(o), vlen(o) <= t)),
                        ("every character kept is representable", bg_ok(c, o)),
                        ("nothing is dropped from a representable value", Implies(bg_ok(c, v), prefix(o, v, t)))]
            return inv
        x.ex.loop_inv = hook
        return p, c, v

    @unit(K + "::nearest is representable, and the value itself when it is representable", files, "C25", funcs=[K + "::nearest"], opts=dict(havoc_ok=True))
    def _(x):
        p, c, v = setup(x)
        r = x.call(K + "::nearest", p, [v])
        same_all(x, snap(x, p), c, "rounding changes nothing")
        x.check(bg_ok(c, r), "accepted by the model")
        i = fresh("i", I)
        x.check(Implies(bg_ok(c, v), vlen(r) == vlen(v)), "a representable value is kept: length")
        x.check(Implies(bg_ok(c, v), z3.ForAll([i], Implies(And(0 <= i, i < vlen(v)), select(varr(r), i) == select(varr(v), i)))), "a representable value is kept: characters")


bigram("Bigram", [BG, DRV])
bigram("StringNat", [BG, DRV])


@unit("A rounded string can be absorbed and scored by the n-gram model", [BG], "C25", funcs=["Bigram::string_to_indices", "Bigram::char_to_index", "Bigram::assert_valid_char"])
def _(x):
    p = x.obj("Bigram")
    c = snap(x, p)
    v = x.val("string", "x")
    x.assume(c.max_length >= 0, c.num_chars == c.max_char - c.min_char + 1, c.num_chars >= 1, bg_ok(c, v))
    r = x.call("Bigram::string_to_indices", p, [v])
    n = vlen(v)
    x.check(vlen(r) == n + 2, "one index per character, a marker at both ends")
    x.check(And(select(varr(r), z3.IntVal(0)) == c.num_chars, select(varr(r), n + 1) == c.num_chars), "markers")
    x.check(ForAll(I, lambda i: Implies(And(0 <= i, i < n), And(select(varr(r), i + 1) == select(varr(v), i) - c.min_char, 0 <= select(varr(r), i + 1), select(varr(r), i + 1) < c.num_chars))), "indices")


k_topk = Contract("topk_alignments", "topk_alignments", post=lambda c: [("some alignment", vlen(raw(c.out[4])) >= 1)], outs=[4])
CONTRACTS["topk_alignments"] = k_topk


def member(c, s):
    i = fresh("i", I)
    return z3.Exists([i], And(0 <= i, i < c.strings.len, raw(c.strings[i]) == s))


@unit("StringCat::nearest is one of its strings, and the value itself when it is one", [SC], "C25", funcs=["StringCat::nearest"], contracts=["topk_alignments"], opts=dict(havoc_ok=True))
def _(x):
    p = x.obj("StringCat")
    c = snap(x, p)
    v = x.val("string", "x")
    x.assume(c.strings.len >= 1)

    def hook(L, node, st0, s, j, N, rng, havoc):
        pts = [h for h in havoc if h[-1] == "pi"]

        def inv(stt, t):
            return [("the best so far is one of the strings", And(0 <= L.get_leaf(stt, h), L.get_leaf(stt, h) < c.strings.len)) for h in pts]
        return inv
    x.ex.loop_inv = hook
    r = x.call("StringCat::nearest", p, [v])
    same_all(x, snap(x, p), c, "rounding changes nothing")
    x.check(member(c, r), "one of the strings")
    x.check(Implies(member(c, v), r == v), "a representable value is kept")


def base(T):
    K = "Skellam" if T == "int" else "Normal" if T == "double" else "BetaBernoulli"
    f = {"int": "distributions/skellam.cc", "double": "distributions/normal.cc", "bool": "distributions/beta_bernoulli.cc"}[T]

    @unit("Distribution<%s>::nearest keeps every value" % T, [f], "C25", funcs=["Distribution<%s>::nearest" % T])
    def _(x):
        p = x.obj(K)
        c = snap(x, p)
        v = x.val(T, "x")
        r = x.call("Distribution<%s>::nearest" % T, p, [v])
        same_all(x, snap(x, p), c, "rounding changes nothing")
        x.check(r == v, "the value itself")


for T in ("int", "double", "bool"):
    base(T)
