from spec import *

UM = "util_math.cc"
LN = z3.Function("ln", R, R)
EXPF = z3.Function("exp", R, R)
LG = z3.Function("lgamma", R, R)


def veclen(v):
    return v.len


def SUMV(f, lo, hi):
    return SUMF(lam(I, f, "si"), lo, hi)


k_linspace = Contract("linspace", "linspace",
    pre=lambda c: [("num >= 2 points", c.args[2] >= 2)],
    post=lambda c: [
        ("num values", c.ret.len == c.args[2]),
        ("i-th value is start + i*(stop-start)/(num-endpoint)", ForAll(I, lambda i: Implies(And(0 <= i, i < c.args[2]),
            c.ret[i] == c.args[0] + (c.args[1] - c.args[0]) / z3.ToReal(c.args[2] - If(c.args[3], 1, 0)) * z3.ToReal(i))))])


@unit("linspace gives evenly spaced points", UM, "C07", funcs=["linspace"])
def _(x):
    prove_body(x, k_linspace, None, [x.val("double", "start"), x.val("double", "stop"), x.val("int", "num"), x.val("bool", "endpoint")])


@unit("linspace includes both ends when endpoint", UM, "C07", funcs=["linspace"], contracts=["linspace"])
def _(x):
    a, b, n = x.val("double", "start"), x.val("double", "stop"), x.val("int", "num")
    x.assume(n >= 2)
    r = x.V(x.call("linspace", None, [a, b, n, z3.BoolVal(True)]), "vector<double>")
    x.check(r[0] == a, "first point is start")
    d = z3.ToReal(n - 1)
    x.check(Implies(d * ((b - a) / d) == b - a, r[n - 1] == b), "last point is stop")


k_loglin = Contract("log_linspace", "log_linspace",
    pre=lambda c: [("start positive", c.args[0] > 0), ("stop positive", c.args[1] > 0), ("num >= 2", c.args[2] >= 2)],
    post=lambda c: [("num values", c.ret.len == c.args[2]),
                    ("values are positive", ForAll(I, lambda i: Implies(And(0 <= i, i < c.args[2]), c.ret[i] > 0))),
                    ("i-th value is exp of the i-th point between the logs", ForAll(I, lambda i: Implies(And(0 <= i, i < c.args[2]),
                        c.ret[i] == EXPF(LN(c.args[0]) + (LN(c.args[1]) - LN(c.args[0])) / z3.ToReal(c.args[2] - If(c.args[3], 1, 0)) * z3.ToReal(i)))))])


@unit("log_linspace gives log-spaced positive points", UM, "C07 C06", funcs=["log_linspace"], contracts=["linspace"])
def _(x):
    prove_body(x, k_loglin, None, [x.val("double", "start"), x.val("double", "stop"), x.val("int", "num"), x.val("bool", "endpoint")])


def lse_spec(w, n):
    return None


k_lse = Contract("logsumexp", "logsumexp",
    pre=lambda c: [("not empty", c.args[0].len > 0), ("finite weights", ForAll(I, lambda i: Implies(And(0 <= i, i < c.args[0].len), c.args[0][i] != z3.Const("NEG_INF", R))))],
    post=lambda c: [("ret = m + ln sum exp(w-m) with m the largest", Exists(I, lambda k: And(0 <= k, k < c.args[0].len,
        ForAll(I, lambda i: Implies(And(0 <= i, i < c.args[0].len), c.args[0][i] <= c.args[0][k])),
        c.ret == c.args[0][k] + LN(SUMV(lambda i: EXPF(c.args[0][i] - c.args[0][k]), z3.IntVal(0), c.args[0].len)))))])


k_choice = Contract("choice", "choice",
    pre=lambda c: [("not empty", c.args[0].len > 0)],
    post=lambda c: [("index in range", And(0 <= c.ret, c.ret < c.args[0].len))])

k_logchoice = Contract("log_choice", "log_choice",
    pre=lambda c: [("not empty", c.args[0].len > 0)],
    post=lambda c: [("index in range", And(0 <= c.ret, c.ret < c.args[0].len))])

k_sfl = Contract("sample_from_logps", "sample_from_logps",
    pre=lambda c: [("not empty", c.args[0].len > 0)],
    post=lambda c: [("index in range", And(0 <= c.ret, c.ret < c.args[0].len))])


@unit("sample_from_logps draws index i with weight exp(logps[i] - max)", UM, "C06 C07", funcs=["sample_from_logps"])
def _(x):
    v = x.val("vector<double>", "logps")
    V = x.V(v, "vector<double>")
    x.assume(V.len > 0)
    r = x.call("sample_from_logps", None, [v, x.val("int", "prng")])
    ds = [d for d in x.st.draws if d[0] == "draw"]
    x.check(z3.BoolVal(len(ds) == 1 and len(x.st.draws) == 1 and ds[0][1] == "discrete_distribution"), "exactly one categorical draw")
    w, d = x.V(ds[0][2][0], "vector<double>"), ds[0][3]
    x.check(r == d, "returns the drawn index")
    x.check(w.len == V.len, "one weight per entry")
    i, j = x.val("int", "i"), x.val("int", "j")
    x.assume(0 <= i, i < V.len, 0 <= j, j < V.len)
    x.check(w[i] > 0, "every weight is positive")
    x.check(LN(w[i]) - LN(w[j]) == V[i] - V[j], "weights are proportional to exp(logps)")
    x.check(And(0 <= r, r < V.len), "index in range")


@unit("choice returns a drawn index with non-zero weight", UM, "C07", funcs=["choice"])
def _(x):
    v = x.val("vector<double>", "weights")
    V = x.V(v, "vector<double>")
    i = x.val("int", "i")
    x.assume(V.len > 0, 0 <= i, i < V.len, V[i] > 0, ForAll(I, lambda k: Implies(And(0 <= k, k < V.len), V[k] >= 0)))
    r = x.call("choice", None, [v, x.val("int", "prng")])
    ds = [d for d in x.st.draws if d[0] == "draw"]
    x.check(z3.BoolVal(len(ds) == 1 and len(x.st.draws) == 1 and ds[0][1] == "discrete_distribution"), "exactly one categorical draw")
    w = x.V(ds[0][2][0], "vector<double>")
    x.check(And(w.len == V.len, ForAll(I, lambda k: Implies(And(0 <= k, k < V.len), w[k] == V[k]))), "drawn with exactly the given weights")
    x.check(And(r == ds[0][3], 0 <= r, r < V.len, V[r] > 0), "the drawn index is returned and has non-zero weight")


@unit("lbeta is the log beta function", UM, "C07", funcs=["lbeta"])
def _(x):
    a, b = x.val("double", "a"), x.val("double", "b")
    x.assume(a > 0, b > 0)
    x.check(x.call("lbeta", None, [a, b]) == LG(a) + LG(b) - LG(a + b), "lbeta(a,b) = lgamma(a)+lgamma(b)-lgamma(a+b)")


CONTRACTS = {k.name: k for k in (k_linspace, k_loglin, k_lse, k_choice, k_logchoice, k_sfl)}
