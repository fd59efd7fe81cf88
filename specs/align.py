"""String alignment (C23): every reported alignment is an edit script, its cost is the sum of the costs of its steps, cheapest first."""
from spec import *
from vc import Opaque

AL = "emissions/string_alignment.cc"
CONTRACTS = {}
DEL, INS, SUB, MAT = 0, 1, 2, 3


class Spell:
    """what the pieces of an alignment say about the two strings"""

    def __init__(self, ex, at, s1, s2, step):
        self.ex, self.at, self.s1, self.s2, self.step = ex, at, s1, s2, step
        ps = sort(at).accessor(0, [f for f, _ in rec_fields(at)].index("align_pieces")).range()
        av = varr(fresh("v", ps))
        es = av.sort().range()
        # prefix functions of a sequence of pieces: what its first n pieces consume, produce and cost
        self.fn = {}
        for nme, w, rs in (("consumed", lambda e: z3.If(sel(e, 0) == INS, z3.IntVal(0), z3.IntVal(1)), I), ("produced", lambda e: z3.If(sel(e, 0) == DEL, z3.IntVal(0), z3.IntVal(1)), I), ("paid", step, R)):
            f = z3.Function(nme, av.sort(), I, rs)
            a, n, e, m = fresh("a", av.sort()), fresh("n", I), fresh("e", es), fresh("m", I)
            ex.globals.append(z3.ForAll([a], f(a, 0) == 0, patterns=[f(a, 0)]))
            ex.globals.append(z3.ForAll([a, n, e, m], Implies(And(0 <= m, m <= n), f(z3.Store(a, n, e), m) == f(a, m)), patterns=[f(z3.Store(a, n, e), m)]))
            ex.globals.append(z3.ForAll([a, n, e], Implies(n >= 0, f(z3.Store(a, n, e), n + 1) == f(a, n) + w(e)), patterns=[f(z3.Store(a, n, e), n + 1)]))
            ex.globals.append(z3.ForAll([a, n, e, m], Implies(And(n >= 0, m == n + 1), f(z3.Store(a, n, e), m) == f(a, n) + w(e)), patterns=[f(z3.Store(a, n, e), m)]))
            self.fn[nme] = f
        self.W = {g: z3.Function("SCRIPT%+d" % g, sort(at), B) for g in (-1, 1)}

    def ch(self, s, p):
        return select(varr(s), p)

    def clauses(self, t, sign):
        """t is an edit script from s1[0,s1_position) to s2[0,s2_position) that costs sign*cost"""
        al = wrap(self.ex, t, self.at)
        n, a = al.align_pieces.len, varr(al.align_pieces.t)
        m = fresh("m", I)
        pc = z3.Select(a, m)
        k = sel(pc, 0)
        p = lambda kk: sel(pc, kk + 1)
        c, d = self.ch(self.s1, self.fn["consumed"](a, m)), self.ch(self.s2, self.fn["produced"](a, m))
        return [
            ("lengths", And(n >= 0, 0 <= al.s1_position, al.s1_position <= vlen(self.s1), 0 <= al.s2_position, al.s2_position <= vlen(self.s2))),
            ("the pieces consume the first string up to its position", al.s1_position == self.fn["consumed"](a, n)),
            ("the pieces produce the second string up to its position", al.s2_position == self.fn["produced"](a, n)),
            ("the cost is the sum of the costs of the steps", sign * al.cost == self.fn["paid"](a, n)),
            ("every piece is the step of the strings at its place", z3.ForAll([m], Implies(And(0 <= m, m < n), And(0 <= k, k <= 3,
                Implies(k == DEL, sel(p(DEL), 0) == c),
                Implies(k == INS, sel(p(INS), 0) == d),
                Implies(k == SUB, And(sel(p(SUB), 0) == c, sel(p(SUB), 1) == d, c != d)),
                Implies(k == MAT, And(sel(p(MAT), 0) == c, c == d)))))),
        ]

    def unfold(self, t, sign):
        """the definition of SCRIPT at t"""
        self.ex.facts.append(self.W[sign](t) == And(*[c for _, c in self.clauses(t, sign)]))


@unit("edit_distance charges one for every step except a match", [AL], "C23", funcs=["edit_distance"])
def _(x):
    p = x.obj("StrAlignment", "a")
    a = x.view(p)
    old = x.val("double", "old")
    n = a.align_pieces.len
    x.assume(n >= 1)
    k = sel(select(varr(a.align_pieces.t), n - 1), 0)
    x.assume(0 <= k, k <= 3)
    from vc import Ref
    r = x.call("edit_distance", None, [Ref(p), old])
    x.check(r == old + z3.If(k == MAT, z3.RealVal(0), z3.RealVal(1)), "the new cost")
    x.check(x.view(p).t == a.t, "the alignment is unchanged")


@unit("topk_alignments reports edit scripts with their costs, cheapest first, at most k", [AL], "C23", funcs=["topk_alignments"], opts=dict(havoc_ok=True))
def _(x):
    ex = x.ex
    k = x.val("int", "k")
    s1, s2 = x.val("string", "s1"), x.val("string", "s2")
    out = x.out("vector<StrAlignment>", "alignments")
    x.assume(vlen(x.view(out.p).t) == 0)
    at = x.type("StrAlignment")
    ps = sort(at).accessor(0, [f for f, _ in rec_fields(at)].index("align_pieces")).range()
    es = varr(fresh("v", ps)).sort().range()
    STEP = z3.Function("STEP", es, R)
    e = fresh("e", es)
    ex.globals.append(z3.ForAll([e], STEP(e) >= 0, patterns=[STEP(e)]))
    sp = Spell(ex, at, s1, s2, STEP)
    W = sp.W

    def costfn(ex_, vals, st):
        al, old = wrap(ex_, vals[0], at), vals[1]
        n = al.align_pieces.len
        ex_.oblige(st, n >= 1, "the cost function sees the new step", "pre")
        r = old + STEP(select(varr(al.align_pieces.t), n - 1))
        fi = [f for f, _ in rec_fields(at)].index("cost")
        new = x.define("continued", upd(vals[0], fi, -r))
        sp.unfold(new, -1)
        for nme, c in sp.clauses(new, -1):
            ex_.oblige(st, c, "a continued alignment: " + nme, "assert")
            ex_.fact(st, c)
        return r

    def hook(L, node, st_, s0, j, N, rng, havoc):
        if node["k"] != "while":
            return None
        hs = {L.leafname(h): h for h in havoc}

        def leaf(stt, what):
            h = [h for nme, h in hs.items() if what(L.get_leaf(stt, h), nme)]
            x.shape(len(h) == 1, "loop state")
            return L.get_leaf(stt, h[0])
        vt = x.view(out.p).t.sort()

        def inv(stt, t):
            res = L.load(stt, out.p)
            hp = leaf(stt, lambda v, nme: v.sort() == vt and nme != "valignments")
            nf = leaf(stt, lambda v, nme: v.sort() == I)
            H = z3.Function("HEAP_" + __import__("sorts").an_(varr(hp).sort()), varr(hp).sort(), I, B)
            i, j2 = fresh("i", I), fresh("j", I)
            q = []
            front, last = select(varr(hp), z3.IntVal(0)), select(varr(res), vlen(res) - 1)
            sp.unfold(front, -1)
            sp.unfold(last, 1)
            el, er, er2 = wrap(L, select(varr(hp), i), at), wrap(L, select(varr(res), i), at), wrap(L, select(varr(res), j2), at)
            ih, ir = And(0 <= i, i < vlen(hp)), And(0 <= i, i < vlen(res))
            q.append(("counts", And(vlen(hp) >= 0, vlen(res) >= 0, nf == vlen(res), Or(nf <= k, nf == 0))))
            q.append(("the queue is a heap", H(varr(hp), vlen(hp))))
            q.append(("queued alignments are edit scripts of prefixes", z3.ForAll([i], Implies(ih, W[-1](el.t)))))
            q.append(("reported alignments are edit scripts", z3.ForAll([i], Implies(ir, W[1](er.t)))))
            q.append(("reported alignments cover both strings", z3.ForAll([i], Implies(ir, And(er.s1_position == vlen(s1), er.s2_position == vlen(s2))))))
            q.append(("reported: cheapest first", z3.ForAll([i, j2], Implies(And(0 <= i, i < j2, j2 < vlen(res)), er.cost <= er2.cost))))
            q.append(("queued alignments cost no less than reported ones", z3.ForAll([i, j2], Implies(And(ir, 0 <= j2, j2 < vlen(hp)), er.cost <= -wrap(L, select(varr(hp), j2), at).cost))))
            return q
        return inv
    ex.loop_inv = hook
    G = {}

    def steps(L, st, op, before, after):
        """what each operation on the queue keeps (stated as it happens: proved, then used)"""
        i = fresh("i", I)
        n = vlen(after) - (1 if op == "pop_heap" else 0)
        if op == "pop_heap":
            G["c"] = x.define("popped", -wrap(L, select(varr(before), z3.IntVal(0)), at).cost)
        x.shape("c" in G, "a pop before a push")
        e = wrap(L, select(varr(after), i), at)
        for nme, c in (("costs at least as much as what was taken out", -e.cost >= G["c"]), ("is an edit script of prefixes", W[-1](e.t))):
            c = z3.ForAll([i], Implies(And(0 <= i, i < n), c))
            L.oblige(st, c, "after %s every queued alignment %s" % (op, nme), "assert")
            L.fact(st, c)
    ex.heap_hooks = [steps]
    x.call("topk_alignments", None, [k, s1, s2, Opaque("hostfn", costfn), out])
    x.reach("topk_alignments returns")
    r = x.view(out.p).t
    q, j2 = fresh("q", I), fresh("j", I)
    x.check(Or(vlen(r) <= k, vlen(r) == 0), "at most k alignments")
    inr = And(0 <= q, q < vlen(r))
    er, er2 = wrap(ex, select(varr(r), q), at), wrap(ex, select(varr(r), j2), at)
    sp.unfold(er.t, 1)
    for nme, c in sp.clauses(er.t, 1):
        x.check(Implies(inr, c), "a reported alignment: " + nme)
    x.check(Implies(inr, And(er.s1_position == vlen(s1), er.s2_position == vlen(s2))), "a reported alignment covers both strings")
    x.check(Implies(And(0 <= q, q < j2, j2 < vlen(r)), er.cost <= er2.cost), "listed in order of non-decreasing cost")
