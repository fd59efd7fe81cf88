"""Loops: invariants inferred as closed forms of the loop's recurrences, each checked inductively."""
import os
import z3
from ir import *
from sorts import *
from vc import *
from std import *


def settle(t):
    """simplify, dropping stores that put back what is there"""
    t = z3.simplify(t)
    memo = {}

    def go(u):
        if u.get_id() in memo:
            return memo[u.get_id()][1]
        r = u
        if z3.is_app(u) and u.num_args() and not z3.is_quantifier(u):
            ch = [go(a) for a in u.children()]
            if any(not a.eq(b) for a, b in zip(ch, u.children())):
                r = z3.simplify(u.decl()(*ch))
            if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_STORE and z3.is_app(r.arg(2)) and r.arg(2).decl().kind() == z3.Z3_OP_SELECT and r.arg(2).arg(0).eq(r.arg(0)) and r.arg(2).arg(1).eq(r.arg(1)):
                r = r.arg(0)
        memo[u.get_id()] = (u, r)
        return r
    if not any(z3.is_app(u) and u.decl().kind() == z3.Z3_OP_STORE for u in subterms([t])):
        return t
    return go(t)


def tidy_sums(t):
    """add up finite sums over the same range term by term; f - f = 0 (inside lambdas too)"""
    if not any(z3.is_app(u) and u.decl().name() == "SUM" for u in subterms([t])):
        return t
    memo = {}

    def body(f, i):
        return z3.simplify(select(f, i))

    def add(a, b):
        if z3.is_app(a) and z3.is_app(b) and a.decl().kind() == z3.Z3_OP_ITE and b.decl().kind() == z3.Z3_OP_ITE and a.arg(0).eq(b.arg(0)):
            return z3.simplify(z3.If(a.arg(0), add(a.arg(1), b.arg(1)), add(a.arg(2), b.arg(2))))
        return z3.simplify(a + b)

    def go(u):
        if u.get_id() in memo:
            return memo[u.get_id()][1]
        r = u
        if z3.is_quantifier(u) and u.is_lambda() and u.num_vars() == 1:
            k = fresh("k", u.var_sort(0))
            b = z3.substitute_vars(u.body(), k)
            b2 = go(b)
            if not b2.eq(b):
                if z3.is_app(b2) and b2.decl().kind() == z3.Z3_OP_SELECT and b2.arg(1).eq(k) and not occurs(b2.arg(0), k):
                    r = b2.arg(0)
                else:
                    r = z3.Lambda([k], b2)
        elif z3.is_app(u) and u.num_args():
            ch = [go(a) for a in u.children()]
            if any(not a.eq(b) for a, b in zip(ch, u.children())):
                r = z3.simplify(u.decl()(*ch))
            if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_ADD:
                groups, rest = {}, []
                for a in r.children():
                    if z3.is_app(a) and a.decl().name() == "SUM":
                        groups.setdefault((a.arg(1).get_id(), a.arg(2).get_id()), []).append(a)
                    else:
                        rest.append(a)
                if any(len(g) > 1 for g in groups.values()):
                    for g in groups.values():
                        i = fresh("si", I)
                        b = body(g[0].arg(0), i)
                        for a in g[1:]:
                            b = add(b, body(a.arg(0), i))
                        if z3.is_rational_value(b) and b.as_fraction() == 0:
                            continue
                        rest.append(g[0] if len(g) == 1 else SUMF(z3.Lambda([i], b), g[0].arg(1), g[0].arg(2)))
                    r = z3.simplify(z3.Sum(rest)) if rest else z3.RealVal(0)
        memo[u.get_id()] = (u, r)
        return r
    r = go(t)
    return t if r.eq(t) else settle(r)


class Leaf:
    """assignable location: ('e', key, path) or ('h', cls, fi)"""


class Loops(Std):

    # ---- leaves of the state
    def leaves(self, st, keys=None):
        out = {}

        def add(k, v):
            if is_term(v) and is_rec(v.sort()):
                c = v.sort().constructor(0)
                for i in range(c.arity()):
                    add(k + (i,), sel(v, i))
            elif is_term(v):
                out[k] = v
            elif isinstance(v, Iter) and v.key is None:
                out[k + ("it",)] = v.idx
            # other values: identity compared separately
        for k, v in st.env.items():
            if keys is not None and k not in keys:
                continue
            add(("e", k), v)
        for k, v in st.heap.items():
            out[("h", k)] = v
        return out

    def set_leaf(self, st, k, val):
        if k[0] == "h":
            st.heap[k[1]] = val
            return
        key = k[1]
        path = k[2:]
        if not path:
            st.env[key] = val
            return
        if path == ("it",):
            v = st.env[key]
            st.env[key] = Iter(v.cont, v.ct, val, v.rev)
            return

        def go(t, p):
            if not p:
                return val
            return upd(t, p[0], go(sel(t, p[0]), p[1:]))
        st.env[key] = go(st.env[key], path)

    def get_leaf(self, st, k):
        if k[0] == "h":
            if k[1] not in st.heap:
                return self.heap_arr(st, self.type_by_name(k[1][0]), k[1][1])
            return st.heap[k[1]]
        v = st.env[k[1]]
        for i in k[2:]:
            if i == "it":
                return v.idx
            v = sel(v, i)
        return v

    def leafname(self, k):
        if k[0] == "h":
            return "%s.%s" % (k[1][0], rec_fields(self.type_by_name(k[1][0]))[k[1][1]][0])
        return "v%s" % (k[1][2],) + "".join("." + str(x) for x in k[2:])

    def range_loop(self, s, st):
        r = self.bind_ref(s["range"], st, s["range"]["t"].deref())
        if isinstance(r, Ref):
            p = r.p
        elif isinstance(r, Place):
            p = r
        else:
            raise Unsupported("range expression")
        ct = p.t.deref() if p.t is not None else s["range"]["t"].deref()
        return self.loop(st, None, None, s["body"], (p, ct, s["var"]), s)

    # cond / inc are expression nodes or None
    def loop(self, st, cond, inc, body, rng, node):
        base_pc = st.pc
        st = st.copy()
        line = node.get("l", self.line)
        c0 = None
        if rng is not None:
            p, ct, var = rng
            c0 = self.load(st, p)
            if is_seq(ct):
                n = vlen(c0)
                if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() <= self.opts.get("unroll", 3):
                    return self.unroll_range(st, rng, body, z3.simplify(n).as_long(), node)
                self.facts.append(vlen(c0) >= 0)
            else:
                c0 = self.alias(c0)
                en, n = self.enum(st, c0, ct.n in ("std::map", "std::set"))
        prekeys = set(st.env.keys())

        def run(s, j, quiet):
            """one iteration from state s; returns (cond term, next state, brk states, ret states)"""
            fr = self.fr
            lc = LoopCtx()
            nrets = len(fr.rets)
            fr.loops.append(lc)
            self.quiet += 1 if quiet else 0
            nf = len(self.facts)
            caches = (dict(self.cardseen), dict(self.enumseen), dict(self.aliases))
            self.itervars.append(((fr.id, line), j))
            try:
                cnd = None
                s = s.copy()
                start_pc = s.pc
                if rng is not None:
                    s = s.with_pc(z3.And(0 <= j, j < n))
                    inpc = s.pc
                    self.bind_range_var(var, p, ct, c0, j, s)
                elif cond is not None:
                    cnd = z3.simplify(self.truth(self.eval(cond, s), s))
                    s = s.with_pc(cnd)
                    inpc = s.pc
                else:
                    cnd = z3.BoolVal(True)
                    inpc = s.pc
                e = self.stmt(body, s)
                outs = ([e] if e is not None else []) + lc.cont
                e = self.merge_many(inpc, outs) if outs else None
                if e is not None and inc is not None:
                    self.eval(inc, e)
                rets = fr.rets[nrets:]
                del fr.rets[nrets:]
                return cnd, e, lc.brk, rets, inpc
            finally:
                fr.loops.pop()
                self.itervars.pop()
                self.quiet -= 1 if quiet else 0
                if quiet:
                    # facts over this speculative iteration are dropped, but kept for the caller
                    self.spec_facts = self.facts[nf:]
                    del self.facts[nf:]
                    self.cardseen, self.enumseen, self.aliases = caches

        # 1. find modified locations
        j = fresh("j", I)
        mod = {}
        for rounds in range(12):
            s = st.copy()
            for k, c in mod.items():
                self.set_leaf(s, k, c)
            s.pc = base_pc
            for k in list(mod):
                pass
            before = self.leaves(s, prekeys)
            fr0 = freshno()
            # heap entries that do not exist yet get their base arrays on demand
            cnd, e, brk, rets, inpc = run(s, j, True)
            alls = [x for x in ([e] + brk + [r[0] for r in rets]) if x is not None]
            new = {}
            for x in alls:
                after = self.leaves(x, prekeys)
                for k, v in after.items():
                    b = before.get(k)
                    if b is None:
                        b = self.get_leaf(s, k) if k[0] == "h" else None
                        if b is None:
                            continue
                    if k not in mod and not b.eq(v) and not z3.simplify(b).eq(z3.simplify(v)) and not z3.simplify(b).eq(settle(v)):
                        new[k] = b
            # closure/other python values changing is unsupported
            if not new:
                break
            for k, b in new.items():
                mod[k] = fresh("x_" + self.leafname(k).replace(" ", ""), b.sort())
        else:
            raise Unsupported("modified set of the loop at line %s does not stabilise" % line)
        init = {}
        for k in mod:
            init[k] = self.get_leaf(st, k)
        if e is None:
            # never reaches the next iteration: body executes at most once
            return self.once(st, run, j, rng, n if rng is not None else None)
        upd_ = {k: settle(self.get_leaf(e, k)) for k in mod}
        exits = bool(brk or rets)
        contpc = z3.And(*e.pc[len(inpc):]) if len(e.pc) > len(inpc) else z3.BoolVal(True)
        # 2. closed forms
        closed = {}      # leaf -> function of j term
        pend = dict(upd_)
        progress = True
        # leaves whose sort cannot be classified end up havocked
        inj = None
        if rng is not None and not is_seq(ct):
            inj = (EN(c0), c0)
        N_hint = n if rng is not None else None
        while pend and progress:
            progress = False
            for k in list(pend):
                u = pend[k]
                others = [o for o in mod if o != k and o not in closed and occurs(u, mod[o])]
                if others:
                    continue
                # substitute solved ones
                subs = [(mod[o], closed[o](j)) for o in closed if occurs(u, mod[o])]
                u2 = z3.simplify(z3.substitute(u, *subs)) if subs else u
                if __import__("os").environ.get("LDBG"): print("CLS", self.leafname(k), newconsts(u2, fr0), u2.sexpr()[:600])
                u2 = self.simp_ite(u2, j, N_hint)
                f = self.classify(u2, mod[k], init[k], j, inj) if not newconsts(u2, fr0) else None
                if f is not None:
                    closed[k] = f
                    del pend[k]
                    progress = True
        havoc = list(pend)
        # 3. trip count
        inv_hook = self.loop_inv
        N = None
        extra_exit = None
        if rng is not None:
            N = n
        elif not havoc or cnd is not None:
            subs = [(mod[o], closed[o](j)) for o in closed if occurs(cnd, mod[o])]
            cj = z3.simplify(z3.substitute(cnd, *subs)) if subs else cnd
            if not any(occurs(cj, mod[h]) for h in havoc):
                N, extra_exit = self.trip(cj, j)
        if havoc or N is None:
            self.havocked.append((self.fr.func.sname, line, [self.leafname(h) for h in havoc]))
        return self.finish(st, run, j, mod, init, closed, havoc, N, extra_exit, rng, exits, line, cond, node)

    def simp_ite(self, u, j, n):
        """drop if-then-else branches that 0 <= j (< n) rules out (classification only; the step check is unconditional)"""
        subs = []
        for x in subterms([u]):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.sort() == I and occurs(x.arg(0), j) and self._closed(x):
                s = z3.Solver()
                s.set("timeout", 200)
                s.add(j >= 0)
                if n is not None:
                    s.add(j < n)
                for y in subterms([x.arg(0)]):
                    if z3.is_app(y) and y.decl().name().startswith(("len", "card")) and y.sort() == I and self._closed(y):
                        s.add(y >= 0)
                s.add(z3.Not(x.arg(0)))
                if s.check() == z3.unsat:
                    subs.append((x, x.arg(1)))
        if subs:
            u = z3.simplify(z3.substitute(u, *subs))
        return u

    def once(self, st, run, j, rng, n):
        z = z3.IntVal(0)
        cnd, e, brk, rets, inpc = run(st, z, False)
        self.fr.rets.extend(rets)
        c = (0 < n) if rng is not None else cnd
        skip = st.with_pc(z3.Not(c))
        return self.merge_many(st.pc, brk + [skip])

    def unroll_range(self, st, rng, body, cnt, node):
        p, ct, var = rng
        base = st.pc
        fr = self.fr
        brks = []
        for i in range(cnt):
            if st is None:
                break
            lc = LoopCtx()
            fr.loops.append(lc)
            c0 = self.load(st, p)
            b = st.pc
            self.bind_range_var(var, p, ct, c0, z3.IntVal(i), st)
            self.itervars.append(((fr.id, node.get("l")), z3.IntVal(i)))
            e = self.stmt(body, st)
            self.itervars.pop()
            fr.loops.pop()
            brks += lc.brk
            outs = ([e] if e is not None else []) + lc.cont
            st = self.merge_many(b, outs) if outs else None
        outs = ([st] if st is not None else []) + brks
        return self.merge_many(base, outs) if outs else None

    def bind_range_var(self, var, p, ct, c0, j, s):
        key = ("v", self.fr.id, var.get("d"))
        vt = var["t"]
        if is_seq(ct):
            ep = p.ext(("i", j), elem_t(ct)) if isinstance(p, Place) else None
            # element read from the container as it was at loop start if it is not modified in place
            place = ep
        else:
            en = EN(c0)
            k = en[j]
            self.fact(s, z3.And(inn(c0, k), POS(c0, k) == j))
            if is_set(ct):
                place = self.temp(s, k, ct.args[0])
            else:
                place = self.pair_place(s, k, p.ext(("k", k), ct.args[1]) if isinstance(p, Place) else None, oval(select(c0, k)), ct)
        if var["k"] == "decomp":
            if vt.k == "r":
                self.bind_parts(var, place, s)
            else:
                v = place.value(self, s) if isinstance(place, PairPlace) else self.load(s, place)
                self.bind_parts(var, self.temp(s, v, vt), s)
            return
        if vt.k == "r":
            s.env[key] = Ref(place)
        else:
            v = place.value(self, s) if isinstance(place, PairPlace) else self.load(s, place)
            s.env[key] = self.conv(v, vt, s)

    # ---- recurrence classification: returns a function j -> closed term, or None
    def classify(self, u, x, x0, j, inj):
        s = x.sort()
        if not occurs(u, x):
            f = lambda t: z3.substitute(u, (j, t)) if occurs(u, j) else u
            if not occurs(u, j) and u.eq(z3.simplify(x0)):
                return lambda t: x0
            return lambda t: z3.If(t <= 0, x0, f(t - 1))
        if s == I or s == R:
            d = self.delta(u, x)
            if d is None:
                return None
            if not occurs(d, j):
                if s == I:
                    return lambda t: x0 + d * t
                return lambda t: x0 + d * z3.ToReal(t)
            if s == R:
                v = fresh("si", I)
                fn = z3.Lambda([v], z3.substitute(d, (j, v)))
                return lambda t: x0 + SUMF(fn, z3.IntVal(0), t)
            v = fresh("si", I)
            fn = z3.Lambda([v], z3.ToReal(z3.substitute(d, (j, v))))
            return lambda t: x0 + z3.ToInt(SUMF(fn, z3.IntVal(0), t))
        if s == B:
            # latch: u == x or f ; u == x and f
            t1 = z3.simplify(z3.substitute(u, (x, z3.BoolVal(True))))
            t0 = z3.simplify(z3.substitute(u, (x, z3.BoolVal(False))))
            v = fresh("li", I)
            if z3.is_true(t1):
                return lambda t: z3.Or(x0, z3.Exists([v], z3.And(0 <= v, v < t, z3.substitute(t0, (j, v)))))
            if z3.is_false(t0):
                return lambda t: z3.And(x0, z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < t), z3.substitute(t1, (j, v)))))
            return None
        if is_vec(s):
            return self.classify_vec(u, x, x0, j)
        if s.kind() == z3.Z3_ARRAY_SORT:
            return self.classify_arr(u, x, x0, j, inj)
        return None

    def delta(self, u, x):
        """d with u == x + d and x not in d"""
        if u.eq(x):
            return z3.RealVal(0) if x.sort() == R else z3.IntVal(0)
        if not occurs(u, x):
            return None
        if z3.is_app(u):
            k = u.decl().kind()
            if k == z3.Z3_OP_ITE:
                c, a, b = u.children()
                if occurs(c, x):
                    return None
                da, db = self.delta(a, x), self.delta(b, x)
                if da is None or db is None:
                    return None
                return z3.If(c, da, db)
            if k == z3.Z3_OP_ADD:
                has = [t for t in u.children() if occurs(t, x)]
                if len(has) != 1:
                    d = z3.simplify(u - x)
                    return d if not occurs(d, x) else None
                rest = [t for t in u.children() if not t.eq(has[0])]
                if len(rest) != len(u.children()) - 1:
                    return None
                d = self.delta(has[0], x)
                if d is None:
                    return None
                return z3.simplify(z3.Sum([d] + rest))
        d = z3.simplify(u - x)
        return d if not occurs(d, x) else None

    def classify_vec(self, u, x, x0, j):
        s = x.sort()
        n, a = vlen(x), varr(x)
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
            # conditional in-place update
            pass
        L = z3.simplify(vlen(u))
        A = z3.simplify(varr(u))
        lx = fresh("len", I)
        ax = fresh("arr", a.sort())
        xx = s.constructor(0)(lx, ax)
        L = z3.simplify(z3.substitute(L, (x, xx)))
        A = z3.simplify(z3.substitute(A, (x, xx)))
        dl = z3.simplify(L - lx)
        if occurs(dl, lx) or occurs(dl, ax):
            return None
        l0, a0 = vlen(x0), varr(x0)
        if z3.is_int_value(dl) and dl.as_long() == 1:
            if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_STORE and A.arg(0).eq(ax) and A.arg(1).eq(lx) and not occurs(A.arg(2), ax):
                f = A.arg(2)
                if occurs(f, lx):
                    f = z3.substitute(f, (lx, l0 + j))
                return lambda t: s.constructor(0)(l0 + t, lam(I, lambda i: z3.If(z3.And(l0 <= i, i < l0 + t), z3.substitute(f, (j, i - l0)), select(a0, i)), "i"))
            return None
        if z3.is_int_value(dl) and dl.as_long() == 0:
            if occurs(A, lx):
                A = z3.simplify(z3.substitute(A, (lx, l0)))
            g = self.classify_arr(A, ax, a0, j, None)
            if g is None:
                return None
            return lambda t: s.constructor(0)(l0, g(t))
        return None

    def point_updates(self, u, x):
        """u as x with updates: list of (key, newvalue) innermost first, or None"""
        if u.eq(x):
            return []
        if z3.is_app(u):
            k = u.decl().kind()
            if k == z3.Z3_OP_STORE:
                r = self.point_updates(u.arg(0), x)
                if r is None:
                    return None
                return r + [(u.arg(1), u.arg(2))]
            if k == z3.Z3_OP_ITE:
                c, a, b = u.children()
                ra, rb = self.point_updates(a, x), self.point_updates(b, x)
                if ra is None or rb is None:
                    return None
                keys = []
                for kk, _ in ra + rb:
                    if not any(kk.eq(q) for q in keys):
                        keys.append(kk)
                if len(keys) != 1:
                    return None
                kk = keys[0]
                va = ra[-1][1] if ra else z3.Select(x, kk)
                vb = rb[-1][1] if rb else z3.Select(x, kk)
                return [(kk, z3.If(c, va, vb))]
        return None

    def classify_arr(self, u, x, x0, j, inj):
        ups = self.point_updates(u, x)
        if ups is None:
            return None
        # collapse updates of one key
        keys = []
        for k, _ in ups:
            if not any(k.eq(q) for q in keys):
                keys.append(k)
        if len(keys) != 1:
            return None
        key = keys[0]
        if occurs(key, x):
            return None
        val = ups[-1][1]
        cur = fresh("cur", x.sort().range())
        v2 = z3.substitute(val, (z3.Select(x, key), cur))
        # reads through the inner stores
        inner = x
        for k, v in ups[:-1]:
            inner = z3.Store(inner, k, v)
        v2 = z3.simplify(v2)
        v2 = z3.substitute(v2, (z3.Select(x, key), cur))
        if occurs(v2, x):
            return None
        ks = x.sort().domain()
        readscur = occurs(v2, cur)
        # integer key j + c
        if ks == I:
            c = z3.simplify(key - j)
            if not occurs(c, j):
                def f(t):
                    return lam(ks, lambda i: z3.If(z3.And(c <= i, i < c + t), z3.substitute(v2, (j, i - c), (cur, select(x0, i))), select(x0, i)), "i")
                return f
        if inj is not None:
            en, c0 = inj
            ej = z3.Select(en, j)
            if z3.simplify(key).eq(ej) or key.eq(ej):
                def f(t):
                    return lam(ks, lambda k: z3.If(z3.And(inn(c0, k), POS(c0, k) < t), z3.substitute(z3.substitute(v2, (ej, k), (cur, select(x0, k))), (j, POS(c0, k))), select(x0, k)), "k")
                return f
        if not occurs(key, j) and readscur:
            # one element evolves by its own recurrence
            g = self.classify(v2, cur, select(x0, key), j, inj)
            if g is not None:
                return lambda t: z3.Store(x0, key, g(t))
        if not occurs(key, j) and not readscur:
            # same key each iteration, last write wins
            return lambda t: z3.If(t <= 0, x0, z3.Store(x0, key, z3.substitute(v2, (j, t - 1))))
        if not readscur:
            # value determined by the key alone (e.g. set insertion): no injectivity needed
            kk = fresh("kk", ks)
            v3 = z3.substitute(v2, (key, kk))
            if not occurs(v3, j):
                i = fresh("i", I)

                def f(t):
                    return lam(ks, lambda k: z3.If(z3.Exists([i], z3.And(0 <= i, i < t, z3.substitute(key, (j, i)) == k)), z3.substitute(v3, (kk, k)), select(x0, k)), "k")
                return f
        if readscur and x.sort().range() in (I, R):
            # histogram-like accumulation at arbitrary keys: x[key(j)] += w(j)
            d = self.delta(z3.simplify(v2), cur)
            if d is not None and x.sort().range() == R:
                def f(t):
                    def at(k):
                        i = fresh("si", I)
                        return select(x0, k) + SUMF(z3.Lambda([i], z3.If(z3.substitute(key, (j, i)) == k, z3.substitute(d, (j, i)), z3.RealVal(0))), z3.IntVal(0), t)
                    return lam(ks, at, "k")
                return f
        return None

    def trip(self, c, j):
        """number of iterations for loop condition c(j); plus remaining exit condition"""
        c = z3.simplify(c, arith_lhs=False)
        conj = list(c.children()) if z3.is_and(c) else [c]
        for i, a in enumerate(conj):
            n = self.trip1(a, j)
            if n is not None:
                rest = conj[:i] + conj[i + 1:]
                return n, (z3.And(*rest) if rest else None)
        return None, None

    def trip1(self, a, j):
        neg = False
        while z3.is_not(a):
            a = a.arg(0)
            neg = not neg
        if not z3.is_app(a):
            return None
        k = a.decl().kind()
        ops = {z3.Z3_OP_LT: "<", z3.Z3_OP_LE: "<=", z3.Z3_OP_GT: ">", z3.Z3_OP_GE: ">=", z3.Z3_OP_EQ: "==", z3.Z3_OP_DISTINCT: "!="}
        if k not in ops or a.arg(0).sort() != I:
            return None
        op = ops[k]
        if neg:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
        e = z3.simplify(a.arg(0) - a.arg(1))
        e0 = z3.simplify(z3.substitute(e, (j, z3.IntVal(0))))
        sl = z3.simplify(z3.substitute(e, (j, z3.IntVal(1))) - e0)
        if not z3.is_int_value(sl) or occurs(e0, j):
            return None
        if not z3.is_true(z3.simplify(e - (e0 + sl * j) == 0)):
            return None
        sl = sl.as_long()
        if sl == 1 and op == "<":
            n = -e0
        elif sl == 1 and op == "<=":
            n = -e0 + 1
        elif sl == -1 and op == ">":
            n = e0
        elif sl == -1 and op == ">=":
            n = e0 + 1
        elif sl == 1 and op == "!=":
            return z3.simplify(-e0)
        elif sl == -1 and op == "!=":
            return z3.simplify(e0)
        else:
            return None
        n = z3.simplify(n)
        return z3.simplify(z3.If(n >= 0, n, z3.IntVal(0)))

    def finish(self, st, run, j, mod, init, closed, havoc, N, extra_exit, rng, exits, line, cond, node):
        base_pc = st.pc
        hav = {h: mod[h] for h in havoc}

        def state_at(t, hv):
            s = st.copy()
            for k in closed:
                self.set_leaf(s, k, z3.simplify(closed[k](t)))
            for h in havoc:
                self.set_leaf(s, h, hv[h])
            return s
        # generic iteration, with obligations
        s = state_at(j, hav)
        invs = self.invariants(node, st, s, j, N, rng, havoc)
        # invariants hold initially
        s_init = state_at(z3.IntVal(0), {h: init[h] for h in havoc})
        if invs is not None:
            for nme, g in invs(s_init, z3.IntVal(0)):
                self.oblige(st, g, "loop invariant holds initially: " + nme, "inv-init")
        if N is not None:
            self.facts.append(N >= 0 if rng is not None else z3.BoolVal(True))
            rngc = z3.And(0 <= j, j < N)
        else:
            rngc = 0 <= j
        s.pc = base_pc + (rngc,)
        if exits or extra_exit is not None:
            pass
        stop = None
        if invs is not None:
            for nme, g in invs(s, j):
                self.fact(s, g)
        nf0 = len(self.facts)
        caches = (dict(self.cardseen), dict(self.enumseen), dict(self.aliases))
        fr0 = freshno()
        cnd, e, brk, rets, inpc = run(s, j, False)
        if N is not None and rng is None:
            # the trip count is justified: the condition holds below N
            main = cnd if extra_exit is None else None
            if main is not None:
                self.oblige(s, cnd, "loop condition holds before the computed trip count", "infer")
        # step check
        if e is not None and invs is not None and os.environ.get("VERIF_REACH"):
            o = Obl("end of an iteration at line %s" % line, "reach", e.pc, len(self.facts), z3.BoolVal(False), "")
            o.facts = tuple(self.dead)
            self.obls.append(o)
        if e is not None:
            if brk or rets:
                pass
            for k in closed:
                got = self.get_leaf(e, k)
                want = z3.simplify(closed[k](j + 1))
                self.step_facts(want, j)
                self.infer_eq(e, got, want, "loop invariant preserved for %s at line %s" % (self.leafname(k), line))
                self.step_extra = []
            if invs is not None:
                for nme, g in invs(e, j + 1):
                    self.oblige(e, g, "loop invariant preserved: " + nme, "inv-step")
        # facts about the generic iteration are out of scope from here on
        self.dead.append((nf0, len(self.facts)))
        self.cardseen, self.enumseen, self.aliases = caches
        # exits
        if not (exits or extra_exit is not None) and N is not None:
            hv2 = {h: fresh("h_" + self.leafname(h).replace(" ", ""), mod[h].sort()) for h in havoc}
            out = st.copy()
            for k in closed:
                v = self.final(closed[k], N, rng, st)
                if v.sort() == B and any(z3.is_quantifier(u) for u in subterms([v])):
                    c = fresh("flag", B)
                    self.facts.append(c == v)
                    v = c
                self.set_leaf(out, k, v)
            for h in havoc:
                self.set_leaf(out, h, hv2[h])
            out.pc = base_pc
            if invs is not None:
                for nme, g in invs(out, N):
                    self.fact(out, g)
            if rng is None and cond is not None:
                # condition false at N
                o2 = out.copy()
                self.quiet += 1
                nf = len(self.facts)
                try:
                    c2 = self.truth(self.eval(cond, o2), o2)
                finally:
                    self.quiet -= 1
                    del self.facts[nf:]
                self.oblige(out, z3.Not(c2), "loop stops at the computed trip count", "infer")
            return out
        # loops with early exits or unknown trip count
        t = fresh("stop", I)
        hv2 = {h: fresh("h_" + self.leafname(h).replace(" ", ""), mod[h].sort()) for h in havoc}
        sx = state_at(t, hv2)
        sx.pc = base_pc
        self.fact(sx, 0 <= t)
        if N is not None:
            self.fact(sx, t <= N)
        if invs is not None:
            for nme, g in invs(sx, t):
                self.fact(sx, g)
        # no exit before t: exit condition over closed form (only when nothing is havocked)
        if not havoc and N is not None:
            i = fresh("i", I)
            exs = []
            for b in brk:
                exs.append(z3.And(*b.pc[len(s.pc):]))
            for r, _ in rets:
                exs.append(z3.And(*r.pc[len(s.pc):]))
            if extra_exit is not None:
                sub = [(mod[o], closed[o](j)) for o in closed if occurs(extra_exit, mod[o])]
                xe = z3.substitute(extra_exit, *sub) if sub else extra_exit
                exs.append(z3.Not(xe))
            # the range/condition conjunct is part of inpc; strip it
            ex = z3.Or(*exs)
            ex = self.strip(ex, rngc)
            if not newconsts(ex, fr0):
                self.fact(sx, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t, i < N), z3.Not(z3.substitute(ex, (j, i))))))
        # normal exit
        outs = []
        s2 = sx.copy()
        if N is not None:
            if extra_exit is None:
                s2 = s2.with_pc(t == N)
                for k in closed:
                    self.set_leaf(s2, k, self.final(closed[k], N, rng, st))
                outs.append(s2)
            else:
                c2 = self.quiet_cond(cond, s2)
                outs.append(s2.with_pc(z3.Not(c2)))
        elif cond is not None:
            c2 = self.quiet_cond(cond, s2)
            outs.append(s2.with_pc(z3.Not(c2)))
        if brk or rets:
            s3 = sx.copy()
            if N is not None:
                s3 = s3.with_pc(t < N)
            # obligations of the final partial iteration were already generated for a generic iteration
            self.quiet += 1
            try:
                nfz = len(self.facts)
                cnd, e, brk2, rets2, _ = run(s3, t, False)
            finally:
                self.quiet -= 1
            outs += brk2
            self.fr.rets.extend(rets2)
        if not outs:
            return None
        return self.merge_many(base_pc, outs)

    def strip(self, ex, rngc):
        return ex

    def quiet_cond(self, cond, s):
        self.quiet += 1
        nf = len(self.facts)
        caches = (dict(self.cardseen), dict(self.enumseen), dict(self.aliases))
        try:
            return self.truth(self.eval(cond, s.copy()), s)
        finally:
            self.quiet -= 1
            del self.facts[nf:]
            self.cardseen, self.enumseen, self.aliases = caches

    def invariants(self, node, st0, s, j, N, rng, havoc):
        if not havoc or self.loop_inv is None:
            return None
        return self.loop_inv(self, node, st0, s, j, N, rng, havoc)

    def step_facts(self, want, j):
        """unfold SUM(f,0,j+1)"""
        for t in subterms([want]):
            if z3.is_app(t) and t.decl().name() == "SUM":
                f, lo, hi = t.children()
                h1 = z3.simplify(hi - 1)
                if not self.ground(t):
                    continue
                self.step_extra.append(z3.Implies(hi >= lo + 1, t == SUMF(f, lo, h1) + z3.simplify(z3.Select(f, h1))))

    def ground(self, t):
        for x in subterms([t]):
            if z3.is_var(x) and not any(True for _ in ()):
                # bound variable of an enclosing quantifier?
                return self._closed(t)
        return True

    def _closed(self, t, depth=0):
        st = [(t, 0)]
        while st:
            x, d = st.pop()
            if z3.is_var(x):
                if z3.get_var_index(x) >= d:
                    return False
            elif z3.is_quantifier(x):
                st.append((x.body(), d + x.num_vars()))
            else:
                st.extend((c, d) for c in x.children())
        return True

    def infer_eq(self, st, a, b, name):
        for i, g in enumerate(expand_eq(a, b)):
            self.oblige(st, g, name, "infer")

    def final(self, f, N, rng, st):
        """closed form at loop exit; sums over an enumeration become order-independent set sums"""
        t = tidy_sums(z3.simplify(f(N)))
        if rng is None or is_seq(rng[1]):
            return t
        c0 = None
        p, ct, var = rng
        c0 = self.alias(self.load(st, p))
        en = EN(c0)
        return self.to_setsum(t, c0, en, N)

    def to_setsum(self, t, c0, en, N):
        subs = []
        for x in subterms([t]):
            if z3.is_app(x) and x.decl().name() == "SUM" and self._closed(x):
                f, lo, hi = x.children()
                if not (z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(N)):
                    continue
                i = fresh("i", I)
                b = z3.simplify(z3.Select(f, i))
                k = fresh("k", c0.sort().domain())
                b2 = z3.substitute(b, (z3.Select(en, i), k))
                if occurs(b2, i):
                    # i = POS(c0, k) for the i-th element k
                    b2 = z3.substitute(b2, (i, POS(c0, k)))
                body = z3.If(inn(c0, k), b2, z3.RealVal(0))
                subs.append((x, SETSUMF(c0.sort().domain())(z3.Lambda([k], body))))
                self.axioms_used.add("a finite sum over a container does not depend on iteration order")
            elif z3.is_app(x) and z3.is_lt(x) if z3.is_app(x) else False:
                pass
        if subs:
            t = z3.substitute(t, *subs)
        # POS(c0,k) < N is implied by membership
        return t


def rd(a, k):
    """select pushed through stores, case distinctions and lambdas"""
    if z3.is_app(a):
        kd = a.decl().kind()
        if kd == z3.Z3_OP_STORE and a.num_args() == 3:
            if a.arg(1).eq(k):
                return a.arg(2)
            return z3.If(k == a.arg(1), a.arg(2), rd(a.arg(0), k))
        if kd == z3.Z3_OP_ITE:
            return z3.If(a.arg(0), rd(a.arg(1), k), rd(a.arg(2), k))
        if kd == z3.Z3_OP_SELECT:
            inner = rd(a.arg(0), a.arg(1)) if z3.is_app(a.arg(0)) and a.arg(0).decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE) else a
            if not inner.eq(a):
                return rd(inner, k)
    return select(a, k)


def expand_eq(a, b, prefix=""):
    """list of goals whose conjunction is a == b (with fresh skolems for arrays)"""
    if a.eq(b):
        return []
    s = a.sort()
    if is_rec(s) or is_vec(s):
        c = s.constructor(0)
        out = []
        for i in range(c.arity()):
            out += expand_eq(z3.simplify(sel(a, i)), z3.simplify(sel(b, i)))
        return out
    if s.kind() == z3.Z3_ARRAY_SORT:
        if all(z3.is_app(q) and q.decl().kind() == z3.Z3_OP_STORE for q in (a, b)) and a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)):
            return expand_eq(z3.simplify(a.arg(2)), z3.simplify(b.arg(2)))
        k = fresh("ext", s.domain())
        return expand_eq(z3.simplify(rd(a, k)), z3.simplify(rd(b, k)))
    if is_opt(s):
        out = [is_some(a) == is_some(b)]
        inner = expand_eq(oval(a), oval(b))
        return out + [z3.Implies(z3.And(is_some(a), is_some(b)), g) for g in inner]
    return [a == b]
