"""Models of the standard-library operations the code uses."""
import z3
from ir import *
from sorts import *
from vc import *


LOG = z3.Function("ln", R, R)
EXP = z3.Function("exp", R, R)
LGAMMA = z3.Function("lgamma", R, R)
SQRT = z3.Function("sqrt", R, R)
NEGINF = z3.Const("NEG_INF", R)
DBLMAX = z3.Const("DBL_MAX", R)
UF1 = {}


def uf1(n):
    if n not in UF1:
        UF1[n] = z3.Function(n, R, R)
    return UF1[n]


class Std(Exec):
    # ---------------------------------------------------------- iterators
    def cont_val(self, it, st):
        return self.load(st, it.cont) if isinstance(it.cont, Place) else it.cont

    def cont_len(self, v, ct, st):
        if is_seq(ct):
            return vlen(v)
        return self.card(st, v)

    def iter_op(self, op, a, b, st):
        if op in ("==", "!="):
            if a.key is not None or b.key is not None:
                f, o = (a, b) if a.key is not None else (b, a)
                cv = self.cont_val(f, st)
                if o.key is not None:
                    r = f.key == o.key
                else:
                    # comparison with end()
                    r = z3.Not(inn(cv, f.key))
            else:
                r = a.idx == b.idx
            return r if op == "==" else z3.Not(r)
        if op == "-" and isinstance(b, Iter):
            return a.idx - b.idx if not a.rev else a.idx - b.idx
        if op in ("+", "-") and isinstance(a, Iter):
            return Iter(a.cont, a.ct, a.idx + (b if op == "+" else -b), a.rev)
        if op in ("<", "<=", ">", ">="):
            return {"<": a.idx < b.idx, "<=": a.idx <= b.idx, ">": a.idx > b.idx, ">=": a.idx >= b.idx}[op]
        raise Unsupported("iterator op " + op)

    def std_mcall(self, e, fr, st):
        name = fr["q"].split("::")[-1]
        p = self.recv(e, st)
        o = e["obj"]
        ot = o["t"].deref()
        args = e["c"]
        if isinstance(p, Opaque):
            return self.opaque_mcall(p, name, args, st, e)
        if isinstance(p, Iter):
            if name in ("operator->", "operator*"):
                return Ref(self.iter_place(p, st))
            raise Unsupported("iterator method " + name)
        if e.get("arrow") and not (ot.k == "p" and False):
            ot = p.t
        ct = p.t.deref() if p.t is not None else ot
        if ct.k == "c" and ct.n in ("std::shared_ptr", "std::unique_ptr"):
            if name in ("get",):
                return self.load(st, p)
            if name == "reset":
                self.store(st, p, self.eval(args[0], st) if args else z3.IntVal(0))
                return None
            if name in ("operator bool",):
                return self.load(st, p) != 0
        if ct.k == "c" and ct.n == "std::optional":
            v = self.load(st, p)
            if name in ("has_value", "operator bool"):
                return is_some(v)
            if name in ("value", "operator*"):
                self.oblige(st, is_some(v), "optional has value", "safety")
                return Ref(p.ext(("o",), ct.args[0]))
        if name == "operator bool" and ct.k == "b":
            return self.load(st, p)
        if is_seq(ct):
            return self.seq_method(name, p, ct, args, st, e)
        if is_set(ct):
            return self.set_method(name, p, ct, args, st, e)
        if is_map(ct):
            return self.map_method(name, p, ct, args, st, e)
        if ct.k == "c" and ct.n.startswith("std::") and ct.n.endswith("_distribution"):
            raise Unsupported("distribution method " + name)
        if ct.k == "c" and ct.n == "std::variant" and name == "index":
            return sel(self.load(st, p), 0)
        raise Unsupported("std method %s::%s" % (ct.s, name))

    def opaque_mcall(self, p, name, args, st, e):
        for a in args:
            try:
                self.eval(a, st)
            except Unsupported:
                pass
        if p.kind == "ostream":
            return p
        if p.kind == "prng":
            return fresh("prng", I)
        raise Unsupported("opaque method %s.%s" % (p.kind, name))

    def ev(self, a, t, st):
        return self.conv(self.eval(a, st), t, st)

    def seq_method(self, name, p, ct, args, st, e):
        et = elem_t(ct)
        v = self.load(st, p)
        n, a = vlen(v), varr(v)
        s = v.sort()
        if name in ("size", "length", "ssize"):
            return n
        if name == "empty":
            return n == 0
        if name in ("push_back", "emplace_back"):
            if name == "emplace_back" and not (len(args) == 1 and self.same_sort(args[0], et)):
                x = self.emplace(args, et, st)
            else:
                x = self.ev(args[0], et, st)
            v = self.load(st, p)
            self.store(st, p, s.constructor(0)(vlen(v) + 1, z3.Store(varr(v), vlen(v), x)))
            return Ref(p.ext(("i", vlen(v)), et))
        if name == "pop_back":
            self.oblige(st, n > 0, "pop_back on non-empty", "safety")
            self.store(st, p, s.constructor(0)(n - 1, z3.Store(a, n - 1, default(sort(et)))))
            return None
        if name == "at":
            i = self.eval(args[0], st)
            self.oblige(st, z3.And(0 <= i, i < n), "at() index in range", "safety")
            return Ref(p.ext(("i", i), et))
        if name == "back":
            self.oblige(st, n > 0, "back() of non-empty", "safety")
            return Ref(p.ext(("i", z3.simplify(n - 1)), et))
        if name == "front":
            self.oblige(st, n > 0, "front() of non-empty", "safety")
            return Ref(p.ext(("i", z3.IntVal(0)), et))
        if name in ("begin", "cbegin"):
            return Iter(p, ct, z3.IntVal(0))
        if name in ("end", "cend"):
            return Iter(p, ct, n)
        if name in ("rbegin", "crbegin"):
            return Iter(p, ct, z3.IntVal(0), True)
        if name in ("rend", "crend"):
            return Iter(p, ct, n, True)
        if name in ("reserve", "shrink_to_fit"):
            for x in args:
                self.eval(x, st)
            return None
        if name == "clear":
            self.store(st, p, default(s))
            return None
        if name == "resize":
            m = self.eval(args[0], st)
            d = self.ev(args[1], et, st) if len(args) > 1 else default(sort(et))
            self.store(st, p, s.constructor(0)(m, lam(I, lambda i: z3.If(z3.And(0 <= i, i < m), z3.If(i < n, select(a, i), d), default(sort(et))), "i")))
            return None
        if name == "c_str" or name == "data":
            return Opaque("cstr", v)
        if name == "substr" and ct.n == "std::basic_string":
            i = self.eval(args[0], st)
            cnt = self.eval(args[1], st) if len(args) > 1 else n
            self.oblige(st, z3.And(0 <= i, i <= n), "substr position in range", "safety")
            m = z3.If(i + cnt <= n, cnt, n - i)
            return s.constructor(0)(m, lam(I, lambda j: z3.If(z3.And(0 <= j, j < m), select(a, j + i), z3.IntVal(0)), "j"))
        if name in ("append", "operator+=") and ct.n == "std::basic_string":
            x = self.eval(args[0], st)
            self.store(st, p, self.concat(self.load(st, p), x))
            return Ref(p)
        if name == "insert" and len(args) == 3:
            pos = self.eval(args[0], st)
            b = self.eval(args[1], st)
            en = self.eval(args[2], st)
            if isinstance(pos, Iter) and isinstance(b, Iter) and is_seq(b.ct):
                bv = self.cont_val(b, st)
                cnt = en.idx - b.idx
                i0 = pos.idx
                ba = varr(bv)
                b0 = b.idx
                m = n + cnt
                self.store(st, p, s.constructor(0)(m, lam(I, lambda i: z3.If(z3.And(0 <= i, i < m), z3.If(i < i0, select(a, i), z3.If(i < i0 + cnt, select(ba, b0 + i - i0), select(a, i - cnt))), default(sort(et))), "i")))
                return Iter(p, ct, i0)
        if name in ("compare",):
            x = self.eval(args[0], st)
            return z3.If(v == x, 0, z3.Function("strcmp", v.sort(), v.sort(), I)(v, x))
        raise Unsupported("sequence method " + name)

    def same_sort(self, node, t):
        try:
            return sort(node["t"]) == sort(t)
        except Unsupported:
            return False

    def emplace(self, args, et, st):
        if et.k == "c" and et.n in ("std::pair", "std::tuple"):
            return sort(et).constructor(0)(*[self.ev(x, t, st) for x, t in zip(args, et.args)])
        if et.k == "c" and et.s in self.prog.records:
            cs = [f for f in self.prog.by_sname.get(et.s + "::" + self.prog.records[et.s].d["n"].split("::")[-1], []) if len(f.params) == len(args)]
            if len(cs) == 1:
                f = cs[0]
                tmp = self.temp(st, None, et)
                vals = [self.arg(x, q["t"], st) for x, q in zip(args, f.params)]
                self.run_ctor(f, et, tmp, vals, st)
                return self.load(st, tmp)
        if len(args) == 1:
            return self.ev(args[0], et, st)
        if not args:
            return default(sort(et))
        raise Unsupported("emplace")

    def concat(self, a, b):
        s = a.sort()
        if isinstance(b, Opaque) and b.kind == "cstr":
            b = b.data
        if b.sort() == I:
            return s.constructor(0)(vlen(a) + 1, z3.Store(varr(a), vlen(a), b))
        n, m = vlen(a), vlen(b)
        aa, bb = varr(a), varr(b)
        return s.constructor(0)(n + m, lam(I, lambda i: z3.If(i < n, select(aa, i), select(bb, i - n)), "i"))

    def set_method(self, name, p, ct, args, st, e):
        kt = ct.args[0]
        v = self.load(st, p)
        if name in ("contains", "count"):
            k = self.ev(args[0], kt, st)
            r = inn(v, k)
            return r if name == "contains" else self.toint(r)
        if name in ("insert", "emplace"):
            if len(args) == 2:
                b = self.eval(args[0], st)
                if isinstance(b, Iter) and is_set(b.ct):
                    o = self.cont_val(b, st)
                    u = lam(v.sort().domain(), lambda k: z3.Or(select(v, k), select(o, k)))
                    self.store(st, p, u)
                    return None
                raise Unsupported("set range insert")
            k = self.ev(args[0], kt, st)
            v = self.load(st, p)
            was = inn(v, k)
            self.store(st, p, self.set_insert(st, v, k))
            ps = Opaque("insres", (Iter(p, ct, z3.IntVal(0), key=k), z3.Not(was)))
            return ps
        if name == "erase":
            k = self.eval(args[0], st)
            if isinstance(k, Iter):
                if k.key is None:
                    raise Unsupported("erase by position")
                k = k.key
            k = self.conv(k, kt, st)
            c2 = z3.Store(v, k, z3.BoolVal(False))
            self.card_update(st, v, c2, k, False)
            self.store(st, p, c2)
            return self.toint(inn(v, k))
        if name == "size":
            return self.card(st, v)
        if name == "empty":
            return self.card(st, v) == 0
        if name == "clear":
            self.store(st, p, default(v.sort()))
            return None
        if name in ("begin", "cbegin"):
            return Iter(p, ct, z3.IntVal(0))
        if name in ("end", "cend"):
            return Iter(p, ct, self.card(st, v))
        if name in ("rbegin", "crbegin"):
            return Iter(p, ct, z3.IntVal(0), True)
        if name == "find":
            k = self.ev(args[0], kt, st)
            return Iter(p, ct, z3.IntVal(0), key=k)
        if name == "reserve":
            return None
        raise Unsupported("set method " + name)

    def map_method(self, name, p, ct, args, st, e):
        kt, vt = ct.args[0], ct.args[1]
        v = self.load(st, p)
        if name in ("contains", "count"):
            k = self.ev(args[0], kt, st)
            r = inn(v, k)
            return r if name == "contains" else self.toint(r)
        if name == "at":
            k = self.ev(args[0], kt, st)
            self.oblige(st, inn(v, k), "at() key present", "safety")
            return Ref(p.ext(("k", k), vt))
        if name == "operator[]":
            return self.map_index(p, ct, self.ev(args[0], kt, st), st)
        if name == "erase":
            k = self.eval(args[0], st)
            if isinstance(k, Iter):
                if k.key is None:
                    raise Unsupported("erase by position")
                k = k.key
            k = self.conv(k, kt, st)
            was = inn(v, k)
            c2 = z3.Store(v, k, v.sort().range().constructor(0)())
            self.card_update(st, v, c2, k, False)
            self.store(st, p, c2)
            return self.toint(was)
        if name in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            if name in ("emplace", "try_emplace", "insert_or_assign") and len(args) == 2:
                k = self.ev(args[0], kt, st)
                x = self.ev(args[1], vt, st)
            elif len(args) == 1:
                pr = self.eval(args[0], st)
                if isinstance(pr, IList):
                    k, x = self.conv(pr.vals[0], kt, st), self.conv(pr.vals[1], vt, st)
                else:
                    k, x = self.conv(sel(pr, 0), kt, st), self.conv(sel(pr, 1), vt, st)
            else:
                raise Unsupported("map insert")
            v = self.load(st, p)
            was = inn(v, k)
            nx = x if name == "insert_or_assign" else z3.If(was, oval(select(v, k)), x)
            self.store(st, p, self.map_put(st, v, k, nx))
            return Opaque("insres", (Iter(p, ct, z3.IntVal(0), key=k), z3.Not(was)))
        if name == "size":
            return self.card(st, v)
        if name == "empty":
            return self.card(st, v) == 0
        if name == "clear":
            self.store(st, p, default(v.sort()))
            return None
        if name in ("begin", "cbegin"):
            return Iter(p, ct, z3.IntVal(0))
        if name in ("end", "cend"):
            return Iter(p, ct, self.card(st, v))
        if name in ("rbegin", "crbegin"):
            return Iter(p, ct, z3.IntVal(0), True)
        if name == "find":
            k = self.ev(args[0], kt, st)
            return Iter(p, ct, z3.IntVal(0), key=k)
        if name == "reserve":
            return None
        raise Unsupported("map method " + name)

    def map_index(self, p, ct, k, st):
        v = self.load(st, p)
        vt = ct.args[1]
        os = v.sort().range()
        was = inn(v, k)
        d = default(os.accessor(1, 0).range())
        c2 = z3.Store(v, k, z3.If(was, select(v, k), os.constructor(1)(d)))
        if z3.is_true(z3.simplify(was)):
            return Ref(p.ext(("k", k), vt))
        self.card_update(st, v, c2, k, True)
        self.store(st, p, c2)
        return Ref(p.ext(("k", k), vt))

    # ------------------------------------------------------ operator calls
    def std_opcall(self, e, st):
        op = e["op"]
        args = e["c"]
        fr = e.get("f") or {}
        t0 = args[0]["t"].deref()
        # user-defined operator
        if fr.get("root") and fr.get("key") in self.prog.funcs:
            f = self.prog.funcs[fr["key"]]
            if e.get("member"):
                if f.d.get("lam") or op == "()":
                    obj = self.eval(args[0], st)
                    if isinstance(obj, Closure):
                        vals = [self.arg(a, q["t"], st) for a, q in zip(args[1:], f.params)]
                        return self.call_lambda(obj, f, vals, st)
                p = self.try_lval(args[0], st) or self.temp(st, self.eval(args[0], st), t0)
                vals = [self.arg(a, q["t"], st) for a, q in zip(args[1:], f.params)]
                return self.call_func(f, p, vals, st)
            vals = [self.arg(a, q["t"], st) for a, q in zip(args, f.params)]
            return self.call_func(f, None, vals, st)
        if fr.get("root") and op == "=":
            p = self.try_lval(args[0], st)
            v = self.conv(self.eval(args[1], st), t0, st)
            self.store(st, p, v)
            return Ref(p)
        if op == "()":
            obj = self.eval(args[0], st)
            if isinstance(obj, Closure):
                vals = [self.eval(a, st) for a in args[1:]]
                return self.call_closure(obj, None, st, vals)
            if isinstance(obj, Opaque) and obj.kind == "rand":
                return self.draw(obj, st)
            if isinstance(obj, Opaque) and obj.kind == "stdfunction":
                vals = [self.eval(a, st) for a in args[1:]]
                return self.call_closure(obj.data, None, st, vals)
            if isinstance(obj, Opaque) and obj.kind == "hostfn":
                return obj.data(self, [self.eval(a, st) for a in args[1:]], st)
            if isinstance(obj, Opaque) and obj.kind == "prng":
                return fresh("prng", I)
            if is_term(obj) or True:
                if args[0]["t"].deref().s.startswith("hash<"):
                    x = self.eval(args[1], st)
                    return z3.Function("hash_" + an_(x.sort()), x.sort(), I)(x)
                if args[0]["t"].deref().s == "PRNG":
                    return fresh("prng", I)
                raise Unsupported("call operator on " + t0.s)
        if op == "[]":
            p = self.try_lval(args[0], st)
            if p is None:
                v0 = self.eval(args[0], st)
                p = self.temp(st, v0, t0)
            ct = p.t.deref() if p.t is not None else t0
            if is_map(ct):
                return self.map_index(p, ct, self.ev(args[1], ct.args[0], st), st)
            if is_seq(ct):
                i = self.toint(self.eval(args[1], st))
                v = self.load(st, p)
                lim = vlen(v)
                self.oblige(st, z3.And(0 <= i, i < lim), "operator[] index in range", "safety")
                return Ref(p.ext(("i", z3.simplify(i)), elem_t(ct)))
            raise Unsupported("operator[] on " + ct.s)
        if op in ("*", "->") and len(args) == 1:
            v = None
            if t0.k == "c" and t0.n == "std::optional":
                p = self.try_lval(args[0], st)
                self.oblige(st, is_some(self.load(st, p)), "optional has value", "safety")
                return Ref(p.ext(("o",), t0.args[0]))
            v = self.eval(args[0], st)
            if isinstance(v, Iter):
                pl = self.iter_place(v, st)
                if op == "->":
                    return PtrTo(pl)
                return Ref(pl)
            if t0.is_ptr:
                if op == "->":
                    return v
                return Ref(self.deref(v, t0, st))
            raise Unsupported("operator%s on %s" % (op, t0.s))
        if op in ("++", "--"):
            p = self.try_lval(args[0], st)
            v = self.load(st, p)
            if not isinstance(v, Iter):
                raise Unsupported("++ on " + t0.s)
            d = 1 if op == "++" else -1
            nv = Iter(v.cont, v.ct, v.idx + d, v.rev)
            self.store(st, p, nv)
            return v if len(args) == 2 else Ref(p)
        if op == "=":
            p = self.try_lval(args[0], st)
            v = self.eval(args[1], st)
            if isinstance(v, IList) or is_term(v):
                v = self.conv(v, t0, st)
            self.store(st, p, v)
            return Ref(p)
        if op in ("<<", ">>"):
            # streams: output is not part of the state
            if op == ">>":
                raise Unsupported("stream input")
            o = self.eval(args[0], st)
            try:
                self.eval(args[1], st)
            except Unsupported:
                pass
            return o if isinstance(o, Opaque) else Opaque("ostream")
        a = self.eval(args[0], st)
        b = self.eval(args[1], st)
        if isinstance(a, Iter) or isinstance(b, Iter):
            return self.iter_op(op, a, b, st)
        if op == "+=" and is_seq(t0):
            p = self.try_lval(args[0], st)
            self.store(st, p, self.concat(self.load(st, p), b))
            return Ref(p)
        if op == "+" and (is_seq(t0) or is_seq(args[1]["t"].deref())):
            return self.concat(self.tostr(a), b)
        if op in ("==", "!="):
            if isinstance(b, Opaque) and b.kind == "cstr":
                b = b.data
            if isinstance(a, Opaque) and a.kind == "cstr":
                a = a.data
            if is_term(a) and is_term(b):
                if a.sort() != b.sort():
                    if is_opt(a.sort()):
                        b = a.sort().constructor(1)(b)
                    elif a.sort() in (I, R, B):
                        return self.binop(op, a, b, BOOL, st)
                    else:
                        raise Unsupported("comparison of different sorts")
                r = a == b
                return r if op == "==" else z3.Not(r)
        if op in ("<", ">", "<=", ">=") and is_term(a) and a.sort() not in (I, R):
            f = z3.Function("less_" + an_(a.sort()), a.sort(), a.sort(), B)
            return {"<": f(a, b), ">": f(b, a), "<=": z3.Not(f(b, a)), ">=": z3.Not(f(a, b))}[op]
        raise Unsupported("operator%s on %s" % (op, t0.s))

    def tostr(self, v):
        if isinstance(v, Opaque) and v.kind == "cstr":
            return v.data
        return v

    # ------------------------------------------------------- constructors
    def ctor_value(self, e, st):
        t = e["t"].deref()
        args = e["c"]
        if t.k == "c" and t.s in self.prog.records and not t.lam:
            f = self.prog.funcs.get(e["f"].get("key"))
            if e.get("copy") and len(args) == 1:
                return self.eval(args[0], st)
            p = self.temp(st, None, t)
            self.construct(e, st, p)
            return self.load(st, p)
        if t.lam:
            return self.eval(args[0], st)
        if t.s == "PRNG":
            return Opaque("prng")
        if t.k == "c" and t.n.endswith("_distribution"):
            vals = [self.eval(a, st) for a in args]
            return Opaque("rand", (t.n.replace("std::", ""), vals, t))
        if t.k == "c" and t.n == "std::function":
            return self.eval(args[0], st)
        if t.k == "c" and t.n in ("std::basic_ostringstream", "std::basic_ofstream", "std::basic_ostream"):
            return Opaque("ostream")
        if t.is_ptr:
            if not args:
                return z3.IntVal(0)
            return self.eval(args[0], st)
        real = [a for a in args if not self.is_alloc(a)]
        if e.get("copy") and len(real) == 1:
            v = self.eval(real[0], st)
            return self.conv(v, t, st) if (is_term(v) or isinstance(v, IList)) else v
        if not real:
            try:
                return default(sort(t))
            except Unsupported:
                return Opaque("obj", t)
        vals = [self.eval(a, st) for a in real]
        if isinstance(vals[0], Opaque) and vals[0].kind == "stdfunction":
            return vals[0]
        if len(vals) == 1 and isinstance(vals[0], (Iter, Closure, PtrTo, FnRef)):
            return vals[0]
        if isinstance(vals[0], IList):
            return self.conv(vals[0], t, st)
        s = sort(t)
        if is_seq(t):
            if len(vals) == 1 and is_term(vals[0]) and vals[0].sort() == s:
                return vals[0]
            if t.n == "std::basic_string":
                if len(vals) == 1 and isinstance(vals[0], Opaque):
                    return vals[0].data
                if len(vals) == 2 and is_term(vals[0]) and vals[0].sort() == I and is_term(vals[1]) and vals[1].sort() == I:
                    n, c = vals
                    return s.constructor(0)(n, lam(I, lambda i: z3.If(z3.And(0 <= i, i < n), c, z3.IntVal(0)), "i"))
            et = elem_t(t)
            if isinstance(vals[0], Iter) and len(vals) >= 2 and isinstance(vals[1], Iter):
                return self.range_vec(vals[0], vals[1], t, st)
            if is_term(vals[0]) and vals[0].sort() == I and len(vals) <= 2:
                n = vals[0]
                self.oblige(st, n >= 0, "vector size is not negative", "safety")
                d = self.conv(vals[1], et, st) if len(vals) == 2 else self.default_elem(et, st)
                dd = default(sort(et))
                if d.eq(dd):
                    return s.constructor(0)(n, z3.K(I, dd))
                return s.constructor(0)(n, lam(I, lambda i: z3.If(z3.And(0 <= i, i < n), d, dd), "i"))
        if t.k == "c" and t.n in ("std::pair", "std::tuple"):
            if len(vals) == len(t.args):
                return s.constructor(0)(*[self.conv(x, a, st) for x, a in zip(vals, t.args)])
            return self.conv(vals[0], t, st)
        if t.k == "c" and t.n == "std::optional":
            if vals[0].sort() == s:
                return vals[0]
            return s.constructor(1)(self.conv(vals[0], t.args[0], st))
        if t.k == "c" and t.n == "std::variant":
            if vals[0].sort() == s:
                return vals[0]
            # choose alternative by C++ type of the argument
            at = real[0]["t"].deref()
            for i, a in enumerate(t.args):
                if a.s == at.s:
                    return self.mkvariant(t, i, vals[0])
            return self.conv(vals[0], t, st)
        if is_set(t) or is_map(t):
            if is_term(vals[0]) and vals[0].sort() == s:
                return vals[0]
            if isinstance(vals[0], Iter) and is_set(t) and is_set(vals[0].ct):
                return self.cont_val(vals[0], st)
            if isinstance(vals[0], Iter) and is_set(t) and is_seq(vals[0].ct):
                v = self.cont_val(vals[0], st)
                b, en = vals[0].idx, vals[1].idx
                i = fresh("i", I)
                return lam(s.domain(), lambda k: z3.Exists([i], z3.And(b <= i, i < en, select(varr(v), i) == k)))
            if is_term(vals[0]) and vals[0].sort() == I:
                return default(s)
        raise Unsupported("constructor of " + t.s)

    def default_elem(self, t, st):
        if t.k == "c" and t.s in self.prog.records:
            return self.default_obj(t, st)
        return default(sort(t))

    def is_alloc(self, a):
        t = a["t"].deref()
        return t.k == "c" and (t.n == "std::allocator" or t.n.startswith("std::hash") or t.n.startswith("std::equal_to") or t.n.startswith("std::less")
                               or t.n in ("VectorIntHash", "VectorStringHash") and False)

    def range_vec(self, b, en, t, st):
        s = sort(t)
        et = elem_t(t)
        v = self.cont_val(b, st)
        n = z3.simplify(en.idx - b.idx)
        b0 = b.idx
        if is_seq(b.ct):
            if z3.is_int_value(z3.simplify(b0)) and z3.simplify(b0).as_long() == 0 and z3.simplify(n == vlen(v)).eq(z3.BoolVal(True)) and not b.rev:
                return v
            a = varr(v)
            L = vlen(v)
            g = (lambda i: select(a, b0 + i)) if not b.rev else (lambda i: select(a, L - 1 - b0 - i))
        else:
            enm, cnt = self.enum(st, v, b.ct.n in ("std::map", "std::set"))
            if is_set(b.ct):
                g = lambda i: select(enm, b0 + i)
            else:
                ps = sort(et)
                g = lambda i: ps.constructor(0)(select(enm, b0 + i), oval(select(v, select(enm, b0 + i))))
        return s.constructor(0)(n, lam(I, lambda i: z3.If(z3.And(0 <= i, i < n), g(i), default(sort(et))), "i"))

    # ---------------------------------------------------- free functions
    def std_call(self, e, fr, st):
        q = fr["q"]
        n = q.split("::")[-1]
        a = e["c"]
        if n in ("move", "forward", "as_const", "ref", "cref"):
            p = self.try_lval(a[0], st)
            if isinstance(p, Place):
                return Ref(p)
            return self.eval(a[0], st)
        if n in ("printf", "fprintf", "puts", "fflush"):
            return z3.IntVal(0)
        if n in ("exit", "abort", "_exit", "terminate"):
            self.oblige(st, z3.BoolVal(False), "%s() unreachable" % n, "assert")
            st.pc = st.pc + (z3.BoolVal(False),)
            return None
        if n == "visit":
            return self.visit(e, st)
        if n in ("get", "get_if", "holds_alternative"):
            return self.std_get(e, fr, n, st)
        if n == "erase" and len(a) == 2 and is_seq(a[0]["t"].deref()):
            # std::erase(vector, value): the elements different from value, in order
            p = self.try_lval(a[0], st)
            w = self.load(st, p)
            x = self.ev(a[1], elem_t(a[0]["t"].deref()), st)
            r = fresh("erased", w.sort())
            src, dst = (z3.Function(fresh(nm_, I).decl().name(), I, I) for nm_ in ("src", "dst"))
            i, j = fresh("i", I), fresh("j", I)
            inr = lambda k, u: z3.And(0 <= k, k < vlen(u))
            self.facts.append(z3.And(0 <= vlen(r), vlen(r) <= vlen(w)))
            self.facts.append(z3.ForAll([i], z3.Implies(inr(i, r), z3.And(inr(src(i), w), select(varr(r), i) == select(varr(w), src(i)), select(varr(r), i) != x, dst(src(i)) == i)), patterns=[z3.Select(varr(r), i)]))
            self.facts.append(z3.ForAll([j], z3.Implies(z3.And(inr(j, w), select(varr(w), j) != x), z3.And(inr(dst(j), r), select(varr(r), dst(j)) == select(varr(w), j), src(dst(j)) == j)), patterns=[z3.Select(varr(w), j)]))
            self.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(inr(i, r), inr(j, r), i < j), src(i) < src(j)), patterns=[z3.MultiPattern(src(i), src(j))]))
            self.store(st, p, r)
            return vlen(w) - vlen(r)
        if n == "swap" and len(a) == 2:
            p, r = self.try_lval(a[0], st), self.try_lval(a[1], st)
            x, y = self.load(st, p), self.load(st, r)
            self.store(st, p, y)
            self.store(st, r, x)
            return None
        if n in ("infinity", "max", "min", "epsilon", "lowest", "quiet_NaN") and "numeric_limits" in q:
            t = e["t"].deref()
            if t.fp:
                if n == "epsilon":
                    return z3.Q(1, 2 ** 52)
                return z3.Const({"infinity": "POS_INF", "max": "DBL_MAX", "min": "DBL_MIN", "epsilon": "DBL_EPS", "lowest": "DBL_LOWEST", "quiet_NaN": "NAN"}[n], R)
            bits = t.bits or 32
            if n == "max":
                return z3.IntVal((1 << (bits - 1)) - 1 if t.sg else (1 << bits) - 1)
            if n in ("min", "lowest"):
                return z3.IntVal(-(1 << (bits - 1)) if t.sg else 0)
        vals = [self.eval(x, st) for x in a]
        return self.std_call_vals(fr, vals, st, e)

    def rv(self, x):
        return self.toreal(x)

    def std_call_vals(self, fr, v, st, e=None):
        q = fr["q"]
        n = q.split("::")[-1]
        MATH = {"log": LOG, "exp": EXP, "lgamma": LGAMMA, "sqrt": SQRT}
        if n in MATH:
            x = self.rv(v[0])
            if n in ("log", "lgamma") and not self.opts.get("no_log_check"):
                self.oblige(st, x > 0, "%s of a positive number" % n, "arith")
            if n == "sqrt":
                self.oblige(st, x >= 0, "sqrt of a non-negative number", "arith")
            return MATH[n](x)
        if n == "log1p":
            x = self.rv(v[0])
            if not self.opts.get("no_log_check"):
                self.oblige(st, 1 + x > 0, "log1p argument above -1", "arith")
            return LOG(1 + x)
        if n in ("abs", "fabs"):
            x = v[0]
            return z3.If(x >= 0, x, -x)
        if n in ("floor", "ceil", "round", "log2", "log10", "tgamma", "erf", "sin", "cos", "digamma"):
            x = self.rv(v[0])
            if n == "floor":
                return z3.ToReal(z3.ToInt(x))
            return uf1(n)(x)
        if n == "pow":
            return z3.Function("pow", R, R, R)(self.rv(v[0]), self.rv(v[1]))
        if n == "cyl_bessel_i":
            return z3.Function("bessel_i", R, R, R)(self.rv(v[0]), self.rv(v[1]))
        if n in ("isnan", "isinf"):
            self.axioms_used.add("isnan/isinf are false in real arithmetic")
            return z3.BoolVal(False)
        if n == "isfinite":
            x = self.rv(v[0])
            return x != NEGINF
        if n in ("max", "min") and len(v) == 2 and is_term(v[0]):
            x, y = v
            if n == "max":
                return z3.If(x < y, y, x)
            return z3.If(y < x, y, x)
        if n == "ssize" or n == "size":
            if is_vec(v[0].sort()):
                return vlen(v[0])
            return self.card(st, v[0])
        if n == "distance":
            return v[1].idx - v[0].idx
        if n in ("next", "prev"):
            d = v[1] if len(v) > 1 else z3.IntVal(1)
            return Iter(v[0].cont, v[0].ct, v[0].idx + (d if n == "next" else -d), v[0].rev)
        if n in ("begin", "cbegin", "end", "cend"):
            raise Unsupported("std::begin")
        if n in ("max_element", "min_element") and len(v) == 2:
            b, en = v
            c = self.cont_val(b, st)
            if is_map(b.ct):
                # pairs compare by key first; keys are distinct
                if c.sort().domain() != I:
                    raise Unsupported(n + " over a map whose keys are not numbers")
                mk, i = fresh("extkey", I), fresh("i", I)
                self.card(st, c)
                self.facts.append(z3.Implies(self.card(st, c) > 0, inn(c, mk)))
                self.facts.append(z3.ForAll([i], z3.Implies(inn(c, i), i <= mk if n == "max_element" else mk <= i), patterns=[z3.Select(c, i)]))
                return Iter(b.cont, b.ct, z3.IntVal(0), key=mk)
            m = fresh("maxidx", I)
            nonempty = b.idx < en.idx
            i = fresh("i", I)
            a = varr(c)
            self.facts.append(z3.If(nonempty, z3.And(b.idx <= m, m < en.idx), m == en.idx))
            cmp_ = (lambda x, y: x <= y) if n == "max_element" else (lambda x, y: x >= y)
            if a.sort().range() in (I, R):
                self.facts.append(z3.ForAll([i], z3.Implies(z3.And(b.idx <= i, i < en.idx), cmp_(select(a, i), select(a, m)))))
                self.facts.append(z3.ForAll([i], z3.Implies(z3.And(b.idx <= i, i < m), select(a, i) != select(a, m))))
            return Iter(b.cont, b.ct, m)
        if n == "accumulate" and len(v) == 3:
            b, en, init = v
            c = self.cont_val(b, st)
            a = varr(c)
            return self.conv(init, DOUBLE, st) + self.SUM(lambda i: self.rv(select(a, i)), b.idx, en.idx)
        if n == "find" and len(v) == 3:
            b, en, x = v
            c = self.cont_val(b, st)
            a = varr(c)
            m = fresh("found", I)
            i = fresh("i", I)
            self.facts.append(z3.And(z3.Implies(b.idx <= en.idx, z3.And(b.idx <= m, m <= en.idx)), z3.Implies(m < en.idx, select(a, m) == x)))
            self.facts.append(z3.ForAll([i], z3.Implies(z3.And(b.idx <= i, i < m), select(a, i) != x)))
            return Iter(b.cont, b.ct, m)
        if n == "make_pair" or n == "make_tuple" or n == "tie":
            t = e["t"].deref()
            return sort(t).constructor(0)(*[self.conv(x, y, st) for x, y in zip(v, t.args)])
        if n == "to_string":
            return z3.Function("to_string_" + an_(v[0].sort()), v[0].sort(), vec_sort(I))(v[0])
        if n in ("stoi", "stod", "stol", "atof", "atoi", "stoul"):
            x = self.tostr(v[0])
            return z3.Function(n, vec_sort(I), R if n in ("stod", "atof") else I)(x)
        if n in ("isspace", "isdigit", "isalpha", "isalnum", "toupper", "tolower", "ispunct", "isprint"):
            if n == "isdigit":
                return z3.If(z3.And(v[0] >= 48, v[0] <= 57), z3.IntVal(1), z3.IntVal(0))
            if n == "isspace":
                return z3.If(z3.Or(v[0] == 32, z3.And(v[0] >= 9, v[0] <= 13)), z3.IntVal(1), z3.IntVal(0))
            return z3.Function(n, I, I)(v[0])
        if n == "transform" and len(v) == 4:
            b, en, out, f = v
            c = self.cont_val(b, st)
            o = self.load(st, out.cont)
            j = fresh("j", I)
            a = varr(c)
            saved = self.quiet
            r = self.call_closure(f, None, st, [select(a, j)])
            if isinstance(r, Ref):
                r = self.load(st, r.p)
            oa = varr(o)
            cnt = en.idx - b.idx
            b0, o0 = b.idx, out.idx
            self.oblige(st, o0 + cnt <= vlen(o), "transform output range", "safety")
            r = self.conv(r, elem_t(out.ct), st)
            res = lam(I, lambda i: z3.If(z3.And(o0 <= i, i < o0 + cnt), z3.substitute(r, (j, b0 + i - o0)), select(oa, i)), "i")
            self.store(st, out.cont, o.sort().constructor(0)(vlen(o), res))
            return Iter(out.cont, out.ct, o0 + cnt)
        if n in ("cmp_equal", "cmp_not_equal", "cmp_less", "cmp_less_equal", "cmp_greater", "cmp_greater_equal") and len(v) == 2:
            return {"cmp_equal": v[0] == v[1], "cmp_not_equal": v[0] != v[1], "cmp_less": v[0] < v[1], "cmp_less_equal": v[0] <= v[1], "cmp_greater": v[0] > v[1], "cmp_greater_equal": v[0] >= v[1]}[n]
        if n in ("push_heap", "pop_heap") and len(v) == 2 and all(isinstance(u, Iter) and not u.rev and isinstance(u.cont, Place) and is_seq(u.ct) for u in v):
            return self.heap_op(n, v[0], v[1], st)
        if n == "operator==" and len(v) == 2:
            return v[0] == v[1]
        if n in ("copy", "sort", "shuffle", "iota", "fill", "any_of", "all_of", "none_of", "count", "count_if", "find_if", "transform", "reverse", "lower_bound", "unique"):
            if n in ("any_of", "all_of", "none_of"):
                b, en, f = v
                c = self.cont_val(b, st)
                if is_seq(b.ct):
                    j = fresh("j", I)
                    s2 = st.with_pc(z3.And(b.idx <= j, j < en.idx))
                    r = self.truth(self.call_closure(f, None, s2, [select(varr(c), j)]), st)
                    body = z3.And(b.idx <= j, j < en.idx, r if n != "all_of" else z3.Not(r))
                    ex = z3.Exists([j], body)
                    return ex if n == "any_of" else z3.Not(ex)
        raise Unsupported("call of " + q)

    def heap_op(self, n, b, en, st):
        """std::push_heap / std::pop_heap over a whole vector whose elements are compared by a defaulted operator<=>"""
        et = elem_t(b.ct)
        rn = et.s
        if not (et.k == "c" and rn in self.prog.records):
            raise Unsupported("heap of " + rn)
        for f in self.prog.funcs.values():
            if not f.d.get("dflt") and "operator" in f.sname and (f.sname.startswith(rn + "::operator") or any(p["t"].deref().s == rn for p in f.params)) and any(f.sname.endswith(o) for o in ("<", ">", "<=>", "<=", ">=")):
                raise Unsupported("user-defined order of " + rn)
        c = self.load(st, b.cont)
        a, m = varr(c), vlen(c)
        H = z3.Function("HEAP_" + an_(a.sort()), a.sort(), I, B)
        es = sort(et)
        key = lambda t: sel(t, 0)
        if sel(default(es), 0).sort() not in (R, I):
            raise Unsupported("first field of " + rn)
        if ("heap", es.name()) not in self.__dict__.setdefault("heapseen", set()):
            self.heapseen.add(("heap", es.name()))
            x, i, k, e = fresh("ha", a.sort()), fresh("i", I), fresh("m", I), fresh("e", es)
            self.globals.append(z3.ForAll([x, i, k], z3.Implies(z3.And(H(x, k), 0 <= i, i < k), key(z3.Select(x, i)) <= key(z3.Select(x, 0))), patterns=[z3.MultiPattern(H(x, k), z3.Select(x, i))]))
            self.globals.append(z3.ForAll([x, e, k], H(z3.Store(x, k, e), k) == H(x, k), patterns=[H(z3.Store(x, k, e), k)]))
            self.globals.append(z3.ForAll([x, k], z3.Implies(k <= 1, H(x, k)), patterns=[H(x, k)]))
        self.oblige(st, z3.And(b.idx == 0, en.idx == m, m >= 1), "%s over the whole non-empty vector" % n, "safety")
        r = fresh("heap", a.sort())
        i, j = fresh("i", I), fresh("j", I)
        src, dst = (z3.Function(fresh(nm_, I).decl().name(), I, I) for nm_ in ("src", "dst"))
        if n == "push_heap":
            self.oblige(st, H(a, m - 1), "push_heap on a heap", "safety")
            lo, hi = 0, m
            self.fact(st, H(r, m))
        else:
            self.oblige(st, H(a, m), "pop_heap on a heap", "safety")
            lo, hi = 1, m - 1
            self.fact(st, z3.And(H(r, m - 1), z3.Select(r, m - 1) == z3.Select(a, 0)))
        self.fact(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < hi), z3.And(lo <= src(i), src(i) < m, z3.Select(r, i) == z3.Select(a, src(i)), dst(src(i)) == i)), patterns=[z3.Select(r, i)]))
        self.fact(st, z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < m), z3.And(0 <= dst(j), dst(j) < hi, src(dst(j)) == j)), patterns=[dst(j)]))
        self.fact(st, z3.ForAll([i], z3.Implies(z3.Not(z3.And(0 <= i, i < m)), z3.Select(r, i) == z3.Select(a, i)), patterns=[z3.Select(r, i)]))
        self.store(st, b.cont, c.sort().constructor(0)(m, r))
        for h in self.__dict__.get("heap_hooks", []):
            h(self, st, n, c, self.load(st, b.cont))
        return None

    def SUM(self, f, lo, hi):
        v = fresh("si", I)
        body = z3.simplify(f(v))
        return SUMF(z3.Lambda([v], body), lo, hi)

    def std_get(self, e, fr, n, st):
        a = e["c"]
        p = self.try_lval(a[0], st)
        t = a[0]["t"].deref()
        if n == "get_if":
            v0 = self.eval(a[0], st)
            if isinstance(v0, PtrTo):
                p = v0.p
                t = p.t.deref()
        ta = [x["int"] if isinstance(x, dict) and "int" in x else x for x in (fr.get("ta") or [])]
        v = self.load(st, p) if isinstance(p, Place) else self.eval(a[0], st)
        if t.k == "c" and t.n == "std::variant":
            want = ta[0] if ta else None
            if isinstance(want, str):
                i = int(want)
            else:
                i = [x.s for x in t.args].index(want.s)
            if n == "holds_alternative":
                return sel(v, 0) == i
            if n == "get":
                self.oblige(st, sel(v, 0) == i, "variant holds the alternative", "safety")
                return Ref(p.ext(("f", i + 1), t.args[i])) if isinstance(p, Place) else sel(v, i + 1)
            if n == "get_if" and isinstance(p, Place):
                return PtrTo(p.ext(("f", i + 1), t.args[i]), sel(v, 0) == i)
            raise Unsupported("get_if")
        if t.k == "c" and t.n in ("std::pair", "std::tuple"):
            i = int(ta[0])
            if isinstance(p, Place):
                return Ref(p.ext(("f", i), t.args[i]))
            return sel(v, i)
        raise Unsupported("std::get on " + t.s)

    def visit(self, e, st):
        a = e["c"]
        f = self.eval(a[0], st)
        if len(a) != 2:
            raise Unsupported("visit of several variants")
        p = self.try_lval(a[1], st)
        t = a[1]["t"].deref()
        v = self.load(st, p) if isinstance(p, Place) else self.eval(a[1], st)
        if not isinstance(f, Closure):
            raise Unsupported("visit with " + repr(f))
        hook = self.opts.get("visit")
        if hook is not None:
            r = hook(self, f, t, v, p, st)
            if r is not NotImplemented:
                return r
        fs = [self.prog.funcs[o] for o in f.node["ops"] if o in self.prog.funcs]
        base = st.pc
        outs = []
        for i, at in enumerate(t.args):
            g = [x for x in fs if x.params[0]["t"].deref().s == at.s]
            if not g:
                raise Unsupported("visit alternative " + at.s)
            s1 = st.with_pc(sel(v, 0) == i)
            pt = g[0].params[0]["t"]
            if pt.k == "r" and isinstance(p, Place):
                av = Ref(p.ext(("f", i + 1), at))
            else:
                av = sel(v, i + 1)
            r = self.call_lambda(f, g[0], [av], s1)
            outs.append((s1, r, sel(v, 0) == i))
        res, val, _ = outs[-1]
        for s1, r, c in outs[-2::-1]:
            res = self.merge(c, s1, res, base)
            if r is not None and val is not None:
                val = self.mergev(c, r, val)
        st.env.clear(); st.env.update(res.env)
        st.heap.clear(); st.heap.update(res.heap)
        st.draws = res.draws
        return val

    # ---------------------------------------------------------- randomness
    def draw(self, obj, st):
        kind, vals, t = obj.data
        it = t.args[0] if t.args and isinstance(t.args[0], Type) else DOUBLE
        r = fresh("draw", sort(it))
        if kind == "uniform_int_distribution":
            self.fact(st, z3.And(vals[0] <= r, r <= vals[1]))
        elif kind == "uniform_real_distribution":
            lo = vals[0] if vals else z3.RealVal(0)
            hi = vals[1] if len(vals) > 1 else z3.RealVal(1)
            self.fact(st, z3.And(lo <= r, r <= hi))
        elif kind == "discrete_distribution":
            w = None
            if isinstance(vals[0], Iter):
                w = self.range_vec(vals[0], vals[1], vec_t(DOUBLE), st)
            elif is_term(vals[0]) and is_vec(vals[0].sort()):
                w = vals[0]
            if w is None:
                raise Unsupported("discrete_distribution arguments")
            self.fact(st, z3.And(0 <= r, z3.Or(r < vlen(w), z3.And(r == 0, vlen(w) <= 0))))
            wi = fresh("wi", I)
            self.fact(st, z3.Implies(z3.Exists([wi], z3.And(0 <= wi, wi < vlen(w), select(varr(w), wi) > 0)), select(varr(w), r) > 0))
            vals = [w]
        elif kind in ("gamma_distribution", "exponential_distribution"):
            self.fact(st, r > 0)
        elif kind in ("poisson_distribution", "geometric_distribution"):
            self.fact(st, r >= 0)
        st.draws = st.draws + (("draw", kind, tuple(vals), r),)
        return r
