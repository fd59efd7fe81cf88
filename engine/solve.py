"""Discharging obligations: theory instantiation on ground terms, z3 first, other back ends second."""
import os, time, subprocess, tempfile, itertools, multiprocessing, signal
import z3
from sorts import *

TMO = int(os.environ.get("VERIF_SOLVER_MS", "8000"))


def closed(t):
    st = [(t, 0)]
    seen = set()
    while st:
        x, d = st.pop()
        if (x.get_id(), d) in seen:
            continue
        seen.add((x.get_id(), d))
        if z3.is_var(x):
            if z3.get_var_index(x) >= d:
                return False
        elif z3.is_quantifier(x):
            st.append((x.body(), d + x.num_vars()))
        else:
            st.extend((c, d) for c in x.children())
    return True


AX = {
    "sum-ext": "two finite sums over the same range with pointwise equal terms are equal",
    "sum-point": "changing one term of a finite sum changes the sum by the change of that term",
    "sum-unfold": "sum over [lo,hi) = 0 if hi<=lo, else sum over [lo,hi-1) plus the last term",
    "log-mul": "ln(a*b)=ln a+ln b, ln(a/b)=ln a-ln b for a,b>0; ln 1=0",
    "log-factor": "ln of a rational expression is the sum of the ln of its positive polynomial factors (factored by sympy); a decimal literal within 1e-15 of a small multiple of pi is that multiple",
    "exp-log": "exp(ln x)=x for x>0; ln(exp x)=x; exp>0",
    "exp-add": "exp(a+b)=exp a exp b",
    "sum-linear": "a finite sum of c*f(i)+d is c times the sum of f plus d times the number of terms",
    "lgamma": "lgamma(x+1)=lgamma(x)+ln x for x>0; lgamma(1)=lgamma(2)=0",
    "sqrt": "sqrt(x)>=0 and sqrt(x)^2=x for x>=0",
    "fold": "a fold over the elements of a container does not depend on order",
}


def base_name(d):
    return d.name()


def rterm(x):
    return x


_fac = {}


def ratfactor(x):
    """x as constant * prod(f_i^e_i) with irreducible polynomial factors (sympy); None when there is nothing to factor"""
    k = x.get_id()
    if k in _fac:
        return _fac[k][1]
    r = None
    try:
        r = _ratfactor(x)
    except Exception:
        r = None
    _fac[k] = (x, r)
    return r


def _ratfactor(x):
    import sympy
    atoms = {}
    size = [0]

    def tos(t):
        size[0] += 1
        if size[0] > 400:
            raise ValueError("too big")
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else t.as_long()
            return sympy.Rational(f.numerator, f.denominator)
        if z3.is_app(t):
            kd = t.decl().kind()
            ch = t.children()
            if kd == z3.Z3_OP_ADD:
                return sympy.Add(*[tos(c) for c in ch])
            if kd == z3.Z3_OP_MUL:
                return sympy.Mul(*[tos(c) for c in ch])
            if kd == z3.Z3_OP_SUB:
                r = tos(ch[0])
                for c in ch[1:]:
                    r = r - tos(c)
                return r
            if kd == z3.Z3_OP_UMINUS:
                return -tos(ch[0])
            if kd == z3.Z3_OP_DIV:
                return tos(ch[0]) / tos(ch[1])
            if kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
                return tos(ch[0]) ** ch[1].numerator_as_long()
            if kd == z3.Z3_OP_TO_REAL and z3.is_app(ch[0]) and ch[0].decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
                i = ch[0]
                parts = [z3.ToReal(c) if not z3.is_int_value(c) else z3.RealVal(c.as_long()) for c in i.children()]
                if i.decl().kind() == z3.Z3_OP_ADD:
                    return sympy.Add(*[tos(c) for c in parts])
                if i.decl().kind() == z3.Z3_OP_MUL:
                    return sympy.Mul(*[tos(c) for c in parts])
                return tos(parts[0]) - sympy.Add(*[tos(c) for c in parts[1:]])
        nmn = "a%d" % t.get_id()
        atoms[nmn] = t
        return sympy.Symbol(nmn)
    e = tos(x)
    if not atoms:
        return None
    num, den = sympy.fraction(sympy.together(e))
    syms = [sympy.Symbol(a) for a in sorted(atoms)]

    def back(poly):
        ts = []
        for mon, co in sympy.Poly(poly, *syms).terms():
            co = sympy.Rational(co)
            t = z3.RealVal("%d/%d" % (co.p, co.q)) if co != 1 or not any(mon) else None
            fs = [] if t is None else [t]
            for sy, ex in zip(syms, mon):
                fs += [atoms[sy.name]] * ex
            ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)
    const = sympy.Rational(1)
    out = []
    for pol, sg in ((num, 1), (den, -1)):
        c, fl = sympy.factor_list(pol, *syms)
        const = const * sympy.Rational(c) ** sg
        for f, m in fl:
            lc = sympy.Poly(f, *syms).LC()
            if lc < 0:
                f = -f
                const = const * (-1) ** m
            out.append((back(f), m * sg))
    if const <= 0:
        return None
    return (const if const != 1 else None, [(z3.simplify(f), m) for f, m in out])


PI_Q = None


def lnconst(q, LOG):
    """ln of a positive rational numeral as sum of ln of primes (and of the pi literal)"""
    import sympy
    from fractions import Fraction
    pi = Fraction(314159265358979323851, 10 ** 20)
    q = Fraction(int(q.p), int(q.q)) if hasattr(q, "p") else Fraction(q)
    ts = []
    def small(f):
        return f.numerator < 10 ** 6 and f.denominator < 10 ** 6
    if not small(q):
        for e in (1, -1):
            q2 = (q / pi ** e).limit_denominator(64)
            # a decimal literal for a multiple of pi counts as that multiple (the double nearest to it)
            if q2 > 0 and abs(q / pi ** e / q2 - 1) < Fraction(1, 10 ** 15):
                q = q2
                ts.append(e * LOG(z3.RealVal("%d/%d" % (pi.numerator, pi.denominator))))
                break
        else:
            return LOG(z3.RealVal("%d/%d" % (q.numerator, q.denominator)))
    for n, sg in ((q.numerator, 1), (q.denominator, -1)):
        for pr, m in sympy.factorint(n).items():
            ts.append(sg * m * LOG(z3.RealVal(int(pr))))
    return z3.Sum(*ts) if ts else z3.RealVal(0)


def linear_parts(f):
    """lambda i. sum_k c_k * g_k(i)  ->  [(c_k, g_k)]; g None stands for 1; None when there is nothing to split"""
    sk = z3.Const("i!lin", I)
    b = z3.simplify(z3.Select(f, sk))
    if b.sort() != R:
        return None

    def addends(t, co):
        kd = t.decl().kind() if z3.is_app(t) else None
        if kd == z3.Z3_OP_ADD:
            return [y for c in t.children() for y in addends(c, co)]
        if kd == z3.Z3_OP_SUB:
            return addends(t.arg(0), co) + [y for c in t.children()[1:] for y in addends(c, -co)]
        if kd == z3.Z3_OP_UMINUS:
            return addends(t.arg(0), -co)
        if kd == z3.Z3_OP_DIV and not occurs(t.arg(1), sk):
            return addends(t.arg(0), co / t.arg(1))
        if kd == z3.Z3_OP_MUL:
            fr = [c for c in t.children() if not occurs(c, sk)]
            de = [c for c in t.children() if occurs(c, sk)]
            if fr:
                for c in fr:
                    co = co * c
                if not de:
                    return [(co, None)]
                if len(de) == 1:
                    return addends(de[0], co)
                return [(co, z3.Product(*de))]
        if not occurs(t, sk):
            return [(co * t, None)]
        return [(co, t)]
    ps = addends(b, z3.RealVal(1))
    if len(ps) == 1 and ps[0][1] is not None and z3.simplify(ps[0][0]).eq(z3.RealVal(1)):
        return None
    return [(z3.simplify(c), None if g is None else z3.Lambda([sk], g)) for c, g in ps]


def theory(terms, used, extra_keys=(), what=("log", "sum")):
    """ground instances of the theory lemmas for the applications occurring in terms"""
    out = []
    subs = subterms(terms)
    apps = {}
    consts = {}
    for x in subs:
        if not z3.is_app(x):
            continue
        n = x.decl().name()
        if n in ("SUM", "ln", "exp", "lgamma", "sqrt") or n.startswith("SETSUM_"):
            if closed(x) and not ("sum" not in what and has_sk(x)):
                apps.setdefault(n, []).append(x)
        elif x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            consts.setdefault(x.sort().sexpr(), []).append(x)
    LOG = z3.Function("ln", R, R)
    EXP = z3.Function("exp", R, R)
    LG = z3.Function("lgamma", R, R)
    lgs = apps.get("lgamma", [])
    newlogs = []
    for a, b in itertools.permutations(lgs, 2):
        x, y = a.arg(0), b.arg(0)
        d = z3.simplify(x - y)
        if z3.is_rational_value(d):
            if d.as_fraction() == 1:
                out.append(z3.Implies(y > 0, a == b + LOG(y)))
                newlogs.append(LOG(y))
                used.add("lgamma")
            continue
        if len(lgs) <= 16:
            out.append(z3.Implies(z3.And(x == y + 1, y > 0), a == b + LOG(y)))
            newlogs.append(LOG(y))
            used.add("lgamma")
    for a in lgs:
        out.append(z3.Implies(z3.Or(a.arg(0) == 1, a.arg(0) == 2), a == 0))
    logs = apps.get("ln", []) + newlogs
    done = set()
    work = list(logs)
    while work:
        l = work.pop()
        if l.get_id() in done:
            continue
        done.add(l.get_id())
        x = l.arg(0)
        out.append(z3.Implies(x == 1, l == 0))
        if "factor" in what and z3.is_rational_value(x) and x.as_fraction() > 0:
            out.append(l == lnconst(x.as_fraction(), LOG))
            continue
        if "factor" in what and z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_SUB, z3.Z3_OP_POWER):
            rf = ratfactor(x)
            if rf is not None and not (len(rf[1]) == 1 and rf[0] is None and rf[1][0][1] == 1 and rf[1][0][0].eq(x)):
                c, fl = rf
                rhs = [m * LOG(f) for f, m in fl] + ([lnconst(c, LOG)] if c is not None else [])
                out.append(z3.Implies(z3.And(*[f > 0 for f, m in fl]), l == z3.Sum(*rhs)))
                used.add("log-factor")
                for f, m in fl:
                    done.add(LOG(f).get_id())
                    out.append(z3.Implies(f == 1, LOG(f) == 0))
                continue
        if z3.is_app(x):
            k = x.decl().kind()
            ch = x.children()
            if k == z3.Z3_OP_MUL and len(ch) >= 2:
                ls = [LOG(c) for c in ch]
                out.append(z3.Implies(z3.And(*[c > 0 for c in ch]), l == z3.Sum(ls)))
                work += ls
                used.add("log-mul")
            elif k == z3.Z3_OP_DIV:
                ls = [LOG(c) for c in ch]
                out.append(z3.Implies(z3.And(*[c > 0 for c in ch]), l == ls[0] - ls[1]))
                work += ls
                used.add("log-mul")
            elif k == z3.Z3_OP_ITE:
                ls = [LOG(c) for c in ch[1:]]
                out.append(z3.If(ch[0], l == ls[0], l == ls[1]))
                work += ls
            elif k == z3.Z3_OP_UNINTERPRETED and x.decl().name() == "exp":
                out.append(l == x.arg(0))
                used.add("exp-log")
    exs = list(apps.get("exp", []))
    for e in exs:
        if len(exs) < 30 and z3.is_app(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_ITE:
            exs += [EXP(c) for c in e.arg(0).children()[1:]]
    for e in exs:
        out.append(e > 0)
        x = e.arg(0)
        out.append(z3.Implies(x == 0, e == 1))
        if z3.is_app(x) and x.decl().name() == "ln":
            out.append(z3.Implies(x.arg(0) > 0, e == x.arg(0)))
            used.add("exp-log")
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            out.append(e == z3.If(x.arg(0), EXP(x.arg(1)), EXP(x.arg(2))))
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) and x.num_args() <= 4 and "sum" not in what:
            cs = x.children()
            sg = [1] * len(cs) if x.decl().kind() == z3.Z3_OP_ADD else [-1] if len(cs) == 1 else [1] + [-1] * (len(cs) - 1)
            num, den = [], []
            for c, g in zip(cs, sg):
                if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL and c.num_args() == 2 and z3.is_rational_value(c.arg(0)) and c.arg(0).as_fraction() == -1:
                    c, g = c.arg(1), -g
                if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UMINUS:
                    c, g = c.arg(0), -g
                ec = EXP(c)
                if z3.is_app(c) and c.decl().name() == "ln":
                    out.append(z3.Implies(c.arg(0) > 0, ec == c.arg(0)))
                out.append(ec > 0)
                (num if g > 0 else den).append(ec)
            pr = lambda l: z3.RealVal(1) if not l else l[0] if len(l) == 1 else z3.Product(*l)
            out.append(e * pr(den) == pr(num))
            used.add("exp-add")
    for e in apps.get("sqrt", []):
        x = e.arg(0)
        out.append(z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)))
        out.append(z3.Implies(x > 0, e > 0))
        used.add("sqrt")
    exs = apps.get("exp", [])
    if len(exs) <= 12:
        for a, b in itertools.combinations(exs, 2):
            out.append((a.arg(0) < b.arg(0)) == (a < b))
            out.append((a.arg(0) == b.arg(0)) == (a == b))
    if "sum" not in what:
        return out
    out = []
    # --- finite sums
    sums = apps.get("SUM", [])
    for s in list(sums):
        f, lo, hi = s.children()
        parts = linear_parts(f)
        if parts is None:
            continue
        rhs = []
        for co, g in parts:
            if g is None:
                rhs.append(co * z3.ToReal(hi - lo))
            else:
                t = SUMF(g, lo, hi)
                if not any(t.eq(u) for u in sums):
                    sums = sums + [t]
                rhs.append(co * t)
        out.append(z3.Implies(hi >= lo, s == z3.Sum(*rhs)))
        used.add("sum-linear")
    for s in sums:
        f, lo, hi = s.children()
        out.append(z3.Implies(hi <= lo, s == 0))
        used.add("sum-unfold")
    if len(sums) <= 6:
        for s in sums:
            # a sum of non-negative terms is at least each of them
            f, lo, hi = s.children()
            sk, i = fresh("sk", I), fresh("i", I)
            out.append(z3.Or(z3.And(lo <= sk, sk < hi, z3.simplify(z3.Select(f, sk)) < 0),
                             z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.simplify(z3.Select(f, i)) <= s))))
    if len(sums) <= 14:
        for a, b in itertools.combinations(sums, 2):
            f, lo, hi = a.children()
            g, lo2, hi2 = b.children()
            if lo.eq(lo2) or True:
                sk = fresh("sk", I)
                fs, gs = z3.simplify(z3.Select(f, sk)), z3.simplify(z3.Select(g, sk))
                out.append(z3.Implies(z3.And(lo == lo2, hi == hi2), z3.Or(a == b, z3.And(lo <= sk, sk < hi, fs != gs))))
                used.add("sum-ext")
                # unfold when hi = hi2 + 1 (last term peeled) with pointwise equality below
                for u, v, (ff, l1, h1), (gg, l2, h2) in ((a, b, (f, lo, hi), (g, lo2, hi2)), (b, a, (g, lo2, hi2), (f, lo, hi))):
                    sk2 = fresh("sk", I)
                    f2, g2 = z3.simplify(z3.Select(ff, sk2)), z3.simplify(z3.Select(gg, sk2))
                    out.append(z3.Implies(z3.And(l1 == l2, h1 == h2 + 1, h2 >= l2),
                                          z3.Or(u == v + z3.simplify(z3.Select(ff, h2)), z3.And(l2 <= sk2, sk2 < h2, f2 != g2))))
                # point difference
                for p in extra_keys:
                    if p.sort() != I:
                        continue
                    sk3 = fresh("sk", I)
                    f3, g3 = z3.simplify(z3.Select(f, sk3)), z3.simplify(z3.Select(g, sk3))
                    out.append(z3.Implies(z3.And(lo == lo2, hi == hi2, lo <= p, p < hi),
                                          z3.Or(a - z3.simplify(z3.Select(f, p)) == b - z3.simplify(z3.Select(g, p)),
                                                z3.And(lo <= sk3, sk3 < hi, sk3 != p, f3 != g3))))
                    used.add("sum-point")
    for n, l in apps.items():
        if not n.startswith("SETSUM_"):
            continue
        ks = l[0].arg(0).sort().domain()
        used.add("fold")
        for a in l:
            sk = fresh("sk", ks)
            fs = z3.simplify(z3.Select(a.arg(0), sk))
            out.append(z3.Or(a == 0, fs != 0))
            sk = fresh("sk", ks)
            out.append(z3.Or(a >= 0, z3.simplify(z3.Select(a.arg(0), sk)) < 0))
        pts = [k for k in extra_keys if k.sort() == ks]
        if len(l) <= 14:
            for a, b in itertools.combinations(l, 2):
                f, g = a.arg(0), b.arg(0)
                sk = fresh("sk", ks)
                out.append(z3.Or(a == b, z3.simplify(z3.Select(f, sk)) != z3.simplify(z3.Select(g, sk))))
                for p in pts:
                    sk = fresh("sk", ks)
                    out.append(z3.Or(a - z3.simplify(z3.Select(f, p)) == b - z3.simplify(z3.Select(g, p)),
                                     z3.And(sk != p, z3.simplify(z3.Select(f, sk)) != z3.simplify(z3.Select(g, sk)))))
                for p, q in itertools.combinations(pts, 2):
                    sk = fresh("sk", ks)
                    fp, gp, fq, gq = [z3.simplify(z3.Select(h, w)) for h, w in ((f, p), (g, p), (f, q), (g, q))]
                    out.append(z3.Implies(p != q, z3.Or(a - fp - fq == b - gp - gq,
                                                        z3.And(sk != p, sk != q, z3.simplify(z3.Select(f, sk)) != z3.simplify(z3.Select(g, sk))))))
    return out


def array_args(ts):
    """equal arguments give equal values, for the functions of arrays (pointwise, with a witness of the difference)"""
    apps = {}
    for x in subterms(ts):
        if z3.is_app(x) and x.num_args() and x.decl().name().startswith(("SCORE_", "LOGP_")) and closed(x) and not has_sk(x):
            apps.setdefault(x.decl().name(), []).append(x)
    out = []
    for n, l in apps.items():
        if len(l) > 10:
            continue
        for a, b in itertools.combinations(l, 2):
            f, g = a.arg(0), b.arg(0)
            if f.eq(g):
                continue
            sk = fresh("sk", f.sort().domain())
            out.append(z3.Or(a == b, z3.simplify(z3.Select(f, sk)) != z3.simplify(z3.Select(g, sk)), *[p != q for p, q in zip(a.children()[1:], b.children()[1:]) if not p.eq(q)]))
    return out


def instances(ts, keys, used, factor=False):
    ext = array_args(ts)
    th = ext + theory(ts + ext, used, keys, ("sum",))
    # the instantiated sum lemmas expose further ln/lgamma terms (terms over lemma skolems are irrelevant)
    th += theory(ts + th, used, (), ("log", "factor") if factor else ("log",))
    return th


def interesting(ts):
    for x in subterms(ts):
        if z3.is_app(x):
            n = x.decl().name()
            if n in ("SUM", "ln", "exp", "lgamma", "sqrt") or n.startswith("SETSUM_"):
                return True
    return False


def has_sk(x):
    return any(z3.is_const(y) and y.decl().name().startswith("sk!") for y in subterms([x]))


def split_goal(g, depth=0):
    """conjunctive splitting; returns list of (hyps, goal)"""
    if depth < 6:
        if z3.is_and(g):
            return [x for c in g.children() for x in split_goal(c, depth + 1)]
        if z3.is_implies(g):
            return [([g.arg(0)] + h, x) for h, x in split_goal(g.arg(1), depth + 1)]
        if z3.is_quantifier(g) and g.is_forall():
            vs = [fresh("sk_" + g.var_name(i), g.var_sort(i)) for i in range(g.num_vars())]
            return split_goal(z3.substitute_vars(g.body(), *reversed(vs)), depth + 1)
        if z3.is_eq(g) and g.arg(0).sort().kind() in (z3.Z3_ARRAY_SORT,) and g.arg(0).sort().domain() is not None:
            a, b = g.arg(0), g.arg(1)
            k = fresh("ext", a.sort().domain())
            return split_goal(z3.simplify(select(a, k)) == z3.simplify(select(b, k)), depth + 1)
        if z3.is_eq(g) and g.arg(0).sort().kind() == z3.Z3_DATATYPE_SORT and not is_opt(g.arg(0).sort()):
            a, b = g.arg(0), g.arg(1)
            n = a.sort().constructor(0).arity()
            return [x for i in range(n) for x in split_goal(z3.simplify(sel(a, i)) == z3.simplify(sel(b, i)), depth + 1)]
        if z3.is_eq(g) and is_opt(g.arg(0).sort()):
            a, b = g.arg(0), g.arg(1)
            ia, ib = z3.simplify(is_some(a)), z3.simplify(is_some(b))
            return [([], ia == ib)] + [([ia, ib] + h, x) for h, x in split_goal(z3.simplify(oval(a)) == z3.simplify(oval(b)), depth + 1)]
    return [([], g)]


def keys_of(terms):
    """candidate points for the point-update lemmas: store indices and equality-with-constant keys"""
    out = {}
    for x in subterms(terms):
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_STORE and closed(x.arg(1)):
                out[x.arg(1).get_id()] = x.arg(1)
            elif x.decl().kind() == z3.Z3_OP_EQ:
                for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if z3.is_var(a) and closed(b) and not z3.is_quantifier(b):
                        out[b.get_id()] = b
    return list(out.values())


def ite_conds(g):
    """closed conditions of if-then-else terms in g, most frequent first"""
    cnt = {}
    for x in subterms([g]):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            while z3.is_not(c):
                c = c.arg(0)
            if closed(c) and not z3.is_true(c) and not z3.is_false(c):
                cs = [c]
                if z3.is_and(c) or z3.is_or(c):
                    cs = c.children()
                for c in cs:
                    while z3.is_not(c):
                        c = c.arg(0)
                    if c.get_id() in cnt:
                        cnt[c.get_id()][0] += 1
                    else:
                        cnt[c.get_id()] = [1, c]
    # innermost first: a condition that contains no other condition
    return [c for _, c in sorted(cnt.values(), key=lambda x: (-x[0], len(x[1].sexpr())))]


def attempt(fs, h, g, tmo, used, fast=False):
    neg = z3.Not(g)
    ts = fs + h + [neg]
    keys = keys_of([neg] + h)
    th1 = instances([neg] + h, keys[:8], used)
    r, b, m = run_solvers(fs + h + th1, neg, tmo, fast)
    if r != "proved" and interesting(ts):
        keys = keys_of(ts)[:10]
        th2 = instances(ts, keys, used)
        if len(th2) > len(th1):
            r2, b2, m2 = run_solvers(fs + h + th2, neg, tmo, fast)
            if r2 == "proved" or r == "timeout":
                r, b, m = r2, b2, m2
            else:
                m = m2
    if r != "proved":
        th3 = instances([neg] + h, keys_of([neg] + h)[:8], used, True)
        if "log-factor" in used and len(th3) > 0:
            r3, b3, m3 = run_solvers(fs + h + th3, neg, tmo, fast)
            if r3 == "proved":
                r, b, m = r3, b3, m3
    return r, b, m


def implied(fs, c, tmo=700):
    s = z3.Solver()
    s.set("auto_config", False)
    s.set("smt.mbqi", False)
    s.set("timeout", tmo)
    for f in fs:
        if not any(z3.is_quantifier(x) for x in subterms([f])):
            s.add(f)
    s.add(z3.Not(c))
    return s.check() == z3.unsat


def ratident(fs, g):
    """equation between real terms decided as an identity of rational functions (sympy), after substituting defining
    equations from the hypotheses, resolving conditionals the hypotheses decide, and proving every denominator non-zero (z3)"""
    if not (z3.is_eq(g) and g.arg(0).sort() == R):
        return False
    try:
        return _ratident(fs, g)
    except Exception:
        return False


def _ratident(fs, g):
    import sympy
    defs = {}
    eqs = []
    for f in fs:
        eqs += f.children() if z3.is_and(f) else [f]
    eqs = [z3.simplify(e) for e in eqs if not z3.is_quantifier(e)]
    t = z3.simplify(g.arg(0)) - z3.simplify(g.arg(1))
    LOG = z3.Function("ln", R, R)
    def identity(t):
        dens = []
        memo = {}

        def tos(x):
            r = memo.get(x.get_id())
            if r is None:
                r = memo[x.get_id()] = tos1(x)
            return r

        def tos1(x):
            if z3.is_rational_value(x) or z3.is_int_value(x):
                f = x.as_fraction() if z3.is_rational_value(x) else x
                return sympy.Rational(f.numerator, f.denominator) if z3.is_rational_value(x) else sympy.Integer(x.as_long())
            k = x.decl().kind()
            c = x.children()
            if k == z3.Z3_OP_ADD:
                return sympy.Add(*[tos(y) for y in c])
            if k == z3.Z3_OP_MUL:
                return sympy.Mul(*[tos(y) for y in c])
            if k == z3.Z3_OP_SUB:
                return tos(c[0]) - sympy.Add(*[tos(y) for y in c[1:]])
            if k == z3.Z3_OP_UMINUS:
                return -tos(c[0])
            if k == z3.Z3_OP_DIV:
                d = tos(c[1])
                dens.append((c[1], d))
                return tos(c[0]) / d
            if k == z3.Z3_OP_POWER and z3.is_rational_value(c[1]) and c[1].denominator_as_long() == 1 and c[1].numerator_as_long() > 0:
                return tos(c[0]) ** c[1].numerator_as_long()
            return sympy.Symbol("a%d" % x.get_id(), real=True)
        e = tos(t)
        if os.environ.get("RID"):
            print("E", e)
            for x in subterms([t]):
                print("   a%d" % x.get_id(), x.sexpr()[:300])
        # a random point first: cheap refutation
        import random
        rnd = random.Random(1)
        fsym = sorted(e.free_symbols, key=str)
        try:
            v = e.subs({y: sympy.Rational(rnd.randint(2, 97), rnd.randint(2, 89)) for y in fsym})
            if v != 0:
                return False
        except ZeroDivisionError:
            pass
        if sympy.numer(sympy.together(e)).expand() != 0:
            return False
        return all(z3.is_rational_value(d) or implied(fs, d != 0, 2000) for d, _ in dens)

    for rnd in range(12):
        while True:
            ites = [x for x in subterms([t]) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.sort() == R and not any(y.decl().kind() == z3.Z3_OP_ITE for y in subterms([x.arg(0)]) if z3.is_app(y))]
            did = False
            for x in ites:
                if implied(fs, x.arg(0)):
                    t = z3.substitute(t, (x, x.arg(1)))
                elif implied(fs, z3.Not(x.arg(0))):
                    t = z3.substitute(t, (x, x.arg(2)))
                else:
                    continue
                did = True
                break
            if not did:
                break
        for _ in range(4):
            for a, b in defs.values():
                if occurs2(t, a):
                    t = z3.simplify(z3.substitute(t, (a, b)))
        if identity(t):
            return True
        for x in subterms([t]):
            if z3.is_app(x) and x.decl().name() == "ln" and z3.is_rational_value(x.arg(0)) and x.arg(0).as_fraction() > 0:
                q = lnconst(x.arg(0).as_fraction(), LOG)
                if not q.eq(x):
                    t = z3.substitute(t, (x, q))
        cands = {x.get_id(): x for x in subterms([t]) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == R}
        ch = False
        for phase in (1, 0):
            consts = {k: x for k, x in cands.items() if (x.num_args() > 0) == bool(phase)}
            for e in eqs:
                if z3.is_implies(e):
                    c = e.arg(1)
                    if not (z3.is_eq(c) and any(y.get_id() in consts for y in c.children())) or not implied(fs, e.arg(0)):
                        continue
                    e = c
                if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_EQ):
                    continue
                for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    if a.get_id() in consts and a.get_id() not in defs and z3.is_app(b) and not occurs2(b, a):
                        if any(y.get_id() in defs for y in subterms([b])):
                            continue
                        defs[a.get_id()] = (a, b)
                        t = z3.simplify(z3.substitute(t, (a, b)))
                        ch = True
                        break
            if ch:
                break
            if phase:
                # no more equations between function values: they are opaque from here on
                fa = [x for x in subterms([t]) if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == R]
                fa.sort(key=lambda x: -len(x.sexpr()))
                for x in fa:
                    if os.environ.get("RID"):
                        print("OPQ", x.sexpr()[:400])
                    if occurs2(t, x):
                        t = z3.substitute(t, (x, fresh("opq", R)))
                        ch = True
                if ch:
                    break
        if not ch:
            break
    return identity(t)


def occurs2(t, a):
    return any(x.get_id() == a.get_id() for x in subterms([t]))


def check_one(hyps, goal, tmo, used, tactics=True):
    """'proved' | 'refuted' | 'incomplete' | 'timeout', backend, model"""
    t0 = time.time()
    res = "proved"
    back = set()
    model = None
    for h, g in split_goal(goal):
        g = z3.simplify(g)
        if z3.is_true(g):
            back.add("simplifier")
            continue
        r, b, m = attempt(list(hyps), list(h), g, tmo, used, True)
        if r != "proved" and not (r == "refuted" and not interesting(list(hyps) + list(h) + [g])):
            if has_mul([g]) and ratident(list(hyps) + list(h), g):
                r, b, m = "proved", "sympy(rational identity)+z3", None
            if r != "proved":
                r, b, m = cases(list(hyps), list(h), g, tmo, used, (r, b, m), 4)
            if r != "proved":
                r, b, m = attempt(list(hyps), list(h), g, tmo, used)
        back.add(b)
        if r != "proved":
            return r, b, time.time() - t0, m
    return res, "+".join(sorted(back)), time.time() - t0, model


def cases(hyps, h, g, tmo, used, last, depth):
    cs = ite_conds(g)
    if not cs or depth == 0:
        return last
    c = cs[0]
    out = "proved"
    back = set()
    for val in (True, False):
        sub = (c, z3.BoolVal(val))
        g2 = z3.simplify(z3.substitute(g, sub))
        if z3.is_true(g2):
            continue
        fs = [z3.simplify(z3.substitute(f, sub)) if not z3.is_quantifier(f) else f for f in hyps + h]
        fs = [f for f in fs if not z3.is_true(f)]
        if any(z3.is_false(f) for f in fs):
            continue
        asm = c if val else z3.Not(c)
        hh = [asm]
        r, b, m = attempt(fs, hh, g2, min(tmo, 4000), used, True)
        if r != "proved":
            r, b, m = cases(fs + hh, [], g2, tmo, used, (r, b, m), depth - 1)
        if r != "proved":
            return r, b, m
        back.add(b)
    return out, "+".join(sorted(back) + ["case split"]), None


def has_mul(ts):
    for x in subterms(ts):
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
            if sum(1 for c in x.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))) >= 2:
                return True
    return False


def run_solvers(fs, neg, tmo, fast=False):
    """portfolio: z3 e-matching only, z3 with model-based instantiation, z3 nonlinear, cvc5"""
    def mk(**kw):
        s = z3.Solver()
        for k, v in kw.items():
            s.set(k.replace("__", "."), v)
        for f in fs:
            s.add(f)
        s.add(neg)
        return s
    if os.environ.get("VERIF_DUMP"):
        z = mk()
        open(os.path.join(os.environ["VERIF_DUMP"], "q%d.smt2" % abs(hash(neg.sexpr()))), "w").write(z.to_smt2())
    s2 = mk(auto_config=False, smt__mbqi=False, timeout=1200 if fast else min(tmo, 5000))
    r2 = s2.check()
    if r2 == z3.unsat:
        return "proved", "z3(e-matching)", None
    rr2 = s2.reason_unknown() if r2 == z3.unknown else "sat"
    # same query with its hypotheses tracked one by one: keeps the front-end simplifications from merging them
    s4 = z3.Solver()
    s4.set("auto_config", False)
    s4.set("smt.mbqi", False)
    s4.set("timeout", 1200 if fast else min(tmo, 5000))
    s4.set(unsat_core=True)
    for i, f in enumerate(fs + [neg]):
        s4.assert_and_track(f, "track%d" % i)
    if s4.check() == z3.unsat:
        return "proved", "z3(e-matching)", None
    s = mk(timeout=1200 if fast else tmo)
    r = s.check()
    if r == z3.unsat:
        return "proved", "z3", None
    if r == z3.sat:
        return "refuted", "z3", modelstr(s.model())
    reason = s.reason_unknown()
    if not fast and has_mul([neg] + fs):
        try:
            s3 = z3.SolverFor("QF_UFNRA")
            s3.set("timeout", tmo)
            for f in fs:
                if not any(z3.is_quantifier(x) for x in subterms([f])):
                    s3.add(f)
            s3.add(neg)
            if s3.check() == z3.unsat:
                return "proved", "z3(nra)", None
        except z3.Z3Exception:
            pass
    c = cvc5(s.to_smt2(), tmo) if not fast else None
    if c == "unsat":
        return "proved", "cvc5", None
    m = None
    try:
        m = modelstr(s2.model()) if r2 == z3.unknown and "incomplete" in rr2 else None
    except z3.Z3Exception:
        pass
    why = "%s / %s" % (rr2, reason)
    if "incomplete" in rr2 or "incomplete" in reason:
        return "incomplete", "z3:" + why, m
    return "timeout", "z3:" + why, m


def modelstr(m):
    out = []
    try:
        for d in list(m.decls())[:400]:
            s = str(m[d])
            if d.arity() == 0 and len(s) < 300 and not d.name().startswith("k!"):
                out.append("%s = %s" % (d.name(), s.replace("\n", " ")))
    except Exception as e:
        out.append(repr(e))
    return "\n".join(sorted(out)[:120])


def cvc5(smt, tmo):
    try:
        txt = "(set-logic ALL)\n" + smt
        if "(lambda" in txt or "(_ as-array" in txt or "((as const" in txt and False:
            txt = "(set-logic HO_ALL)\n" + smt
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % tmo, "-"], input=txt, capture_output=True, text=True, timeout=tmo / 1000 + 5)
        return p.stdout.strip().split("\n")[0] if p.stdout else "error"
    except Exception:
        return "error"


_work = []


class Late(BaseException):
    pass


def _do(i):
    hyps, goal, tmo = _work[i]
    used = set()
    t0 = time.time()

    def late(*a):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(1, 5 * tmo // 1000))
    try:
        r = check_one(hyps, goal, tmo, used)
    except z3.Z3Exception as e:
        r = ("incomplete", "z3 error %s" % e, time.time() - t0, None)
    except (Late, KeyboardInterrupt):
        r = ("timeout", "budget for one obligation", time.time() - t0, None)
    finally:
        signal.alarm(0)
    return i, r, used


def run(jobs, procs=8, tmo=None):
    """jobs: list of (hyps, goal); returns list of (result, backend, secs, model)"""
    global _work
    _work = [(h, g, tmo or TMO) for h, g in jobs]
    used = set()
    out = [None] * len(jobs)
    if not jobs:
        return out, used
    ctx = multiprocessing.get_context("fork")
    from multiprocessing.connection import wait
    todo = list(range(len(jobs)))[::-1]
    live = {}      # connection -> [process, job, start]

    def worker(c):
        while True:
            i = c.recv()
            if i is None:
                os._exit(0)
            c.send(_do(i))

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b,), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, 0.0]
        feed(a)

    def feed(c):
        if todo:
            i = todo.pop()
            live[c][1:] = [i, time.time()]
            c.send(i)
        else:
            live[c][1] = None

    def drop(c):
        p = live.pop(c)[0]
        p.kill()
        p.join()
        c.close()
    for _ in range(min(procs, len(jobs))):
        start()
    while any(v[1] is not None for v in live.values()):
        ready = wait([c for c, v in live.items() if v[1] is not None], 1.0)
        for c in ready:
            try:
                i, r, u = c.recv()
            except (EOFError, OSError):
                out[live[c][1]] = ("timeout", "the solver process died", time.time() - live[c][2], None)
                drop(c)
                if todo:
                    start()
                continue
            out[i] = r
            used |= u
            feed(c)
        now = time.time()
        for c, v in list(live.items()):
            # a solver that ignores its time limit is killed
            if v[1] is not None and now - v[2] > 6 * _work[v[1]][2] / 1000 + 5:
                out[v[1]] = ("timeout", "killed", now - v[2], None)
                drop(c)
                if todo:
                    start()
    for c in list(live):
        drop(c)
    return out, used
