"""C++ types -> z3 sorts, defaults, container theory."""
import z3
from ir import *

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_cache = {}
_rec_fields = {}     # record type name -> [(field, Type)]
_ghost = {}          # generic class name -> [(field, sort)]
PROG = None


def set_prog(p):
    global PROG
    PROG = p


def nm(s):
    return s.replace(" ", "_")


_opt = {}


def opt_sort(s):
    key = s.sexpr() if hasattr(s, "sexpr") else str(s)
    if key not in _opt:
        d = z3.Datatype("Opt_" + nm(s.name() if s.kind() == z3.Z3_DATATYPE_SORT else key))
        d.declare("none%d" % len(_opt))
        d.declare("some%d" % len(_opt), ("val%d" % len(_opt), s))
        _opt[key] = d.create()
    return _opt[key]


_vec = {}


def vec_sort(s):
    key = s.sexpr()
    if key not in _vec:
        d = z3.Datatype("Vec_" + nm(s.name() if s.kind() == z3.Z3_DATATYPE_SORT else key))
        d.declare("mkvec%d" % len(_vec), ("len%d" % len(_vec), I), ("arr%d" % len(_vec), z3.ArraySort(I, s)))
        _vec[key] = d.create()
    return _vec[key]


_tup = {}


def tup_sort(sorts, name=None):
    key = name or "|".join(s.sexpr() for s in sorts)
    if key not in _tup:
        d = z3.Datatype("Tup_%d" % len(_tup) if not name else name)
        d.declare("mktup%d" % len(_tup), *[("t%d_%d" % (i, len(_tup)), s) for i, s in enumerate(sorts)])
        _tup[key] = d.create()
    return _tup[key]


_rec = {}


def rec_fields(t):
    n = t.deref().s if isinstance(t, Type) else t.s
    if n not in _rec_fields:
        if n not in PROG.records:
            raise Unsupported("record " + n)
        out = []
        for f, ft, init in PROG.all_fields(n):
            out.append((f, ft))
        g = []
        for b in PROG.base_chain(n):
            r = PROG.records.get(b)
            if r is not None:
                for gf in _ghost.get(r.generic, []) if b == n or r.generic not in _ghost_own else []:
                    g.append((gf[0], gf[1](b) if callable(gf[1]) and not isinstance(gf[1], (z3.SortRef, Type)) else gf[1]))
        _rec_fields[n] = out + g
    return _rec_fields[n]


_ghost_own = set()


def ghost_fields(generic, fields, inherit=True):
    _ghost[generic] = fields
    if not inherit:
        _ghost_own.add(generic)


def fsort(ft):
    if isinstance(ft, z3.SortRef):
        return ft
    try:
        return sort(ft)
    except Unsupported:
        return z3.DeclareSort("Opaque_" + nm(ft.s))


def rec_sort(t):
    n = t.s
    if n not in _rec:
        fs = rec_fields(t)
        d = z3.Datatype("Rec_" + nm(n))
        fl = [(nm(n) + "." + f, fsort(ft)) for f, ft in fs]
        d.declare("mkrec_" + nm(n), *fl)
        _rec[n] = d.create()
    return _rec[n]


SEQ = ("std::vector", "std::deque", "std::basic_string", "std::list", "std::initializer_list", "std::basic_string_view", "std::array", "std::span")
MAPS = ("std::map", "std::unordered_map")
SETS = ("std::set", "std::unordered_set")


def is_seq(t):
    return (t.k == "c" and t.n in SEQ) or t.k == "a"


def is_map(t):
    return t.k == "c" and t.n in MAPS


def is_set(t):
    return t.k == "c" and t.n in SETS


def elem_t(t):
    if t.k == "a":
        return t.e
    return t.args[0]


def sort(t):
    t = t.deref()
    if t.s in _cache:
        return _cache[t.s]
    s = _sort(t)
    _cache[t.s] = s
    return s


def _sort(t):
    if t.k == "b":
        if t.n == "bool":
            return B
        if t.fp:
            return R
        if t.isint:
            return I
        raise Unsupported("type " + t.s)
    if t.k == "e" or t.k == "p":
        return I
    if t.k == "a":
        return vec_sort(sort(t.e))
    if t.k == "c":
        if t.is_ptr:
            return I
        if t.s == "PRNG":
            return I
        if is_seq(t):
            return vec_sort(sort(t.args[0]))
        if is_set(t):
            return z3.ArraySort(sort(t.args[0]), B)
        if is_map(t):
            return z3.ArraySort(sort(t.args[0]), opt_sort(sort(t.args[1])))
        if t.n == "std::optional":
            return opt_sort(sort(t.args[0]))
        if t.n in ("std::pair", "std::tuple"):
            return tup_sort([sort(a) for a in t.args])
        if t.n == "std::variant":
            return tup_sort([I] + [sort(a) for a in t.args], "Var_" + nm(t.s))
        if t.s in PROG.records:
            return rec_sort(t)
    raise Unsupported("type " + t.s)


def default(s):
    k = s.kind()
    if s == I:
        return z3.IntVal(0)
    if s == R:
        return z3.RealVal(0)
    if s == B:
        return z3.BoolVal(False)
    if k == z3.Z3_ARRAY_SORT:
        return z3.K(s.domain(), default(s.range()))
    if k == z3.Z3_DATATYPE_SORT:
        n = s.name()
        if n.startswith("Opt_"):
            return s.constructor(0)()
        c = s.constructor(0)
        return c(*[default(c.domain(i)) for i in range(c.arity())])
    return z3.Const("dflt_" + str(s), s)


def is_opt(s):
    return s.kind() == z3.Z3_DATATYPE_SORT and s.name().startswith("Opt_")


def is_vec(s):
    return s.kind() == z3.Z3_DATATYPE_SORT and s.name().startswith("Vec_")


def is_rec(s):
    return s.kind() == z3.Z3_DATATYPE_SORT and (s.name().startswith("Rec_") or s.name().startswith("Tup_") or s.name().startswith("Var_"))


_fresh = [0]


def fresh(name, s):
    _fresh[0] += 1
    return z3.Const("%s!%d" % (name, _fresh[0]), s)


def S(t):
    return z3.simplify(t)


def sel(t, i):
    """i-th component of a record/tuple/vec term, with constructor folding."""
    s = t.sort()
    c = s.constructor(0)
    if z3.is_app(t) and t.decl().eq(c):
        return t.arg(i)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = sel(t.arg(1), i), sel(t.arg(2), i)
        return a if a.eq(b) else z3.If(t.arg(0), a, b)
    return s.accessor(0, i)(t)


def upd(t, i, v):
    s = t.sort()
    c = s.constructor(0)
    return c(*[v if j == i else sel(t, j) for j in range(c.arity())])


def vlen(t):
    return sel(t, 0)


def varr(t):
    return sel(t, 1)


def mkvec(s, n, a):
    return s.constructor(0)(n, a)


def select(a, i):
    """Select with store/K/lambda folding for syntactically decidable cases."""
    while True:
        if z3.is_app(a):
            k = a.decl().kind()
            if k == z3.Z3_OP_STORE:
                if a.arg(1).eq(i):
                    return a.arg(2)
                d = z3.simplify(a.arg(1) == i) if a.arg(1).sort() == I else None
                if d is not None and z3.is_false(d):
                    a = a.arg(0)
                    continue
                if d is not None and z3.is_true(d):
                    return a.arg(2)
            elif k == z3.Z3_OP_CONST_ARRAY:
                return a.arg(0)
        elif (z3.is_quantifier(a) and a.is_lambda()) and a.num_vars() == 1:
            return z3.substitute_vars(a.body(), i)
        return z3.Select(a, i)


def some(s, v):
    return s.constructor(1)(v)


def is_some(t):
    s = t.sort()
    if z3.is_app(t):
        if t.decl().eq(s.constructor(1)):
            return z3.BoolVal(True)
        if t.decl().eq(s.constructor(0)):
            return z3.BoolVal(False)
        if t.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(t.arg(0), is_some(t.arg(1)), is_some(t.arg(2)))
    return s.recognizer(1)(t)


def oval(t):
    s = t.sort()
    if z3.is_app(t):
        if t.decl().eq(s.constructor(1)):
            return t.arg(0)
        if t.decl().kind() == z3.Z3_OP_ITE:
            a, b = t.arg(1), t.arg(2)
            if z3.is_app(a) and a.decl().eq(s.constructor(0)):
                return oval(b)
            if z3.is_app(b) and b.decl().eq(s.constructor(0)):
                return oval(a)
            return z3.If(t.arg(0), oval(a), oval(b))
    return s.accessor(1, 0)(t)


# ---- finite container theory -------------------------------------------
def an_(s):
    return "%s" % s.sexpr().replace(" ", "_").replace("(", "<").replace(")", ">").replace("|", "")


def inn(c, k):
    """membership of key k in map/set term c"""
    v = select(c, k)
    return v if v.sort() == B else is_some(v)


def CARD(c):
    return z3.Function("card_" + an_(c.sort()), c.sort(), I)(c)


def EN(c):
    return z3.Function("enum_" + an_(c.sort()), c.sort(), z3.ArraySort(I, c.sort().domain()))(c)


def POS(c, k):
    return z3.Function("pos_" + an_(c.sort()), c.sort(), c.sort().domain(), I)(c, k)


SUMF = z3.Function("SUM", z3.ArraySort(I, R), I, I, R)


def SETSUMF(ks):
    return z3.Function("SETSUM_" + an_(ks), z3.ArraySort(ks, R), R)


def lam(sort_, f, name="k"):
    v = fresh(name, sort_)
    return z3.Lambda([v], f(v))


def occurs(t, c, _memo=None):
    """does constant c occur in t"""
    seen = set()
    stack = [t]
    cid = c.get_id()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == cid:
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def newconsts(t, start):
    """uninterpreted constants of t created after fresh-counter value start"""
    out = []
    for x in subterms([t]):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if "!" in n and n.rsplit("!", 1)[1].isdigit() and int(n.rsplit("!", 1)[1]) > start:
                out.append(x)
    return out


def freshno():
    return _fresh[0]


def subterms(ts):
    seen = set()
    stack = list(ts)
    out = []
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return out
