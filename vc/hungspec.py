"""Contracts and loop invariants of fast_bss_eval/torch/hungarian.py.

Ghost state: potentials u, v and D (C = cost - u - v, v <= D with equality on columns without a star), sc / sr the
starred column of a row / row of a column (-1: none), pc the primed column of a row, t the time at which a row was
primed, S the number of stars, U the number of uncovered rows."""
import os
import time
import types

import z3

import hung as H
from hung import HT, NZ, NZcol, Sym, Vec1, Ctx, Unsupported, tz, ctx, SymRange

I = z3.IntVal
NM = "_step1 _step3 _step4 _step5 _step6".split()
NEXT = {"_step1": ["_step3"], "_step3": [None, "_step4"], "_step4": ["_step5", "_step6"], "_step5": ["_step3"], "_step6": ["_step4"]}


def fa(vs, body, pats=None):
    if pats:
        try:
            return z3.ForAll(vs, body, patterns=pats)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def vars_(*names):
    c = ctx()
    return [z3.Int(c.fresh(n)) for n in names]


def has_quant(e, memo=None):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo += x.children()
    return False


class V:
    """view of the state object"""

    def __init__(self, s, n, m):
        self.n, self.m = n, m
        self.C, self.mk, self.ru, self.cu = s.C.snap, s.marked.snap, s.row_uncovered.snap, s.col_uncovered.snap
        for a, sh in ((s.C, (n, m)), (s.marked, (n, m)), (s.row_uncovered, (n,)), (s.col_uncovered, (m,))):
            if not isinstance(a, HT) or a.ndim != len(sh) or not all(H.dim_eq(x, y) for x, y in zip(a.shape, sh)):
                raise Unsupported("shape of the state")
        if s.row_uncovered.dt != "bool" or s.col_uncovered.dt != "bool" or s.marked.dt != "int" or s.C.dt != "real":
            raise Unsupported("types of the state")
        self.s = s


class G:
    """ghost state"""

    def copy(self):
        g = G()
        g.__dict__.update(self.__dict__)
        return g


FI = z3.IntSort()


def fn1(name, so=FI):
    return z3.Function(ctx().fresh(name), FI, so)


def inr(x, n):
    return z3.And(x >= 0, x < n)


def fresh_state(mod, n, m):
    c = ctx()
    s = mod._Hungary.__new__(mod._Hungary)
    havoc_state(s, n, m)
    return s


def farr(name, shape, dt):
    c = ctx()
    f = z3.Function(c.fresh(name), *([FI] * len(shape) + [H.SORT[dt]()]))
    return HT([Sym(x) for x in shape], lambda *i: f(*i), dt, name)


def havoc_state(s, n, m):
    s.C = farr("C", (n, m), "real")
    s.marked = farr("mk", (n, m), "int")
    s.row_uncovered = farr("ru", (n,), "bool")
    s.col_uncovered = farr("cu", (m,), "bool")
    c = ctx()
    if not hasattr(c, "plen"):
        # contract of the step functions: the path has room for 2 n - 1 edges
        c.plen = z3.Int("path_length")
        c.assume(c.plen >= 2 * n - 1)
    s.path = farr("path", (c.plen, I(2)), "int")
    s.Z0_r, s.Z0_c = Sym(z3.Int(ctx().fresh("Z0_r"))), Sym(z3.Int(ctx().fresh("Z0_c")))


def fresh_ghost(v, prop):
    c = ctx()
    g = G()
    g.cost = prop.cost
    g.u, g.v, g.D = fn1("u", z3.RealSort()), fn1("v", z3.RealSort()), z3.Real(c.fresh("D"))
    g.sc, g.sr, g.pc, g.t = fn1("sc"), fn1("sr"), fn1("pc"), fn1("t")
    g.S, g.U = z3.Int(c.fresh("S")), z3.Int(c.fresh("U"))
    g.mk, g.C, g.ru = v.mk, v.C, v.ru
    count_facts(v, g)
    return g


def count_facts(v, g):
    """what counting means: lemmas on finite sets (lean/Count.lean)"""
    c = ctx()
    n, m = v.n, v.m
    i, r0, r1, c0, u0, u1 = vars_("i", "r0", "r1", "c0", "u0", "u1")
    # S = number of rows with sc >= 0 = number of columns with sr >= 0 (sc and sr are inverse to each other)
    c.assume(z3.And(g.S >= 0, g.S <= n))
    c.assume(z3.Implies(g.S < n, z3.And(inr(r0, n), g.sc(r0) < 0)))
    c.assume(z3.Implies(g.S >= n, fa([i], z3.Implies(inr(i, n), g.sc(i) >= 0), [g.sc(i)])))
    c.assume(z3.Implies(g.S < m, z3.And(inr(c0, m), g.sr(c0) < 0)))
    # U = number of uncovered rows
    c.assume(z3.And(g.U >= 0, g.U <= n))
    k = z3.Int(c.fresh("k"))
    c.assume(fa([k], z3.Implies(z3.And(inr(k, n), v.ru(k)), g.U >= 1)))
    c.assume(z3.Implies(g.U >= 1, z3.And(inr(u0, n), v.ru(u0))))
    c.assume(z3.Or(g.U == n, z3.And(inr(u1, n), z3.Not(v.ru(u1)))))


def definitional(mk, val, n, m, row, tag=None):
    """f(i) = a column where mk(i, .) = val, or -1 (for rows; the same for columns)"""
    c = ctx()
    f = fn1("d")
    i, j = vars_("i", "j")
    A, B = (n, m) if row else (m, n)
    at = (lambda a, b: mk(a, b)) if row else (lambda a, b: mk(b, a))
    ax = [
        fa([i, j], z3.Implies(z3.And(inr(i, A), inr(j, B), at(i, j) == val), f(i) >= 0)),
        fa([i], z3.And(f(i) >= -1, f(i) < B, z3.Implies(z3.And(inr(i, A), f(i) >= 0), at(i, f(i)) == val)), [f(i)]),
    ]
    for a in ax:
        c.assume(a)
    if tag:
        c.F[tag] = ax
    return f


def changed(p, q, n):
    """an index where the predicates differ, when there is one"""
    c = ctx()
    (x,) = vars_("x")
    r = z3.Int(c.fresh("r"))
    c.assume(fa([x], z3.Implies(z3.And(inr(x, n), p(x) != q(x)), z3.And(inr(r, n), p(r) != q(r)))))
    return r


def recount(p, cp, q, n, base):
    """number of indices where q holds, related with the number cp for p"""
    c = ctx()
    r = changed(p, q, n)
    x, y = vars_("x", "y")
    k = z3.Int(c.fresh(base))
    same = lambda x: z3.And(inr(x, n), x != r, p(x) != q(x))
    # either the predicates differ at another index than r (no information), or the difference is known
    d = z3.And(inr(r, n), p(r) != q(r))
    c.assume(z3.Or(same(x), z3.And(z3.Implies(z3.Not(d), k == cp), z3.Implies(z3.And(d, q(r)), k == cp + 1), z3.Implies(z3.And(d, p(r)), k == cp - 1))))
    return k


def post_ghost(v, g, pot=None, t=None):
    """ghost state after a piece of code, from what it did"""
    h = g.copy()
    if v.mk is not g.mk:
        # a name for the new marks
        mk, F = v.mk, z3.Function(ctx().fresh("mk"), FI, FI, FI)
        a, b = vars_("a", "b")
        ax = fa([a, b], F(a, b) == mk(a, b), [F(a, b)])
        ctx().assume(ax)
        ctx().F["new marks"] = ax
        v.mk = lambda a, b: F(a, b)
        h.sc = definitional(v.mk, 1, v.n, v.m, True, "new sc")
        h.sr = definitional(v.mk, 1, v.n, v.m, False, "new sr")
        h.pc = definitional(v.mk, 2, v.n, v.m, True, "new pc")
        h.S = recount(lambda x: g.sc(x) >= 0, g.S, lambda x: h.sc(x) >= 0, v.n, "S")
        h.mk = v.mk
    if v.ru is not g.ru:
        h.U = recount(g.ru, g.U, v.ru, v.n, "U")
        h.ru = v.ru
        i, u1 = vars_("i", "u1")
        c = ctx()
        c.assume(z3.And(h.U >= 0, h.U <= v.n))
        c.assume(z3.Or(h.U == v.n, z3.And(inr(u1, v.n), z3.Not(v.ru(u1)))))
        c.assume(fa([i], z3.Implies(z3.And(inr(i, v.n), v.ru(i)), h.U >= 1)))
    if v.C is not g.C:
        if pot is not None:
            h.u, h.v, h.D = pot(v, g)
        h.C = v.C
    if t is not None:
        h.t = t
    return h


# ---------------------------------------------------------------- predicates: lists of (name, formula)
def base(v, g, primes=True):
    i, j = vars_("i", "j")
    n, m = v.n, v.m
    R = z3.And(inr(i, n), inr(j, m))
    C, mk = v.C(i, j), v.mk(i, j)
    out = [
        ("the reduced costs are not negative", fa([i, j], z3.Implies(R, C >= 0))),
        ("reduced cost = cost - row potential - column potential", fa([i, j], z3.Implies(R, C == g.cost(i, j) - g.u(i) - g.v(j)))),
        ("column potentials are bounded", fa([j], z3.Implies(inr(j, m), g.v(j) <= g.D))),
        ("potential of columns without a star", fa([j], z3.Implies(z3.And(inr(j, m), g.sr(j) < 0), g.v(j) == g.D))),
        ("marks", fa([i, j], z3.Implies(R, z3.And(mk >= 0, mk <= 2)))),
        ("marks are on zeros", fa([i, j], z3.Implies(z3.And(R, mk != 0), C == 0))),
    ] + stars(v, g)
    return out


def stars(v, g):
    i, j = vars_("i", "j")
    n, m = v.n, v.m
    R = z3.And(inr(i, n), inr(j, m))
    mk = v.mk(i, j)
    return [
        ("at most one star in a row", fa([i, j], z3.Implies(z3.And(R, mk == 1), g.sc(i) == j))),
        ("at most one star in a column", fa([i, j], z3.Implies(z3.And(R, mk == 1), g.sr(j) == i))),
        ("star of a row", fa([i], z3.Implies(inr(i, n), z3.And(g.sc(i) >= -1, g.sc(i) < m, z3.Implies(g.sc(i) >= 0, v.mk(i, g.sc(i)) == 1))), [g.sc(i)])),
        ("star of a column", fa([j], z3.Implies(inr(j, m), z3.And(g.sr(j) >= -1, g.sr(j) < n, z3.Implies(g.sr(j) >= 0, v.mk(g.sr(j), j) == 1))), [g.sr(j)])),
    ]


def uncovered_zero(v):
    i, j = vars_("i", "j")
    return z3.Exists([i, j], z3.And(inr(i, v.n), inr(j, v.m), v.ru(i), v.cu(j), v.C(i, j) == 0))


def covers(v, g):
    i, j = vars_("i", "j")
    n, m = v.n, v.m
    return [
        ("covered columns have a star", fa([j], z3.Implies(z3.And(inr(j, m), z3.Not(v.cu(j))), g.sr(j) >= 0))),
        ("covered rows have a star", fa([i], z3.Implies(z3.And(inr(i, n), z3.Not(v.ru(i))), g.sc(i) >= 0))),
        ("a star is covered by exactly one line", fa([i], z3.Implies(z3.And(inr(i, n), g.sc(i) >= 0), v.ru(i) != v.cu(g.sc(i))))),
    ]


def primes(v, g, r=None):
    """r: the row with a prime but without a star (entry of step 5)"""
    i, j, k = vars_("i", "j", "k")
    n, m = v.n, v.m
    P = n - g.U
    cov = lambda i: z3.Not(v.ru(i)) if r is None else z3.Or(z3.Not(v.ru(i)), i == r)
    top = P if r is None else P + 1
    return [
        ("at most one prime in a row", fa([i, j], z3.Implies(z3.And(inr(i, n), inr(j, m), v.mk(i, j) == 2), g.pc(i) == j))),
        ("prime of a row", fa([i], z3.Implies(inr(i, n), z3.And(g.pc(i) >= -1, g.pc(i) < m, z3.Implies(g.pc(i) >= 0, v.mk(i, g.pc(i)) == 2))), [g.pc(i)])),
        ("rows with a prime are the covered ones", fa([i], z3.Implies(inr(i, n), (g.pc(i) >= 0) == cov(i)), [g.pc(i)])),
        ("columns of primes are not covered", fa([i], z3.Implies(z3.And(inr(i, n), g.pc(i) >= 0), v.cu(g.pc(i))), [g.pc(i)])),
        ("times of the primes", fa([i], z3.Implies(z3.And(inr(i, n), g.pc(i) >= 0), z3.And(g.t(i) >= 0, g.t(i) < top)), [g.t(i)])),
        ("the star in the column of a prime has an earlier prime in its row", fa([i], z3.Implies(z3.And(inr(i, n), g.pc(i) >= 0, g.sr(g.pc(i)) >= 0), z3.And(g.pc(g.sr(g.pc(i))) >= 0, g.t(g.sr(g.pc(i))) < g.t(i))), [g.sr(g.pc(i))])),
    ]


def none_primed(v, g):
    i, j = vars_("i", "j")
    return [("no prime", fa([i, j], z3.Implies(z3.And(inr(i, v.n), inr(j, v.m)), v.mk(i, j) != 2))), ("no row has a prime", fa([i], z3.Implies(inr(i, v.n), g.pc(i) == -1)))]


def all_uncovered(v):
    i, j = vars_("i", "j")
    return [("rows are not covered", fa([i], z3.Implies(inr(i, v.n), v.ru(i)))), ("columns are not covered", fa([j], z3.Implies(inr(j, v.m), v.cu(j))))]


def P(name, v, g):
    n, m = v.n, v.m
    i, j = vars_("i", "j")
    if name is None:
        return base(v, g) + [("all the rows have a star", fa([i], z3.Implies(inr(i, n), g.sc(i) >= 0), [g.sc(i)]))]
    sz = [("sizes", z3.And(n >= 1, m >= n))]
    if name == "_step1":
        R = z3.And(inr(i, n), inr(j, m))
        return sz + [("the matrix is the cost", fa([i, j], z3.Implies(R, v.C(i, j) == g.cost(i, j)))), ("no mark", fa([i, j], z3.Implies(R, v.mk(i, j) == 0))), ("no star", fa([i], z3.Implies(inr(i, n), g.sc(i) == -1))), ("number of stars", g.S == 0)] + none_primed(v, g) + all_uncovered(v)
    if name == "_step3":
        return sz + base(v, g) + none_primed(v, g) + all_uncovered(v)
    if name == "_step4":
        return sz + base(v, g) + covers(v, g) + primes(v, g) + [("some row has no star", g.S < n)]
    if name == "_step6":
        return P("_step4", v, g) + [("no uncovered zero", z3.Not(uncovered_zero(v)))]
    if name == "_step5":
        r, c_ = tz(v.s.Z0_r), tz(v.s.Z0_c)
        return sz + base(v, g) + covers(v, g) + primes(v, g, r) + [
            ("Z0 is in the matrix", z3.And(inr(r, n), inr(c_, m))),
            ("Z0 is a prime", v.mk(r, c_) == 2),
            ("Z0 is not covered", v.ru(r)),
            ("the row of Z0 has no star", g.sc(r) < 0),
            ("some row has no star", g.S < n),
        ]
    raise Unsupported("step %r" % (name,))


def measure(name, v, g):
    k = {None: I(-1), "_step1": I(9), "_step3": I(4), "_step6": I(2), "_step5": I(0)}.get(name)
    if name == "_step4":
        k = z3.If(uncovered_zero(v), I(1), I(3))
    return (I(1 if name == "_step1" else 0), v.n - g.S if name is not None else I(0), g.U if name not in (None,) else I(0), k)


def less(a, b):
    out = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        out = z3.Or(x < y, z3.And(x == y, out))
    return out


def nonneg(a):
    return z3.And(*[x >= 0 for x in a[:3]])


def step_name(mod, f):
    if f is None:
        return None
    n = getattr(f, "vc_step", None) or getattr(f, "__name__", None)
    if n not in NM:
        raise Unsupported("next step %r" % (f,))
    return n


# witnesses
def pot_step1(v, g):
    return (lambda i: g.cost(i, I(0)) - v.C(i, I(0))), (lambda j: z3.RealVal(0)), z3.RealVal(0)


def pot_step6(v, g):
    c = ctx()
    i0, j0, = vars_("i0", "j0")
    ro, (u0,) = v.ru, vars_("u0")
    # an uncovered cell
    a, b = c.pre_cell
    d = g.C(a, b) - v.C(a, b)
    ru, cu = c.pre_cov
    return (lambda i: g.u(i) - z3.If(ru(i), z3.RealVal(0), d)), (lambda j: g.v(j) + z3.If(cu(j), d, z3.RealVal(0))), g.D + d


# ---------------------------------------------------------------- the proof of each function
class Spec:
    def __init__(self, path):
        self.path = path
        self.jobs = []

    def load(self):
        t = Torch()
        m = H.load(self.path, {"torch": t})
        for n in NM + ["_Hungary", "linear_sum_assignment"]:
            if n not in m.__dict__:
                raise Unsupported("no %s" % n)
        return m

    # ---- hooks of the engine
    def count(self, a):
        """number of true entries of a matrix: equal to S if the entries are the stars"""
        c = ctx()
        g, v = c.g, c.v
        i, j = vars_("i", "j")
        q = a.get(i, j)
        R = z3.And(inr(i, v.n), inr(j, v.m))
        c.oblige("the sum counts the stars (rows)", fa([i, j], z3.Implies(R, H.convert(q, "bool") == (g.sc(i) == j))))
        c.oblige("the sum counts the stars (columns)", fa([i, j], z3.Implies(R, H.convert(q, "bool") == (g.sr(j) == i))))
        return g.S

    def enter(self, key, it, env, assigned):
        f = getattr(self, "in_" + key.replace("#", "_").replace(".", "_"), None)
        if f is None:
            raise Unsupported("loop %s without invariant" % key)
        ctx().where = key + ": "
        r = f(it, env)
        for n in assigned:
            if n in env and n not in r:
                r[n] = H.Poison()
        ctx().where = ""
        return r

    def again(self, key, it, env):
        ctx().where = key + ": "
        getattr(self, "ag_" + key.replace("#", "_").replace(".", "_"))(it, env)

    def forget(self, *arrays):
        """the contents of the arrays are unknown from here on; the others must not change in the loop"""
        for a in arrays:
            if a.base is not None:
                raise Unsupported("view")
            f = z3.Function(ctx().fresh(a.name.strip("'")), *([FI] * a.ndim + [H.SORT[a.dt]()]))
            a._f = lambda *i, f=f: f(*i)

    def remember(self, s, others):
        return [(a, a.snap) for a in others], s

    def unchanged(self, frame):
        for a, f in frame:
            if a.snap is not f:
                raise Unsupported("the loop modifies %s" % a.name)

    def obl(self, props, aspect="value", use={}):
        c = ctx()
        for n, f in props:
            c.oblige(n, f, aspect, self.named(use[n]) if n in use else None)

    def lemma(self, name, f, *use):
        """a proof step: obligation, then fact; use: names of the facts that suffice"""
        c = ctx()
        c.oblige(name, f, use=self.named(use) if use else None)
        c.assume(f)
        c.F[name] = f

    def named(self, use):
        """the named facts and all the facts without quantifiers"""
        c = ctx()
        out = []
        for u in use:
            f = c.F[u] if isinstance(u, str) else u
            out += f if isinstance(f, list) else [f]
        return out + [f for f in c.facts if not has_quant(f)]

    def ass(self, props):
        for n, f in props:
            ctx().assume(f)
            ctx().F[n] = f

    # step 1: greedy stars
    def inv1(self, v, g):
        i, j = vars_("i", "j")
        n, m = v.n, v.m
        R = z3.And(inr(i, n), inr(j, m))
        return stars(v, g) + [
            ("marks", fa([i, j], z3.Implies(R, z3.And(v.mk(i, j) >= 0, v.mk(i, j) <= 1)))),
            ("stars are on zeros", fa([i, j], z3.Implies(z3.And(R, v.mk(i, j) != 0), v.C(i, j) == 0))),
            ("rows with a star are covered", fa([i], z3.Implies(inr(i, n), v.ru(i) == (g.sc(i) < 0)))),
            ("columns with a star are covered", fa([j], z3.Implies(inr(j, m), v.cu(j) == (g.sr(j) < 0)))),
        ]

    def in__step1_0(self, it, env):
        c = ctx()
        s = env["state"]
        v = V(s, c.v.n, c.v.m)
        g = post_ghost(v, c.g)
        g.sc, g.sr = definitional(v.mk, 1, v.n, v.m, True), definitional(v.mk, 1, v.n, v.m, False)
        self.obl(self.inv1(v, g))
        self.forget(s.marked, s.row_uncovered, s.col_uncovered)
        c.frame = [(s.C, s.C.snap)]
        c.ids = (s.marked, s.row_uncovered, s.col_uncovered)
        v = V(s, v.n, v.m)
        h = fresh_ghost(v, types.SimpleNamespace(cost=c.g.cost))
        h.u, h.v, h.D, h.C = c.g.u, c.g.v, c.g.D, c.g.C
        h.pc = definitional(v.mk, 2, v.n, v.m, True)
        self.ass(self.inv1(v, h))
        it.i = z3.Int(c.fresh("it"))
        c.assume(it.i >= 0)
        c.g = h
        return {}

    def ag__step1_0(self, it, env):
        c = ctx()
        s = env["state"]
        self.unchanged(c.frame)
        self.same_ids(c, s)
        v = V(s, c.v.n, c.v.m)
        g = post_ghost(v, c.g)
        self.obl(self.inv1(v, g))

    def same_ids(self, c, s):
        if (s.marked, s.row_uncovered, s.col_uncovered) != c.ids and not all(a is b for a, b in zip((s.marked, s.row_uncovered, s.col_uncovered), c.ids)):
            raise Unsupported("the loop replaces an array of the state")

    # step 4: primes
    def inv4(self, v, g, v0, g0, env):
        i, j = vars_("i", "j")
        n, m = v.n, v.m
        cc = env.get("covered_C")
        if not isinstance(cc, HT) or cc.ndim != 2:
            raise Unsupported("covered_C")
        cond = H.convert(cc.get(i, j), "bool")
        x, y = vars_("x", "y")
        return base(v, g) + covers(v, g) + primes(v, g) + [
            ("covered_C lists the uncovered zeros", fa([i, j], z3.Implies(z3.And(inr(i, n), inr(j, m)), cond == z3.And(v.C(i, j) == 0, v.ru(i), v.cu(j))))),
            ("some row has no star", g.S < n),
            ("same stars", fa([x], z3.Implies(inr(x, n), g.sc(x) == g0.sc(x)))),
            ("number of stars", g.S == g0.S),
            ("rows are only covered", g.U <= g0.U),
            ("no new cover: same rows", z3.Implies(g.U == g0.U, fa([x], z3.Implies(inr(x, n), v.ru(x) == v0.ru(x))))),
            ("no new cover: same columns", z3.Implies(g.U == g0.U, fa([y], z3.Implies(inr(y, m), v.cu(y) == v0.cu(y))))),
        ]

    def in__step4_0(self, it, env):
        c = ctx()
        s = env["state"]
        v0 = c.v
        c.v0, c.g0 = c.v, c.g
        v = V(s, v0.n, v0.m)
        if v.mk is not v0.mk or v.C is not v0.C or v.ru is not v0.ru or v.cu is not v0.cu:
            g = post_ghost(v, c.g)
        else:
            g = c.g
        self.obl(self.inv4(v, g, c.v0, c.g0, env))
        cc = env["covered_C"]
        self.forget(s.marked, s.row_uncovered, s.col_uncovered, cc)
        mod = (s.marked, s.row_uncovered, s.col_uncovered, cc)
        rest = [s.C] + [x for x in env.values() if isinstance(x, HT) and x.base is None and not any(x is y for y in mod)]
        c.frame = [(a, a.snap) for a in rest]
        c.ids = (s.marked, s.row_uncovered, s.col_uncovered)
        c.cc = cc
        v = V(s, v0.n, v0.m)
        h = fresh_ghost(v, types.SimpleNamespace(cost=c.g.cost))
        h.u, h.v, h.D, h.C = c.g.u, c.g.v, c.g.D, c.g.C
        h.sc, h.sr, h.S = c.g.sc, c.g.sr, c.g.S
        self.ass(self.inv4(v, h, c.v0, c.g0, env))
        c.g, c.v = h, v
        return {"covered_C": cc}

    def ag__step4_0(self, it, env):
        c = ctx()
        s = env["state"]
        self.unchanged(c.frame)
        self.same_ids(c, s)
        if env.get("covered_C") is not c.cc and not isinstance(env.get("covered_C"), HT):
            raise Unsupported("covered_C")
        v = V(s, c.v.n, c.v.m)
        old, og = c.v, c.g
        t = lambda i: z3.If(old.ru(i), v.n - og.U, og.t(i))
        g = post_ghost(v, og, t=t)
        pr = ["new pc", "new marks", "at most one prime in a row", "prime of a row", "rows with a prime are the covered ones", "marks"]
        self.obl(self.inv4(v, g, c.v0, c.g0, env), use={"rows with a prime are the covered ones": pr, "at most one prime in a row": pr, "prime of a row": pr})
        c.oblige("variant: rows are covered", g.U < og.U, "exc")

    # step 5: alternating path
    def edges(self, path, tag, old=None):
        """the cells of the path as functions of their rank (2k: primes, 2k+1: stars)"""
        c = ctx()
        (k,) = vars_("k")
        R, C, O, Q = [fn1(x) for x in ("R", "C", "O", "Q")]
        cells = lambda p: [p(2 * k, I(0)), p(2 * k, I(1)), p(2 * k + 1, I(0)), p(2 * k + 1, I(1))]
        for f, e, q, e0 in zip((R, C, O, Q), cells(path), old[1] if old else [None] * 4, cells(old[0]) if old else [None] * 4):
            ax = fa([k], z3.And(f(k) == e, q(k) == e0) if old else f(k) == e, [f(k)])
            c.assume(ax)
            c.F.setdefault("edges" + tag, []).append(ax)
        return R, C, O, Q

    def inv5(self, v, g, ed, K, cnt):
        k, l = vars_("k", "l")
        n, m = v.n, v.m
        R, C, O, Q = ed
        r, c_ = tz(v.s.Z0_r), tz(v.s.Z0_c)
        return [
            ("number of edges", z3.And(cnt == 2 * K, K >= 0)),
            ("start of the path", z3.And(R(0) == r, C(0) == c_)),
            ("even: rows in the matrix", fa([k], z3.Implies(z3.And(k >= 0, k <= K), inr(R(k), n)), [R(k)])),
            ("even: primes", fa([k], z3.Implies(z3.And(k >= 0, k <= K), z3.And(C(k) == g.pc(R(k)), C(k) >= 0)), [C(k)])),
            ("odd: rows", fa([k], z3.Implies(z3.And(k >= 0, k < K), O(k) == R(k + 1)), [O(k)])),
            ("odd: columns", fa([k], z3.Implies(z3.And(k >= 0, k < K), Q(k) == C(k)), [Q(k)])),
            ("odd: stars", fa([k], z3.Implies(z3.And(k >= 0, k < K), g.sr(C(k)) == R(k + 1)), [C(k)])),
            ("times decrease", fa([k, l], z3.Implies(z3.And(k >= 0, k < l, l <= K), g.t(R(l)) < g.t(R(k))), [z3.MultiPattern(R(k), R(l))])),
            ("length of the path", z3.And(g.t(R(K)) + K <= n - g.U, g.t(R(K)) >= 0)),
        ]

    def in__step5_0(self, it, env):
        c = ctx()
        s = env["state"]
        v = V(s, c.v.n, c.v.m)
        path = env.get("path")
        if not isinstance(path, HT) or path.base is not None or "count" not in env:
            raise Unsupported("path")
        if v.mk is not c.v.mk or v.ru is not c.v.ru or v.C is not c.v.C:
            raise Unsupported("state before the path")
        cnt = tz(env["count"])
        self.obl(self.inv5(v, c.g, self.edges(path.snap, "0"), I(0), cnt))
        self.forget(path)
        c.path = path
        c.frame = [(a, a.snap) for a in (s.C, s.marked, s.row_uncovered, s.col_uncovered)]
        c.K = z3.Int(c.fresh("K"))
        c.cnt = z3.Int(c.fresh("count"))
        c.pfun = path.snap
        c.ed = self.edges(c.pfun, "")
        self.ass(self.inv5(v, c.g, c.ed, c.K, c.cnt))
        R, C = c.ed[:2]
        # the last edge of the path
        self.lemma("last edge", z3.And(R(c.K) == c.pfun(c.cnt, I(0)), C(c.K) == c.pfun(c.cnt, I(1)), inr(R(c.K), v.n), inr(C(c.K), v.m), C(c.K) == c.g.pc(R(c.K))))
        return {"count": Sym(c.cnt)}

    def ag__step5_0(self, it, env):
        c = ctx()
        s = env["state"]
        self.unchanged(c.frame)
        if env["path"] is not c.path:
            raise Unsupported("path")
        v = V(s, c.v.n, c.v.m)
        ed = self.edges(c.path.snap, "'", (c.pfun, c.ed))
        k = vars_("k")[0]
        R, C, O, Q = ed
        R0, C0, O0, Q0 = c.ed
        K = c.K
        self.lemma("the path is extended", fa([k], z3.Implies(z3.And(k >= 0, k <= K), z3.And(R(k) == R0(k), C(k) == C0(k))), [R(k)]))
        self.lemma("the path is extended (columns)", fa([k], z3.Implies(z3.And(k >= 0, k <= K), C(k) == C0(k)), [C(k)]))
        self.lemma("the path is extended (odd edges)", fa([k], z3.Implies(z3.And(k >= 0, k < K), O(k) == O0(k)), [O(k)]))
        self.lemma("the path is extended (odd edges, columns)", fa([k], z3.Implies(z3.And(k >= 0, k < K), Q(k) == Q0(k)), [Q(k)]))
        self.lemma("new edges", z3.And(O(K) == R(K + 1), Q(K) == C(K), c.g.sr(C(K)) == R(K + 1), inr(R(K + 1), v.n), C(K + 1) == c.g.pc(R(K + 1)), C(K + 1) >= 0))
        self.lemma("the time decreases", c.g.t(R(K + 1)) < c.g.t(R(K)))
        ext = ["the path is extended", "the path is extended (columns)", "the path is extended (odd edges)", "the path is extended (odd edges, columns)", "new edges", "the time decreases"]
        same = ["even: rows in the matrix", "even: primes", "odd: rows", "odd: columns", "odd: stars", "times decrease"]
        self.obl(self.inv5(v, c.g, ed, K + 1, tz(env["count"])), use={n: ext + [n] for n in same})

    def on(self, c, a):
        return z3.And(c.idx(a) >= 0, c.idx(a) <= c.K, c.ed[0](c.idx(a)) == a)

    def inv5b(self, v, g, c, i):
        a, b = vars_("a", "b")
        R, C = c.ed[:2]
        idx, n, m = c.idx, v.n, v.m
        on = self.on(c, a)
        pr = z3.And(on, b == C(idx(a)), 2 * idx(a) < i)
        st = z3.And(on, idx(a) >= 1, b == C(idx(a) - 1), 2 * idx(a) - 1 < i)
        return [
            ("cells of the path are switched, the others unchanged", fa([a, b], z3.Implies(z3.And(inr(a, n), inr(b, m)), v.mk(a, b) == z3.If(pr, I(1), z3.If(st, I(0), c.mk0(a, b)))))),
        ]

    def in__step5_1(self, it, env):
        c = ctx()
        s = env["state"]
        path = env.get("path")
        if not isinstance(it.it, SymRange) or path is None or path is not getattr(c, "path", None):
            raise Unsupported("loop")
        v = V(s, c.v.n, c.v.m)
        c.mk0 = s.marked.snap
        if c.mk0 is not c.v.mk or path.snap is not c.pfun:
            raise Unsupported("state before the switch")
        R, C, O, Q = c.ed
        K, g = c.K, c.g
        k, l = vars_("k", "l")
        self.lemma("no star in the last column of the path", g.sr(C(K)) < 0)
        self.lemma("the rows of the path are distinct", fa([k, l], z3.Implies(z3.And(k >= 0, k < l, l <= K), R(k) != R(l)), [z3.MultiPattern(R(k), R(l))]), "times decrease")
        self.lemma("the columns of the path are distinct", fa([k, l], z3.Implies(z3.And(k >= 0, k < l, l <= K), C(k) != C(l)), [z3.MultiPattern(C(k), C(l))]), "odd: stars", "the rows of the path are distinct", "no star in the last column of the path", "even: rows in the matrix")
        # rank of a row on the path (the rows are distinct)
        c.idx = fn1("idx")
        (k,) = vars_("k")
        c.F["rank on the path"] = fa([k], z3.Implies(z3.And(k >= 0, k <= K), c.idx(R(k)) == k), [R(k)])
        c.assume(c.F["rank on the path"])
        c.oblige("all the edges are switched", z3.And(it.it.a == 0, it.it.b == 2 * K + 1))
        self.obl(self.inv5b(v, g, c, I(0)))
        self.forget(s.marked)
        c.frame = [(a, a.snap) for a in (s.C, s.row_uncovered, s.col_uncovered, path)]
        q = z3.Int(c.fresh("q"))
        odd = c.choose(2)
        i = 2 * q + odd
        it.i = i
        c.assume(z3.And(q >= 0, i <= 2 * K + 1))
        v = V(s, c.v.n, c.v.m)
        self.ass(self.inv5b(v, g, c, i))
        if odd:
            self.lemma("cell of the path", z3.Implies(i < 2 * K + 1, z3.And(c.pfun(i, I(0)) == O(q), c.pfun(i, I(1)) == Q(q), O(q) == R(q + 1), Q(q) == C(q), inr(O(q), v.n), inr(Q(q), v.m), c.idx(O(q)) == q + 1, c.mk0(O(q), Q(q)) == 1)), "edges", "odd: rows", "odd: columns", "odd: stars", "even: rows in the matrix", "star of a column", "even: primes", "prime of a row", "rank on the path")
        else:
            self.lemma("cell of the path", z3.Implies(i < 2 * K + 1, z3.And(c.pfun(i, I(0)) == R(q), c.pfun(i, I(1)) == C(q), inr(R(q), v.n), inr(C(q), v.m), c.idx(R(q)) == q, c.mk0(R(q), C(q)) == 2)), "edges", "even: rows in the matrix", "even: primes", "prime of a row", "rank on the path")
        return {}

    def ag__step5_1(self, it, env):
        c = ctx()
        self.unchanged(c.frame)
        v = V(env["state"], c.v.n, c.v.m)
        self.obl(self.inv5b(v, c.g, c, it.i))

    # main loop
    def in_linear_sum_assignment_0(self, it, env):
        c = ctx()
        s, f = env["state"], step_name(c.mod, env["step"])
        n, m = tz(s.C.shape[0]), tz(s.C.shape[1])
        v = V(s, n, m)
        c.cost = s.C.snap
        g = G()
        cost = c.main_cost
        g.cost = cost
        g.u, g.v, g.D = (lambda i: z3.RealVal(0)), (lambda j: z3.RealVal(0)), z3.RealVal(0)
        g.sc, g.sr, g.pc = [definitional(v.mk, q, n, m, rw) for q, rw in ((1, True), (1, False), (2, True))]
        g.t, g.S, g.U = fn1("t"), z3.Int(c.fresh("S")), n
        (x,) = vars_("x")
        c.assume(z3.Implies(z3.Not(z3.And(inr(x, n), g.sc(x) >= 0)), g.S == 0))
        g.mk, g.C, g.ru = v.mk, v.C, v.ru
        self.obl(P(f, v, g))
        c.oblige("the state owns its matrix", z3.BoolVal(not s.C.protected and s.C.base is None), "frame")
        own = (s.C, s.marked, s.row_uncovered, s.col_uncovered, s.path)
        c.oblige("the arrays of the state are not shared", z3.BoolVal(len({id(a) for a in own}) == 5 and all(a.base is None for a in own)), "frame")
        c.oblige("the path has room for 2 n - 1 edges", z3.And(tz(s.path.shape[0]) >= 2 * n - 1, tz(s.path.shape[1]) == 2), "exc")
        k = c.choose(6)
        name = ([None] + NM)[k]
        havoc_state(s, n, m)
        v = V(s, n, m)
        h = fresh_ghost(v, types.SimpleNamespace(cost=cost))
        self.ass(P(name, v, h))
        c.g, c.v = h, v
        c.m0 = measure(name, v, h)
        c.frame = [(a, a.snap) for a in env.values() if isinstance(a, HT) and a.base is None]
        return {"step": None if name is None else c.stubs[name]}

    def ag_linear_sum_assignment_0(self, it, env):
        c = ctx()
        self.unchanged(c.frame)
        f = step_name(c.mod, env["step"])
        v = V(env["state"], c.v.n, c.v.m)
        if v.mk is not c.v.mk or v.C is not c.v.C or v.ru is not c.v.ru or v.cu is not c.v.cu:
            raise Unsupported("the loop changes the state")
        self.obl(P(f, c.v, c.g))
        m = measure(f, c.v, c.g)
        if f is not None:
            c.oblige("variant of the main loop", less(m, c.m0), "exc")
            c.oblige("the variant is bounded", nonneg(m), "exc")

    def stub(self, mod, name):
        def f(state):
            c = ctx()
            v = V(state, c.v.n, c.v.m)
            if v.mk is not c.v.mk or v.C is not c.v.C or v.ru is not c.v.ru or v.cu is not c.v.cu:
                raise Unsupported("the state changes between the steps")
            self.obl(P(name, v, c.g))
            before = measure(name, v, c.g)
            nx = NEXT[name]
            k = c.choose(len(nx)) if len(nx) > 1 else 0
            havoc_state(state, v.n, v.m)
            w = V(state, v.n, v.m)
            h = fresh_ghost(w, types.SimpleNamespace(cost=c.g.cost))
            self.ass(P(nx[k], w, h))
            if nx[k] is not None:
                c.assume(less(measure(nx[k], w, h), before))
            c.g, c.v = h, w
            return None if nx[k] is None else c.stubs[nx[k]]

        f.vc_step = name
        f.__name__ = name
        return f

    # ---- functions
    def run_step(self, name):
        def run(c):
            mod = self.load()
            c.mod = mod
            n, m = z3.Ints("n m")
            s = fresh_state(mod, n, m)
            v = V(s, n, m)
            costf = z3.Function("cost", FI, FI, z3.RealSort())
            g = fresh_ghost(v, types.SimpleNamespace(cost=lambda i, j: costf(i, j)))
            c.v, c.g = v, g
            self.ass(P(name, v, g))
            before = measure(name, v, g)
            c.pre_cov = (v.ru, v.cu)
            if name == "_step6":
                # an uncovered cell exists: a row and a column without a star
                a, b = vars_("cell_r", "cell_c")
                c.assume(inr(a, n))
                c.assume(g.sc(a) < 0)
                c.assume(inr(b, m))
                c.assume(g.sr(b) < 0)
                c.pre_cell = (a, b)
            r = getattr(mod, name)(s)
            f = step_name(mod, r)
            c.where = "return %s: " % f
            w = V(s, n, m)
            pot = {"_step1": pot_step1, "_step6": pot_step6}.get(name)
            t = None
            if name == "_step4" and f == "_step5":
                og, r0 = c.g, tz(s.Z0_r)
                t = lambda i: z3.If(i == r0, n - og.U, og.t(i))
            h = post_ghost(w, c.g, pot=pot, t=t)
            if name == "_step5" and hasattr(c, "mk0"):
                a, b = vars_("a", "b")
                self.lemma("stars after the switch", fa([a, b], z3.Implies(z3.And(inr(a, n), inr(b, m)), (w.mk(a, b) == 1) == z3.If(self.on(c, a), b == c.g.pc(a), c.mk0(a, b) == 1))), "cells of the path are switched, the others unchanged", "even: rows in the matrix", "even: primes", "odd: stars", "star of a column", "at most one star in a row", "the columns of the path are distinct", "prime of a row", "rank on the path", "new marks")
                R, C = c.ed[:2]
                st = ["stars after the switch", "even: rows in the matrix", "even: primes", "odd: stars", "rank on the path", "at most one star in a row", "at most one star in a column", "star of a row", "star of a column", "the columns of the path are distinct"]
                sr, sc, idx = c.g.sr, c.g.sc, c.idx
                has = z3.And(inr(b, m), sr(b) >= 0)
                self.lemma("sc and sr are inverse", fa([b], z3.Implies(has, sc(sr(b)) == b), [sr(b)]), "star of a column", "at most one star in a row")
                self.lemma("stars on the path", fa([b], z3.Implies(z3.And(has, self.on(c, sr(b))), z3.And(idx(sr(b)) >= 1, b == C(idx(sr(b)) - 1))), [sr(b)]), "sc and sr are inverse", "odd: stars", "even: rows in the matrix", "even: primes")
                self.lemma("stars on the path are moved", fa([b], z3.Implies(z3.And(has, self.on(c, sr(b))), w.mk(R(idx(sr(b)) - 1), b) == 1), [sr(b)]), "stars on the path", "stars after the switch", "rank on the path", "even: primes", "even: rows in the matrix")
                self.lemma("stars off the path are kept", fa([b], z3.Implies(z3.And(has, z3.Not(self.on(c, sr(b)))), w.mk(sr(b), b) == 1), [sr(b)]), "star of a column", "stars after the switch")
                moved = ["stars on the path are moved", "stars off the path are kept", "stars on the path"]
                self.lemma("columns keep their stars", fa([b], z3.Implies(has, h.sr(b) >= 0), [sr(b)]), "new sr", "even: rows in the matrix", "star of a column", *moved)
                x = vars_("x")[0]
                self.lemma("two rows on the path", fa([a, x], z3.Implies(z3.And(inr(a, n), inr(x, n), self.on(c, a), self.on(c, x), c.g.pc(a) == c.g.pc(x)), a == x), [z3.MultiPattern(c.g.pc(a), c.g.pc(x))]), "the columns of the path are distinct", "even: primes")
                self.lemma("old star in a column of the path", fa([a, x], z3.Implies(z3.And(inr(a, n), inr(x, n), self.on(c, a), c.mk0(x, c.g.pc(a)) == 1), self.on(c, x)), [c.mk0(x, c.g.pc(a))]), "no star in the last column of the path", "odd: stars", "even: primes", "at most one star in a column", "rank on the path", "prime of a row", "even: rows in the matrix")
                one = fa([a, x, b], z3.Implies(z3.And(inr(a, n), inr(x, n), inr(b, m), w.mk(a, b) == 1, w.mk(x, b) == 1), a == x), [z3.MultiPattern(w.mk(a, b), w.mk(x, b))])
                self.lemma("one star in a column after the switch", one, "stars after the switch", "two rows on the path", "old star in a column of the path", "at most one star in a column")
                sc1, pc, on, r0 = h.sc, c.g.pc, self.on, tz(s.Z0_r)
                ev = ["even: rows in the matrix", "even: primes"]
                self.lemma("rows on the path have a star afterwards", fa([a], z3.Implies(z3.And(inr(a, n), on(c, a)), z3.And(w.mk(a, pc(a)) == 1, sc1(a) >= 0)), [sc1(a)]), "new sc", "stars after the switch", "prime of a row", *ev)
                self.lemma("rows off the path keep their star", fa([a], z3.Implies(z3.And(inr(a, n), z3.Not(on(c, a)), sc(a) >= 0), z3.And(w.mk(a, sc(a)) == 1, sc1(a) >= 0)), [sc1(a)]), "new sc", "stars after the switch", "star of a row")
                k = vars_("k")[0]
                self.lemma("stars of the rows on the path", fa([k], z3.Implies(z3.And(k >= 1, k <= c.K), z3.And(sc(R(k)) == C(k - 1), C(k - 1) >= 0)), [R(k)]), "odd: stars", "star of a column", "at most one star in a row", "prime of a row", *ev)
                self.lemma("rows on the path had a star", fa([a], z3.Implies(z3.And(inr(a, n), on(c, a)), z3.Or(a == r0, sc(a) >= 0)), [sc1(a)]), "stars of the rows on the path", "start of the path")
                self.lemma("rows off the path have no new star", fa([a], z3.Implies(z3.And(inr(a, n), z3.Not(on(c, a)), sc1(a) >= 0), sc(a) >= 0), [sc1(a)]), "new sc", "stars after the switch", "at most one star in a row", "star of a row")
                self.lemma("Z0 is on the path", on(c, r0), "rank on the path")
                self.lemma("one more row has a star", fa([a], z3.Implies(inr(a, n), (sc1(a) >= 0) == z3.Or(sc(a) >= 0, a == r0)), [sc1(a)]), "rows on the path have a star afterwards", "rows off the path keep their star", "rows on the path had a star", "rows off the path have no new star", "Z0 is on the path")
            if f is not None or name != "_step3":
                pass
            use = {}
            if "columns keep their stars" in c.F:
                use = {"potential of columns without a star": ["potential of columns without a star", "columns keep their stars"], "at most one star in a column": ["new sr", "one star in a column after the switch"], "at most one star in a row": ["new sc"] + st}
            if name == "_step4" and f == "_step5":
                pr = ["new pc", "new marks", "at most one prime in a row", "prime of a row", "rows with a prime are the covered ones", "marks"]
                use = {"rows with a prime are the covered ones": pr, "at most one prime in a row": pr, "prime of a row": pr}
            self.obl(P(f, w, h), use=use)
            if f is not None:
                c.oblige("variant", less(measure(f, w, h), before), "exc")
            if name == "_step6" and f == "_step4":
                c.oblige("a new uncovered zero", uncovered_zero(w))
            return f

        return run

    def run_main(self):
        def run(c):
            mod = self.load()
            c.mod = mod
            N, M = z3.Ints("N M")
            c.assume(z3.And(N >= 0, M >= 0))
            costf = z3.Function("cost", FI, FI, z3.RealSort())
            nan = z3.Function("nan", FI, FI, z3.BoolSort())
            cost = HT([Sym(N), Sym(M)], lambda i, j: costf(i, j), "real", "cost", protected=True)
            cost.nan = nan
            c.stubs = {n: self.stub(mod, n) for n in NM}
            for n, f in c.stubs.items():
                mod.__dict__[n] = f
            c.main_cost = lambda i, j: costf(i, j)
            real_clone = mod._Hungary.__init__

            def init(self_, cm, *a, **k):
                if isinstance(cm, HT):
                    sn = cm.snap
                    c.main_cost = lambda i, j: sn(i, j)
                    c.transposed = cm is not cost
                real_clone(self_, cm, *a, **k)

            mod._Hungary.__init__ = init
            i, j, k = vars_("i", "j", "k")
            R = z3.And(inr(i, N), inr(j, M))
            try:
                out = mod.linear_sum_assignment(cost)
            except ValueError as e:
                c.where = "ValueError: "
                c.oblige("raised for NaN only", z3.Exists([i, j], z3.And(R, nan(i, j))), "exc")
                c.oblige("the matrix is not modified", z3.BoolVal(not c.protected_writes), "frame")
                return "exc"
            c.where = "result: "
            c.oblige("no NaN", fa([i, j], z3.Implies(R, z3.Not(nan(i, j)))), "exc")
            c.oblige("the matrix is not modified", z3.BoolVal(not c.protected_writes), "frame")
            ok = isinstance(out, tuple) and len(out) == 2 and all(isinstance(x, NZcol) for x in out) and out[0].nz is out[1].nz and (out[0].k, out[1].k) == (0, 1)
            if not ok:
                raise Unsupported("form of the result")
            nz = out[0].nz
            c.oblige("size of the listed matrix", z3.And(tz(nz.dims[0]) == N, tz(nz.dims[1]) == M), "shape")
            p = nz.pred
            g, v = c.g, c.v
            Rk = inr(k, M)
            c.oblige("distinct rows", fa([i, j, k], z3.Implies(z3.And(R, Rk, p(i, j), p(i, k)), j == k)))
            c.oblige("distinct columns", fa([i, j, k], z3.Implies(z3.And(R, inr(k, N), p(i, j), p(k, j)), i == k)))
            tr = z3.BoolVal(False)
            # v.n is the shorter side; decide which one on this path
            T = H.dim_eq(v.n, N) and H.dim_eq(v.m, M)
            if not T and not (H.dim_eq(v.n, M) and H.dim_eq(v.m, N)):
                raise Unsupported("sides")
            if T:
                uu, vv, most = g.u, g.v, lambda i, j: (i, j)
                c.oblige("every row has a partner", fa([i], z3.Implies(inr(i, N), z3.Exists([j], z3.And(inr(j, M), p(i, j))))))
                ru = lambda i: uu(i) + g.D
                cv = lambda j: vv(j) - g.D
                c.oblige("column potentials are not positive", fa([j], z3.Implies(inr(j, M), cv(j) <= 0)))
                c.oblige("column potentials vanish on free columns", fa([j], z3.Or(z3.Not(inr(j, M)), cv(j) == 0, z3.Exists([i], z3.And(inr(i, N), p(i, j))))))
            else:
                uu, vv = g.u, g.v
                c.oblige("every column has a partner", fa([j], z3.Implies(inr(j, M), z3.Exists([i], z3.And(inr(i, N), p(i, j))))))
                ru = lambda i: vv(i) - g.D
                cv = lambda j: uu(j) + g.D
                c.oblige("row potentials are not positive", fa([i], z3.Implies(inr(i, N), ru(i) <= 0)))
                c.oblige("row potentials vanish on free rows", fa([i], z3.Or(z3.Not(inr(i, N)), ru(i) == 0, z3.Exists([j], z3.And(inr(j, M), p(i, j))))))
            c.oblige("sum of the potentials below the cost", fa([i, j], z3.Implies(R, ru(i) + cv(j) <= costf(i, j))))
            c.oblige("sum of the potentials is the cost of the pairs", fa([i, j], z3.Implies(z3.And(R, p(i, j)), ru(i) + cv(j) == costf(i, j))))
            return "ret"

        return run

    def functions(self):
        out = [(n, self.run_step(n)) for n in NM]
        return out + [("linear_sum_assignment", self.run_main())]


class Torch(types.ModuleType):
    def __init__(self):
        super().__init__("torch")
        self.Tensor = HT
        self.bool, self.int, self.int64, self.long = bool, int, int, int

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("torch.%s" % n)

    @staticmethod
    def any(a, dim=None, axis=None):
        return a.any(dim=dim if dim is not None else axis) if not isinstance(a, Sym) else a

    @staticmethod
    def all(a, dim=None, axis=None):
        return a.all(dim=dim if dim is not None else axis) if not isinstance(a, Sym) else a

    @staticmethod
    def isnan(a):
        f = getattr(a, "nan", None)
        if f is None:
            raise Unsupported("isnan")
        return HT(a.shape, lambda *i: f(*i), "bool")

    @staticmethod
    def min(a, dim=None, axis=None):
        d = dim if dim is not None else axis
        return a.min() if d is None else a.min(dim=d)

    @staticmethod
    def sum(a): return a.sum()

    @staticmethod
    def nonzero(a): return a.nonzero()

    @staticmethod
    def logical_not(a): return ~a

    @staticmethod
    def clone(a): return a.clone()

    @staticmethod
    def ones(*s, dtype=float, device=None): return H.full(s[0] if isinstance(s[0], (tuple, list)) else s, dtype, 1)

    @staticmethod
    def zeros(*s, dtype=float, device=None): return H.full(s[0] if isinstance(s[0], (tuple, list)) else s, dtype, 0)

    @staticmethod
    def ones_like(a, dtype=None): return H.full(a.shape, dtype or a.dtype, 1)

    @staticmethod
    def zeros_like(a, dtype=None): return H.full(a.shape, dtype or a.dtype, 0)
