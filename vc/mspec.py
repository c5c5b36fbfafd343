"""Mathematical specifications: what the functions of fast_bss_eval compute, written from
their definitions (projections, Gram matrices, preconditioned conjugate gradient,
assignments), independently of the code.  A specification maps arrays to arrays and works
for any number of leading (batch) axes and any symbolic sizes."""
from core import *
import core
from prove import Lam, Prover
from ex import *
from ex import ST, decide
import tensor as T
from tensor import Tensor, NpTensor, PtTensor, mkaxis, freshs, Ps, mk, gmerge, is_one, axsize


class NotCovered(Exception):
    """arguments outside of the precondition of a contract"""


class Cut(Exception):
    pass


def same(a, b):
    a, b = toP(a), toP(b)
    return a == b or ST[0].ctx.entails(eqc(a, b))


def need(c):
    if not c:
        raise NotCovered()


def ax1(n):
    """axis of one dimension"""
    return mkaxis(n)


def ix(ax, p):
    """index p into an axis of one dimension"""
    return (toP(p),) if ax else ()


def get(t, b, *idx):
    """element of t: batch index b, then scalar indices (or tuples for merged axes)"""
    n = len(idx)
    out = list(b)
    for ax, i in zip(t.axes[t.ndim - n :], idx):
        if isinstance(i, tuple):
            # merged axis: tuple of (dim, index)
            q = [toP(p) for d, p in i if not is_one(toP(d))]
            need(len(q) == len(ax))
            out.append(tuple(q))
        else:
            need(len(ax) <= 1)
            out.append(ix(ax, i))
    return t.at(out)


def build(cls, baxes, dims, f, dt, g=None, nowrite=False):
    """array: batch axes, then the axes `dims` (P, or tuple of P for merged axes)"""
    axes = [tuple(a) for a in baxes] + [mkaxis(*(d if isinstance(d, tuple) else (d,))) for d in dims]
    vv = freshs(axes)
    nb = len(baxes)
    idx = []
    for ax, v, d in zip(axes[nb:], vv[nb:], dims):
        if isinstance(d, tuple):
            q = list(v)
            idx.append(tuple(ZERO if is_one(toP(x)) else toP(q.pop(0)) for x in d))
        else:
            idx.append(toP(v[0]) if v else ZERO)
    t = mk(cls, axes, vv, f(Ps(vv[:nb]), *idx), dt, g)
    if nowrite:
        t.store.nowrite = True
    return t


def dim(t, a):
    return axsize(t.axes[a])


def batch(t, k):
    return t.axes[: t.ndim - k]


def fdt(dt):
    return dt if T.cat_of(dt) >= 2 else "float64"


# ---------------------------------------------------------------- signals
def mean_removed(x, n):
    s = fresh("s")
    m = mk_sum([s], rng(s, n), x(toP(s))) * inv(toP(n))
    return lambda t: x(t) - m


def unit(x, n, eps=1e-6):
    s = fresh("s")
    v = x(toP(s))
    nrm = sqrt(mk_sum([s], rng(s, n), v * v))
    d = inv(mk_maxmin("max", [nrm, toP(eps)]))
    return lambda t: x(t) * d


def prep(x, n, zero_mean):
    return unit(mean_removed(x, n) if zero_mean else x, n)


def corr(x, y, nx, ny, i, j):
    """sum_t x(t - i) y(t - j), signals zero outside of their support"""
    t = fresh("t")
    p = toP(t)
    return mk_sum([t], rng(p - i, nx) + rng(p - j, ny), x(p - i) * y(p - j))


def delta(i, j):
    return ind(eqc(toP(i), toP(j)))


def quad(dims, A, b):
    """b' A^-1 b for index tuples over dims"""
    dims = tuple(toP(d) for d in dims)
    r = tuple(fresh("r") for _ in dims)
    c = tuple(fresh("c") for _ in dims)
    i = tuple(fresh("i") for _ in dims)
    P_ = lambda q: tuple(toP(x) for x in q)
    x = mk_solve(dims, r, c, A(P_(r), P_(c)), b(P_(r)), P_(i))
    g = [c_ for v, d in zip(i, dims) for c_ in rng(v, d)]
    return mk_sum(list(i), g, b(P_(i)) * x)


def zeros_out(v, d, p):
    """index v of a dimension which may have size one"""
    return toP(v)


# ---------------------------------------------------------------- preconditioned CG
def pcg(dims, n_iter, A, M, b, x0, idx):
    """component idx of the n_iter-th iterate of preconditioned conjugate gradient on A x = b.
    A, M: matrices as functions of (row tuple, column tuple)"""
    dims = tuple(toP(d) for d in dims)
    j = tuple(fresh("j") for _ in dims)
    c = tuple(fresh("c") for _ in dims)
    J, C = tuple(toP(x) for x in j), tuple(toP(x) for x in c)
    g = [q for v, d in zip(c, dims) for q in rng(v, d)]
    vc = el("v#", *C)
    return mk_pcg(
        dict(
            dims=dims, n=toP(n_iter), jv=j, Av=mk_sum(list(c), g, A(J, C) * vc), Mv=mk_sum(list(c), g, M(J, C) * vc),
            b=b(J), x0=x0(J) if x0 is not None else ZERO, which="x", idx=tuple(toP(i) for i in idx),
        )
    )


def circ_inverse_kernel(col, n, m):
    """first column (index m modulo n) of the regularised inverse of the circulant matrix `col`:
    1/n sum_k conj(C(k)) / max(|C(k)|^2, 1e-6) exp(2 i pi k m / n)"""
    kv = fresh("k")
    t = fresh("t")
    X = T.dft_of(toP(n), toP(kv), t, col(toP(t)))
    p = X * conj(X)
    S = conj(X) * inv(mk_maxmin("max", [p, toP(1e-6)]))
    return mk_idft(toP(n), kv, S, m)


def chan_column(acf, n, t):
    """optimal (T. Chan) circulant approximation of the symmetric Toeplitz matrix: column entry t"""
    t = toP(t)
    w = acf(t) * (n - t) * inv(toP(n)) + acf(n - t) * t * inv(toP(n))
    return ite(le(t, 0), acf(ZERO), w)


# ---------------------------------------------------------------- decibels
def db_eps(clamp_db):
    e = exp10(-toP(clamp_db) * Fraction(1, 10))
    return e * inv(1 + e)


def neg_db(coh, clamp_db):
    """10 log10((1 - coh) / coh), clamped"""
    if clamp_db is None:
        c = mk_maxmin("min", [mk_maxmin("max", [coh, ZERO]), ONE])
        return log10((1 - c) * inv(c)) * 10
    eps = db_eps(clamp_db)
    c = mk_maxmin("min", [mk_maxmin("max", [coh, eps]), 1 - eps])
    e = eps * inv(1 - eps)
    r = mk_maxmin("min", [mk_maxmin("max", [(1 - c) * inv(c), e]), inv(e)])
    return log10(r) * 10


# ---------------------------------------------------------------- assignments
def known_pred(c):
    """truth value of an opaque predicate, identified up to provable equality of its argument"""
    st = ST[0]
    if st.ctx.entails(c):
        return True
    if st.ctx.entails(neg_cond(c)):
        return False
    for f in st.ctx.facts:
        if f.kind in ("pred", "npred") and f.args[0] == c.args[0] and isinstance(f.args[1], Lam) and isinstance(c.args[1], Lam):
            if lam_eq(f.args[1], c.args[1], st.ctx):
                return f.kind == "pred"
    return decide(c)


def lam_eq(a, b, ctx):
    if a == b:
        return True
    if len(a.dims) != len(b.dims):
        return False
    vs = [fresh("l") for _ in a.dims]
    cx = ctx
    for v, d, d2 in zip(vs, a.dims, b.dims):
        if not (d == d2 or ctx.entails(eqc(d, d2))):
            return False
        cx = cx.plus(*rng(v, d))
    try:
        return Prover(20).eq(a.at(vs), b.at(vs), cx)
    except Unsupported:
        return False


def best_assignment(C, n, m):
    """C: function (row, column) -> cost, n <= m.  Raises ValueError when there is no answer;
    otherwise a function row -> column which minimises the total cost (matrices may hold
    infinities of one sign)."""
    lam = Lam([n, m], C)
    if known_pred(pred("has_neginf", lam)):
        if known_pred(pred("has_posinf", lam)):
            raise ValueError("matrix contains both inf and -inf")
    if known_pred(pred("has_nan", lam)):
        raise ValueError("matrix contains invalid numeric entries")
    return lambda i: toP(atom("asgx", toP(i), toP(m), lam, is_int=True))
