"""Contracts of the functions of fast_bss_eval: postconditions written from the definitions
(mspec.py), used both as proof obligations on the real code and, once proved, in place of
the callees when their callers are verified."""
import inspect
from mspec import *
import mspec
from core import *
import core
from ex import SV, SB, ST, decide, scal, lift
import tensor as T
from tensor import Tensor, NpTensor, PtTensor


class Contract:
    def __init__(self, name, spec, opaque=False, params=None):
        self.name, self.spec, self.opaque = name, spec, opaque
        self.params = params or list(inspect.signature(spec).parameters)
        self.sig = inspect.signature(spec)


REG = {}


def contract(name, opaque=False):
    def d(f):
        REG[name] = Contract(name, f, opaque)
        return f

    return d


# ---------------------------------------------------------------- calls of specifications
def _same_arg(a, b):
    if a is b:
        return True
    if isinstance(a, Tensor) or isinstance(b, Tensor):
        if not (isinstance(a, Tensor) and isinstance(b, Tensor)) or type(a) is not type(b):
            return False
        if a.ndim != b.ndim or a.dt != b.dt:
            return False
        ctx = ST[0].ctx
        for x, y in zip(a.axes, b.axes):
            if len(x) != len(y) or any(not (p == q or ctx.entails(eqc(p, q))) for p, q in zip(x, y)):
                return False
        vv = freshs(a.axes)
        for ax, v in zip(a.axes, vv):
            for d, x in zip(ax, v):
                ctx = ctx.plus(*rng(x, d))
        try:
            return Prover(20).eq(a.at(Ps(vv)), b.at(Ps(vv)), ctx)
        except Unsupported:
            return False
    if a is None or b is None:
        return False
    if isinstance(a, (bool, SB)) or isinstance(b, (bool, SB)):
        try:
            return bool(a) == bool(b)
        except Unsupported:
            return False
    if scal(a) and scal(b):
        p, q = toP(a), toP(b)
        return p == q or ST[0].ctx.entails(eqc(p, q))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(_same_arg(x, y) for x, y in zip(a, b))
    return a == b


def _full(x):
    vv, b = x.full()
    return vv, b


def freeze(x):
    if isinstance(x, Tensor):
        return mk(type(x), x.axes, *_full(x), x.dt, x.g)
    return x


def opaque_call(name, bound, make):
    """result of an uninterpreted specification function: the same symbol for equal arguments"""
    st = ST[0]
    memo = st.__dict__.setdefault("opaque", [])
    for nm, old, res in memo:
        if nm == name and set(old) == set(bound) and all(_same_arg(old[k], bound[k]) for k in sorted(bound)):
            return res()
    fz = {k: freeze(v) for k, v in bound.items()}
    k = sum(1 for n, _, _ in memo if n == name)
    memo.append((name, fz, lambda: make("%s#%d" % (name, k))))
    return memo[-1][2]()


def call_spec(name, *a, **kw):
    c = REG[name]
    b = c.sig.bind(*a, **kw)
    b.apply_defaults()
    return c.spec(**b.arguments)


def osym(name, cls, baxes, dims, dt, g):
    """array of uninterpreted values"""
    return build(cls, baxes, dims, lambda b, *i: el(name, *[x for q in b for x in q], *i), dt, g)


# ---------------------------------------------------------------- preconditions
def check_pair(ref, est):
    need(isinstance(ref, Tensor) and type(ref) is type(est))
    need(ref.ndim >= 2 and est.ndim == ref.ndim)
    need(all(len(x) == len(y) and all(same(p, q) for p, q in zip(x, y)) for x, y in zip(batch(ref, 2), batch(est, 2))))
    need(same(dim(ref, -1), dim(est, -1)))


def rdt(*ts):
    """type of the results: that of the signals, float64 for integers"""
    d = [t.dt for t in ts]
    if isinstance(ts[0], PtTensor):
        need(all(T.cat_of(x) >= 2 for x in d))
    need(len(set(d)) == 1)
    return d[0] if T.cat_of(d[0]) >= 2 else "float64"


def sig(t, b, k):
    return lambda n: get(t, b, k, n)


# ---------------------------------------------------------------- preprocessing of the signals
def last_axis(x, axis):
    need(isinstance(axis, int) and not isinstance(axis, bool) and (axis == -1 or axis == x.ndim - 1))


def along(x, f, dt):
    """x: (..., T); f(signal, T) -> signal, applied to every signal"""
    n = dim(x, -1)
    return build(type(x), batch(x, 1), [n], lambda b, t: f(lambda s: get(x, b, s), n)(t), dt, x.g)


@contract("_remove_mean", opaque=True)
def spec_remove_mean(x, axis=-1):
    last_axis(x, axis)
    return along(x, mean_removed, rdt(x))


@contract("_normalize", opaque=True)
def spec_normalize(x, eps=1e-6, axis=None):
    last_axis(x, axis)
    return along(x, lambda s, n: unit(s, n, eps), rdt(x))


def o_signal(name):
    def f(x, axis, eps=1e-6):
        last_axis(x, axis)
        need(eps == 1e-6)
        dt = rdt(x)
        return opaque_call(name, {"x": x}, lambda nm: osym(nm, type(x), batch(x, 1), [dim(x, -1)], dt, x.g))

    return f


def prepared(x, zm):
    if zm:
        x = use("_remove_mean", x, -1)
    return use("_normalize", x, axis=-1)


def truth(x):
    return bool(x)


# ---------------------------------------------------------------- sdr
def system_sdr(x, TT, L, d):
    """matrix of the single-reference problem"""
    return lambda i, j: corr(x, x, TT, TT, i[0], j[0]) + (delta(i[0], j[0]) * d if d is not None else 0)


def coh_sdr_direct(x, y, TT, L, d):
    if is_one(L):
        s = fresh("s")
        xy = mk_sum([s], rng(s, TT), x(toP(s)) * y(toP(s)))
        if d is None:
            return xy * xy
        s = fresh("s")
        xx = mk_sum([s], rng(s, TT), x(toP(s)) * x(toP(s)))
        return xy * xy * inv(mk_maxmin("max", [xx + d, toP(tiny_of())]))
    return quad((L,), system_sdr(x, TT, L, d), lambda i: corr(x, y, TT, TT, i[0], ZERO))


TINY = ["float64"]


def tiny_of():
    import shims

    return shims.tiny(TINY[0])


def dload(ld):
    return None if ld is None else toP(ld)


@contract("sdr_loss", opaque=True)
def spec_sdr_loss(est, ref, filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None, pairwise=False):
    check_pair(ref, est)
    zm, pw = truth(zero_mean), truth(pairwise)
    L = toP(filter_length)
    need(is_one(L) or ST[0].ctx.entails(ge(L, 2)) or decide(ge(L, 2)))
    TT = dim(ref, -1)
    dt = rdt(est, ref)
    TINY[0] = dt
    d = dload(load_diag)
    if not pw:
        need(same(dim(ref, -2), dim(est, -2)))

    est, ref = prepared(est, zm), prepared(ref, zm)

    def val(b, k, m):
        x, y = sig(ref, b, k), sig(est, b, m)
        if is_one(L) or use_cg_iter is None:
            c = coh_sdr_direct(x, y, TT, L, d)
        else:
            c = coh_sdr_cg(x, y, TT, L, d, toP(use_cg_iter))
        return neg_db(c, clamp_db)

    bx = batch(ref, 2)
    g = gmerge(ref.g, est.g)
    if pw:
        return build(type(ref), bx, [dim(ref, -2), dim(est, -2)], val, dt, g)
    return build(type(ref), bx, [dim(ref, -2)], lambda b, k: val(b, k, k), dt, g)


# ---------------------------------------------------------------- iterative solver
def coh_sdr_cg(x, y, TT, L, d, n_iter):
    A = system_sdr(x, TT, L, d)
    b = lambda i: corr(x, y, TT, TT, i[0], ZERO)
    i = fresh("i")
    return mk_sum([i], rng(i, L), b((toP(i),)) * filter_cg(x, y, TT, L, d, n_iter, toP(i)))


def u_toeplitz_cg(n, n_iter, acf, b, i):
    """the result of the contract of toeplitz_conjugate_gradient, as a function of its arguments"""
    return toP(atom("ufn", "toeplitz_cg", toP(n), toP(n_iter), Lam([n], acf), Lam([n], b), toP(i)))


def u_block_cg(n, K, n_iter, lag, b, x0, I):
    """the same for the block version; lag: function of (lag, row, column) for |lag| < n"""
    a = Lam([n * 2 - 1, K, K], lambda t, r, c: lag(toP(t) - (n - 1), r, c))
    x = (Lam([n, K], x0),) if x0 is not None else ("zero",)
    return toP(atom("ufn", "block_toeplitz_cg", toP(n), toP(K), toP(n_iter), a, Lam([n, K], b), *x, toP(I[0]), toP(I[1])))


def filter_cg(x, y, TT, L, d, n_iter, i):
    """component i of the filter of the single-reference problem, by conjugate gradient"""
    A = system_sdr(x, TT, L, d)
    acf = lambda t: A((ZERO,), (toP(t),))
    b = lambda j: corr(x, y, TT, TT, j[0], ZERO)
    if USE_OPAQUE[0]:
        return u_toeplitz_cg(L, n_iter, acf, lambda j: b((toP(j),)), i)
    return pcg_op((L,), n_iter, mat_vec((L,), A), circ_apply(acf, L), b, None, (toP(i),))


def coh_sar_cg(ref, est, b, m, K, TT, L, d, n_iter, warm):
    """all the references together; the iterations start from the single-reference filters when `warm`"""
    y = sig(est, b, m)

    def lag(t, r, c):
        v = corr(sig(ref, b, r), sig(ref, b, c), TT, TT, ZERO, toP(t))
        return v + delta(toP(t), ZERO) * delta(r, c) * d if d is not None else v

    # positive lags at 0..L-1, negative ones counted from 2 L
    a = lambda t, r, c: lag2(t, r, c)

    def lag2(t, r, c):
        t = toP(t)
        return ite(le(t, L - 1), lag(t, r, c), lag(t - L * 2, r, c))

    A = lambda i, j: lag(toP(j[0]) - i[0], i[1], j[1])
    rhs = lambda j: corr(sig(ref, b, j[1]), y, TT, TT, j[0], ZERO)
    x0 = (lambda j: filter_cg(sig(ref, b, j[1]), y, TT, L, d, n_iter, j[0])) if warm else None
    i, k = fresh("i"), fresh("k")
    I = (toP(i), toP(k))
    if USE_OPAQUE[0]:
        sol = u_block_cg(L, K, n_iter, lag, lambda p, q: rhs((toP(p), toP(q))), (lambda p, q: x0((toP(p), toP(q)))) if warm else None, I)
        return mk_sum([i, k], rng(i, L) + rng(k, K), rhs(I) * sol)
    sol = pcg_op((L, K), n_iter, mat_vec((L, K), A), block_circ_apply(type(ref), a, L, K), rhs, x0, I)
    return mk_sum([i, k], rng(i, L) + rng(k, K), rhs(I) * sol)


# ---------------------------------------------------------------- permutations
def perm_of(mat, b, n, m, transposed):
    """best assignment of the matrix at batch index b (rows: the shorter side)"""
    f = (lambda i, j: get(mat, b, j, i)) if transposed else (lambda i, j: get(mat, b, i, j))
    return best_assignment(f, n, m)


@contract("_solve_permutation")
def spec_solve_permutation(target_loss_matrix, args=(), return_perm=False):
    mat = target_loss_matrix
    need(mat.ndim >= 2)
    K, M = dim(mat, -2), dim(mat, -1)
    tr = decide(gt(K, M))
    n, m = (M, K) if tr else (K, M)
    for a in args:
        need(type(a) is type(mat) and a.ndim == mat.ndim)
        need(all(len(x) == len(y) and all(same(p, q) for p, q in zip(x, y)) for x, y in zip(a.axes, mat.axes)))
    bx = batch(mat, 2)
    # one arbitrary element of the batch decides about the exceptions
    fb = focus_index(bx)
    if fb is not None:
        perm_of(mat, fb, n, m, tr)

    def pick(t):
        def val(b, i):
            p = asgx(mat, b, n, m, tr, i)
            return get(t, b, p, i) if tr else get(t, b, i, p)

        return build(type(t), bx, [n], val, t.dt, t.g)

    out = (pick(mat),) + tuple(pick(a) for a in args)
    if truth(return_perm):
        out += (build(type(mat), bx, [n], lambda b, i: asgx(mat, b, n, m, tr, i), "int64", None),)
    return out[0] if len(out) == 1 else out


def asgx(mat, b, n, m, tr, i):
    f = (lambda r, c: get(mat, b, c, r)) if tr else (lambda r, c: get(mat, b, r, c))
    return toP(atom("asgx", toP(i), toP(m), Lam([n, m], f), is_int=True))


def focus_index(bx):
    """the arbitrary batch index (None: the batch is empty)"""
    st = ST[0]
    for ax in bx:
        for d in ax:
            if not decide(ge(d, 1)):
                return None
    foc = list(st.focus)
    out = []
    for ax in bx:
        q = []
        for d in ax:
            if not foc:
                raise Unsupported("no focus for the batch")
            v, fd = foc.pop(0)
            if not same(d, fd):
                raise Unsupported("focus")
            st.assume(*rng(v, d))
            q.append(toP(v))
        out.append(tuple(q))
    return out


@contract("sdr", opaque=True)
def spec_sdr(ref, est, filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None, return_perm=False, change_sign=False):
    mat = use("sdr_loss", est, ref, filter_length, use_cg_iter, zero_mean, clamp_db, load_diag, True)
    val, perm = spec_solve_permutation(mat, (), True)
    if not truth(change_sign):
        val = -val
    return (val, perm) if truth(return_perm) else val


USE_OPAQUE = [True]
BROKEN = set()  # (backend, function): internal contracts which are not met, functions which are verified inline


def use(name, *a, **kw):
    c = REG[name]
    b = c.sig.bind(*a, **kw)
    b.apply_defaults()
    if c.opaque and USE_OPAQUE[0] and name in OSPEC and (T.CUR_BACKEND, name) not in BROKEN:
        return OSPEC[name](**b.arguments)
    return c.spec(**b.arguments)


OSPEC = {"_remove_mean": o_signal("_remove_mean"), "_normalize": o_signal("_normalize")}


def o_sdr_loss(**kw):
    est, ref, pw = kw["est"], kw["ref"], truth(kw["pairwise"])
    check_pair(ref, est)
    kw = dict(kw, pairwise=pw, zero_mean=truth(kw["zero_mean"]))
    L = toP(kw["filter_length"])
    need(is_one(L) or ST[0].ctx.entails(ge(L, 2)) or decide(ge(L, 2)))
    if is_one(L):
        kw["use_cg_iter"] = None
    dt = rdt(est, ref)
    if not pw:
        need(same(dim(ref, -2), dim(est, -2)))
    dims = [dim(ref, -2), dim(est, -2)] if pw else [dim(ref, -2)]
    return opaque_call(
        "sdr_loss", kw, lambda nm: osym(nm, type(ref), batch(ref, 2), dims, dt, gmerge(ref.g, est.g))
    )


OSPEC["sdr_loss"] = o_sdr_loss


# ---------------------------------------------------------------- bss_eval
def coh_sar_direct(ref, est, b, m, K, TT, L, d):
    y = sig(est, b, m)
    if is_one(L):
        A = lambda r, c: corr0(sig(ref, b, r[0]), sig(ref, b, c[0]), TT) + (delta(r[0], c[0]) * d if d is not None else 0)
        return quad((K,), A, lambda r: corr0(sig(ref, b, r[0]), y, TT))

    def A(r, c):
        v = corr(sig(ref, b, r[1]), sig(ref, b, c[1]), TT, TT, r[0], c[0])
        if d is not None:
            v = v + delta(r[0], c[0]) * delta(r[1], c[1]) * d
        return v

    return quad((L, K), A, lambda r: corr(sig(ref, b, r[1]), y, TT, TT, r[0], ZERO))


def corr0(x, y, n):
    s = fresh("s")
    return mk_sum([s], rng(s, n), x(toP(s)) * y(toP(s)))


@contract("square_cosine_metrics", opaque=True)
def spec_square_cosine(ref, est, filter_length=512, use_cg_iter=None, zero_mean=False, pairwise=True, load_diag=None):
    check_pair(ref, est)
    zm, pw = truth(zero_mean), truth(pairwise)
    L = toP(filter_length)
    need(is_one(L) or ST[0].ctx.entails(ge(L, 2)) or decide(ge(L, 2)))
    TT = dim(ref, -1)
    dt = rdt(est, ref)
    TINY[0] = dt
    d = dload(load_diag)
    K, M = dim(ref, -2), dim(est, -2)
    if not pw:
        need(same(K, M))
    est, ref = prepared(est, zm), prepared(ref, zm)
    cg = None if is_one(L) or use_cg_iter is None else toP(use_cg_iter)

    def sdr_(b, k, m):
        x, y = sig(ref, b, k), sig(est, b, m)
        if cg is None:
            return coh_sdr_direct(x, y, TT, L, d)
        return coh_sdr_cg(x, y, TT, L, d, cg)

    def sar_(b, m):
        if cg is None:
            return coh_sar_direct(ref, est, b, m, K, TT, L, d)
        return coh_sar_cg(ref, est, b, m, K, TT, L, d, cg, pw)

    bx = batch(ref, 2)
    g = gmerge(ref.g, est.g)
    if pw:
        return (
            build(type(ref), bx, [K, M], sdr_, dt, g),
            build(type(ref), bx, [K, M], lambda b, k, m: sar_(b, m), dt, g),
        )
    return build(type(ref), bx, [K], lambda b, k: sdr_(b, k, k), dt, g), build(type(ref), bx, [M], sar_, dt, g)


def o_square_cosine(**kw):
    ref, est = kw["ref"], kw["est"]
    check_pair(ref, est)
    pw = truth(kw["pairwise"])
    L = toP(kw["filter_length"])
    need(is_one(L) or ST[0].ctx.entails(ge(L, 2)) or decide(ge(L, 2)))
    kw = dict(kw, pairwise=pw, zero_mean=truth(kw["zero_mean"]))
    if is_one(L):
        kw["use_cg_iter"] = None
    dt = rdt(est, ref)
    K, M = dim(ref, -2), dim(est, -2)
    if not pw:
        need(same(K, M))
    g = gmerge(ref.g, est.g)
    bx = batch(ref, 2)

    def make(nm):
        if pw:
            return (
                build(type(ref), bx, [K, M], lambda b, k, m: el(nm + ".sdr", *flatb(b), k, m), dt, g),
                build(type(ref), bx, [K, M], lambda b, k, m: el(nm + ".sar", *flatb(b), m), dt, g),
            )
        return (
            build(type(ref), bx, [K], lambda b, m: el(nm + ".sdr", *flatb(b), m), dt, g),
            build(type(ref), bx, [K], lambda b, m: el(nm + ".sar", *flatb(b), m), dt, g),
        )

    return opaque_call("square_cosine_metrics", kw, make)


def flatb(b):
    return [x for q in b for x in q]


OSPEC["square_cosine_metrics"] = o_square_cosine


@contract("bss_eval_sources", opaque=True)
def spec_bss_eval_sources(ref, est, filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, compute_permutation=True, load_diag=None):
    check_pair(ref, est)
    cp = truth(compute_permutation)
    K, M = dim(ref, -2), dim(est, -2)
    if not cp and not same(K, M):
        if decide(eqc(K, M)):
            pass
        else:
            raise AssertionError("number of channels")
    cs, ca = use("square_cosine_metrics", ref, est, filter_length, use_cg_iter, zero_mean, cp, load_diag)
    TINY[0] = cs.dt
    tiny = toP(tiny_of())
    ci = elw2(cs, ca, lambda s, a: s * inv(mk_maxmin("max", [a, tiny])))
    out = [elw1(c, lambda v: neg_db(v, clamp_db)) for c in (cs, ci, ca)]
    if cp:
        nsir, nsdr, nsar, perm = spec_solve_permutation(out[1], (out[0], out[2]), True)
        return -nsdr, -nsir, -nsar, perm
    return -out[0], -out[1], -out[2]


def elw1(t, f):
    vv, b = t.full()
    return mk(type(t), t.axes, vv, f(b), t.dt, t.g)


def elw2(t, u, f):
    vv = freshs(t.axes)
    return mk(type(t), t.axes, vv, f(t.at(Ps(vv)), u.at(Ps(vv))), t.dt, gmerge(t.g, u.g))


# ---------------------------------------------------------------- iterative solvers
def pcg_op(dims, n_iter, Av, Mv, b, x0, idx):
    """pcg with the operators given by their action on el('v#', .)"""
    j = tuple(fresh("j") for _ in dims)
    J = tuple(toP(x) for x in j)
    return mk_pcg(
        dict(dims=tuple(toP(d) for d in dims), n=toP(n_iter), jv=j, Av=Av(J), Mv=Mv(J), b=b(J), x0=x0(J) if x0 else ZERO, which="x", idx=tuple(toP(i) for i in idx))
    )


def mat_vec(dims, A):
    """action of a matrix on el('v#', .)"""
    c = tuple(fresh("c") for _ in dims)
    C_ = tuple(toP(x) for x in c)
    g = [q for v, d in zip(c, dims) for q in rng(v, d)]
    return lambda J: mk_sum(list(c), g, A(J, C_) * el("v#", *C_))


def sym_toeplitz(acf):
    """entry (i, j) of the symmetric Toeplitz matrix: acf(|i - j|)"""
    return lambda i, j: ite(ge(toP(i[0]), toP(j[0])), acf(toP(i[0]) - j[0]), acf(toP(j[0]) - i[0]))


def circ_apply(acf, n):
    """action of the preconditioner on el('v#', .): the inverse of the optimal circulant
    approximation, computed in the Fourier domain where it is diagonal"""

    def f(J):
        col = build(NpTensor, [], [n], lambda b, t: chan_column(acf, n, t), "float64")
        X = T.rfft(col, axis=0)
        V = T.rfft(build(NpTensor, [], [n], lambda b, t: el("v#", t), "float64"), axis=0)
        kv, x = X.full()
        v = V.at(Ps(kv))
        S = mk(NpTensor, X.axes, kv, conj(x) * inv(mk_maxmin("max", [x * conj(x), toP(1e-6)])) * v, X.dt, None)
        return get(T.irfft(S, n=lift(n), axis=0), [], J[0])

    return f


@contract("toeplitz_conjugate_gradient")
def spec_toeplitz_cg(acf, xcorr, x=None, n_iter=None, x_true=None):
    need(x_true is None and n_iter is not None and x is None)
    n = dim(acf, -1)
    vec = xcorr.ndim == acf.ndim
    need(vec or xcorr.ndim == acf.ndim + 1)
    nb = acf.ndim - 1
    need(same(dim(xcorr, nb), n))
    bx = batch(acf, 1)
    check_batch(acf, xcorr, nb)

    def val(b, i, *m):
        a = lambda t: get(acf, b, t)
        return pcg_op((n,), n_iter, mat_vec((n,), sym_toeplitz(a)), circ_apply(a, n), lambda j: get(xcorr, b, j[0], *m), None, (i,))

    dims = [n] + ([] if vec else [dim(xcorr, -1)])
    return build(type(xcorr), bx, dims, val, xcorr.dt, gmerge(acf.g, xcorr.g))


def check_batch(a, c, nb):
    need(type(a) is type(c))
    for p, q in zip(a.axes[:nb], c.axes[:nb]):
        need(len(p) == len(q) and all(same(u, v) for u, v in zip(p, q)))


def rows2(n, K, i, r):
    return ((n, i), (K, r))


@contract("block_toeplitz_conjugate_gradient")
def spec_block_toeplitz_cg(acf, xcorr, x=None, n_iter=None, x_true=None):
    need(x_true is None and n_iter is not None)
    K = dim(acf, -1)
    need(same(K, dim(acf, -2)))
    nb = acf.ndim - 3
    need(xcorr.ndim == nb + 2)
    check_batch(acf, xcorr, nb)
    ax = xcorr.axes[-2]
    n = halve(dim(acf, -3))
    need(merged(ax, n, K))
    if x is not None:
        need(x.ndim == xcorr.ndim and merged(x.axes[-2], n, K) and same(dim(x, -1), dim(xcorr, -1)))
        check_batch(x, xcorr, nb)
    bx = batch(acf, 3)

    def val(b, ir, m):
        # lag t of the correlations (r, c): acf[t] for t >= 0 and acf[2 n + t] for t < 0
        a = lambda t, r, c: get(acf, b, t, r, c)
        lag = lambda t, r, c: ite(ge(t, 0), a(t, r, c), a(t + n * 2, r, c))
        A = lambda i, j: lag(toP(j[0]) - i[0], i[1], j[1])
        rhs = lambda j: get(xcorr, b, rows2(n, K, j[0], j[1]), m)
        x0 = (lambda j: get(x, b, rows2(n, K, j[0], j[1]), m)) if x is not None else None
        return pcg_op((n, K), n_iter, mat_vec((n, K), A), block_circ_apply(type(acf), a, n, K), rhs, x0, ir)

    g = gmerge(acf.g, xcorr.g, x.g if x is not None else None)
    return build(type(xcorr), bx, [(n, K), dim(xcorr, -1)], val, xcorr.dt, g)


def halve(d):
    for v in (2,):
        h = fdiv(d, 2)
        need(ST[0].ctx.entails(eqc(h * 2, d)))
        return h


def merged(ax, n, K):
    want = mkaxis(n, K)
    return len(ax) == len(want) and all(same(p, q) for p, q in zip(ax, want))


def block_circ_apply(cls, a, n, K):
    """block version: the inverse of every Fourier block of the optimal block circulant matrix"""

    def column(t, r, c):
        t = toP(t)
        w = a(n - t, r, c) * t * inv(toP(n)) + a(n * 2 - t, r, c) * (1 - t * inv(toP(n)))
        return ite(le(t, 0), a(ZERO, r, c), w)

    def f(J):
        col = build(cls, [], [n, K, K], lambda b, t, r, c: column(t, r, c), "float64")
        Cf = T.rfft(col, axis=0)
        Ci = T.matinv(Cf)
        V = build(cls, [], [n, K], lambda b, t, c: el("v#", t, c), "float64")
        Vf = T.rfft(V, axis=0)
        Y = T.irfft(T.einsum(cls, "frc,fc->fr", Ci, Vf), n=lift(n), axis=0)
        return get(Y, [], J[0], J[1])

    return f


def o_toeplitz_cg(acf, xcorr, x=None, n_iter=None, x_true=None):
    need(x_true is None and n_iter is not None and x is None)
    n = dim(acf, -1)
    vec = xcorr.ndim == acf.ndim
    need(vec or xcorr.ndim == acf.ndim + 1)
    need(same(dim(xcorr, acf.ndim - 1), n))
    check_batch(acf, xcorr, acf.ndim - 1)

    def val(b, i, *m):
        return u_toeplitz_cg(n, n_iter, lambda t: get(acf, b, t), lambda j: get(xcorr, b, j, *m), i)

    dims = [n] + ([] if vec else [dim(xcorr, -1)])
    return build(type(xcorr), batch(acf, 1), dims, val, xcorr.dt, gmerge(acf.g, xcorr.g))


def o_block_cg(acf, xcorr, x=None, n_iter=None, x_true=None):
    need(x_true is None and n_iter is not None)
    K = dim(acf, -1)
    need(same(K, dim(acf, -2)))
    nb = acf.ndim - 3
    need(xcorr.ndim == nb + 2)
    check_batch(acf, xcorr, nb)
    n = halve(dim(acf, -3))
    need(merged(xcorr.axes[-2], n, K))
    if x is not None:
        need(x.ndim == xcorr.ndim and merged(x.axes[-2], n, K) and same(dim(x, -1), dim(xcorr, -1)))
        check_batch(x, xcorr, nb)

    def val(b, ir, m):
        lag = lambda t, r, c: ite(ge(t, 0), get(acf, b, t, r, c), get(acf, b, t + n * 2, r, c))
        rhs = lambda p, q: get(xcorr, b, rows2(n, K, toP(p), toP(q)), m)
        x0 = (lambda p, q: get(x, b, rows2(n, K, toP(p), toP(q)), m)) if x is not None else None
        return u_block_cg(n, K, n_iter, lag, rhs, x0, ir)

    g = gmerge(acf.g, xcorr.g, x.g if x is not None else None)
    return build(type(xcorr), batch(acf, 3), [(n, K), dim(xcorr, -1)], val, xcorr.dt, g)


REG["toeplitz_conjugate_gradient"].opaque = True
REG["block_toeplitz_conjugate_gradient"].opaque = True
OSPEC["toeplitz_conjugate_gradient"] = o_toeplitz_cg
OSPEC["block_toeplitz_conjugate_gradient"] = o_block_cg
