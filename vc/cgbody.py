"""Body of conjugate_gradient: loop invariant and its verification conditions.

The operators are arbitrary linear operators that act on every element of the batch and every column
independently (dense matrices of symbols; the operators of the package are proved to be of this kind when their
callers are verified).  State of the recurrence: X (iterate), R (residual), Z = M R, P (direction), S = <R, Z>.
Entry, one arbitrary step and exit of the loop are checked; the values of the loop variables at entry and after a
step must be the ones of the recurrence (the names of the variables do not matter)."""
from core import *
import core
from mspec import *
from ex import ST, SV
import tensor as T
from tensor import Tensor, mk, freshs, Ps
from prove import Prover
import contracts as C
from contracts import NotCovered


class Op:
    """an arbitrary operator: shape, ndim, @"""

    def __init__(self, cls, name, baxes, n, g):
        self.cls, self.name = cls, name
        self.M = T.input_tensor(cls, name, list(baxes) + [(n,), (n,)], "float64", g, protected=False)

    @property
    def shape(self):
        return self.M.shape

    @property
    def ndim(self):
        return self.M.ndim

    def __matmul__(self, v):
        if not isinstance(v, Tensor) or v.ndim != self.M.ndim:
            raise ValueError("Dimension mismatch between operators")
        return self.M @ v


def inner(a, b):
    return T.einsum(type(a), "...cd,...cd->...d", a, b)


def vmax(t, c):
    vv, p = t.full()
    return mk(type(t), t.axes, vv, mk_maxmin("max", [p, toP(c)]), t.dt, t.g)


def col(t):
    return t[..., None, :]


class State:
    """the recurrence"""

    def __init__(self, A, M, X, R, P):
        self.A, self.M, self.X, self.R, self.P = A, M, X, R, P
        self.Z = M @ R if M is not None else R
        self.S = inner(self.R, self.Z)

    def step(self):
        AP = self.A @ self.P
        a = self.S / vmax(inner(self.P, AP), 1e-6)
        X = self.X + col(a) * self.P
        R = self.R - col(a) * AP
        n = State(self.A, self.M, X, R, None)
        n.P = n.Z + col(n.S / vmax(self.S, 1e-6)) * self.P
        return n

    def get(self, k):
        return getattr(self, k)


def start(A, M, b, x):
    X = x if x is not None else b * 0
    R = b - A @ X
    s = State(A, M, X, R, None)
    s.P = s.Z
    return s


def eq_tensor(a, b):
    if not isinstance(a, Tensor) or a.ndim != b.ndim or type(a) is not type(b):
        return False
    ctx = ST[0].ctx
    for x, y in zip(a.axes, b.axes):
        if len(x) != len(y) or any(not (p == q or ctx.entails(eqc(p, q))) for p, q in zip(x, y)):
            return False
    vv = freshs(a.axes)
    for ax, v in zip(a.axes, vv):
        for d, x in zip(ax, v):
            ctx = ctx.plus(*rng(x, d))
    pr = Prover(20)
    return pr.eq(a.at(Ps(vv)), b.at(Ps(vv)), ctx)


class Invariant:
    def __init__(self, A, M, b, x, n_iter, prefer):
        self.A, self.M, self.b, self.x, self.n, self.prefer = A, M, b, x, n_iter, prefer

    def symbol(self, nm, like):
        g = like.g
        return T.input_tensor(type(like), nm, list(like.axes), like.dt, g, protected=False)

    def enter(self, loop, vals):
        st = ST[0]
        if len(loop.dims) != 1 or not T.same(loop.dims[0], self.n):
            raise Unsupported("number of iterations")
        s0 = start(self.A, self.M, self.b, self.x)
        self.g = s0.R.g
        lab = {}
        for n, v in vals.items():
            c = [k for k in "XRPZS" if eq_tensor(v, s0.get(k))]
            if not c:
                raise Unsupported("loop variable %s is not one of the recurrence at entry" % n)
            if len(c) > 1:
                # Z and P are equal at entry (R as well without a preconditioner, X and others for special sizes)
                pref = {"X": "x", "R": "r", "P": "p", "Z": "z", "S": "rsold"}
                w = [k for k in c if pref[k] == n]
                k = self.prefer(c, n)
                c = w or [k]
            lab[n] = c[0]
        self.lab = lab
        X, R, P = (self.symbol("cg_" + k, s0.X if k == "x" else s0.R) for k in "xrp")
        self.cur = State(self.A, self.M, X, R, P)
        return {n: self.cur.get(k) for n, k in lab.items()}

    def leave(self, loop, vals):
        nxt = self.cur.step()
        for n, k in self.lab.items():
            ok = eq_tensor(vals[n], nxt.get(k))
            ST[0].obl.append(("loop invariant is preserved: %s is the %s of the recurrence" % (n, dict(X="iterate", R="residual", P="direction", Z="preconditioned residual", S="inner product")[k]), ok, ""))

    def exit(self, loop):
        return {n: result(self.A, self.M, self.b, self.x, self.n, k, self.g) for n, k in self.lab.items() if k == "X"}


def result(A, M, b, x, n_iter, which, g=None):
    rows = b.axes[-2]
    vv = freshs(b.axes)
    idx = Ps(vv)
    bpre = list(idx[:-2])

    def act(O):
        if O is None:
            return lambda J: el("v#", *J)
        return C.mat_vec(rows, lambda J, c: O.M.at(bpre + [tuple(J), tuple(c)]))

    val = C.pcg_op(
        rows, n_iter, act(A), act(M), lambda J: b.at(bpre + [tuple(J), idx[-1]]),
        (lambda J: x.at(bpre + [tuple(J), idx[-1]])) if x is not None else None, idx[-2],
    )
    return mk(type(b), b.axes, vv, val, b.dt, g)
