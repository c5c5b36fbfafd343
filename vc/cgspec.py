"""Contract of conjugate_gradient: n_iter steps of preconditioned conjugate gradient for linear
operators that act independently on every element of the batch and every column."""
from core import *
import core
from core import Closed, Cond, Atom, rebuild, P
from mspec import *
from ex import ST
import tensor as T
from tensor import Tensor, mk, freshs, Ps, gmerge


class _Ident:
    def __matmul__(self, o):
        return o


def replace_el(x, name, f):
    """replace the atoms el(name, *idx) by f(idx)"""
    if isinstance(x, P):
        r = ZERO
        for m, c in x.t.items():
            t = P({(): c})
            for a, e in m:
                q = _rep_atom(a, name, f)
                t = t * (core._powP(a, e) if q is None else q ** e)
            r = r + t
        return r
    if isinstance(x, Cond):
        if x.p is not None:
            p = replace_el(x.p, name, f)
            return ge(p) if x.kind == "ge" else eqc(p) if x.kind == "eq" else neg_cond(eqc(p))
        return Cond(x.kind, None, replace_el(x.args, name, f))
    if isinstance(x, tuple):
        return tuple(replace_el(y, name, f) for y in x)
    if isinstance(x, frozenset):
        return frozenset(replace_el(y, name, f) for y in x)
    if isinstance(x, Atom):
        q = _rep_atom(x, name, f)
        return toP(x) if q is None else q
    if isinstance(x, Closed):
        return x.map(lambda y: replace_el(y, name, f))
    return x


def has_el(x, name):
    if isinstance(x, P):
        return any(has_el(a, name) for m in x.t for a, _ in m)
    if isinstance(x, Atom):
        if x.kind == "el" and x.args[0] == name:
            return True
        return any(has_el(y, name) for y in x.args)
    if isinstance(x, Cond):
        return has_el(x.p if x.p is not None else x.args, name)
    if isinstance(x, (tuple, frozenset)):
        return any(has_el(y, name) for y in x)
    if isinstance(x, Closed):
        return has_el(x.body, name) if hasattr(x, "body") else True
    return False


def _rep_atom(a, name, f):
    if not has_el(a, name):
        return None
    if a.kind == "el" and a.args[0] == name:
        return f(a.args[1])
    return rebuild(a, lambda y: replace_el(y, name, f))


def cg_result(A, b, x, n_iter, precond):
    st = ST[0]
    add_axis = A.ndim - 1 == b.ndim
    B = b[..., None] if add_axis else b
    if not (len(A.shape) == len(B.shape)) or not (A.shape[-1] == B.shape[-2]):
        raise AssertionError()
    if x is not None and add_axis:
        raise NotCovered()
    vv = freshs(B.axes)
    flat = [toP(v) for q in vv for v in q]
    V = mk(type(B), B.axes, vv, el("v#B", *flat), B.dt, None)
    Av = A @ V
    Mv = (_Ident() if precond is None else precond) @ V
    nb = B.ndim - 2
    for t in (Av, Mv) + ((x,) if x is not None else ()):
        need(t.ndim == B.ndim)
        for p, q in zip(t.axes, B.axes):
            if len(p) != len(q) or not all(same(u, w) for u, w in zip(p, q)):
                raise Unsupported("axes of an operator: %s, %s" % (t.axes, B.axes))
    rows = B.axes[-2]

    def val(idx):
        """idx: per-axis tuples of P"""
        jv = tuple(fresh("j") for _ in rows)
        at = list(idx)
        at[-2] = Ps([jv])[0] if rows else ()
        own = [p for i, q in enumerate(idx) for p in q if i != len(idx) - 2]
        npre = sum(len(q) for q in idx[:-2])
        nr = len(rows)

        def hole(args):
            ctx = st.ctx
            o = list(args[:npre]) + list(args[npre + nr:])
            for p, q in zip(o, own):
                if toP(p) != toP(q):
                    raise Unsupported("operator mixes the columns or the batch")
            return el("v#", *args[npre : npre + nr])

        return mk_pcg(
            dict(
                dims=tuple(rows), n=toP(n_iter), jv=jv, Av=replace_el(Av.at(at), "v#B", hole), Mv=replace_el(Mv.at(at), "v#B", hole),
                b=B.at(at), x0=x.at(at) if x is not None else ZERO, which="x", idx=tuple(toP(p) for p in idx[-2]),
            )
        )

    g = gmerge(B.g, Av.g, Mv.g, x.g if x is not None else None)
    r = mk(type(B), B.axes, vv, val(Ps(vv)), B.dt, g)
    return r[..., 0] if add_axis else r


def cg_stub(real):
    import inspect

    sig = inspect.signature(real)
    if not {"A", "b", "x", "n_iter", "precond"} <= set(sig.parameters):
        return None

    def f(*a, **k):
        bd = sig.bind(*a, **k)
        bd.apply_defaults()
        q = bd.arguments
        if q.get("x_true") is not None or q.get("verbose") or q["n_iter"] is None:
            return real(*a, **k)
        try:
            return cg_result(q["A"], q["b"], q["x"], q["n_iter"], q["precond"])
        except NotCovered:
            return real(*a, **k)

    return f
