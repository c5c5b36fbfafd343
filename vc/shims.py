"""Symbolic numpy / scipy / torch / math modules and builtins."""
import builtins as _b
import itertools as _it
import math as _math
import types

from core import *
import core
from ex import *
import ex
from ex import ST, decide
import tensor as T
from tensor import Tensor, NpTensor, PtTensor, DT, dtname, SymList
from prove import Lam


class Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__") or name in self.__dict__.get("_absent", ()):
            raise AttributeError("module %r has no attribute %r" % (self.__name__, name))
        raise Unsupported("%s.%s" % (self.__name__, name))


# names of one generation of numpy only
ONLY1 = "float_ complex_ unicode_ string_ Inf Infinity NaN NINF PINF NZERO PZERO infty product cumproduct sometrue alltrue round_ msort cast asfarray find_common_type obj2sctype issctype issubclass_ sctypes mat nbytes set_string_function source deprecate disp tracemalloc_domain add_newdoc safe_eval byte_bounds compare_chararrays maximum_sctype recfromcsv recfromtxt lookfor who".split()
ONLY2 = "trapezoid concat permute_dims matrix_transpose vecdot matvec vecmat astype isdtype unstack cumulative_sum cumulative_prod pow acos acosh asin asinh atan atan2 atanh bitwise_count bitwise_invert bitwise_left_shift bitwise_right_shift unique_all unique_counts unique_inverse unique_values long ulong".split()
ONLY2_LINALG = "vecdot matmul tensordot outer cross diagonal trace matrix_norm vector_norm matrix_transpose svdvals".split()


def generation(np, n):
    """numpy 1.26 or numpy 2"""
    if n == 2:
        np.__version__ = "2.1.0"
        np._absent = set(ONLY1)
        for x in ONLY1:
            np.__dict__.pop(x, None)
    else:
        np._absent = set(ONLY2)
        if isinstance(np.__dict__.get("linalg"), Mod):
            np.linalg._absent = set(ONLY2_LINALG)
            for x in ONLY2_LINALG:
                np.linalg.__dict__.pop(x, None)
        for x in ONLY2:
            np.__dict__.pop(x, None)


def A(x):
    """numpy argument to array"""
    if isinstance(x, Tensor):
        return x
    return T.array_of(NpTensor, x)


def B(x):
    if isinstance(x, Tensor):
        return x
    return T.array_of(PtTensor, x)


def _asserted(x):
    if not isinstance(x, PtTensor):
        raise TypeError("expected Tensor as input, but got %s" % type(x).__name__)
    return x


def assignment(cls, C, maximize=False):
    """contract of the linear sum assignment: rows 0..min(n,m)-1 sorted, distinct columns,
    minimal total cost; the assignment itself is an uninterpreted function of the matrix"""
    st = ST[0]
    if C.ndim != 2:
        raise ValueError("expected a matrix (2-D array)")
    n, m = T.axsize(C.axes[0]), T.axsize(C.axes[1])
    lam = Lam([n, m], lambda i, j: C.at([(i,) if C.axes[0] else (), (j,) if C.axes[1] else ()]))
    if maximize:
        lam = Lam([n, m], lambda i, j: -C.at([(i,) if C.axes[0] else (), (j,) if C.axes[1] else ()]))
    st.calls.append(("assignment", lam))
    nan = pred("has_nan", lam)
    if decide(nan):
        raise ValueError("matrix contains invalid numeric entries")
    if cls is NpTensor:
        # scipy: infeasible only with infinite entries; +inf are legal entries, -inf are not
        bad = pred("has_neginf", lam)
        if st.ctx.entails(neg_cond(pred("has_inf", lam))):
            pass
    if decide(le(n, m)):
        v = fresh("x")
        ax = T.mkaxis(n)
        rows = T.arange(cls, [lift(n)])
        if ax:
            cols = T.mk(cls, [ax], [(v,)], toP(asg_atom(v, m, lam)), "int64")
        else:
            cols = T.mk(cls, [()], [()], toP(asg_atom(ZERO, m, lam)), "int64")
        return rows, cols
    # more rows than columns: rows are a sorted subset
    v = fresh("x")
    ax = T.mkaxis(m)
    i = (v,) if ax else ()
    p = toP(v) if ax else ZERO
    rows = T.mk(cls, [ax], [i], toP(atom("intfn", "asgrow", p, ZERO, n, lam, is_int=True)), "int64")
    cols = T.mk(cls, [ax], [i], toP(atom("intfn", "asgcol", p, ZERO, m, lam, is_int=True)), "int64")
    return rows, cols


def asg_atom(i, m, lam):
    return atom("asg", toP(i), toP(m), lam, is_int=True)


class NoGrad:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        ST[0].no_grad += 1

    def __exit__(self, *a):
        ST[0].no_grad -= 1

    def __call__(self, f):
        def g(*a, **k):
            with NoGrad():
                return f(*a, **k)

        return g


class EnGrad:
    def __init__(self, *a):
        pass

    def __enter__(self):
        self.o = ST[0].no_grad
        ST[0].no_grad = 0

    def __exit__(self, *a):
        ST[0].no_grad = self.o


class SetGrad:
    def __init__(self, mode):
        self.o = ST[0].no_grad
        ST[0].no_grad = 0 if mode else 1

    def __enter__(self):
        pass

    def __exit__(self, *a):
        ST[0].no_grad = self.o


class NullCtx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _axis(k):
    return k


def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    if all(isinstance(d, int) for d in shape):
        return list(_it.product(*[_b.range(d) for d in shape]))
    return SymNd(shape)


def product(*its):
    if all(isinstance(x, (_b.range, SRange)) for x in its) and any(isinstance(x, SRange) and not x.n.is_const() for x in its):
        dims = []
        for x in its:
            if isinstance(x, SRange):
                if not x.lo.is_zero() or x.step != 1:
                    raise Unsupported("product of shifted ranges")
                dims.append(x.n)
            else:
                if x.start != 0 or x.step != 1:
                    raise Unsupported("product of shifted ranges")
                dims.append(toP(_b.len(x)))
        return SymNd(dims)
    return _it.product(*its)


def npmax(f):
    def g(a, b, out=None, **k):
        if out is not None or k:
            raise Unsupported("out=")
        if not isinstance(a, Tensor) and not isinstance(b, Tensor):
            return lift(mk_maxmin(f, [T.pval(a), T.pval(b)]))
        return T.elementwise(NpTensor, [A(a) if not scal(a) else a, A(b) if not scal(b) else b], lambda x, y: mk_maxmin(f, [x, y]))

    return g


def clamp_minmax(cls, x, lo, hi):
    if isinstance(x, (SV, int, float)) and not isinstance(x, Tensor):
        p = toP(x)
        if lo is not None:
            p = mk_maxmin("max", [p, toP(lo)])
        if hi is not None:
            p = mk_maxmin("min", [p, toP(hi)])
        return lift(p)
    return T.clamp(x, lo, hi)


def unary(f, scalar=None, fl=True, dt=None):
    def g(x, out=None, **k):
        if out is not None or k:
            raise Unsupported("ufunc options")
        if not isinstance(x, Tensor):
            if scal(x):
                return lift(f(toP(x)))
            x = A(x)
        return T.elementwise(type(x), [x], f, fl=fl, dt=dt(x) if dt else None)

    return g


def cfun(x):
    return real_(x)


def real_(x):
    return x.real if isinstance(x, Tensor) else x


def tiny(d):
    """smallest normal number: a positive constant"""
    return rsym("tiny64" if dtname(d) in ("float64", "complex128") else "tiny32", "+")


def np_finfo(d):
    w = dtname(d) in ("float64", "complex128")
    return types.SimpleNamespace(
        eps=2.0 ** -52 if w else 2.0 ** -23, tiny=SV(tiny(d)), smallest_normal=SV(tiny(d)),
        max=1.7976931348623157e308 if w else 3.4028234663852886e38, min=-1.7976931348623157e308 if w else -3.4028234663852886e38,
    )


def make_numpy():
    np = Mod("numpy")
    np.ndarray = NpTensor
    np.generic = type("generic", (), {})
    np.number = np.generic
    for n in ("float32", "float64", "int64", "complex64", "complex128"):
        setattr(np, n, DT("np", n))
    np.bool_ = DT("np", "bool")
    np.double = np.float64
    np.single = np.float32
    np.float_ = np.float64
    np.int_ = np.int64
    np.pi = _math.pi
    np.inf = _math.inf
    np.nan = _math.nan
    np.newaxis = None
    np.__version__ = "1.26.4"
    np.dtype = lambda d: DT("np", dtname(d))
    np.errstate = NullCtx
    np.finfo = np_finfo
    np.maximum = npmax("max")
    np.minimum = npmax("min")
    np.fmax, np.fmin = np.maximum, np.minimum
    np.clip = lambda x, a_min=None, a_max=None, min=None, max=None: clamp_minmax(
        NpTensor, x, a_min if a_min is not None else min, a_max if a_max is not None else max
    )
    np.log10 = unary(log10)
    np.sqrt = unary(sqrt)
    np.square = unary(lambda a: a * a, fl=False)
    np.abs = np.absolute = unary(T.cabs, fl=False, dt=lambda x: T.real_of(x.dt))
    np.conj = np.conjugate = unary(conj, fl=False)
    np.real = lambda x: x.real
    np.imag = lambda x: x.imag
    np.negative = unary(lambda a: -a, fl=False)
    np.reciprocal = unary(inv)
    np.add = lambda a, b: A(a) + b
    np.subtract = lambda a, b: A(a) - b
    np.multiply = lambda a, b: A(a) * b
    np.divide = np.true_divide = lambda a, b: A(a) / b
    np.power = lambda a, b: A(a) ** b if isinstance(a, Tensor) else a ** b
    np.matmul = lambda a, b: T.matmul(A(a), A(b))
    np.dot = lambda a, b: T.matmul(A(a), A(b)) if _b.max(A(a).ndim, A(b).ndim) <= 2 else _uns("dot")
    np.asarray = lambda x, dtype=None: A(x) if dtype is None else A(x).cast(dtname(dtype))
    np.asanyarray = np.asarray
    np.array = lambda x, dtype=None, copy=True, ndmin=0: (A(x).copy_() if dtype is None else A(x).cast(dtname(dtype)).copy_())
    np.ascontiguousarray = lambda x, dtype=None: A(x) if A(x).is_whole() else A(x).copy_()
    np.copy = lambda x: A(x).copy_()
    np.zeros = lambda shape, dtype=float, order=None: T.full_(NpTensor, shape if isinstance(shape, (tuple, list)) else (shape,), ZERO, dtname(dtype))
    np.ones = lambda shape, dtype=float: T.full_(NpTensor, shape if isinstance(shape, (tuple, list)) else (shape,), ONE, dtname(dtype))
    np.empty = lambda shape, dtype=float: T.full_(NpTensor, shape if isinstance(shape, (tuple, list)) else (shape,), None, dtname(dtype))
    np.full = lambda shape, v, dtype=None: T.full_(
        NpTensor, shape if isinstance(shape, (tuple, list)) else (shape,), toP(v), dtname(dtype) if dtype is not None else ("int64" if toP(v).is_int and not isinstance(v, float) else "float64")
    )
    np.zeros_like = lambda x, dtype=None, shape=None, **k: T.full_like(A(x), ZERO, _shp(shape), dtname(dtype) if dtype is not None else None)
    np.ones_like = lambda x, dtype=None, shape=None, **k: T.full_like(A(x), ONE, _shp(shape), dtname(dtype) if dtype is not None else None)
    np.empty_like = lambda x, dtype=None, shape=None, **k: T.full_like(A(x), None, _shp(shape), dtname(dtype) if dtype is not None else None)
    np.full_like = lambda x, v, dtype=None, shape=None: T.full_like(A(x), toP(v), _shp(shape), dtname(dtype) if dtype is not None else None)
    np.eye = lambda n, m=None, dtype=float: T.eye(NpTensor, n, m, dtname(dtype))
    np.identity = lambda n, dtype=float: T.eye(NpTensor, n, None, dtname(dtype))
    np.arange = lambda *a, dtype=None: T.arange(NpTensor, a, dtname(dtype) if dtype is not None else None)
    np.ndindex = ndindex
    np.einsum = lambda e, *ops, **k: T.einsum(NpTensor, e, *ops, **k)
    np.concatenate = lambda ts, axis=0: T.concat(NpTensor, ts, axis)
    np.stack = lambda ts, axis=0: T.stack(NpTensor, ts, axis)
    np.pad = np_pad
    np.vstack = lambda ts: T.concat(NpTensor, [_atleast(A(x), 2) for x in ts], 0)
    np.hstack = lambda ts: T.concat(NpTensor, [_atleast(A(x), 1) for x in ts], 0 if A(ts[0]).ndim <= 1 else 1)
    np.append = lambda a, b, axis=None: T.concat(NpTensor, [A(a), A(b)], axis) if axis is not None else _uns("append without an axis")
    np.atleast_1d = lambda x: _atleast(A(x), 1)
    np.atleast_2d = lambda x: _atleast(A(x), 2)
    np.outer = lambda a, b: _outer(A(a), A(b))
    np.trace = lambda x, offset=0, axis1=0, axis2=1: x.diag(offset, axis1, axis2).sum(-1)
    np.fabs = lambda x: np.abs(A(x))
    np.moveaxis = lambda x, a, b: x.moved(a, b)
    np.swapaxes = lambda x, a, b: x.swap(a, b)
    np.transpose = lambda x, axes=None: x.T if axes is None else x.permuted(axes)
    np.expand_dims = _expand_dims
    np.squeeze = lambda x, axis=None: x.squeeze(axis)
    np.reshape = lambda x, s: x.reshape(s)
    np.ravel = lambda x: x.ravel()
    np.flip = lambda x, axis=None: x.flipped(range(x.ndim) if axis is None else (axis if isinstance(axis, tuple) else (axis,)))
    np.fliplr = lambda x: x.flipped([1])
    np.flipud = lambda x: x.flipped([0])
    np.diagonal = lambda x, offset=0, axis1=0, axis2=1: x.diag(offset, axis1, axis2)
    np.broadcast_arrays = lambda *ts: T.broadcast_tensors(*ts)
    np.broadcast_to = lambda x, s: T.bc_to(A(x), s if isinstance(s, (tuple, list)) else (s,))
    np.where = _where(NpTensor)
    np.sum = lambda x, axis=None, keepdims=False: x.sum(axis=axis, keepdims=keepdims)
    np.mean = lambda x, axis=None, keepdims=False: x.mean(axis=axis, keepdims=keepdims)
    np.min = np.amin = lambda x, axis=None, keepdims=False: x.min(axis=axis, keepdims=keepdims)
    np.max = np.amax = lambda x, axis=None, keepdims=False: x.max(axis=axis, keepdims=keepdims)
    np.any = lambda x, axis=None: x.any(axis) if isinstance(x, Tensor) else _uns("any")
    np.all = lambda x, axis=None: x.all(axis) if isinstance(x, Tensor) else _uns("all")
    np.isinf = lambda x: T.predicate(NpTensor, A(x), "isinf")
    np.isneginf = lambda x: T.predicate(NpTensor, A(x), "neginf")
    np.isposinf = lambda x: T.predicate(NpTensor, A(x), "posinf")
    np.isnan = lambda x: T.predicate(NpTensor, A(x), "isnan")
    np.isfinite = lambda x: T.predicate(NpTensor, A(x), "isfinite")
    np.logical_not = lambda x: ~x
    np.logical_and = lambda a, b: a & b
    np.logical_or = lambda a, b: a | b
    np.take_along_axis = lambda x, i, axis: T.take_along(x, i, axis)
    np.shape = lambda x: x.shape
    np.ndim = lambda x: x.ndim
    np.isscalar = scal
    np.issubdtype = _issub
    np.floating, np.integer, np.complexfloating, np.inexact = "floating", "integer", "complexfloating", "inexact"
    np.iscomplexobj = lambda x: x.dt.startswith("complex")
    np.isrealobj = lambda x: not x.dt.startswith("complex")
    np.result_type = lambda *a: DT("np", T.result_dtype(list(a), "np"))
    np.log2 = log2
    np.ceil = ceil
    np.floor = floor
    np.prod = _prod
    np.inner = _unsf("inner")
    la = Mod("numpy.linalg")
    la.norm = lambda x, ord=None, axis=None, keepdims=False: T.norm(A(x), ord, axis, keepdims)
    la.vector_norm = lambda x, axis=None, keepdims=False, ord=2: T.norm(A(x), ord, axis, keepdims)
    la.solve = lambda a, b: T.solve(a, b)
    la.inv = lambda a: T.matinv(a)
    la.LinAlgError = type("LinAlgError", (ValueError,), {})
    np.linalg = la
    f = Mod("numpy.fft")
    _fft(f, "np", "axis")
    np.fft = f
    lib = Mod("numpy.lib")
    s = Mod("numpy.lib.stride_tricks")
    s.as_strided = lambda x, shape=None, strides=None, **k: T.as_strided(x, x.shape if shape is None else shape, x.strides if strides is None else strides)
    s.sliding_window_view = lambda x, w, axis=None, **k: T.sliding(x, w[0] if isinstance(w, tuple) else w, axis if axis is not None else 0)
    s.broadcast_to = np.broadcast_to
    lib.stride_tricks = s
    np.lib = lib
    return np


def _pads(cls, x, widths, mode, v):
    """constant padding: widths = [(axis, left, right)]"""
    if mode != "constant" or not scal(v):
        raise Unsupported("padding of another kind")
    for ax, l, r in widths:
        parts = [x]
        for side, w in ((0, l), (1, r)):
            if isinstance(w, int) and w == 0:
                continue
            if not decide(ge(toP(w), 0)):
                raise Unsupported("negative padding")
            sh = list(x.shape)
            sh[ax] = w
            z = T.full_(cls, sh, toP(v), x.dt)
            parts = parts + [z] if side else [z] + parts
        x = T.concat(cls, parts, ax) if len(parts) > 1 else x
    return x


def np_pad(x, w, mode="constant", constant_values=0):
    x = A(x)
    if isinstance(w, (int, SV)):
        w = [(w, w)] * x.ndim
    elif len(w) == 2 and not isinstance(w[0], (tuple, list)):
        w = [tuple(w)] * x.ndim
    elif len(w) == 1:
        w = [tuple(w[0])] * x.ndim
    if len(w) != x.ndim:
        raise ValueError("operands could not be broadcast together")
    r = _pads(NpTensor, x, [(i, a, b) for i, (a, b) in enumerate(w)], mode, constant_values)
    return r if r is not x else x.copy_()


def pt_pad(input, pad, mode="constant", value=None):
    x = _asserted(input)
    if len(pad) % 2 or len(pad) // 2 > x.ndim:
        raise RuntimeError("Padding length")
    w = [(x.ndim - 1 - i, pad[2 * i], pad[2 * i + 1]) for i in range(len(pad) // 2)]
    r = _pads(PtTensor, x, w, mode, 0 if value is None else value)
    return r if r is not x else x.clone()


def _atleast(x, n):
    while x.ndim < n:
        x = x.newaxis(0)
    return x


def _outer(a, b):
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("outer")
    return a[:, None] * b[None, :]


def _axis_slice(x, dim, s):
    if not isinstance(dim, int):
        raise Unsupported("axis")
    return x[tuple([slice(None)] * (dim % x.ndim) + [s])]


def _narrow(x, dim, start, length):
    if not decide(ge(toP(start), 0)):
        raise Unsupported("narrow from the end")
    if not decide(ge(toP(length), 0)) or not decide(le(toP(start) + toP(length), toP(x.shape[dim]))):
        raise RuntimeError("start + length exceeds dimension size")
    return _axis_slice(x, dim, slice(start, start + length))


def _uns(x):
    raise Unsupported(x)


def _unsf(x):
    def f(*a, **k):
        raise Unsupported(x)

    return f


def _shp(s):
    if s is None:
        return None
    return s if isinstance(s, (tuple, list)) else (s,)


def _prod(x, *a, **k):
    if isinstance(x, (tuple, list)):
        r = 1
        for y in x:
            r = r * y
        return r
    raise Unsupported("prod")


def _expand_dims(x, axis):
    if isinstance(axis, (tuple, list)):
        raise Unsupported("expand_dims of several axes")
    n = x.ndim + 1
    return x.newaxis(axis % n)


def _issub(d, k):
    d = dtname(d)
    return {"floating": d.startswith("float"), "integer": d == "int64", "complexfloating": d.startswith("complex"), "inexact": d[0] in "fc"}.get(k, False)


def _where(cls):
    def f(c, a=None, b=None):
        if a is None:
            raise Unsupported("where with one argument")
        if isinstance(c, (bool, SB)):
            if isinstance(c, bool):
                return a if c else b
            return a if decide(c.c) else b
        return T.where(cls, c, a, b)

    return f


def _fft(m, mod, ax):
    if ax == "axis":
        m.rfft = lambda x, n=None, axis=-1, norm=None, **k: T.rfft(x, n, axis, mod, norm=norm)
        m.irfft = lambda x, n=None, axis=-1, norm=None, **k: T.irfft(x, n, axis, mod, norm=norm)
        m.fft = lambda x, n=None, axis=-1, norm=None, **k: T.rfft(x, n, axis, mod, half=False, norm=norm)
        m.next_fast_len = _unsf("next_fast_len")
    else:
        m.rfft = lambda input, n=None, dim=-1, norm=None: T.rfft(_asserted(input), n, dim, mod, norm=norm)
        m.irfft = lambda input, n=None, dim=-1, norm=None: T.irfft(_asserted(input), n, dim, mod, norm=norm)
        m.fft = lambda input, n=None, dim=-1, norm=None: T.rfft(_asserted(input), n, dim, mod, half=False, norm=norm)


class TorchMod(Mod):
    pass


def make_torch():
    t = TorchMod("torch")
    t.Tensor = PtTensor
    t.Size = T.Shape
    t.__version__ = "2.15.0"
    for n in ("float32", "float64", "int64", "complex64", "complex128", "bool"):
        setattr(t, n, DT("pt", n))
    t.float, t.double, t.long = t.float32, t.float64, t.int64
    t.dtype = DT
    t.device = lambda *a: "cpu"
    t.no_grad = NoGrad
    t.inference_mode = NoGrad
    t.enable_grad = EnGrad
    t.set_grad_enabled = SetGrad
    t.is_tensor = lambda x: isinstance(x, PtTensor)
    t.is_grad_enabled = lambda: T.grad_mode()
    t.is_complex = lambda x: x.dt.startswith("complex")
    t.is_floating_point = lambda x: x.dt.startswith("float")
    t.clamp = t.clip = lambda input, min=None, max=None: clamp_minmax(PtTensor, _asserted(input), min, max)
    t.clamp_min = lambda x, m: T.clamp(x, m, None)
    t.clamp_max = lambda x, m: T.clamp(x, None, m)
    t.maximum = lambda a, b: T.elementwise(PtTensor, [_asserted(a), _asserted(b)], lambda x, y: mk_maxmin("max", [x, y]))
    t.minimum = lambda a, b: T.elementwise(PtTensor, [_asserted(a), _asserted(b)], lambda x, y: mk_maxmin("min", [x, y]))
    t.log10 = unary(log10)
    t.sqrt = unary(sqrt)
    t.square = unary(lambda a: a * a, fl=False)
    t.abs = unary(T.cabs, fl=False, dt=lambda x: T.real_of(x.dt))
    t.absolute = t.abs
    t.conj = lambda x: x.conj()
    t.real = lambda x: x.real
    t.imag = lambda x: x.imag
    t.neg = t.negative = lambda x: -x
    t.reciprocal = unary(inv)
    t.pow = lambda x, e: x ** e
    t.add = lambda a, b, alpha=1: a + b * alpha
    t.sub = lambda a, b, alpha=1: a - b * alpha
    t.mul = lambda a, b: a * b
    t.div = t.true_divide = lambda a, b: a / b
    t.matmul = t.bmm = lambda a, b: T.matmul(a, b)
    t.einsum = lambda e, *ops: T.einsum(PtTensor, e, *(ops[0] if len(ops) == 1 and isinstance(ops[0], (list, tuple)) else ops))
    t.cat = t.concat = t.concatenate = lambda ts, dim=0: T.concat(PtTensor, ts, dim)
    t.stack = lambda ts, dim=0: T.stack(PtTensor, ts, dim)
    t.vstack = lambda ts: T.concat(PtTensor, [_atleast(x, 2) for x in ts], 0)
    t.hstack = lambda ts: T.concat(PtTensor, list(ts), 0 if ts[0].ndim <= 1 else 1)
    t.atleast_1d = lambda x: _atleast(x, 1)
    t.atleast_2d = lambda x: _atleast(x, 2)
    t.outer = lambda a, b: _outer(a, b)
    t.mm = lambda a, b: T.matmul(a, b) if a.ndim == b.ndim == 2 else _uns("mm")
    t.rsqrt = lambda x: 1.0 / t.sqrt(x)
    t.narrow = _narrow
    t.select = lambda x, dim, index: _axis_slice(x, dim, index)
    t.numel = lambda x: _prod(tuple(x.shape))
    t.flip = lambda x, dims: x.flip(dims)
    t.diagonal = lambda x, offset=0, dim1=0, dim2=1: x.diag(offset, dim1, dim2)
    t.broadcast_tensors = lambda *ts: T.broadcast_tensors(*ts)
    t.broadcast_to = lambda x, s: T.bc_to(x, s)
    t.as_strided = lambda x, size, stride, storage_offset=None: T.as_strided(x, size, stride, storage_offset)
    t.zeros = lambda *s, dtype=None, device=None, **k: T.full_(PtTensor, T.shape_arg(s), ZERO, dtname(dtype) if dtype is not None else "float32")
    t.ones = lambda *s, dtype=None, device=None, **k: T.full_(PtTensor, T.shape_arg(s), ONE, dtname(dtype) if dtype is not None else "float32")
    t.empty = lambda *s, dtype=None, device=None, **k: T.full_(PtTensor, T.shape_arg(s), None, dtname(dtype) if dtype is not None else "float32")
    t.full = lambda s, v, dtype=None, device=None: T.full_(PtTensor, tuple(s), toP(v), dtname(dtype) if dtype is not None else ("int64" if toP(v).is_int and not isinstance(v, float) else "float32"))
    t.zeros_like = lambda x, dtype=None, **k: T.full_like(x, ZERO, None, dtname(dtype) if dtype is not None else None)
    t.ones_like = lambda x, dtype=None, **k: T.full_like(x, ONE, None, dtname(dtype) if dtype is not None else None)
    t.empty_like = lambda x, dtype=None, **k: T.full_like(x, None, None, dtname(dtype) if dtype is not None else None)
    t.full_like = lambda x, v, dtype=None, **k: T.full_like(x, toP(v), None, dtname(dtype) if dtype is not None else None)
    t.eye = lambda n, m=None, dtype=None, device=None: T.eye(PtTensor, n, m, dtname(dtype) if dtype is not None else "float32")
    t.arange = lambda *a, dtype=None, device=None: T.arange(PtTensor, a, dtname(dtype) if dtype is not None else None)
    t.tensor = t.as_tensor = lambda x, dtype=None, device=None: B(x) if dtype is None else B(x).cast(dtname(dtype))
    t.where = _where(PtTensor)
    t.sum = lambda x, dim=None, keepdim=False: x.sum(dim=dim, keepdim=keepdim)
    t.mean = lambda x, dim=None, keepdim=False: x.mean(dim=dim, keepdim=keepdim)
    t.any = lambda x, dim=None, axis=None: x.any(dim if dim is not None else axis)
    t.all = lambda x, dim=None, axis=None: x.all(dim if dim is not None else axis)
    t.min = lambda x, dim=None, keepdim=False: x.min(dim=dim, keepdim=keepdim)
    t.max = lambda x, dim=None, keepdim=False: x.max(dim=dim, keepdim=keepdim)
    t.amin = lambda x, dim=None, keepdim=False: T.reduce_(x, "min", dim, keepdim)
    t.amax = lambda x, dim=None, keepdim=False: T.reduce_(x, "max", dim, keepdim)
    t.isinf = lambda x: T.predicate(PtTensor, _asserted(x), "isinf")
    t.isneginf = lambda x: T.predicate(PtTensor, _asserted(x), "neginf")
    t.isposinf = lambda x: T.predicate(PtTensor, _asserted(x), "posinf")
    t.isnan = lambda x: T.predicate(PtTensor, _asserted(x), "isnan")
    t.isfinite = lambda x: T.predicate(PtTensor, _asserted(x), "isfinite")
    t.logical_not = lambda x: ~x
    t.logical_and = lambda a, b: a & b
    t.logical_or = lambda a, b: a | b
    t.transpose = lambda x, a, b: x.swap(a, b)
    t.swapaxes = t.swapdims = t.transpose
    t.movedim = t.moveaxis = lambda x, a, b: x.moved(a, b)
    t.permute = lambda x, dims: x.permuted(dims)
    t.reshape = lambda x, s: x.reshape(s)
    t.unsqueeze = lambda x, d: x.unsqueeze(d)
    t.squeeze = lambda x, d: x.squeeze(d)
    t.flatten = lambda x, start_dim=0, end_dim=-1: x.flatten(start_dim, end_dim)
    t.norm = lambda x, p=None, dim=None, keepdim=False: T.norm(x, p, dim, keepdim)
    t.solve = _unsf("torch.solve")
    t.inverse = lambda x: T.matinv(x)
    t.gather = lambda x, dim, index: T.take_along(x, index, dim)
    t.take_along_dim = lambda x, i, dim: T.take_along(x, i, dim)
    t.clone = lambda x: x.clone()
    t.result_type = lambda *a: DT("pt", T.result_dtype(list(a), "pt"))
    t.is_same_size = _unsf("is_same_size")
    t.finfo = np_finfo
    t.inf = _math.inf
    t.nan = _math.nan
    t.pi = _math.pi
    f = Mod("torch.fft")
    _fft(f, "pt", "dim")
    t.fft = f
    la = Mod("torch.linalg")
    la.solve = lambda A_, B_, **k: T.solve(_asserted(A_), _asserted(B_)) if not k else _uns("solve options")
    la.inv = lambda A_: T.matinv(_asserted(A_))
    la.norm = lambda x, ord=None, dim=None, keepdim=False: T.norm(x, ord, dim, keepdim)
    la.vector_norm = lambda x, ord=2, dim=None, keepdim=False: T.norm(x, ord, dim, keepdim)
    t.linalg = la
    nn = Mod("torch.nn")
    t.nn = nn
    fn_ = Mod("torch.nn.functional")
    nn.functional = fn_
    fn_.pad = pt_pad
    t.jit = Mod("torch.jit")
    t.autograd = Mod("torch.autograd")
    return t


def modules():
    np = make_numpy()
    t = make_torch()
    sp = Mod("scipy")
    f = Mod("scipy.fft")
    _fft(f, "sp", "axis")
    sp.fft = f
    opt = Mod("scipy.optimize")
    opt.linear_sum_assignment = lambda C, maximize=False: assignment(NpTensor, A(C), maximize)
    sp.optimize = opt
    sla = Mod("scipy.linalg")
    sp.linalg = sla
    m = Mod("math")
    m.log2 = log2
    m.ceil = ceil
    m.floor = floor
    m.pi, m.inf, m.nan = _math.pi, _math.inf, _math.nan
    m.sqrt = lambda x: SV(sqrt(x._p)) if isinstance(x, SV) else _math.sqrt(x)
    m.log10 = lambda x: SV(log10(x._p)) if isinstance(x, SV) else _math.log10(x)
    m.pow = lambda a, b: a ** b
    m.isinf = lambda x: False if isinstance(x, SV) else _math.isinf(x)
    m.isnan = lambda x: False if isinstance(x, SV) else _math.isnan(x)
    m.prod = _prod
    itm = Mod("itertools")
    for k in ("chain", "repeat", "count", "permutations", "combinations", "zip_longest", "islice"):
        setattr(itm, k, getattr(_it, k))
    itm.product = product
    pk = Mod("packaging")
    pv = Mod("packaging.version")
    pv.Version = Version
    pv.parse = Version
    pk.version = pv
    return {
        "numpy": np, "numpy.linalg": np.linalg, "numpy.fft": np.fft, "numpy.lib": np.lib,
        "numpy.lib.stride_tricks": np.lib.stride_tricks,
        "scipy": sp, "scipy.fft": f, "scipy.optimize": opt, "scipy.linalg": sla,
        "torch": t, "torch.fft": t.fft, "torch.linalg": t.linalg, "torch.nn": t.nn, "torch.nn.functional": t.nn.functional,
        "math": m, "itertools": itm, "packaging": pk, "packaging.version": pv,
    }


class Version(tuple):
    def __new__(cls, s):
        import re

        return tuple.__new__(cls, [int(x) for x in re.findall(r"\d+", s.split("+")[0])[:3]])

    @property
    def major(self):
        return self[0]

    @property
    def minor(self):
        return self[1]

    @property
    def release(self):
        return tuple(self)


# ---------------------------------------------------------------- builtins
def b_len(x):
    if isinstance(x, Tensor):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, (SymList, SRange)):
        return lift(x.n)
    if isinstance(x, T.Selection):
        return SV(x.count())
    return _b.len(x)


def b_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    for k in cs:
        if isinstance(k, DT):
            if isinstance(x, Tensor) and x.ndim == 0 and x.dt == k.name:
                return True
            continue
        if isinstance(x, SV):
            if k in (int,) and x.is_int:
                return True
            if k == float and not x.is_int:
                return True
            continue
        if isinstance(x, SB):
            if k is bool or k is int:
                return True
            continue
        if k in (tuple,) and isinstance(x, T.Shape):
            return True
        if _b.isinstance(x, k):
            return True
    return False


class _Int(type(int)):
    pass


def b_minmax(name):
    f = getattr(_b, name)

    def g(*a, **k):
        if k:
            raise Unsupported("%s with options" % name)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any(isinstance(x, (SV, Tensor)) for x in xs):
            return f(xs)
        if all(isinstance(x, (SV, int)) and toP(x).is_int for x in xs):
            r = xs[0]
            for x in xs[1:]:
                c = lt(toP(x), toP(r)) if name == "min" else gt(toP(x), toP(r))
                if decide(c):
                    r = x
            return r
        if all(scal(x) or isinstance(x, SV) for x in xs):
            return lift(mk_maxmin(name, [toP(x) for x in xs]))
        r = xs[0]
        for x in xs[1:]:
            if (x < r) if name == "min" else (x > r):
                r = x
        return r

    return g


def b_print(*a, **k):
    pass


class b_int_meta(type):
    def __instancecheck__(cls, o):
        return b_isinstance(o, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


def _conv(name, real):
    def f(x=0, *a):
        if isinstance(x, SV):
            if name == "int":
                if x.is_int:
                    return x
                raise Unsupported("int() of a symbolic real")
            return x
        if isinstance(x, Tensor):
            return f(x.item())
        if isinstance(x, SB):
            return f(lift(ind(x.c)))
        return real(x, *a)

    return f


def b_abs(x):
    return abs(x)


def b_bool(x=False):
    if isinstance(x, SB):
        return x
    if isinstance(x, SV):
        return x != 0
    if isinstance(x, Tensor):
        return mkbool(x._cond0())
    return _b.bool(x)


def b_any(xs):
    for x in xs:
        if x:
            return True
    return False


def b_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def b_round(x, *a):
    if isinstance(x, SV):
        if x.is_int:
            return x
        raise Unsupported("round")
    return _b.round(x, *a)


class _NumMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, SV):
            return o.is_int if cls.BASE is int else not o.is_int
        return isinstance(o, cls.BASE)

    def __eq__(cls, o):
        return cls is o or o is cls.BASE

    def __hash__(cls):
        return hash(cls.BASE)


class sym_float(metaclass=_NumMeta):
    BASE = float

    def __new__(cls, x=0.0):
        if isinstance(x, Tensor):
            x = x.item()
        if isinstance(x, SV):
            return x
        return float(x)


class sym_int(metaclass=_NumMeta):
    BASE = int

    def __new__(cls, x=0, *a):
        if isinstance(x, Tensor):
            x = x.item()
        if isinstance(x, SV):
            if x.is_int:
                return x
            # truncation of a non-negative rational
            if decide(ge(x._p)):
                import ex

                return ex.floor(x)
            raise Unsupported("int() of a negative number")
        return int(x, *a)


BUILTINS = {
    "float": sym_float,
    "int": sym_int,
    "len": b_len,
    "min": b_minmax("min"),
    "max": b_minmax("max"),
    "print": b_print,
    "isinstance": b_isinstance,
    "any": b_any,
    "all": b_all,
    "round": b_round,
    "input": _unsf("input"),
    "open": _unsf("open"),
    "exec": _unsf("exec"),
    "eval": _unsf("eval"),
}
