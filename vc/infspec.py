"""Contract of _linear_sum_assignment_with_inf (both backends): the infinite entries are replaced by a
value that outweighs every sum of finite entries (lemmas placeholder_pos and placeholder_neg of
lean/Assignment.lean), the finite ones reach the solver as they are, the solver's answer is returned,
ValueError for NaN and for infinities of both signs, and the argument is not written.

The module is parsed on every run; the function and the helpers that it calls are executed on a
matrix of symbolic size whose entries are (kind, value): kind 0 finite, 1 +inf, 2 -inf, 3 nan."""
import contextlib
import types

import z3

import hung as H
from hung import Sym, Unsupported, ctx, decide, tz

FI = z3.IntSort()
NAME = "_linear_sum_assignment_with_inf"
INF = float("inf")


class Nan:
    """a NaN scalar"""

    vc_nan = True

    def _s(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __abs__ = __truediv__ = _s

    def _f(self, o):
        return False

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _f
    __hash__ = None

    def __ne__(self, o):
        return True

    def abs(self):
        return self

    def item(self):
        return self


class Real(Sym):
    """a finite scalar"""

    def item(self): return self
    def abs(self): return Real(z3.If(self.e >= 0, self.e, -self.e))
    def __abs__(self): return self.abs()

    def _o(self, o, f):
        if isinstance(o, Nan):
            return o
        r = super()._o(o, f)
        return Real(r.e) if isinstance(r, Sym) and z3.is_arith(r.e) else r


class B2:
    """mask"""

    def __init__(self, dims, p):
        self.dims, self.p = dims, p

    def __invert__(s): return B2(s.dims, lambda i, j: z3.Not(s.p(i, j)))
    def __and__(s, o): return B2(s.dims, lambda i, j: z3.And(s.p(i, j), o.p(i, j)))
    def __or__(s, o): return B2(s.dims, lambda i, j: z3.Or(s.p(i, j), o.p(i, j)))
    def logical_not(s): return ~s
    def any(s): return Sym(some(s.dims, s.p))
    def all(s): return Sym(z3.Not(some(s.dims, lambda i, j: z3.Not(s.p(i, j)))))
    @property
    def shape(s): return tuple(s.dims)
    def __bool__(s): raise Unsupported("truth of a mask")
    def sum(s): raise Unsupported("count of a mask")


def inr(i, n):
    return z3.And(0 <= i, i < tz(n))


def some(dims, p):
    i, j = z3.Ints("i j")
    return z3.Exists([i, j], z3.And(inr(i, dims[0]), inr(j, dims[1]), p(i, j)))


class X2:
    """matrix"""

    def __init__(self, dims, f, argument=False):
        self.dims, self.f, self.argument = dims, f, argument

    dtype = "real"
    device = "cpu"
    ndim = 2

    @property
    def shape(self): return tuple(self.dims)
    def size_(self): return Real(z3.simplify(tz(self.dims[0]) * tz(self.dims[1])))
    def numel(self): return self.size_()
    @property
    def size(self): return self.size_() if ctx().numpy else (lambda d=None: self.shape if d is None else self.shape[d])
    def dim(self): return 2
    def copy(self): return X2(self.dims, self.f)
    def clone(self): return self.copy()
    def detach(self): return X2(self.dims, self.f, self.argument)
    def astype(self, *a, **k): return self.copy()
    def cpu(self): return self
    def isinf(self): return self.mask(lambda k: z3.Or(k == 1, k == 2))
    def isposinf(self): return self.mask(lambda k: k == 1)
    def isneginf(self): return self.mask(lambda k: k == 2)
    def isnan(self): return self.mask(lambda k: k == 3)
    def isfinite(self): return self.mask(lambda k: k == 0)

    def mask(self, g):
        f = self.f
        return B2(self.dims, lambda i, j: g(f(i, j)[0]))

    def __eq__(self, o):
        if o == INF: return self.isposinf()
        if o == -INF: return self.isneginf()
        raise Unsupported("comparison")

    def __ne__(self, o): return ~(self == o)
    __hash__ = None

    def __getitem__(self, k):
        if isinstance(k, B2):
            return Sel(self.dims, self.f, k.p)
        raise Unsupported("index of the matrix")

    def __setitem__(self, k, v):
        if not isinstance(k, B2):
            raise Unsupported("store in the matrix")
        if self.argument:
            ctx().protected_writes.append("cost_matrix")
        self.f = self.put(k, v)

    def put(self, k, v):
        f, p = self.f, k.p
        if isinstance(v, Nan):
            nk, nv = z3.IntVal(3), z3.RealVal(0)
        elif isinstance(v, X2):
            g = v.f
            return lambda i, j: tuple(z3.If(p(i, j), a, b) for a, b in zip(g(i, j), f(i, j)))
        elif isinstance(v, float) and v in (INF, -INF):
            nk, nv = z3.IntVal(1 if v > 0 else 2), z3.RealVal(0)
        else:
            nk, nv = z3.IntVal(0), real(v)
        return lambda i, j: (z3.If(p(i, j), nk, f(i, j)[0]), z3.If(p(i, j), nv, f(i, j)[1]))

    def masked_fill(self, k, v): return X2(self.dims, self.put(k, v))

    def masked_fill_(self, k, v):
        self[k] = v
        return self

    def new_zeros(self, *s, dtype=None): return const(s, 0)
    def new_ones(self, *s, dtype=None): return const(s, 1)
    def new_tensor(self, v): return Real(real(v))

    def flat(self): return Sel(self.dims, self.f, lambda i, j: z3.BoolVal(True))
    def ravel(self): return self.flat()
    def flatten(self): return self.flat()
    def __len__(self): raise Unsupported("len")
    def __bool__(self): raise Unsupported("truth of a matrix")

    def __iter__(self): raise Unsupported("iteration on the matrix")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("." + n)


def real(v):
    e = tz(v)
    return z3.ToReal(e) if z3.is_int(e) else e


def const(s, v):
    s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
    if len(s) == 1 and s[0] == 1:
        return Sel([1, 1], lambda i, j: (z3.IntVal(0), z3.RealVal(v)), lambda i, j: z3.BoolVal(True))
    if len(s) == 1 and s[0] == 0:
        return Empty()
    raise Unsupported("new array")


class Empty:
    pass


class Sel:
    """selected entries, in one dimension"""

    ndim = 1

    def __init__(self, dims, f, p):
        self.dims, self.f, self.p = dims, f, p

    def length(self):
        c = ctx()
        ne = some(self.dims, self.p)
        n = z3.Int(c.fresh("len"))
        c.assume(n >= 0)
        c.assume((n > 0) == ne)
        return Real(n)

    def vc_len(self): return self.length()
    def numel(self): return self.length()
    @property
    def size(self): return self.length() if ctx().numpy else (lambda d=None: self.shape if d is None else self.shape[d])
    @property
    def shape(self): return (self.length(),)

    def nan(self):
        return decide(some(self.dims, lambda i, j: z3.And(self.p(i, j), self.f(i, j)[0] == 3)))

    def ext(self, sg):
        c = ctx()
        c.oblige("entries for an extremum", some(self.dims, self.p), "exc")
        if self.nan():
            return Nan()
        c.oblige("finite entries for an extremum", z3.Not(some(self.dims, lambda i, j: z3.And(self.p(i, j), self.f(i, j)[0] != 0))))
        v = z3.Real(c.fresh("min" if sg < 0 else "max"))
        i, j = z3.Ints("i j")
        R = z3.And(inr(i, self.dims[0]), inr(j, self.dims[1]), self.p(i, j))
        x = self.f(i, j)[1]
        c.assume(z3.ForAll([i, j], z3.Implies(R, v <= x if sg < 0 else v >= x)))
        c.assume(z3.Exists([i, j], z3.And(R, v == x)))
        return Real(v)

    def min(self): return self.ext(-1)
    def max(self): return self.ext(1)

    def map(self, g):
        f = self.f
        return Sel(self.dims, lambda i, j: (f(i, j)[0], g(f(i, j)[1])), self.p)

    def abs(self): return self.map(lambda x: z3.If(x >= 0, x, -x))
    __abs__ = abs
    def __neg__(self): return self.map(lambda x: -x)

    def __getitem__(self, k):
        if isinstance(k, B2):
            p = self.p
            return Sel(self.dims, self.f, lambda i, j: z3.And(p(i, j), k.p(i, j)))
        raise Unsupported("index")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("." + n)


def lib(numpy):
    m = types.ModuleType("numpy" if numpy else "torch")

    def ga(n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (m.__name__, n))

    m.__getattr__ = ga
    for n in ("isinf", "isposinf", "isneginf", "isnan", "isfinite"):
        setattr(m, n, (lambda n: lambda a: getattr(a, n)())(n))
    m.any = lambda a: a.any()
    m.all = lambda a: a.all()
    m.min = m.amin = lambda a: a.min()
    m.max = m.amax = lambda a: a.max()
    m.abs = m.absolute = lambda a: abs(a)
    m.logical_not = lambda a: ~a
    m.logical_and = lambda a, b: a & b
    m.logical_or = lambda a, b: a | b
    m.inf = INF
    m.float64 = m.float32 = m.int64 = m.bool = "real"

    def where(c, a, b):
        base = b if isinstance(b, X2) else X2(c.dims, lambda i, j: (z3.IntVal(0), real(b)))
        return X2(c.dims, base.put(c, a))

    m.where = where
    m.zeros = lambda *s, dtype=None, device=None: const(s, 0)
    m.ones = lambda *s, dtype=None, device=None: const(s, 1)
    if numpy:
        m.ndarray = X2
        m.asarray = m.asanyarray = lambda a, dtype=None: a
        m.array = lambda a, dtype=None, copy=True: a.copy() if copy else a
        m.copy = lambda a: a.copy()
        m.zeros_like = lambda a, shape=None, dtype=None: const((shape,), 0)
        m.ones_like = lambda a, shape=None, dtype=None: const((shape,), 1)
        m.size = lambda a: a.size
    else:
        m.Tensor = X2
        m.no_grad = lambda: contextlib.nullcontext()
        m.clone = lambda a: a.clone()
        m.numel = lambda a: a.numel()
    return m


class Any(types.ModuleType):
    """modules that the function under contract does not need"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported("%s.%s" % (self.__name__, n))

        return f


class Imports(dict):
    def __init__(self, d):
        super().__init__(d)

    def __contains__(self, k):
        return dict.__contains__(self, k) or k.split(".")[0] in ("scipy", "numpy", "torch") or k.startswith(".")

    def __getitem__(self, k):
        return dict.__getitem__(self, k) if dict.__contains__(self, k) else Any(k)


class Spec:
    def __init__(self, path, be):
        self.path, self.be = path, be

    def functions(self):
        return [(NAME, self.run)]

    def run(self, c):
        numpy = self.be == "numpy"
        c.numpy = numpy
        N, M = z3.Ints("N M")
        c.assume(z3.And(N >= 0, M >= 0))
        kf = z3.Function("kind", FI, FI, FI)
        vf = z3.Function("value", FI, FI, z3.RealSort())
        i, j = z3.Ints("i j")
        c.assume(z3.ForAll([i, j], z3.And(0 <= kf(i, j), kf(i, j) <= 3)))
        dims = [Real(N), Real(M)]
        cost = X2(dims, lambda i, j: (kf(i, j), vf(i, j)), True)
        calls = []

        def solver(C, maximize=False):
            if not isinstance(C, X2) or maximize is not False:
                raise Unsupported("call of the solver")
            calls.append((C.f, C.dims))
            if decide(some(C.dims, lambda i, j: C.f(i, j)[0] == 3)):
                raise ValueError("matrix contains invalid numeric entries")
            return ANS

        class Pair(tuple):
            pass

        ANS = Pair(("row indices", "column indices"))
        L = lib(numpy)
        opt = Any("opt")
        opt.linear_sum_assignment = solver
        imports = Imports({"numpy": L if numpy else lib(True), "torch": L, "scipy.optimize": opt, ".hungarian": opt})
        if not numpy:
            imports["numpy"] = Any("numpy")
        mod = H.load(self.path, imports)
        if "linear_sum_assignment" not in mod.__dict__ or NAME not in mod.__dict__:
            raise Unsupported("the solver is not called by name")
        mod.__dict__["linear_sum_assignment"] = solver
        K = lambda q: some(dims, lambda i, j: kf(i, j) == q)
        bad = z3.Or(K(3), z3.And(K(1), K(2)))
        try:
            out = mod.__dict__[NAME](cost)
        except ValueError:
            c.where = "ValueError: "
            c.oblige("raised for NaN or for infinities of both signs only", bad, "exc")
            c.oblige("the matrix is not modified", z3.BoolVal(not c.protected_writes), "frame")
            return "exc"
        c.where = "result: "
        c.oblige("neither NaN nor infinities of both signs", z3.Not(bad), "exc")
        c.oblige("the matrix is not modified", z3.BoolVal(not c.protected_writes), "frame")
        if not calls:
            c.oblige("without the solver, the matrix is empty", z3.Or(N == 0, M == 0))
            c.oblige("without the solver, no pair is returned", z3.BoolVal(isinstance(out, tuple) and len(out) == 2 and all(isinstance(x, Empty) for x in out)), "shape")
            return "ret"
        if len(calls) > 1:
            raise Unsupported("several calls of the solver")
        c.oblige("the answer of the solver is returned", z3.BoolVal(isinstance(out, tuple) and len(out) == 2 and out[0] is ANS[0] and out[1] is ANS[1]))
        f, d = calls[0]
        k1, v1 = f(i, j)
        R = z3.And(inr(i, N), inr(j, M))
        c.oblige("size of the matrix of the solver", z3.And(tz(d[0]) == N, tz(d[1]) == M), "shape")
        c.oblige("every entry of the matrix of the solver is finite", z3.ForAll([i, j], z3.Implies(R, k1 == 0)))
        c.oblige("finite entries reach the solver as they are", z3.ForAll([i, j], z3.Implies(z3.And(R, kf(i, j) == 0), v1 == vf(i, j))))
        p, q = z3.Ints("p q")
        k2, v2 = f(p, q)
        P = z3.And(inr(p, N), inr(q, M))
        I = lambda x: z3.Or(x == 1, x == 2)
        c.oblige("one value stands for all the infinities", z3.ForAll([i, j, p, q], z3.Implies(z3.And(R, P, I(kf(i, j)), I(kf(p, q))), v1 == v2)))
        # mx, mn: bounds of the finite entries that are attained
        mx, mn = z3.Reals("mx mn")
        n = z3.ToReal(z3.If(N <= M, N, M))
        fin = z3.And(P, kf(p, q) == 0)
        c.assume(z3.Implies(K(0), z3.And(z3.ForAll([p, q], z3.Implies(fin, z3.And(mn <= vf(p, q), vf(p, q) <= mx))), z3.Exists([p, q], z3.And(fin, vf(p, q) == mx)), z3.Exists([p, q], z3.And(fin, vf(p, q) == mn)))))
        for kind, nm, up in ((1, "+inf", True), (2, "-inf", False)):
            b = mx + (n - 1) * (mx - mn) < v1 if up else v1 < mn + (n - 1) * (mn - mx)
            c.oblige("%s is replaced by a value that outweighs every sum of finite entries" % nm, z3.Implies(K(0), z3.ForAll([i, j], z3.Implies(z3.And(R, kf(i, j) == kind), b))))
        return "ret"
