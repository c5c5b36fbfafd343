"""Deductive verification of the assignment solver of the torch backend (hungarian.py) and of
_linear_sum_assignment_with_inf, with z3.

The functions of /repo are parsed on every run and executed on symbolic arrays: an array is a
function from indices to z3 terms, an update wraps this function, an unknown state is an
uninterpreted function.  Loops are cut: the invariant (hungspec.py) is an obligation on entry,
the state is forgotten except for the invariant, and one iteration has to re-establish it and to
decrease the variant.  Every branch is explored.  What is dropped: nothing of the text; reals in
place of floating point numbers."""
import ast
import builtins as _b
import types

import z3


class Unsupported(Exception):
    pass


class PathEnd(BaseException):
    pass


class Ctx:
    """one execution path"""

    def __init__(self, prefix, spec):
        self.prefix, self.taken, self.alts = list(prefix), [], []
        self.facts, self.obls = [], []
        self.n = 0
        self.spec = spec
        self.loops = {}
        self.where = ""
        self.protected_writes = []
        self.F = {}

    def fresh(self, base):
        self.n += 1
        return "%s!%d" % (base, self.n)

    def assume(self, f):
        if z3.is_true(f):
            return
        self.facts.append(f)

    def oblige(self, name, goal, aspect="value", use=None):
        """use: facts that suffice (tried first; all the facts are tried afterwards)"""
        self.obls.append((self.where + name, aspect, list(self.facts), goal, use))

    def choose(self, n):
        """branch 0..n-1"""
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = 0
            for o in range(1, n):
                self.alts.append(self.taken + [o])
        self.taken.append(v)
        return v


CUR = [None]


def ctx():
    return CUR[0]


def simp(e):
    return z3.simplify(e)


def decide(e):
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    c = ctx()
    s = z3.Solver()
    s.set("timeout", 300)
    s.add(*c.facts)
    s.push()
    s.add(e)
    if s.check() == z3.unsat:
        c.assume(z3.Not(e))
        return False
    s.pop()
    s.add(z3.Not(e))
    if s.check() == z3.unsat:
        c.assume(e)
        return True
    if c.choose(2) == 0:
        c.assume(e)
        return True
    c.assume(z3.Not(e))
    return False


# ---------------------------------------------------------------- scalars
def tz(x):
    """z3 term of a scalar"""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, Vec1):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("infinite constant")
        return z3.RealVal(repr(x))
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, HT) and x.ndim == 0:
        return x.get()
    raise Unsupported("scalar %r" % (x,))


def num(e):
    return z3.If(e, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(e) else e


def pair(a, b):
    a, b = num(tz(a)), num(tz(b))
    if z3.is_real(a) and z3.is_int(b):
        b = z3.ToReal(b)
    elif z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    return a, b


class Sym:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return decide(self.e if z3.is_bool(self.e) else self.e != 0)

    def __hash__(self):
        raise Unsupported("hash")

    def __int__(self):
        raise Unsupported("int()")

    __index__ = __int__
    __float__ = __int__

    def _o(self, o, f):
        if hasattr(o, "vc_nan"):
            return o
        if isinstance(o, HT) and o.ndim:
            return NotImplemented
        if isinstance(o, XV):
            return NotImplemented
        if o is None or isinstance(o, (str, tuple, list)):
            return NotImplemented
        return Sym(f(*pair(self, o)))

    def __add__(s, o): return s._o(o, lambda a, b: a + b)
    def __radd__(s, o): return s._o(o, lambda a, b: b + a)
    def __sub__(s, o): return s._o(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._o(o, lambda a, b: b - a)
    def __mul__(s, o): return s._o(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._o(o, lambda a, b: b * a)
    def __lt__(s, o): return s._o(o, lambda a, b: a < b)
    def __le__(s, o): return s._o(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._o(o, lambda a, b: a > b)
    def __ge__(s, o): return s._o(o, lambda a, b: a >= b)
    def __eq__(s, o): return s._o(o, lambda a, b: a == b)
    def __ne__(s, o): return s._o(o, lambda a, b: a != b)
    def __neg__(s): return Sym(-num(s.e))
    def __abs__(s): return Sym(z3.If(s.e >= 0, s.e, -s.e))

    def __and__(s, o): return Sym(z3.And(tb(s), tb(o)))
    def __or__(s, o): return Sym(z3.Or(tb(s), tb(o)))
    __rand__, __ror__ = __and__, __or__

    def __invert__(s):
        if not z3.is_bool(s.e):
            raise Unsupported("~")
        return Sym(z3.Not(s.e))

    def item(self):
        return self

    def any(self): return self
    def all(self): return self
    def abs(self): return abs(self)
    def to(self, *a, **k): return self

    @property
    def shape(self): return ()

    def __repr__(self):
        return "Sym(%s)" % self.e


def tb(x):
    e = tz(x)
    return e if z3.is_bool(e) else e != 0


class Vec1(Sym):
    """array of one number"""

    def __len__(self):
        return 1

    def __iter__(self):
        yield Sym(self.e)

    def __getitem__(self, i):
        if i == 0 or i == -1:
            return Sym(self.e)
        raise IndexError

    @property
    def shape(self): return (1,)


# ---------------------------------------------------------------- arrays
def dim_eq(a, b):
    a, b = tz(a), tz(b)
    if a.eq(b):
        return True
    e = simp(a == b)
    if z3.is_true(e):
        return True
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*ctx().facts)
    s.add(z3.Not(e))
    return s.check() == z3.unsat


def one(d):
    return isinstance(d, int) and d == 1


SORT = {"real": z3.RealSort, "int": z3.IntSort, "bool": z3.BoolSort}


def convert(e, dt):
    if dt == "bool":
        return e if z3.is_bool(e) else e != 0
    e = num(e)
    if dt == "real" and z3.is_int(e):
        return z3.ToReal(e)
    if dt == "int" and z3.is_real(e):
        raise Unsupported("rounding")
    return e


class HT:
    """array; f maps z3 indices to a z3 term; dt is real, int, bool or b01 (an integer array which is a boolean)"""

    def __init__(self, shape, f, dt, name="?", protected=False):
        self.shape, self.dt, self.name, self.protected = tuple(shape), dt, name, protected
        self._f = f
        self.version = 0
        self.base = None

    # ---- reading
    @property
    def ndim(self):
        return len(self.shape)

    def dim(self): return self.ndim

    def get(self, *i):
        return self._f(*i)

    @property
    def snap(self):
        return self._f

    def __bool__(self):
        if self.ndim == 0:
            return decide(convert(self.get(), "bool"))
        raise Unsupported("truth value of an array")

    def __hash__(self):
        return id(self)

    @property
    def dtype(self):
        return {"bool": bool, "int": int, "b01": int, "real": float}[self.dt]

    def write(self, f):
        if self.base is not None:
            self.base(f)
            return
        self.version += 1
        if self.protected:
            ctx().protected_writes.append(self.name)
        self._f = f

    def index(self, key):
        """-> (list of ('at', term) | ('all', dim) | ('new',) | ('mask', array)), one per axis in order"""
        if not isinstance(key, tuple):
            key = (key,)
        used = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(isinstance(k, HT) and k.ndim == 2 for k in key):
            if len(key) == 1:
                return [("mask2", key[0])]
            raise Unsupported("index")
        if Ellipsis in [k for k in key if k is Ellipsis]:
            p = [k is Ellipsis for k in key].index(True)
            key = key[:p] + (slice(None),) * (self.ndim - used) + key[p + 1 :]
        else:
            key = key + (slice(None),) * (self.ndim - used)
        out = []
        ax = 0
        for k in key:
            if k is None:
                out.append(("new",))
                continue
            if ax >= self.ndim:
                raise IndexError("too many indices")
            d = self.shape[ax]
            if isinstance(k, slice):
                if k != slice(None):
                    raise Unsupported("slice")
                out.append(("all", d))
            elif isinstance(k, HT) and k.dt == "bool" and k.ndim == 1:
                if not dim_eq(k.shape[0], d):
                    raise IndexError("mask")
                out.append(("mask", k, d))
            elif isinstance(k, (HT, Sym, int)):
                if isinstance(k, bool) or (isinstance(k, HT) and k.ndim):
                    raise Unsupported("index")
                e = tz(k)
                if not z3.is_int(e):
                    raise IndexError("index")
                dd = tz(d)
                if isinstance(k, int):
                    if k < 0:
                        ctx().oblige("index in range", dd >= -k, "exc")
                        e = dd + e
                    else:
                        ctx().oblige("index in range", z3.And(e < dd), "exc")
                    ctx().assume(z3.And(e >= 0, e < dd))
                else:
                    ctx().oblige("index in range", z3.And(e >= 0, e < dd), "exc")
                    ctx().assume(z3.And(e >= 0, e < dd))
                out.append(("at", e, d))
            else:
                raise Unsupported("index %r" % (k,))
            ax += 1
        return out

    def __getitem__(self, key):
        ix = self.index(key)
        if ix[0][0] == "mask2":
            return Masked2(self, ix[0][1])
        masks = [(i, x) for i, x in enumerate(ix) if x[0] == "mask"]
        if masks:
            if len(masks) > 1 or any(x[0] in ("new", "at") for x in ix):
                raise Unsupported("mask")
            return Masked(self, masks[0][0], masks[0][1][1])
        shape, src = [], []
        for x in ix:
            if x[0] == "new":
                shape.append(1)
            elif x[0] == "all":
                src.append(len(shape))
                shape.append(x[1])
            else:
                src.append(x[1])

        def f(*i, me=self, src=src):
            return me.get(*[i[s] if isinstance(s, int) else s for s in src])

        if not shape:
            e = f()
            return Sym(e)
        r = HT(shape, f, self.dt, self.name + "[]")

        def back(g, me=self, src=src, shape=shape):
            old = me.snap
            pos = [k for k, s in enumerate(src) if isinstance(s, int)]

            def h(*i):
                vi = [z3.IntVal(0)] * len(shape)
                conds = []
                for k, s in enumerate(src):
                    if isinstance(s, int):
                        vi[s] = i[k]
                    else:
                        conds.append(i[k] == s)
                return z3.If(z3.And(*conds), g(*vi), old(*i)) if conds else g(*vi)

            me.write(h)

        r.base = back
        return r

    def __setitem__(self, key, val):
        ix = self.index(key)
        old, dt = self.snap, self.dt
        if isinstance(val, Masked2):
            val.check_store(self, ix)
            g = val.f
            mk = val.mask.snap
            self.write(lambda i, j: z3.If(mk(i, j), convert(g(i, j), dt), old(i, j)))
            return
        if ix[0][0] == "mask2":
            m = ix[0][1].snap
            if isinstance(val, HT) and val.ndim:
                raise Unsupported("masked store")
            if isinstance(val, XV):
                raise Unsupported("masked store")
            v = tz(val)
            self.write(lambda i, j: z3.If(m(i, j), convert(v, dt), old(i, j)))
            return
        if any(x[0] == "new" for x in ix):
            raise Unsupported("store")
        conds, free = [], []
        for k, x in enumerate(ix):
            if x[0] == "at":
                conds.append(lambda *i, k=k, e=x[1]: i[k] == e)
            elif x[0] == "mask":
                conds.append(lambda *i, k=k, m=x[1].snap: m(i[k]))
                free.append(k)
            else:
                free.append(k)
        if isinstance(val, Masked):
            val.check_store(self, ix)
            g = val.f
        elif isinstance(val, HT) and val.ndim:
            if any(x[0] == "mask" for x in ix):
                raise Unsupported("masked store")
            if val.ndim > len(free):
                raise RuntimeError("shape mismatch")
            fr = free[len(free) - val.ndim :]
            for d, k in zip(val.shape, fr):
                if not one(d) and not dim_eq(d, self.shape[k]):
                    raise RuntimeError("shape mismatch")
            vs, vshape = val.snap, val.shape

            def g(*i):
                return vs(*[z3.IntVal(0) if one(d) else i[k] for d, k in zip(vshape, fr)])
        else:
            v = tz(val)
            g = lambda *i: v

        def h(*i):
            c = [q(*i) for q in conds]
            n = convert(g(*i), "bool" if dt == "bool" else ("int" if dt == "b01" else dt))
            if not c:
                return n
            return z3.If(z3.And(*c), n, old(*i))

        if dt == "b01":
            raise Unsupported("store")
        self.write(h)

    # ---- elementwise
    def _ew(self, o, fn, dt=None, swap=False):
        if isinstance(o, (Masked, XV)):
            return NotImplemented
        a = self
        if not isinstance(o, HT):
            e = tz(o)
            b = HT((), lambda e=e: e, "bool" if z3.is_bool(e) else ("real" if z3.is_real(e) else "int"))
        else:
            b = o
        if swap:
            a, b = b, a
        shape, ia, ib = [], [], []
        nd = max(a.ndim, b.ndim)
        for p in range(nd):
            qa, qb = p - (nd - a.ndim), p - (nd - b.ndim)
            da = a.shape[qa] if qa >= 0 else 1
            db = b.shape[qb] if qb >= 0 else 1
            if one(da):
                d = db
            elif one(db):
                d = da
            elif dim_eq(da, db):
                d = da
            else:
                raise RuntimeError("The size of tensor a must match the size of tensor b")
            shape.append(d)
            if qa >= 0:
                ia.append(None if one(da) else p)
            if qb >= 0:
                ib.append(None if one(db) else p)
        fa, fb = a.snap, b.snap
        pick = lambda ix, i: [z3.IntVal(0) if k is None else i[k] for k in ix]
        if dt == "*":
            ba, bb = a.dt in ("bool", "b01"), b.dt in ("bool", "b01")
            if ba and bb:
                return HT(shape, lambda *i: z3.And(fa(*pick(ia, i)), fb(*pick(ib, i))), "bool" if a.dt == b.dt == "bool" else "b01")
            if ba or bb:
                fb_, fx, ixb, ixx, t = (fa, fb, ia, ib, b.dt) if ba else (fb, fa, ib, ia, a.dt)
                return HT(shape, lambda *i: z3.If(fb_(*pick(ixb, i)), fx(*pick(ixx, i)), convert(z3.IntVal(0), t)), t)
            dt = "real" if "real" in (a.dt, b.dt) else "int"
        if dt is None:
            dt = "real" if "real" in (a.dt, b.dt) else "int"
        return HT(shape, lambda *i: fn(*pair(fa(*pick(ia, i)), fb(*pick(ib, i)))), dt)

    def __add__(s, o): return s._ew(o, lambda a, b: a + b)
    def __radd__(s, o): return s._ew(o, lambda a, b: a + b)
    def __sub__(s, o): return s._ew(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._ew(o, lambda a, b: b - a)
    def __mul__(s, o): return s._ew(o, lambda a, b: a * b, "*")
    __rmul__ = __mul__

    def __eq__(s, o):
        if o is None:
            return False
        return s._ew(o, lambda a, b: a == b, "bool")

    def __ne__(s, o):
        if o is None:
            return True
        return s._ew(o, lambda a, b: a != b, "bool")

    def __lt__(s, o): return s._ew(o, lambda a, b: a < b, "bool")
    def __le__(s, o): return s._ew(o, lambda a, b: a <= b, "bool")
    def __gt__(s, o): return s._ew(o, lambda a, b: a > b, "bool")
    def __ge__(s, o): return s._ew(o, lambda a, b: a >= b, "bool")

    def __and__(s, o):
        if isinstance(o, HT) and s.dt == o.dt == "bool":
            return s._ew(o, None, "*")
        raise Unsupported("&")

    def __or__(s, o):
        if isinstance(o, HT) and s.dt == o.dt == "bool":
            return ~((~s) & (~o))
        raise Unsupported("|")

    def __invert__(s):
        if s.dt != "bool":
            raise Unsupported("~")
        f = s.snap
        return HT(s.shape, lambda *i: z3.Not(f(*i)), "bool")

    def logical_not(s): return ~s

    def __neg__(s):
        return s * -1

    def abs(s):
        f, d = s.snap, "int" if s.dt == "b01" else s.dt
        g = lambda *i: (lambda e: z3.If(e >= 0, e, -e))(num(f(*i)))
        return HT(s.shape, g, d)

    __abs__ = absolute = abs

    def _in(self, o, f, dt=None):
        r = f(o)
        if len(r.shape) != self.ndim or not all(one(a) == one(b) or dim_eq(a, b) for a, b in zip(r.shape, self.shape)):
            raise RuntimeError("output shape")
        rd = "int" if r.dt == "b01" else r.dt
        if rd != self.dt and not (self.dt == "real") and not (self.dt == "int" and rd == "bool"):
            raise RuntimeError("result type can not be cast")
        g, dt = r.snap, self.dt
        self.write(lambda *i: convert(g(*i), dt))
        return self

    def __isub__(s, o): return s._in(o, s.__sub__)
    def __iadd__(s, o): return s._in(o, s.__add__)
    def __imul__(s, o): return s._in(o, s.__mul__)
    def __iand__(s, o): return s._in(o, s.__and__)

    def fill_(self, v):
        self[...] = v
        return self

    # ---- methods
    def clone(self):
        return HT(self.shape, self.snap, self.dt, self.name + "'")

    def detach(self): return self

    def contiguous(self): return self

    def new_ones(self, *shape, dtype=None): return self._new(shape, dtype, 1)
    def new_zeros(self, *shape, dtype=None): return self._new(shape, dtype, 0)

    def _new(self, shape, dtype, v):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return full(shape, self.dtype if dtype is None else dtype, v)

    def transpose(self, a, b):
        if self.ndim != 2 or {a % 2, b % 2} != {0, 1}:
            raise Unsupported("transpose")
        r = HT(self.shape[::-1], lambda i, j, me=self: me.get(j, i), self.dt, self.name + ".T")
        r.base = lambda g, me=self: me.write(lambda i, j: g(j, i))
        r.protected = self.protected
        return r

    @property
    def T(self): return self.transpose(0, 1)
    mT = T

    def to(self, t):
        if t in (bool, "bool"):
            f = self.snap
            return HT(self.shape, lambda *i: convert(f(*i), "bool"), "bool")
        if t in (int, "int"):
            if self.dt == "bool":
                return HT(self.shape, self.snap, "b01")
            if self.dt in ("int", "b01"):
                return self
        raise Unsupported("to")

    def long(self): return self.to(int)
    def int(self): return self.to(int)
    def bool(self): return self.to(bool)

    def numel(self):
        r = 1
        for d in self.shape:
            r = d * r
        return r

    def size(self, d=None): return self.shape if d is None else self.shape[d]

    def _axis(self, dim, axis, k):
        d = dim if dim is not None else axis
        if isinstance(d, tuple):
            raise Unsupported("axes")
        return d

    def any(self, dim=None, axis=None, keepdim=False):
        return self._quant(dim if dim is not None else axis, keepdim, True)

    def all(self, dim=None, axis=None, keepdim=False):
        return self._quant(dim if dim is not None else axis, keepdim, False)

    def _quant(self, d, keepdim, ex):
        f = self.snap
        nm = lambda: z3.Int(ctx().fresh("q"))
        if d is None:
            v = [nm() for _ in self.shape]
            rg = z3.And(*[z3.And(x >= 0, x < tz(k)) for x, k in zip(v, self.shape)])
            b = convert(f(*v), "bool")
            return Sym(z3.Exists(v, z3.And(rg, b)) if ex else z3.ForAll(v, z3.Implies(rg, b)))
        d %= self.ndim
        shape = [x for k, x in enumerate(self.shape) if k != d]
        n = tz(self.shape[d])

        def g(*i):
            v = nm()
            i = list(i)
            if keepdim:
                del i[d]
            b = convert(f(*(i[:d] + [v] + i[d:])), "bool")
            return z3.Exists([v], z3.And(v >= 0, v < n, b)) if ex else z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < n), b))

        if keepdim:
            shape.insert(d, 1)
        return HT(shape, g, "bool")

    def sum(self, dim=None, axis=None):
        if dim is not None or axis is not None or self.dt not in ("bool", "b01"):
            raise Unsupported("sum")
        return Sym(ctx().spec.count(self))

    def min(self, dim=None, axis=None, keepdim=False):
        d = dim if dim is not None else axis
        if self.dt != "real":
            raise Unsupported("min")
        f = self.snap
        t = z3.BoolVal(True)
        if d is None:
            return Sym(extreme(f, [tz(x) for x in self.shape], lambda *i: t, -1))
        r = reduce_(f, self.shape, d % self.ndim, lambda i: t, -1, keepdim)
        return types.SimpleNamespace(values=r, indices=None)

    def max(self, dim=None, axis=None):
        if dim is None and axis is None:
            f = self.snap
            t = z3.BoolVal(True)
            return Sym(extreme(f, [tz(x) for x in self.shape], lambda *i: t, 1))
        raise Unsupported("max")

    def nonzero(self, as_tuple=False):
        if as_tuple:
            raise Unsupported("nonzero")
        f = self.snap
        return NZ(lambda *i: convert(f(*i), "bool"), self.shape)

    def __iter__(self):
        raise Unsupported("iteration over an array")

    def __len__(self):
        raise Unsupported("len")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("method %s" % n)


def full(shape, dtype, v):
    dt = {bool: "bool", int: "int", float: "real"}.get(dtype)
    if dt is None:
        raise Unsupported("dtype %r" % (dtype,))
    e = convert(z3.IntVal(v), dt)
    for d in shape:
        if not isinstance(d, int):
            ctx().oblige("size is not negative", tz(d) >= 0, "exc")
    return HT(shape, lambda *i: simp(e), dt)


def extreme(f, dims, mask, sign):
    """min (sign -1) or max over the indices where mask holds; at least one is required"""
    c = ctx()
    v = [z3.Int(c.fresh("k")) for _ in dims]
    rg = lambda v: z3.And(*([z3.And(x >= 0, x < d) for x, d in zip(v, dims)] + [mask(*v)]))
    w = [z3.Int(c.fresh("w")) for _ in dims]
    c.oblige("minimum of a set which is not empty", z3.Exists(v, rg(v)), "exc")
    r = z3.Real(c.fresh("ext"))
    c.assume(rg(w))
    c.assume(r == f(*w))
    c.assume(z3.ForAll(v, z3.Implies(rg(v), r <= f(*v) if sign < 0 else r >= f(*v))))
    return r


def reduce_(f, shape, d, mask, sign, keepdim=False):
    """minimum along one axis of a matrix, restricted to a mask of this axis"""
    c = ctx()
    if len(shape) != 2:
        raise Unsupported("min")
    n, o = tz(shape[d]), shape[1 - d]
    g = lambda k, x: f(k, x) if d == 0 else f(x, k)
    k, x = z3.Int(c.fresh("k")), z3.Int(c.fresh("x"))
    c.oblige("minimum of a set which is not empty", z3.Exists([k], z3.And(k >= 0, k < n, mask(k))), "exc")
    mv = z3.Function(c.fresh("min"), z3.IntSort(), z3.RealSort())
    w = z3.Function(c.fresh("argmin"), z3.IntSort(), z3.IntSort())
    ro = z3.And(x >= 0, x < tz(o))
    c.assume(z3.ForAll([k, x], z3.Implies(z3.And(ro, k >= 0, k < n, mask(k)), mv(x) <= g(k, x)), patterns=[z3.MultiPattern(mv(x), g(k, x))] if pat_ok(g(k, x), k, x) else []))
    c.assume(z3.ForAll([x], z3.Implies(ro, z3.And(w(x) >= 0, w(x) < n, mask(w(x)), mv(x) == g(w(x), x))), patterns=[mv(x)]))
    sh = [o]
    fn = lambda *i: mv(i[0])
    if keepdim:
        sh.insert(d, 1)
        fn = (lambda a, b: mv(b)) if d == 0 else (lambda a, b: mv(a))
    return HT(sh, fn, "real")


def pat_ok(t, *vs):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(any(a.eq(v) for a in t.children()) for v in vs)


class Masked:
    """a[mask] on one axis (the other ones complete)"""

    def __init__(self, a, axis, mask, f=None):
        self.axis, self.mask, self.dt, self.ndim, self.shape_ = axis, mask, a.dt, a.ndim, a.shape
        self.f = f or a.snap
        self.ms = mask.snap

    def check_store(self, a, ix):
        m = [(k, x[1]) for k, x in enumerate(ix) if x[0] == "mask"]
        if len(m) != 1 or m[0][0] != self.axis:
            raise Unsupported("masked store")
        i = z3.Int(ctx().fresh("i"))
        ctx().oblige("the masks of the load and the store agree", self.ms(i) == m[0][1].get(i), "exc")

    def _ew(self, o, fn):
        if isinstance(o, HT) and o.ndim:
            raise Unsupported("masked operation")
        e, f = tz(o), self.f
        r = Masked.__new__(Masked)
        r.__dict__.update(self.__dict__)
        r.f = lambda *i: fn(*pair(f(*i), e))
        return r

    def __add__(s, o): return s._ew(o, lambda a, b: a + b)
    def __sub__(s, o): return s._ew(o, lambda a, b: a - b)

    def min(self, dim=None, axis=None):
        d = dim if dim is not None else axis
        ms, ax = self.ms, self.axis
        if d is None:
            return Sym(extreme(self.f, [tz(x) for x in self.shape_], lambda *i: ms(i[ax]), -1))
        if d % self.ndim != ax:
            raise Unsupported("min")
        return types.SimpleNamespace(values=reduce_(self.f, self.shape_, ax, ms, -1))

    def __getitem__(self, key):
        raise Unsupported("index of a selection")

    def __getattr__(self, n):
        raise Unsupported("method %s of a selection" % n)


class Masked2:
    """a[mask] with a mask of the shape of a"""

    def __init__(self, a, mask, f=None):
        self.a, self.mask, self.f = a, mask, f or a.snap

    def check_store(self, a, ix):
        raise Unsupported("store of a selection")

    def __getattr__(self, n):
        raise Unsupported("method %s of a selection" % n)


class NZ:
    """list of the true positions, in lexicographic order"""

    def __init__(self, pred, dims):
        self.pred, self.dims = pred, dims
        c = ctx()
        self.len = z3.Int(c.fresh("len"))
        v = [z3.Int(c.fresh("z")) for _ in dims]
        self.inr = lambda v: z3.And(*([z3.And(x >= 0, x < tz(d)) for x, d in zip(v, dims)] + [pred(*v)]))
        c.assume(self.len >= 0)
        c.assume(z3.Implies(self.len == 0, z3.ForAll(v, z3.Not(self.inr(v)))))
        self.first_ = [z3.Int(c.fresh("first")) for _ in dims]
        c.assume(z3.Implies(self.len > 0, self.inr(self.first_)))

    def first(self):
        c = ctx()
        c.oblige("the list is not empty", self.len > 0, "exc")
        c.assume(self.len > 0)
        return self.first_

    def numel(self):
        if len(self.dims) == 1:
            return Sym(self.len)
        return Sym(self.len * len(self.dims))

    @property
    def shape(self):
        return (Sym(self.len), len(self.dims))

    def size(self, d): return self.shape[d]

    def __getitem__(self, k):
        if isinstance(k, int) and k == 0:
            v = self.first()
            return Vec1(v[0]) if len(v) == 1 else tuple(Sym(x) for x in v)
        if isinstance(k, tuple) and all(isinstance(x, int) for x in k) and k[0] == 0:
            return Sym(self.first()[k[1]])
        if isinstance(k, tuple) and isinstance(k[-1], int) and all(x is Ellipsis or x == slice(None) for x in k[:-1]):
            if len([x for x in k if x is not Ellipsis]) == 2:
                return NZcol(self, k[-1])
        raise Unsupported("index of nonzero")

    def element(self):
        """an arbitrary element"""
        c = ctx()
        v = [z3.Int(c.fresh("e")) for _ in self.dims]
        c.assume(self.inr(v))
        return Vec1(v[0]) if len(v) == 1 else tuple(Sym(x) for x in v)


class NZcol:
    def __init__(self, nz, k):
        self.nz, self.k = nz, k


class XV:
    pass


# ---------------------------------------------------------------- loops
class Poison:
    def __getattr__(self, n):
        raise Unsupported("value of a previous iteration")

    def __bool__(self):
        raise Unsupported("value of a previous iteration")

    def _p(self, *a):
        raise Unsupported("value of a previous iteration")

    __add__ = __radd__ = __sub__ = __mul__ = __eq__ = __lt__ = __getitem__ = __iter__ = __len__ = __index__ = __le__ = __gt__ = __ge__ = __ne__ = __call__ = _p


class SymRange:
    def __init__(self, a, b):
        self.a, self.b = a, b


class It:
    def __init__(self, it):
        self.it = it
        self.i = None

    symbolic = True

    def more(self):
        if isinstance(self.it, SymRange):
            return Sym(self.i < self.it.b)
        return Sym(self.i < self.it.len)

    def next(self):
        if isinstance(self.it, SymRange):
            v = Sym(self.i)
        else:
            v = self.it.element()
        self.cur = self.i
        self.i = self.i + 1
        return v


class PlainIt:
    symbolic = False

    def __init__(self, it):
        self.l = list(it)
        self.k = 0

    def more(self):
        return self.k < len(self.l)

    def next(self):
        self.k += 1
        return self.l[self.k - 1]


class Hook:
    """calls inserted in the loops"""

    def iter(self, x):
        if isinstance(x, (SymRange, NZ)):
            r = It(x)
            r.i = x.a if isinstance(x, SymRange) else z3.IntVal(0)
            return r
        if isinstance(x, (HT, Sym, Masked)):
            raise Unsupported("iteration")
        return PlainIt(x)

    def head(self, key, it, loc, assigned, frame):
        if it is not None and not it.symbolic:
            return {}
        c = ctx()
        k = (key, frame)
        env = {n: v for n, v in loc.items() if not n.startswith("__vc")}
        if k not in c.loops:
            c.loops[k] = True
            new = c.spec.enter(key, it, env, assigned)
            return new
        c.spec.again(key, it, env)
        raise PathEnd

    def frame(self):
        c = ctx()
        c.n += 1
        return c.n


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.cnt = {}

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def key(self):
        f = ".".join(self.fn)
        self.cnt[f] = self.cnt.get(f, -1) + 1
        return "%s#%d" % (f, self.cnt[f])

    def mangle(self, key):
        return "_" + key.replace("#", "_").replace(".", "_")

    def head(self, key, it, body):
        names = sorted({n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        src = "__vc_d = __vc_hook.head(%r, %s, locals(), %r, __vc_f%s)\n" % (key, it, names, self.mangle(key))
        for n in names:
            src += "if %r in __vc_d: %s = __vc_d[%r]\n" % (n, n, n)
        return ast.parse(src).body

    def visit_While(self, node):
        if node.orelse:
            return node
        key = self.key()
        names_body = list(node.body) + [ast.Expr(node.test)]
        h = self.head(key, "None", names_body)
        self.generic_visit(node)
        t = node.test
        pre = ast.parse("__vc_f%s = __vc_hook.frame()" % self.mangle(key)).body
        stop = []
        if not (isinstance(t, ast.Constant) and t.value is True):
            stop = [ast.If(ast.UnaryOp(ast.Not(), t), [ast.Break()], [])]
        return pre + [ast.While(ast.Constant(True), h + stop + node.body, [])]

    def visit_For(self, node):
        if node.orelse:
            return node
        key = self.key()
        itn = "__vc_it" + self.mangle(key)
        h = self.head(key, itn, node.body)
        self.generic_visit(node)
        pre = ast.parse("__vc_f%s = __vc_hook.frame()\n%s = __vc_hook.iter(None)" % (self.mangle(key), itn)).body
        pre[1].value.args = [node.iter]
        stop = ast.parse("while 1:\n if not %s.more(): break" % itn).body[0].body
        nxt = ast.Assign([node.target], ast.parse("%s.next()" % itn).body[0].value)
        return pre + [ast.While(ast.Constant(True), h + stop + [nxt] + node.body, [])]


def sym_len(x):
    if isinstance(x, NZ):
        return Sym(x.len)
    if isinstance(x, HT):
        return x.shape[0]
    if hasattr(x, "vc_len"):
        return x.vc_len()
    return len(x)


def sym_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        a = (0,) + a
    if len(a) != 2:
        raise Unsupported("range")
    return SymRange(tz(a[0]), tz(a[1]))


def sym_min(*a, **k):
    if len(a) == 1:
        a = tuple(a[0])
    r = a[0]
    for x in a[1:]:
        if isinstance(r, int) and isinstance(x, int):
            r = min(r, x)
        else:
            p, q = pair(r, x)
            r = Sym(z3.If(q < p, q, p))
    return r


def sym_max(*a, **k):
    if len(a) == 1:
        a = tuple(a[0])
    r = a[0]
    for x in a[1:]:
        if isinstance(r, int) and isinstance(x, int):
            r = max(r, x)
        else:
            p, q = pair(r, x)
            r = Sym(z3.If(q > p, q, p))
    return r


def load(path, imports, extra=None):
    """module of /repo with instrumented loops; imports: name -> module or attribute dictionary"""
    tree = ast.parse(open(path).read(), path)
    tree = Instr().visit(tree)
    ast.fix_missing_locations(tree)
    bi = dict(_b.__dict__)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        key = "." * level + (name or "")
        if key in imports:
            return imports[key]
        root = name.split(".")[0]
        if level == 0 and root in ("typing", "functools", "itertools", "math", "operator", "__future__", "enum", "collections", "contextlib", "dataclasses", "abc"):
            return _b.__import__(name, globals, locals, fromlist, level)
        raise Unsupported("import of %s" % key)

    bi.update(__import__=imp, len=sym_len, range=sym_range, min=sym_min, max=sym_max, print=lambda *a, **k: None, abs=abs)
    m = types.ModuleType("hungarian")
    m.__dict__["__builtins__"] = bi
    m.__dict__["__vc_hook"] = Hook()
    m.__dict__.update(extra or {})
    exec(compile(tree, path, "exec"), m.__dict__)
    return m


def explore(run, spec, max_paths=64):
    """-> list of (kind, value, ctx)"""
    work, out = [[]], []
    while work:
        p = work.pop()
        c = Ctx(p, spec)
        CUR[0] = c
        try:
            try:
                out.append(("ret", run(c), c))
            except PathEnd:
                out.append(("end", None, c))
            except Unsupported as e:
                out.append(("unsup", e, c))
            except RecursionError:
                out.append(("unsup", Unsupported("recursion"), c))
            except Exception as e:
                out.append(("exc", e, c))
        finally:
            CUR[0] = None
        work += c.alts
        if len(out) > max_paths:
            out.append(("unsup", Unsupported("too many paths"), c))
            break
    return out


def discharge(facts, goal, use=None, timeout=60000):
    if use is not None:
        r, t = discharge(use, goal, None, timeout // 2)
        if r == "proved":
            return r, t
    g = simp(goal)
    if z3.is_true(g):
        return "proved", 0.0
    import time

    t0 = time.time()
    for seed, extra in ((0, {}), (7, {"smt.mbqi": False}), (3, {"smt.random_seed": 3})):
        s = z3.SolverFor("AUFNIRA") if False else z3.Solver()
        s.set("timeout", timeout // 3)
        for k, v in extra.items():
            s.set(k, v)
        s.add(*facts)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return "proved", time.time() - t0
        if r == z3.sat and seed == 0:
            return "failed", time.time() - t0
    return "undecided", time.time() - t0
