"""Symbolic scalars, path exploration."""
from core import *
import core
from prove import Ctx, Prover, Lam

import math as _math


class PathEnd(BaseException):
    """the current path is infeasible"""


class State:
    """state of one symbolic execution (one path)"""

    def __init__(self, prefix=(), facts=(), config=None):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.ctx = Ctx(facts)
        self.config = config or {}
        self.writes = []          # writes into protected storages
        self.notes = []
        self.obl = []             # obligations raised inside (name, ok, detail)
        self.loop_depth = 0
        self.loop_stores = []     # stack of dicts
        self.no_grad = 0
        self.nograd_env = False   # the caller runs without gradients
        self.focus = list((config or {}).get("focus", ()))
        self.focus_used = set()
        self.focus_kept = False
        self.loop_decisions = []
        self.calls = []
        self.steps = 0

    def assume(self, *conds):
        self.ctx = self.ctx.plus(*conds)

    def decide(self, cond):
        self.steps += 1
        if self.steps > 20000:
            raise Unsupported("too many decisions")
        if cond.kind == "true":
            return True
        if cond.kind == "false":
            return False
        if self.ctx.entails(cond):
            return True
        nc = neg_cond(cond)
        if self.ctx.entails(nc):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            b = self.prefix[i]
        else:
            b = True
            self.alts.append(self.taken + [False])
        if len(self.taken) > 60:
            raise Unsupported("too many branches")
        self.taken.append(b)
        c = cond if b else nc
        for ld in self.loop_decisions:
            ld.append(c)
        self.ctx = self.ctx.plus(c)
        if not self.ctx.feasible():
            raise PathEnd()
        return b


EX = None  # current State


def cur():
    return ST[0]


ST = [None]


def decide(c):
    return ST[0].decide(c)


class SB:
    """symbolic boolean"""

    def __init__(self, cond):
        self.c = cond

    def __bool__(self):
        return decide(self.c)

    def __invert__(self):
        return SB(neg_cond(self.c))

    def __and__(self, o):
        return mkbool(and_(self.c, tocond(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(or_(self.c, tocond(o)))

    __ror__ = __or__

    def any(self):
        return self

    all = any

    def item(self):
        return self

    def __repr__(self):
        return "SB(%r)" % self.c


def and_(*cs):
    cs = [c for c in cs if c.kind != "true"]
    if any(c.kind == "false" for c in cs):
        return FALSE
    if not cs:
        return TRUE
    if len(cs) == 1:
        return cs[0]
    return Cond("pred", None, ("and", tuple(cs)))


def or_(*cs):
    return neg_cond(and_(*[neg_cond(c) for c in cs]))


def tocond(x):
    if isinstance(x, SB):
        return x.c
    if isinstance(x, Cond):
        return x
    if isinstance(x, (bool, int)):
        return TRUE if x else FALSE
    if hasattr(x, "_cond0"):
        return x._cond0()
    raise Unsupported("condition of type %s" % type(x).__name__)


def mkbool(c):
    if c.kind == "true":
        return True
    if c.kind == "false":
        return False
    return SB(c)


def lift(p):
    """P -> python number if constant integer, else SV"""
    p = toP(p)
    if p.is_const() and isinstance(p.const(), int):
        return p.const()
    return SV(p)


def scal(x):
    return isinstance(x, (int, float, SV, Fraction, complex)) and not isinstance(x, bool) or isinstance(x, bool)


class SV:
    """symbolic python number (int or float)"""

    def __init__(self, p):
        self._p = toP(p)

    @property
    def is_int(self):
        return self._p.is_int

    def _bin(self, o, f):
        if not (scal(o) or isinstance(o, SV)):
            return NotImplemented
        return lift(f(self._p, toP(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            raise Unsupported("sequence repetition")
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        r = self._bin(o, lambda a, b: a * inv(b))
        return r

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b * inv(a))

    def __floordiv__(self, o):
        return self._bin(o, fdiv)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: fdiv(b, a))

    def __mod__(self, o):
        return self._bin(o, pmod)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return lift(-self._p)

    def __pos__(self):
        return self

    def __abs__(self):
        return SV(absP(self._p)) if not self.is_int else (self if self >= 0 else -self)

    def __pow__(self, o):
        if isinstance(o, (int, float)):
            return lift(self._p ** o)
        raise Unsupported("power with a symbolic exponent")

    def __rpow__(self, b):
        p = self._p
        if b == 2 and len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "clog2":
                return lift(p2ceil(m[0][0].args[0]))
        if b == 2 and p.is_int:
            k = p.const() if () in p.t else 0
            q = p - k
            if len(q.t) == 1:
                (m, c), = q.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "clog2":
                    r = p2ceil(m[0][0].args[0])
                    return lift(r * (1 << k)) if k >= 0 else lift(fdiv(r, 1 << -k))
        if b == 10 or b == 10.0:
            return SV(exp10(p))
        if isinstance(b, (int, float)):
            return SV(fn("pow", b, p))
        raise Unsupported("symbolic power")

    def __rlshift__(self, b):
        return b * (2 ** self)

    def bit_length(self):
        # bit_length(m) = ceil(log2(m+1)), m >= 0
        return lift(clog2(self._p + 1))

    def __lt__(self, o):
        return mkbool(lt(self._p, toP(o)))

    def __le__(self, o):
        return mkbool(le(self._p, toP(o)))

    def __gt__(self, o):
        return mkbool(gt(self._p, toP(o)))

    def __ge__(self, o):
        return mkbool(ge(self._p, toP(o)))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return mkbool(eqc(self._p, toP(o)))

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return True
        return mkbool(neg_cond(eqc(self._p, toP(o))))

    def __hash__(self):
        return hash(self._p)

    def __bool__(self):
        return decide(neg_cond(eqc(self._p)))

    def __index__(self):
        if self._p.is_const():
            return int(self._p.const())
        raise Unsupported("symbolic integer used where a concrete one is needed")

    def __int__(self):
        if self.is_int:
            if self._p.is_const():
                return int(self._p.const())
            raise Unsupported("int() of a symbolic integer")
        raise Unsupported("int() of a symbolic number")

    def __float__(self):
        if self._p.is_const():
            return float(self._p.const())
        raise Unsupported("float() of a symbolic number")

    def __ceil__(self):
        return ceil(self)

    def __floor__(self):
        if self.is_int:
            return self
        raise Unsupported("floor")

    def is_integer(self):
        return self.is_int

    def item(self):
        return self

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "SV(%s)" % show(self._p)


class Log2:
    def __init__(self, p):
        self._arg = p


def log2(x):
    if isinstance(x, SV):
        if x.is_int:
            return Log2(x._p)
        raise Unsupported("log2 of a symbolic real")
    return _math.log2(x)


def ceil(x):
    if isinstance(x, Log2):
        return lift(clog2(x._arg))
    if isinstance(x, SV):
        if x.is_int:
            return x
        # ceil(p/q) for integer p, constant q
        p = x._p
        from math import lcm

        L = lcm(*[Fraction(c).denominator for c in p.t.values()])
        q = p * L
        if q.is_int:
            return lift(-fdiv(-q, L))
        raise Unsupported("ceil of a symbolic real")
    return _math.ceil(x)


def floor(x):
    if isinstance(x, SV):
        if x.is_int:
            return x
        p = x._p
        from math import lcm

        L = lcm(*[Fraction(c).denominator for c in p.t.values()])
        q = p * L
        if q.is_int:
            return lift(fdiv(q, L))
    elif not isinstance(x, Log2):
        return _math.floor(x)
    raise Unsupported("floor of a symbolic real")


class SRange:
    """range with symbolic bounds"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = toP(lo), toP(hi), step
        if step == 1:
            n = self.hi - self.lo
        elif step == -1:
            n = self.lo - self.hi
        else:
            raise Unsupported("range with a step")
        if not decide(ge(n)):
            n = ZERO
        self.n = n

    def item(self, i):
        return self.lo + toP(i) * self.step

    def __len__(self):
        raise Unsupported("len() of a symbolic range through the C API")

    def __iter__(self):
        if self.n.is_const():
            return iter([lift(self.item(i)) for i in range(self.n.const())])
        raise Unsupported("iteration over a symbolic range")

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step == -1:
                return SRange(self.item(self.n - 1), self.lo - self.step, -self.step)
            raise Unsupported("slice of a symbolic range")
        p = toP(k)
        if decide(lt(p, ZERO)):
            p = p + self.n
        return lift(self.item(p))


class SymNd:
    """np.ndindex over symbolic dimensions"""

    def __init__(self, dims):
        self.dims = [toP(d) for d in dims]

    def __iter__(self):
        if all(d.is_const() for d in self.dims):
            import itertools

            return iter(list(itertools.product(*[range(d.const()) for d in self.dims])))
        raise Unsupported("iteration over a symbolic index space")


class SymList:
    """list of symbolic length (comprehension over a symbolic range)"""

    def __init__(self, n, f):
        self.n, self.f = toP(n), f

    def __iter__(self):
        raise Unsupported("iteration over a list of symbolic length")


class PathResult:
    def __init__(self, st, kind, value):
        self.st, self.kind, self.value = st, kind, value
        self.ctx = st.ctx


def explore(run, facts=(), config=None, max_paths=64):
    """run(state) executed once per feasible path"""
    work = [[]]
    out = []
    while work:
        prefix = work.pop()
        st = State(prefix, facts, config)
        old = ST[0]
        ST[0] = st
        try:
            try:
                v = run(st)
                r = PathResult(st, "ret", v)
            except PathEnd:
                r = None
            except Unsupported as e:
                r = PathResult(st, "unsup", e)
            except RecursionError as e:
                r = PathResult(st, "unsup", Unsupported("recursion limit"))
            except Exception as e:
                r = PathResult(st, "exc", e)
        finally:
            ST[0] = old
        work += st.alts
        if r is not None:
            out.append(r)
        if len(out) > max_paths:
            r = PathResult(st, "unsup", Unsupported("too many paths"))
            out.append(r)
            break
    return out
