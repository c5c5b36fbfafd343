"""Terms, normal forms and the equality prover of the deductive verifier.

A value is a polynomial (class P) with rational coefficients over hash-consed
atoms.  Atoms are integer variables (sizes, indices), elements of the inputs,
finite sums with affine guards, discrete Fourier transforms, solutions of linear
systems, uninterpreted functions, ...  Machine floating point is treated as
exact real arithmetic; every integer is mathematical.
"""
from fractions import Fraction
import itertools
import z3


class Unsupported(Exception):
    """the code is outside of what the verifier understands (undecided)"""


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("kind", "args", "id", "fv", "depth", "is_int", "_h")

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
EMPTY = frozenset()


def _fv(x):
    if isinstance(x, Atom):
        return x.fv
    if isinstance(x, Closed):
        return x.fvs
    if isinstance(x, P):
        return x.fv
    if isinstance(x, Cond):
        return x.fv
    if isinstance(x, (tuple, frozenset, list)):
        s = EMPTY
        for y in x:
            s = s | _fv(y)
        return s
    return EMPTY


class Closed:
    """base of closed lambdas used as arguments of opaque functions"""


def _depth(x):
    if isinstance(x, Atom):
        return x.depth
    if isinstance(x, Closed):
        return x.depth_
    if isinstance(x, P):
        return x.depth
    if isinstance(x, Cond):
        return x.p.depth if x.p is not None else _depth(x.args)
    if isinstance(x, (tuple, frozenset, list)):
        return max((_depth(y) for y in x), default=0)
    return 0


def atom(kind, *args, is_int=False, bound=EMPTY, depth=None):
    key = (kind, args, is_int)
    a = _tab.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.is_int = kind, args, is_int
        a.id = len(_tab)
        a._h = hash(a.id * 2654435761)
        if kind == "v":
            a.fv = frozenset([a])
            a.depth = 0
        else:
            a.fv = _fv(args) - bound
            a.depth = _depth(args) if depth is None else depth
        _tab[key] = a
    return a


def ivar(name):
    return atom("v", name, is_int=True)


_cnt = itertools.count()


def fresh(prefix="i"):
    return atom("v", "%s~%d" % (prefix, next(_cnt)), is_int=True)


# ---------------------------------------------------------------- polynomials


def _nc(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class P:
    __slots__ = ("t", "_h", "_fv", "_d", "_int")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._fv = None
        self._d = None
        self._int = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and (self is o or (hash(self) == hash(o) and self.t == o.t))

    @property
    def fv(self):
        if self._fv is None:
            s = EMPTY
            for m in self.t:
                for a, _ in m:
                    s = s | a.fv
            self._fv = s
        return self._fv

    @property
    def depth(self):
        if self._d is None:
            self._d = max((a.depth for m in self.t for a, _ in m), default=0)
        return self._d

    @property
    def is_int(self):
        if self._int is None:
            self._int = all(
                isinstance(c, int) and all(a.is_int and p > 0 for a, p in m)
                for m, c in self.t.items()
            )
        return self._int

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def is_zero(self):
        return not self.t

    def __add__(self, o):
        o = toP(o)
        t = dict(self.t)
        for m, c in o.t.items():
            v = _nc(t.get(m, 0) + c)
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = v
        return P(t)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-toP(o))

    def __rsub__(self, o):
        return toP(o) - self

    def __mul__(self, o):
        o = toP(o)
        res = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r = mono_mul(m1, m2)
                if r is None:
                    continue
                c, m, q = r
                c = _nc(c * c1 * c2)
                if q is None:
                    v = _nc(res.get(m, 0) + c)
                    if v == 0:
                        res.pop(m, None)
                    else:
                        res[m] = v
                else:
                    e = q * P({m: c})
                    extra = e if extra is None else extra + e
        r = P(res)
        return r if extra is None else r + extra

    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int):
            if n < 0:
                return inv(self) ** (-n)
            r = ONE
            b = self
            while n:
                if n & 1:
                    r = r * b
                b = b * b if n > 1 else b
                n >>= 1
            return r
        if n == 0.5:
            return sqrt(self)
        raise Unsupported("power %r" % (n,))

    def __truediv__(self, o):
        return self * inv(toP(o))

    def __repr__(self):
        return show(self)


def toP(x):
    if isinstance(x, P):
        return x
    if isinstance(x, Atom):
        return P({((x, 1),): 1})
    if isinstance(x, bool):
        return P({(): int(x)}) if x else ZERO
    if isinstance(x, int):
        return P({(): x}) if x != 0 else ZERO
    if isinstance(x, Fraction):
        return P({(): _nc(x)}) if x != 0 else ZERO
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return toP(atom("fconst", repr(x)))
        return toP(Fraction(repr(x)))
    if isinstance(x, complex):
        return toP(x.real) + toP(x.imag) * toP(IMAG)
    if hasattr(x, "_p"):
        return x._p
    raise Unsupported("value of type %s" % type(x).__name__)


IMAG = None
ZERO = P({})
ONE = P({(): 1})


def mono_mul(m1, m2):
    """product of two monomials: None if zero, else (coef, mono, extra P or None)"""
    if not m1:
        return (1, m2, None)
    if not m2:
        return (1, m1, None)
    d = dict(m1)
    special = False
    for a, p in m2:
        if a in d:
            q = d[a] + p
            if q == 0:
                if a.kind == "ind":
                    raise Unsupported("division by an indicator")
                del d[a]
                continue
            d[a] = q
            k = a.kind
            if k in ("ind", "I", "sqrt", "poly"):
                special = True
        else:
            d[a] = p
    coef = 1
    extra = None
    if special:
        for a in list(d):
            k = a.kind
            p = d[a]
            if k == "ind":
                d[a] = 1
            elif k == "I":
                r = p % 4
                if r in (2, 3):
                    coef = -coef
                if r % 2:
                    d[a] = 1
                else:
                    del d[a]
            elif k == "sqrt" and (p > 1 or p < 0):
                q, r = divmod(p, 2)
                if r:
                    d[a] = 1
                else:
                    del d[a]
                e = a.args[0] ** q
                extra = e if extra is None else extra * e
            elif k == "poly" and p > 0:
                del d[a]
                e = a.args[0] ** p
                extra = e if extra is None else extra * e
    inds = [a for a in d if a.kind == "ind"]
    if len(inds) > 1:
        cs = set(a.args[0] for a in inds)
        for c in cs:
            if neg_cond(c) in cs:
                return None
        for a in inds:
            c = a.args[0]
            if c.kind == "ge" and a in d:
                b = Cond("ge", -c.p)
                if b in cs:
                    e = eqc(c.p)
                    del d[a]
                    del d[atom("ind", b)]
                    if e.kind == "false":
                        return None
                    if e.kind != "true":
                        d[atom("ind", e)] = 1
                        cs = (cs - {b, c}) | {e}
                        if neg_cond(e) in cs:
                            return None
        eqs = [c.p for c in cs if c.kind == "eq"]
        if eqs and len(cs) > len(eqs):
            for a in inds:
                c = a.args[0]
                if c.kind != "ge" or a not in d:
                    continue
                for q in eqs:
                    k = c.p - q
                    if not k.is_const():
                        k = c.p + q
                        if not k.is_const():
                            continue
                    if k.const() < 0:
                        return None
                    del d[a]
                    break
    return (coef, tuple(sorted(d.items(), key=lambda ap: ap[0].id)), extra)


def content(p, ok=lambda a: True):
    """common monomial factor of all the terms (atoms accepted by ok), and lead coef"""
    it = iter(p.t)
    m0 = dict((a, e) for a, e in next(it) if ok(a))
    for m in it:
        d = dict(m)
        for a in list(m0):
            e = d.get(a, 0)
            if e == 0 or (e > 0) != (m0[a] > 0):
                del m0[a]
            elif abs(e) < abs(m0[a]):
                m0[a] = e
        if not m0:
            break
    # negative powers: common denominator
    neg = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and ok(a) and a not in m0:
                neg[a] = min(neg.get(a, 0), e)
    m0.update(neg)
    lead = min(p.t, key=lambda m: tuple((a.id, e) for a, e in m))
    mono = tuple(sorted(m0.items(), key=lambda ap: ap[0].id))
    return mono, p.t[lead]


def mono_inv(m):
    return tuple((a, -e) for a, e in m)


def inv(p):
    if p.is_zero():
        return toP(atom("fconst", "inf"))
    if any(a.kind == "ind" for m in p.t for a, _ in m):
        # push the case distinction outside
        c = next(a.args[0] for m in p.t for a, _ in m if a.kind == "ind")
        return ite(c, inv(assume_cond(p, c)), inv(assume_cond(p, neg_cond(c))))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = P({(): _nc(Fraction(1, 1) / c)})
        for a, e in m:
            if a is IMAG:
                r = r * (-toP(IMAG))
            elif a.kind == "sqrt":
                # sqrt^-1 = sqrt / arg
                r = r * P({((a, -e),): 1}) if e < 0 else r * _sqrt_negpow(a, e)
            elif e < 0:
                r = r * toP(a) ** (-e)
            else:
                r = r * P({((a, -e),): 1})
        return r
    mono, lead = content(p, ok=lambda a: a.kind not in ("sqrt", "ind", "I"))
    q = p * _monoP(mono_inv(mono)) * toP(Fraction(1, 1) / lead)
    a = atom("poly", q)
    return P({((a, -1),): _nc(Fraction(1, 1) / lead)}) * _monoP(mono_inv(mono))


def _monoP(m):
    r = ONE
    for a, e in m:
        if e > 0:
            r = r * toP(a) ** e
        elif a.kind == "sqrt":
            r = r * _sqrt_negpow(a, -e)
        else:
            r = r * P({((a, e),): 1})
    return r


def _sqrt_negpow(a, e):
    """sqrt(x)**-e in normal form: sqrt(x)**r * x**-q"""
    x = a.args[0]
    q, r = divmod(e, 2)
    if r:
        return toP(a) * inv(x) ** (q + 1)
    return inv(x) ** q


def sqrt(p):
    p = toP(p)
    if p.is_const():
        c = Fraction(p.const())
        if c >= 0:
            import math

            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return toP(Fraction(n, d))
        return toP(atom("sqrt", p))
    for m in p.t:
        for at, _ in m:
            if at.kind == "ind":
                c = at.args[0]
                return ite(c, sqrt(assume_cond(p, c)), sqrt(assume_cond(p, neg_cond(c))))
    # pull even powers of positive symbols out
    mono, lead = content(p)
    out = ONE
    rest = p
    for a, e in mono:
        if a.kind == "rsym" and a.args[1] == "pos" and abs(e) >= 2:
            h = (e // 2) if e > 0 else -((-e) // 2)
            out = out * P({((a, h),): 1})
            rest = rest * P({((a, -2 * h),): 1})
        elif a.kind in POSITIVE and abs(e) >= 2:
            h = (e // 2) if e > 0 else -((-e) // 2)
            out = out * P({((a, h),): 1})
            rest = rest * P({((a, -2 * h),): 1})
        elif a.kind == "sgn" and e >= 2:
            pass
    return out * toP(atom("sqrt", rest))


POSITIVE = {"posfn", "exp10"}


# ---------------------------------------------------------------- conditions
class Cond:
    """kind 'ge': p >= 0, 'eq': p == 0, 'ne': p != 0 (integers);
    'pred'/'npred': opaque predicate (name, args)"""

    __slots__ = ("kind", "p", "args", "_h", "_fv")

    def __init__(self, kind, p=None, args=()):
        self.kind, self.p, self.args = kind, p, args
        self._h = hash((kind, p, args))
        self._fv = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return (
            isinstance(o, Cond)
            and self.kind == o.kind
            and self.p == o.p
            and self.args == o.args
        )

    @property
    def fv(self):
        if self._fv is None:
            self._fv = _fv(self.p) | _fv(self.args)
        return self._fv

    def __repr__(self):
        if self.kind == "ge":
            return "%s>=0" % show(self.p)
        if self.kind == "eq":
            return "%s==0" % show(self.p)
        if self.kind == "ne":
            return "%s!=0" % show(self.p)
        return ("" if self.kind == "pred" else "!") + str(self.args)


IMAG = atom("I")
TRUE = Cond("true")
FALSE = Cond("false")


def _gcdnorm(p, kind):
    from math import gcd

    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, abs(c))
    if g > 1:
        c0 = p.t.get((), 0)
        if kind == "ge":
            t = {m: c // g for m, c in p.t.items() if m}
            k = c0 // g
        else:
            if c0 % g:
                return None
            t = {m: c // g for m, c in p.t.items() if m}
            k = c0 // g
        if k:
            t[()] = k
        return P(t)
    return p


def ge(a, b=0):
    p = toP(a) - toP(b)
    if not p.is_int:
        return rge(p)
    if p.is_const():
        return TRUE if p.const() >= 0 else FALSE
    return Cond("ge", _gcdnorm(p, "ge"))


def rge(p):
    """real p >= 0"""
    if p.is_const():
        return TRUE if p.const() >= 0 else FALSE
    return Cond("pred", None, ("rge", p))


def gt(a, b=0):
    p = toP(a) - toP(b)
    if p.is_int:
        return ge(p - 1)
    return neg_cond(rge(-p))


def lt(a, b):
    return gt(b, a)


def le(a, b):
    return ge(b, a)


def eqc(a, b=0):
    p = toP(a) - toP(b)
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    if not p.is_int:
        return Cond("pred", None, ("req", _signnorm(p)))
    q = _gcdnorm(p, "eq")
    if q is None:
        return FALSE
    return Cond("eq", _signnorm(q))


def _signnorm(p):
    lead = min(p.t, key=lambda m: tuple((a.id, e) for a, e in m))
    return -p if p.t[lead] < 0 else p


def pred(name, *args):
    return Cond("pred", None, (name,) + tuple(args))


def neg_cond(c):
    k = c.kind
    if k == "ge":
        return ge(-c.p - 1)
    if k == "eq":
        return Cond("ne", c.p)
    if k == "ne":
        return Cond("eq", c.p)
    if k == "pred":
        return Cond("npred", None, c.args)
    if k == "npred":
        return Cond("pred", None, c.args)
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    raise AssertionError(k)


def ind(c):
    if c is TRUE or c.kind == "true":
        return ONE
    if c.kind == "false":
        return ZERO
    return toP(atom("ind", c))


def ite(c, a, b):
    a, b = toP(a), toP(b)
    if c.kind == "true":
        return a
    if c.kind == "false":
        return b
    if a == b:
        return a
    return ind(c) * a + ind(neg_cond(c)) * b


def conj_ind(conds):
    r = ONE
    for c in conds:
        r = r * ind(c)
    return r


# ---------------------------------------------------------------- substitution
def subst(x, mp, cache=None):
    """simultaneous substitution of integer variables (and symbols) by P"""
    if cache is None:
        cache = {}
    return _subst(x, mp, frozenset(mp), cache)


def _subst(x, mp, keys, cache):
    if isinstance(x, P):
        if not (x.fv & keys):
            return x
        r = cache.get(x)
        if r is not None:
            return r
        r = ZERO
        acc = {}
        for m, c in x.t.items():
            if not any(a.fv & keys for a, _ in m):
                v = _nc(acc.get(m, 0) + c)
                if v == 0:
                    acc.pop(m, None)
                else:
                    acc[m] = v
                continue
            keep = tuple((a, e) for a, e in m if not (a.fv & keys))
            q = P({keep: c})
            for a, e in m:
                if a.fv & keys:
                    b = _subst_atom(a, mp, keys, cache)
                    q = q * (b ** e if e > 0 else inv(b) ** (-e))
            r = r + q
        r = r + P(acc)
        cache[x] = r
        return r
    if isinstance(x, Cond):
        if not (x.fv & keys):
            return x
        return _subst_cond(x, mp, keys, cache)
    if isinstance(x, tuple):
        return tuple(_subst(y, mp, keys, cache) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_subst(y, mp, keys, cache) for y in x)
    if isinstance(x, Atom):
        return _subst_atom(x, mp, keys, cache)
    if isinstance(x, Closed) and (x.fvs & keys):
        return x.map(lambda y: _subst(y, mp, keys, cache))
    return x


def _subst_cond(c, mp, keys, cache):
    if c.p is not None:
        p = _subst(c.p, mp, keys, cache)
        if c.kind == "ge":
            return ge(p)
        if c.kind == "eq":
            return eqc(p)
        return neg_cond(eqc(p))
    return Cond(c.kind, None, _subst(c.args, mp, keys, cache))


def _subst_atom(a, mp, keys, cache):
    if a in mp:
        return mp[a]
    if not (a.fv & keys):
        return toP(a)
    r = cache.get(a)
    if r is not None:
        return r
    r = rebuild(a, lambda y: _subst(y, mp, keys, cache))
    cache[a] = r
    return r


def rebuild(a, f):
    """rebuild an atom (as P) with f applied to its parts, through smart constructors"""
    k = a.kind
    g = a.args
    if k in ("v", "I", "fconst"):
        return toP(a)
    if k == "ind":
        return ind(f(g[0]))
    if k == "sqrt":
        return sqrt(f(g[0]))
    if k == "poly":
        return f(g[0])
    if k == "fdiv":
        return fdiv(f(g[0]), g[1] if isinstance(g[1], int) else f(g[1]))
    if k == "sum":
        vs, gd, body = open_sum(a)
        return mk_sum(vs, [f(c) for c in gd], f(body))
    if k == "dft":
        n, kk, v, gd, body, cj = open_dft(a)
        return mk_dft(f(n), f(kk), v, f(body) * conj_ind([f(c) for c in gd]), cj)
    if k == "solve":
        dims, rv, cv, A, b, idx = open_solve(a)
        return mk_solve(f(dims), rv, cv, f(A), f(b), f(idx))
    if k == "idft":
        n, kv, M, u = open_idft(a)
        return mk_idft(f(n), kv, f(M), f(u))
    if k == "pcg":
        d = open_pcg(a)
        return mk_pcg(d, f)
    if k in ("max", "min"):
        return mk_maxmin(k, [f(x) for x in g[0]])
    if k == "log10":
        return log10(f(g[0]))
    if k == "abs":
        return absP(f(g[0]))
    if k == "agg":
        # ('agg', name, bound vars, body conds/polys..., extra)
        return open_agg(a, f)
    # generic: apply f to all P/Cond/tuple parts
    return toP(atom(k, *[f(y) if isinstance(y, (P, Cond, tuple, frozenset, Closed)) else y for y in g], is_int=a.is_int))


# ---------------------------------------------------------------- sums
def canon(prefix, depth, i):
    return atom("v", "%s%d.%d" % (prefix, depth, i), is_int=True)


def open_sum(a):
    vs, gd, body = a.args
    fs = [fresh("s") for _ in vs]
    mp = {v: toP(w) for v, w in zip(vs, fs)}
    return fs, [ren(c, mp) for c in gd], ren(body, mp)


def ren(x, mp):
    """renaming of variables: subst (values are variables)"""
    return subst(x, mp)


def _lin(p, v):
    """coefficient of variable v if p is affine in v with constant integer coef, else None"""
    c = 0
    for m, k in p.t.items():
        for a, e in m:
            if a is v:
                if len(m) == 1 and e == 1:
                    c = k
                else:
                    return None
            elif v in a.fv:
                return None
    return c


def mk_sum(vs, guards, body):
    """sum over integer vectors vs satisfying guards (which bound them) of body"""
    body = toP(body)
    if body.is_zero():
        return ZERO
    guards = [c for c in guards if c.kind != "true"]
    if any(c.kind == "false" for c in guards):
        return ZERO
    vset = frozenset(vs)
    res = ZERO
    for m, c in body.t.items():
        res = res + _mk_sum_mono(list(vs), vset, guards, m, c)
    return res


def _mk_sum_mono(vs, vset, guards, m, c):
    out = P({(): c})
    dep = []
    gd = list(guards)
    vs = list(vs)
    allv = set(vs)
    work = list(m)
    opened = False
    while work:
        a, e = work.pop()
        if not (a.fv & allv):
            out = out * _powP(a, e)
            continue
        if a.kind == "ind":
            gd.append(a.args[0])
            continue
        if a.kind == "sum" and e > 0:
            for _ in range(e):
                v2, g2, b2 = open_sum(a)
                vs += v2
                allv |= set(v2)
                gd += g2
                (m2, c2), = b2.t.items()
                out = out * c2
                work += list(m2)
                opened = True
            continue
        dep.append((a, e))
    # eliminate variables fixed by equalities
    for g in gd:
        if g.kind == "eq":
            cand = vs
            if len(vs) > 1 and any(a.kind == "v" or a.kind == "idft" for a, _ in dep):
                # keep the variables which appear as factors: polynomial weights are not expanded
                cand = sorted(vs, key=lambda v: sum(10 if a is v else 1 for a, _ in dep if a is v or (a.kind == "el" and v in a.fv)))
            for v in cand:
                k = _lin(g.p, v)
                if k in (1, -1):
                    sol = toP(v) - g.p * k
                    mp = {v: sol}
                    bd = ONE
                    for a, e in dep:
                        q = subst(toP(a), mp)
                        bd = bd * (q ** e if e > 0 else inv(q) ** (-e))
                    g2 = [subst(x, mp) for x in gd if x is not g]
                    vs2 = [w for w in vs if w is not v]
                    if vs2:
                        return out * mk_sum(vs2, g2, bd)
                    return out * bd * conj_ind(g2)
    # connected components
    comps = []
    items = [("a", a, a.fv & allv) for a in dep] if False else []
    items = [((a, e), a.fv & allv) for a, e in dep] + [(g, g.fv & allv) for g in gd]
    parent = {v: v for v in vs}

    def find(v):
        while parent[v] is not v:
            v = parent[v]
        return v

    for _, f in items:
        f = list(f)
        for w in f[1:]:
            parent[find(w)] = find(f[0])
    groups = {}
    for v in vs:
        groups.setdefault(find(v), []).append(v)
    free_g = [g for g, f in items if isinstance(g, Cond) and not f]
    out = out * conj_ind(free_g)
    if out.is_zero():
        return ZERO
    for root, gv in groups.items():
        gvs = set(gv)
        cg = []
        seen = set()
        for g, f in items:
            if isinstance(g, Cond) and f & gvs and g not in seen:
                seen.add(g)
                cg.append(g)
        for g in cg:
            if neg_cond(g) in seen or g.kind == "false":
                return ZERO
        cg = [g for g in cg if g.kind != "true"]
        cb = [g for g, f in items if not isinstance(g, Cond) and f & gvs]
        bd = ONE
        for a, e in cb:
            bd = bd * _powP(a, e)
        if len(bd.t) != 1 or list(bd.t.values())[0] != 1:
            out = out * mk_sum(gv, cg, bd)
            continue
        if not cb and len(gv) == 1:
            n = _count_range(gv[0], cg)
            if n is not None:
                out = out * n
                continue
        # drop the duplicates of cg which are eq etc., build the canonical atom
        d = 1 + max([_depth(tuple(cg)), bd.depth])
        mp = {v: toP(canon("_s", d, i)) for i, v in enumerate(gv)}
        cv = tuple(canon("_s", d, i) for i in range(len(gv)))
        a = atom(
            "sum",
            cv,
            frozenset(ren(g, mp) for g in cg),
            ren(bd, mp),
            bound=frozenset(cv),
            depth=d,
        )
        out = out * toP(a)
    return out


def _powP(a, e):
    if a.kind == "sqrt" and e < 0:
        return _sqrt_negpow(a, -e)
    if e < 0:
        return P({((a, e),): 1})
    if e == 1:
        return P({((a, 1),): 1})
    return toP(a) ** e


def _count_range(v, cg):
    if len(cg) != 2:
        return None
    lo = hi = None
    for g in cg:
        if g.kind != "ge":
            return None
        k = _lin(g.p, v)
        if k == 1:
            lo = toP(v) - g.p
        elif k == -1:
            hi = g.p + toP(v)
        else:
            return None
    if lo is None or hi is None:
        return None
    if lo.is_zero():
        return hi + 1
    return None


def rng(v, n):
    v, n = toP(v), toP(n)
    return [ge(v), ge(n - 1 - v)]


def sum_over(n, f, prefix="s"):
    v = fresh(prefix)
    return mk_sum([v], rng(v, n), f(toP(v)))


# ---------------------------------------------------------------- dft
def open_dft(a):
    n, k, v, gd, body, cj = a.args
    w = fresh("t")
    mp = {v: toP(w)}
    return n, k, w, [ren(c, mp) for c in gd], ren(body, mp), cj


def mk_dft(n, k, v, body, cj=False):
    """sum_{0<=v<n} body(v) exp(-+2i pi k v / n), body real"""
    res = ZERO
    for m, c in body.t.items():
        out = P({(): c})
        dep = []
        gd = []
        for a, e in m:
            if v not in a.fv:
                out = out * _powP(a, e)
            elif a.kind == "ind":
                gd.append(a.args[0])
            else:
                if a is IMAG:
                    raise Unsupported("complex signal in a real transform")
                dep.append((a, e))
        bd = ONE
        for a, e in dep:
            bd = bd * _powP(a, e)
        d = 1 + max([_depth(tuple(gd)), bd.depth])
        cv = canon("_t", d, 0)
        mp = {v: toP(cv)}
        at = atom(
            "dft", n, k, cv, frozenset(ren(g, mp) for g in gd), ren(bd, mp), cj,
            bound=frozenset([cv]), depth=d,
        )
        res = res + out * toP(at)
    return res


def open_idft(a):
    n, kv, M, u = a.args
    w = fresh("k")
    return n, w, ren(M, {kv: toP(w)}), u


def mk_idft(n, kv, M, u):
    """(1/n) sum_k M(k) exp(2i pi k u/n), M Hermitian-symmetric; 0 <= u < n"""
    res = ZERO
    for m, c in M.t.items():
        out = P({(): c})
        dep = ONE
        for a, e in m:
            if kv in a.fv:
                dep = dep * _powP(a, e)
            elif a is IMAG:
                raise Unsupported("non-hermitian spectrum")
            else:
                out = out * _powP(a, e)
        d = 1 + dep.depth
        cv = canon("_k", d, 0)
        at = atom("idft", n, cv, ren(dep, {kv: toP(cv)}), u, bound=frozenset([cv]), depth=d)
        res = res + out * toP(at)
    return res


def conj(p):
    if p.fv is EMPTY and not p.t:
        return p
    r = ZERO
    for m, c in p.t.items():
        q = P({(): c})
        for a, e in m:
            b = conj_atom(a)
            q = q * (b ** e if e > 0 else (inv(b) ** (-e) if b != toP(a) else _powP(a, e)))
        r = r + q
    return r


_cplx_cache = {}


def is_real_atom(a):
    r = _cplx_cache.get(a)
    if r is None:
        if a is IMAG or a.kind == "dft":
            r = False
        elif a.kind in ("max", "min", "abs", "sqrt", "ind", "idft", "log10", "v", "el", "rsym", "agg"):
            r = True
        elif a.kind == "sum":
            r = all(is_real_atom(b) for m in a.args[2].t for b, _ in m)
        elif a.kind == "solve":
            r = all(is_real_atom(b) for q in (a.args[3], a.args[4]) for m in q.t for b, _ in m)
        elif a.kind == "poly":
            r = all(is_real_atom(b) for m in a.args[0].t for b, _ in m)
        else:
            r = True
        _cplx_cache[a] = r
    return r


def conj_atom(a):
    if is_real_atom(a):
        return toP(a)
    if a is IMAG:
        return -toP(a)
    if a.kind == "dft":
        n, k, v, gd, body, cj = a.args
        return toP(atom("dft", n, k, v, gd, body, not cj, bound=frozenset([v]), depth=a.depth))
    if a.kind == "sum":
        vs, gd, body = open_sum(a)
        return mk_sum(vs, gd, conj(body))
    if a.kind == "solve":
        dims, rv, cv, A, b, idx = open_solve(a)
        return mk_solve(dims, rv, cv, conj(A), conj(b), idx)
    if a.kind == "poly":
        return conj(a.args[0])
    raise Unsupported("conj of %s" % a.kind)


def is_real(p):
    return all(is_real_atom(a) for m in p.t for a, _ in m)


def realpart(p):
    return p if is_real(p) else (p + conj(p)) * Fraction(1, 2)


def imagpart(p):
    return ZERO if is_real(p) else (p - conj(p)) * Fraction(1, 2) * (-toP(IMAG))


# ---------------------------------------------------------------- linear systems
def open_solve(a):
    dims, rv, cv, A, b, idx = a.args
    r2 = tuple(fresh("r") for _ in rv)
    c2 = tuple(fresh("c") for _ in cv)
    mp = {v: toP(w) for v, w in zip(rv + cv, r2 + c2)}
    return dims, r2, c2, ren(A, mp), ren(b, mp), idx


def mk_solve(dims, rv, cv, A, b, idx):
    """component idx of the solution x of sum_c A(r, c) x(c) = b(r)"""
    rv, cv = tuple(rv), tuple(cv)
    rc = frozenset(rv + cv)
    if A.is_zero():
        raise Unsupported("singular system")
    if all(toP(d) == ONE for d in dims):
        z = {v: ZERO for v in rv + cv}
        return subst(b, z) * inv(subst(A, z))
    mono, lead = content(A, ok=lambda a: not (a.fv & rc) and a.kind not in ("sqrt", "ind"))
    fac = ONE
    if mono:
        A = A * _monoP(mono_inv(mono))
        fac = fac * _monoP(mono_inv(mono))
    if lead != 1:
        A = A * toP(Fraction(1, 1) / lead)
        fac = fac * toP(Fraction(1, 1) / lead)
    res = ZERO
    rvs = frozenset(rv)
    for m, c in b.t.items():
        out = P({(): c})
        dep = ONE
        for a, e in m:
            if a.fv & rvs:
                dep = dep * _powP(a, e)
            else:
                out = out * _powP(a, e)
        d = 1 + max(A.depth, dep.depth)
        r2 = tuple(canon("_r", d, i) for i in range(len(rv)))
        c2 = tuple(canon("_c", d, i) for i in range(len(cv)))
        mp = {v: toP(w) for v, w in zip(rv + cv, r2 + c2)}
        at = atom(
            "solve", tuple(toP(x) for x in dims), r2, c2, ren(A, mp), ren(dep, mp),
            tuple(toP(i) for i in idx), bound=frozenset(r2 + c2), depth=d,
        )
        res = res + out * toP(at)
    return res * fac


# ---------------------------------------------------------------- preconditioned CG
# ('pcg', dims, dv (multi-rhs index values), n, jv, Av, Mv, b, x0, out, idx)
# Av, Mv: polynomials in el('v#', idx) for row index jv; b, x0 in jv
def open_pcg(a):
    dims, n, jv, Av, Mv, b, x0, which, idx = a.args
    j2 = tuple(fresh("j") for _ in jv)
    mp = {v: toP(w) for v, w in zip(jv, j2)}
    return dict(dims=dims, n=n, jv=j2, Av=ren(Av, mp), Mv=ren(Mv, mp), b=ren(b, mp), x0=ren(x0, mp), which=which, idx=idx)


def mk_pcg(d, f=lambda x: x):
    jv = tuple(d["jv"])
    Av, Mv, b, x0 = (f(d[k]) for k in ("Av", "Mv", "b", "x0"))
    dd = 1 + max(Av.depth, Mv.depth, b.depth, x0.depth)
    j2 = tuple(canon("_j", dd, i) for i in range(len(jv)))
    mp = {v: toP(w) for v, w in zip(jv, j2)}
    return toP(
        atom(
            "pcg", f(tuple(d["dims"])), f(toP(d["n"])), j2, ren(Av, mp), ren(Mv, mp), ren(b, mp), ren(x0, mp),
            d["which"], f(tuple(d["idx"])), bound=frozenset(j2), depth=dd,
        )
    )


# ---------------------------------------------------------------- functions
def mk_maxmin(k, args):
    flat = []
    for a in args:
        a = toP(a)
        if len(a.t) == 1:
            (m, c), = a.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == k:
                flat += list(m[0][0].args[0])
                continue
        flat.append(a)
    const = None
    rest = []
    for a in flat:
        if a.is_const():
            c = Fraction(a.const())
            const = c if const is None else (max(const, c) if k == "max" else min(const, c))
        elif a not in rest:
            rest.append(a)
    if const is not None:
        if not rest:
            return toP(const)
        rest.append(toP(const))
    if len(rest) == 1:
        return rest[0]
    # push case distinctions outside
    for i, a in enumerate(rest):
        for m in a.t:
            for at, _ in m:
                if at.kind == "ind":
                    c = at.args[0]
                    r1 = [assume_cond(x, c) for x in rest]
                    r2 = [assume_cond(x, neg_cond(c)) for x in rest]
                    return ite(c, mk_maxmin(k, r1), mk_maxmin(k, r2))
    rest.sort(key=lambda p: hash(p))
    rest.sort(key=lambda p: tuple(sorted(tuple((a.id, e) for a, e in m) for m in p.t)))
    return toP(atom(k, tuple(rest), is_int=all(a.is_int for a in rest)))


def split_index(p):
    """[(conditions, p under these conditions)]: p without case distinctions at the top level"""
    for m in p.t:
        for a, e in m:
            if a.kind == "ind":
                c = a.args[0]
                x, y = assume_cond(p, c), assume_cond(p, neg_cond(c))
            elif a.kind == "abs" and a.is_int:
                c = ge(a.args[0])
                x, y = repl_atom(p, a, a.args[0]), repl_atom(p, a, -a.args[0])
            elif a.kind in ("max", "min") and a.is_int:
                u, *w = a.args[0]
                w = w[0] if len(w) == 1 else mk_maxmin(a.kind, w)
                c = ge(u, w) if a.kind == "max" else ge(w, u)
                x, y = repl_atom(p, a, u), repl_atom(p, a, w)
            else:
                continue
            return [((c,) + cs, q) for cs, q in split_index(x)] + [((neg_cond(c),) + cs, q) for cs, q in split_index(y)]
    return [((), p)]


def repl_atom(p, a, v):
    """p with the top-level atom a replaced by v"""
    r = ZERO
    for m, c in p.t.items():
        q = P({tuple((b, e) for b, e in m if b is not a): c})
        for b, e in m:
            if b is a:
                q = q * toP(v) ** e
        r = r + q
    return r


def log10(p):
    p = toP(p)
    if p.is_const() and p.const() == 1:
        return ZERO
    for m in p.t:
        for at, _ in m:
            if at.kind == "ind":
                c = at.args[0]
                return ite(c, log10(assume_cond(p, c)), log10(assume_cond(p, neg_cond(c))))
    if not p.t:
        return toP(atom("fconst", "-inf"))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and (len(m) > 1 or c != 1 or (m and m[0][1] != 1)):
            r = log10(toP(c)) if c != 1 else ZERO
            for a, e in m:
                r = r + log10(toP(a) if a.kind != "poly" else a.args[0]) * e
            return r
    else:
        mono, lead = content(p)
        if mono:
            q = p * _monoP(mono_inv(mono))
            r = log10(q)
            for a, e in mono:
                r = r + log10(toP(a)) * e
            return r
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind == "sqrt":
                return log10(a.args[0]) * Fraction(1, 2)
            if a.kind == "exp10":
                return a.args[0]
    return toP(atom("log10", p))


def exp10(p):
    """10**p"""
    p = toP(p)
    if p.is_const():
        c = p.const()
        if isinstance(c, int) and abs(c) < 40:
            return toP(Fraction(10) ** c)
    # canonical sign: 10**(-q) = 1/10**q
    lead = min(p.t, key=lambda m: tuple((a.id, e) for a, e in m))
    if p.t[lead] < 0:
        return P({((atom("exp10", -p), -1),): 1})
    return toP(atom("exp10", p))


def absP(p):
    p = toP(p)
    if p.is_const():
        return toP(abs(p.const()))
    if p.is_int:
        return toP(atom("abs", _signnorm(p), is_int=True))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = toP(abs(c))
        rest = ONE
        for a, e in m:
            if a.kind in ("sqrt", "abs", "exp10", "ind") or (a.kind == "rsym" and a.args[1] == "pos"):
                out = out * _powP(a, e)
            else:
                rest = rest * _powP(a, e)
        if rest == ONE:
            return out
        return out * toP(atom("abs", _signnorm(rest)))
    return toP(atom("abs", _signnorm(p)))


def fn(name, *args, is_int=False):
    return toP(atom("fn", name, tuple(toP(a) for a in args), is_int=is_int))


def el(name, *idx):
    return toP(atom("el", name, tuple(toP(i) for i in idx)))


def rsym(name, sign=""):
    return toP(atom("rsym", name, sign))


def fdiv(p, k):
    p = toP(p)
    if isinstance(k, P):
        if not k.is_const():
            if p == k:
                return ONE
            # exact division of monomials
            q = p * inv(k)
            if q.is_int:
                return q
            return toP(atom("fdiv", p, k, is_int=True))
        k = k.const()
    if k == 1:
        return p
    q, r = {}, {}
    for m, c in p.t.items():
        a, b = divmod(c, k)
        if a:
            q[m] = a
        if b:
            r[m] = b
    Q, R = P(q), P(r)
    if R.is_const():
        return Q + R.const() // k
    return Q + toP(atom("fdiv", R, k, is_int=True))


def pmod(p, k):
    return toP(p) - fdiv(p, k) * toP(k)


def p2ceil(p):
    """smallest power of two >= p (p >= 1)"""
    p = toP(p)
    if p.is_const():
        return toP(1 << max(0, (p.const() - 1).bit_length()))
    return toP(atom("p2", p, is_int=True))


def clog2(p):
    p = toP(p)
    if p.is_const():
        return toP(max(0, (p.const() - 1).bit_length()))
    return toP(atom("clog2", p, is_int=True))


# aggregates over an index space: min / max of the selected elements, existence, ...
# ('agg', name, bound vars, conds (range + selection), body P)
def mk_agg(name, vs, conds, body, is_int=False):
    conds = list(conds)
    d = 1 + max(_depth(tuple(conds)), body.depth)
    cv = tuple(canon("_g", d, i) for i in range(len(vs)))
    mp = {v: toP(w) for v, w in zip(vs, cv)}
    return toP(
        atom("agg", name, cv, frozenset(ren(c, mp) for c in conds), ren(body, mp), bound=frozenset(cv), depth=d, is_int=is_int)
    )


def open_agg(a, f=lambda x: x):
    name, cv, conds, body = a.args
    fs = [fresh("g") for _ in cv]
    mp = {v: toP(w) for v, w in zip(cv, fs)}
    return mk_agg(name, fs, [f(ren(c, mp)) for c in conds], f(ren(body, mp)), is_int=a.is_int)


# ---------------------------------------------------------------- case analysis on conditions
def assume_cond(p, c):
    """simplify the top-level indicators of p knowing c"""
    nc = neg_cond(c)
    t = {}
    for m, k in p.t.items():
        m2 = []
        dead = False
        for a, e in m:
            if a.kind == "ind":
                if a.args[0] == c:
                    continue
                if a.args[0] == nc:
                    dead = True
                    break
            m2.append((a, e))
        if dead:
            continue
        m2 = tuple(m2)
        v = _nc(t.get(m2, 0) + k)
        if v == 0:
            t.pop(m2, None)
        else:
            t[m2] = v
    return P(t)


# ---------------------------------------------------------------- printing
def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])):
        s = "*".join(show_atom(a) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not m:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append("%s*%s" % (c, s))
    return " + ".join(out).replace("+ -", "- ")


def show_atom(a):
    k, g = a.kind, a.args
    if k == "v":
        return g[0]
    if k == "rsym":
        return g[0]
    if k == "I":
        return "i"
    if k == "fconst":
        return g[0]
    if k == "el":
        return "%s[%s]" % (g[0], ",".join(show(i) for i in g[1]))
    if k == "ind":
        return "[%r]" % g[0]
    if k == "sum":
        return "Sum{%s|%s}(%s)" % (",".join(v.args[0] for v in g[0]), ",".join(sorted(map(repr, g[1]))), show(g[2]))
    if k == "dft":
        return "DFT%s{n=%s,k=%s,%s|%s}(%s)" % ("*" if g[5] else "", show(g[0]), show(g[1]), g[2].args[0], ",".join(map(repr, g[3])), show(g[4]))
    if k == "solve":
        return "Solve{A=%s; b=%s}[%s]" % (show(g[3]), show(g[4]), ",".join(map(show, g[5])))
    if k == "poly":
        return "(%s)" % show(g[0])
    return "%s(%s)" % (k, ",".join(repr(y) for y in g))
