"""Symbolic arrays: semantics of the numpy / scipy.fft / torch operations used by the code."""
import itertools
import math as _math
from core import *
import core
from prove import Lam, Prover
from ex import *
import ex
from ex import ST, decide


def st():
    return ST[0]


# ---------------------------------------------------------------- dtypes
class DT:
    def __init__(self, lib, name):
        self.lib, self.name = lib, name

    def __eq__(self, o):
        if isinstance(o, DT):
            return self.name == o.name and self.lib == o.lib
        if isinstance(o, str):
            return self.name == o
        if o in (float, int, bool, complex):
            return self.name == _PYDT[o]
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name

    @property
    def kind(self):
        return {"b": "b", "i": "i", "f": "f", "c": "c"}[self.name[0]]

    @property
    def is_floating_point(self):
        return self.name.startswith("float")

    @property
    def is_complex(self):
        return self.name.startswith("complex")

    @property
    def itemsize(self):
        return {"float32": 4, "float64": 8, "complex64": 8, "complex128": 16, "int64": 8, "bool": 1}[self.name]

    @property
    def type(self):
        return self

    def __call__(self, x):
        # scalar constructor, np.float64(x)
        if isinstance(x, Tensor):
            return x.cast(self.name)
        r = const_tensor(NpTensor, toP(x), self.name)
        return r


_PYDT = {float: "float64", int: "int64", bool: "bool", complex: "complex128"}
_RANK = ["bool", "int64", "float32", "float64", "complex64", "complex128"]


def dtname(d):
    d = getattr(d, "BASE", d) if isinstance(d, type) else d
    if isinstance(d, DT):
        return d.name
    if d in (float, int, bool, complex):
        return _PYDT[d]
    if isinstance(d, str) and d in _RANK:
        return d
    raise Unsupported("dtype %r" % (d,))


def promote2(a, b, lib):
    if a == b:
        return a
    if a == "bool":
        return b
    if b == "bool":
        return a
    if lib == "np":
        s = {a, b}
        if "int64" in s:
            o = (s - {"int64"}).pop()
            return {"float32": "float64", "float64": "float64", "complex64": "complex128", "complex128": "complex128"}[o]
    else:
        if a == "int64":
            return b
        if b == "int64":
            return a
    wide = "float64" in (a, b) or "complex128" in (a, b)
    cplx = a.startswith("complex") or b.startswith("complex")
    if cplx:
        return "complex128" if wide else "complex64"
    return "float64" if wide else "float32"


def cat_of(name):
    return {"b": 0, "i": 1, "f": 2, "c": 3}[name[0]]


def real_of(name):
    return {"complex64": "float32", "complex128": "float64"}.get(name, name)


def cplx_of(name):
    return {"float32": "complex64", "float64": "complex128"}.get(name, name if name.startswith("complex") else "complex128")


def np1():
    return st().config.get("numpy", 1) == 1


def result_dtype(ops, lib):
    """ops: tensors and python scalars"""
    ts = [o for o in ops if isinstance(o, Tensor)]
    weak = 0
    for o in ops:
        if isinstance(o, Tensor):
            continue
        if isinstance(o, bool) or isinstance(o, SB):
            weak = max(weak, 0)
        elif isinstance(o, complex):
            weak = max(weak, 3)
        elif isinstance(o, int) or (isinstance(o, SV) and o.is_int):
            weak = max(weak, 1)
        else:
            weak = max(weak, 2)
    strong = None
    zero = None
    for t in ts:
        if t.ndim == 0 and (lib == "pt" or np1()):
            zero = t.dt if zero is None else promote2(zero, t.dt, lib)
        else:
            strong = t.dt if strong is None else promote2(strong, t.dt, lib)
    if strong is None:
        strong = zero
    elif zero is not None and cat_of(zero) > cat_of(strong):
        strong = promote2(strong, zero, lib)
    if strong is None:
        return {0: "bool", 1: "int64", 2: "float64", 3: "complex128"}[weak]
    if weak > cat_of(strong):
        if weak == 2:
            return "float64" if lib == "np" else "float32"
        if weak == 3:
            return cplx_of(strong) if cat_of(strong) == 2 else ("complex128" if lib == "np" else "complex64")
        return "int64"
    return strong


# ---------------------------------------------------------------- stores
class Store:
    _n = itertools.count()

    def __init__(self, dims, sv, body, protected=None):
        self.id = next(Store._n)
        self.dims = list(dims)
        self.sv = list(sv)
        self.body = body
        self.protected = protected
        self.created = len(st().loop_stores) if st() else 0
        self.log = []


def is_one(p):
    return p.is_const() and p.const() == 1


def mkaxis(*dims):
    return tuple(toP(d) for d in dims if not is_one(toP(d)))


def axsize(ax):
    r = ONE
    for d in ax:
        r = r * d
    return r


class Shape(tuple):
    def numel(self):
        r = 1
        for d in self:
            r = r * d
        return r

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return Shape(r) if isinstance(k, slice) else r

    def __add__(self, o):
        if isinstance(o, list):
            raise TypeError('can only concatenate tuple (not "list") to tuple')
        return Shape(tuple(self) + tuple(o))

    def __radd__(self, o):
        return Shape(tuple(o) + tuple(self))


def freshs(axes):
    return tuple(tuple(fresh("x") for _ in ax) for ax in axes)


_CV = []


def cvar(i):
    """canonical index variables, numbered from the last axis on: arrays of the same shape share them, so that
    elementwise operations need no renaming"""
    while len(_CV) <= i:
        _CV.append(fresh("x"))
    return _CV[i]


def canonical(axes):
    n = sum(len(ax) for ax in axes)
    out = []
    for ax in axes:
        out.append(tuple(cvar(n - 1 - k) for k in range(len(ax))))
        n -= len(ax)
    return tuple(out)


def Ps(idx):
    return [tuple(toP(v) for v in ax) for ax in idx]


def same(a, b):
    a, b = toP(a), toP(b)
    return a == b or st().ctx.entails(eqc(a, b))


class Tensor:
    LIB = None

    def __init__(self, store, axes, vv, vm, dt, grad=None):
        self.store, self.axes, self.vv, self.vm, self.dt = store, tuple(axes), tuple(vv), tuple(vm), dt
        # grad: None (constant), 'ok' (attached), 'cut' (part of the graph is lost)
        self.g = grad
        self._rg = grad is not None
        self.leaf = False

    # ------------------------------------------------ basics
    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return Shape(lift(axsize(ax)) for ax in self.axes)

    @property
    def dtype(self):
        return DT(self.LIB, self.dt)

    @property
    def size(self):
        if self.LIB == "np":
            return Shape(self.shape).numel()
        return lambda d=None: self.shape if d is None else self.shape[d]

    def numel(self):
        return Shape(self.shape).numel()

    def dim(self):
        return self.ndim

    @property
    def device(self):
        return "cpu"

    def at(self, idx):
        """element at a list of per-axis tuples of sub-indices"""
        s = self.store
        mp = {}
        for vs, i in zip(self.vv, idx):
            for v, p in zip(vs, i):
                mp[v] = toP(p)
        smp = {v: subst(e, mp) for v, e in zip(s.sv, self.vm)}
        full = smp
        smp = {v: e for v, e in smp.items() if e != toP(v)}
        if s.created < len(st().loop_stores):
            for lp in st().loop_stores[s.created:]:
                lp["reads"].setdefault(s, []).append(tuple(full[v] for v in s.sv))
        return subst(s.body, smp) if smp else s.body

    def full(self):
        """(index variables, value)"""
        vv = freshs(self.axes)
        return vv, self.at(Ps(vv))

    def like(self, axes, vv, body, dt=None, g="inherit"):
        g = self.g if g == "inherit" else g
        return mk(type(self), axes, vv, body, dt or self.dt, g)

    def copy_(self):
        vv, b = self.full()
        return self.like(self.axes, vv, b)

    def cast(self, name):
        if name == self.dt:
            return self
        vv, b = self.full()
        if self.dt.startswith("complex") and not name.startswith("complex"):
            b = realpart(b)
        if name == "bool":
            b = ind(neg_cond(eqc(b)))
        if name == "int64" and cat_of(self.dt) > 1:
            raise Unsupported("conversion of reals to integers")
        return self.like(self.axes, vv, b, dt=name, g=self.g if cat_of(name) >= 2 else None)

    def view(self, axes, vv, vm):
        r = type(self)(self.store, axes, vv, vm, self.dt, self.g)
        return r

    def axis(self, a):
        if isinstance(a, SV):
            raise Unsupported("symbolic axis")
        n = self.ndim
        if not -n <= a < n:
            raise IndexError("axis %d out of range" % a)
        return a % n

    # ------------------------------------------------ views
    def permuted(self, order):
        order = [self.axis(a) for a in order]
        if sorted(order) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        return self.view([self.axes[a] for a in order], [self.vv[a] for a in order], self.vm)

    def swap(self, a, b):
        o = list(range(self.ndim))
        a, b = self.axis(a), self.axis(b)
        o[a], o[b] = o[b], o[a]
        return self.permuted(o)

    def moved(self, a, b):
        a, b = self.axis(a), self.axis(b)
        o = [i for i in range(self.ndim) if i != a]
        o.insert(b, a)
        return self.permuted(o)

    def flipped(self, axs):
        vm = list(self.vm)
        mp = {}
        for a in axs:
            a = self.axis(a)
            for v, d in zip(self.vv[a], self.axes[a]):
                mp[v] = d - 1 - toP(v)
        return self.view(self.axes, self.vv, [subst(e, mp) for e in vm])

    def diag(self, offset=0, d1=0, d2=1):
        if offset != 0:
            raise Unsupported("diagonal offset")
        d1, d2 = self.axis(d1), self.axis(d2)
        A, B = self.axes[d1], self.axes[d2]
        if len(A) > 1 or len(B) > 1:
            raise Unsupported("diagonal of merged axes")
        n1, n2 = axsize(A), axsize(B)
        if same(n1, n2):
            n = n1
        else:
            n = n1 if decide(le(n1, n2)) else n2
        ax = mkaxis(n)
        if not ax:
            ax, nv, p = (), (), ZERO
        else:
            v = fresh("x")
            nv, p = (v,), toP(v)
        mp = {}
        for q in list(self.vv[d1]) + list(self.vv[d2]):
            mp[q] = p
        keep = [a for a in range(self.ndim) if a not in (d1, d2)]
        return self.view(
            [self.axes[a] for a in keep] + [ax], [self.vv[a] for a in keep] + [nv], [subst(e, mp) for e in self.vm]
        )

    def reshaped(self, shape):
        shape = list(shape)
        src = []
        for ax, vs in zip(self.axes, self.vv):
            src += list(zip(ax, vs))
        total = ONE
        for d, _ in src:
            total = total * d
        n_auto = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1]
        if len(n_auto) > 1:
            raise ValueError("can only specify one unknown dimension")
        tg = [None if i in n_auto else toP(d) for i, d in enumerate(shape)]
        # match from the left, then from the right
        left = list(src)
        mp = {}
        res = [None] * len(tg)

        def take(d, seq, right):
            """take sub-dims from one end whose product is d"""
            if is_one(d) or same(d, ONE) and not (seq and same(seq[-1 if right else 0][0], d)):
                return ()
            acc = []
            prod = ONE
            while True:
                if same(prod, d) and acc:
                    return tuple(acc)
                if not seq:
                    raise Unsupported("reshape")
                x = seq.pop(-1 if right else 0)
                # split of a single sub-dimension
                newp = prod * x[0]
                if not same(newp, d) and len(acc) == 0:
                    q = divide(x[0], d)
                    if q is not None and not is_one(q) and not same(q, ONE):
                        a, b = fresh("x"), fresh("x")
                        if right:
                            mp[x[1]] = toP(a) * d + toP(b)
                            seq.append((q, a))
                            return ((d, b),)
                        mp[x[1]] = toP(a) * q + toP(b)
                        seq.insert(0, (q, b))
                        return ((d, a),)
                acc = [x] + acc if right else acc + [x]
                prod = newp
                if len(acc) > 8:
                    raise Unsupported("reshape")

        stop = n_auto[0] if n_auto else len(tg)
        for i in range(stop):
            res[i] = take(tg[i], left, False)
        for i in range(len(tg) - 1, stop, -1):
            res[i] = take(tg[i], left, True)
        if n_auto:
            res[stop] = tuple(left)
        else:
            for d, _ in left:
                if not same(d, ONE):
                    raise ValueError("cannot reshape")
                
        axes = [tuple(d for d, _ in r) for r in res]
        vv = [tuple(v for _, v in r) for r in res]
        # substitution of split variables (possibly nested)
        vm = list(self.vm)
        for _ in range(4):
            vm = [subst(e, mp) for e in vm]
        ident = self.is_whole()
        r = self.view(axes, vv, vm)
        if ident or self.store.protected:
            return r
        return r.copy_()

    def is_whole(self):
        """covers its store in order"""
        flat = [v for vs in self.vv for v in vs]
        return [toP(v) for v in flat] == [e for e in self.vm] and len(flat) == len(self.store.sv)

    def newaxis(self, pos):
        axes, vv = list(self.axes), list(self.vv)
        axes.insert(pos, ())
        vv.insert(pos, ())
        return self.view(axes, vv, self.vm)

    def squeezed(self, a):
        a = self.axis(a)
        if self.axes[a] and not same(axsize(self.axes[a]), ONE):
            if self.LIB == "pt" and not decide(eqc(axsize(self.axes[a]), 1)):
                return self
            if self.LIB == "np":
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
        return self.select(a, ZERO)

    def select(self, a, p):
        """fix axis a to index p (a P)"""
        ax = self.axes[a]
        mp = {}
        if len(ax) == 1:
            mp[self.vv[a][0]] = p
        elif len(ax) > 1:
            q = p
            if p.is_zero():
                for v in self.vv[a]:
                    mp[v] = ZERO
            else:
                raise Unsupported("integer index into a merged axis")
        axes, vv = list(self.axes), list(self.vv)
        del axes[a], vv[a]
        return self.view(axes, vv, [subst(e, mp) for e in self.vm])

    def expand_to(self, axes_new):
        """broadcast view onto the given axes (sub-dimension structure)"""
        k = len(axes_new) - self.ndim
        vv = []
        mp = {}
        for i, ax in enumerate(axes_new):
            nv = tuple(fresh("x") for _ in ax)
            vv.append(nv)
            if i >= k:
                mine, mv = self.axes[i - k], self.vv[i - k]
                if not mine:
                    continue
                for v, p in zip(mv, conv_index(mine, ax, Ps([nv])[0])):
                    mp[v] = p
        return self.view(axes_new, vv, [subst(e, mp) for e in self.vm])

    # ------------------------------------------------ writes
    def write(self, value, cond=None):
        """assign value (tensor or scalar, broadcast) into this view"""
        s = self.store
        S = st()
        if s.protected is not None:
            S.writes.append((s.protected, S.ctx))
        if isinstance(value, Tensor):
            if value.ndim > self.ndim:
                ok = all(not a for a in value.axes[: value.ndim - self.ndim])
                if not ok:
                    raise ValueError("could not broadcast input array")
                while value.ndim > self.ndim:
                    value = value.select(0, ZERO)
            vv = freshs(self.axes)
            k = self.ndim - value.ndim
            idx = []
            for i in range(value.ndim):
                ax, tx = value.axes[i], self.axes[k + i]
                if not ax:
                    idx.append(())
                elif same_axis(ax, tx):
                    idx.append(conv_index(ax, tx, Ps([vv[k + i]])[0]))
                elif len(ax) == 1 and (same(ax[0], ONE) or (not st().ctx.entails(eqc(axsize(ax), axsize(tx))) and not decide(eqc(axsize(ax), axsize(tx))))):
                    if not decide(eqc(ax[0], 1)):
                        raise ValueError("could not broadcast input array")
                    idx.append((ZERO,))
                else:
                    idx.append(conv_index(ax, tx, Ps([vv[k + i]])[0]))
            val = value.at(idx)
            if value.dt.startswith("complex") and not self.dt.startswith("complex"):
                val = realpart(val)
            vdt, vg = value.dt, value.g
        else:
            vv = freshs(self.axes)
            if isinstance(value, SB):
                val = ind(value.c)
            elif isinstance(value, bool):
                val = toP(int(value))
            elif isinstance(value, (list, tuple)):
                raise Unsupported("assignment of a list")
            else:
                val = toP(value)
            vg = None
        if self.dt == "int64" and not val.is_int:
            raise Unsupported("reals written into integers")
        if self.dt == "bool" and not (isinstance(value, Tensor) and value.dt == "bool") and not val.is_const():
            val = ind(neg_cond(eqc(val)))
        if cond is not None:
            cvv, cb = cond
            cb = subst(cb, {a: toP(b) for x, y in zip(cvv, vv) for a, b in zip(x, y)})
            extra = [cond_of(cb)]
        else:
            extra = []
        # invert the view map
        mp = {}
        eqs = []
        for sv, e in zip(s.sv, self.vm):
            m2 = {o: toP(n) for x, y in zip(self.vv, vv) for o, n in zip(x, y)}
            eqs.append((sv, subst(e, m2)))
        todo = [(v, d) for vs, ax in zip(vv, self.axes) for v, d in zip(vs, ax)]
        sol = {}
        used = set()
        prog = True
        while prog:
            prog = False
            for v, d in todo:
                if v in sol:
                    continue
                for i, (sv, e) in enumerate(eqs):
                    if i in used:
                        continue
                    e2 = subst(e, sol)
                    un = [w for w, _ in todo if w in e2.fv]
                    if un == [v]:
                        k = core._lin(e2, v)
                        if k in (1, -1):
                            sol[v] = (toP(sv) - e2 + toP(v) * k) * k
                            used.add(i)
                            prog = True
                            break
        if len(sol) < len(todo):
            # variables which do not select a position (broadcast target)
            raise Unsupported("assignment through a view that is not injective")
        guards = []
        for i, (sv, e) in enumerate(eqs):
            if i not in used:
                guards.append(eqc(toP(sv), subst(e, sol)))
        own = set()
        for sv, d in zip(s.sv, s.dims):
            own |= set(rng(sv, d))
        for v, d in todo:
            for c in rng(sol[v], d):
                if c not in own:
                    guards.append(c)
        guards += [subst(c, sol) for c in extra]
        val = subst(val, sol)
        self._commit(guards, val)
        self._gradwrite(vg)

    def _gradwrite(self, vg):
        if self.LIB == "pt" and cat_of(self.dt) >= 2:
            if st().no_grad and vg is not None:
                vg = "cut"
            g = gmerge(self.g, vg)
            self.store_g(g)

    def store_g(self, g):
        self.g = g
        s = self.store
        s.g = g

    def _commit(self, guards, val):
        s = self.store
        s.body = layer(guards, val, s.body)
        for lp in st().loop_stores[s.created:]:
            lp["writes"].setdefault(s, []).append((list(guards), val))

    # ------------------------------------------------ indexing
    def _parse(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        used = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, Tensor) and k.dt == "bool":
                used += k.ndim
            elif isinstance(k, BMask):
                used += k.ndim
            else:
                used += 1
        if used > self.ndim:
            raise IndexError("too many indices for array")
        ne = sum(1 for k in key if k is Ellipsis)
        if ne > 1:
            raise IndexError("an index can only have a single ellipsis")
        fill = [slice(None)] * (self.ndim - used)
        if ne:
            i = next(i for i, k in enumerate(key) if k is Ellipsis)
            key = key[:i] + fill + key[i + 1 :]
        else:
            key = key + fill
        return key

    def index(self, key):
        """returns ('view', tensor) or ('copy', tensor-with-affine-map)"""
        key = self._parse(key)
        key = [intvec(k, self) for k in key]
        adv = [k for k in key if isinstance(k, (Tensor,))]
        # step 1: basic part
        t = self
        pos = 0
        advpos = []
        advs = []
        have_adv = bool(adv)
        for k in key:
            if k is None:
                t = t.newaxis(pos)
                pos += 1
            elif isinstance(k, slice):
                t = t.sliced(pos, k)
                pos += 1
            elif isinstance(k, Tensor):
                if k.dt == "bool":
                    raise Unsupported("boolean mask combined with other indices")
                advpos.append(pos)
                advs.append(k)
                pos += 1
            elif isinstance(k, (int, SV)):
                p = toP(k)
                if have_adv and self.LIB == "np":
                    advpos.append(pos)
                    advs.append(p)
                    pos += 1
                    t = t.check_int(pos - 1, p, advs)
                else:
                    t = t.pick(pos, p)
            else:
                raise Unsupported("index of type %s" % type(k).__name__)
        if not have_adv:
            return "view", t
        # broadcast the index arrays
        ts = [k for k in advs if isinstance(k, Tensor)]
        baxes = broadcast_axes(ts)
        bv = freshs(baxes)
        vals = []
        for k, a in zip(advs, advpos):
            if isinstance(k, Tensor):
                vals.append(read_bc(k, baxes, bv))
            else:
                vals.append(k)
        # in-range, negative values
        for j, (a, p) in enumerate(zip(advpos, vals)):
            n = axsize(t.axes[a])
            if len(t.axes[a]) > 1:
                raise Unsupported("index array into a merged axis")
            cx = st().ctx
            for ax, vs in zip(baxes, bv):
                for v, d in zip(vs, ax):
                    cx = cx.plus(*rng(v, d))
            if cx.entails(ge(p)):
                pass
            elif cx.entails(lt(p, ZERO)):
                p = p + n
            else:
                p = ite(ge(p), p, p + n)
            if not (cx.entails(lt(p, n)) and cx.entails(ge(p))):
                st().obl.append(("index arrays stay in bounds", False, "%s < %s" % (show(p), show(n))))
            vals[j] = p
        contiguous = advpos == list(range(advpos[0], advpos[0] + len(advpos)))
        axes, vv = [], []
        for a in range(t.ndim):
            if a in advpos:
                continue
            axes.append(t.axes[a])
            vv.append(t.vv[a])
        where = advpos[0] if contiguous else 0
        axes[where:where] = list(baxes)
        vv[where:where] = list(bv)
        # an index with a case distinction (absolute value, maximum, ...): one reading per case
        cases = [((), ())]
        for p in vals:
            cases = [(cs + c2, ps + (q,)) for cs, ps in cases for c2, q in split_index(p)]
        out = []
        for cs, ps in cases:
            mp = {}
            for a, p in zip(advpos, ps):
                for v in t.vv[a]:
                    mp[v] = p
            out.append((cs, t.view(axes, vv, [subst(e, mp) for e in t.vm])))
        if len(out) == 1:
            return "copy", out[0][1]
        body = ZERO
        for cs, w in out:
            body = body + conj_ind(cs) * w.at(Ps(vv))
        return "cases", t.like(axes, vv, body)

    def check_int(self, a, p, advs):
        n = axsize(self.axes[a])
        if st().ctx.entails(lt(p, ZERO)) or (not st().ctx.entails(ge(p)) and not decide(ge(p))):
            p = p + n
            advs[-1] = p
        if not decide(ge(p)) or not decide(lt(p, n)):
            raise IndexError("index out of bounds")
        return self

    def pick(self, a, p):
        n = axsize(self.axes[a])
        if not self.axes[a]:
            if p.is_const() and p.const() in (0, -1):
                return self.select(a, ZERO)
        if not decide(ge(p)):
            p = p + n
        if not decide(ge(p)) or not decide(lt(p, n)):
            raise IndexError("index out of bounds")
        return self.select(a, p)

    def sliced(self, a, k):
        if k.start is None and k.stop is None and k.step is None:
            return self
        n = axsize(self.axes[a])
        step = 1 if k.step is None else k.step
        if isinstance(step, SV) or not isinstance(step, int):
            raise Unsupported("symbolic slice step")
        if step < 0 and self.LIB == "pt":
            raise ValueError("step must be greater than zero")
        if step == 0:
            raise ValueError("slice step cannot be zero")

        def norm(x, lo, hi):
            """python clamping"""
            p = toP(x)
            if not p.is_int:
                raise TypeError("slice indices must be integers or None")
            if not decide(ge(p)):
                p = p + n
                if not decide(ge(p, lo)):
                    p = toP(lo)
                return p
            if not decide(le(p, hi)):
                p = hi
            return p

        if step > 0:
            s = ZERO if k.start is None else norm(k.start, ZERO, n)
            e = n if k.stop is None else norm(k.stop, ZERO, n)
            ln = e - s
        else:
            s = n - 1 if k.start is None else norm(k.start, toP(-1), n - 1)
            e = toP(-1) if k.stop is None else norm(k.stop, toP(-1), n - 1)
            ln = s - e
        if abs(step) != 1:
            ln = -fdiv(-ln, abs(step))
        if not decide(ge(ln)):
            ln = ZERO
        if ln == n and s.is_zero() and step == 1:
            return self
        if len(self.axes[a]) > 1:
            if step == -1 and ln == n:
                return self.flipped([a])
            if same(ln, n) and same(s, ZERO) and step == 1:
                return self
            raise Unsupported("slice of a merged axis")
        ax = mkaxis(ln)
        if not self.axes[a]:
            if is_one(ln):
                return self
            ax = (ln,)
            nv = (fresh("x"),)
            axes, vv = list(self.axes), list(self.vv)
            axes[a], vv[a] = ax, nv
            return self.view(axes, vv, self.vm)
        old = self.vv[a][0]
        if ax:
            v = fresh("x")
            nv, p = (v,), s + toP(v) * step
        else:
            nv, p = (), s
        axes, vv = list(self.axes), list(self.vv)
        axes[a], vv[a] = ax, nv
        return self.view(axes, vv, [subst(x, {old: p}) for x in self.vm])

    def __getitem__(self, key):
        m = as_mask(key)
        if m is not None:
            return self.masked(m)
        kind, t = self.index(key)
        if kind == "view":
            return t
        t2 = t.copy_()
        if self.g is not None:
            t2.g = self.g
        return t2

    def __setitem__(self, key, value):
        m = as_mask(key)
        if m is not None:
            if m.ndim != self.ndim:
                raise Unsupported("partial boolean mask")
            if isinstance(value, Tensor) and value.ndim > 0:
                raise Unsupported("array assigned through a mask")
            vv = freshs(self.axes)
            b = m.at(Ps(vv))
            self.write(value, cond=(vv, b))
            return
        kind, t = self.index(key)
        if kind == "cases":
            raise Unsupported("assignment to indices with case distinctions")
        t.write(value)
        if self.LIB == "pt":
            self.g = t.g

    def masked(self, m):
        if m.ndim != self.ndim:
            raise Unsupported("partial boolean mask")
        vv = freshs(self.axes)
        return Selection(self, vv, self.at(Ps(vv)), m.at(Ps(vv)))

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len() through the C API")

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = axsize(self.axes[0])
        if n.is_const():
            return iter([self.pick(0, toP(i)) for i in range(n.const())])
        raise Unsupported("iteration over an array of symbolic length")

    # ------------------------------------------------ arithmetic
    def _bin(self, o, f, dt=None, div=False):
        if not isinstance(o, Tensor) and not scal(o) and not isinstance(o, (SV, SB)):
            return NotImplemented
        return elementwise(type(self), [self, o], f, dt=dt, div=div)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if self.dt == "bool" and isinstance(o, Tensor) and o.dt == "bool":
            return self._bin(o, lambda a, b: a * b)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a * inv(b), div=True)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b * inv(a), div=True)

    def __pow__(self, o):
        if isinstance(o, (int, float)):
            return elementwise(type(self), [self], lambda a: a ** o, dt=(None if isinstance(o, int) or cat_of(self.dt) >= 2 else "float64"))
        raise Unsupported("power")

    def __neg__(self):
        return elementwise(type(self), [self], lambda a: -a)

    def __pos__(self):
        return self

    def __abs__(self):
        return elementwise(type(self), [self], cabs, dt=real_of(self.dt))

    def __matmul__(self, o):
        if not isinstance(o, Tensor):
            return NotImplemented
        return matmul(self, o)

    def _inplace(self, o, f):
        r = self._bin(o, f)
        if r is NotImplemented:
            return r
        if self.dt == "int64" and r.dt != "int64":
            if self.LIB == "np":
                raise TypeError("Cannot cast ufunc output from float64 to int64")
            raise RuntimeError("result type Float can't be cast to Long")
        if self._rg and self.leaf and not st().no_grad and not st().nograd_env:
            if self.store.protected:
                st().writes.append((self.store.protected, st().ctx))
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation")
        if r.ndim > self.ndim:
            raise ValueError("non-broadcastable output operand")
        self.write(r)
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._inplace(o, lambda a, b: a * inv(b))

    def _cmp(self, o, f):
        return self._bin(o, lambda a, b: ind(f(a, b)), dt="bool")

    def __lt__(self, o):
        return self._cmp(o, lt)

    def __le__(self, o):
        return self._cmp(o, le)

    def __gt__(self, o):
        return self._cmp(o, gt)

    def __ge__(self, o):
        return self._cmp(o, ge)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, eqc)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: neg_cond(eqc(a, b)))

    __hash__ = object.__hash__

    def __invert__(self):
        if self.dt != "bool":
            raise Unsupported("bitwise operation")
        return elementwise(type(self), [self], lambda a: ONE - a if a.is_const() else ind(neg_cond(cond_of(a))))

    def __and__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __or__(self, o):
        return self._bin(o, lambda a, b: a + b - a * b)

    def _cond0(self):
        if self.ndim and not all(not a for a in self.axes):
            raise Unsupported("truth value of an array")
        v = self.at([()] * self.ndim)
        if self.dt == "bool":
            return cond_of(v)
        return neg_cond(eqc(v))

    def __bool__(self):
        return decide(self._cond0())

    def __float__(self):
        raise Unsupported("float() of an array")

    def __int__(self):
        raise Unsupported("int() of an array")

    def __index__(self):
        raise Unsupported("array used as an index")

    def item(self):
        if any(a for a in self.axes):
            raise ValueError("only one element tensors can be converted to Python scalars")
        v = self.at([()] * self.ndim)
        if self.dt == "bool":
            return mkbool(cond_of(v))
        return lift(v)

    # ------------------------------------------------ common methods
    @property
    def real(self):
        return elementwise(type(self), [self], realpart, dt=real_of(self.dt))

    @property
    def imag(self):
        return elementwise(type(self), [self], imagpart, dt=real_of(self.dt))

    def conj(self):
        return elementwise(type(self), [self], conj)

    def abs(self):
        return abs(self)

    def square(self):
        return self * self

    def sqrt(self):
        return elementwise(type(self), [self], sqrt, fl=True)

    def log10(self):
        return elementwise(type(self), [self], log10, fl=True)

    def pow(self, e):
        return self ** e

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = s[0]
        return self.reshaped(s)

    def clamp(self, min=None, max=None):
        return clamp(self, min, max)

    def _acc(self, dtype):
        """the accumulator has the type of the array"""
        if dtype is not None and DT(dtype) != self.dt:
            raise Unsupported("sum in another type")

    def sum(self, axis=None, keepdims=False, dim=None, keepdim=False, dtype=None):
        self._acc(dtype)
        return reduce_(self, "sum", axis if dim is None else dim, keepdims or keepdim)

    def mean(self, axis=None, keepdims=False, dim=None, keepdim=False, dtype=None):
        self._acc(dtype)
        return reduce_(self, "mean", axis if dim is None else dim, keepdims or keepdim)

    def any(self, axis=None, keepdims=False, dim=None, keepdim=False):
        return reduce_(self, "any", axis if dim is None else dim, keepdims or keepdim)

    def all(self, axis=None, keepdims=False, dim=None, keepdim=False):
        return reduce_(self, "all", axis if dim is None else dim, keepdims or keepdim)

    def min(self, axis=None, keepdims=False, dim=None, keepdim=False):
        ax = axis if dim is None else dim
        r = reduce_(self, "min", ax, keepdims or keepdim)
        return MinMax(r) if self.LIB == "pt" and ax is not None else r

    def max(self, axis=None, keepdims=False, dim=None, keepdim=False):
        ax = axis if dim is None else dim
        r = reduce_(self, "max", ax, keepdims or keepdim)
        return MinMax(r) if self.LIB == "pt" and ax is not None else r

    def fill_(self, v):
        self.write(v)
        return self

    def tolist(self):
        raise Unsupported("tolist")

    def swapaxes(self, a, b):
        return self.swap(a, b)

    def squeeze(self, a=None, axis=None, dim=None):
        a = a if a is not None else (axis if axis is not None else dim)
        if a is None:
            raise Unsupported("squeeze of all the axes")
        return self.squeezed(a)

    def ravel(self):
        return self.reshaped([-1])

    def flatten(self, *a, start_dim=0, end_dim=-1):
        if self.LIB != "pt":
            if a not in ((), ("C",)):
                raise Unsupported("flatten in another order")
            return self.reshaped([-1]).copy_()
        n = self.ndim
        s, e = (tuple(a) + (start_dim, end_dim)[len(a):])[:2]
        if not (isinstance(s, int) and isinstance(e, int)) or n == 0:
            raise Unsupported("flatten")
        if not (-n <= s < n and -n <= e < n):
            raise IndexError("Dimension out of range")
        s, e = s % n, e % n
        if s > e:
            raise RuntimeError("flatten() has invalid args: start_dim cannot come after end_dim")
        sh = list(self.shape)
        d = sh[s]
        for x in sh[s + 1 : e + 1]:
            d = d * x
        return self.reshaped(sh[:s] + [d] + sh[e + 1 :])

    @property
    def T(self):
        return self.permuted(list(range(self.ndim))[::-1])

    @property
    def mT(self):
        return self.swap(-1, -2)

    def __format__(self, spec):
        return "<array>"

    def __repr__(self):
        return "<%s %s %s>" % (type(self).__name__, self.dt, [show(axsize(a)) for a in self.axes])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("method %s of an array" % name)


class MinMax:
    def __init__(self, v):
        self.values = v

    @property
    def indices(self):
        raise Unsupported("argmin")

    def __iter__(self):
        raise Unsupported("unpacking of a min")

    def __getitem__(self, i):
        if i == 0:
            return self.values
        raise Unsupported("argmin")


class NpTensor(Tensor):
    LIB = "np"

    def copy(self, order=None):
        return self.copy_()

    def astype(self, dt, copy=True):
        n = dtname(dt)
        if n == self.dt:
            return self.copy_() if copy else self
        return self.cast(n)

    def transpose(self, *axes):
        if not axes:
            return self.T
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        return self.permuted(axes)

    @property
    def strides(self):
        return strides_of(self)

    def diagonal(self, offset=0, axis1=0, axis2=1):
        return self.diag(offset, axis1, axis2)

    def conjugate(self):
        return self.conj()

    def clip(self, min=None, max=None):
        return clamp(self, min, max)

    def dot(self, o):
        return matmul(self, o)

    def view(self, *a, **k):
        if len(a) == 3:
            return Tensor.view(self, *a)
        raise Unsupported("ndarray.view")


def grad_mode(name="the caller tracks gradients"):
    """the mode in which the caller runs is arbitrary; without gradients nothing is required of them"""
    s = st()
    if s.no_grad and name.endswith("gradients"):
        return False
    r = s.decide(pred(name))
    if not r:
        s.nograd_env = True
    return r


class PtTensor(Tensor):
    LIB = "pt"

    @property
    def requires_grad(self):
        return self._rg and grad_mode("the arguments require a gradient")

    @requires_grad.setter
    def requires_grad(self, v):
        self._rg = bool(v)

    def requires_grad_(self, v=True):
        self._rg = bool(v)
        return self

    def view(self, *a, **k):
        if len(a) == 3 and isinstance(a[2], (list, tuple)):
            r = Tensor.view(self, *a)
            if st().no_grad and r.g == "ok":
                r.g = "cut"
            return r
        if len(a) == 1 and isinstance(a[0], (tuple, list)):
            a = a[0]
        return self.reshaped(a)

    def transpose(self, a, b):
        return self.swap(a, b)

    def permute(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        return self.permuted(axes)

    def stride(self, *a):
        s = strides_of(self)
        return s if not a else s[a[0]]

    def flip(self, *dims, **k):
        dims = k.get("dims", dims)
        if isinstance(dims, int):
            dims = (dims,)
        if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
            dims = dims[0]
        return self.flipped(dims).copy_()

    def new_zeros(self, *shape, dtype=None, device=None, requires_grad=False):
        return full_(PtTensor, shape_arg(shape), ZERO, dtname(dtype) if dtype is not None else self.dt)

    def new_ones(self, *shape, dtype=None, device=None):
        return full_(PtTensor, shape_arg(shape), ONE, dtname(dtype) if dtype is not None else self.dt)

    def new_empty(self, *shape, dtype=None, device=None):
        return full_(PtTensor, shape_arg(shape), None, dtname(dtype) if dtype is not None else self.dt)

    def new_full(self, shape, v, dtype=None, device=None):
        return full_(PtTensor, tuple(shape), toP(v), dtname(dtype) if dtype is not None else self.dt)

    def clone(self, **k):
        return self.copy_()

    def contiguous(self):
        return self if self.is_whole() else self.copy_()

    def detach(self):
        r = Tensor.view(self, self.axes, self.vv, self.vm)
        r.g = "cut" if self.g is not None else None
        r._rg = False
        r.leaf = False
        return r

    @property
    def data(self):
        return self.detach()

    def numpy(self):
        raise Unsupported("conversion to numpy")

    def cpu(self):
        return self

    def to(self, *a, **k):
        d = k.get("dtype", None)
        for x in a:
            if isinstance(x, DT):
                d = x
            elif isinstance(x, Tensor):
                d = x.dtype
        return self if d is None else self.cast(dtname(d))

    def type(self, d):
        return self.cast(dtname(d))

    def type_as(self, o):
        return self.cast(o.dt)

    def float(self):
        return self.cast("float32")

    def double(self):
        return self.cast("float64")

    def long(self):
        return self.cast("int64")

    def bool(self):
        return self.cast("bool")

    def norm(self, p=None, dim=None, keepdim=False):
        return norm(self, p, dim, keepdim)

    def unsqueeze(self, a):
        n = self.ndim + 1
        return self.newaxis(a % n)

    def diagonal(self, offset=0, dim1=0, dim2=1):
        return self.diag(offset, dim1, dim2)

    def expand(self, *s):
        return bc_to(self, shape_arg(s))

    def expand_as(self, o):
        return bc_to(self, o.shape)

    def repeat(self, *s):
        raise Unsupported("repeat")

    def unfold(self, dim, size, step):
        if step != 1:
            raise Unsupported("unfold with a step")
        return sliding(self, size, dim, at_end=True)

    def movedim(self, a, b):
        return self.moved(a, b)

    def is_complex(self):
        return self.dt.startswith("complex")

    def is_floating_point(self):
        return self.dt.startswith("float")

    def add_(self, o, alpha=1):
        return self._inplace(o, lambda a, b: a + b * alpha)

    def sub_(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def mul_(self, o):
        return self._inplace(o, lambda a, b: a * b)

    def div_(self, o):
        return self._inplace(o, lambda a, b: a * inv(b))

    def clamp_(self, min=None, max=None):
        self.write(clamp(self, min, max))
        return self

    def clamp_min(self, m):
        return clamp(self, m, None)

    def clamp_max(self, m):
        return clamp(self, None, m)

    def masked_fill(self, m, v):
        r = self.copy_()
        r[m] = v
        return r

    def masked_fill_(self, m, v):
        self[m] = v
        return self

    def gather(self, dim, index):
        return take_along(self, index, dim)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def nonzero(self, as_tuple=False):
        raise Unsupported("nonzero")


class Selection:
    """1-d array of the elements selected by a boolean mask"""

    def __init__(self, src, vv, body, mask):
        self.src, self.vv, self.body, self.mask = src, vv, body, mask
        self.LIB = src.LIB

    def _conds(self):
        c = []
        for ax, vs in zip(self.src.axes, self.vv):
            for v, d in zip(vs, ax):
                c += rng(v, d)
        c.append(cond_of(self.mask))
        return c

    def _agg(self, name):
        vs = [v for x in self.vv for v in x]
        return scalar_tensor(type(self.src), mk_agg(name, vs, self._conds(), self.body), self.src.dt, self.src.g)

    def min(self):
        return self._agg("min")

    def max(self):
        return self._agg("max")

    def count(self):
        vs = [v for x in self.vv for v in x]
        return mk_agg("count", vs, self._conds(), ONE, is_int=True)

    @property
    def shape(self):
        return Shape((SV(self.count()),))

    @property
    def size(self):
        return SV(self.count())

    def numel(self):
        return SV(self.count())

    def __getattr__(self, name):
        raise Unsupported("%s of a selection" % name)


class BMask:
    pass


def as_mask(key):
    if isinstance(key, tuple) and len(key) == 1:
        key = key[0]
    if isinstance(key, tuple) and len(key) == 2 and key[0] is Ellipsis and isinstance(key[1], Tensor) and key[1].dt == "bool":
        return None
    if isinstance(key, Tensor) and key.dt == "bool":
        return key
    return None


def gmerge(*gs):
    gs = [g for g in gs if g is not None]
    if "cut" in gs:
        return "cut"
    return "ok" if gs else None


# ---------------------------------------------------------------- helpers
def cond_of(b):
    """P in {0,1} -> condition"""
    if b.is_const():
        return TRUE if b.const() != 0 else FALSE
    if len(b.t) == 1:
        (m, c), = b.t.items()
        if c == 1 and all(a.kind == "ind" for a, _ in m):
            return and_(*[a.args[0] for a, _ in m])
    return ge(b, 1) if b.is_int else gt(b, Fraction(1, 2))


def layer(guards, val, old):
    r = val
    for g in reversed(guards):
        r = ite(g, r, old)
    return r


def divide(p, d):
    """exact polynomial quotient p/d by a monomial, or None"""
    if p == d:
        return ONE
    if len(d.t) != 1:
        q = None
        # try a small multiple
        for k in (2, 3, 4):
            if p == d * k:
                return toP(k)
        return q
    q = p * inv(d)
    return q if q.is_int else None


def mk(cls, axes, vv, body, dt, g=None):
    """array from index variables and value"""
    axes = tuple(tuple(a) for a in axes)
    if cls is PtTensor and cat_of(dt) < 2:
        g = None
    if cls is NpTensor:
        g = None
    if cls is PtTensor and g is not None and st().no_grad:
        g = "cut"
    dims = [d for ax in axes for d in ax]
    nv = canonical(axes)
    sv = [v for vs in nv for v in vs]
    flat = [v for vs in vv for v in vs]
    mp = {v: toP(w) for v, w in zip(flat, sv) if v is not w}
    if mp:
        body = subst(body, mp)
    s = Store(dims, sv, body)
    return cls(s, axes, nv, [toP(v) for vs in nv for v in vs], dt, g)


def const_tensor(cls, p, dt):
    return mk(cls, (), (), toP(p), dt)


def scalar_tensor(cls, p, dt, g=None):
    return mk(cls, (), (), p, dt, g)


def input_tensor(cls, name, axes, dt, grad=None, protected=True, f=None):
    axes = tuple(tuple(a) for a in axes)
    vv = freshs(axes)
    idx = [toP(v) for vs in vv for v in vs]
    t = mk(cls, axes, vv, el(name, *idx) if f is None else f(*Ps(vv)), dt, None)
    t.g = grad
    t._rg = grad is not None
    t.leaf = True
    if protected:
        t.store.protected = name
    return t


def shape_arg(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = s[0]
    return tuple(s)


def axes_of_shape(shape):
    if isinstance(shape, (int, SV)):
        shape = (shape,)
    axes = []
    for d in shape:
        p = toP(d)
        if not p.is_int:
            raise TypeError("expected an integer size")
        if not st().ctx.entails(ge(p)) and not decide(ge(p)):
            raise ValueError("negative dimensions are not allowed")
        axes.append(mkaxis(p))
    return axes


def full_(cls, shape, val, dt):
    axes = axes_of_shape(shape)
    vv = freshs(axes)
    if val is None:
        # uninitialised memory
        val = el("uninit~%d" % next(Store._n), *[toP(v) for vs in vv for v in vs])
    return mk(cls, axes, vv, val, dt)


def full_like(t, val, shape=None, dt=None):
    if shape is not None:
        return full_(type(t), shape, val, dt or t.dt)
    vv = freshs(t.axes)
    if val is None:
        val = el("uninit~%d" % next(Store._n), *[toP(v) for vs in vv for v in vs])
    return mk(type(t), t.axes, vv, val, dt or t.dt)


def same_axis(a, b):
    if a == b:
        return True
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def conv_index(mine, other, idx):
    """index in structure `mine` for an index given in the structure `other`"""
    if not mine:
        return ()
    if len(mine) == len(other) and all(same(x, y) for x, y in zip(mine, other)):
        return tuple(idx)
    if len(mine) == 1 and len(other) > 1:
        # row-major
        p = idx[0]
        for d, i in zip(other[1:], idx[1:]):
            p = p * d + i
        return (p,)
    if len(mine) == 1 and len(other) == 1:
        return tuple(idx)
    if len(mine) == 1 and len(other) == 0:
        return (ZERO,)
    if len(other) == 0:
        return tuple(ZERO for _ in mine)
    raise Unsupported("axes with different structures")


def refine(a, b):
    """common sub-dimension structure of two axes of the same size"""
    if same_axis(a, b):
        return a
    if len(a) == 1 and len(b) >= 1:
        return b
    if len(b) == 1 and len(a) >= 1:
        return a
    raise Unsupported("axes with different structures")


def size_eq(a, b):
    """None if undecided"""
    x, y = axsize(a), axsize(b)
    if x == y:
        return True
    return decide(eqc(x, y))


def bc_axis(a, b):
    """broadcast of two axes"""
    if not a:
        return b
    if not b:
        return a
    if same_axis(a, b):
        return a
    if st().ctx.entails(eqc(axsize(a), axsize(b))):
        return refine(a, b)
    if decide(eqc(axsize(a), axsize(b))):
        return refine(a, b)
    if decide(eqc(axsize(a), 1)):
        return b
    if decide(eqc(axsize(b), 1)):
        return a
    raise (ValueError if True else RuntimeError)("operands could not be broadcast together")


def broadcast_axes(ts):
    n = max([t.ndim for t in ts], default=0)
    res = [()] * n
    for t in ts:
        k = n - t.ndim
        for i, ax in enumerate(t.axes):
            res[k + i] = bc_axis(res[k + i], ax)
    return tuple(res)


def read_bc(t, axes, vv):
    """value of t broadcast on axes at index variables vv"""
    k = len(axes) - t.ndim
    idx = []
    for i, ax in enumerate(t.axes):
        tx = axes[k + i]
        v = Ps([vv[k + i]])[0]
        if not ax:
            idx.append(())
        elif same_axis(ax, tx):
            idx.append(v)
        elif st().ctx.entails(eqc(axsize(ax), axsize(tx))):
            idx.append(conv_index(ax, tx, v))
        else:
            idx.append(tuple(ZERO for _ in ax))
    return t.at(idx)


def libof(cls):
    return cls.LIB


def wrap_arg(cls, o):
    if isinstance(o, Tensor):
        if not isinstance(o, cls):
            if cls is PtTensor or isinstance(o, PtTensor):
                raise TypeError("mix of numpy arrays and torch tensors")
        return o
    if isinstance(o, (list, tuple)):
        return array_of(cls, o)
    return o


def pval(o):
    if isinstance(o, SB):
        return ind(o.c)
    if isinstance(o, bool):
        return toP(int(o))
    return toP(o)


def elementwise(cls, ops, f, dt=None, div=False, fl=False):
    ops = [wrap_arg(cls, o) for o in ops]
    ts = [o for o in ops if isinstance(o, Tensor)]
    axes = broadcast_axes(ts)
    vv = canonical(axes)
    vals = [read_bc(o, axes, vv) if isinstance(o, Tensor) else pval(o) for o in ops]
    if dt is None:
        dt = result_dtype(ops, libof(cls))
        if (div or fl) and cat_of(dt) < 2:
            dt = "float64" if libof(cls) == "np" else "float32"
    body = f(*vals)
    return mk(cls, axes, vv, body, dt, gmerge(*[o.g for o in ts]))


def cabs(p):
    if is_real(p):
        return absP(p)
    return sqrt(realpart(p * conj(p)))


def clamp(x, min=None, max=None):
    cls = type(x)
    if isinstance(min, Tensor) or isinstance(max, Tensor):
        r = x
        if min is not None:
            r = elementwise(cls, [r, min], lambda a, b: mk_maxmin("max", [a, b]))
        if max is not None:
            r = elementwise(cls, [r, max], lambda a, b: mk_maxmin("min", [a, b]))
        return r
    r = x
    if min is not None:
        r = elementwise(cls, [r, min], lambda a, b: mk_maxmin("max", [a, b]))
    if max is not None:
        r = elementwise(cls, [r, max], lambda a, b: mk_maxmin("min", [a, b]))
    if r is x:
        r = x.copy_()
    return r


def norm_axes(t, axis):
    if axis is None:
        return list(range(t.ndim))
    if isinstance(axis, (tuple, list)):
        return [t.axis(a) for a in axis]
    return [t.axis(axis)]


def reduce_(t, op, axis, keep):
    axs = norm_axes(t, axis)
    vv, b = t.full()
    vs, conds = [], []
    n = ONE
    for a in axs:
        for v, d in zip(vv[a], t.axes[a]):
            vs.append(v)
            conds += rng(v, d)
            n = n * d
    dt = t.dt
    g = t.g
    if op in ("sum", "mean"):
        if dt == "bool":
            dt = "int64"
        body = mk_sum(vs, conds, b) if vs else b
        if op == "mean":
            if cat_of(dt) < 2:
                if t.LIB == "pt":
                    raise RuntimeError("mean(): could not infer output dtype")
                dt = "float64"
            body = body * inv(n)
    elif op in ("any", "all"):
        if dt != "bool":
            b = ind(neg_cond(eqc(b)))
        dt = "bool"
        g = None
        if vs:
            body = mk_agg("max" if op == "any" else "min", vs, conds, b, is_int=True)
        else:
            body = b
    else:
        body = mk_agg(op, vs, conds, b, is_int=b.is_int) if vs else b
    axes, nv = [], []
    for a in range(t.ndim):
        if a in axs:
            if keep:
                axes.append(())
                nv.append(())
        else:
            axes.append(t.axes[a])
            nv.append(vv[a])
    return mk(type(t), axes, nv, body, dt, g)


def norm(t, ord=None, axis=None, keep=False):
    if ord not in (None, 2, 2.0, "fro"):
        raise Unsupported("norm of order %r" % (ord,))
    dt = t.dt
    if cat_of(dt) < 2:
        if t.LIB == "pt":
            raise RuntimeError("linalg.vector_norm: Expected a floating point tensor")
        t = t.cast("float64")
    sq = elementwise(type(t), [t], lambda a: a * a if is_real(a) else realpart(a * conj(a)), dt=real_of(t.dt))
    r = reduce_(sq, "sum", axis, keep)
    return elementwise(type(t), [r], sqrt)


def array_of(cls, x):
    """array from nested lists / ranges"""
    if isinstance(x, Tensor):
        return x
    if isinstance(x, SymList):
        v = fresh("x")
        ax = mkaxis(x.n)
        if not ax:
            return mk(cls, [()], [()], toP(x.f(ZERO)), "int64")
        val = x.f(toP(v))
        if isinstance(val, Tensor):
            raise Unsupported("array of arrays")
        p = toP(val)
        return mk(cls, [ax], [(v,)], p, "int64" if p.is_int else "float64")
    if isinstance(x, SRange):
        return array_of(cls, SymList(x.n, lambda i: lift(x.item(i))))
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if all(isinstance(y, Tensor) for y in x) and x:
            return stack(cls, list(x), 0)
        v = fresh("x")
        ps = [toP(y) for y in x]
        body = ZERO
        for i, p in enumerate(ps):
            body = body + ind(eqc(toP(v), i)) * p
        isint = all(isinstance(y, int) or (isinstance(y, SV) and y.is_int) for y in x) and len(x) > 0
        if len(ps) == 1:
            return mk(cls, [()], [()], ps[0], "int64" if isint else "float64")
        return mk(cls, [(toP(len(ps)),)], [(v,)], body, "int64" if isint else ("float64" if cls is NpTensor else "float32"))
    p = pval(x)
    return mk(cls, (), (), p, "bool" if isinstance(x, (bool, SB)) else "int64" if p.is_int and not isinstance(x, float) else ("float64" if cls is NpTensor else "float32"))


def intvec(k, t):
    if isinstance(k, (list, SymList, SRange, range)):
        return array_of(type(t), k)
    if isinstance(k, Tensor) and k.ndim == 0 and k.dt == "int64":
        return lift(k.at([]))
    return k


# ---------------------------------------------------------------- structure
def concat(cls, ts, axis=0):
    ts = [wrap_arg(cls, t) for t in ts]
    a = ts[0].axis(axis)
    if any(t.ndim != ts[0].ndim for t in ts):
        raise ValueError("all the input array dimensions must match")
    axes = list(ts[0].axes)
    for t in ts[1:]:
        for i in range(t.ndim):
            if i != a:
                if not size_eq(axes[i], t.axes[i]):
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
                axes[i] = refine(axes[i], t.axes[i]) if axes[i] and t.axes[i] else (axes[i] if axes[i] else t.axes[i])
    n = ZERO
    for t in ts:
        if len(t.axes[a]) > 1:
            raise Unsupported("concatenation along a merged axis")
        n = n + axsize(t.axes[a])
    axes[a] = (n,)
    v = fresh("x")
    vv = [tuple(fresh("x") for _ in ax) for ax in axes]
    vv[a] = (v,)
    off = ZERO
    body = ZERO
    pieces = []
    for j, t in enumerate(ts):
        m = axsize(t.axes[a])
        idx = []
        for i in range(t.ndim):
            if i == a:
                idx.append((toP(v) - off,) if t.axes[a] else ())
            else:
                idx.append(conv_index(t.axes[i], axes[i], Ps([vv[i]])[0]))
        val = t.at(idx)
        pieces.append([off, off + m, val])
        off = off + m
    # neighbours that are one expression, up to a term on a piece of width one, are one piece
    # (the identity is exact: an element is a total function of its index)
    def plain(e):
        return not any(x is v or x.kind == "ind" for m in e.t for x, _ in m)

    j = 0
    while j + 1 < len(pieces):
        (a0, a1, e0), (b0, b1, e1) = pieces[j], pieces[j + 1]
        new = None
        if e0 == e1:
            new = e0
        elif is_one(a1 - a0):
            e = subst(e1, {v: a0})
            d = e0 - e
            if plain(e1) and len(d.t) + len(e.t) == len(e0.t):
                new = e1 + ind(eqc(toP(v) - a0)) * d
        elif is_one(b1 - b0):
            e = subst(e0, {v: b0})
            d = e1 - e
            if plain(e0) and len(d.t) + len(e.t) == len(e1.t):
                new = e0 + ind(eqc(toP(v) - b0)) * d
        if new is None:
            j += 1
        else:
            pieces[j:j + 2] = [[a0, b1, new]]
            j = 0
    for j, (a0, a1, val) in enumerate(pieces):
        cs = []
        if j > 0:
            cs.append(ge(toP(v) - a0))
        if j < len(pieces) - 1:
            cs.append(ge(a1 - 1 - toP(v)))
        body = body + conj_ind(cs) * val
    dt = ts[0].dt
    for t in ts[1:]:
        dt = promote2(dt, t.dt, libof(cls))
    if is_one(n):
        body = subst(body, {v: ZERO})
        axes[a], vv[a] = (), ()
    return mk(cls, axes, vv, body, dt, gmerge(*[t.g for t in ts]))


def stack(cls, ts, axis=0):
    ts = list(ts)
    n = ts[0].ndim + 1
    a = axis % n
    return concat(cls, [t.newaxis(a) for t in ts], a)


def strides_of(t):
    r = []
    for a in range(t.ndim):
        r.append(Stride(t, {a: ONE}))
    return tuple(r)


class Stride:
    def __init__(self, t, co):
        self.t, self.co = t, co

    def __mul__(self, k):
        return Stride(self.t, {a: c * toP(k) for a, c in self.co.items()})

    __rmul__ = __mul__

    def __add__(self, o):
        if not isinstance(o, Stride):
            raise Unsupported("stride arithmetic")
        co = dict(self.co)
        for a, c in o.co.items():
            co[a] = co.get(a, ZERO) + c
        return Stride(self.t, co)

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)


def as_strided(x, shape, strides, offset=None):
    if offset not in (None,):
        raise Unsupported("storage offset")
    shape, strides = list(shape), list(strides)
    if len(shape) != len(strides):
        raise ValueError("mismatch in length of strides and shape")
    axes = axes_of_shape(shape)
    vv = freshs(axes)
    idx = [ZERO] * x.ndim
    lo = [ZERO] * x.ndim
    hi = [ZERO] * x.ndim
    cx = st().ctx
    for ax, vs, s, d in zip(axes, vv, strides, shape):
        if not ax:
            continue
        if isinstance(s, int) and s == 0:
            continue
        if not isinstance(s, Stride):
            raise Unsupported("numeric stride")
        if len(s.t.axes) != x.ndim:
            raise Unsupported("strides of another array")
        for a, c in s.co.items():
            idx[a] = idx[a] + toP(vs[0]) * c
        cx = cx.plus(*rng(vs[0], ax[0]))
    # restore the structure of untouched axes
    newidx = []
    mp = {}
    for a in range(x.ndim):
        ax = x.axes[a]
        if len(ax) > 1:
            raise Unsupported("as_strided of merged axes")
        ok = cx.entails(ge(idx[a])) and cx.entails(lt(idx[a], axsize(ax)))
        st().obl.append(("as_strided stays inside of the array", ok, "0 <= %s < %s" % (show(idx[a]), show(axsize(ax)))))
        for v in x.vv[a]:
            mp[v] = idx[a]
    return Tensor.view(x, axes, vv, [subst(e, mp) for e in x.vm])


def sliding(x, size, axis, at_end=True):
    a = x.axis(axis)
    n = axsize(x.axes[a])
    w = toP(size)
    v, u = fresh("x"), fresh("x")
    axes, vv = list(x.axes), list(x.vv)
    if len(axes[a]) != 1:
        raise Unsupported("window over this axis")
    m = n - w + 1
    if not decide(ge(m, 1)):
        raise ValueError("window larger than the axis")
    old = vv[a][0]
    axes[a], vv[a] = (m,), (v,)
    axes.append((w,))
    vv.append((u,))
    return Tensor.view(x, axes, vv, [subst(e, {old: toP(v) + toP(u)}) for e in x.vm])


def bc_to(t, shape):
    shape = list(shape)
    k = len(shape) - t.ndim
    axes = []
    for i, d in enumerate(shape):
        if i >= k and isinstance(d, int) and d == -1:
            axes.append(t.axes[i - k])
            continue
        ax = mkaxis(d)
        if i >= k:
            mine = t.axes[i - k]
            if mine and st().ctx.entails(eqc(axsize(mine), axsize(ax))):
                ax = mine
            elif mine:
                if decide(eqc(axsize(mine), axsize(ax))):
                    ax = mine
                elif not decide(eqc(axsize(mine), 1)):
                    raise ValueError("operands could not be broadcast together")
        axes.append(ax)
    return bc_view(t, axes)


def bc_view(t, axes):
    k = len(axes) - t.ndim
    vv = freshs(axes)
    mp = {}
    for i, ax in enumerate(t.axes):
        tx = axes[k + i]
        v = Ps([vv[k + i]])[0]
        if not ax:
            continue
        if same_axis(ax, tx) or st().ctx.entails(eqc(axsize(ax), axsize(tx))):
            ii = conv_index(ax, tx, v)
        else:
            ii = tuple(ZERO for _ in ax)
        for o, p in zip(t.vv[i], ii):
            mp[o] = p
    return Tensor.view(t, axes, vv, [subst(e, mp) for e in t.vm])


def broadcast_tensors(*ts):
    axes = broadcast_axes(ts)
    return [bc_view(t, axes) for t in ts]


def take_along(t, idx, axis):
    a = t.axis(axis)
    if idx.ndim != t.ndim:
        raise ValueError("`indices` and `arr` must have the same number of dimensions")
    axes = list(idx.axes)
    for i in range(t.ndim):
        if i != a:
            axes[i] = bc_axis(idx.axes[i], t.axes[i])
    vv = freshs(axes)
    k = read_bc(idx, axes, vv)
    n = axsize(t.axes[a])
    ii = []
    for i in range(t.ndim):
        if i == a:
            ii.append((k,) if t.axes[a] else ())
        else:
            ii.append(conv_index(t.axes[i], axes[i], Ps([vv[i]])[0]))
    return mk(type(t), axes, vv, t.at(ii), t.dt, t.g)


# ---------------------------------------------------------------- products
def einsum(cls, expr, *ops, **kw):
    if not isinstance(expr, str):
        raise Unsupported("einsum with lists")
    kw = {k: v for k, v in kw.items() if k != "optimize"}
    if kw:
        raise Unsupported("einsum options")
    ops = [wrap_arg(cls, o) for o in ops]
    expr = expr.replace(" ", "")
    if "->" in expr:
        lhs, out = expr.split("->")
    else:
        lhs, out = expr, None
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise ValueError("more operands provided to einstein sum function than specified in the subscripts string")
    if out is None:
        cnt = {}
        for s in ins:
            for ch in s.replace("...", ""):
                cnt[ch] = cnt.get(ch, 0) + 1
        out = ("..." if "..." in lhs else "") + "".join(sorted(c for c in cnt if cnt[c] == 1))
    # batch axes
    nb = 0
    subs = []
    for s, t in zip(ins, ops):
        if "..." in s:
            i = s.index("...")
            pre, post = s[:i], s[i + 3 :]
            k = t.ndim - len(pre) - len(post)
            if k < 0:
                raise ValueError("einstein sum subscripts string contains too many subscripts for operand")
            nb = max(nb, k)
            subs.append((list(pre), k, list(post)))
        else:
            if len(s) != t.ndim:
                raise ValueError("einstein sum subscripts string does not match the number of dimensions")
            subs.append((list(s), None, []))
    labels = {}

    def setlab(l, ax):
        labels[l] = bc_axis(labels.get(l, ()), ax)

    full = []
    for (pre, k, post), t in zip(subs, ops):
        lab = list(pre)
        if k is not None:
            lab += [("b", nb - k + i) for i in range(k)]
        lab += list(post)
        full.append(lab)
        for l, ax in zip(lab, t.axes):
            setlab(l, ax)
    if "..." in out:
        i = out.index("...")
        olab = list(out[:i]) + [("b", j) for j in range(nb)] + list(out[i + 3 :])
    else:
        if nb:
            raise ValueError("output has no ellipsis")
        olab = list(out)
    if len(set(olab)) != len(olab):
        raise ValueError("einstein sum subscripts string includes output subscript multiple times")
    for l in olab:
        if l not in labels:
            raise ValueError("einstein sum subscripts string included output subscript which never appeared in an input")
    vars_ = {l: tuple(fresh("x") for _ in ax) for l, ax in labels.items()}
    val = ONE
    for lab, t in zip(full, ops):
        idx = []
        for l, ax in zip(lab, t.axes):
            if not ax:
                idx.append(())
            elif st().ctx.entails(eqc(axsize(ax), axsize(labels[l]))):
                idx.append(conv_index(ax, labels[l], Ps([vars_[l]])[0]))
            else:
                idx.append(tuple(ZERO for _ in ax))
        val = val * t.at(idx)
    svs, conds = [], []
    for l, ax in labels.items():
        if l not in olab:
            for v, d in zip(vars_[l], ax):
                svs.append(v)
                conds += rng(v, d)
    body = mk_sum(svs, conds, val) if svs else val
    dt = ops[0].dt
    for t in ops[1:]:
        if libof(cls) == "pt" and promote2(dt, t.dt, "pt") != dt or libof(cls) == "pt" and dt != t.dt:
            raise RuntimeError("expected scalar type")
        dt = promote2(dt, t.dt, libof(cls))
    return mk(cls, [labels[l] for l in olab], [vars_[l] for l in olab], body, dt, gmerge(*[t.g for t in ops]))


def matmul(a, b):
    cls = type(a)
    if not isinstance(b, Tensor):
        raise Unsupported("matmul")
    if a.ndim == 1 and b.ndim == 1:
        return einsum(cls, "i,i->", a, b)
    if a.ndim == 1:
        return einsum(cls, "i,...ij->...j", a, b)
    if b.ndim == 1:
        return einsum(cls, "...ij,j->...i", a, b)
    return einsum(cls, "...ij,...jk->...ik", a, b)


# ---------------------------------------------------------------- Fourier
def fft_dtype(cls, dt, mod, inverse_real=False):
    if cat_of(dt) < 2:
        dt = "float64" if cls is NpTensor else "float32"
    if cls is NpTensor and mod == "np" and np1():
        return "float64" if inverse_real else "complex128"
    return real_of(dt) if inverse_real else cplx_of(real_of(dt))


def rfft(x, n=None, axis=-1, mod="sp", half=True, norm=None):
    if norm not in (None, "backward"):
        raise Unsupported("fft norm")
    cls = type(x)
    if half and x.dt.startswith("complex"):
        raise TypeError("x must be a real sequence")
    a = x.axis(axis)
    d = axsize(x.axes[a])
    if len(x.axes[a]) > 1:
        raise Unsupported("fft of a merged axis")
    n = d if n is None else toP(n)
    if not n.is_int:
        raise TypeError("n must be an integer")
    if not decide(ge(n, 1)):
        raise ValueError("invalid number of data points")
    vv = list(freshs(x.axes))
    t = fresh("t")
    idx = Ps(vv)
    idx[a] = (toP(t),) if x.axes[a] else ()
    body = x.at(idx)
    if not (st().ctx.entails(le(n, d))):
        body = body * ind(ge(d - 1 - toP(t)))
    if not x.axes[a]:
        body = body * ind(eqc(toP(t), 0)) if not is_one(n) else body
    k = fresh("k")
    m = fdiv(n, 2) + 1 if half else n
    axes = list(x.axes)
    axes[a], vv[a] = (m,), (k,)
    if is_one(m):
        axes[a], vv[a] = (), ()
        kk = ZERO
    else:
        kk = toP(k)
    X = dft_of(n, kk, t, body)
    return mk(cls, axes, vv, X, fft_dtype(cls, x.dt, mod), x.g)


def dft_of(n, k, t, body):
    """DFT, linear: sums are pushed outside"""
    res = ZERO
    for m, c in body.t.items():
        sums = [(a, e) for a, e in m if a.kind == "sum" and t in a.fv]
        if sums:
            vs, gd, b = [], [], P({tuple((a, e) for a, e in m if not (a.kind == "sum" and t in a.fv)): c})
            for a, e in sums:
                for _ in range(e):
                    v2, g2, b2 = open_sum(a)
                    vs += v2
                    gd += g2
                    b = b * b2
            # guards which depend on t stay inside
            gin = [g for g in gd if t in g.fv]
            gout = [g for g in gd if t not in g.fv]
            if not all(any(v in g.fv for g in gout) for v in vs):
                # the index set depends on t: keep the sum opaque inside the transform
                res = res + mk_dft(n, k, t, P({m: c}))
                continue
            res = res + mk_sum(vs, gout, dft_of(n, k, t, b * conj_ind(gin)))
        else:
            res = res + mk_dft(n, k, t, P({m: c}))
    return res


def irfft(X, n=None, axis=-1, mod="sp", norm=None):
    if norm not in (None, "backward"):
        raise Unsupported("fft norm")
    cls = type(X)
    a = X.axis(axis)
    m = axsize(X.axes[a])
    if len(X.axes[a]) > 1:
        raise Unsupported("fft of a merged axis")
    n = (m - 1) * 2 if n is None else toP(n)
    if not decide(ge(n, 1)):
        raise ValueError("invalid number of data points")
    if not decide(ge(m, fdiv(n, 2) + 1)):
        raise Unsupported("irfft of a padded spectrum")
    vv = list(freshs(X.axes))
    k = fresh("k")
    idx = Ps(vv)
    idx[a] = (toP(k),) if X.axes[a] else ()
    body = X.at(idx)
    u = fresh("x")
    axes = list(X.axes)
    axes[a], vv[a] = mkaxis(n), (u,)
    if not axes[a]:
        vv[a] = ()
        uu = ZERO
    else:
        uu = toP(u)
    y = ispec(body, k, n, uu)
    return mk(cls, axes, vv, y, fft_dtype(cls, X.dt, mod, True), X.g)


def only_through_dft(p, k, n):
    """k appears in p only as the frequency of transforms of length n"""
    for m in p.t:
        for a, _ in m:
            if k in a.fv and not _otd_atom(a, k, n):
                return False
    return True


def _otd_atom(a, k, n):
    if a.kind == "dft":
        return a.args[1] == toP(k) and same(a.args[0], n) and k not in core._fv(a.args[3]) and k not in a.args[4].fv
    if a.kind in ("v", "el", "ind", "I"):
        return False

    def rec(x):
        if isinstance(x, P):
            return only_through_dft(x, k, n)
        if isinstance(x, Cond):
            return k not in x.fv
        if isinstance(x, (tuple, frozenset)):
            return all(rec(y) for y in x)
        if isinstance(x, core.Closed):
            return k not in x.fvs
        return True

    return rec(a.args)


def ispec(S, k, n, u):
    """(1/n) sum_k S(k) exp(2 i pi k u / n), S hermitian, 0 <= u < n"""
    res = ZERO
    for m, c in S.t.items():
        out = P({(): c})
        dfts, opaque, sums = [], ONE, []
        for a, e in m:
            if k not in a.fv:
                if a is core.IMAG:
                    raise Unsupported("complex factor in a real inverse transform")
                out = out * core._powP(a, e)
            elif a.kind == "dft" and e > 0:
                if not _otd_atom(a, k, n):
                    raise Unsupported("spectrum with another length or frequency")
                dfts += [a] * e
            elif a.kind == "sum" and e > 0:
                sums += [a] * e
            else:
                if not _otd_atom(a, k, n):
                    raise Unsupported("frequency used outside of transforms (%s)" % a.kind)
                opaque = opaque * core._powP(a, e)
        if sums:
            vs, gd, b = [], [], opaque
            for a in dfts:
                b = b * toP(a)
            for a in sums:
                v2, g2, b2 = open_sum(a)
                if any(k in g.fv for g in g2):
                    raise Unsupported("frequency in a summation range")
                vs += v2
                gd += g2
                b = b * b2
            res = res + out * mk_sum(vs, gd, ispec(b, k, n, u))
            continue
        vs, gd, body = [], [], ONE
        S_ = u
        np_, nc = 0, 0
        for a in dfts:
            n1, k1, t, g1, b1, cj = open_dft(a)
            vs.append(t)
            gd += rng(t, n) + list(g1)
            body = body * b1
            if cj:
                S_ = S_ + toP(t)
                nc += 1
            else:
                S_ = S_ - toP(t)
                np_ += 1
        if opaque != ONE:
            s = fresh("k")
            vs.append(s)
            gd += rng(s, n)
            kv = fresh("k")
            body = body * mk_idft(n, kv, subst(opaque, {k: toP(kv)}), toP(s))
            S_ = S_ - toP(s)
            np_ += 1
        if not vs:
            res = res + out * ind(eqc(u, 0))
            continue
        for w in range(-max(np_ - 1, 0), nc + 1):
            res = res + out * mk_sum(vs, gd + [eqc(S_ - n * w)], body)
    return res


# ---------------------------------------------------------------- linear algebra
def solve(A, b, vector=None):
    cls = type(A)
    if A.ndim < 2:
        raise ValueError("array must be at least two-dimensional")
    if vector is None:
        if cls is NpTensor:
            vector = (b.ndim == A.ndim - 1) if np1() else b.ndim == 1
        else:
            vector = b.ndim == 1 or (b.ndim == A.ndim - 1 and same_batch(b.axes[:-1], A.axes[:-2]) and (
                same_size(b.axes[-1], A.axes[-2])))
    if not size_eq(A.axes[-1], A.axes[-2]):
        raise ValueError("Last 2 dimensions of the array must be square")
    ax = refine(A.axes[-2], A.axes[-1]) if A.axes[-1] else ()
    if vector:
        b2 = b.newaxis(b.ndim)
    else:
        b2 = b
    if b2.ndim < 2:
        raise ValueError("solve: bad right-hand side")
    if not size_eq(b2.axes[-2], ax):
        raise ValueError("solve: Input operand has a mismatch in its core dimension")
    ax = refine(ax, b2.axes[-2]) if ax and b2.axes[-2] else (ax or b2.axes[-2])
    baxes = broadcast_axes([_batch(A), _batch(b2)])
    bv = freshs(baxes)
    rhs_ax = b2.axes[-1]
    rv_ = tuple(fresh("x") for _ in rhs_ax)
    iv = tuple(fresh("x") for _ in ax)
    r = tuple(fresh("r") for _ in ax)
    c = tuple(fresh("c") for _ in ax)
    # elements
    def rd(t, tail):
        k = len(baxes) - (t.ndim - 2)
        idx = []
        for i in range(t.ndim - 2):
            tx = baxes[k + i]
            v = Ps([bv[k + i]])[0]
            a = t.axes[i]
            if not a:
                idx.append(())
            elif same_axis(a, tx) or st().ctx.entails(eqc(axsize(a), axsize(tx))):
                idx.append(conv_index(a, tx, v))
            else:
                idx.append(tuple(ZERO for _ in a))
        return t.at(idx + tail)

    Ab = rd(A, [conv_index(A.axes[-2], ax, Ps([r])[0]), conv_index(A.axes[-1], ax, Ps([c])[0])])
    bb = rd(b2, [conv_index(b2.axes[-2], ax, Ps([r])[0]), Ps([rv_])[0]])
    x = mk_solve(ax, r, c, Ab, bb, tuple(toP(v) for v in iv)) if ax else bb * inv(Ab)
    dt = promote2(A.dt, b.dt, libof(cls))
    if cat_of(dt) < 2:
        if cls is PtTensor:
            raise RuntimeError("linalg.solve: Expected a floating point or complex tensor")
        dt = "float64"
    if cls is PtTensor and A.dt != b.dt:
        raise RuntimeError("linalg.solve: Expected A and B to have the same dtype")
    out = mk(cls, list(baxes) + [ax, rhs_ax], list(bv) + [iv, rv_], x, dt, gmerge(A.g, b.g))
    if vector:
        out = out.select(out.ndim - 1, ZERO)
    return out


def same_size(a, b):
    return decide(eqc(axsize(a), axsize(b)))


def same_batch(a, b):
    return len(a) == len(b) and all(same_size(x, y) for x, y in zip(a, b))


class _B:
    def __init__(self, axes):
        self.axes, self.ndim = axes, len(axes)


def _batch(t):
    return _B(t.axes[:-2])


def matinv(A):
    cls = type(A)
    if not size_eq(A.axes[-1], A.axes[-2]):
        raise ValueError("Last 2 dimensions of the array must be square")
    ax = refine(A.axes[-2], A.axes[-1]) if A.axes[-1] else ()
    vv = list(freshs(A.axes))
    r = tuple(fresh("r") for _ in ax)
    c = tuple(fresh("c") for _ in ax)
    idx = Ps(vv)
    i1, i2 = tuple(fresh("x") for _ in ax), tuple(fresh("x") for _ in ax)
    Ab = A.at(idx[:-2] + [Ps([r])[0], Ps([c])[0]])
    if ax:
        b = conj_ind([eqc(toP(x), toP(y)) for x, y in zip(r, i2)])
        x = mk_solve(ax, r, c, Ab, b, tuple(toP(v) for v in i1))
    else:
        x = inv(Ab)
    return mk(cls, list(A.axes[:-2]) + [ax, ax], list(vv[:-2]) + [i1, i2], x, A.dt if cat_of(A.dt) >= 2 else "float64", A.g)


def eye(cls, n, m=None, dt="float64"):
    ax = axes_of_shape([n, n if m is None else m])
    vv = freshs(ax)
    a = toP(vv[0][0]) if ax[0] else ZERO
    b = toP(vv[1][0]) if ax[1] else ZERO
    return mk(cls, ax, vv, ind(eqc(a, b)), dt)


def arange(cls, args, dt=None):
    args = list(args)
    if len(args) == 1:
        args = [0] + args
    step = args[2] if len(args) > 2 else 1
    a, b = toP(args[0]), toP(args[1])
    if not (a.is_int and b.is_int) or step not in (1, -1):
        raise Unsupported("arange of reals")
    n = (b - a) * step
    if not decide(ge(n)):
        n = ZERO
    ax = mkaxis(n)
    if not ax:
        return mk(cls, [()], [()], a, dt or "int64")
    v = fresh("x")
    return mk(cls, [ax], [(v,)], a + toP(v) * step, dt or "int64")


def where(cls, c, a, b):
    def f(cb, x, y):
        return ite(cond_of(cb), x, y)

    ops = [c, a, b]
    dt = result_dtype([wrap_arg(cls, a), wrap_arg(cls, b)], libof(cls))
    return elementwise(cls, ops, f, dt=dt)


def predicate(cls, x, name):
    def f(p):
        if p.is_const() or p.is_int:
            return ZERO
        if name == "isnan":
            return ind(pred("nan", p))
        if name == "posinf":
            return ind(pred("posinf", p))
        if name == "neginf":
            return ind(pred("neginf", p))
        if name == "isinf":
            return ind(or_(pred("posinf", p), pred("neginf", p)))
        if name == "isfinite":
            return ind(and_(neg_cond(pred("posinf", p)), neg_cond(pred("neginf", p)), neg_cond(pred("nan", p))))
        raise AssertionError

    return elementwise(cls, [x], f, dt="bool")
