"""Loads the real source of /repo/fast_bss_eval into the symbolic executor.

What the extraction does, on every run: the files are read from /repo, parsed, and
 - every `for` statement is routed through a loop object (executed as usual for
   concrete iterables; generalised / cut with invariants for symbolic ones),
 - list comprehensions with one generator go through a helper (lists of symbolic length),
 - imports and a few builtins resolve to the symbolic numpy / scipy / torch.
Nothing else is changed or dropped."""
import ast
import builtins as _b
import collections
import functools
import itertools as _it
import math as _math
import os
import types

from core import *
import core
from ex import *
import ex
from ex import ST, decide
import tensor as T
from tensor import Tensor, NpTensor, PtTensor, DT
import shims

REPO = os.environ.get("FBE_REPO", "/repo")


class Poison:
    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported("value of '%s' after a symbolic loop" % object.__getattribute__(self, "_n"))

    __getattr__ = __call__ = __getitem__ = __iter__ = __bool__ = __add__ = __radd__ = __mul__ = __rmul__ = _bad
    __sub__ = __rsub__ = __neg__ = __truediv__ = __len__ = __eq__ = __lt__ = __gt__ = __matmul__ = _bad
    __hash__ = object.__hash__


UNDEF = object()


class SymEnum:
    def __init__(self, base, start=0):
        self.base, self.start = base, start


class SymZip:
    def __init__(self, parts):
        self.parts = parts


def sym_len(it):
    if isinstance(it, SRange):
        return None if it.n.is_const() else [it.n]
    if isinstance(it, SymNd):
        return None if all(d.is_const() for d in it.dims) else list(it.dims)
    if isinstance(it, SymEnum):
        return sym_len(it.base)
    if isinstance(it, SymZip):
        for p in it.parts:
            n = sym_len(p)
            if n is not None:
                return n
        return None
    if isinstance(it, SymList):
        return None if it.n.is_const() else [it.n]
    if isinstance(it, Tensor) and it.ndim:
        n = T.axsize(it.axes[0])
        return None if n.is_const() else [n]
    return None


def sym_item(it, vs):
    if isinstance(it, SRange):
        return lift(it.item(toP(vs[0])))
    if isinstance(it, SymNd):
        k = iter(vs)
        return tuple(lift(toP(v)) for v in vs)
    if isinstance(it, SymEnum):
        return (lift(toP(vs[0]) + it.start), sym_item(it.base, vs))
    if isinstance(it, SymZip):
        return tuple(sym_item(p, vs) for p in it.parts)
    if isinstance(it, SymList):
        return it.f(toP(vs[0]))
    if isinstance(it, Tensor):
        return it.select(0, toP(vs[0]))
    raise Unsupported("iteration")


class Loop:
    def __init__(self, it, lid):
        self.it = it
        self.dims = sym_len(it)
        self.lid = lid
        self.state = 0
        self.inv = None
        self.entry = {}
        if isinstance(it, SymList) and self.dims is None:
            self.it = [it.f(toP(i)) for i in range(it.n.const())]
        if isinstance(it, SymEnum) and self.dims is None:
            self.it = _b.enumerate(list(it.base), it.start)
        if isinstance(it, SymZip) and self.dims is None:
            self.it = _b.zip(*it.parts)

    def __iter__(self):
        if self.dims is None:
            for x in self.it:
                yield x
            self.state = 2
            return
        S = ST[0]
        live = [d for d in self.dims if not d.is_const()]
        # at least one iteration?
        for d in self.dims:
            if not decide(ge(d, 1)):
                self.state = 2
                self.empty = True
                return
        self.empty = False
        vs = []
        foc = list(S.focus)
        for d in self.dims:
            v = None
            for f, fd in foc:
                if f not in vs and T.same(d, fd) and f not in S.focus_used:
                    v = f
                    break
            if v is None:
                v = fresh("i")
            vs.append(v)
        self.vs = vs
        self.focused = [v for v in vs if any(v is f for f, _ in foc)]
        S.focus_used |= set(self.focused)
        for v, d in zip(vs, self.dims):
            S.assume(*rng(v, d))
        rec = {"writes": {}, "reads": {}, "base": {}}
        self.rec = rec
        S.loop_stores.append(rec)
        dec = []
        S.loop_decisions.append(dec)
        self.dec = dec
        self.bases = _Snap(rec)
        self.state = 1
        yield sym_item(self.it, vs)
        S.loop_decisions.pop()
        S.loop_stores.pop()
        self.generalise(S)
        self.state = 2

    def generalise(self, S):
        rec = self.rec
        vset = frozenset(self.vs)
        dep = [c for c in self.dec if c.fv & vset]
        if dep:
            # the branches taken depend on the index: keep an arbitrary but fixed one
            if len(self.focused) != len(self.vs):
                raise Unsupported("data dependent branch in a symbolic loop")
            S.focus_kept = True
            for s, ws in rec["writes"].items():
                for g, val in ws:
                    pins = set()
                    for c in g:
                        if c.kind == "eq":
                            pins |= c.fv & vset
                    if pins != vset:
                        raise Unsupported("write of a symbolic loop not tied to its index")
            self.check_reads(rec, vset, None)
            return
        for s, ws in rec["writes"].items():
            base = rec["base"][s]
            sols = None
            new = []
            for g, val in ws:
                sol = {}
                rest = []
                prog = True
                gs = list(g)
                while prog:
                    prog = False
                    for c in gs:
                        if c.kind != "eq":
                            continue
                        p = subst(c.p, sol)
                        for v in self.vs:
                            if v in sol:
                                continue
                            k = core._lin(p, v)
                            if k in (1, -1) and not ((p - toP(v) * k).fv & vset):
                                sol[v] = toP(v) - p * k
                                prog = True
                                break
                free = [v for v in self.vs if v not in sol]
                if any(v in core._fv(tuple(g)) or v in val.fv for v in free):
                    raise Unsupported("write of a symbolic loop not tied to its index")
                if sols is None:
                    sols = sol
                elif sols != sol:
                    raise Unsupported("several writes of a symbolic loop into one array")
                g2 = []
                own = set()
                for sv, d in zip(s.sv, s.dims):
                    own |= set(rng(sv, d))
                for c in g:
                    c2 = subst(c, sol)
                    if c2.kind != "true":
                        g2.append(c2)
                for v, d in zip(self.vs, self.dims):
                    if v in sol:
                        for c in rng(sol[v], d):
                            if c not in own and c.kind != "true" and c not in g2:
                                g2.append(c)
                new.append((g2, subst(val, sol)))
            self.check_reads_store(rec, s, sols)
            body = base
            for g2, v2 in new:
                body = T.layer(g2, v2, body)
            if body.fv & vset:
                raise Unsupported("loop index escapes")
            s.body = body
            # propagate to the enclosing loops
            for lp in S.loop_stores[s.created:]:
                lp["base"].setdefault(s, base)
                lp["writes"].setdefault(s, [])
                for g2, v2 in ws:
                    pass
                # replace the records of this loop by the generalised ones
                lst = lp["writes"][s]
                del lst[len(lst) - len(ws):]
                lst += [(list(g), v) for g, v in new]

    def check_reads(self, rec, vset, _):
        for s in rec["writes"]:
            sol = {}
            for c in rec["writes"][s][0][0]:
                if c.kind == "eq":
                    for v in self.vs:
                        k = core._lin(c.p, v)
                        if k in (1, -1) and v not in sol and not ((c.p - toP(v) * k).fv & vset):
                            sol[v] = toP(v) - c.p * k
            self.check_reads_store(rec, s, sol)

    def check_reads_store(self, rec, s, sol):
        for r in rec["reads"].get(s, ()):
            ok = bool(sol)
            mp = {sv: e for sv, e in zip(s.sv, r)}
            for v, e in (sol or {}).items():
                if subst(e, mp) != toP(v):
                    ok = False
            if not ok:
                raise Unsupported("array read and written by a symbolic loop")

    # ---- loop carried variables
    def enter(self, names, getters):
        vals = []
        for g in getters:
            try:
                vals.append(g())
            except (NameError, UnboundLocalError):
                vals.append(UNDEF)
        if self.dims is None:
            return tuple(Poison(n) if v is UNDEF else v for n, v in zip(names, vals)) if UNDEF in [id(v) and v for v in vals] else tuple(vals)
        S = ST[0]
        prov = S.config.get("invariants")
        if prov is None:
            raise Unsupported("loop with carried variables")
        self.entry = dict(zip(names, vals))
        out = prov.enter(self, {n: v for n, v in zip(names, vals) if v is not UNDEF})
        return tuple(out.get(n, Poison(n)) for n in names)

    def leave(self, names, vals):
        if self.dims is None:
            return
        ST[0].config["invariants"].leave(self, dict(zip(names, vals)))

    def exit(self, names, getters):
        if self.dims is not None and self.state != 2:
            raise Unsupported("break out of a symbolic loop")
        vals = []
        for n, g in zip(names, getters):
            try:
                vals.append(g())
            except (NameError, UnboundLocalError):
                vals.append(Poison(n))
        if self.dims is None or self.empty:
            return tuple(vals)
        out = ST[0].config["invariants"].exit(self)
        return tuple(out.get(n, Poison(n)) for n in names)

    def poison(self, names, getters):
        if self.dims is not None and self.state != 2:
            raise Unsupported("break out of a symbolic loop")
        vals = []
        for n, g in zip(names, getters):
            try:
                v = g()
            except (NameError, UnboundLocalError):
                v = Poison(n)
            if self.dims is not None and not self.empty:
                v = Poison(n)
            vals.append(v)
        return tuple(vals)


class _Snap:
    """remembers the content of the stores before the loop, lazily through State hooks"""

    def __init__(self, rec):
        self.rec = rec


_orig_commit = Tensor._commit


def _commit(self, guards, val):
    s = self.store
    for lp in ST[0].loop_stores[s.created:]:
        lp["base"].setdefault(s, s.body)
    _orig_commit(self, guards, val)


Tensor._commit = _commit


def vc_comp(it, f):
    n = sym_len(it)
    if n is None:
        if isinstance(it, SymList):
            it = [it.f(toP(i)) for i in range(it.n.const())]
        return [f(x) for x in it]
    if len(n) != 1:
        raise Unsupported("comprehension over an index space")
    return SymList(n[0], lambda i: f(sym_item(it, [i])))


# ---------------------------------------------------------------- AST
class Names(ast.NodeVisitor):
    """may-read-before-write analysis of a statement list"""

    def __init__(self):
        self.stored = []
        self.early = []

    def run(self, stmts):
        self.block(stmts, set())
        return self

    def block(self, stmts, w):
        for s in stmts:
            w = self.stmt(s, w)
        return w

    def reads(self, node, w):
        if node is None:
            return
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in w:
                if n.id not in self.early:
                    self.early.append(n.id)

    def targets(self, t, w):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                if n.id not in self.stored:
                    self.stored.append(n.id)
                w = w | {n.id}
        for n in ast.walk(t):
            if isinstance(n, (ast.Subscript, ast.Attribute)):
                self.reads(n, w - {m.id for m in ast.walk(t) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)})
        return w

    def stmt(self, s, w):
        if isinstance(s, ast.Assign):
            self.reads(s.value, w)
            for t in s.targets:
                w = self.targets(t, w)
            return w
        if isinstance(s, ast.AugAssign):
            self.reads(s.value, w)
            if isinstance(s.target, ast.Name):
                if s.target.id not in w and s.target.id not in self.early:
                    self.early.append(s.target.id)
            return self.targets(s.target, w) if isinstance(s.target, ast.Name) else (self.reads(s.target, w) or w)
        if isinstance(s, ast.AnnAssign):
            self.reads(s.value, w)
            return self.targets(s.target, w) if s.value is not None else w
        if isinstance(s, ast.If):
            self.reads(s.test, w)
            a = self.block(s.body, w)
            b = self.block(s.orelse, w)
            return a & b
        if isinstance(s, ast.For):
            self.reads(s.iter, w)
            w2 = self.targets(s.target, w)
            self.block(s.body, w2)
            self.block(s.orelse, w)
            return w
        if isinstance(s, ast.While):
            self.reads(s.test, w)
            self.block(s.body, w)
            return w
        if isinstance(s, ast.With):
            for i in s.items:
                self.reads(i.context_expr, w)
                if i.optional_vars is not None:
                    w = self.targets(i.optional_vars, w)
            return self.block(s.body, w)
        if isinstance(s, ast.Try):
            a = self.block(s.body, w)
            for h in s.handlers:
                self.block(h.body, w)
            self.block(s.finalbody, w)
            return w
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.reads(s, w)
            return w | {s.name}
        self.reads(s, w)
        # walrus
        for n in ast.walk(s):
            if isinstance(n, ast.NamedExpr):
                w = self.targets(n.target, w)
        return w


def _step_of(s, name, op, k):
    """the statement name = name op k"""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
        return isinstance(s.op, op) and isinstance(s.value, ast.Constant) and s.value.value == k
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
        v = s.value
        if isinstance(v, ast.BinOp) and isinstance(v.op, op):
            for a, b in ((v.left, v.right), (v.right, v.left)):
                if isinstance(a, ast.Name) and a.id == name and isinstance(b, ast.Constant) and b.value == k:
                    return True
    return False


def _names(nodes, ctx):
    return [n for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)]


def _counter_loop(node, fn):
    t = node.test
    if fn is None or node.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    l, r, op = t.left, t.comparators[0], t.ops[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        l, r, op = r, l, (ast.Lt() if isinstance(op, ast.Gt) else ast.LtE())
    if isinstance(l, ast.BinOp) and isinstance(l.op, (ast.Add, ast.Sub)) and isinstance(l.left, ast.Name) and isinstance(l.right, ast.Constant) and type(l.right.value) is int:
        # i + c < n is i < n - c
        r = ast.BinOp(r, ast.Sub() if isinstance(l.op, ast.Add) else ast.Add(), l.right)
        l = l.left
    if not isinstance(l, ast.Name) or not isinstance(op, (ast.Lt, ast.LtE)) or len(node.body) < 2:
        return None
    i = l.id
    # the increment, at the top level of the body; it stays where it is if the counter is read after it
    where = [k for k, s in enumerate(node.body) if _step_of(s, i, ast.Add, 1)]
    if len(where) != 1:
        return None
    body = node.body[: where[0]] + node.body[where[0] + 1 :]
    if any(n.id == i for n in _names(node.body[where[0] + 1 :], (ast.Load,))):
        inc = [_assign(i, ast.BinOp(_name(i), ast.Add(), ast.Constant(1)))]
    else:
        inc = []
    stored = {n.id for n in _names(node.body, (ast.Store, ast.Del))}
    if any(n.id == i for n in _names(body, (ast.Store, ast.Del))):
        return None
    # the bound does not change: names and constants, arithmetic on them, shapes
    for n in ast.walk(r):
        if isinstance(n, ast.Name) and (n.id in stored or n.id == i) or isinstance(n, (ast.NamedExpr, ast.Await, ast.Lambda)):
            return None
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ("len", "min", "max")):
            return None
    if any(isinstance(n, (ast.Continue, ast.Break, ast.FunctionDef, ast.Lambda, ast.Nonlocal, ast.Global)) for s in body for n in ast.walk(s)):
        return None
    # the counter is not read outside
    inside = {id(n) for n in ast.walk(node)}
    if any(isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Load) and id(n) not in inside for n in ast.walk(fn)):
        # readings before an assignment that dominates the loop are not recognised
        return None
    if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)):
        return None
    hi = r if isinstance(op, ast.Lt) else ast.BinOp(r, ast.Add(), ast.Constant(1))
    body = node.body[: where[0]] + inc + node.body[where[0] + 1 :]
    f = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Name(i, ast.Load()), hi], []), body, [])
    ast.copy_location(f, node)
    ast.fix_missing_locations(f)
    return f


def _doubling_loop(node):
    t = node.test
    if node.orelse or len(node.body) != 1 or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)):
        return None
    if not isinstance(t.ops[0], (ast.Lt, ast.LtE)):
        return None
    v = t.left.id
    s = node.body[0]
    if not (_step_of(s, v, ast.Mult, 2) or _step_of(s, v, ast.LShift, 1)):
        return None
    if any(isinstance(n, ast.Name) and n.id == v for n in ast.walk(t.comparators[0])):
        return None
    return v


class While:
    """loops with a symbolic condition are unrolled a few times at most"""

    def __init__(self):
        self.n = 0

    def test(self, f):
        S = ST[0]
        if S is None:
            return f()
        k = len(S.taken)
        r = _b.bool(f())
        if len(S.taken) != k:
            self.n += 1
            if self.n > 3:
                raise Unsupported("loop with a symbolic condition")
        return r

    def double(self, v, e, incl):
        """smallest v * 2**k >= e (> e)"""
        if not isinstance(e, SV) or not e.is_int or not (isinstance(v, int) and v > 0 and v & (v - 1) == 0):
            return v
        if incl:
            e = e + 1
        if v > 1 and decide(le(toP(e), v)):
            return v
        return lift(core.p2ceil(toP(e)))


def _lam(name):
    return "(lambda: %s)" % name


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.fn = None

    def visit_FunctionDef(self, node):
        old, self.fn = self.fn, node
        self.generic_visit(node)
        self.fn = old
        return node

    def visit_While(self, node):
        """while i < n: BODY; i += 1 (i not used otherwise after the loop) is for i in range(i, n): BODY;
        while v < e: v *= 2 is the next power of two; other loops with symbolic conditions are bounded by a guard"""
        f = _counter_loop(node, self.fn)
        if f is not None:
            return self.visit_For(f)
        self.generic_visit(node)
        v = _doubling_loop(node)
        self.k += 1
        W = "__vcW%d" % self.k
        out = [_assign(W, ast.Call(_name("__vc_while"), [], []))]
        if v is not None:
            out.append(_assign(v, ast.Call(ast.Attribute(_name(W), "double", ast.Load()), [_name(v), node.test.comparators[0], ast.Constant(isinstance(node.test.ops[0], ast.LtE))], [])))
        lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), node.test)
        if any(isinstance(n, ast.NamedExpr) for n in ast.walk(node.test)):
            return node
        out.append(ast.While(ast.Call(ast.Attribute(_name(W), "test", ast.Load()), [lam], []), node.body, node.orelse))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_For(self, node):
        # names read after / around the loop anywhere in the function: conservative
        nm = Names().run([node])
        body_nm = Names()
        w = body_nm.targets(node.target, set())
        tnames = set(w)
        body_nm.block(node.body, w)
        stored = [n for n in body_nm.stored if n not in tnames]
        carried = [n for n in stored if n in body_nm.early]
        others = [n for n in list(tnames) + stored if n not in carried]
        self.generic_visit(node)
        self.k += 1
        L = "__vcL%d" % self.k
        out = []
        out.append(_assign(L, ast.Call(_name("__vc_loop"), [node.iter, ast.Constant(self.k)], [])))
        body = list(node.body)
        if carried:
            pre = _parse("(%s,) = %s.enter((%s,), (%s,))" % (", ".join(carried), L, ", ".join(map(repr, carried)), ", ".join(map(_lam, carried))))
            post = _parse("%s.leave((%s,), (%s,))" % (L, ", ".join(map(repr, carried)), ", ".join(carried)))
            body = pre + body + post
        nf = ast.For(node.target, _name(L), body, node.orelse)
        out.append(nf)
        if carried:
            out += _parse("(%s,) = %s.exit((%s,), (%s,))" % (", ".join(carried), L, ", ".join(map(repr, carried)), ", ".join(map(_lam, carried))))
        if others:
            out += _parse("(%s,) = %s.poison((%s,), (%s,))" % (", ".join(others), L, ", ".join(map(repr, others)), ", ".join(map(_lam, others))))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.ifs or g.is_async:
            return node
        if any(isinstance(n, (ast.NamedExpr, ast.Await)) for n in ast.walk(node)):
            return node
        if isinstance(g.target, ast.Name):
            lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), node.elt)
        else:
            # destructuring through a nested comprehension on one item
            arg = "__vc_it"
            inner = ast.ListComp(node.elt, [ast.comprehension(g.target, ast.List([_name(arg)], ast.Load()), [], 0)])
            lam = ast.Lambda(
                ast.arguments([], [ast.arg(arg)], None, [], [], None, []), ast.Subscript(inner, ast.Constant(0), ast.Load())
            )
        r = ast.Call(_name("__vc_comp"), [g.iter, lam], [])
        ast.copy_location(r, node)
        ast.fix_missing_locations(r)
        return r


def _name(n):
    return ast.Name(n, ast.Load())


def _assign(n, v):
    return ast.Assign([ast.Name(n, ast.Store())], v)


def _parse(src):
    return ast.parse(src).body


# ---------------------------------------------------------------- program
ALLOWED = {
    "typing", "functools", "warnings", "collections", "contextlib", "abc", "numbers", "operator", "enum",
    "dataclasses", "types", "__future__", "copy", "sys", "os", "logging", "importlib", "re", "string", "inspect", "textwrap",
}


_CODE = {}


def _cache(f=None, **k):
    """a cache of a function of hashable arguments: the function itself, its arrays must not be written"""
    if f is None or not callable(f):
        return _cache

    @functools.wraps(f)
    def g(*a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, NpTensor):
                raise TypeError("unhashable type: 'numpy.ndarray'")
            if isinstance(x, (_b.list, _b.dict, set)):
                raise TypeError("unhashable type")
            if isinstance(x, Tensor):
                raise Unsupported("cache with a tensor as key")
        r = f(*a, **k)

        def mark(x):
            if isinstance(x, Tensor):
                x.store.protected = x.store.protected or "cached result of %s" % f.__name__
            elif isinstance(x, (_b.tuple, _b.list)):
                for y in x:
                    mark(y)
            elif isinstance(x, (_b.dict, set)):
                raise Unsupported("cached container")

        mark(r)
        return r

    g.cache_clear = lambda: None
    return g


FUNCTOOLS = types.ModuleType("functools")
FUNCTOOLS.__dict__.update({k: v for k, v in functools.__dict__.items() if not k.startswith("__")})
FUNCTOOLS.lru_cache = _cache
FUNCTOOLS.cache = _cache


class Program:
    """one loading of the package under a configuration"""

    def __init__(self, torch=True, packaging=True, repo=None, numpy=1):
        self.repo = repo or REPO
        self.mods = {}
        self.cfg_torch, self.cfg_packaging = torch, packaging
        self.shims = shims.modules()
        shims.generation(self.shims["numpy"], numpy)
        self.origin = {}

    def builtins(self):
        d = dict(_b.__dict__)
        d.update(shims.BUILTINS)
        d["range"] = sym_range
        d["enumerate"] = sym_enumerate
        d["zip"] = sym_zip
        d["list"] = sym_list
        d["tuple"] = sym_tuple
        d["__import__"] = self.imp
        d["__vc_loop"] = Loop
        d["__vc_while"] = While
        d["__vc_comp"] = vc_comp
        return d

    def path(self, name):
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        p, pkg = self.path(name)
        if p is None:
            raise ModuleNotFoundError("No module named %r" % name)
        if p not in _CODE:
            src = open(p).read()
            tree = ast.parse(src, p)
            Instr().visit(tree)
            ast.fix_missing_locations(tree)
            _CODE[p] = compile(tree, p, "exec")
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if pkg else name.rsplit(".", 1)[0]
        if pkg:
            m.__path__ = [os.path.dirname(p)]
        m.__dict__["__builtins__"] = self.builtins()
        self.mods[name] = m
        try:
            exec(_CODE[p], m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if "." in name:
            par, ch = name.rsplit(".", 1)
            setattr(self.mods[par], ch, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"].split(".")
            base = ".".join(pk[: len(pk) - level + 1])
            full = base + "." + name if name else base
            m = self.load(full)
            for f in fromlist or ():
                if not hasattr(m, f) and self.path(full + "." + f)[0]:
                    self.load(full + "." + f)
            if fromlist:
                return m
            return self.load(full.split(".")[0])
        root = name.split(".")[0]
        if root == "fast_bss_eval":
            m = self.load(name)
            for f in fromlist or ():
                if not hasattr(m, f) and self.path(name + "." + f)[0]:
                    self.load(name + "." + f)
            return m if fromlist else self.load(root)
        if root == "torch" and not self.cfg_torch:
            raise ModuleNotFoundError("No module named 'torch'")
        if root in ("torch_complex",):
            raise ModuleNotFoundError("No module named %r" % name)
        if root == "packaging" and not self.cfg_packaging:
            raise ModuleNotFoundError("No module named 'packaging'")
        if root == "distutils":
            raise ModuleNotFoundError("No module named 'distutils'")
        if name in self.shims:
            if fromlist:
                return self.shims[name]
            return self.shims[root]
        if root in ("numpy", "scipy", "torch", "math", "itertools", "packaging"):
            raise Unsupported("import of %s" % name)
        if root == "functools":
            return FUNCTOOLS
        if root in ALLOWED:
            return _b.__import__(name, globals, locals, fromlist, level)
        raise Unsupported("import of %s" % name)

    # ------------------------------------------------ state that outlives a call
    def state(self):
        """the values reachable from the modules that a call may change"""
        out = {}

        def items(n, x, depth=0):
            if isinstance(x, _b.dict):
                out[n] = (id(x), tuple((id(k), id(v)) for k, v in x.items()))
                vs = list(x.values())
            elif isinstance(x, (_b.list, _b.tuple, set, collections.deque)):
                out[n] = (id(x), tuple(id(v) for v in x))
                vs = list(x)
            elif isinstance(x, types.FunctionType):
                if x.__module__ is None or not str(x.__module__).startswith("fast_bss_eval"):
                    return
                vs = list(x.__defaults__ or ()) + list((x.__kwdefaults__ or {}).values()) + list(x.__dict__.values())
                vs += [c.cell_contents for c in x.__closure__ or () if _filled(c)]
                out[n] = (id(x), tuple(id(v) for v in vs))
            elif isinstance(x, type):
                if not str(x.__module__).startswith("fast_bss_eval"):
                    return
                vs = [v for k, v in x.__dict__.items() if not isinstance(v, types.GetSetDescriptorType)]
                out[n] = (id(x), tuple(id(v) for v in vs))
            elif isinstance(x, Tensor):
                out[n] = (id(x), id(x.store), id(x.store.body), len(x.store.log))
                self.keep.append(x.store.body)
                return
            elif str(getattr(type(x), "__module__", "")).startswith("fast_bss_eval") and hasattr(x, "__dict__"):
                out[n] = (id(x), tuple((k, id(v)) for k, v in x.__dict__.items()))
                vs = list(x.__dict__.values())
            else:
                return
            self.keep.append(vs)
            if depth < 4:
                for i, v in enumerate(vs):
                    items("%s[%d]" % (n, i), v, depth + 1)

        self.keep = []
        for name, m in list(self.mods.items()):
            d = {k: v for k, v in m.__dict__.items() if k not in ("__builtins__",)}
            # (a submodule that is loaded later is no state)
            d = {k: v for k, v in d.items() if not isinstance(v, types.ModuleType)}
            out[name] = tuple((k, id(v)) for k, v in d.items())
            self.keep.append(list(d.values()))
            for k, v in d.items():
                items(name + "." + k, v)
        return out

    def changed(self, before):
        keep = self.keep
        after = self.state()
        r = [k for k in before if after.get(k) != before[k]]
        self.keep = keep
        return r

    # ------------------------------------------------ substitution of callees by contracts
    def patch(self, orig, new):
        for m in self.mods.values():
            for k, v in list(m.__dict__.items()):
                if v is orig:
                    m.__dict__[k] = new


def _filled(c):
    try:
        c.cell_contents
    except ValueError:
        return False
    return True


def sym_range(*a):
    a = [x.at([]) if isinstance(x, Tensor) and x.ndim == 0 else x for x in a]
    if all(isinstance(x, int) for x in a):
        return _b.range(*a)
    a = [toP(x) for x in a]
    if not all(x.is_int for x in a):
        raise TypeError("object cannot be interpreted as an integer")
    if len(a) == 1:
        return SRange(ZERO, a[0])
    step = 1
    if len(a) == 3:
        if not a[2].is_const():
            raise Unsupported("range with a symbolic step")
        step = a[2].const()
    return SRange(a[0], a[1], step)


def is_sym(x):
    return sym_len(x) is not None


def sym_enumerate(x, start=0):
    if is_sym(x):
        return SymEnum(x, start)
    return _b.enumerate(x, start)


def sym_zip(*xs, **k):
    if any(is_sym(x) for x in xs):
        return SymZip(xs)
    return _b.zip(*xs, **k)


class _ListMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_b.list, SymList))


class sym_list(metaclass=_ListMeta):
    def __new__(cls, x=()):
        if isinstance(x, SymList):
            return x
        if is_sym(x):
            n = sym_len(x)
            return SymList(n[0], lambda i: sym_item(x, [i]))
        return _b.list(x)


class sym_tuple(metaclass=type("_TM", (type,), {"__instancecheck__": lambda c, o: isinstance(o, (_b.tuple,))})):
    def __new__(cls, x=()):
        if isinstance(x, SymList) or is_sym(x):
            return sym_list(x)
        return _b.tuple(x)
