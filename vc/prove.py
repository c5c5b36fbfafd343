"""Contexts (z3) and the prover of equalities between values."""
import itertools
import z3
from core import *
import core

STATS = {"z3_queries": 0, "z3_time": 0.0, "z3_unknown": 0, "eq_queries": 0}
import time as _time

DEBUG = 0


class Enc:
    """encoding of integer / real terms and conditions into z3"""

    def __init__(self):
        self.c = {}
        self.ax = {}
        self.preds = {}

    def iatom(self, a):
        r = self.c.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == "v":
            r = z3.Int(a.args[0])
        elif k == "fdiv":
            p, d = a.args
            if isinstance(d, int):
                r = self.ip(p) / z3.IntVal(d)
            else:
                r = z3.Int("fdiv#%d" % a.id)
                P_, D = self.ip(p), self.ip(d)
                self.ax[a] = z3.Implies(D > 0, z3.And(D * r <= P_, P_ < D * r + D))
        elif k == "p2":
            p = self.ip(a.args[0])
            r = z3.Int("p2#%d" % a.id)
            self.ax[a] = z3.And(r >= 1, z3.Implies(p >= 1, z3.And(r >= p, r < 2 * p)), z3.Or(r == 1, r % 2 == 0))
        elif k == "clog2":
            r = z3.Int("clog2#%d" % a.id)
            p = self.ip(a.args[0])
            self.ax[a] = z3.And(r >= 0, z3.Implies(p <= 1, r == 0), z3.Implies(p >= 2, z3.And(r >= 1, r < p)))
        elif k in ("asg", "asgx"):
            # column assigned to row: in range (contract of the assignment solver)
            r = z3.Int("asg#%d" % a.id)
            self.ax[a] = z3.And(r >= 0, r < self.ip(a.args[1]))
        elif k == "ind":
            r = z3.If(self.cond(a.args[0]), z3.IntVal(1), z3.IntVal(0))
        elif k == "abs":
            x = self.ip(a.args[0])
            r = z3.If(x >= 0, x, -x)
        elif k in ("max", "min"):
            r = self.ip(a.args[0][0])
            for q in a.args[0][1:]:
                x = self.ip(q)
                r = z3.If(r >= x, r, x) if k == "max" else z3.If(r <= x, r, x)
        else:
            r = z3.Int("%s#%d" % (k, a.id))
            if k == "intfn":
                lo, hi = a.args[2], a.args[3]
                self.ax[a] = z3.And(r >= self.ip(lo), r < self.ip(hi))
        self.c[a] = r
        return r

    def ip(self, p):
        terms = []
        for m, c in p.t.items():
            if not isinstance(c, int):
                raise Unsupported("non integer coefficient")
            q = None
            for a, e in m:
                x = self.iatom(a)
                for _ in range(e):
                    q = x if q is None else q * x
            terms.append(z3.IntVal(c) if q is None else (q if c == 1 else c * q))
        if not terms:
            return z3.IntVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def ratom(self, a):
        key = ("r", a)
        r = self.c.get(key)
        if r is not None:
            return r
        if a.is_int:
            r = z3.ToReal(self.iatom(a))
        elif a.kind == "ind":
            r = z3.If(self.cond(a.args[0]), z3.RealVal(1), z3.RealVal(0))
        elif a.kind in ("max", "min"):
            r = self.rp(a.args[0][0])
            for q in a.args[0][1:]:
                x = self.rp(q)
                r = z3.If(r >= x, r, x) if a.kind == "max" else z3.If(r <= x, r, x)
        elif a.kind == "abs":
            x = self.rp(a.args[0])
            r = z3.If(x >= 0, x, -x)
        else:
            r = z3.Real("%s#%d" % (a.kind, a.id))
            if a.kind == "sqrt":
                x = self.rp(a.args[0])
                self.ax[key] = z3.And(r >= 0, z3.Implies(x >= 0, r * r == x))
            elif a.kind == "exp10" or (a.kind == "rsym" and a.args[1] == "pos"):
                self.ax[key] = r > 0
            elif a.kind == "rsym" and a.args[1] == "nonneg":
                self.ax[key] = r >= 0
            elif a.kind == "sum" and self._sumsq(a):
                self.ax[key] = r >= 0
        self.c[key] = r
        return r

    @staticmethod
    def _sumsq(a):
        return all(e % 2 == 0 and core.is_real_atom(b) for m in a.args[2].t for b, e in m)

    def rp(self, p):
        terms = []
        for m, c in p.t.items():
            q = z3.RealVal(str(c))
            for a, e in m:
                x = self.ratom(a)
                for _ in range(abs(e)):
                    q = q * x if e > 0 else q / x
            terms.append(q)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def cond(self, c):
        k = c.kind
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        if k == "ge":
            return self.ip(c.p) >= 0
        if k == "eq":
            return self.ip(c.p) == 0
        if k == "ne":
            return self.ip(c.p) != 0
        if k in ("pred", "npred"):
            nm = c.args[0]
            if nm == "rge":
                r = self.rp(c.args[1]) >= 0
            elif nm == "req":
                r = self.rp(c.args[1]) == 0
            elif nm in ("and", "or"):
                r = (z3.And if nm == "and" else z3.Or)([self.cond(x) for x in c.args[1]])
            else:
                r = self.preds.get(c.args)
                if r is None:
                    r = z3.Bool("pred#%d#%s" % (len(self.preds), nm))
                    self.preds[c.args] = r
            return r if k == "pred" else z3.Not(r)
        raise AssertionError(k)


class Ctx:
    def __init__(self, facts=()):
        self.facts = tuple(f for f in facts if f.kind != "true")
        self.key = frozenset(self.facts)
        self._cache = _CACHES.setdefault(self.key, {})

    def plus(self, *conds):
        new = [c for c in conds if c.kind != "true" and c not in self.key]
        if not new:
            return self
        return Ctx(self.facts + tuple(new))

    def _check(self, build, timeout=4000):
        STATS["z3_queries"] += 1
        t0 = _time.time()
        e = Enc()
        s = z3.SolverFor("QF_NIA") if False else z3.Solver()
        s.set("timeout", timeout)
        try:
            fs = [e.cond(f) for f in self.facts]
            q = build(e)
        except z3.Z3Exception as ex:
            raise Unsupported("z3 encoding: %s" % ex)
        s.add(*fs)
        s.add(*(q if isinstance(q, list) else [q]))
        s.add(*e.ax.values())
        r = s.check()
        if r == z3.unknown:
            STATS["z3_unknown"] += 1
        STATS["z3_time"] += _time.time() - t0
        return r, s, e

    def entails(self, c):
        if c.kind == "true" or c in self.key:
            return True
        if c.kind == "false":
            return not self.feasible()
        k = ("e", c)
        r = self._cache.get(k)
        if r is None:
            r = self._check(lambda e: z3.Not(e.cond(c)))[0] == z3.unsat
            self._cache[k] = r
        return r

    def feasible(self, *conds):
        conds = [c for c in conds if c.kind != "true"]
        if any(c.kind == "false" for c in conds):
            return False
        k = ("f", frozenset(conds))
        r = self._cache.get(k)
        if r is None:
            r = self._check(lambda e: [e.cond(c) for c in conds])[0] != z3.unsat
            self._cache[k] = r
        return r

    def model(self, *conds, prefer=(), timeout=4000):
        r, s, e = self._check(lambda e: [e.cond(c) for c in conds], timeout)
        if r != z3.sat:
            return None
        return s.model(), e

    def eqv(self, ga, gb):
        """conjunctions equivalent"""
        ga, gb = frozenset(ga), frozenset(gb)
        if ga == gb:
            return True
        k = ("q", ga, gb)
        r = self._cache.get(k)
        if r is None:
            def b(e):
                A = z3.And([e.cond(c) for c in ga])
                B = z3.And([e.cond(c) for c in gb])
                return A != B

            r = self._check(b)[0] == z3.unsat
            self._cache[k] = r
        return r

    def int_zero(self, p):
        if p.is_zero():
            return True
        if p.is_const():
            return not self.feasible()
        return self.entails(eqc(p))


_CACHES = {}


class Prover:
    """proves value equalities; self.trace collects the residual of a failed proof"""

    def __init__(self, timeout=60.0):
        self.deadline = _time.time() + timeout
        self.fail = None

    def tick(self):
        if _time.time() > self.deadline:
            raise Unsupported("prover timeout")

    # ---- simplification under a context
    def simp(self, p, ctx):
        res = {}
        extra = ZERO
        for m, c in p.t.items():
            m2 = []
            dead = False
            add = None
            for a, e in m:
                if a.kind == "ind":
                    cd = a.args[0]
                    if ctx.entails(cd):
                        continue
                    if ctx.entails(neg_cond(cd)):
                        dead = True
                        break
                elif a.kind == "sum" and e > 0:
                    s = self.simp_sum(a, ctx)
                    if s is not None:
                        if s.is_zero():
                            dead = True
                            break
                        add = (s ** e) if add is None else add * s ** e
                        continue
                elif a.kind == "solve" and e > 0 and self.solve_zero(a, ctx):
                    dead = True
                    break
                elif a.kind in ("max", "min"):
                    s = self.simp_mm(a, ctx)
                    if s is not None:
                        s = s ** e if e > 0 else inv(s) ** (-e)
                        add = s if add is None else add * s
                        continue
                m2.append((a, e))
            if dead:
                continue
            if add is not None:
                extra = extra + P({tuple(m2): c}) * add
            else:
                m2 = tuple(m2)
                v = core._nc(res.get(m2, 0) + c)
                if v == 0:
                    res.pop(m2, None)
                else:
                    res[m2] = v
        r = P(res)
        if not extra.is_zero():
            return self.simp(r + extra, ctx)
        return r

    def simp_sum(self, a, ctx):
        k = ("ss", a)
        if k in ctx._cache:
            return ctx._cache[k]
        vs, gd, body = a.args
        r = None
        if not ctx.feasible(*gd):
            r = ZERO
        elif body == ONE and len(vs) == 1:
            r = self.count(a, ctx)
        elif any(b.kind in ("solve", "sum", "max", "min") for m in body.t for b, _ in m):
            o = open_sum(a)
            if self.simp(o[2], ctx.plus(*o[1])).is_zero():
                r = ZERO
        ctx._cache[k] = r
        return r

    def solve_zero(self, a, ctx):
        k = ("sz", a)
        r = ctx._cache.get(k)
        if r is None:
            dims, rv, cv, A, b, idx = open_solve(a)
            cx = ctx
            for v, d in zip(rv, dims):
                cx = cx.plus(*rng(v, d))
            r = self.simp(b, cx).is_zero()
            ctx._cache[k] = r
        return r

    def count(self, a, ctx):
        vs, gd, body = open_sum(a)
        v = vs[0]
        los, his = [], []
        for g in gd:
            if g.kind != "ge":
                return None
            k = core._lin(g.p, v)
            if k == 1:
                los.append(toP(v) - g.p)
            elif k == -1:
                his.append(g.p + toP(v))
            else:
                return None
        if not los or not his:
            return None

        def best(xs, better):
            for x in xs:
                if all(y == x or ctx.entails(better(x, y)) for y in xs):
                    return x
            return None

        lo = best(los, lambda x, y: ge(x, y))
        hi = best(his, lambda x, y: ge(y, x))
        if lo is None or hi is None:
            return None
        n = hi - lo + 1
        return ite(ge(n), n, ZERO)

    def simp_mm(self, a, ctx):
        if not any(f.kind in ("pred", "npred") for f in ctx.facts):
            return None
        args = a.args[0]
        for x in args:
            others = [y for y in args if y is not x]
            if all(ctx.entails(rge(x - y) if a.kind == "max" else rge(y - x)) for y in others):
                return x
        return None

    # ---- equality
    def eq(self, a, b, ctx):
        STATS["eq_queries"] += 1
        return self.zero(toP(a) - toP(b), ctx)

    def zero(self, D, ctx, splits=0):
        self.tick()
        if D.is_zero():
            return True
        D = self.simp(D, ctx)
        if D.is_zero():
            return True
        # case split
        cs = self.pick_cond(D, ctx)
        if cs is not None:
            if splits > 24:
                raise Unsupported("too many case distinctions")
            for c in (cs, neg_cond(cs)):
                if ctx.feasible(c):
                    D1 = assume_cond(D, c)
                    if c.kind == "eq":
                        # eliminate a variable
                        for v in sorted(c.p.fv & D1.fv, key=lambda x: -x.id):
                            k = core._lin(c.p, v)
                            if k in (1, -1):
                                D1 = subst(D1, {v: toP(v) - c.p * k})
                                break
                    if not self.zero(D1, ctx.plus(c), splits + 1):
                        return False
            return True
        if D.is_int:
            if ctx.int_zero(D):
                return True
        # merge provably equal atoms
        D = self.merge(D, ctx)
        if D.is_zero():
            return True
        D2 = self.merge_sums(D, ctx)
        if D2.is_zero():
            return True
        # clear denominators
        dens = {}
        for m in D2.t:
            for a, e in m:
                if e < 0:
                    dens[a] = max(dens.get(a, 0), -e)
        if dens and splits < 24:
            E = D2
            for a, e in dens.items():
                E = E * (a.args[0] ** e if a.kind == "poly" else toP(a) ** e)
            if E != D2 and len(E.t) < 400:
                E = self.simp(E, ctx)
                if E.is_zero():
                    return True
                if not any(e < 0 for m in E.t for _, e in m):
                    if self.zero(E, ctx, splits + 8):
                        return True
                    return False
        if self.arith(D2, ctx):
            return True
        if DEBUG:
            print("  RESID", show(D2)[:DEBUG], "|| ctx", [c for c in ctx.facts[-6:]])
        if self.fail is None:
            self.fail = (D2, ctx)
        return False

    def pick_cond(self, D, ctx):
        for m in D.t:
            for a, _ in m:
                if a.kind == "ind":
                    return a.args[0]
        return None

    def arith(self, D, ctx):
        atoms = set(a for m in D.t for a, _ in m)
        if not all(a.is_int or a.kind in ("rsym", "max", "min", "abs", "exp10") for a in atoms):
            return False
        k = ("az", D)
        if k not in ctx._cache:
            ctx._cache[k] = ctx._check(lambda e: e.rp(D) != 0, timeout=3000)[0] == z3.unsat
        return ctx._cache[k]

    MERGE = {"el", "sum", "solve", "dft", "idft", "pcg", "sqrt", "max", "min", "log10", "abs", "poly", "fn", "agg", "asg", "asgx", "ufn", "exp10", "intfn", "fdiv", "p2"}

    def merge(self, D, ctx):
        reps = {}
        mp = {}
        atoms = sorted(set(a for m in D.t for a, _ in m if a.kind in self.MERGE), key=lambda a: a.id)
        for a in atoms:
            for r in reps.setdefault(self.sig(a), []):
                if self.atom_eq(r, a, ctx):
                    mp[a] = r
                    break
            else:
                reps[self.sig(a)].append(a)
        if not mp:
            return D
        res = ZERO
        for m, c in D.t.items():
            q = P({(): c})
            for a, e in m:
                b = mp.get(a, a)
                q = q * core._powP(b, e)
            res = res + q
        return self.simp(res, ctx)

    def sig(self, a):
        k = a.kind
        if k in ("el", "fn", "agg", "intfn"):
            return (k, a.args[0])
        if k in ("sum",):
            return (k, len(a.args[0]), tuple(sorted(repr(self.sig(b)) + str(e) for m in a.args[2].t for b, e in m)))
        if k in ("solve",):
            return (k, len(a.args[1]))
        return (k,)

    def atom_eq(self, a, b, ctx):
        if a is b:
            return True
        key = ("ae", a, b)
        r = ctx._cache.get(key)
        if r is None:
            sv = self.fail
            r = self._atom_eq(a, b, ctx)
            if not r and sv is None and self.fail is not None and a.kind in ("el",):
                self.fail = sv
            ctx._cache[key] = r
        return r

    def all_eq(self, xs, ys, ctx):
        return len(xs) == len(ys) and all(self.eq(x, y, ctx) for x, y in zip(xs, ys))

    def _atom_eq(self, a, b, ctx):
        self.tick()
        k = a.kind
        if k != b.kind:
            return False
        if k == "el":
            return a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]) and all(
                ctx.int_zero(x - y) for x, y in zip(a.args[1], b.args[1])
            )
        if k in ("sqrt", "log10", "abs", "poly", "exp10"):
            if self.eq(a.args[0], b.args[0], ctx):
                return True
            return k == "abs" and self.eq(a.args[0], -b.args[0], ctx)
        if k in ("max", "min"):
            xs, ys = list(a.args[0]), list(b.args[0])
            if len(xs) != len(ys):
                return False
            for perm in itertools.permutations(ys):
                if self.all_eq(xs, perm, ctx):
                    return True
            return False
        if k == "fn":
            return a.args[0] == b.args[0] and self.all_eq(a.args[1], b.args[1], ctx)
        if k == "fdiv":
            return all(self.eq(x, y, ctx) for x, y in zip(a.args, b.args))
        if k == "p2":
            return ctx.int_zero(a.args[0] - b.args[0])
        if k == "sum":
            return self.sum_eq(a, b, ctx)
        if k == "solve":
            return self.solve_eq(a, b, ctx)
        if k == "dft":
            n1, k1, v1, g1, b1, c1 = open_dft(a)
            n2, k2, v2, g2, b2, c2 = open_dft(b)
            if c1 != c2 or not ctx.int_zero(n1 - n2) or not ctx.int_zero(k1 - k2):
                return False
            mp = {v2: toP(v1)}
            cx = ctx.plus(*rng(v1, n1))
            g2 = [ren(c, mp) for c in g2]
            if not cx.eqv(g1, g2):
                return False
            return self.eq(b1, ren(b2, mp), cx.plus(*g1))
        if k == "idft":
            n1, k1, M1, u1 = open_idft(a)
            n2, k2, M2, u2 = open_idft(b)
            if not ctx.int_zero(n1 - n2) or not ctx.int_zero(u1 - u2):
                return False
            return self.eq(M1, ren(M2, {k2: toP(k1)}), ctx.plus(*rng(k1, n1)))
        if k == "pcg":
            d1, d2 = open_pcg(a), open_pcg(b)
            if d1["which"] != d2["which"] or len(d1["jv"]) != len(d2["jv"]):
                return False
            if not self.all_eq(d1["dims"], d2["dims"], ctx) or not self.eq(d1["n"], d2["n"], ctx) or not self.all_eq(d1["idx"], d2["idx"], ctx):
                return False
            mp = {v: toP(w) for v, w in zip(d2["jv"], d1["jv"])}
            cx = ctx
            for v, n in zip(d1["jv"], d1["dims"]):
                cx = cx.plus(*rng(v, n))
            return all(self.eq(d1[q], ren(d2[q], mp), cx) for q in ("b", "x0", "Av", "Mv"))
        if k == "agg":
            if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]) or a.is_int != b.is_int:
                return False
            v1, c1, b1 = _open_agg(a)
            v2, c2, b2 = _open_agg(b)
            for perm in itertools.permutations(v1):
                mp = {v: toP(w) for v, w in zip(v2, perm)}
                cc = [ren(c, mp) for c in c2]
                c1m, ccm = self.unify_preds(c1, cc, ctx)
                if ctx.eqv(c1m, ccm) and self.eq(b1, ren(b2, mp), ctx.plus(*c1)):
                    return True
            return False
        if k in ("asg", "asgx", "intfn", "ufn"):
            if len(a.args) != len(b.args):
                return False
            for x, y in zip(a.args, b.args):
                if isinstance(x, Lam):
                    if not isinstance(y, Lam) or not self.lam_eq(x, y, ctx):
                        return False
                elif isinstance(x, P):
                    if not self.eq(x, y, ctx):
                        return False
                elif isinstance(x, tuple):
                    if not self.all_eq(x, y, ctx):
                        return False
                elif x != y:
                    return False
            return True
        return False

    def lam_eq(self, x, y, ctx):
        if len(x.vs) != len(y.vs):
            return False
        fs = [fresh("l") for _ in x.vs]
        cx = ctx
        for f, d1, d2 in zip(fs, x.dims, y.dims):
            if not ctx.int_zero(d1 - d2):
                return False
            cx = cx.plus(*rng(f, d1))
        return self.eq(x.at(fs), y.at(fs), cx)

    def unify_preds(self, g1, g2, ctx):
        """rewrite the opaque predicates of g2 that are provably those of g1"""
        out = []
        p1 = [c for c in g1 if c.kind in ("pred", "npred")]
        for c in g2:
            if c.kind in ("pred", "npred") and c not in p1:
                for d in p1:
                    if d.args[0] == c.args[0] and len(d.args) == len(c.args) and all(
                        isinstance(x, P) and isinstance(y, P) and self.eq(x, y, ctx) or x == y
                        for x, y in zip(d.args[1:], c.args[1:])
                    ):
                        c = Cond(c.kind, None, d.args)
                        break
            out.append(c)
        return list(g1), out

    def solve_eq(self, a, b, ctx):
        d1, r1, c1, A1, b1, i1 = open_solve(a)
        d2, r2, c2, A2, b2, i2 = open_solve(b)
        if len(d1) != len(d2):
            return False
        cx = ctx
        for v, n in list(zip(r1, d1)) + list(zip(c1, d1)):
            cx = cx.plus(*rng(v, n))
        for perm in itertools.permutations(range(len(d1))):
            if not all(ctx.int_zero(d1[perm[k]] - d2[k]) and ctx.int_zero(i1[perm[k]] - i2[k]) for k in range(len(d1))):
                continue
            mp = {r2[k]: toP(r1[perm[k]]) for k in range(len(d1))}
            mp.update({c2[k]: toP(c1[perm[k]]) for k in range(len(d1))})
            if self.eq(b1, ren(b2, mp), cx) and self.eq(A1, ren(A2, mp), cx):
                return True
        return False

    # ---- sums
    def body_atoms(self, body):
        (m, c), = body.t.items()
        return [(a, e) for a, e in m]

    def equations(self, a, b):
        """index equations suggested by matching atom a with atom b"""
        if a.kind == "el" and b.kind == "el":
            return list(zip(a.args[1], b.args[1])) if a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]) else None
        if a.kind != b.kind:
            return None
        if a.kind == "solve":
            return list(zip(a.args[5], b.args[5])) if len(a.args[5]) == len(b.args[5]) else None
        if a.kind == "pcg":
            return list(zip(a.args[8], b.args[8])) if len(a.args[8]) == len(b.args[8]) else None
        if a.kind == "v":
            return [(toP(a), toP(b))]
        if a.kind == "idft":
            return [(a.args[3], b.args[3])]
        if a.kind == "dft":
            return [(a.args[1], b.args[1])]
        return []

    def matchings(self, A, B):
        """bijections between body atoms, by kind and power"""
        if len(A) != len(B):
            return
        used = [False] * len(B)
        cur = []

        def rec(i):
            if i == len(A):
                yield list(cur)
                return
            a, e = A[i]
            for j, (b, f) in enumerate(B):
                if used[j] or e != f:
                    continue
                eqs = self.equations(a, b)
                if eqs is None:
                    continue
                used[j] = True
                cur.append((a, b, eqs))
                yield from rec(i + 1)
                cur.pop()
                used[j] = False

        yield from rec(0)

    def solve_map(self, va, vb, match):
        """candidate maps vb -> P(va)"""
        todo = [(x, y) for _, _, eqs in match for x, y in eqs]
        mp = {}
        rest = set(vb)
        progress = True
        while rest and progress:
            progress = False
            for x, y in todo:
                y2 = subst(y, mp) if mp else y
                un = [v for v in rest if v in y2.fv]
                if len(un) == 1:
                    v = un[0]
                    k = core._lin(y2, v)
                    if k in (1, -1):
                        mp[v] = (x - y2 + toP(v) * k) * k
                        rest.discard(v)
                        progress = True
        if not rest:
            yield mp
            return
        usedv = set()
        for p in mp.values():
            usedv |= set(p.fv)
        free = [v for v in va if v not in usedv] or list(va)
        rest = sorted(rest, key=lambda v: v.id)
        if len(free) < len(rest):
            free = list(va)
        for perm in itertools.permutations(free, len(rest)):
            m2 = dict(mp)
            for v, w in zip(rest, perm):
                m2[v] = toP(w)
            yield m2

    def unimodular(self, va, vb, mp):
        M = []
        for v in vb:
            row = []
            for w in va:
                k = core._lin(mp[v], w)
                if k is None or not isinstance(k, int):
                    return False
                row.append(k)
            M.append(row)
        n = len(M)
        if n == 1:
            return abs(M[0][0]) == 1
        import fractions

        A = [[fractions.Fraction(x) for x in r] for r in M]
        det = fractions.Fraction(1)
        for i in range(n):
            pv = next((r for r in range(i, n) if A[r][i] != 0), None)
            if pv is None:
                return False
            if pv != i:
                A[i], A[pv] = A[pv], A[i]
                det = -det
            det *= A[i][i]
            for r in range(i + 1, n):
                f = A[r][i] / A[i][i]
                for c in range(i, n):
                    A[r][c] -= f * A[i][c]
        return abs(det) == 1

    def sum_maps(self, oa, ob, ctx, limit=24):
        """maps under which the bodies coincide (guards ignored except as context)"""
        va, ga, ba = oa
        vb, gb, bb = ob
        if len(va) != len(vb):
            return
        A, B = self.body_atoms(ba), self.body_atoms(bb)
        n = 0
        for match in self.matchings(A, B):
            for mp in self.solve_map(va, vb, match):
                n += 1
                if n > limit:
                    return
                if not self.unimodular(va, vb, mp):
                    continue
                cx = ctx.plus(*ga)
                g2 = [subst(g, mp) for g in gb]
                if not cx.feasible(*g2):
                    cx2 = cx
                else:
                    cx2 = cx.plus(*g2)
                ok = True
                for a, b, eqs in match:
                    b2 = subst(toP(b), mp)
                    if b2 == toP(a):
                        continue
                    if len(b2.t) == 1 and list(b2.t.values())[0] == 1 and len(list(b2.t)[0]) == 1 and list(b2.t)[0][0][1] == 1:
                        if not self.atom_eq(a, list(b2.t)[0][0][0], cx2):
                            ok = False
                            break
                    elif not self.eq(toP(a), b2, cx2):
                        ok = False
                        break
                if ok:
                    yield mp, g2

    def sum_eq(self, a, b, ctx):
        oa, ob = open_sum(a), open_sum(b)
        for mp, g2 in self.sum_maps(oa, ob, ctx):
            if ctx.eqv(oa[1], g2):
                return True
        return False

    def merge_sums(self, D, ctx):
        """cancel groups of sums with the same summand over complementary index sets"""
        groups = []
        keep = ZERO
        for m, c in D.t.items():
            sums = [(a, e) for a, e in m if a.kind == "sum" and e == 1]
            if len(sums) == 0:
                keep = keep + P({m: c})
                continue
            placed = False
            for s, _ in sums:
                rest = tuple((a, e) for a, e in m if a is not s)
                for g in groups:
                    if g["rest"] == rest and g["sig"] == self.sig(s):
                        for mp, g2 in self.sum_maps(g["o"], open_sum_raw(s), ctx):
                            g["terms"].append((c, g2, m))
                            placed = True
                            break
                    if placed:
                        break
                if placed:
                    break
            if not placed:
                s = sums[0][0] if len(sums) == 1 else max(sums, key=lambda x: x[0].id)[0]
                rest = tuple((a, e) for a, e in m if a is not s)
                o = open_sum(s)
                groups.append({"rest": rest, "sig": self.sig(s), "o": o, "terms": [(c, o[1], m)]})
        res = keep
        for g in groups:
            if len(g["terms"]) > 1:
                from math import lcm

                L = lcm(*[Fraction(c).denominator for c, _, _ in g["terms"]])
                cs = [int(c * L) for c, _, _ in g["terms"]]
                gs = [x for _, x, _ in g["terms"]]

                def b(e):
                    return z3.Sum([z3.If(z3.And([e.cond(q) for q in gg]), c, 0) for c, gg in zip(cs, gs)]) != 0

                if ctx._check(b)[0] == z3.unsat:
                    continue
            for c, _, m in g["terms"]:
                res = res + P({m: c})
        return res


def open_sum_raw(s):
    return open_sum(s)


def _open_agg(a):
    name, cv, conds, body = a.args
    fs = [fresh("g") for _ in cv]
    mp = {v: toP(w) for v, w in zip(cv, fs)}
    return fs, [ren(c, mp) for c in conds], ren(body, mp)


class Lam(core.Closed):
    """a closed lambda over index variables (argument of opaque functions)"""

    def __init__(self, dims, f):
        fs = [fresh("l") for _ in dims]
        self._set(dims, fs, f(*[toP(v) for v in fs]))

    def _set(self, dims, fs, body):
        d = 1 + body.depth
        self.vs = tuple(canon("_l", d, i) for i in range(len(fs)))
        self.dims = tuple(toP(x) for x in dims)
        self.body = ren(body, {v: toP(w) for v, w in zip(fs, self.vs)})
        self._h = hash((self.dims, self.body, len(self.vs)))
        self.depth_ = d
        self.fvs = (self.body.fv - frozenset(self.vs)) | core._fv(self.dims)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lam) and o.dims == self.dims and o.body == self.body

    def __repr__(self):
        return "\\%s. %s" % (",".join(v.args[0] for v in self.vs), show(self.body))

    def at(self, idx):
        return subst(self.body, {v: toP(i) for v, i in zip(self.vs, idx)})

    def map(self, f):
        fs = [fresh("l") for _ in self.vs]
        body = self.at(fs)
        r = Lam.__new__(Lam)
        r._set([f(d) for d in self.dims], fs, f(body))
        return r
