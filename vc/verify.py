"""Verification conditions: the real functions are executed symbolically on arbitrary inputs and every
path is compared with the postcondition of the contract."""
import inspect
import itertools
import multiprocessing
import signal
import time
import traceback

from core import *
import core
import prove
from prove import Prover, Lam
from ex import *
from ex import ST, explore
import tensor as T
from tensor import Tensor, NpTensor, PtTensor, input_tensor, freshs, Ps, same
from loader import Program
import contracts as C
from contracts import NotCovered
import mspec

CLS = {"numpy": NpTensor, "torch": PtTensor}


class Case:
    """one verification problem: function x configuration"""

    def __init__(self, name, be, run, spec, facts=(), focus=(), props=(), stubs=(), tags=None, opt=None, aspects=None, modes=("modular", "inline")):
        self.name, self.be, self.run, self.spec = name, be, run, spec
        self.facts, self.focus, self.props, self.stubs = list(facts), list(focus), props, stubs
        self.opt = opt or {}
        self.aspects = aspects
        self.modes = modes
        self.config = {}


def stub(prog, modname, attr, make):
    """replace a function of the loaded package by its contract"""
    m = prog.mods.get(modname)
    if m is None or not hasattr(m, attr):
        return False
    real = getattr(m, attr)
    new = make(real)
    if new is None:
        return False
    for k in ("__name__", "__qualname__", "__module__", "__doc__"):
        if hasattr(real, k) and new is not real:
            try:
                setattr(new, k, getattr(real, k))
            except (AttributeError, TypeError):
                pass
    prog.patch(real, new)
    return True


def spec_stub(real, name):
    """the contract as a function with the signature of the real one"""
    c = C.REG[name]
    try:
        sig = inspect.signature(real)
    except (TypeError, ValueError):
        return None
    names = {n: "axis" if n == "dim" and "axis" in c.params else n for n in sig.parameters}
    if set(names.values()) != set(c.params):
        return None

    def f(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        try:
            return C.use(name, **{names[n]: v for n, v in b.arguments.items()})
        except NotCovered:
            return real(*a, **k)

    return f


def lsa_stub(real):
    def f(cost_matrix):
        M = cost_matrix
        if not isinstance(M, Tensor) or M.ndim != 2:
            return real(cost_matrix)
        n, m = T.axsize(M.axes[0]), T.axsize(M.axes[1])
        if not decide(le(n, m)):
            return real(cost_matrix)
        fun = lambda i, j: M.at([(toP(i),) if M.axes[0] else (), (toP(j),) if M.axes[1] else ()])
        g = mspec.best_assignment(fun, n, m)
        cls = type(M)
        rows = T.arange(cls, [lift(n)])
        cols = mspec.build(cls, [], [n], lambda b, i: g(i), "int64")
        return rows, cols

    return f


class Ob:
    __slots__ = ("name", "aspect", "status", "detail")

    def __init__(self, name, aspect, status, detail=""):
        self.name, self.aspect, self.status, self.detail = name, aspect, status, detail


def flat(v, pre="result"):
    if isinstance(v, (tuple, list)):
        out = [(pre, "tuple", len(v))]
        for i, x in enumerate(v):
            out += flat(x, "%s[%d]" % (pre, i))
        return out
    if isinstance(v, Tensor):
        return [(pre, "tensor", v)]
    return [(pre, "other", v)]


def compare(out, sp, st, focus, prover_s, obs, want=None):
    fo, fs = flat(out), flat(sp)
    if [(n, k) for n, k, _ in fo] != [(n, k) for n, k, _ in fs]:
        obs.append(Ob("structure", "shape", "failed", "%s instead of %s" % ([k for _, k, _ in fo], [k for _, k, _ in fs])))
        return
    for (n, k, a), (_, _, b) in zip(fo, fs):
        if k == "tuple":
            ok = a == b
            obs.append(Ob(n + ": number of results", "shape", "proved" if ok else "failed"))
        elif k == "other":
            ok = a == b if not isinstance(a, (SV, SB)) else st.ctx.entails(eqc(toP(a), toP(b)))
            obs.append(Ob(n + ": value", "value", "proved" if ok else "failed"))
        else:
            ok = type(a) is type(b)
            obs.append(Ob(n + ": array type", "class", "proved" if ok else "failed"))
            ok = a.dt == b.dt
            obs.append(Ob(n + ": dtype", "dtype", "proved" if ok else "failed", "" if ok else "%s instead of %s" % (a.dt, b.dt)))
            if a.g is not None or b.g is not None or type(a) is PtTensor:
                ok = a.g == b.g or st.nograd_env or any(st.ctx.entails(eqc(T.axsize(x))) for x in b.axes)
                obs.append(Ob(n + ": gradient", "grad", "proved" if ok else "failed", "" if ok else "%s instead of %s" % (a.g, b.g)))
            ok = a.ndim == b.ndim and all(
                st.ctx.entails(eqc(T.axsize(x), T.axsize(y))) for x, y in zip(a.axes, b.axes)
            )
            obs.append(Ob(n + ": shape", "shape", "proved" if ok else "failed", "" if ok else "%s instead of %s" % (a.shape, b.shape)))
            if not ok:
                continue
            if want is None or "value" in want:
                obs.append(value_ob(n + ": value", a, b, st, focus, prover_s))


def value_ob(name, a, b, st, focus, prover_s):
    t0 = time.time()
    try:
        cx = st.ctx
        ia, ib = [], []
        foc = list(focus)
        axes = []
        for x, y in zip(a.axes, b.axes):
            if len(x) == len(y) and all(p == q or cx.entails(eqc(p, q)) for p, q in zip(x, y)):
                v = []
                for d in x:
                    if foc and T.same(d, foc[0][1]):
                        w = foc.pop(0)[0]
                    else:
                        w = fresh("x")
                    cx = cx.plus(*rng(w, d))
                    v.append(toP(w))
                ia.append(tuple(v))
                ib.append(tuple(v))
            else:
                # different factorisations of the same size (e.g. a dimension which is one on this path)
                xx = [(d, cx.entails(eqc(d, 1))) for d in x]
                yy = [(d, cx.entails(eqc(d, 1))) for d in y]
                xs = [d for d, o in xx if not o]
                ys = [d for d, o in yy if not o]
                if len(xs) != len(ys) or not all(cx.entails(eqc(p, q)) for p, q in zip(xs, ys)):
                    return Ob(name, "value", "undecided", "axes %s and %s" % (x, y))
                v = []
                for d in xs:
                    w = fresh("x")
                    cx = cx.plus(*rng(w, d))
                    v.append(toP(w))
                va, vb = list(v), list(v)
                ia.append(tuple(ZERO if o else va.pop(0) for d, o in xx))
                ib.append(tuple(ZERO if o else vb.pop(0) for d, o in yy))
        if not cx.feasible():
            return Ob(name, "value", "proved", "empty")
        pa, pb = a.at(ia), b.at(ib)
        p = Prover(prover_s)
        ok = p.eq(pa, pb, cx)
        if ok:
            return Ob(name, "value", "proved")
        d = ""
        if p.fail:
            try:
                d = show(p.fail[0])[:400]
            except Exception:
                d = "?"
        return Ob(name, "value", "failed", d)
    except Unsupported as e:
        return Ob(name, "value", "undecided", "prover: %s" % e)
    except RecursionError:
        return Ob(name, "value", "undecided", "recursion limit")


def model_dims(ctx, hint=()):
    """small values of the integer symbols on a path"""
    import z3

    names = sorted({v for f in ctx.facts for v in _ivars(f)}, key=str)
    return names


def _ivars(c):
    return [v for v in c.fv]


def path_model(ctx, syms):
    """model of the path: {name: int}; several tries with bounds so that it can be replayed"""
    import z3

    for bound in (6, 12, 40, 400, None):
        try:
            def b(e):
                o = []
                for n, s in syms.items():
                    x = e.ip(toP(s))
                    if bound is not None:
                        o.append(x <= bound)
                o.append(z3.BoolVal(True))
                return o

            r, s, e = ctx._check(b, 3000)
            if r == z3.sat:
                m = s.model()
                out = {}
                for n, q in syms.items():
                    v = m.eval(e.ip(toP(q)), model_completion=True)
                    out[n] = v.as_long()
                return out
        except Exception:
            return None
    return None


class TimeUp(BaseException):
    pass


def _alarm(*a):
    raise TimeUp()


def limited(f, seconds):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds, 3)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


SLOW = multiprocessing.get_context("fork").Value("i", 0)


def run_case(case, prover_s=60, modes=None, limit={"modular": 120, "inline": 60}):
    """tries the modular proof first (callees replaced by their contracts), then with the callees inlined"""
    t0 = time.time()
    best = None
    for mode in modes or case.modes:
        # many cases that do not terminate must not use up the time of the others
        k = SLOW.value
        try:
            res = limited(lambda: run_mode(case, mode, prover_s), limit[mode] / (1 if k < 3 else 2 if k < 8 else 4 if k < 16 else 8))
        except TimeUp:
            with SLOW.get_lock():
                SLOW.value += 1
            res = {"case": case.name, "paths": [], "obligations": [], "error": "time limit (%s)" % mode, "stats": {}}
            ST[0] = None
        res["mode"] = mode
        n = sum(o[3] != "proved" for o in res["obligations"]) + (10**6 if res["error"] else 0)
        if best is None or n < best[0]:
            best = (n, res)
        if n == 0:
            break
    best[1]["seconds"] = round(time.time() - t0, 2)
    return best[1]


def run_mode(case, mode, prover_s):
    t0 = time.time()
    C.USE_OPAQUE[0] = mode == "modular"
    res = {"case": case.name, "paths": [], "obligations": [], "error": None}
    st0 = dict(prove.STATS)
    T.CUR_BACKEND = case.be

    def run(S):
        out = exc = None
        try:
            out = case.run(S)
        except (Unsupported, NotCovered):
            raise
        except Exception as e:
            exc = e
            del S.loop_stores[:]
            del S.loop_decisions[:]
        if S.loop_stores:
            raise Unsupported("loop left early")
        writes = list(S.writes)
        pr = getattr(S, "prog", None)
        if pr is not None:
            ch = pr[0].changed(pr[1])
            if ch:
                # what is proved for this call says nothing on the next one
                raise Unsupported("state that outlives the call: " + ", ".join(ch)[:150])
        try:
            sp = case.spec(S)
            sexc = None
        except Unsupported:
            raise
        except NotCovered:
            raise Unsupported("outside of the precondition")
        except (ValueError, AssertionError, RuntimeError, TypeError) as e:
            sp, sexc = None, e
        return out, exc, sp, sexc, writes

    rs = explore(run, case.facts, dict(case.config, focus=list(case.focus)), max_paths=96)
    syms = case.opt.get("syms", {})
    for i, r in enumerate(rs):
        pid = "path%d" % i
        obs = []
        info = {"facts": [str(f)[:80] for f in r.st.ctx.facts if f not in case.facts][:12]}
        old = ST[0]
        ST[0] = r.st
        try:
            if r.kind == "unsup":
                obs.append(Ob("execution", "exec", "undecided", str(r.value)[:300]))
            elif r.kind == "exc":
                obs.append(Ob("execution", "exec", "undecided", "engine: " + "".join(traceback.format_exception(r.value))[-400:]))
            else:
                out, exc, sp, sexc, writes = r.value
                if exc is not None or sexc is not None:
                    ok = type(exc) is type(sexc)
                    det = "" if ok else "raises %r, specified %r" % (exc, sexc)
                    if not ok and exc is not None:
                        det += " " + "".join(traceback.format_exception(exc))[-500:]
                    obs.append(Ob("exceptions", "exc", "proved" if ok else "failed", det))
                else:
                    obs.append(Ob("exceptions", "exc", "proved"))
                    compare(out, sp, r.st, r.st.focus, prover_s, obs, case.aspects)
                obs.append(Ob("frame: arguments are not written", "frame", "proved" if not writes else "failed", str(writes)[:200]))
                for nm, ok, det in r.st.obl:
                    obs.append(Ob(nm, "pre", "proved" if ok else "failed", str(det)[:200]))
        except Unsupported as e:
            obs.append(Ob("comparison", "exec", "undecided", str(e)[:300]))
        finally:
            ST[0] = old
        bad = [o for o in obs if o.status != "proved"]
        if bad:
            info["model"] = path_model(r.ctx, syms)
        info["n"] = len(obs)
        res["paths"].append(info)
        for o in obs:
            res["obligations"].append([pid, o.name, o.aspect, o.status, o.detail])
    if not rs:
        res["error"] = "no feasible path"
    res["seconds"] = round(time.time() - t0, 2)
    res["stats"] = {k: prove.STATS[k] - st0.get(k, 0) for k in prove.STATS}
    return res
