"""Concrete oracles, one per property.  check_<id>(case) runs the real code on one concrete input
and returns None or a description of the violation; cases_<id>(seed, tier) lists directed and
random cases."""
import itertools
import os
import subprocess
import sys
import warnings

import numpy as np

import common as C
from common import call, close, conv, metrics, pkg, signals, sub, to_np

warnings.filterwarnings("ignore")
np.seterr(all="ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
BES = ("numpy", "torch") if C.have_torch() else ("numpy",)


def bidx(b):
    return list(np.ndindex(*b))


def inp(c, be=None, grad=False):
    ref, est = signals(c)
    dt = c.get("dtype", "float64")
    be = be or c.get("be", "numpy")
    return conv(ref, be, dt, grad, c.get("strided")), conv(est, be, dt, grad, c.get("strided"))


def rounded(c):
    """the float64 value of the inputs the code receives"""
    ref, est = signals(c)
    dt = c.get("dtype", "float64")
    return ref.astype(dt).astype(float), est.astype(dt).astype(float)


def mets(c, ref, est, sar=True):
    return metrics(ref, est, c.get("L", 1), c.get("zero_mean") or False, c.get("load_diag"),
                   c.get("clamp_db"), c.get("dtype", "float64"), sar)


def usable(c):
    return c["K"] >= 1 and c["M"] >= 1 and c["T"] >= 1


# ---------------------------------------------------------------- C01, C02
def cmp_entry(name, got, want, tol):
    if not close(got, want, tol):
        return "%s: got %s, expected %s" % (name, np.asarray(got).tolist(), np.asarray(want).tolist())


def check_C01(c):
    ref, est = inp(c)
    r, e = rounded(c)
    K, M, b = c["K"], c["M"], tuple(c.get("batch", ()))
    cg = dict(use_cg_iter=None)
    outs = {}
    outs["sdr_loss(pairwise=True)"] = to_np(call("sdr_loss", c, ref, est, pairwise=True, **cg))
    if K == M:
        outs["sdr_loss"] = to_np(call("sdr_loss", c, ref, est, pairwise=False, **cg))
    s = to_np(call("sdr", c, ref, est, return_perm=True, **cg))
    for i in bidx(b):
        w = mets(c, r[i], e[i], sar=False)
        if not w["ok_sdr"]:
            continue
        for k, o in outs.items():
            want, tol = -w["sdr"], w["tol_sdr"]
            if "pairwise" not in k:
                want, tol = np.diagonal(want), np.diagonal(tol)
            m = cmp_entry(k + " at batch index %s" % (i,), o[i], want, tol)
            if m:
                return m
        pm = s[1][i]
        for j, q in enumerate(pm):
            k, m = (j, q) if K <= M else (q, j)
            x = cmp_entry("sdr at batch index %s, pair (%d, %d)" % (i, k, m), s[0][i][j], w["sdr"][k, m], w["tol_sdr"][k, m])
            if x:
                return x
    if (c.get("use_cg_iter"), c.get("via")) == (None, None):
        z = check_bss_sdr(c, ref, est, r, e)
        if z:
            return z


def check_bss_sdr(c, ref, est, r, e):
    if c["K"] * c["L"] > c["T"] + c["L"] - 1:
        return None
    K, M, b = c["K"], c["M"], tuple(c.get("batch", ()))
    try:
        o = to_np(call("bss_eval_sources", c, ref, est, use_cg_iter=None))
    except Exception as x:
        if type(x).__name__ == "LinAlgError" or "singular" in str(x):
            return None
        raise
    for i in bidx(b):
        w = mets(c, r[i], e[i], sar=False)
        if not w["ok_sdr"]:
            continue
        for j, q in enumerate(o[3][i]):
            k, m = (j, q) if K <= M else (q, j)
            x = cmp_entry("bss_eval_sources SDR at batch index %s, pair (%d, %d)" % (i, k, m), o[0][i][j], w["sdr"][k, m], w["tol_sdr"][k, m])
            if x:
                return x


def check_C02(c):
    K, M, b = c["K"], c["M"], tuple(c.get("batch", ()))
    if K * c.get("L", 1) > c["T"] + c.get("L", 1) - 1 and not c.get("load_diag"):
        return None
    ref, est = inp(c)
    r, e = rounded(c)
    name = "si_bss_eval_sources" if c.get("si") else "bss_eval_sources"
    ws = {i: mets(c, r[i], e[i]) for i in bidx(b)}
    if not all(w["ok_sar"] for w in ws.values()):
        return None
    o = to_np(call(name, c, ref, est))
    for i in bidx(b):
        w = ws[i]
        for j, q in enumerate(o[3][i]):
            k, m = (j, int(q)) if K <= M else (int(q), j)
            for n, x, y, t in (("SDR", o[0], w["sdr"][k, m], w["tol_sdr"][k, m]), ("SIR", o[1], w["sir"][k, m], w["tol_sir"][k, m]), ("SAR", o[2], w["sar"][m], w["tol_sar"][m])):
                z = cmp_entry("%s %s at batch index %s, reference %d, estimate %d" % (name, n, i, k, m), x[i][j], y, t)
                if z:
                    return z
    if K == M:
        o = to_np(call(name, c, ref, est, compute_permutation=False))
        if len(o) != 3:
            return "%s without permutation returns %d values" % (name, len(o))
        for i in bidx(b):
            w = ws[i]
            for n, x, y, t in (("SDR", o[0], np.diagonal(w["sdr"]), np.diagonal(w["tol_sdr"])), ("SIR", o[1], np.diagonal(w["sir"]), np.diagonal(w["tol_sir"])), ("SAR", o[2], w["sar"], w["tol_sar"])):
                z = cmp_entry("%s(compute_permutation=False) %s at batch index %s" % (name, n, i), x[i], y, t)
                if z:
                    return z


# ---------------------------------------------------------------- C03
def best_sum(v):
    """maximum over assignments of the sum of v (K, M)"""
    K, M = v.shape
    a = v if K <= M else v.T
    return max(sum(a[i, p[i]] for i in range(a.shape[0])) for p in C.assignments(K, M))


def inf_matrix_best(v):
    """(number of +inf / -inf entries avoided, finite sum) best value; v has infinities of one sign"""
    K, M = v.shape
    a = v if K <= M else v.T
    best = None
    for p in C.assignments(K, M):
        x = [a[i, p[i]] for i in range(a.shape[0])]
        key = score(x)
        if best is None or key > best:
            best = key
    return best


def score(x):
    return (sum(y == np.inf for y in x) - sum(y == -np.inf for y in x), float(sum(y for y in x if np.isfinite(y))))


def check_lsa(c):
    """the assignment with infinite costs, called directly"""
    import importlib

    be, n, m = c["be"], c["n"], c["m"]
    if c.get("many"):
        for q in range(c["many"]):
            z = check_lsa(dict({k: v for k, v in c.items() if k != "many"}, seed=c["seed"] + 1000 * q))
            if z:
                return z
        return None
    C.pkg()
    f = getattr(importlib.import_module("fast_bss_eval.%s.helpers" % be), "_linear_sum_assignment_with_inf", None)
    if f is None:
        return None
    r = C.rng_of("lsa", n, m, c["sign"], c["seed"])
    A = r.choice([-100.0, -99.0, 0.0, 1.0, 60.0, 100.0], size=(n, m)) if c["seed"] % 2 else np.round(r.uniform(-1, 1, (n, m)) * 10.0 ** r.randint(0, 3), 3)
    inf = np.inf if c["sign"] == "+" else -np.inf
    A[r.rand(n, m) < r.choice([0.1, 0.4, 0.8])] = inf
    B = A.copy()
    X = conv(A.copy(), be, "float64")
    a, b = to_np(tuple(f(X)))
    if not np.array_equal(to_np(X), B):
        return "_linear_sum_assignment_with_inf modifies its argument"
    if len(a) != min(n, m) or len(b) != len(a) or len(set(b.tolist())) != len(b) or sorted(set(a.tolist())) != a.tolist():
        return "_linear_sum_assignment_with_inf returns %s, %s" % (a.tolist(), b.tolist())
    got = score([-x for x in B[a, b]])
    best = inf_matrix_best(-B)
    if got[0] != best[0] or got[1] < best[1] - 1e-6 * (1 + abs(best[1])):
        return "_linear_sum_assignment_with_inf(%s): pairs %s have cost %s (infinities, finite sum), the best ones %s" % (B.tolist(), list(zip(a.tolist(), b.tolist())), got, best)


def exact_matrix(c):
    """signals whose length-one pairwise SDR are known exactly, some of them infinite: (ref, est)"""
    K, M, sign, seed = c["K"], c["M"], c["sign"], c["seed"]
    r = C.rng_of("exact", K, M, sign, seed)
    if c.get("wide"):
        # each estimate is close to one reference, far from another one and orthogonal to the others
        T = K + M + 1
        ref = np.zeros((K, T))
        est = np.zeros((M, T))
        for k in range(K):
            ref[k, k] = 1.0 + r.randint(3)
        e = 2.0 ** -c["wide"]
        for m in range(M):
            far, near = m % K, (m + 1) % K
            est[m, far] += e
            if m < min(K, M) - 1 or c["wide"] % 2:
                est[m, near] += 1.0
                est[m, K + m] = e
            else:
                est[m, K + m] = 1.0
        p = r.permutation(M)
        return ref, est[p]
    if sign == "both":
        # orthogonal references; each estimate is one of them, orthogonal to all of them, or between
        T = 2 + K + M
        ref = np.zeros((K, T))
        est = np.zeros((M, T))
        for k in range(K):
            ref[k, k] = 2.0 ** r.randint(3)
        for m in range(M):
            q = r.randint(3)
            if q != 1:
                est[m, r.randint(K)] = 1.0
            if q != 0:
                est[m, K + m] = 1.0
        return ref, est
    if sign == "-":
        # estimates orthogonal to some references: SDR = -inf
        T = 8 + K + M
        ref = np.zeros((K, T))
        for k in range(K):
            ref[k, k] = r.randint(1, 4)
        est = np.zeros((M, T))
        for m in range(M):
            est[m, K + m] = r.randint(1, 4)
            for k in range(K):
                if r.rand() < c.get("p", 0.5):
                    est[m, k] = r.randint(1, 9)
        return ref, est
    # "+": estimates equal to a reference (SDR = +inf), all other pairs finite
    T = 4
    ref = np.zeros((K, T))
    est = np.zeros((M, T))
    ref[:, 0] = 1.0
    for k in range(K):
        ref[k, 1:] = r.randint(1, 4, size=3)
    for m in range(M):
        if r.rand() < 0.6:
            k = r.randint(K)
            est[m] = 0.0
            est[m, 0] = 1.0
            ref[k] = 0.0
            ref[k, 0] = 2.0
        else:
            est[m, 0] = 1.0
            est[m, 1:] = r.randint(1, 4, size=3)
    return ref, est


def check_perm_one(K, M, perm, shown, pair, obj, tag, tol=1e-6):
    """perm: returned permutation (one batch element); shown: dict name -> (returned, pairwise matrix)"""
    n = min(K, M)
    if perm.shape != (n,):
        return "%s: permutation of shape %s for %d references and %d estimates" % (tag, perm.shape, K, M)
    p = [int(x) for x in perm]
    if len(set(p)) != n or min(p) < 0 or max(p) >= max(K, M):
        return "%s: permutation %s is not an assignment of %d references and %d estimates" % (tag, p, K, M)
    pairs = [(j, q) if K <= M else (q, j) for j, q in enumerate(p)]
    got = score([obj[k, m] for k, m in pairs])
    best = inf_matrix_best(obj)
    if got[0] != best[0] or got[1] < best[1] - tol * (1 + abs(best[1])):
        return "%s: permutation %s has total %s (infinities, finite sum), the best one has %s" % (tag, p, got, best)
    for name, (x, y, t) in shown.items():
        if x.shape != (n,):
            return "%s: %s has shape %s" % (tag, name, x.shape)
        for j, (k, m) in enumerate(pairs):
            if not close(x[j], y[k, m], t[k, m]):
                return "%s: %s[%d] = %r is not the metric of reference %d and estimate %d (%r)" % (tag, name, j, float(x[j]), k, m, float(y[k, m]))


def check_C03(c):
    mode = c.get("mode", "signals")
    be = c.get("be", "numpy")
    if mode == "lsa":
        return check_lsa(c)
    if mode == "exact":
        ref, est = exact_matrix(c)
        K, M = c["K"], c["M"]
        R, E = conv(ref, be, c.get("dtype", "float64")), conv(est, be, c.get("dtype", "float64"))
        v = -to_np(call("sdr_loss", {}, R, E, be=be, filter_length=1, pairwise=True))
        tag = "sdr with an SDR matrix %s" % np.round(v, 3).tolist()
        bad = np.isnan(v).any() or (np.isposinf(v).any() and np.isneginf(v).any())
        try:
            s, p = to_np(call("sdr", {}, R, E, be=be, filter_length=1, return_perm=True))
        except ValueError:
            return None if bad else tag + ": raises ValueError"
        if bad:
            return tag + ": does not raise ValueError"
        t = np.full(v.shape, 1e-4)
        return check_perm_one(K, M, p, {"sdr": (s, v, t)}, None, v, tag, 1e-5)
    if mode == "nan":
        ref, est = inp(c)
        K, M = c["K"], c["M"]
        e = to_np(est).copy()
        r = to_np(ref).copy()
        if c.get("where") == "ref":
            r[..., c.get("ch", 0) % K, 1] = np.nan
        else:
            e[..., c.get("ch", 0) % M, 1] = np.nan
        for f in ("sdr", "bss_eval_sources"):
            try:
                call(f, c, conv(r, be, c.get("dtype", "float64")), conv(e, be, c.get("dtype", "float64")))
            except ValueError:
                continue
            except Exception as x:
                if type(x).__name__ == "LinAlgError" or "linalg" in str(x) or "singular" in str(x):
                    continue
                return "%s with NaN samples raises %r instead of ValueError" % (f, x)
            return "%s with NaN samples does not raise ValueError" % f
        return None
    if mode == "mixed":
        K = M = c["K"]
        v = np.eye(K, 8) * 2.0
        T = v.shape[-1]
        e = v.copy()
        for m in range(M):
            e[m] = v[m]
        for f in ("sdr",):
            try:
                call(f, {}, conv(v, be), conv(e, be), be=be, filter_length=1)
            except ValueError:
                continue
            return "sdr with infinite metrics of both signs does not raise ValueError"
        return None
    K, M, b = c["K"], c["M"], tuple(c.get("batch", ()))
    r, e = rounded(c)
    ref, est = inp(c)
    if c.get("assigned") is not None:
        pass
    f32 = c.get("dtype") == "float32"
    tol = 2e-3 if f32 else 1e-7
    s, p = to_np(call("sdr", c, ref, est, return_perm=True))
    l = -to_np(call("sdr_loss", c, ref, est, pairwise=True))
    if s.shape != b + (min(K, M),) or p.shape != s.shape or l.shape != b + (K, M):
        return "sdr: shapes %s, %s for batch %s, %d references, %d estimates" % (s.shape, p.shape, b, K, M)
    for i in bidx(b):
        t = np.full((K, M), tol * 10)
        z = check_perm_one(K, M, p[i], {"sdr": (s[i], l[i], t)}, None, l[i], "sdr at batch index %s" % (i,), tol)
        if z:
            return z
    if K * c["L"] > c["T"] + c["L"] - 1 and not c.get("load_diag"):
        return None
    ws = {i: mets(c, r[i], e[i]) for i in bidx(b)}
    if not all(w["ok_sar"] for w in ws.values()) or c.get("use_cg_iter"):
        return None
    o = to_np(call("bss_eval_sources", c, ref, est))
    if len(o) != 4:
        return "bss_eval_sources returns %d values" % len(o)
    for i in bidx(b):
        w = ws[i]
        sar = np.broadcast_to(w["sar"], (K, M))
        tsar = np.broadcast_to(w["tol_sar"], (K, M))
        if np.max(w["tol_sir"]) > 0.1:
            continue
        z = check_perm_one(K, M, o[3][i], {"SIR": (o[1][i], w["sir"], w["tol_sir"]), "SDR": (o[0][i], w["sdr"], w["tol_sdr"]), "SAR": (o[2][i], sar, tsar)},
                           None, w["sir"], "bss_eval_sources at batch index %s" % (i,), 1e-9 + 2 * float(np.max(w["tol_sir"])) * min(K, M))
        if z:
            return z


# ---------------------------------------------------------------- C04
def cost_matrix(c):
    n, m, kind, seed = c["n"], c["m"], c["kind"], c["seed"]
    r = C.rng_of("cost", n, m, kind, seed)
    if kind == "normal":
        return r.randn(n, m)
    if kind == "ties":
        return r.randint(0, 3, size=(n, m)).astype(float)
    if kind == "binary":
        return (r.rand(n, m) < 0.5).astype(float)
    if kind == "constrows":
        return np.repeat(r.randint(-3, 4, size=(n, 1)).astype(float), m, axis=1)
    if kind == "constant":
        return np.full((n, m), float(r.randint(-2, 3)))
    if kind == "negative":
        return -np.abs(r.randint(0, 50, size=(n, m))).astype(float)
    if kind == "rankone":
        return np.outer(np.arange(1, n + 1), np.arange(1, m + 1)).astype(float)
    if kind == "big":
        return r.randint(-1000, 1000, size=(n, m)).astype(float) * 2.0**20
    if kind == "wide_range":
        return (r.randint(0, 2, size=(n, m)) * 2.0**30 + r.randint(0, 5, size=(n, m))).astype(float)
    if kind == "sorted":
        return np.sort(r.randint(0, 9, size=(n, m)).astype(float), axis=1)
    if kind == "tiny":
        return r.randint(-8, 9, size=(n, m)).astype(float) * 2.0 ** -(34 + seed % 40)
    if kind == "small":
        return r.randint(-8, 9, size=(n, m)).astype(float) * 2.0**-20
    raise KeyError(kind)


class Timeout(Exception):
    pass


def limited(f, seconds=20):
    import signal

    def h(*a):
        raise Timeout()

    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(seconds)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def check_C04(c):
    import importlib
    import torch

    pkg()
    h = importlib.import_module("fast_bss_eval.torch.hungarian")
    dt = torch.float32 if c.get("dtype") == "float32" else torch.float64
    if c["kind"] == "nan":
        A = torch.zeros(c["n"], c["m"], dtype=dt)
        A[c["seed"] % c["n"], (c["seed"] // 7) % c["m"]] = float("nan")
        try:
            limited(lambda: h.linear_sum_assignment(A))
        except ValueError:
            return None
        except Timeout:
            return "linear_sum_assignment does not terminate on a matrix with NaN"
        return "linear_sum_assignment does not raise ValueError on a matrix with NaN"
    if c["kind"] == "empty":
        A = torch.zeros(c["n"], c["m"], dtype=dt)
        a, b = h.linear_sum_assignment(A)
        if len(a) or len(b):
            return "linear_sum_assignment returns pairs for a %d x %d matrix" % (c["n"], c["m"])
        return None
    if c.get("many"):
        for q in range(c["many"]):
            z = check_C04(dict({k: v for k, v in c.items() if k != "many"}, seed=c["seed"] + 1000 * q))
            if z:
                return z
        return None
    X = cost_matrix(c)
    A = torch.from_numpy(X.copy()).to(dt)
    if c.get("layout") == "T":
        A = torch.from_numpy(X.T.copy()).to(dt).T
    if c.get("layout") == "strided":
        A = torch.from_numpy(np.repeat(X, 2, axis=1)).to(dt)[:, ::2]
    if c.get("layout") == "grad":
        A.requires_grad_(True)
    Z = A.detach().clone()
    try:
        a, b = limited(lambda: h.linear_sum_assignment(A))
    except Timeout:
        return "linear_sum_assignment does not terminate (20 s) on %s" % X.tolist()
    a, b = [int(x) for x in a], [int(x) for x in b]
    n, m = X.shape
    if not torch.equal(A.detach(), Z):
        return "linear_sum_assignment modifies the cost matrix"
    if len(a) != min(n, m) or len(b) != min(n, m) or len(set(b)) != len(b) or sorted(set(a)) != a or \
            (a and (min(a) < 0 or max(a) >= n or min(b) < 0 or max(b) >= m)):
        return "linear_sum_assignment returns rows %s, columns %s for a %d x %d matrix" % (a, b, n, m)
    import scipy.optimize as so

    Y = Z.double().numpy()
    r0, c0 = so.linear_sum_assignment(Y)
    got, best = Y[a, b].sum(), Y[r0, c0].sum()
    tol = (1e-12 if dt == torch.float64 else 3e-5) * np.abs(Y).max(initial=0.0) * max(n, m)
    if got > best + tol:
        return "linear_sum_assignment: total cost %r, the minimum is %r, matrix %s" % (float(got), float(best), Y.tolist() if Y.size <= 64 else Y.shape)


# ---------------------------------------------------------------- generic runs over the public functions
def variants(c):
    """(name, kwargs) of the public calls that make sense for the case c"""
    K, M = c["K"], c["M"]
    v = [("sdr", dict(return_perm=True)), ("sdr", {}), ("sdr", dict(change_sign=True)), ("sdr_loss", dict(pairwise=True)), ("sdr_pit_loss", {})]
    v += [("si_sdr", dict(return_perm=True)), ("si_sdr_loss", dict(pairwise=True)), ("si_sdr_pit_loss", {}), ("si_bss_eval_sources", {})]
    v += [("bss_eval_sources", {})]
    if K == M:
        v += [("sdr_loss", {}), ("si_sdr_loss", {}), ("bss_eval_sources", dict(compute_permutation=False)), ("si_bss_eval_sources", dict(compute_permutation=False))]
    return v


def sar_ok(c, name):
    if "bss_eval" not in name:
        return True
    L = 1 if name.startswith("si_") else c.get("L", 1)
    return bool(c.get("load_diag")) or c["K"] * L <= c["T"] + L - 1 - bool(c.get("zero_mean"))


def attempt(f):
    try:
        return "ok", f()
    except Exception as x:
        return "exc", x


def astuple(o):
    return o if isinstance(o, tuple) else (o,)


def check_C05(c):
    be, b = c.get("be", "numpy"), tuple(c.get("batch", ()))
    ref, est = inp(c)
    f32 = c.get("dtype") == "float32"
    tol = 2e-2 if f32 else 1e-6
    for name, kw in variants(c):
        if not sar_ok(c, name):
            continue
        st, o = attempt(lambda: call(name, c, ref, est, **kw))
        singles = {}
        for i in bidx(b):
            singles[i] = attempt(lambda: call(name, c, ref[i], est[i], **kw))
        if st == "exc":
            if b and all(s[0] == "ok" for s in singles.values()):
                return "%s %s raises %r on a batch %s, not on its elements" % (name, kw, o, b)
            continue
        o = tuple(sat(x, f32) for x in to_np(astuple(o)))
        for i in bidx(b):
            if singles[i][0] == "exc":
                return "%s %s: batch element %s alone raises %r" % (name, kw, i, singles[i][1])
            s = tuple(sat(x, f32) for x in to_np(astuple(singles[i][1])))
            if any(x.shape[: len(b)] != b or x.shape[len(b) :] != y.shape for x, y in zip(o, s)):
                return "%s %s: outputs have shapes %s for a batch %s of outputs of shapes %s" % (name, kw, [x.shape for x in o], b, [y.shape for y in s])
            for q, (x, y) in enumerate(zip(informative(name, kw, o), informative(name, kw, s))):
                if x.shape[: len(b)] != b or x.shape[len(b) :] != y.shape:
                    return "%s %s: output %d has shape %s for a batch %s of outputs of shape %s" % (name, kw, q, x.shape, b, y.shape)
                if x.dtype.kind == "i":
                    if not np.array_equal(x[i], y) and not tie(o, s, i, tol):
                        return "%s %s: permutation %s at batch index %s, %s for the element alone" % (name, kw, x[i].tolist(), i, y.tolist())
                elif not close(np.sort(x[i].ravel()), np.sort(y.ravel()), tol + 1e-4 * np.abs(np.sort(y.ravel()))) if tie(o, s, i, tol) else not close(x[i], y, np.maximum(tol, tolb(y, f32))):
                    return "%s %s: output %d is %s at batch index %s, %s for the element alone" % (name, kw, q, x[i].tolist(), i, y.tolist())


def tolb(y, f32):
    """relative error of a coherence close to 0 or 1, in decibels"""
    y = np.abs(np.where(np.isfinite(y), y, 0))
    u = 2e-6 if f32 else 1e-13
    return 4.34 * u * 10 ** (y / 10) * 50


def tie(o, s, i, tol):
    """the permutations differ but the totals agree (several optimal permutations)"""
    if len(o) < 2:
        return False
    if np.array_equal(o[-1][i], s[-1]):
        return False
    j = 1 if len(o) == 4 else 0
    return abs(np.sum(o[j][i]) - np.sum(s[j])) <= tol


def check_C06(c):
    be = c.get("be", "numpy")
    grad = bool(c.get("grad")) and be == "torch"
    vs = list(variants(c)) + [("sdr_loss", {}), ("bss_eval_sources", dict(compute_permutation=False))]
    sm = sub(be)
    vs += [("sub:pairwise_sdr_loss", {}), ("sub:pairwise_si_sdr_loss", {})]
    for name, kw in vs:
        ref, est = inp(c, grad=grad)
        r0, e0 = to_np(ref).copy(), to_np(est).copy()
        if c.get("readonly") and be == "numpy":
            ref.setflags(write=False)
            est.setflags(write=False)

        def run():
            if name.startswith("sub:"):
                n = name[4:]
                o = dict(filter_length=c["L"]) if "si" not in n else {}
                for k in ("zero_mean", "clamp_db"):
                    if c.get(k) is not None:
                        o[k] = c[k]
                if "si" not in n:
                    for k in ("load_diag", "use_cg_iter"):
                        if c.get(k) is not None:
                            o[k] = c[k]
                return getattr(sm, n)(est, ref, **o)
            return call(name, c, ref, est, **kw)

        st1, o1 = attempt(run)
        if not (np.array_equal(to_np(ref), r0, equal_nan=True) and np.array_equal(to_np(est), e0, equal_nan=True)):
            return "%s %s (%s) modifies its arguments" % (name, kw, "raising" if st1 == "exc" else "returning")
        if st1 == "exc" and c.get("readonly") and "read-only" in str(o1):
            return "%s %s writes into its (read-only) arguments: %r" % (name, kw, o1)
        if st1 == "ok":
            for x in astuple(o1):
                y = to_np(x)
                if be == "numpy" and (np.shares_memory(y, ref) or np.shares_memory(y, est)):
                    return "%s %s returns memory of its arguments" % (name, kw)
        k1 = [np.array(to_np(x), copy=True) for x in astuple(o1)] if st1 == "ok" else None
        if st1 == "ok" and ref.shape[-2] * est.shape[-2]:
            # other signals of the same shapes
            fl = (lambda x: x.flip(-2)) if be == "torch" else (lambda x: x[..., ::-1, :].copy())
            attempt(lambda: call(name.replace("sub:", ""), c, (fl(ref) + 0).detach() if be == "torch" else fl(ref), est, **kw))
            attempt(lambda: call(name.replace("sub:", ""), c, ref, (fl(est) * 2).detach() if be == "torch" else fl(est) * 2, **kw))
            for x, y in zip(k1, to_np(astuple(o1))):
                if not np.array_equal(x, y, equal_nan=True):
                    return "%s %s: the result of an earlier call is overwritten by a later one: %s, before %s" % (name, kw, y.tolist(), x.tolist())
        st2, o2 = attempt(run)
        if st1 != st2:
            return "%s %s: a repeated call %s" % (name, kw, "raises %r" % (o2,) if st2 == "exc" else "does not raise")
        if st1 == "ok":
            for x, y in zip(k1, to_np(astuple(o2))):
                if not close(x, y, 1e-9 + 1e-6 * np.abs(x)):
                    return "%s %s: a repeated call gives %s instead of %s" % (name, kw, y.tolist(), x.tolist())


def expected_shape(name, kw, c):
    b, K, M = tuple(c.get("batch", ())), c["K"], c["M"]
    if kw.get("pairwise"):
        return b + (K, M)
    if name in ("sdr_loss", "si_sdr_loss") or kw.get("compute_permutation") is False:
        return b + (K,)
    return b + (min(K, M),)


def expected_count(name, kw):
    if "bss_eval" in name:
        return 3 if kw.get("compute_permutation") is False else 4
    return 2 if kw.get("return_perm") else 1


def check_C07(c):
    be = c.get("be", "numpy")
    dt = c.get("dtype", "float64")
    want = {"float32": "float32", "float64": "float64"}.get(dt, "float64")
    ref, est = inp(c)
    for name, kw in variants(c):
        if not sar_ok(c, name):
            continue
        st, o = attempt(lambda: call(name, c, ref, est, **kw))
        if st == "exc":
            if c.get("clamp_db") is None and isinstance(o, ValueError) and c.get("kind", "noise") not in ("noise", "offset", "scaled", "integer"):
                continue
            return "%s %s raises %r" % (name, kw, o)
        n = expected_count(name, kw)
        if (n == 1) == isinstance(o, tuple) or (n > 1 and len(o) != n):
            return "%s %s returns %s, expected %d value(s)" % (name, kw, type(o), n)
        outs = astuple(o)
        for q, x in enumerate(outs):
            isperm = q == n - 1 and (kw.get("return_perm") or n == 4)
            if be == "numpy":
                okc = isinstance(x, (np.ndarray, np.generic))
                d = str(x.dtype) if okc else None
            else:
                import torch

                okc = isinstance(x, torch.Tensor)
                d = str(x.dtype).replace("torch.", "") if okc else None
                if okc and x.device != ref.device:
                    return "%s %s: output %d is on device %s" % (name, kw, q, x.device)
            if not okc:
                return "%s %s: output %d is a %s" % (name, kw, q, type(x))
            if d != ("int64" if isperm else want):
                return "%s %s: output %d has type %s for %s inputs" % (name, kw, q, d, dt)
            if tuple(x.shape) != expected_shape(name, kw, c):
                return "%s %s: output %d has shape %s, expected %s" % (name, kw, q, tuple(x.shape), expected_shape(name, kw, c))


def check_C08(c):
    db = c["clamp_db"]
    be, dt = c.get("be", "numpy"), c.get("dtype", "float64")
    ref, est = inp(c)
    slack = (1e-3 if dt == "float32" else 1e-8) * (1 + db / 10)
    for name, kw in variants(c):
        if not sar_ok(c, name):
            continue
        st, o = attempt(lambda: call(name, c, ref, est, **kw))
        if st == "exc":
            if type(o).__name__ == "LinAlgError" or "singular" in str(o):
                continue
            if isinstance(o, ValueError) and c.get("kind") in ("silent_ref", "all_silent") and not c.get("load_diag"):
                continue
            return "%s %s with clamp_db=%s raises %r" % (name, kw, db, o)
        n = expected_count(name, kw)
        outs = astuple(o)
        silent_ref = c.get("kind") in ("silent_ref", "all_silent") and not c.get("load_diag")
        for q, x in enumerate(outs):
            if q == n - 1 and (kw.get("return_perm") or n == 4):
                continue
            y = to_np(x).astype(float)
            if silent_ref and name.startswith(("bss", "si_bss")):
                continue
            if silent_ref and not name.startswith("si_") and c["L"] > 1:
                continue
            if not np.all(np.isfinite(y)) or np.max(np.abs(y), initial=0.0) > db + slack:
                return "%s %s with clamp_db=%s returns %s" % (name, kw, db, y.tolist())
        if c.get("kind", "noise") in ("noise", "offset"):
            # inside of the range without clamping: the value is kept
            c2 = dict(c, clamp_db=None)
            if name.endswith("sdr_loss"):
                u = to_np(call(name, c2, ref, est, **kw)).astype(float)
                y = to_np(outs[0]).astype(float)
                ins = np.abs(u) < db
                if not close(y[ins], u[ins], np.maximum(slack * 3, tolb(u[ins], dt == "float32"))):
                    return "%s %s: clamp_db=%s changes metrics inside of the range: %s -> %s" % (name, kw, db, u[ins].tolist(), y[ins].tolist())
                if not close(y[~ins], np.sign(u[~ins]) * db, np.maximum(slack * 3, tolb(y[~ins], dt == "float32"))):
                    return "%s %s: clamp_db=%s maps %s to %s" % (name, kw, db, u[~ins].tolist(), y[~ins].tolist())
            elif "bss_eval" in name and kw.get("compute_permutation") is False:
                for u, y in zip(to_np(call(name, c2, ref, est, **kw)), to_np(outs)):
                    if not close(y, np.clip(u, -db, db), np.maximum(slack * 3, tolb(np.clip(u, -db, db), dt == "float32"))):
                        return "%s %s: clamp_db=%s maps %s to %s" % (name, kw, db, u.tolist(), y.tolist())


def sgn(name, kw):
    return -1 if name in C.LOSSES or kw.get("change_sign") else 1


CUR = {}


def informative(name, kw, outs):
    """with a single reference the SIR is infinite: it is only rounding noise, and so is the choice among
    several estimates"""
    if "bss_eval" not in name or CUR.get("K") != 1:
        return outs
    if kw.get("compute_permutation") is False or CUR.get("M") == 1:
        return (outs[0], outs[2]) + tuple(outs[3:])
    return ()


def sat(x, f32):
    """decibel values beyond the resolution of the type are alike"""
    return x if x.dtype.kind == "i" else np.clip(x.astype(float), *((-45, 45) if f32 else (-105, 105)))


def compare_outs(name, kw, a, b, tol, what, f32=False):
    """a, b: outputs that must agree, up to ties in the permutation"""
    a, b = tuple(sat(x, f32) for x in to_np(astuple(a))), tuple(sat(x, f32) for x in to_np(astuple(b)))
    if len(a) != len(b):
        return "%s %s: %s: %d outputs instead of %d" % (name, kw, what, len(b), len(a))
    a, b = informative(name, kw, a), informative(name, kw, b)
    if len(a) != len(b):
        return "%s %s: %s: %d outputs instead of %d" % (name, kw, what, len(b), len(a))
    perm_diff = False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return "%s %s: %s: shape %s instead of %s" % (name, kw, what, y.shape, x.shape)
        if x.dtype.kind == "i" and not np.array_equal(x, y):
            perm_diff = True
    if perm_diff:
        j = 1 if len(a) == 4 else 0
        if close(np.sum(a[j], -1), np.sum(b[j], -1), tol * 10 + np.sum(tolb(a[j], f32), -1)):
            return None
        return "%s %s: %s: permutation %s instead of %s" % (name, kw, what, b[-1].tolist(), a[-1].tolist())
    for q, (x, y) in enumerate(zip(a, b)):
        extra = 2.6e-4 * 10 ** (np.abs(x) / 10) if what.startswith("use_cg_iter") and x.dtype.kind != "i" else 0.0
        if x.dtype.kind != "i" and not close(y, x, np.maximum(tol, tolb(x, f32)) + extra):
            if q == 0 and len(a) == 1 and name in ("sdr", "sdr_pit_loss", "si_sdr", "si_sdr_pit_loss") and close(np.sum(x, -1), np.sum(y, -1), tol):
                continue
            return "%s %s: %s: output %d is %s instead of %s" % (name, kw, what, q, y.tolist(), x.tolist())


def check_C09(c):
    be, dt = c.get("be", "numpy"), c.get("dtype", "float64")
    r, e = signals(c)
    if r.size == 0 or e.size == 0:
        return None
    rr = C.rng_of("scale", c.get("seed", 0), c["K"], c["M"])
    b = tuple(c.get("batch", ()))
    lo, hi = c.get("range", (-3, 3))
    gr = 10.0 ** rr.uniform(lo, hi, size=b + (c["K"], 1)) * np.where(rr.rand(*b, c["K"], 1) < 0.5, -1, 1)
    ge = 10.0 ** rr.uniform(lo, hi, size=b + (c["M"], 1)) * np.where(rr.rand(*b, c["M"], 1) < 0.5, -1, 1)
    if c.get("positive"):
        gr, ge = np.abs(gr), np.abs(ge)
    if c.get("unit"):
        r, e = r / np.sqrt((r * r).sum(-1, keepdims=True)), e / np.sqrt((e * e).sum(-1, keepdims=True))
    nm = min(np.sqrt((r * r).sum(-1)).min(), np.sqrt((e * e).sum(-1)).min(), np.sqrt(((r * gr) ** 2).sum(-1)).min(), np.sqrt(((e * ge) ** 2).sum(-1)).min())
    if c.get("zero_mean"):
        r0, e0 = r - r.mean(-1, keepdims=True), e - e.mean(-1, keepdims=True)
        nm = min(np.sqrt((r0 * r0).sum(-1)).min(), np.sqrt((e0 * e0).sum(-1)).min(), np.sqrt(((r0 * gr) ** 2).sum(-1)).min(), np.sqrt(((e0 * ge) ** 2).sum(-1)).min())
    if nm < 2e-6:
        return None
    f32 = dt == "float32"
    tol = 2e-2 if f32 else 1e-6
    for name, kw in variants(c):
        if not sar_ok(c, name):
            continue
        st, a = attempt(lambda: call(name, c, conv(r, be, dt), conv(e, be, dt), **kw))
        st2, o = attempt(lambda: call(name, c, conv(r * gr, be, dt), conv(e * ge, be, dt), **kw))
        if st != st2:
            return "%s %s: raises only for one scale of the signals: %r %r" % (name, kw, a, o)
        if st == "exc":
            continue
        z = compare_outs(name, kw, a, o, tol, "signals scaled by %s and %s" % (gr.ravel().tolist(), ge.ravel().tolist()), f32)
        if z:
            return z


def check_C10(c):
    be, dt = c.get("be", "numpy"), c.get("dtype", "float64")
    r, e = signals(c)
    rr = C.rng_of("mean", c.get("seed", 0), c["K"], c["M"])
    b = tuple(c.get("batch", ()))
    off = float(c.get("offset", 2.0))
    dr, de = off * rr.randn(*b, c["K"], 1), off * rr.randn(*b, c["M"], 1)
    f32 = dt == "float32"
    tol = 3e-2 if f32 else 1e-6
    c0 = dict(c, zero_mean=False)
    c1 = dict(c, zero_mean=True)
    rz, ez = r - r.mean(-1, keepdims=True), e - e.mean(-1, keepdims=True)
    for name, kw in variants(c):
        if not sar_ok(c, name):
            continue
        s0, want = attempt(lambda: call(name, c0, conv(rz, be, dt), conv(ez, be, dt), **kw))
        s1, got = attempt(lambda: call(name, c1, conv(r, be, dt), conv(e, be, dt), **kw))
        s2, got2 = attempt(lambda: call(name, c1, conv(r + dr, be, dt), conv(e + de, be, dt), **kw))
        if s0 == "exc" or s1 == "exc" or s2 == "exc":
            if not (s0 == s1 == s2):
                return "%s %s: zero_mean raises, unlike on zero mean signals: %r %r %r" % (name, kw, want, got, got2)
            continue
        z = compare_outs(name, kw, want, got, tol, "zero_mean=True instead of removing the means", f32)
        z = z or compare_outs(name, kw, got, got2, tol, "zero_mean=True with constants added to the channels", f32)
        if z:
            return z
        # zero_mean=False keeps the means
        if name == "sdr_loss" and kw.get("pairwise") and not f32 and not c.get("use_cg_iter"):
            o = to_np(call(name, c0, conv(r + dr, be, dt), conv(e + de, be, dt), **kw))
            for i in bidx(b):
                w = mets(c0, (r + dr)[i], (e + de)[i], sar=False)
                if w["ok_sdr"] and not close(-o[i], w["sdr"], w["tol_sdr"]):
                    return "sdr_loss with zero_mean=False: %s instead of %s" % (o[i].tolist(), (-w["sdr"]).tolist())


def check_C11(c):
    if c.get("load_diag") is None:
        c = dict(c, load_diag=0.1)
    if c.get("use_cg_iter") and not c.get("cgtol") and c.get("L", 1) > 1:
        # a few iterations do not solve the systems: the direct solver, then enough iterations on systems which are well conditioned
        z = check_C11(dict(c, use_cg_iter=None))
        if z or c["load_diag"] < 0.05 or c["T"] <= c["L"] or c.get("dtype", "float64") != "float64":
            return z
        return check_C11(dict(c, kind="noise", use_cg_iter=120, cgtol=3e-2))
    be, dt = c.get("be", "numpy"), c.get("dtype", "float64")
    b, K, M = tuple(c.get("batch", ())), c["K"], c["M"]
    ref, est = inp(c)
    r, e = rounded(c)
    f32 = dt == "float32"
    d = c["load_diag"]
    names = [("sdr_loss", dict(pairwise=True)), ("bss_eval_sources", {})]
    if K == M:
        names += [("sdr_loss", {}), ("bss_eval_sources", dict(compute_permutation=False))]
    names += [("sdr", dict(return_perm=True))]
    if c.get("L") == 1:
        names += [("si_bss_eval_sources", {})]
        if K == M:
            names += [("si_bss_eval_sources", dict(compute_permutation=False))]
    if d == 0:
        for name, kw in names:
            if not sar_ok(dict(c, load_diag=None), name):
                continue
            s0, x0 = attempt(lambda: call(name, dict(c, load_diag=None), ref, est, **kw))
            s1, x1 = attempt(lambda: call(name, c, ref, est, **kw))
            if s0 != s1:
                return "%s %s: load_diag=%r and no loading do not raise together: %r %r" % (name, kw, d, x1, x0)
            if s0 == "ok":
                z = compare_outs(name, kw, x0, x1, 1e-2 if f32 else 1e-6, "load_diag=%r instead of no loading" % d, f32)
                if z:
                    return z
        return None
    cc = dict(c)
    for name, kw in names:
        st, o = attempt(lambda: call(name, cc, ref, est, **kw))
        if st == "exc":
            if isinstance(o, ValueError) and c.get("kind") in ("silent_ref", "all_silent", "silent_est", "perfect") and c.get("clamp_db") is None:
                continue
            return "%s %s with load_diag=%s raises %r" % (name, kw, d, o)
        o = to_np(astuple(o))
        for i in bidx(b):
            w = mets(c, r[i], e[i])
            if not (w["ok_sdr"] and w["ok_sar"]):
                continue
            # the denominators of the iterative solver are bounded below by 1e-6
            slack = lambda y: float(c.get("cgtol", 0)) + (4e-4 * 10 ** (np.abs(y) / 10) if c.get("cgtol") else 0.0)
            if name == "sdr_loss":
                want, t = -w["sdr"], w["tol_sdr"] + slack(w["sdr"])
                if not kw:
                    want, t = np.diagonal(want), np.diagonal(t)
                if c.get("clamp_db") is not None:
                    t = np.maximum(t, 1e-2 if f32 else 1e-7)
                if not close(o[0][i], want, t):
                    return "%s %s with load_diag=%s at batch index %s: %s instead of %s" % (name, kw, d, i, o[0][i].tolist(), want.tolist())
            elif name == "sdr" or kw.get("compute_permutation") is not False:
                pm = o[-1][i]
                for j, q in enumerate(pm):
                    k, m = (j, int(q)) if K <= M else (int(q), j)
                    vals = [("SDR", o[0][i][j], w["sdr"][k, m], w["tol_sdr"][k, m])]
                    if name != "sdr":
                        vals += [("SIR", o[1][i][j], w["sir"][k, m], w["tol_sir"][k, m]), ("SAR", o[2][i][j], w["sar"][m], w["tol_sar"][m])]
                    for n, x, y, t in vals:
                        if not close(x, y, t + slack(y)):
                            return "%s %s with load_diag=%s: %s of pair (%d, %d) at batch index %s is %r instead of %r" % (name, kw, d, n, k, m, i, float(x), float(y))
            else:
                for n, x, y, t in (("SDR", o[0], np.diagonal(w["sdr"]), np.diagonal(w["tol_sdr"])), ("SIR", o[1], np.diagonal(w["sir"]), np.diagonal(w["tol_sir"])), ("SAR", o[2], w["sar"], w["tol_sar"])):
                    if not close(x[i], y, t + slack(y)):
                        return "%s %s with load_diag=%s: %s at batch index %s is %s instead of %s" % (name, kw, d, n, i, x[i].tolist(), y.tolist())


def check_C12(c):
    """convergence to the direct solution"""
    if c.get("use_cg_iter") is None:
        c = dict(c, use_cg_iter=200)
    be, dt = c.get("be", "numpy"), c.get("dtype", "float64")
    ref, est = inp(c)
    r, e = rounded(c)
    b, K, M = tuple(c.get("batch", ())), c["K"], c["M"]
    ws = {i: mets(c, r[i], e[i]) for i in bidx(b)}
    # the denominators of the iterative solver are bounded below by 1e-6
    tol = c.get("tol", 5e-2)
    names = [("sdr_loss", dict(pairwise=True)), ("bss_eval_sources", {}), ("sdr", dict(return_perm=True))]
    if K == M:
        names += [("sdr_loss", {}), ("bss_eval_sources", dict(compute_permutation=False))]
    for name, kw in names:
        if not sar_ok(c, name):
            continue
        if any(not w["ok_sdr"] or not w["ok_sar"] or max(w["cond"]) > c.get("cond", 50) for w in ws.values()):
            continue
        st, x = attempt(lambda: call(name, dict(c, use_cg_iter=None), ref, est, **kw))
        st2, y = attempt(lambda: call(name, c, ref, est, **kw))
        if st == "exc":
            continue
        if st2 == "exc":
            return "%s %s with use_cg_iter=%s raises %r" % (name, kw, c["use_cg_iter"], y)
        z = compare_outs(name, kw, x, y, tol, "use_cg_iter=%s instead of the direct solver" % c["use_cg_iter"], dt == "float32")
        if z:
            return z
    if c.get("steps"):
        # the iterates: n steps of preconditioned CG never increase the energy norm of the error,
        # so the coherence b'x_n of the single channel filters is non decreasing in n and at most the direct one
        last = None
        direct = -to_np(call("sdr_loss", dict(c, use_cg_iter=None), ref, est, pairwise=True))
        for n in c["steps"]:
            v = -to_np(call("sdr_loss", dict(c, use_cg_iter=n), ref, est, pairwise=True))
            if np.any(v > direct + 1e-4):
                return "sdr_loss with use_cg_iter=%d exceeds the SDR of the direct solver: %s > %s" % (n, v.tolist(), direct.tolist())
            if last is not None and np.any(v < last - 1e-4):
                return "sdr_loss decreases from use_cg_iter=%d on: %s < %s" % (n, v.tolist(), last.tolist())
            last = v


def opts_of(c):
    return {k: c[k] for k in ("zero_mean", "clamp_db", "load_diag", "use_cg_iter") if c.get(k) is not None}


def check_C13(c):
    be, dt = c.get("be", "numpy"), c.get("dtype", "float64")
    ref, est = inp(c)
    K, M = c["K"], c["M"]
    f32 = dt == "float32"
    tol = 1e-2 if f32 else 1e-7
    P_, S = pkg(), sub(be)
    o = opts_of(c)
    L = c["L"]

    def same(a, b, what):
        a, b = tuple(sat(v, f32) for v in to_np(astuple(a))), tuple(sat(v, f32) for v in to_np(astuple(b)))
        if len(a) != len(b):
            return "%s: %d and %d outputs" % (what, len(a), len(b))
        for x, y in zip(a, b):
            if not close(x, y, tol + 1e-7 * np.abs(np.where(np.isfinite(y), y, 0)) + tolb(y, f32)):
                return "%s: %s and %s" % (what, x.tolist(), y.tolist())

    def two(f):
        try:
            return "ok", f()
        except Exception as x:
            return "exc", x

    tests = []
    for where, m in (("package", P_), ("subpackage", S)):
        def T(what, f, g, where=where):
            tests.append(("%s: %s" % (where, what), f, g))
        neg = lambda v: tuple(-x for x in v) if isinstance(v, tuple) else -v
        pw = lambda m=m: m.sdr_loss(est, ref, filter_length=L, pairwise=True, **o)
        if K == M:
            T("sdr_loss against the diagonal of sdr_loss(pairwise=True)", lambda m=m: m.sdr_loss(est, ref, filter_length=L, **o), lambda m=m: to_np(pw(m)).diagonal(axis1=-2, axis2=-1) if not c.get("use_cg_iter") else m.sdr_loss(est, ref, filter_length=L, pairwise=False, **o))
        T("sdr_pit_loss against -sdr", lambda m=m: m.sdr_pit_loss(est, ref, filter_length=L, **o), lambda m=m: -m.sdr(ref, est, filter_length=L, **o))
        T("sdr(change_sign) against -sdr", lambda m=m: m.sdr(ref, est, filter_length=L, change_sign=True, **o), lambda m=m: -m.sdr(ref, est, filter_length=L, **o))
        T("sdr(return_perm) against sdr", lambda m=m: m.sdr(ref, est, filter_length=L, return_perm=True, **o)[0], lambda m=m: m.sdr(ref, est, filter_length=L, **o))
        T("sdr(return_perm, change_sign) against sdr(return_perm)", lambda m=m: m.sdr(ref, est, filter_length=L, return_perm=True, change_sign=True, **o), lambda m=m: (lambda q: (-q[0], q[1]))(m.sdr(ref, est, filter_length=L, return_perm=True, **o)))
        oz = {k: v for k, v in o.items() if k in ("zero_mean", "clamp_db")}
        T("si_sdr against sdr(filter_length=1)", lambda m=m: m.si_sdr(ref, est, return_perm=True, **oz), lambda m=m: m.sdr(ref, est, filter_length=1, return_perm=True, **oz))
        T("si_sdr(change_sign) against sdr(filter_length=1, change_sign)", lambda m=m: m.si_sdr(ref, est, change_sign=True, **oz), lambda m=m: m.sdr(ref, est, filter_length=1, change_sign=True, **oz))
        T("si_sdr_loss(pairwise) against sdr_loss(filter_length=1, pairwise)", lambda m=m: m.si_sdr_loss(est, ref, pairwise=True, **oz), lambda m=m: m.sdr_loss(est, ref, filter_length=1, pairwise=True, **oz))
        T("si_sdr_pit_loss against sdr_pit_loss(filter_length=1)", lambda m=m: m.si_sdr_pit_loss(est, ref, **oz), lambda m=m: m.sdr_pit_loss(est, ref, filter_length=1, **oz))
        ob = {k: v for k, v in o.items() if k != "use_cg_iter"}
        if K <= c["T"]:
            T("si_bss_eval_sources against bss_eval_sources(filter_length=1)", lambda m=m: m.si_bss_eval_sources(ref, est, **ob), lambda m=m: m.bss_eval_sources(ref, est, filter_length=1, **ob))
        if K == M:
            T("si_sdr_loss against sdr_loss(filter_length=1)", lambda m=m: m.si_sdr_loss(est, ref, **oz), lambda m=m: m.sdr_loss(est, ref, filter_length=1, **oz))
            if K <= c["T"]:
                T("si_bss_eval_sources(compute_permutation=False) against bss_eval_sources(filter_length=1, ...)", lambda m=m: m.si_bss_eval_sources(ref, est, compute_permutation=False, **ob), lambda m=m: m.bss_eval_sources(ref, est, filter_length=1, compute_permutation=False, **ob))
        if sar_ok(c, "bss_eval_sources"):
            b = tuple(c.get("batch", ()))
            if K == M and not b:
                # a permutation of the estimates makes the search return every pair
                def viaperm(m=m):
                    q = m.bss_eval_sources(ref, est, filter_length=L, **o)
                    p = [int(x) for x in to_np(q[3])]
                    r = m.bss_eval_sources(ref, est[p], filter_length=L, compute_permutation=False, **o)
                    return tuple(q[:3]), r
                if not c.get("use_cg_iter"):
                    T("bss_eval_sources(compute_permutation=False) on the permuted estimates against bss_eval_sources", lambda m=m: viaperm(m)[1], lambda m=m: viaperm(m)[0])
    # the subpackages have the pairwise losses
    tests.append(("pairwise_sdr_loss against sdr_loss(pairwise=True)", lambda: S.pairwise_sdr_loss(est, ref, filter_length=L, **o), lambda: S.sdr_loss(est, ref, filter_length=L, pairwise=True, **o)))
    oz = {k: v for k, v in o.items() if k in ("zero_mean", "clamp_db")}
    tests.append(("pairwise_si_sdr_loss against si_sdr_loss(pairwise=True)", lambda: S.pairwise_si_sdr_loss(est, ref, **oz), lambda: S.si_sdr_loss(est, ref, pairwise=True, **oz)))
    for what, f, g in tests:
        s1, x = two(f)
        s2, y = two(g)
        if s1 != s2:
            return "%s: one of them raises: %r, %r" % (what, x, y)
        if s1 == "exc":
            if type(x) is not type(y):
                return "%s: raise differently: %r, %r" % (what, x, y)
            continue
        z = same(x, y, what)
        if z:
            return z
    # the top-level functions and those of the subpackage, with the options of the case, and by position
    for name, kw in variants(c):
        s1, x = two(lambda: call(name, c, ref, est, via="top", **kw))
        s2, y = two(lambda: call(name, c, ref, est, via="sub", **kw))
        if s1 != s2:
            return "%s %s: only one of the package and the subpackage raises: %r, %r" % (name, kw, x, y)
        if s1 == "ok":
            z = same(x, y, "%s %s in the package and in the subpackage" % (name, kw))
            if z:
                return z
    # metrics with options against the independent definition (options reach the computation)
    if not c.get("use_cg_iter") and sar_ok(c, "bss_eval_sources"):
        r, e = rounded(c)
        b = tuple(c.get("batch", ()))
        for via in ("top", "sub"):
            y = to_np(call("sdr_loss", c, ref, est, via=via, pairwise=True))
            for i in bidx(b):
                w = mets(c, r[i], e[i], sar=False)
                if w["ok_sdr"] and not close(y[i], -w["sdr"], np.maximum(w["tol_sdr"], 1e-2 if f32 else 1e-6)):
                    return "sdr_loss(pairwise=True) of the %s with %s: %s instead of %s" % (via, o, y[i].tolist(), (-w["sdr"]).tolist())


DEFAULTS = {
    "bss_eval_sources": dict(filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, compute_permutation=True, load_diag=None),
    "sdr": dict(filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None, return_perm=False, change_sign=False),
    "sdr_loss": dict(filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None, pairwise=False),
    "sdr_pit_loss": dict(filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None),
    "pairwise_sdr_loss": dict(filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None),
    "si_bss_eval_sources": dict(zero_mean=False, clamp_db=None, compute_permutation=True, load_diag=None),
    "si_sdr": dict(zero_mean=False, clamp_db=None, return_perm=False, change_sign=False),
    "si_sdr_loss": dict(zero_mean=False, clamp_db=None, pairwise=False),
    "si_sdr_pit_loss": dict(zero_mean=False, clamp_db=None),
    "pairwise_si_sdr_loss": dict(zero_mean=False, clamp_db=None),
}


def check_C13_defaults(c):
    """calls without options equal calls with the documented defaults"""
    be = c["be"]
    ref, est = inp(c)
    for via in ("top", "sub"):
        for name, d in DEFAULTS.items():
            if via == "top" and name.startswith("pairwise"):
                continue
            f = C.fun(name, be, via)
            a = (est, ref) if name in C.LOSSES or "pairwise" in name else (ref, est)
            s1, x = attempt(lambda: f(*a))
            s2, y = attempt(lambda: f(*a, **d))
            if s1 != s2:
                return "%s (%s): defaults: %r, %r" % (name, via, x, y)
            if s1 == "exc":
                continue
            for p, q in zip(to_np(astuple(x)), to_np(astuple(y))):
                if not close(p, q, 1e-6):
                    return "%s (%s): without options %s, with the documented defaults %s" % (name, via, p.tolist(), q.tolist())
            # one option at a time, then options by position in the documented order
            vals = list(d.values())
            s3, z = attempt(lambda: f(*a, *vals))
            if s3 == "ok":
                for p, q in zip(to_np(astuple(z)), to_np(astuple(y))):
                    if not close(p, q, 1e-6):
                        return "%s (%s): options by position %s, by name %s" % (name, via, p.tolist(), q.tolist())
    return None


def check_C14(c):
    dt = c.get("dtype", "float64")
    if c.get("mode") == "exact":
        r, e = exact_matrix(c)
        inf = {}
        for be in ("numpy", "torch"):
            for p in ("", "si_"):
                x = to_np(call(p + "sdr_loss", {}, conv(r, be, dt), conv(e, be, dt), be=be, pairwise=True, **({} if p else dict(filter_length=1))))
                inf[be, p] = np.where(np.isinf(x), np.sign(x), 0)
        # rounding decides between an infinite and a very large metric
        if any(not np.array_equal(inf["numpy", p], inf["torch", p]) for p in ("", "si_")):
            return None
        for name, kw in (("sdr_loss", dict(pairwise=True)), ("sdr", dict(return_perm=True)), ("sdr_pit_loss", {}), ("si_sdr", dict(return_perm=True)), ("si_sdr_loss", dict(pairwise=True))):
            o = {} if name.startswith("si") else dict(filter_length=1)
            s1, x = attempt(lambda: call(name, {}, conv(r, "numpy", dt), conv(e, "numpy", dt), be="numpy", **o, **kw))
            s2, y = attempt(lambda: call(name, {}, conv(r, "torch", dt), conv(e, "torch", dt), be="torch", **o, **kw))
            if s1 != s2:
                return "%s %s with infinite SDR: only one backend raises: numpy %r, torch %r" % (name, kw, x, y)
            if s1 == "exc":
                continue
            z = compare_outs(name, kw, x[:1] if isinstance(x, tuple) else x, y[:1] if isinstance(y, tuple) else y, 3e-2 if dt == "float32" else 1e-5, "torch instead of numpy", dt == "float32")
            if z:
                return z
        return None
    r, e = signals(c)
    f32 = dt == "float32"
    tol = 3e-2 if f32 else 1e-5
    if c.get("kind") == "nanin":
        e = e.copy()
        e[..., 0, 0] = np.nan
    for name, kw in variants(c) + [("bss_eval_sources", dict(compute_permutation=False))]:
        if not sar_ok(c, name) or (c["K"] == 1 and c["M"] > 1 and "bss" in name and not kw):
            continue
        if "bss" in name and c.get("kind") == "silent_ref" and c["K"] == 2 and c.get("clamp_db") is None:
            # one reference is left: rounding decides between an infinite and a very large SIR
            continue
        s1, x = attempt(lambda: call(name, c, conv(r, "numpy", dt), conv(e, "numpy", dt), be="numpy", **kw))
        s2, y = attempt(lambda: call(name, c, conv(r, "torch", dt), conv(e, "torch", dt), be="torch", **kw))
        if s1 != s2:
            return "%s %s: only one backend raises: numpy %r, torch %r" % (name, kw, x, y)
        if s1 == "exc":
            continue
        if c.get("kind") in ("silent_ref", "all_silent") and not c.get("load_diag") and "bss" in name:
            continue
        z = compare_outs(name, kw, x, y, tol, "torch instead of numpy", f32)
        if z:
            return z


def check_C15(c):
    import torch

    r, e = signals(c)
    if 0 in c.get("batch", ()):
        return None
    R = torch.from_numpy(r).requires_grad_(True)
    E = torch.from_numpy(e).requires_grad_(True)
    rr = C.rng_of("dir", c.get("seed", 0))
    dr, de = torch.from_numpy(rr.randn(*r.shape)), torch.from_numpy(rr.randn(*e.shape))
    if c.get("kind") == "scaled" or c.get("scaledir"):
        dr = dr * R.detach().abs().amax(-1, keepdim=True)
        de = de * E.detach().abs().amax(-1, keepdim=True)
    h = 1e-5

    for name, kw in variants(c):
        if not sar_ok(c, name) or ("bss" in name and c["K"] == 1 and c["M"] > 1):
            continue

        def f(R_, E_):
            o = astuple(call(name, c, R_, E_, be="torch", **kw))
            return [x for x in o if x.is_floating_point()], [x for x in o if not x.is_floating_point()]

        outs, perms = f(R, E)
        (op, pp), (om, pm) = f(R.detach() + h * dr, E.detach() + h * de), f(R.detach() - h * dr, E.detach() - h * de)
        (op2, _), (om2, _) = f(R.detach() + h * dr, E.detach()), f(R.detach() - h * dr, E.detach())
        if any(not torch.equal(a, b) for a, b in zip(pp, pm)):
            continue
        for q, x in enumerate(outs):
            if "bss" in name and c["K"] == 1 and q == 1:
                continue  # the SIR is infinite
            if not x.requires_grad:
                return "%s %s: output %d is not differentiable" % (name, kw, q)
            w = torch.from_numpy(C.rng_of("w", q).rand(*x.shape) + 0.5)
            gr, ge = torch.autograd.grad((x * w).sum(), (R, E), retain_graph=True, allow_unused=True)
            if gr is None or ge is None:
                return "%s %s: output %d has no gradient with respect to %s" % (name, kw, q, "ref" if gr is None else "est")
            for what, an, num in (
                ("ref and est", (gr * dr).sum() + (ge * de).sum(), ((op[q] - om[q]) * w).sum() / (2 * h)),
                ("ref", (gr * dr).sum(), ((op2[q] - om2[q]) * w).sum() / (2 * h)),
            ):
                an, num = float(an), float(num)
                if not np.isfinite(num):
                    continue
                if not np.isfinite(an) or abs(an - num) > 1e-3 * (1 + abs(num)) + 1e-3 * float(w.sum()):
                    # rule out a coarse difference quotient
                    h2 = h / 10
                    if what == "ref":
                        (o1, _), (o2, _) = f(R.detach() + h2 * dr, E.detach()), f(R.detach() - h2 * dr, E.detach())
                    else:
                        (o1, _), (o2, _) = f(R.detach() + h2 * dr, E.detach() + h2 * de), f(R.detach() - h2 * dr, E.detach() - h2 * de)
                    num2 = float(((o1[q] - o2[q]) * w).sum() / (2 * h2))
                    if abs(an - num2) <= 1e-3 * (1 + abs(num2)) + 20 * abs(num - num2):
                        continue
                    return "%s %s: output %d: directional derivative with respect to %s is %r, backpropagation gives %r" % (name, kw, q, what, num, an)


def check_C16(c):
    be, dt = c.get("be", "numpy"), c.get("dtype", "float64")
    r, e = signals(c)
    b, K, M = tuple(c.get("batch", ())), c["K"], c["M"]
    rr = C.rng_of("perm", c.get("seed", 0), K, M)
    pr, pe = rr.permutation(K), rr.permutation(M)
    f32 = dt == "float32"
    tol = 2e-2 if f32 else 1e-6
    a = (conv(r, be, dt), conv(e, be, dt))
    p = (conv(r[..., pr, :], be, dt), conv(e[..., pe, :], be, dt))
    what = "references reordered by %s, estimates by %s" % (pr.tolist(), pe.tolist())
    for name in ("sdr_loss", "si_sdr_loss"):
        x = to_np(call(name, c, *a, pairwise=True))
        y = to_np(call(name, c, *p, pairwise=True))
        w = x[..., pr, :][..., pe]
        if not close(y, w, np.maximum(tol, tolb(w, f32))):
            return "%s(pairwise=True), %s: %s instead of %s" % (name, what, y.tolist(), w.tolist())
        # a pair does not depend on the other channels
        for k, m in itertools.product(range(min(K, 2)), range(min(M, 2))):
            z = to_np(call(name, c, conv(r[..., k : k + 1, :], be, dt), conv(e[..., m : m + 1, :], be, dt), pairwise=True))
            w = x[..., k : k + 1, m : m + 1]
            if not close(z, w, np.maximum(tol, tolb(w, f32))):
                return "%s of reference %d and estimate %d alone is %s, with the other channels %s" % (name, k, m, z.tolist(), w.tolist())
    inv_r, inv_e = np.argsort(pr), np.argsort(pe)
    for name, kw in (("sdr", dict(return_perm=True)), ("bss_eval_sources", {}), ("si_bss_eval_sources", {})):
        if not sar_ok(c, name) or (K == 1 and M > 1 and "bss" in name):
            continue
        s1, x = attempt(lambda: call(name, c, *a, **kw))
        s2, y = attempt(lambda: call(name, c, *p, **kw))
        if s1 != s2:
            return "%s: %s: raises for only one order: %r %r" % (name, what, x, y)
        if s1 == "exc":
            continue
        x, y = tuple(sat(v, f32) for v in to_np(x)), tuple(sat(v, f32) for v in to_np(y))
        for i in bidx(b):
            dx, dy = {}, {}
            for d, o, mr, me in ((dx, x, range(K), range(M)), (dy, y, pr, pe)):
                for j, q in enumerate(o[-1][i]):
                    k, m = (j, int(q)) if K <= M else (int(q), j)
                    d[(int(mr[k]), int(me[m]))] = [float(v[i][j]) for v in o[:-1]]
            obj = 1 if len(x) == 4 else 0
            if set(dx) != set(dy):
                if abs(sum(v[obj] for v in dx.values()) - sum(v[obj] for v in dy.values())) > 10 * tol:
                    return "%s at batch index %s, %s: pairs %s instead of %s" % (name, i, what, sorted(dy), sorted(dx))
                continue
            for k in dx:
                if not close(dx[k], dy[k], np.maximum(tol, tolb(np.array(dx[k]), f32))):
                    return "%s at batch index %s, %s: pair %s has metrics %s instead of %s" % (name, i, what, k, dy[k], dx[k])
    if sar_ok(c, "bss_eval_sources") and M > K and K > 1:
        # SIR and SAR do not depend on the other estimates
        x = tuple(sat(v, f32) for v in to_np(call("bss_eval_sources", c, *a)))
        for i in bidx(b):
            for j, q in enumerate(x[3][i]):
                e1 = e[i][int(q) : int(q) + 1]
                rk = r[i][j : j + 1]
                if K == 1:
                    y = tuple(sat(v, f32) for v in to_np(call("bss_eval_sources", c, conv(rk, be, dt), conv(e1, be, dt))))
                    for u, v in zip(x[:3], y[:3]):
                        if not close(u[i][j], v[0], np.maximum(tol, tolb(v[0], f32))) and abs(v[0]) < 100:
                            return "bss_eval_sources: metrics of estimate %d depend on the other estimates" % q
    if sar_ok(c, "bss_eval_sources"):
        # all estimates alike: every estimate has the metrics it has alone
        for m in range(min(M, 2)):
            e2 = e.copy()
            oth = [q for q in range(M) if q != m]
            e2[..., oth, :] = signals(dict(c, seed=c.get("seed", 0) + 1000))[1][..., oth, :]
            if K == M:
                x = to_np(call("bss_eval_sources", c, *a, compute_permutation=False))
                y = to_np(call("bss_eval_sources", c, a[0], conv(e2, be, dt), compute_permutation=False))
                for n, u, v in zip(("SDR", "SIR", "SAR"), [sat(v, f32) for v in to_np(x)], [sat(v, f32) for v in to_np(y)]):
                    if not close(u[..., m], v[..., m], np.maximum(tol, tolb(u[..., m], f32))):
                        return "bss_eval_sources: %s of estimate %d changes with the other estimates: %s, %s" % (n, m, u[..., m].tolist(), v[..., m].tolist())


# ---------------------------------------------------------------- C17
def check_C17(c):
    """values in a different environment (no torch, NumPy 2, no optional packages) against this one"""
    import json
    import tempfile

    env = c["env"]
    if env == "top":
        import torch  # noqa

        ref, est = signals(c)
        n = call("sdr", c, conv(ref, "numpy"), conv(est, "numpy"))
        if not isinstance(n, np.ndarray):
            return "sdr of numpy arrays returns %s with torch installed" % type(n)
        t = call("sdr", c, conv(ref, "torch"), conv(est, "torch"), be="torch")
        if not hasattr(t, "detach"):
            return "sdr of torch tensors returns %s" % type(t)
        # the first array alone selects the backend
        import fast_bss_eval as fb

        for name in ("sdr", "sdr_loss", "sdr_pit_loss", "bss_eval_sources", "si_sdr", "si_sdr_loss", "si_sdr_pit_loss", "si_bss_eval_sources"):
            L = {} if name.startswith("si_") else dict(filter_length=c["L"])
            if c["K"] != c["M"] or ("bss" in name and c["K"] * c["L"] > c["T"]):
                continue
            f = getattr(fb, name)
            x, y = (est, ref) if "loss" in name else (ref, est)
            st, w = attempt(lambda: f(conv(x, "numpy"), conv(y, "numpy"), **L))
            if st == "exc":
                continue
            try:
                v = f(conv(x, "numpy"), conv(y, "torch"), **L)
            except Exception as e:
                files, tb = [], e.__traceback__
                while tb is not None:
                    files.append(tb.tb_frame.f_globals.get("__name__", ""))
                    tb = tb.tb_next
                if any(m.startswith("fast_bss_eval.torch") for m in files):
                    return "%s of a numpy array and a torch tensor reaches the torch backend and raises %r" % (name, e)
                continue
            if any(hasattr(q, "detach") for q in astuple(v)):
                return "%s of a numpy array and a torch tensor returns %s" % (name, [type(q).__name__ for q in astuple(v)])
        return None
    ints = {"numpy1-notorch": ["/opt/venv/bin/python"], "numpy2": [os.environ.get("FBE_PY2", "/usr/local/bin/python3-vt")], "nopackaging": ["/opt/venv/bin/python"]}
    exe = ints[env]
    if not os.path.exists(exe[0]):
        import shutil

        w = shutil.which(os.path.basename(exe[0]))
        if not w:
            return None
        exe = [w]
    p = subprocess.run(exe + ["-B", os.path.join(HERE, "envrun.py"), env, json.dumps(c["calls"])], capture_output=True, text=True, timeout=240,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if p.returncode:
        return "environment %s: the package fails: %s" % (env, (p.stderr or p.stdout).strip().splitlines()[-1:])
    for line in p.stdout.splitlines():
        if not line.startswith("RES "):
            continue
        d = json.loads(line[4:])
        case, name, kw = d["case"], d["name"], d["kw"]
        ref, est = inp(case)
        st, o = attempt(lambda: call(name, case, ref, est, **kw))
        if (st == "exc") != ("exc" in d):
            return "environment %s: %s %s raises in only one environment: %s, %r" % (env, name, kw, d.get("exc"), o)
        if st == "exc":
            continue
        q = tuple(np.array(x, dtype=float).reshape(s) for x, s in zip(d["out"], d["shapes"]))
        if d["types"] != [type(x).__name__ for x in astuple(o)]:
            return "environment %s: %s %s returns %s instead of %s" % (env, name, kw, d["types"], [type(x).__name__ for x in astuple(o)])
        o = to_np(astuple(o))
        if d["dtypes"] != [str(x.dtype) for x in o] or [list(x.shape) for x in q] != [list(x.shape) for x in o]:
            return "environment %s: %s %s: results of type %s, shape %s instead of %s, %s" % (env, name, kw, d["dtypes"], [x.shape for x in q], [str(x.dtype) for x in o], [x.shape for x in o])
        q = tuple(x.astype(y.dtype) for x, y in zip(q, o))
        f32 = case.get("dtype") == "float32"
        z = compare_outs(name, kw, o, q, 2e-2 if f32 else 1e-6, "environment %s" % env, f32)
        if z:
            return z
