"""Reference computations and input generation for the concrete (bounded) part of the checks.

Everything here is written from the definitions in properties.jsonl: explicit matrices of
shifted references, QR projections, brute force over assignments.  Nothing is shared with the
code under test."""
import itertools
import os
import sys

import numpy as np

REPO = os.environ.get("FBE_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


# ---------------------------------------------------------------- inputs
def rng_of(*key):
    h = 2166136261
    for ch in repr(key).encode():
        h = ((h ^ ch) * 16777619) & 0xFFFFFFFF
    return np.random.RandomState(h)


def signals(c):
    """(ref, est) float64 arrays of shape batch + (K, T), batch + (M, T) for the case c"""
    b, K, M, T = tuple(c.get("batch", ())), c["K"], c["M"], c["T"]
    kind, seed = c.get("kind", "noise"), c.get("seed", 0)
    r = rng_of(kind, b, K, M, T, seed)
    # independent references; each estimate is a filtered mixture dominated by one reference
    ref = r.randn(*b, K, T)
    if kind == "colored":
        for t in range(1, T):
            ref[..., t] += 0.8 * ref[..., t - 1]
    if kind == "onehot":
        ref = r.randint(-1, 2, size=b + (K, T)).astype(float)
    flen = min(4, T)
    est = np.zeros(b + (M, T))
    for m in range(M):
        dom = r.randint(K)
        for k in range(K):
            g = 1.0 if k == dom else 0.35
            h = r.randn(flen) * g * 0.6 ** np.arange(flen)
            h[0] += g
            for i in range(flen):
                est[..., m, i:] += h[i] * ref[..., k, : T - i]
    est = est + 0.4 * r.randn(*b, M, T)
    if kind == "offset":
        ref = ref + 3.0 * r.randn(*b, K, 1)
        est = est - 2.0 * r.randn(*b, M, 1)
    elif kind == "scaled":
        ref = ref * 10.0 ** r.uniform(-2, 4, size=b + (K, 1))
        est = est * -(10.0 ** r.uniform(-2, 4, size=b + (M, 1)))
    elif kind == "levels":
        # one channel (of one batch element) is far louder or quieter than the others
        ref = ref * 10.0 ** r.choice([-3, 0, 0, 9], size=b + (K, 1))
        est = est * 10.0 ** r.choice([-3, 0, 0, 9], size=b + (M, 1))
    elif kind == "quiet":
        ref = ref * 1e-3
        est = est * 1e-3
    elif kind == "tiny":
        # norms below 1e-6: not amplified
        ref = ref * 1e-8
        est = est * 1e-8
    elif kind == "perfect":
        for m in range(M):
            est[..., m, :] = ref[..., m % K, :]
    elif kind == "perfect_scaled":
        for m in range(M):
            est[..., m, :] = -0.3 * ref[..., m % K, :]
    elif kind == "silent_est":
        est[..., 0, :] = 0.0
    elif kind == "silent_ref":
        ref[..., 0, :] = 0.0
    elif kind == "all_silent":
        est = est * 0.0
        ref = ref * 0.0
    elif kind == "integer":
        ref = np.round(ref * 100)
        est = np.round(est * 100)
    elif kind == "same_est":
        est[...] = est[..., :1, :]
    elif kind == "weak":
        # estimates far from the references: the error has a support of its own
        h = T // 2
        ref[..., h:] = 0
        est[..., h:] = 0
        est = est * 10.0 ** r.uniform(-5.5, -1, size=b + (M, 1))
        est[..., h:] = r.randn(*b, M, T - h)
    elif kind == "strong":
        # small errors
        for m in range(M):
            est[..., m, :] = 0.7 * ref[..., m % K, :]
        est = est + 10.0 ** r.uniform(-4, -1, size=b + (M, 1)) * r.randn(*b, M, T)
    elif kind == "uneven":
        # the elements of the batch have spectra of very different ranges
        ix = list(np.ndindex(*b)) if b else []
        for q, i in enumerate(ix):
            if q % 2 == seed % 2:
                ref[i] = 0
                for k in range(K):
                    ref[i][k, (3 * k) % T] = 1.0 + k
            else:
                for t in range(1, T):
                    ref[i][:, t] += 0.97 * ref[i][:, t - 1]
    return ref, est


# ---------------------------------------------------------------- reference metrics
def unit(x):
    n = np.sqrt(np.sum(x * x, axis=-1, keepdims=True))
    return x / np.maximum(n, 1e-6)


def shifts(x, L):
    T = x.shape[-1]
    A = np.zeros((T + L - 1, L))
    for i in range(L):
        A[i : i + T, i] = x
    return A


def proj(A, y, d):
    """(|P y|^2 or b'(G+dI)^-1 b, condition number)"""
    if d:
        G = A.T @ A + d * np.eye(A.shape[1])
        b = A.T @ y
        return np.clip(b @ np.linalg.solve(G, b), 0, None), np.linalg.cond(G)
    s = np.linalg.svd(A, compute_uv=False)
    cond = np.inf if s[-1] == 0 or A.shape[0] < A.shape[1] else (s[0] / s[-1]) ** 2
    q, _ = np.linalg.qr(A)
    p = q.T @ y
    return p @ p, cond


def coherences(ref, est, L, zero_mean=False, load_diag=None, sar=True):
    """2d signals -> coh_sdr (K, M), coh_sar (M,), condition numbers of the two systems"""
    ref, est = np.asarray(ref, float), np.asarray(est, float)
    if zero_mean:
        ref = ref - ref.mean(-1, keepdims=True)
        est = est - est.mean(-1, keepdims=True)
    ref, est = unit(ref), unit(est)
    d = float(load_diag or 0.0)
    K, M = ref.shape[0], est.shape[0]
    S = [shifts(x, L) for x in ref]
    E = [np.concatenate([y, np.zeros(L - 1)]) for y in est]
    c = np.zeros((K, M))
    c2 = np.zeros(M)
    cond1 = cond2 = 1.0
    for k in range(K):
        for m in range(M):
            c[k, m], q = proj(S[k], E[m], d)
            cond1 = max(cond1, q)
    if sar:
        A = np.concatenate(S, axis=1)
        for m in range(M):
            c2[m], q = proj(A, E[m], d)
            cond2 = max(cond2, q)
    return c, c2, cond1, cond2


def db(coh, clamp=None):
    with np.errstate(all="ignore"):
        coh = np.clip(coh, 0, 1)
        v = 10 * np.log10(coh / (1 - coh))
    if clamp is not None:
        v = np.clip(v, -clamp, clamp)
    return v


def dbtol(coh, err):
    with np.errstate(all="ignore"):
        coh = np.clip(coh, 0, 1)
        return 4.3429448 * 2 * (err / np.maximum(coh, 1e-300) + err / np.maximum(1 - coh, 1e-300)) + 1e-7


def metrics(ref, est, L, zero_mean=False, load_diag=None, clamp=None, dtype="float64", sar=True):
    """dict: sdr (K,M), sir (K,M), sar (M,), tolerances and usable flag"""
    c, c2, cond1, cond2 = coherences(ref, est, L, zero_mean, load_diag, sar)
    u = 5e-14 if dtype == "float64" else 5e-6
    e1, e2 = u * cond1, u * max(cond1, cond2)
    out = dict(sdr=db(c, clamp), tol_sdr=dbtol(c, e1), ok_sdr=e1 < 1e-3, coh=c, cond=(cond1, cond2))
    if sar:
        with np.errstate(all="ignore"):
            csir = c / np.maximum(c2, 1e-300)
        out.update(sir=db(csir, clamp), tol_sir=dbtol(csir, e2 / np.maximum(c2, 1e-12)),
                   sar=db(c2, clamp), tol_sar=dbtol(c2, e2), ok_sar=e2 < 1e-3, coh2=c2)
    return out


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        ok = (np.abs(a - b) <= tol) | (a == b) | (np.isnan(a) & np.isnan(b))
    # where the tolerance is larger than 1 dB the reference value carries no information
    return bool(np.all(ok | (np.broadcast_to(tol, a.shape) > 1.0)))


def assignments(n, m):
    """all injective maps from range(min) into range(max)"""
    return itertools.permutations(range(max(n, m)), min(n, m))


# ---------------------------------------------------------------- calling the code under test
def have_torch():
    try:
        import torch  # noqa
    except ImportError:
        return False
    return True


_mods = {}


def pkg():
    if "p" not in _mods:
        import fast_bss_eval

        f = os.path.realpath(fast_bss_eval.__file__)
        assert f.startswith(os.path.realpath(REPO) + "/"), f
        _mods["p"] = fast_bss_eval
    return _mods["p"]


def sub(be):
    import importlib

    pkg()
    return importlib.import_module("fast_bss_eval." + be)


def conv(x, be, dtype="float64", grad=False, strided=False):
    x = np.asarray(x)
    x = x.astype(dtype)
    if strided:
        # non contiguous view with the same content
        y = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=dtype)
        y[..., ::2] = x
        if be == "numpy":
            return y[..., ::2]
        import torch

        return torch.from_numpy(y)[..., ::2]
    if be == "numpy":
        return x.copy()
    import torch

    t = torch.from_numpy(x.copy())
    if grad:
        t.requires_grad_(True)
    return t


def to_np(x):
    if isinstance(x, (tuple, list)):
        return tuple(to_np(y) for y in x)
    if hasattr(x, "detach"):
        x = x.detach()
        if x.is_conj():
            x = x.resolve_conj()
        return x.cpu().numpy()
    return np.asarray(x)


SI = {"sdr": "si_sdr", "sdr_loss": "si_sdr_loss", "sdr_pit_loss": "si_sdr_pit_loss",
      "bss_eval_sources": "si_bss_eval_sources"}
LOSSES = ("sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss", "si_sdr_loss", "si_sdr_pit_loss", "si_pairwise_sdr_loss")


def fun(name, be, via="top"):
    return getattr(pkg() if via == "top" else sub(be), name)


def call(name, c, ref, est, be=None, via=None, **kw):
    """call public function `name` on (ref, est) arrays of the backend with the options of case c"""
    be = be or c.get("be", "numpy")
    via = via or c.get("via", "top")
    opts = {}
    if not name.startswith("si_") and "L" in c:
        opts["filter_length"] = c["L"]
    for o in ("zero_mean", "clamp_db", "load_diag", "use_cg_iter"):
        if c.get(o) is not None:
            if name.startswith("si_") and (o == "use_cg_iter" or (o == "load_diag" and name != "si_bss_eval_sources")):
                continue
            opts[o] = c[o]
    opts.update(kw)
    a = (est, ref) if name in LOSSES else (ref, est)
    return fun(name, be, via)(*a, **opts)
