"""Directed and random cases of the concrete oracles."""
import random

try:
    from props import BES
except Exception:  # pragma: no cover
    BES = ("numpy", "torch")

# (batch, K, M, T, L): filter of length one, two, odd, not a power of two, as long as and longer than the
# signals, single samples and channels, more and fewer references than estimates, several batch axes
SHAPES = [
    ((), 2, 2, 60, 5), ((), 1, 1, 40, 1), ((), 3, 2, 64, 4), ((), 2, 3, 63, 3), ((2,), 2, 2, 50, 6), ((), 1, 1, 7, 12), ((), 1, 2, 8, 8),
    ((), 3, 3, 97, 7), ((2, 3), 2, 3, 40, 4), ((1,), 4, 4, 80, 2), ((), 2, 2, 33, 1), ((3,), 1, 3, 31, 9), ((), 4, 2, 100, 16), ((2, 1), 3, 1, 64, 5),
    ((), 2, 4, 128, 10), ((), 2, 2, 17, 2), ((), 1, 1, 1, 1), ((), 1, 1, 5, 4), ((), 3, 3, 300, 32), ((4,), 5, 5, 70, 3), ((), 1, 1, 3, 20), ((), 2, 2, 257, 64),
    ((), 1, 2, 8, 10), ((), 1, 1, 9, 9), ((2,), 1, 1, 6, 12), ((), 2, 2, 12, 22), ((), 1, 1, 5, 5), ((), 2, 9, 60, 2), ((2,), 10, 2, 50, 1), ((), 3, 17, 40, 3), ((), 9, 9, 80, 2), ((), 2, 2, 16, 18), ((), 1, 2, 15, 18), ((), 2, 1, 4, 6), ((), 2, 2, 60, 6), ((), 2, 3, 62, 3),
    ((), 1, 1, 1, 3), ((), 1, 2, 2, 5), ((2,), 1, 1, 9, 31), ((1, 1, 2), 2, 2, 30, 3), ((), 6, 6, 90, 2), ((), 2, 5, 45, 1), ((), 5, 2, 45, 1), ((2, 2), 3, 3, 64, 8),
]


def base(s, **k):
    b, K, M, T, L = s
    return dict(batch=list(b), K=K, M=M, T=T, L=L, **k)


def rand_shape(r, tmax=160, lmax=24, cmax=4):
    b = r.choice([(), (), (1,), (2,), (3,), (2, 2), (1, 3)])
    K, M = r.randint(1, cmax), r.randint(1, cmax)
    T = r.randint(1, tmax) if r.random() < 0.3 else r.randint(30, tmax)
    L = r.randint(1, lmax)
    if r.random() < 0.15:
        L = 1
    if r.random() < 0.1:
        L = T + r.randint(0, 5)
    q = r.random()
    if q < 0.12:
        # lengths next to a power of two
        n = 2 ** r.randint(2, 6) + r.randint(-2, 2)
        L = min(lmax, max(1, r.randint(1, n - 1)))
        T = max(1, n + r.randint(0, 1) - L)
    return (b, K, M, T, L)


def rand_opts(r, cg=0.0):
    o = {}
    if r.random() < 0.3:
        o["zero_mean"] = True
    if r.random() < 0.3:
        o["clamp_db"] = r.choice([0.3, 5.0, 12, 30, 60, 100.0])
    if r.random() < 0.3:
        o["load_diag"] = r.choice([1e-6, 1e-3, 0.1, 1.0])
    if r.random() < cg:
        o["use_cg_iter"] = r.choice([1, 2, 3])
    return o


OPTS = [dict(), dict(zero_mean=True), dict(clamp_db=20.0), dict(load_diag=1e-3), dict(zero_mean=True, clamp_db=15, load_diag=0.05)]
# (few iterations: more of them amplify rounding errors)
OPTS_CG = OPTS + [dict(clamp_db=0.4), dict(use_cg_iter=4), dict(use_cg_iter=3, load_diag=1e-2, zero_mean=True), dict(use_cg_iter=3, clamp_db=10)]
KINDS = ("noise", "offset", "scaled", "colored", "weak", "strong")


def C01(r, n):
    for i, s in enumerate(SHAPES):
        for be in BES:
            yield base(s, be=be, kind=KINDS[i % 3], seed=i)
            yield base(s, be=be, kind="noise", seed=i, dtype="float32", strided=True)
            yield base(s, be=be, kind="offset", seed=i, **OPTS[(i % 4) + 1])
    for be in BES:
        for q, kind in enumerate(("weak", "strong", "weak", "strong")):
            for j, (K, M, L) in enumerate(((2, 2, 1), (2, 2, 4), (1, 2, 3), (3, 2, 2))):
                yield base(((2,) if q > 1 else (), K, M, 64, L), be=be, kind=kind, seed=q + j)
                yield base(((), K, M, 64, L), be=be, kind=kind, seed=q + j, clamp_db=100.0)
    for T, L in ((1000, 512), (300, 512), (2048, 100), (1500, 700), (4000, 1030)):
        for be in BES:
            yield base(((), 1, 1, T, L), be=be, seed=T)
    for i in range(n):
        yield base(rand_shape(r), be=BES[i % len(BES)], kind=r.choice(KINDS), seed=r.randint(0, 10**6), **rand_opts(r))


def C02(r, n):
    for i, s in enumerate(SHAPES):
        for be in BES:
            yield base(s, be=be, kind=KINDS[i % 3], seed=i)
            yield base(s, be=be, kind="noise", seed=i, dtype="float32")
            yield base(s, be=be, kind="offset", seed=i, **OPTS[(i % 4) + 1])
            yield dict(base(s[:4] + (1,), be=be, kind=KINDS[i % 3], seed=i), si=True)
    for be in BES:
        yield base(((), 3, 3, 2000, 64), be=be, seed=1)
        yield base(((), 1, 2, 1500, 700), be=be, seed=1)
        yield base(((), 2, 2, 1600, 300), be=be, seed=1)
        for q, kind in enumerate(("weak", "strong", "weak", "strong")):
            for j, (K, M, L) in enumerate(((2, 2, 1), (2, 2, 4), (1, 2, 3), (3, 2, 2))):
                yield base(((2,) if q > 1 else (), K, M, 64, L), be=be, kind=kind, seed=q + j)
                yield base(((), K, M, 64, L), be=be, kind=kind, seed=q + j, clamp_db=100.0)
    for i in range(n):
        yield base(rand_shape(r), be=BES[i % len(BES)], kind=r.choice(KINDS), seed=r.randint(0, 10**6), **rand_opts(r))


def C03(r, n):
    for i, s in enumerate(SHAPES):
        for be in BES:
            yield base(s, be=be, seed=i, kind=("noise", "same_est", "perfect_scaled")[i % 3] if i % 3 != 2 else "noise")
            yield base(s, be=be, seed=i + 50, dtype="float32", **OPTS[i % 5])
    for be in BES:
        for K, M in ((1, 1), (1, 3), (3, 1), (2, 2), (3, 3), (2, 4), (4, 2), (3, 5), (5, 3), (4, 4)):
            for sign in ("-", "+", "both"):
                for q in range(12):
                    yield dict(mode="exact", be=be, K=K, M=M, sign=sign, seed=q, p=(0.2, 0.5, 0.8, 0.0)[q % 4], dtype=("float64", "float32")[q % 2])
        for K, M in ((2, 2), (3, 3), (4, 4), (5, 5), (4, 5), (5, 4), (6, 6)):
            for q in range(3):
                for w in (6, 12, 13, 16):
                    yield dict(mode="exact", be=be, K=K, M=M, sign="-", seed=q, wide=w)
        for q in range(20):
            yield dict(mode="lsa", be=be, n=1 + q % 5, m=1 + (3 * q // 5) % 5, sign="+-"[q % 2], seed=q, many=6)
        for K in (1, 2, 3):
            if K > 1:
                yield dict(mode="mixed", be=be, K=K)
            for w in ("ref", "est"):
                for b in ((), (2,)):
                    for M in (K, K + 1):
                        for L in (1, 3):
                            yield dict(mode="nan", be=be, K=K, M=M, T=30, L=L, batch=list(b), where=w, ch=K - 1)
    for i in range(n):
        s = rand_shape(r, cmax=5)
        yield base(s, be=BES[i % len(BES)], kind=r.choice(("noise", "noise", "same_est")), seed=r.randint(0, 10**6), **rand_opts(r))


def C04(r, n):
    kinds = ("normal", "ties", "binary", "constrows", "constant", "negative", "rankone", "big", "wide_range", "sorted", "small", "tiny")
    for a, b in ((0, 0), (0, 3), (3, 0)):
        yield dict(kind="empty", n=a, m=b, seed=0)
    for a in range(1, 5):
        for b in range(1, 5):
            for k in kinds:
                for q in range(4):
                    yield dict(kind=k, n=a, m=b, seed=q, layout=(None, "T", "strided", "grad")[q % 4], dtype=("float64", "float32")[(q + a + b) % 2])
            yield dict(kind="nan", n=a, m=b, seed=a * 5 + b)
    for a, b in ((7, 7), (10, 10), (6, 12), (12, 6), (20, 20), (1, 15), (15, 1), (9, 10), (10, 9), (30, 30), (25, 40), (40, 25)):
        for k in kinds:
            for q in range(2 if a < 15 else 1):
                yield dict(kind=k, n=a, m=b, seed=q, layout=(None, "T")[q % 2])
    for i in range(n * 8):
        a, b = r.randint(1, 9), r.randint(1, 9)
        if r.random() < 0.4:
            b = a
        yield dict(kind=r.choice(kinds), n=a, m=b, seed=r.randint(0, 10**6), layout=r.choice((None, "T", "strided")), dtype=r.choice(("float64", "float32")))


BSHAPES = [
    ((2,), 2, 2, 30, 3), ((3,), 1, 2, 25, 1), ((2, 2), 2, 3, 24, 4), ((1,), 3, 2, 40, 5), ((2, 3), 3, 3, 40, 2), ((2, 1, 2), 2, 2, 20, 3), ((4,), 1, 1, 9, 12), ((5,), 3, 1, 50, 6),
    ((2,), 2, 4, 33, 7), ((3, 2), 4, 2, 60, 3), ((1, 1), 1, 1, 15, 2), ((3,), 3, 3, 31, 1), ((2, 2, 2), 1, 1, 16, 4), ((3,), 2, 2, 64, 8), ((0,), 2, 2, 30, 3), ((2, 0), 1, 2, 30, 1), ((), 2, 2, 30, 4),
]


def C05(r, n):
    for i, s in enumerate((((2,), 2, 2, 40, 6), ((4,), 1, 1, 60, 12), ((2, 2), 2, 3, 50, 5), ((3,), 3, 2, 64, 8), ((2,), 1, 1, 9, 12))):
        for be in BES:
            for q in (0, 1):
                for it in (3, 6):
                    yield base(s, be=be, kind="uneven", seed=q, use_cg_iter=it)
                    yield base(s, be=be, kind="uneven", seed=q, use_cg_iter=it, load_diag=1e-2)
                yield base(s, be=be, kind="uneven", seed=q)
    for i, s in enumerate(BSHAPES):
        for be in BES:
            for j, o in enumerate(OPTS_CG):
                if (i + j) % 2 == 0 or j == 0:
                    if 0 in s[0] and (be, j) != ("numpy", 0) and (be, j) != ("torch", 0):
                        continue
                    yield base(s, be=be, kind=("noise", "scaled", "offset")[(i + j) % 3], seed=i, dtype=("float64", "float32")[(i + j) % 5 == 4], **o)
    for i in range(n):
        s = rand_shape(r, tmax=60, lmax=8)
        s = (r.choice([(2,), (3,), (2, 2), (1, 2), (2, 1, 2), (4,)]),) + s[1:]
        yield base(s, be=BES[i % len(BES)], kind=r.choice(("noise", "scaled", "offset")), seed=r.randint(0, 10**6), **rand_opts(r, 0.3))


def C06(r, n):
    for i, s in enumerate(SHAPES[:20]):
        for be in BES:
            for j, o in enumerate(OPTS_CG):
                if (i + j) % 3 == 0:
                    yield base(s, be=be, kind=("noise", "offset", "silent_ref", "all_silent", "perfect", "tiny", "integer")[(i + j) % 7], seed=i, dtype=("float64", "float32", "float64", "int32")[(i + j) % 4] if be == "numpy" else ("float64", "float32")[(i + j) % 2],
                               strided=(i % 3 == 0), readonly=(i % 2 == 0), grad=(i % 2 == 1), **o)
    for be in BES:
        for j, o in enumerate(OPTS_CG):
            yield base(((), 2, 2, 40, 4), be=be, seed=j, kind="offset", readonly=True, **o)
            yield base(((2,), 1, 1, 12, 15), be=be, seed=j, kind="offset", **o)
            yield base(((), 2, 3, 40, 1), be=be, seed=j, kind="silent_est", grad=True, **o)
    for i in range(n):
        yield base(rand_shape(r, tmax=60, lmax=8), be=BES[i % len(BES)], kind=r.choice(("noise", "offset", "silent_est")), seed=r.randint(0, 10**6), strided=r.random() < 0.3, **rand_opts(r, 0.3))


def C07(r, n):
    for i, s in enumerate(SHAPES[:22] + BSHAPES):
        if s[3] < 4:
            continue
        for be in BES:
            for j, o in enumerate(OPTS_CG):
                if (i + j) % 3 == 0 or s[4] == 1 or i < 3:
                    if 0 in s[0] and o:
                        continue
                    for dt in ("float32", "float64") + (("int64", "int16", "int32") if be == "numpy" else ()):
                        if dt[0] == "i" and (i + j) % 2:
                            continue
                        yield base(s, be=be, kind="integer" if dt[0] == "i" else ("noise", "offset")[i % 2], seed=i, dtype=dt, **o)
    for i in range(n):
        s = rand_shape(r, tmax=60, lmax=8)
        if s[3] < 30:
            continue
        yield base(s, be=BES[i % len(BES)], dtype=r.choice(("float32", "float64")), seed=r.randint(0, 10**6), **rand_opts(r, 0.4))


def C08(r, n):
    for i, s in enumerate(SHAPES[:20]):
        if s[3] < 3:
            continue
        for be in BES:
            for j, kind in enumerate(("noise", "perfect", "perfect_scaled", "silent_est", "onehot", "offset", "silent_ref", "all_silent", "same_est")):
                if (i + j) % 2 and i > 3:
                    continue
                for db in ((5.0, 30) if (i + j) % 3 else (60, 100.0)):
                    yield base(s, be=be, kind=kind, seed=i, dtype=("float64", "float32")[(i + j) % 2], clamp_db=db, load_diag=(None, 1e-3)[(i + j) % 4 == 3] if kind not in ("silent_ref", "all_silent") else 1e-3)
    for be in BES:
        for dt in ("float32", "float64"):
            for db in (0.25, 1.0, 50, 80.0, 120.0):
                for kind in ("perfect", "silent_est", "noise", "perfect_scaled"):
                    yield base(((), 2, 2, 50, 1), be=be, dtype=dt, kind=kind, clamp_db=db, seed=1)
                    yield base(((2,), 2, 2, 50, 4), be=be, dtype=dt, kind=kind, clamp_db=db, seed=2)
                    yield base(((), 2, 2, 50, 4), be=be, dtype=dt, kind=kind, clamp_db=db, seed=2, use_cg_iter=10)
            for K, M in ((2, 3), (3, 2)):
                yield base(((), K, M, 8, 1), be=be, dtype=dt, kind="onehot", clamp_db=40.0, seed=2)
    for i in range(n):
        s = rand_shape(r, tmax=60, lmax=8)
        if s[3] < 20:
            continue
        yield base(s, be=BES[i % len(BES)], dtype=r.choice(("float32", "float64")), kind=r.choice(("noise", "perfect", "silent_est", "offset")), seed=r.randint(0, 10**6), clamp_db=r.choice((3.0, 10, 25.0, 70.0)))


def small(r, s):
    return s


def C09(r, n):
    for i, s in enumerate(SHAPES[:20]):
        if s[3] < 8:
            continue
        for be in BES:
            for j, o in enumerate(OPTS_CG):
                if (i + j) % 3 == 0 or i < 2:
                    yield base(s, be=be, seed=i, kind=("noise", "offset")[j % 2], dtype=("float64", "float32")[(i + j) % 4 == 3], range=((-3, 3), (-5.5, 0), (0, 5), (-0.5, 0.5), (-3, 9))[(i + 2 * j) % 5], **o)
    for i, s in enumerate((((), 2, 2, 50, 4), ((2,), 1, 2, 40, 1), ((), 3, 2, 64, 3))):
        for be in BES:
            for j, w in enumerate((0.004, 0.02, 0.1)):
                # signals of nearly unit norm
                yield base(s, be=be, seed=i + j, unit=True, range=(-w, w), positive=bool(j % 2), **OPTS[(i + j) % 3])
    for i in range(n):
        s = rand_shape(r, tmax=60, lmax=8)
        if s[3] < 20:
            continue
        yield base(s, be=BES[i % len(BES)], seed=r.randint(0, 10**6), range=r.choice(((-3, 3), (-5.5, 5), (-3, 9))), **rand_opts(r, 0.2))


def C10(r, n):
    for i, s in enumerate(SHAPES[:20]):
        if s[3] < 8:
            continue
        for be in BES:
            for j, o in enumerate(OPTS_CG):
                if "zero_mean" in o:
                    continue
                if (i + j) % 2 == 0 or i < 2:
                    yield base(s, be=be, seed=i, kind=("noise", "offset")[j % 2], dtype=("float64", "float32")[(i + j) % 4 == 3], offset=(2.0, 0.1, 20.0)[(i + j) % 3] if (i + j) % 4 != 3 else 1.0, **o)
    for i in range(n):
        s = rand_shape(r, tmax=60, lmax=8)
        if s[3] < 20:
            continue
        o = rand_opts(r, 0.2)
        o.pop("zero_mean", None)
        yield base(s, be=BES[i % len(BES)], seed=r.randint(0, 10**6), offset=r.choice((0.5, 5.0)), **o)


def C11(r, n):
    for i, s in enumerate(SHAPES):
        for be in BES:
            for j, d in enumerate((0.0, 1e-4, 0.02, 1.0, 0)):
                if (i + j) % 2 and i > 5:
                    continue
                yield base(s, be=be, seed=i, kind=("noise", "silent_ref", "offset", "perfect", "scaled")[(i + j) % 5], load_diag=d, dtype=("float64", "float32")[(i + j) % 6 == 5], **(dict(zero_mean=True) if (i + j) % 7 == 0 else {}), **(dict(clamp_db=30.0) if (i + j) % 5 == 1 else {}))
            if s[4] > 1 and s[3] > s[4]:
                yield base(s, be=be, seed=i, kind="noise", load_diag=0.1, use_cg_iter=120, cgtol=3e-2)
                yield base(s, be=be, seed=i, kind="silent_ref", load_diag=0.5, use_cg_iter=120, cgtol=3e-2)
            if s[4] == 1:
                yield base(s, be=be, seed=i, kind="noise", load_diag=0.1, use_cg_iter=5)
            yield base(s, be=be, seed=i, kind="all_silent", load_diag=0.1, clamp_db=25.0)
    for i in range(n):
        yield base(rand_shape(r, tmax=80, lmax=10), be=BES[i % len(BES)], seed=r.randint(0, 10**6), kind=r.choice(("noise", "offset", "silent_ref")), load_diag=10 ** r.uniform(-4, 1))


def C12(r, n):
    for i, s in enumerate(SHAPES):
        if s[3] < 15 or s[4] > 20 or s[4] > s[3] // 2 + 1:
            continue
        for be in BES:
            yield base(s, be=be, seed=i, kind="noise", use_cg_iter=150)
            yield base(s, be=be, seed=i, kind="scaled", use_cg_iter=150, load_diag=0.05)
            yield base(s, be=be, seed=i, kind="offset", use_cg_iter=200, zero_mean=True)
            if i % 2:
                yield base(s, be=be, seed=i, kind="noise", use_cg_iter=80, dtype="float32", tol=5e-2)
            if s[4] > 2:
                yield base(s, be=be, seed=i, kind="colored", use_cg_iter=250, tol=0.2, cond=2000, steps=[1, 2, 4, 8, 20, 60])
    for i in range(n):
        s = rand_shape(r, tmax=120, lmax=10)
        if s[3] < 30:
            continue
        yield base(s, be=BES[i % len(BES)], seed=r.randint(0, 10**6), kind="noise", use_cg_iter=200, **({"load_diag": 0.02} if r.random() < 0.4 else {}))


def C13(r, n):
    for be in BES:
        yield dict(mode="defaults", be=be, batch=[], K=2, M=2, T=1400, seed=3, kind="offset")
        yield dict(mode="defaults", be=be, batch=[2], K=1, M=2, T=1100, seed=4, kind="offset", dtype="float64")
    for i, s in enumerate(SHAPES[:24]):
        if s[3] < 5:
            continue
        for be in BES:
            for j, o in enumerate(OPTS_CG):
                if (i + j) % 3 == 0 or i < 3:
                    yield base(s, be=be, seed=i, kind=("offset", "noise", "scaled")[(i + j) % 3], dtype=("float64", "float32")[(i + j) % 7 == 6], **o)
    for i in range(n):
        s = rand_shape(r, tmax=60, lmax=8)
        if s[3] < 20:
            continue
        yield base(s, be=BES[i % len(BES)], seed=r.randint(0, 10**6), kind=r.choice(("offset", "noise")), **rand_opts(r, 0.3))


def C14(r, n):
    for i, s in enumerate(SHAPES):
        if s[3] < 5:
            continue
        for j, o in enumerate(OPTS_CG):
            if (i + j) % 3 == 0 or i < 2:
                yield base(s, seed=i, kind=("noise", "offset", "silent_est", "nanin", "scaled", "silent_ref", "colored")[(i + 2 * j) % 7], dtype=("float64", "float32")[(i + j) % 7 == 6], **o)
    for K, M in ((1, 1), (1, 3), (3, 1), (2, 2), (3, 3), (2, 4), (4, 2)):
        for q in range(8):
            yield dict(mode="exact", K=K, M=M, sign=("-", "+", "both", "both")[q % 4], seed=q, p=(0.2, 0.5, 0.8)[q % 3], dtype=("float64", "float32")[q % 2])
    for i in range(n * 2):
        s = rand_shape(r, tmax=80, lmax=10)
        if s[3] < 20:
            continue
        yield base(s, seed=r.randint(0, 10**6), kind=r.choice(("noise", "offset", "silent_est", "nanin")), **rand_opts(r, 0.3))


def C15(r, n):
    for i, s in enumerate(SHAPES[:24] + BSHAPES):
        if s[3] < 8 or s[4] > s[3] or 0 in s[0] or s[3] > 130:
            continue
        for j, o in enumerate(OPTS_CG):
            if (i + j) % 4 == 0 or i < 2:
                yield base(s, seed=i, kind=("noise", "offset")[(i + j) % 2], **o)
    for T, L in ((5000, 1), (9000, 3)):
        yield base(((), 1, 2, T, L), seed=T, kind="noise")
    for i in range(n):
        s = rand_shape(r, tmax=50, lmax=6, cmax=3)
        if s[3] < 25:
            continue
        yield base(s, seed=r.randint(0, 10**6), kind=r.choice(("noise", "offset")), **rand_opts(r, 0.3))


def C16(r, n):
    for i, s in enumerate(SHAPES[:24] + BSHAPES):
        if s[3] < 8 or 0 in s[0]:
            continue
        for be in BES:
            for j, o in enumerate(OPTS):
                if (i + j) % 3 == 0:
                    yield base(s, be=be, seed=i, kind=("noise", "levels", "offset", "scaled")[(i + j) % 4 if j else 1], dtype=("float64", "float32")[(i + j) % 7 == 6], **o)
    for i in range(n):
        s = rand_shape(r, tmax=60, lmax=8, cmax=5)
        if s[3] < 25:
            continue
        yield base(s, be=BES[i % len(BES)], seed=r.randint(0, 10**6), kind=r.choice(("noise", "offset", "levels")), **rand_opts(r))


def C17(r, n):
    def calls(bes):
        out = []
        for i, s in enumerate(SHAPES[:16] + BSHAPES[:8]):
            if s[3] < 8:
                continue
            for be in bes:
                o = OPTS_CG[i % len(OPTS_CG)]
                c = base(s, be=be, seed=i, kind=("noise", "offset")[i % 2], dtype=("float64", "float32", "float64", "int64")[i % 4] if be == "numpy" else ("float64", "float32")[i % 2], **o)
                if c["dtype"] == "int64":
                    c["kind"] = "integer"
                for name, kw in (("sdr", dict(return_perm=True)), ("sdr_loss", dict(pairwise=True)), ("sdr_pit_loss", {}), ("bss_eval_sources", {}), ("si_sdr", dict(return_perm=True)), ("si_sdr_loss", dict(pairwise=True)), ("si_sdr_pit_loss", {}), ("si_bss_eval_sources", {})):
                    if "bss" in name and s[1] * s[4] > s[3] + s[4] - 1 and not o.get("load_diag"):
                        continue
                    out.append([c, name, kw])
                if s[1] == s[2]:
                    for name, kw in (("bss_eval_sources", dict(compute_permutation=False)), ("sdr_loss", {}), ("si_bss_eval_sources", dict(compute_permutation=False)), ("si_sdr_loss", {})):
                        if "bss" in name and s[1] * s[4] > s[3] + s[4] - 1 and not o.get("load_diag"):
                            continue
                        out.append([c, name, kw])
        return out

    a = calls(["numpy"])
    for env in ("numpy1-notorch", "numpy2"):
        h = (len(a) + 3) // 4
        for q in range(4):
            yield dict(env=env, calls=a[q * h : (q + 1) * h])
    if "torch" in BES:
        yield dict(env="nopackaging", calls=calls(["torch", "numpy"])[:120])
        for s in SHAPES[:6]:
            yield base(s, env="top", seed=1)
    for i in range(n // 10):
        s = rand_shape(r, tmax=60, lmax=8)
        c = base(s, be="numpy", seed=r.randint(0, 10**6), **rand_opts(r, 0.3))
        yield dict(env=r.choice(("numpy1-notorch", "numpy2")), calls=[[c, "sdr", dict(return_perm=True)], [c, "sdr_loss", dict(pairwise=True)]])


def cases(prop, seed, tier):
    r = random.Random("%s %s" % (prop, seed))
    n = 200 if tier == "quick" else 3000
    if prop == "C17":
        n = 0 if tier == "quick" else 200
    for i, c in enumerate(globals()[prop](r, n)):
        if i % 3 == 2 and c.get("be", "torch") == "torch" and prop not in ("C15", "C17"):
            # the caller runs without gradients
            c = dict(c, nograd=True)
        if i % 4 == 1 and prop not in ("C04", "C17") and c.get("K") and c.get("L") and c.get("T", 999) < 400 and not c.get("mode") and not c.get("use_cg_iter"):
            c = dict(c, prelude=True)
        yield c
