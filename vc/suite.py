"""The verification problems: every public function of both backends, under every combination
of options, for all sizes."""
import itertools

from verify import *
from verify import _ivars
from contracts import *
from contracts import elw1, elw2
import contracts as C
import mspec
import cgspec

K, M, TT, L, NI = [toP(ivar(x)) for x in ("K", "M", "T", "L", "n_iter")]
BD = [toP(ivar(x)) for x in ("B0", "B1", "B2")]
FB = [ivar("b0"), ivar("b1"), ivar("b2")]
CLAMP, LOAD = rsym("clamp_db", "+"), rsym("load_diag", "0")
CHANGE = SB(pred("opt", "change_sign"))


PREP = ("_remove_mean", "_normalize", "conjugate_gradient", "toeplitz_conjugate_gradient", "block_toeplitz_conjugate_gradient")


def symbol_bool(n):
    return SB(pred("opt_" + n, n))


def facts_of(o):
    f = [ge(K, 1), ge(M, 1), ge(TT, 1)]
    for i in range(o["rank"]):
        f.append(ge(BD[i], 0))
    if o.get("L") == "sym":
        f.append(ge(L, 2))
    if o.get("cg"):
        f.append(ge(NI, 1))
    return f


def syms_of(o):
    d = {"K": K, "M": M, "T": TT}
    for i in range(o["rank"]):
        d["B%d" % i] = BD[i]
    if o.get("L") == "sym":
        d["L"] = L
    if o.get("cg"):
        d["n_iter"] = NI
    return d


def inputs(be, o, eq=False):
    cls = CLS[be]
    g = "ok" if be == "torch" and o.get("dtype", "float64") != "int64" else None
    bx = [(BD[i],) for i in range(o["rank"])]
    ref = input_tensor(cls, "ref", bx + [(K,), (TT,)], o.get("dtype", "float64"), g)
    est = input_tensor(cls, "est", bx + [(K if eq else M,), (TT,)], o.get("dtype", "float64"), g)
    return ref, est


def options(o):
    kw = {}
    if "L" in o:
        kw["filter_length"] = 1 if o["L"] == "one" else SV(L)
    if "cg" in o:
        kw["use_cg_iter"] = SV(NI) if o["cg"] else None
    if "zm" in o:
        kw["zero_mean"] = o["zm"] if isinstance(o["zm"], bool) else symbol_bool("zero_mean")
    if "clamp" in o:
        kw["clamp_db"] = SV(CLAMP) if o["clamp"] else None
    if "load" in o:
        kw["load_diag"] = SV(LOAD) if o["load"] else None
    for k in ("pairwise", "return_perm", "change_sign", "compute_permutation"):
        if k in o:
            kw[k] = o[k] if isinstance(o[k], bool) else symbol_bool(k)
    return kw


DTYPE = ["float64"]  # type of the signals


def combos(**k):
    if DTYPE[0] != "float64":
        k["dtype"] = (DTYPE[0],)
    ks = list(k)
    for v in itertools.product(*[k[x] for x in ks]):
        d = dict(zip(ks, v))
        if d.get("L") == "one" and d.get("cg"):
            continue
        yield d


def label(o):
    return ",".join("%s=%s" % (k, o[k]) for k in o)


def prog(stubs=(), be="numpy"):
    cfg = C.ST[0].config
    torch = cfg.get("torch", True)
    p = Program(torch=torch, packaging=cfg.get("packaging", True), numpy=cfg.get("numpy", 1))
    m = p.load("fast_bss_eval")
    if not C.USE_OPAQUE[0]:
        stubs = [s for s in stubs if s in ("lsa", "_solve_permutation", "conjugate_gradient")]
    for s in stubs:
        for b in ("numpy", "torch"):
            if (b, s) in C.BROKEN:
                continue
            if b == "torch" and not torch:
                continue
            base = "fast_bss_eval.%s." % b
            if s == "lsa":
                stub(p, base + "helpers", "_linear_sum_assignment_with_inf", lsa_stub)
            elif s == "conjugate_gradient":
                stub(p, base + "cgd", s, cgspec.cg_stub)
            elif s in ("_remove_mean", "_normalize"):
                stub(p, base + "helpers", s, lambda real, s=s: spec_stub(real, s))
            elif s in ("toeplitz_conjugate_gradient", "block_toeplitz_conjugate_gradient"):
                stub(p, base + "cgd", s, lambda real, s=s: spec_stub(real, s))
            elif s in ("sdr_loss", "sdr", "bss_eval_sources", "square_cosine_metrics"):
                stub(p, base + "metrics", s, lambda real, s=s: spec_stub(real, s))
    for b in ("numpy", "torch") if torch else ("numpy",):
        # (all the modules are there before the state is recorded)
        p.load("fast_bss_eval." + b)
    C.ST[0].prog = (p, p.state())
    return p, m


def call_case(fn, be, o, stubs=(), sub=None, order="ref", spec=None, props=()):
    """public function fn(ref, est) or fn(est, ref)"""

    def run(S):
        p, m = prog(stubs)
        f = getattr(p.load(sub) if sub else m, fn)
        ref, est = inputs(be, o, eq=o.get("pairwise") is False)
        S.io = (ref, est)
        a = (ref, est) if order == "ref" else (est, ref)
        return f(*a, **options(o))

    def sp(S):
        ref, est = inputs(be, o, eq=o.get("pairwise") is False)
        a = (ref, est) if order == "ref" else (est, ref)
        s = spec or REG[fn].spec
        return s(*a, **options(o))

    nm = "%s.%s[%s]" % (be, fn, label(o))
    return Case(nm, be, run, sp, facts_of(o), [(FB[i], BD[i]) for i in range(o["rank"])], props, stubs, opt=dict(o, fn=fn, syms=syms_of(o)))


def sdr_loss_cases(ranks=(1,), cg=(False,), full=True):
    for be in ("numpy", "torch"):
        for o in combos(rank=ranks, L=("one", "sym"), cg=cg, zm=("sym",), clamp=(False, True), load=(False, True), pairwise=(False, True)):
            yield call_case("sdr_loss", be, o, stubs=PREP, order="est")


def sdr_cases(ranks=(1,)):
    for be in ("numpy", "torch"):
        for o in combos(rank=ranks, L=("one", "sym"), cg=(False, True), zm=(False, True), clamp=(False, True), load=(False, True), return_perm=("sym",), change_sign=("sym",)):
            yield call_case("sdr", be, o, stubs=("lsa", "sdr_loss") + PREP)


def sqc_cases(ranks=(1,), cg=(False,)):
    for be in ("numpy", "torch"):
        for o in combos(rank=ranks, L=("one", "sym"), cg=cg, zm=("sym",), load=(False, True), pairwise=(False, True)):
            yield call_case("square_cosine_metrics", be, o, stubs=PREP, sub="fast_bss_eval.%s.metrics" % be)


def bss_cases(ranks=(1,)):
    for be in ("numpy", "torch"):
        for o in combos(rank=ranks, L=("one", "sym"), cg=(False, True), zm=(False, True), clamp=(False, True), load=(False, True), compute_permutation=(False, True)):
            yield call_case("bss_eval_sources", be, o, stubs=("lsa", "square_cosine_metrics") + PREP)


def internal_case(name, be, mod, o, args, stubs=(), spec=None, facts=(), label_=None):
    """function of a submodule on arbitrary arrays"""

    def run(S):
        p, m = prog(stubs)
        f = getattr(p.load("fast_bss_eval.%s.%s" % (be, mod)), name)
        a, k = args()
        return f(*a, **k)

    def sp(S):
        a, k = args()
        if be == "torch" and "dim" in k:
            k = dict(k, axis=k.pop("dim"))
        return (spec or REG[name].spec)(*a, **k)

    nm = "%s.%s.%s[%s]" % (be, mod, name, label_ or label(o))
    return Case(nm, be, run, sp, list(facts) + facts_of(o), [(FB[i], BD[i]) for i in range(o["rank"])], (), stubs, opt=dict(o, fn=name, syms=syms_of(o)))


def bx_of(o):
    return [(BD[i],) for i in range(o["rank"])]


def cg_cases(ranks=(1,)):
    for be in ("numpy", "torch"):
        g = "ok" if be == "torch" else None
        inp = lambda nm, axes, be=be, g=g, dt=DTYPE[0]: input_tensor(CLS[be], nm, axes, dt, g, protected=False)
        for r in ranks:
            for vec in (False, True):
                o = dict(rank=r, L="sym", cg=True, vec=vec, **({"dtype": DTYPE[0]} if DTYPE[0] != "float64" else {}))
                yield internal_case(
                    "toeplitz_conjugate_gradient", be, "cgd", o,
                    lambda o=o, vec=vec, inp=inp: ((inp("acf", bx_of(o) + [(L,)]), inp("xcorr", bx_of(o) + [(L,)] + ([] if vec else [(M,)]))), dict(n_iter=SV(NI))),
                    stubs=("conjugate_gradient",),
                )
            for x0 in (False, True):
                o = dict(rank=r, L="sym", cg=True, x0=x0, **({"dtype": DTYPE[0]} if DTYPE[0] != "float64" else {}))

                def args(o=o, x0=x0, inp=inp):
                    a = (inp("acf", bx_of(o) + [(L * 2,), (K,), (K,)]), inp("xcorr", bx_of(o) + [(L, K), (M,)]))
                    k = dict(n_iter=SV(NI))
                    if x0:
                        k["x"] = inp("x0", bx_of(o) + [(L, K), (M,)])
                    return a, k

                yield internal_case("block_toeplitz_conjugate_gradient", be, "cgd", o, args, stubs=("conjugate_gradient",))


# ---------------------------------------------------------------- wrappers
def w_sdr_pit_loss(est, ref, filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None):
    return C.use("sdr", ref, est, filter_length, use_cg_iter, zero_mean, clamp_db, load_diag, False, True)


def w_pairwise_sdr_loss(est, ref, filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None):
    return C.use("sdr_loss", est, ref, filter_length, use_cg_iter, zero_mean, clamp_db, load_diag, True)


def w_si_sdr_loss(est, ref, zero_mean=False, clamp_db=None, pairwise=False):
    return C.use("sdr_loss", est, ref, 1, None, zero_mean, clamp_db, None, pairwise)


def w_si_sdr_pit_loss(est, ref, zero_mean=False, clamp_db=None):
    return C.use("sdr", ref, est, 1, None, zero_mean, clamp_db, None, False, True)


def w_pairwise_si_sdr_loss(est, ref, zero_mean=False, clamp_db=None):
    return C.use("sdr_loss", est, ref, 1, None, zero_mean, clamp_db, None, True)


def w_si_sdr(ref, est, zero_mean=False, clamp_db=None, return_perm=False, change_sign=False):
    return C.use("sdr", ref, est, 1, None, zero_mean, clamp_db, None, return_perm, change_sign)


def w_si_bss_eval_sources(ref, est, zero_mean=False, clamp_db=None, compute_permutation=True, load_diag=None):
    return C.use("bss_eval_sources", ref, est, 1, None, zero_mean, clamp_db, compute_permutation, load_diag)


def w_plain(name):
    return lambda *a, **k: C.use(name, *a, **k)


# name -> (specification, first argument, callees by contract, option names in documented order, top level?)
_ALL = ("filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag")
WRAPPERS = {
    "sdr_loss": (w_plain("sdr_loss"), "est", ("sdr_loss",), _ALL + ("pairwise",), True),
    "sdr": (w_plain("sdr"), "ref", ("sdr",), _ALL + ("return_perm", "change_sign"), True),
    "bss_eval_sources": (w_plain("bss_eval_sources"), "ref", ("bss_eval_sources",), _ALL[:4] + ("compute_permutation", "load_diag"), True),
    "sdr_pit_loss": (w_sdr_pit_loss, "est", ("sdr",), _ALL, True),
    "pairwise_sdr_loss": (w_pairwise_sdr_loss, "est", ("sdr_loss",), _ALL, False),
    "si_sdr_loss": (w_si_sdr_loss, "est", ("sdr_loss",), ("zero_mean", "clamp_db", "pairwise"), True),
    "si_sdr_pit_loss": (w_si_sdr_pit_loss, "est", ("sdr",), ("zero_mean", "clamp_db"), True),
    "pairwise_si_sdr_loss": (w_pairwise_si_sdr_loss, "est", ("sdr_loss",), ("zero_mean", "clamp_db"), False),
    "si_sdr": (w_si_sdr, "ref", ("sdr",), ("zero_mean", "clamp_db", "return_perm", "change_sign"), True),
    "si_bss_eval_sources": (w_si_bss_eval_sources, "ref", ("bss_eval_sources",), ("zero_mean", "clamp_db", "compute_permutation", "load_diag"), True),
}
VALS = dict(
    filter_length=lambda: SV(L), use_cg_iter=lambda: SV(NI), zero_mean=lambda: symbol_bool("zero_mean"), clamp_db=lambda: SV(CLAMP), load_diag=lambda: SV(LOAD),
    pairwise=lambda: symbol_bool("pairwise"), return_perm=lambda: symbol_bool("return_perm"), change_sign=lambda: symbol_bool("change_sign"),
    compute_permutation=lambda: symbol_bool("compute_permutation"),
)


def wrapper_cases(ranks=(1,)):
    for be in ("numpy", "torch"):
        for fn, (spec, first, stubs, opts, top) in WRAPPERS.items():
            for sub in ([None] if top else []) + ["fast_bss_eval." + be]:
                if sub and stubs == (fn,):
                    continue  # the function of the backend itself: see the other cases
                styles = [("defaults", {}), ("all", {k: VALS[k] for k in opts})]
                styles += [("only " + k, {k: VALS[k]}) for k in opts]
                styles += [("positional", tuple(VALS[k] for k in opts))]
                if sub:
                    styles = styles[:2] + styles[-1:]
                for r in ranks:
                    for lab, vals in styles:
                        o = dict(rank=r, L="sym", cg=True, **({"dtype": DTYPE[0]} if DTYPE[0] != "float64" else {}))

                        def args(vals=vals, be=be, o=o, first=first):
                            ref, est = inputs(be, dict(o), eq=True)
                            a = (est, ref) if first == "est" else (ref, est)
                            if isinstance(vals, tuple):
                                return a + tuple(f() for f in vals), {}
                            return a, {k: f() for k, f in vals.items()}

                        def run(S, fn=fn, sub=sub, stubs=stubs, args=args):
                            p, m = prog(stubs)
                            f = getattr(p.load(sub) if sub else m, fn)
                            a, k = args()
                            return f(*a, **k)

                        def sp(S, spec=spec, args=args):
                            a, k = args()
                            return spec(*a, **k)

                        nm = "%s.%s[call=%s,rank=%d]" % (sub or "fast_bss_eval<%s>" % be, fn, lab, r)
                        yield Case(nm, be, run, sp, facts_of(o), [(FB[i], BD[i]) for i in range(r)], (), stubs, opt=dict(o, fn=fn, syms=syms_of(o)), modes=("modular",))


class _Reached(BaseException):
    pass


def mixed_cases(ranks=(1,)):
    """arrays of different types: the first argument alone selects the backend that is reached"""
    for fn, (spec, first, stubs, opts, top) in WRAPPERS.items():
        if not top:
            continue
        for be in ("numpy", "torch"):
            other = "torch" if be == "numpy" else "numpy"

            def run(S, fn=fn, be=be, other=other):
                p, m = prog()
                for b in ("numpy", "torch"):
                    for f in WRAPPERS:

                        def mk(real, b=b):
                            def rec(*a, **k):
                                raise _Reached(b)

                            return rec

                        stub(p, "fast_bss_eval.%s" % b, f, mk)
                S.prog = (p, p.state())
                x = inputs(be, dict(rank=0, L="sym", cg=False), eq=True)[0]
                y = inputs(other, dict(rank=0, L="sym", cg=False), eq=True)[1]
                try:
                    getattr(m, fn)(x, y)
                except _Reached as e:
                    return e.args[0]
                except (Unsupported, C.NotCovered):
                    raise
                except Exception as e:
                    # a function of a backend which is not one of those replaced above
                    tb = e.__traceback__
                    while tb is not None:
                        for b in ("numpy", "torch"):
                            if str(tb.tb_frame.f_globals.get("__name__", "")).startswith("fast_bss_eval." + b):
                                raise Unsupported("a function of the %s backend is called directly" % b)
                        tb = tb.tb_next
                    raise
                raise Unsupported("no public function of a backend is reached")

            nm = "fast_bss_eval.%s[first argument %s, second %s]" % (fn, be, other)
            o = dict(rank=0, L="sym")
            yield Case(nm, be, run, lambda S, be=be: be, facts_of(o), [], (), (), opt=dict(o, fn=fn, syms=syms_of(o)), modes=("modular",))


def direct_cases(ranks=(1,)):
    """the functions of the subpackages called directly: defaults and order of their parameters"""
    T_ = {
        "sdr_loss": ("est", PREP, _ALL + ("pairwise",)),
        "sdr": ("ref", ("lsa", "sdr_loss") + PREP, _ALL + ("return_perm", "change_sign")),
        "bss_eval_sources": ("ref", ("lsa", "square_cosine_metrics") + PREP, _ALL[:4] + ("compute_permutation", "load_diag")),
        "square_cosine_metrics": ("ref", PREP, _ALL[:3] + ("pairwise", "load_diag")),
    }
    for be in ("numpy", "torch"):
        for fn, (first, stubs, opts) in T_.items():
            for style in ("defaults", "positional"):
                for r in ranks:
                    o = dict(rank=r, L="sym", cg=style == "positional")

                    def args(style=style, be=be, o=o, first=first, opts=opts):
                        ref, est = inputs(be, dict(o), eq=True)
                        a = (est, ref) if first == "est" else (ref, est)
                        return a + (tuple(VALS[k]() for k in opts) if style == "positional" else ())

                    def run(S, fn=fn, be=be, stubs=stubs, args=args):
                        p, m = prog(stubs)
                        return getattr(p.load("fast_bss_eval." + be), fn)(*args())

                    def sp(S, fn=fn, args=args):
                        return REG[fn].spec(*args())

                    nm = "fast_bss_eval.%s.%s[call=%s,rank=%d]" % (be, fn, style, r)
                    yield Case(nm, be, run, sp, facts_of(o), [(FB[i], BD[i]) for i in range(r)], (), stubs, opt=dict(o, fn=fn, syms=syms_of(o)), modes=("modular",))


def helper_cases(ranks=(1,)):
    """_remove_mean, _normalize and _coherence_to_neg_sdr"""
    for be in ("numpy", "torch"):
        g = "ok" if be == "torch" else None
        ax = "axis" if be == "numpy" else "dim"
        for r in ranks:
            o = dict(rank=r, **({"dtype": DTYPE[0]} if DTYPE[0] != "float64" else {}))
            sg = lambda o=o, be=be, g=g: input_tensor(CLS[be], "x", bx_of(o) + [(K,), (TT,)], o.get("dtype", "float64"), g)
            yield internal_case("_remove_mean", be, "helpers", o, lambda sg=sg: ((sg(),), {}))
            yield internal_case("_remove_mean", be, "helpers", o, lambda sg=sg, ax=ax: ((sg(),), {ax: -1}), label_="axis,rank=%d" % r)
            yield internal_case("_normalize", be, "helpers", o, lambda sg=sg, ax=ax: ((sg(),), {ax: -1}))
            for c in (False, True):
                yield internal_case(
                    "_coherence_to_neg_sdr", be, "helpers", dict(o, clamp=c),
                    lambda sg=sg, c=c: ((sg(),), {"clamp_db": SV(CLAMP) if c else None}),
                    spec=lambda coh, clamp_db: elw1(coh, lambda v: mspec.neg_db(v, clamp_db)),
                )


def cg_body_cases(ranks=(1,)):
    """conjugate_gradient itself, for arbitrary linear operators"""
    import cgbody

    for be in ("numpy", "torch"):
        g = "ok" if be == "torch" else None
        for r in ranks:
            for vec in (False, True):
                for x0 in ((False,) if vec else (False, True)):
                    for pre in (False, True):
                        o = dict(rank=r, L="sym", cg=True, vec=vec, x0=x0, precond=pre)

                        def args(o=o, be=be, g=g):
                            cls = CLS[be]
                            bx = bx_of(o)
                            A = cgbody.Op(cls, "A", bx, L, g)
                            Mo = cgbody.Op(cls, "Minv", bx, L, g) if o["precond"] else None
                            b = input_tensor(cls, "b", bx + [(L,)] + ([] if o["vec"] else [(M,)]), "float64", g)
                            x = input_tensor(cls, "x0", bx + [(L,), (M,)], "float64", g) if o["x0"] else None
                            return A, Mo, b, x

                        def full(A, Mo, b, x, o=o):
                            return b[..., None] if o["vec"] else b

                        def run(S, args=args, o=o, be=be):
                            p, m = prog(())
                            f = p.load("fast_bss_eval.%s.cgd" % be).conjugate_gradient
                            A, Mo, b, x = args()
                            B = b[..., None] if o["vec"] else b
                            S.config["invariants"] = cgbody.Invariant(A, Mo, B, x, toP(NI), lambda c, n: "P" if "P" in c else c[0])
                            k = dict(n_iter=SV(NI))
                            if Mo is not None:
                                k["precond"] = Mo
                            if x is not None:
                                k["x"] = x
                            return f(A, b, **k)

                        def sp(S, args=args, o=o):
                            A, Mo, b, x = args()
                            B = b[..., None] if o["vec"] else b
                            g = gmerge(*[t.g for t in (A.M, Mo.M if Mo is not None else None, b, x) if t is not None])
                            res = cgbody.result(A, Mo, B, x, toP(NI), "X", g)
                            return res[..., 0] if o["vec"] else res

                        nm = "%s.cgd.conjugate_gradient[%s]" % (be, label(o))
                        yield Case(nm, be, run, sp, facts_of(o), [(FB[i], BD[i]) for i in range(r)], (), (), opt=dict(o, fn="conjugate_gradient", syms=syms_of(o)), modes=("modular",))


def env(gen, be, **config):
    """the same cases of one backend in another environment"""

    def g(ranks):
        for c in gen(ranks):
            if c.be == be:
                c.config = config
                c.name += "[%s]" % ",".join("%s=%s" % x for x in config.items())
                yield c

    return g


def typed(gen, dtypes=("float32", "int64")):
    """the same cases with other types of signals (integers: numpy only)"""

    def g(ranks):
        for d in dtypes:
            DTYPE[0] = d
            try:
                cs = list(gen(ranks))
            finally:
                DTYPE[0] = "float64"
            for c in cs:
                if d == "int64" and (c.be == "torch" or c.opt.get("fn") == "_coherence_to_neg_sdr"):
                    continue
                if "dtype=" not in c.name:
                    c.name += "[dtype=%s]" % d
                c.opt.setdefault("dtype", d)
                yield c

    return g
