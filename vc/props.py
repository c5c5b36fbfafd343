"""Which obligations decide which property."""
import hooks
import suite
from suite import *

R3 = (0, 1, 2)


def has(**kw):
    def f(c):
        return all(c.opt.get(k) in (v if isinstance(v, tuple) else (v,)) for k, v in kw.items())

    return f


def g_helpers(ranks):
    return suite.helper_cases(ranks)


def g_cg(ranks):
    return suite.cg_cases(ranks)


def g_sdr_loss(ranks):
    return suite.sdr_loss_cases(ranks, (False, True))


def g_sqc(ranks):
    return suite.sqc_cases(ranks, (False, True))


def g_sdr(ranks):
    return suite.sdr_cases(ranks)


def g_bss(ranks):
    return suite.bss_cases(ranks)


def g_wrappers(ranks):
    return suite.wrapper_cases(ranks)


def g_mixed(ranks):
    return suite.mixed_cases(ranks)


def g_direct(ranks):
    return suite.direct_cases(ranks)


def g_cgbody(ranks):
    return suite.cg_body_cases(ranks)


def many(*gs):
    def g(ranks):
        for f in gs:
            yield from f(ranks)

    return g


def fixed(g, ranks=(1,)):
    return lambda r: g(ranks)


BODIES = many(g_helpers, g_cg, g_cgbody)
INNER = many(g_sqc)
PUBLIC = many(g_sdr_loss, g_sdr, g_bss)
WITH_TORCH = many(g_wrappers, g_direct)
np2 = lambda g, **k: suite.env(g, "numpy", numpy=2, **k)

# name -> (generator, internal?) : the contracts of internal functions are used in the proofs of their callers;
# when one of them is not met the callers are verified with the function inlined
# name -> (generator, level): levels 0, 1 and 2 are internal
GROUPS = {
    "cgbody": (g_cgbody, 0),
    "helpers": (g_helpers, 1),
    "cg": (g_cg, 1),
    "sqc": (g_sqc, 2),
    "sdr_loss": (g_sdr_loss, 3),
    "sdr": (g_sdr, 3),
    "bss": (g_bss, 3),
    "wrappers": (g_wrappers, 3),
    "direct": (g_direct, 3),
    "mixed": (g_mixed, 3),
    # signals of other types
    "t_cgbody": (fixed(suite.typed(g_cgbody, ("float32",))), 0),
    "t_inner": (fixed(suite.typed(many(g_helpers, g_cg))), 1),
    "t_sqc": (fixed(suite.typed(g_sqc)), 2),
    "t_public": (fixed(suite.typed(many(PUBLIC, g_wrappers))), 3),
    # NumPy 2, no torch
    "e_cgbody": (np2(g_cgbody, torch=False), 0),
    "e_inner": (np2(many(g_helpers, g_cg), torch=False), 1),
    "e_sqc": (np2(g_sqc, torch=False), 2),
    "e_public": (np2(many(PUBLIC, WITH_TORCH), torch=False), 3),
    "e_typed": (np2(suite.typed(many(g_sdr_loss, g_sqc, g_bss, g_sdr)), torch=False), 3),
    # NumPy 1, no torch; torch without optional packages
    "e_np1": (suite.env(WITH_TORCH, "numpy", numpy=1, torch=False), 3),
    "e_pt": (suite.env(many(WITH_TORCH, g_sdr_loss), "torch", packaging=False), 3),
}
ALL = ("value", "shape", "exc", "pre", "class", "dtype", "grad", "frame")
VAL = ("value", "shape", "exc", "pre")

nocg = lambda c: not c.opt.get("cg")
cg = lambda c: bool(c.opt.get("cg"))


def any_(c):
    return True


def both(*fs):
    return lambda c: all(f(c) for f in fs)


class Prop:
    def __init__(self, use, aspects, extra=(), notes=(), ranks=(1,)):
        self.use, self.aspects, self.extra, self.notes, self.ranks = use, aspects, extra, notes, ranks


PROPS = {
    "C01": Prop([("helpers", any_), ("sdr_loss", nocg), ("sdr", nocg)], VAL),
    "C02": Prop([("helpers", any_), ("sqc", nocg), ("bss", nocg)], VAL),
    "C03": Prop([("sdr", any_), ("bss", any_)], VAL, ranks=(0, 1, 2)),
    "C05": Prop([("helpers", any_), ("cgbody", any_), ("cg", any_), ("sdr_loss", any_), ("sqc", any_), ("sdr", any_), ("bss", any_)], VAL, ranks=(0, 2)),
    "C06": Prop([("helpers", any_), ("cgbody", any_), ("cg", any_), ("sdr_loss", any_), ("sqc", any_), ("sdr", any_), ("bss", any_), ("wrappers", any_)], ("frame",)),
    "C07": Prop([("t_cgbody", any_), ("t_inner", any_), ("t_sqc", any_), ("t_public", any_), ("helpers", any_), ("cgbody", any_), ("cg", any_), ("sdr_loss", any_), ("sqc", any_), ("sdr", any_), ("bss", any_), ("wrappers", any_)], ("class", "dtype", "shape"), ranks=(0, 2)),
    "C08": Prop([("helpers", any_), ("sdr_loss", has(clamp=True)), ("sqc", any_), ("sdr", has(clamp=True)), ("bss", has(clamp=True))], VAL),
    "C09": Prop([("helpers", any_), ("cgbody", any_), ("cg", any_), ("sdr_loss", any_), ("sqc", any_), ("sdr", any_), ("bss", any_)], VAL),
    "C10": Prop([("helpers", any_), ("sdr_loss", any_), ("sqc", any_), ("sdr", any_), ("bss", any_)], VAL),
    "C11": Prop([("helpers", any_), ("cgbody", any_), ("cg", any_), ("sdr_loss", has(load=True)), ("sqc", has(load=True)), ("sdr", has(load=True)), ("bss", has(load=True)), ("wrappers", any_)], VAL),
    "C12": Prop([("helpers", any_), ("cgbody", any_), ("cg", any_), ("sdr_loss", cg), ("sqc", cg), ("sdr", cg), ("bss", cg)], VAL),
    "C13": Prop([("wrappers", any_), ("direct", any_), ("sdr_loss", nocg), ("sdr", nocg), ("bss", nocg)], ("value", "shape", "exc")),
    "C14": Prop([("helpers", any_), ("cgbody", any_), ("cg", any_), ("sdr_loss", any_), ("sqc", any_), ("sdr", any_), ("bss", any_), ("wrappers", any_)], VAL),
    "C15": Prop([("helpers", any_), ("cgbody", any_), ("cg", any_), ("sdr_loss", any_), ("sqc", any_), ("sdr", any_), ("bss", any_)], ("grad",)),
    "C17": Prop([(x, any_) for x in ("wrappers", "mixed", "e_cgbody", "e_inner", "e_sqc", "e_public", "e_typed", "e_np1", "e_pt")], ("value", "shape", "exc", "pre", "class", "dtype")),
    "C16": Prop([("helpers", any_), ("sdr_loss", any_), ("sqc", any_), ("sdr", any_), ("bss", any_)], VAL),
}

# the assignment solvers have an engine and contracts of their own
PROPS["C04"] = Prop([], ALL, extra=(hooks.hungarian,))
PROPS["C03"].extra = (hooks.solvers,)
PROPS["C14"].extra = (hooks.same_with_inf,)

for x in ("C01", "C02", "C08", "C09", "C11", "C16"):
    PROPS[x].extra = (hooks.meaning(*(("C01", "C02") if x == "C02" else (x,))),)

LEVEL = {}
