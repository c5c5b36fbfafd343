"""Concrete oracle of one property on the real code.
  run.py <property> --seed N --tier quick|thorough [--extra file.json] [--budget seconds] [--out file.json]
  run.py --replay file.json
Prints one JSON object: number of cases, distinct case keys, first violation (if any)."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def prelude(case):
    """calls with other signals of the same shapes and slightly different options: they must not matter"""
    import common as C

    c = dict(case, seed=case.get("seed", 0) + 7919, kind="noise")
    if c.get("clamp_db") is not None:
        c["clamp_db"] += 0.03
    if c.get("load_diag"):
        c["load_diag"] *= 1.07
    r, e = C.signals(c)
    for be in (c["be"],) if c.get("be") else ("numpy", "torch"):
        for name, kw in (("sdr", dict(return_perm=True)), ("bss_eval_sources", {}), ("sdr_loss", dict(pairwise=True)), ("si_sdr", dict(return_perm=True)), ("si_bss_eval_sources", {})):
            try:
                C.call(name, c, C.conv(r, be, c.get("dtype", "float64")), C.conv(e, be, c.get("dtype", "float64")), be=be, **kw)
            except Exception:
                pass


def one(prop, case):
    import props

    if case.get("prelude"):
        prelude(case)
    f = getattr(props, "check_" + prop)
    props.CUR = case
    if case.get("mode") == "defaults":
        f = props.check_C13_defaults
    try:
        if case.get("nograd"):
            import torch

            with torch.no_grad():
                return f(case)
        return f(case)
    except Exception as x:
        # an exception of the code under test on valid inputs
        name = type(x).__name__
        tb = traceback.extract_tb(x.__traceback__)
        inrepo = [t for t in tb if "fast_bss_eval" in t.filename]
        if name == "LinAlgError" or "singular" in str(x):
            return None
        if inrepo and name not in ("ValueError",):
            return "the call raises %r at %s:%d" % (x, os.path.basename(inrepo[-1].filename), inrepo[-1].lineno)
        if inrepo and case.get("kind", "noise") in ("noise", "offset", "scaled", "colored", "integer") and (case.get("clamp_db") is not None or case.get("T", 0) > 4 * case.get("K", 1) + case.get("L", 1)):
            return "the call raises %r at %s:%d" % (x, os.path.basename(inrepo[-1].filename), inrepo[-1].lineno)
        if inrepo:
            return None
        if case.get("optional"):
            return None
        raise


def worker(prop, jobs, res, deadline):
    import warnings

    warnings.filterwarnings("ignore")
    try:
        import torch

        torch.set_num_threads(1)
    except ImportError:
        pass
    n = 0
    while True:
        try:
            k, case = jobs.get()
        except (EOFError, OSError):
            break
        if case is None or time.time() > deadline:
            break
        try:
            v = one(prop, case)
        except BaseException:
            v = None
            res.put(("err", case, traceback.format_exc()[-1500:]))
        n += 1
        if v:
            res.put(("viol", case, v))
            break
    res.put(("done", n, None))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--extra")
    ap.add_argument("--only-extra", action="store_true")
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int, default=6)
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        if "case" not in d:
            print(json.dumps(d, indent=1)[:4000])
            sys.exit(1)
        v = one(d["property"], d["case"])
        print("violated: " + v if v else "not violated")
        sys.exit(1 if v else 0)
    import cases

    todo = []
    if a.extra:
        todo += json.load(open(a.extra))
    if not a.only_extra:
        todo += list(cases.cases(a.prop, a.seed, a.tier))
    t0 = time.time()
    jobs, res = mp.Queue(), mp.Queue()
    nj = max(1, min(a.j, len(todo)))
    for k, c in enumerate(todo):
        jobs.put((k, c))
    for _ in range(nj):
        jobs.put((None, None))
    ps = [mp.Process(target=worker, args=(a.prop, jobs, res, t0 + a.budget)) for _ in range(nj)]
    for p in ps:
        p.daemon = False
        p.start()
    done, n, viol, errs = 0, 0, [], []
    while done < nj:
        try:
            k, x, y = res.get(timeout=a.budget + 300)
        except Exception:
            break
        if k == "done":
            done += 1
            n += x
        elif k == "viol":
            viol.append((x, y))
            break
        else:
            errs.append((x, y))
    for p in ps:
        p.terminate()
    jobs.cancel_join_thread()
    out = dict(property=a.prop, cases=n, planned=len(todo), seconds=round(time.time() - t0, 1), errors=len(errs), error=errs[:1], violation=None, distinct=min(n, len({json.dumps(c, sort_keys=True, default=str) for c in todo})), samples=todo[: 1] + todo[len(todo) // 2 : len(todo) // 2 + 2])
    if viol:
        out["violation"] = dict(case=viol[0][0], what=viol[0][1])
    s = json.dumps(out)
    if a.out:
        open(a.out, "w").write(s)
    print(s[:3000])


if __name__ == "__main__":
    main()
