#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough]: decides one property on the current tree of /repo.

1. the contracts of the functions the property depends on are verified: the functions of /repo are executed
   symbolically for arbitrary inputs and every path is compared with the postcondition (vc/);
2. obligations which are not discharged are replayed on the real code (oracle/), around the model of their path;
3. the concrete oracle of the property is run as well (bounded; labelled as such in the evidence).
Exit 0: the property holds; exit 1 and a line VIOLATION property=<id> replay=<path>: it does not."""
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vc"))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
RUNPY = "/opt/venv/bin/python"


def pool_run(cases, deadline, jobs):
    """results in the order of the cases; None when the time is over"""
    import verify

    n = len(cases)
    res = [None] * n
    if not n:
        return res
    ctx = mp.get_context("fork")
    nxt = ctx.Value("i", 0)
    q = ctx.SimpleQueue()

    def work():
        import gc

        gc.disable() if False else None
        while True:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= n:
                break
            try:
                r = verify.run_case(cases[i])
            except BaseException:
                r = {"case": cases[i].name, "error": traceback.format_exc()[-800:], "obligations": [], "paths": [], "seconds": 0, "stats": {}, "mode": "?"}
            q.put((i, json.dumps(r, default=str)))

    import threading

    got = [0]
    ps = [ctx.Process(target=work) for _ in range(min(jobs, n))]
    for p in ps:
        p.start()

    def reader():
        while got[0] < n:
            i, r = q.get()
            res[i] = json.loads(r)
            got[0] += 1

    th = threading.Thread(target=reader, daemon=True)
    th.start()
    while got[0] < n and time.time() < deadline:
        if not any(p.is_alive() for p in ps):
            th.join(2)
            break
        th.join(0.05)
    for p in ps:
        p.kill()
    return res


def extras(prop, case, res, tier):
    """inputs of the real code around the models of the paths whose obligations are not discharged"""
    out = []
    o = case.opt
    bad = {x[0] for x in res["obligations"] if x[3] != "proved"}
    models = []
    for i, p in enumerate(res["paths"]):
        if p.get("model") and (not bad or "path%d" % i in bad):
            models.append(p["model"])
    models = models[:4] or [{}]
    for m in models:
        for v in range(6):
            K, M, T, L = m.get("K", 2), m.get("M", 2), m.get("T", 30), m.get("L", 4)
            K, M, L = min(K, 6), min(M, 6), min(L, 64)
            if v == 1:
                T = max(T, 4 * K * L + 20)
            elif v == 2:
                K, M, T = max(K, 2), max(M, 3), max(T, 80)
            elif v == 3:
                K, M, T = max(K, 3), max(M, 2), max(T, 80)
            elif v == 4:
                T = max(T, 100)
            elif v == 5:
                K, M, T, L = K + 1, M + 1, 150, L + 1
            T = min(T, 400)
            if o.get("L") == "one":
                L = 1
            if o.get("fn") in ("sdr_loss",) and o.get("pairwise") is False and v < 4:
                M = K
            b = [min(m.get("B%d" % i, 2) if v % 2 == 0 else 2, 3) for i in range(o.get("rank", 0))]
            c = dict(batch=b, K=K, M=M, T=T, L=L, be=case.be, kind=("noise", "offset", "scaled", "colored")[v % 4], seed=v, origin="proof")
            if o.get("zm") is True or (o.get("zm") == "sym" and v % 2):
                c["zero_mean"] = True
            if o.get("clamp"):
                c["clamp_db"] = (10.0, 30.0, 100.0)[v % 3]
            if o.get("load"):
                c["load_diag"] = (1e-3, 0.1, 0.7)[v % 3]
            if o.get("cg"):
                # C12 is about convergence
                c["use_cg_iter"] = max(1, min(m.get("n_iter", 2), 3)) if prop != "C12" else 200
            if prop == "C08":
                c.setdefault("clamp_db", (10.0, 30.0, 100.0)[v % 3])
            if prop == "C17" and "bss" in str(o.get("fn")) and K * L > T + L - 1:
                continue
            if v == 4 and "dtype" not in o:
                c["dtype"] = "float32"
            if "dtype" in o:
                c["dtype"] = o["dtype"]
                if "int" in o["dtype"]:
                    c["kind"], c["T"] = "integer", max(T, 40)
            out.append(c)
    return out


def oracle(prop, tier, seed, extra, budget, jobs=8, only=False):
    import tempfile

    with tempfile.TemporaryDirectory() as d:
        cmd = [RUNPY, os.path.join(HERE, "oracle", "run.py"), prop, "--seed", str(seed), "--tier", tier, "--budget", str(budget), "-j", str(jobs), "--out", os.path.join(d, "o.json")]
        if extra:
            json.dump(extra, open(os.path.join(d, "x.json"), "w"))
            cmd += ["--extra", os.path.join(d, "x.json")]
        if only:
            cmd += ["--only-extra"]
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=budget + 330)
        try:
            return json.load(open(os.path.join(d, "o.json")))
        except Exception:
            return {"cases": 0, "planned": 0, "errors": 1, "error": [["run", (p.stderr or p.stdout)[-1500:]]], "violation": None}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--no-oracle", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    import driver

    code = driver.decide(a.prop, tier, a.seed, a.j, a.v, pool_run, extras, oracle, HERE, t0)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
