"""Deductive proofs of the assignment solvers: hung.py, hungspec.py, infspec.py, lean/Assignment.lean."""
import multiprocessing as mp
import os
import random
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
JOBS = []


def _go(i):
    import hung as H

    name, asp, facts, goal, use, limit = JOBS[i]
    try:
        return i, H.discharge(facts, goal, use, limit)
    except Exception as e:
        return i, ("undecided: %r" % e, 0.0)


def _all(ix, jobs, end):
    """status of the obligations ix"""
    out = {}
    with mp.get_context("fork").Pool(jobs) as p:
        it = p.imap_unordered(_go, ix)
        for _ in ix:
            try:
                i, (r, t) = it.next(timeout=max(1.0, end - time.time()))
            except mp.TimeoutError:
                break
            out[i] = (r, t)
        p.terminate()
    return out


def run(tag, spec, jobs, end, contract):
    """obligations of the functions of a specification; contract(function, obligation): is it a part of the contract?"""
    import hung as H

    del JOBS[:]
    r = dict(obligations=0, discharged=0, functions={}, failed=[], undecided=[], notes=[], extra=[], seconds=0.0)
    meta = []
    for fn, f in spec.functions():
        n0 = len(JOBS)
        paths = H.explore(f, spec)
        for k, (kind, val, c) in enumerate(paths):
            if kind in ("unsup", "exc"):
                r["obligations"] += 1
                r["undecided"].append("%s%s / path%d: %s %s" % (tag, fn, k, "not in the fragment:" if kind == "unsup" else "exception", str(val)[:200] or type(val).__name__))
            for name, asp, facts, goal, use in c.obls:
                JOBS.append((name, asp, facts, goal, use, 20000))
                meta.append((fn, k))
        if len(JOBS) == n0 and not any(kind == "unsup" for kind, _, _ in paths):
            r["undecided"].append("%s%s: no obligation" % (tag, fn))
    res = _all(range(len(JOBS)), jobs, end)
    late = [i for i in range(len(JOBS)) if res.get(i, ("undecided", 0))[0] != "proved" and res.get(i, ("undecided", 0))[0] != "failed"]
    if late and time.time() < end and len(late) < 60:
        for i in late:
            JOBS[i] = JOBS[i][:5] + (90000,)
        res.update(_all(late, jobs, min(end, time.time() + 150)))
    for i, (fn, k) in enumerate(meta):
        st, t = res.get(i, ("undecided", 0.0))
        r["seconds"] += t
        r["obligations"] += 1
        q = r["functions"].setdefault(tag + fn, [0, 0])
        q[0] += 1
        if st == "proved":
            r["discharged"] += 1
            q[1] += 1
            continue
        rec = "%s%s / path%d / %s (%s): %s" % (tag, fn, k, JOBS[i][0], JOBS[i][1], "refuted by z3" if st == "failed" else st)
        (r["failed"] if st == "failed" and contract(fn, JOBS[i][0]) else r["undecided"]).append(rec)
    del JOBS[:]
    return r


def matrices(tier):
    """inputs of the bounded check when obligations of the solver are not discharged"""
    r = random.Random(11)
    kinds = ("ties", "binary", "normal", "constrows", "rankone", "small", "tiny", "wide_range", "sorted", "negative")
    out = []
    for q in range(380):
        a, b = r.randint(2, 14), r.randint(2, 14)
        if q % 3 == 0:
            b = a
        if q % 40 == 39:
            a, b = r.randint(15, 45), r.randint(15, 45)
        out.append(dict(kind=kinds[q % len(kinds)], n=a, m=b, seed=q, layout=(None, "T", "strided")[q % 3], many=20 if a < 15 else 1))
    return out


def inf_matrices():
    out = []
    for be in ("numpy", "torch"):
        for q in range(60):
            out.append(dict(mode="lsa", be=be, n=1 + q % 5, m=1 + (q // 5) % 5, sign="+-"[q % 2], seed=q, many=20))
    return out


def lean(r, name="Assignment", tags=None):
    """checks lean/<name>.lean; tags: only the lemmas whose comment mentions one of them are counted"""
    f = os.path.join(os.path.dirname(HERE), "lean", name + ".lean")
    lines = open(f).read().splitlines()
    names = [x.split()[1] for x in lines if x.startswith(("theorem ", "lemma "))]
    if tags:
        names = [x.split()[1] for y, x in zip([""] + lines, lines) if x.startswith("theorem ") and any(t in y for t in tags)]
    t = time.time()
    try:
        p = subprocess.run(["lean", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
        ok = p.returncode == 0 and not any(w in p.stdout for w in ("sorry", "error")) and not any(w in "\n".join(lines) for w in ("sorry", "axiom "))
        why = p.stdout[-300:]
    except Exception as e:
        ok, why = False, repr(e)
    r["obligations"] += len(names)
    r["functions"]["lean/%s.lean: %s" % (name, " ".join(names))] = [len(names), len(names) if ok else 0]
    if ok:
        r["discharged"] += len(names)
    else:
        r["undecided"].append("lean/%s.lean: %s" % (name, why))
    r["seconds"] += time.time() - t


def meaning(*tags):
    """lemmas that turn the contracts into the property"""

    def metrics_lemmas(tier, pool_run, deadline, jobs):
        r = merge()
        lean(r, "Metrics", ["(%s)" % t for t in tags])
        return r

    return metrics_lemmas


def merge(*rs):
    out = dict(obligations=0, discharged=0, functions={}, failed=[], undecided=[], notes=[], extra=[], seconds=0.0)
    for r in rs:
        for k, v in r.items():
            if isinstance(v, dict):
                out[k].update(v)
            else:
                out[k] = out[k] + v
    return out


def hungarian(tier, pool_run, deadline, jobs):
    import hungspec
    from loader import REPO

    spec = hungspec.Spec(os.path.join(REPO, "fast_bss_eval", "torch", "hungarian.py"))
    end = min(deadline, time.time() + 300) if tier == "quick" else deadline
    r = run("torch.hungarian.", spec, jobs, end, lambda fn, name: name.startswith(("return ", "result: ", "ValueError: ")))
    lean(r)
    if r["failed"] or r["undecided"]:
        r["extra"] += matrices(tier)
    return r


def with_inf(tier, pool_run, deadline, jobs):
    import infspec
    from loader import REPO

    rs = []
    for be in ("numpy", "torch"):
        spec = infspec.Spec(os.path.join(REPO, "fast_bss_eval", be, "helpers.py"), be)
        rs.append(run(be + ".helpers.", spec, jobs, min(deadline, time.time() + 120), lambda fn, name: True))
    r = merge(*rs)
    if r["failed"] or r["undecided"]:
        r["extra"] += inf_matrices()
    return r


def same_with_inf(tier, pool_run, deadline, jobs):
    """the two backends meet the same contract, or both of them fail to"""
    import infspec
    from loader import REPO

    rs = []
    for be in ("numpy", "torch"):
        spec = infspec.Spec(os.path.join(REPO, "fast_bss_eval", be, "helpers.py"), be)
        rs.append(run(be + ".helpers.", spec, jobs, min(deadline, time.time() + 120), lambda fn, name: True))
    if all(r["failed"] for r in rs):
        for r in rs:
            r["undecided"] += r["failed"]
            r["failed"] = []
    return merge(*rs)


def solvers(tier, pool_run, deadline, jobs):
    """the assignment of C03: placeholder of the infinities and solver of the torch backend"""
    a = with_inf(tier, pool_run, deadline, jobs)
    b = hungarian(tier, pool_run, deadline, jobs)
    # the inputs of the solver itself belong to C04
    b["extra"] = inf_matrices() if b["extra"] else []
    return merge(a, b)
