"""Decides one property: obligations, replay, evidence."""
import json
import os
import subprocess
import sys
import time
import traceback

import contracts as C
import props
from props import R3, PROPS, GROUPS

LEAN = []
TRUSTED = [
    "vc/: the symbolic executor and the prover (normal form of sums, z3 for sizes, indices and orders) are trusted; they are exercised by mutants (DESIGN.md)",
    "vc/shims.py, vc/tensor.py: contracts of the numpy, scipy and torch functions that the code calls (fft pair, einsum, matmul, solve, solve_toeplitz, stride tricks, linear_sum_assignment of scipy, ...)",
    "real arithmetic in place of floating point (rounding and overflow are covered by the bounded runs only)",
    "CPython and the ast transformation of loops and comprehensions (vc/loader.py); the text that is executed is parsed from /repo on every run",
]


def group_cases(name, ranks):
    return list(GROUPS[name][0](ranks))


def environments(extra):
    """the inputs of the failing paths, run in the environments of C17"""
    calls = {}
    for c in extra[:60]:
        be = c["be"]
        for env in ("numpy1-notorch", "numpy2") if be == "numpy" else ("nopackaging",):
            for name, kw in (("sdr", dict(return_perm=True)), ("sdr_loss", dict(pairwise=True)), ("bss_eval_sources", {})):
                calls.setdefault(env, []).append([c, name, kw])
    return [dict(env=e, calls=v[i : i + 60]) for e, v in calls.items() for i in range(0, len(v), 60)]


def decide(prop, tier, seed, jobs, verbose, pool_run, extras, oracle, here, t0):
    P = PROPS[prop]
    # bounded part: directed and random inputs
    def run_oracle(extra, budget, only):
        try:
            return oracle(prop, tier, seed, extra, budget, only=only)
        except Exception:
            return {"cases": 0, "planned": 0, "errors": 1, "error": traceback.format_exc()[-800:], "violation": None}

    orc = run_oracle([], 45 if tier == "quick" else 200, False)
    limit = 420 if tier == "quick" else 1500
    if orc.get("violation"):
        # the property is broken; the proof only names obligations
        limit = 80
    deadline = time.time() + limit
    obl, cases_run, notes = [], [], []
    engine_error = None
    undecided, failed = [], []
    extra = []
    if P.use:
        try:
            for lvl in range(4):
                groups = [(g, f) for g, f in P.use if GROUPS[g][1] == lvl]
                todo = [(g, c) for g, f in groups for c in group_cases(g, P.ranks if tier == "quick" else R3) if f(c)]
                for _, c in todo:
                    c.aspects = P.aspects
                rs = pool_run([c for _, c in todo], deadline, jobs)
                for (g, c), r in zip(todo, rs):
                    cases_run.append((g, c, r, lvl < 3))
                    if lvl < 3 and (r is None or r["error"] or any(o[3] != "proved" for o in r["obligations"])):
                        C.BROKEN.add((c.be, c.opt["fn"]))
        except Exception:
            engine_error = traceback.format_exc()[-1500:]
    n_obl = n_dis = 0
    by = {}
    secs = 0.0
    stats = {}
    for g, c, r, internal in cases_run:
        if r is None or r["error"] or not r["obligations"]:
            (notes if internal else undecided).append("%s: %s" % (c.name, "time is over" if r is None else r["error"] or "no obligation"))
            n_obl += 1
            if not internal:
                extra += extras(prop, c, r or {"obligations": [], "paths": []}, tier)
            continue
        secs += r["seconds"]
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        bad = False
        for pid, name, asp, st, det in r["obligations"]:
            if asp not in P.aspects and asp != "exec":
                continue
            n_obl += 1
            q = by.setdefault(c.be + "." + str(c.opt.get("fn")), [0, 0])
            q[0] += 1
            if st == "proved":
                n_dis += 1
                q[1] += 1
                continue
            bad = True
            rec = "%s / %s / %s (%s): %s" % (c.name, pid, name, asp, det)
            if internal:
                notes.append("internal contract not met, function verified inline: " + rec[:300])
            elif st == "failed":
                failed.append(rec)
            else:
                undecided.append(rec)
        if bad and not internal:
            extra += extras(prop, c, r, tier)
    for hook in P.extra:
        try:
            h = hook(tier, pool_run, deadline, jobs)
        except Exception:
            h = {"undecided": ["%s: %s" % (hook.__name__, traceback.format_exc()[-600:])]}
        n_obl += h.get("obligations", 0)
        n_dis += h.get("discharged", 0)
        for k, v in h.get("functions", {}).items():
            by[k] = v
        failed += h.get("failed", [])
        undecided += h.get("undecided", [])
        notes += h.get("notes", [])
        extra += h.get("extra", [])
        secs += h.get("seconds", 0)
    if engine_error:
        undecided.append("engine: " + engine_error)
    if n_obl == 0:
        undecided.append("no obligation was generated")
    if prop == "C17":
        extra = environments(extra)
    # bounded part, directed by the obligations which are not discharged
    uniq = {json.dumps(x, sort_keys=True): x for x in extra}
    extra = list(uniq.values())[:400]
    if extra and not orc.get("violation"):
        o2 = run_oracle(extra, 90 if tier == "quick" else 240, True)
        for k in ("cases", "planned", "errors", "distinct"):
            orc[k] = orc.get(k, 0) + o2.get(k, 0)
        orc["violation"] = o2.get("violation")
        if o2.get("errors"):
            orc["error"] = o2.get("error")
    viol = orc.get("violation")
    if orc.get("errors"):
        notes.append("oracle: %d cases were not evaluated: %s" % (orc["errors"], str(orc.get("error"))[:600]))
    os.makedirs(os.path.join(here, "evidence", "replay"), exist_ok=True)
    rp = os.path.join(here, "evidence", "replay", prop + ".json")
    code, line = 0, None
    if viol:
        json.dump(
            dict(property=prop, case=viol["case"], what=viol["what"], obligations=failed[:20] + undecided[:5], replay="FBE_REPO=/repo %s oracle/run.py --replay %s" % ("/opt/venv/bin/python", rp)),
            open(rp, "w"), indent=1,
        )
        code, line = 1, "VIOLATION property=%s replay=%s" % (prop, rp)
    elif failed:
        json.dump(
            dict(property=prop, obligations=failed[:40], note="these obligations are discharged on the original tree and are not any more; no failing input was found (%d inputs tried)" % orc.get("cases", 0)),
            open(rp, "w"), indent=1,
        )
        code, line = 1, "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp)
    elif os.path.exists(rp):
        os.remove(rp)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=props.LEVEL.get(prop, "proof"),
        coverage=dict(
            obligations=n_obl, discharged=n_dis,
            checker_cmd="/opt/veriftools/pyvenv/bin/python check.py %s --tier %s" % (prop, tier),
            trusted_base=TRUSTED + list(P.notes),
            functions={k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(by.items())},
            cases=len(cases_run), paths=sum(len(r["paths"]) for _, _, r, _ in cases_run if r),
            solver_seconds=round(secs, 1), prover_stats=stats,
            not_discharged=(failed + undecided)[:30], notes=notes[:20],
            evaluations=orc.get("cases", 0), distinct_nontrivial=orc.get("distinct", orc.get("cases", 0)),
            rule="bounded run of the real code against an independent computation: directed sizes (filter longer than the signal, one channel, more or fewer references than estimates, batches), options and random draws (oracle/cases.py); a case counts when the oracle evaluated it",
            samples=orc.get("samples", [])[:3],
        ),
        assumptions=list(P.notes), wall_s=round(time.time() - t0, 1), violations=1 if code else 0,
    )
    if viol:
        ev["coverage"]["violation"] = viol
    json.dump(ev, open(os.path.join(here, "evidence", prop + ".json"), "w"), indent=1, default=str)
    if undecided and not code:
        print("UNDECIDED %d obligations of %s are not decided by the verifier; bounded check only (%d inputs): %s" % (len(undecided), prop, orc.get("cases", 0), undecided[0][:300]))
    if verbose:
        for x in failed[:8] + undecided[:8] + notes[:8]:
            print("  -", x[:500])
    print("%s: %d/%d obligations discharged, %d inputs executed, %.1f s" % (prop, n_dis, n_obl, orc.get("cases", 0), time.time() - t0))
    if line:
        if viol:
            print("  " + str(viol["what"])[:400])
        print(line)
    return code
