"""Batch runner: seeded plans -> forked runs -> verdict, minimisation, replay, evidence."""
import hashlib
import importlib
import json
import os
import random
import sys
import time

from sim import boot as _boot
from sim import proc

VERIF = _boot.VERIF
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)


def load(pid):
    return importlib.import_module("props." + pid)


def make_plan(mod, seed, i, tier):
    rng = random.Random("%s/%d/%d" % (mod.PID, seed, i))
    plan = mod.generate(rng, i, tier)
    plan["i"] = i
    plan["seed"] = seed
    return plan


def _run(item):
    mod, plan = item
    return mod.execute(plan)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def match_known(pid, res):
    for k in known_findings():
        if k.get("status") == "known" and k["property"] == pid and k["class"] == res["cls"] and k["match"] in res["detail"]:
            return k
    return None


def run_one(mod, plan, timeout=None):
    """One plan in one fresh fork.  Returns a result dict (never raises)."""
    for i, st, val in proc.pool(_run, [(mod, plan)], 1, timeout or getattr(mod, "RUN_TIMEOUT", 240)):
        return finish(st, val)


def finish(st, val):
    if st == "ok":
        return val
    return {"status": "error", "cls": "harness-" + st, "detail": (val or "")[-3000:], "stats": {}}


def minimise(mod, plan, res, budget_s=60, max_tries=150):
    """Greedy shrink while the same violation class persists."""
    t0 = time.monotonic()
    tries = 0
    cur, curres = plan, res
    if hasattr(mod, "concretise"):
        c = mod.concretise(plan, res)
        g = run_one(mod, c)
        tries += 1
        if g["status"] == "violation" and g["cls"] == res["cls"]:
            cur, curres = c, g
    if not hasattr(mod, "shrinks"):
        return cur, curres, tries
    progress = True
    while progress and time.monotonic() - t0 < budget_s and tries < max_tries:
        progress = False
        cands = list(mod.shrinks(cur))
        # evaluate candidates in parallel batches, keep the first (in order) that still fails
        for k in range(0, len(cands), WORKERS):
            if time.monotonic() - t0 > budget_s or tries >= max_tries:
                break
            batch = cands[k:k + WORKERS]
            got = [None] * len(batch)
            for j, st, val in proc.pool(_run, [(mod, c) for c in batch], WORKERS, getattr(mod, "RUN_TIMEOUT", 240)):
                got[j] = finish(st, val)
            tries += len(batch)
            for c, g in zip(batch, got):
                if g and g["status"] == "violation" and g["cls"] == res["cls"]:
                    cur, curres, progress = c, g, True
                    break
            if progress:
                break
    return cur, curres, tries


def merge(dst, src):
    for k, v in src.items():
        if isinstance(v, bool):
            dst[k] = dst.get(k, 0) + int(v)
        elif isinstance(v, (int, float)):
            dst[k] = dst.get(k, 0) + v
        elif isinstance(v, dict):
            merge(dst.setdefault(k, {}), v)
        elif isinstance(v, (list, set, tuple)):
            dst.setdefault(k, set()).update(v)


def check(pid, tier, seed, quiet=False):
    t0 = time.monotonic()
    _boot.boot()
    mod = load(pid)
    if hasattr(mod, "prepare"):
        mod.prepare()
    n = mod.RUNS[tier]
    if os.environ.get("VERIF_RUNS"):
        n = int(os.environ["VERIF_RUNS"])
    soft = {"quick": 600, "thorough": 3300}[tier]
    soft = min(soft, getattr(mod, "SOFT", {}).get(tier, soft))
    print("property %s tier %s seed %d runs %d workers %d repo %s" % (pid, tier, seed, n, WORKERS, _boot.REPO), flush=True)

    total = {}
    ran = 0
    statuses = {}
    bad = []
    errors = []
    known = {}
    digests = set()
    nontrivial = set()
    samples = []
    plans = {}

    def feed():
        for i in range(n):
            p = make_plan(mod, seed, i, tier)
            plans[i] = p
            yield (mod, p)

    enough = lambda: len(bad) >= 3 or len(errors) > 20
    for i, st, val in proc.pool(_run, feed(), WORKERS, getattr(mod, "RUN_TIMEOUT", 240), t0 + soft, enough):
        res = finish(st, val)
        ran += 1
        statuses[res["status"]] = statuses.get(res["status"], 0) + 1
        merge(total, res.get("stats", {}))
        if res.get("digest"):
            digests.add(res["digest"])
        if res.get("nontrivial"):
            nontrivial.add(res["nontrivial"])
        if res["status"] == "violation":
            k = match_known(pid, res)
            if k:
                known[k["match"]] = k
            else:
                bad.append((i, plans[i], res))
        elif res["status"] == "error":
            errors.append((i, plans[i], res))
        elif len(samples) < 3 and res.get("nontrivial"):
            samples.append({"run": i, "plan": plans[i], "outcome": res.get("note", res["status"])})
        plans.pop(i, None)

    search_s = time.monotonic() - t0
    reported = []
    for i, plan, res in sorted(bad, key=lambda b: b[0]):
        # must reproduce in a fresh process before it is believed
        again = run_one(mod, plan)
        if again["status"] != "violation" or again["cls"] != res["cls"]:
            errors.append((i, plan, {"status": "error", "cls": "not-reproducible",
                                     "detail": "first: %s / %s; again: %s" % (res["cls"], res["detail"], json.dumps(again, default=str)[:500]), "stats": {}}))
            continue
        small, smallres, tries = minimise(mod, plan, again, budget_s=60 if tier == "quick" else 120)
        path = write_replay(pid, small, smallres, plan, tries)
        final = run_one(mod, small)
        ok = final["status"] == "violation" and final["cls"] == smallres["cls"]
        reported.append((path, smallres, ok))
        print("  run %d: %s: %s" % (i, smallres["cls"], smallres["detail"]))
        if smallres.get("trace"):
            for line in smallres["trace"]:
                print("    " + line)
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        if tier == "quick":
            break
    for k in known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)

    wall = time.monotonic() - t0
    write_evidence(mod, tier, seed, total, ran, n, statuses, digests, nontrivial, samples, wall, search_s, reported, errors)
    for i, plan, res in errors[:3]:
        print("HARNESS-ERROR run %d %s: %s" % (i, res["cls"], res["detail"][-1500:]), file=sys.stderr)
    print("runs %d/%d %s distinct %d wall %.1fs" % (ran, n, statuses, len(nontrivial), wall), flush=True)
    if reported:
        return 1
    # a harness error is not an answer: say so, unless it is an isolated wall-clock kill
    # of a run on a heavily loaded machine and everything else was explored
    if errors:
        return 2
    if ran == 0:
        return 2
    return 0


def write_replay(pid, plan, res, orig, tries):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "plan": plan, "violation": {"class": res["cls"], "detail": res["detail"], "trace": res.get("trace", [])},
            "found_with": {"seed": orig.get("seed"), "run": orig.get("i"), "minimiser_runs": tries}}
    name = "%s-%s.json" % (pid, hashlib.sha1(json.dumps(plan, sort_keys=True, default=str).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return path


def replay(path):
    _boot.boot()
    with open(path) as f:
        body = json.load(f)
    mod = load(body["property"])
    if hasattr(mod, "prepare"):
        mod.prepare()
    res = run_one(mod, body["plan"])
    print("%s: %s" % (res["status"], res.get("cls", "")))
    if res["status"] == "violation":
        print(res["detail"])
        for line in res.get("trace", []):
            print("  " + line)
        print("VIOLATION property=%s replay=%s" % (body["property"], path))
        return 1
    if res["status"] == "error":
        print(res["detail"], file=sys.stderr)
        return 2
    print("property holds on this replay")
    return 0


def _plain(x):
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (set, list, tuple)):
        return [_plain(v) for v in sorted(x, key=str)] if isinstance(x, set) else [_plain(v) for v in x]
    return x


def write_evidence(mod, tier, seed, total, ran, n, statuses, digests, nontrivial, samples, wall, search_s, reported, errors):
    total = dict(total)
    states = total.pop("states", set())
    cov = {
        "evaluations": ran,
        "distinct_nontrivial": len(nontrivial),
        "rule": mod.RULE,
        "samples": samples or [{"note": "no sample kept"}],
        "planned_runs": n,
        "statuses": statuses,
        "distinct_event_logs": len(digests),
        "distinct_states_or_interleavings": len(states),
        "state_measure": getattr(mod, "STATE_MEASURE", "distinct fault sites / switch-point sequences reached"),
        "runs_per_hour": round(ran / search_s * 3600) if search_s else 0,
        "simulated_steps": total.pop("steps", 0),
        "faults_fired": total.pop("faults", {}),
        "probes": total.pop("probes", {}),
        "components_real": getattr(mod, "REAL", ["regain (all code, from /repo)", "numpy, scipy, scikit-learn, pandas, networkx"]),
        "components_stubbed": getattr(mod, "STUB", []),
        "seeds": {"VERIF_SEED": seed, "run_indices": [0, max(0, ran - 1)]},
        "simulated_time": "logical steps (executed regain source lines or bytecodes); the system reads no clock",
    }
    for k, v in total.items():
        cov[k] = len(v) if isinstance(v, set) else v
    ev = {
        "property": mod.PID, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": _plain(cov),
        "wall_s": round(wall, 2), "violations": len(reported),
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + (["%d harness errors" % len(errors)] if errors else []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % mod.PID)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", mod.PID + ".json"))


def digests(pid, tier, seed, path):
    """Determinism probe: event-log digest of every run, one line each."""
    _boot.boot()
    mod = load(pid)
    if hasattr(mod, "prepare"):
        mod.prepare()
    n = int(os.environ.get("VERIF_RUNS", mod.RUNS[tier]))
    out = {}
    for i, st, val in proc.pool(_run, ((mod, make_plan(mod, seed, i, tier)) for i in range(n)), WORKERS, 240):
        r = finish(st, val)
        out[i] = "%d %s %s %s" % (i, r["status"], r.get("cls", ""), r.get("digest", ""))
    with open(path, "w") as f:
        for i in sorted(out):
            f.write(out[i] + "\n")
    return 0
