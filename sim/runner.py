"""Runs a check: seeded scenarios over worker processes, minimisation, replay,
evidence.  Exit status 0 (held), 1 (violation); anything else is an error."""
import argparse
import collections
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


# ----------------------------------------------------------------- one run
def execute(mod, scenario, keep=False):
    """-> (violation dict | None, harness error | None, ctx)"""
    from .core import Ctx, Violation, LibError
    from .executor import HarnessError
    ctx = Ctx(scenario, keep)
    try:
        mod.run(scenario, ctx)
        return None, None, ctx
    except Violation as v:
        return {"kind": v.kind, "message": v.msg, "data": v.data}, None, ctx
    except LibError as e:
        return {"kind": "unexpected-error",
                "message": "the library raised on a valid scenario: %s" % e,
                "data": {"traceback": traceback.format_exc()[-3000:]}}, \
            None, ctx
    except HarnessError as e:
        return None, "HarnessError: %s" % e, ctx
    except Exception:  # noqa: BLE001
        return None, traceback.format_exc()[-3000:], ctx


def _worker(modname, seeds, tier, out, deadline):
    sys.dont_write_bytecode = True
    try:
        mod = importlib.import_module(modname)
        for seed in seeds:
            if time.time() > deadline:
                out.put(("skip", seed, None))
                continue
            t0 = time.time()
            try:
                scenario = mod.gen(seed, tier)
            except Exception:  # noqa: BLE001
                out.put(("harness", seed, traceback.format_exc()))
                continue
            v, h, ctx = execute(mod, scenario)
            r = {"seed": seed, "stats": dict(ctx.stats),
                 "faults": dict(ctx.faults), "probes": dict(ctx.probes),
                 "hashes": list(ctx.hashes), "log": digest(ctx.log),
                 "wall": time.time() - t0,
                 "sig": mod.signature(scenario) if hasattr(mod, "signature")
                 else digest(scenario)}
            if v is not None:
                r["violation"] = v
                r["scenario"] = scenario
            out.put(("ok" if h is None else "harness", seed,
                     r if h is None else h))
    except BaseException:  # noqa: BLE001
        out.put(("fatal", None, traceback.format_exc()))
    out.put(("done", None, None))


def sweep(modname, seeds, tier, workers, wall):
    ctxm = mp.get_context("spawn")
    out = ctxm.Queue()
    deadline = time.time() + wall
    procs = []
    workers = max(1, min(workers, len(seeds)))
    for w in range(workers):
        p = ctxm.Process(target=_worker,
                         args=(modname, seeds[w::workers], tier, out, deadline))
        p.daemon = True
        p.start()
        procs.append(p)
    res, harness, skipped, done = [], [], 0, 0
    hard = deadline + 240
    while done < workers:
        try:
            kind, seed, payload = out.get(timeout=5)
        except Exception:  # noqa: BLE001  (queue.Empty)
            if time.time() > hard:
                harness.append((None, "worker did not finish in time"))
                break
            if all(not p.is_alive() for p in procs) and out.empty():
                harness.append((None, "a worker died"))
                break
            continue
        if kind == "done":
            done += 1
        elif kind == "ok":
            res.append(payload)
        elif kind == "skip":
            skipped += 1
        else:
            harness.append((seed, payload))
    for p in procs:
        if p.is_alive():
            p.terminate()
    res.sort(key=lambda r: r["seed"])
    return res, harness, skipped


# ------------------------------------------------------------ minimisation
def same(mod, scenario, kind):
    v, h, ctx = execute(mod, scenario, keep=True)
    return v is not None and v["kind"] == kind, v, ctx


def minimise(mod, scenario, viol, budget_s=60):
    """Shrinks schedule, then scenario, then schedule again."""
    end = time.time() + budget_s
    kind = viol["kind"]
    best, bestv = copy.deepcopy(scenario), viol
    tried = 0

    def attempt(cand):
        nonlocal best, bestv, tried
        tried += 1
        ok, v, ctx = same(mod, cand, kind)
        if ok:
            best, bestv = cand, v
        return ok

    # 1. does it need a schedule at all?
    if best.get("sched", {}).get("kind") == "seed":
        c = copy.deepcopy(best)
        c["sched"] = {"kind": "fifo"}
        attempt(c)
    # 2. scenario-level shrinking (drops iterations, latents, faults)
    if hasattr(mod, "shrink"):
        progress = True
        while progress and time.time() < end:
            progress = False
            for c in mod.shrink(best):
                if time.time() > end:
                    break
                if attempt(c):
                    progress = True
                    break
    # 3. explicit schedule, then ddmin over the deviations from FIFO
    if best.get("sched", {}).get("kind") == "seed":
        ok, v, ctx = same(mod, best, kind)
        if ok:
            c = copy.deepcopy(best)
            c["sched"] = {"kind": "explicit", "runs": copy.deepcopy(ctx.choices)}
            if attempt(c):
                _ddmin_sched(attempt, lambda: best, end)
    return best, bestv, tried


def _ddmin_sched(attempt, cur, end):
    def flat(sc):
        return [(k, p) for k, e in sorted(sc["sched"]["runs"].items())
                for p in sorted(e["choices"], key=int)]

    def without(sc, drop):
        c = copy.deepcopy(sc)
        for k, p in drop:
            c["sched"]["runs"][k]["choices"].pop(p, None)
        return c
    # whole runs first
    for k in sorted(cur()["sched"]["runs"]):
        if time.time() > end:
            return
        c = copy.deepcopy(cur())
        if c["sched"]["runs"][k]["choices"]:
            c["sched"]["runs"][k]["choices"] = {}
            attempt(c)
    n = 2
    while time.time() < end:
        items = flat(cur())
        if len(items) <= 1:
            break
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        reduced = False
        for ch in chunks:
            if time.time() > end:
                break
            if attempt(without(cur(), ch)):
                reduced = True
                n = max(n - 1, 2)
                break
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    c = copy.deepcopy(cur())
    c["sched"]["runs"] = {k: e for k, e in c["sched"]["runs"].items()
                          if e["choices"] or e["after"]}
    attempt(c)


# ----------------------------------------------------------- known findings
def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("known", [])


def match_known(prop, scenario, viol):
    for k in known_findings():
        if k["property"] != prop or k["kind"] != viol["kind"]:
            continue
        where = k.get("match", {})
        data = dict(viol.get("data") or {})
        if all(data.get(a) == b for a, b in where.items()):
            return k
    return None


# ------------------------------------------------------------------- main
def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--n", type=int, default=None)
    ap.add_argument("--workers", type=int, default=int(
        os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--wall", type=float, default=None)
    ap.add_argument("--no-min", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    modname = "checks.%s" % prop.lower()
    sys.path.insert(0, HERE)
    if a.replay:
        return replay(prop, modname, a.replay)
    base = a.seed if a.seed is not None else int(
        os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    spec = importlib.import_module("checks.spec").SPEC[prop]
    n = a.n or spec["n"][tier]
    wall = a.wall or {"quick": 420, "thorough": 3000}[tier]
    t0 = time.time()
    print("%s tier=%s seed=%d scenarios=%d workers=%d"
          % (prop, tier, base, n, a.workers), flush=True)
    seeds = [base * 1000003 + i for i in range(n)]
    res, harness, skipped = sweep(modname, seeds, tier, a.workers, wall)
    explore_s = time.time() - t0
    viols = [r for r in res if "violation" in r]
    status = 0
    reported = []
    mod = None
    groups = collections.OrderedDict()
    for r in viols:
        k = match_known(prop, r["scenario"], r["violation"])
        if k is not None:
            groups.setdefault(("known", k["id"]), []).append((r, k))
        else:
            groups.setdefault(("new", r["violation"]["kind"]), []).append(
                (r, None))
    for (cls, key), items in groups.items():
        if cls == "new" and len(reported) >= 4:
            continue
        if cls == "known":
            print("KNOWN-FINDING: property=%s %s" % (prop, items[0][1]["what"]))
            continue
        status = 1
        r = items[0][0]
        if mod is None:
            mod = importlib.import_module(modname)
        sc, v, tried = r["scenario"], r["violation"], 0
        if not a.no_min:
            try:
                sc, v, tried = minimise(mod, sc, v,
                                        budget_s=20 if reported else 60)
            except Exception:  # noqa: BLE001
                traceback.print_exc()
        path = write_replay(prop, sc, v, r["seed"])
        print("  seed=%d kind=%s (%d scenarios) minimised with %d replays"
              % (r["seed"], v["kind"], len(items), tried))
        print("  %s" % v["message"])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        reported.append({"seed": r["seed"], "kind": v["kind"],
                         "message": v["message"], "replay": path})
    for seed, h in harness[:3]:
        print("harness error (seed %s): %s" % (seed, h), file=sys.stderr)
    write_evidence(prop, tier, base, spec, res, harness, skipped, reported,
                   explore_s, time.time() - t0, a.workers)
    print("%s: %d scenarios, %d simulated runs, %d harness errors, %d skipped,"
          " %.1fs" % (prop, len(res), sum(r["stats"].get("runs", 0)
                                          for r in res), len(harness), skipped,
                      time.time() - t0))
    if status == 0 and (not res or any(i is None for i, _ in harness) or
                        len(harness) > 0.02 * max(1, len(seeds))):
        print("%s: the harness failed; no verdict" % prop)
        return 2
    return status


def write_replay(prop, sc, v, seed):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, v["kind"], seed))
    with open(path, "w") as f:
        json.dump({"property": prop, "scenario": sc, "violation": v}, f,
                  indent=1, default=str)
    return path


def replay(prop, modname, path):
    with open(path) as f:
        rp = json.load(f)
    mod = importlib.import_module(modname)
    v, h, ctx = execute(mod, rp["scenario"])
    if h:
        print("harness error: %s" % h)
        return 2
    if v is None:
        print("replay of %s: the property holds" % path)
        return 0
    print(v["message"])
    print("event log digest %s" % digest(ctx.log))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def write_evidence(prop, tier, seed, spec, res, harness, skipped, reported,
                   explore_s, wall, workers):
    tot = collections.Counter()
    faults = collections.Counter()
    probes = collections.Counter()
    hashes = set()
    sigs = set()
    for r in res:
        tot.update(r["stats"])
        faults.update(r["faults"])
        probes.update(r["probes"])
        hashes.update(r["hashes"])
        sigs.add(r["sig"])
    per_h = 3600.0 / max(explore_s, 1e-6)
    samples = []
    for r in res[:2] + res[-1:]:
        samples.append({"seed": r["seed"], "stats": r["stats"],
                        "faults": r["faults"], "probes": r["probes"],
                        "log_digest": r["log"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": spec["level"], "wall_s": round(wall, 2),
        "violations": len(reported),
        "assumptions": spec.get("assumptions", []) + [
            "TensorFlow's own CPU kernels compute each operation correctly",
            "sampling, not enumeration: a clean batch is evidence, not proof"],
        "coverage": {
            "evaluations": int(tot.get("runs", 0)) or len(res),
            "distinct_nontrivial": len(hashes) if hashes and
            spec.get("by") != "setting" else len(sigs),
            "rule": spec["rule"],
            "samples": samples,
            "scenarios": len(res),
            "distinct_scenarios": len(sigs),
            "distinct_interleavings": len(hashes),
            "interleaving_measure":
                "64-bit hash of the executed (operation, loop iteration) "
                "sequence of one simulated session.run, or of the thread "
                "switch sequence",
            "simulated_op_steps": int(tot.get("steps", 0)),
            "scheduling_points": int(tot.get("sched_points", 0)),
            "simulated_time":
                "logical: %d operation steps; the code has no clock"
                % int(tot.get("steps", 0)),
            "runs_per_hour": round(tot.get("runs", 0) * per_h),
            "seeds_per_hour": round(len(res) * per_h),
            "workers": workers,
            "faults_injected": dict(faults),
            "probes": dict(probes),
            "schedulers": {k[6:]: v for k, v in tot.items()
                           if k.startswith("sched:")},
            "stats": {k: v for k, v in tot.items()
                      if not k.startswith("sched")},
            "harness_errors": len(harness), "skipped": skipped,
            "real_components": spec.get("real", []),
            "stub_components": spec.get("stub", []),
            "violations": reported,
        },
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
