"""Seeded search: generate cases, run them on all cores, minimise and record violations."""
import argparse
import collections
import concurrent.futures
import copy
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

from . import boot, harness, world
from .world import mix

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken.  cls: class of the violation (kept while minimising)."""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Outcome:
    """What one case covered."""

    def __init__(self):
        self.stats = collections.Counter()
        self.sig = 0          # signature for the distinctness measure
        self.nontrivial = False

    def saw(self, r, spec=None):
        """Account for one simulated process."""
        self.stats["processes"] += 1
        self.stats["steps"] += r.steps
        self.stats["events"] += r.events
        for k, v in r.fired.items():
            self.stats["fault:" + k] += v
        if spec is not None:
            self.stats["sim_time_ms"] += int(1000 * r.steps * spec.dt)
        self.sig = mix(self.sig, r.trace_hash, r.steps, r.code)

    def reach(self, name, n=1):
        self.stats["reach:" + name] += n


STOPPED = False  # workers were ended early


def completed(r, what="run"):
    """An undisturbed run of a valid input has to complete."""
    if r.status != "ok" or not r.success_msg:
        raise Violation("incomplete:" + str(r.status) + ":" + (r.exc or "").split(":")[0],
                        f"{what} of a valid input did not complete: {r.status} {r.exc or ''}")


def load(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}")


def case_for(pid, seed, i, tier):
    m = load(pid)
    r = random.Random(mix(seed, pid, i))
    c = m.make(r, i, tier)
    if getattr(m, "RENAME", True):
        from . import gen

        gen.rename(r, c)
    return c


def evaluate(pid, case):
    """(Outcome, None) or (Outcome, (cls, message))"""
    m = load(pid)
    o = Outcome()
    try:
        m.check(case, o)
    except Violation as v:
        return o, (v.cls, v.msg)
    return o, None


def _work(args):
    pid, seed, tier, lo, hi = args
    out = []
    for i in range(lo, hi):
        try:
            case = case_for(pid, seed, i, tier)
            o, v = evaluate(pid, case)
            out.append((i, o.sig, o.nontrivial, o.stats, v, case if (v or (i < 6 and o.nontrivial)) else None))
        except Exception:
            return out, f"case {i}: " + traceback.format_exc()
        if v:
            break
    return out, None


# ---------------------------------------------------------------- minimising
DEPS = {"histogram": "trajectories", "fes": "histogram", "delta-f": "fes"}
REQUIRED = {
    "ld": {"type", "timestep", "n_steps", "kt", "friction"}, "potential": None, "particles": {"number", "initial-distribution"},
    "birth-death": {"stride", "kernel-bandwidth"}, "trajectories": set(), "histogram": {"bins", "min", "max"}, "fes": {"kt"},
    "delta-f": set(), "particle-distribution": set(), "DEFAULT": None,
}


def cfg_shrinks(cfg, keep=()):
    for s in list(cfg):
        if s in ("ld", "potential", "particles", "DEFAULT") or s in keep:
            continue
        if any(DEPS.get(x) == s for x in cfg):
            continue
        c = copy.deepcopy(cfg)
        del c[s]
        yield c
    n = int(cfg["ld"]["n_steps"])
    for m in sorted({1, n // 4, n // 2, n - 10, n - 1}):
        if 0 < m < n:
            c = copy.deepcopy(cfg)
            c["ld"]["n_steps"] = str(m)
            yield c
    n = int(cfg["particles"]["number"])
    for m in sorted({1, 2, n // 2, n - 1}):
        if 0 < m < n:
            c = copy.deepcopy(cfg)
            c["particles"]["number"] = str(m)
            yield c
    for s in cfg:
        req = REQUIRED.get(s)
        if req is None and s != "potential":
            continue
        for k in list(cfg[s]):
            if s == "potential":
                if k not in ("boundary-condition", "scaling-factor"):
                    continue
            elif k in req or k == "seed" or k.startswith(("state", "pos", "fractions")):
                continue
            if s == "fes" and k in ("stride", "filename") and ("write-stride" in cfg[s] or "plot-stride" in cfg[s]):
                continue
            if k == "filename" and "write-stride" in cfg[s] and s != "trajectories":
                continue
            if s in ("delta-f", "particle-distribution") and k == "stride" and "write-stride" in cfg[s]:
                continue
            c = copy.deepcopy(cfg)
            del c[s][k]
            yield c


def default_shrinks(case, keep=()):
    for key in ("ops", "manual", "procs"):
        if isinstance(case.get(key), list) and case[key]:
            for i in range(len(case[key])):
                c = copy.deepcopy(case)
                del c[key][i]
                yield c
    for key in ("plan", "plan2"):
        p = case.get(key)
        if not isinstance(p, dict):
            continue
        for i in range(len(p.get("faults") or [])):
            c = copy.deepcopy(case)
            del c[key]["faults"][i]
            yield c
        for k, v in (("rng", None), ("short", None), ("clock", None), ("bufsize", 8192)):
            if k in p and p[k] != v:
                c = copy.deepcopy(case)
                if v is None:
                    del c[key][k]
                else:
                    c[key][k] = v
                yield c
        if p.get("rng") and p["rng"].get("p", 0) > 0.01:
            c = copy.deepcopy(case)
            c[key]["rng"]["p"] = 0.01
            yield c
    if case.get("style"):
        c = copy.deepcopy(case)
        c["style"] = 0
        yield c
    if "cfg" in case:
        for cfg in cfg_shrinks(case["cfg"], keep):
            c = copy.deepcopy(case)
            c["cfg"] = cfg
            yield c


def minimise(pid, case, cls, budget):
    m = load(pid)
    shr = getattr(m, "shrinks", default_shrinks)
    t0 = time.monotonic()
    tried = kept = 0
    msg = None
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for c in shr(case):
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            try:
                _, v = evaluate(pid, c)
            except Exception:
                continue
            if v and v[0] == cls:
                case, msg = c, v[1]
                kept += 1
                progress = True
                break
    return case, msg, tried, kept


# ---------------------------------------------------------------- main
def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                out.append(line[6:].strip())
    return out


def run_check(pid, tier, seed, runs=None, workers=None, deadline=None, quiet=False):
    m = load(pid)
    t0 = time.monotonic()
    total = runs or m.RUNS[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    deadline = deadline or (720 if tier == "quick" else 4 * 3600)
    chunk = max(1, min(getattr(m, "CHUNK", 16), total // (workers * 4) or 1))
    jobs = [(pid, seed, tier, lo, min(total, lo + chunk)) for lo in range(0, total, chunk)]
    agg = collections.Counter()
    sigs = set()
    evaluations = 0
    samples = []
    first = None
    error = truncated = None
    done_upto = 0
    log_hash = 0
    boot.preload()
    ex = concurrent.futures.ProcessPoolExecutor(workers)
    try:
        pending = {}
        nxt = 0
        it = 0
        while it < len(jobs):
            while nxt < len(jobs) and len(pending) < workers * 6:
                pending[nxt] = ex.submit(_work, jobs[nxt])
                nxt += 1
            left = deadline - (time.monotonic() - t0)
            try:
                out, err = pending.pop(it).result(timeout=max(0.1, left))
            except concurrent.futures.TimeoutError:
                truncated = f"time limit of {deadline} s reached after {done_upto} of {total} cases"
                if done_upto < 100:
                    error = truncated
                break
            it += 1
            for i, sig, nontrivial, stats, v, case in out:
                evaluations += 1
                done_upto = i + 1
                agg.update(stats)
                log_hash = mix(log_hash, i, sig)
                if nontrivial:
                    sigs.add(sig)
                if case is not None and len(samples) < 3 and not v:
                    samples.append({"case": i, "input": case})
                if v and first is None:
                    first = (i, v, case)
            if err and first is None:
                error = err
            if first or error:
                break
    except concurrent.futures.process.BrokenProcessPool as e:
        error = f"worker died: {e}"
    finally:
        procs = list((getattr(ex, "_processes", None) or {}).values())
        stop = bool(first or error or truncated or sys.exc_info()[0])
        ex.shutdown(wait=not stop, cancel_futures=True)
        if stop:
            global STOPPED
            STOPPED = True
            for p in procs:
                p.kill()
            for p in procs:
                p.join(5)
    replay = None
    if first:
        i, (cls, msg), case = first
        left = max(5.0, min(90.0, deadline - (time.monotonic() - t0) - 60))
        small, smsg, tried, kept = minimise(pid, case, cls, left)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", f"{pid}-{seed}-{i}.json")
        rec = {
            "property": pid, "seed": seed, "case": i, "tier": tier, "class": cls, "violation": smsg or msg,
            "first_violation": msg, "minimised": {"candidates": tried, "accepted": kept}, "source": boot.source_digest(),
            "input": small, "original_input": case,
        }
        if "cfg" in small:
            from . import gen

            rec["input_file"] = gen.render(small)
        with open(replay, "w") as f:
            json.dump(rec, f, indent=1)
        p = subprocess.run([sys.executable, "-m", "sim", pid, "--replay", replay], cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_NO_EVIDENCE="1"))
        rec["reproduced_in_fresh_process"] = p.returncode == 1
        with open(replay, "w") as f:
            json.dump(rec, f, indent=1)
    wall = time.monotonic() - t0
    faults = {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("fault:")}
    reach = {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("reach:")}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(sigs),
            "rule": m.RULE + " Distinct: different hash over the sequence of seam events (kind and file of every random draw, "
                    "open, read, write, rename, print), steps and exit status of all simulated processes of the case.",
            "samples": samples,
            "simulated_processes": agg["processes"],
            "simulated_dynamics_steps": agg["steps"],
            "simulated_time_units": agg["sim_time_ms"] / 1000.0,
            "seam_events": agg["events"],
            "runs_per_hour": round(agg["processes"] / wall * 3600) if wall else 0,
            "seeds_per_hour": round(evaluations / wall * 3600) if wall else 0,
            "faults_fired": faults,
            "conditions_reached": reach,
            "event_log_hash": f"{log_hash:016x}",
            "workers": workers,
            "planned_cases": total,
            "source_digest": boot.source_digest(),
            "real_components": "all of bdld (bdld.main and every module it imports) from /repo's working tree, numpy, scipy, "
                               "matplotlib (plots), Python's buffered file objects, the scratch file system",
            "simulated_components": "random number generators (seeded PCG64 behind numpy.random.default_rng, with bent draws), OS entropy, "
                                    "wall clock, raw file writes/opens/reads/renames, standard streams, process death; "
                                    "bdld.helpers (empty git submodule) from " + str(boot.helpers_origin or "the release wheel in /repo/dist")
                                    + getattr(m, "STUBS", ""),
        },
        "assumptions": getattr(m, "ASSUMPTIONS", []) + [
            "seeded sampling, not enumeration: a clean batch is evidence, not proof",
        ],
        "wall_s": round(wall, 2),
        "violations": 1 if first else 0,
    }
    if truncated:
        ev["coverage"]["truncated"] = truncated
    if error and not first:
        ev["coverage"]["error"] = error[-2000:]
    if not os.environ.get("VERIF_NO_EVIDENCE"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    if first:
        print(f"{pid}: case {first[0]}: {first[1][1]}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if error:
        print(f"{pid}: check error: {error}")
        return 2
    missing = [k for k in getattr(m, "MUST_REACH", []) if not agg.get(k)]
    if truncated:
        print(f"{pid}: note: {truncated}")
    if missing and total >= m.RUNS["quick"]:
        print(f"{pid}: note: conditions never reached in this batch: {missing}")
    print(f"{pid}: held on {evaluations} cases ({agg['processes']} simulated processes, {agg['steps']} steps, "
          f"{len(sigs)} distinct non-trivial) in {wall:.1f} s; faults {faults}")
    if not quiet and os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(reach, indent=1), f"{log_hash:016x}")
    return 0


def run_replay(pid, path):
    rec = json.load(open(path))
    pid = rec.get("property", pid)
    o, v = evaluate(pid, rec["input"])
    if v:
        print(f"{pid}: {v[1]}")
        print(f"class: {v[0]} (recorded: {rec.get('class')})")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid}: replay of {path} shows no violation on this tree")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    pid = a.property.upper()
    from . import harness

    with harness.Scratch() as session:  # everything simulated happens below
        harness.SCRATCH = session
        if a.replay:
            return run_replay(pid, a.replay)
        return run_check(pid, a.tier, a.seed, a.runs, a.workers, a.deadline)
