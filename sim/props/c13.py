"""C13 Success is reported only if every output is complete."""
import copy

from .. import gen, harness, world as W
from ..engine import Violation, completed, default_shrinks
from ..spec import Spec

RUNS = {"quick": 1800, "thorough": 40000}
RULE = ("Every input runs once undisturbed and then several more times with storage faults at random operations (ENOSPC with a partial write, EIO, EACCES, now and then a rarer error, on open, "
        "write, close, rename and read; once or persistent), a failed allocation (MemoryError at a random seam event) or a closed standard output, always with short writes at random. A run that reports success has to "
        "leave all outputs identical to the undisturbed run; a failed one must not claim success and may leave only prefixes. Afterwards the faults stop and "
        "the same input runs again in the same directory: it has to complete with identical outputs. Non-trivial: a fault fired.")
MUST_REACH = ["reach:failed-honestly", "reach:in-step", "reach:in-setup", "reach:in-final", "reach:rerun-complete", "reach:sticky", "reach:epipe", "reach:nomem",
              "fault:io-ENOSPC-write", "fault:io-EIO-write", "fault:io-EIO-close", "fault:io-EACCES-open", "fault:short-write"]


def make(r, i, tier):
    c = gen.make(r, bd=0.45, traj=0.9, histo=0.55, fes=0.7, df=0.7, pd=0.6, files_always=True, bd_events=r.random() < 0.6, walkers=4, long=0.08, cap=40,
                 plots=0.02)
    if "birth-death" in c["cfg"] and r.random() < 0.6:
        c["cfg"]["birth-death"].setdefault("stats-stride", str(r.choice([1, 2, 3, 5])))
        c["cfg"]["birth-death"].setdefault("stats-filename", "stats")
    c["plan"]["short"] = r.choice([0.0, 0.2, 0.6])
    c["disturb"] = []
    for _ in range(3 if tier == "quick" else 5):
        z = r.random()
        if z < 0.1:
            d = {"kind": "epipe", "f": r.random()}
        elif z < 0.22:
            d = {"kind": "nomem", "f": r.random(), "where": r.choice(["rng", "write", "open", "any", "any"])}
        else:
            d = {"kind": "io", "err": r.choice(["ENOSPC", "ENOSPC", "EIO", "EACCES"]), "where": r.choice(["any", "write", "write", "open", "close", "dirop"]),
                 "f": r.random() if r.random() < 0.85 else r.choice([0.0, 0.9999, 0.95]), "keep": r.choice([0.0, 0.0, 0.4, 0.9])}
            if r.random() < 0.2:  # rarer errors, where they can occur
                d["err"], d["where"] = r.choice([("EDQUOT", "write"), ("EFBIG", "write"), ("ESTALE", "write"), ("EROFS", "open"), ("EMFILE", "open"), ("ENOENT", "open"),
                                                 ("EROFS", "dirop"), ("EPERM", "dirop"), ("EDQUOT", "close"), ("ESTALE", "close"), ("ETIMEDOUT", "write")])
            if r.random() < 0.4:
                d["sticky"] = True
                d["on"] = r.choice([["write"], ["open", "write", "dirop", "close"], ["write", "close"]])
        c["disturb"].append(d)
    if r.random() < 0.5:
        c["old"] = r.randint(1, 10**6)
    return c


def shrinks(case):
    if len(case["disturb"]) > 1:
        for k in case["disturb"]:
            yield dict(case, disturb=[k])
    elif case["disturb"]:
        d = case["disturb"][0]
        for k in ("sticky", "keep"):
            if d.get(k):
                yield dict(case, disturb=[{a: b for a, b in d.items() if a not in (k,)}])
    if case.get("old"):
        yield dict(case, old=0)
    yield from default_shrinks(case)


def locate(trace, d):
    if d["kind"] == "epipe":
        ev = [t for t in trace if t[1] == "print"]
        return {"kind": "epipe", "at": ev[min(len(ev) - 1, int(d["f"] * len(ev)))][0]} if ev else None
    if d["kind"] == "nomem":
        ev = [t for t in trace if t[1] == d["where"] or (d["where"] == "any" and t[1] != "print")]
        return {"kind": "nomem", "at": ev[min(len(ev) - 1, int(d["f"] * len(ev)))][0]} if ev else None
    io = [t for t in trace if t[1] in W.World.IO]
    ev = [(j, t) for j, t in enumerate(io) if t[1] == d["where"] or (d["where"] == "any" and t[1] != "read")]
    if not ev:
        return None
    j, t = ev[min(len(ev) - 1, int(d["f"] * len(ev)))]
    f = {"kind": "io", "err": d["err"], "at": j, "keep": d.get("keep", 0.0)}
    if d.get("sticky"):
        f["sticky"], f["on"] = True, d["on"]
    return f


def old_files(case, spec):
    out = {}
    if case.get("old"):
        for n in spec.data_files():
            if W.unit(case["old"], n) < 0.4:
                out[n] = f"old contents of {n} {case['old']}\n"
    return out


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    quiet = dict(case["plan"], short=0.0)
    base = harness.simulate(case, plan=quiet)
    o.saw(base, spec)
    completed(base)
    data = spec.data_files() + spec.plot_files()
    for n in data:
        if n not in base.files:
            raise Violation("missing-file", f"success is reported but output '{n}' was not written")
    extra = old_files(case, spec)
    tr = harness.simulate(case, plan=dict(case["plan"], keep_trace=True), extra_files=extra)
    o.saw(tr, spec)
    completed(tr, "run with short writes")
    complete(tr, base, data, "short writes")
    trace = tr.world.trace
    for d in case["disturb"]:
        f = locate(trace, d)
        if f is None:
            continue
        with harness.Scratch() as dirn:
            files = dict(case["files"])
            files["input"] = gen.render(case)
            files.update(extra)
            harness.write_files(dirn, files)
            w = W.World(dirn, case["plan"])
            prep = harness.slow_density if case.get("slow_density") else None
            r = harness.run_process(w, faults=[f], prep=prep)
            o.saw(r, spec)
            r.files = harness.read_dir(dirn)
            if not r.fired:
                o.reach("not-fired")
                continue
            at = "; ".join(f"{x['fault']} on '{x['file']}' (event {x['event']}, step {x['step']})" for x in r.fired_at[:2])
            if r.code == 0 or r.success_msg:
                if r.code != 0 and d["kind"] == "epipe":
                    continue  # the message itself was what could not be printed
                if r.code != 0 and r.success_msg:
                    raise Violation("success-message", f"{at}: the run reports success although it failed ({r.status} {r.exc or ''})")
                if not r.success_msg:
                    if d["kind"] != "epipe":
                        raise Violation("silent-exit", f"{at}: status 0, but the run did not finish")
                    complete(r, base, data, at)
                    o.reach("epipe-survived")
                else:
                    complete(r, base, data, at)
                    o.reach("survived")
            else:
                o.reach("failed-honestly")
                for n, c in sorted(r.files.items()):
                    if n in files and c == (files[n] if isinstance(files[n], bytes) else files[n].encode()):
                        continue
                    if n in spec.data_files() and not base.files[n].startswith(c):
                        k = next((j for j in range(min(len(c), len(base.files[n]))) if c[j] != base.files[n][j]), len(base.files[n]))
                        raise Violation("wrong-rows", f"{at}: '{n}' holds other data than the undisturbed run (first difference at byte {k} of {len(c)})")
            st = r.fired_at[0]["step"] if r.fired_at else 0
            o.reach("in-setup" if st == 0 else ("in-final" if r.steps >= spec.n_steps else "in-step"))
            if d.get("sticky"):
                o.reach("sticky")
            if d["kind"] != "io":
                o.reach(d["kind"])
            o.nontrivial = True
            # faults stop: the same input has to run now
            w2 = W.World(dirn, dict(case["plan"]))
            r2 = harness.run_process(w2, faults=[], prep=prep)
            o.saw(r2, spec)
            r2.files = harness.read_dir(dirn)
            completed(r2, f"rerun (after {at})")
            complete(r2, base, data, f"rerun after {at}")
            o.reach("rerun-complete")


def complete(r, base, data, at):
    for n in data:
        if n not in r.files:
            raise Violation("missing-output", f"{at}: success is reported but output '{n}' does not exist")
        if r.files[n] != base.files[n]:
            raise Violation("incomplete-output", f"{at}: success is reported but output '{n}' ({len(r.files[n])} bytes) differs from the undisturbed run "
                                                 f"({len(base.files[n])} bytes)")
