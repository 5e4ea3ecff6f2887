"""C12 A killed run leaves every completed write, and nothing but a prefix."""
import random

from .. import gen, harness, model
from ..engine import Violation, completed, default_shrinks
from ..outputs import split
from ..spec import Spec

RUNS = {"quick": 2200, "thorough": 40000}
RULE = ("Every input runs once undisturbed and then several more times, killed (process death: unflushed user-space buffers are lost, the write in progress "
        "may be torn) or gets a signal (SIGINT, SIGTERM, SIGHUP; handlers it installed and functions registered for its end run) at random seam events: random draws, opens, raw writes, closes, renames, prints; half of the points are storage "
        "operations. Every file left has to be a byte prefix of that of the undisturbed run and to contain everything due at completed write steps. "
        "Non-trivial: the kill hit after at least one completed write step.")
MUST_REACH = ["reach:killed-in-step", "reach:killed-in-write", "reach:torn-write", "reach:killed-in-setup", "reach:killed-in-final", "reach:interrupted", "reach:terminated",
              "reach:rows-required", "reach:snapshots-required", "reach:stats-required"]


def make(r, i, tier):
    c = gen.make(r, bd=0.45, traj=0.9, histo=0.55, fes=0.7, df=0.7, pd=0.6, files_always=True, bd_events=r.random() < 0.6, walkers=5, long=0.1, cap=45)
    if "birth-death" in c["cfg"] and r.random() < 0.6:
        c["cfg"]["birth-death"].setdefault("stats-stride", str(r.choice([1, 2, 3, 5])))
        c["cfg"]["birth-death"].setdefault("stats-filename", "stats")
    c["kills"] = []
    for _ in range(3 if tier == "quick" else 5):
        k = {"kind": r.choice(["sigint", "sigint", "sigint", "sigterm", "sigterm", "sighup"]) if r.random() < 0.4 else "crash", "where": r.choice(["any", "io", "io", "write"]), "f": r.random()}
        if r.random() < 0.12:
            k["f"] = r.choice([0.0, 0.999999, 0.97])
        if k["kind"] == "crash":
            k["torn"] = r.choice([0.0, 0.0, 0.3, 0.7, 1.0, 0.999])
        c["kills"].append(k)
    n = int(c["cfg"]["ld"]["n_steps"])
    if r.random() < 0.15 and n > 1:
        c["manual"] = [[r.randint(1, n - 1), r.choice(["TrajectoryAction", "DeltaFAction", "ParticleDistributionAction"])]]
    return c


def shrinks(case):
    if len(case["kills"]) > 1:
        for k in case["kills"]:
            c = dict(case)
            c["kills"] = [k]
            yield c
    for k, v in (("where", "any"), ("torn", 0.0)):
        if len(case["kills"]) == 1 and case["kills"][0].get(k, v) != v:
            c = dict(case)
            c["kills"] = [dict(case["kills"][0], **{k: v})]
            yield c
    yield from default_shrinks(case)


def locate(trace, kill):
    """Turn a relative kill point into a fault at an absolute seam event."""
    want = {"any": None, "io": ("open", "write", "dirop", "dirop-done", "close", "read"), "write": ("write",)}[kill["where"]]
    ev = [t for t in trace if want is None or t[1] in want] or trace
    k, kind, what, stage = ev[min(len(ev) - 1, int(kill["f"] * len(ev)))]
    f = {"kind": kill["kind"], "at": k}
    if kill["kind"] == "crash":
        f["torn"] = kill.get("torn", 0.0)
    return f, kind, what


def rows_text(full, name, n):
    """Bytes of header and first n data rows of a complete file."""
    out, k = [], 0
    for line in full.split(b"\n"):
        if not line.startswith(b"#"):
            if k == n:
                break
            k += 1
        out.append(line)
    return b"\n".join(out) + (b"\n" if out else b"")


def required(spec, done, manual=()):
    """[(file, rows or None for complete)] that have to be there after `done` completed steps"""
    out = []
    t = spec.traj
    if t and t.filename:
        w = done // t.write_stride * t.write_stride
        if w:
            out += [(n, len(model.due(t.stride, w))) for n in spec.traj_files()]
    for s in (spec.df, spec.pd):
        if s and s.filename and s.stride:
            w = done // s.write_stride * s.write_stride
            if w:
                out.append((s.filename, len(model.due(s.stride, w))))
    if spec.bd and spec.bd.stats_filename and spec.bd.stats_stride:
        n = len(model.due(spec.bd.stats_stride, done))
        if n:
            out.append((spec.bd.stats_filename, n))
    for s in (spec.histo, spec.fes):
        if s and s.filename and s.write_stride:
            out += [(f"{s.filename}_{k}", None) for k in range(s.write_stride, done + 1, s.write_stride)]
    return out


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    plan = dict(case["plan"], keep_trace=True)
    base = harness.simulate(case, plan=plan)
    o.saw(base, spec)
    completed(base)
    trace = base.world.trace
    for kill in case["kills"]:
        f, kind, what = locate(trace, kill)
        r = harness.simulate(case, faults=[f])
        o.saw(r, spec)
        if not r.fired:
            o.reach("not-fired")  # another course before the point: not this property's business
            continue
        at = f"{kill['kind']} at event {f['at']} ({kind} {what})"
        done = max(0, len(r.probe.pre) - 1)
        judge(spec, base, r, done, at, o)
        if kill["kind"] == "sigint":
            o.reach("interrupted")
        if kill["kind"] in ("sigterm", "sighup"):
            o.reach("terminated")
        if kind == "write":
            o.reach("killed-in-write")
            if kill.get("torn"):
                o.reach("torn-write")
        if not r.probe.pre:
            o.reach("killed-in-setup")
        elif done >= spec.n_steps - 1 and len(r.probe.post) == spec.n_steps:
            o.reach("killed-in-final")
        else:
            o.reach("killed-in-step")


def judge(spec, base, r, done, at, o):
    data = set(spec.data_files())
    for n, c in sorted(r.files.items()):
        if n in r.before:
            if c != r.before[n]:
                raise Violation("input-changed", f"{at}: '{n}' was modified")
            continue
        if n in spec.plot_files():
            continue
        if n in data and n in base.files and not base.files[n].startswith(c):
            k = next((j for j in range(min(len(c), len(base.files[n]))) if c[j] != base.files[n][j]), len(base.files[n]))
            raise Violation("not-prefix", f"{at}: '{n}' is no prefix of what the undisturbed run writes (first difference at byte {k} of {len(c)})")
    for n, rows in required(spec, done):
        full = base.files.get(n)
        if full is None:
            raise Violation("missing-file", f"'{n}' is not written by the undisturbed run")
        if n not in r.files:
            raise Violation("lost-file", f"{at}: '{n}' does not exist, {done} steps were completed")
        want = full if rows is None else rows_text(full, n, rows)
        if len(r.files[n]) < len(want):
            have = len(split(full[: len(r.files[n])].decode() + "\n", n)[1]) if rows is not None else 0
            raise Violation("lost-rows" if rows is not None else "lost-snapshot",
                            f"{at}: '{n}' has only {len(r.files[n])} bytes (about {have} rows) of the {len(want)} bytes ({rows if rows is not None else 'all'} rows) "
                            f"that were due after {done} completed steps")
        o.reach("rows-required" if rows is not None else "snapshots-required")
        if spec.bd and n == spec.bd.stats_filename:
            o.reach("stats-required")
        o.nontrivial = True
