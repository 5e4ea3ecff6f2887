"""C01 Trajectory files record every due step exactly once."""
from .. import gen, harness, model
from ..engine import Violation, completed
from ..outputs import same_number, split, text
from ..spec import Spec

RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("Random inputs (1-3 dimensions, all integrators, strides and write intervals of every relation incl. non-divisors, larger than the run "
        "and defaults), random extra manual writes between steps, bent random draws, short raw writes and odd buffer sizes; every row of every "
        "trajectory file is compared with the walker history spied at the dynamics' entry and exit. "
        "Non-trivial: at least two rows were due and at least two separate writes happened, or a manual write took place.")
MUST_REACH = ["reach:stride>write", "reach:nondivisor", "reach:manual-write", "reach:partial-last-block", "reach:no-row-at-end"]


def make(r, i, tier):
    big = r.random() < 0.02
    c = gen.make(r, still=0.03, traj=1.0, vast=0.0008, histo=0.2, fes=0.3, df=0.3, pd=0.2, bd=0.35, walkers=6 if not big else 25, bd_events=r.random() < 0.5,
                 mom=0.5, cap=60)
    t = c["cfg"]["trajectories"]
    t["filename"] = r.choice(["traj", "traj", "out.traj", "t"])
    n = int(c["cfg"]["ld"]["n_steps"])
    if r.random() < 0.4 and n > 1:
        c["manual"] = sorted([r.randint(1, n - 1), "TrajectoryAction"] for _ in range(r.randint(1, 4)))
    return c


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    r = harness.simulate(case)
    o.saw(r, spec)
    completed(r)
    st = r.probe.states()
    check_files(spec, r, st, spec.n_steps)
    t = spec.traj
    due = model.due(t.stride, spec.n_steps)
    writes = spec.n_steps // t.write_stride + 1
    o.nontrivial = len(due) >= 2 and (writes >= 2 or r.probe.manual_done > 0)
    if t.stride > t.write_stride:
        o.reach("stride>write")
    if t.write_stride % t.stride:
        o.reach("nondivisor")
    if r.probe.manual_done:
        o.reach("manual-write", r.probe.manual_done)
    if spec.n_steps % t.write_stride:
        o.reach("partial-last-block")
    if spec.n_steps % t.stride:
        o.reach("no-row-at-end")
    if spec.bd:
        o.reach("with-birth-death")
    o.stats["reach:rows-checked"] += len(due) * spec.n


def check_files(spec, r, st, upto):
    t = spec.traj
    names = spec.traj_files()
    for f in r.files:
        if f.startswith(t.filename + ".") and f not in names:
            raise Violation("extra-file", f"unexpected trajectory file '{f}' for {spec.n} walkers")
    due = model.due(t.stride, upto)
    ncol = 1 + spec.ndim * (2 if t.momentum else 1)
    for i, name in enumerate(names):
        h, body = split(text(r, name), name)
        if len(h) != 1:
            raise Violation("header", f"'{name}' has {len(h)} header lines")
        if len(h[0].split()) - 2 != ncol:
            raise Violation("header", f"'{name}': header describes {len(h[0].split()) - 2} columns, the rows have {ncol}")
        for k, line in enumerate(body):
            tok = line.split()
            if len(tok) != ncol:
                raise Violation("columns", f"'{name}' row {k + 1}: {len(tok)} columns instead of {ncol}")
            if k >= len(due):
                raise Violation("extra-row", f"'{name}' has {len(body)} rows, but only {len(due)} steps were due (stride {t.stride}, "
                                             f"write interval {t.write_stride}, {upto} steps); first extra row: {line.strip()!r}")
            step = due[k]
            if not same_number(tok[0], t.fmt, step * spec.dt):
                raise Violation("time", f"'{name}' row {k + 1}: time {tok[0]} instead of {step * spec.dt!r} (step {step})")
            want = list(st[step].pos[i]) + (list(st[step].mom[i]) if t.momentum else [])
            for c, v in enumerate(want):
                if not same_number(tok[1 + c], t.fmt, float(v), 0):
                    raise Violation("value", f"'{name}' row {k + 1} (step {step}): column {c + 2} is {tok[1 + c]}, the walker had {float(v)!r}")
        if len(body) < len(due):
            raise Violation("missing-row", f"'{name}' has {len(body)} rows, but {len(due)} steps were due (stride {t.stride}, write interval "
                                           f"{t.write_stride}, {upto} steps)")
