"""C05 Walker-distribution series is exactly-once and right."""
from .. import gen, harness, model
from ..engine import Violation, completed
from ..outputs import same_number, split, text
from ..spec import Spec

RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("Random inputs with a walker-distribution part (1-4 state boxes, 1-3 dimensions, all strides and write intervals, also without a stride), "
        "birth-death in between, extra manual writes; every row is compared with a recount of the spied walker history. "
        "Non-trivial: at least two rows and two writes, or a manual write, or a final-only row.")
MUST_REACH = ["reach:manual-write", "reach:partial-last-block", "reach:final-only", "reach:no-row-at-end", "reach:counts-vary", "reach:hundreds-in-a-state"]


def make(r, i, tier):
    c = gen.make(r, still=0.03, pd=1.0, vast=0.0008, traj=0.2, histo=0.15, fes=0.2, df=0.2, bd=0.4, bd_events=r.random() < 0.6, cap=60, walkers=8,
                 bc=[None, "reflective", "periodic", "periodic"], hot=0.7, extreme=0.5, huge=0.01)
    s = c["cfg"]["particle-distribution"]
    s["filename"] = "dist"
    n = int(c["cfg"]["ld"]["n_steps"])
    if "stride" in s and r.random() < 0.5:
        s["write-stride"] = str(int(s["stride"]) * r.choice([1, 2, 3, 4, 5, 10]))
    if r.random() < 0.35 and n > 1 and "stride" in s:
        c["manual"] = sorted([r.randint(1, n - 1), "ParticleDistributionAction"] for _ in range(r.randint(1, 4)))
    return c


def rows_due(s, n):
    return model.due(s.stride, n) if s.stride else [n]


def check_series(name, t, s, due, value_ok, first, ncol):
    h, body = split(t, name)
    if not h:
        raise Violation("header", f"'{name}' has no header line")
    fields = h[0].split()
    if len(fields) - 2 != ncol:
        raise Violation("header", f"'{name}': header describes {len(fields) - 2} columns, the rows have {ncol}")
    for k, line in enumerate(body):
        tok = line.split()
        if len(tok) != ncol:
            raise Violation("columns", f"'{name}' row {k + 1}: {len(tok)} columns instead of {ncol}")
        if k >= len(due):
            raise Violation("extra-row", f"'{name}' has {len(body)} rows, but only {len(due)} were due (stride {s.stride}, write interval "
                                         f"{s.write_stride}); first extra row: {line.strip()!r}")
        step = due[k]
        if not same_number(tok[0], s.fmt, first(step)):
            raise Violation("time", f"'{name}' row {k + 1}: first column {tok[0]} instead of {first(step)!r} (step {step})")
        value_ok(k, step, tok[1:])
    if len(body) < len(due):
        raise Violation("missing-row", f"'{name}' has {len(body)} rows, but {len(due)} were due (stride {s.stride}, write interval {s.write_stride})")


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    r = harness.simulate(case)
    o.saw(r, spec)
    completed(r)
    st = r.probe.states()
    s = spec.pd
    due = rows_due(s, spec.n_steps)
    seen = set()

    def value_ok(k, step, tok):
        for j, box in enumerate(s.states):
            n = sum(model.inside(p, box) for p in st[step].pos)
            seen.add((j, n))
            if not same_number(tok[j], s.fmt, float(n)):
                raise Violation("value", f"'{s.filename}' row {k + 1} (step {step}), state {j + 1}: {tok[j]} walkers, {n} were inside {box}")

    check_series(s.filename, text(r, s.filename), s, due, value_ok, lambda k: float(k), 1 + len(s.states))
    if r.probe.manual_done:
        o.reach("manual-write", r.probe.manual_done)
    if not s.stride:
        o.reach("final-only")
    else:
        if spec.n_steps % s.write_stride:
            o.reach("partial-last-block")
        if spec.n_steps % s.stride:
            o.reach("no-row-at-end")
        if not due:
            o.reach("no-row-at-all")
    if len(seen) > len(s.states):
        o.reach("counts-vary")
    if any(n > 255 for _, n in seen):
        o.reach("hundreds-in-a-state")
    o.stats["reach:rows-checked"] += len(due)
    o.nontrivial = not s.stride or (len(due) >= 2 and (spec.n_steps >= 2 * s.write_stride or r.probe.manual_done > 0)) or len(seen) > len(s.states)
