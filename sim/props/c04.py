"""C04 Free energy difference series is exactly-once and right."""
import math

import numpy as np

from .. import gen, harness, model
from ..engine import Violation, completed
from ..outputs import grid_file, resolution, same_number, text
from ..spec import Spec
from .c03 import counts_per_step
from .c05 import check_series, rows_due

RUNS = {"quick": 3000, "thorough": 110000}
RULE = ("Random inputs with a free-energy-difference part (2-4 state boxes, 1-3 dimensions, every relation of strides and write intervals, also "
        "without a stride), extra manual writes; every row is compared with the ratio of state probabilities on the surface current at that step, "
        "taken from the program's own per-step surface files (part of the cases) or from a recount of the spied walker history. "
        "Non-trivial: at least one row with a finite non-zero difference was checked.")
MUST_REACH = ["reach:manual-write", "reach:partial-last-block", "reach:final-only", "reach:infinite", "reach:undefined", "reach:dim2", "reach:dim3"]


def make(r, i, tier):
    c = gen.make(r, still=0.03, dims=(5, 3, 1.5), histo=1.0, fes=1.0, df=1.0, pd=0.1, bd=0.2, cap=60, walkers=6, hot=0.6,
                 bc=[None, "reflective", "periodic", "periodic"])
    f, s = c["cfg"]["fes"], c["cfg"]["delta-f"]
    s["filename"] = "delta_f"
    n = int(c["cfg"]["ld"]["n_steps"])
    if r.random() < 0.85:
        f["stride"] = str(r.choice([1, 1, 2, 3, 5, gen.stride(r, n)]))
    if r.random() < 0.75:
        c["cfg"]["trajectories"]["write-stride"] = str(r.choice([1, 1, 2, 3, gen.stride(r, n)]))
    if r.random() < 0.4 and "stride" in f:
        f["filename"], f["write-stride"], f["fmt"] = "fes", "1", "%%.17g"
    if r.random() < 0.7:  # states and bins where the walkers are
        sp = Spec(c["cfg"], c["files"])
        h = c["cfg"]["histogram"]
        h["min"] = ",".join(gen.num(a) for a, _ in sp.ranges)
        h["max"] = ",".join(gen.num(b) for _, b in sp.ranges)
        h["bins"] = ",".join(str(r.choice([4, 6, 7, 10] if sp.ndim == 1 else [2, 3, 4])) for _ in sp.ranges)
        if r.random() < 0.7:
            h.pop("reset", None)
            h.pop("stride", None)
        for k in [k for k in s if k.startswith("state")]:
            del s[k]
        q = c["cfg"]["particles"]
        q["number"] = str(r.randint(4, 14))
        if r.random() < 0.7:
            q["initial-distribution"] = "random-global"
            c["cfg"]["trajectories"]["write-stride"] = str(r.choice([1, 1, 2, 3]))
        m = r.choice([2, 2, 3, 4])
        d = r.randrange(sp.ndim)
        lo, hi = sp.ranges[d]
        cuts = sorted(r.uniform(lo, hi) for _ in range(m - 1))
        ed = [lo] + cuts + [hi]
        order = list(range(m))
        r.shuffle(order)
        for i, j in enumerate(order):
            a = [x for x, _ in sp.ranges]
            b = [x for _, x in sp.ranges]
            a[d], b[d] = ed[j], ed[j + 1]
            s[f"state{i + 1}-min"] = ",".join(gen.num(x) for x in a)
            s[f"state{i + 1}-max"] = ",".join(gen.num(x) for x in b)
    if "stride" in s and r.random() < 0.5:
        s["write-stride"] = str(int(s["stride"]) * r.choice([1, 2, 3, 4, 5, 10]))
    if r.random() < 0.35 and n > 1 and "stride" in s:
        c["manual"] = sorted([r.randint(1, n - 1), "DeltaFAction"] for _ in range(r.randint(1, 4)))
    return c


def masks(spec):
    """Per state: array of bool, or None if a bin centre sits on a bound within rounding."""
    h = spec.histo
    cs = model.centers(h.ranges, h.bins)
    out = []
    for box in spec.df.states:
        m = np.ones(len(cs), dtype=bool)
        amb = False
        for d, (lo, hi) in enumerate(box):
            eps = 1e-12 * (1 + abs(lo) + abs(hi))
            near = (np.abs(cs[:, d] - lo) < eps) | (np.abs(cs[:, d] - hi) < eps)
            amb |= bool(near.any())
            m &= (cs[:, d] >= lo) & (cs[:, d] <= hi)
        out.append(None if amb else m)
    return out


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    r = harness.simulate(case)
    o.saw(r, spec)
    completed(r)
    s, f, h = spec.df, spec.fes, spec.histo
    ms = masks(spec)
    own = bool(f.filename and f.write_stride == 1 and ".17" in f.fmt)
    cache = {}
    if not own:
        per, final, _ = counts_per_step(spec, r)

    def weights(step):
        """relative probability per bin of the surface current at step (None: undecided)"""
        if step not in cache:
            if own:
                name = f.filename if not s.stride else f"{f.filename}_{step}"
                v = grid_file(r, name, h.bins, h.ranges, f.fmt, "surface").reshape(-1)
                cache[step] = np.exp(-v / f.kt)
            elif not s.stride:
                cache[step] = None if final is None else final.reshape(-1).astype(float)
            else:
                at = step // f.stride * f.stride if f.stride else 0
                cache[step] = None if per[at] is None else per[at].reshape(-1).astype(float)
        return cache[step]

    def value_ok(k, step, tok):
        w = weights(step)
        if w is None or ms[0] is None:
            o.reach("undecided-edge")
            return
        p0 = w[ms[0]].sum()
        for j in range(1, len(s.states)):
            if ms[j] is None:
                continue
            p = w[ms[j]].sum()
            try:
                v = float(tok[j - 1])
            except ValueError:
                raise Violation("malformed", f"'{s.filename}' row {k + 1}: {tok[j - 1]!r} is no number")
            if p0 == 0 and p == 0:
                o.reach("undefined")
                ok, want = math.isnan(v), math.nan
            elif p == 0 or p0 == 0:
                o.reach("infinite")
                want = math.inf if p == 0 else -math.inf
                ok = v == want
            else:
                want = -f.kt * math.log(p / p0)
                ok = abs(v - want) <= resolution(s.fmt, want) + 1e-8 * (f.kt + abs(want))
                if want:
                    o.nontrivial = True
            if not ok:
                raise Violation("value", f"'{s.filename}' row {k + 1} (step {step}), state {j + 1}: {tok[j - 1]} instead of {want!r}")

    due = rows_due(s, spec.n_steps)
    check_series(s.filename, text(r, s.filename), s, due, value_ok, lambda k: k * spec.dt, len(s.states))
    if r.probe.manual_done:
        o.reach("manual-write", r.probe.manual_done)
    if not s.stride:
        o.reach("final-only")
    elif spec.n_steps % s.write_stride:
        o.reach("partial-last-block")
    o.reach(f"dim{spec.ndim}")
    o.reach("own-surface-files" if own else "recount")
    o.stats["reach:rows-checked"] += len(due)
