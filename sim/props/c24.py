"""C24 A longer run continues the course of a shorter one."""
import copy

import numpy as np

from .. import gen, harness
from ..engine import Violation, completed, default_shrinks
from ..spec import Spec

RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("Seeded inputs run twice in the same simulated world with different numbers of steps N < M (also N one below, on and above write intervals, strides and resets): walker "
        "states of steps 0..N bit by bit, the trajectory, strided free energy difference, walker distribution and statistics files of the short run as byte prefixes of those of the "
        "long one (up to the rows due after N), and every periodic histogram, surface and plot file up to step N byte by byte. Non-trivial: at least one file and two steps were compared.")
MUST_REACH = ["reach:trajectories", "reach:histogram", "reach:fes", "reach:delta-f", "reach:particle-distribution", "reach:stats", "reach:birth-death", "reach:mid-block",
              "reach:one-step-longer", "reach:reset"]


def make(r, i, tier):
    c = gen.make(r, still=0.03, bd=0.5, traj=0.9, histo=0.7, fes=0.8, df=0.8, pd=0.7, bd_events=r.random() < 0.6, walkers=6, plots=0.01, huge=0.002)
    m = int(c["cfg"]["ld"]["n_steps"])
    if m < 2:
        m = 2
        c["cfg"]["ld"]["n_steps"] = "2"
    z = r.random()
    if z < 0.2:
        n = m - 1
    elif z < 0.3:
        n = max(1, m // 2)
    else:
        n = r.randint(1, m - 1)
    c["short"] = n
    return c


def prefix(a, b, name):
    """a (short run) has to be the beginning of b (long run)"""
    if a == b[: len(a)]:
        return
    la, lb = a.split(b"\n"), b.split(b"\n")
    k = next((k for k, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
    raise Violation("file", f"'{name}' of the shorter run is no beginning of that of the longer one: line {k + 1} is {la[k:k + 1]} and {lb[k:k + 1]}")


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    long_ = harness.simulate(case)
    o.saw(long_, spec)
    completed(long_)
    sc = copy.deepcopy(case)
    n = case["short"]
    sc["cfg"]["ld"]["n_steps"] = str(n)
    sspec = Spec(sc["cfg"], sc["files"])
    short = harness.simulate(sc)
    o.saw(short, sspec)
    completed(short, "shorter run")
    sa, sb = short.probe.states(), long_.probe.states()
    if len(sa) != n + 1 or len(sb) != spec.n_steps + 1:
        raise Violation("steps", f"{len(sa) - 1} and {len(sb) - 1} steps instead of {n} and {spec.n_steps}")
    for k, (x, y) in enumerate(zip(sa, sb)):
        for f, what in (("pos", "positions"), ("mom", "momenta"), ("ene", "energies"), ("frc", "forces"), ("mass", "masses")):
            u, v = getattr(x, f), getattr(y, f)
            if u.shape != v.shape or not np.array_equal(u, v, equal_nan=True):
                raise Violation("course-" + f, f"{what} after step {k} differ between runs of {n} and {spec.n_steps} steps")
    cmp = 0

    def get(r, name):
        if name not in r.files:
            raise Violation("missing-file", f"'{name}' does not exist after a run of {n if r is short else spec.n_steps} steps")
        return r.files[name]

    series = list(spec.traj_files())
    if series:
        o.reach("trajectories")
    if spec.df and spec.df.filename and spec.df.stride:
        series.append(spec.df.filename)
        o.reach("delta-f")
    if spec.pd and spec.pd.filename and spec.pd.stride:
        series.append(spec.pd.filename)
        o.reach("particle-distribution")
    if spec.bd and spec.bd.stats_filename and spec.bd.stats_stride:
        series.append(spec.bd.stats_filename)
        o.reach("stats")
    for name in series:
        prefix(get(short, name), get(long_, name), name)
        cmp += 1
    once = []
    for s, what in ((spec.histo, "histogram"), (spec.fes, "fes")):
        if s and s.filename and s.write_stride:
            once += [f"{s.filename}_{k}" for k in range(s.write_stride, n + 1, s.write_stride)]
            o.reach(what)
    once += [p for p in sspec.plot_files() if p != spec.fes.plot_filename]
    for name in once:
        if get(short, name) != get(long_, name):
            raise Violation("periodic-file", f"'{name}' differs between runs of {n} and {spec.n_steps} steps")
        cmp += 1
    if spec.bd:
        o.reach("birth-death")
    if spec.histo and any(x <= spec.n_steps for x in spec.histo.reset):
        o.reach("reset")
    if spec.traj and n % spec.traj.write_stride:
        o.reach("mid-block")
    if spec.n_steps == n + 1:
        o.reach("one-step-longer")
    o.nontrivial = cmp > 0 and n >= 2


def shrinks(case):
    for c in default_shrinks(case):
        n = int(c["cfg"]["ld"]["n_steps"])
        if c["short"] < n:
            yield c
        elif n > 1:
            c["short"] = n - 1
            yield c
