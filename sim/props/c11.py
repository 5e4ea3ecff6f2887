"""C11 Output and analysis never alter the walkers."""
import copy

import numpy as np

from .. import gen, harness
from ..engine import Violation, completed
from ..spec import Spec

RUNS = {"quick": 3000, "thorough": 90000}
RULE = ("Seeded inputs with a random set of output and analysis parts at random strides (and extra manual writes) run next to the same input without any of "
        "them, both in the same simulated world; positions, momenta, energies, forces and masses of all walkers are compared bit by bit after every step. "
        "Non-trivial: at least two observers were active, at least two steps.")
MUST_REACH = ["reach:trajectories", "reach:histogram", "reach:fes", "reach:delta-f", "reach:particle-distribution", "reach:stats", "reach:manual-write",
              "reach:reset", "reach:boundary", "reach:plot"]
OBS = ["trajectories", "histogram", "fes", "delta-f", "particle-distribution"]


def make(r, i, tier):
    c = gen.make(r, bd=0.5, traj=0.9, histo=0.7, fes=0.8, df=0.8, pd=0.7, bd_events=r.random() < 0.6, walkers=7, plots=0.03)
    n = int(c["cfg"]["ld"]["n_steps"])
    if r.random() < 0.3 and n > 1:
        c["manual"] = sorted([r.randint(1, n - 1), r.choice(["TrajectoryAction", "DeltaFAction", "ParticleDistributionAction"])] for _ in range(r.randint(1, 3)))
    return c


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    a = harness.simulate(case)
    o.saw(a, spec)
    completed(a)
    bare = copy.deepcopy(case)
    bare.pop("manual", None)
    n = 0
    for s in OBS:
        if bare["cfg"].pop(s, None) is not None:
            o.reach(s)
            n += 1
    for s in ("stats-stride", "stats-filename"):
        if bare["cfg"].get("birth-death", {}).pop(s, None) is not None:
            o.reach("stats")
            n += 1
    b = harness.simulate(bare)
    o.saw(b, spec)
    completed(b, "run without outputs")
    sa, sb = a.probe.states(), b.probe.states()
    if len(sa) != len(sb):
        raise Violation("steps", f"{len(sa) - 1} steps with outputs, {len(sb) - 1} without")
    for k, (x, y) in enumerate(zip(sa, sb)):
        for f, what in (("pos", "positions"), ("mom", "momenta"), ("ene", "energies"), ("frc", "forces"), ("mass", "masses")):
            u, v = getattr(x, f), getattr(y, f)
            if u.shape != v.shape or not np.array_equal(u, v, equal_nan=True):
                raise Violation("altered-" + f, f"{what} after step {k} differ between the run with outputs ({', '.join(s for s in OBS if s in case['cfg'])}) "
                                                f"and the run without any")
    if a.probe.manual_done:
        o.reach("manual-write")
    if spec.histo and spec.histo.reset:
        o.reach("reset")
    if spec.bc:
        o.reach("boundary")
    if spec.plot_files():
        o.reach("plot")
    o.nontrivial = n >= 2 and spec.n_steps >= 2
