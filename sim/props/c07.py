"""C07 Boundary conditions confine walkers for every noise history."""
import math

from .. import gen, harness, model
from ..engine import Violation, completed
from ..spec import Spec
from .c06 import near, predict

RUNS = {"quick": 6000, "thorough": 110000}
RULE = ("Random inputs with reflective or periodic boundaries (narrow and wide ranges, 1-3 dimensions, both integrators), large bent deviates (kicks of "
        "many range lengths), walkers starting outside the range, birth-death in between. Checked at the end of every step: inside the range; "
        "position and momentum according to the stated rule for the free move predicted from the drawn deviates. "
        "Non-trivial: at least one free move left the range.")
MUST_REACH = ["reach:reflected", "reach:wrapped", "reach:wrapped-many-periods", "reach:both-directions", "reach:start-outside", "reach:inside-untouched"]


def make(r, i, tier):
    c = gen.make(r, dims=(4, 4, 2), mb=0.1, bd=0.25, bd_events=True, traj=0.1, histo=0, pd=0.1, cap=40, long=0.03, walkers=6, extreme=0.75,
                 bc=["reflective", "periodic"], hot=0.7)
    q = c["cfg"]["particles"]
    if r.random() < 0.15 and q["initial-distribution"] != "random-global":
        sp = Spec(c["cfg"], c["files"])
        q["pos1"] = ",".join(gen.num(b + r.choice([0.1, 0.7, 0.0])) for _, b in sp.ranges)
    return c


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    r = harness.simulate(case)
    o.saw(r, spec)
    completed(r)
    D = spec.ndim
    out = 0
    for k in range(len(r.probe.post)):
        pos = r.probe.post[k].pos
        for i in range(len(pos)):
            for d, (lo, hi) in enumerate(spec.ranges):
                eps = 1e-12 * (abs(lo) + abs(hi) + hi - lo)
                if not lo - eps <= pos[i, d] <= hi + eps:
                    raise Violation("outside", f"step {k + 1}, walker {i}: coordinate {d} is {pos[i, d]!r}, outside [{lo}, {hi}] ({spec.bc})")
    # after birth-death the walkers are still inside as well
    for k, st in enumerate(r.probe.pre[1:]):
        for i in range(st.n):
            for d, (lo, hi) in enumerate(spec.ranges):
                eps = 1e-12 * (abs(lo) + abs(hi) + hi - lo)
                if not lo - eps <= st.pos[i, d] <= hi + eps:
                    raise Violation("outside", f"end of step {k + 1}, walker {i}: coordinate {d} is {st.pos[i, d]!r}, outside [{lo}, {hi}]")

    def judge(k, i, s, pre, post):
        nonlocal out
        crossed = [d for d, (lo, hi) in enumerate(spec.ranges) if s.free[d] < lo or s.free[d] > hi]
        if crossed:
            out += 1
            o.reach("reflected" if spec.bc == "reflective" else "wrapped")
            if len(crossed) > 1:
                o.reach("both-directions")
            if spec.bc == "periodic" and any(abs(s.free[d] - s.x[d]) > 1.5 * (spec.ranges[d][1] - spec.ranges[d][0]) for d in crossed):
                o.reach("wrapped-many-periods")
        else:
            o.reach("inside-untouched")
        if s.amb:
            o.reach("undecided-boundary")
            return
        for d in range(D):
            a, b = post.pos[i, d], s.x[d]
            if d in crossed and spec.bc == "reflective":
                ok = a == b  # put exactly on the boundary
            else:
                ok = near(a, b, s.tolx)
            if not ok:
                raise Violation("position", f"step {k}, walker {i}, direction {d}: free move to {s.free[d]!r} ended at {a!r} instead of {b!r} "
                                            f"({spec.bc}, range {spec.ranges[d]})")
            if not near(post.mom[i, d], s.p[d], s.tolp):
                raise Violation("momentum", f"step {k}, walker {i}, direction {d}: momentum {post.mom[i, d]!r} instead of {s.p[d]!r} after a free move to "
                                            f"{s.free!r} ({spec.bc}, ranges {spec.ranges})")
        e, f, mag = model.potential(spec, [float(v) for v in post.pos[i]])
        for d in range(D):
            if not near(post.frc[i, d], f[d], 1e-10 * (1 + mag)):
                raise Violation("force", f"step {k}, walker {i}: force {post.frc[i].tolist()} does not belong to the corrected position {post.pos[i].tolist()}")

    predict(spec, r, o, judge)
    if any(not lo <= v <= hi for row in r.probe.pre[0].pos for v, (lo, hi) in zip(row, spec.ranges)):
        o.reach("start-outside")
    o.reach(f"dim{D}")
    o.nontrivial = out > 0
