"""C06 Every step follows the documented integrator for its noise."""
import math

from .. import gen, harness, model
from ..engine import Violation, completed
from ..spec import Spec

RUNS = {"quick": 6000, "thorough": 100000}
RULE = ("Random inputs (both integrators, polynomial potentials in 1-3 dimensions and Mueller-Brown with scalings, masses, frictions, birth-death "
        "copies in between, bent normal deviates); every step of every walker is predicted by an independent scalar implementation from the walker's "
        "state before the step and the deviates drawn in that step, and the prediction is re-synchronised at every step. "
        "Non-trivial: at least 10 walker steps were compared, with noise.")
MUST_REACH = ["reach:bussi-parinello", "reach:overdamped", "reach:mueller-brown", "reach:after-birth-death", "reach:dim3", "reach:boundary-hit"]


def make(r, i, tier):
    c = gen.make(r, dims=(4, 3, 1.5), mb=0.2, bd=0.45, bd_events=r.random() < 0.7, traj=0.15, histo=0.05, fes=0, df=0, pd=0.1, cap=40, long=0.03,
                 walkers=8, extreme=0.5, od=0.4, corr=0.1)
    if r.random() < 0.03:
        c["cfg"]["ld"]["timestep"] = "0"
    return c


def predict(spec, r, o, judge):
    """Run judge(step, walker, prediction, pre, post) over the whole history of result r."""
    P = r.probe
    D = spec.ndim
    m = D * (2 if spec.ld_type != "overdamped" else 1)
    n_cmp = 0
    for k in range(len(P.post)):
        pre, post, z = P.pre[k], P.post[k], P.normals[k]
        if pre.n != spec.n or post.n != spec.n:
            raise Violation("number", f"step {k + 1}: {post.n} walkers instead of {spec.n}")
        if len(z) != m * spec.n:
            raise Violation("noise", f"step {k + 1}: {len(z)} normal deviates drawn for {spec.n} walkers, the integrator needs {m} each")
        for i in range(spec.n):
            x, p = [float(v) for v in pre.pos[i]], [float(v) for v in pre.mom[i]]
            if not all(math.isfinite(v) and abs(v) < 1e30 for v in x + p):
                o.reach("diverged-skipped")
                continue
            s = model.step_walker(spec, x, p, spec.mass, z[m * i : m * i + m])
            if not s.ok:
                o.reach("diverged-skipped")
                continue
            judge(k + 1, i, s, pre, post)
            n_cmp += 1
    return n_cmp


def near(a, b, tol):
    return abs(a - b) <= tol


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    r = harness.simulate(case)
    o.saw(r, spec)
    completed(r)
    if r.steps != spec.n_steps:
        raise Violation("steps", f"{r.steps} dynamics steps instead of {spec.n_steps}")
    D = spec.ndim

    def judge(k, i, s, pre, post):
        if s.amb:
            o.reach("undecided-boundary")
            return
        if s.x != s.free:
            o.reach("boundary-hit")
        for d in range(D):
            if not near(post.pos[i, d], s.x[d], s.tolx):
                raise Violation("position", f"step {k}, walker {i}, direction {d}: position {post.pos[i, d]!r}, the integrator gives {s.x[d]!r} "
                                            f"(before: {pre.pos[i].tolist()}, momentum {pre.mom[i].tolist()})")
            if not near(post.mom[i, d], s.p[d], s.tolp):
                raise Violation("momentum", f"step {k}, walker {i}, direction {d}: momentum {post.mom[i, d]!r}, the integrator gives {s.p[d]!r} "
                                            f"(before: {pre.pos[i].tolist()}, momentum {pre.mom[i].tolist()})")
        e, f, mag = model.potential(spec, [float(v) for v in post.pos[i]])
        if math.isfinite(mag) and mag < 1e60:
            tol = 1e-10 * (1 + mag)
            if not near(post.ene[i], e, tol):
                raise Violation("energy", f"step {k}, walker {i}: energy {post.ene[i]!r} stored for position {post.pos[i].tolist()}, it is {e!r}")
            for d in range(D):
                if not near(post.frc[i, d], f[d], tol):
                    raise Violation("force", f"step {k}, walker {i}: force {post.frc[i].tolist()} stored for position {post.pos[i].tolist()}, it is {f}")
        if not near(post.mass[i], spec.mass, 1e-12 * spec.mass):
            raise Violation("mass", f"step {k}, walker {i}: mass {post.mass[i]!r} instead of {spec.mass!r}")

    n = predict(spec, r, o, judge)
    o.reach(spec.ld_type)
    o.reach(f"dim{D}")
    if spec.pot_type != "polynomial":
        o.reach("mueller-brown")
    if spec.bd and any((a.pos != b.pos).any() for a, b in zip(r.probe.post, r.probe.pre[1:])):
        o.reach("after-birth-death")
    o.stats["reach:walker-steps-compared"] += n
    o.nontrivial = n >= 10
