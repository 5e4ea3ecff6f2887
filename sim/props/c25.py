"""C25 Walkers can be added, replaced and removed between steps."""
import math

import numpy as np

from .. import gen, harness, model
from ..engine import Violation, completed, default_shrinks
from ..outputs import table, text
from ..spec import Spec

RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("Real runs of main() without per-walker files in which the simulator calls add_particle (at the end, in between, in place of another walker; lists, arrays, whole numbers, "
        "arrays the caller changes afterwards) and remove_particle of the dynamics between sampled steps, birth-death passes and walker counts in between, bent deviates. After every "
        "call: all other walkers unchanged and in order, the new one at rest at its position with its mass, energy and force; a position of the wrong dimension is refused with a "
        "ValueError and changes nothing. In every step: each walker follows the reference integrator with its own mass. Birth-death keeps the current number and only copies whole walkers; "
        "each row of the walker distribution counts the walkers present at its step. Non-trivial: at least one call and one step after it.")
MUST_REACH = ["reach:append", "reach:insert", "reach:replace", "reach:remove", "reach:wrong-dimension", "reach:birth-death-after", "reach:distribution-after", "reach:other-mass",
              "reach:bussi-parinello", "reach:overdamped", "reach:boundary"]
FIELDS = ("pos", "mom", "ene", "frc", "mass")


def make(r, i, tier):
    c = gen.make(r, dims=(4, 3, 1), bd=0.5, bd_events=r.random() < 0.7, traj=0, histo=0, fes=0, df=0, pd=0.8, cap=30, long=0.03, walkers=6, od=0.4, corr=0.1, huge=0.001,
                 files_always=True, mild=True)
    c["cfg"].pop("trajectories", None)
    spec = Spec(c["cfg"], c["files"])
    n, k = spec.n_steps, spec.n
    ops = []
    for s in sorted(r.randint(1, n) for _ in range(r.choice([1, 1, 2, 3, 5, 8]))):
        what = r.choice(["append", "append", "insert", "replace", "replace", "remove", "wrong"])
        if what == "remove" and k < 2:
            what = "append"
        pos = [round(r.uniform(a, b), 3) for a, b in spec.ranges]
        kind = r.choice(["list", "array", "array", "ints", "f32"])
        if kind == "ints":
            pos = [int(math.ceil(a)) if math.ceil(a) <= b else round(r.uniform(a, b), 3) for a, b in spec.ranges]
        if kind == "f32":
            pos = [float(np.float32(x)) for x in pos]
        mass = r.choice([None, 1.0, spec.mass, 0.5, 2.0, 10.0, 3])
        at = {"append": -1, "insert": r.randint(0, k), "replace": r.choice([-1, r.randint(0, k - 1)]), "remove": r.randint(0, k - 1), "wrong": r.choice([-1, r.randint(0, k - 1)])}[what]
        if what == "wrong":
            pos = pos + [0.0] if r.random() < 0.5 or len(pos) == 1 else pos[:-1]
        ops.append({"step": s, "what": what, "at": at, "pos": pos, "kind": kind, "mass": mass, "kw": r.random() < 0.5, "overwrite": what == "replace" or (what == "wrong" and r.random() < 0.5)})
        k += {"append": 1, "insert": 1, "remove": -1}.get(what, 0)
    c["ops"] = ops
    return c


def same(a, i, b, j):
    return all(np.array_equal(getattr(a, f)[i], getattr(b, f)[j], equal_nan=True) for f in FIELDS)


class Driver:
    def __init__(self, case, spec, o):
        self.case, self.spec, self.o = case, spec, o
        self.bad = []
        self.before = {}  # step -> state at its entry before the calls (the end of step - 1)
        self.done = 0

    def fail(self, kind, msg):
        self.bad.append(Violation(kind, msg))

    def __call__(self, main, step):
        ld = harness.probe_holder[0].ld
        self.before[step] = harness.Snap(ld.particles)
        for op in self.case["ops"]:
            if op["step"] == step and not self.bad:
                self.call(ld, op)

    def call(self, ld, op):
        a = harness.Snap(ld.particles)
        pos = list(op["pos"])
        if op["kind"] != "list" and op["kind"] != "ints":
            pos = np.array(pos, dtype=np.float32 if op["kind"] == "f32" else float)
        what, at = op["what"], op["at"]
        where = f"before step {op['step']}: {what} (index {at}, position {op['pos']}, mass {op['mass']})"
        try:
            if what == "remove":
                ld.remove_particle(at)
            else:
                kw = {}
                if op["mass"] is not None:
                    kw["mass"] = op["mass"]
                if at != -1:
                    kw["partnum"] = at
                if op["overwrite"]:
                    kw["overwrite"] = True
                if op["kw"] or op["mass"] is None:
                    ld.add_particle(pos, **kw)
                else:
                    ld.add_particle(pos, op["mass"], at, op["overwrite"])
        except ValueError as e:
            if what != "wrong":
                return self.fail("refused", f"{where}: {e!r}")
        except Exception as e:
            return self.fail("call", f"{where}: {type(e).__name__}: {e}")
        else:
            if what == "wrong":
                return self.fail("accepted", f"{where}: a position of the wrong dimension is accepted")
        if isinstance(pos, np.ndarray):
            pos += 7.5  # the array belongs to the caller
        elif len(pos):
            pos[0] = 99
        b = harness.Snap(ld.particles)
        new = None
        if what == "wrong":
            keep = [(j, j) for j in range(a.n)]
            want = a.n
            self.o.reach("wrong-dimension")
        elif what == "remove":
            keep = [(j, j if j < at else j - 1) for j in range(a.n) if j != at]
            want = a.n - 1
        elif what == "replace":
            new = at if at >= 0 else a.n - 1
            keep = [(j, j) for j in range(a.n) if j != new]
            want = a.n
        else:
            new = a.n if at == -1 else at
            keep = [(j, j if j < new else j + 1) for j in range(a.n)]
            want = a.n + 1
        if b.n != want:
            return self.fail("number", f"{where}: {b.n} walkers instead of {want}")
        for i, j in keep:
            if not same(a, i, b, j):
                return self.fail("others", f"{where}: walker {i} does not stay as it was (now walker {j})")
        if new is not None:
            x = [float(v) for v in op["pos"]]
            if not np.array_equal(b.pos[new], x):
                return self.fail("position", f"{where}: the new walker is at {b.pos[new].tolist()}")
            if np.any(b.mom[new] != 0) or b.mom[new].shape != (len(x),):
                return self.fail("momentum", f"{where}: the new walker has momentum {b.mom[new].tolist()}")
            m = 1.0 if op["mass"] is None else float(op["mass"])
            if b.mass[new] != m:
                return self.fail("mass", f"{where}: the new walker has mass {b.mass[new]}")
            e, f, mag = model.potential(self.spec, x)
            tol = 1e-10 * (1 + mag)
            if not abs(b.ene[new] - e) <= tol or not all(abs(b.frc[new][d] - f[d]) <= tol for d in range(len(x))):
                return self.fail("energy", f"{where}: energy {b.ene[new]} and force {b.frc[new].tolist()} instead of {e} and {f}")
            if m != self.spec.mass:
                self.o.reach("other-mass")
        self.o.reach(what)
        self.done += 1


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    d = Driver(case, spec, o)
    r = harness.simulate(case, on_enter=d)
    o.saw(r, spec)
    if d.bad:
        raise d.bad[0]
    completed(r)
    P = r.probe
    if r.steps != spec.n_steps:
        raise Violation("steps", f"{r.steps} dynamics steps instead of {spec.n_steps}")
    ends = [d.before[k] for k in range(1, spec.n_steps + 1)] + [P.states()[-1]]  # ends[k]: end of step k
    D = spec.ndim
    m = D * (2 if spec.ld_type != "overdamped" else 1)
    first = min(op["step"] for op in case["ops"])
    for k in range(1, spec.n_steps + 1):
        pre, post, z, end = P.pre[k - 1], P.post[k - 1], P.normals[k - 1], ends[k]
        if post.n != pre.n:
            raise Violation("step-number", f"step {k}: {post.n} walkers after the step, {pre.n} before")
        if len(z) != m * pre.n:
            raise Violation("noise", f"step {k}: {len(z)} normal deviates drawn for {pre.n} walkers, the integrator needs {m} each")
        for i in range(pre.n):
            if post.mass[i] != pre.mass[i]:
                raise Violation("step-mass", f"step {k}, walker {i}: the mass changes from {pre.mass[i]} to {post.mass[i]}")
            x, p = [float(v) for v in pre.pos[i]], [float(v) for v in pre.mom[i]]
            if not all(math.isfinite(v) and abs(v) < 1e30 for v in x + p):
                continue
            s = model.step_walker(spec, x, p, float(pre.mass[i]), z[m * i: m * i + m])
            if not s.ok or s.amb:
                continue
            for q in range(D):
                if not abs(post.pos[i, q] - s.x[q]) <= s.tolx or not abs(post.mom[i, q] - s.p[q]) <= s.tolp:
                    raise Violation("integrator", f"step {k}, walker {i} (mass {pre.mass[i]}): position and momentum {post.pos[i].tolist()}, {post.mom[i].tolist()}, "
                                                  f"the integrator gives {s.x}, {s.p}")
        if end.n != post.n:
            raise Violation("birth-death-number", f"step {k}: {end.n} walkers at its end, {post.n} after the dynamics")
        for i in range(end.n):
            if not any(same(post, j, end, i) for j in [i] + list(range(post.n))):
                raise Violation("birth-death-copy", f"step {k}: walker {i} at its end is no copy of a walker after the dynamics")
        if not (spec.bd and k % spec.bd.stride == 0):
            if not all(same(post, i, end, i) for i in range(end.n)):
                raise Violation("changed", f"step {k}: walkers change although no birth-death pass is due")
        elif k > first and not all(same(post, i, end, i) for i in range(end.n)):
            o.reach("birth-death-after")
    if spec.pd:
        steps = list(range(spec.pd.stride, spec.n_steps + 1, spec.pd.stride)) if spec.pd.stride else [spec.n_steps]
        _, rows = table(text(r, spec.pd.filename), spec.pd.filename, len(spec.pd.states) + 1)
        if len(rows) != len(steps):
            raise Violation("distribution", f"{len(rows)} rows of the walker distribution instead of {len(steps)}")
        for k, row in zip(steps, rows):
            for j, box in enumerate(spec.pd.states):
                lo = hi = 0
                for x in ends[k].pos:
                    t = [1e-12 * (1 + abs(a) + abs(b)) for a, b in box]
                    lo += all(a + e < v < b - e for v, (a, b), e in zip(x, box, t))
                    hi += all(a - e <= v <= b + e for v, (a, b), e in zip(x, box, t))
                if not lo - 1e-9 <= row[j + 1] <= hi + 1e-9:
                    raise Violation("distribution", f"walker distribution at step {k}, state {j}: {row[j + 1]} instead of {lo} of {ends[k].n} walkers")
            if k >= first:
                o.reach("distribution-after")
    o.reach(spec.ld_type)
    if spec.bc:
        o.reach("boundary")
    o.nontrivial = d.done > 0


def valid(case):
    spec = Spec(case["cfg"], case["files"])
    if not case["ops"] or (spec.pd and not spec.pd.filename):
        return False
    k = spec.n
    for op in case["ops"]:
        what = op["what"]
        if op["step"] > spec.n_steps or op["at"] > k - (what != "insert") or (what == "remove" and k < 2):
            return False
        k += {"append": 1, "insert": 1, "remove": -1}.get(what, 0)
    return True


def shrinks(case):
    return (c for c in default_shrinks(case) if valid(c))
