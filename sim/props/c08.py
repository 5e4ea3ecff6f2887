"""C08 Birth-death events conserve and copy walkers by the stated rule."""

import numpy as np

from .. import gen, harness, model
from ..engine import Violation, completed
from ..spec import Spec

RUNS = {"quick": 5000, "thorough": 90000}
RULE = ("Random inputs with birth-death (bulk and recalculating, original / additive / multiplicative, 1-3 dimensions, strides, rates, bandwidths, 1-12 "
        "walkers, coinciding walkers, slow density path forced in part of the cases), bent uniform deviates and partner choices (0, 1-2^-53, first/last "
        "partner). After every step the population is compared with an independent implementation of one pass fed with a clone of the generator as it "
        "was when the pass started; steps in which a decision is within rounding are only checked structurally. "
        "Non-trivial: at least one event happened and was predicted.")
MUST_REACH = ["reach:birth", "reach:death", "reach:recalc", "reach:bulk", "reach:additive", "reach:multiplicative", "reach:single-walker",
              "reach:chained-copy", "reach:slow-density", "reach:not-due-step", "reach:dim2-correction", "reach:narrow-kernel"]


def make(r, i, tier, two=True):
    c = gen.make(r, dims=(6, 2, 1), bd=1.0, bd_events=True, traj=0.1, histo=0.03, fes=0, df=0, pd=0.05, cap=25, long=0.02, walkers=12, extreme=0.6,
                 corr=0.3, hot=0.3)
    if r.random() < 0.25:
        c["slow_density"] = 1
    if r.random() < 0.1:
        c["cfg"]["birth-death"]["stride"] = str(r.choice([5, 7, 10]))
    if r.random() < 0.12 and c["cfg"]["potential"].get("n_dim") == "1":  # wide range: Boltzmann weights underflow
        c["cfg"]["potential"]["min"], c["cfg"]["potential"]["max"] = r.choice([("-6.0", "6.0"), ("-20.0", "15.0")])
        if r.random() < 0.5:
            c["cfg"]["birth-death"]["approximation-variant"] = r.choice(["additive", "multiplicative"])
    if r.random() < 0.06 and c["cfg"]["potential"].get("n_dim") == "1":  # kernels so narrow that the tabulated density needs more points
        lo, hi = float(c["cfg"]["potential"]["min"]), float(c["cfg"]["potential"]["max"])
        c["cfg"]["birth-death"]["kernel-bandwidth"] = gen.num((hi - lo) * r.choice([0.0005, 0.001, 0.002, 0.003, 0.0039]))
        if r.random() < 0.8:
            c["cfg"]["birth-death"].pop("approximation-variant", None)
            c["cfg"]["birth-death"]["correction-variant"] = r.choice(["additive", "multiplicative"])
    if two and i % 500 == 40 or (tier == "thorough" and r.random() < 0.002):  # two dimensions (rare: the tables of the program take seconds)
        while True:
            c = gen.make(r, dims=(0, 1, 0), mb=0.15, bd=1.0, bd_events=True, traj=0.0, histo=0, fes=0, df=0, pd=0, cap=8, long=0.0, walkers=5, min_walkers=3, extreme=0.2,
                         corr=0.0, hot=0.5, crowd=0)
            s = Spec(c["cfg"], c["files"])
            if s.bc or r.random() < 0.2:
                break
        c["cfg"]["birth-death"]["kernel-bandwidth"] = ",".join(gen.num(r.choice([0.01, 0.02, 0.05, 0.1]) * (b - a)) for a, b in s.ranges)
        c["cfg"]["birth-death"].pop("approximation-variant", None)
        c["cfg"]["birth-death"]["correction-variant"] = r.choice(["additive", "multiplicative"])
        c["cfg"]["birth-death"]["stride"] = "1"
        c["cfg"]["ld"]["n_steps"] = "5" if s.bd.recalc else "12"
    return c


def arrays(snap):
    return {"pos": snap.pos, "mom": snap.mom, "ene": snap.ene, "frc": snap.frc, "mass": snap.mass}


def same(a, b):
    return all(a[k].shape == b[k].shape and np.array_equal(a[k], b[k], equal_nan=True) for k in a)


def walk(spec, r, o, on_pass):
    """Go through the history; on_pass(step, before, after, generator or None)."""
    st = r.probe.states()
    if len(st) != spec.n_steps + 1 or len(r.probe.post) != spec.n_steps:
        raise Violation("steps", f"{len(r.probe.post)} dynamics steps instead of {spec.n_steps}")
    for k in range(1, spec.n_steps + 1):
        before, after = arrays(r.probe.post[k - 1]), arrays(st[k])
        if len(after["pos"]) != spec.n or len(before["pos"]) != spec.n:
            raise Violation("number", f"step {k}: {len(after['pos'])} walkers instead of {spec.n}")
        if k % spec.bd.stride:
            o.reach("not-due-step")
            if not same(before, after):
                raise Violation("not-due", f"step {k}: walkers changed although birth-death is only due every {spec.bd.stride} steps")
            continue
        used = r.probe.used[k - 1] if k - 1 < len(r.probe.used) else []
        g = r.probe.gens[k - 1][used[0]] if len(used) == 1 else None
        if not used and spec.n > 1:
            raise Violation("not-done", f"step {k}: birth-death was due (stride {spec.bd.stride}) but no pass was made")
        on_pass(k, before, after, g)


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    r = harness.simulate(case, want_gens=True)
    o.saw(r, spec)
    if r.status == "steplimit" and spec.ndim > 1 and spec.bd.variant != "original":
        o.reach("undecided-too-slow")  # no statement on the speed of the convolution
        return
    completed(r)
    corr = model.Correction(spec) if spec.bd.variant != "original" and spec.n > 1 else None
    happened = 0

    def on_pass(k, before, after, g):
        nonlocal happened
        # structure: everybody is an exact copy of somebody
        known = {tuple(before[q][j].tobytes() for q in before) for j in range(spec.n)}
        for i in range(spec.n):
            if tuple(after[q][i].tobytes() for q in before) not in known and not any(all(np.array_equal(after[q][i], before[q][j], equal_nan=True) for q in after) for j in range(spec.n)):
                raise Violation("partial-copy", f"step {k}: walker {i} is no complete copy of any walker before the pass: "
                                                f"position {after['pos'][i].tolist()}, momentum {after['mom'][i].tolist()}, energy {after['ene'][i]!r}")
        if spec.n == 1:
            o.reach("single-walker")
            return
        if g is None:
            o.reach("undecided-generator")
            return
        t = model.Tally()
        try:
            want, ev = model.bd_pass(spec, before, g, t, corr)
        except model.Unclear:
            o.reach("undecided-rounding")
            return
        if not same(want, after):
            i = next(i for i in range(spec.n) if not all(np.array_equal(after[q][i], want[q][i], equal_nan=True) for q in after))
            raise Violation("events", f"step {k}: walker {i} is at {after['pos'][i].tolist()}, the algorithm gives {want['pos'][i].tolist()} "
                                      f"(events source->target: {[(a, b, c) for a, b, c in ev]}, before: {before['pos'].tolist()})")
        happened += len(ev)
        for a, b, c in ev:
            o.reach(c)
        if len(ev) != len({b for _, b, _ in ev}):
            o.reach("target-twice")
        tg = set()
        for a, b, c in ev:
            if a in tg:
                o.reach("chained-copy")
            tg.add(b)
        o.reach("passes-predicted")
        if spec.ndim > 1 and spec.bd.variant != "original":
            o.reach("dim2-correction")
        if not ev:
            o.reach("quiet-pass")

    walk(spec, r, o, on_pass)
    if corr is not None and spec.bd.bw[0] * 250 < spec.ranges[0][1] - spec.ranges[0][0]:
        o.reach("narrow-kernel")
    if r.probe.alias:
        k, a, b, what = r.probe.alias
        raise Violation("alias", f"step {k}: walkers {a} and {b} share the same '{what}' array: a copy is not independent")
    o.reach("recalc" if spec.bd.recalc else "bulk")
    o.reach(spec.bd.variant)
    o.reach(f"dim{spec.ndim}")
    if case.get("slow_density"):
        o.reach("slow-density")
    o.nontrivial = happened > 0
