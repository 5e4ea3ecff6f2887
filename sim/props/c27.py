"""C27 Birth-death acts only through its events."""
import copy

import numpy as np

from .. import gen, harness
from ..engine import Violation, completed, default_shrinks
from ..spec import Spec

RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("Seeded inputs run in the same simulated world with and without the birth-death part (bent random numbers included): initial walkers and the random numbers of all dynamics steps, position, "
        "momentum, energy and force after every step of every walker that no event has replaced so far bit by bit, all output files byte by byte up to the step of the first event (whole files if there "
        "was none); with one seed for all parts the generators behind the decisions and behind the noise start from different states. Non-trivial: at least one event and one walker compared after it, or no event and a file compared.")
MUST_REACH = ["reach:event", "reach:unaffected-after-event", "reach:all-replaced", "reach:no-event", "reach:no-event-files", "reach:pass-without-event", "reach:shared-seed", "reach:bulk", "reach:recalculate",
              "reach:additive", "reach:multiplicative", "reach:overdamped", "reach:momenta", "reach:periodic-before-event"]
FIELDS = (("pos", "position"), ("mom", "momentum"), ("ene", "energy"), ("frc", "force"), ("mass", "mass"))


def make(r, i, tier):
    c = gen.make(r, bd=1.0, traj=0.7, histo=0.5, fes=0.6, df=0.5, pd=0.5, bd_events=r.random() < 0.7, walkers=8, min_walkers=2, corr=0.4, mom=0.5, default_sec=0.3, huge=0.003)
    s = c["cfg"]["birth-death"]
    z = r.random()
    if z < 0.2:
        s["exponential-factor"] = gen.num(r.choice([1e-12, 1e-3, 0.1, 1e-12]))
    elif z < 0.45:  # the first events late in the run
        s["stride"] = str(max(1, int(c["cfg"]["ld"]["n_steps"]) * 2 // 3))
    if z < 0.2 and "rng" in c["plan"] and r.random() < 0.7:
        del c["plan"]["rng"]
    return c


def changed(a, b):
    """Which walkers differ between two states (a walker at the same place may be told apart by the sign of a zero)."""
    out = np.zeros(a.n, dtype=bool)
    for f, _ in FIELDS:
        u, v = getattr(a, f).reshape(a.n, -1), getattr(b, f).reshape(b.n, -1)
        out |= ~(((u == v) & (np.signbit(u) == np.signbit(v))) | (np.isnan(u) & np.isnan(v))).all(axis=1)
    return out


def row(s, i):
    return b"|".join(np.ascontiguousarray(getattr(s, f)[i]).tobytes() for f, _ in FIELDS)


def compare(a, b, free, when):
    if a.n != b.n:
        raise Violation("number", f"{a.n} walkers with and {b.n} without birth-death {when}")
    for f, what in FIELDS:
        u, v = getattr(a, f).reshape(a.n, -1), getattr(b, f).reshape(b.n, -1)
        bad = ~((u == v) | (np.isnan(u) & np.isnan(v))).all(axis=1) & free
        if bad.any():
            i = int(np.argmax(bad))
            raise Violation("course-" + f, f"{what} of walker {i}, which no event has replaced so far, is {u[i]} with and {v[i]} without birth-death {when}")


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    a = harness.simulate(case, want_gens=True)
    o.saw(a, spec)
    completed(a)
    plain = copy.deepcopy(case)
    del plain["cfg"]["birth-death"]
    b = harness.simulate(plain)
    o.saw(b, Spec(plain["cfg"], plain["files"]))
    completed(b, "run without birth-death")
    sa, sb, n = a.probe.states(), b.probe.states(), spec.n_steps
    if len(sa) != n + 1 or len(sb) != n + 1:
        raise Violation("steps", f"{len(sa) - 1} steps with and {len(sb) - 1} without birth-death instead of {n}")
    free = np.ones(sa[0].n, dtype=bool)
    compare(sa[0], sb[0], free, "before the first step")
    first, lived = None, False
    for k in range(1, n + 1):
        na, nb = a.probe.normals[k - 1], b.probe.normals[k - 1]
        if na != nb:
            raise Violation("noise", f"the random numbers of step {k} are {na[:3]}... with and {nb[:3]}... without birth-death")
        compare(a.probe.post[k - 1], b.probe.post[k - 1], free, f"after step {k}, before its birth-death pass")
        other = changed(a.probe.post[k - 1], sa[k])
        whole = {row(a.probe.post[k - 1], i) for i in range(sa[k].n)} if other.any() else ()
        for i in np.nonzero(other)[0]:
            if row(sa[k], i) not in whole:
                raise Violation("no-event", f"the birth-death pass of step {k} changed walker {i} without making it the copy of another one")
        free = free & ~other
        compare(sa[k], sb[k], free, f"after step {k}")
        if first is None and not free.all():
            first = k
        lived = lived or (first is not None and k > first and free.any())
    noise = {g._ident for g in a.world.generators if g._noise}
    used = {a.world.generators[i]._ident for step in a.probe.used for i in step}
    d, secs = case["cfg"].get("DEFAULT", {}), ("ld", "birth-death")
    seeds = [case["cfg"][s].get("seed", d.get("seed")) for s in secs]
    if seeds[0] is not None and int(seeds[0]) == int(seeds[1]) and used:
        o.reach("shared-seed")
        if used & noise:
            raise Violation("same-sequence", f"with the seed {seeds[0]} in both sections birth-death decides with the random sequence that moves the walkers")
    # ---- files
    cmp = 0
    skip = set(a.before) | set(b.before) | ({spec.bd.stats_filename} if spec.bd.stats_filename else set())
    fa, fb = {k: v for k, v in a.files.items() if k not in skip}, {k: v for k, v in b.files.items() if k not in skip}
    if set(fa) != set(fb):
        raise Violation("files", f"files {sorted(set(fa) ^ set(fb))} exist only in one of the runs with and without birth-death")
    if first is None:
        for x in sorted(fa):
            if fa[x] != fb[x]:
                raise Violation("file", f"'{x}' differs between runs with and without birth-death although no event happened")
            cmp += 1
        o.reach("no-event")
        if cmp:
            o.reach("no-event-files")
        if spec.bd.stride <= n:
            o.reach("pass-without-event")
    else:
        for s in (spec.histo, spec.fes):
            if s and s.filename and s.write_stride:
                for k in range(s.write_stride, first, s.write_stride):
                    if fa[f"{s.filename}_{k}"] != fb[f"{s.filename}_{k}"]:
                        raise Violation("periodic-file", f"'{s.filename}_{k}' differs between runs with and without birth-death although the first event was in step {first}")
                    o.reach("periodic-before-event")
        o.reach("event")
        if lived:
            o.reach("unaffected-after-event")
        if not free.any():
            o.reach("all-replaced")
        o.reach("recalculate" if spec.bd.recalc else "bulk")
        o.reach(spec.bd.variant)
        o.reach("overdamped" if spec.ld_type == "overdamped" else "momenta")
    o.nontrivial = lived if first is not None else cmp > 0


def shrinks(case):
    for c in default_shrinks(case):
        if "birth-death" in c["cfg"]:
            yield c
