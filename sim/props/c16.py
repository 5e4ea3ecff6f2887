"""C16 Initial walkers follow the requested distribution."""
import math

import numpy as np

from .. import gen, harness
from ..engine import Violation, completed
from ..spec import Spec

RUNS = {"quick": 5000, "thorough": 60000}
RULE = ("Random potentials (1-3 dimensions), walker numbers (1 to a few hundred), masses, listed positions (up to 12) and fractions, with and without seeds, with bent draws (exact "
        "ends of the unit interval, first and last index). The walkers are spied at the entry of the first step. Uniformity is judged for batches of at least 150 walkers "
        "at a significance below 1e-9. Non-trivial: more than one walker.")
MUST_REACH = ["reach:random-global", "reach:random-pos", "reach:fractions-pos", "reach:uniformity", "reach:all-eligible", "reach:remainder", "reach:many-positions"]
ASSUMPTIONS = ["uniformity and independence of global placement: statistical tests with a threshold below 1e-9 per test"]


def make(r, i, tier):
    c = gen.make(r, bd=0.1, traj=0.2, histo=0.05, pd=0.05, long=0.0, cap=4, seeded=0.7, extreme=0.35, dims=(4, 3, 2))
    spec = Spec(c["cfg"], c["files"])
    c["cfg"]["ld"]["n_steps"] = str(r.choice([1, 1, 2]))
    q = c["cfg"]["particles"]
    q["number"] = str(r.choice([1, 2, 3, 7, 10, 33, 100, 150, 200, 300]))
    for k in [k for k in q if k.startswith("pos") or k == "fractions"]:
        del q[k]
    how = q["initial-distribution"] = r.choice(["random-global", "random-global", "random-pos", "fractions-pos"])
    c["cfg"].pop("birth-death", None) if int(q["number"]) > 50 else None
    if how != "random-global":
        m = r.choice([1, 2, 3, 4, 5, 9, 10, 12])
        for j in range(1, m + 1):
            q[f"pos{j}"] = ", ".join(gen.num(round(r.uniform(a, b), 3)) for a, b in spec.ranges)
        if how == "fractions-pos":
            z = r.random()
            if z < 0.3:  # absolute numbers that match exactly
                w = [r.randint(0, 9) for _ in range(m)]
                w[0] += 1
                q["number"] = str(sum(w))
                q["fractions"] = ",".join(str(x) for x in w)
            else:
                q["fractions"] = ",".join(gen.num(r.choice([0.1, 0.2, 0.25, 0.5, 1, 2, 3, 7, 1 / 3, round(r.uniform(0.01, 5), 3)])) for _ in range(m))
    return c


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    r = harness.simulate(case)
    o.saw(r, spec)
    completed(r)
    s = r.probe.pre[0]
    n = spec.n
    if s.n != n:
        raise Violation("number", f"{s.n} walkers instead of {n}")
    if s.pos.shape != (n, spec.ndim):
        raise Violation("dimension", f"walker positions have shape {s.pos.shape}")
    if np.any(s.mass != spec.mass):
        raise Violation("mass", f"masses {sorted(set(s.mass.tolist()))[:3]} instead of {spec.mass}")
    if np.any(s.mom != 0):
        raise Violation("momentum", "walkers do not start at rest")
    o.reach(spec.init)
    o.nontrivial = n > 1
    bent = bool((case["plan"].get("rng") or {}).get("p"))
    if spec.init == "random-global":
        for d, (a, b) in enumerate(spec.ranges):
            x = s.pos[:, d]
            if np.any(~(x >= a)) or np.any(~(x <= b)):
                raise Violation("outside", f"initial coordinate {d + 1} outside of the potential range [{a}, {b}]: {x[(x < a) | (x > b)][:3].tolist()}")
        if not bent and n > 1:
            u = np.array([(s.pos[:, d] - a) / (b - a) for d, (a, b) in enumerate(spec.ranges)])
            flat = u.reshape(-1)
            if len(set(flat.tolist())) < 0.99 * flat.size:
                raise Violation("dependent", "several initial coordinates are the same number: not independent draws")
            if n >= 150:
                uniformity(u)
                o.reach("uniformity")
    elif spec.init == "random-pos":
        want = {tuple(p) for p in spec.pos}
        got = [tuple(x) for x in s.pos.tolist()]
        for g in got:
            if g not in want:
                raise Violation("position", f"a walker starts at {g}, which is none of the listed positions")
        m = len(want)
        # every listed position is eligible: not seeing one of them has probability < 1e-9
        if not bent and m * (1 - 1 / len(spec.pos)) ** n < 1e-9:
            if set(got) != want:
                raise Violation("not-eligible", f"{len(want) - len(set(got))} of {m} listed positions are never used for {n} walkers")
            o.reach("all-eligible")
        if len(spec.pos) >= 9:
            o.reach("many-positions")
    else:
        tot = math.fsum(spec.fractions)
        share = [f / tot * n for f in spec.fractions]
        lo = [math.floor(x - 1e-9) for x in share]
        hi = [math.floor(x + 1e-9) for x in share]
        where = {}
        for j, p in enumerate(spec.pos):
            where.setdefault(tuple(p), []).append(j)
        cnt = {}
        for g in (tuple(x) for x in s.pos.tolist()):
            if g not in where:
                raise Violation("position", f"a walker starts at {g}, which is none of the listed positions")
            cnt[g] = cnt.get(g, 0) + 1
        first = tuple(spec.pos[0])
        for p, js in where.items():
            a, b = sum(lo[j] for j in js), sum(hi[j] for j in js)
            if p != first and not a <= cnt.get(p, 0) <= b:
                raise Violation("share", f"{cnt.get(p, 0)} walkers at {list(p)}, its share of {n} is {sum(share[j] for j in js):.6g}")
        if sum(hi) < n:
            o.reach("remainder")


def uniformity(u):
    """Very conservative tests of uniform, independent coordinates (each below 1e-9)."""
    D, n = u.shape
    lim = 3.4 / math.sqrt(n)  # Kolmogorov-Smirnov: 2 exp(-2 * 3.4**2) = 2e-10
    for d in range(D):
        x = np.sort(u[d])
        i = np.arange(1, n + 1)
        dn = max(np.max(i / n - x), np.max(x - (i - 1) / n))
        if dn > lim:
            raise Violation("not-uniform", f"initial coordinate {d + 1} of {n} walkers is not uniform in the potential range (KS distance {dn:.3f}, limit {lim:.3f})")
        # neighbouring walkers and dimensions: correlation coefficient ~ N(0, 1/n)
        c = np.corrcoef(u[d][:-1], u[d][1:])[0, 1]
        if abs(c) > 6.5 / math.sqrt(n - 1):
            raise Violation("dependent", f"initial coordinate {d + 1} of consecutive walkers is correlated ({c:.2f})")
        for e in range(d):
            c = np.corrcoef(u[d], u[e])[0, 1]
            if abs(c) > 6.5 / math.sqrt(n):
                raise Violation("dependent", f"initial coordinates {e + 1} and {d + 1} are correlated ({c:.2f})")
