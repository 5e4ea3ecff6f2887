"""C10 Seeded runs are reproducible, unseeded runs are independent."""
import copy
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import gen, harness
from ..engine import VERIF, Violation, completed, default_shrinks
from ..spec import Spec

RUNS = {"quick": 2600, "thorough": 70000}
RULE = ("Fully seeded inputs run in two worlds that differ in OS entropy, clock, buffer sizes, short writes, pre-existing files, the state of numpy's and "
        "Python's global generators and other generator use between the steps; some second runs take place in an operating system process of its own "
        "with another hash seed. All data files have to be byte-identical. Inputs with the seed of one or all parts removed run in two worlds that "
        "differ only in entropy and have to give different walkers. Non-trivial: some data file was compared, or an independence verdict was reached.")
MUST_REACH = ["reach:pair-identical", "reach:seed-0", "reach:other-hash-seed", "reach:unseeded-ld", "reach:unseeded-particles", "reach:unseeded-bd",
              "reach:preexisting", "reach:with-birth-death"]
ASSUMPTIONS = ["independence is judged only where equal histories by chance have a probability below 1e-5"]


def make(r, i, tier):
    k = r.random()
    c = gen.make(r, bd=0.7, traj=0.9, histo=0.5, fes=0.6, df=0.5, pd=0.5, files_always=True, bd_events=True, min_walkers=2, walkers=8, long=0.05,
                 plots=0.01, exact=r.random() < 0.5)
    if k < 0.62:
        c["mode"] = "hash" if r.random() < (0.25 if c["cfg"]["particles"]["initial-distribution"] == "random-pos" else 0.06) else "pair"
        c["world2"] = r.randint(1, 10**9)
        if r.random() < 0.25:
            for s in c["cfg"].values():
                if "seed" in s:
                    s["seed"] = "0"
        return c
    c["mode"] = r.choice(["ld", "particles", "birth-death", "all"])
    d = c["cfg"].pop("DEFAULT", {})
    for s in ("ld", "particles", "birth-death"):
        if s in c["cfg"] and "seed" in d:
            c["cfg"][s]["seed"] = d["seed"]
    if "kt" in d:
        c["cfg"]["ld"].setdefault("kt", d["kt"])
        if "fes" in c["cfg"]:
            c["cfg"]["fes"].setdefault("kt", d["kt"])
    if c["mode"] == "birth-death":
        c["cfg"].setdefault("birth-death", {"stride": "1", "kernel-bandwidth": ",".join(["0.3"] * Spec(c["cfg"], c["files"]).ndim)})
        c["cfg"]["birth-death"].update({"stride": "1", "exponential-factor": "100.0"})
        c["cfg"]["particles"]["number"] = str(r.randint(5, 9))
        c["cfg"]["ld"]["n_steps"] = str(max(20, int(c["cfg"]["ld"]["n_steps"])))
        c["cfg"]["birth-death"].setdefault("seed", "3")
    if c["mode"] == "particles":
        q = c["cfg"]["particles"]
        if q["initial-distribution"] == "fractions-pos":
            q["initial-distribution"] = "random-global"
    parts = ["ld", "particles", "birth-death"] if c["mode"] == "all" else [c["mode"]]
    for s in parts:
        c["cfg"].get(s, {}).pop("seed", None)
    c["plan"].pop("rng", None)
    c["entropy2"] = r.randint(1, 10**9)
    return c


def shrinks(case):
    for c in default_shrinks(case, keep=("birth-death",) if case["mode"] == "birth-death" else ()):
        yield c


def second_world(case, spec):
    r = random.Random(case["world2"])
    plan = copy.deepcopy(case["plan"])
    plan["entropy"] = r.randint(1, 10**9)
    plan["bufsize"] = r.choice([1, 3, 50, 512, 4096, 8192, 65536])
    plan["short"] = r.choice([0.0, 0.3])
    plan["clock"] = [r.choice([0, 1.7e9, 4.2e9]), r.choice([0, 1000.0, -500.0])]
    extra = {}
    if r.random() < 0.5:
        for n in spec.data_files():
            if r.random() < 0.5:
                extra[n] = "old " + n + "\n" * r.randint(0, 3)
                if r.random() < 0.3:
                    extra["bck.0." + n] = "older\n"
    noise = r.random() < 0.7
    g = r.randint(0, 2**31)

    def prep(main):
        np.random.seed(g)
        random.seed(g)
        if case.get("slow_density"):
            harness.slow_density(main)

    def on_enter(main, step):
        if noise and step % 3 == 1:
            np.random.random(3)
            random.random()
            np.random.default_rng(step).random(2)
            np.random.default_rng().normal()

    return plan, extra, prep, on_enter


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    a = harness.simulate(case)
    o.saw(a, spec)
    completed(a)
    if case["mode"] in ("pair", "hash"):
        plan, extra, prep, on_enter = second_world(case, spec)
        if case["mode"] == "hash":
            env = dict(os.environ, PYTHONHASHSEED=str(case["world2"] % 4000000000))
            p = subprocess.run([sys.executable, "-m", "sim.child"], cwd=VERIF, input=json.dumps({"case": case, "plan": plan}),
                               capture_output=True, text=True, env=env)
            if p.returncode:
                raise RuntimeError("child failed: " + p.stderr[-500:])
            b = json.loads(p.stdout.splitlines()[-1])
            if b["status"] != "ok":
                raise Violation("incomplete:" + b["status"], f"second run did not complete: {b['status']} {b['exc']}")
            o.stats["processes"] += 1
            o.stats["steps"] += b["steps"]
            got = b["files"]
            o.reach("other-hash-seed")
        else:
            rb = harness.simulate(case, plan=plan, extra_files=extra, prep=prep, on_enter=on_enter)
            o.saw(rb, spec)
            completed(rb, "second run")
            got = {n: hashlib.sha256(rb.files[n]).hexdigest() for n in spec.data_files() if n in rb.files}
            if extra:
                o.reach("preexisting")
        for n in spec.data_files():
            if n not in a.files or n not in got:
                raise Violation("missing-file", f"output file '{n}' does not exist after the {'first' if n not in a.files else 'second'} run")
            if hashlib.sha256(a.files[n]).hexdigest() != got[n]:
                raise Violation("different-file", f"'{n}' differs between two runs of the same fully seeded input")
        if case["mode"] == "pair":
            sa, sb = a.probe.states(), rb.probe.states()
            for k, (x, y) in enumerate(zip(sa, sb)):
                if not (np.array_equal(x.pos, y.pos, equal_nan=True) and np.array_equal(x.mom, y.mom, equal_nan=True)):
                    raise Violation("different-walkers", f"walkers differ at step {k} between two runs of the same fully seeded input")
        o.reach("pair-identical")
        if spec.ld_seed == 0 or (spec.bd and spec.bd.seed == 0):
            o.reach("seed-0")
        if spec.bd:
            o.reach("with-birth-death")
        o.nontrivial = bool(spec.data_files())
        return
    plan = copy.deepcopy(case["plan"])
    plan["entropy"] = case["entropy2"]
    b = harness.simulate(case, plan=plan)
    o.saw(b, spec)
    completed(b, "second run")
    sa, sb = a.probe.states(), b.probe.states()
    m = case["mode"]
    if m in ("ld", "all"):
        scale = spec.dt > 0 and (spec.ld_type == "overdamped" or spec.friction > 0)
        if scale:
            p, q = a.probe.post[0], b.probe.post[0]
            drive = np.array_equal(sa[0].pos, sb[0].pos)
            same = (np.array_equal(p.mom, q.mom) and np.any(p.mom)) if spec.ld_type != "overdamped" else np.array_equal(p.pos, q.pos)
            if drive and same and not (spec.bc and spec.ld_type == "overdamped"):
                raise Violation("same-noise", "two runs without a seed for the dynamics, with different entropy, have the same noise in the first step")
            if all(np.array_equal(x.pos, y.pos, equal_nan=True) for x, y in zip(sa, sb)) and spec.n_steps >= 5 and np.all(np.isfinite(sa[-1].pos)):
                if not (spec.bc and np.array_equal(sa[-1].pos, sa[-2].pos)):
                    raise Violation("same-trajectory", "two runs without a seed for the dynamics, with different entropy, give the same trajectories")
            o.reach("unseeded-ld")
            o.nontrivial = True
    if m in ("particles", "all"):
        if spec.init == "random-global":
            if np.array_equal(sa[0].pos, sb[0].pos):
                raise Violation("same-start", "two runs without a seed for the particles, with different entropy, start at the same random positions")
            if np.any(sa[0].pos == sb[0].pos):
                raise Violation("same-start", "some random initial coordinates are the same in two runs without a seed for the particles and with "
                                              "different entropy")
            o.reach("unseeded-particles")
            o.nontrivial = True
        elif spec.init == "random-pos" and len({tuple(x) for x in spec.pos}) >= 2 and spec.n >= 24:
            if np.array_equal(sa[0].pos, sb[0].pos):
                raise Violation("same-start", "two runs without a seed for the particles, with different entropy, choose the same positions")
            o.nontrivial = True
    if m == "birth-death" and spec.bd and spec.n >= 5:
        ev = 0
        for k in range(1, spec.n_steps + 1):
            ev += int(np.sum(np.any(a.probe.post[k - 1].pos != sa[k].pos, axis=1)))
        if ev >= 10 and np.all(np.isfinite(sa[-1].pos)):  # each event chooses one of at least 4 others
            if all(np.array_equal(x.pos, y.pos) and np.array_equal(x.mom, y.mom) for x, y in zip(sa, sb)):
                raise Violation("same-events", f"two runs without a seed for the birth-death part, with different entropy, have the same {ev} events")
            o.reach("unseeded-bd")
            o.nontrivial = True
