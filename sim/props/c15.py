"""C15 Simulations in one process do not influence each other."""
import copy
import os
import random
import sys

import numpy as np

from .. import boot, gen, harness, world as W
from ..engine import Violation, completed, default_shrinks
from ..spec import Spec
from . import c12

RENAME = False  # file names are part of the case itself
RUNS = {"quick": 2600, "thorough": 36000}
RULE = ("A seeded input runs alone in a fresh process image and again in one in which other simulations (other potentials, scalings, dimensions, boundary "
        "conditions, integrators, sizes, options) ran before - to the end, failed on bad input, or were killed or hit by faults - and, in part of the cases, in which "
        "further simulations are set up and advanced in between its own steps. All data files and the walker history have to be identical. "
        "Non-trivial: at least one other simulation was set up in the same process.")
MUST_REACH = ["reach:earlier-finished", "reach:earlier-killed", "reach:earlier-failed", "reach:interleaved", "reach:same-potential-type", "reach:mueller-brown",
              "reach:with-birth-death"]


def relative(r, c):
    """The same simulation but for one or two details: what is carried over between simulations shows up between near twins first."""
    o = copy.deepcopy({k: c[k] for k in ("cfg", "files", "plan")})
    cfg = o["cfg"]
    pot, ld, bd = cfg["potential"], cfg["ld"], cfg.get("birth-death")

    def other(cur, choices):
        return r.choice([x for x in choices if x != cur])

    for _ in range(r.choice([1, 1, 2])):
        k = r.choice(["potential"] * 5 + ["kt", "timestep", "seed", "number", "mass", "bc", "bw", "bw", "variant", "factor", "histo", "fmt", "strides", "steps"])
        if k == "potential":
            if pot["type"] == "mueller-brown":
                pot["scaling-factor"] = other(pot.get("scaling-factor", "1.0"), ["0.05", "0.1", "0.5", "2.0"])
            elif "coeffs" in pot:
                pot["coeffs"] = other(pot["coeffs"], gen.COEFFS_1D)
            elif int(pot["n_dim"]) > 1:
                o["files"]["coeffs"] = gen.coeff_file(r, int(pot["n_dim"]))
        elif k == "kt" and "kt" in ld:
            ld["kt"] = other(ld["kt"], ["0.5", "1.0", "2.0"])
        elif k == "timestep":
            ld["timestep"] = repr(float(ld["timestep"]) * r.choice([0.5, 0.25]))
        elif k == "seed":
            for sec in cfg.values():
                if "seed" in sec:
                    sec["seed"] = str(int(sec["seed"]) + 1)
        elif k == "number":
            cfg["particles"]["number"] = str(int(cfg["particles"]["number"]) + 1)
        elif k == "mass":
            cfg["particles"]["mass"] = other(cfg["particles"].get("mass"), ["0.5", "1.0", "2.0"])
        elif k == "bc":
            b = other(pot.get("boundary-condition"), [None, "reflective", "periodic"])
            pot.pop("boundary-condition", None)
            if b:
                pot["boundary-condition"] = b
        elif k == "bw" and bd:
            bd["kernel-bandwidth"] = ",".join(repr(float(x) * 1.5) for x in bd["kernel-bandwidth"].split(","))
        elif k == "variant" and bd and pot.get("n_dim") == "1":
            bd.pop("correction-variant", None)
            bd["approximation-variant"] = r.choice(["orig", "additive", "multiplicative"])
        elif k == "factor" and bd:
            bd["exponential-factor"] = r.choice(["0.5", "3.0"])
        elif k == "histo" and "histogram" in cfg:
            cfg["histogram"]["bins"] = ",".join(str(int(x) + 1) for x in cfg["histogram"]["bins"].split(","))
        elif k == "fmt" and "trajectories" in cfg:
            cfg["trajectories"]["fmt"] = "%%.5f"
        elif k == "steps":
            ld["n_steps"] = str(max(1, int(ld["n_steps"]) - r.randint(1, 5)))
    return o


def make(r, i, tier):
    is_mb = r.random() < 0.35
    kw = dict(dims=(0, 1, 0), mb=1.0) if is_mb else {}
    c = gen.make(r, bd=0.6, traj=0.9, histo=0.5, fes=0.6, df=0.6, pd=0.5, files_always=True, bd_events=r.random() < 0.6, walkers=5, cap=25, long=0.02,
                 corr=0.45, **kw)
    c["procs"] = []
    for _ in range(r.randint(0, 3)):
        if r.random() < 0.55:
            o = relative(r, c)
        else:
            o = gen.make(r, bd=0.6, traj=0.8, histo=0.5, fes=0.6, df=0.5, pd=0.4, walkers=5, cap=15, long=0.0, plots=0.02, **(kw if r.random() < 0.5 else {}))
        o["end"] = r.choice(["finish", "finish", "kill", "kill", "fault", "bad"])
        o["f"] = r.random()
        o["bad"] = r.choice(["no-ld", "no-kt", "bad-type", "late"])
        c["procs"].append(o)
    if r.random() < 0.5 or not c["procs"]:
        c["between"] = []
        for _ in range(r.randint(1, 2)):
            if r.random() < 0.5:
                o = relative(r, c)
            else:
                o = gen.make(r, bd=0.6, traj=0.5, histo=0.4, fes=0.5, df=0.3, pd=0.3, walkers=4, cap=15, long=0.0, **(kw if r.random() < 0.6 else {}))
            o["every"] = r.choice([1, 1, 2, 3, 7])
            o["fresh"] = r.random() < 0.3  # set up anew each time
            c["between"].append(o)
    return c


def shrinks(case):
    yield from default_shrinks(case)
    if case.get("between"):
        for j in range(len(case["between"])):
            c = copy.deepcopy(case)
            del c["between"][j]
            yield c
        for j, b in enumerate(case["between"]):
            for sub in default_shrinks(b):
                c = copy.deepcopy(case)
                c["between"][j] = sub
                yield c
    for j, b in enumerate(case.get("procs") or []):
        for sub in default_shrinks(b):
            c = copy.deepcopy(case)
            c["procs"][j] = sub
            yield c


def spoil(o):
    cfg = copy.deepcopy(o["cfg"])
    if o["bad"] == "no-ld":
        cfg.pop("ld")
    elif o["bad"] == "no-kt":
        cfg.get("DEFAULT", {}).pop("kt", None)
        cfg["ld"].pop("kt", None)
        cfg["ld"]["type"] = "bussi-parinello"
    elif o["bad"] == "bad-type":
        cfg["potential"]["type"] = "nonsense"
    else:  # everything before the last part is set up
        cfg["particle-distribution"] = {"state1-min": "0", "state1-max": "1", "stride": "5", "write-stride": "7", "filename": "d"}
    return dict(o, cfg=cfg)


class Side:
    """A second simulation in the same process, driven by the caller."""

    def __init__(self, main, name, case, o):
        self.main, self.case, self.name = main, case, name
        self.actions, self.step = None, 0
        self.o = o

    def setup(self):
        m = self.main
        cfg = m.inputparser.Input(self.name)
        pot = m.setup_potential(cfg.potential)
        ld = m.setup_ld(cfg.ld, pot)
        m.init_particles(cfg.particles, ld)
        acts = [ld]
        if cfg.birth_death:
            acts.append(m.setup_birth_death(cfg.birth_death, ld))
        if cfg.trajectories:
            t = m.setup_trajectories(cfg.trajectories, ld)
            acts.append(t)
            if cfg.histogram:
                h = m.setup_histogram(cfg.histogram, t)
                acts.append(h)
                if cfg.fes:
                    f = m.setup_fes(cfg.fes, h)
                    acts.append(f)
                    if cfg.delta_f:
                        acts.append(m.setup_delta_f(cfg.delta_f, f))
        if cfg.particle_distribution:
            acts.append(m.setup_particle_distribution(cfg.particle_distribution, ld))
        self.actions = acts
        self.step = 0

    def __call__(self, step):
        if step % self.case["every"]:
            return
        try:
            if self.actions is None or self.case["fresh"]:
                self.setup()
            self.step += 1
            for a in self.actions:
                a.run(self.step)
            self.o.reach("interleaved")
        except (W.SimCrash, W.StepLimit, KeyboardInterrupt):
            raise
        except Exception:
            self.o.reach("side-failed")


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    alone = harness.simulate(case)
    o.saw(alone, spec)
    completed(alone)
    main = boot.fresh()
    harness.attach(main, None)
    for p in case.get("procs") or []:
        bad = p["end"] == "bad"
        sub = spoil(p) if bad else p
        faults = []
        if p["end"] in ("kill", "fault"):
            # where: from a run in an image of its own, so that it leaves no mark in this one
            keep = {k: v for k, v in sys.modules.items() if k == "bdld" or k.startswith("bdld.")}
            pr = harness.simulate(dict(sub, plan=dict(sub["plan"], keep_trace=True)))
            sys.modules.update(keep)
            o.saw(pr)
            if p["end"] == "kill":
                f, _, _ = c12.locate(pr.world.trace, {"kind": "sigint" if int(p["f"] * 1000) % 2 else "crash", "where": "any", "f": p["f"]})
            else:
                f = {"kind": "io", "err": "EIO", "at": int(p["f"] * pr.io_events)}
            faults = [f]
        r = harness.simulate(sub, main=main, faults=faults)
        o.saw(r)
        o.reach("earlier-" + ("killed" if r.status in ("crash", "sigint") else ("finished" if r.status == "ok" else "failed")))
        if sub["cfg"].get("potential", {}).get("type") == case["cfg"]["potential"]["type"]:
            o.reach("same-potential-type")
        o.nontrivial = True
    sides = []
    extra = {}
    for j, b in enumerate(case.get("between") or []):
        b = copy.deepcopy(b)
        for s in b["cfg"].values():
            for k in ("filename", "stats-filename", "plot-filename"):
                if k in s:
                    s[k] = f"side{j}_" + s[k]
            if "coeffs-file" in s:
                s["coeffs-file"] = f"side{j}_coeffs"
        for n, t in b["files"].items():
            extra[f"side{j}_{n}"] = t
        extra[f"side{j}_input"] = gen.render(b)
        sides.append(Side(main, f"side{j}_input", b, o))

    def on_enter(m, step):
        for s in sides:
            s(step)
        o.nontrivial = o.nontrivial or bool(sides)

    r = harness.simulate(case, main=main, extra_files=extra, on_enter=on_enter if sides else None)
    o.saw(r, spec)
    completed(r, "run after/between other simulations in the same process")
    sa, sb = alone.probe.states(), r.probe.states()
    if len(sa) != len(sb):
        raise Violation("steps", f"{len(sb) - 1} steps instead of {len(sa) - 1} when other simulations are in the same process")
    for k, (x, y) in enumerate(zip(sa, sb)):
        for f in ("pos", "mom", "ene", "frc", "mass"):
            if getattr(x, f).shape != getattr(y, f).shape or not np.array_equal(getattr(x, f), getattr(y, f), equal_nan=True):
                raise Violation("walkers", f"the walkers ({f}) after step {k} depend on other simulations in the same process")
    for n in spec.data_files():
        if n not in r.files or n not in alone.files:
            raise Violation("missing-file", f"output file '{n}' does not exist")
        if r.files[n] != alone.files[n]:
            raise Violation("files", f"'{n}' depends on other simulations in the same process")
    if spec.pot_type == "mueller-brown":
        o.reach("mueller-brown")
    if spec.bd:
        o.reach("with-birth-death")
