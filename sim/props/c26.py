"""C26 A run needs no more resources the longer it lasts."""
import gc
import math
import os
import sys
import threading
import tracemalloc

from .. import boot, gen, harness
from ..engine import Violation, completed, default_shrinks
from ..spec import Spec
from . import c22

RUNS = {"quick": 240, "thorough": 5000}
RULE = ("Runs over hundreds of steps in which all strides, write and plot intervals share a period; at the entry of a step at equal phases of this period, after warming up, the simulator "
        "reads the memory held by the process (after collecting garbage), the files it has open, open figures and threads. A growth from one window to the next in each of three "
        "consecutive windows is a leak: memory above 20 bytes per step plus 3.5 kB per window, or any further file, figure or thread; so is a number of file operations, of bytes moved or (without birth-death) of executed program lines per window that grows by 20 % from "
        "window to window. The walker history is not recorded in these "
        "runs. (With plots 150 kB per window are allowed for matplotlib's cache.) Non-trivial: at least one output was written in every window.")
STUBS = "; encoding of the image (matplotlib.figure.Figure.savefig) is a stub"
MUST_REACH = ["reach:trajectories", "reach:histogram", "reach:fes", "reach:delta-f", "reach:particle-distribution", "reach:birth-death", "reach:stats", "reach:plot",
              "reach:default-write-stride", "reach:reset", "reach:recalculate"]
WINDOWS = 3
VERBOSE = bool(os.environ.get("C26_VERBOSE"))


def make(r, i, tier):
    c = gen.make(r, dims=(5, 3, 1), bd=0.5, bd_events=True, traj=0.9, histo=0.7, fes=0.8, df=0.8, pd=0.7, walkers=3, corr=0.1, huge=0, crowd=0.01, files_always=True, bc=["reflective", "periodic"],
                 default_sec=0, extreme=0.2)
    cfg = c["cfg"]
    per = r.choice([20, 24, 25, 50, 60, 100, 120])
    div = [d for d in range(1, per + 1) if per % d == 0]
    few = [d for d in div if d >= per // 6]
    for s in ("birth-death", "trajectories", "histogram", "fes", "delta-f", "particle-distribution"):
        x = cfg.get(s)
        if not x:
            continue
        if "stride" in x:
            x["stride"] = str(r.choice(few if s == "birth-death" else div))
        if s == "birth-death":
            x["stats-filename"] = "stats"
            if "stats-stride" in x:
                x["stats-stride"] = str(r.choice(div))
        st = int(x.get("stride", "1"))
        if "write-stride" in x:
            ok = [d for d in div if s not in ("delta-f", "particle-distribution") or d % st == 0]
            x["write-stride"] = str(r.choice(ok))
            if s in ("histogram", "fes"):
                # every periodic file is a new one: few are enough
                x["write-stride"] = "0"
        if s == "fes" and st and "stride" in x and len(x) and r.random() < 0.08 and Spec(cfg, c["files"]).ndim <= 2:
            x["plot-filename"] = "p.png"
            x["plot-stride"] = "0"
        if s == "histogram" and "reset" in x:
            x["reset"] = str(per)
    if "trajectories" in cfg and "write-stride" not in cfg["trajectories"]:
        per = math.lcm(per, 100)
    for s in ("delta-f", "particle-distribution"):
        x = cfg.get(s, {})
        if "stride" in x and "write-stride" not in x:
            x["stride"] = "1"
            per = math.lcm(per, 100 * int(x["stride"]))
    if per > 300:
        return make(r, i, tier)
    c["window"] = per * -(-240 // per)
    for s, o in (("histogram", "write-stride"), ("fes", "write-stride"), ("fes", "plot-stride")):
        if o in cfg.get(s, {}):
            cfg[s][o] = str(c["window"])
    cfg["ld"]["n_steps"] = str(c["window"] * (WINDOWS + 1) + 1)
    c["plan"]["bufsize"] = r.choice([8192, 8192, 512, 64])
    return c


class Meter:
    """Counts executed lines of the program (sys.monitoring; nothing where another tool has the slot)."""

    def __init__(self):
        self.lines = 0
        self.on = False

    def __enter__(self):
        m = getattr(sys, "monitoring", None)
        if m is None or m.get_tool(4):
            return self
        root = os.path.join(os.path.realpath(boot.REPO), "")
        here = os.path.join(boot.REPO, "")
        m.use_tool_id(4, "bdld-verif")

        def line(code, n):
            if not code.co_filename.startswith((root, here)):
                return m.DISABLE
            self.lines += 1

        m.register_callback(4, m.events.LINE, line)
        m.set_events(4, m.events.LINE)
        self.on = True
        return self

    def __exit__(self, *a):
        if self.on:
            m = sys.monitoring
            m.set_events(4, 0)
            m.register_callback(4, m.events.LINE, None)
            m.free_tool_id(4)
            m.restart_events()
        return False


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    win = case["window"]
    marks = []

    def on_enter(main, step):
        if (step - 1) % win or step == 1:
            return
        gc.collect()
        import matplotlib.pyplot as plt

        w = harness.probe_holder[0].w
        marks.append((step - 1, tracemalloc.get_traced_memory()[0], w.handles, len(plt.get_fignums()), threading.active_count(), w.io_events, w.bytes_moved, meter.lines))

    cam = c22.Camera(False) if spec.plot_files() else None
    meter = Meter()
    was = tracemalloc.is_tracing()
    tracemalloc.start()
    try:
        with meter:
            r = harness.simulate(case, on_enter=on_enter, light=True, prep=cam)
    finally:
        if cam:
            cam.off()
        if not was:
            tracemalloc.stop()
    o.saw(r, spec)
    completed(r)
    if r.steps != spec.n_steps:
        raise Violation("steps", f"{r.steps} dynamics steps instead of {spec.n_steps}")
    if len(marks) != WINDOWS + 1:
        raise RuntimeError(f"{len(marks)} measurements")

    def grows(j, least):
        d = [b[j] - a[j] for a, b in zip(marks, marks[1:])]
        return d if min(d) >= least else None

    for j, what, least in ((2, "open files", 1), (3, "open figures", 1), (4, "threads", 1)):
        d = grows(j, least)
        if d:
            raise Violation("leak-" + what.split()[-1], f"number of {what} grows with every {win} steps: {[m[j] for m in marks]}")
    # (matplotlib keeps texts of earlier plots in a cache of limited size)
    d = grows(1, 3500 + 20 * win + (150_000 if spec.plot_files() else 0))
    if VERBOSE:
        print("growth", min(b[1] - a[1] for a, b in zip(marks, marks[1:])), win, bool(spec.plot_files()), flush=True)
    if d:
        raise Violation("leak-memory", f"memory held by the run grows by {d} bytes over {WINDOWS} times {win} steps")
    for j, what in ((5, "file operations"), (6, "bytes written and read"), (7, "executed lines of the program")):
        if j == 7 and (spec.bd or not meter.on):
            continue  # (the work of birth-death depends on its events)
        w = [b[j] - a[j] for a, b in zip(marks, marks[1:])]
        if VERBOSE:
            print("work", what, w, flush=True)
        if all(b - a >= 0.2 * w[0] + (64 if j == 6 else 4) for a, b in zip(w, w[1:])):
            raise Violation("work", f"number of {what} per {win} steps grows: {w}")
        if j == 7 and w[0]:
            o.reach("lines-metered")
    for s, what in ((spec.traj, "trajectories"), (spec.histo, "histogram"), (spec.fes, "fes"), (spec.df, "delta-f"), (spec.pd, "particle-distribution"), (spec.bd, "birth-death")):
        if s:
            o.reach(what)
    if spec.bd and spec.bd.stats_stride:
        o.reach("stats")
    if spec.bd and spec.bd.recalc:
        o.reach("recalculate")
    if spec.histo and spec.histo.reset:
        o.reach("reset")
    if spec.plot_files():
        o.reach("plot")
    if spec.traj and "write-stride" not in case["cfg"]["trajectories"]:
        o.reach("default-write-stride")
    o.nontrivial = all(b[5] > a[5] for a, b in zip(marks, marks[1:]))


def shrinks(case):
    n = case["cfg"]["ld"]["n_steps"]
    return (c for c in default_shrinks(case) if c["cfg"]["ld"]["n_steps"] == n)
