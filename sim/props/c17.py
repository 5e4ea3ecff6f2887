"""C17 Every valid input runs unattended to completion."""
import os

from .. import gen, harness, world as W
from ..engine import Violation
from ..outputs import split
from ..spec import Spec

RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("Random valid inputs over all documented sections and options in 1-3 dimensions, in several spellings of the file, with coefficient files of both documented styles, "
        "other input locations and log levels, unknown (ignored) options, plots with the real matplotlib, odd buffer sizes, short writes and clock jumps. The run "
        "has to take exactly the configured number of steps, never touch standard input, leave every requested file non-empty, and end with status 0 and the success message. "
        "Non-trivial: at least one output was requested.")
MUST_REACH = ["reach:dim1", "reach:dim2", "reach:dim3", "reach:plot", "reach:periodic-plot", "reach:mueller-brown", "reach:coeffs-file-1d", "reach:single-walker",
              "reach:unseeded", "reach:birth-death", "reach:correction", "reach:default-section", "reach:reset", "reach:zero-timestep"]


def make(r, i, tier):
    kw = {}
    if r.random() < 0.25:
        kw = dict(init=None, bc=["reflective", "periodic"])
    c = gen.make(r, dims=(5, 4, 2), bd=0.5, traj=0.8, histo=0.7, fes=0.8, df=0.7, pd=0.6, seeded=0.7, plots=0.12, default_sec=0.25,
                 walkers=r.choice([4, 8, 8, 40]) if r.random() < 0.3 else 6, corr=0.3, **kw)
    if r.random() < 0.03:
        c["cfg"]["ld"]["timestep"] = r.choice(["0", "0.0"])
    if r.random() < 0.1:
        c["cfg"][r.choice([s for s in c["cfg"] if s != "DEFAULT"])]["some-unknown-option"] = "whatever"
    if r.random() < 0.05:
        c["cfg"]["somesection"] = {"x": "1"}
    b = c["cfg"].get("birth-death")
    if b and Spec(c["cfg"], c["files"]).ndim == 1 and r.random() < 0.1:
        b["approximation-variant"] = r.choice(["add", "mult", "orig"])
        b["correction-variant"] = r.choice(["additive", "multiplicative", "original"])
    if r.random() < 0.3:
        c["args"] = r.choice([["--log-level", "debug"], ["--log-level", "info"], ["--log-level", "ERROR"], ["--log-level", "critical"]])
    if r.random() < 0.15:
        c["script"] = "bin/bdld_run"
    c["where"] = r.choice(["input", "input", "input", "abs", "dir/my input.ini"])
    return c


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    with harness.Scratch() as d:
        name = case.get("where", "input")
        files = dict(case["files"])
        files["input" if name == "abs" else name] = gen.render(case)
        harness.write_files(d, files)
        w = W.World(d, case["plan"])
        path = os.path.join(d, "input") if name == "abs" else name
        r = harness.run_process(w, argv=["bdld", path] + list(case.get("args") or []), script=case.get("script"))
        o.saw(r, spec)
        r.files = harness.read_dir(d)
    if r.stdin_reads:
        raise Violation("stdin", f"the run reads from standard input ({r.status} {r.exc or ''})")
    if r.status not in ("ok", "exit") or r.code != 0:
        raise Violation("incomplete:" + r.status + ":" + (r.exc or "").split(":")[0], f"a valid input does not run to completion: {r.status} {r.exc or ''} after {r.steps} steps")
    if not r.success_msg:
        raise Violation("message", "status 0, but no success message")
    if r.steps != spec.n_steps:
        raise Violation("steps", f"{r.steps} dynamics steps instead of {spec.n_steps}")
    for n in spec.data_files():
        if n not in r.files:
            raise Violation("missing-file", f"output file '{n}' does not exist after a successful run")
        if not split(r.files[n].decode(), n)[1] and not n.startswith(tuple(spec.traj_files()) or ("\0",)):
            s = {spec.df and spec.df.filename: spec.df, spec.pd and spec.pd.filename: spec.pd}.get(n)
            stats = spec.bd and n == spec.bd.stats_filename
            due = (s and s.stride and s.stride > spec.n_steps) or (stats and spec.bd.stats_stride and spec.bd.stats_stride > spec.n_steps)
            if not due:
                raise Violation("empty-file", f"output file '{n}' has no data after a successful run")
    for n in spec.plot_files():
        if n not in r.files:
            raise Violation("missing-plot", f"plot '{n}' does not exist after a successful run")
        if not r.files[n].startswith(b"\x89PNG"):
            raise Violation("bad-plot", f"plot '{n}' is not a complete image file")
        o.reach("plot")
        if spec.fes.plot_stride and n != spec.fes.plot_filename:
            o.reach("periodic-plot")
    o.nontrivial = bool(spec.data_files())
    o.reach(f"dim{spec.ndim}")
    for cond, what in ((spec.pot_type == "mueller-brown", "mueller-brown"), (spec.ndim == 1 and case["files"], "coeffs-file-1d"), (spec.n == 1, "single-walker"),
                       (spec.ld_seed is None, "unseeded"), (spec.bd, "birth-death"), (spec.bd and spec.bd.variant != "original", "correction"),
                       ("DEFAULT" in case["cfg"], "default-section"), (spec.histo and spec.histo.reset, "reset"), (spec.dt == 0, "zero-timestep")):
        if cond:
            o.reach(what)
