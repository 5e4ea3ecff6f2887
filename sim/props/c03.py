"""C03 Free energy surfaces match the histogram at their time."""
import numpy as np

from .. import gen, harness, model
from ..engine import Violation, completed
from ..outputs import grid_file, resolution
from ..spec import Spec

RUNS = {"quick": 3000, "thorough": 110000}
RULE = ("Random inputs with a free energy surface in 1-3 dimensions: every relation of histogram, surface and write strides, resets, own kT; "
        "each surface file is compared with -kT log(counts) of the histogram at the most recent update step, where the counts are the program's own "
        "per-step histogram files (half of the cases) or a recount of the spied walker history. "
        "Non-trivial: at least one surface with two different finite values was checked.")
MUST_REACH = ["reach:periodic-file", "reach:stale-by-design", "reach:before-first-update", "reach:after-reset", "reach:own-kt", "reach:dim3"]


def make(r, i, tier):
    c = gen.make(r, still=0.03, dims=(5, 3, 1.5), histo=1.0, fes=1.0, df=0.2, pd=0.1, bd=0.2, cap=50, walkers=6, hot=0.5)
    h, f = c["cfg"]["histogram"], c["cfg"]["fes"]
    f["filename"] = "fes"
    n = int(c["cfg"]["ld"]["n_steps"])
    if r.random() < 0.8:
        f.setdefault("stride", str(gen.stride(r, n)))
        f["write-stride"] = str(gen.stride(r, n))
    if r.random() < 0.7:
        c["cfg"]["trajectories"]["write-stride"] = str(r.choice([1, 2, 3, 5, gen.stride(r, n)]))
    if r.random() < 0.5:
        h["filename"], h["write-stride"], h["fmt"] = "histo", "1", "%%.17g"
    return c


def counts_per_step(spec, r):
    """List of count arrays (or None if undecided) valid after steps 0..n, and at the end.

    Uses the program's own histogram files if they exist for every step.
    """
    h = spec.histo
    zero = np.zeros(h.bins)
    out = [zero]
    if h.filename and h.write_stride == 1:
        for k in range(1, spec.n_steps + 1):
            c = grid_file(r, f"{h.filename}_{k}", h.bins, h.ranges, h.fmt, "histogram")
            out.append(zero if k in h.reset else c)
        return out, grid_file(r, h.filename, h.bins, h.ranges, h.fmt, "histogram"), True
    st = r.probe.states()
    m = model.HistModel(h.ranges, h.bins)
    last = 0
    block = spec.traj.write_stride

    def cur():
        return None if m.slack.any() else m.sure.copy()

    for step in range(1, spec.n_steps + 1):
        if step % block == 0:
            for k in range(last + 1, step + 1):
                if k % h.stride == 0:
                    m.add(st[k].pos)
            last = step
        if step in h.reset:
            m.clear()
        out.append(cur())
    for k in range(last + 1, spec.n_steps + 1):
        if k % h.stride == 0:
            m.add(st[k].pos)
    return out, cur(), False


def compare(name, got, counts, kt, fmt):
    want = model.fes_of(counts, kt)
    got = got.reshape(-1)
    for i in range(len(want)):
        if np.isinf(want[i]):
            if not (np.isinf(got[i]) and got[i] > 0):
                raise Violation("unvisited", f"'{name}' bin {i}: {got[i]!r} for an unvisited bin")
            continue
        tol = resolution(fmt, want[i]) + 1e-9 * (kt + abs(want[i]))
        if not abs(got[i] - want[i]) <= tol:
            raise Violation("value", f"'{name}' bin {i}: {got[i]!r} instead of {want[i]!r} (count {np.asarray(counts).reshape(-1)[i]:g} of max "
                                     f"{np.max(counts):g}, kT {kt})")


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    r = harness.simulate(case)
    o.saw(r, spec)
    completed(r)
    f, h = spec.fes, spec.histo
    per, final, own = counts_per_step(spec, r)
    names = {f.filename}
    for k in model.due(f.write_stride, spec.n_steps):
        name = f"{f.filename}_{k}"
        names.add(name)
        got = grid_file(r, name, h.bins, h.ranges, f.fmt, "surface")
        at = k // f.stride * f.stride
        c = per[at]
        o.reach("periodic-file")
        if at == 0:
            o.reach("before-first-update")
        if at != k:
            o.reach("stale-by-design")
        if any(0 < x <= at for x in h.reset):
            o.reach("after-reset")
        if c is None:
            o.reach("undecided-edge")
            continue
        compare(name, got, c, f.kt, f.fmt)
        fin = got[np.isfinite(got)]
        if fin.size and fin.max() > 0:
            o.nontrivial = True
    got = grid_file(r, f.filename, h.bins, h.ranges, f.fmt, "surface")
    if final is not None:
        compare(f.filename, got, final, f.kt, f.fmt)
        fin = got[np.isfinite(got)]
        if fin.size and fin.max() > 0:
            o.nontrivial = True
    for x in r.files:
        if x.startswith(f.filename + "_") and x not in names:
            raise Violation("extra-file", f"unexpected surface file '{x}'")
    if f.kt != spec.kt:
        o.reach("own-kt")
    o.reach("own-histogram-files" if own else "recount")
    o.reach(f"dim{spec.ndim}")
