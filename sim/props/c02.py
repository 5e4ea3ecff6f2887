"""C02 Histogram counts every sampled position exactly once."""
from .. import gen, harness, model
from ..engine import Violation, completed
from ..outputs import grid_file
from ..spec import Spec

RUNS = {"quick": 2600, "thorough": 120000}
RULE = ("Random inputs with a histogram of the trajectories in 1-3 dimensions: every relation of histogram stride, trajectory write interval, "
        "histogram write interval, resets and run length; trajectories written to file or not, extra manual trajectory writes. Every bin of every "
        "periodic and final histogram file is compared with a recount of the spied walker history. "
        "Non-trivial: at least two blocks were collected and at least one position fell into the range.")
MUST_REACH = ["reach:reset", "reach:partial-last-block", "reach:outside", "reach:periodic-file", "reach:dim3", "reach:stride>block", "reach:count>32767"]


def make(r, i, tier):
    c = gen.make(r, still=0.03, dims=(5, 3, 1.5), histo=1.0, vast=0.0008, fes=0.15, df=0.2, pd=0.1, bd=0.25, cap=60, walkers=6)
    h = c["cfg"]["histogram"]
    h["filename"] = "histo"
    n = int(c["cfg"]["ld"]["n_steps"])
    if r.random() < 0.7:
        h["write-stride"] = str(gen.stride(r, n))
    if r.random() < 0.25:
        c["cfg"]["trajectories"].pop("filename", None)
    if r.random() < 0.3 and n > 1:
        c["manual"] = sorted([r.randint(1, n - 1), "TrajectoryAction"] for _ in range(r.randint(1, 4)))
    if i == 200 or r.random() < 0.003:  # many counts in one bin
        n = int(c["cfg"]["ld"]["n_steps"])
        c["cfg"]["particles"]["number"] = str(int(r.choice([36000, 70000]) / min(n, 200)) + 1 if n >= 150 else 330)
        c["cfg"]["ld"]["n_steps"] = str(max(n, 205))
        c["cfg"].pop("birth-death", None)
        c["cfg"]["trajectories"].pop("filename", None)
        c["manual"] = []
        for k in ("stride", "write-stride", "reset"):
            h.pop(k, None)
        h["bins"] = ",".join("1" for _ in h["bins"].split(","))
        if "boundary-condition" not in c["cfg"]["potential"]:
            c["cfg"]["potential"]["boundary-condition"] = "reflective"
        lo, hi = zip(*Spec(c["cfg"], c["files"]).ranges)
        h["min"], h["max"] = (",".join(repr(x) for x in v) for v in ([a - 1.0 for a in lo], [b + 1.0 for b in hi]))
    return c


def expected(spec, st):
    """Yields (file suffix or None, HistModel) in order of writing."""
    h, block = spec.histo, spec.traj.write_stride
    m = model.HistModel(h.ranges, h.bins)
    last = 0
    for step in range(1, spec.n_steps + 1):
        if step % block == 0:
            for k in range(last + 1, step + 1):
                if k % h.stride == 0:
                    m.add(st[k].pos)
            last = step
        if h.write_stride and step % h.write_stride == 0:
            yield step, m
        if step in h.reset:
            m.clear()
    for k in range(last + 1, spec.n_steps + 1):
        if k % h.stride == 0:
            m.add(st[k].pos)
    yield None, m


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    r = harness.simulate(case)
    o.saw(r, spec)
    completed(r)
    st = r.probe.states()
    h = spec.histo
    names = set()
    total = 0
    for suffix, m in expected(spec, st):
        name = h.filename if suffix is None else f"{h.filename}_{suffix}"
        names.add(name)
        got = grid_file(r, name, h.bins, h.ranges, h.fmt, "histogram")
        d = m.compare(got)
        if d:
            raise Violation("counts", f"'{name}': {d} (histogram stride {h.stride}, trajectory write interval {spec.traj.write_stride}, "
                                      f"reset {h.reset}, {spec.n_steps} steps)")
        total += m.total
        if m.outside:
            o.reach("outside")
        if suffix is not None:
            o.reach("periodic-file")
        if m.slack.any():
            o.reach("on-an-edge")
    for f in r.files:
        if f.startswith(h.filename + "_") and f not in names:
            raise Violation("extra-file", f"unexpected histogram file '{f}'")
    if any(1 <= x <= spec.n_steps for x in h.reset):
        o.reach("reset")
    if spec.n_steps % spec.traj.write_stride:
        o.reach("partial-last-block")
    if h.stride > spec.traj.write_stride:
        o.reach("stride>block")
    if total and m.sure.max() > 2**15:
        o.reach("count>32767")
    o.reach(f"dim{spec.ndim}")
    o.nontrivial = total > 0 and spec.n_steps > spec.traj.write_stride
