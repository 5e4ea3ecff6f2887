"""C23 Data files describe their contents."""
import re

from .. import gen, harness
from ..engine import Violation, completed, default_shrinks
from ..outputs import numbers
from ..spec import Spec
from . import c12

RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("Random inputs with all kinds of output files in one to three dimensions, with earlier files of the same names in the directory, undisturbed and killed or "
        "interrupted at random seam events. Every output file is read line by line: the header comes first and once, names every column in order and states the documented "
        "constants as given in the input; no row precedes it, whatever the moment of the kill. Non-trivial: at least two kinds of files with rows were read.")
MUST_REACH = ["reach:trajectory", "reach:momentum", "reach:histogram", "reach:fes", "reach:delta-f", "reach:particle-distribution", "reach:stats", "reach:dim3",
              "reach:killed", "reach:header-cut", "reach:existing-file", "reach:many-columns"]
AXES = ["x", "y", "z"]
NUM = re.compile(r"(?<![\w.])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|(?<![\w.])[-+]?inf\b")


def make(r, i, tier):
    c = gen.make(r, still=0.03, dims=(5, 4, 2), bd=0.5, traj=0.9, histo=0.7, fes=0.8, df=0.8, pd=0.7, files_always=True, walkers=5, long=0.03, cap=25)
    if "birth-death" in c["cfg"] and r.random() < 0.7:
        c["cfg"]["birth-death"].setdefault("stats-filename", "stats")
    if r.random() < 0.4:  # values of many digits
        for sec, keys in (("histogram", ("min", "max")), ("ld", ("kt",)), ("fes", ("kt",)), ("birth-death", ("kernel-bandwidth",))):
            for k in keys:
                if k in c["cfg"].get(sec, {}):
                    c["cfg"][sec][k] = ",".join(gen.num(float(v) * (1 + r.uniform(-1e-3, 1e-3))) for v in c["cfg"][sec][k].split(","))
    c["old"] = r.random() < 0.3
    c["kills"] = []
    if r.random() < 0.5:
        c["kills"].append({"kind": "sigint" if r.random() < 0.25 else "crash", "where": r.choice(["any", "io", "write"]),
                           "f": r.random() * r.choice([1.0, 0.1]), "torn": r.choice([0.0, 0.3, 0.7, 1.0])})
    return c


def shrinks(case):
    if case["kills"]:
        yield dict(case, kills=[])
    if case["old"]:
        yield dict(case, old=False)
    yield from default_shrinks(case)


def expected(spec):
    """{file: (kind, fields, {constant: values})}"""
    out = {}
    x = AXES[:spec.ndim]
    t = spec.traj
    for i, n in enumerate(spec.traj_files()):
        out[n] = ("trajectory", ["time"] + [f"pos_{a}.{i}" for a in x] + ([f"mom_{a}.{i}" for a in x] if t.momentum else []), {})
    for s, col, kind in ((spec.histo, "histo_count", "histogram"), (spec.fes, "fes", "fes")):
        if s and s.filename:
            c = {}
            for a, (lo, hi), b in zip(x, spec.histo.ranges, spec.histo.bins):
                h = (hi - lo) / b / 2 if kind == "fes" else 0.0  # the surface states its outermost points, the histogram its edges
                c.update({f"{a}_min": [lo + h], f"{a}_max": [hi - h], f"{a}_n_bins": [b]})
            for n in [s.filename] + [f"{s.filename}_{k}" for k in range(s.write_stride or 1, spec.n_steps + 1 if s.write_stride else 0, s.write_stride or 1)]:
                out[n] = (kind, x + [col], c)
    if spec.df and spec.df.filename:
        out[spec.df.filename] = ("delta-f", ["time"] + [f"delta_f.1-{i}" for i in range(2, len(spec.df.states) + 1)], {"kt": [spec.fes.kt]})
    if spec.pd and spec.pd.filename:
        out[spec.pd.filename] = ("particle-distribution", ["timestep"] + [f"n_particles_{i}" for i in range(len(spec.pd.states))],
                                 {f"state_{i}": [v for b in s for v in b] for i, s in enumerate(spec.pd.states)})
    if spec.bd and spec.bd.stats_filename:
        out[spec.bd.stats_filename] = ("stats", ["timestep", "dup_succ", "dup_attempts", "kill_succ", "kill_attempts"],
                                       {"timestep": [spec.dt * spec.bd.stride], "kernel_bandwidth": spec.bd.bw, "kt": [spec.kt]})
    return out


def near(a, b, name):
    if name == "kernel_bandwidth":  # stated with eight digits
        return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-8
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12


def judge(name, text, kind, fields, consts, whole, at, o):
    lines = text.split("\n")
    cut = lines.pop() if whole is False else None  # a line without end
    if whole:
        if lines[-1:] != [""]:
            raise Violation("cut-line", f"{at}'{name}' ends within a line")
        lines.pop()
    nh = 1 + len(consts)
    if not lines:
        if whole:
            raise Violation("no-header", f"{at}'{name}' is empty")
        o.reach("header-cut" if cut is not None else "empty")
        return 0
    f = lines[0].split()
    if f[:2] != ["#!", "FIELDS"]:
        raise Violation("no-header", f"{at}'{name}' starts with {lines[0][:60]!r} and not with the names of its columns")
    if f[2:] != fields:
        raise Violation("fields", f"{at}'{name}' names its columns {f[2:]} instead of {fields}")
    seen = {}
    for x in lines[1:nh]:
        t = x.split(None, 3)
        if t[:2] != ["#!", "SET"] or len(t) < 4:
            raise Violation("constants", f"{at}'{name}' has {x[:60]!r} in place of a constant")
        seen[t[2]] = t[3]
    for n, want in list(consts.items())[:len(lines) - 1] if not whole else consts.items():
        if n not in seen:
            raise Violation("constants", f"{at}'{name}' does not state {n}")
    for n, v in seen.items():
        if n not in consts:
            raise Violation("constants", f"{at}'{name}' states an unknown constant {n}")
        got = [float(y) for y in NUM.findall(v)]
        if len(got) != len(consts[n]) or not all(near(a, b, n) for a, b in zip(got, consts[n])):
            raise Violation("constants", f"{at}'{name}' states {n} = {v} instead of {consts[n]}")
    if len(lines) < nh:
        o.reach("header-cut")
    rows = 0
    for x in lines[nh:]:
        if x.startswith("#"):
            raise Violation("second-header", f"{at}'{name}' has {x[:60]!r} after the header")
        if not x.strip():
            continue  # blocks of a grid
        numbers(x, name, len(fields))
        rows += 1
    return rows


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    exp = expected(spec)
    old = {n: f"older contents of {n}\n" for n in exp} if case["old"] else {}
    base = harness.simulate(case, plan=dict(case["plan"], keep_trace=True), extra_files=old)
    o.saw(base, spec)
    completed(base)
    kinds = set()
    for n, (kind, fields, consts) in exp.items():
        if n not in base.files:
            raise Violation("missing-file", f"output file '{n}' does not exist after a successful run")
        if base.files[n] == old.get(n, "").encode() != b"":
            raise Violation("not-written", f"'{n}' still has the contents from before the run")
        try:
            text = base.files[n].decode()
        except UnicodeDecodeError:
            raise Violation("malformed", f"output file '{n}' is not text")
        if judge(n, text, kind, fields, consts, True, "", o):
            kinds.add(kind)
        o.reach(kind)
        if len(fields) > 9:
            o.reach("many-columns")
    if len(kinds) > 1:
        o.nontrivial = True
    if spec.traj and spec.traj.filename and spec.traj.momentum:
        o.reach("momentum")
    if old:
        o.reach("existing-file")
    o.reach(f"dim{spec.ndim}")
    for kill in case["kills"]:
        f, kind, what = c12.locate(base.world.trace, kill)
        r = harness.simulate(case, faults=[f], extra_files=old)
        o.saw(r, spec)
        if not r.fired:
            o.reach("not-fired")
            continue
        o.reach("killed")
        at = f"{kill['kind']} at event {f['at']} ({kind} {what}): "
        for n, (kd, fields, consts) in exp.items():
            if n not in r.files or r.files[n] == old.get(n, "").encode():
                continue
            judge(n, r.files[n].decode("utf-8", "replace"), kd, fields, consts, False, at, o)
