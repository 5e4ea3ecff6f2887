"""C18 Unreadable or incomplete input never starts a run."""
import copy

from .. import gen, harness, world as W
from ..engine import Violation, default_shrinks
from ..spec import Spec
from . import c14

RENAME = False  # file names are part of the case itself
RUNS = {"quick": 14000, "thorough": 100000}
RULE = ("A valid random input is damaged in one definite way - required section or option removed, value of the wrong type or outside its documented domain, unknown type "
        "name, missing prerequisite section - or its file or the coefficient file is missing, a directory, empty, not text, or fails (EIO, EACCES) when opened or while being "
        "read; existing output files lie in the directory. The run has to end with a non-zero status, no success message, no dynamics step and all existing contents preserved. "
        "Non-trivial: always (every case has a definite defect).")
KINDS = ["missing-file", "directory", "empty", "garbage", "not-text", "read-fault", "coeff-missing", "coeff-fault", "no-section", "no-option", "wrong-type", "domain",
         "unknown-type", "prerequisite", "inconsistent"]
MUST_REACH = ["reach:" + k for k in KINDS]

REQ = {
    "ld": ["timestep", "n_steps", "type", "kt", "friction"], "potential": ["type", "n_dim", "min", "max", "coeffs", "coeffs-file"],
    "particles": ["number", "initial-distribution", "fractions"], "birth-death": ["stride", "kernel-bandwidth"], "histogram": ["bins", "min", "max"],
    "fes": ["kt"], "delta-f": ["state1-min", "state1-max", "state2-min", "state2-max"], "particle-distribution": ["state1-min", "state1-max"],
}
INTS = {"ld": ["n_steps", "seed"], "potential": ["n_dim"], "particles": ["number", "seed"], "birth-death": ["stride", "seed", "stats-stride"],
        "trajectories": ["stride", "write-stride"], "histogram": ["stride", "write-stride"], "fes": ["stride", "write-stride"], "delta-f": ["stride", "write-stride"],
        "particle-distribution": ["stride", "write-stride"]}
FLOATS = {"ld": ["timestep", "kt", "friction"], "particles": ["mass"], "birth-death": ["exponential-factor"], "fes": ["kt"]}
LISTS = {"histogram": ["reset", "bins", "min", "max"], "particles": ["pos1", "fractions"], "potential": ["min", "max", "coeffs"],
         "delta-f": ["state1-min", "state2-max"], "particle-distribution": ["state1-min", "state1-max"], "birth-death": ["kernel-bandwidth"]}
BOOLS = {"trajectories": ["momentum"], "birth-death": ["recalculate-probabilities"]}
POSITIVE = {"ld": ["n_steps", "kt"], "particles": ["number", "mass"], "birth-death": ["stride", "stats-stride", "exponential-factor", "kernel-bandwidth"],
            "trajectories": ["stride", "write-stride"], "histogram": ["stride", "write-stride", "bins", "reset"], "fes": ["kt", "stride", "write-stride"],
            "delta-f": ["stride", "write-stride"], "particle-distribution": ["stride", "write-stride"]}
NONNEG = {"ld": ["timestep", "friction"]}


def pick(r, cfg, table):
    c = [(s, k) for s in table if s in cfg for k in table[s] if k in cfg[s] and not (s == "ld" and cfg["ld"].get("type") == "overdamped" and k in ("kt", "friction"))]
    return r.choice(c) if c else None


def damage(r, c, kind):
    """Damage case c in place; returns a description or None if this kind does not fit."""
    cfg = c["cfg"]
    if kind == "no-section":
        s = r.choice(["ld", "potential", "particles"])
        del cfg[s]
        return f"no section [{s}]"
    if kind == "no-option":
        p = pick(r, cfg, REQ)
        s, k = p
        if s == "potential" and cfg[s]["type"] != "polynomial" and k != "type":
            return None
        del cfg[s][k]
        return f"no option '{k}' in [{s}]"
    if kind == "wrong-type":
        z = r.random()
        if z < 0.4:
            p = pick(r, cfg, INTS)
            v = r.choice(["abc", "1.5", "", "two", "1e3", "0x10", "3,4"])
        elif z < 0.65:
            p = pick(r, cfg, FLOATS)
            v = r.choice(["abc", "", "1,5", "fast", "1.0.0"])
        elif z < 0.9:
            p = pick(r, cfg, LISTS)
            if not p:
                return None
            v = cfg[p[0]][p[1]]
            v = r.choice([v + ",x", "x", v + ",", "", v.replace(",", ";") + ";1", v + " 1"])
        else:
            p = pick(r, cfg, BOOLS)
            v = r.choice(["maybe", "", "2", "yess"])
        if not p or (p[0] == "potential" and cfg["potential"]["type"] != "polynomial"):
            return None
        cfg[p[0]][p[1]] = v
        return f"'{p[1]}' in [{p[0]}] is '{v}'"
    if kind == "domain":
        if r.random() < 0.12 and cfg["potential"]["type"] == "polynomial":
            v = cfg["potential"]["n_dim"] = r.choice(["0", "-1", "4", "7"])
            return f"n_dim is {v}"
        p = pick(r, cfg, NONNEG if r.random() < 0.15 else POSITIVE)
        if not p:
            return None
        s, k = p
        old = cfg[s][k].split(",")
        bad = r.choice(["-1", "-3", "-1", "nan"]) if s in NONNEG and k in NONNEG[s] else r.choice(["0", "-1", "-7", "-1", "0", "nan"])
        old[r.randrange(len(old))] = bad
        cfg[s][k] = ",".join(old)
        return f"'{k}' in [{s}] is {cfg[s][k]}"
    if kind == "unknown-type":
        s, k = r.choice([("ld", "type"), ("potential", "type"), ("particles", "initial-distribution"), ("birth-death", "approximation-variant"),
                         ("birth-death", "correction-variant"), ("potential", "boundary-condition")])
        if s not in cfg:
            return None
        if k == "correction-variant":
            cfg[s].pop("approximation-variant", None)
        v = cfg[s][k] = r.choice(["nonsense", "Polynomial2", "random", "bussi", "addd", "periodical", "x"])
        return f"'{k}' in [{s}] is '{v}'"
    if kind == "prerequisite":
        c_ = [(a, b) for a, b in (("trajectories", "histogram"), ("histogram", "fes"), ("fes", "delta-f")) if a in cfg and b in cfg]
        if not c_:
            return None
        a, b = r.choice(c_)
        del cfg[a]
        return f"[{b}] without [{a}]"
    if kind == "inconsistent":
        z = r.choice(["fractions", "one-state", "bandwidth", "min-max", "min-max", "no-pos", "state-dim", "state-dim", "gap", "fewer-values", "fewer-values", "pos-dim", "states-dim", "plot-domain"])
        if z == "fractions" and "fractions" in cfg["particles"]:
            v = cfg["particles"]["fractions"].split(",")
            if len(v) > 1 and r.random() < 0.5:
                cfg["particles"]["fractions"] = ",".join(v[:-1])
                return "fewer fractions than positions"
            cfg["particles"]["fractions"] += ",0.5"
            return "more fractions than positions"
        if z == "one-state" and "delta-f" in cfg:
            for k in [k for k in cfg["delta-f"] if k.startswith("state") and not k.startswith("state1-")]:
                del cfg["delta-f"][k]
            return "only one state for [delta-f]"
        if z == "bandwidth" and "birth-death" in cfg and Spec(cfg, c["files"]).ndim > 1:
            cfg["birth-death"]["kernel-bandwidth"] += ",0.3"
            return "too many kernel bandwidths"
        if z == "min-max":
            s = [s for s in ("delta-f", "particle-distribution") if s in cfg]
            if s:
                s = r.choice(s)
                n = max(int(k[5:-4]) for k in cfg[s] if k.startswith("state"))
                m = r.choice(["min", "max"])
                del cfg[s][f"state{n}-{m}"]
                return f"state {n} in [{s}] has no {m}imum"
        if z == "gap":  # one bound of a state in the middle is missing
            c_ = [(s, k) for s in ("delta-f", "particle-distribution") if s in cfg for k in cfg[s] if k.startswith("state")]
            if c_:
                s, k = r.choice(c_)
                del cfg[s][k]
                return f"no '{k}' in [{s}]"
        if z == "fewer-values":
            c_ = [(s, k) for s, k in (("potential", "min"), ("potential", "max"), ("histogram", "min"), ("histogram", "max"), ("histogram", "bins"), ("birth-death", "kernel-bandwidth"))
                  if "," in cfg.get(s, {}).get(k, "")]
            if c_:
                s, k = r.choice(c_)
                if r.random() < 0.5:
                    cfg[s][k] += "," + cfg[s][k].rpartition(",")[2]
                    return f"'{k}' in [{s}] has too many values"
                cfg[s][k] = cfg[s][k].rpartition(",")[0]
                return f"'{k}' in [{s}] has too few values"
        if z == "states-dim":  # consistently for all states
            c_ = [s for s in ("delta-f", "particle-distribution") if s in cfg]
            if c_:
                s = r.choice(c_)
                fewer = r.random() < 0.5
                for k in [k for k in cfg[s] if k.startswith("state")]:
                    v = cfg[s][k].split(",")
                    if fewer and len(v) == 1:
                        return None
                    cfg[s][k] = ",".join(v[:-1] if fewer else v + v[:1])
                return f"all bounds of states in [{s}] have {'less' if fewer else 'more'} values than dimensions"
        if z == "plot-domain" and "fes" in cfg:
            cfg["fes"]["plot-filename"] = "fes.png"
            cfg["fes"]["plot-domain"] = r.choice(["8", "0,4,8", "0,1,2,3"])
            return "'plot-domain' in [fes] has not two values"
        if z == "pos-dim":
            c_ = [k for k in cfg["particles"] if k.startswith("pos")]
            if c_:
                k = r.choice(c_)
                v = cfg["particles"][k].split(",")
                cfg["particles"][k] = ",".join(v[:-1]) if len(v) > 1 and r.random() < 0.5 else ",".join(v + v[:1])
                return f"'{k}' in [particles] has {len(cfg['particles'][k].split(','))} values in {Spec(c['good'], c['files']).ndim} dimensions"
        if z == "state-dim":
            c_ = [(s, k) for s in ("delta-f", "particle-distribution") if s in cfg for k in cfg[s] if k.startswith("state")]
            if c_:
                s, k = r.choice(c_)
                v = cfg[s][k].split(",")
                cfg[s][k] = ",".join(v[:-1]) if len(v) > 1 and r.random() < 0.5 else ",".join(v + v[:1])
                return f"'{k}' in [{s}] has the wrong number of values"
        if z == "no-pos" and cfg["particles"]["initial-distribution"] != "random-global":
            for k in [k for k in cfg["particles"] if k.startswith("pos")]:
                del cfg["particles"][k]
            return "no positions given"
        return None
    if kind in ("coeff-missing", "coeff-fault"):
        if not c["files"]:
            return None
        return "coefficient file " + ("missing" if kind == "coeff-missing" else "fails to be read")
    return kind


def make(r, i, tier):
    kind = KINDS[i % len(KINDS)] if i < 4 * len(KINDS) else r.choice(KINDS + ["no-option", "wrong-type", "wrong-type", "domain", "domain", "read-fault"])
    while True:
        c = gen.make(r, dims=(5, 4, 1), bd=0.6, traj=0.8, histo=0.7, fes=0.8, df=0.8, pd=0.6, seeded=0.8, default_sec=0.0, cap=20, long=0.0, walkers=4)
        c["kind"] = kind
        c["good"] = copy.deepcopy(c["cfg"])
        what = damage(r, c, kind)
        if what:
            c["what"] = what
            break
    c["f"] = r.random()
    c["err"] = r.choice(["EIO", "EACCES", "EIO"])
    c["garbage"] = r.choice(["ld\ntype: overdamped\n", "%%%\n", "[ld\ntype: x\n", "just some text", "timestep: 1\n[ld]\n"])
    c["long"] = r.random() < 0.3
    if r.random() < 0.6:
        c["old"] = r.randint(1, 10**6)
    return c


def shrinks(case):
    for c in default_shrinks(dict(case, plan=dict(case["plan"]))) if case["kind"] in ("missing-file", "directory", "empty", "garbage", "not-text") else []:
        yield c
    if case.get("old"):
        yield dict(case, old=0)
    if case.get("style"):
        yield dict(case, style=0)


def check(case, o):
    kind = case["kind"]
    good = Spec(case["good"], case["files"])
    files = dict(case["files"])
    text = gen.render(case)
    if case.get("long"):
        text = "# " + "x" * 70 + "\n" + text
        text = text.replace("\n[", "\n" + ("# filling line of a long input file " * 2 + "\n") * 160 + "[")
    faults = []
    files["input"] = text
    if kind == "missing-file":
        del files["input"]
    elif kind == "empty":
        files["input"] = ["", "\n", "# nothing\n"][int(case["f"] * 3)]
    elif kind == "garbage":
        files["input"] = case["garbage"]
    elif kind == "not-text":
        files["input"] = text.encode()[:20] + b"\xff\xfe\x00\x9f" + text.encode()[20:]
    elif kind == "coeff-missing":
        del files["coeffs"]
    if case.get("old"):
        for n in good.data_files():
            if W.unit(case["old"], n) < 0.4:
                files[n] = f"old contents of {n} {case['old']}\n"
    if kind in ("read-fault", "coeff-fault"):
        t = harness.simulate(dict(case, cfg=case["good"]), plan=dict(case["plan"], keep_trace=True), extra_files=files)
        o.saw(t)
        name = "input" if kind == "read-fault" else "coeffs"
        ev = [(j, e) for j, e in enumerate(x for x in t.world.trace if x[1] in W.World.IO) if e[1] in ("open", "read") and e[2] == name]
        if not ev:
            return
        faults = [{"kind": "io", "err": case["err"], "at": ev[min(len(ev) - 1, int(case["f"] * len(ev)))][0]}]
        if case["err"] == "EACCES":  # permission: every attempt fails
            faults = [{"kind": "io", "err": "EACCES", "at": ev[0][0]}]
    with harness.Scratch() as d:
        harness.write_files(d, files)
        if kind == "directory":
            import os

            os.unlink(os.path.join(d, "input"))
            os.mkdir(os.path.join(d, "input"))
        before = harness.read_dir(d)
        w = W.World(d, case["plan"])
        r = harness.run_process(w, faults=faults)
        o.saw(r)
        after = harness.read_dir(d)
    what = case["what"]
    if faults:
        if not r.fired_at:
            o.reach("not-fired")
            return
        what += f" ({r.fired_at[0]['fault']}, event {r.fired_at[0]['event']})"
    if r.steps or r.probe.pre:
        raise Violation("started", f"{what}: the run started ({max(r.steps, len(r.probe.pre))} dynamics steps), {r.status} {r.exc or ''}")
    if r.code == 0:
        raise Violation("status", f"{what}: the run ends with status 0")
    if r.success_msg:
        raise Violation("message", f"{what}: the run reports success")
    if r.status == "steplimit":
        raise Violation("hang", f"{what}: the run does not end")
    if r.stdin_reads:
        raise Violation("stdin", f"{what}: the run reads from standard input")
    n, _ = c14.lost(before, after)
    if n is not None:
        raise Violation("lost-contents", f"{what}: the contents of existing '{n}' is gone")
    o.reach(kind)
    o.nontrivial = True
