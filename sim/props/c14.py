"""C14 Existing data files are never overwritten or lost."""
import collections
import copy
import os
import random
import shutil

from .. import gen, harness, world as W
from ..engine import Violation, default_shrinks
from ..spec import Spec
from . import c12, c13

RENAME = False  # file names are part of the case itself
RUNS = {"quick": 4000, "thorough": 36000}
RULE = ("One directory with earlier results, backups (with gaps in their numbering) and unrelated files under the names the run will use; then a sequence of runs in "
        "it, each with other seeds, lengths and parts, each undisturbed, killed, interrupted or hit by a storage fault at a random operation. After every "
        "process each earlier contents still has to exist, byte by byte and as often as before, under its own or a backup name; input and coefficient files are "
        "unchanged. Non-trivial: at least one existing file had the name of an output.")
MUST_REACH = ["reach:existing-output", "reach:existing-backup", "reach:backup-gap", "reach:after-kill", "reach:after-fault", "reach:killed-in-rename",
              "reach:snapshot-existing", "reach:second-run"]


def make(r, i, tier):
    c = gen.make(r, bd=0.5, traj=0.9, histo=0.6, fes=0.7, df=0.6, pd=0.6, files_always=True, walkers=4, long=0.03, cap=25, seeded=0.9)
    if "birth-death" in c["cfg"]:
        c["cfg"]["birth-death"].setdefault("stats-filename", "stats")
    z = r.random()
    if z < 0.35:  # other names, sub-directories
        for s in ("trajectories", "histogram", "fes", "delta-f", "particle-distribution"):
            f = c["cfg"].get(s, {}).get("filename")
            if f:
                c["cfg"][s]["filename"] = r.choice(["out/", "", "sub/dir/"]) + r.choice([f, f + "[1]", f + ".dat", "a b " + f, "bck.0." + f, f + "*"])
    c["preseed"] = r.randint(1, 10**9)
    c["shadow"] = r.random() < 0.1
    c["ops"] = []
    for _ in range(r.randint(1, 3 if tier == "quick" else 5)):
        op = {"seed": r.randint(0, 10**6), "n": r.randint(1, 25)}
        z = r.random()
        if z < 0.35:
            op["kill"] = {"kind": r.choice(["crash", "crash", "crash", "crash", "sigint", "sigint", "sigterm", "sighup"]), "where": r.choice(["any", "io", "io", "dirop"]), "f": r.random(),
                          "torn": r.choice([0.0, 0.5, 1.0])}
        elif z < 0.6:
            op["fault"] = {"kind": "io", "err": r.choice(["ENOSPC", "EIO", "EACCES"]), "where": r.choice(["any", "write", "open", "dirop", "close"]),
                           "f": r.random(), "keep": r.choice([0.0, 0.5])}
            if r.random() < 0.3:
                op["fault"].update(sticky=True, on=r.choice([["dirop"], ["write"], ["open", "write", "dirop", "close"]]))
        if r.random() < 0.25:
            op["drop"] = r.choice(["histogram", "birth-death", "particle-distribution", "delta-f"])
        c["ops"].append(op)
    return c


def shrinks(case):
    yield from default_shrinks(case)
    if case["preseed"]:
        yield dict(case, preseed=0)
    for j, op in enumerate(case["ops"]):
        for k in ("kill", "fault", "drop"):
            if k in op:
                c = copy.deepcopy(case)
                del c["ops"][j][k]
                yield c


def op_cfg(case, op):
    cfg = copy.deepcopy(case["cfg"])
    cfg["ld"]["n_steps"] = str(op["n"])
    for s in cfg.values():
        if "seed" in s:
            s["seed"] = str(op["seed"])
    d = op.get("drop")
    if d in cfg:
        del cfg[d]
        if d == "histogram":
            cfg.pop("fes", None)
            cfg.pop("delta-f", None)
    return cfg


def existing(case, o):
    """Files that lie in the directory before the first run."""
    out = {}
    if not case["preseed"]:
        return out
    r = random.Random(case["preseed"])
    names = []
    for op in case["ops"]:
        for n in Spec(op_cfg(case, op), case["files"]).data_files():
            if n not in names:
                names.append(n)
    p = r.choice([0.2, 0.5, 1.0])
    u = 0
    for n in names:
        d, f = os.path.split(n)
        if r.random() < p:
            u += 1
            out[n] = f"existing {n} {u} of {case['preseed']}\n" * r.randint(1, 3)
            o.reach("existing-output")
            if "_" in f and f.rsplit("_", 1)[1].isdigit():
                o.reach("snapshot-existing")
        if r.random() < 0.4:
            for k in sorted(r.sample(range(4), r.randint(1, 3))) if r.random() < 0.95 else range(r.randint(9, 13)):
                b = os.path.join(d, f"bck.{k}.{f}")
                if b in names:
                    continue
                u += 1
                out[b] = f"backup {k} of {n} {u} of {case['preseed']}\n"
                o.reach("existing-backup")
                if k and os.path.join(d, f"bck.{k - 1}.{f}") not in out:
                    o.reach("backup-gap")
    out["notes.txt"] = f"unrelated {case['preseed']}\n"
    if r.random() < 0.3:
        out["traj.77"] = f"trajectory of an older run {case['preseed']}\n"
    if r.random() < 0.2:
        out["empty"] = ""
    return out


def lost(before, after):
    """First contents of before that is not preserved in after, or None; and where every contents is now."""
    have = collections.defaultdict(list)
    for n, c in after.items():
        have[c].append(n)
    byc = collections.defaultdict(list)
    for n, c in before.items():
        byc[c].append(n)
    now = {}
    for c, names in sorted(byc.items(), key=lambda x: x[1]):
        # every earlier file needs a place of its own: same name or a name that contains it (backup) in the same directory
        left = have.get(c, [])
        for n in sorted(names, key=len, reverse=True):
            ok = None
            for q in ([n] if n in left else []) + sorted(left, key=lambda x: ("bck." not in x, len(x), x)):
                if q == n or (os.path.dirname(q) == os.path.dirname(n) and os.path.basename(n) in os.path.basename(q)):
                    ok = q
                    break
            if ok is None:
                return n, now
            left.remove(ok)
            now[ok] = c
    return None, now


def check(case, o):
    with harness.Scratch() as d:
        pre = existing(case, o)
        for n in Spec(case["cfg"], case["files"]).data_files():
            if os.path.dirname(n):
                os.makedirs(os.path.join(d, os.path.dirname(n)), exist_ok=True)
        harness.write_files(d, pre)
        harness.write_files(d, case["files"])
        o.nontrivial = any(n in pre for op in case["ops"] for n in Spec(op_cfg(case, op), case["files"]).data_files()) or len(case["ops"]) > 1
        # what has to be preserved: everything that lay there before the first run and every documented data file, also after it was moved
        # away; not the temporary files of a killed run
        results = {n for op in case["ops"] for n in Spec(op_cfg(case, op), case["files"]).data_files()} | set(pre)
        if case.get("shadow"):
            # files of the user under the other names that the first run uses on its way
            with harness.Scratch() as d2:
                shutil.rmtree(d2)
                shutil.copytree(d, d2)
                cfg = op_cfg(case, case["ops"][0])
                harness.write_files(d2, {"input": gen.render({"cfg": cfg, "files": case["files"], "style": case.get("style", 0)}).encode()})
                w = W.World(d2, case["plan"])
                r0 = harness.run_process(w, faults=[])
                o.saw(r0)
                known = results | set(Spec(cfg, case["files"]).plot_files()) | {"input"} | set(case["files"])
                for n in sorted(w.made - known):
                    if not n.startswith("..") and "bck." not in n and not os.path.exists(os.path.join(d, n)):
                        harness.write_files(d, {n: f"file of the user with the name {n}\n"})
                        results.add(n)
                        o.reach("shadowed")
        keep = dict(harness.read_dir(d))
        for j, op in enumerate(case["ops"]):
            cfg = op_cfg(case, op)
            sub = {"cfg": cfg, "files": case["files"], "style": case.get("style", 0)}
            spec = Spec(cfg, case["files"])
            text = gen.render(sub).encode()
            harness.write_files(d, {"input": text})
            faults = []
            if op.get("kill") or op.get("fault"):
                with harness.Scratch() as d2:
                    shutil.rmtree(d2)
                    shutil.copytree(d, d2)
                    w = W.World(d2, dict(case["plan"], keep_trace=True))
                    r0 = harness.run_process(w, faults=[])
                    o.saw(r0, spec)
                if op.get("kill"):
                    k = op["kill"]
                    if k["where"] == "dirop":
                        ev = [t for t in w.trace if t[1].startswith("dirop")] or w.trace
                        t = ev[min(len(ev) - 1, int(k["f"] * len(ev)))]
                        faults = [{"kind": k["kind"], "at": t[0], "torn": k["torn"]}]
                        if t[1].startswith("dirop"):
                            o.reach("killed-in-rename")
                    else:
                        faults = [c12.locate(w.trace, k)[0]]
                else:
                    f = c13.locate(w.trace, op["fault"])
                    faults = [f] if f else []
            w = W.World(d, case["plan"])
            r = harness.run_process(w, faults=faults)
            o.saw(r, spec)
            after = harness.read_dir(d)
            how = (f"run {j + 1} ({r.status}" + (f" {r.exc}" if r.exc else "") + ")")
            if r.fired_at:
                x = r.fired_at[0]
                how += f" with {x['fault']} on '{x['file']}' (event {x['event']})"
            for n in ["input"] + list(case["files"]):
                want = text if n == "input" else case["files"][n].encode()
                if after.get(n) != want:
                    raise Violation("input-changed", f"{how}: '{n}' was modified")
            ignore = set(spec.plot_files()) | {"input"} | set(case["files"])
            n, keep = lost({q: c for q, c in keep.items() if q not in ignore}, after)
            if n is not None:
                raise Violation("lost-contents", f"{how}: the contents of existing '{n}' is gone (neither under its own nor a backup name)")
            keep.update({q: c for q, c in after.items() if q in results})
            if j:
                o.reach("second-run")
                prev = case["ops"][j - 1]
                if prev.get("kill"):
                    o.reach("after-kill")
                if prev.get("fault"):
                    o.reach("after-fault")
