"""C28 Inputs that say the same run the same."""
import copy
import random

import numpy as np

from .. import gen, harness
from ..engine import Violation, completed, default_shrinks
from ..spec import Spec

RUNS = {"quick": 3000, "thorough": 100000}
RULE = ("Seeded inputs run in the same simulated world as first written and rewritten without changing what they say: other layout (separators, blanks, continuation lines, comments, "
        "line ends, order of options and sections, upper case option names), other spellings of numbers, switches and variants, documented defaults written out or left out, options shared "
        "through [DEFAULT] or interpolation, unknown options and sections added, coefficients in rows of another order, with or without comments and further columns, directly or by file, "
        "input file of another name, other log level. All output files byte by byte and all walker states bit by bit. Non-trivial: the text differs and at least one file or three steps were compared.")
REWRITES = ["separator", "blanks", "comments", "continuation", "order", "upper", "crlf", "numbers", "switches", "variant", "both-variants", "defaults", "undefault", "to-default",
            "from-default", "interpolation", "unknown-option", "unknown-section", "unused-option", "coeff-file", "coeff-inline", "argv", "no-final-newline"]
MUST_REACH = ["reach:" + x for x in REWRITES]

STATES = {f"state{i}-{m}" for i in range(1, 15) for m in ("min", "max")}
COMMON = {"stride", "filename", "write-stride", "fmt"}
KNOWN = {
    "ld": {"type", "timestep", "n_steps", "seed", "kt", "friction"},
    "potential": {"type", "n_dim", "coeffs", "coeffs-file", "min", "max", "scaling-factor", "boundary-condition"},
    "particles": {"number", "mass", "seed", "initial-distribution", "fractions"} | {f"pos{i}" for i in range(1, 16)},
    "birth-death": {"stride", "correction-variant", "approximation-variant", "exponential-factor", "recalculate-probabilities", "stats-stride", "stats-filename", "seed", "kernel-bandwidth"},
    "trajectories": COMMON | {"momentum"},
    "histogram": COMMON | {"reset", "min", "max", "bins"},
    "fes": COMMON | {"kt", "plot-stride", "plot-filename", "plot-domain", "plot-title"},
    "delta-f": COMMON | STATES,
    "particle-distribution": COMMON | STATES,
}
SWITCHES = [("birth-death", "recalculate-probabilities"), ("trajectories", "momentum")]
UNKNOWN_OPTIONS = ["strid", "strides", "write_stride", "writestride", "write-strides", "n-steps", "nsteps", "seeds", "rng-seed", "bandwidth", "colour", "initial_distribution", "kbt",
                   "temperature", "format", "file-name", "file", "out", "momenta", "masses", "frictions", "resets", "bin", "nbins", "kernel_bandwidth", "stats_stride", "note", "author",
                   "ndim", "dim", "time-step", "dt", "fraction", "position", "states", "minimum", "maximum", "plot", "plot_filename", "factor", "variant", "boundary", "bc", "number-of-walkers"]
UNKNOWN_SECTIONS = ["metadata", "plots", "birth_death", "trajectory", "Histogram", "delta_f", "particle_distribution", "notes", "default", "LD", "FES", "bd"]


def make(r, i, tier):
    c = gen.make(r, bd=0.5, traj=0.85, histo=0.65, fes=0.75, df=0.7, pd=0.6, bd_events=r.random() < 0.5, walkers=6, plots=0.01, huge=0.002, mb=0.15, dims=(6, 4, 1), long=0.25, default_sec=0.35,
                 exact=r.random() < 0.3)
    c["style"] = 0
    k = r.choice([1, 1, 2, 3, 5, 9])
    c["rewrites"] = sorted(r.sample(REWRITES, k), key=REWRITES.index)
    c["salt"] = r.randint(0, 10**9)
    return c


def understood(cfg, key):
    return [s for s in cfg if s != "DEFAULT" and key in KNOWN.get(s, ())]


def sub(r, seq, p=0.7):
    out = [x for x in seq if r.random() < p]
    return out or ([r.choice(seq)] if seq else [])


def parse_coeffs(text, D):
    rows = []
    for line in text.splitlines():
        t = line.split("#")[0].split()
        if t:
            rows.append((tuple(int(float(x)) for x in t[:D]), t[D]))
    return rows


def rewrite(case):
    """(text of the input, other files, argv, which rewrites changed anything)"""
    r = random.Random(case["salt"])
    cfg, files = copy.deepcopy(case["cfg"]), dict(case["files"])
    did, names = set(), case["rewrites"]

    def has(s, k):
        return s in cfg and (k in cfg[s] or k in cfg.get("DEFAULT", {}))

    def value(s, k):
        return cfg[s].get(k, cfg.get("DEFAULT", {}).get(k))

    D = 2 if cfg["potential"]["type"] == "mueller-brown" else int(cfg["potential"]["n_dim"])
    # ---- what is said
    if "variant" in names and "birth-death" in cfg:
        pairs = [("original", "orig"), ("additive", "add"), ("multiplicative", "mult")]
        for k in ("approximation-variant", "correction-variant"):
            for p in pairs:
                if cfg["birth-death"].get(k) in p:
                    v = r.choice(p)
                    nk = r.choice(["approximation-variant", "correction-variant"])
                    if nk != k and not has("birth-death", nk):
                        del cfg["birth-death"][k]
                        k = nk
                        did.add("variant")
                    if cfg["birth-death"].get(k) != v:
                        did.add("variant")
                    cfg["birth-death"][k] = v
                    break
    if "both-variants" in names and "birth-death" in cfg:
        s = cfg["birth-death"]
        v = value("birth-death", "approximation-variant") or value("birth-death", "correction-variant") or "original"
        s["approximation-variant"] = v
        s["correction-variant"] = r.choice(["original", "additive", "multiplicative", "orig", "add", "mult"])
        did.add("both-variants")
    if "defaults" in names:
        poss = [("particles", "mass", "1.0"), ("trajectories", "stride", "1"), ("trajectories", "write-stride", "100"), ("trajectories", "momentum", "false"), ("histogram", "stride", "1"),
                ("birth-death", "exponential-factor", "1.0"), ("birth-death", "recalculate-probabilities", "false")]
        poss += [(s, "fmt", "%%14.9f") for s in ("trajectories", "histogram", "fes", "delta-f", "particle-distribution")]
        for s in ("delta-f", "particle-distribution"):
            if has(s, "stride") and has(s, "filename"):
                poss.append((s, "write-stride", str(100 * int(value(s, "stride")))))
        if not has("birth-death", "correction-variant"):
            poss.append(("birth-death", "approximation-variant", r.choice(["original", "orig"])))
        if D == 2 and cfg["potential"]["type"] == "mueller-brown":
            poss += [("potential", "n_dim", "2"), ("potential", "scaling-factor", "1.0")]
        for s, k, v in sub(r, [x for x in poss if x[0] in cfg and not has(x[0], x[1])]):
            cfg[s][k] = v
            did.add("defaults")
    if "undefault" in names:
        poss = [("particles", "mass", 1.0), ("trajectories", "stride", 1), ("trajectories", "write-stride", 100), ("histogram", "stride", 1), ("birth-death", "exponential-factor", 1.0)]
        for s in ("delta-f", "particle-distribution"):
            if has(s, "stride"):
                poss.append((s, "write-stride", 100 * int(value(s, "stride"))))
        poss += [(s, "fmt", "%%14.9f") for s in ("trajectories", "histogram", "fes", "delta-f", "particle-distribution")]
        poss += [(s, k, False) for s, k in SWITCHES]
        for s, k, v in poss:
            if s in cfg and k in cfg[s] and k not in cfg.get("DEFAULT", {}):
                t = cfg[s][k]
                same = t == v if isinstance(v, str) else (t.strip().lower() in ("false", "no", "off", "0") if v is False else float(t) == v)
                if same:
                    del cfg[s][k]
                    did.add("undefault")
    if "switches" in names:
        for s, k in SWITCHES:
            if s in cfg and k in cfg[s]:
                on = cfg[s][k].strip().lower() in ("1", "yes", "true", "on")
                v = r.choice(["true", "yes", "on", "1", "True", "YES", "On"] if on else ["false", "no", "off", "0", "False", "NO", "Off"])
                if v != cfg[s][k]:
                    did.add("switches")
                cfg[s][k] = v
    if "coeff-inline" in names and D == 1 and cfg["potential"]["type"] == "polynomial":
        p = cfg["potential"]
        if "coeffs" in p:
            rows = [(j, t.strip()) for j, t in enumerate(p.pop("coeffs").split(","))]
            r.shuffle(rows)
            p["coeffs-file"] = "inline.coeffs"
            files["inline.coeffs"] = "".join(f"{j} {t}\n" for j, t in rows)
            did.add("coeff-inline")
        elif "coeffs-file" in p:
            rows = dict(parse_coeffs(files[p["coeffs-file"]], 1))
            top = max(e[0] for e in rows)
            del p["coeffs-file"]
            p["coeffs"] = ", ".join(rows.get((j,), "0") for j in range(top + 1))
            did.add("coeff-inline")
    if "coeff-file" in names and has("potential", "coeffs-file"):
        fn = value("potential", "coeffs-file")
        rows = parse_coeffs(files[fn], D)
        r.shuffle(rows)
        rich, out = r.random() < 0.5, []
        if rich:
            out += ["#! FIELDS idx_dim1 pot.coeffs index description", "#! SET type LinearBasisSet"]
        for j, (e, t) in enumerate(rows):
            c = gen.spell(r, t)
            gap = r.choice([" ", "  ", "\t", "      "])
            out.append(r.choice(["", "  ", "\t"]) + gap.join(str(x) for x in e) + gap + c + (f"{gap}{r.randint(0, 99)}{gap}s^{e[0]}*s^1" if rich else ""))
            if rich and r.random() < 0.2:
                out.append("# 9 9 9")
        if rich:
            out.append("#!-------------------")
        files[fn] = "\n".join(out) + "\n"
        did.add("coeff-file")
    if "numbers" in names:
        for s in cfg:
            for k, v in cfg[s].items():
                if k not in gen.TEXT and r.random() < 0.6:
                    parts = [gen.spell(r, t.strip()) for t in v.split(",")]
                    v2 = r.choice([",", ", ", " , ", ",   ", ",\t"]).join(parts)
                    if v2 != v:
                        did.add("numbers")
                    cfg[s][k] = v2
    if "unused-option" in names:
        poss = []
        if cfg["ld"]["type"] == "overdamped":
            poss.append(("ld", "friction", r.choice(["3.5", "0", "-1", "none"])))
        if cfg["particles"]["initial-distribution"] == "random-global":
            poss += [("particles", "fractions", "0.5, 0.5"), ("particles", "pos1", "0.1"), ("particles", "pos2", "0.2,0.3")]
        if cfg["particles"]["initial-distribution"] == "random-pos":
            poss.append(("particles", "fractions", "0.1, 0.2, 0.3"))
        if cfg["potential"]["type"] == "polynomial":
            poss.append(("potential", "scaling-factor", "0.3"))
        else:
            poss += [("potential", "coeffs", "0,1,2"), ("potential", "coeffs-file", "nowhere"), ("potential", "min", "-1"), ("potential", "max", "1,2,3")]
        for s, k, v in sub(r, [x for x in poss if not has(x[0], x[1])]):
            cfg[s][k] = v
            did.add("unused-option")
    if "to-default" in names:
        keys = sorted({k for s in cfg if s != "DEFAULT" for k in cfg[s]} - set(cfg.get("DEFAULT", {})))
        keys = [k for k in keys if understood(cfg, k) and len({cfg[s].get(k) for s in understood(cfg, k)}) == 1]
        for k in sub(r, keys, 0.3):
            v = {cfg[s].get(k) for s in understood(cfg, k)}.pop()
            for s in understood(cfg, k):
                del cfg[s][k]
            cfg.setdefault("DEFAULT", {})[k] = v
            did.add("to-default")
    elif "from-default" in names:
        for k in list(cfg.get("DEFAULT", {})):
            if r.random() < 0.7:
                v = cfg["DEFAULT"].pop(k)
                for s in understood(cfg, k):
                    cfg[s].setdefault(k, v)
                did.add("from-default")
        if "DEFAULT" in cfg and not cfg["DEFAULT"]:
            del cfg["DEFAULT"]
    if "interpolation" in names:
        poss = [(s, k) for s in cfg if s != "DEFAULT" for k in cfg[s] if "%" not in cfg[s][k]]
        for j, (s, k) in enumerate(r.sample(poss, min(len(poss), r.randint(1, 3)))):
            v = cfg[s][k]
            where = r.choice([s, "DEFAULT"])
            cfg.setdefault(where, {})[f"my-value-{j}"] = v
            cfg[s][k] = f"%(my-value-{j})s"
        did.add("interpolation")
    if "unknown-option" in names:
        for s in sub(r, list(cfg), 0.5):
            for k in r.sample(UNKNOWN_OPTIONS, r.randint(1, 3)):
                cfg[s].setdefault(k, r.choice(["1", "0", "-5", "true", "x", "0.5, 0.6", "a b c", "", "3, x"]))
        did.add("unknown-option")
    if "unknown-section" in names:
        for s in r.sample(UNKNOWN_SECTIONS, r.randint(1, 2)):
            cfg[s] = {k: r.choice(["1", "x", "0.5"]) for k in r.sample(sorted(COMMON | {"seed", "kt", "min", "type"}), r.randint(0, 3))}
        did.add("unknown-section")
    # ---- how it is written
    secs = list(cfg)
    if "order" in names:
        r.shuffle(secs)
        did.add("order")
    out = []
    for s in secs:
        if "comments" in names and r.random() < 0.6:
            out.append(r.choice(["# ", "; ", "   # ", "#"]) + r.choice(["a comment", "[ld]", "stride: 7", "seed = 3", ""]))
            did.add("comments")
        out.append(f"[{s}]")
        keys = list(cfg[s])
        if "order" in names:
            r.shuffle(keys)
        for k in keys:
            v, name = cfg[s][k], k
            if "upper" in names and r.random() < 0.6:
                name = r.choice([k.upper(), k.title(), k.capitalize()])
                did.add("upper")
            if "continuation" in names and "," in v and r.random() < 0.7 and k not in gen.TEXT:
                v = v.replace(",", ",\n    ")
                did.add("continuation")
            sep = ": "
            if "separator" in names:
                sep = r.choice([":", "=", " = ", " : ", ": ", "= "])
                did.add("separator")
            if "blanks" in names:
                sep = r.choice(["", " ", "   ", "\t"]) + sep.strip() + r.choice(["", " ", "    ", "\t"])
                v += r.choice(["", " ", "   ", "\t"])
                did.add("blanks")
            out.append(name + sep + v)
            if "blanks" in names and r.random() < 0.2:
                out += [""] * r.randint(1, 3)
            if "comments" in names and r.random() < 0.2:
                out.append(r.choice(["#", ";"]) + r.choice([" n_steps: 1", " a comment", "stride=1", "[fes]"]))
        out.append("")
    nl = "\n"
    if "crlf" in names:
        nl = "\r\n"
        did.add("crlf")
    text = nl.join(out)
    if "no-final-newline" in names:
        text = text.rstrip()
        did.add("no-final-newline")
    argv = None
    fn = "input"
    if "argv" in names:
        z = r.random()
        if z < 0.4:
            fn = r.choice(["my input.ini", "run-1.inp", "INPUT", "setup.dat"])
        if z > 0.25:
            argv = r.choice([["--log-level", x] for x in ("debug", "info", "error", "WARNING", "critical", "warn")])
            argv = ["bdld"] + (argv + [fn] if r.random() < 0.5 else [fn] + argv)
        else:
            argv = ["bdld", fn]
        did.add("argv")
    return fn, text, files, argv, did


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    a = harness.simulate(case)
    o.saw(a, spec)
    completed(a)
    fn, text, files, argv, did = rewrite(case)
    c2 = dict(case, files=files)
    b = harness.simulate(c2, extra_files={"input": "", fn: text}, argv=argv)
    o.saw(b, spec)
    what = "+".join(sorted(did)) or "nothing"
    if b.status != "ok" and not (b.status == "exit" and b.code == 0):
        raise Violation("rewritten-fails", f"the rewritten input ({what}) ends with {b.status} {b.code} {b.exc or ''}, the first one is accepted; input {text!r}")
    completed(b, f"rewritten input ({what})")
    sa, sb = a.probe.states(), b.probe.states()
    if len(sa) != len(sb):
        raise Violation("steps", f"{len(sa) - 1} steps as first written, {len(sb) - 1} with the rewritten input ({what}): {text!r}")
    for k, (x, y) in enumerate(zip(sa, sb)):
        for f, n in (("pos", "positions"), ("mom", "momenta"), ("ene", "energies"), ("frc", "forces"), ("mass", "masses")):
            u, v = getattr(x, f), getattr(y, f)
            if u.shape != v.shape or not np.array_equal(u, v, equal_nan=True):
                raise Violation("course-" + f, f"{n} after step {k} differ with the rewritten input ({what}): {text!r}")
    skip = set(a.before) | set(b.before)
    fa, fb = {k: v for k, v in a.files.items() if k not in skip}, {k: v for k, v in b.files.items() if k not in skip}
    if set(fa) != set(fb):
        raise Violation("files", f"files {sorted(set(fa) ^ set(fb))} exist only with one of the inputs ({what}): {text!r}")
    for n in sorted(fa):
        if fa[n] != fb[n]:
            la, lb = fa[n].split(b"\n"), fb[n].split(b"\n")
            k = next((k for k, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            raise Violation("file", f"'{n}' differs with the rewritten input ({what}): line {k + 1} is {la[k:k + 1]} and {lb[k:k + 1]}; input {text!r}")
    for d in did:
        o.reach(d)
    o.nontrivial = bool(did) and (bool(fa) or len(sa) > 3)


def shrinks(case):
    for x in case["rewrites"]:
        if len(case["rewrites"]) > 1:
            c = copy.deepcopy(case)
            c["rewrites"].remove(x)
            yield c
    for c in default_shrinks(case):
        c["style"] = 0
        yield c
