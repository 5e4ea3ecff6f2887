"""Swarm generator of inputs and world plans.  Everything is a function of one random.Random."""
from .world import mix

FMT_EXACT = ["%%.17g", "%%.17e", "%%24.17e"]
FMT_ANY = ["%%14.9f", "%%.6f", "%%10.4f", "%%.3e", "%%.12g"]


def num(x):
    return repr(float(x)) if not isinstance(x, str) else x


def stride(r, n):
    c = r.random()
    if c < 0.28:
        return 1
    if c < 0.62:
        return r.choice([2, 3, 4, 5, 6, 7, 10])
    if c < 0.72:
        return max(1, n)
    if c < 0.80:
        return n + r.randint(1, 5)
    if c < 0.90:
        return max(1, n // r.randint(2, 4))
    return r.randint(1, max(1, n))


def n_steps(r, long=0.15, cap=60):
    c = r.random()
    if c < long:
        return r.choice([99, 100, 101, 120, 150, 199, 200, 201, 205])
    if c < 0.3:
        return r.choice([1, 2, 3, 5, 10, 20, 30])
    return r.randint(4, cap)


COEFFS_1D = [
    "0, 0.2, -4, 0, 1", "0,0,1", "0,0,0.5,0,0.25", "0", "1.5,-0.3,2", "0,0,-2,0,1", "0,0.1,-1,0.05,0.5", "3,0,0,0,0.1",
    "0,0.0,4", "0.5,-0.2,0.3,0.1,-0.05,0.02,0.003", "0,0,-1,0,0,0,0,0,0.0002", "0,2.5",
]


def gauss_range(r):
    if r.random() < 0.12:  # irregular numbers
        lo = round(r.uniform(-3.5, 0.8), r.choice([2, 4, 7]))
        return lo, round(lo + r.uniform(0.4, 6.5), r.choice([2, 3, 6]))
    lo = r.choice([-2.5, -1.0, -3.25, -1.7, 0.0, 0.25, -4.0])
    return lo, lo + r.choice([0.5, 1.0, 2.0, 2.75, 5.0, 6.1])


def coeffs_1d(r):
    if r.random() > 0.15:
        return r.choice(COEFFS_1D)
    c = [round(r.uniform(-1.5, 1.5) / (1 + 0.6 * j * j), r.choice([1, 3, 5])) for j in range(r.randint(1, 9))]
    if len(c) > 2 and r.random() < 0.5:
        c[r.randrange(len(c))] = 0.0
    if len(c) > 3:
        c[-1] = abs(c[-1]) / 4
    return ",".join(num(x) for x in c)


def coeff_file(r, D):
    rows = {}
    for d in range(D):
        e = [0] * D
        e[d] = 2
        rows[tuple(e)] = r.choice([0.5, 1.0, 2.0, -1.5])
        e = [0] * D
        e[d] = 4
        rows[tuple(e)] = r.choice([0.25, 0.5, 1.0])
        if r.random() < 0.5:
            e = [0] * D
            e[d] = 1
            rows[tuple(e)] = round(r.uniform(-1, 1), 3)
    if r.random() < 0.5:
        e = [1] * D
        rows[tuple(e)] = round(r.uniform(-0.5, 0.5), 3)
    if r.random() < 0.3:  # mixed term of different orders
        e = [r.randint(0, 3) for _ in range(D)]
        rows.setdefault(tuple(e), round(r.uniform(-0.05, 0.05), 4))
    if r.random() < 0.1:
        e = [0] * D
        e[r.randrange(D)] = r.choice([5, 6])
        rows[tuple(e)] = 0.002
    if r.random() < 0.1:
        e = [0] * D
        e[0] = 2
        rows = {tuple(e): 1.0}
    keys = list(rows)
    r.shuffle(keys)
    return coeff_text(r, {e: rows[e] for e in keys})


def coeff_text(r, rows):
    """Plain, or in the documented style of the plumed tool (comments, more columns)."""
    if r.random() < 0.7:
        return "".join(" ".join(str(k) for k in e) + f" {c!r}\n" for e, c in rows.items())
    out = "#! FIELDS idx pot.coeffs index description\n#! SET type LinearBasisSet\n"
    for j, (e, c) in enumerate(rows.items()):
        out += "".join(f"{k:8d}" for k in e) + f"  {c:+.16e} {j:6d}  s^{e[0]}*1\n"
    return out + "#!-------------------\n"


def box(r, ranges):
    lo, hi = [], []
    for a, b in ranges:
        u, v = sorted((r.uniform(a, b), r.uniform(a, b)))
        c = r.random()
        if c < 0.3:
            u = a
        elif c < 0.5:
            v = b
        elif c < 0.6:
            u, v = a, b
        if r.random() < 0.5:
            u, v = round(u, 1), round(v, 1)
        lo.append(u)
        hi.append(v)
    return ",".join(num(x) for x in lo), ",".join(num(x) for x in hi)


def states(r, sec, ranges, lo=1, hi=4):
    for i in range(1, (r.randint(lo, hi) if r.random() < 0.95 else r.randint(9, 12)) + 1):
        sec[f"state{i}-min"], sec[f"state{i}-max"] = box(r, ranges)


def make(r, dims=(6, 3, 1), mb=0.12, bd=0.3, traj=0.6, histo=0.5, fes=0.6, df=0.6, pd=0.5, seeded=1.0, bc=None, walkers=6,
         extreme=0.3, exact=False, long=0.15, cap=60, plots=0.0, init=None, files_always=False, od=0.35, corr=0.25,
         bd_events=False, min_walkers=1, mild=None, mom=0.4, default_sec=0.15, hot=0.3, crowd=0.03, huge=0.004, vast=0.0, still=0.0):
    """One input.  Numbers in the signature are probabilities of a part being present."""
    cfg, files, plan = {}, {}, {}
    n = n_steps(r, long, cap)
    scale = None
    if r.random() < huge:  # numbers beyond those of small buffers and small integer types
        scale = r.choice(["walkers", "steps"])
        n = r.randint(2, 7) if scale == "walkers" else r.choice([999, 1000, 1001, 1024, 1500, 2049])
    if vast and r.random() < vast:  # counters beyond 16 bits
        scale = "steps"
        n = r.choice([32768, 33000, 40000, 65537, 66000])
        dims, walkers = (1, 0, 0), 2
    D = r.choices([1, 2, 3], dims)[0]
    is_mb = D == 2 and r.random() < mb * 3 if dims[1] else False
    # ---- potential
    if is_mb:
        D = 2
        cfgp = {"type": "mueller-brown"}
        if r.random() < 0.6:
            cfgp["scaling-factor"] = num(r.choice([0.05, 0.1, 0.5, 2.0, 0.1, 0.05, 0.0, -0.05]))
        ranges = [(-1.5, 1.5), (-0.5, 2.5)]
    elif D == 1:
        lo, hi = gauss_range(r)
        ranges = [(lo, hi)]
        cfgp = {"type": "polynomial", "n_dim": "1", "coeffs": coeffs_1d(r), "min": num(lo), "max": num(hi)}
        if r.random() < 0.08:
            rows = {(j,): float(v) for j, v in enumerate(cfgp.pop("coeffs").split(",")) if float(v) or j == 0}
            cfgp["coeffs-file"] = "coeffs"
            files["coeffs"] = coeff_text(r, rows)
    else:
        ranges = [gauss_range(r) for _ in range(D)]
        cfgp = {"type": "polynomial", "n_dim": str(D), "coeffs-file": "coeffs",
                "min": ",".join(num(a) for a, _ in ranges), "max": ",".join(num(b) for _, b in ranges)}
        files["coeffs"] = coeff_file(r, D)
    b = r.choice(bc) if bc is not None else r.choice([None, None, "reflective", "periodic"])
    if b:
        cfgp["boundary-condition"] = b
    # ---- dynamics
    ld = {}
    is_od = r.random() < od
    ld["type"] = "overdamped" if is_od else "bussi-parinello"
    dt = r.choice([0.0001, 0.0002, 0.0005]) if is_mb else r.choice([0.001, 0.005, 0.01, 0.01, 0.02, 0.004])
    ld["timestep"] = num(dt)
    ld["n_steps"] = str(n)
    if not is_od:
        ld["kt"] = num(r.choice([0.5, 1.0, 1.0, 2.0, 0.1, 2.5]))
        ld["friction"] = num(r.choice([10.0, 1.0, 0.5, 50.0, 5.0, 0.0, 1000.0, 1e-4]))
    if b and not is_mb and r.random() < hot:  # walkers that cross the whole range all the time
        ld["timestep"] = num(r.choice([0.05, 0.1]))
        if not is_od:
            ld["kt"], ld["friction"] = num(r.choice([5.0, 10.0])), num(r.choice([5.0, 20.0]))
    sd = r.random() < seeded

    def seed(s):
        if sd:
            s["seed"] = str(r.choice([0, 1, 2, 5, 42, 1000, 632683, 2**31, 2**32 + 5, 10**20 + 7, r.randint(0, 10**6), r.randint(0, 10**6)]))

    seed(ld)
    # ---- particles
    k = r.choice([1, 2, 2, 3, 4, walkers, walkers, r.randint(1, walkers)])
    k = max(k, min_walkers)
    if r.random() < crowd:
        k = r.choice([10, 11, 12, 17, 25, 33])
    if scale:
        k = r.choice([128, 130, 256, 257, 300, 400, 1030]) if scale == "walkers" else min(k, 3 if n < 10000 else 2)
    q = {"number": str(k)}
    if r.random() < 0.4:
        q["mass"] = num(r.choice([1.0, 0.5, 2.0, 10.0, 1.7, 0.05, 200.0]))
    how = init or r.choice(["random-global", "random-global", "random-pos", "fractions-pos"])
    q["initial-distribution"] = how
    if how != "random-global":
        m = r.randint(1, 4) if r.random() < 0.94 else r.randint(9, 13)
        for i in range(1, m + 1):
            q[f"pos{i}"] = ",".join(num(round(r.uniform(a, c), 2)) for a, c in ranges)
        if how == "fractions-pos":
            q["fractions"] = ",".join(num(r.choice([0.1, 0.2, 0.25, 0.5, 1, 2, 3, 7, 1 / 3])) for _ in range(m))
    seed(q)
    cfg["ld"], cfg["potential"], cfg["particles"] = ld, cfgp, q
    # ---- birth-death
    if r.random() < bd:
        s = {"stride": str(r.choice([1, 1, 2, 3, 5, 7, 10, n, n + 1]) if not bd_events else r.choice([1, 1, 2, 3, 4]))}
        s["kernel-bandwidth"] = ",".join(num(r.choice([0.1, 0.3, 0.5, 1.0, 0.05]) if r.random() < 0.75 else round(r.uniform(0.05, 1.2), r.choice([2, 4, 6, 8])))
                                         for _ in range(D))
        if r.random() < 0.7 or bd_events:
            s["exponential-factor"] = num(r.choice([1.0, 10.0, 30.0, 100.0, 1000.0]))
        if scale:
            s["stride"] = str(max(int(s["stride"]), n // 2, 1))
        if r.random() < 0.45 and scale != "walkers":
            s["recalculate-probabilities"] = r.choice(["true", "yes", "on", "True", "1"])
        c = r.random()
        if D == 1 and c < corr:
            v = r.choice(["additive", "add", "multiplicative", "mult"])
            s[r.choice(["approximation-variant", "correction-variant"])] = v
        elif c < corr + 0.1:
            s["approximation-variant"] = r.choice(["original", "orig"])
        if r.random() < 0.6:
            s["stats-stride"] = str(stride(r, n))
        if r.random() < 0.6:
            s["stats-filename"] = "stats"
        seed(s)
        cfg["birth-death"] = s

    def fmt(s):
        if exact:
            s["fmt"] = r.choice(FMT_EXACT)
        elif r.random() < 0.5:
            s["fmt"] = r.choice(FMT_ANY + FMT_EXACT)

    def name(s, base):
        if files_always or r.random() < 0.85:
            s["filename"] = base
            return True
        return False

    # ---- observers
    has_h = r.random() < histo
    if has_h or r.random() < traj:
        s = {}
        name(s, "traj")
        if r.random() < 0.7:
            s["stride"] = str(stride(r, n))
        if r.random() < 0.8:
            s["write-stride"] = str(stride(r, n))
        if r.random() < mom:
            s["momentum"] = r.choice(["true", "yes", "false", "on"])
        fmt(s)
        cfg["trajectories"] = s
    if has_h:
        s = {}
        nb = [r.choice([1, 2, 3, 5, 8, 10]) if D > 1 else r.choice([1, 2, 4, 7, 10, 20]) for _ in range(D)]
        if r.random() < 0.04:  # fine grids
            nb = [r.choice([33, 50, 64, 100, 101, 128, 200, 257]) for _ in range(D)] if D == 1 else [r.randint(9, 40 if D == 2 else 13) for _ in range(D)]
        hr = []
        for a, c in ranges:
            z = r.random()
            w = c - a
            if z < 0.5:
                hr.append((a, c))
            elif z < 0.7:
                hr.append((a + 0.25 * w, c - 0.1 * w))
            elif z < 0.85:
                hr.append((a - 0.5 * w, c + 0.5 * w))
            else:
                hr.append((-0.5, 0.5))
        s["bins"] = ",".join(str(v) for v in nb)
        s["min"] = ",".join(num(a) for a, _ in hr)
        s["max"] = ",".join(num(c) for _, c in hr)
        if r.random() < 0.5:
            s["stride"] = str(stride(r, n))
        if name(s, "histo") and r.random() < 0.6:
            s["write-stride"] = str(stride(r, n))
        if r.random() < 0.4:
            s["reset"] = ",".join(str(r.randint(1, n + 3)) for _ in range(r.randint(1, 3)))
        if exact or r.random() < 0.3:
            s["fmt"] = r.choice(["%%.17g", "%%14.9f", "%%.12e"] if not exact else FMT_EXACT)
        cfg["histogram"] = s
        if r.random() < fes:
            s = {"kt": num(r.choice([1.0, 0.5, 2.0, 2.494])) if is_od or r.random() < 0.4 else ld["kt"]}
            if r.random() < 0.8:
                s["stride"] = str(stride(r, n))
            if name(s, "fes") and "stride" in s and r.random() < 0.7:
                s["write-stride"] = str(stride(r, n))
            fmt(s)
            if plots and r.random() < plots and D <= 2:
                s["plot-filename"] = r.choice(["fes.png", "plot.png", "p.v1.png"])
                if "stride" in s and r.random() < 0.6:
                    s["plot-stride"] = str(max(stride(r, n), max(1, n // 4)))
                if r.random() < 0.5:
                    s["plot-domain"] = "0,8"
                if r.random() < 0.3:
                    s["plot-title"] = "Surface"
            cfg["fes"] = s
            if r.random() < df:
                s = {}
                states(r, s, hr, 2, 4)
                if r.random() < 0.85:
                    s["stride"] = str(stride(r, n))
                if name(s, "delta_f") and "stride" in s and r.random() < 0.7:
                    s["write-stride"] = str(int(s["stride"]) * r.choice([1, 1, 2, 3, 4, 5, 10]))
                fmt(s)
                cfg["delta-f"] = s
    if r.random() < pd:
        s = {}
        states(r, s, ranges, 1, 4)
        if r.random() < 0.85:
            s["stride"] = str(stride(r, n))
        if name(s, "dist") and "stride" in s and r.random() < 0.7:
            s["write-stride"] = str(int(s["stride"]) * r.choice([1, 1, 2, 3, 4, 5, 10]))
        fmt(s)
        cfg["particle-distribution"] = s
    if n > 10000:
        for x in ("histogram", "fes"):
            for y in ("write-stride", "plot-stride"):
                if y in cfg.get(x, {}):
                    cfg[x][y] = str(max(int(cfg[x][y]), n // 5))
        if "fes" in cfg and "stride" in cfg["fes"]:
            cfg["fes"]["stride"] = str(max(int(cfg["fes"]["stride"]), n // 20))
        if "write-stride" in cfg.get("trajectories", {}):
            cfg["trajectories"]["write-stride"] = str(max(int(cfg["trajectories"]["write-stride"]), 50))
    if still and r.random() < still:  # walkers that stay exactly where states and histograms end
        ld["timestep"] = r.choice(["0", "0.0"])
        tab = [[float(x) for x in s[o].split(",")] for s in cfg.values() for o in s if o in ("min", "max") or o.startswith("state")]
        tab = [v for v in tab if len(v) == D] or [[a for a, _ in ranges]]
        q["initial-distribution"] = how = r.choice(["random-pos", "fractions-pos"])
        for o in [o for o in q if o.startswith("pos") or o == "fractions"]:
            del q[o]
        m = r.randint(1, 6)
        for i in range(1, m + 1):
            q[f"pos{i}"] = ",".join(num(r.choice(tab)[d] + r.choice([0, 0, 0, 1e-9, -1e-9, 1e-6, -1e-4])) for d in range(D))
        if how == "fractions-pos":
            q["fractions"] = ",".join("1" for _ in range(m))
    # ---- common options moved to [DEFAULT]
    if r.random() < default_sec:
        d = {}
        if sd:
            d["seed"] = ld["seed"]
            for name_ in ("ld", "particles", "birth-death"):
                if name_ in cfg:
                    cfg[name_].pop("seed", None)
        if not is_od and "fes" in cfg and r.random() < 0.5:
            d["kt"] = ld.pop("kt")
            cfg["fes"].pop("kt")
        z = r.random()
        if z < 0.25:
            d["fmt"] = r.choice(FMT_EXACT)
            for x in cfg.values():
                if r.random() < 0.5:
                    x.pop("fmt", None)
        elif z < 0.4:
            d["mass"] = q.pop("mass", "1.5")
        elif z < 0.5 and b:
            d["boundary-condition"] = cfgp.pop("boundary-condition")
        cfg = {"DEFAULT": d, **cfg} if d else cfg
    if r.random() < 0.12:
        spelling(r, cfg)
    # ---- world
    plan["entropy"] = r.randint(1, 10**9)
    plan["bufsize"] = r.choice([8192, 8192, 4096, 1, 7, 64, 512])
    if r.random() < 0.3:
        plan["short"] = r.choice([0.05, 0.3, 0.8])
    plan["clock"] = [r.choice([0, 1.6e9, 4.1e9]), r.choice([0, 0, -3600, 86400])]
    if r.random() < extreme:
        p = r.choice([0.01, 0.05, 0.2])
        wild = b is not None and not mild
        plan["rng"] = {"p": p, "salt": r.randint(0, 10**9)}
        if not wild:
            plan["rng"]["mild"] = 1
    return {"cfg": cfg, "files": files, "plan": plan, "style": r.randint(0, 5)}


TEXT = {"type", "initial-distribution", "approximation-variant", "correction-variant", "boundary-condition", "filename", "stats-filename", "plot-filename", "plot-title",
        "fmt", "coeffs-file", "recalculate-probabilities", "momentum"}


def spell(r, t):
    """Another spelling of the same number."""
    x = float(t)
    c = [t, "+" + t if t[0] not in "+-" else t]
    if "." in t or "e" in t:
        c += [f"{x:.17e}", f"{x:E}", t + "0" if "e" not in t else t, f"{x:g}"]
        if t.startswith("0."):
            c.append(t[1:])
    else:
        c += ["0" + t] if t.isdigit() else []
        if t.isdigit() and len(t) > 3:
            c.append(f"{int(t):_}")
    v = r.choice(c)
    return v if float(v) == x else t


def spelling(r, cfg):
    """The same values, written differently (spaces in lists, signs, exponents, leading zeros)."""
    for s in cfg.values():
        for k, v in s.items():
            if k in TEXT or r.random() < 0.5:
                continue
            parts = [spell(r, t.strip()) for t in v.split(",")]
            s[k] = r.choice([",", ", ", " , ", ",  "]).join(parts)


FILE_OPTIONS = [("trajectories", "filename"), ("histogram", "filename"), ("fes", "filename"), ("delta-f", "filename"), ("particle-distribution", "filename"),
                ("birth-death", "stats-filename"), ("fes", "plot-filename"), ("potential", "coeffs-file")]


def rename(r, c):
    """Other legal file names: in another directory, with spaces, dots, extensions, digits."""
    if r.random() > 0.2:
        return c
    cfg, files = c["cfg"], c["files"]
    for s, k in FILE_OPTIONS:
        old = cfg.get(s, {}).get(k)
        if not old or r.random() < 0.3:
            continue
        d = r.choice(["", "", "", "out/", "sub/dir/", "v1.2/"])
        new = d + r.choice(["", "", "a b ", "1", "x_10.", "run #2 ", "a ;b", "kt=1:"]) + old
        if k != "plot-filename":
            new += r.choice(["", "", ".dat", "_10", ".0"])
        if k == "coeffs-file":
            files[new] = files.pop(old)
        elif d:
            files[d + ".keep"] = ""
        cfg[s][k] = new
    return c


def render(case):
    """Text of the input file: the same options in one of several spellings."""
    cfg, style = case["cfg"], case.get("style", 0)
    secs = list(cfg)
    if style in (3, 4):
        head = [s for s in secs if s == "DEFAULT"]
        rest = [s for s in secs if s != "DEFAULT"]
        rest.sort(key=lambda s: mix(style, s))
        secs = head + rest
    out = []
    if style in (1, 4):
        out.append("# generated input")
    for s in secs:
        out.append(f"[{s}]")
        for k, v in cfg[s].items():
            if style == 1:
                out.append(f"{k} = {v}")
            elif style == 2:
                out.append(f"{k}={v}")
            elif style == 5:
                out.append(f"{k.upper()} : {v}")
            else:
                out.append(f"{k}: {v}")
            if style == 4 and k == "stride":
                out.append("; a comment")
        if style != 2:
            out.append("")
    return "\n".join(out) + "\n"
