"""Typed view of an input (cfg = {section: {option: string}}) with the documented defaults.

Written from the documentation, independently of bdld's own parser.
"""


def _f(s):
    return float(s)


def _fl(s):
    return [float(x) for x in str(s).split(",")]


def _il(s):
    return [int(x) for x in str(s).split(",")]


def _b(s):
    return str(s).strip().lower() in ("1", "yes", "true", "on")


def _fmt(s):
    return str(s).replace("%%", "%") if s is not None else "%14.9f"


class Sec:
    def __init__(self, **k):
        self.__dict__.update(k)


class Spec:
    def __init__(self, cfg, files=None):
        files = files or {}
        d = cfg.get("DEFAULT", {})

        def sec(name):
            s = dict(d)
            s.update(cfg[name])
            return s

        ld = sec("ld")
        self.ld_type = ld["type"]
        self.dt = _f(ld["timestep"])
        self.n_steps = int(ld["n_steps"])
        self.ld_seed = int(ld["seed"]) if "seed" in ld else None
        if self.ld_type == "overdamped":
            self.kt, self.friction = 1.0, None
        else:
            self.kt, self.friction = _f(ld["kt"]), _f(ld["friction"])
        p = sec("potential")
        self.pot_type = p["type"]
        self.scale = 1.0
        if self.pot_type == "polynomial":
            self.ndim = int(p["n_dim"])
            if self.ndim == 1:
                self.ranges = [(_f(p["min"]), _f(p["max"]))]
            else:
                self.ranges = list(zip(_fl(p["min"]), _fl(p["max"])))
            if self.ndim == 1 and "coeffs" in p:
                self.coeffs = {(i,): c for i, c in enumerate(_fl(p["coeffs"]))}
            else:
                self.coeffs = {}
                for line in files[p["coeffs-file"]].splitlines():
                    t = line.split("#")[0].split()
                    if t:
                        self.coeffs[tuple(int(float(x)) for x in t[: self.ndim])] = float(t[self.ndim])
        else:
            self.ndim = 2
            self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
            self.coeffs = None
            self.scale = _f(p["scaling-factor"]) if "scaling-factor" in p else 1.0
        self.bc = p.get("boundary-condition")
        q = sec("particles")
        self.n = int(q["number"])
        self.mass = _f(q.get("mass", "1.0"))
        self.init = q["initial-distribution"]
        self.part_seed = int(q["seed"]) if "seed" in q else None
        self.pos = []
        while f"pos{len(self.pos) + 1}" in q:
            self.pos.append(_fl(q[f"pos{len(self.pos) + 1}"]))
        self.fractions = _fl(q["fractions"]) if "fractions" in q else None

        def opt(s, k, conv, default=None):
            return conv(s[k]) if k in s else default

        self.bd = self.traj = self.histo = self.fes = self.df = self.pd = None
        if "birth-death" in cfg:
            s = sec("birth-death")
            var = s.get("approximation-variant") or s.get("correction-variant") or "original"
            var = {"orig": "original", "add": "additive", "mult": "multiplicative"}.get(var, var)
            self.bd = Sec(
                stride=int(s["stride"]), bw=_fl(s["kernel-bandwidth"]), variant=var,
                factor=opt(s, "exponential-factor", _f, 1.0), recalc=opt(s, "recalculate-probabilities", _b, False),
                stats_stride=opt(s, "stats-stride", int), stats_filename=s.get("stats-filename"),
                seed=opt(s, "seed", int),
            )
        if "trajectories" in cfg:
            s = sec("trajectories")
            self.traj = Sec(
                filename=s.get("filename"), stride=opt(s, "stride", int, 1), momentum=opt(s, "momentum", _b, False),
                write_stride=opt(s, "write-stride", int, 100), fmt=_fmt(s.get("fmt")),
            )
        if "histogram" in cfg:
            s = sec("histogram")
            self.histo = Sec(
                stride=opt(s, "stride", int, 1), reset=opt(s, "reset", _il, []), filename=s.get("filename"),
                write_stride=opt(s, "write-stride", int), fmt=_fmt(s.get("fmt")),
                ranges=list(zip(_fl(s["min"]), _fl(s["max"]))), bins=_il(s["bins"]),
            )
        if "fes" in cfg:
            s = sec("fes")
            self.fes = Sec(
                kt=_f(s["kt"]), stride=opt(s, "stride", int), filename=s.get("filename"),
                write_stride=opt(s, "write-stride", int), fmt=_fmt(s.get("fmt")),
                plot_stride=opt(s, "plot-stride", int), plot_filename=s.get("plot-filename"),
                plot_domain=opt(s, "plot-domain", _fl),
            )

        def states(s):
            out = []
            while f"state{len(out) + 1}-min" in s:
                i = len(out) + 1
                out.append(list(zip(_fl(s[f"state{i}-min"]), _fl(s[f"state{i}-max"]))))
            return out

        for name, attr in (("delta-f", "df"), ("particle-distribution", "pd")):
            if name in cfg:
                s = sec(name)
                st = opt(s, "stride", int)
                setattr(self, attr, Sec(
                    stride=st, filename=s.get("filename"),
                    write_stride=(opt(s, "write-stride", int) or st * 100) if st else None,
                    fmt=_fmt(s.get("fmt")), states=states(s),
                ))

    # ------------------------------------------------------------ schedules
    def traj_files(self):
        if not (self.traj and self.traj.filename):
            return []
        return [f"{self.traj.filename}.{i}" for i in range(self.n)]

    def data_files(self):
        """Names of every data file a completed run leaves (plots excluded)."""
        out = list(self.traj_files())
        if self.bd and self.bd.stats_filename:
            out.append(self.bd.stats_filename)
        for s in (self.histo, self.fes):
            if s and s.filename:
                out.append(s.filename)
                if s.write_stride:
                    out += [f"{s.filename}_{k}" for k in range(s.write_stride, self.n_steps + 1, s.write_stride)]
        for s in (self.df, self.pd):
            if s and s.filename:
                out.append(s.filename)
        return out

    def plot_files(self):
        out = []
        s = self.fes
        if s and s.plot_filename and self.ndim <= 2:
            out.append(s.plot_filename)
            if s.plot_stride:
                import os
                root, ext = os.path.splitext(s.plot_filename)
                out += [f"{root}_{k}{ext}" for k in range(s.plot_stride, self.n_steps + 1, s.plot_stride)]
        return out
