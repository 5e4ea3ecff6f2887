"""C22 Plots show the free energy surface of their time."""
import os

import numpy as np

from .. import gen, harness, model
from ..engine import Violation, completed
from ..spec import Spec
from . import c03

RUNS = {"quick": 2000, "thorough": 40000}
RULE = ("Random inputs in one and two dimensions with plots of the surface at the end and periodically, every relation of histogram, surface and plot strides, resets, "
        "own kT, unequal numbers of bins per direction, given and automatic ranges of shown values. When a figure is saved the drawn curve or image is read back from the "
        "figure object (the image file itself is written by a stub, in 4 % of the cases by the real renderer), and the value drawn at every bin centre is compared with "
        "-kT log(counts) of the recounted walker history at the most recent update step. Non-trivial: a plot with at least two different finite values was compared.")
STUBS = "; encoding of the image (matplotlib.figure.Figure.savefig) is a stub in 96 % of the cases"
MUST_REACH = ["reach:line", "reach:image", "reach:unequal-bins", "reach:periodic-plot", "reach:stale-by-design", "reach:after-reset", "reach:own-kt", "reach:domain",
              "reach:reference", "reach:real-renderer", "reach:two-plots"]


def make(r, i, tier):
    c = gen.make(r, dims=(5, 5, 0), histo=1.0, fes=1.0, df=0.15, pd=0.1, bd=0.2, cap=40, long=0.05, walkers=6, hot=0.5, plots=1.0)
    f = c["cfg"]["fes"]
    n = int(c["cfg"]["ld"]["n_steps"])
    f.setdefault("plot-filename", "fes.png")
    if r.random() < 0.75:
        f.setdefault("stride", str(gen.stride(r, n)))
        f["plot-stride"] = str(max(gen.stride(r, n), max(1, n // 6)))
    if r.random() < 0.7:
        c["cfg"]["trajectories"]["write-stride"] = str(r.choice([1, 2, 3, 5, gen.stride(r, n)]))
    if r.random() < 0.3:
        f["plot-domain"] = r.choice(["0,8", "0, 2.5", "-1,12", "0.5,6"])
    c["render"] = r.random() < 0.04
    return c


class Shot:
    """What a saved figure shows."""

    def __init__(self, fig):
        self.lines, self.images, self.other = [], [], 0
        for ax in fig.axes:
            if ax.get_label() == "<colorbar>":
                continue
            for x in ax.lines:
                self.lines.append((np.array(x.get_xdata(), dtype=float), filled(x.get_ydata()), ax.get_ylim(), ax.get_yscale()))
            for x in ax.images:
                self.images.append((filled(x.get_array()), tuple(x.get_extent()), x.origin, x.get_clim()))
            self.other += len(ax.collections)


def filled(a):
    return np.ma.filled(np.ma.array(a, dtype=float, copy=True), np.inf)


class Camera:
    """Seam at Figure.savefig: records every figure and (by default) writes a stub instead of the image."""

    def __init__(self, render):
        self.render, self.shots = render, {}

    def __call__(self, main):
        from matplotlib.figure import Figure

        self.cls, self.real = Figure, Figure.savefig
        cam = self

        def savefig(fig, fname, *a, **k):
            if isinstance(fname, (str, os.PathLike)):
                cam.shots.setdefault(os.fspath(fname), []).append(Shot(fig))
                if not cam.render:
                    with open(fname, "wb") as out:
                        out.write(b"\x89PNG stub")
                    return None
            return cam.real(fig, fname, *a, **k)

        Figure.savefig = savefig

    def off(self):
        if hasattr(self, "real"):
            self.cls.savefig = self.real


def same(got, want, tol):
    """None if equal (infinite values may also be left out), else the first index that differs"""
    for i, (g, w) in enumerate(zip(got, want)):
        if np.isinf(w):
            if np.isfinite(g):
                return i
        elif not abs(g - w) <= tol:
            return i
    return None


def at_centres(img, axes):
    """Values of the image at the bin centres (flattened, first direction outermost)."""
    a, (left, right, bottom, top), origin, _ = img
    ny, nx = a.shape[:2]
    out = []
    for x in axes[0]:
        for y in axes[1]:
            u = (x - left) / (right - left) * nx
            v = (y - bottom) / (top - bottom) * ny
            for w, n in ((u, nx), (v, ny)):
                if not -1e-6 * n <= w <= n + 1e-6 * n:
                    return None
            i, j = min(nx - 1, max(0, int(u + 1e-9))), min(ny - 1, max(0, int(v + 1e-9)))
            out.append(a[j if origin == "lower" else ny - 1 - j, i])
    return np.array(out)


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    cam = Camera(case.get("render"))
    try:
        r = harness.simulate(case, prep=cam)
    finally:
        cam.off()
    o.saw(r, spec)
    completed(r)
    f, h = spec.fes, spec.histo
    per, final, _ = c03.counts_per_step(spec, r)
    axes = [[lo + (hi - lo) / b * (j + 0.5) for j in range(b)] for (lo, hi), b in zip(h.ranges, h.bins)]
    root, ext = os.path.splitext(f.plot_filename)
    due = [(f.plot_filename, None)] + [(f"{root}_{k}{ext}", k) for k in model.due(f.plot_stride, spec.n_steps)]
    for name in r.files:
        if name.startswith(root + "_") and name.endswith(ext) and name not in [x for x, _ in due] and name[len(root) + 1:len(name) - len(ext)].isdigit() \
                and name not in spec.data_files():
            raise Violation("extra-plot", f"unexpected plot '{name}'")
    if len(due) > 1:
        o.reach("two-plots")
    for name, k in due:
        if not r.files.get(name):
            raise Violation("missing-plot", f"plot '{name}' does not exist or is empty after a successful run")
        if not r.files[name].startswith(b"\x89PNG"):
            raise Violation("bad-plot", f"plot '{name}' is not an image file")
        if case.get("render"):
            o.reach("real-renderer")
        shots = cam.shots.get(name)
        if not shots:
            o.reach("not-captured")
            continue
        s = shots[-1]
        if k is None:
            c = final
        else:
            at = k // f.stride * f.stride
            c = per[at]
            o.reach("periodic-plot")
            if at != k:
                o.reach("stale-by-design")
            if any(0 < x <= at for x in h.reset):
                o.reach("after-reset")
        if c is None:
            o.reach("undecided-edge")
            continue
        want = model.fes_of(c, f.kt)
        if f.kt != spec.kt:
            o.reach("own-kt")
        tol = 1e-9 * (f.kt + (np.max(want[np.isfinite(want)]) if np.isfinite(want).any() else 0))
        dom = f.plot_domain
        if spec.ndim == 1:
            if not s.lines:
                o.reach("no-line")
                continue
            o.reach("line")
            width = (h.ranges[0][1] - h.ranges[0][0]) / h.bins[0]
            ref = [model.potential(spec, [x]) for x in axes[0]]
            low = min(e for e, _, _ in ref)
            rt = 1e-9 * (1 + max(m for _, _, m in ref))
            hits, why, odd = [], "", None
            for j, (x, y, lim, scale) in enumerate(s.lines):
                if len(x) != len(want) or np.abs(x - axes[0]).max() > 1e-9 * (width + abs(h.ranges[0][0]) + abs(h.ranges[0][1])):
                    why = why or "wrong abscissae"
                    continue
                bad = same(y, want, tol)
                if bad is None:
                    hits.append(j)
                else:
                    why = f"{y[bad]!r} instead of {want[bad]!r} at bin {bad}"
                    if same(y, [e - low for e, _, _ in ref], rt) is not None:
                        odd = (j, why)
            if not hits:
                raise Violation("value", f"plot '{name}': no drawn curve is the surface at that time ({why})")
            if odd:
                raise Violation("other-curve", f"plot '{name}': curve {odd[0]} of {len(s.lines)} is neither the surface at that time ({odd[1]}) nor the potential")
            lim = s.lines[hits[0]][2]
            if dom and tuple(lim) != tuple(dom):
                raise Violation("domain", f"plot '{name}' shows values from {lim[0]!r} to {lim[1]!r} instead of {dom}")
            if not any(len(y) == len(ref) and same(y, [e - low for e, _, _ in ref], rt) is None for _, y, _, _ in s.lines):
                raise Violation("reference", f"plot '{name}': the reference curve is missing or not the potential of the system")
            o.reach("reference")
        else:
            if not s.images:
                o.reach("no-image")
                continue
            if min(h.bins) < 2:
                o.reach("single-bin")
                continue
            o.reach("image")
            if h.bins[0] != h.bins[1]:
                o.reach("unequal-bins")
            why = ""
            for img in s.images:  # (all of them: the last one covers the others)
                got = at_centres(img, axes)
                if got is None:
                    why = "the image does not cover all bins"
                    break
                bad = same(got, want, tol)
                if bad is None:
                    why = None
                    continue
                i, j = divmod(bad, h.bins[1])
                why = f"{got[bad]!r} instead of {want[bad]!r} at ({axes[0][i]:g}, {axes[1][j]:g})"
                break
            if why is not None:
                raise Violation("value", f"plot '{name}' does not show the surface at that time: {why}")
            if dom and tuple(img[3]) != tuple(dom):
                raise Violation("domain", f"plot '{name}' shows values from {img[3][0]!r} to {img[3][1]!r} instead of {dom}")
        if dom:
            o.reach("domain")
        fin = want[np.isfinite(want)]
        if fin.size and fin.max() > 0:
            o.nontrivial = True
