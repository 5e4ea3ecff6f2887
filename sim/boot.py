"""Load bdld from the working tree of /repo, once per simulated process.

Every simulated process gets freshly executed bdld modules (module-level state
does not leak between simulated runs unless a check wants exactly that).
Sources are read from /repo when the worker starts and compiled once.

The git submodule bdld/helpers is empty in this repository.  If it is populated it is used;
otherwise its modules come, in memory only, from the release wheel tracked in
/repo/dist (nothing is written into /repo).
"""
import functools
import glob
import hashlib
import importlib.abc
import importlib.util
import os
import sys
import warnings
import zipfile

REPO = os.environ.get("VERIF_REPO", "/repo")
_code = {}
_helpers_src = None
helpers_origin = None


class HarnessError(Exception):
    """The simulator itself cannot work (never a verdict about bdld)."""


def _load_helpers():
    global _helpers_src, helpers_origin
    if _helpers_src is not None:
        return _helpers_src
    d = os.path.join(REPO, "bdld", "helpers")
    out = {}
    if os.path.exists(os.path.join(d, "misc.py")):
        for f in os.listdir(d):
            if f.endswith(".py"):
                with open(os.path.join(d, f), "rb") as fh:
                    out[f[:-3]] = fh.read()
        helpers_origin = d
    else:
        wheels = sorted(glob.glob(os.path.join(REPO, "dist", "bdld-*.whl")))
        if not wheels:
            raise HarnessError("no bdld/helpers and no release wheel in /repo/dist")
        with zipfile.ZipFile(wheels[-1]) as z:
            for n in z.namelist():
                if n.startswith("bdld/helpers/") and n.endswith(".py"):
                    out[os.path.basename(n)[:-3]] = z.read(n)
        h = hashlib.sha256(b"".join(out[k] for k in sorted(out))).hexdigest()[:12]
        helpers_origin = f"{os.path.basename(wheels[-1])} (sha256 of sources {h})"
    out.setdefault("__init__", b"")
    _helpers_src = out
    return out


class _Loader(importlib.abc.Loader):
    def __init__(self, name, path, src, is_pkg):
        self.name, self.path, self.src, self.is_pkg = name, path, src, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code.get(self.name)
        if code is None:
            src = self.src
            if src is None:
                with open(self.path, "rb") as f:
                    src = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                code = compile(src, self.path, "exec")
            _code[self.name] = code
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    """Resolves bdld.* below REPO only (never an installed or packaged copy)."""

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "bdld" and not fullname.startswith("bdld."):
            return None
        rel = fullname.split(".")
        src = None
        if rel[:2] == ["bdld", "helpers"]:
            srcs = _load_helpers()
            name = rel[2] if len(rel) > 2 else "__init__"
            if len(rel) > 3 or name not in srcs:
                return None
            src, is_pkg = srcs[name], name == "__init__"
            p = os.path.join(REPO, "bdld", "helpers", name + ".py")
        else:
            base = os.path.join(REPO, *rel)
            if os.path.isfile(os.path.join(base, "__init__.py")):
                p, is_pkg = os.path.join(base, "__init__.py"), True
            elif os.path.isfile(base + ".py"):
                p, is_pkg = base + ".py", False
            elif os.path.isdir(base):
                p, is_pkg, src = os.path.join(base, "__init__.py"), True, b""
            else:
                return None
        spec = importlib.util.spec_from_loader(
            fullname, _Loader(fullname, p, src, is_pkg), origin=p, is_package=is_pkg
        )
        if is_pkg:
            spec.submodule_search_locations = [os.path.dirname(p)]
        return spec


_finder = _Finder()


def fast_convolution():
    """Two-dimensional kernels of the size the program uses take minutes.  A kernel that is a product of two vectors (up to rounding) is applied
    direction by direction instead, which is the same sum in another order; everything else goes to scipy."""
    import numpy as np
    import scipy.signal

    real = scipy.signal.convolve
    if getattr(real, "separable", False):
        return

    @functools.wraps(real)
    def convolve(a, b, mode="full", method="auto"):
        x, k = np.asarray(a), np.asarray(b)
        if mode == "same" and x.ndim == k.ndim == 2 and k.size > 200 and np.all(np.isfinite(k)) and np.all(k >= 0) and np.any(k):
            i, j = np.unravel_index(np.argmax(k), k.shape)
            u, v = k[:, j], k[i, :] / k[i, j]
            if np.all(np.abs(np.outer(u, v) - k) <= 1e-11 * k + 1e-280):
                return real(real(x, u[:, None], mode=mode, method="direct"), v[None, :], mode=mode, method="direct")
        return real(a, b, mode=mode, method=method)

    convolve.separable = True
    scipy.signal.convolve = convolve


def install():
    """Make bdld importable from REPO; drop any editable-install finder for it."""
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
        fast_convolution()


def fresh():
    """Purge bdld from sys.modules and execute it anew; returns the bdld.main module."""
    install()
    for m in [m for m in sys.modules if m == "bdld" or m.startswith("bdld.")]:
        del sys.modules[m]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import bdld.main as main
    return main


def entry(main, script="bdld/__main__.py"):
    """Execute bdld/__main__.py as `python -m bdld` does, or another start script (falls back to main.main())."""
    p = os.path.join(REPO, *script.split("/"))
    if sys.modules.get("bdld.main") is not main or not os.path.isfile(p):
        return main.main()
    code = _code.get(p)
    if code is None:
        with open(p, "rb") as f:
            code = _code[p] = compile(f.read(), p, "exec")
    exec(code, {"__name__": "__main__", "__package__": "bdld", "__builtins__": __builtins__, "__file__": p})


def preload():
    """Import the heavy dependencies once before workers are forked."""
    _load_helpers()
    try:
        fresh()
    except Exception:
        pass  # reported by the simulated processes themselves


def source_digest():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "bdld")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                with open(os.path.join(root, f), "rb") as fh:
                    h.update(f.encode() + b"\0" + fh.read())
    return h.hexdigest()[:16]
