"""Reading what bdld wrote.  Anything that cannot be read as documented is a violation."""
import math
import re

import numpy as np

from .engine import Violation

_fmt = re.compile(r"%[-+ 0#]*(\d*)(?:\.(\d+))?([a-zA-Z])")


def text(r, name):
    if name not in r.files:
        raise Violation("missing-file", f"output file '{name}' does not exist after the run")
    try:
        return r.files[name].decode()
    except UnicodeDecodeError:
        raise Violation("malformed", f"output file '{name}' is not text")


def split(t, name, headers=1):
    """(header lines, data lines) of a complete file; a file has to end with a newline"""
    if t and not t.endswith("\n"):
        raise Violation("malformed", f"'{name}' does not end with a complete line")
    lines = t.split("\n")[:-1] if t else []
    h = [x for x in lines if x.startswith("#")]
    body = [x for x in lines if not x.startswith("#")]
    if any(x.startswith("#") for x in lines[len(h):]):
        raise Violation("malformed", f"'{name}' has header lines after data")
    return h, body


def numbers(line, name, ncol=None):
    try:
        v = [float(x) for x in line.split()]
    except ValueError:
        raise Violation("malformed", f"'{name}' has a line that is no number row: {line!r}")
    if ncol is not None and len(v) != ncol:
        raise Violation("malformed", f"'{name}' has {len(v)} columns instead of {ncol}: {line!r}")
    return v


def table(t, name, ncol=None):
    h, body = split(t, name)
    return h, [numbers(x, name, ncol) for x in body if x.strip()]


def same_number(token, fmt, x, ulps=2):
    """Is token the value x in format fmt (allowing x to be off by a few ulp)?"""
    token = token.strip()
    c = [x]
    a = b = x
    for _ in range(ulps):
        a, b = np.nextafter(a, np.inf), np.nextafter(b, -np.inf)
        c += [a, b]
    for v in c:
        try:
            if (fmt % float(v)).strip() == token:
                return True
        except (TypeError, ValueError):
            return False
    return False


def resolution(fmt, x):
    """Rounding error of value x printed with fmt."""
    m = _fmt.fullmatch(fmt.strip())
    if not m or not math.isfinite(x):
        return 1e-9
    prec = int(m.group(2)) if m.group(2) is not None else 6
    k = m.group(3)
    if k in "fF":
        return 0.5 * 10.0 ** (-prec) * 1.0001
    if k in "eE":
        return 0.5 * 10.0 ** (-prec) * abs(x) * 10
    if k in "gG":
        return 0.5 * 10.0 ** (-(max(prec, 1) - 1)) * abs(x) * 10
    return 0.5


def grid_file(r, name, bins, ranges, fmt, kind):
    """Read a histogram / surface file.  Returns values as array of shape bins.

    Every row has to be paired with its bin centre (row-major order).
    """
    from . import model

    t = text(r, name)
    h, rows = table(t, name, len(bins) + 1)
    want = int(np.prod(bins))
    if len(rows) != want:
        raise Violation(kind + "-rows", f"'{name}' has {len(rows)} rows instead of {want} bins")
    cs = model.centers(ranges, bins)
    a = np.array(rows)
    for i in range(want):
        for d in range(len(bins)):
            tol = resolution(fmt, cs[i, d]) + 1e-12 * (1 + abs(cs[i, d]))
            if not abs(a[i, d] - cs[i, d]) <= tol:
                raise Violation(kind + "-centre", f"'{name}' row {i + 1}: coordinates {a[i, :-1].tolist()} instead of bin centre {cs[i].tolist()}")
    return a[:, -1].reshape(bins)
