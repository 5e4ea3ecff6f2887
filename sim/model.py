"""Small executable reference model of the dynamics, birth-death and observers.

Written from the documentation and the property statements, not from bdld's code.
Plain scalar Python / simple numpy, no bdld import.
"""
import math

import numpy as np

MB_A = (-200.0, -100.0, -170.0, 15.0)
MB_a = (-1.0, -1.0, -6.5, 0.7)
MB_b = (0.0, 0.0, 11.0, 0.6)
MB_c = (-10.0, -10.0, -6.5, 0.7)
MB_x = (1.0, 0.0, -0.5, -1.0)
MB_y = (0.0, 0.5, 1.5, 1.0)
MB_SHIFT = 30.33319242243656


def ipow(x, k):
    r = 1.0
    for _ in range(k):
        r *= x
    return r


def sexp(x):
    if x > 709.0:
        return math.inf
    return math.exp(x)


def potential(spec, x):
    """(energy, force list, magnitude of the summed terms) at position x"""
    if spec.pot_type == "polynomial":
        e = 0.0
        mag = 0.0
        f = [0.0] * spec.ndim
        for ex, c in spec.coeffs.items():
            t = c
            for d in range(spec.ndim):
                t *= ipow(x[d], ex[d])
            e += t
            mag = max(mag, abs(t))
            for d in range(spec.ndim):
                if ex[d]:
                    t = c * ex[d] * ipow(x[d], ex[d] - 1)
                    for o in range(spec.ndim):
                        if o != d:
                            t *= ipow(x[o], ex[o])
                    f[d] -= t
                    mag = max(mag, abs(t))
        return e, f, mag
    e = 0.0
    mag = 1.0
    f = [0.0, 0.0]
    for i in range(4):
        dx, dy = x[0] - MB_x[i], x[1] - MB_y[i]
        t = spec.scale * MB_A[i] * sexp(MB_a[i] * dx * dx + MB_b[i] * dx * dy + MB_c[i] * dy * dy)
        e += t
        gx = 2 * MB_a[i] * dx + MB_b[i] * dy
        gy = MB_b[i] * dx + 2 * MB_c[i] * dy
        f[0] -= t * gx
        f[1] -= t * gy
        ex = abs(MB_a[i] * dx * dx) + abs(MB_b[i] * dx * dy) + abs(MB_c[i] * dy * dy)
        mag = max(mag, abs(t) * (1 + abs(gx) + abs(gy)) * (1 + ex))
    return e + MB_SHIFT, f, mag


def boundary(spec, x, p):
    """Apply the boundary condition.  Returns (x, p, ambiguous)"""
    amb = False
    if not spec.bc:
        return x, p, amb
    x, p = list(x), list(p)
    for d, (lo, hi) in enumerate(spec.ranges):
        eps = 1e-11 * (1 + abs(lo) + abs(hi) + abs(x[d]))
        if min(abs(x[d] - lo), abs(x[d] - hi)) < eps:
            amb = True
        if spec.bc == "reflective":
            if x[d] < lo:
                x[d], p[d] = lo, -p[d]
            elif x[d] > hi:
                x[d], p[d] = hi, -p[d]
        elif spec.bc == "periodic":
            if x[d] < lo or x[d] > hi:
                q = (x[d] - lo) / (hi - lo)
                fr = q - math.floor(q)
                if fr < 1e-11 * (1 + abs(q)) or fr > 1 - 1e-11 * (1 + abs(q)):
                    amb = True
                x[d] = lo + (x[d] - lo) - math.floor(q) * (hi - lo)
    return x, p, amb


class Step:
    __slots__ = ("x", "p", "free", "amb", "tolx", "tolp", "ok", "p_at_bc")


def step_walker(spec, x, p, mass, noise):
    """One integrator step of one walker.  noise: 2*ndim (bussi-parinello) or ndim deviates"""
    r = Step()
    D = spec.ndim
    r.ok = True
    _, f, mag = potential(spec, x)
    dt = spec.dt
    if spec.ld_type == "overdamped":
        s = math.sqrt(2 * dt)
        free = [x[d] + dt * f[d] + s * noise[d] for d in range(D)]
        r.free = free
        x2, p2, r.amb = boundary(spec, free, p)
        r.p_at_bc = list(p)
        r.x, r.p = x2, p2
        sc = max(abs(v) for v in free) + max(abs(v) for v in x)
        r.tolx = 1e-10 * (1e-6 + sc + dt * mag)
        r.tolp = 1e-12 * (1 + max(abs(v) for v in p))
    else:
        c1 = math.exp(-0.5 * spec.friction * dt)
        c2 = math.sqrt(max(0.0, 1 - c1 * c1) * mass * spec.kt)
        ph = [c1 * p[d] + c2 * noise[d] + 0.5 * dt * f[d] for d in range(D)]
        free = [x[d] + dt * ph[d] / mass for d in range(D)]
        r.free = free
        r.p_at_bc = list(ph)
        x2, p2, r.amb = boundary(spec, free, ph)
        _, f2, mag2 = potential(spec, x2)
        p3 = [c1 * (p2[d] + 0.5 * dt * f2[d]) + c2 * noise[D + d] for d in range(D)]
        r.x, r.p = x2, p3
        sc = max(abs(v) for v in free) + max(abs(v) for v in x)
        r.tolx = 1e-10 * (1e-6 + sc + dt * (mag * dt + max(abs(v) for v in ph)) / mass)
        # the force at the new position: sensitivity to rounding of the position
        h = max(r.tolx, 1e-13 * (1 + sc))
        dfm = 0.0
        for d in range(D):
            y = list(x2)
            y[d] += h
            _, g, _m = potential(spec, y)
            dfm = max(dfm, max(abs(g[k] - f2[k]) for k in range(D)))
        r.tolp = 1e-10 * (1e-6 + max(abs(v) for v in ph) + max(abs(v) for v in p) + max(abs(v) for v in noise) * c2
                          + dt * (mag + mag2)) + dt * dfm * 2
        # 1 - c1^2 cancels for tiny friction*dt
        cc = 1 - c1 * c1
        if cc > 0:
            r.tolp += 1e-15 / cc * c2 * max(abs(v) for v in noise)
            r.tolx += 1e-15 / cc * c2 * max(abs(v) for v in noise) * dt / mass
    vals = list(r.x) + list(r.p) + list(r.free) + list(r.p_at_bc)
    if not all(math.isfinite(v) and abs(v) < 1e60 for v in vals) or not math.isfinite(r.tolx + r.tolp):
        r.ok = False
    return r


# ------------------------------------------------------------------ birth-death
def kernel_density(pos, bw):
    n, D = pos.shape
    out = np.zeros(n)
    norm = 1.0
    for b in bw:
        norm *= 1 / (math.sqrt(2 * math.pi) * b)
    for i in range(n):
        s = 0.0
        for j in range(n):
            a = 0.0
            for d in range(D):
                a += ((pos[i, d] - pos[j, d]) / bw[d]) ** 2 / 2
            s += math.exp(-a)
        out[i] = norm * s / n
    return out


class Correction:
    """Equilibrium-density correction, tabulated as documented:

    density on an odd grid of at least 501 points per direction (and 20 within 5 sigma), convolved
    with the kernel cut at 5 sigma, thinned to 101 points (multiplicative: before the logarithm), linear interpolation, zero outside.
    In more than one direction linear interpolation between grid points is not unique, there the
    value is only known to lie between those of the two triangulations of its cell (or the extremes
    at its corners).
    """

    def __init__(self, spec):
        D = spec.ndim
        xs, hs, ks, offs = [], [], [], []
        for (lo, hi), bw in zip(spec.ranges, spec.bd.bw):
            n = max(501, int(math.ceil((hi - lo) / (0.5 * bw))))
            n += 1 - n % 2
            x = np.linspace(lo, hi, n)
            h = (hi - lo) / (n - 1)
            m = int(math.ceil(10 * bw / h)) + 1
            kx = -5 * bw + h * np.arange(m)
            ks.append(np.exp(-kx**2 / (2 * bw**2)) / (math.sqrt(2 * math.pi) * bw) * h)
            xs.append(x)
            hs.append(h)
            offs.append((m - 1) // 2)
        e = self.energies(spec, xs)
        w = np.exp(-(e - e.min()) / spec.kt)
        vol = float(np.prod(hs))
        pi = np.maximum(w / (w.sum() * vol), np.finfo(float).tiny)
        conv = pi
        for d in range(D):  # the kernel is a product: convolve direction by direction
            conv = np.moveaxis(self.conv1(np.moveaxis(conv, d, 0), ks[d], offs[d]), 0, d)
        if spec.bd.variant == "additive":
            lt = np.log(conv / pi)
            y = lt * pi
            for h in reversed(hs):
                y = h * (y.sum(axis=-1) - 0.5 * (y[..., 0] + y[..., -1]))
            self.g = -lt + y
        else:
            self.g = -np.log(conv)
        self.ranges = spec.ranges
        self.D = D
        self.nan = not np.all(np.isfinite(self.g))
        if D == 1:
            self.xs = np.linspace(*spec.ranges[0], min(101, len(xs[0])))
            thin = (lambda x: -np.log(np.interp(x, xs[0], conv))) if spec.bd.variant == "multiplicative" else (lambda x: np.interp(x, xs[0], self.g))
            self.gs = thin(self.xs)
            # (rounding of the positions matters where the density changes by many orders of magnitude between two points)
            tiny = 1e-13 * (abs(spec.ranges[0][0]) + abs(spec.ranges[0][1]))
            self.vague = np.maximum(np.abs(thin(self.xs - tiny) - self.gs), np.abs(thin(self.xs + tiny) - self.gs))
            if spec.bd.variant == "multiplicative":  # (nor is it stated whether the density or its logarithm is thinned)
                self.vague = np.maximum(self.vague, np.abs(self.gs - np.interp(self.xs, xs[0], self.g)))
            self.fine = None
        else:
            self.fine = xs
            # (every fifth point of 501)
            self.coarse = self.g[::5, ::5] if D == 2 and all(len(x) == 501 for x in xs) else None

    @staticmethod
    def conv1(a, k, off):
        n, m = a.shape[0], len(k)
        full = np.zeros((n + m - 1,) + a.shape[1:])
        for j in range(m):
            full[j : j + n] += a * k[j]
        return full[off : off + n]

    @staticmethod
    def energies(spec, xs):
        if spec.pot_type == "polynomial":
            g = np.meshgrid(*xs, indexing="ij")
            e = np.zeros(g[0].shape)
            for ex, c in spec.coeffs.items():
                t = np.full(g[0].shape, float(c))
                for d in range(spec.ndim):
                    for _ in range(ex[d]):
                        t = t * g[d]
                e += t
            return e
        x, y = np.meshgrid(*xs, indexing="ij")
        e = np.zeros(x.shape) + MB_SHIFT
        for i in range(4):
            dx, dy = x - MB_x[i], y - MB_y[i]
            e += spec.scale * MB_A[i] * np.exp(MB_a[i] * dx * dx + MB_b[i] * dx * dy + MB_c[i] * dy * dy)
        return e

    def __call__(self, x):
        """(value, ambiguous, uncertainty) at position x"""
        for v, (lo, hi) in zip(x, self.ranges):
            if min(abs(v - lo), abs(v - hi)) < 1e-12 * (1 + abs(lo) + abs(hi)):
                return 0.0, True, 0.0
        if any(v < lo or v > hi for v, (lo, hi) in zip(x, self.ranges)):
            return 0.0, False, 0.0
        if self.D == 1:
            k = int(np.searchsorted(self.xs, x[0]))
            return float(np.interp(x[0], self.xs, self.gs)), False, float(np.max(self.vague[max(0, k - 2) : k + 2]))
        if self.D == 2 and self.coarse is not None:
            # both triangulations of the cell of the 101 x 101 table (bilinear interpolation lies in between)
            k, f = [], []
            for d, (lo, hi) in enumerate(self.ranges):
                u = (x[d] - lo) / (hi - lo) * 100
                k.append(min(99, int(math.floor(u))))
                f.append(u - k[-1])
            t = self.coarse[k[0] : k[0] + 2, k[1] : k[1] + 2]
            u, v = f
            base = t[0, 0] + u * (t[1, 0] - t[0, 0]) + v * (t[0, 1] - t[0, 0])
            twist = t[0, 0] + t[1, 1] - t[1, 0] - t[0, 1]
            one, two = base + min(u, v) * twist, base + max(0.0, u + v - 1) * twist
            return 0.5 * (one + two), False, 0.5 * abs(one - two) + 1e-9 * (1 + float(np.max(np.abs(t))))
        # extremes over the fine grid points around the coarse (1/100) cell
        sl = []
        for d, (lo, hi) in enumerate(self.ranges):
            n = len(self.fine[d])
            u = (x[d] - lo) / (hi - lo) * 100
            a, b = math.floor(u - 1e-9) / 100 * (n - 1), math.ceil(u + 1e-9) / 100 * (n - 1)
            sl.append(slice(max(0, int(math.floor(a))), min(n, int(math.ceil(b)) + 1)))
        v = self.g[tuple(sl)]
        lo, hi = float(v.min()), float(v.max())
        return 0.5 * (lo + hi), False, 0.5 * (hi - lo)


class Unclear(Exception):
    """The model cannot decide within rounding (never a violation)."""


def betas(spec, pos, ene, corr):
    """beta per walker, and an error bound"""
    dens = kernel_density(pos, spec.bd.bw)
    b = np.log(dens)
    err = 1e-9
    if spec.bd.variant in ("original", "additive"):
        b = b + ene / spec.kt
        err += 1e-12 * float(np.max(np.abs(ene / spec.kt)))
    c = np.zeros(len(pos))
    if spec.bd.variant != "original":
        unc = 0.0
        for i in range(len(pos)):
            c[i], amb, u = corr(pos[i])
            unc = max(unc, u)
            if amb:
                raise Unclear("walker on the edge of the correction")
        err += 1e-11 * float(np.max(np.abs(c))) + 2 * unc
    if spec.bd.variant == "multiplicative":
        b = b + c
    b = b - np.mean(b)
    if spec.bd.variant == "additive":
        b = b + c
    if not np.all(np.isfinite(b)):
        raise Unclear("non-finite beta")
    return b, err


class Tally:
    def __init__(self):
        self.birth = self.birth_try = self.death = self.death_try = 0

    def row(self):
        return [self.birth, self.birth_try, self.death, self.death_try]


def identical_pair(pos, ene):
    return len(pos) == 2 and np.array_equal(pos[0], pos[1]) and ene[0] == ene[1]


def bd_pass(spec, state, rng, tally, corr=None):
    """One birth-death pass on state (list of walker records with .pos/.ene rows).

    state: dict of arrays pos, mom, ene, frc (modified copy returned)
    rng:   generator positioned exactly where the pass starts
    Returns (new state, events [(source, target, kind)]) or raises Unclear.
    """
    n = len(state["pos"])
    src = list(range(n))
    if n < 2:
        return state, []
    st = {k: v.copy() for k, v in state.items()}
    b, err = betas(spec, st["pos"], st["ene"], corr)
    u = rng.random(n)
    rate = spec.dt * spec.bd.stride * spec.bd.factor

    def decide(i):
        if identical_pair(st["pos"], st["ene"]):
            return False if spec.bd.variant == "original" else None
        pr = -math.expm1(-abs(b[i]) * rate)
        lo = -math.expm1(-max(0.0, abs(b[i]) - err) * rate)
        hi = -math.expm1(-(abs(b[i]) + err) * rate)
        slack = 1e-14
        if lo - slack <= u[i] <= hi + slack:
            if not (pr == 1.0 and lo == 1.0 and u[i] < 1.0):
                return None
        return bool(u[i] < pr)

    def attempt(i):
        if abs(b[i]) <= err:
            raise Unclear("sign of beta")
        if b[i] > 0:
            tally.death_try += 1
        else:
            tally.birth_try += 1

    def other(i):
        k = int(rng.integers(n - 1))
        return k + 1 if k >= i else k

    events = []
    if not spec.bd.recalc:
        if identical_pair(st["pos"], st["ene"]):
            raise Unclear("zero beta")
        for i in range(n):
            attempt(i)
        act = []
        for i in range(n):
            d = decide(i)
            if d is None:
                raise Unclear("event within rounding")
            if d:
                act.append(i)
        act = np.array(act, dtype=np.int64)
        rng.shuffle(act)
        gone = set()
        for i in (int(v) for v in act):
            if i in gone:
                continue
            o = other(i)
            if b[i] > 0:
                events.append((o, i, "death"))
                gone.add(i)
                tally.death += 1
            else:
                events.append((i, o, "birth"))
                gone.add(o)
                tally.birth += 1
        for s, t, _ in events:
            for v in st.values():
                v[t] = v[s]
        return st, events
    order = np.arange(n)
    rng.shuffle(order)
    for i in (int(v) for v in order):
        if identical_pair(st["pos"], st["ene"]) and spec.bd.variant == "original":
            continue  # beta is exactly zero: no attempt, no event
        attempt(i)
        d = decide(i)
        if d is None:
            raise Unclear("event within rounding")
        if not d:
            continue
        o = other(i)
        if b[i] > 0:
            s, t = o, i
            tally.death += 1
            events.append((s, t, "death"))
        else:
            s, t = i, o
            tally.birth += 1
            events.append((s, t, "birth"))
        for v in st.values():
            v[t] = v[s]
        b, err = betas(spec, st["pos"], st["ene"], corr)
    return st, events


# ------------------------------------------------------------------ observers
def edges(lo, hi, n):
    return [lo + (hi - lo) * i / n for i in range(n)] + [hi]


def bin_of(x, ed):
    """(bin index or None, alternative index or None) - the alternative if x sits on an edge within rounding"""
    lo, hi = ed[0], ed[-1]
    n = len(ed) - 1
    eps = 1e-12 * (abs(lo) + abs(hi) + (hi - lo))
    if not math.isfinite(x):
        return None, None, False
    if x < lo or x > hi:
        # ends of the range are given exactly, no rounding is involved there
        return None, None, False
    k = min(n - 1, int((x - lo) / (hi - lo) * n))
    while k > 0 and x < ed[k]:
        k -= 1
    while k < n - 1 and x >= ed[k + 1]:
        k += 1
    if k > 0 and abs(x - ed[k]) < eps:
        return k, k - 1, True
    if k < n - 1 and abs(x - ed[k + 1]) < eps:
        return k, k + 1, True
    return k, None, False


class HistModel:
    """Counts with bookkeeping of positions that sit on a bin edge within rounding."""

    def __init__(self, ranges, bins):
        self.ed = [edges(lo, hi, n) for (lo, hi), n in zip(ranges, bins)]
        self.bins = list(bins)
        self.clear()

    def clear(self):
        self.sure = np.zeros(self.bins, dtype=int)
        self.slack = np.zeros(self.bins, dtype=int)
        self.total = 0
        self.outside = 0

    def add(self, pos):
        """pos: (n, ndim)"""
        for x in pos:
            idx, alts, amb = [], [], False
            for d, v in enumerate(x):
                k, alt, a = bin_of(float(v), self.ed[d])
                if k is None:
                    idx = None
                    break
                idx.append(k)
                alts.append(alt)
                amb |= a
            if idx is None:
                self.outside += 1
                continue
            self.total += 1
            if not amb:
                self.sure[tuple(idx)] += 1
            else:
                opts = [()]
                for k, alt in zip(idx, alts):
                    opts = [o + (c,) for o in opts for c in ([k] if alt is None else [k, alt])]
                for o in opts:
                    self.slack[o] += 1

    def compare(self, counts):
        """None or description of the first difference"""
        c = np.asarray(counts, dtype=float)
        if c.shape != self.sure.shape:
            return f"shape {c.shape} instead of {self.sure.shape}"
        if not np.all(np.isfinite(c)):
            return "non-finite counts"
        if abs(c.sum() - self.total) > 1e-6:
            return f"total count {c.sum():g}, but {self.total} positions were collected ({self.outside} more outside the range)"
        bad = (c < self.sure - 1e-6) | (c > self.sure + self.slack + 1e-6)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            return f"bin {i}: count {c[i]:g}, expected {self.sure[i]}" + (f" to {self.sure[i] + self.slack[i]}" if self.slack[i] else "")
        return None


def centers(ranges, bins):
    """bin centres in row-major order, (nbins, ndim)"""
    ax = []
    for (lo, hi), n in zip(ranges, bins):
        e = edges(lo, hi, n)
        ax.append([(e[i] + e[i + 1]) / 2 for i in range(n)])
    out = [()]
    for a in ax:
        out = [o + (v,) for o in out for v in a]
    return np.array(out)


def fes_of(counts, kt):
    c = np.asarray(counts, dtype=float).reshape(-1)
    m = c.max() if c.size else 0
    if m <= 0:
        return np.full(c.shape, np.inf)
    with np.errstate(divide="ignore"):
        return np.where(c > 0, -kt * (np.log(np.where(c > 0, c, 1.0)) - math.log(m)), np.inf)


def inside(pos, box):
    """1 if pos lies in the box (bounds included), else 0; undefined positions lie nowhere"""
    return int(all(lo <= v <= hi for v, (lo, hi) in zip(pos, box)))


def due(stride, n):
    return list(range(stride, n + 1, stride)) if stride else []
