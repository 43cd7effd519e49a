"""Reference interpolation and single integrator steps, vectorized over points"""
import numpy as np


def interp(data, crd, pts):
    """data (nc, nx, ny, nz), crd: array or None per axis, pts (3, n) -> (nc, n), clamped"""
    lo, w = [], []
    n = pts.shape[1]
    for c, x in zip(crd, pts):
        if c is None or len(c) == 1:
            lo.append(np.zeros(n, dtype=int))
            w.append(np.zeros(n))
            continue
        x = np.clip(x, c[0], c[-1])
        i = np.clip(np.searchsorted(c, x, side="right") - 1, 0, len(c) - 2)
        lo.append(i)
        w.append((x - c[i]) / (c[i + 1] - c[i]))
    out = np.zeros((data.shape[0], n))
    for b in np.ndindex(2, 2, 2):
        f = np.ones(n)
        ind = []
        for ax in range(3):
            f = f * (w[ax] if b[ax] else 1.0 - w[ax])
            ind.append(np.minimum(lo[ax] + b[ax], data.shape[ax + 1] - 1))
        out += np.where(f == 0.0, 0.0, f * data[:, ind[0], ind[1], ind[2]])
    return out


TABLEAU = {
    "euler": ([[]], [1.0], None),
    "euler1": ([[]], [1.0], None),
    "rk2": ([[], [0.5]], [0.0, 1.0], None),
    "rk4": ([[], [0.5], [0, 0.5], [0, 0, 1.0]], [1 / 6., 1 / 3., 1 / 3., 1 / 6.], None),
    "euler1a": ([[], [1.0]], [1.0, 0.0], [0.0, 1.0]),     # error: a step forth and back
    "rk12": ([[], [0.5]], [1.0, 0.0], [0.0, 1.0]),
    "rk45": ([[], [1 / 4.], [3 / 32., 9 / 32.], [1932 / 2197., -7200 / 2197., 7296 / 2197.],
              [439 / 216., -8.0, 3680 / 513., -845 / 4104.],
              [-8 / 27., 2.0, -3544 / 2565., 1859 / 4104., -11 / 40.]],
             [25 / 216., 0.0, 1408 / 2565., 2197 / 4104., -1 / 5., 0.0],
             [16 / 135., 0.0, 6656 / 12825., 28561 / 56430., -9 / 50., 2 / 55.]),
}
ADAPTIVE = ("euler1a", "rk12", "rk45")


def step(fn, method, x, h):
    """x (3, n), h (n,) -> displacement (3, n), error estimate (n,) per unit h, smallest |v|"""
    a, wts, wts2 = TABLEAU[method]
    ks = []
    vmin = np.full(x.shape[1], np.inf)
    for row in a:
        xi = x + sum((c * k for c, k in zip(row, ks)), np.zeros_like(x))
        v = fn(xi)
        mag = np.sqrt((v**2).sum(axis=0))
        vmin = np.minimum(vmin, mag)
        with np.errstate(all="ignore"):
            ks.append(np.where(mag > 0, h * v / mag, 0.0))
    d = sum(c * k for c, k in zip(wts, ks))
    err = np.zeros(x.shape[1])
    if wts2 is not None:
        d2 = sum(c * k for c, k in zip(wts2, ks))
        err = np.sqrt(((d - d2)**2).sum(axis=0)) / np.abs(h)
    return d, err, vmin


def step_of_length(fn, method, x, length, sgn):
    """the step whose displacement has a given length -> displacement, error, vmin, h"""
    h = np.array(length)
    for _ in range(60):
        d, err, vmin = step(fn, method, x, sgn * h)
        L = np.sqrt((d**2).sum(axis=0))
        with np.errstate(all="ignore"):
            r = np.where(L > 0, length / L, 1.0)
        h = h * r
        if np.all(np.abs(r - 1.0) < 1e-14):
            break
    d, err, vmin = step(fn, method, x, sgn * h)
    return d, err, vmin, h


def step_matching(fn, method, x, dx, sgn, tol):
    """look for a step h from x (3, ) that gives dx: length of step -> displacement isn't always
    monotonic -> displacement, error, vmin, h"""
    L = np.linalg.norm(dx)
    hs = L * np.concatenate([np.linspace(0.68, 1.5, 2000), np.geomspace(1.5, 40.0, 4000)])
    best = None
    xs = np.repeat(x[:, None], len(hs), axis=1)
    d, err, vmin = step(fn, method, xs, sgn * hs)
    dist = np.abs(d - dx[:, None]).max(axis=0)
    mins = np.flatnonzero((dist <= np.roll(dist, 1)) & (dist <= np.roll(dist, -1)))
    for i in mins[np.argsort(dist[mins])][:8]:
        lo, hi = hs[max(i - 1, 0)], hs[min(i + 1, len(hs) - 1)]
        for _ in range(12):
            g = np.linspace(lo, hi, 41)
            d, err, vmin = step(fn, method, np.repeat(x[:, None], 41, axis=1), sgn * g)
            q = np.abs(d - dx[:, None]).max(axis=0)
            j = int(np.argmin(q))
            lo, hi = g[max(j - 1, 0)], g[min(j + 1, 40)]
        if best is None or q[j] < best[0]:
            best = (q[j], d[:, j], err[j], vmin[j], g[j])
        if best[0] < tol:
            break
    return best[1:]
