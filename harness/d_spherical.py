"""Spherical harmonics and Voronoi weights: S01, S02."""
from common import *  # noqa: F401,F403
from common import amplitude, call, driver_main, enc, gc, np, pick, rng_for, xr


def wrap(kind, dims, *arrs):
    return [xr.DataArray(a, dims=dims) if kind == "da" else a for a in arrs]


def decompose(rng, data, scale, theta, phi, N, default=False):
    args = {"data": enc(data), "scale": enc(scale), "theta": enc(theta), "phi": enc(phi), "max_harm": N}
    a, kw = (data, scale, theta, phi), {}
    if not default:
        if rng.random() < 0.5:
            a += (N,)
        else:
            kw["max_harm"] = N
    res, ev = call("decomposition", gc.decomposition, *a, **kw)
    ev["args"] = args
    return res, ev


def recompose(rng, c, theta, phi, N, default=False):
    args = {"data": enc(c), "theta": enc(theta), "phi": enc(phi), "max_harm": N}
    a, kw = (c, theta, phi), {}
    if not default:
        if rng.random() < 0.5:
            a += (N,)
        else:
            kw["max_harm"] = N
    res, ev = call("recomposition", gc.recomposition, *a, **kw)
    ev["args"] = args
    return res, ev


def voronoi(rng, theta, phi):
    args = {"theta": enc(theta), "phi": enc(phi)}
    if rng.random() < 0.5:
        res, ev = call("scale_voronoi", gc.scale_voronoi, theta, phi)
    else:
        res, ev = call("scale_voronoi", gc.scale_voronoi, theta=theta, phi=phi)
    ev["args"] = args
    return res, ev


def grid(rng, a, b):
    """(theta, phi, weights) of shape (a, b): latitude rows or scattered."""
    r = rng.random()
    if r < 0.6:
        x, w = np.polynomial.legendre.leggauss(a)
        phi = np.arccos(x) if rng.random() < 0.5 else np.sort(rng.uniform(0.1, 3.0, a))
        theta = np.arange(b) * 2 * np.pi / b + float(rng.choice([0, 0.1, -np.pi]))
        T, P = np.meshgrid(theta, phi)
        W = np.repeat(w[:, None], b, 1) * 2 * np.pi / b
    else:
        T, P = rng.uniform(-np.pi, 2 * np.pi, (a, b)), np.arccos(rng.uniform(-1, 1, (a, b)))
        W = rng.uniform(0.1, 2, (a, b))
    if rng.random() < 0.3:
        W = W * float(rng.choice([10, 0.01, 6371.0 ** 2]))
    return T, P, W


def harmonics_session(rng, N, at, default=False, large=False):
    a, b = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    if large:
        a, b = int(rng.integers(5, 24)), int(rng.integers(6, 30))
    if default:
        a, b = 2, 2
    T, P, W = grid(rng, a, b)
    kind = str(rng.choice(["da", "nd"]))
    dims = [str(x) for x in rng.permutation(["lat", "lon", "x", "harmonics"])[:2]]
    f = np.round(rng.normal(size=(a, b)) * 16) / 4 + float(rng.choice([0, 3]))
    dt = str(rng.choice(["float64", "float64", "float32", "int64"]))
    f = (f * amplitude(rng, dt)).astype(dt)
    f, T, P, W = wrap(kind, dims, f, T, P, W)
    evs = []
    c, ev = decompose(rng, f, W, T, P, N, default)
    evs.append(ev)
    if c is not None:
        _, ev = recompose(rng, c, T, P, N, default)
        evs.append(ev)
    # a single coefficient, at other points
    one = np.zeros((N + 1) * (N + 2) // 2, dtype=complex)
    one[at - 1] = complex(rng.choice([1, 0, -2]), rng.choice([1, 0.5]))
    if rng.random() < 0.5:
        one = one + np.round(rng.normal(size=len(one)) * 8) / 8
    one = one * amplitude(rng)
    T2, P2, _ = grid(rng, 2, 3)
    (one,) = wrap(kind, [str(rng.choice(["harmonic", "k"]))], one)
    T2, P2 = wrap(kind, dims, T2, P2)
    _, ev = recompose(rng, one, T2, P2, N, default)
    evs.append(ev)
    return evs


def split(rng, n):
    ds = [d for d in range(1, n + 1) if n % d == 0]
    a = int(rng.choice(ds))
    return a, n // a


def surround(theta, phi):
    """Whether the points are not confined to (nearly) a hemisphere."""
    X = np.array([np.sin(phi) * np.sin(theta), np.sin(phi) * np.cos(theta), np.cos(phi)]).T
    for i in range(len(X)):
        for j in range(i):
            n = np.cross(X[i], X[j])
            if np.linalg.norm(n) > 1e-6:
                s = X @ (n / np.linalg.norm(n))
                if s.max() < 0.02 or s.min() > -0.02:
                    return False
    return len(X) >= 4


def voronoi_session(rng, case, large=False):
    regular = None
    if large:
        n = int(rng.integers(14, 40))
        th, ph = rng.uniform(-np.pi, np.pi, n), np.arccos(rng.uniform(-1, 1, n))
        if rng.random() < 0.5:
            T, P, _ = grid(rng, int(rng.integers(3, 10)), int(rng.integers(4, 8)))
            th, ph = T.ravel(), P.ravel()
        elif rng.random() < 0.6:    # a regular grid, in its own order
            a, b = int(rng.integers(7, 10)), int(rng.integers(4, 6))
            T, P = np.meshgrid(np.arange(b) * 2 * np.pi / b, (np.arange(a) + 0.5) * np.pi / a)
            th, ph, regular = T.ravel(), P.ravel(), [a, b]
    elif case is not None:
        th, ph = np.array([float(x) for x in case["theta"]]), np.array([float(x) for x in case["phi"]])
        th = th + float(rng.choice([0, 0.25, np.pi]))
    else:
        while True:
            q = rng.random()
            if q < 0.2:      # rows close to a pole, or pairs of close points
                n = int(rng.integers(4, 8))
                th, ph = rng.uniform(-np.pi, np.pi, n), np.arccos(rng.uniform(-1, 1, n))
                e = float(rng.choice([1e-2, 1e-3, 1e-4, 2e-5]))
                th, ph = np.concatenate([th, th[:3]]), np.concatenate([ph, ph[:3] + np.where(ph[:3] < 1.5, e, -e)])
            elif q < 0.3:
                T, P = np.meshgrid(np.arange(4) * np.pi / 2 + 0.1, [float(rng.choice([0.01, 0.003])), 1.2, 2.5])
                th, ph = T.ravel(), P.ravel()
            elif q < 0.5:
                T, P, _ = grid(rng, int(rng.integers(2, 4)), int(rng.integers(3, 5)))
                th, ph = T.ravel(), P.ravel()
            else:
                n = int(rng.integers(4, 14))
                th, ph = rng.uniform(-np.pi, np.pi, n), np.arccos(rng.uniform(-1, 1, n))
            if surround(th, ph):
                break
    kind = str(rng.choice(["da", "nd"]))
    evs = []
    for _ in range(2):
        p = rng.permutation(len(th)) if regular is None else np.arange(len(th))
        sh = split(rng, len(th)) if regular is None else regular
        T, P = wrap(kind, [str(x) for x in rng.permutation(["lat", "lon"])], th[p].reshape(sh), ph[p].reshape(sh))
        _, ev = voronoi(rng, T, P)
        evs.append(ev)
    return evs


def build(prop, tier, seed, cases):
    big = tier == "thorough"
    if prop == "S01":
        cs = [c for c in cases if c["kind"] == "harmonic"]
        items = [("h", c, i) for i in range(60 if big else 6) for c in cs if c["big"] <= 8]
        items += [("default", None, i) for i in range(30 if big else 4)]
        items += [("many", None, i) for i in range(30 if big else 4)]
        items += [("large", None, i) for i in range(30 if big else 4)]
    else:
        cs = pick([c for c in cases if c["kind"] == "voronoi"], None if big else 160, seed, prop)
        items = [("v", c, i) for i, c in enumerate(cs)] + [("v", None, i) for i in range(500 if big else 60)]
        items += [("vlarge", None, i) for i in range(40 if big else 6)]

    def make(item):
        kind, c, i = item
        rng = rng_for(seed, prop, kind, str(c), i)
        if kind in ("v", "vlarge"):
            return voronoi_session(rng, c, kind == "vlarge")
        if kind == "default":
            return harmonics_session(rng, 23, int(rng.integers(1, 301)), default=True)
        if kind == "large":
            N = int(rng.integers(0, 6))
            return harmonics_session(rng, N, int(rng.integers(1, (N + 1) * (N + 2) // 2 + 1)), large=True)
        if kind == "many":
            N = int(rng.integers(9, 34))
            return harmonics_session(rng, N, int(rng.integers(1, (N + 1) * (N + 2) // 2 + 1)))
        return harmonics_session(rng, c["big"], c["at"])
    return make, items


if __name__ == "__main__":
    driver_main(build)
