"""interp_multidim: V07."""
from common import *  # noqa: F401,F403
from common import amplitude, call, driver_main, enc, gc, np, pick, rng_for, xr


def event(rng, lat, lon, qlat, qlon, cyclic, method="linear", fill="nan", missing=None, lead=(), dtype="float64", nan=0.0, kind="da",
          expect="ok", chunk=False):
    sh = tuple(lead) + (len(lat), len(lon))
    v = np.round(rng.normal(size=sh) * 40) / 4 + 3
    if dtype.startswith("int"):
        v = np.round(v)
    v = (v * amplitude(rng, dtype)).astype(dtype)
    if dtype.startswith("float") and nan and missing is None:
        v[rng.random(sh) < nan] = np.nan
    if missing is not None:
        if dtype == "float64" and rng.random() < 0.4:       # values that only look like the missing one
            v = np.where(rng.random(sh) < 0.2, missing * (1 + 3e-7) if missing else 4e-9, v)
        v[rng.random(sh) < max(nan, 0.08)] = missing
    names = {0: ["y", "x"], 1: ["lat", "lon"]}[int(rng.integers(0, 2))]
    dn = ["time", "lev"][:len(lead)] + names
    if kind == "da":
        co = {names[0]: lat, names[1]: lon}
        if lead and rng.random() < 0.6:
            co["time"] = np.arange(lead[0]) * 7.0
        d = xr.DataArray(v, dims=dn, coords=co, name="f", attrs={"units": "K"})
        if chunk and not cyclic and missing is None:
            d = d.chunk({names[0]: -1, names[1]: -1, **({"time": 1} if lead else {})})
    else:
        d = v
    kw = {}
    if cyclic or rng.random() < 0.2:
        kw["cyclic"] = cyclic
    if method != "linear" or rng.random() < 0.3:
        kw["method"] = method
    fv = 0.0
    if fill == "extrapolate":
        kw["fill_value"] = "extrapolate"
    elif fill == "value":
        fv = float(rng.choice([-77.0, 0.0]))
        kw["fill_value"] = fv
    if missing is not None:
        kw["missing_val"] = missing
    as_list = rng.random() < 0.3
    a1, a2 = (list(map(float, qlat)), list(map(float, qlon))) if as_list else (np.asarray(qlat), np.asarray(qlon))
    if kind == "nd":
        if expect == "ok":
            kw.update(lat_in=lat, lon_in=lon)
        elif rng.random() < 0.67:
            kw.update([("lat_in", lat), ("lon_in", lon)][int(rng.integers(0, 2))] for _ in range(1))
    args = {"data": enc(d), "lat": enc(np.asarray(lat)), "lon": enc(np.asarray(lon)), "lat_out": enc(np.asarray(a1)), "lon_out": enc(np.asarray(a2)),
            "cyclic": bool(cyclic), "method": method, "fill": fill, "fillv": enc(fv), "has_missing": missing is not None,
            "missing": enc(float(missing or 0)), "expect": expect}
    _, ev = call("interp_multidim", gc.interp_multidim, d, a1, a2, **kw)
    ev["args"] = args
    return ev


def order(rng, a):
    r = rng.random()
    a = np.asarray(a)
    return a if r < 0.5 else a[::-1].copy() if r < 0.8 else rng.permutation(a)


def settings(rng):
    method = "nearest" if rng.random() < 0.2 else "linear"
    fill = str(rng.choice(["nan", "nan", "nan", "extrapolate", "value"]))
    dtype = str(rng.choice(["float64", "float64", "float32", "int64", "int32"]))
    missing = None
    if rng.random() < 0.25:
        missing = [99, -999.0, 0][int(rng.integers(0, 3))]
    return dict(method=method, fill=fill, dtype=dtype, missing=missing, nan=0.1 if rng.random() < 0.35 else 0.0,
                chunk=rng.random() < 0.15)


def globe(rng, case):
    """A grid enumerated by the specification, with the pointer's positions."""
    lon = np.array(case["lon"], dtype=float)
    shift = float(rng.choice([0, 0, -180, 10, 2.5, -360]))
    st = case["step"]
    q = np.arange(lon[-1] - 360, lon[0] + 360 + st, st, dtype=float) + shift
    q = q[rng.random(len(q)) < 0.5]
    if not len(q):
        q = np.array([lon[0] + shift])
    lat = np.arange(case["nlat"]) * 10.0 - 10
    ql = np.arange(-15, lat[-1] + 6, 5.0)
    ql = ql[rng.random(len(ql)) < 0.6]
    if not len(ql):
        ql = lat[:1]
    s = settings(rng)
    cyc = rng.random() < 0.7
    if s["fill"] == "extrapolate" and cyc and rng.random() < 0.7:
        s["fill"] = "nan"
    lonx = lon + shift
    lead = [(), (), (2,), (2, 2)][int(rng.integers(0, 4))]
    kind = "da"
    if rng.random() < 0.25:
        kind, lead = "nd", ()
    if rng.random() < 0.2 and not (shift % 1):
        lonx, lat = lonx.astype(int), lat.astype(int)
    return event(rng, order(rng, lat), order(rng, lonx), order(rng, ql), order(rng, q), cyc, kind=kind, lead=lead, **s)


def random_event(rng, large=False):
    n, m = int(rng.integers(2, 7)), int(rng.integers(2, 8))
    if large:
        n, m = int(rng.integers(2, 36)), int(rng.integers(8, 72))
    lat = np.sort(rng.choice(np.arange(-90, 91, 5.0), n, replace=False) + (rng.random(n) * 4 if rng.random() < 0.5 else 0))
    span = 355.0 if rng.random() < 0.5 and not large else 360.0 if large else 90.0
    lon = np.sort(rng.choice(np.arange(0, span, 5.0), m, replace=False) + (rng.random(m) * 4 if rng.random() < 0.5 else 0)) + float(rng.choice([0, -180, 30]))
    cyc = rng.random() < 0.5
    ql = np.concatenate([rng.uniform(lat[0] - 5, lat[-1] + 5, 3), rng.choice(lat, 1)])
    lo, hi = (lon[-1] - 360, lon[0] + 360) if cyc else (lon[0] - 20, lon[-1] + 20)
    q = np.concatenate([rng.uniform(lo, hi, 4), rng.choice(lon, 2, replace=False), [lo, hi] if cyc else []])
    if large:
        ql = np.concatenate([ql, rng.uniform(lat[0] - 5, lat[-1] + 5, int(rng.integers(1, 20)))])
        q = np.concatenate([q, rng.uniform(lo, hi, int(rng.integers(1, 70)))])
    if rng.random() < 0.06:         # the grid itself, but for a little
        ql, q = lat + rng.uniform(-1e-4, 1e-4, len(lat)), lon + rng.uniform(-1e-4, 1e-4, len(lon))
    s = settings(rng)
    if rng.random() < 0.06:
        return event(rng, lat, lon, ql, q, cyc, kind="nd", expect="ValueError")
    kind, lead = ("nd", ()) if rng.random() < 0.25 else ("da", [(), (3,), (2, 2)][int(rng.integers(0, 3))])
    return event(rng, order(rng, lat), order(rng, lon), order(rng, np.unique(ql)), order(rng, np.unique(q)), cyc, kind=kind, lead=lead, **s)


def build(prop, tier, seed, cases):
    big = tier == "thorough"
    cs = pick(cases, None if big else 180, seed, prop)
    items = [("globe", c, i) for i, c in enumerate(cs)] * (3 if big else 1) + [("rand", None, i) for i in range(3000 if big else 250)]
    items += [("large", None, i) for i in range(60 if big else 8)]
    items = [(k, c, i, j) for j, (k, c, i) in enumerate(items)]

    def make(item):
        kind, c, i, j = item
        rng = rng_for(seed, prop, kind, i, j)
        if kind == "large":
            return [random_event(rng, True)]
        return [globe(rng, c), globe(rng, c)] if kind == "globe" else [random_event(rng) for _ in range(2)]
    return make, items


if __name__ == "__main__":
    driver_main(build, swap=False)      # (scipy's interpolators reject other byte orders)
