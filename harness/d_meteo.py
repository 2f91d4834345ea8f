"""Pointwise meteorology: M02-M08, M10."""
from common import *  # noqa: F401,F403
from common import call, driver_main, enc, gc, np, pick, rng_for, xr

NARGS = {"heat_index": 2, "dewtemp": 2, "relhum": 3, "relhum_ice": 3, "relhum_water": 3}
DIMS = ["time", "lat", "lon"]


# ---------------------------------------------------------------- containers
def shape_for(rng, n):
    """A shape with at most n elements."""
    r = rng.random()
    if r < 0.45 or n < 2:
        return (n,)
    if r < 0.8:
        a = int(rng.integers(1, min(n, 5) + 1))
        if rng.random() < 0.4:
            return (int(n ** 0.5),) * 2
        return (a, n // a)
    a = int(rng.integers(1, min(n, 3) + 1))
    b = int(rng.integers(1, min(n // a, 3) + 1))
    return (a, b, n // a // b)


def wrap(rng, arrs, kind, dims=None):
    """The same arrays in a container of one kind (arrays are float or int ndarrays of one shape)."""
    if kind == "nd":
        return list(arrs)
    if kind == "list":
        return [a.tolist() for a in arrs]
    if kind == "num":
        return [a.ravel()[0].item() for a in arrs]
    if kind in ("da", "dask", "daT"):
        sh = arrs[0].shape
        dims = list(dims or [str(x) for x in rng.permutation(DIMS)[:len(sh)]])
        co = {}
        if rng.random() < 0.7:
            co = {d: np.arange(s) * 3.0 - 1 for d, s in zip(dims, sh)}
            if sh and rng.random() < 0.4:
                co["aux"] = (dims[0], [f"s{i}" for i in range(sh[0])])
            if rng.random() < 0.3:
                co["sc"] = 4.5
        at = {"units": "zzz", "foo": 3} if rng.random() < 0.5 else {}
        out = [xr.DataArray(a, dims=dims, coords=co, attrs=at if i == 0 else {"bar": i}, name=f"v{i}" if rng.random() < 0.5 else None)
               for i, a in enumerate(arrs)]
        if kind == "daT":
            tr = [o.transpose(*[str(x) for x in rng.permutation(dims)]) for o in out[1:]]
            if all(o.shape == out[0].shape for o in tr):      # (other shapes are rejected)
                out = out[:1] + tr
        if kind == "dask":
            out = [o.chunk({d: int(rng.integers(1, s + 1)) for d, s in o.sizes.items()}) for o in out]
        return out
    raise ValueError(kind)


def point_event(op, xs, expect="ok", fn=None, **kw):
    args = {"xs": [enc(x) for x in xs], "expect": expect}
    if "alternate_coeffs" in kw or op == "heat_index":
        args["alt"] = bool(kw.get("alternate_coeffs", False))
    if op.startswith("sat") or op.startswith("act"):
        args["fill"] = enc(float(kw.get("tfill", float("nan"))))
    _, ev = call(op, fn or getattr(gc, op), *xs, **kw)
    ev["args"] = args
    return ev


def some_kind(rng, extra=()):
    return str(rng.choice(["nd", "nd", "da", "da", "daT", "dask", "list"] + list(extra)))


def dtype_for(rng, arrs, ints=True):
    r = rng.random()
    if r < 0.7:
        return arrs
    if r < 0.85 or not ints:
        return [a.astype("float32") for a in arrs]
    return [np.round(a).astype(str(rng.choice(["int64", "int32"]))) for a in arrs]


def holes(rng, arrs):
    if rng.random() < 0.2:
        arrs = [a.copy() for a in arrs]
        i = int(rng.integers(0, len(arrs)))
        if arrs[i].dtype.kind == "f":
            arrs[i].ravel()[rng.random(arrs[i].size) < 0.15] = np.nan
    return arrs


def arranged(rng, arrs):
    n = arrs[0].size
    sh = shape_for(rng, n)
    k = int(np.prod(sh))
    return [a.ravel()[:k].reshape(sh) for a in arrs]


# ---------------------------------------------------------------- value generators
def heat_values(rng, n):
    t = rng.uniform(20, 120, n)
    r = rng.uniform(0, 100, n)
    m = rng.random(n)
    t = np.where(m < 0.3, rng.choice([39.0, 40.0, 41.0, 70.0, 79.0, 80.0, 87.0, 95.0, 112.0, 113.0, 79.999, 87.001, 112.001, 39.999], n), t)
    r = np.where(rng.random(n) < 0.4, rng.choice([0.0, 0.5, 12.0, 12.9, 13.0, 13.1, 40.0, 84.0, 85.0, 85.5, 86.0, 95.0, 100.0], n), r)
    m = rng.random(n)
    t = np.where(m < 0.15, rng.uniform(80, 112, n), t)
    r = np.where(m < 0.15, rng.uniform(0, 13, n), r)
    t = np.where(m > 0.85, rng.uniform(79, 88, n), t)
    r = np.where(m > 0.85, rng.uniform(84, 100, n), r)
    return [t, r]


def air_values(rng, n, lo=165.0, hi=380.0):
    t = rng.uniform(lo, hi, n)
    k = rng.random(n)
    t = np.where(k < 0.2, 173.16 + rng.integers(-3, 206, n) + rng.choice([0.0, 0.25, 0.5, 0.75, 1e-6, -1e-6], n), t)
    t = np.where(k > 0.95, rng.choice([173.16, 375.16, 100.0, 400.0, 273.15, 273.16], n), t)
    w = rng.uniform(0, 0.03, n)
    w = np.where(rng.random(n) < 0.1, rng.choice([0.0, 1e-12, -1e-3], n), w)
    p = rng.uniform(1000, 108000, n)
    return [t, w, p]


def magnus_values(rng, n):
    t = rng.uniform(180, 330, n)
    w = np.where(rng.random(n) < 0.1, 0.0, rng.uniform(0, 0.03, n))
    p = np.where(rng.random(n) < 0.3, np.exp(rng.uniform(np.log(50), np.log(30000), n)), rng.uniform(30000, 108000, n))
    return [t, w, p]


def dew_values(rng, n):
    t = rng.uniform(200, 330, n)
    rh = rng.uniform(0.5, 100, n)
    rh = np.where(rng.random(n) < 0.2, rng.choice([100.0, 99.0, 1.0, 50.0, 0.01, 3e-3, 1e-4, 1e-6], n), rh)
    return [t, rh]


def values(rng, op, n):
    return {"heat_index": heat_values, "dewtemp": dew_values, "relhum": air_values,
            "relhum_ice": magnus_values, "relhum_water": magnus_values}[op](rng, n)


# ---------------------------------------------------------------- events
BIG = [50, 64, 65, 100, 127, 128, 129, 200, 256, 257, 365, 500, 512, 600, 1000, 1001, 1024, 1025, 2000, 2500]


def random_event(rng, op, n=None):
    n = n or int(rng.integers(1, 14))
    if op in NARGS:
        arrs = values(rng, op, n)
        arrs = dtype_for(rng, arrs, ints=op in ("heat_index",))
        arrs = holes(rng, arranged(rng, arrs))
        kind = some_kind(rng, ["num"])
        if kind in ("list", "num") and arrs[0].dtype != np.float64:
            arrs = [a.astype(float) if a.dtype.kind == "f" else a for a in arrs]
        if kind == "dask" and op == "relhum" and rng.random() < 0.5:
            kind = "da"
        xs = wrap(rng, arrs, kind)
        kw = {}
        if op == "heat_index":
            if rng.random() < 0.4:
                kw["alternate_coeffs"] = bool(rng.random() < 0.8)
            if rng.random() < 0.12:
                bad = float(rng.choice([-0.01, -5.0, 100.01, 150.0]))
                a = [np.nan_to_num(np.array(z, dtype=float), nan=50.0) for z in arrs]
                a[1].ravel()[int(rng.integers(0, a[1].size))] = bad
                return point_event(op, wrap(rng, a, str(rng.choice(["nd", "da", "list"]))), "ValueError", **kw)
        return point_event(op, xs, **kw)
    # single-argument functions
    if op == "psychrometric_constant":
        x = rng.uniform(0, 120, n)
    else:
        x = rng.uniform(-40, 130, n)
        x = np.where(rng.random(n) < 0.3, rng.choice([32.0, 32.0001, 31.9999, 33.0, 31.0, 0.0, -400.0], n), x)
    arrs = holes(rng, arranged(rng, dtype_for(rng, [x])))
    kind = str(rng.choice(["nd", "nd", "da", "da", "dask", "list", "num"]))
    if kind in ("list", "num") and arrs[0].dtype == np.float32:
        arrs = [arrs[0].astype(float)]
    xs = wrap(rng, arrs, kind)
    kw = {}
    if op != "psychrometric_constant" and rng.random() < 0.5:
        kw["tfill"] = [0.0, -999.0, 1e20, float("nan"), -1][int(rng.integers(0, 5))]
    return point_event(op, xs, **kw)


def daylight_event(rng, days=None, lats=None):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    if days is None:
        days = rng.integers(1, 367, n).astype(float) if rng.random() < 0.7 else rng.uniform(1, 366, n)
        lats = rng.uniform(-90, 90, m)
        r = rng.random()
        if r < 0.4:
            lats = np.concatenate([lats, -lats])
        elif r < 0.5:
            lats = np.array([0.0, 66.0, -66.0, 67.0, 90.0, -90.0, 55.0])[:m]
        lats = rng.permutation(lats)
        if rng.random() < 0.3:
            lats = np.round(lats)
    kind = str(rng.choice(["nd", "nd", "da", "list", "num", "mixed"]))
    if rng.random() < 0.2:
        days, lats = days.astype("float32"), lats.astype("float32")
    elif rng.random() < 0.2:
        days, lats = np.round(days).astype(int), np.round(lats).astype(int)
    if kind == "num":
        days, lats = days[:1], lats[:1]
    j, l = days, lats
    if kind in ("list", "num"):
        j, l = j.astype(float), l.astype(float)
        j, l = (j.tolist(), l.tolist()) if kind == "list" else (j[0].item(), l[0].item())
    elif kind == "da":
        j, l = xr.DataArray(j, dims=["day"]), xr.DataArray(l, dims=["y"], coords={"y": l} if rng.random() < 0.5 else None)
    elif kind == "mixed":
        j = xr.DataArray(j, dims=["day"])
    expect = "ok"
    if rng.random() < 0.08:
        j, l, expect = (np.ones((2, 2)), l, "ValueError") if rng.random() < 0.5 else (j, np.ones((2, 2)), "ValueError")
    _, ev = call("max_daylight", gc.max_daylight, j, l)
    ev["args"] = {"xs": [enc(j), enc(l)], "expect": expect}
    return ev


def flat_ref(op, arrs, **kw):
    return point_event(op, [a.ravel() for a in arrs], **kw)


def container_session(rng, op, n=None):
    """M10: the same values in many containers, then mismatches."""
    n = n or int(rng.integers(1, 13))
    arrs = values(rng, op, n)
    if rng.random() < 0.25:
        arrs = holes(rng, arrs)
    kw = {"alternate_coeffs": bool(rng.random() < 0.5)} if op == "heat_index" else {}
    evs = [flat_ref(op, arrs, **kw)]
    for kind in ["nd", "da", "list", "num", "dask", "daT", "da"]:
        if kind in ("list", "num") and any(np.isnan(a).any() for a in arrs) and rng.random() < 0.5:
            continue
        perm = rng.permutation(n)
        sh = shape_for(rng, n)
        k = int(np.prod(sh))
        a2 = [a[perm][:k].reshape(sh) for a in arrs]
        of = (perm[:k] + 1).reshape(sh)
        if kind == "num":
            of = of.ravel()[:1].reshape(())
        xs = wrap(rng, a2, kind)
        ev = point_event(op, xs, **kw)
        o = enc(xr.DataArray(of, dims=xs[0].dims)) if hasattr(xs[0], "dims") else enc(np.asarray(of))
        ev["args"]["of"] = o
        evs.append(ev)
    # mismatches
    sh = shape_for(rng, n)
    k = int(np.prod(sh))
    base = [a[:k].reshape(sh) for a in arrs]
    base = [np.nan_to_num(b, nan=1.0) for b in base]
    which = int(rng.integers(1, len(base)))
    bad = list(base)
    r = rng.random()
    if r < 0.35:
        bad[which] = np.concatenate([bad[which], bad[which]], axis=0)
    elif r < 0.6:
        bad[which] = bad[which][None]
    elif r < 0.8:
        bad[which] = np.asarray(bad[which].ravel()[0])
    else:
        bad[which] = bad[which].ravel()[:1].reshape((1,) * max(0, base[0].ndim))
    if bad[which].shape != base[0].shape:
        kind = str(rng.choice(["nd", "list", "da"]))
        if kind == "da":
            xs = [xr.DataArray(b, dims=DIMS[:b.ndim]) if b.ndim < 4 else xr.DataArray(b) for b in bad]
        elif kind == "list" and all(b.ndim for b in bad):
            xs = [b.tolist() for b in bad]
        else:
            xs = bad
        evs.append(point_event(op, xs, "ValueError", **kw))
    if op != "relhum":
        xs = list(base)
        xs[which] = xr.DataArray(xs[which], dims=DIMS[:xs[which].ndim])
        if rng.random() < 0.5:
            xs = [x.values if hasattr(x, "dims") else xr.DataArray(x, dims=DIMS[:x.ndim]) for x in xs]
        if rng.random() < 0.3:
            xs = [x if hasattr(x, "dims") else x.tolist() for x in xs]
        evs.append(point_event(op, xs, "TypeError", **kw))
    return evs


OPS = {"M02": ["heat_index"], "M03": ["relhum"], "M04": ["relhum_ice", "relhum_water"], "M05": ["dewtemp"],
       "M06": ["saturation_vapor_pressure", "actual_saturation_vapor_pressure", "saturation_vapor_pressure_slope"],
       "M07": ["max_daylight"], "M08": ["psychrometric_constant"], "M10": list(NARGS)}


def groups(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def build(prop, tier, seed, cases):
    big = tier == "thorough"
    items = []
    par = [c for c in cases if c["kind"] == "parcel"]
    tab = [c for c in cases if c["kind"] == "table"]
    days = [c for c in cases if c["kind"] == "day"]
    rng0 = rng_for(seed, prop, "order")

    def shuffled(cs):
        cs = sorted(cs, key=lambda c: sorted(c.items(), key=str).__repr__())
        return [cs[i] for i in rng0.permutation(len(cs))]
    if prop == "M02":
        for alt in (False, True):
            items += [("parcels", alt, g) for g in groups(shuffled([c for c in par if c["alt"] == alt]), 13)]
    elif prop == "M05":
        items += [("dew", None, g) for g in groups(shuffled([c for c in par if not c["alt"] and c["r"] > 0]), 13)]
    elif prop == "M06":
        items += [("tetens", None, g) for g in groups(shuffled([c for c in par if not c["alt"] and c["r"] == 0]), 8)]
    elif prop == "M04":
        items += [("magnus", None, g) for g in groups(shuffled([c for c in par if not c["alt"]]), 13)]
    elif prop == "M03":
        items += [("table", None, g) for g in groups(shuffled(tab), 13)]
    elif prop == "M07":
        ds = sorted({c["day"] for c in days})
        ls = sorted({c["lat"] for c in days})
        ds = [ds[i] for i in rng0.permutation(len(ds))]
        items += [("days", ls, g) for g in groups(ds, 6)]
    n = {"M10": 120}.get(prop, 220) * (12 if big else 1)
    items += [("rand", i, None) for i in range(n)]
    items += [("large", i, None) for i in range((3 if prop == "M10" else 6) * (8 if big else 1))]

    def make(item):
        kind, x, g = item
        rng = rng_for(seed, prop, kind, repr(x), repr(g))
        ops = OPS[prop]
        if kind == "rand":
            op = ops[x % len(ops)]
            if prop == "M10":
                return container_session(rng, op)
            if prop == "M07":
                return [daylight_event(rng) for _ in range(2)]
            return [random_event(rng, op) for _ in range(3)]
        if kind == "large":
            op = ops[int(rng.integers(0, len(ops)))]
            n = int(rng.choice(BIG)) if rng.random() < 0.7 else int(rng.integers(14, 1500))
            if prop == "M10":
                return container_session(rng, op, min(n, 300))
            if prop == "M07":
                k = int(rng.integers(1, 367))
                return [daylight_event(rng, rng.permutation(np.arange(1.0, 367.0))[:k], rng.uniform(-90, 90, max(1, n // k)))]
            return [random_event(rng, op, n)]
        if kind == "days":
            return [daylight_event(rng, np.array(g, float), rng.permutation(np.array(x, float)))]
        t = np.array([c.get("t", 0) for c in g], float)
        r = np.array([c.get("r", 0) for c in g], float)
        if kind == "parcels":
            arrs, kw = [t, r], {"alternate_coeffs": x}
        elif kind == "dew":
            arrs, kw = [(t - 32) * 5 / 9 + 273.15, r], {}
        elif kind == "magnus":
            arrs, kw = [(t - 32) * 5 / 9 + 273.15, r / 5000, 60000 + 400 * r], {}
        elif kind == "tetens":
            arrs, kw = [t], {"tfill": float(rng.choice([-9.0, np.nan]))}
        else:
            arrs = [173.16 + np.array([c["q"] for c in g]) / 4, rng.uniform(1e-4, 0.03, len(g)), rng.uniform(20000, 105000, len(g))]
            kw = {}
        evs = []
        for op in ops:
            a = arrs
            if op == "heat_index" and rng.random() < 0.3:
                a = [z.astype(int) for z in arrs]
            evs.append(point_event(op, wrap(rng, arranged(rng, a), str(rng.choice(["nd", "da", "list"]))), **kw))
        return evs
    return make, items


if __name__ == "__main__":
    driver_main(build)
