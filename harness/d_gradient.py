"""gradient: G01."""
from common import *  # noqa: F401,F403
from common import amplitude, call, driver_main, enc, gc, np, pick, rng_for, xr


def wrapped(*a, **kw):
    r = gc.gradient(*a, **kw)
    return {"two": len(r) == 2, "x": r[1], "y": r[0]}


def event(rng, lat, lon, f, latdim, londim, form, cdtype):
    """f: data with latitude on axis latdim, longitude on axis londim."""
    cl, co = np.asarray(lat).astype(cdtype), np.asarray(lon).astype(cdtype)
    expect = "ok"
    lon2, lat2 = np.meshgrid(co, cl)
    nd = f.ndim
    kw = {}
    a = ()
    if form == "nd1":
        d, a = f, (co, cl)
    elif form == "nd2":
        d, a = f, (lon2, lat2)
    elif form in ("nd0", "mixed"):
        d = f
        a = () if form == "nd0" else (co, lat2)
        expect = "Error" if form == "nd0" else "ValueError"
    else:
        names = [None] * nd
        names[latdim], names[londim] = ("x", "y") if form == "da2" else ("lat", "lon") if form != "daarg" else ("p", "q")
        it = iter(["time", "lev", "z"])
        names = [x or next(it) for x in names]
        co_ = {"time": np.arange(f.shape[names.index("time")])} if "time" in names and rng.random() < 0.5 else {}
        d = xr.DataArray(f, dims=names, coords=co_, name="f", attrs={"units": "K"})
        if form == "da1":
            d = d.assign_coords(lat=cl, lon=co)
        elif form == "da2":
            d = d.assign_coords(lat=(("x", "y"), lat2), lon=(("x", "y"), lon2))
        elif form == "daarg":
            if rng.random() < 0.5:
                a = (xr.DataArray(co, dims="q"), xr.DataArray(cl, dims="p"))
            elif (latdim, londim) == (nd - 2, nd - 1):
                a = (co, cl)
            else:
                a = (xr.DataArray(co, dims="q"), xr.DataArray(cl, dims="p"))
        if rng.random() < 0.2:
            d = d.chunk({names[0]: 1})
    if a and rng.random() < 0.5:
        a, kw = (), {"lon": a[0], "lat": a[1]}
    args = {"data": enc(d), "lat": enc(cl), "lon": enc(co), "latdim": latdim + 1, "londim": londim + 1, "expect": expect}
    _, ev = call("gradient", wrapped, d, *a, **kw)
    ev["args"] = args
    return ev


def layout(rng, form, m, n):
    nd = int(rng.choice([2, 2, 3, 4]))
    if form.startswith("nd") or form == "mixed":
        la, lo = nd - 2, nd - 1
    else:
        la, lo = [int(x) for x in rng.choice(nd, 2, replace=False)]
    sh = [int(x) for x in rng.integers(1, 4, nd)]
    sh[la], sh[lo] = m, n
    return tuple(sh), la, lo


def field(rng, sh, la, lo, lat, lon):
    r = rng.random()
    if r < 0.1:
        f = np.full(sh, 3.25)
    else:
        f = np.round(rng.normal(size=sh) * 64) / 16 + float(rng.choice([0, 280]))
    dt = str(rng.choice(["float64", "float64", "float64", "float32", "int64", "int16"]))
    if dt.startswith("int"):
        f = np.round(f)
    f = (f * amplitude(rng, dt)).astype(dt)
    if dt == "float64" and rng.random() < 0.15:
        f[tuple(rng.integers(0, s) for s in sh)] = np.nan
    return f


def fine(rng, n, lo, hi):
    """n coordinates anywhere between lo and hi, at least about 0.01 degrees from each other."""
    st = rng.uniform(1, 2, n) * float(rng.choice([0.01, 0.05, 0.25, 1.3, 2.8125]))
    if rng.random() < 0.5:
        st[:] = st[0]
    st *= min(1.0, (hi - lo) / st[1:].sum()) if n > 1 else 1.0
    c = np.cumsum(st)
    c = c - c[0] + rng.uniform(lo, hi)
    return c - max(0.0, c[-1] - hi)


FORMS = ["nd1", "nd2", "da1", "da1", "da2", "daarg"]


def build(prop, tier, seed, cases):
    big = tier == "thorough"
    seen = sorted({tuple(c["p"]) for c in cases})
    cs = pick([{"p": list(p)} for p in seen], None if big else 160, seed, prop)
    items = [("case", c, i) for i, c in enumerate(cs)] + [("rand", None, i) for i in range(900 if big else 60)]
    items += [("large", None, i) for i in range(40 if big else 4)]

    def make(item):
        kind, c, i = item
        rng = rng_for(seed, prop, kind, i)
        evs = []
        for _ in range(1 if kind == "large" else 3):
            form = str(rng.choice(FORMS))
            if rng.random() < 0.03:
                form = str(rng.choice(["nd0", "mixed"]))
            if kind == "case":
                lat = np.array(c["p"], dtype=float)
                lon = np.array(cs[int(rng.integers(0, len(cs)))]["p"], dtype=float) * float(rng.choice([1, 1, 2, -1])) + float(rng.choice([0, 180, -100]))
                cd = str(rng.choice(["float64", "float64", "float32", "int64", "int32"]))
            elif kind == "large":
                lat = np.sort(rng.choice(np.arange(-88, 89), int(rng.integers(8, 60)), replace=False) + np.round(rng.random() * 16) / 16)
                lon = np.sort(rng.choice(np.arange(-180, 360), int(rng.integers(8, 80)), replace=False) + np.round(rng.random() * 16) / 16)
                if rng.random() < 0.4:
                    lat, lon = fine(rng, len(lat), -89.8, 89.8), fine(rng, len(lon), -180, 360)
                lat, lon = (a[::-1].copy() if rng.random() < 0.4 else a for a in (lat, lon))
                cd = "float64"
            else:
                lat = np.sort(rng.choice(np.arange(-88, 89), int(rng.integers(2, 8)), replace=False) + np.round(rng.random() * 16) / 16)
                lon = np.sort(rng.choice(np.arange(-180, 360), int(rng.integers(2, 8)), replace=False) + np.round(rng.random() * 16) / 16)
                if rng.random() < 0.35:
                    lat, lon = fine(rng, len(lat), -89.8, 89.8), fine(rng, len(lon), -180, 360)
                    if rng.random() < 0.3:
                        lat += 89.8 - lat[-1]
                lat, lon = (a[::-1].copy() if rng.random() < 0.4 else a for a in (lat, lon))
                cd = str(rng.choice(["float64", "float64", "float32"]))
            sh, la, lo = layout(rng, form, len(lat), len(lon))
            evs.append(event(rng, lat, lon, field(rng, sh, la, lo, lat, lon), la, lo, form, cd))
        return evs
    return make, items


if __name__ == "__main__":
    driver_main(build)
