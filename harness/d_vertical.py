"""Vertical coordinate functions: V01-V06, M01, M09."""
from common import *  # noqa: F401,F403
from common import amplitude, call, driver_main, enc, gc, in_order, laid, np, pick, rng_for, xr
import dask

OTHER = ["time", "lat", "lon", "ens"]


LARGE = False        # many levels and points
SIZES = None         # (levels, columns) demanded by an enumerated case


def count(rng, lo, hi, most=60):
    return int(rng.integers(hi, most)) if LARGE and rng.random() < 0.7 else int(rng.integers(lo, hi))


def how_many_levels(rng, lo, hi):
    return SIZES[0] if SIZES else count(rng, lo, hi)


def names_shape(rng, nd, maxn=3):
    if SIZES:
        return ["col", "ens"][:max(1, min(nd, 2))], [SIZES[1], 2][:max(1, min(nd, 2))]
    names = [str(x) for x in rng.permutation(OTHER[:max(nd, 3)])[:nd]]
    shape = [int(rng.integers(1, maxn + 1)) for _ in names]
    if LARGE and names:
        shape[int(rng.integers(0, nd))] = int(rng.integers(5, 130))
    return names, shape


def spaced(rng, n, lo, hi):
    """n increasing numbers, none close to its neighbours."""
    x = np.cumsum(0.3 + rng.random(n + 1))
    return lo + (hi - lo) * x[:n] / x[n]


def field(rng, names, shape, lo, hi, name=None, coords=True, dtype="float64", attrs=None):
    c = {}
    if coords:
        for n, s in zip(names, shape):
            c[n] = np.arange(s) * 10.0 + 5
    x = lo + (hi - lo) * rng.random(shape)
    if rng.random() < 0.1:          # nearly the same everywhere
        x = x.flat[0] * (1 + 1e-6 * rng.random(shape)) if x.size else x
    return xr.DataArray(np.asarray(x, dtype=dtype), dims=names, coords=c, name=name, attrs=attrs or {})


def coefs(rng, n, interface=False, order="td"):
    """Hybrid coefficients of a sane atmosphere: level pressures increase downwards for every ps."""
    s = np.sort(rng.random(n) * 0.96 + 0.02) if n < 10 else spaced(rng, n, 0.01, 0.99)
    while n < 10 and n > 1 and np.min(np.diff(s)) < 0.02:
        s = np.sort(rng.random(n) * 0.96 + 0.02)
    b = s ** float(rng.choice([1.3, 2.0, 3.0])) if rng.random() < 0.8 else s
    a = s - b
    if rng.random() < 0.25:      # exactly representable
        b = np.round(b * 256) / 256
        a = np.round(a * 256) / 256
        t = a + b
        if n > 1 and np.min(np.diff(t)) <= 0:
            return coefs(rng, n, interface, order)
    if order == "bu":
        a, b = a[::-1].copy(), b[::-1].copy()
    return a, b


def raw(x):
    return enc(x)


# ---------------------------------------------------------------- V01, V02
def hybrid_events(rng, op, n_events=4):
    evs = []
    for _ in range(n_events):
        n = count(rng, 2, 7)
        nd = int(rng.integers(0, 4)) if rng.random() < 0.85 else 4
        names, shape = names_shape(rng, nd)
        kind = str(rng.choice(["nd", "da", "da"])) if op == "pressure_at_hybrid_levels" else str(rng.choice(["nd", "da", "da", "da-nd", "nd-da"]))
        a, b = coefs(rng, n, order=str(rng.choice(["td", "bu"])))
        if rng.random() < 0.3:
            a, b = rng.normal(size=n), rng.normal(size=n)
        elif rng.random() < 0.15:   # a top in the thermosphere
            a, b = np.sort(10.0 ** rng.uniform(-9, -3, n)), np.where(np.arange(n) < n - 2, 0.0, np.arange(n) / n)
        dt = str(rng.choice(["float64", "float64", "float32"]))
        ps = field(rng, names, shape, 50000, 105000, "ps", coords=rng.random() < 0.7, dtype=dt)
        if rng.random() < 0.2:      # hPa; a thin and a thick atmosphere
            ps = ps * np.asarray(rng.choice([0.01, 0.006, 40.0]), ps.dtype)
        if rng.random() < 0.2 and ps.size:
            ps = ps.where(rng.random(ps.shape) > 0.2)
        p0 = [100000.0, 1000.0, 1.0, 101325.0, 100000, 99999.5][int(rng.integers(0, 6))]
        psa = ps if kind.startswith("da") else ps.values
        ac = {}
        r = rng.random()
        hd = "lev" if op == "pressure_at_hybrid_levels" else "ilev"
        if r < 0.35:
            ac = {hd: np.arange(n) * 1.5}
        elif r < 0.5:
            ac = {hd: np.arange(n) * 1.5, "label": (hd, [f"L{i}" for i in range(n)]), "nom": (hd, np.linspace(1, 9, n))}
        ha, hb = xr.DataArray(a, dims=[hd], coords=ac), xr.DataArray(b, dims=[hd], coords=ac)
        if rng.random() < 0.25:
            # another dimension name; the labels, if any, need not be sorted
            hb = xr.DataArray(b, dims=["ilev2"], coords={"ilev2": rng.permutation(n) * 2.0} if not ac and rng.random() < 0.6 else {})
        if kind in ("nd", "da-nd"):
            ha, hb = a, b
        expect = "ok"
        bad = rng.random()
        if bad < 0.12:
            hb = hb[:-1]
            expect = "ValueError" if kind in ("nd", "da", "da-nd", "nd-da") else "Error"
        elif bad < 0.2 and kind in ("da", "nd"):
            hb = hb.values if kind == "da" else xr.DataArray(hb, dims=[hd])
            expect = "TypeError"
        elif bad < 0.24 and op == "pressure_at_hybrid_levels":       # neither arrays nor DataArrays
            x = [psa, ha, hb]
            which = int(rng.integers(0, 3))
            x[which] = np.asarray(x[which]).tolist() if rng.random() < 0.7 else None
            psa, ha, hb = x
            expect = "TypeError"
        elif bad < 0.3 and (kind in ("nd", "da-nd") or op == "delta_pressure_hybrid"):   # coefficients of two dimensions
            both = [np.stack([np.asarray(x)] * 2, axis=int(rng.integers(0, 2))) for x in (ha, hb)]
            ha, hb = both if kind in ("nd", "da-nd") else [xr.DataArray(x, dims=["u", hd]) for x in both]
            expect = "ValueError"
        args = {"ps": raw(psa), "hya": raw(ha), "hyb": raw(hb), "p0": raw(float(p0)), "expect": expect}
        if rng.random() < 0.4 and p0 == 100000.0:
            _, ev = call(op, getattr(gc, op), psa, ha, hb)
        else:
            _, ev = call(op, getattr(gc, op), psa, ha, hb, p0)
        ev["args"] = args
        evs.append(ev)
    return evs


def hybrid_column(case, op, rng):
    """Coefficients enumerated by the specification: every surface pressure, arrays and DataArrays."""
    unit = float(rng.choice([1.0, 4096.0, 6250.0, 0.25]))
    a, b = np.array(case["a"]) / 16.0, np.array(case["b"]) / 16.0
    sp = np.array(case["surfaces"], float) * unit
    sp = rng.permutation(sp)
    if rng.random() < 0.5:
        sp = np.stack([sp, sp[::-1]], axis=int(rng.integers(0, 2)))
    nd = rng.random() < 0.4
    ps = sp if nd else xr.DataArray(sp, dims=["y", "x"][:sp.ndim], name="ps")
    ha, hb = (a, b) if nd else (xr.DataArray(a, dims=["lev"]), xr.DataArray(b, dims=["lev"]))
    _, ev = call(op, getattr(gc, op), ps, ha, hb, 16 * unit)
    ev["args"] = {"ps": raw(ps), "hya": raw(ha), "hyb": raw(hb), "p0": raw(16 * unit), "expect": "ok"}
    return [ev]


def s2h_column(case, rng):
    """The same coefficients; data on one of the sigma grids of the specification."""
    unit = 4096.0
    sig = np.array([[1, 4, 11, 16], [2, 5, 8, 13]][int(rng.integers(0, 2))]) / 16.0
    if rng.random() < 0.4:
        sig = sig[::-1].copy()
    sp = rng.permutation(np.array(case["surfaces"], float)) * unit
    a, b = np.array(case["a"]) / 16.0, np.array(case["b"]) / 16.0
    dims = ["sigma", "x"] if rng.random() < 0.6 else ["x", "sigma"]
    x = np.round(rng.uniform(-50, 50, (len(sig), len(sp))), 2)
    data = xr.DataArray(x if dims[0] == "sigma" else x.T.copy(), dims=dims, name="v")
    return dict(data=data, sigma=xr.DataArray(sig, dims=["sigma"]), ps=xr.DataArray(sp, dims=["x"]), hya=xr.DataArray(a, dims=["lev"]),
                hyb=xr.DataArray(b, dims=["lev"]), p0=16 * unit, lev_dim="sigma", method=str(rng.choice(["linear", "log"])), guess=False)


# ---------------------------------------------------------------- V03, V04, V05
def h2p_case(rng, extrap=None, column=None):
    n = how_many_levels(rng, 2, 8)
    names, shape = names_shape(rng, int(rng.integers(0, 4)), 3)
    nd = len(names)
    order = str(rng.choice(["td", "td", "bu"]))
    a, b = coefs(rng, n, order=order)
    dt = str(rng.choice(["float64", "float64", "float32"]))
    coords = rng.random() < 0.7
    ps = field(rng, names, shape, 60000, 105000, "PS", coords=coords, dtype=str(rng.choice(["float64", "float64", "float32"])))
    unit = float(rng.choice([1.0, 1.0, 0.01, 1e-5, 1e-7]))      # Pa, hPa, bar, ...
    if rng.random() < 0.3:      # the lowest level lies at the surface
        k = -1 if order == "td" else 0
        a[k], b[k] = 0.0, 1.0
        ps = np.round(ps / 500) * 500
        while True:             # and the others above it
            p = a[:, None] * 1e5 + b[:, None] * ps.values.astype(float).ravel()[None, :]
            if np.all(np.delete(p, k, axis=0).max(axis=0) < p[k] - 50):
                break
            a[:] = a * 0.8
            b[np.arange(n) != np.arange(n)[k]] *= 0.97
    if unit != 1.0:
        ps = ps * np.asarray(unit, ps.dtype)
    ax = int(rng.integers(0, nd + 1))
    dn = list(names)
    dn.insert(ax, "lev")
    ds = list(shape)
    ds.insert(ax, n)
    levc = np.arange(n) * 10.0 if order == "td" else np.arange(n)[::-1] * 10.0
    data = field(rng, dn, ds, 200, 310, "T", coords=coords, dtype=dt, attrs={"units": "K", "note": "x"})
    hascoord = rng.random() < 0.7
    if hascoord:
        data = data.assign_coords(lev=("lev", levc, {"positive": "down", "standard_name": "atmosphere_hybrid_sigma_pressure_coordinate"}))
    elif "lev" in data.coords:
        data = data.drop_vars("lev")
    if coords and nd and rng.random() < 0.3:
        data = data.assign_coords(area=(names, np.arange(int(np.prod(shape))).reshape(shape) * 2.0), scal=3.0)
    if rng.random() < 0.2:      # coordinates along the levels that are not the levels
        data = data.assign_coords(hyam=("lev", a), mass=(dn, rng.random(ds)))
    if rng.random() < 0.25:
        data = data.where(rng.random(data.shape) > 0.15)
    if not extrap:
        data = data * np.asarray(amplitude(rng, dt), dt)
    ha, hb = xr.DataArray(a, dims=["lev"]), xr.DataArray(b, dims=["lev"])
    if hascoord and rng.random() < 0.5:
        ha, hb = ha.assign_coords(lev=levc), hb.assign_coords(lev=levc)
    if nd > 1 and rng.random() < 0.3:
        ps = ps.transpose(*[str(x) for x in rng.permutation(names)])
    # targets: levels themselves, between, outside, below ground
    p0 = float(rng.choice([100000.0, 100000.0, 90000.0])) * unit
    p = (a[:, None] * p0 + b[:, None] * ps.values.astype(float).ravel()[None, :]).ravel()
    q = list(rng.uniform(p.min() * 0.5, p.max() * 1.15, size=count(rng, 1, 6)))
    q += list(rng.choice(p, size=int(rng.integers(0, 3))) * float(rng.choice([1, 1, 1, 1 + 1e-6, 1 - 1e-6])))
    q += list(rng.choice([100000.0, 85000.0, 50000.0, 110000.0, 20000.0], size=2) * unit)
    q += list(rng.choice(ps.values.astype(float).ravel(), size=int(rng.integers(0, 3))))
    if rng.random() < 0.5:
        q.append(float(p.max()) * 1.02)
    q = np.unique(np.array(q))
    r = rng.random()
    q = np.sort(q) if r < 0.3 else np.sort(q)[::-1].copy() if r < 0.6 else rng.permutation(q)
    c = dict(data=data, ps=ps, hya=ha, hyb=hb, p0=p0, new_levels=q, lev_dim="lev", method=str(rng.choice(["linear", "log"])),
             extrapolate=False, variable=None, t_bot=None, phi_sfc=None, guess=hascoord and rng.random() < 0.3, brief=rng.random() < 0.5,
             standard=unit == 1.0 and rng.random() < 0.2)
    if extrap:
        c["extrapolate"] = True
        c["variable"] = extrap
        if extrap != "other":
            c["t_bot"] = field(rng, names, shape, 230, 315, "tbot", coords=coords)
            h = rng.choice([-50.0, 0.0, 10.0, 500.0, 1990.0, 2010.0, 2300.0, 2490.0, 2510.0, 4000.0], size=shape) + rng.random(shape) * 9
            if rng.random() < 0.3:      # surface and sea level temperatures next to the thresholds
                t = rng.choice([255.0, 290.5, 298.0], size=shape) + rng.choice([-0.4, -0.1, 0.1, 0.4], size=shape)
                c["t_bot"] = c["t_bot"].copy(data=t - (0.0065 * h if rng.random() < 0.7 else 0))
            elif rng.random() < 0.2:    # exactly at a threshold, where the lowest level is the surface
                c["t_bot"] = c["t_bot"].copy(data=rng.choice([255.0, 290.5, 298.0], size=shape))
            if rng.random() < 0.4:      # at and next to the two thresholds
                h = rng.choice([1999.5, 1999.99, 2000.01, 2000.5, 2499.5, 2499.99, 2500.01, 2500.5, 3000.0], size=shape)
            c["phi_sfc"] = xr.DataArray(h * 9.80616, dims=names, coords=c["t_bot"].coords)
        elif rng.random() < 0.5:
            c["t_bot"] = None
    return c


def h2p_column(case, rng):
    """A column enumerated by the specification: integer pressures, missing levels, all targets."""
    lv = np.array(case["levels"], dtype=float)
    n = len(lv)
    unit = 4096.0
    ps0 = 16 * unit
    w = rng.integers(0, 17, size=n) / 16.0
    b = lv / 16.0 * w
    a = lv / 16.0 * (1 - w)
    x = np.where(case["miss"], np.nan, np.arange(1, n + 1) ** 2 + 1.0)
    order = np.arange(n)[::-1] if rng.random() < 0.3 else np.arange(n)
    cols = int(rng.integers(1, 3))
    data = xr.DataArray(np.stack([x[order]] + [np.arange(n) * 1.0] * (cols - 1), axis=1), dims=["lev", "x"], name="v")
    ps = xr.DataArray(np.full(cols, ps0), dims=["x"])
    q = np.array(case["targets"], dtype=float) * unit
    q = rng.permutation(q) if rng.random() < 0.4 else q if rng.random() < 0.5 else q[::-1].copy()
    return dict(data=data, ps=ps, hya=xr.DataArray(a[order], dims=["lev"]), hyb=xr.DataArray(b[order], dims=["lev"]), p0=ps0, new_levels=q,
                lev_dim="lev", method=str(rng.choice(["linear", "log"])), extrapolate=False, variable=None, t_bot=None, phi_sfc=None, guess=False)


def h2p_event(c, expect="ok", chunk=None, sched=None, lazy=None):
    args = {k: raw(c[k]) for k in ("data", "ps", "hya", "hyb", "p0", "new_levels", "t_bot", "phi_sfc")}
    args["standard"] = bool(c.get("standard", False))
    args.update(lev_dim=c["lev_dim"], method=c["method"], extrapolate=c["extrapolate"], variable=str(c["variable"]), expect=expect,
                chunk=str(chunk), sched=str(sched))
    data, ps = laid(c["data"], c["ps"])
    tb, ph = laid(c["t_bot"], c["phi_sfc"])
    if chunk is not None:
        cd, cp = chunk
        data = data.chunk(cd) if cd is not None else data
        ps = ps.chunk(cp) if cp is not None else ps

    def run():
        if c.get("standard") or c.get("brief"):
            new = None if c.get("standard") else c["new_levels"]
            kw = dict(p0=c["p0"], new_levels=new, lev_dim=None if c["guess"] else c["lev_dim"], method=c["method"], extrapolate=c["extrapolate"],
                      variable=c["variable"], t_bot=tb, phi_sfc=ph)
            given = {"p0": 100000.0, "method": "linear", "extrapolate": False}
            kw = {k: v for k, v in kw.items() if v is not None and not (k in given and v == given[k])}
            return computed(gc.interp_hybrid_to_pressure(data, ps, c["hya"], c["hyb"], **kw), sched)
        r = gc.interp_hybrid_to_pressure(data, ps, c["hya"], c["hyb"], c["p0"], c["new_levels"], None if c["guess"] else c["lev_dim"],
                                         c["method"], c["extrapolate"], c["variable"], tb, ph)
        return computed(r, sched)
    _, ev = call("interp_hybrid_to_pressure", run)
    ev["args"] = args
    return ev


def computed(r, sched):
    if sched is None or not hasattr(r, "compute"):
        return r
    kind, k = sched
    if kind == "order":
        return in_order(r, k)
    if kind == "threads":
        return r.compute(scheduler="threads", num_workers=k)
    return r.compute(scheduler="synchronous")


def chunk_case(case, rng, idx):
    """An operation on the blocks and in the order enumerated by the specification."""
    global SIZES
    SIZES = (sum(case["lcut"]), sum(case["fcut"]))
    try:
        kind = ["h2p", "s2h", "extrap", "hybrid"][idx % 4]
        sched = ("order", list(case["order"]))
        if kind == "hybrid":
            names, shape = names_shape(rng, 2)
            a, b = coefs(rng, SIZES[0])
            ps = field(rng, names, shape, 50000, 105000, "ps")
            ha, hb = xr.DataArray(a, dims=["ilev"]), xr.DataArray(b, dims=["ilev"])
            evs = []
            op = "delta_pressure_hybrid" if rng.random() < 0.5 else "pressure_at_hybrid_levels"
            for p, x, y, sc in ((ps, ha, hb, None), (ps.chunk({"col": tuple(case["pcut"])}), ha, hb, sched),
                                (ps.chunk({"col": tuple(case["fcut"])}), ha, hb, sched)):
                _, ev = call(op, lambda: computed(getattr(gc, op)(p, x, y), sc))
                ev["args"] = {"ps": raw(ps), "hya": raw(ha), "hyb": raw(hb), "p0": raw(100000.0), "expect": "ok"}
                evs.append(ev)
            return evs
        c = s2h_case(rng) if kind == "s2h" else h2p_case(rng, "temperature" if kind == "extrap" else None)
        c["guess"] = False
        f = s2h_event if kind == "s2h" else h2p_event
        lev = c["lev_dim"]
        cf = {d: -1 for d in c["data"].dims}
        cf.update({"col": tuple(case["fcut"]), lev: tuple(case["lcut"])})
        cp = {d: -1 for d in c["ps"].dims}
        cp.update({"col": tuple(case["pcut"])})
        return [f(c), f(c, chunk=(cf, cp), sched=sched)]
    finally:
        SIZES = None


def chunk_of(rng, da, whole=None):
    if rng.random() < 0.2 and whole is None:
        return None
    ch = {d: int(rng.integers(1, da.sizes[d] + 1)) for d in da.dims}
    if whole:
        ch[whole] = da.sizes[whole]
    if rng.random() < 0.4:
        ch = {d: tuple(split(rng, da.sizes[d])) for d in da.dims}
        if whole:
            ch[whole] = (da.sizes[whole],)
    return ch


def split(rng, n):
    out = []
    while n > 0:
        k = int(rng.integers(1, n + 1))
        out.append(k)
        n -= k
    return out


# ---------------------------------------------------------------- V06
def s2h_case(rng, column=None):
    n = how_many_levels(rng, 2, 7)
    m = count(rng, 1, 9)
    names, shape = names_shape(rng, int(rng.integers(0, 3)) if rng.random() < 0.9 else 3, 3)
    nd = len(names)
    a, b = coefs(rng, m, order=str(rng.choice(["td", "bu"])))
    small = rng.random() < 0.35     # a grid reaching the uppermost sigmas
    while True:
        if n > 9:
            sig = spaced(rng, n, 0.01, 1.0)
            break
        sig = np.sort(np.exp(rng.uniform(-7, 0, n)) if small else rng.random(n) * 0.9 + 0.05)
        if np.min(np.diff(sig)) >= (0.05 * sig[0] if small else 0.01):
            break
    if small and rng.random() < 0.7:
        a, b = np.exp(rng.uniform(-8, -1, m)), np.sort(rng.random(m)) * rng.choice([0, 0.5])
        a = np.sort(a)
    if rng.random() < 0.25:         # levels in no order
        shuffle = rng.permutation(m)
        a, b = a[shuffle], b[shuffle]
    p0 = float(rng.choice([100000.0, 100000.0, 95000.0, 101325.0, 70000.0, 140000.0]))
    if rng.random() < 0.3:     # some hybrid levels exactly at a sigma level
        a = np.zeros(m)
        b = np.sort(np.concatenate([rng.choice(sig, size=min(m, n), replace=False), rng.random(max(0, m - n))]))
    if rng.random() < 0.4:
        sig = sig[::-1].copy()
    dt = str(rng.choice(["float64", "float32", "int64", "int32"]))
    ps = field(rng, names, shape, 60000, 105000, "ps", coords=rng.random() < 0.6)
    if rng.random() < 0.25:     # hPa; other planets
        unit = float(rng.choice([0.01, 0.006, 90.0]))
        ps, p0 = ps * unit, p0 * unit
    ax = int(rng.integers(0, nd + 1))
    dn, ds = list(names), list(shape)
    dn.insert(ax, "sigma")
    ds.insert(ax, n)
    data = field(rng, dn, ds, 200, 310, "T", coords=False, dtype=dt)
    for c in ps.coords:
        data = data.assign_coords({c: ps[c]})
    if dt.startswith("float") and rng.random() < 0.25:
        data = data.where(rng.random(data.shape) > 0.15)
    if dt.startswith("float"):
        data = data * np.asarray(amplitude(rng, dt), dt)
    if nd > 1 and rng.random() < 0.4:
        ps = ps.transpose(*[str(x) for x in rng.permutation(names)])
    sc = xr.DataArray(sig, dims=["sigma"])
    if rng.random() < 0.5:
        data = data.assign_coords(sigma=("sigma", sig, {"standard_name": "atmosphere_sigma_coordinate", "positive": "down", "axis": "Z"}))
    return dict(data=data, sigma=sc, ps=ps, hya=xr.DataArray(a, dims=["lev"]), hyb=xr.DataArray(b, dims=["lev"]), p0=p0, lev_dim="sigma",
                method=str(rng.choice(["linear", "log"])), guess="sigma" in data.coords and rng.random() < 0.5)


def s2h_event(c, expect="ok", chunk=None, sched=None):
    args = {k: raw(c[k]) for k in ("data", "ps", "sigma", "hya", "hyb", "p0")}
    args.update(lev_dim=c["lev_dim"], method=c["method"], expect=expect, chunk=str(chunk), sched=str(sched))
    data, ps = laid(c["data"], c["ps"])
    if chunk is not None:
        cd, cp = chunk
        data = data.chunk(cd) if cd is not None else data
        ps = ps.chunk(cp) if cp is not None else ps

    def run():
        kw = {} if c["guess"] else {"lev_dim": c["lev_dim"]}
        if not (c["guess"] and c["p0"] == 100000.0):
            kw["p0"] = c["p0"]
        if not (c["guess"] and c["method"] == "linear"):
            kw["method"] = c["method"]
        return computed(gc.interp_sigma_to_hybrid(data, c["sigma"], ps, c["hya"], c["hyb"], **kw), sched)
    _, ev = call("interp_sigma_to_hybrid", run)
    ev["args"] = args
    return ev


# ---------------------------------------------------------------- M01
def thick_event(lev, sp, top=None, expect="ok", fn="delta_pressure"):
    args = {"lev": raw(lev), "sp": raw(sp), "top": "none" if top is None else raw(top), "has_top": top is not None, "expect": expect}
    _, ev = call("delta_pressure", getattr(gc, fn), lev, sp, *([] if top is None else [top]))
    ev["args"] = args
    return ev


def thick_cases(rng, n_events=4):
    evs = []
    for _ in range(n_events):
        n = count(rng, 2, 8)
        lev = np.sort(rng.random(n) * 95000 + 1000)
        if rng.random() < 0.25:     # from the stratosphere down, some levels close together
            lev = np.sort(np.concatenate([np.exp(rng.uniform(0, np.log(1e5), size=n)), lev[:1], lev[:1] + float(rng.choice([1, 30, 400]))]))
        elif rng.random() < 0.4:
            lev = np.unique(np.round(lev / 2500) * 2500 + 2500)
            if len(lev) < 2:
                lev = np.array([20000.0, 50000.0])
        n = len(lev)
        unit = float(rng.choice([1.0, 1.0, 1.0, 0.01, 1e-5, 1e-7]))
        lev = lev * unit
        top = None
        r = rng.random()
        if r < 0.25:
            top = float(lev[0] * rng.random())
        elif r < 0.35:
            top = 0.0
        elif r < 0.45:
            top = float(lev[0])
        t = lev[0] if top is None else top
        nd = int(rng.integers(0, 4))
        names, shape = names_shape(rng, nd)
        mids = (lev[1:] + lev[:-1]) / 2
        pool = np.concatenate([lev, mids, mids + 0.5 * unit, mids + 30 * unit, rng.uniform(lev[0], lev[-1] * 1.1, size=4), [lev[-1] * 1.05, lev[0], t + unit, (t + lev[0]) / 2 + unit]])
        pool = pool[pool >= max(t, 1e-6 * unit)]
        spv = rng.choice(pool, size=shape)
        dt = str(rng.choice(["float64", "float64", "float32", "int64" if unit == 1.0 else "float64"]))
        if dt == "int64":
            lev = np.round(lev).astype(float)
            lev = np.unique(lev)
            if len(lev) < 2:
                continue
            top = None if top is None else float(np.floor(top))
            spv = np.maximum(np.ceil(spv), np.ceil(lev[0]))
        lv = lev.astype(dt) if dt != "float32" else lev
        if rng.random() < 0.5:
            lv = lv[::-1].copy()
        kind = str(rng.choice(["nd", "da"])) if nd else "num"
        sp = np.asarray(spv)
        if kind == "num":
            sp = float(sp) if dt != "int64" else int(sp)
            if rng.random() < 0.3:
                sp = np.float64(sp)
        else:
            sp = sp.astype("float64" if dt == "float32" else dt)
        if kind == "da":
            sp = xr.DataArray(sp, dims=names, coords={d: np.arange(s) * 2.0 for d, s in zip(names, shape)} if rng.random() < 0.6 else None,
                              attrs={"units": "Pa"}, name="PS")
        r = rng.random()
        lvx = lv
        if r < 0.35 and kind != "num":
            lvx = xr.DataArray(lv, dims=["lev"], attrs={"units": "Pa", "a": 1}, coords={"lev": lv} if rng.random() < 0.5 else None)
        elif r < 0.5:
            lvx = [float(x) for x in lv]
        evs.append(thick_event(lvx, sp, top))
        r = rng.random()
        if r < 0.12:
            evs.append(thick_event(lvx, sp, float(lev[0]) * 1.01 + unit, expect="ValueError"))
        elif r < 0.24:
            small = (lev[0] if top is None else top) * 0.9 - unit
            if kind == "num":
                evs.append(thick_event(lvx, float(small), top, expect="ValueError"))
            else:
                bad = sp.copy()
                flat = bad.values.reshape(-1) if kind == "da" else bad.reshape(-1)
                if flat.base is not None or True:
                    if kind == "da":
                        v = bad.values.copy()
                        v.flat[int(rng.integers(0, v.size))] = small
                        bad = bad.copy(data=v)
                    else:
                        bad.flat[int(rng.integers(0, bad.size))] = small
                evs.append(thick_event(lvx, bad, top, expect="ValueError"))
        elif r < 0.3:
            evs.append(thick_event(lvx, sp, -1.0, expect="ValueError"))
    return evs


def thick_column(case, rng):
    unit = [1.0, 100.0, 10000.0][int(rng.integers(0, 3))]
    lv = np.array(case["levels"], dtype=float) * unit
    if rng.random() < 0.5:
        lv = lv[::-1].copy()
    sp, top = case["sp"] * unit, case["top"] * unit
    tp = None if top == lv.min() and rng.random() < 0.5 else top
    s = sp
    r = rng.random()
    if r < 0.3:
        s = np.array([sp, lv.max() + unit, sp])
    elif r < 0.6:
        s = xr.DataArray([[sp, lv.max()], [lv.max() * 2, sp]], dims=["a", "b"])
    return [thick_event(lv, s, tp)]


# ---------------------------------------------------------------- M09
_UX = {}


def ux_setup():
    if _UX:
        return _UX
    import uxarray as ux
    import uxarray.core.dataarray as ud
    lon, lat = np.linspace(-180, 180, 5), np.linspace(-60, 60, 7)
    nl = len(lon) - 1
    lo, la = np.meshgrid(lon[:-1], lat)
    conn, flat = [], []
    for j in range(len(lat) - 1):
        for i in range(nl):
            i2 = (i + 1) % nl
            conn.append([j * nl + i, j * nl + i2, (j + 1) * nl + i2, (j + 1) * nl + i])
            flat.append((lat[j] + lat[j + 1]) / 2)
    flat = np.array(flat)

    # stand-in for uxarray's intersection geometry (compiled by numba, minutes when cold): the zonal means are
    # inputs of this property, so any linear mean over faces near a latitude will do
    def mean(uxda=None, latitudes=None, **kw):
        w = np.exp(-((np.asarray(latitudes, dtype=float)[:, None] - flat[None, :]) / 15.0) ** 2)
        w = w / w.sum(axis=1, keepdims=True)
        ax = uxda.dims.index("n_face")
        v = np.moveaxis(np.asarray(uxda.values, dtype=float), ax, -1)
        return np.moveaxis(np.einsum("...f,lf->...l", v, w), -1, ax)

    ud._compute_non_conservative_zonal_mean = mean
    _UX.update(ux=ux, grid=ux.Grid.from_topology(lo.ravel(), la.ravel(), np.array(conn), fill_value=-1), nf=len(flat))
    return _UX


def psi_inputs(rng):
    """A Dataset on an unstructured grid, latitudes, keyword arguments, whether on hybrid levels."""
    u = ux_setup()
    ux, grid, nf = u["ux"], u["grid"], u["nf"]
    nt = int(rng.integers(1, 4))
    hybrid = rng.random() < 0.3
    vname = str(rng.choice(["V", "vs", "meridional_wind", "wind"]))
    pname = str(rng.choice(["PS", "ps", "p_surface", "surface_pressure", "psfc"]))
    zname = "lev" if hybrid else str(rng.choice(["plev", "pressure_lev", "pressure_levels", "p"]))
    aname, bname = [("hyam", "hybm"), ("hya", "hyb"), ("A", "B"), ("A", "B")][int(rng.integers(0, 4)) if hybrid else 0]
    kw = {}
    n = count(rng, 2, 7, 40)
    ps = np.asarray(rng.uniform(60000, 104000, size=(nt, nf)))
    if hybrid:
        a, b = coefs(rng, n)
        plev = None
    else:
        plev = np.sort(rng.uniform(1000, 100000, size=n))
        if rng.random() < 0.3:      # levels from the stratosphere down, some of them close together
            plev = np.sort(np.concatenate([np.exp(rng.uniform(0, np.log(1e5), size=n)), plev[:1], plev[:1] + float(rng.choice([1, 30, 400]))]))
            n = len(plev)
        if rng.random() < 0.3:      # the surface just below the upper boundary of a layer
            k = int(rng.integers(0, n - 1))
            ps[:] = (plev[k] + plev[k + 1]) / 2 + float(rng.choice([0.5, 20, 200, -0.5]))
        if rng.random() < 0.5:
            plev = plev[::-1].copy()
        ps = np.maximum(ps, plev.min() + 10)
    v = rng.normal(size=(nt, n, nf)) * 10 * amplitude(rng)
    if rng.random() < 0.2:
        v[:, -1, :] = np.nan
    va, pa = {}, {}
    if vname == "wind":
        r = rng.random()
        if r < 0.4:
            va = {"standard_name": "northward_wind"}
        elif r < 0.7:
            va = {"long_name": "Meridional wind"}
        else:
            kw["meridional_wind_varname"] = vname
    if pname == "psfc":
        r = rng.random()
        if r < 0.3:
            pa = {"standard_name": "surface_air_pressure"}
        elif r < 0.6:
            pa = {"long_name": "Surface pressure"}
        else:
            kw["surface_air_pressure_varname"] = pname
    if zname == "p":
        kw["plev_coordname"] = "p"
    V = xr.DataArray(v, dims=["time", zname, "n_face"], 
                     coords={"lev": ("lev", np.arange(n) * 1.0, {"positive": "down"})} if hybrid else {zname: plev}, name=vname, attrs=va)
    PS = xr.DataArray(ps, dims=["time", "n_face"], name=pname, attrs=pa)
    if rng.random() < 0.5:
        t = np.arange(nt) * 1.0
        V, PS = V.assign_coords(time=t), PS.assign_coords(time=t)
    d = {vname: ux.UxDataArray(V, uxgrid=grid), pname: ux.UxDataArray(PS, uxgrid=grid)}
    if hybrid:
        ha, hb = {}, {}
        if aname == "A" and rng.random() < 0.5:
            ha, hb = ({"long_name": f"hybrid {x} coefficient at layer midpoints"} for x in "AB")
        elif aname == "A":
            kw.update(hyam_coordname="A", hybm_coordname="B")
        d[aname] = ux.UxDataArray(xr.DataArray(a, dims=["lev"], attrs=ha), uxgrid=grid)
        d[bname] = ux.UxDataArray(xr.DataArray(b, dims=["lev"], attrs=hb), uxgrid=grid)
    ds = ux.UxDataset(d, uxgrid=grid)
    lat = [[-44.0, -10.5, 0.0, 33.3], np.array([50.0, 20.0]), (-40, 40, 20), 12.5, [0.0, 60.0],
           np.sort(rng.uniform(-70, 70, int(rng.integers(2, 5)))), float(rng.uniform(-60, 60))][int(rng.integers(0, 7))]
    return ds, lat, kw, hybrid, vname, pname, zname, aname, bname


def psi_event(rng):
    ds, lat, kw, hybrid, vname, pname, zname, aname, bname = psi_inputs(rng)
    u = ux_setup()
    ux, grid = u["ux"], u["grid"]
    expect = "ok"
    r = rng.random()
    if r < 0.1:
        if rng.random() < 0.5:      # at one point of one time
            ds[pname][int(rng.integers(0, ds[pname].shape[0])), int(rng.integers(0, ds[pname].shape[1]))] = float(rng.choice([0.0, -5.0, -0.1]))
        else:
            ds[pname][0, :] = -5.0 if rng.random() < 0.5 else np.nan
        expect = "ValueError"
    elif r < 0.2:       # neither pressure levels nor hybrid coefficients; no wind; no surface pressure
        kw = {}
        if rng.random() < 0.4:
            ds = ds.rename({zname: "height"}) if not hybrid else ds.drop_vars([aname, bname][int(rng.integers(0, 2))])
            expect = "AttributeError"
        else:
            ds = ds.drop_vars([vname, pname][int(rng.integers(0, 2))])
            expect = "KeyError"
        if any(n in ds and not ds[n].attrs for n in ("wind", "psfc")):
            expect = "KeyError"
    default = rng.random() < 0.12
    _, ev = call("zonal_meridional_psi", gc.zonal_meridional_psi, ds, *([] if default else [lat]), **kw)
    if expect != "ok":
        ev["args"] = {"expect": expect}
        return [ev]
    lat = (-90, 90, 10) if default else lat
    vi = ds[vname]
    if hybrid:
        try:
            vi = ux.UxDataArray(gc.interp_hybrid_to_pressure(ds[vname], ds[pname], ds[aname], ds[bname], lev_dim="lev"), uxgrid=grid)
        except Exception:
            return []
        zn = "plev"
    else:
        zn = zname
    zv = vi.zonal_mean(lat=lat)
    if zn != "plev":
        zv = zv.rename({zn: "plev"})
    zp = ds[pname].zonal_mean(lat=lat)
    ev["args"] = {"v": raw(zv), "ps": raw(zp), "plev": raw(np.asarray(vi[zn].values, dtype=float)), "expect": expect, "hybrid": hybrid}
    return [ev]


# ---------------------------------------------------------------- plan
PLAN = {  # property -> [(kind, quick, thorough)], enumerated columns in quick
    "V01": ([("hybrid", 60, 800)], 120),
    "V02": ([("hybrid", 60, 800)], 120),
    "V03": ([("h2p", 110, 1500), ("bad", 10, 40)], 90),
    "V04": ([("temperature", 60, 700), ("geopotential", 60, 700), ("other", 40, 400), ("badx", 10, 40)], 0),
    "V05": ([("chunkh2p", 40, 400), ("chunks2h", 25, 250), ("chunkdph", 20, 200)], 100),
    "V06": ([("s2h", 120, 1500), ("badsig", 8, 40)], 120),
    "M01": ([("thick", 60, 1000)], 500),
    "M09": ([("psi", 260, 2500)], 0),
}


def make(item):
    global LARGE
    prop, kind, seed, idx, case = item
    LARGE = idx < 0
    rng = rng_for(seed, prop, kind, idx)
    if kind == "hybrid":
        return hybrid_events(rng, "pressure_at_hybrid_levels" if prop == "V01" else "delta_pressure_hybrid")
    if kind == "h2p":
        return [h2p_event(h2p_case(rng))]
    if kind == "column":
        return thick_column(case, rng)
    if kind == "chunks":
        return chunk_case(case, rng, idx)
    if kind == "hybridcol":
        if prop == "V06":
            return [s2h_event(s2h_column(case, rng))]
        return hybrid_column(case, "pressure_at_hybrid_levels" if prop == "V01" else "delta_pressure_hybrid", rng)
    if kind == "interp":
        return [h2p_event(h2p_column(case, rng))]
    if kind == "bad":
        c = h2p_case(rng)
        r = rng.random()
        if r < 0.3:
            c["method"] = "cubic"
            return [h2p_event(c, expect="ValueError")]
        if r < 0.6:
            c["hyb"] = c["hyb"][:-1].drop_vars("lev", errors="ignore")
            c["hya"] = c["hya"].drop_vars("lev", errors="ignore")
            return [h2p_event(c, expect="ValueError")]
        c["ps"] = c["ps"].values
        return [h2p_event(c, expect="TypeError")]
    if kind in ("temperature", "geopotential", "other"):
        c = h2p_case(rng, kind)
        plain = dict(c, extrapolate=False, variable=None)
        return [h2p_event(c)] + ([h2p_event(plain)] if rng.random() < 0.2 else [])
    if kind == "badx":
        c = h2p_case(rng, "temperature")
        r = int(rng.integers(0, 4))
        if r == 0:
            c["t_bot"] = None
        elif r == 1:
            c["phi_sfc"] = None
        elif r == 2:
            c["variable"] = None
        else:
            c["variable"] = "humidity"
        return [h2p_event(c, expect="ValueError")]
    if kind == "chunkh2p":
        c = h2p_case(rng, [None, None, "other", "temperature"][int(rng.integers(0, 4))])
        c["guess"] = False
        evs = [h2p_event(c)]
        for k in range(3):
            ch = (chunk_of(rng, c["data"], "lev" if k == 0 else None), chunk_of(rng, c["ps"]))
            evs.append(h2p_event(c, chunk=ch, sched=[None, ("threads", 4), ("threads", 2), ("sync", 1)][int(rng.integers(0, 4))]))
        return evs
    if kind == "chunks2h":
        c = s2h_case(rng)
        while c["ps"].size > 60:    # a task graph per column
            c = s2h_case(rng)
        evs = [s2h_event(c)]
        for k in range(2):
            ch = (chunk_of(rng, c["data"], "sigma" if k == 0 else None), chunk_of(rng, c["ps"]))
            evs.append(s2h_event(c, chunk=ch, sched=[None, ("threads", 4), ("sync", 1)][int(rng.integers(0, 3))]))
        return evs
    if kind == "chunkdph":
        n = int(rng.integers(2, 7))
        names, shape = names_shape(rng, int(rng.integers(1, 4)), 4)
        a, b = coefs(rng, n)
        ps = field(rng, names, shape, 50000, 105000, "ps")
        ha, hb = xr.DataArray(a, dims=["ilev"]), xr.DataArray(b, dims=["ilev"])
        evs = []
        for k in range(3):
            p = ps if k == 0 else ps.chunk(chunk_of(rng, ps, ps.dims[0]))
            op = "delta_pressure_hybrid" if idx % 2 else "pressure_at_hybrid_levels"
            sched = [None, ("threads", 3)][k % 2]
            _, ev = call(op, lambda: computed(getattr(gc, op)(p, ha, hb), sched))
            ev["args"] = {"ps": raw(ps), "hya": raw(ha), "hyb": raw(hb), "p0": raw(100000.0), "expect": "ok"}
            evs.append(ev)
        return evs
    if kind == "s2h":
        return [s2h_event(s2h_case(rng))]
    if kind == "badsig":
        c = s2h_case(rng)
        c["method"] = "quadratic"
        return [s2h_event(c, expect="ValueError")]
    if kind == "thick":
        return thick_cases(rng)
    if kind == "psi":
        return psi_event(rng)
    raise KeyError(kind)


def build(prop, tier, seed, cases):
    kinds, ncol = PLAN[prop]
    big = tier == "thorough"
    items = []
    for kind, q, t in kinds:
        for i in range(t if big else q):
            items.append((prop, kind, seed, i, None))
        if not kind.startswith("bad"):
            items += [(prop, kind, seed, -1 - i, None) for i in range(q if big else 8 if prop == "V05" else 4)]
    want = {"M01": "column", "V03": "interp", "V05": "chunks", "V01": "hybridcol", "V02": "hybridcol", "V06": "hybridcol"}.get(prop)
    if want:
        for i, c in enumerate(pick([c for c in cases if c["kind"] == want], None if big else ncol, seed, prop)):
            items.append((prop, want, seed, i, c))
    if prop == "M09":
        ux_setup()
    return make, items


if __name__ == "__main__":
    driver_main(build)
