"""EOFs, correlation and normalised mean square error: E01, E02, P01, P02."""
from common import *  # noqa: F401,F403
from common import amplitude, call, driver_main, enc, gc, np, pd, pick, rng_for, xr

DT = ["float64", "float64", "float32", "int64", "int32"]


def chunked(x):
    """x with dask arrays.  Contiguous first: dask names an array and its transposed view alike."""
    if isinstance(x, xr.Dataset):
        return x.map(lambda v: v.copy(data=np.ascontiguousarray(v.values)), keep_attrs=True).chunk()
    return x.copy(data=np.ascontiguousarray(x.values)).chunk()


# ------------------------------------------------------------------- EOFs
def eof_data(rng, case, i):
    """(array with time first, has gaps)"""
    if case == "large":
        sh = [[20], [45], [5, 8], [12, 3]][int(rng.integers(0, 4))]
        X = np.round(rng.normal(size=[int(rng.integers(9, 120))] + sh) * 16) / 4
    elif case is not None:
        X = np.array(case["x"], float)
        if rng.random() < 0.3:
            X = X[:, ::-1]
        X = X.reshape([len(X), 2] if rng.random() < 0.5 else [len(X), 1, 2])
        X = X * float(rng.choice([1, 1, 0.1, 1e3, 1e-3])) + float(rng.choice([0, 0, 5]))
    else:
        nt = int(rng.integers(2, 9))
        sh = [[2], [3], [5], [7], [2, 3], [3, 2], [1, 4], [4, 1], [2, 4], [3, 3], [2, 2, 2], [1, 3, 2]][int(rng.integers(0, 12))]
        X = np.round(rng.normal(size=[nt] + sh) * 16) / 4
        if rng.random() < 0.3:                     # a dominating pattern
            X = X * 0.25 + np.round(rng.normal(size=nt) * 8).reshape([nt] + [1] * len(sh))
        if rng.random() < 0.1:
            X[:, ...] = X[:, ...] * 0 + np.arange(nt).reshape([nt] + [1] * len(sh))
        if rng.random() < 0.04:                    # the same at all times, up to rounding
            X = X[:1] + 0 * X + 0.1 * (rng.random() < 0.5)
        X = X + float(rng.choice([0, 0, 3, -10, 300]))
    return X


def eof_args(rng, case, i):
    X = eof_data(rng, case, i)
    dt = str(rng.choice(DT))
    center = bool(rng.random() < 0.8)
    gaps = rng.random() < 0.35 and dt.startswith("f") and X[0].size > 1
    if gaps:
        for q in rng.choice(X[0].size, size=int(rng.integers(1, X[0].size)), replace=False):
            f = X.reshape(len(X), -1)
            if center and rng.random() < 0.7:
                f[rng.integers(0, len(X)), q] = np.nan
            else:
                f[:, q] = np.nan
            X = f.reshape(X.shape)
    X = (X * amplitude(rng, dt)).astype(dt)
    valid = int((~np.isnan(X.reshape(len(X), -1))).all(0).sum())
    kmax = max(1, min(len(X), valid))
    n = int(rng.integers(1, min(kmax, 12) + 1)) if rng.random() < 0.6 or case == "large" else kmax
    kind = str(rng.choice(["da", "nd", "nd", "list"] if dt != "float32" else ["da", "nd"]))
    w, time_dim = None, 0
    if rng.random() < 0.3:
        sh = X.shape[1:]
        sh = sh[int(rng.integers(0, len(sh))):]
        w = np.round(rng.uniform(0.25, 3, sh) * 8) / 8 if rng.random() < 0.6 else rng.uniform(0.25, 3, sh) * float(rng.choice([1, 1, 1e-6]))
        if rng.random() < 0.15:                    # almost one everywhere
            w = 1 + rng.uniform(-1e-3, 1e-3, sh)
        elif rng.random() < 0.3:
            w = w.astype(dt) + 1 if dt.startswith("i") else w.astype(dt)
    elif kind != "da":
        time_dim = int(rng.integers(-X.ndim, X.ndim))
        X = np.moveaxis(X, 0, time_dim)
    elif rng.random() < 0.3:
        time_dim = int(rng.integers(-3, 5))        # ignored for DataArrays
    if kind == "da":
        dims = ["time"] + [str(d) for d in rng.permutation(["lat", "lon", "lev", "eof2"])[: X.ndim - 1]]
        co = {}
        if rng.random() < 0.7:
            co["time"] = pd.date_range("2001-01-31", periods=len(X)) if rng.random() < 0.6 else np.arange(len(X)) * 2.5
        for d, s in zip(dims[1:], X.shape[1:]):
            if rng.random() < 0.6:
                co[d] = np.arange(s) * 10.0 - 5
        if rng.random() < 0.2:
            co["case"] = 7
        if rng.random() < 0.2:
            co["aux"] = (dims, np.arange(X.size).reshape(X.shape))
        if rng.random() < 0.2:
            co["area"] = (dims[1:], np.ones(X.shape[1:]))
        data = xr.DataArray(X, dims=dims, coords=co, name=str(rng.choice(["sst", "x"])),
                            attrs={} if rng.random() < 0.4 else {"units": "K", "long_name": "temperature"})
    else:
        data = X if kind == "nd" else X.tolist()
    return {"data": data, "n": n, "time_dim": time_dim, "w": w, "center": center,
            "ddof": case["ddof"] if isinstance(case, dict) else int(rng.integers(0, 2)),
            "meta": bool(rng.random() < 0.5)}


def optional(rng, kw, defaults):
    """Leaves out, now and then, arguments that have their default value."""
    for k, v in defaults.items():
        if k in kw and not isinstance(kw[k], np.ndarray) and kw[k] == v and rng.random() < 0.5:
            del kw[k]
    return kw


def eofs_call(rng, g, scaling, vf, n=None, expect="ok", **over):
    a = dict(g, **over)
    n = g["n"] if n is None else n
    args = {"data": enc(a["data"]), "neofs": n, "time_dim": a["time_dim"], "eofscaling": scaling, "has_w": a["w"] is not None,
            "weights": enc(a["w"]), "center": a["center"], "ddof": a["ddof"], "vfscaled": vf, "meta": a["meta"], "expect": expect}
    kw = {"neofs": n, "time_dim": a["time_dim"], "eofscaling": scaling, "weights": a["w"], "center": a["center"], "ddof": a["ddof"],
          "vfscaled": vf, "meta": a["meta"]}
    if rng.random() < 0.3:
        pos = (kw.pop("neofs"), kw.pop("time_dim"))
    else:
        pos = ()
        kw = optional(rng, kw, dict(neofs=1, time_dim=0))
    kw = optional(rng, kw, dict(eofscaling=0, weights=None, center=True, ddof=1, vfscaled=False, meta=False))
    _, ev = call("eofunc_eofs", gc.eofunc_eofs, a["data"], *pos, **kw)
    ev["args"] = args
    return ev


def pcs_call(rng, g, scaling, n=None, expect="ok", **over):
    a = dict(g, **over)
    n = g["n"] if n is None else n
    args = {"data": enc(a["data"]), "npcs": n, "time_dim": a["time_dim"], "pcscaling": scaling, "has_w": a["w"] is not None,
            "weights": enc(a["w"]), "center": a["center"], "ddof": a["ddof"], "meta": a["meta"], "expect": expect}
    kw = {"npcs": n, "time_dim": a["time_dim"], "pcscaling": scaling, "weights": a["w"], "center": a["center"], "ddof": a["ddof"],
          "meta": a["meta"]}
    if rng.random() < 0.3:
        pos = (kw.pop("npcs"), kw.pop("time_dim"))
    else:
        pos = ()
        kw = optional(rng, kw, dict(npcs=1, time_dim=0))
    kw = optional(rng, kw, dict(pcscaling=0, weights=None, center=True, ddof=1, meta=False))
    _, ev = call("eofunc_pcs", gc.eofunc_pcs, a["data"], *pos, **kw)
    ev["args"] = args
    return ev


def valid_points(g):
    d = np.asarray(g["data"], float)
    ax = 0 if isinstance(g["data"], xr.DataArray) else g["time_dim"]
    d = np.moveaxis(d, ax, 0).reshape(d.shape[ax], -1)
    return int((~np.isnan(d)).all(0).sum())


def usable(g):
    """The eofs package fails on less than two present points; the divisor is positive."""
    ax = 0 if isinstance(g["data"], xr.DataArray) else g["time_dim"]
    return valid_points(g) > 1 and np.shape(g["data"])[ax] > g["ddof"]


def eof_session(rng, prop, case, i):
    while True:
        g = eof_args(rng, case, i)
        if usable(g):
            break
    if prop == "E01":
        evs = [eofs_call(rng, g, s, bool(rng.random() < 0.5)) for s in ([0, 1, 2] if rng.random() < 0.3 else [int(rng.integers(0, 3))])]
        if rng.random() < 0.15:
            evs.append(eofs_call(rng, g, 0, False, n=int(rng.choice([0, -1])), expect="ValueError"))
        if rng.random() < 0.15 and not isinstance(g["data"], xr.DataArray):
            nd = np.ndim(g["data"])
            evs.append(eofs_call(rng, g, 0, False, time_dim=int(rng.choice([nd, nd + 1, -nd - 1])), expect="ValueError"))
        return evs
    evs = []
    ax = 0 if isinstance(g["data"], xr.DataArray) else g["time_dim"]
    kmax = g["n"] if case == "large" else min(valid_points(g), np.shape(g["data"])[ax])
    for s in ([0, 1, 2] if rng.random() < 0.3 else [int(rng.integers(0, 3))]):
        evs.append(eofs_call(rng, g, 0, False, n=kmax))
        evs.append(pcs_call(rng, g, s))
    if rng.random() < 0.1:
        evs.append(pcs_call(rng, g, 0, n=int(rng.choice([0, -1])), expect="ValueError"))
    return evs


# -------------------------------------------------------------- correlation
def pearson_call(rng, a, b, dim, axis, w, skipna, keep, expect="ok"):
    if isinstance(dim, str):
        dims = [dim]
    else:
        dims = list(dim) if dim is not None else []
    args = {"a": enc(a), "b": enc(b), "has_dim": dim is not None, "dims": dims, "has_axis": axis is not None,
            "axis": 0 if axis is None else axis, "has_w": w is not None, "weights": enc(w), "skipna": skipna, "keep_attrs": keep,
            "expect": expect}
    kw = optional(rng, {"dim": dim, "weights": w, "skipna": skipna, "keep_attrs": keep, "axis": axis},
                  dict(skipna=False, keep_attrs=False))
    kw = {k: v for k, v in kw.items() if v is not None or rng.random() < 0.3}
    _, ev = call("pearson_r", gc.pearson_r, a, b, **kw)
    ev["args"] = args
    return ev


def pearson_session(rng, case, i):
    skipna = bool(rng.random() < 0.5)
    if isinstance(case, dict):
        A, B, W = (np.array(case[k], float) for k in "abw")
        gone = np.array(case["gone"])
        if rng.random() < 0.5:
            A = np.where(gone, np.nan, A)
        else:
            B = np.where(gone, np.nan, B)
        m = int(rng.integers(1, 4))                # columns, shifted copies
        A = np.stack([np.roll(A, j) for j in range(m)], 1)
        B = np.stack([np.roll(B, -j) for j in range(m)], 1)
        w1 = W if rng.random() < 0.7 else None
        if rng.random() < 0.5:
            A, B = A.T.copy(), B.T.copy()
            red = 1
        else:
            red = 0
        red = (red,)
    else:
        sh = [int(rng.integers(1, 5)) for _ in range(int(rng.integers(1, 4)))]
        if np.prod(sh) < 3:
            sh = sh[:-1] + [4]
        if case == "large":
            sh = [[int(rng.integers(50, 1500))], [int(rng.integers(10, 70)), int(rng.integers(10, 70))],
                  [3, int(rng.integers(10, 150)), 4]][int(rng.integers(0, 3))]
        A = np.round(rng.normal(size=sh) * 16) / 4 + float(rng.choice([0, 5]))
        B = np.round(rng.normal(size=sh) * 16) / 4
        if rng.random() < 0.2:
            B = A * float(rng.choice([2, -0.5])) + 3
        if rng.random() < 0.4:
            A[rng.random(sh) < 0.2] = np.nan
            B[rng.random(sh) < 0.2] = np.nan
        k = int(rng.integers(1, len(sh) + 1))
        red = tuple(int(x) for x in rng.permutation(len(sh))[:k])
        w1 = np.round(rng.uniform(0, 2, [sh[r] for r in red]) * 4 + 0.5) / 4 if rng.random() < 0.5 else None
        if w1 is not None and rng.random() < 0.4:
            w1 = w1 * rng.uniform(0.5, 1, w1.shape) * float(rng.choice([1, 1, 1e-5, 1e4]))
    A, B = A * amplitude(rng), B * amplitude(rng)
    if not np.isnan(A).any() and not np.isnan(B).any() and all(1e-2 < np.abs(q).max() < 1e6 for q in (A, B)) and rng.random() < 0.4:
        dt = str(rng.choice(["float32", "int64"]))
        A, B = A.astype(dt), B.astype(dt) if rng.random() < 0.6 else B
    form = str(rng.choice(["da", "da", "nd", "nd", "list", "ds"]))
    keep = bool(rng.random() < 0.4)
    if form in ("da", "ds"):
        dims = [str(d) for d in rng.permutation(["lat", "lon", "time", "member"])[: A.ndim]]
        co = {d: np.arange(s) * 2.0 for d, s in zip(dims, A.shape) if rng.random() < 0.6}
        if rng.random() < 0.2:
            co["area"] = (dims, np.ones(A.shape))
        at = {"units": "m"} if rng.random() < 0.6 else {}
        a, b = xr.DataArray(A, dims=dims, coords=co, attrs=at), xr.DataArray(B, dims=dims, coords=co, attrs={"other": "b"})
        if rng.random() < 0.3:
            b = b.transpose(*rng.permutation(dims))
        rd = [dims[r] for r in red]
        if len(rd) == A.ndim and rng.random() < 0.5:
            dim, wd = None, dims
            w = None if w1 is None else xr.DataArray(w1, dims=rd, coords={d: co[d] for d in rd if d in co})
        else:
            dim = rd[0] if len(rd) == 1 and rng.random() < 0.6 else rd
            w = None if w1 is None else xr.DataArray(w1, dims=rd, coords={d: co[d] for d in rd if d in co})
        if form == "ds":
            a, b = xr.Dataset({"x": a, "y": a * 2 - b}), xr.Dataset({"x": b, "y": a + b}) if rng.random() < 0.5 else xr.Dataset({"y": b, "x": b + 1})
            keep = False
        if rng.random() < 0.15:
            a, b = chunked(a), chunked(b)
        return [pearson_call(rng, a, b, dim, None, w, skipna, keep)]
    axis = None
    w = None
    if rng.random() < 0.75:
        axis = int(red[0]) - (A.ndim if rng.random() < 0.3 else 0)
    if w1 is not None:
        w = np.round(rng.uniform(0.25, 2, A.shape) * 4) / 4 if rng.random() < 0.6 else rng.uniform(0.25, 2, A.shape) * float(rng.choice([1, 1, 1e-5, 1e4]))
    if form == "list":
        A, B = A.tolist(), B.tolist()
    return [pearson_call(rng, A, B, None, axis, w, skipna, False)]


# ---------------------------------------------------------------------- nmse
def nmse_call(rng, o, m, lat, lon, expect="ok"):
    def f(x, y):
        r = gc.nmse(x, y)
        if isinstance(r, xr.Dataset):
            r = xr.Dataset({v: (r[v].sel(variable=v, drop=True) if "variable" in r[v].dims else r[v]) for v in r.data_vars})
        return r
    _, ev = call("nmse", f, o, m)
    ev["args"] = {"obs": enc(o), "mod": enc(m), "lat": lat, "lon": lon, "expect": expect}
    return ev


def latlon(rng, kind, ny, nx):
    la0, dla = float(rng.choice([-90, -60, 10, 80])), float(rng.choice([5, 10, 2.5]))
    if ny > 8:
        la0, dla = -90.0, 180 / ny
    if la0 + dla * (ny - 1) > 90:
        la0 = 10.0
    la = la0 + dla * np.arange(ny)
    lo = float(rng.choice([0, -180, 100])) + float(rng.choice([1, 30])) * np.arange(nx)
    if rng.random() < 0.12:        # all rows next to a pole: tiny weights
        la = (90 - float(rng.choice([1e-6, 2e-7])) * np.arange(ny, 0, -1)) * float(rng.choice([1, -1]))
    if rng.random() < 0.4:
        la = la[::-1].copy()
    if rng.random() < 0.2:
        lo = lo[::-1].copy()
    ln, on = [("lat", "lon"), ("latitude", "longitude"), ("y", "x")][int(rng.integers(0, 3))]
    at1, at2 = {"units": "degrees_north"}, {"units": "degrees_east"}
    if ln == "y":
        at1, at2 = dict(at1, standard_name="latitude"), dict(at2, standard_name="longitude")
    elif rng.random() < 0.4:
        at1, at2 = {}, {}
    if kind == "1d":
        return ln, on, [ln, on], {ln: (ln, la, at1), on: (on, lo, at2)}
    ln, on = ("lat", "lon") if ln == "y" else (ln, on)
    La, Lo = np.meshgrid(la, lo, indexing="ij")
    dims = ["j", "i"]
    if rng.random() < 0.3:
        return ln, on, dims, {ln: (dims[::-1], La.T, at1), on: (dims[::-1], Lo.T, at2)}
    return ln, on, dims, {ln: (dims, La, at1), on: (dims, Lo, at2)}


def nmse_session(rng, case, i):
    kind = str(rng.choice(["1d", "1d", "2d"]))
    if isinstance(case, dict):
        A, B, gone = np.array(case["a"], float), np.array(case["b"], float), np.array(case["gone"])
        n = len(A)
        nx = int(rng.integers(2, 4))
        A, B, gone = (np.stack([np.roll(x, j) for j in range(nx)], 1) for x in (A, B, gone))
        ny, ex = n, []
        side = rng.integers(0, 3)
        if side != 1:
            A = np.where(gone, np.nan, A)
        if side != 0:
            B = np.where(np.roll(gone, 1, 0) if side == 2 else gone, np.nan, B)
    else:
        ny, nx = int(rng.integers(2, 6)), int(rng.integers(2, 5))
        if case == "large":
            ny, nx = int(rng.integers(8, 37)), int(rng.integers(8, 40))
        ex = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(0, 3)))]
        sh = ex + [ny, nx]
        A = np.round(rng.normal(size=sh) * 16) / 4 + float(rng.choice([0, 10]))
        B = A + np.round(rng.normal(size=sh) * 4) / 4 * float(rng.choice([0, 1, 5])) + float(rng.choice([0, 1]))
        if rng.random() < 0.5:
            A[rng.random(sh) < 0.2] = np.nan
        if rng.random() < 0.5:
            B[rng.random(sh) < 0.2] = np.nan
        if rng.random() < 0.2:
            A, B = A.astype("float32"), B.astype("float32")
        elif not np.isnan(A).any() and not np.isnan(B).any() and rng.random() < 0.3:
            A = A.astype("int64")
    if A.dtype.kind == "f":
        unit = amplitude(rng, "float32" if A.dtype != np.float64 else "float64")
        A, B = A * A.dtype.type(unit), B * B.dtype.type(unit)
    ln, on, sd, co = latlon(rng, kind, ny, nx)
    dims = [str(d) for d in rng.permutation(["time", "member", "case"])[: len(ex)]] + sd
    co = dict(co)
    for d, s in zip(dims, ex):
        if rng.random() < 0.6:
            co[d] = np.arange(s) * 3
    o, m = xr.DataArray(A, dims=dims, coords=co, name="t", attrs={"units": "K"}), xr.DataArray(B, dims=dims, coords=co, name="t")
    if rng.random() < 0.35:
        p = list(rng.permutation(dims))
        o, m = o.transpose(*p), m.transpose(*p)
    if rng.random() < 0.2:
        m = m.transpose(*rng.permutation(dims))
    form = str(rng.choice(["da", "da", "da", "ds"]))
    if form == "ds":
        o, m = xr.Dataset({"t": o, "u": o * 2 + 1}), xr.Dataset({"t": m, "u": m * m})
    if rng.random() < 0.15:
        o, m = chunked(o), chunked(m)
    evs = [nmse_call(rng, o, m, ln, on)]
    r = rng.random()
    if r < 0.28 and form == "da":
        what = int(rng.choice([0, 1, 2, 3, 3, 4, 4, 5]))
        if what == 0:
            evs.append(nmse_call(rng, o, m.to_dataset(name="t"), ln, on, "TypeError"))
        elif what == 1:
            evs.append(nmse_call(rng, np.asarray(o), m, ln, on, "TypeError"))
        elif what == 2:
            evs.append(nmse_call(rng, o, m.assign_coords(extra=1), ln, on, "KeyError"))
        elif what == 3 and kind == "1d" and ny >= 3:
            x = np.asarray(o[ln]).copy()
            x[-1] += 1.0
            if abs(x[1] - x[0]) > 1 and rng.random() < 0.5:      # a little uneven, as Gaussian latitudes are
                x = np.asarray(o[ln]).copy()
                x[int(rng.integers(1, ny))] += float(rng.choice([3e-3, -3e-3, 1e-3, 0.02])) * abs(x[1] - x[0])
            y = xr.DataArray(x, dims=[ln], attrs=o[ln].attrs)
            evs.append(nmse_call(rng, o.assign_coords({ln: y}), m.assign_coords({ln: y}), ln, on, "ValueError"))
        elif what == 4 and kind == "1d" and nx >= 3:
            x = np.asarray(o[on]).copy()
            x[int(rng.integers(0, nx))] += float(rng.choice([0.5, -0.5, 4e-3, -4e-3]))
            y = xr.DataArray(x, dims=[on], attrs=o[on].attrs)
            evs.append(nmse_call(rng, o.assign_coords({on: y}), m.assign_coords({on: y}), ln, on, "ValueError"))
        elif kind == "2d" and what >= 3:       # one coordinate unevenly spaced, along either of its dimensions
            z = [ln, on][int(rng.integers(0, 2))]
            ax = "j" if z == ln else "i"
            if o.sizes[ax] >= 3:
                c = o[z].copy()
                c[{ax: int(rng.choice([0, -1]))}] += float(rng.choice([0.5, -1]))
                evs.append(nmse_call(rng, o.assign_coords({z: c}), m.assign_coords({z: c}), ln, on, "ValueError"))
        elif what == 5 and kind == "1d":
            q = {ln: "a", on: "b"}
            o2, m2 = (z.rename(q).assign_coords(a=np.arange(ny) * 1.0, b=np.arange(nx) * 1.0) for z in (o, m))
            evs.append(nmse_call(rng, o2, m2, "a", "b", "ValueError"))
    return evs


def build(prop, tier, seed, cases):
    big = tier == "thorough"
    kind = {"E01": "eof", "E02": "eof", "P01": "pairs", "P02": "pairs"}[prop]
    n1, n2 = {"E01": (150, 450), "E02": (150, 350), "P01": (500, 900), "P02": (400, 500)}[prop]
    if big:
        n1, n2 = n1 * 20, n2 * 20
    cs = pick([c for c in cases if c["kind"] == kind], n1, seed, prop)
    items = [(c, i) for i, c in enumerate(cs)] + [(None, i) for i in range(n2)] + [("large", i) for i in range(80 if big else 6)]

    def make(item):
        c, i = item
        rng = rng_for(seed, prop, str(c), i)
        if prop in ("E01", "E02"):
            return eof_session(rng, prop, c, i)
        return (pearson_session if prop == "P01" else nmse_session)(rng, c, i)
    return make, items


if __name__ == "__main__":
    driver_main(build)
