"""Climatology functions: C01-C08."""
from common import *  # noqa: F401,F403
from common import amplitude, call, driver_main, enc, gc, in_order, np, pd, pick, rng_for, xr
import cftime

CALS = ["datetime64", "standard", "noleap", "360_day", "julian", "all_leap", "proleptic_gregorian"]
SEASONS = ["DJF", "JFM", "FMA", "MAM", "AMJ", "MJJ", "JJA", "JAS", "ASO", "SON", "OND", "NDJ"]


CF = {"standard": cftime.DatetimeGregorian, "gregorian": cftime.DatetimeGregorian, "noleap": cftime.DatetimeNoLeap,
      "360_day": cftime.Datetime360Day, "julian": cftime.DatetimeJulian, "all_leap": cftime.DatetimeAllLeap,
      "proleptic_gregorian": cftime.DatetimeProlepticGregorian}


def times_from_stamps(cal, st):
    if cal == "datetime64" or cal == "proleptic_gregorian":
        return np.array([np.datetime64("%04d-%02d-%02dT%02d:%02d" % tuple(s[:5]), "ns") for s in st])
    return np.array([CF[cal](*s[:6]) for s in st])


def time_axis(cal, start, step, n):
    """start: [y, m, d, h, mi]; step: pandas/xarray frequency string."""
    if step == "mid":  # the 15th of each month: regular to the month only
        y, m = start[0], start[1]
        st = [[y + (m - 1 + i) // 12, (m - 1 + i) % 12 + 1, 15, 0, 0, 0] for i in range(n)]
        if cal == "datetime64":
            return np.array([np.datetime64("%04d-%02d-15" % (s[0], s[1]), "ns") for s in st])
        return np.array([CF[cal](*s) for s in st])
    if step == "midbounds":  # monthly means stamped at mid month (varying day and hour)
        y, m = start[0], start[1]
        a = time_axis(cal, [y, m, 1, 0, 0], "MS", n + 1)
        return a[:-1] + (a[1:] - a[:-1]) / 2
    if cal == "datetime64":
        return pd.date_range("%04d-%02d-%02dT%02d:%02d" % tuple(start[:5]), periods=n, freq=step).values.astype("datetime64[ns]")
    return xr.date_range(CF[cal](*start[:5]), periods=n, freq=step, calendar=cal, use_cftime=True).values


def valid_start(cal, y, m, d):
    if cal == "360_day":
        return min(d, 30)
    leap = {"noleap": False, "all_leap": True, "julian": y % 4 == 0}.get(cal, y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))
    dim = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    return min(d, dim)


def values(rng, shape, dtype, nan, nmonth_like=None, tax=0):
    v = np.round(rng.normal(size=shape) * rng.choice([1.0, 30.0]) + rng.choice([0.0, 250.0, -40.0]), 2)
    n = shape[tax]
    if dtype.startswith("int"):
        return v.astype(dtype)
    v = (v * amplitude(rng, dtype)).astype(dtype)
    mv = np.moveaxis(v, tax, 0)
    if nan == "some":
        mv[rng.random(mv.shape) < 0.15] = np.nan
    elif nan == "many":
        mv[rng.random(mv.shape) < 0.6] = np.nan
    elif nan == "block":
        a = rng.integers(0, n)
        b = min(n, a + max(1, n // 3))
        if mv.ndim > 1 and mv.shape[1] > 1:
            mv[a:b, 0] = np.nan
        else:
            mv[a:b] = np.nan
    elif nan == "point" and mv.ndim > 1:
        mv[(slice(None),) + (0,) * (mv.ndim - 1)] = np.nan
    return v


def make_da(c, rng):
    t = c["times"]
    n = len(t)
    tdim = c.get("tdim", "time")
    extra = c.get("extra", ())
    tax = c.get("tax", 0)
    names = ["lat", "lon", "ens"][: len(extra)]
    shape = list(extra)
    shape.insert(tax, n)
    dims = list(names)
    dims.insert(tax, tdim)
    v = values(rng, tuple(shape), c.get("dtype", "float64"), c.get("nan", "none"), tax=tax)
    coords = {tdim: t}
    for nm, s in zip(names, extra):
        coords[nm] = np.linspace(10, 40, s) if nm == "lat" else np.arange(s) * 90.0
    da = xr.DataArray(v, dims=dims, coords=coords, name="t2m", attrs={"units": "K", "long_name": "temperature"})
    if c.get("aux") and len(extra) >= 1:
        da = da.assign_coords(height=2.0, area=(names, np.arange(np.prod(extra)).reshape(extra) * 1.5))
    return da


FN = {"calendar_average": gc.calendar_average, "climatology_average": gc.climatology_average,
      "climate_anomaly": gc.climate_anomaly, "month_to_season": gc.month_to_season}
DEFAULT = ["DJF", "JJA", "MAM", "SON"]


def event(op, da, tdim="time", freq=None, season=None, custom=None, keep="none", pass_dim=None, chunk=None, order=None):
    args = {"data": enc(da), "tdim": tdim, "freq": freq, "season": season, "keep": keep,
            "custom": ([custom] if isinstance(custom, str) else list(custom)) if custom else DEFAULT}
    kw = {}
    if keep != "default":
        kw["keep_attrs"] = {"true": True, "false": False, "none": None}[keep]
    arg = da.chunk(chunk) if chunk else da
    if pass_dim or tdim != "time":
        kw["time_coord_name" if op == "month_to_season" else "time_dim"] = tdim
    fn = FN[op] if order is None else lambda *a, **k: in_order(FN[op](*a, **k), order)
    if op == "month_to_season":
        _, ev = call(op, fn, arg, season, **kw)
    elif op == "climatology_average" and freq == "season" and custom:
        _, ev = call(op, fn, arg, freq, custom_seasons=custom, **kw)
    else:
        _, ev = call(op, fn, arg, freq, **kw)
    ev["args"] = args
    return ev


# -------------------------------------------------------------- cases
STEPS = {  # step -> rough samples per day, lengths to use
    "fine": ["10min", "20min", "30min", "h", "2h", "3h", "7min", "45min", "90min"],
    "sub": ["h", "3h", "6h", "12h", "5h", "8h"],
    "day": ["6h", "12h", "D", "D", "2D", "5D", "36h", "7D", "10D"],
    "month": ["MS", "MS", "mid", "midbounds", "MS", "mid", "2MS", "3MS"],
}


def start_of(rng, cal, edge=True):
    y = int(rng.choice([1999, 2000, 2001, 2003, 2004, 1900, 2099, 1996, 2, 850] if cal != "datetime64" else [1999, 2000, 2001, 2003, 2004, 1900, 2096, 1896]))
    m = int(rng.integers(1, 13))
    d = int(rng.choice([1, 1, 2, 15, 27, 28, 29, 30, 31]))
    return [y, m, valid_start(cal, y, m, d), int(rng.choice([0, 0, 0, 6, 12, 18, 23])), 0]


def gen(rng, kind, big=False):
    cal = str(rng.choice(CALS))
    st = start_of(rng, cal)
    nan = str(rng.choice(["none", "none", "some", "many", "block", "point"]))
    extra = [(), (2,), (2, 2), (3,)][int(rng.integers(0, 4))]
    dtype = str(rng.choice(["float64", "float64", "float64", "float32", "int32"]))
    if kind == "years":
        extra = extra[:1]
    if kind in ("century", "decade", "hours", "leaps"):
        extra = ()
    tax = int(rng.integers(0, len(extra) + 1)) if rng.random() < 0.3 else 0
    f = 3 if big else 1
    if kind == "fine":
        step = str(rng.choice(STEPS["fine"]))
        n = int(rng.integers(3, 100 * f))
        if rng.random() < 0.3:
            st[4] = int(rng.choice([10, 20, 40]))
    elif kind == "sub":
        step = str(rng.choice(STEPS["sub"]))
        n = int(rng.integers(3, 160 * f))
    elif kind == "daily":
        step = str(rng.choice(STEPS["day"]))
        n = int(rng.integers(3, 220 * f))
    elif kind == "years":   # daily data over several years
        step = str(rng.choice(["D", "D", "5D", "2D"]))
        n = int(rng.integers(300, 800 if step == "D" else 450))
    elif kind == "century":  # many years of months
        step = str(rng.choice(["MS", "MS", "mid", "midbounds"]))
        n = int(rng.choice([360, 600, 1212, 1260, 1400])) + int(rng.integers(0, 12))
        st[0] = int(rng.choice([1, 2, 99, 850, 1890, 1960, 1999])) if cal != "datetime64" else int(rng.choice([1850, 1890, 1960, 1999]))
        if step == "MS":
            st[2], st[3] = 1, 0
    elif kind == "decade":   # many years of days
        step, n = [("D", int(rng.integers(1500, 3400))), ("5D", int(rng.integers(400, 1100))), ("12h", int(rng.integers(1500, 2600)))][int(rng.integers(0, 3))]
    elif kind == "leaps":    # several 29 Februaries in few steps
        step, n = [("487D", int(rng.integers(7, 22))), ("3D", int(rng.integers(500, 1100))), ("1461D", int(rng.integers(3, 8)))][int(rng.choice([0, 0, 0, 0, 1, 2]))]
        st = [int(rng.choice([1996, 2000, 1960, 2092])), 2, 29, int(rng.choice([0, 12])), 0]
        st[2] = valid_start(cal, *st[:3])
        if step == "487D" and rng.random() < 0.5:
            st[:3] = [st[0] + int(rng.integers(1, 4)), 10, 30]
    elif kind == "hours":    # several years of hours
        step, n = [("6h", int(rng.integers(1500, 3200))), ("h", int(rng.integers(400, 1600)))][int(rng.integers(0, 2))]
    elif kind == "map":      # many points
        step, n = [("MS", int(rng.integers(6, 40))), ("D", int(rng.integers(20, 70)))][int(rng.integers(0, 2))]
        st[2], st[3] = 1, 0
        extra = [(int(rng.integers(30, 140)),), (int(rng.integers(5, 12)), int(rng.integers(5, 14)))][int(rng.integers(0, 2))]
        tax = int(rng.integers(0, len(extra) + 1)) if rng.random() < 0.3 else 0
    elif kind == "monthly":
        step = str(rng.choice(STEPS["month"]))
        n = int(rng.integers(3, 61 * f)) // {"2MS": 2, "3MS": 3}.get(step, 1) + (step[0] in "23") * 3
        if step.endswith("MS"):
            st[2], st[3] = 1, 0
    elif kind == "m2s" and rng.random() < 0.08:      # long, or many points
        step = "mid"
        n, extra = [(12 * int(rng.integers(50, 110)), ()), (24, (int(rng.integers(30, 100)),))][int(rng.integers(0, 2))]
        tax = 0
    elif kind == "m2s":
        step = str(rng.choice(["MS", "MS", "mid", "midbounds"]))
        n = 12 * int(rng.integers(1, 5))
        if step == "MS":
            st[2], st[3] = 1, 0
    return {"cal": cal, "times": time_axis(cal, st, step, n), "nan": nan, "extra": extra, "dtype": dtype, "tax": tax,
            "desc": [cal, st, step, n, nan, list(extra), dtype, tax]}


def custom_list(rng):
    r = rng.random()
    if r < 0.25:
        return None
    if r < 0.4:
        return str(rng.choice(SEASONS))
    k = int(rng.integers(1, 5))
    return [str(x) for x in rng.choice(SEASONS, size=k)]


def replay_da(c, rng):
    t = times_from_stamps(c["cal"], c["stamps"])
    n = len(t)
    v = np.where(c["present"], np.arange(1, n + 1) ** 2 + 1.0, np.nan)
    other = np.round(rng.normal(size=n) * 10, 2)
    if rng.random() < 0.5:   # a second point without gaps next to it
        return xr.DataArray(np.stack([v, other], axis=1), dims=["time", "x"], coords={"time": t}, name="v")
    return xr.DataArray(v, dims=["time"], coords={"time": t}, name="v")


PLAN = {  # property -> [(kind, quick count, thorough count)], replay count
    "C01": ([("fine", 30, 300), ("sub", 30, 300), ("daily", 40, 400), ("years", 12, 80), ("monthly", 40, 400)], 130),
    "C02": ([("fine", 25, 250), ("sub", 25, 250), ("daily", 35, 350), ("years", 12, 80), ("monthly", 35, 350), ("leaps", 30, 200)], 90),
    "C03": ([("fine", 15, 150), ("sub", 25, 250), ("daily", 30, 300), ("years", 30, 200), ("monthly", 30, 300), ("leaps", 8, 100)], 90),
    "C04": ([("sub", 10, 100), ("daily", 30, 300), ("years", 20, 160), ("monthly", 60, 600)], 110),
    "C05": ([("sub", 20, 200), ("daily", 30, 300), ("years", 25, 160), ("monthly", 50, 400)], 110),
    "C06": ([("m2s", 130, 1200)], 0),
    "C07": ([("fine", 10, 100), ("sub", 10, 100), ("daily", 20, 200), ("monthly", 20, 200)], 40),
    "C08": ([("fine", 10, 60), ("sub", 10, 80), ("daily", 20, 160), ("years", 4, 20), ("monthly", 60, 400), ("m2s", 16, 120)], 0),
}
LONG = {"C01": ["century", "decade", "hours", "map"], "C02": ["century", "decade", "hours"], "C03": ["century", "decade", "hours", "map"],
        "C04": ["century", "decade", "map"], "C05": ["century", "decade", "map"], "C07": ["century", "decade"], "C08": ["map"]}
AVG = {"leaps": [], "century": ["month", "season", "year"], "decade": ["day", "month", "season", "year"], "hours": ["hour", "day", "month"],
       "map": ["month", "season", "year"], "fine": ["hour", "day"], "sub": ["hour", "day", "month"], "daily": ["day", "month", "season", "year"],
       "years": ["day", "month", "season", "year"], "monthly": ["month", "season", "year"]}
CLIM = {"leaps": ["hour", "day", "month"], "century": ["month", "day"], "decade": ["day", "month"], "hours": ["hour", "day"], "map": ["month", "day"], "fine": ["hour", "day"], "sub": ["hour", "day", "month"], "daily": ["hour", "day", "month"],
        "years": ["day", "month"], "monthly": ["month", "day"]}


def even(da):
    """Equal steps: such a series may run backwards, too (climatologies by hour, day and month)."""
    return len(set(np.diff(da["time"].values))) == 1


def make(item):
    prop, kind, seed, idx, case, big = item
    rng = rng_for(seed, prop, kind, idx)
    evs = []
    if kind == "spacing":
        t = times_from_stamps(case["cal"], case["stamps"])
        if rng.random() < 0.4:
            t = np.array([CF[case["cal"]](*x) for x in case["stamps"]])
        da = xr.DataArray(rng.normal(size=len(t)), dims=["time"], coords={"time": t}, name="v")
        return [event(op, da, freq=str(rng.choice(fs))) for op, fs in
                [("calendar_average", ["day", "month", "season", "year"]), ("climatology_average", ["hour", "day", "month", "season"]),
                 ("climate_anomaly", ["day", "month", "season", "year"])]]
    if kind == "chunks":
        return chunk_events(case, rng)
    if kind == "seasons":
        da = replay_da(case, rng)
        return [event("month_to_season", da, season=str(x)) for x in rng.permutation(SEASONS)[:None if big else 3]]
    if kind == "replay":
        da = replay_da(case, rng)
        step = case["step"]
        fr = ["day", "month", "season", "year"] if step in (0, 240, 480) else ["hour", "day", "month", "season", "year"]
        if step in (240, 480) and prop == "C01":
            fr = ["day", "month", "season", "year"]
        cl = ["day", "month"] if step in (0, 240, 480) else ["hour", "day", "month"]
    else:
        c = gen(rng, kind, big)
        da = make_da(c, rng)
        fr, cl = AVG.get(kind, []), CLIM.get(kind, [])
    if prop == "C01":
        for f in fr:
            evs.append(event("calendar_average", da, freq=f))
    elif prop == "C02":
        for f in fr:
            evs.append(event("calendar_average", da, freq=f))
        for f in cl:
            evs.append(event("climatology_average", da, freq=f))
    elif prop == "C03":
        if even(da) and rng.random() < 0.15:
            da = da[{"time": slice(None, None, -1)}]
        for f in cl:
            evs.append(event("climatology_average", da, freq=f))
    elif prop == "C04":
        evs.append(event("climatology_average", da, freq="season"))
        cu = custom_list(rng)
        if cu:
            evs.append(event("climatology_average", da, freq="season", custom=cu))
        if rng.random() < 0.15:
            bad = str(rng.choice(["XYZ", "djf", "DJ", "DJFM", "NOV"]))
            lst = bad if rng.random() < 0.5 else ["JJA", bad]
            evs.append(event("climatology_average", da, freq="season", custom=lst))
    elif prop == "C05":
        for f in ["day", "month", "season", "year"]:
            keep = str(rng.choice(["true", "false", "none", "default"]))
            arg = da
            if f in ("day", "month") and even(da) and rng.random() < 0.15:
                arg = da[{"time": slice(None, None, -1)}]
            if rng.random() < 0.2:
                arg = arg.to_dataset(name="a").assign_attrs(title="x", history="y")
                if da.dtype.kind == "f":
                    arg["b"] = arg["a"] * 2 + 1
                    if rng.random() < 0.5:
                        arg["c"] = arg["a"].where(rng.random(da.shape) > 0.3)
            evs.append(event("climate_anomaly", arg, freq=f, keep=keep))
    elif prop == "C06":
        for s in rng.choice(SEASONS, size=3 if da.size < 500 else 12, replace=False):
            evs.append(event("month_to_season", da, season=str(s)))
        if rng.random() < 0.2:
            evs.append(event("month_to_season", da, season=str(rng.choice(["XYZ", "djf", "DJ", "DJFM", "annual", ""]))))
        if rng.random() < 0.3:
            k = int(rng.integers(1, 12))
            short = da.isel(time=slice(0, da.sizes["time"] - k))
            evs.append(event("month_to_season", short, season="JJA"))
    elif prop == "C07":
        evs += bad_events(da, kind, rng)
    elif prop == "C08":
        evs += layout_events(da, kind, rng)
    return evs


def bad_events(da, kind, rng):
    evs = []
    ops = [("calendar_average", ["hour", "day", "month", "season", "year"]), ("climatology_average", ["hour", "day", "month", "season"]),
           ("climate_anomaly", ["day", "month", "season", "year"])]
    for op, fs in ops:
        if kind == "fine":
            fs = [f for f in fs if f in ("hour", "day")]
        else:
            fs = [f for f in fs if f not in ("hour",)]
        evs.append(event(op, da, freq=str(rng.choice(fs)) if fs else "day"))
    op, fs = ops[int(rng.integers(0, 3))]
    bad = str(rng.choice(["years", "Day", "monthly", "", "hourly", "D", "hour" if op == "climate_anomaly" else "seasons",
                          "year" if op == "climatology_average" else "h"]))
    evs.append(event(op, da, freq=bad))
    n = da.sizes["time"]
    f = str(rng.choice(["day", "month", "season"]))
    # no dates
    r = rng.random()
    if r < 0.7:
        nod = da.assign_coords(time=np.arange(n, dtype=float if rng.random() < 0.5 else int))
    elif r < 0.85:
        nod = da.assign_coords(time=np.arange(n) * np.timedelta64(int(rng.choice([1, 24, 48])), "h").astype("timedelta64[ns]"))
    else:
        nod = da.assign_coords(time=["%04d-01-01" % i for i in range(n)])
    for op, _ in ops:
        evs.append(event(op, nod, freq=f, pass_dim=True))
    # irregular: drop or shift one interior sample (never one per month)
    t = da["time"].values
    if n >= 5 and kind not in ("monthly", "century"):
        k = int(rng.integers(1, n - 1))
        if rng.random() < 0.5 and n >= 6:
            irr = da.isel(time=[i for i in range(n) if i != k])
        else:
            t2 = t.copy()
            t2[k] = t2[k] + (t2[k + 1] - t2[k]) / 3
            irr = da.assign_coords(time=t2)
        for op, _ in ops:
            evs.append(event(op, irr, freq=f))
    elif kind in ("monthly", "century") and n >= 6 and rng.random() < 0.5:    # a month is missing
        k = int(rng.integers(1, n - 1))
        irr = da.isel(time=[i for i in range(n) if i != k])
        for op, _ in ops:
            evs.append(event(op, irr, freq=f))
    elif kind in ("monthly", "century") and n >= 6:
        k = int(rng.integers(1, n - 1))
        t2 = list(t)
        t2.insert(k + 1, t[k] + (t[k + 1] - t[k]) / 3)   # two samples in one month
        irr = xr.concat([da.isel(time=slice(0, k + 1)), da.isel(time=[k]), da.isel(time=slice(k + 1, None))], dim="time")
        irr = irr.assign_coords(time=np.array(t2))
        for op, _ in ops:
            evs.append(event(op, irr, freq=f))
    return evs


def chunk_events(case, rng):
    """Blocks and their order as enumerated by the specification: points by its columns, time by its levels."""
    n, cal = 24, str(rng.choice(CALS))
    unit = n // sum(case["lcut"])
    kind = str(rng.choice(["monthly", "m2s", "daily"]))
    if kind == "daily":
        n, unit = 90, 90 // sum(case["lcut"])
    times = time_axis(cal, [2001, int(rng.integers(1, 13)) if kind != "m2s" else 1, 1, 0, 0], "D" if kind == "daily" else "MS", n)
    shape = (n, sum(case["fcut"]))
    x = np.round(rng.uniform(-40, 40, shape), 3)
    if rng.random() < 0.6:
        x[rng.random(shape) < 0.2] = np.nan
    a = xr.DataArray(x, dims=["time", "x"], coords={"time": times}, name="a")
    tc = [k * unit for k in case["lcut"]]
    tc[-1] += n - sum(tc)
    chunk = {"time": tuple(tc), "x": tuple(case["fcut"])}
    if rng.random() < 0.3:
        a = a.transpose("x", "time")
    if rng.random() < 0.4:
        a = a.to_dataset(name="a").assign(b=a * 2 + 1)
    calls = [("month_to_season", {"season": str(rng.choice(SEASONS))})] if kind == "m2s" else \
        [("calendar_average", {"freq": str(rng.choice(["month", "season", "year"]))}),
         ("climatology_average", {"freq": str(rng.choice(["month", "season"]))}),
         ("climate_anomaly", {"freq": str(rng.choice(["month", "season", "year"]))})]
    return [event(o, a, chunk=chunk, order=case["order"], **k) for o, k in calls]


def layout_events(da, kind, rng):
    evs = []
    if kind == "m2s":
        calls = [("month_to_season", {"season": str(rng.choice(SEASONS))})]
    else:
        fr = [f for f in AVG[kind]]
        calls = [("calendar_average", {"freq": str(rng.choice(fr))}), ("climatology_average", {"freq": str(rng.choice(CLIM[kind] + (["season"] if kind != "fine" else [])))})]
        if kind != "fine":
            calls.append(("climate_anomaly", {"freq": str(rng.choice(["day", "month", "year"] + ["season"]))}))
    others = [d for d in da.dims if d != "time"]
    for op, kw in calls:
        a = da
        if rng.random() < 0.6 and others:
            perm = [str(x) for x in rng.permutation(list(a.dims))]
            a = a.transpose(*perm)
        if rng.random() < 0.5 and others:
            a = a.assign_coords(height=2.0, area=(others, np.arange(int(np.prod([da.sizes[o] for o in others]))).reshape([da.sizes[o] for o in others]) * 1.5))
        tdim = "time"
        if rng.random() < 0.3:
            tdim = str(rng.choice(["t", "valid_time", "Times"]))
            a = a.rename(time=tdim)
        keep = str(rng.choice(["true", "false", "none"]))
        chunk = None
        if rng.random() < 0.5:
            chunk = {d: int(rng.integers(1, a.sizes[d] + 1)) for d in a.dims}
            if a.sizes[tdim] / chunk[tdim] > 12:
                chunk[tdim] = max(1, a.sizes[tdim] // 12)
        if rng.random() < 0.4:
            ds = a.to_dataset(name="a").assign_attrs(title="x", source="model")
            b = (a * 3 - 2) if a.dtype.kind == "f" else a + 1
            if others and rng.random() < 0.5:
                b = b.isel({others[0]: 0}, drop=True)
            if a.dtype.kind == "f" and rng.random() < 0.5:
                b = b.where(b > float(b.mean()))
            ds["b"] = b
            if rng.random() < 0.5:
                for nm in ["c", "d"][:int(rng.integers(1, 3))]:
                    other = a.copy(data=np.roll(a.values, int(rng.integers(1, a.sizes[tdim] + 1)), axis=a.get_axis_num(tdim)))
                    ds[nm] = other.where(rng.random(a.shape) > 0.3) if rng.random() < 0.5 else other
            a = ds
        evs.append(event(op, a, tdim=tdim, keep=keep, chunk=chunk, **kw))
    return evs


def build(prop, tier, seed, cases):
    kinds, nrep = PLAN[prop]
    big = tier == "thorough"
    items = []
    for kind, q, t in kinds:
        for i in range(t if big else q):
            items.append((prop, kind, seed, i, None, big and i % 3 == 0))
    items += [(prop, k, seed, i, None, False) for k in LONG.get(prop, []) for i in range(24 if big else 3)]
    for i, c in enumerate(pick([c for c in cases if c["kind"] == "replay"], None if big else nrep, seed, prop)):
        items.append((prop, "replay", seed, i, c, False))
    for i, c in enumerate(pick([c for c in cases if c["kind"] == "seasons"], 1000 if big else 60, seed, prop, "seasons")):
        items.append((prop, "seasons", seed, i, c, big))
    for i, c in enumerate(pick([c for c in cases if c["kind"] == "chunks"], 500 if big else 40, seed, prop, "chunks")):
        items.append((prop, "chunks", seed, i, c, big))
    for fine in (True, False):
        for i, c in enumerate(pick([c for c in cases if c["kind"] == "spacing" and c["fine"] == fine], 1500 if big else 40, seed, prop, fine)):
            items.append((prop, "spacing", seed, 2 * i + fine, c, False))
    return make, items


if __name__ == "__main__":
    driver_main(build)
