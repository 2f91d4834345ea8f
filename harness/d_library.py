"""The library as a whole: L01 (no call changes its arguments, depends on the past or on the process), L02 (old names).

L01 executes the histories of calls and writes that the specification enumerated, on objects shared between calls,
and records the digest of every live object after every step.  The same sessions are run a second time by another
process, with another hash seed and in the opposite order, and the digests of the results there are put beside.
"""
import copy
import json
import locale
import os
import pickle
import random
import subprocess
import sys

import d_stats
import d_vertical
from common import *  # noqa: F401,F403
from common import call, driver_main, enc, fingerprint, gc, np, pd, pick, rng_for, run_sessions, xr

# ------------------------------------------------------------------ objects
ATTRS = {"units": "u", "long_name": "a name", "history": [1, 2]}


def wrapd(s, a, dims, coords=None, name="x"):
    """The array in the container of the session."""
    a = np.asarray(a)
    if s["form"] == "list":
        return a.tolist()
    if s["form"] in ("da", "dask"):
        co = {d: np.arange(k) * 1.5 for d, k in zip(dims, a.shape)} if coords is None else coords
        x = xr.DataArray(a, dims=dims, coords=co, name=name, attrs=dict(ATTRS))
        return x.chunk({dims[0]: 1}) if s["form"] == "dask" else x
    return a


def flat(lo, hi):
    def f(s, rng):
        return wrapd(s, np.round(rng.uniform(lo, hi, s["shape"]), 3), ["y", "x", "z"][: len(s["shape"])])
    return f


def alwaysda(lo, hi, dims, shape, coords=None, name="x", attrs=True):
    def f(s, rng):
        co = coords(s) if callable(coords) else {}
        x = xr.DataArray(np.round(rng.uniform(lo, hi, shape), 3), dims=dims, coords=co, name=name, attrs=dict(ATTRS) if attrs else {})
        if s["form"] == "dask":
            x = x.chunk({dims[-1]: 1})
        return x
    return f


def daily(s, rng):
    n = 120 if s["form"] == "dask" else 800
    t = pd.date_range("2001-11-20", periods=n, freq="D") if s["np_time"] else xr.date_range("2001-11-20", periods=n, freq="D", use_cftime=True,
                                                                                           calendar="noleap")
    v = np.round(rng.normal(size=(n, 2)), 3)
    v[rng.random(v.shape) < 0.1] = np.nan
    x = xr.DataArray(v, dims=["time", "loc"], coords={"time": ("time", t, {"axis": "T"}), "loc": [1, 2], "scal": 4.0}, name="t",
                     attrs=dict(ATTRS))
    if s["form"] == "dask":
        x = x.chunk({"time": 60})
    return x.to_dataset() if s["ds"] else x


def monthly(s, rng):
    t = xr.date_range("2000-01-15" if s["np_time"] else "2000-01-01", periods=36, freq="MS", use_cftime=not s["np_time"])
    x = xr.DataArray(np.round(rng.normal(size=(36, 2)), 3), dims=["time", "loc"], coords={"time": t, "loc": [1, 2]}, name="t", attrs=dict(ATTRS))
    if s["form"] == "dask":
        x = x.chunk({"loc": 1})
    return x.to_dataset() if s["ds"] else x


def rect(s, rng):
    co = {"lat": np.linspace(-60, 60, 4), "lon": np.linspace(0, 300, 6)}
    v = np.round(rng.normal(size=(4, 6)), 3)
    if rng.random() < 0.5:
        v[rng.random(v.shape) < 0.15] = float(rng.choice([-99.0, -99.0, -9.0, np.nan]))
    return xr.DataArray(v, dims=["lat", "lon"], coords=co, name="f", attrs=dict(ATTRS))


def nmse_in(s, rng):
    x = xr.DataArray(np.round(rng.normal(size=(2, 4, 6)), 3), dims=["time", "lat", "lon"], name="f", attrs=dict(ATTRS),
                     coords={"lat": ("lat", np.linspace(-60, 60, 4), {"units": "degrees_north"}),
                             "lon": ("lon", np.linspace(0, 300, 6), {"units": "degrees_east"})})
    x = x.where(x < 1.5)
    return x.to_dataset() if s["ds"] else x


def angle(k):
    def f(s, rng):
        a = rng.uniform(-3, 3, (2, 4)) if k == "theta" else np.arccos(rng.uniform(-0.95, 0.95, (2, 4)))
        return xr.DataArray(a, dims=["lat", "lon"], attrs=dict(ATTRS)) if s["form"] in ("da", "dask") else a
    return f


def sphere(lo, hi):
    def f(s, rng):
        a = np.round(rng.uniform(lo, hi, (2, 4)), 3)
        return xr.DataArray(a, dims=["lat", "lon"], attrs=dict(ATTRS)) if s["form"] in ("da", "dask") else a
    return f


def coef(s, rng):
    a = rng.normal(size=10) + 1j * rng.normal(size=10)
    return xr.DataArray(a, dims=["har"], attrs=dict(ATTRS)) if s["form"] in ("da", "dask") else a


def eofdata(s, rng):
    v = np.round(rng.normal(size=(5, 2, 3)), 3)
    v[:, 0, 1] = np.nan
    if s["form"] in ("da", "dask"):
        return xr.DataArray(v, dims=["time", "lat", "lon"], coords={"time": np.arange(5), "lat": [1., 2.]}, name="s", attrs=dict(ATTRS))
    return v.tolist() if s["form"] == "list" else v


def hyb(which):
    def f(s, rng):
        a, b = np.array([0.01, 0.05, 0.1, 0.05, 0.0]), np.array([0.0, 0.05, 0.3, 0.6, 1.0])
        x = (a if which == "a" else b) + np.round(rng.random() * 0.001, 6)
        return xr.DataArray(x, dims=["lev"], attrs=dict(ATTRS))
    return f


def levels(s, rng):
    q = np.round(rng.uniform(5000, 105000, 4), 1)
    return q.tolist() if s["form"] == "list" and False else q


def plevs(s, rng):
    q = np.sort(np.round(rng.uniform(1000, 100000, 5), 1))
    return xr.DataArray(q, dims=["plev"], coords={"plev": q}, attrs=dict(ATTRS)) if s["form"] in ("da", "dask") else q


def hdata(s, rng):
    x = xr.DataArray(np.round(rng.uniform(200, 300, (2, 5, 3)), 2), dims=["time", "lev", "loc"], name="T", attrs=dict(ATTRS),
                     coords={"lev": ("lev", np.arange(5) * 10., {"positive": "down"}), "time": [3, 4], "loc": [5, 6, 7]})
    return x.chunk({"time": 1, "loc": 2}) if s["form"] == "dask" else x


def psds(s, rng):
    return d_vertical.psi_inputs(rng_for(int(rng.integers(0, 1000)), "psi"))


PS2 = dict(dims=["time", "loc"], shape=(2, 3), coords=lambda s: {"time": [3, 4], "loc": [5, 6, 7]})
KINDS = {
    "T": flat(230, 310), "RH": flat(5, 100), "Q": flat(0.001, 0.02), "P": flat(60000, 100000), "TF": flat(-20, 115), "PK": flat(60, 100),
    "day": lambda s, rng: wrapd({"form": "nd" if s["form"] == "list" else s["form"].replace("dask", "da")}, rng.integers(1, 366, 4).astype(float), ["day"], name="day"),
    "lat1": lambda s, rng: wrapd({"form": "nd" if s["form"] == "list" else s["form"].replace("dask", "da")}, np.round(rng.uniform(-60, 60, 3), 2), ["lat"], name="lat"),
    "daily": daily, "monthly": monthly, "series": flat(-5, 5), "rect": rect, "nmse": nmse_in, "theta": angle("theta"), "phi": angle("phi"),
    "sphere": sphere(-3, 3), "scale": sphere(0.1, 1), "coef": coef, "eof": eofdata, "hya": hyb("a"), "hyb": hyb("b"), "levels": levels, "plev": plevs,
    "hdata": hdata, "ps": alwaysda(60000, 105000, name="PS", **PS2), "tbot": alwaysda(240, 300, **PS2), "phis": alwaysda(0, 30000, **PS2),
    "sig": lambda s, rng: xr.DataArray(np.array([0.1, 0.3, 0.5, 0.7, 0.9]), dims=["lev"], attrs=dict(ATTRS)),
    "qlat": lambda s, rng: np.round(rng.uniform(-50, 50, 3), 2), "qlon": lambda s, rng: np.round(rng.uniform(10, 290, 2), 2),
    "psfc": lambda s, rng: (alwaysda(60000, 105000, ["loc"], (3,), attrs=True)(dict(s, form="da"), rng) if s["form"] in ("da", "dask")
                            else np.round(rng.uniform(60000, 105000, 3), 1)),
    "any": lambda s, rng: [np.arange(3.0), {"a": [1, 2]}, [1.5, 2.5]][int(rng.integers(0, 3))],
}


# ------------------------------------------------------------------ operations
def one(rng, *xs):
    return xs[int(rng.integers(0, len(xs)))]


def op(name, kinds, options=None, result=None, fn=None, forms=None, n=None):
    return {"name": name, "kinds": kinds, "options": options or (lambda rng: {}), "result": result,
            "fn": fn or (lambda: getattr(gc, name)), "forms": forms}


def extrap(rng):
    v = one(rng, "temperature", "geopotential", "other")
    return {"extrapolate": True, "variable": v, "lev_dim": "lev", "method": one(rng, "linear", "log")}


def pass_named(f, names):
    """Calls with some arguments by keyword."""
    def g(*a, **kw):
        k = len(a) - len(names)
        return f(*a[:k], **dict(zip(names, a[k:])), **kw)
    return g


KEEP = lambda rng: one(rng, {}, {"keep_attrs": True}, {"keep_attrs": False})
DA = ("da", "dask")
OPS = [
    op("dewtemp", ["T", "RH"], result="T"), op("heat_index", ["TF", "RH"], lambda rng: {"alternate_coeffs": bool(rng.random() < 0.5)}, result="TF"),
    op("relhum", ["T", "Q", "P"], result="RH"), op("relhum_ice", ["T", "Q", "P"], result="RH"), op("relhum_water", ["T", "Q", "P"], result="RH"),
    op("saturation_vapor_pressure", ["TF"], lambda rng: {"tfill": one(rng, 1.0, -9.0)}), op("actual_saturation_vapor_pressure", ["TF"]),
    op("saturation_vapor_pressure_slope", ["TF"]), op("psychrometric_constant", ["PK"]), op("max_daylight", ["day", "lat1"]),
    op("delta_pressure", ["plev", "psfc"], lambda rng: one(rng, {}, {"pressure_top": 500.0})),
    op("dpres_plev", ["plev", "psfc"], lambda rng: one(rng, {}, {"pressure_top": 500.0})),
    op("pressure_at_hybrid_levels", ["psfc", "hya", "hyb"], lambda rng: one(rng, {}, {"p0": 90000.0}), forms=DA),
    op("delta_pressure_hybrid", ["psfc", "hya", "hyb"], lambda rng: one(rng, {}, {"p0": 90000.0}), forms=DA),
    op("interp_hybrid_to_pressure", ["hdata", "ps", "hya", "hyb", "levels"], lambda rng: {"lev_dim": one(rng, "lev", None), "method": one(rng, "linear", "log")},
       fn=lambda: pass_named(lambda *a, new_levels, **k: gc.interp_hybrid_to_pressure(*a, new_levels=new_levels, **k), ["new_levels"]), result=None),
    op("interp_hybrid_to_pressure:default", ["hdata", "ps", "hya", "hyb"], lambda rng: {"lev_dim": "lev"}, fn=lambda: gc.interp_hybrid_to_pressure),
    op("interp_hybrid_to_pressure:extrapolate", ["hdata", "ps", "hya", "hyb", "levels", "tbot", "phis"], extrap,
       fn=lambda: pass_named(gc.interp_hybrid_to_pressure, ["new_levels", "t_bot", "phi_sfc"])),
    op("interp_sigma_to_hybrid", ["hdata", "sig", "ps", "hya", "hyb"], lambda rng: {"lev_dim": "lev", "method": one(rng, "linear", "log")}),
    op("interp_multidim", ["rect", "qlat", "qlon"], lambda rng: one(rng, {}, {"cyclic": True}, {"missing_val": -99.0}, {"cyclic": True, "missing_val": -99.0},
                                                                   {"fill_value": "extrapolate"}, {"method": "nearest"})),
    op("calendar_average", ["daily"], lambda rng: {"freq": one(rng, "month", "season", "year"), **KEEP(rng)}),
    op("calendar_average:monthly", ["monthly"], lambda rng: {"freq": one(rng, "season", "year", "month"), **KEEP(rng)}, fn=lambda: gc.calendar_average),
    op("climatology_average", ["daily"], lambda rng: {"freq": one(rng, "day", "month", "season"), **KEEP(rng)}),
    op("climatology_average:seasons", ["monthly"], lambda rng: {"freq": "season", "custom_seasons": one(rng, ["JFM", "OND"], "JJA", ["NDJ"])},
       fn=lambda: gc.climatology_average),
    op("climate_anomaly", ["daily"], lambda rng: {"freq": one(rng, "day", "month", "season", "year"), **KEEP(rng)}, result="daily"),
    op("month_to_season", ["monthly"], lambda rng: {"season": one(rng, "DJF", "JJA", "SON", "FMA"), **KEEP(rng)}),
    op("fourier_filter", ["series"], lambda rng: {"frequency": 10, "cutoff_frequency_low": 1.0, "cutoff_frequency_high": 3.0,
                                                  **one(rng, {"low_pass": True}, {"band_pass": True}, {"high_pass": True, "time_axis": -1})}, result="series", forms=("nd", "da", "dask")),
    op("fourier_low_pass", ["series"], lambda rng: {"frequency": 10, "cutoff_frequency_low": 2.0}, result="series", forms=("nd", "da", "dask")),
    op("fourier_high_pass", ["series"], lambda rng: {"frequency": 10, "cutoff_frequency_high": 2.0, "time_axis": -1}, result="series", forms=("nd", "da", "dask")),
    op("fourier_band_pass", ["series"], lambda rng: {"frequency": 10, "cutoff_frequency_low": 1.0, "cutoff_frequency_high": 4.0}, result="series", forms=("nd", "da", "dask")),
    op("fourier_band_block", ["series"], lambda rng: {"frequency": 10, "cutoff_frequency_low": 1.0, "cutoff_frequency_high": 4.0}, result="series", forms=("nd", "da", "dask")),
    op("gradient", ["rect"], forms=DA),
    op("decomposition", ["sphere", "scale", "theta", "phi"], lambda rng: {"max_harm": 3}, result="coef"),
    op("recomposition", ["coef", "theta", "phi"], lambda rng: {"max_harm": 3}),
    op("scale_voronoi", ["theta", "phi"], result="scale"),
    op("eofunc_eofs", ["eof"], lambda rng: {"neofs": one(rng, 1, 3), "eofscaling": one(rng, 0, 1, 2), "meta": bool(rng.random() < 0.6)}),
    op("eofunc_pcs", ["eof"], lambda rng: {"npcs": one(rng, 1, 3), "pcscaling": one(rng, 0, 1, 2), "meta": bool(rng.random() < 0.6)}),
    op("eofunc", ["eof"], lambda rng: {"neval": 2, "time_dim": 0, "meta": bool(rng.random() < 0.6)}),
    op("pearson_r", ["series", "series"], lambda rng: one(rng, {}, {"skipna": True})),
    op("nmse", ["nmse", "nmse"], forms=("nd", "da", "list")),
    op("zonal_meridional_psi", ["psds"], forms=("nd",)),
    op("linint2", ["any", "any"]), op("triple_to_grid", ["any"]),
]
PSI = [o for o in OPS if o["name"] == "zonal_meridional_psi"][0]
PSI["fn"] = lambda: gc.zonal_meridional_psi
PSI["options"] = lambda rng: {"meridional_wind_varname": "V", "surface_air_pressure_varname": "PS"}


def psi_ds(s, rng):
    r = rng_for(int(rng.integers(0, 10 ** 6)), "psi")
    while True:
        ds, lat, kw, hybrid, vname, pname = d_vertical.psi_inputs(r)[:6]
        if vname == "V" and pname == "PS" and not kw and not hybrid:
            ds.attrs["title"] = "t"
            return ds


KINDS["psds"] = psi_ds
KINDS["latlist"] = lambda s, rng: np.array([-33.0, 0.0, 20.5])
PSI["kinds"] = ["psds", "latlist"]


def environment():
    """Process-wide settings that calls could disturb."""
    return fingerprint([repr(sorted(np.geterr().items())), repr(sorted((k, repr(v)) for k, v in xr.get_options().items())),
                        repr(sorted(np.get_printoptions().items(), key=str)), repr(np.random.get_state()[1][:8].tolist()), repr(random.getstate()[1][:8]),
                        os.getcwd(), repr(sorted(os.environ.items())), repr(locale.setlocale(locale.LC_ALL))])


def write(x):
    """The program changes an object of its own in place, where it can be changed."""
    if isinstance(x, np.ndarray) and x.size and x.dtype.kind in "fc" and x.flags.writeable:
        x.flat[0] += 0.125
    elif isinstance(x, xr.DataArray):
        if x.chunks is None and x.dtype.kind in "fc" and x.size and x.variable._data.__class__ is np.ndarray and x.values.flags.writeable:
            x.values.flat[0] += 0.125
        x.attrs["written"] = x.attrs.get("written", 0) + 1
    elif isinstance(x, xr.Dataset):
        x.attrs["written"] = x.attrs.get("written", 0) + 1
        for v in x.data_vars:
            x[v].attrs["written"] = 1
            if x[v].chunks is None and x[v].dtype.kind == "f" and x[v].size and x[v].values.flags.writeable:
                x[v].values.flat[0] += 0.125
    elif isinstance(x, list) and x:
        while isinstance(x[0], list) and x[0]:
            x = x[0]
        if isinstance(x[0], float):
            x[0] += 0.125


def deep(x):
    return x.copy(deep=True) if isinstance(x, (xr.DataArray, xr.Dataset)) else copy.deepcopy(x)


class Beside:
    """A process forked before a session; it makes the calls of the session on copies of their arguments, the last one first."""

    def __init__(self):
        r, self.w = os.pipe()
        self.r, w = os.pipe()
        self.calls = []
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(self.w)
                os.close(self.r)
                with os.fdopen(r, "rb") as f:
                    calls = pickle.loads(f.read())
                out = []
                for n, a, kw in calls[::-1]:
                    a, kw = pickle.loads(a)
                    res, ev = call("x", OPS[n]["fn"](), *a, **kw)
                    out.append(fingerprint([ev["outcome"], ev["error"], fingerprint(res if ev["outcome"] == "ok" else None)]))
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(out[::-1]))
                code = 0
            finally:
                os._exit(code)
        os.close(r)
        os.close(w)

    def add(self, o, args, kw):
        self.calls.append((OPS.index(o), pickle.dumps((args, kw)), None))

    def results(self):
        with os.fdopen(self.w, "wb") as f:
            f.write(pickle.dumps(self.calls))
        with os.fdopen(self.r, "rb") as f:
            b = f.read()
        if os.waitpid(self.pid, 0)[1]:
            raise RuntimeError("the process beside failed")
        return pickle.loads(b)


def history(seed, prop, case, i, first, rerun, alone=False):
    rng = rng_for(seed, prop, json.dumps(case, sort_keys=True), i)
    f = OPS[first]
    forms = f["forms"] or ("nd", "da", "list", "dask", "da")
    form = str(rng.choice(list(forms)))
    s = {"form": form, "ds": bool(rng.random() < 0.3), "np_time": bool(rng.random() < 0.5),
         "shape": [(4, 3), (6,), (6, 2, 2)][int(rng.integers(0, 3))]}
    ok = [o for o in OPS if o["forms"] is None or form in o["forms"]]
    near = [o for o in ok if set(o["kinds"]) & set(f["kinds"]) or f["result"] in o["kinds"]]
    g = one(rng, *(near if rng.random() < 0.8 and near else ok))
    ops = {1: (f, f["options"](rng)), 2: (g, g["options"](rng))}
    objs, kinds, made, number = [environment()], ["environment"], [[]], {}
    evs = []

    def add(x, kind, frm):
        objs.append(x)
        kinds.append(kind)
        made.append(frm)
        return len(objs) - 1

    number[1] = add(KINDS[f["kinds"][0]](s, rng), f["kinds"][0], [])

    def heap():
        objs[0] = environment()
        return [objs[0]] + [fingerprint(x) for x in objs[1:]]

    beside = None if alone else Beside()
    last = []
    for step in case["steps"]:
        tgt = number[step["obj"]]
        if step["do"] == "write":
            if last and rng.random() < 0.4:     # to another argument of the last call
                tgt = one(rng, *last)
            pre = heap()
            _, ev = call("write", write, objs[tgt])
            ev.update(args={"do": "write", "pre": pre, "post": heap(), "from": [[j + 1 for j in m] for m in made], "target": tgt + 1, "key": "", "res": ""})
            evs.append(ev)
            continue
        o, kw = ops[step["op"]]
        ids = []
        for k, kind in enumerate(o["kinds"]):
            if k == 0 and kinds[tgt] == kind:
                j = tgt if not step["copy"] else add(deep(objs[tgt]), kind, [])
            elif k == 0:
                old = [j for j in range(1, len(objs)) if kinds[j] == kind]
                j = old[-1] if old else add(KINDS[kind](s, rng), kind, [])
                if old and step["copy"]:
                    j = add(deep(objs[j]), kind, [])
            else:
                old = [j for j in range(1, len(objs)) if kinds[j] == kind and (j not in ids or rng.random() < 0.2)]
                j = old[0] if old else add(KINDS[kind](s, rng), kind, [])
                if step["copy"]:
                    j = add(deep(objs[j]), kind, [])
            ids.append(j)
        # a result of another size is no argument for an operation on the sizes of this session
        pre = heap()
        key = fingerprint([o["name"], [pre[j] for j in ids], sorted(kw.items(), key=str)])
        options = add(copy.deepcopy(kw), "options", [])
        pre = heap()
        args = [objs[j] for j in ids]
        last = ids
        if beside:
            beside.add(o, args, objs[options])
        fn = o["fn"]()
        res, ev = call(o["name"].split(":")[0], fn, *args, **objs[options])
        ev["result"] = None
        # the result is an object of its own; what it was made from may be seen through it
        rid = add(res if ev["outcome"] == "ok" else None, o["result"] or "result", [])
        made[rid] = ids + [options]
        number[len(number) + 1] = rid
        post = heap()
        ev["args"] = {"do": "call", "pre": pre, "post": post, "from": [[j + 1 for j in m] for m in made], "target": 0, "key": key,
                      "res": fingerprint([ev["outcome"], ev["error"], post[rid]]), "form": form, "options": repr(kw)}
        evs.append(ev)
    other = rerun.get(str(i))
    there = iter(beside.results()) if beside else None
    for k, ev in enumerate(evs):
        ev["args"]["elsewhere"] = [] if other is None else [other[k]]
        if beside and ev["args"]["do"] == "call":
            ev["args"]["elsewhere"].append(next(there))
    return evs


def plan(tier, seed, cases):
    big = tier == "thorough"
    cs = pick([c for c in cases if c["kind"] == "history"], 20000 if big else 1300, seed, "L01")
    return [(c, i, i % len(OPS)) for i, c in enumerate(cs)]


def peer(tier, seed, path, out):
    """The sessions again, in the opposite order."""
    d_vertical.ux_setup()
    cases = [json.loads(x) for x in open(path) if x.strip()]
    items = plan(tier, seed, cases)[::-1]

    def make(item):
        c, i, first = item
        return [{"op": str(i), "outcome": "ok", "args": [e["args"]["res"] for e in history(seed, "L01", c, i, first, {}, True)]}]
    run_sessions(make, items, out, layouts=False)


def build_l01(tier, seed, cases, path, tmp):
    items = plan(tier, seed, cases)
    out = os.path.join(tmp, "peer.ndjson")
    env = dict(os.environ, PYTHONHASHSEED=str(seed + 1))
    rc = subprocess.call([sys.executable, os.path.abspath(__file__), "--peer", tier, str(seed), path, out], env=env)
    if rc:
        raise RuntimeError("second process failed")
    other = {}
    for line in open(out):
        e = json.loads(line)["events"][0]
        other[e["op"]] = e["args"]
    d_vertical.ux_setup()

    def make(item):
        c, i, first = item
        return history(seed, "L01", c, i, first, other)
    return make, items


# ------------------------------------------------------------------ L02
MOVED = ["grid_to_triple", "linint1", "linint2", "linint2pts", "moc_globe_atl", "rcm2points", "rcm2rgrid", "rgrid2rcm", "triple_to_grid"]


def digest(ev, res):
    return fingerprint([type(res).__name__, res]) if ev["outcome"] == "ok" else ""


def old_event(name, fn, pos, kw, peers, **extra):
    """peers: (key, function, positional, keyword arguments) to compare with; all get their own copies."""
    res, ev = call(name, fn, *[copy.deepcopy(x) for x in pos], **copy.deepcopy(kw))
    args = {"res": digest(ev, res), "outcome": ev["outcome"], "error": ev["error"], "none": res is None, "peers": [], **extra}
    for key, g, p, k in peers:
        r2, e2 = call(name, g, *[copy.deepcopy(x) for x in p], **copy.deepcopy(k))
        args["peers"].append({"key": key, "res": digest(e2, r2), "outcome": e2["outcome"], "error": e2["error"]})
    args["mentions"] = [{"cat": w["cat"], "words": [x.strip("`.,;'\"") for x in w["msg"].split()]} for w in ev["warnings"]]
    ev.update(args=args, result=None)
    return ev


def old_values(rng, name):
    """A value for every parameter of the old name, as a function of which ones are given."""
    if name == "dpres_plev":
        sess = {"form": one(rng, "nd", "da", "list")}
        pl = np.sort(np.round(rng.uniform(1000, 90000, 5), 1))
        ps = np.round(rng.uniform(30000, 105000, [(), (3,), (2, 2)][int(rng.integers(0, 3))]), 1)
        pl, ps = (pl if rng.random() < 0.5 else pl[::-1].copy()), ps
        if sess["form"] == "da" and ps.ndim:
            pl, ps = xr.DataArray(pl, dims=["plev"], attrs=ATTRS), xr.DataArray(ps, dims=["a", "b"][: ps.ndim], attrs=ATTRS)
        elif sess["form"] == "list" and ps.ndim:
            pl, ps = pl.tolist(), ps.tolist()
        elif not ps.ndim:
            ps = float(ps)
        return lambda given: {"pressure_lev": pl, "surface_pressure": ps, "pressure_top": float(one(rng, 0.0, 500.0, 99999.0))}
    if name == "zonal_mpsi":
        def values(given):
            u = d_vertical.ux_setup()
            ux, grid, nf = u["ux"], u["grid"], u["nf"]
            n, nt = 4, 2
            hybrid = rng.random() < 0.6 and not given.get("plev_coordname")
            v = "wind" if given.get("meridional_wind_varname") else "V"
            p = "psurf" if given.get("surface_air_pressure_varname") else "PS"
            a, b = ("A" if given.get("hyam_coordname") else "hyam"), ("B" if given.get("hybm_coordname") else "hybm")
            z = "lev" if hybrid else ("pp" if given.get("plev_coordname") else "plev")
            lev = np.array([20000., 50000., 80000., 95000.])
            V = xr.DataArray(rng.normal(size=(nt, n, nf)), dims=["time", z, "n_face"],
                             coords={"lev": ("lev", np.arange(n) * 1.0, {"positive": "down"})} if hybrid else {z: lev}, name=v)
            d = {v: ux.UxDataArray(V, uxgrid=grid),
                 p: ux.UxDataArray(xr.DataArray(rng.uniform(60000, 104000, (nt, nf)), dims=["time", "n_face"], name=p), uxgrid=grid)}
            # decoys under the default names, if others are given
            if v == "wind":
                d["V"] = d[v] * 2
            if p == "psurf":
                d["PS"] = d[p] * 0.9
            ha, hb = np.array([0.05, 0.1, 0.05, 0.0]), np.array([0.0, 0.2, 0.6, 0.95])
            if hybrid or rng.random() < 0.3:
                for nm, c in ((a, ha), (b, hb), ("hyam", ha * 0.9), ("hybm", hb * 0.9)):
                    if nm not in d:
                        d[nm] = ux.UxDataArray(xr.DataArray(c, dims=[z]), uxgrid=grid)
            ds = ux.UxDataset(d, uxgrid=grid)
            return {"uxds": ds, "lat": one(rng, (-40, 40, 20), [0.0, 33.0], np.array([-20.0, 11.0])), "meridional_wind_varname": v,
                    "surface_air_pressure_varname": p, "plev_coordname": z, "hyam_coordname": a, "hybm_coordname": b}
        return values
    n = int(rng.integers(6, 17))
    sh = [(n,), (n, 3), (4, n)][int(rng.integers(0, 3))]
    x = np.round(rng.normal(size=sh), 2)
    if rng.random() < 0.5:
        x = xr.DataArray(x, dims=["t", "x"][: len(sh)], attrs=ATTRS, name="s")
    lo, hi = sorted(np.round(rng.uniform(0.3, 4.8, 2), 2).tolist())
    return lambda given: {"signal": x, "frequency": 10, "cutoff_frequency_low": lo, "cutoff_frequency_high": hi + 0.1,
                          "time_axis": int(rng.integers(-len(sh), len(sh)))}


NEW = {"dpres_plev": "delta_pressure", "zonal_mpsi": "zonal_meridional_psi"}
FLAGS = ["low_pass", "high_pass", "band_pass", "band_block"]


def old_session(rng, case):
    f, ps = case["f"], case["params"]
    given = dict(zip(ps, case["given"]))
    vals = old_values(rng, f)(given)
    pos = [vals[p] for p in ps[: case["pos"]]]
    names = [p for p in ps[case["pos"]:] if given[p]]
    kw = {p: vals[p] for p in rng.permutation(names).tolist()}
    allkw = {p: vals[p] for p in ps if given[p]}
    new = NEW.get(f, "fourier_filter")
    if new == "fourier_filter":
        peers = [([fl], getattr(gc, new), [], dict(allkw, **{fl: True})) for fl in FLAGS
                 if not (fl == "low_pass" and "cutoff_frequency_low" not in allkw) and not (fl == "high_pass" and "cutoff_frequency_high" not in allkw)
                 and not (fl[0] == "b" and len({"cutoff_frequency_low", "cutoff_frequency_high"} & set(allkw)) < 2)]
    else:
        peers = [([], getattr(gc, new), [], allkw)]
    return [old_event(f, getattr(gc, f), pos, kw, peers, new=new)]


def eof_old_session(rng):
    v = np.round(rng.normal(size=[(4, 5), (3, 2, 4), (4, 3), (2, 3, 5)][int(rng.integers(0, 4))]), 2)
    f = one(rng, "eofunc", "eofunc_ts")
    td = int(rng.integers(0, v.ndim)) if rng.random() < 0.5 else None
    k = int(rng.integers(1, 4))
    arg = v if rng.random() < 0.4 else v.tolist() if rng.random() < 0.4 else xr.DataArray(v, dims=["time", "y", "x"][: v.ndim], attrs=ATTRS)
    kw = {}
    if td is not None:
        kw["time_dim"] = one(rng, td, np.int64(td))
    meta = False
    if rng.random() < 0.4:
        meta = bool(rng.random() < 0.5)
        kw["meta"] = meta
    second = k if f == "eofunc" else rng.normal(size=(k,) + v.shape[:-1])
    pos = [arg, second]
    if rng.random() < 0.3:
        pos, kw = [arg], dict(kw, **{"neval" if f == "eofunc" else "evec": second})
    if rng.random() < 0.2:
        kw["jopt"] = "correlation"
    g, cnt = (gc.eofunc_eofs, "neofs") if f == "eofunc" else (gc.eofunc_pcs, "npcs")
    peers = [(d, g, [v], {cnt: k, "time_dim": d, "meta": meta}) for d in range(v.ndim)]
    return [old_event(f, getattr(gc, f), pos, kw, peers, has_time_dim=td is not None, time_dim=td or 0, ndim=v.ndim)]


def moved_session(rng, i):
    f = MOVED[i % len(MOVED)]
    pos = [KINDS["any"](None, rng) for _ in range(int(rng.integers(0, 5)))]
    kw = {k: KINDS["any"](None, rng) for k in ["icycx", "msg_py", "xo", "time_axis", "args"][: int(rng.integers(0, 4))]}
    return [old_event(f, getattr(gc, f), pos, kw, [])]


def build_l02(tier, seed, cases):
    big = tier == "thorough"
    cs = [c for c in cases if c["kind"] == "call"]
    items = [("call", c, i) for i in range(30 if big else 2) for c in cs]
    items += [("call", c, i) for i in range(2, 40 if big else 8) for c in cs if c["f"] != "zonal_mpsi"]
    items += [("eof", None, i) for i in range(4000 if big else 300)] + [("moved", None, i) for i in range(400 if big else 45)]
    d_vertical.ux_setup()

    def make(item):
        kind, c, i = item
        rng = rng_for(seed, "L02", kind, json.dumps(c, sort_keys=True), i)
        return old_session(rng, c) if kind == "call" else eof_old_session(rng) if kind == "eof" else moved_session(rng, i)
    return make, items


def build(prop, tier, seed, cases):
    if prop == "L02":
        return build_l02(tier, seed, cases)
    if prop == "L01":
        return build_l01(tier, seed, cases, sys.argv[3], os.path.dirname(os.path.abspath(sys.argv[2])))
    raise KeyError(prop)


if __name__ == "__main__":
    if sys.argv[1] == "--peer":
        import dask
        dask.config.set(scheduler="synchronous")
        peer(sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5])
    else:
        os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "random")
        driver_main(build, layouts=False)      # (results are compared to the last bit)
