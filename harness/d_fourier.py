"""Fourier filters: F01, F02."""
from common import *  # noqa: F401,F403
from common import amplitude, call, driver_main, enc, gc, np, pick, rng_for, xr

OPS = {"low": ("fourier_low_pass", ["low"]), "high": ("fourier_high_pass", ["high"]), "pass": ("fourier_band_pass", ["low", "high"]),
       "block": ("fourier_band_block", ["low", "high"])}
FLAG = {"low": "low_pass", "high": "high_pass", "pass": "band_pass", "block": "band_block"}


def filter_event(rng, sig, freq, ops, low, high, axis, generic=None):
    """One call; ops has one filter, or several (one call of fourier_filter)."""
    args = {"signal": enc(sig), "frequency": enc(freq), "ops": list(ops), "low": enc(float(low)), "high": enc(float(high)), "axis": int(axis)}
    if generic is None:
        generic = len(ops) != 1 or rng.random() < 0.4
    if generic:
        kw = {FLAG[o]: True for o in ops}
        if rng.random() < 0.06:         # cutoffs default to 0
            low = 0.0
            args["low"] = enc(0.0)
        if any(o != "high" for o in ops) or rng.random() < 0.1:
            kw["cutoff_frequency_low"] = low
            if low == 0 and rng.random() < 0.5:
                del kw["cutoff_frequency_low"]
        else:
            args["low"] = enc(0.0)
        if any(o != "low" for o in ops):
            kw["cutoff_frequency_high"] = high
        else:
            args["high"] = enc(0.0)
        if axis or rng.random() < 0.5:
            kw["time_axis"] = axis
        res, ev = call("fourier_filter", gc.fourier_filter, sig, freq, **kw)
    else:
        name, which = OPS[ops[0]]
        cs = [low if w == "low" else high for w in which]
        if rng.random() < 0.5:
            res, ev = call(name, getattr(gc, name), sig, freq, *cs, **({"time_axis": axis} if axis or rng.random() < 0.5 else {}))
        else:
            kw = {f"cutoff_frequency_{w}": c for w, c in zip(which, cs)}
            res, ev = call(name, getattr(gc, name), sig, frequency=freq, time_axis=axis, **kw)
    ev["args"] = args
    return res, ev


def signal(rng, shape, kind, dtype="float64", axis=0):
    v = np.round(rng.normal(size=shape) * 64) / 16 + float(rng.choice([0, 0, 5, -300]))
    if dtype.startswith("int"):
        v = np.round(v)
    v = (v * amplitude(rng, dtype)).astype(dtype)
    if dtype.startswith("float") and len(shape) > 1 and rng.random() < 0.2:
        v[tuple(rng.integers(0, s) for s in shape)] = np.nan
    if kind == "nd":
        return v
    dims = list(rng.permutation(["time", "lat", "lon", "x", "y"])[:len(shape)])
    co = {d: np.arange(s) * 2.0 + 1 for d, s in zip(dims, shape) if rng.random() < 0.6}
    da = xr.DataArray(v, dims=dims, coords=co, name="sig", attrs={"units": "K", "note": "n"})
    if rng.random() < 0.2:
        da = da.assign_coords(aux=(dims[0], np.arange(shape[0]) * 0.5), scalar=3.0)
    if rng.random() < 0.2:
        da = da.chunk({dims[-1]: 1})
    return da


def freq_for(rng, n):
    r = rng.random()
    if r < 0.6:
        return n * float(rng.choice([1, 0.25, 2, 8]))      # resolution a power of two: quotients are exact
    return float(rng.choice([1.0, 10, 24, 0.3, 365.25, n / 3]))


def build(prop, tier, seed, cases):
    big = tier == "thorough"
    cs = pick(cases, None if big else 500, seed, prop)
    items = [("case", cs[i:i + 5], i) for i in range(0, len(cs), 5)] + [("rand", None, i) for i in range(400 if big else 50)]
    items += [("near", None, i) for i in range(100 if big else 15)]
    items += [("large", None, i) for i in range(40 if big else 6)]

    def make(item):
        kind, g, i = item
        rng = rng_for(seed, prop, kind, i)
        evs = []

        def shape_for(n):
            nd = 1 if prop == "F01" and rng.random() < 0.7 else int(rng.integers(1, 4)) if rng.random() < 0.8 else int(rng.integers(4, 6))
            ax = int(rng.integers(0, nd))
            sh = [int(x) for x in rng.integers(1, 4, size=nd)] if nd < 4 else [int(x) for x in rng.integers(1, 3, size=nd)]
            sh[ax] = n
            if rng.random() < 0.15:
                sh = [n] * nd if n <= 6 and nd < 4 else sh
            return tuple(sh), ax - nd if rng.random() < 0.5 else ax

        if kind == "case":
            for c in g:
                n = c["n"]
                sh, ax = shape_for(n)
                f = freq_for(rng, n)
                x = signal(rng, sh, "da" if rng.random() < 0.5 else "nd", str(rng.choice(["float64", "float64", "float32", "int64"])))
                for k in c["calls"]:
                    x, ev = filter_event(rng, x, f, [k["op"]], k["lo"] / 2 * f / n, k["hi"] / 2 * f / n, ax)
                    evs.append(ev)
                    if x is None:
                        break
            return evs
        if kind == "large":         # long series, or many of them
            many = prop == "F02" or rng.random() < 0.3
            n = int(rng.integers(8, 20)) if many else int(rng.choice([64, 100, 128, 129, 150, 200]))
            sh = [int(rng.integers(20, 90))] + ([int(rng.integers(1, 5))] if rng.random() < 0.5 else []) if many else []
            ax = int(rng.integers(0, len(sh) + 1))
            sh.insert(ax, n)
            f = freq_for(rng, n)
            lo, hi = np.sort(rng.uniform(0, n * 0.6, 2))
            x = signal(rng, tuple(sh), "da" if rng.random() < 0.5 else "nd", str(rng.choice(["float64", "float32", "int32"])))
            return [filter_event(rng, x, f, [str(rng.choice(["low", "high", "pass", "block"]))], lo * f / n, hi * f / n,
                                 ax - len(sh) if rng.random() < 0.5 else ax)[1]]
        for _ in range(4):
            n = int(rng.integers(10, 41 if big else 31))
            sh, ax = shape_for(n)
            if n > 20:
                sh = tuple(s if s == n else min(s, 2) for s in sh)
            f = freq_for(rng, n)
            ops = [str(o) for o in rng.permutation(["low", "high", "pass", "block"])[:int(rng.choice([0, 1, 1, 2, 3, 4]))]]
            lo, hi = np.sort(rng.uniform(0, n * 0.6, 2))
            if kind == "near":
                ops = [str(rng.choice(["low", "high", "pass", "block"]))]
            if kind == "near" or rng.random() < 0.5:
                lo, hi = np.round(lo), np.round(hi)
                if kind == "near" or rng.random() < 0.3:      # next to a discrete frequency, not on it
                    lo, hi = (max(0.0, x + float(rng.choice([-1, 1])) * float(rng.choice([1e-2, 1e-4, 1e-7, 1e-9, 1e-10]))) for x in (lo, hi))
            if rng.random() < 0.1:
                hi = n * 3.0
            x = signal(rng, sh, "da" if rng.random() < 0.5 else "nd", str(rng.choice(["float64", "float32", "int32"])))
            _, ev = filter_event(rng, x, f, ops, lo * f / n, hi * f / n, ax)
            evs.append(ev)
        return evs
    return make, items


if __name__ == "__main__":
    driver_main(build)
