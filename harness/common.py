"""Recording of calls into the code under test, as sessions of events (ndjson).

The recorder decides nothing: it runs the call, writes down the arguments, the
result (or the exception) and the warnings; the TLA+ specification judges them.
"""
import hashlib
import json
import os
import random
import signal
import sys
import warnings

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True

import cftime  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
import xarray as xr  # noqa: E402

import geocat.comp as gc  # noqa: E402,F401


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


# ---------------------------------------------------------------- encoding
def stamp(t):
    if isinstance(t, (np.datetime64,)):
        if np.isnat(t):
            return "NaT"
        t = pd.Timestamp(t)
    return [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond]


def enc_values(a):
    """(dtype name, flat list) of an array."""
    a = np.asarray(a)
    if not a.dtype.isnative:
        a = a.astype(a.dtype.newbyteorder("="))
    if a.dtype.kind == "M":
        return "datetime64", [stamp(t) for t in a.ravel()]
    if a.dtype.kind == "O":
        flat = list(a.ravel())
        if flat and all(isinstance(t, cftime.datetime) for t in flat):
            cals = {t.calendar for t in flat}
            return "cftime:" + "/".join(sorted(cals)), [stamp(t) for t in flat]
        return "object", [enc_scalar(x) for x in flat]
    if a.dtype.kind in "US":
        return "str", [str(x) for x in a.ravel()]
    if a.dtype.kind == "b":
        return "bool", a.ravel().tolist()
    if a.dtype.kind == "m":
        return "timedelta64", [str(x) for x in a.ravel()]
    if a.dtype.kind == "c":
        out = []
        for z in a.ravel().tolist():
            out.append([z.real, z.imag])
        return str(a.dtype), out
    if a.dtype.kind == "f" and a.dtype.itemsize != 8:
        return str(a.dtype), a.astype("float64").ravel().tolist()
    return str(a.dtype), a.ravel().tolist()


def enc_scalar(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (cftime.datetime, np.datetime64, pd.Timestamp)):
        return stamp(x)
    if x is None:
        return None
    return str(x)


def enc_attrs(at):
    out = []
    for k in sorted(at, key=str):
        v = at[k]
        e = {"n": str(k), "s": repr(v)}
        if isinstance(v, (np.ndarray, xr.DataArray)):
            e["x"] = np.asarray(v, dtype=float).ravel().tolist()
            e["s"] = f"{type(v).__name__}{np.shape(v)}{np.asarray(v).tolist()!r}"
        elif isinstance(v, (int, float, np.floating, np.integer)) and not isinstance(v, bool):
            e["x"] = [float(v)]
        out.append(e)
    return out


def is_chunked(a):
    return getattr(a, "chunks", None) is not None and a.chunks is not None


def enc_da(a, coords=True):
    ch = is_chunked(a)
    dt, v = enc_values(a.values)
    d = {"k": "da", "dims": [str(x) for x in a.dims], "shape": list(a.shape), "dtype": dt, "v": v,
         "name": str(a.name) if a.name is not None else "None", "attrs": enc_attrs(a.attrs), "dask": bool(ch)}
    if coords:
        cs = []
        for n in sorted(a.coords, key=str):
            c = a.coords[n]
            cdt, cv = enc_values(c.values)
            cs.append({"n": str(n), "dims": [str(x) for x in c.dims], "shape": list(c.shape), "dtype": cdt, "v": cv,
                       "attrs": enc_attrs(c.attrs)})
        d["coords"] = cs
    return d


def enc(x):
    if x is None:
        return None
    if isinstance(x, xr.DataArray):
        return enc_da(x)
    if isinstance(x, xr.Dataset):
        return {"k": "ds", "vars": [enc_da(x[n]) for n in x.data_vars], "names": [str(n) for n in x.data_vars],
                "attrs": enc_attrs(x.attrs)}
    if isinstance(x, (bool, np.bool_, str)):
        return x if isinstance(x, str) else bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return {"k": "num", "type": type(x).__name__, "dtype": str(np.asarray(x).dtype), "shape": [], "v": [enc_scalar(x)]}
    if isinstance(x, np.ndarray):
        dt, v = enc_values(x)
        return {"k": "nd", "shape": list(x.shape), "dtype": dt, "v": v}
    if isinstance(x, (list, tuple)):
        try:
            a = np.asarray(x)
        except ValueError:
            a = None
        if a is not None and a.dtype.kind in "biuf":
            dt, v = enc_values(a)
            return {"k": "list", "shape": list(a.shape), "dtype": dt, "v": v}
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if hasattr(x, "dask") and hasattr(x, "compute"):
        e = enc(np.asarray(x.compute()))
        e["k"] = "dask"
        return e
    return {"k": "other", "type": type(x).__name__, "s": repr(x)[:200]}


def fingerprint(x):
    """Digest of everything observable of an object: type, values, dtype, coords, attrs, name."""
    def walk(o):
        if isinstance(o, xr.Dataset):
            return ["ds", [[str(n), walk(o[n])] for n in o.variables], enc_attrs(o.attrs), {str(k): v for k, v in o.sizes.items()}]
        if isinstance(o, xr.DataArray):
            e = enc_da(o)
            e["idx"] = sorted(str(k) for k in o.indexes)
            e["type"] = type(o).__name__
            return e
        if isinstance(o, (list, tuple)):
            return [type(o).__name__, [walk(y) for y in o]]
        if isinstance(o, dict):
            return ["dict", [[str(k), walk(v)] for k, v in o.items()]]
        return [type(o).__name__, enc(o)]
    return hashlib.sha1(json.dumps(walk(x), default=str).encode()).hexdigest()[:16]


def amplitude(rng, dtype="float64"):
    """A factor for the values of a field, its unit; a power of two, which rounds nothing."""
    if not str(dtype).startswith("float") or rng.random() < 0.5:
        return 1.0
    return 2.0 ** int(rng.choice([-23, -13, 10, 20] if str(dtype) != "float64" else [-50, -30, -20, -10, 12, 20, 40, 110]))


# ---------------------------------------------------------------- memory layouts
SWAP = True          # byte order, too
LAYOUT = None        # random generator of the session, or None: pass the arrays as they are


def relayout_array(rng, a):
    """The same values (and dtype, up to byte order) laid out in memory in another way."""
    if a.ndim == 0 or a.size == 0 or a.dtype.kind not in "iuf":
        return a
    k = int(rng.choice([0, 0, 1, 2, 3, 3, 4, 5] if SWAP else [0, 0, 1, 2, 3, 3, 4]))
    if k == 0:
        return np.asfortranarray(a).copy(order="F")
    if k == 1:
        ax = int(rng.integers(0, a.ndim))
        return np.repeat(a, 2, axis=ax)[(slice(None),) * ax + (slice(None, None, 2),)]
    if k == 2:
        ax = int(rng.integers(0, a.ndim))
        return np.flip(np.flip(a, ax).copy(), ax)
    if k == 3:
        p = [int(x) for x in rng.permutation(a.ndim)]
        return np.ascontiguousarray(a.transpose(p)).transpose(np.argsort(p))
    if k == 4:
        b = a.copy()
        b.flags.writeable = False
        return b
    return a.astype(a.dtype.newbyteorder(">"))


def relayout(rng, x):
    if rng.random() < 0.35:
        return x
    if type(x) is np.ndarray:
        return relayout_array(rng, x)
    if isinstance(x, xr.DataArray) and type(x.variable._data) is np.ndarray:
        return x.copy(data=relayout_array(rng, x.variable._data))
    if isinstance(x, xr.Dataset):
        return x.assign({n: x[n].copy(data=relayout_array(rng, x[n].variable._data)) for n in x.data_vars
                         if type(x[n].variable._data) is np.ndarray})
    return x


def laid(*xs):
    """Arguments of a call that is wrapped in another function."""
    xs = [relayout(LAYOUT, x) if LAYOUT is not None else x for x in xs]
    return xs[0] if len(xs) == 1 else xs


# ---------------------------------------------------------------- recording
def call(op, fn, *a, limit=150, **kw):
    """Runs fn(*a, **kw); returns (result, event dict without args)."""
    ev = {"op": op, "outcome": "ok", "error": "", "message": "", "result": None, "warnings": []}
    res = None
    if LAYOUT is not None:
        a = tuple(relayout(LAYOUT, x) for x in a)
        kw = {k: relayout(LAYOUT, x) for k, x in kw.items()}
    signal.signal(signal.SIGALRM, _alarm)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        so = sys.stdout
        try:
            sys.stdout = open(os.devnull, "w")
            signal.alarm(limit)
            res = fn(*a, **kw)
            try:
                ev["result"] = enc(res)
            except Timeout:
                raise
            except Exception as e:  # computing a lazy result may raise
                ev.update(outcome="raise", error=type(e).__name__, message=str(e)[:300], result=None)
        except Timeout:
            ev.update(outcome="raise", error="TIMEOUT")
        except Exception as e:
            ev.update(outcome="raise", error=type(e).__name__, message=str(e)[:300])
        finally:
            signal.alarm(0)
            sys.stdout.close()
            sys.stdout = so
    ev["warnings"] = [{"cat": w.category.__name__, "msg": str(w.message)[:300]} for w in ws]
    return res, ev


class Recorder:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0
        self.events = 0
        self.raised = 0

    def session(self, events, **extra):
        self.n += 1
        self.events += len(events)
        self.raised += sum(e["outcome"] == "raise" for e in events)
        self.f.write(json.dumps({"sid": self.n, **extra, "events": events}) + "\n")

    def close(self):
        self.f.close()


def rng_for(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def in_order(r, order):
    """The pieces of r, one after another in the given order, each with nothing but what it needs."""
    from dask._task_spec import convert_legacy_graph
    from dask.core import flatten
    if isinstance(r, xr.Dataset):
        return r.assign({v: in_order(r[v], order) for v in r.data_vars})
    x = getattr(r, "data", None)
    if not hasattr(x, "__dask_graph__"):
        return r
    graph = convert_legacy_graph(dict(x.__dask_graph__()))
    nested = x.__dask_keys__()
    keys = list(flatten(nested))
    order = [i - 1 for i in order if i <= len(keys)]
    order += [i for i in range(len(keys)) if i not in order]
    done = {}

    def need(k):
        if k not in done:
            deps = sorted(graph[k].dependencies, key=str, reverse=order[0] > 0)
            for d in deps:
                need(d)
            done[k] = graph[k]({d: done[d] for d in deps})

    def put(n):
        return [put(m) for m in n] if isinstance(n, list) else done[n]
    for i in order:
        need(keys[i])
    return r.copy(data=np.block(put(nested))).compute(scheduler="synchronous")


def pick(cases, n, seed, *parts):
    """n cases of the enumerated ones: a seeded sample (all of them when n is enough)."""
    cases = sorted(cases, key=lambda c: json.dumps(c, sort_keys=True))
    if n is None or n >= len(cases):
        return cases
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return random.Random(h).sample(cases, n)


def read_cases(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


# ---------------------------------------------------------------- parallel driver
_JOB = {}


def _job(i):
    global LAYOUT
    rng = rng_for(_JOB["seed"], "layout", i)
    LAYOUT = rng if _JOB["layouts"] and rng.random() < 0.5 else None
    return _JOB["make"](_JOB["items"][i])


def run_sessions(make, items, out, procs=None, seed=1, layouts=True):
    """make(item) -> list of events (or list of lists); one session each, written in order."""
    import multiprocessing as mp

    procs = procs or int(os.environ.get("VP_PROCS", "8"))
    rec = Recorder(out)
    _JOB.update(make=make, items=items, seed=seed, layouts=layouts)      # inherited by the forked workers
    if procs == 1 or len(items) < 4:
        results = map(_job, range(len(items)))
        for evs in results:
            rec.session(evs)
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(procs) as pool:
            for evs in pool.imap(_job, range(len(items)), chunksize=max(1, len(items) // (procs * 6))):
                rec.session(evs)
    rec.close()
    return rec


def driver_main(build, layouts=True, swap=True):
    """build(prop, tier, seed, cases) -> (make, items).  Waits for a line on stdin before reading cases."""
    prop, out, cases = sys.argv[1], sys.argv[2], sys.argv[3]
    tier, seed = os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))
    import dask
    dask.config.set(scheduler="synchronous")
    global SWAP
    SWAP = swap
    sys.stdin.readline()
    cs = read_cases(cases) if os.path.exists(cases) else []
    from plan import ROUNDS
    rounds = int(os.environ.get("VP_ROUNDS", "0")) or (ROUNDS.get(prop, 1) if tier == "quick" else 1)
    parts = [build(prop, tier, seed + 7919 * k, cs) for k in range(rounds)]
    items = [(k, x) for k, (_, xs) in enumerate(parts) for x in xs]
    rec = run_sessions(lambda it: parts[it[0]][0](it[1]), items, out, seed=seed, layouts=layouts)
    print(json.dumps({"sessions": rec.n, "events": rec.events, "raised": rec.raised, "cases": len(cs)}))
