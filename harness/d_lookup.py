"""Lookup of variables by CF names: M11.  Runs in several processes with different hash seeds."""
import os
import subprocess
import sys

SEEDS = 3
if __name__ == "__main__" and "VP_PART" not in os.environ:
    sys.stdin.readline()
    prop, out, cases = sys.argv[1:4]
    ps = []
    for i in range(SEEDS):
        env = dict(os.environ, VP_PART=str(i), PYTHONHASHSEED=str(17 * i + 1), VP_PROCS="2")
        p = subprocess.Popen([sys.executable, "-B", __file__, prop, out + ".%d" % i, cases], env=env, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, text=True)
        p.stdin.write("go\n")
        p.stdin.close()
        ps.append(p)
    import json
    tot = {"sessions": 0, "events": 0, "raised": 0, "cases": 0}
    n = 0
    with open(out, "w") as f:
        for i, p in enumerate(ps):
            d = json.loads(p.stdout.read().strip().splitlines()[-1])
            if p.wait():
                sys.exit(1)
            for k in ("sessions", "events", "raised"):
                tot[k] += d[k]
            tot["cases"] = d["cases"]
            for line in open(out + ".%d" % i):
                s = json.loads(line)
                n += 1
                s["sid"] = n
                f.write(json.dumps(s) + "\n")
            os.remove(out + ".%d" % i)
    print(json.dumps(tot))
    sys.exit(0)

from common import *  # noqa: F401,F403,E402
from common import call, driver_main, np, pick, rng_for, xr  # noqa: E402
from geocat.comp.gc_util import _find_optional_var, _find_var  # noqa: E402


def codes(s):
    return [ord(c) for c in s]


def text(c):
    return "".join(chr(x) for x in c)


def find_event(vars_, coords, std, long_, names, optional=False, description=None, rng=None):
    ds = xr.Dataset()
    for n, s, l in vars_:
        at = {}
        pairs = [("standard_name", s), ("long_name", l), ("units", "m")]
        if rng is not None and rng.random() < 0.5:
            pairs.reverse()
        for k, v in pairs:
            if v:
                at[k] = v
        ds[n] = xr.DataArray([1.0, 2.0], dims=["x"], attrs=at)
    for c in coords:
        ds = ds.assign_coords({c: ("x", [5.0, 6.0])})
    order = [str(n) for n in ds.data_vars]
    by = {n: (n, s, l) for n, s, l in vars_}
    kw = {}
    if std:
        kw["standard_name"] = std
    if long_:
        kw["long_name"] = long_
    if names:
        kw["possible_names"] = list(names)
    if description:
        kw["description"] = description
    res, ev = call("_find_optional_var" if optional else "_find_var", _find_optional_var if optional else _find_var, ds, **kw)
    ev["result"] = None
    ev["args"] = {"vars": [{"n": codes(n), "s": codes(by[n][1]), "l": codes(by[n][2])} for n in order],
                  "coords": [codes(c) for c in ds.coords], "q": {"standard": codes(std), "long": codes(long_), "names": [codes(x) for x in names]},
                  "optional": optional, "found": codes(str(res)) if res is not None else [], "none": res is None,
                  "description": codes(description or "variable"), "message": codes(ev["message"])}
    return ev


POOL = ["northward_wind", "Northward_Wind", "NORTHWARD_WIND", "northward wind", "V", "v", "vs", "Vs", "meridional_wind", "Meridional wind",
        "Meridional_wind", "meridional wind", "Meridional Wind", "surface_air_pressure", "ps", "PS", "Ps", "p_surface", "P_Surface",
        "surface pressure", "Surface pressure", "Surface_Pressure", "plev", "air_pressure", "hyam", "HYAM", "hybrid A coefficient", "x1", "air_Pressure"]
ASK = [("northward_wind", "Meridional wind", ["V", "vs", "meridional_wind"]),
       ("surface_air_pressure", "Surface pressure", ["ps", "p_surface", "surface_pressure", "pressure_surface"]),
       ("", "hybrid A coefficient", ["hyam", "hya", "hybrid_A_midpoints"]), ("air_pressure", "", ["plev", "pressure_lev"])]


def random_find(rng):
    std, long_, names = ASK[int(rng.integers(0, len(ASK)))]
    if rng.random() < 0.4:
        std = "" if rng.random() < 0.5 else std
        long_ = "" if rng.random() < 0.5 else long_
        names = list(rng.permutation(names)) if rng.random() < 0.6 else []
    if rng.random() < 0.3:       # the query in another case or with other separators
        std, long_ = (str(rng.choice(POOL)) if rng.random() < 0.5 else "" for _ in range(2))
    names = [str(x) for x in names]
    if rng.random() < 0.15:
        names = [str(x) for x in rng.choice(POOL, 2, replace=False)]
    vs, used = [], set()
    for _ in range(int(rng.integers(0, 6))):
        n = str(rng.choice(POOL))
        if n in used:
            continue
        used.add(n)
        vs.append((n, str(rng.choice(POOL)) if rng.random() < 0.3 else "", str(rng.choice(POOL)) if rng.random() < 0.3 else ""))
    cs = []
    if rng.random() < 0.3:
        c = str(rng.choice(POOL))
        if c not in used:
            cs.append(c)
    return find_event(vs, cs, std, long_, names, optional=bool(rng.random() < 0.3),
                      description="the %d thing" % rng.integers(0, 99) if rng.random() < 0.5 else None, rng=rng)


def build(prop, tier, seed, cases):
    part = int(os.environ["VP_PART"])
    big = tier == "thorough"
    cs = pick(cases, 9000 if big else 1500, seed, prop, part)
    items = [("case", cs[i:i + 25], i) for i in range(0, len(cs), 25)] + [("rand", None, i) for i in range(200 if big else 30)]

    def make(item):
        kind, g, i = item
        rng = rng_for(seed, prop, kind, i, part)
        if kind == "rand":
            return [random_find(rng) for _ in range(20)]
        return [find_event([(text(v["n"]), text(v["s"]), text(v["l"])) for v in c["vars"]], ["z"] if c["coord"] else [],
                           text(c["q"]["standard"]), text(c["q"]["long"]), [text(x) for x in c["q"]["names"]],
                           optional=bool(rng.random() < 0.2), rng=rng) for c in g]
    return make, items


if __name__ == "__main__":
    driver_main(build)
