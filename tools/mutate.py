#!/usr/bin/env python3
"""Mutation survey (development tool, not a check): mutates geocat.comp in scratch
copies, drops mutants that the stable tests kill, and runs the properties mapped to
the mutated function.  mutate.py gen OUT.json | mutate.py run MUTS.json RESULTS.jsonl WORKERS"""
import ast
import warnings
warnings.simplefilter("ignore")
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VER = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VER, "harness"))
from plan import PLAN  # noqa: E402
PY = "/opt/venv/bin/python"
WORK = os.environ.get("VP_WORK", "/tmp/mut")
SRC = os.environ.get("VP_SRC", "/repo")
BASE = WORK + "/base"
COMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
        ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "//",
       ast.BitAnd: "|", ast.BitOr: "&"}
OPTXT = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%",
         ast.BitAnd: "&", ast.BitOr: "|"}
NAMES = {"any": "all", "all": "any", "max": "min", "min": "max", "sin": "cos", "cos": "sin", "floor": "ceil", "ceil": "floor",
         "sum": "mean", "mean": "sum", "maximum": "minimum", "minimum": "maximum", "zeros": "ones", "log": "log10", "exp": "expm1",
         "real": "imag", "imag": "real", "argsort": "argmax", "isnan": "isfinite", "nansum": "sum", "sqrt": "square"}
FUNCS = {
    "climatologies.py": {"_calculate_center_of_time_bounds": "C02 C01 C03", "climate_anomaly": "C05 C08 C07", "month_to_season": "C06 C08 C07",
                         "calendar_average": "C01 C02 C07 C08", "climatology_average": "C03 C04 C02 C07 C08", "": "C07 C01 C02 C03 C04 C05 C06 C08"},
    "deprecated.py": {"": "L02"},
    "fourier_filters.py": {"": "F01 F02"},
    "gc_util.py": {"": "M11"},
    "gradient.py": {"": "G01"},
    "interpolation.py": {"_func_interpolate": "V03 V06", "_interpolate_mb": "V05 V03", "_pre_interp_multidim": "V07", "_post_interp_multidim": "V07",
                         "_sigma_from_hybrid": "V06", "_vertical_remap": "V05 V06 V03", "_temp_extrapolate": "V04", "_geo_height_extrapolate": "V04",
                         "_vertical_remap_extrap": "V04 V05", "pressure_at_hybrid_levels": "V01 V03", "delta_pressure_hybrid": "V02",
                         "interp_hybrid_to_pressure": "V03 V04 V05", "interp_sigma_to_hybrid": "V06", "interp_multidim": "V07", "": "V03 V07"},
    "meteorology.py": {"_dewtemp": "M05 M10", "_nws_eqn": "M02", "_heat_index": "M02", "_xheat_index": "M02", "_relhum": "M03", "_xrelhum": "M03",
                       "_relhum_ice": "M04 M10", "_relhum_water": "M04 M10", "dewtemp": "M05 M10", "heat_index": "M02 M10", "relhum": "M03 M10",
                       "relhum_ice": "M04 M10", "relhum_water": "M04 M10", "max_daylight": "M07 M10", "psychrometric_constant": "M08 M10",
                       "saturation_vapor_pressure": "M06 M10", "actual_saturation_vapor_pressure": "M06 M10",
                       "saturation_vapor_pressure_slope": "M06 M10", "_delta_pressure1D": "M01 M09", "delta_pressure": "M01 M09",
                       "zonal_meridional_psi": "M09 M11", "dpres_plev": "L02", "zonal_mpsi": "L02", "": "M10"},
    "spherical.py": {"decomposition": "S01", "recomposition": "S01", "scale_voronoi": "S02", "": "S01 S02"},
    "stats.py": {"nmse": "P02", "pearson_r": "P01", "_generate_eofs_solver": "E01 E02", "eofunc_eofs": "E01", "eofunc_pcs": "E02",
                 "eofunc": "L02", "eofunc_ts": "L02", "": "E01 P01"},
}


def gen(out):
    muts = []
    for fn in FUNCS:
        path = SRC + "/geocat/comp/" + fn
        src = open(path).read()
        tree = ast.parse(src)
        lines = src.splitlines(keepends=True)
        starts = [0]
        for ln in lines:
            starts.append(starts[-1] + len(ln.encode()))
        b = src.encode()

        def pos(l, c):
            return starts[l - 1] + c

        def span(n):
            return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

        def add(func, s, e, new, kind):
            if b[s:e].decode() != new:
                muts.append({"file": fn, "func": func, "s": s, "e": e, "new": new, "kind": kind, "line": b[:s].count(b"\n") + 1,
                             "old": b[s:e].decode()})

        def visit(node, func, top):
            if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
                if top is None:
                    top = node
                func = top.name
                body = node.body
                if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                    body = body[1:]
                for d in node.args.defaults + node.args.kw_defaults:
                    if d is not None:
                        visit(d, func, top)
                assigned = [a.arg for a in node.args.args + node.args.kwonlyargs]
                for x in body:
                    visit(x, func, top)
                for x in ast.walk(node):
                    if isinstance(x, ast.Assign) and len(x.targets) == 1:
                        t = x.targets[0]
                        if isinstance(t, ast.Name):
                            if t.id in assigned:
                                add(func, *span(x), "pass", "del-assign")
                            assigned.append(t.id)
                        else:
                            add(func, *span(x), "pass", "del-assign")
                    elif isinstance(x, ast.AugAssign) or isinstance(x, ast.Raise):
                        add(func, *span(x), "pass", "del-stmt")
                    elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                        add(func, *span(x), "pass", "del-stmt")
                return
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                s, e = span(node.left)[1], span(node.comparators[0])[0]
                txt = b[s:e].decode()
                pre, post = "", ""
                if ")" in txt:
                    pre = txt[: txt.rindex(")") + 1]
                if "(" in txt:
                    post = txt[txt.index("("):]
                for o in COMP.get(type(node.ops[0]), []):
                    add(func, s, e, pre + " " + o + " " + post, "cmp")
            if isinstance(node, ast.BinOp) and type(node.op) in BIN:
                s, e = span(node.left)[1], span(node.right)[0]
                txt = b[s:e].decode()
                o = OPTXT[type(node.op)]
                if txt.count(o) == 1:
                    add(func, s, e, txt.replace(o, BIN[type(node.op)]), "bin")
                else:
                    i = txt.find(o)
                    if i >= 0:
                        add(func, s, e, txt[:i] + BIN[type(node.op)] + txt[i + len(o):], "bin")
            if isinstance(node, ast.BoolOp):
                for l, r in zip(node.values, node.values[1:]):
                    s, e = span(l)[1], span(r)[0]
                    txt = b[s:e].decode()
                    n = txt.replace(" and ", " or ") if isinstance(node.op, ast.And) else txt.replace(" or ", " and ")
                    if "\n" in txt:
                        n = txt.replace("and", "or") if isinstance(node.op, ast.And) else txt.replace("or", "and")
                    add(func, s, e, n, "bool")
                for v in node.values:
                    add(func, *span(v), "True" if isinstance(node.op, ast.And) else "False", "boolterm")
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
                s, e = span(node)
                if not (isinstance(node.op, ast.USub) and False):
                    add(func, s, e, "(" + b[span(node.operand)[0]:span(node.operand)[1]].decode() + ")", "unary")
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, bool):
                    add(func, *span(node), str(not v), "const")
                elif isinstance(v, int):
                    add(func, *span(node), str(v + 1), "const")
                    if v > 0:
                        add(func, *span(node), str(v - 1), "const")
                elif isinstance(v, float):
                    add(func, *span(node), repr(v * 1.01), "const")
            if isinstance(node, (ast.If, ast.IfExp)):
                for t in ("True", "False"):
                    add(func, *span(node.test), t, "if")
            if isinstance(node, ast.Call):
                if isinstance(node.func, ast.Attribute) and node.func.attr in NAMES:
                    s, e = span(node.func)
                    add(func, e - len(node.func.attr), e, NAMES[node.func.attr], "name")
                for k in node.keywords:
                    if k.arg is None:
                        continue
                    s, e = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                    rest = b[e:].decode()
                    j = 0
                    while j < len(rest) and rest[j] in " \n":
                        j += 1
                    e2 = e + j + 1 if rest[j] == "," else e
                    add(func, s, e2, "", "kwarg")
            for ch in ast.iter_child_nodes(node):
                visit(ch, func, top)

        for x in tree.body:
            if isinstance(x, ast.Expr):
                continue
            visit(x, "", None)
    random.seed(5)
    seen, keep, per = set(), [], {}
    random.shuffle(muts)
    for m in muts:
        k = (m["file"], m["s"], m["e"], m["new"])
        if k in seen:
            continue
        seen.add(k)
        src = open(SRC + "/geocat/comp/" + m["file"]).read().encode()
        try:
            compile(src[:m["s"]] + m["new"].encode() + src[m["e"]:], "x", "exec")
        except SyntaxError:
            continue
        c = per.get((m["file"], m["func"]), 0)
        if c >= (12 if m["func"] in ("_rad_lat_wgs84", "_arc_lat_wgs84") else int(os.environ.get("CAP", "30"))):
            continue
        per[(m["file"], m["func"])] = c + 1
        keep.append(m)
    for i, m in enumerate(keep):
        m["id"] = i
    json.dump(keep, open(out, "w"))
    c = {}
    for m in keep:
        c[(m["file"], m["func"])] = c.get((m["file"], m["func"]), 0) + 1
    for k, v in sorted(c.items()):
        print(v, *k)
    print(len(keep))


def props(m):
    f = FUNCS[m["file"]]
    return f.get(m["func"], f[""]).split()


def drive(prop, tree, tmp, timeout=300):
    env = dict(os.environ, PYTHONPATH=tree, VERIF_TIER="quick", VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TMPDIR=tmp)
    tr = os.path.join(tmp, prop + ".ndjson")
    p = subprocess.run([PY, os.path.join(VER, "harness", PLAN[prop]["driver"] + ".py"), prop, tr, os.path.join(BASE, prop + ".cases")],
                       input="go\n", text=True, capture_output=True, env=env, cwd=tmp, timeout=timeout)
    return p.returncode, tr, p.stderr[-300:]


def base():
    os.makedirs(BASE, exist_ok=True)
    for prop in PLAN:
        if prop == "L01":
            continue
        cs = os.path.join(BASE, prop + ".cases")
        open(cs, "w").close()
        for m in PLAN[prop]["models"]:
            subprocess.run([os.path.join(VER, "tlc.sh"), m, m + ".cfg"], env=dict(os.environ, VP_CASES=cs, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.DEVNULL)
        rc, tr, err = drive(prop, SRC, BASE)
        print(prop, rc, err if rc else "", os.path.getsize(cs))


def one(m):
    tmp = tempfile.mkdtemp(dir=WORK, prefix="m%d-" % m["id"])
    try:
        shutil.copytree(SRC + "/geocat", tmp + "/geocat", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(SRC + "/test", tmp + "/test", ignore=shutil.ignore_patterns("__pycache__"))
        p = tmp + "/geocat/comp/" + m["file"]
        src = open(p, "rb").read()
        open(p, "wb").write(src[:m["s"]] + m["new"].encode() + src[m["e"]:])
        env = dict(os.environ, PYTHONPATH=tmp, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        tf = {"fourier_filters.py": ["test_fourier_filters.py"], "gc_util.py": ["test_gc_util.py", "test_meteorology.py"], "gradient.py": ["test_gradient.py"],
              "meteorology.py": ["test_meteorology.py"], "interpolation.py": ["test_meteorology.py"]}.get(m["file"], [])
        if tf:
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--noconftest"] + ["test/" + t for t in tf], cwd=tmp, env=env,
                                   capture_output=True, text=True, timeout=200)
            except subprocess.TimeoutExpired:
                return dict(m, res="tests")
            if r.returncode:
                return dict(m, res="tests")
        changed = []
        for prop in props(m):
            try:
                rc, tr, err = drive(prop, tmp, tmp)
            except subprocess.TimeoutExpired:
                return dict(m, res="timeout", prop=prop)
            if rc:
                return dict(m, res="driver-crash", prop=prop, err=err)
            with open(tr, "rb") as f, open(os.path.join(BASE, prop + ".ndjson"), "rb") as g:
                same = f.read() == g.read()
            if same:
                continue
            verd = tmp + "/verd"
            if os.path.exists(verd):
                os.remove(verd)
            t = PLAN[prop]["trace"]
            subprocess.run([os.path.join(VER, "tlc.sh"), t, t + ".cfg"], stdout=open(tmp + "/tlc.log", "w"), stderr=subprocess.STDOUT,
                           env=dict(os.environ, VP_TRACE=tr, VP_PROP=prop, VP_VERDICTS=verd, VP_TMP=tmp, VP_XMX="3g", VP_WORKERS="2"))
            if not os.path.exists(verd):
                return dict(m, res="judge-crash", prop=prop, err=open(tmp + "/tlc.log").read()[-1500:])
            bad = [json.loads(x)["verdict"] for x in open(verd) if json.loads(x)["verdict"] not in ("", "KNOWN:psi-cos-degrees")]
            if bad:
                return dict(m, res="killed", prop=prop, n=len(bad), first=bad[0])
            changed.append(prop)
            os.remove(tr)
        return dict(m, res="SURVIVED", changed=changed)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(muts, out, workers):
    ms = json.load(open(muts))
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["id"] for x in open(out)}
    ms = [m for m in ms if m["id"] not in done]
    with cf.ThreadPoolExecutor(workers) as ex, open(out, "a") as f:
        for fut in cf.as_completed([ex.submit(one, m) for m in ms]):
            f.write(json.dumps(fut.result()) + "\n")
            f.flush()


def differ(a, b, path=""):
    """the first few leaves at which two recorded values differ"""
    if type(a) is not type(b):
        return [(path, a, b)]
    if isinstance(a, dict):
        return [x for k in sorted(set(a) | set(b)) for x in differ(a.get(k), b.get(k), path + "." + k)]
    if isinstance(a, list) and len(a) == len(b):
        return [x for i in range(len(a)) for x in differ(a[i], b[i], path + "[%d]" % i)]
    return [] if a == b or repr(a) == repr(b) else [(path, a, b)]


def show(muts, ids):
    """how the traces of surviving mutants differ from those of the unchanged tree"""
    for m in json.load(open(muts)):
        if m["id"] not in ids:
            continue
        tmp = tempfile.mkdtemp(dir=WORK, prefix="w-")
        try:
            shutil.copytree(SRC + "/geocat", tmp + "/geocat", ignore=shutil.ignore_patterns("__pycache__"))
            p = tmp + "/geocat/comp/" + m["file"]
            src = open(p, "rb").read()
            open(p, "wb").write(src[:m["s"]] + m["new"].encode() + src[m["e"]:])
            print("=====", m["id"], m["file"], m["func"], m["line"], repr(m["old"]), "->", repr(m["new"]))
            print("     ", src.decode().splitlines()[m["line"] - 1].strip())
            for prop in props(m):
                rc, tr, err = drive(prop, tmp, tmp)
                if rc:
                    print(prop, "CRASH", err)
                    continue
                n = 0
                for x, y in zip(open(tr), open(os.path.join(BASE, prop + ".ndjson"))):
                    if x != y:
                        n += 1
                        if n <= 2:
                            u, v = json.loads(x), json.loads(y)
                            ds = differ(u, v)
                            print(prop, [(d[0], str(d[1])[:150], str(d[2])[:150]) for d in ds[:3]], len(ds))
                print(prop, n, "sessions differ")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def seeded(i):
    """one planted bug in a scratch copy: stable tests, demo before and after, quick check of its property"""
    d = os.path.join(VER, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(dir=WORK, prefix="s-")
    try:
        shutil.copytree(SRC + "/geocat", tmp + "/geocat", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(SRC + "/test", tmp + "/test", ignore=shutil.ignore_patterns("__pycache__"))
        env = dict(os.environ, PYTHONPATH=tmp, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        out = i + " " + prop
        demo = lambda: subprocess.run(["bash", d + "/demo.sh"], cwd=tmp, env=env, capture_output=True, text=True)
        r = demo()
        if r.returncode:
            out += " DEMO FAILS ON CLEAN TREE " + r.stderr[-300:]
        if subprocess.run(["patch", "-p1", "-s", "-i", d + "/patch.diff"], cwd=tmp).returncode:
            return out + " PATCH FAILS"
        r = demo()
        if not r.returncode:
            out += " DEMO PASSES WITH PATCH"
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--noconftest", "test/test_fourier_filters.py", "test/test_gc_util.py",
                            "test/test_gradient.py", "test/test_meteorology.py"], cwd=tmp, env=env, capture_output=True, text=True)
        if r.returncode:
            out += " TESTS FAIL " + r.stdout.strip().splitlines()[-1]
        if prop == "L01":
            return out + " (run L01 by hand)"
        rc, tr, err = drive(prop, tmp, tmp)
        if rc:
            return out + " DRIVER CRASH " + err
        same = open(tr, "rb").read() == open(os.path.join(BASE, prop + ".ndjson"), "rb").read()
        verd = tmp + "/verd"
        t = PLAN[prop]["trace"]
        subprocess.run([os.path.join(VER, "tlc.sh"), t, t + ".cfg"], stdout=open(tmp + "/tlc.log", "w"), stderr=subprocess.STDOUT,
                       env=dict(os.environ, VP_TRACE=tr, VP_PROP=prop, VP_VERDICTS=verd, VP_TMP=tmp, VP_XMX="3g", VP_WORKERS="2"))
        if not os.path.exists(verd):
            return out + " JUDGE CRASH " + open(tmp + "/tlc.log").read()[-600:]
        bad = [json.loads(x)["verdict"] for x in open(verd) if json.loads(x)["verdict"] not in ("", "KNOWN:psi-cos-degrees")]
        return out + (" caught %d: %s" % (len(bad), bad[0]) if bad else " MISSED" + (" (trace unchanged)" if same else " (trace changed)"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "seeded":
        with cf.ThreadPoolExecutor(6) as ex:
            for x in ex.map(seeded, sys.argv[2:] or sorted(os.listdir(VER + "/seeded"))):
                print(x, flush=True)
        sys.exit()
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    elif sys.argv[1] == "show":
        show(sys.argv[2], {int(x) for x in sys.argv[3:]})
    elif sys.argv[1] == "base":
        base()
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]))
