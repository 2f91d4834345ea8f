#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: decides one property on /repo's current tree.

1. TLC checks the specification itself (MC_*: invariants over its reachable
   states) and writes the behaviours it enumerated as replay cases.
2. The driver (Python of /opt/venv, importing /repo) executes those and seeded
   generated behaviours and records calls and returns.  It decides nothing.
3. TLC replays the recorded sessions against the specification (T_*), giving a
   verdict for every event: "" or the clause that the real code broke.
"""
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
from plan import PLAN  # noqa: E402


def tlc(module, cfg, env, tmp, log, xmx="6g"):
    e = dict(os.environ, **env)
    e["VP_TMP"] = tmp
    e["VP_XMX"] = xmx
    with open(log, "w") as f:
        rc = subprocess.call([os.path.join(ROOT, "tlc.sh"), module, cfg], stdout=f, stderr=subprocess.STDOUT, env=e)
    text = open(log, errors="replace").read()
    gen = dist = 0
    for line in text.splitlines():
        if " states generated, " in line and "distinct states found" in line and line[0].isdigit():
            gen, dist = int(line.split()[0].replace(",", "")), int(line.split(", ")[1].split()[0].replace(",", ""))
    return rc, gen, dist, text


def die(msg, text=""):
    print("ERROR: " + msg)
    if text:
        print(text[-3000:])
    sys.exit(2)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = PLAN[prop]
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        rc = run(prop, tier, seed, plan, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, plan, tmp, t0):
    r = subprocess.run([os.path.join(ROOT, "build.sh")], capture_output=True, text=True)
    if r.returncode:
        die("build.sh failed", r.stdout + r.stderr)
    cases, trace, verd = (os.path.join(tmp, x) for x in ("cases.ndjson", "trace.ndjson", "verdicts.ndjson"))
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), PYTHONDONTWRITEBYTECODE="1", TMPDIR=tmp)
    driver = subprocess.Popen([PY, os.path.join(HERE, plan["driver"] + ".py"), prop, trace, cases], stdin=subprocess.PIPE,
                              stdout=subprocess.PIPE, stderr=open(os.path.join(tmp, "driver.err"), "w"), text=True, env=env, cwd=tmp)
    states = trans = 0
    models = []
    for m in plan["models"]:
        cfg = m + ".cfg"
        if tier == "thorough" and os.path.exists(os.path.join(ROOT, "spec", m + "_thorough.cfg")):
            cfg = m + "_thorough.cfg"
        rc, g, d, text = tlc(m, cfg, {"VP_CASES": cases}, tmp, os.path.join(tmp, m + ".log"), "12g" if tier == "thorough" else "6g")
        if rc or "No error has been found" not in text:
            driver.kill()
            die("the specification %s does not pass its own checks" % m, text)
        states += d
        trans += g
        models.append({"module": m, "cfg": cfg, "distinct_states": d, "generated": g})
    out, _ = driver.communicate("go\n")
    if driver.returncode:
        die("driver failed", open(os.path.join(tmp, "driver.err")).read())
    dstats = json.loads(out.strip().splitlines()[-1])
    tmod = plan["trace"]
    rc, g, d, text = tlc(tmod, tmod + ".cfg", {"VP_TRACE": trace, "VP_PROP": prop, "VP_VERDICTS": verd}, tmp,
                         os.path.join(tmp, "judge.log"), "12g")
    if rc or "No error has been found" not in text or not os.path.exists(verd):
        die("the trace specification did not finish", text)
    states += d
    trans += g
    counts = collections.Counter()
    bad = []
    for line in open(verd):
        v = json.loads(line)
        counts[(v["op"], v["verdict"])] += 1
        if v["verdict"] != "":
            bad.append(v)
    judged = sum(counts.values())
    if judged != dstats["events"]:
        die("%d events judged out of %d recorded" % (judged, dstats["events"]), text)
    known = {}
    kf = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(kf):
        for line in open(kf):
            if line.strip():
                k = json.loads(line)
                if k.get("status") == "known" and k["property"] == prop:
                    known["KNOWN:" + k["id"]] = k["what"]
    for w in sorted({v["verdict"] for v in bad if v["verdict"] in known}):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[w]))
    viol = [v for v in bad if v["verdict"] not in known]
    sessions = {}
    want = {v["sid"] for v in viol[:40]}
    samples = []
    nsess = 0
    for line in open(trace):
        nsess += 1
        if len(samples) < 2 or want:
            s = json.loads(line)
            if s["sid"] in want:
                sessions[s["sid"]] = s
            if len(samples) < 2 and len(line) < 6000:
                samples.append(s["events"][0])
    rep = os.path.join(ROOT, "out", "replay")
    for v in viol[:3]:
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, "%s-%s-%d-%d.json" % (prop, tier, v["sid"], v["pos"]))
        s = sessions[v["sid"]]
        with open(path, "w") as f:
            json.dump({"property": prop, "verdict": v["verdict"], "op": v["op"], "event": v["pos"], "session": s}, f)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, ROOT)))
        e = s["events"][v["pos"] - 1]
        print("  %s: %s  (outcome %s %s)" % (v["op"], v["verdict"], e["outcome"], (e["error"] + ": " + e["message"][:200]) if e["error"] else ""))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": nsess,
                       "events_judged": judged, "replay_cases_enumerated": dstats["cases"],
                       "events_raised": dstats["raised"], "models": models,
                       "events_by_operation": {k: n for k, n in sorted(
                           {op: sum(c for (o, _), c in counts.items() if o == op) for op, _ in counts}.items())},
                       "samples": samples or [{"note": "sessions too long to quote", "ops": [k for k, _ in counts][:5]}]},
          "assumptions": plan.get("assumptions", []) + ["the recorder (harness/common.py) writes down faithfully what was passed and returned"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d states of the specification and traces, %d sessions, %d events judged, %d violations, %.1f s"
          % (prop, tier, states, nsess, judged, len(viol), time.time() - t0))
    for (op, w), n in counts.most_common():
        if w:
            print("  %5d  %s: %s" % (n, op, w))
    return 1 if viol else 0


if __name__ == "__main__":
    main()
