"""Runs the drivers, lets TLC judge the recorded traces and check the bounded models, writes evidence."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLADIR = "/opt/veriftools/tla"
PY = "/opt/venv/bin/python"
NSHARDS = 8
LIMITS = {"quick": float(os.environ.get("VERIF_LIMIT", "45")), "thorough": 420.0}      # seconds for the drivers; record counts are fixed per tier
HARD = {"quick": 400.0, "thorough": 840.0}

sys.path.insert(0, HARNESS)
import findings  # noqa: E402
import registry  # noqa: E402


class Machinery(Exception):
    pass


def run(cmd, timeout, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=cwd,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, False
    except subprocess.TimeoutExpired:
        with_kill(p)
        out, err = p.communicate()
        return p.returncode, out, err, True


def with_kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def compile_java(tmp):
    cls = os.path.join(tmp, "cls")
    os.makedirs(cls)
    rc, out, err, to = run(["javac", "-nowarn", "-d", cls, "-cp", f"{TLADIR}/tla2tools.jar"]
                           + sorted(glob.glob(os.path.join(SPEC, "java", "*.java"))), 120)
    if rc != 0 or to:
        raise Machinery("javac failed: " + err)
    return cls


def tlc(cls, tmp, module, cfg, env, timeout, workers=1, heap="2g", extra=()):
    meta = tempfile.mkdtemp(prefix="meta", dir=tmp)
    e = dict(os.environ)
    e.update(env)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, f"-Djava.io.tmpdir={tmp}", f"-Xmx{heap}", "-Xss16m", "-XX:TieredStopAtLevel=4", "-cp",
           f"{cls}:{TLADIR}/tla2tools.jar:{TLADIR}/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    rc, out, err, to = run(cmd, timeout, env=e, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, err, to


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def shard(job):
    """driver run + trace validation of one shard"""
    prop, tier, seed, i, cls, tmp, deadline = job
    trace = os.path.join(tmp, f"trace{i}.ndjson")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               PYTHONPATH=os.environ.get("VERIF_PYTHONPATH", ""), HOME=tmp, VERIF_SCRATCH=tmp, VERIF_HIST=os.path.join(tmp, "hist"))
    info = {"records": 0, "calls": 0, "truncated": False, "wall": 0.0, "crashes": 0}
    open(trace, "w").close()
    start, t0 = 0, time.time()
    while True:
        left = LIMITS[tier] - (time.time() - t0)
        if left <= 0 or info["crashes"] > 20:
            info["truncated"] = True
            break
        rc, out, err, to = run([PY, "-B", os.path.join(HARNESS, "worker.py"), prop, tier, str(seed), str(i),
                                str(NSHARDS), trace, str(left), str(start)], left + 60, env=env, cwd=tmp)
        if to:
            info["truncated"] = True
            break
        if rc == 0:
            r = json.loads(out.strip().splitlines()[-1])
            info["calls"] += r["calls"]
            info["truncated"] = r["truncated"]
            break
        if rc > 0:
            raise Machinery(f"driver shard {i} failed (rc {rc}): {err[-3000:]}")
        # a native solver library killed the process: leave this input out and go on behind it
        info["crashes"] += 1
        with open(trace + ".pos") as f:
            start = int(f.read()) + 1
        with open(trace) as f:
            text = f.read()
        with open(trace, "w") as f:
            f.write(text[:text.rfind("\n") + 1])
    info["wall"] = time.time() - t0
    with open(trace) as f:
        lines = f.read().split("\n")
    lines = [x for x in lines[:-1] if x]           # a killed driver may leave an incomplete last line
    info["records"] = len(lines)
    with open(trace, "w") as f:
        f.write("".join(x + "\n" for x in lines))
    if not lines:
        return info, [], (0, 0), []
    rc, out, err, to = tlc(cls, tmp, "Conf.tla", "Conf.cfg", {"TRACE": trace}, max(30, deadline - time.time()))
    fails = []
    fin = None
    for ln in out.splitlines():
        ln = ln.strip()
        if ln.startswith('"') and ln.endswith('"'):
            ln = ln[1:-1]
        if ln.startswith("FAIL|"):
            _, rid, call, text = ln.split("|", 3)
            fails.append((rid, int(call), text))
        elif ln.startswith("FINISHED|"):
            fin = ln.split("|")
    if fin is None or int(fin[1]) != len(lines) or int(fin[2]) != len(fails):
        keep = os.path.join(VERIF, "replays")
        os.makedirs(keep, exist_ok=True)
        with open(os.path.join(keep, f"{prop}-tlc-failure-{i}.txt"), "w") as f:
            f.write(out + err)
        shutil.copy(trace, os.path.join(keep, f"{prop}-tlc-failure-{i}.ndjson"))
        raise Machinery(f"TLC did not finish shard {i} (timeout={to}): {out[-3000:]} {err[-2000:]}")
    byid = {}
    if fails:
        want = {f[0] for f in fails}
        for ln in lines:
            r = json.loads(ln)
            if r["id"] in want:
                byid[r["id"]] = r
    return info, [(byid[rid], c, t) for rid, c, t in fails], stats(out), lines[:1] + lines[-1:]


def generate(cls, tmp, tier, seed, gens):
    """behaviours of the specification, drawn by TLC's simulator: one JSON line per history"""
    os.makedirs(os.path.join(tmp, "hist"))

    def one(g):
        num = g["num"] * (g.get("thorough", 8) if tier == "thorough" else 1)
        rc, out, err, to = tlc(cls, tmp, g["module"] + ".tla", g.get("cfg", g["module"]) + ".cfg", g.get("env", {}), 300,
                               extra=["-simulate", f"num={num}", "-depth", str(g["depth"]), "-seed", str(seed)])
        hist = [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"HIST|')]
        if rc != 0 or to or len(hist) < num // 2:
            raise Machinery(f"generating histories with {g['module']} failed: {out[-3000:]} {err[-1000:]}")
        with open(os.path.join(tmp, "hist", g["module"]), "w") as f:
            f.write("".join(json.dumps(h) + "\n" for h in hist))
        return len(hist)
    with cf.ThreadPoolExecutor(4) as ex:
        return sum(ex.map(one, gens))


def model(job):
    prop, tier, cls, tmp, spec, deadline = job
    env = dict({"DEPTH": tier, "GROUP": ""}, **spec.get("env", {}))
    rc, out, err, to = tlc(cls, tmp, spec["module"] + ".tla", spec["cfg"] + ".cfg", env,
                           min(spec.get("timeout", 600), max(30, deadline - time.time())),
                           workers=spec.get("workers", 4), heap=spec.get("heap", "4g"), extra=spec.get("extra", ()))
    ok = "No error has been found" in out
    viol = re.search(r"(Invariant|Action property|Temporal properties?|property) .*violated|is violated|Assumption.*is false|Postcondition.* is violated", out)
    if not ok and not viol:
        raise Machinery(f"model {spec['cfg']}: TLC failed (timeout={to}): {out[-3000:]} {err[-2000:]}")
    return spec, ok, stats(out), out


def load_known():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)


def matches(entry, rec, call, text):
    """an entry identifies a finding by property, call site (a predicate of findings.py on the recorded
    input and outcome) or exact recorded input, and clause text"""
    if entry.get("status") != "known" or entry["clause"] not in text:
        return False
    if "call_site" in entry:
        return getattr(findings, entry["predicate"])(rec, call, text)
    return all(rec.get(k) == v for k, v in entry["input"].items())


def main(argv):
    prop, tier = argv[0], argv[1]
    triage = "--triage" in argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    deadline = t0 + HARD[tier]
    spec = registry.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return _main(prop, tier, triage, seed, t0, deadline, spec, tmp)
    except Machinery as e:
        print(f"MACHINERY FAILURE property={prop}: {e}")
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(prop, tier, triage, seed, t0, deadline, spec, tmp):
    cls = compile_java(tmp)
    known = [e for e in load_known() if e.get("property") == prop]
    models = [m for m in spec.get("models", []) if tier in m.get("tiers", ("quick", "thorough"))]
    generated = generate(cls, tmp, tier, seed, spec.get("gen", []))
    with cf.ThreadPoolExecutor(NSHARDS + 4) as ex:
        futs = [ex.submit(shard, (prop, tier, seed, i, cls, tmp, deadline)) for i in range(NSHARDS)]
        mfuts = [ex.submit(model, (prop, tier, cls, tmp, m, deadline)) for m in models]
        res = [f.result() for f in futs]
        mres = [f.result() for f in mfuts]
    states = sum(r[2][1] for r in res) + sum(m[2][1] for m in mres)
    trans = sum(r[2][0] for r in res) + sum(m[2][0] for m in mres)
    records = sum(r[0]["records"] for r in res)
    calls = sum(r[0]["calls"] for r in res)
    fails = [f for r in res for f in r[1]]
    if triage:
        groups = {}
        first = {}
        for rec, c, t in fails:
            first[rec["id"]] = min(c, first.get(rec["id"], c))
        for rec, c, t in fails:
            if "--first" in sys.argv and c != first[rec["id"]]:
                continue
            call = rec["calls"][c - 1] if rec.get("calls") and 0 < c <= len(rec["calls"]) else {}
            groups.setdefault((rec.get("name", rec["kind"]), (call.get("alg", call.get("fn", "")) if isinstance(call, dict) else str(call)[:20]), t[:70]), []).append((rec, call))
        for g, v in sorted(groups.items(), key=lambda x: str(x[0]))[:14]:
            v.sort(key=lambda rc: len(json.dumps(rc[0])))
            r = dict(v[0][0])
            r.pop("calls", None)
            print(len(v), g, "\n     ", json.dumps({k: r[k] for k in r if k not in ("rule", "kind")})[:400], "\n      call:", json.dumps(v[0][1])[:300])
    new, seen_known = [], {}
    for rec, c, t in fails:
        e = next((e for e in known if matches(e, rec, c, t)), None)
        if e:
            seen_known[e["id"]] = e
        else:
            new.append((rec, c, t))
    out_lines = []
    for e in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for old in glob.glob(os.path.join(VERIF, "replays", f"{prop}-*.json")):
        os.remove(old)
    byrec = {}
    for rec, c, t in new:
        byrec.setdefault(rec["id"], (rec, []))[1].append({"call": c, "clause": t})
    shown = sorted(byrec.values(), key=lambda rc: len(json.dumps(rc[0])))[:3]
    for n, (rec, cl) in enumerate(shown):
        path = os.path.join(VERIF, "replays", f"{prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "failed_clauses": cl, "record": rec}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        for x in cl[:3]:
            print(f"   call {x['call']}: {x['clause']}")
    nviol = len(byrec)
    for sp, ok, st, out in mres:
        if not ok:
            path = os.path.join(VERIF, "replays", f"{prop}-model-{sp['cfg']}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "model": sp["cfg"], "tlc": out[-20000:]}, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            nviol += 1
    samples = [json.loads(x) for r in res[:2] for x in r[3]][:3]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": records,
            "calls_of_the_code_under_test": calls, "driver_shards": NSHARDS,
            "shards_cut_by_time_limit": sum(1 for r in res if r[0]["truncated"]),
            "inputs_left_out_because_a_solver_library_aborted": sum(r[0]["crashes"] for r in res),
            "conformance_states": sum(r[2][1] for r in res),
            "models": [{"model": sp["cfg"] + (" " + sp["env"]["GROUP"] if "GROUP" in sp.get("env", {}) else ""), "distinct_states": st[1], "states_generated": st[0], "exhaustive": sp.get("exhaustive", True)}
                       for sp, ok, st, out in mres],
            "histories_generated_from_the_specification": generated,
            "known_findings_seen": len(seen_known), "samples": samples,
        },
        "assumptions": spec.get("assumptions", []) + [
            "results of the code outside the generated elections and histories are not observed",
            "TLC, its Java overrides of module Rationals (cross-checked by RationalsTest) and the JSON module are trusted"],
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {records} records, {calls} calls, {states} states, {trans} transitions, "
          f"{nviol} violations, {ev['wall_s']} s")
    return 1 if nviol else 0
