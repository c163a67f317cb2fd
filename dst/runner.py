"""Seeded search over simulated runs, minimisation, replay and evidence."""
import sys, os, json, time, random, hashlib, argparse, importlib, multiprocessing, subprocess, traceback, copy, gc
from . import build, core, obs

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(HERE, "replays")
CAP = {"quick": 300, "thorough": 3000}

def norm(plan):
    return json.loads(json.dumps(plan))

def make_plan(mod, seed, i, tier):
    return norm(mod.gen(random.Random("%s:%s:%d" % (seed, mod.ID, i)), i, tier))

def digest(res):
    x = hashlib.blake2b(digest_size=12)
    for e in res.trace:
        x.update(repr(e).encode())
    x.update(repr((res.end, res.crash, res.hang, res.ops)).encode())
    return x.hexdigest()

def signature(res):
    """Order of the observable steps, without times: which edge, message, stall or command came after which."""
    x = hashlib.blake2b(digest_size=8)
    last = {}
    for e in res.trace:
        k = e[1]
        if k == "s":
            if last.get(e[2], False) == e[3]: continue
            last[e[2]] = e[3]
            x.update(b"s%s%d" % (e[2].encode(), e[3]))
        elif k == "m":
            if e[3]: x.update(b"m" + e[3][:8])
        elif k == "tx":
            x.update(b"t" + e[3][:10])
        elif k in ("stall", "flt", "ovf", "show", "key"):
            x.update(k.encode())
    return x.hexdigest()

def judge(mod, plan):
    """Executes a plan and judges it. -> (ctx, res)"""
    runner = getattr(mod, "execute", None)
    res = runner(plan) if runner else build.run(plan)
    ctx = obs.Ctx(plan, res)
    if res.crash:
        ctx.bad("crash:%s@%s" % (res.crash[0], res.crash[1]), "the main loop stopped: %s %s" % (res.crash[0], res.crash[3]), res.trace[-1][0])
    elif res.hang:
        ctx.bad("hang", "the main loop does not come back (%s)" % res.hang, res.trace[-1][0])
    else:
        mod.check(ctx)
    return ctx, res

# ------------------------------------------------------------------------------------------------------------- known

def load_known(pid):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("fixed:") or l.startswith("#"): continue
            d = json.loads(l)
            if d["property"] == pid and d.get("status", "known") == "known":
                out.append(d)
    return out

# ------------------------------------------------------------------------------------------------------------ workers

def _worker(pid, seed, tier, idx, out, stop, deadline):
    try:
        mod = importlib.import_module("dst.props." + pid.lower())
        known = {k["key"] for k in load_known(pid)}
        agg = {"n": {}, "fired": {}, "runs": 0, "sim_us": 0, "ops": 0, "twice": 0, "sigs": set(), "nontriv": 0, "known": {}, "samples": []}
        gc.disable()
        for k, i in enumerate(idx):
            if stop.value or time.time() > deadline:
                break
            plan = make_plan(mod, seed, i, tier)
            ctx, res = judge(mod, plan)
            if k % 25 == 7:
                d1 = digest(res)
                if digest(judge(mod, plan)[1]) != d1:
                    raise core.HarnessError("run %d is not repeatable" % i)
                agg["twice"] += 1
            agg["runs"] += 1
            agg["sim_us"] += res.trace[-1][0] - res.t0 if res.trace else 0
            agg["ops"] += res.ops
            for a, b in ctx.n.items(): agg["n"][a] = agg["n"].get(a, 0) + b
            for a, b in res.fired.items(): agg["fired"][a] = agg["fired"].get(a, 0) + b
            s = signature(res)
            if ctx.n.get("judged", 0) > 0:
                if s not in agg["sigs"]:
                    agg["sigs"].add(s)
                    agg["nontriv"] += 1
            if i < 2:
                agg["samples"].append({"index": i, "plan": plan, "judged": dict(ctx.n), "faults_fired": dict(res.fired)})
            new = [v for v in ctx.v if v.key not in known]
            for v in ctx.v:
                if v.key in known: agg["known"][v.key] = agg["known"].get(v.key, 0) + 1
            if new:
                out.put(("viol", i, plan, [(v.key, v.msg, v.t) for v in new]))
                stop.value = 1
                break
            del ctx, res
            if k % 20 == 19: gc.collect()
        out.put(("done", agg))
    except BaseException:
        out.put(("error", traceback.format_exc()))

# ------------------------------------------------------------------------------------------------------------ shrink

def shrink(mod, plan, key, budget):
    """ddmin over the explicit parts of the plan while the same violation key persists."""
    t_end = time.time() + budget
    core.WALL_LIMIT = 15
    tries = [0]
    def fails(p):
        if time.time() > t_end: return False
        tries[0] += 1
        try:
            ctx, _ = judge(mod, norm(p))
        except Exception:
            return False
        return any(v.key == key for v in ctx.v)
    cur = copy.deepcopy(plan)
    def t_viol(p):
        ctx, _ = judge(mod, norm(p))
        ts = [v.t for v in ctx.v if v.key == key and v.t is not None]
        return min(ts) if ts else None
    def cut():
        nonlocal cur
        t = t_viol(cur)
        if t is not None:
            for extra in (30, 300, 1500):
                if t + extra < cur["dur"]:
                    p = dict(cur, dur=int(t + extra) + 1)
                    p["events"] = [e for e in p.get("events", []) if e["t"] <= p["dur"]]
                    if fails(p): cur = p; return
    def dd(path):
        nonlocal cur
        def get(p):
            for k in path: p = p[k]
            return p
        try: items = get(cur)
        except (KeyError, TypeError): return
        if not isinstance(items, list) or not items: return
        n = max(1, len(items) // 2)
        while n >= 1 and time.time() < t_end:
            i, changed = 0, False
            while i < len(items) and time.time() < t_end:
                p = copy.deepcopy(cur)
                q = get(p)
                del q[i:i + n]
                if fails(p):
                    cur = p; items = get(cur); changed = True
                else:
                    i += n
            if n == 1 and not changed: break
            n = n // 2 if n > 1 else (1 if changed else 0)
    cut()
    for _ in range(2):
        before = json.dumps(cur)
        # where the expectations were written down together with the configuration (x), this has to stay as it is
        cfg_too = "x" not in cur
        for path in (("faults",), ("events",), ("backlog",)) + ((("cfg", "inputs"), ("cfg", "labels"), ("cfg", "defs")) if cfg_too else ()):
            dd(path)
        for i in range(len(cur["cfg"].get("inputs", [])) if cfg_too else 0):
            for part in ("actions", "hold"):
                if part in cur["cfg"]["inputs"][i]: dd(("cfg", "inputs", i, part))
        cut()
        if json.dumps(cur) == before: break
    core.WALL_LIMIT = 60
    return cur, tries[0]

# --------------------------------------------------------------------------------------------------------------- main

def size(plan):
    return {"events": len(plan.get("events", [])), "faults": len(plan.get("faults", [])), "inputs": len(plan["cfg"].get("inputs", [])), "dur_ms": plan["dur"]}

def replay(pid, path, verbose):
    mod = importlib.import_module("dst.props." + pid.lower())
    d = json.load(open(path))
    plan = d["plan"] if "plan" in d else d
    ctx, res = judge(mod, norm(plan))
    if verbose:
        for e in res.trace: print(*e)
    for v in ctx.v: print(v)
    print("digest", digest(res))
    want = (d.get("violation") or {}).get("key")
    if ctx.v and (want is None or any(v.key == want for v in ctx.v)):
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--digests", action="store_true", help="print the digest of every run (determinism proof)")
    ap.add_argument("--keep-going", action="store_true", help="report every distinct violation key, do not shrink")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    pid = a.pid.upper()
    if a.tier not in CAP: a.tier = "quick"
    if a.replay:
        return replay(pid, a.replay, a.verbose)
    t0 = time.time()
    mod = importlib.import_module("dst.props." + pid.lower())
    runs = a.runs or mod.RUNS[a.tier]
    if a.digests:
        for i in range(a.start, a.start + runs):
            print(i, digest(judge(mod, make_plan(mod, a.seed, i, a.tier))[1]))
        return 0
    if a.keep_going:
        return keep_going(mod, a, runs)
    print("property=%s tier=%s seed=%d runs=%d workers=%d" % (pid, a.tier, a.seed, runs, a.workers), flush=True)
    known = load_known(pid)
    viol = None
    known_seen = {}
    # regression plans first: earlier findings (known and fixed), minimised
    reg = []
    cdir = os.path.join(HERE, "corpus", pid)
    if os.path.isdir(cdir):
        for fn in sorted(os.listdir(cdir)):
            if fn.endswith(".json"): reg.append(os.path.join(cdir, fn))
    kk = {k["key"] for k in known}
    for path in reg:
        d = json.load(open(path))
        ctx, res = judge(mod, norm(d["plan"]))
        for v in ctx.v:
            if v.key in kk: known_seen[v.key] = known_seen.get(v.key, 0) + 1
        new = [v for v in ctx.v if v.key not in kk]
        if new and viol is None:
            viol = (-1, d["plan"], [(v.key, v.msg, v.t) for v in new])
    agg = {"n": {}, "fired": {}, "runs": len(reg), "sim_us": 0, "ops": 0, "twice": 0, "sigs": set(), "nontriv": 0, "samples": []}
    if viol is None:
        ctxm = multiprocessing.get_context("fork")
        out, stop = ctxm.Queue(), ctxm.Value("i", 0)
        deadline = t0 + CAP[a.tier]
        ps = [ctxm.Process(target=_worker, args=(pid, a.seed, a.tier, range(a.start + w, a.start + runs, a.workers), out, stop, deadline)) for w in range(a.workers)]
        for p in ps: p.start()
        left, viols, errs = len(ps), [], []
        while left:
            try:
                m = out.get(timeout=5)
            except Exception:
                if not any(p.is_alive() for p in ps):
                    errs.append("a worker died"); break
                continue
            if m[0] == "viol": viols.append(m[1:])
            elif m[0] == "error": errs.append(m[1]); left -= 1; stop.value = 1
            else:
                left -= 1
                for k in ("n", "fired"):
                    for x, y in m[1][k].items(): agg[k][x] = agg[k].get(x, 0) + y
                for k in ("runs", "sim_us", "ops", "twice"): agg[k] += m[1][k]
                agg["sigs"] |= m[1]["sigs"]
                agg["samples"] += m[1]["samples"]
                for x, y in m[1]["known"].items(): known_seen[x] = known_seen.get(x, 0) + y
        for p in ps: p.join()
        if errs and not viols:
            print("HARNESS ERROR\n" + "\n".join(errs)); return 3
        if viols:
            viol = min(viols, key=lambda v: v[0])
    wall_search = time.time() - t0
    rc = 0
    if viol:
        i, plan, vs = viol
        key = vs[0][0]
        small, tries = (plan, 0) if key == "hang" else shrink(mod, plan, key, 30 if a.tier == "quick" else 120)
        ctx, res = judge(mod, norm(small))
        v = [v for v in ctx.v if v.key == key]
        if not v:
            print("HARNESS ERROR: violation %s of run %d does not repeat" % (key, i)); return 3
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s.json" % (pid, hashlib.blake2b(key.encode(), digest_size=4).hexdigest()))
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": a.seed, "index": i, "violation": {"key": key, "msg": v[0].msg, "t_ms": v[0].t},
                       "digest": digest(res), "original_size": size(plan), "minimised_size": size(small), "plan": small}, f, indent=1)
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), pid, "--replay", path], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED="77"))
        if r.returncode != 1 or ("digest " + digest(res)) not in r.stdout:
            print("HARNESS ERROR: replay in a fresh process differs\n" + r.stdout + r.stderr); return 3
        print("run %d: %s" % (i, vs[0][1]))
        print("minimised %s -> %s (%d executions)" % (size(plan), size(small), tries))
        print(repr(v[0]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    else:
        for k in known:
            if k["key"] in known_seen:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            else:
                print("note: known finding %s was not met in this run" % k["key"])
    wall = time.time() - t0
    ws = max(wall_search, 0.001)
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if viol else 0,
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS[2 if hasattr(mod, "REAL") else 0:],
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": len(agg["sigs"]),
            "rule": mod.RULE + " A run is non-trivial if the oracle judged at least one instance of the property in it; runs are distinct if "
                    "the order of their observable steps (input edges, messages taken, bytes sent, stalls, link faults, screens) differs.",
            "samples": sorted(agg["samples"], key=lambda s: s["index"])[:2],
            "runs_per_hour": int(agg["runs"] / ws * 3600), "seeds_per_hour": int(agg["runs"] / ws * 3600),
            "simulated_seconds": round(agg["sim_us"] / 1e6, 1), "seam_operations": agg["ops"],
            "faults_and_events_fired": dict(sorted(agg["fired"].items())),
            "oracle_counts": dict(sorted(agg["n"].items())),
            "probes_at_zero": [p for p in getattr(mod, "PROBES", []) if not agg["n"].get(p) and not agg["fired"].get(p)],
            "runs_executed_twice_identical": agg["twice"], "regression_plans": len(reg),
            "known_findings_met": known_seen,
            "real_code": getattr(mod, "REAL", None) or ["content/lib/pyswitch/** (all firmware code reached from pyswitch.process)", "adafruit_midi (web/htdocs/python)"],
            "stubs": getattr(mod, "STUBS", None) or ["board, digitalio, analogio, rotaryio, busio, usb_midi, displayio, display text/shapes/font, neopixel, HID, time, gc", "Kemper device and MIDI links (simulated peer)"],
        }}
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("runs=%d distinct=%d simulated=%.0fs wall=%.1fs judged=%s zero-probes=%s" % (agg["runs"], len(agg["sigs"]), agg["sim_us"] / 1e6, wall, agg["n"].get("judged", 0), ev["coverage"]["probes_at_zero"]))
    return rc

COMMON_ASSUMPTIONS = [
    "CircuitPython hardware modules behave as their stubs; the firmware runs on CPython 3.12 instead of CircuitPython",
    "simulated time advances only at seam operations, with costs given by the plan",
    "one sampled set of runs: absence of a violation is evidence, not proof",
]

def _kg(args):
    pid, seed, tier, idx = args
    mod = importlib.import_module("dst.props." + pid.lower())
    out = []
    for i in idx:
        try:
            ctx, res = judge(mod, make_plan(mod, seed, i, tier))
            out.append((i, [(v.key, v.msg, v.t) for v in ctx.v], ctx.n, res.fired))
        except BaseException:
            out.append((i, [("harness", traceback.format_exc(), None)], {}, {}))
    return out

def keep_going(mod, a, runs):
    from collections import Counter
    t = time.time()
    with multiprocessing.get_context("fork").Pool(a.workers) as p:
        res = p.map(_kg, [(mod.ID, a.seed, a.tier, range(a.start + w, a.start + runs, a.workers * 4)) for w in range(a.workers * 4)])
    first, cnt, n, fired = {}, Counter(), Counter(), Counter()
    for r in res:
        for i, vs, nn, ff in r:
            n.update(nn); fired.update(ff)
            for key, msg, t_ in vs[:1]:
                cnt[key] += 1
                if key not in first or first[key][0] > i: first[key] = (i, msg, t_)
    for k in sorted(cnt, key=lambda k: -cnt[k]):
        print("%5d  %s   first run %d @%s: %s" % (cnt[k], k, first[k][0], first[k][2], first[k][1]))
    print("counts", dict(sorted(n.items())))
    print("fired", dict(sorted(fired.items())))
    print("zero", [p for p in getattr(mod, "PROBES", []) if not n.get(p) and not fired.get(p)], "wall %.1f" % (time.time() - t))
    return 0
