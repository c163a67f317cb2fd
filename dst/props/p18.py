"""P18: pedal values are in range, rate limited, and settle on the final position."""
from .. import gen as G, kemper as K
from ..gen import fn
from . import p16
from .p16 import enabled

ID = "P18"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("One to three pedals with up to three actions each (7 and 14 bit, own ranges, step counts, frame rates, raw thresholds, transfer functions, auto calibration with any window, enabled by a received value); "
        "rests with noise, sweeps of any speed, jumps, end stops; stalls, floods of messages, slow displays.")
PROBES = ["sent", "settled", "limited", "zero", "full", "below_threshold", "same_value", "calibrating", "calibrated", "widened", "cal_min", "cal_max", "curve", "nrpn", "disabled", "enabled_again", "odd_steps", "noise", "stall", "shown"]

def gen(r, i, tier):
    p = G.base(r, r.choice([3000, 5000, 8000]), peer=False)
    cfg = p["cfg"]
    port = cfg["routings"][0][0]
    x = p["x"] = {"pot": []}
    p16.conds(p, r, x, port, cfg)
    lab = G.label(p, "L0", cb=fn("ParameterDisplayCallback", mapping=fn("ClientParameterMapping.get", name="shown", response=fn("ControlChange", 100, 0)))) if r.random() < 0.3 else None
    cfg["adc0"] = {}
    n = 0
    for k in range(r.randrange(1, 4)):
        pin = G.APINS[k]
        acts, ex = [], []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            arg = {}
            nrpn = r.random() < 0.4
            a = {"nrpn": nrpn, "n": n if nrpn else 70 + n, "max": 16383 if nrpn else 127, "fps": 24, "steps": 128, "raw": 1024, "cal": None, "curve": False, "cond": None, "lab": False}
            n += 1
            m = fn("ClientParameterMapping.get", name="p%d" % n, set=fn("KemperNRPNMessage", 1, 0x60, a["n"]) if nrpn else fn("ControlChange", a["n"], 0))
            if r.random() < 0.5: a["fps"] = r.choice([5, 10, 24, 50, 100, 7.5]); arg["max_frame_rate"] = a["fps"]
            if r.random() < 0.5: a["steps"] = r.choice([2, 16, 64, 100, 127, 200, 1000, 16384]); arg["num_steps"] = a["steps"]
            if r.random() < 0.3: a["max"] = r.choice([1, 10, 63, 100, 126] + ([1000, 8191, 16382] if nrpn else [])); arg["max_value"] = a["max"]
            if r.random() < 0.4: a["raw"] = r.choice([None, 0, 100, 5000, 20000]); arg["min_raw_value"] = a["raw"]
            if r.random() < 0.4:
                a["cal"] = 0.25; arg["auto_calibrate"] = True
                if r.random() < 0.6: a["cal"] = r.choice([0, 0.01, 0.1, 0.5, 0.9]); arg["cal_min_window"] = a["cal"]
            if r.random() < 0.15: a["curve"] = True; arg["transfer_function"] = "$curve"
            if x["conds"] and r.random() < 0.4:
                a["cond"] = r.randrange(len(x["conds"])); arg["enable_callback"] = "$_co%d" % a["cond"]
            if lab and r.random() < 0.6:
                a["lab"] = True; arg["change_display"] = lab
                if r.random() < 0.4: arg["convert_value"] = "$conv"
            acts.append(a); ex.append(fn("AnalogAction", m, **arg))
        cfg["inputs"].append({"type": "pot", "pin": pin, "actions": ex})
        x["pot"].append({"pin": pin, "acts": acts})
        # motion
        lo, hi = r.choice([(0, 65535), (0, 65535), (300, 65200), (10000, 50000), (20000, 30000), (0, 1000)])
        v = r.randrange(lo, hi + 1)
        cfg["adc0"][pin] = v
        t = r.choice([50, 300, 1000])
        def put(t, v): p["events"].append({"t": round(t, 3), "k": "adc", "pin": pin, "v": min(65535, max(0, int(v)))})
        while t < p["dur"] - 400:
            q = r.random()
            if q < 0.35:                                        # sweep
                to = r.choice([lo, hi, r.randrange(lo, hi + 1)]); d = r.choice([20, 100, 400, 1500]); st = max(1, d // r.choice([3, 10, 40]))
                for z in range(0, d, st):
                    put(t + z + r.random(), v + (to - v) * z / d)
                t += d; v = to; put(t, v)
            elif q < 0.6:
                v = r.choice([lo, hi, r.randrange(lo, hi + 1)]); put(t, v)
            elif q < 0.8:                                       # noise
                w = r.choice([10, 200, 600])
                for _ in range(r.randrange(2, 15)):
                    put(t, v + r.randrange(-w, w + 1)); t += r.choice([1, 5, 30]) + r.random()
                put(t, v)
            else:                                               # there and back
                for z in (r.choice([lo, hi]), v): put(t, z); t += r.choice([1, 10, 40, 45, 100]) + r.random()
            t += r.choice([r.randrange(1, 60), r.randrange(40, 400), r.randrange(300, 1200)])
            if r.random() < 0.08: lo, hi = max(0, lo - 3000), min(65535, hi + 4000)
    for _ in range(r.choice([0, 4])): p["events"].append({"t": r.randrange(300, p["dur"]), "k": "raw", "port": port, "hex": K.cc(100, r.randrange(128)).hex()})
    r.shuffle(cfg["inputs"])
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 5), 10, 400)
    if r.random() < 0.3:
        for _ in range(r.choice([20, 60])):
            p["events"].append({"t": r.randrange(300, p["dur"]), "k": "raw", "port": port, "hex": (K.cc(119, r.randrange(128)) * r.choice([1, 5, 12])).hex()})
    return G.done(p)

def scale(a, raw):
    """Values that are right for a raw value (two if it lies exactly between two steps)"""
    if a["curve"]: return {raw // 1024 * 2 + 1}
    if a["raw"] is not None and raw < a["raw"]: return {0}
    q, rem = divmod(raw * a["steps"], 65536)
    c = {q} if rem < 32768 else {q + 1} if rem > 32768 else {q, q + 1}
    return {min(a["max"], max(0, z * (a["max"] + 1) // a["steps"])) for z in c}

def outcomes(a, st, raw):
    """State after processing a raw value -> (new calibration, set of values or None)"""
    if a["cal"] is None: return None, scale(a, raw)
    lo, hi = (raw, raw) if st is None else (min(st[0], raw), max(st[1], raw))
    if hi - lo < int(65536 * a["cal"]): return (lo, hi), None
    if hi == lo: return (lo, hi), scale(a, 0)
    z = (raw - lo) * 65536 / (hi - lo)
    vals = set()
    for w in (int(z), int(z + 0.5), int(z - 0.001), int(z + 0.001)): vals |= scale(a, min(65535, max(0, w)))
    if raw == hi: vals = scale(a, 65535)
    if raw == lo: vals = scale(a, 0)
    return (lo, hi), vals

def check(ctx):
    res, plan = ctx.res, ctx.plan
    tr, x, cfg = res.trace, plan["x"], plan["cfg"]
    port = cfg["routings"][0][0]
    pots = {}
    keys = {}
    for q in x["pot"]:
        pots[q["pin"]] = []
        for a in q["acts"]:
            # possible states: (time of the last frame, calibration, last value)
            s = {"a": a, "st": {(None, None, None)}, "k": ("val", 0x60, a["n"]) if a["nrpn"] else ("cc", a["n"]), "en": None, "last": None}
            pots[q["pin"]].append(s); keys[s["k"]] = s
            ctx.count("nrpn", a["nrpn"]); ctx.count("curve", a["curve"]); ctx.count("odd_steps", 65536 % a["steps"] != 0); ctx.count("shown", a["lab"])
    ctx.count("stall", any(e[1] == "stall" for e in tr))
    cv = [None] * len(x["conds"])
    cur, skip, started = None, set(), False
    def close(t1):
        nonlocal cur
        if not cur: return
        pin, t, raw, got = cur
        cur = None
        low = t
        for s in pots[pin]:
            a = s["a"]
            if not enabled(x, cv, a):
                ctx.count("disabled"); s["en"] = False
                continue
            if s["en"] is False: ctx.count("enabled_again")
            s["en"] = True
            I = int(1000 / a["fps"])
            v, up = None, t1
            if got and got[0][0] is s: _, v, up = got.pop(0)
            elif got: up = got[0][2]
            new = set()
            why = None
            # the time is read somewhere between reading the pedal and the next thing that happens
            now = range((low - 1) // 1000, up // 1000 + 1)
            if len(now) > 50: now = (now[0], now[1], now[-2], now[-1])
            low = up if v is not None else low
            for tl, cal, last in s["st"]:
                for ms in now:
                    if tl is not None and ms - tl <= I:
                        if v is None: new.add((tl, cal, last))
                        else: why = why or ("rate", "a frame takes %d ms, the last one was %d ms ago" % (I, ms - tl))
                        continue
                    c2, vals = outcomes(a, cal, raw)
                    if vals is None:
                        if v is None: new.add((ms, c2, last))
                        else: why = ("window", "travel %s covers less than %d" % (c2, int(65536 * a["cal"])))
                        continue
                    if v is not None:
                        if v in vals and v != last: new.add((ms, c2, v))
                        else: why = ("value", "position %d (travel %s) is %s, last sent %s" % (raw, c2, sorted(vals), last))
                    elif last in vals: new.add((ms, c2, last))
                    else: why = ("lost", "position %d (travel %s) is %s, last sent %s, last frame %s" % (raw, c2, sorted(vals), last, "never" if tl is None else "%d ms ago" % (ms - tl)))
            if not new:
                ctx.bad(why[0], "pedal %s at %d, %s sent for %s: %s" % (pin, raw, v, s["k"], why[1]), t)
                return True
            # (times are only told apart as far as they matter)
            if len(new) > 200: return True
            s["st"] = new
            ctx.count("noise", v is None and s["last"] is not None and raw != s["last"])
            fr = all(q[0] is not None and q[0] >= (t - 1) // 1000 for q in new)
            if v is not None:
                ctx.count("judged"); ctx.count("sent"); ctx.count("zero", v == 0); ctx.count("full", v == a["max"])
                ctx.count("below_threshold", bool(a["raw"]) and raw < a["raw"])
                if a["cal"] is not None: ctx.count("calibrated"); ctx.count("cal_min", any(q[1] and raw == q[1][0] for q in new)); ctx.count("cal_max", any(q[1] and raw == q[1][1] for q in new)); ctx.count("widened", fr and any(raw in q[1] for q in new))
            else:
                ctx.count("limited", s["last"] != raw and not fr); ctx.count("settled", s["last"] == raw and fr)
                ctx.count("same_value", s["last"] != raw and fr)
                ctx.count("calibrating", a["cal"] is not None and all(q[2] is None for q in new))
            s["last"] = raw
        if got:
            ctx.bad("extra", "pedal %s at %d: %s sent too much" % (pin, raw, [(g[0]["k"], g[1]) for g in got]), t)
            return True
    for e in tr:
        k = e[1]
        if k in ("s", "a", "e", "m"):
            if close(e[0]): break
            if k == "a":
                if e[2] not in skip: skip.add(e[2]); continue       # the first one is read while starting
                started = True
                cur = [e[2], e[0], e[3], []]
            elif k == "s": started = True
            elif k == "m" and e[3] and e[2] == port and started:
                d = K.decode(e[3])
                if d[0] == "cc":
                    for n, c in enumerate(x["conds"]):
                        if c["n"] == d[1]: cv[n] = d[2]
        elif k == "tx":
            for m in K.split(e[3]):
                d = K.decode(m)
                q = d[:2] if d[0] == "cc" else d[:3]
                if q in keys and d[0] in ("cc", "val"):
                    if cur: cur[3].append((keys[q], d[-1], e[0]))
                    else: ctx.bad("stray", "%s sent although no pedal was read" % (d,), e[0])
                else: ctx.bad("unknown", "%s sent" % (d,), e[0])
