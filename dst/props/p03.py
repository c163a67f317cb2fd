"""P03: polling discipline."""
from .. import gen as G, cat, kemper as K
from ..gen import fn
from ..obs import tx_messages, takes

ID = "P03"
RUNS = {"quick": 1600, "thorough": 40000}
RULE = ("Random sets of polled actions and labels (effect slots, generic parameters, rig/amp/cabinet names) with several users per parameter, with and without the "
        "bidirectional protocol; answers lost, late, duplicated, corrupted, muted per parameter or unsolicited; rig changes, presses, stalls; update interval and request lifetime varied.")
PROBES = ["answered", "lost_retry", "name_requests", "name_retry", "drop_d2c", "delay_d2c", "dup_d2c", "drop_c2d", "mute_param", "stall", "bidir_runs", "late_answer", "unsolicited"]

def gen(r, i, tier):
    p = G.base(r, r.choice([8000, 12000, 20000]))
    c = p["cfg"]["config"]
    c.pop("maxConsecutiveMidiMessages", None)
    if r.random() < 0.4: c["maxRequestLifetimeMillis"] = r.choice([500, 1000, 1500, 2000, 3000])
    if r.random() < 0.35: p["cfg"]["bidir"] = {"lease": 30, "tuner": True}
    dur, port = p["dur"], p["peer"]["port"]
    nl = 0
    gens = ["$MAPPING_RIG_VOLUME()", "$MAPPING_AMP_STATE()", "$MAPPING_AMP_GAIN()", "$MAPPING_CABINET_STATE()", "$MAPPING_MAIN_VOLUME()", "$MAPPING_MORPH_BUTTON()"]
    slots = G.SLOT[:8]
    pool = r.sample(slots, r.randrange(1, 4)) + r.sample(gens, r.randrange(1, 4))
    for k in range(r.randrange(1, 6)):
        acts = []
        for _ in range(r.choice([1, 1, 2])):
            x = r.choice(pool)
            if "SLOT" in x: acts.append(fn(r.choice(["EFFECT_STATE", "EFFECT_STATE_EXT"]), x))
            else: acts.append(fn("BINARY_SWITCH", mapping=x, mode="$PushButtonAction.LATCH"))
        G.switch(p, acts)
    for _ in range(r.randrange(0, 4)):
        x = r.choice(["name", "name", "amp", "cab", "par"])
        cb = {"name": fn("KemperRigNameCallback", show_name=True, show_rig_id=r.random() < .5), "amp": fn("ParameterDisplayCallback", mapping="$MAPPING_AMP_NAME()"),
              "cab": fn("ParameterDisplayCallback", mapping="$MAPPING_CABINET_NAME()"), "par": fn("ParameterDisplayCallback", mapping=r.choice(gens))}[x]
        G.label(p, "T%d" % nl, back=False, cb=cb); nl += 1
    for _ in range(r.randrange(0, 5)): p["events"].append({"t": r.randrange(dur), "k": "drig", "rig": r.choice([r.randrange(625), p["peer"]["rig"]])})
    if r.random() < 0.3: p["events"].append({"t": r.randrange(dur), "k": "dname", "v": "Same date", "d": "x%d" % r.randrange(2)})
    for _ in range(r.randrange(0, 4)):
        G.fault(p, r, r.choice(["d2c", "d2c", "c2d"]), ["drop", "drop", "delay", "dup", "corrupt", "trunc", "split"], cls=r.choice([None, ["val"], ["str"], ["req"], ["val", "str"]]), lo=100, hi=6000)
    if r.random() < 0.4:
        a = r.choice(sorted(cat.polled(p["cfg"])[0]) or [K.RIG_DATE]); t = r.randrange(dur)
        p["events"] += [{"t": t, "k": "dmute", "v": [list(a)]}, {"t": t + r.randrange(500, 6000), "k": "dmute", "v": []}]
    if r.random() < 0.2:
        t = r.randrange(dur)
        p["events"] += [{"t": t, "k": "ddown"}, {"t": t + r.randrange(200, 6000), "k": "dup"}]
    if r.random() < 0.4:
        for _ in range(r.randrange(1, 12)):
            a = r.choice(sorted(cat.polled(p["cfg"])[0]) or [K.RIG_DATE])
            m = K.string(a[0], a[1], "2020-01-0%d" % r.randrange(4)) if a == K.RIG_DATE else K.single(a[0], a[1], r.randrange(3))
            p["events"].append({"t": r.randrange(dur), "k": "raw", "port": port, "hex": m.hex()})
    if r.random() < 0.4: G.stalls(p, r, r.randrange(1, 4), 50, r.choice([400, 1500, 4000]))
    for inp in p["cfg"]["inputs"]:
        for _ in range(r.randrange(0, 4)): G.press(p, inp["pin"], r.randrange(dur - 1000), r.randrange(60, 900))
    return G.done(p)

def check(ctx):
    res, plan = ctx.res, ctx.plan
    cfg, tr = plan["cfg"], res.trace
    port = plan["peer"]["port"]
    iv = G.interval(plan) * 1000
    life = cfg["config"].get("maxRequestLifetimeMillis", 2000) * 1000
    pol, dep = cat.polled(cfg)
    if cfg.get("bidir"): ctx.count("bidir_runs")
    stalls = [(e[0], e[2]) for e in tr if e[1] == "stall"]
    slack = iv + 900000
    def late(t, d):
        end = t + d
        for ts, dt in stalls:
            if ts + dt > t and ts <= end: end += dt
        return end
    ev = []
    for t, p, d, raw, i in tx_messages(tr, port):
        if d[0] in ("req", "reqs"): ev.append((i, t, "r", (d[1], d[2]), d[0]))
    for t, p, d, raw, i in takes(tr):
        if p == port and d[0] in ("val", "valx", "str"):
            # a string of a numeric parameter (corrupted function code) or the other way round is no answer
            a = (d[1], d[2])
            if (a in dep or a == K.RIG_DATE) == (d[0] == "str"): ev.append((i, t, "a", a, d))
    presses = sum(1 for e in plan["events"] if e["k"] == "btn" and e["v"])
    ev.sort()
    end = tr[-1][0]
    boot = next((e[0] for e in tr if e[1] == "show"), end)
    st = {}            # addr -> [time of outstanding request or None, due time of the next request]
    first_req = {a: None for a in pol}
    due = {a: late(boot, slack + iv) for a in pol}
    out = {}
    times = {}
    name = {a: {"val": None, "D": {None}, "ovd": 0} for a in dep}    # D: possible rig dates the dependent was requested for
    fresh = None                # last answer of the rig date: (t, value, surely taken)
    since = None                # (value, t): surely taken answers of the rig date all had this value since t
    for i, t, k, a, d in ev:
        if k == "r":
            ctx.count("requests")
            if a not in pol and a not in dep:
                if cfg.get("bidir") and (cat.set2(a) or a == K.RIG_DATE):
                    ctx.bad("pushed-requested", "parameter %r is pushed by the session but was requested" % (a,), t)
                else: ctx.bad("unbound-requested", "parameter %r is not used by anything but was requested" % (a,), t)
                continue
            ctx.count("judged")
            o = out.get(a)
            if o is not None and t - o < life - 10000:
                ctx.bad("double-request", "%r requested again %d ms after an unanswered request" % (a, (t - o) // 1000), t)
            if o is not None: ctx.count("lost_retry")
            out[a] = t
            if a in dep:
                ctx.count("name_requests")
                n = name[a]
                n["ovd"] = 0
                if fresh is None or t - fresh[0] > 150000: ctx.bad("useless-request", "%r requested without an answer of the rig date before it" % (a,), t)
                elif fresh[2] and n["D"] == {fresh[1]} and n["val"] is not None and o is None:
                    ctx.bad("useless-request", "%r requested although the rig date has not changed" % (a,), t)
                if o is not None: n["val"] = None; ctx.count("name_retry")
                if fresh is not None: n["D"] = {fresh[1]} if fresh[2] else n["D"] | {fresh[1]}
            else:
                if t > due[a]: ctx.bad("request-late", "%r requested %d ms late" % (a, (t - due[a]) // 1000), t)
                due[a] = late(t, life + life // 2 + slack + iv)
                times.setdefault(a, []).append(t)
        else:
            o = out.get(a)
            if a in dep:
                if o is not None:
                    name[a]["val"] = None if t - o > life - 10000 else d       # maybe expired: a further request is fine, and fine if missing
                    out[a] = None
                continue
            if a not in pol: continue
            if o is None: ctx.count("unsolicited"); continue
            amb = t - o > life - 10000          # may be taken as answer or not; the next request shows
            if amb: ctx.count("late_answer")
            else:
                ctx.count("answered")
                due[a] = late(t, slack)
            out[a] = None
            if a == K.RIG_DATE and dep:
                v = d[3]
                fresh = (t, v, not amb)
                if since is None or since[0] != v: since = (v, t)
                if amb: since = None
                for x in dep:
                    n = name[x]
                    if out.get(x) is not None:
                        if amb or v not in n["D"]: n["D"] = n["D"] | {v}
                        if since and t > late(max(out[x], since[1]), life + life // 2 + 2 * slack):
                            n["ovd"] += 1
                            if n["ovd"] > 3: ctx.bad("name-not-requested", "%r not requested again after its answer got lost" % (x,), t)
                    elif amb: n["D"] = n["D"] | {v}
                    elif v not in n["D"] and since and t > late(since[1], 2 * slack):
                        n["ovd"] += 1
                        if n["ovd"] > 3: ctx.bad("name-not-requested", "%r not requested after a new rig date" % (x,), t)
    # missing requests until the end
    for a in pol:
        ctx.count("judged")
        if end > due[a]: ctx.bad("request-late", "%r not requested since %d ms" % (a, (end - due[a]) // 1000), end)
    # rate: per update round at most one request per user of the parameter
    for a, ts in times.items():
        n = pol[a]
        W, lim = 6 * iv, n * 8 + 2 * presses
        j = 0
        for k in range(len(ts)):
            while ts[k] - ts[j] > W: j += 1
            if k - j + 1 > lim:
                ctx.bad("too-many-requests", "%d requests of %r within %d ms (%d users)" % (k - j + 1, a, W // 1000, n), ts[k]); break
