"""P01: bidirectional session."""
from .. import gen as G
from ..gen import fn
from ..obs import Screen, tx_messages, takes

ID = "P01"
RUNS = {"quick": 1100, "thorough": 30000}
RULE = ("Controller with the bidirectional protocol, effect switches and a status dot against the device model; device outages, reboots, dropped sessions, "
        "one-way link failures, loss/delay/duplication/corruption by message class, foreign SysEx traffic and main-loop stalls, 15-60 simulated seconds.")
PROBES = ["connected", "lost", "reconnect", "renewals", "init_beacons", "stall", "device_down", "session_dropped", "reconnect_judged", "dot_green", "dot_red", "sense_while_idle"]

def gen(r, i, tier):
    p = G.base(r, r.choice([15000, 25000, 40000, 60000]))
    lease = r.choice([4, 5, 8, 10, 20, 30, 60])
    p["cfg"]["bidir"] = {"lease": lease, "tuner": r.random() < 0.7}
    p["cfg"]["config"].pop("maxConsecutiveMidiMessages", None)
    p["cfg"]["dot"] = True
    p["cfg"]["t0"] = r.choice([10000, 10000, 2000, 300, 600000, 8000000])
    for k in range(r.randrange(0, 4)):
        G.label(p, "L%d" % k)
        G.switch(p, [fn("EFFECT_STATE", r.choice(G.SLOT[:8]), display="$L%d" % k)])
    if r.random() < 0.3: G.label(p, "RN", back=False, cb=fn("KemperRigNameCallback", show_rig_id=True))
    dur = p["dur"]
    mode = r.choice(["outages", "links", "mix", "plain", "nosense", "drops"])
    if mode in ("outages", "mix"):
        t = r.randrange(0, 6000)
        if t < 1500: p["peer"]["up"] = False; p["events"].append({"t": t, "k": "dup"}); t += r.randrange(3000, 9000)
        while t < dur:
            d = r.choice([300, 1000, 1400, 1600, 2000, 4000, 6000, 12000]) + r.randrange(200)
            p["events"] += [{"t": t, "k": "ddown"}, {"t": t + d, "k": "dup"}]
            t += d + r.randrange(500, 12000)
    if mode in ("drops", "mix"):
        for _ in range(r.randrange(1, 4)): p["events"].append({"t": r.randrange(dur), "k": "dend"})
    if mode in ("links", "mix"):
        for _ in range(r.randrange(1, 4)):
            d = r.choice(["d2c", "c2d"])
            G.fault(p, r, d, ["drop", "drop", "delay", "dup", "corrupt", "trunc", "split"], cls=r.choice([None, ["sense"], ["beacon"], ["val"]]), lo=300, hi=9000)
    if mode == "nosense":
        p["peer"]["bidir"] = False
    for _ in range(r.randrange(0, 5)):
        # foreign traffic that resembles sense messages
        p["events"].append({"t": r.randrange(dur), "k": "raw", "port": p["peer"]["port"], "hex": r.choice([
            "f000203300007e0040f7", "f000203300007e00f7", "f000203300007e0041f7", "f000203300000100327f0001f7", "f000203300017f007ff7", "f000212200007e007ff7",
            "b02005", "c003", "f000203300007ef7", "f07d01f7", "f000203300007e007e02f7"])})
    if r.random() < 0.3:
        for _ in range(r.randrange(1, 4)):
            p["events"].append({"t": r.randrange(2500) if r.random() < .5 else r.randrange(dur), "k": "raw", "port": p["peer"]["port"], "hex": "f000203300007e007ff7"})
    if r.random() < 0.5:
        G.stalls(p, r, r.randrange(1, 4), 100, r.choice([800, 2500, 7000]))
    for inp in p["cfg"]["inputs"]:
        for _ in range(r.randrange(0, 3)):
            G.press(p, inp["pin"], r.randrange(dur - 1000), r.randrange(60, 300))
    return G.done(p)
def check(ctx):
    res, plan = ctx.res, ctx.plan
    cfg = plan["cfg"]
    port = plan["peer"]["port"]
    iv = G.interval(plan)
    tr = res.trace
    stalls = [(e[0], e[2]) for e in tr if e[1] == "stall"]
    def late(t, d):
        """latest time something due at t+d (us) has happened: one update round plus stalls"""
        end = t + d
        for ts, dt in stalls:
            if ts < t and ts + dt > end - (iv + 300) * 1000: end = max(end, ts + dt + (iv + 300) * 1000)
            if ts >= t and ts <= end + iv * 1000 + 300000: end += dt
        return end
    R = (iv + 300) * 1000
    beacons = [(t, d) for t, p, d, raw, i in tx_messages(tr, port) if d[0] == "beacon"]
    first = beacons[0][0] if beacons else None
    all_sense = [t for t, p, d, raw, i in takes(tr) if d[0] == "sense" and p == port]
    sense = [t for t in all_sense if first is not None and t > first]
    ctx.count("sense_while_idle", len(all_sense) - len(sense))
    end = tr[-1][0]
    # --- connection intervals
    conn, dis = [], []       # definitely connected / definitely not connected (protocol state); us
    if not sense:
        dis.append((res.t0, end))
    else:
        dis.append((res.t0, sense[0] - 1))
        for k, s in enumerate(sense):
            nxt = sense[k + 1] if k + 1 < len(sense) else end + 10 ** 12
            conn.append((s, min(s + 1500000 - 2000, nxt, end)))
            lost = late(s, 1500000 + R)
            if nxt > lost:
                ctx.count("lost"); dis.append((lost, min(nxt - 1, end)))
                if k + 1 < len(sense): ctx.count("reconnect")
        ctx.count("connected")
    def inside(t, ivs):
        return any(a <= t <= b for a, b in ivs)
    # --- beacons
    lease_b = int(cfg["bidir"]["lease"] / 2)
    want = 2 | (32 if cfg["bidir"]["tuner"] else 0)
    li = None
    for k, (t, d) in enumerate(beacons):
        ctx.count("judged")
        if len(d) != 4 or d[1] != 2 or d[3] != lease_b or (d[2] & ~1) != want:
            ctx.bad("beacon-content", "beacon %r: expected set 2, lease %d, flags %d(+1)" % (d, lease_b, want), t)
            continue
        if d[2] & 1:
            ctx.count("init_beacons")
            if inside(t, conn): ctx.bad("init-while-connected", "opening beacon while connected", t)
            if li is not None and t - li < 5000000 - 150000: ctx.bad("init-too-often", "opening beacons %d ms apart" % ((t - li) // 1000), t)
            li = t
        else:
            ctx.count("renewals")
            if inside(t, dis): ctx.bad("renewal-while-offline", "renewal beacon while not connected", t)
    inits = [t for t, d in beacons if d[2] & 1]
    # opening beacons keep coming while not connected
    for a, b in dis:
        prev = max([x for x in inits if x < a], default=None)
        base = a if prev is None else max(a, prev + 5000000)
        if prev is None and res.t0 < 5000000: base = max(base, 5000000)
        pts = [x for x in inits if a <= x <= b]
        for nx in pts + [None]:
            lim = late(base, R)
            if nx is None:
                if b > lim: ctx.bad("no-opening-beacon", "not connected, and no opening beacon until %d ms after it was due" % ((b - base) // 1000), b)
            elif nx > lim:
                ctx.bad("no-opening-beacon", "opening beacon %d ms late" % ((nx - base) // 1000), nx)
            ctx.count("judged")
            if nx is not None: base = nx + 5000000
    # lease never runs out while connected
    granted = lease_b * 2000000
    runs = []
    for a, b in conn:
        if runs and a <= runs[-1][1] + 2000: runs[-1][1] = max(b, runs[-1][1])
        else: runs.append([a, b])
    for a, b in runs:
        ts = [t for t, d in beacons if a <= t <= b]
        op = max([t for t, d in beacons if t < a and d[2] & 1], default=None)
        cur = op if op is not None and a - op <= 500000 else None
        for t in ts + [None]:
            lim = None if cur is None else cur + granted + sum(dt for s, dt in stalls if cur - 1000000 <= s <= cur + granted)
            if cur is not None:
                ctx.count("judged")
                if (t if t is not None else b) > lim + 1000:
                    ctx.bad("lease-expired", "no renewal for %.1f s with a lease of %.0f s" % (((t or b) - cur) / 1e6, granted / 1e6), t or b)
            cur = t
    # --- the device answering again is noticed
    flt = [(f["t0"] * 1000 + res.t0, f["t1"] * 1000 + res.t0 + 2000000) for f in plan["faults"]]
    devs = [e for e in tr if e[1] == "dev" and e[2] in ("up", "down", "session_end")]
    for e in devs:
        if e[2] != "up" or plan["peer"].get("bidir") is False: continue
        t = e[0]
        ls = max([s for s in sense if s <= t], default=None)
        dl = late(t, R) if ls is None else max(late(t, R), late(ls, 1500000 + 2 * R))
        li = max([x for x in inits if x <= dl], default=None)
        dl = late(dl, R) if li is None else max(dl, late(li, 5000000 + 2 * R))
        if res.t0 < 5000000: dl = max(dl, late(5000000, 2 * R))
        dl += 2 * plan["peer"]["lat"] * 1000 + 300000
        if dl > end or any(a < dl and b > (ls or t) for a, b in flt) or any(x[0] > t and x[0] <= dl and x[2] in ("down", "session_end") for x in devs): continue
        ctx.count("judged"); ctx.count("reconnect_judged")
        if not any(t < s <= dl for s in sense):
            ctx.bad("no-reconnect", "device is back since %.1f s, not connected by %.1f s" % ((t - res.t0) / 1e6, (dl - res.t0) / 1e6), dl)
    # --- status dot
    scr, changes = Screen(res), []
    for e in tr:
        c = scr.apply(e)
        if c and c[0] == "dot": changes.append((e[0], scr.dot))
    seg = [(changes[k][0], changes[k + 1][0] if k + 1 < len(changes) else end, changes[k][1]) for k in range(len(changes))]
    boot = next((e[0] for e in tr if e[1] == "show"), None)
    if boot is None: return
    D = 2 * R
    want_green = [(late(a, D), b) for a, b in runs]
    want_red = [(late(a, D), b) for a, b in dis]
    for a, b, name in [(a, b, "green") for a, b in want_green] + [(a, b, "red") for a, b in want_red]:
        a = max(a, boot + D)
        if a >= b: continue
        ctx.count("judged"); ctx.count("dot_" + name)
        for x, y, c in seg:
            if y > a and x < b:
                ok = c is not None and ((c[1] > c[0]) if name == "green" else (c[0] > c[1]))
                if not ok: ctx.bad("dot-not-" + name, "status dot is %r, connection is %s" % (c, name), max(a, x)); break
        if not seg: ctx.bad("dot-not-" + name, "status dot never drawn", a)
