"""P10: short or hold actions, never both or neither."""
from .. import gen as G, kemper as K
from ..gen import fn
from ..obs import tx_messages, takes

ID = "P10"
RUNS = {"quick": 1600, "thorough": 60000}
RULE = ("One to six switches with short and hold actions (raw messages for push and release, distinct per action, some of them not enabled), hold times 20 ms to 2 s, with and without repeat, nested action lists; "
        "presses of random length around the hold time (also single samples and bursts), loop speeds from 1 to 40 ms per sampling gap, stalls around the hold time, MIDI floods, "
        "tuner mode switched on and off by the device while switches are down.")
PROBES = ["short", "hold", "repeat", "release_decides", "plain", "stall", "tuner_press", "after_tuner", "borderline", "disabled_hold"]

def act(n, r, rel=True):
    a = {"message": [0xb0, n, 1]}
    if rel: a["message_release"] = [0xb0, n, 2]
    if r.random() < 0.3: a["use_leds"] = False
    return fn("CUSTOM_MESSAGE", **a)

def gen(r, i, tier):
    tuner = r.random() < 0.35
    p = G.base(r, r.choice([5000, 8000, 12000]), peer=tuner)
    cfg = p["cfg"]
    if r.random() < 0.3:
        cfg["costs"]["read"] = r.choice([8000, 20000, 40000])
    if tuner:
        cfg["bidir"] = {"lease": 30, "tuner": True}
        cfg["tuner"] = {}
        p["peer"]["sense_ms"] = 500
    n = r.randrange(1, 7)
    p["x"] = []
    off = r.random() < 0.3          # some actions are never enabled
    if off: cfg["defs"].append({"name": "_never", "expr": fn("ClientParameterMapping.get", name="never", response=fn("ControlChange", 118, 0))})
    num = 0
    holds = []
    for k in range(n):
        short, hold = [], []
        for _ in range(r.choice([1, 1, 2, 3, 0])):
            short.append(num); num += 1
        if r.random() < 0.8:
            for _ in range(r.choice([1, 1, 2])):
                hold.append(num); num += 1
        if not short and not hold: short.append(num); num += 1
        opts = {}
        if r.random() < 0.7: opts["holdTimeMillis"] = r.choice([20, 100, 200, 300, 450, 600, 1000, 2000])
        if r.random() < 0.4: opts["holdRepeat"] = True
        rel = {a: r.random() < 0.8 for a in short + hold}
        dis = [a for a in short + hold if off and r.random() < 0.4]
        def make(a):
            e = act(a, r, rel[a])
            if a in dis: e["args"]["enable_callback"] = fn("Cond", "$_never", 0)
            return e
        sa = [make(a) for a in short]
        if len(sa) > 1 and r.random() < 0.3: sa = [sa[:2]] + sa[2:]
        pin = G.switch(p, sa, hold=[make(a) for a in hold] if hold or r.random() < 0.2 else None, opts=opts)
        p["x"].append({"pin": pin, "short": short, "hold": hold, "rel": [a for a in rel if rel[a]], "dis": dis, "H": opts.get("holdTimeMillis", 600), "rep": bool(opts.get("holdRepeat"))})
        H = opts.get("holdTimeMillis", 600)
        t = r.randrange(300, 1500) if not tuner else r.randrange(1500, 3000)
        while t < p["dur"] - 200:
            d = r.choice([r.randrange(1, 30), r.randrange(20, 150), max(5, H + r.randrange(-40, 40)), H + r.randrange(20, 400), r.choice([2, 3]) * H + r.randrange(-60, 60), max(5, H - r.randrange(5, 100))])
            d = max(1, d)
            G.press(p, pin, t + r.random(), d)
            holds.append((t, d, H))
            t += d + r.choice([r.randrange(5, 60), r.randrange(30, 300), r.randrange(200, 1500)])
    if r.random() < 0.5 and holds:
        for _ in range(r.randrange(1, 6)):
            t, d, H = r.choice(holds)
            p["events"].append({"t": max(0, t + r.choice([d, H, H, 0]) - r.randrange(0, 150)), "k": "stall", "d": r.randrange(10, 400)})
    if tuner:
        t = 2500
        while t < p["dur"]:
            th = r.choice(holds)[0] + r.randrange(0, 700) if holds and r.random() < 0.6 else t
            a = max(1500, th); b = a + r.choice([r.randrange(30, 400), r.randrange(200, 2500)])
            p["events"] += [{"t": a, "k": "dtuner", "v": 1}, {"t": b, "k": "dtuner", "v": 0}]
            t = b + r.randrange(300, 4000)
    if r.random() < 0.3:
        port = cfg["routings"][0][0]
        for _ in range(r.choice([20, 100])):
            p["events"].append({"t": r.randrange(300, p["dur"]), "k": "raw", "port": port, "hex": (K.cc(119, r.randrange(128)) * r.choice([1, 5, 12])).hex()})
    return G.done(p)

def check(ctx):
    res, plan = ctx.res, ctx.plan
    tr = res.trace
    port = plan["cfg"]["routings"][0][0]
    own = {}
    for k, sw in enumerate(plan["x"]):
        for a in sw["short"]: own[a] = (k, "short")
        for a in sw["hold"]: own[a] = (k, "hold")
    # tuner mode as the controller knows it: [(from, to)] trace indices
    tun, on = [], None
    have_tuner = "tuner" in plan["cfg"] and plan["cfg"].get("bidir")
    for i, e in enumerate(tr):
        if not have_tuner: break
        if e[1] == "m" and e[3]:
            d = K.decode(e[3])
            if d[0] == "val" and d[1:3] == K.TUNER_MODE:
                if d[3] == 1:
                    if on is None: on = i
                elif on is not None: tun.append((on, i)); on = None
        elif e[1] == "tx" and on is not None:
            for m in K.split(e[3]):
                d = K.decode(m)
                if d[0] == "cc" and d[1] == 31 and d[2] == 0 and on is not None: tun.append((on, i)); on = None
    if on is not None: tun.append((on, len(tr)))
    def tuner_between(a, b): return any(x <= b and y >= a for x, y in tun)
    def inside(i): return any(x <= i <= y for x, y in tun)
    # messages per switch, with the sample they follow
    pins = {sw["pin"]: k for k, sw in enumerate(plan["x"])}
    sam = [[] for _ in plan["x"]]            # (t, pressed, index, [messages until the next sample])
    stray = []
    for i, e in enumerate(tr):
        if e[1] == "s" and e[2] in pins:
            sam[pins[e[2]]].append((e[0], e[3], i, []))
        elif e[1] == "tx":
            for m in K.split(e[3]):
                d = K.decode(m)
                if d[0] == "cc" and d[1] in own:
                    k = own[d[1]][0]
                    if not sam[k]: stray.append((e[0], d)); continue
                    sam[k][-1][3].append((e[0], d[1], d[2]))
    for t, d in stray:
        ctx.bad("before_press", "message %s before any sample" % (d,), t)
    for k, sw in enumerate(plan["x"]):
        H = sw["H"] * 1000
        rel = set(sw["rel"])
        dis = sw["dis"]
        def pair(acts): return [x for a in acts if a not in dis for x in ([(a, 1), (a, 2)] if a in rel else [(a, 1)])]
        SHORT, HOLD = pair(sw["short"]), pair(sw["hold"])
        evs = [(e[0], e[4]) for e in tr if e[1] == "ev" and e[2] == "btn" and e[3] == sw["pin"]]
        # presses
        prev, press, was_tuner = False, None, False
        for j, (t, v, i, ms) in enumerate(sam[k]):
            got = [(a, w) for _, a, w in ms]
            tm = ms[0][0] if ms else t
            if v and not prev:
                press = {"t": t, "i": i, "last": t, "n": 0, "over": inside(i), "amb": False}
            nxt = sam[k][j + 1][2] if j + 1 < len(sam[k]) else len(tr)
            if j + 1 >= len(sam[k]): break        # the run ended here
            if press and (press["over"] or sw["hold"] and tuner_between(press["i"], nxt)):
                # tuner mode took part in this press: nothing may fire while it is on
                if v and not prev and inside(i): ctx.count("tuner_press")
                if press["over"] and got:
                    ctx.bad("in_tuner", "switch %s was pressed in tuner mode but sent %s" % (sw["pin"], got), tm)
                elif got and inside(i) and inside(nxt - 1) and any(x <= i and y >= nxt - 1 for x, y in tun):
                    ctx.bad("in_tuner", "switch %s sent %s while tuner mode is on" % (sw["pin"], got), tm)
                press["amb"] = True
                if not v: press = None; was_tuner = True
                prev = v
                continue
            if press is None:
                if got: ctx.bad("unpressed", "switch %s is not pressed but sent %s" % (sw["pin"], got), tm)
                prev = v
                continue
            if press["amb"]:
                if not v: press = None; was_tuner = True
                prev = v
                continue
            if was_tuner and v and not prev: ctx.count("after_tuner"); was_tuner = False
            ctx.count("judged")
            if not sw["hold"]:
                # plain switch
                want = []
                if v and not prev: want = [(a, 1) for a in sw["short"] if a not in dis]
                elif not v and prev: want = [(a, 2) for a in sw["short"] if a in rel and a not in dis]; ctx.count("plain")
                if got != want:
                    ctx.bad("plain", "switch %s: %s sent %s instead of %s" % (sw["pin"], "pressed" if v and not prev else "held" if v else "released", got, want), tm)
                if not v: press = None
                prev = v
                continue
            if v and not prev:
                if got: ctx.bad("at_push", "switch %s with hold actions sent %s at push" % (sw["pin"], got), tm)
                prev = v
                continue
            dt = t - press["last"]
            must = dt >= H + 4000 + 60 * 1000 * 0
            may = dt > H - 2000
            done = press["n"] and not sw["rep"]
            if v:
                if done or not may: want = [[]]
                elif must: want = [HOLD]
                else: want = [[], HOLD]; ctx.count("borderline")
                if got not in want:
                    ctx.bad("held", "switch %s held for %.1f ms (hold time %d, fired %d times): sent %s, expected %s" % (sw["pin"], (t - press["t"]) / 1000, sw["H"], press["n"], got, want), tm)
                if got == HOLD and HOLD: press["n"] += 1; press["last"] = t; ctx.count("hold"); ctx.count("repeat", press["n"] > 1)
            else:
                up = max([x for x, s in evs if x <= t and not s] or [t])
                really = up - press["last"]           # how long it was down for sure
                if press["n"]:
                    if not sw["rep"]: want = [[]]
                    elif not may: want = [[]]
                    else: want = [[], HOLD]
                else:
                    if not may: want = [SHORT]
                    elif really >= H + 4000: want = [HOLD]
                    else: want = [SHORT, HOLD]; ctx.count("borderline")
                    if may: ctx.count("release_decides")
                if got not in want:
                    ctx.bad("release", "switch %s released after %.1f ms (hold time %d, fired %d times): sent %s, expected %s" % (sw["pin"], (t - press["t"]) / 1000, sw["H"], press["n"], got, want), tm)
                if got == SHORT and SHORT: ctx.count("short")
                if must and not HOLD: ctx.count("disabled_hold")
                press = None
            prev = v
