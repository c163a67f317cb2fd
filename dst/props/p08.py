"""P08: inputs stay responsive and updates keep running under MIDI load."""
from .. import gen as G, kemper as K, vis
from ..gen import fn
from ..obs import Screen

ID = "P08"
RUNS = {"quick": 3000, "thorough": 40000}
RULE = ("One to eight switches (message at push and release), pedals and encoders, effect and parameter actions; observers among the updated components (first, in between, last) that show every update step; "
        "update interval 20 to 400 ms, 0 to 30 messages per batch; floods of control changes, parameter messages, SysEx and unknown messages from a few to far more than can be processed, on the application's port and on forwarded ports, "
        "in bursts and continuously; device with and without bidirectional protocol; stalls, slow displays.")
PROBES = ["edge", "take", "batch_full", "round", "overload", "late_round", "forward", "bidir", "pot", "enc", "stall"]

def gen(r, i, tier):
    peer = r.random() < 0.5
    p = G.base(r, r.choice([2500, 4000, 6000]), peer=peer)
    cfg = p["cfg"]
    port = cfg["routings"][0][0]
    cfg["config"] = {}
    cfg["config"]["updateInterval"] = r.choice([20, 50, 100, 200, 200, 400])
    if r.random() < 0.8: cfg["config"]["maxConsecutiveMidiMessages"] = r.choice([0, 1, 2, 5, 10, 10, 30])
    if r.random() < 0.2: cfg["costs"]["read"] = r.choice([8000, 20000])
    other = "din" if port == "usb" else "usb"
    fwd = r.random()
    if fwd < 0.15: cfg["routings"].append([other, port])
    elif fwd < 0.3: cfg["routings"] += [[port, other], [other, port]]
    if peer and r.random() < 0.5: cfg["bidir"] = {"lease": 30, "tuner": r.random() < 0.5}
    x = p["x"] = {"sw": []}
    # first observer
    G.label(p, "b_first")
    n = 59
    nsw = r.randrange(1, 7)
    first = fn("Action", {"callback": fn("BeatAct"), "display": "$b_first"})
    for k in range(nsw):
        n += 1
        acts = [fn("CUSTOM_MESSAGE", message=[0xb0, n, 1], message_release=[0xb0, n, 2])]
        if r.random() < 0.3: acts.append(fn(r.choice(["EFFECT_STATE"]), r.choice(G.SLOT), mode="$PushButtonAction.NO_STATE_CHANGE"))
        if r.random() < 0.2: acts.append(fn("RIG_SELECT", 1 + k % 5, use_leds=False) if False else fn("PARAMETER_UP_DOWN", "$MAPPING_MAIN_VOLUME()", 0, use_leds=False))
        if k == 0: acts = [first] + acts
        pin = G.switch(p, acts)
        x["sw"].append({"pin": pin, "n": n})
        t = r.randrange(200, 1000)
        while t < p["dur"] - 100:
            d = max(1, r.choice([r.randrange(1, 40), r.randrange(20, 200), r.randrange(100, 600)]))
            G.press(p, pin, t + r.random(), d)
            t += d + r.choice([r.randrange(3, 60), r.randrange(30, 300), r.randrange(300, 1500)])
    if r.random() < 0.3:
        cfg["inputs"].append({"type": "pot", "pin": G.APINS[0], "actions": [fn("AnalogAction", "$MAPPING_VOLUME_PEDAL()")]})
        for _ in range(30): p["events"].append({"t": r.randrange(p["dur"]), "k": "adc", "pin": G.APINS[0], "v": r.randrange(65536)})
    if r.random() < 0.3:
        cfg["inputs"].append({"type": "enc", "pin": G.EPINS[0][0], "pin2": G.EPINS[0][1], "actions": [fn("EncoderAction", "$MAPPING_WAH_PEDAL()")]})
        for _ in range(20): p["events"].append({"t": r.randrange(p["dur"]), "k": "enc", "pin": G.EPINS[0][0], "d": r.choice([1, -1, 4])})
    nl = r.randrange(1, 5)
    for k in range(nl): G.label(p, "b%d" % k, cb=fn("Beat"))
    x["n"] = nl
    # load
    def msg():
        q = r.random()
        if q < 0.5: return K.cc(r.randrange(100, 119), r.randrange(128))
        if q < 0.75: return K.single(r.randrange(0x30, 0x40), r.randrange(4), r.randrange(16384))
        if q < 0.85: return bytes([0xc0, r.randrange(128)])
        if q < 0.93: return bytes([0xf0, 0x7d] + [r.randrange(128) for _ in range(r.randrange(0, 20))] + [0xf7])
        return bytes([r.choice([0xf8, 0xfe, 0xd0, 0x90]), 1, 1])
    for _ in range(r.choice([1, 1, 2, 3])):
        pt = port if r.random() < 0.75 or len(cfg["routings"]) == 2 else other
        a = r.randrange(0, p["dur"]); b = a + r.choice([50, 300, 2000, 6000])
        step = r.choice([2, 5, 10, 20, 40, 100])
        per = r.choice([1, 1, 3, 10, 30])
        t = a
        cnt = 0
        while t < min(b, p["dur"]) and cnt < 2500:
            m = b"".join(msg() for _ in range(per)); cnt += per
            p["events"].append({"t": t, "k": "raw", "port": pt, "hex": m.hex()})
            t += step
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 4), 10, 500)
    return G.done(p)

def check(ctx):
    res, plan = ctx.res, ctx.plan
    tr, cfg = res.trace, plan["cfg"]
    iv = G.interval(plan)
    mx = cfg["config"].get("maxConsecutiveMidiMessages", 10) + 1
    back = (mx + 2) * (2 if cfg.get("bidir") else 1)       # reads from the moment a round is due to the first observed step
    port = cfg["routings"][0][0]
    scr = Screen(res)
    t = 0
    last = {}                      # input -> application takes at its last sample
    beats_at = {}
    takes = 0                      # messages taken for the application
    calls = []                     # times of reads of the application's port
    steps = 0
    order = ["b_first"] + ["b%d" % k for k in range(plan["x"]["n"])]
    prev = None                    # (index in order, takes) of the last observed step
    rounds = []                    # (time of the first step, B, takes)
    lastbeat = None
    sw = {s["pin"]: s for s in plan["x"]["sw"]}
    st = {p: False for p in sw}
    cur = None
    due = None
    started = False
    ctx.count("bidir", bool(cfg.get("bidir")))
    def close():
        nonlocal cur
        if not cur: return
        pin, tt, v, got = cur
        cur = None
        want = []
        if v != st[pin]:
            want = [(sw[pin]["n"], 1 if v else 2)]
            ctx.count("edge"); ctx.count("judged")
        if got != want: ctx.bad("edge", "switch %s sampled %s (was %s): sent %s instead of %s before the next message was taken" % (pin, v, st[pin], got, want), tt)
        st[pin] = v
    nums = {s["n"] for s in plan["x"]["sw"]}
    for e in tr:
        k = e[1]
        if k in ("s", "a", "e"):
            close()
            started = started or k == "s"
            if not started: continue
            key = (k, e[2])
            if key in last:
                if takes - last[key] > 1: ctx.bad("takes_between_samples", "%d messages taken between two samples of %s" % (takes - last[key], e[2]), e[0])
                if steps - beats_at[key] > 1: ctx.bad("steps_between_samples", "%d components updated between two samples of %s" % (steps - beats_at[key], e[2]), e[0])
                ctx.count({"s": "sample", "a": "pot", "e": "enc"}[k])
            last[key] = takes; beats_at[key] = steps
            if k == "s" and e[2] in sw: cur = [e[2], e[0], e[3], []]
        elif k == "m":
            close()
            if e[2] == port:
                calls.append(e[0])
                if e[3] is not None:
                    takes += 1; ctx.count("take")
            elif e[3] is not None: ctx.count("forward")
        elif k == "tx":
            for m in K.split(e[3]):
                d = K.decode(m)
                if d[0] == "cc" and d[1] in nums and cfg["routings"][1][1] == e[2] and d[2] in (1, 2):
                    if cur and sw[cur[0]]["n"] == d[1]: cur[3].append((d[1], d[2]))
                    elif len(cfg["routings"]) == 2: ctx.bad("stray", "message %s sent without its switch being processed" % (d,), e[0])
        elif k == "txt":
            ch = scr.apply(e)
            nm = ch[1] if ch else None
            if nm not in order or not started: continue
            i = order.index(nm)
            steps += 1
            ctx.count("judged")
            if prev is not None:
                j, tk = prev
                if i != (j + 1) % len(order): ctx.bad("order", "update step of %s follows that of %s" % (nm, order[j]), e[0])
                if i > 1 and j == i - 1:
                    if takes - tk > mx: ctx.bad("batch", "%d messages taken within one update step, %d allowed" % (takes - tk, mx), e[0])
                    ctx.count("batch_full", takes - tk == mx)
            if i == 0:
                b = calls[-back] if len(calls) >= back else res.t0
                if rounds:
                    ctx.count("round"); ctx.count("judged")
                    if due is not None:
                        extra = takes - due
                        ctx.count("late_round", extra > 0)
                        ctx.count("overload", extra >= mx)
                        if extra > 4 * mx + 3: ctx.bad("round_late", "%d messages were taken after the update round was due" % extra, e[0])
                    for q in range(1, min(8, len(rounds)) + 1):
                        t0, b0, _ = rounds[-q]
                        # the round starts at most one batch of messages before its first step
                        if e[0] - b0 < (q * iv - q) * 1000:
                            ctx.bad("too_fast", "%d update rounds within %.1f ms at an interval of %d ms" % (q, (e[0] - t0) / 1000, iv), e[0])
                            break
                rounds.append((e[0], b, takes)); due = None
            prev = (i, takes)
            lastbeat = e[0]
        else: scr.apply(e)
        if started and rounds and due is None and prev and prev[0] == len(order) - 1 and e[0] >= rounds[-1][0] + (iv + 3) * 1000:
            due = takes
    # rounds that never come
    if rounds and due is not None and takes - due > 4 * mx + 3: ctx.bad("round_late", "%d messages were taken after the update round was due" % (takes - due), tr[-1][0])
    if started and not rounds and res.t_end - res.t0 > (iv + 1000) * 1000 and not res.crash and takes > 6 * mx: ctx.bad("round_late", "no update round although %d messages were taken" % takes, tr[-1][0])
