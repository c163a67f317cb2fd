"""P26: the displayed morph state follows the device and the morph buttons."""
from .. import gen as G, kemper as K, rigs, vis
from ..gen import fn, tup
from ..obs import Screen

ID = "P26"
RUNS = {"quick": 2000, "thorough": 60000}
RULE = ("Morph buttons (kemper and fixed colours), morph displays, rig buttons with morph display (always or for the active rig only, with label and LED), on visible and hidden pages; rig buttons with simulated morph (toggling and momentary), "
        "rig, bank and preselecting buttons of all kinds; morph moved on the device, rigs changed there, presses held meanwhile, answers lost, delayed and doubled, connection lost; interval, stalls, slow displays varied.")
PROBES = ["report", "button", "second_press", "momentary", "reset", "mixed", "full", "base", "several", "hidden", "shown_again", "fixed", "only_active", "stall", "unsure", "drop_d2c", "same_report", "silent", "given_back", "press_hidden", "other_page"]
MORPH = (0, 0x0b)
RED, BLUE = (255, 0, 0), (0, 0, 255)
FULL = 16383
OTHER = (10, 200, 40)

def gen(r, i, tier):
    p = G.base(r, r.choice([6000, 9000, 13000]))
    x = p["x"] = {}
    cfg, ev, dur = p["cfg"], p["events"], p["dur"]
    port = p["peer"]["port"]
    rig0 = p["peer"]["rig"]
    kinds = ["rigsel"] * 6 + ["banksel", "bankpre", "banktog", "bankstep", "steppre", "rigstep"]
    rigs.make(r, p, kinds, n=r.randrange(1, 5), labels=0)
    x["disp"], x["conds"] = [], []
    for k in range(r.choice([0, 1, 2])):
        n = 112 + k
        x["conds"].append({"n": n, "inv": k == 1 and r.random() < 0.5})
        if x["conds"][-1]["inv"]: x["conds"][-1]["n"] = n = 112
        cfg["defs"].append({"name": "_cm%d" % k, "expr": fn("ClientParameterMapping.get", name="cond%d" % n, response=fn("ControlChange", n, 0))})
        cfg["defs"].append({"name": "_co%d" % k, "expr": fn("Cond", "$_cm%d" % k, 64, x["conds"][-1]["inv"])})
        cfg["defs"].append({"name": "_cn%d" % k, "expr": fn("Cond", "$_cm%d" % k, 64, not x["conds"][-1]["inv"])})
    def colors(d, a):
        d["base"], d["full"] = RED, BLUE
        if r.random() < 0.4:
            d["base"] = [r.randrange(256) for _ in range(3)]; a["morph_color_base"] = tup(*d["base"])
        if r.random() < 0.4:
            d["full"] = [r.randrange(256) for _ in range(3)]; a["morph_color_morphed"] = tup(*d["full"])
    # rig buttons with morph simulation and display
    sw = [c for c in cfg["inputs"] if c["type"] == "switch"]
    for k, it in enumerate(x["items"]):
        it["rbm"] = it["mom"] = False
        it["en"] = None
        if it["k"] != "rigsel": continue
        e = sw[k]["actions"][0]
        if x["conds"] and r.random() < 0.3: it["en"] = r.randrange(len(x["conds"])); e["args"]["enable_callback"] = "$_co%d" % it["en"]
        # another page of the switch
        if it["en"] is not None: sw[k]["actions"].append(fn("CUSTOM_MESSAGE", message=[0xb0, 119, 1], color=tup(*OTHER), enable_callback="$_cn%d" % it["en"]))
        if r.random() < 0.75 and it["off"] != "auto" and it["boff"] != "auto":
            # second press: no off rig
            if r.random() < 0.85:
                for a in ("rig_off", "bank_off"): e["args"].pop(a, None)
                it["off"] = it["boff"] = None
            it["rbm"] = e["args"]["rig_btn_morph"] = True
            if r.random() < 0.4: it["mom"] = e["args"]["momentary_morph"] = True
        if r.random() < 0.6 and it["rig"] is not None and "auto_exclude_rigs" not in e["args"]:
            e["fn"] = "RIG_SELECT_AND_MORPH_STATE"
            d = {"k": "rs", "item": k, "only": True, "lab": None, "led": None, "en": None, "fix": None}
            colors(d, e["args"])
            if r.random() < 0.4: d["only"] = e["args"]["morph_only_when_enabled"] = False
            if r.random() < 0.4: d["lab"] = "M%d" % k; e["args"]["morph_display"] = G.label(p, d["lab"])
            if r.random() < 0.15: e["args"]["morph_use_leds"] = False
            else: d["led"] = [3 * k + 2] if it["led"] else [3 * k, 3 * k + 1, 3 * k + 2]
            x["disp"].append(d)
    btn = []
    if r.random() < 0.7 and x["items"]:
        # the usual thing: buttons for the active rig are around
        it = r.choice(x["items"])
        if it["k"] == "rigsel" and it["rig"]: p["peer"]["rig"] = rig0 = ((it["bank"] or rig0 // 5 + 1) - 1) * 5 + it["rig"] - 1
    for k in range(r.choice([1, 1, 2, 3])):
        n = len([c for c in cfg["inputs"] if c["type"] == "switch"])
        d = {"k": r.choice(["btn", "disp"]), "lab": None, "led": [3 * n, 3 * n + 1, 3 * n + 2], "en": None, "fix": None, "item": None}
        a = {}
        colors(d, a)
        if d["k"] == "btn" and r.random() < 0.2: d["fix"] = [r.randrange(256) for _ in range(3)]; a["color"] = tup(*d["fix"])
        if r.random() < 0.6: d["lab"] = "D%d" % k; a["display"] = G.label(p, d["lab"])
        if x["conds"] and r.random() < 0.6: d["en"] = r.randrange(len(x["conds"])); a["enable_callback"] = "$_co%d" % d["en"]
        if r.random() < 0.15: a["use_leds"] = False; d["led"] = None
        d["pin"] = G.switch(p, [fn("MORPH_BUTTON" if d["k"] == "btn" else "MORPH_DISPLAY", **a)], pixels=[3 * n, 3 * n + 1, 3 * n + 2])
        x["disp"].append(d)
        if d["k"] == "btn" or r.random() < 0.3: btn.append(d["pin"])
    if r.random() < 0.4: cfg["bidir"] = {"lease": 30, "tuner": False}
    if r.random() < 0.9: ev.append({"t": r.randrange(200, 1200), "k": "dannounce"})
    if r.random() < 0.6: ev.append({"t": 0, "k": "dset", "a": list(MORPH), "v": r.choice([0, 1, 5000, 8192, FULL])})
    t = r.randrange(1000, 2500)
    for c in sorted({c["n"] for c in x["conds"]}): ev.append({"t": r.randrange(200, 2000), "k": "raw", "port": port, "hex": K.cc(c, r.choice([0, 127])).hex()})
    val = lambda: r.choice([0, 0, FULL, 1, 64, 8191, r.randrange(16384), 5000])
    free = {}
    def press(pin, t, d):
        if free.get(pin, 0) > t: return
        free[pin] = t + d + 60
        G.press(p, pin, t, d)
    while t < dur - 200:
        q = r.random()
        if q < 0.25:
            for _ in range(r.choice([1, 1, 1, 5])): ev.append({"t": t, "k": "dset", "a": list(MORPH), "v": val()}); t += r.choice([5, 60, 250])
        elif q < 0.33: ev.append({"t": t, "k": "drig", "rig": r.choice([rig0, rigs.rignum(r, rig0), rig0 // 5 * 5 + r.randrange(5)]) % 625})
        elif q < 0.45 and x["conds"]: ev.append({"t": t, "k": "raw", "port": port, "hex": K.cc(r.choice(x["conds"])["n"], r.choice([0, 127])).hex()})
        elif q < 0.65 and btn: press(r.choice(btn), t, r.choice([40, 100, 700]))
        elif x["items"]:
            it = r.choice(x["items"])
            for _ in range(r.choice([1, 1, 2, 3])):
                d = r.choice([40, 100, 100, 900])
                if d > 500 and r.random() < 0.5: ev.append({"t": t + r.randrange(100, d), "k": "dset", "a": list(MORPH), "v": val()})
                if d > 500 and r.random() < 0.2: ev.append({"t": t + r.randrange(100, d), "k": "drig", "rig": r.choice([rig0, rigs.rignum(r, rig0)]) % 625})
                press(it["pin"], t, d); t += d + r.choice([70, 200])
        t += r.choice([r.randrange(10, 100), r.randrange(100, 900), r.randrange(1000, 3000), r.randrange(1000, 3000)])
    if r.random() < 0.3: G.fault(p, r, r.choice(["d2c", "d2c", "c2d"]), ["drop", "drop", "delay", "dup"], lo=1000, hi=6000, arg=r.choice([None, 2200]))
    if r.random() < 0.1: a = r.randrange(1000, dur); ev += [{"t": a, "k": "ddown"}, {"t": a + r.randrange(500, 6000), "k": "dup"}]
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 5), 10, 400)
    return G.done(p)

def mix(d, v):
    return [d["base"][c] + (d["full"][c] - d["base"][c]) * v / FULL for c in range(3)]
def near(got, want, f=1.0): return got is not None and all(abs(a - b * f) <= 1.05 + (f if f < 1 else 0) for a, b in zip(got, want))

def check(ctx):
    res, plan = ctx.res, ctx.plan
    x, cfg = plan["x"], plan["cfg"]
    items = x["items"]
    port = cfg["routings"][0][0]
    scr = Screen(res)
    m = rigs.Model(x)
    D = x["def"]
    pin = {it["pin"]: n for n, it in enumerate(items)}
    bpin = {d["pin"]: d for d in x["disp"] if d["k"] == "btn"}
    cond = {c["n"]: None for c in x["conds"]}
    state, held, pushed = {}, {}, set()
    S = {(None, 0)}             # possible (last value reported, morph position)
    asked = None                # when the last request has been sent which has not been answered
    beats = changed = tch = 0
    started = False
    toggled = {}
    def ch(t):
        nonlocal changed, tch
        changed, tch = beats, t
    def move(f, t):
        nonlocal S
        T = {q for s in S for q in f(s)}
        if T != S or any(f(s) != {s} for s in S): S = T; ch(t)
    def enabled(d):
        if d["k"] == "rs": return enabled(items[d["item"]]) and (not d["only"] or m.active(items[d["item"]]))
        if d.get("en") is None: return True
        c = x["conds"][d["en"]]
        v = cond[c["n"]]
        return v is not None and (v >= 64) != c["inv"]
    was = {}
    def judge(t):
        ok = {s[1] for s in S}
        n = 0
        for k, d in enumerate(x["disp"]):
            if not enabled(d):
                ctx.count("hidden"); was[k] = False
                if d["k"] == "rs" and d["led"] and items[d["item"]]["led"] and enabled(items[d["item"]]) and m.rig is not None:
                    # all LEDs are left to the rig button
                    ctx.count("judged"); ctx.count("given_back")
                    q = 3 * d["item"]
                    if len({scr.led[q + j] for j in range(3)}) > 1: ctx.bad("given_back", "%s shows %s, but its rig is not the active one" % (name(d), [scr.led[q + j] for j in range(3)]), t); return True
                it = items[d["item"]] if d["k"] == "rs" else None
                if it and it["en"] is not None and not enabled(it) and cond[x["conds"][it["en"]]["n"]] is not None:
                    ctx.count("judged"); ctx.count("other_page")
                    for q in range(3 * d["item"], 3 * d["item"] + 3):
                        if not vis.led_ok(scr.led[q], vis.led(OTHER, 0.15)): ctx.bad("other_page", "LED %d is %s although %s is not enabled" % (q, scr.led[q], name(d)), t); return True
                continue
            if was.get(k) is False: ctx.count("shown_again"); was[k] = True
            n += 1
            if d["k"] == "rs" and d["only"]: ctx.count("only_active")
            left = set()
            for v in ok:
                want = d["fix"] or mix(d, v)
                if d["led"] and not all(near(scr.led[i], want, D["on"]) for i in d["led"]): continue
                if d["lab"] and not near(scr.back.get(d["lab"]), want, D["don"]): continue
                left.add(v)
            if not left:
                ctx.bad("display", "%s shows %s / %s, but has to show position %s, which is %s" % (name(d), [scr.led[i] for i in d["led"]] if d["led"] else None, scr.back.get(d["lab"]), sorted(s[1] for s in S), [d["fix"] or mix(d, s[1]) for s in sorted(S, key=lambda s: s[1])]), t)
                return True
            if len(left) < len(ok): ok = left
            ctx.count("judged"); ctx.count("fixed", bool(d["fix"]))
        if n and len(S) == 1:
            v = min(ok)
            ctx.count("several", n > 1); ctx.count("mixed", 0 < v < FULL); ctx.count("full", v == FULL); ctx.count("base", v == 0); ctx.count("silent", asked is not None and t - asked > 1000000)
        return False
    for e in res.trace:
        k, t = e[1], e[0]
        if k in ("led", "txt", "col", "fill", "npx", "rx", "show"):
            scr.apply(e)
            if k == "txt" and scr.lab.get(e[2]) == "BEAT":
                beats += 1
                if beats - changed >= 3 and t - tch > 300000:
                    if judge(t): return
        elif k == "stall": ctx.count("stall")
        elif k == "tx" and e[2] == port:
            for b in K.split(e[3]):
                d = K.decode(b)
                if d[0] == "req" and tuple(d[1:3]) == MORPH: asked = t
        elif k == "m":
            if e[3] and started and e[2] == port:
                d = K.decode(e[3])
                if d[0] == "cc" and d[1] == 32: m.part32(d[2])
                elif d[0] == "cc" and d[1] in cond:
                    if cond[d[1]] != d[2]: cond[d[1]] = d[2]; ch(t)
                elif d[0] == "pc":
                    if m.program(d[1]): ch(t)
                elif d[0] == "val" and tuple(d[1:3]) == MORPH:
                    v = d[3]
                    new = lambda s: {(v, v)} if s[0] != v else {s}
                    if asked is not None:
                        ctx.count("same_report", all(s[0] == v and s[1] != v for s in S))
                        ctx.count("report", any(s[0] != v for s in S))
                        if t - asked < 1990000: move(new, t); asked = None
                        else: move(lambda s: new(s) | {s}, t); ctx.count("unsure")
        elif k == "s":
            started = True
            if state.get(e[2], False) == e[3]: continue
            state[e[2]] = e[3]
            if e[2] in bpin:
                d = bpin[e[2]]
                if e[3] and enabled(d):
                    ctx.count("button")
                    move(lambda s: {(s[0], 0 if s[1] > 0 else FULL)}, t)
            elif e[2] in pin:
                n = pin[e[2]]
                it = items[n]
                pre, rig = m.pre, m.rig
                keep = lambda s: {s, (s[0], 0)}
                zero = lambda s: {(s[0], 0)}
                if e[3] and not enabled(it): ctx.count("press_hidden"); continue
                if not e[3]:
                    if n not in pushed: continue
                    pushed.discard(n)
                    m.release(n)
                    if held.pop(n, False):
                        # of a rig which is not the active one any more
                        ctx.count("momentary")
                        move(zero if m.active(it) else keep, t)
                    continue
                pushed.add(n)
                f = None
                if it["k"] == "rigsel":
                    simple = it["rbm"] and it["off"] is None and it["boff"] is None
                    b, s = m.target(n)
                    if pre is not None: f = zero
                    elif rig is None: f = keep
                    elif simple and m.active(it):
                        ctx.count("second_press")
                        if it["mom"]: f = lambda s: {(s[0], FULL)}; held[n] = True
                        else: f = lambda s: {(s[0], 0 if s[1] > 0 else FULL)}
                    else: f = zero if (b, s) != (m.bank(), m.slot()) else keep
                    m.press(n)
                else:
                    out = m.press(n)
                    if it["k"] == "bankstep": f = zero
                    elif it["k"] in ("steppre", "bankpre"): f = keep
                    elif it["k"] == "rigstep": f = zero if out else None
                    elif out: f = zero if pre is not None or out[0][1] != m.bank() else keep
                if f:
                    if f is zero: ctx.count("reset", any(s[1] for s in S))
                    move(f, t)

def name(d): return "%s %s" % ({"rs": "rig button with morph display", "btn": "morph button", "disp": "morph display"}[d["k"]], {a: b for a, b in d.items() if a in ("item", "lab", "led", "only", "fix") and b is not None})
