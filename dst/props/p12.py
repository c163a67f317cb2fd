"""P12: exactly the selected page's actions react and draw."""
from .. import gen as G, kemper as K, vis, cat, zoo
from ..gen import fn, tup
from ..obs import Screen

ID = "P12"
RUNS = {"quick": 1800, "thorough": 60000}
RULE = ("One or two pagers (rotating, direct with page buttons on other switches, on hold, the second one possibly on a page of the first) with two to four pages; switches with actions on pages and permanent ones in any order, sharing LEDs and labels: "
        "custom messages, commands, and any shipped action that shows device state next to a permanent twin of it; encoders and pedals with one action per page; pages changed, everything used, and the device changed at any time; stalls.")
PROBES = ["custom", "one_shot", "skipped", "page_turn", "page_wrap", "page_direct", "page_hold", "paged_pager", "after_pager", "encoder", "encoder_off", "pedal", "pedal_off", "led_custom", "led_twin", "led_pager", "led_direct", "label_custom", "label_twin", "label_pager", "hidden_value", "two_pagers", "released_hidden", "stall"] 
COL = [(255, 0, 0), (0, 255, 0), (30, 60, 255), (255, 255, 255), (200, 100, 0), (0, 190, 80), (120, 0, 120)]
KINDS = ["EFFECT_STATE"] * 3 + ["EFFECT_STATE_EXT", "RIG_SELECT", "RIG_SELECT", "BANK_SELECT", "BANK_UP", "BANK_DOWN", "RIG_UP", "RIG_DOWN", "MORPH_BUTTON", "MORPH_DISPLAY", "RIG_VOLUME_BOOST", "FIXED_EFFECT_STATE", "TUNER_MODE", "BINARY_SWITCH", "BINARY_SWITCH", "LOOPER", "EFFECT_BUTTON", "HID_KEYBOARD", "PARAMETER_UP_DOWN", "AMP_STATE", "SHOW_TEMPO", "SHOW_TEMPO", "TAP_TEMPO", "DISPLAY_FIXED_TEXT", "CUSTOM_MESSAGE"]
MODES = ["ENABLE", "DISABLE", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY", "NO_STATE_CHANGE"]
SET = ["$RIG_SELECT_DISPLAY_CURRENT_RIG", "$RIG_SELECT_DISPLAY_TARGET_RIG"]

def twin(r, peer, x, k, bidir):
    """A function making the same action several times with different arguments"""
    if not peer:
        col = list(r.choice(COL)); mode = r.choice(MODES)
        m = fn("ClientParameterMapping.get", name="tw%d" % k, set=fn("ControlChange", 100 + k, 0), response=fn("ControlChange", 40 + k, 0))
        return "bin", lambda a: fn("BINARY_SWITCH", m, color=tup(*col), mode="$PushButtonAction." + mode, value_on=64, text="b%d" % k, **a)
    n = r.choice(KINDS)
    if n == "TUNER_MODE" and not bidir: n = "MORPH_BUTTON"      # nobody tells the state of the tuner then
    f = {}
    pos = []
    if n in ("EFFECT_STATE", "EFFECT_STATE_EXT"):
        pos = [r.choice(G.SLOT[:8])]
        if r.random() < 0.4: f["mode"] = "$PushButtonAction." + r.choice(MODES)
        if r.random() < 0.3: f["show_slot_names"] = True
    elif n == "RIG_SELECT":
        pos = [r.choice([1, 2, 3, 4, 5, None])]; f["display_mode"] = r.choice(SET)
        if r.random() < 0.4: f["bank"] = r.choice([1, 2, 125])
        if r.random() < 0.4:
            f["rig_off"] = r.choice([1, 3, 5])
            if "bank" in f: f["bank_off"] = r.choice([1, 5])
    elif n == "BANK_SELECT":
        pos = [r.choice([1, 2, 3, 100, 125])]; f["display_mode"] = r.choice(SET)
        if r.random() < 0.5: f["bank_off"] = r.choice([1, 7])
    elif n in ("BANK_UP", "BANK_DOWN"): f["display_mode"] = r.choice(SET); f["text_callback"] = "$anytext"
    elif n in ("RIG_UP", "RIG_DOWN"): f["display_mode"] = r.choice(SET); f["keep_bank"] = r.random() < 0.5
    elif n == "RIG_VOLUME_BOOST": pos = [r.choice([0.5, 0.625, 1.0])]
    elif n == "FIXED_EFFECT_STATE": pos = [r.randrange(8)]
    elif n == "TUNER_MODE": pass
    elif n == "TAP_TEMPO": f["use_leds"] = True
    elif n == "SHOW_TEMPO": f["text"] = "T {bpm}"
    elif n == "DISPLAY_FIXED_TEXT": pos = ["fixed"]; f["back_color"] = tup(*r.choice(COL))
    elif n == "BOOMERANG": n = "BOOMERANG_" + r.choice(["ERASE", "COPY"])
    elif n == "CUSTOM_MESSAGE": f.update(message=[0xb6, 1, 1], color=tup(1, 2, 200), text="cust")
    elif n == "AMP_STATE": n = "BINARY_SWITCH"; pos = [r.choice(["$MAPPING_AMP_STATE()", "$MAPPING_CABINET_STATE()"])]; f["color"] = tup(200, 0, 50); f["text"] = "AMP"
    elif n == "BINARY_SWITCH":
        pos = ["$%s()" % r.choice(["MAPPING_RIG_VOLUME", "MAPPING_AMP_GAIN", "MAPPING_MAIN_VOLUME"])]
        f["color"] = tup(0, 200, 50); f["text"] = "bin"; f["value_on"] = r.choice([1, 8000, 16383]); f["comparison_mode"] = "$BinaryParameterCallback." + r.choice(["EQUAL", "GREATER", "GREATER_EQUAL", "LESS", "LESS_EQUAL"])
    elif n == "LOOPER": n = "LOOPER_REC_PLAY_OVERDUB"
    elif n == "EFFECT_BUTTON": pos = [r.randrange(1, 5)]; f["text"] = "E"; f["use_internal_state"] = False
    elif n == "HID_KEYBOARD": pos = [4]; f["text"] = "key"; f["color"] = tup(255, 125, 0)
    elif n == "PARAMETER_UP_DOWN": pos = ["$MAPPING_MONITOR_VOLUME()", r.choice([100, -100])]; f["text"] = "mon"
    return n, lambda a: fn(n, *pos, **{**f, **{k: v for k, v in a.items() if n != "DISPLAY_FIXED_TEXT" or k != "use_leds"}})

def gen(r, i, tier):
    peer = r.random() < 0.6
    p = G.base(r, r.choice([8000, 12000, 16000]), peer=peer)
    cfg, dur = p["cfg"], p["dur"]
    port = cfg["routings"][0][0]
    if peer and r.random() < 0.5: cfg["bidir"] = {"lease": 30, "tuner": False}; p["peer"]["sense_ms"] = 500
    x = p["x"] = {"pg": [], "sw": [], "enc": [], "pot": [], "twins": []}
    cfg["labels"].append({"name": "BEAT", "cb": fn("Beat")})
    sws = []                                    # [actions, hold] as [(expr, spec)]
    npg = r.choice([1, 1, 1, 2])
    cc = iter(range(40, 100))
    nlab = [0]
    def lab():
        nlab[0] += 1
        return G.label(p, "D%d" % nlab[0], back=tup(100, 100, 100))
    nested = False
    for k in range(npg):
        direct = r.random() < 0.4
        pages = [{"id": 10 * k + n + 1, "color": list(r.choice(COL)), "text": "%s%d" % ("PQ"[k], n)} for n in range(r.choice([2, 2, 3, 4]))]
        if r.random() < 0.15: pages[0].pop("color")
        if r.random() < 0.15: pages[-1].pop("text")
        g = {"pages": [{"id": q["id"], "color": q.get("color", [255, 255, 255]), "text": q.get("text", "")} for q in pages], "sel": None, "b": [0.15, 0.02, 0.3], "lab": None, "leds": True, "on": None}
        arg = {"pages": [dict(q, color=tup(*q["color"])) if "color" in q else q for q in pages]}
        if direct: g["sel"] = r.randrange(len(pages)); arg["select_page"] = pages[g["sel"]]["id"]
        if r.random() < 0.3: g["b"] = [0.5, 0.1, 0.8]; arg.update(led_brightness=0.5, led_brightness_off=0.1, led_brightness_on=0.8)
        if r.random() < 0.5: l = lab(); arg["display"] = l; g["lab"] = l[1:]
        if r.random() < 0.2: g["leds"] = False; arg["use_leds"] = False
        if k == 1 and r.random() < 0.35:
            nested = True; n = r.randrange(len(x["pg"][0]["pages"]))
            g["on"] = [0, n]; arg["id"] = x["pg"][0]["pages"][n]["id"]; arg["enable_callback"] = "$_pager0.enable_callback"
        cfg["defs"].append({"name": "_pager%d" % k, "expr": fn("PagerAction", **arg)})
        x["pg"].append(g)
        me = [("$_pager%d" % k, {"k": "pager", "g": k, "on": g["on"], "leds": g["leds"], "lab": None})]
        hold = r.random() < 0.35
        sws.append([[], me] if hold else [me, None])
        for n in range(len(pages)):
            if direct and n == g["sel"] and r.random() < 0.8: continue
            if r.random() < (0.85 if direct else 0.2):
                on = None; a = {}
                if k == 1 and r.random() < 0.2:
                    z = r.randrange(len(x["pg"][0]["pages"])); on = [0, z]; a = {"id": x["pg"][0]["pages"][z]["id"], "enable_callback": "$_pager0.enable_callback"}
                q = [(fn("_pager%d.proxy" % k, pages[n]["id"], **a), {"k": "proxy", "g": k, "n": n, "on": on, "leds": True, "lab": None})]
                if len(sws) < 6: sws.append([q, None])
    shared = {}                                 # labels shared between pages: (label, page) is taken
    slabs = [lab() for _ in range(r.choice([0, 1, 2]))]
    twins = []
    ntw = r.randrange(0, min(4, 10 - len(sws)))
    for k in range(ntw):
        n, f = twin(r, peer, x, k, "bidir" in cfg)
        l = lab()
        e = f({"display": l})
        twins.append([n, f, l[1:], len(sws)])
        sws.append([[(e, {"k": "perm", "on": None, "leds": n != "DISPLAY_FIXED_TEXT", "lab": None, "tw": k})], None])
    pagesw = []
    for _ in range(r.randrange(1, max(2, min(5, 11 - len(sws) + 1)))):
        q = r.random()
        if q < 0.25 and npg: s = sws[0] if r.random() < 0.7 else r.choice(sws[:len(sws) - ntw] or sws)
        elif len(sws) < 11: s = [[], None]; sws.append(s)
        else: continue
        if any(b.get("tw") is not None and b["k"] == "perm" for _, b in s[0]): continue
        for _ in range(r.choice([1, 2, 3, 3, 4, 5])):
            on, a = None, {}
            if r.random() < 0.8:
                gi = r.randrange(npg); pi = r.randrange(len(x["pg"][gi]["pages"]))
                on = [gi, pi]; a = {"id": x["pg"][gi]["pages"][pi]["id"], "enable_callback": "$_pager%d.enable_callback" % gi}
            b = {"on": on, "leds": True, "lab": None}
            if r.random() < 0.2: b["leds"] = False; a["use_leds"] = False
            for l in slabs:
                if b["lab"] is None and on is not None and (l, on[0]) and r.random() < 0.5 and all(z != l or (o is not None and o[0] == on[0] and o != on) for z, o in shared.get("u", [])):
                    shared.setdefault("u", []).append((l, on)); b["lab"] = l[1:]; a["display"] = l
            if b["lab"] is None and nlab[0] < 12 and r.random() < 0.3: l = lab(); b["lab"] = l[1:]; a["display"] = l
            q = r.random()
            if q < 0.4 or (not twins and q < 0.7):
                n = next(cc, None)
                if n is None: continue
                b.update(k="custom", n=n, col=list(r.choice(COL)), text="c%d" % n)
                e = fn("CUSTOM_MESSAGE", message=[0xb5, n, 1], message_release=[0xb5, n, 2], color=tup(*b["col"]), text=b["text"], **a)
            elif peer and on is not None and q < 0.55:
                z = r.choice([("BANK_SELECT", [r.randrange(1, 6)], {"preselect": True}), ("BANK_UP", [], {"preselect": True}), ("BANK_DOWN", [], {"preselect": True}), ("RIG_SELECT", [r.choice([1, 2, 3])], {}), ("RIG_SELECT", [r.choice([1, 2, 3])], {}), ("EFFECT_BUTTON", [r.randrange(1, 5)], {"text": "E"}), ("MORPH_BUTTON", [], {}), ("RIG_UP", [], {}), ("PARAMETER_UP_DOWN", ["$MAPPING_MONITOR_VOLUME()", 100], {"text": "m{val}"}), ("SHOW_TEMPO", [], {}), ("BOOMERANG_COPY", [], {}), ("BOOMERANG_ERASE", [], {}), ("ROTATING_MESSAGES", [], {"messages": [[0xb6, 1, 1], [0xb6, 1, 2]], "led_colors": [tup(200, 30, 1), tup(4, 200, 90)], "texts": ["r0", "r1"]})])
                g = dict(z[2])
                if z[0] in ("BANK_SELECT", "BANK_UP", "BANK_DOWN", "RIG_SELECT", "RIG_UP"): g["display_mode"] = r.choice(SET)
                b.update(k="any")
                if "preselect" in g: x["pre"] = True        # what rig and bank twins show depends on when they have been drawn then
                e = fn(z[0], *z[1], **g, **a)
            elif q < 0.5 or not twins:
                n = next(cc, None)
                if n is None: continue
                if b["lab"]: a.pop("display"); shared["u"] = [z for z in shared.get("u", []) if not (z[0][1:] == b["lab"] and z[1] == on)]
                b.update(k="one", n=n, leds=False, lab=None); a["use_leds"] = False
                e = fn("BINARY_SWITCH", fn("ClientParameterMapping.get", name="one%d" % n, set=fn("KemperNRPNMessage", 1, 0x60, n), response=fn("ControlChange", n, 6)), mode="$PushButtonAction.ONE_SHOT", **a)
            else:
                z = r.randrange(len(twins))
                b.update(k="twin", tw=z); e = twins[z][1](a)
                if twins[z][0] == "DISPLAY_FIXED_TEXT": b["leds"] = False
            part = s[0] if s[1] is None or r.random() < 0.7 else s[1]
            part.insert(r.randrange(len(part) + 1), (e, b))
    r_ = list(range(len(sws))); r.shuffle(r_)
    used = []
    for n in r_:
        s = sws[n]
        opts = {"holdTimeMillis": r.choice([300, 600])} if s[1] is not None else None
        pin = G.switch(p, [e for e, _ in s[0]], hold=[e for e, _ in s[1]] if s[1] is not None else None, opts=opts)
        x["sw"].append({"pin": pin, "acts": [b for _, b in s[0]], "hold": [b for _, b in s[1]] if s[1] is not None else None, "H": opts["holdTimeMillis"] if opts else None, "px": [3 * len(x["sw"]) + z for z in range(3)]})
        if not any(b["k"] == "perm" for _, b in s[0]): used.append((pin, opts, any(b["k"] in ("pager", "proxy") for _, b in s[0] + (s[1] or []))))
    p["echo"] = [{"port": port, "j": k, "kind": "resp", "n": 100 + k, "off": None, "lat": r.choice([1, 50]), "fix": None} for k, t in enumerate(twins) if not peer]
    x["twins"] = [{"n": t[0], "lab": t[2], "pin": x["sw"][r_.index(t[3])]["pin"]} for t in twins]
    gap = r.choice([300, 1500, 3000])
    for pin, o, pg in used:
        t = r.randrange(600, 3000)
        while t < dur - 300:
            d = r.choice([r.randrange(5, 60), r.randrange(40, 500)])
            if o: d = r.choice([r.randrange(5, o["holdTimeMillis"] - 150), o["holdTimeMillis"] + r.randrange(150, 800)])
            G.press(p, pin, t + r.random(), d)
            t += d + r.choice([r.randrange(10, 80), r.randrange(100, gap + 100), r.randrange(gap, 2 * gap + 1000)]) * (1 if pg else 2)
    cfg["enc0"], cfg["adc0"] = {}, {}
    for k in range(r.choice([0, 0, 1, 2])):
        a, b = G.EPINS[k]
        acts, ex = [], []
        for _ in range(r.choice([1, 2, 3])):
            n = next(cc, None)
            if n is None: continue
            on, arg = None, {}
            if r.random() < 0.85:
                gi = r.randrange(npg); pi = r.randrange(len(x["pg"][gi]["pages"])); on = [gi, pi]; arg = {"id": x["pg"][gi]["pages"][pi]["id"], "enable_callback": "$_pager%d.enable_callback" % gi}
            acts.append({"n": n, "on": on}); ex.append(fn("EncoderAction", fn("ClientParameterMapping.get", name="e%d" % n, set=fn("KemperNRPNMessage", 1, 0x60, n)), step_width=1, **arg))
        cfg["inputs"].append({"type": "enc", "pin": a, "pin2": b, "actions": ex}); x["enc"].append({"pin": a, "acts": acts})
        cfg["enc0"][a] = r.choice([0, -3])
        t = 800
        while t < dur - 300: p["events"].append({"t": t, "k": "enc", "pin": a, "d": r.choice([1, -1, 1, -1, 4, -6])}); t += r.choice([20, 150, 700])
    for k in range(r.choice([0, 0, 0, 1])):
        pin = G.APINS[k]
        acts, ex = [], []
        for _ in range(r.choice([1, 2, 3])):
            n = next(cc, None)
            if n is None: continue
            on, arg = None, {}
            if r.random() < 0.85:
                gi = r.randrange(npg); pi = r.randrange(len(x["pg"][gi]["pages"])); on = [gi, pi]; arg = {"id": x["pg"][gi]["pages"][pi]["id"], "enable_callback": "$_pager%d.enable_callback" % gi}
            acts.append({"n": n, "on": on}); ex.append(fn("AnalogAction", fn("ClientParameterMapping.get", name="a%d" % n, set=fn("KemperNRPNMessage", 1, 0x60, n)), **arg))
        cfg["inputs"].append({"type": "pot", "pin": pin, "actions": ex}); x["pot"].append({"pin": pin, "acts": acts})
        cfg["adc0"][pin] = r.randrange(65536)
        t = 800
        while t < dur - 300: p["events"].append({"t": t, "k": "adc", "pin": pin, "v": r.choice([0, 65535, r.randrange(65536)])}); t += r.choice([50, 300, 1500, 3000])
    r.shuffle(cfg["inputs"])
    if peer:
        for _ in range(r.choice([0, 3])): p["events"].append({"t": r.randrange(500, dur), "k": "dset", "a": [4, 0], "v": r.choice([64 * 100, 64 * 120, 64 * 121 + 7])})
        for _ in range(r.choice([0, 0, 5])): p["events"].append({"t": r.randrange(500, dur), "k": "dpulse", "v": r.randrange(2)})
        for _ in range(r.choice([0, 2, 5])): p["events"].append({"t": r.randrange(500, dur), "k": "drig", "rig": r.choice([0, 4, 5, 624, r.randrange(625), r.randrange(10)])})
        for _ in range(r.choice([0, 3, 10])): p["events"].append({"t": r.randrange(500, dur), "k": "dset", "a": r.choice([[50 + z, q] for z in (0, 1, 2, 3, 6, 8, 10) for q in (0, 3)] + [[0x0a, 4], [4, 1], [0x0a, 2], [0x0c, 2], [0x7f, 0]]), "v": r.choice([0, 1, 1, 33, 100, 8000, 16383])})
    else:
        for _ in range(r.choice([0, 5, 20])): p["events"].append({"t": r.randrange(300, dur), "k": "raw", "port": port, "hex": K.cc(40 + r.randrange(4), r.choice([0, 1, 63, 64, 127])).hex()})
    if r.random() < 0.25: G.stalls(p, r, r.randrange(1, 4), 10, 400)
    return G.done(p)

class World:
    def __init__(self, x):
        self.x, self.page = x, [0] * len(x["pg"])
    def enabled(self, b): return b["on"] is None or self.page[b["on"][0]] == b["on"][1]
    def pushed(self, b, ctx):
        """-> messages"""
        if b["k"] in ("pager", "proxy"):
            g = self.x["pg"][b["g"]]; n = self.page[b["g"]]
            if b["k"] == "proxy": self.page[b["g"]] = b["n"]; ctx.count("page_direct")
            elif g["sel"] is not None: self.page[b["g"]] = g["sel"]; ctx.count("page_direct")
            else:
                self.page[b["g"]] = (n + 1) % len(g["pages"]); ctx.count("page_turn"); ctx.count("page_wrap", self.page[b["g"]] == 0)
            ctx.count("paged_pager", b["on"] is not None)
            return [], True
        if b["k"] == "custom": ctx.count("custom"); return [("msg", b["n"], 1)], False
        if b["k"] == "one": ctx.count("one_shot"); return [("set", b["n"], 1)], False
        return [], False
    def released(self, b): return [("msg", b["n"], 2)] if b["k"] == "custom" else []

def check(ctx):
    plan, res = ctx.plan, ctx.res
    x, cfg = plan["x"], plan["cfg"]
    scr = Screen(res)
    w = World(x)
    pins = {s["pin"]: dict(s, prev=False, down=[], t=0, fired=False) for s in x["sw"]}
    encs = {e["pin"]: {"acts": e["acts"], "pos": None, "val": {}, "last": {}} for e in x["enc"]}
    pots = {e["pin"]: {"acts": e["acts"], "first": True, "v": None, "t": 0, "out": {}} for e in x["pot"]}
    owner = {a["n"]: ("pot", e["pin"], a) for e in x["pot"] for a in e["acts"]}
    cur = None                        # [what, expected messages, got]
    beats = 0
    since = {}                        # what -> beats when it changed last
    changed = 0                       # last page change (beats)
    used = {}                         # switch -> time of last use
    tw = {t["pin"]: t for t in x["twins"]}
    twl = {t["lab"]: t for t in x["twins"]}
    tsw = [[s for s in x["sw"] if s["pin"] == t["pin"]][0] for t in x["twins"]]
    hidden = set()
    if x.get("pre"): skip_tw = {k for k, t in enumerate(x["twins"]) if "RIG" in t["n"] or "BANK" in t["n"]}
    else: skip_tw = set()
    if any(t["n"] == "TUNER_MODE" for t in x["twins"]): skip_tw |= {k for k, t in enumerate(x["twins"]) if t["n"] == "SHOW_TEMPO"}     # rests in tuner mode
    ctx.count("two_pagers", len(x["pg"]) > 1)
    iv = plan["cfg"]["config"].get("updateInterval", 200) * 1000
    usedtw, last = {}, {}
    def close():
        nonlocal cur
        if cur is None: return False
        c, cur = cur, None
        if c[1] is None: return False
        ctx.count("judged")
        if c[1] != c[2]:
            ctx.bad("react", "%s: sent %s, but the actions of the pages %s have to send %s" % (c[0], c[2], w.page, c[1]), c[3])
            return True
        return False
    def led_owners(s):
        acts = [b for b in s["acts"] + (s["hold"] or []) if b["leds"] and w.enabled(b)]
        return [(b, vis.segments(s["px"], len(acts), n)) for n, b in enumerate(acts)]
    def judge(t):
        """at a round mark, pages unchanged for two rounds"""
        old = lambda *k: all(beats - since.get(q, (0, 0))[0] >= 2 and t - since.get(q, (0, 0))[1] > 300000 for q in k)
        for s in x["sw"]:
            for b, seg in led_owners(s):
                if b["k"] in ("one", "perm", "any") or not seg: continue
                got = [scr.led[z] for z in seg]
                if b["k"] == "custom": want = [vis.led(b["col"], 0.15)] * len(seg); n = "led_custom"
                elif b["k"] in ("pager", "proxy"):
                    g = x["pg"][b["g"]]
                    if b["k"] == "pager" and g["sel"] is None: q = g["pages"][w.page[b["g"]]]; br = g["b"][0]; n = "led_pager"
                    else:
                        q = b["n"] if b["k"] == "proxy" else g["sel"]
                        br = g["b"][2] if w.page[b["g"]] == q else g["b"][1]; q = g["pages"][q]; n = "led_direct"
                    want = [vis.led(q["color"], br)] * len(seg)
                else:
                    o = tsw[b["tw"]]
                    if b["tw"] in skip_tw or t - usedtw.get(b["tw"], -10 ** 9) < 3000000 or not old(*[("led", z) for z in o["px"] + seg]): continue
                    want = [scr.led[z] for z in o["px"]]; n = "led_twin"
                    if len(seg) < 3:
                        if any(abs(u - v) > 1 for c in want for u, v in zip(c, want[0])): continue
                        want = want[:len(seg)]
                    if any(abs(u - v) > 1 for c, d in zip(got, want) for u, v in zip(c, d)):
                        ctx.bad("led", "LEDs %s show %s, the permanent %s shows %s (pages %s)" % (seg, got, x["twins"][b["tw"]]["n"], want, w.page), t); return True
                    ctx.count(n); ctx.count("judged"); continue
                if not all(vis.led_ok(a, c) for a, c in zip(got, want)):
                    ctx.bad("led", "LEDs %s show %s, but %s %s on the selected pages %s owns them: %s" % (seg, got, b["k"], b.get("text", ""), w.page, want), t); return True
                ctx.count(n); ctx.count("judged")
            for b in s["acts"] + (s["hold"] or []):
                if not b["lab"] or not w.enabled(b) or b["k"] not in ("custom", "twin"): continue
                l = b["lab"]
                got = (scr.text.get(l), scr.back.get(l), scr.tcol.get(l))
                if b["k"] == "custom":
                    want = (b["text"], tuple(b["col"]), vis.text_color(b["col"])); n = "label_custom"
                else:
                    o = x["twins"][b["tw"]]["lab"]
                    if b["tw"] in skip_tw or t - usedtw.get(b["tw"], -10 ** 9) < 3000000 or not old(*[(c, z) for c in ("txt", "back", "col") for z in (o, l)]): continue
                    want = (scr.text.get(o), scr.back.get(o), scr.tcol.get(o)); n = "label_twin"
                if got != want:
                    ctx.bad("label", "label %s shows %s, but %s has to show %s (pages %s)" % (l, got, b.get("text") or x["twins"][b["tw"]]["n"], want, w.page), t); return True
                ctx.count(n); ctx.count("judged")
        for k, g in enumerate(x["pg"]):
            if g["lab"] and (g["on"] is None or w.enabled(g)):
                q = g["pages"][w.page[k]]; want = (q["text"], tuple(q["color"]), vis.text_color(q["color"]))
                got = (scr.text.get(g["lab"]), scr.back.get(g["lab"]), scr.tcol.get(g["lab"]))
                if got != want: ctx.bad("pager", "pager label %s shows %s, but page %s is selected: %s" % (g["lab"], got, q["id"], want), t); return True
                ctx.count("label_pager"); ctx.count("judged")
        return False
    for e in res.trace:
        k, t = e[1], e[0]
        if k == "stall": ctx.count("stall")
        if k in ("s", "a", "e", "m"):
            if close(): return
        if k in ("led", "txt", "col", "fill", "npx", "rx", "show"):
            q = scr.apply(e)
            if q and q[0] != "show":
                if q in last and last[q] == e[3]: q = None
                else: last[q] = e[3]
            if k == "txt" and scr.lab.get(e[2]) == "BEAT":
                beats += 1
                if beats - changed > 3:
                    if judge(t): return
            elif q: since[q] = beats, t
        elif k == "tx":
            for m in K.split(e[3]):
                d = K.decode(m)
                if m[0] == 0xb5: m = ("msg", m[1], m[2])
                elif d[0] == "val" and d[1] == 0x60 or m[:3] == b"\xf0\x00\x20" and len(m) > 10 and m[6] == 1 and m[8] == 0x60: m = ("set", m[9], m[10] * 128 + m[11])
                else: continue
                if cur is None: ctx.bad("react", "%s is sent without any input" % (m,), t); return
                if cur[4](m): cur[2].append(m)
                else: ctx.bad("react", "%s: %s is sent (pages %s)" % (cur[0], m, w.page), t); return
        elif k == "m":
            cur = None
            if e[3] and e[3][0] == 0xf0: hidden.add(1)
            if any(b["k"] == "twin" and not w.enabled(b) for s in x["sw"] for b in s["acts"]) and e[3]: ctx.count("hidden_value")
        elif k == "s" and e[2] in pins:
            s = pins[e[2]]
            want, turned = [], False
            if e[3] and not s["prev"]:
                if s["hold"] is not None: s["t"] = t; s["fired"] = False
                else:
                    s["down"] = []
                    for b in s["acts"]:
                        if not w.enabled(b): ctx.count("skipped"); continue
                        ctx.count("after_pager", turned)
                        s["down"].append(b)
                        m, q = w.pushed(b, ctx); want += m; turned |= q
            elif s["hold"] is not None and s["prev"]:
                d = (t - s["t"]) / 1000
                if not s["fired"] and abs(d - s["H"]) < 2.5: return       # too close to tell (P10)
                if not s["fired"] and d > s["H"]:
                    s["fired"] = True
                    for b in s["hold"]:
                        if not w.enabled(b): ctx.count("skipped"); continue
                        m, q = w.pushed(b, ctx); want += m + w.released(b); turned |= q
                        ctx.count("page_hold", q)
                elif not e[3] and not s["fired"]:
                    for b in s["acts"]:
                        if not w.enabled(b): ctx.count("skipped"); continue
                        m, q = w.pushed(b, ctx); want += m + w.released(b); turned |= q
            elif not e[3] and s["prev"]:
                for b in s["down"]: want += w.released(b); ctx.count("released_hidden", not w.enabled(b))
                s["down"] = []
            if e[3] or s["prev"]:
                for b in s["acts"] + (s["hold"] or []):
                    if b["k"] == "twin": usedtw[b["tw"]] = t
            s["prev"] = e[3]
            if turned: changed = beats
            ns = {b["n"] for b in s["acts"] + (s["hold"] or []) if "n" in b and b["k"] != "proxy"}
            cur = ["switch " + e[2], want, [], t, lambda m, ns=ns: m[1] in ns]
        elif k == "e" and e[2] in encs:
            q = encs[e[2]]
            d = 0 if q["pos"] is None else e[3] - q["pos"]
            want = []
            for a in q["acts"]:
                n = a["n"]
                if not w.enabled(a): q["last"][n] = None; ctx.count("encoder_off", d != 0); continue
                if q["last"].get(n) is not None and d:
                    v0 = q["val"].get(n)
                    v = min(16383, max(0, (v0 or 0) + d))
                    if v0 is None or v != v0: want.append(("set", n, v)); q["val"][n] = v; ctx.count("encoder")
                q["last"][n] = e[3]
            q["pos"] = e[3]
            ns = {a["n"] for a in q["acts"]}
            cur = ["encoder " + e[2], want, [], t, lambda m, ns=ns: m[1] in ns]
        elif k == "a" and e[2] in pots:
            q = pots[e[2]]
            if q["first"]: q["first"] = False; cur = None; continue
            ns = {a["n"]: a for a in q["acts"]}
            for a in q["acts"]: ctx.count("pedal_off", not w.enabled(a) and q["v"] is not None and abs(q["v"] - e[3]) > 1000)
            # rested: what has been sent last has to fit
            if q["v"] is None or abs(q["v"] - e[3]) > 0: q["v"] = e[3]; q["t"] = t; q["b"] = beats
            elif t - q["t"] > 150000:
                for a in q["acts"]:
                    if w.enabled(a) and beats - max(changed, q["b"]) > 2 + 150000 // iv:
                        ctx.count("pedal"); ctx.count("judged")
                        v = 0 if e[3] < 1024 else e[3] / 4
                        if a["n"] not in q["out"] or abs(q["out"][a["n"]] - v) > 130:
                            ctx.bad("pedal", "the action of the selected page (CC %d) sent %s last, but the pedal rests at %s" % (a["n"], q["out"].get(a["n"]), e[3]), t); return
            def ok(m, ns=ns, q=q):
                if m[1] in ns and w.enabled(ns[m[1]]): q["out"][m[1]] = m[2]; return True
                return False
            cur = ["pedal " + e[2], None, [], t, ok]
