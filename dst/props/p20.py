"""P20: temporary previews always give the label back."""
from .. import gen as G, kemper as K
from ..gen import fn, tup
from ..obs import Screen

ID = "P20"
RUNS = {"quick": 1800, "thorough": 80000}
RULE = ("One to three labels showing received values or the rig name, used for previews by up to six sources in any combination: encoders with and without preselection, pedals, step buttons, the tempo display; "
        "own timeouts, blink intervals and colours; turns, accepts, cancels, pedal moves, presses and reset values of several sources at the same time, content changing before, during and after; update intervals, stalls, slow displays, floods of messages.")
PROBES = ["direct", "pending", "accepted", "cancelled", "reset", "replaced", "replaced_pending", "returned", "content_changed", "blink", "normal", "other_label", "timeout_kept", "rig_name", "tempo", "stall", "long_pending"]
WHITE = (255, 255, 255)

def gen(r, i, tier):
    peer = r.random() < 0.4
    p = G.base(r, r.choice([6000, 9000, 12000]), peer=peer)
    cfg, ev, dur = p["cfg"], p["events"], p["dur"]
    port = cfg["routings"][0][0]
    x = p["x"] = {"lab": [], "src": [], "btn": []}
    for k in range(r.choice([1, 1, 2, 3])):
        if peer and k == 0 and r.random() < 0.6:
            x["lab"].append({"name": "L0", "n": None}); G.label(p, "L0", cb=fn("KemperRigNameCallback", show_name=True))
        else:
            x["lab"].append({"name": "L%d" % k, "n": 100 + k})
            kw = {"color": [0, 0, 0]} if False else {}
            G.label(p, "L%d" % k, cb=fn("ParameterDisplayCallback", mapping=fn("ClientParameterMapping.get", name="s%d" % k, response=fn("ControlChange", 100 + k, 0))), **kw)
    G.label(p, "BEAT", back=False, cb=fn("Beat"))
    if peer: cfg["bidir"] = {"lease": 30, "tuner": False}
    nb = r.choice([1, 2, 3])
    for k in range(nb): cfg["defs"].append({"name": "_b%d" % k, "expr": fn("ENCODER_BUTTON")})
    rst = r.random() < 0.4
    if rst: cfg["defs"].append({"name": "_rst", "expr": fn("ClientParameterMapping.get", name="rst", response=fn("ControlChange", 120, 0))})
    cfg["enc0"], cfg["adc0"] = {}, {}
    def lab():
        q = r.choice(x["lab"])["name"]
        return q
    def opt(a, s, names):
        s["to"] = 1500
        if r.random() < 0.5: s["to"] = a[names] = r.choice([1, 100, 300, 700, 2500])
    ne, na = 0, 0
    for k in range(r.choice([1, 2, 2, 3, 4, 5, 6])):
        s = {"k": r.choice(["enc", "pre", "pre", "pre", "pot", "pud"] + (["tempo"] if peer else [])), "n": 60 + k, "lab": lab(), "name": r.choice(["x%d", "Vol %d"]) % k}
        a = {}
        mname = {"name": s["name"]}
        if s["k"] in ("enc", "pre"):
            if ne >= 3: continue
            s["pin"], pin2 = G.EPINS[ne]; ne += 1
            cfg["enc0"][s["pin"]] = r.randrange(-50, 50)
            opt(a, s, "preview_timeout_millis")
            a.update(preview_display="$" + s["lab"], max_value=127, step_width=r.choice([1, 8]))
            s["step"] = a["step_width"]
            s["blink"], s["bcol"] = 400, [200, 200, 200]
            s["conv"] = r.random() < 0.3
            if s["conv"]: a["convert_value"] = "$conv"
            if s["k"] == "pre":
                s["acc"] = r.randrange(nb); a["accept_action"] = "$_b%d" % s["acc"]
                s["can"] = None
                if nb > 1 and r.random() < 0.6: s["can"] = r.choice([z for z in range(nb) if z != s["acc"]]); a["cancel_action"] = "$_b%d" % s["can"]
                if r.random() < 0.3: s["blink"] = a["preview_blink_period_millis"] = r.choice([100, 250, 900])
                if r.random() < 0.3: s["bcol"] = [255, 0, 0]; a["preview_blink_color"] = tup(255, 0, 0)
                s["rst"] = rst and r.random() < 0.6
                if s["rst"]: a["preview_reset_mapping"] = "$_rst"
            cfg["inputs"].append({"type": "enc", "pin": s["pin"], "pin2": pin2, "actions": [fn("EncoderAction", fn("ClientParameterMapping.get", set=fn("ControlChange", s["n"], 0), response=fn("ControlChange", 20 + k, 0), **mname), **a)]})
            s["v"] = r.randrange(128)
            ev.append({"t": 400, "k": "raw", "port": port, "hex": K.cc(20 + k, s["v"]).hex()})
            s["rn"] = 20 + k
            t = 600 + r.randrange(1500)
            while t < dur - 100:
                for _ in range(r.choice([1, 1, 3, 8])):
                    ev.append({"t": t, "k": "enc", "pin": s["pin"], "d": r.choice([1, 1, -1, -1, 2, -3, 10])}); t += r.choice([5, 40, 150, 400])
                t += r.choice([100, 800, 2000, 4000])
        elif s["k"] == "pot":
            if na >= 2: continue
            s["pin"] = G.APINS[na]; na += 1
            opt(a, s, "change_timeout_millis")
            s["conv"] = r.random() < 0.3
            if s["conv"]: a["convert_value"] = "$conv"
            cfg["inputs"].append({"type": "pot", "pin": s["pin"], "actions": [fn("AnalogAction", fn("ClientParameterMapping.get", set=fn("ControlChange", s["n"], 0), **mname), change_display="$" + s["lab"], **a)]})
            t = 600 + r.randrange(1500)
            while t < dur - 100:
                for _ in range(r.choice([1, 1, 4])): ev.append({"t": t, "k": "adc", "pin": s["pin"], "v": r.randrange(65536)}); t += r.choice([20, 60, 300])
                t += r.choice([200, 1000, 2500, 5000])
        elif s["k"] == "pud":
            opt(a, s, "change_timeout_millis")
            if r.random() < 0.4: a["repeat_interval_millis"] = r.choice([50, 0])
            s["conv"] = False
            s["pin"] = G.switch(p, [fn("PARAMETER_UP_DOWN", fn("ClientParameterMapping.get", set=fn("ControlChange", s["n"], 0), response=fn("ControlChange", 20 + k, 0), **mname), r.choice([1, -1, 10]), change_display="$" + s["lab"], **a)])
            s["rn"] = 20 + k
            ev.append({"t": 400, "k": "raw", "port": port, "hex": K.cc(20 + k, r.randrange(128)).hex()})
            t = 600 + r.randrange(2500)
            while t < dur - 1300: d = r.choice([30, 100, 1000]); G.press(p, s["pin"], t, d); t += d + r.choice([100, 1000, 3000])
        else:
            if any(q["k"] == "tempo" for q in x["src"]): continue
            opt(a, s, "change_timeout_millis")
            G.switch(p, [fn("SHOW_TEMPO", change_display="$" + s["lab"], **a)])
            t = r.randrange(500, 2500)
            while t < dur: ev.append({"t": t, "k": "dset", "a": [4, 0], "v": r.randrange(30 * 64, 200 * 64)}); t += r.choice([300, 1000, 3000])
        x["src"].append(s)
    for k in range(nb):
        pin = G.switch(p, ["$_b%d" % k])
        x["btn"].append(pin)
        t = r.randrange(600, 4000)
        while t < dur - 200: G.press(p, pin, t, 60); t += r.choice([150, 700, 2500, 6000])
    if rst:
        ev.append({"t": 350, "k": "raw", "port": port, "hex": K.cc(120, 1).hex()})
        for _ in range(r.choice([0, 1, 3])): ev.append({"t": r.randrange(700, dur), "k": "raw", "port": port, "hex": K.cc(120, r.randrange(3)).hex()})
    for l in x["lab"]:
        if l["n"] is None:
            for _ in range(r.choice([0, 2, 5])): ev.append({"t": r.randrange(500, dur), "k": "dname", "v": "Name%d" % r.randrange(100), "d": "2024-%d" % r.randrange(1000)})
        else:
            for _ in range(r.choice([0, 2, 8, 30])): ev.append({"t": r.randrange(300, dur), "k": "raw", "port": port, "hex": K.cc(l["n"], r.randrange(128)).hex()})
    # the order in which inputs are processed is the one of the configuration
    r.shuffle(cfg["inputs"])
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 5), 10, 400, 600)
    return G.done(p)

def text(s, v):
    if s["k"] == "tempo": return "%d bpm" % int(v / 64 + 0.5), "%d bpm" % int(v / 64)
    if s.get("conv"): return None
    return ("%s: " % s["name"] if s["name"] else "") + "%d%%" % round(v * 100 / 127),

def check(ctx):
    res, plan = ctx.res, ctx.plan
    x, cfg = plan["x"], plan["cfg"]
    port = cfg["routings"][0][0]
    scr = Screen(res)
    labs = {l["name"]: dict(l, content=None, st=None, prev=None, normal=None, blinks=[]) for l in x["lab"]}
    src = x["src"]
    bye = {}
    for s in src:
        s = dict(s)
        if s["k"] in ("enc", "pre"): bye[s["pin"]] = s
    bynum = {s["n"]: s for s in src if s["k"] in ("enc", "pot", "pud")}
    for q in list(bye.values()):
        if q["k"] == "enc": bynum[q["n"]] = q
        q["cur"], q["pos"], q["pend"], q["rl"] = None, None, None, None
    order = [bye[c["pin"]] for c in cfg["inputs"] if c["pin"] in bye]
    tempo = next((s for s in src if s["k"] == "tempo"), None)
    bpm = None
    rstv = None
    started = False
    down = {}
    beats = []
    stalled = 0
    dirty = True
    lastm = None
    def drop(s):
        """a pending preselection ends at once"""
        s["pend"] = None
    def preview(l, s, texts, t, stay):
        L = labs[l]
        if L["st"] is not None: ctx.count("replaced", L["st"]["src"] != s["n"])
        for q in order:
            if q is not s and q["lab"] == l and q["pend"] is not None: drop(q); ctx.count("replaced_pending")
        L["st"] = {"src": s["n"], "texts": texts, "stay": stay, "t": t, "to": s["to"] * 1000, "t0": L["st"]["t0"] if stay and L["st"] and L["st"]["stay"] and L["st"]["src"] == s["n"] else t,
                   "bcol": tuple(s.get("bcol", ())), "blink": s.get("blink"), "changed": False}
        ctx.count("pending" if stay else "direct"); ctx.count("other_label", len(labs) > 1)
        L["blinks"] = [] if not stay or L["st"]["t0"] == t else L["blinks"]
    def judge(t):
        """between two steps of the main loop"""
        for name, L in labs.items():
            got, st = scr.text.get(name) or "", L["st"]
            if L["normal"] is None: continue
            ctx.count("judged")
            # the rig name label shows the version until there is a rig name
            if L["n"] is None and not L.get("known") and got.startswith("PySwitch"): L["content"] = got
            want = L["content"]
            col = scr.tcol.get(name, L["normal"])
            if st is None:
                if got != want: ctx.bad("content", "%s shows %r without a preview, its content is %r" % (name, got, want), t); return True
                if col != L["normal"]: ctx.bad("colour", "%s has the text colour %s without a preview" % (name, col), t); return True
                ctx.count("normal")
                continue
            late = not st["stay"] and t > st["t"] + st["to"] - 2000
            ok = st["texts"] is None or got in st["texts"]
            if st["texts"] is None and not (late and got == want): st["texts"] = (got,)
            if got == want and late and (not ok or want not in (st["texts"] or ())):
                L["st"] = None; ctx.count("returned"); ctx.count("content_changed", st["changed"])
                if col != L["normal"]: ctx.bad("colour", "%s has the text colour %s after the preview" % (name, col), t); return True
                continue
            if not ok:
                ctx.bad("preview", "%s shows %r, but %s %.0f ms ago (timeout %d ms) is %r (content %r)" % (name, got, "the preselection pending since" if st["stay"] else "the last preview", (t - st["t"]) / 1000, st["to"] / 1000, st["texts"], want), t); return True
            if not late: ctx.count("timeout_kept")
            if st["stay"]:
                if col not in (L["normal"], st["bcol"]): ctx.bad("blink", "%s blinks in %s" % (name, col), t); return True
            elif col != L["normal"]: ctx.bad("colour", "%s has the text colour %s in a preview" % (name, col), t); return True
        return False
    pre = {}
    for e in res.trace:
        k, t = e[1], e[0]
        if k in ("s", "m", "a", "e"):
            if dirty and started:
                dirty = False
                if judge(t): return
        if k in ("led", "txt", "col", "fill", "npx", "rx", "show"):
            if k == "led": continue
            scr.apply(e)
            if k == "col":
                n = scr.lab.get(e[2])
                if n in labs: labs[n]["blinks"].append((t, e[3])); dirty = True
            if k == "txt":
                n = scr.lab.get(e[2])
                if n in labs: dirty = True
                if n == "BEAT":
                    dirty = True
                    for name, L in labs.items():
                        st = L["st"]
                        if st is None: continue
                        if not st["stay"]:
                            # an update round after the time has passed: gone
                            if beats and beats[-1] > st["t"] + st["to"] + 2000:
                                if L["content"] is not None and scr.text.get(name) == L["content"]: L["st"] = None; ctx.count("returned"); ctx.count("content_changed", st["changed"])
                                elif L["normal"] is not None: ctx.bad("stuck", "%s still shows %r %.0f ms after the preview has been set (timeout %d ms), its content is %r" % (name, scr.text.get(name), (t - st["t"]) / 1000, st["to"] / 1000, L["content"]), t); return
                        else:
                            gap = (st["blink"] * 1000 + G.interval(plan) * 1000 + 150000)
                            if t - st["t0"] > 3 * gap and not stalled:
                                ctx.count("long_pending")
                                if len(beats) > 3 and max(b - a for a, b in zip(beats[-4:], beats[-3:])) < 700000:
                                    if not any(u > t - 2.5 * gap for u, c in L["blinks"]): ctx.bad("blink", "%s does not blink while the preselection is pending" % name, t); return
                                    ctx.count("blink")
                    beats.append(t); del beats[:-6]
                    stalled = max(0, stalled - 1)
        elif k == "stall": ctx.count("stall"); stalled = 12
        elif k == "tx":
            if e[2] != port: continue
            for b in K.split(e[3]):
                d = K.decode(b)
                if d[0] == "cc" and d[1] in bynum:
                    s = bynum[d[1]]
                    preview(s["lab"], s, text(s, d[2]), t, False); dirty = True
                    if s["k"] == "enc": s["cur"] = d[2]
                elif d[0] == "cc":
                    for s in order:
                        if s["k"] == "pre" and s["n"] == d[1]: s["sent"] = d[2]
        elif k == "m":
            if not started: continue
            if e[3] and e[2] == port:
                d = K.decode(e[3])
                if d[0] == "cc":
                    for L in labs.values():
                        if L["n"] == d[1]: L["content"] = str(d[2]); dirty = True
                        if L["n"] == d[1] and L["st"]: L["st"]["changed"] = True
                    for s in order:
                        if s["rn"] == d[1]: s["cur"] = d[2]
                    if d[1] == 120: rstv = d[2]
                elif d[0] == "str" and d[1:3] == (0, 1):
                    for L in labs.values():
                        if L["n"] is None:
                            L["content"] = d[3]; L["known"] = True; dirty = True; ctx.count("rig_name")
                            if L["st"]: L["st"]["changed"] = True
                elif d[0] == "val" and d[1:3] == (4, 0) and tempo:
                    if bpm is not None and d[3] != bpm and int(d[3] / 64) != -1:
                        preview(tempo["lab"], tempo, text(tempo, d[3]), t, False); dirty = True; ctx.count("tempo")
                    bpm = d[3]
        elif k == "e":
            started = True
            s = bye.get(e[2])
            if s is None: continue
            pos = int(e[3] * s["step"])
            if s["pos"] is None: s["pos"] = pos
            if s["k"] == "pre" and s["rst"]:
                if rstv is not None and rstv != s["rl"]:
                    if s["rl"] is not None and s["pend"] is not None:
                        drop(s); labs[s["lab"]]["st"] = None; ctx.count("reset"); dirty = True
                    s["rl"] = rstv
            d = pos - s["pos"]; s["pos"] = pos
            if d and s["k"] == "pre":
                base = s["pend"] if s["pend"] is not None else s["cur"]
                if base is None: base = 0
                v = max(0, min(127, base + d))
                if v != base:
                    s["pend"] = v
                    preview(s["lab"], s, text(s, v), t, True); dirty = True
        elif k == "a": started = True
        elif k == "s":
            started = True
            pin, v = e[2], e[3]
            if bool(v) and not down.get(pin) and pin in x["btn"]:
                b = x["btn"].index(pin)
                for s in order:
                    if s["k"] != "pre" or s["pend"] is None: continue
                    if s["acc"] == b:
                        s["cur"] = s["pend"]; s["pend"] = None
                        st = labs[s["lab"]]["st"]
                        st["stay"] = False; st["t"] = t; dirty = True; ctx.count("accepted")
                    elif s["can"] == b:
                        s["pend"] = None; labs[s["lab"]]["st"] = None; dirty = True; ctx.count("cancelled")
            down[pin] = bool(v)
        if started and k in ("s", "a", "e"):
            for name, L in labs.items():
                if L["normal"] is None:
                    L["normal"] = scr.tcol.get(name, WHITE)
                    if L["content"] is None: L["content"] = scr.text.get(name, "")
