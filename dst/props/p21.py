"""P21: tuner mode takes over and hands back."""
from .. import gen as G, kemper as K, disp, vis
from ..gen import fn, tup
from ..obs import Screen

ID = "P21"
RUNS = {"quick": 1800, "thorough": 60000}
RULE = ("Random effect, parameter and message switches (with and without hold actions, several actions and LED segments) and a tuner switch in any mode, tuner screen with own notes, colours and calibration, with and without strobe, status dot and with overridden actions processed. "
        "Tuner mode started and ended on the device, by the tuner switch, by any switch, by connection loss, device reboot and dropped sessions; switches pressed before, during and after; notes, deviances, parameters, rigs changed meanwhile; stalls, slow displays and buses.")
PROBES = ["on_dev", "on_ctl", "off_dev", "off_press", "off_lost", "press_in", "press_before", "hold_before", "silent", "tuner_screen", "main_screen", "dark", "note", "deviance", "in_tune", "position", "probe", "back_judged", "dot_back", "dot_lost", "process", "stall"]
NOTES = ('C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B')
TUN = (0x7f, 0x7e)

def gen(r, i, tier):
    p = G.base(r, r.choice([10000, 15000]))
    cfg, ev, dur = p["cfg"], p["events"], p["dur"]
    x = p["x"] = {}
    G.label(p, "BEAT", back=False, cb=fn("Beat"))
    disp.make(r, p, True, n_sw=r.randrange(1, 5))
    cfg["bidir"]["tuner"] = True
    px = 1 + max([q for s in cfg["inputs"] for q in s["pixels"]] + [0])
    x["probe"] = []
    x["sw"] = [s["pin"] for s in cfg["inputs"]]
    cc = 60
    def probe(hold):
        nonlocal px, cc
        n = r.choice([1, 1, 2])
        pix = list(range(px, px + 3)) if r.random() > 0.12 else []; px += len(pix)
        def acts(n, leds):
            nonlocal cc
            out, ids = [], []
            for _ in range(n):
                cc += 1
                a = dict(message=[0xb0, cc, 1], message_release=[0xb0, cc, 2])
                if not leds: a["use_leds"] = False
                out.append(fn("CUSTOM_MESSAGE", **a)); ids.append(cc)
            return out, ids
        a, ids = acts(n, True)
        d = {"ids": ids, "hold": None, "ms": 600, "led": pix}
        opts = {}
        h = None
        if hold:
            h, d["hold"] = acts(r.choice([1, 1, 2]), False)
            if r.random() < 0.4: opts["holdTimeMillis"] = d["ms"] = r.choice([300, 900])
            if r.random() < 0.2: opts["holdRepeat"] = True; d["rep"] = True
        d["pin"] = G.switch(p, a, pixels=pix, hold=h, opts=opts)
        x["probe"].append(d); x["sw"].append(d["pin"])
    for _ in range(r.randrange(1, 3)): probe(False)
    for _ in range(r.randrange(0, 3)): probe(True)
    # the tuner switch
    x["tpin"] = None
    if r.random() < 0.75:
        mode = r.choice(["LATCH", "HOLD_MOMENTARY", "HOLD_MOMENTARY", "MOMENTARY", "ENABLE", None])
        a = fn("TUNER_MODE", display=G.label(p, "TU"), **({"mode": "$PushButtonAction." + mode} if mode else {}))
        pix = [px, px + 1, px + 2] if r.random() > 0.1 else []; px += len(pix)
        q = r.random()
        x["tpin"] = G.switch(p, [a] if q < 0.7 else [fn("CUSTOM_MESSAGE", message=[0xb0, 110, 1], use_leds=False)], pixels=pix, hold=None if q < 0.7 else [a])
        x["tled"] = pix; x["thold"] = q >= 0.7
        x["sw"].append(x["tpin"])
    if r.random() < 0.2: x["bare"] = G.switch(p, [], pixels=[px]); px += 1; x["sw"].append(x["bare"])
    t = cfg["tuner"] = {}
    x["notes"] = list(NOTES)
    if r.random() < 0.25: x["notes"] = [str(k + 1) for k in range(12)]; t["note_names"] = tup(*x["notes"])
    x["col"] = [(100, 255, 100), (255, 125, 0)]
    x["cal"] = [8192 - 350, 8192 + 350]
    if r.random() < 0.25: x["cal"] = [t.setdefault("calibration_low", 8000), t.setdefault("calibration_high", 8300)]
    if r.random() < 0.25: x["col"] = [(1, 2, 3), (9, 9, 9)]; t["color_in_tune"] = tup(1, 2, 3); t["color_out_of_tune"] = tup(9, 9, 9)
    x["strobe"] = r.random() < 0.25
    if x["strobe"]: t["strobe"] = True; [s.update(strobe=k) for k, s in enumerate(cfg["inputs"])]
    x["process"] = r.random() < 0.2
    if x["process"]: t["process_overridden_actions"] = True
    if r.random() < 0.5: cfg["dot"] = True
    # what happens
    par = disp.params(p)
    for a, m in par.items():
        if r.random() < 0.6: ev.append({"t": 0, "k": "dset", "a": list(a), "v": disp.value(r, a, m)})
    t = r.choice([800, 2000, 3500]) + r.randrange(1500)
    lost = r.random() < 0.35
    busy = {}
    def press(pin, t, d):
        if t < busy.get(pin, 0) + 80: return
        busy[pin] = t + d
        G.press(p, pin, t, d)
    def anysw(): return r.choice(x["sw"])
    probes = [q["pin"] for q in x["probe"]] + ([x["tpin"]] if x["tpin"] else [])
    presw = probes if lost else x["sw"]      # what the device does not hear about is for P04
    while t < dur - 3600:
        # a tuner session
        if r.random() < 0.3:
            s = r.choice(presw); press(s, t - r.choice([20, 100, 400, 550, 800]), r.choice([60, 300, 700, 1500, 3000]))
        if x["tpin"] and r.random() < 0.5: press(x["tpin"], t, r.choice([60, 150, 800, 2500]))
        else: ev.append({"t": t, "k": "dtuner", "v": 1})
        d = r.choice([300, 1500, 2500, 4000])
        u = t + 20
        while u < t + d:
            q = r.random()
            if q < 0.3: ev.append({"t": u, "k": "dnote", "v": r.randrange(128)})
            elif q < 0.6: ev.append({"t": u, "k": "ddev", "v": r.choice([0, 8192, 16383, 8191, x["cal"][0], x["cal"][0] - 1, x["cal"][1], x["cal"][1] + 1, r.randrange(7000, 9400), r.randrange(16384)])})
            elif q < 0.75 and par: a = r.choice(list(par)); ev.append({"t": u, "k": "dset", "a": list(a), "v": disp.value(r, a, par[a])})
            elif q < 0.8: ev.append({"t": u, "k": "drig", "rig": r.randrange(625)})
            u += r.choice([5, 40, 200, 700])
        e = r.random()
        if e < 0.45:
            for _ in range(r.choice([1, 1, 2, 3])): press(r.choice(presw), t + d + r.choice([0, 0, 10, 60, 200]), r.choice([50, 100, 400, 900]))
            if r.random() < 0.3: ev.append({"t": t + d + r.randrange(900), "k": "dtuner", "v": 0})
        elif e < 0.75 or not lost:
            ev.append({"t": t + d, "k": "dtuner", "v": 0})
            if r.random() < 0.5: press(r.choice(presw), t + d - r.choice([10, 100, 300]), r.choice([60, 200, 400, 1000]))
        elif e < 0.88: ev.append({"t": t + d, "k": "dend"})
        else:
            o = r.choice([600, 2500, 6500]); ev += [{"t": t + d, "k": "ddown"}, {"t": t + d + o, "k": "dup"}]; d += o
        t += d + r.choice([100, 700, 2500, 4000])
        for _ in range(r.choice([0, 0, 1, 3])): press(r.choice(presw), t + r.randrange(100, 3000), r.choice([60, 200, 450, 1000]))
    # end of the run: quiet, not in tuner mode
    ev.append({"t": dur - 3400, "k": "dtuner", "v": 0})
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 4), 10, 400, 0, dur - 3500)
    p["events"] = [e for e in ev if e["t"] >= 0]
    return G.done(p)

def check(ctx):
    res, plan = ctx.res, ctx.plan
    x, cfg = plan["x"], plan["cfg"]
    port = cfg["routings"][0][0]
    scr = Screen(res)
    iv = G.interval(plan) * 1000
    stalls = [(e[0], e[2]) for e in res.trace if e[1] == "stall"]
    def slack(t): return sum(d for a, d in stalls if t - 200000 < a < t + d + 2000000)
    probes = {q["pin"]: q for q in x["probe"]}
    pix = {s["pin"]: s["pixels"] for s in cfg["inputs"]}
    allpix = sorted({q for s in cfg["inputs"] for q in s["pixels"]})
    ids = {c: q for q in x["probe"] for c in q["ids"] + (q["hold"] or [])}
    tuner, conn, sense = False, False, None      # tuner: True / False / None (not decided)
    cst = [None, 0, 0]
    down = {}           # pin -> what the press was
    started = False
    beats = 0
    since = 0           # beat of the last change of the state
    tsince = res.t0
    wild = False        # switched while nobody listens
    note = dev = None; notet = 0
    seen = False        # tuner screen has been there
    left = {}           # pins pressed before tuner mode: may still release
    why = None
    cur = None          # (text, expected list or None, sent, t)
    params = {}
    end = plan["dur"]
    def setst(v, t, w):
        nonlocal tuner, since, tsince, why, note, dev
        if v != tuner:
            tuner, since, tsince, why = v, beats, t, w
            if v: ctx.count("on_" + w)
            elif v is False: ctx.count("off_" + w)
            if v:
                for d in down.values():
                    if d["kind"] == "norm":
                        d["kind"] = "before"; ctx.count("press_before"); ctx.count("hold_before", d["hold"])
                    elif d["kind"] == "in": d["kind"] = "older"
    def close():
        nonlocal cur
        if cur is None: return False
        c, cur = cur, None
        if c[1] is None: return False
        got = [(a, b) for a, b in c[2] if a in ids or a == 31 and not c[4] or a == 110]
        if got != c[1]: ctx.bad("messages", "%s: sent %s, but has to send %s" % (c[0], got, c[1]), c[3]); return True
        ctx.count("judged"); ctx.count("silent", not c[1]); ctx.count("probe", any(a in ids for a, b in c[1]))
        return False
    stray_ok = 0
    for e in res.trace:
        k, t = e[1], e[0]
        if k in ("s", "m", "a", "e"):
            if close(): return
        if k in ("led", "txt", "col", "fill", "npx", "rx", "show"):
            scr.apply(e)
            if k == "show" and scr.shown == "tuner": seen = True
            if k == "txt" and scr.lab.get(e[2]) == "BEAT":
                beats += 1
                if sense is not None and conn and t - sense > 1500000 - 5000: conn = None       # lost, perhaps
                if conn is not True and tuner is True: setst(None, t, "")
                if conn != cst[0]: cst = [conn, t, beats]
                if cfg.get("dot") and conn is not None and sense is not None and tuner is False and seen and beats - max(since, cst[2]) > 3 and t - max(tsince, cst[1]) > 300000:
                    ctx.count("judged"); ctx.count("dot_lost", not conn); ctx.count("dot_back", conn)
                    if scr.dot is None or (scr.dot[1] > scr.dot[0]) != conn: ctx.bad("dot", "the status dot is %s after tuner mode, %s" % (scr.dot, "connected" if conn else "not connected"), t); return
                if tuner is not None and beats - since >= 2 and t - tsince > 150000:
                    want = "tuner" if tuner else "main"
                    ctx.count("judged"); ctx.count(want + "_screen")
                    if scr.shown != want: ctx.bad("screen", "the %s screen is shown, but tuner mode is %s (%s)" % (scr.shown, "on" if tuner else "off", why), t); return
                    if tuner and not x["strobe"] and not x["process"]:
                        ctx.count("dark")
                        for q in allpix:
                            if scr.led[q] != (0, 0, 0): ctx.bad("leds", "LED %d is %s in tuner mode" % (q, scr.led[q]), t); return
                    if tuner and note is not None and t - notet > 150000:
                        ctx.count("note")
                        if scr.text.get("@note") != x["notes"][note % 12]: ctx.bad("note", "note %r is shown for %d" % (scr.text.get("@note"), note), t); return
                    if tuner and dev is not None:
                        ok = x["cal"][0] <= dev <= x["cal"][1]
                        ctx.count("deviance"); ctx.count("in_tune", ok)
                        mx = scr.mark.get(1, [None])[0]
                        if mx is not None:
                            ctx.count("position")
                            pos = 235 * (max(-8192, min((dev - 8192) * 2.4, 8192)) + 8192) / 16384
                            if abs(mx - pos) > 2.5: ctx.bad("position", "the marker is at %s instead of %.1f at deviance %d" % (mx, pos, dev), t); return
                        want = tuple(x["col"][0 if ok else 1])
                        for what, got in (("note", scr.tcol.get("@note")), ("marker", scr.mark.get(1, [0, want])[1] or (want if ok else None))):
                            if got != want and not (what == "marker" and got is None and ok): ctx.bad("colour", "the %s is %s at deviance %d" % (what, got, dev), t); return
        elif k == "stall": ctx.count("stall")
        elif k == "tx":
            if e[2] != port: continue
            for b in K.split(e[3]):
                d = K.decode(b)
                if d[0] == "beacon" and d[2] & 1 and sense is not None:
                    # the loss has been noticed
                    if conn is not True: conn, wild = False, False; setst(False, t, "lost")
                act = d[0] == "cc" or d[0] == "val"
                if d[0] == "cc" and d[1] == 31:
                    if conn is True: wild = False; setst(bool(d[2]), t, "ctl" if d[2] else "press")
                    else: setst(None, t, ""); wild = True
                if not act: continue
                if cur is not None:
                    cur[2].append(d[1:3] if d[0] == "cc" else (d[1:3], d[3]))
                    if d[0] == "cc" and d[1] in ids and cur[1] is None: ctx.count("freepress")
                elif d[0] == "cc" and d[1] in ids and not ids[d[1]]["hold"]:
                    ctx.bad("stray", "control change %d sent without any press" % d[1], t); return
        elif k == "m":
            if e[3] and started and e[2] == port:
                d = K.decode(e[3])
                if d[0] == "sense": sense, conn = t, True
                elif d[0] == "val" and d[1:3] == TUN:
                    wild = False; setst(d[3] == 1, t, "dev")
                elif d[0] == "val" and seen:
                    if d[1:3] == K.TUNER_NOTE: note, notet = d[3], t; ctx.count("judged")
                    elif d[1:3] == K.TUNER_DEV: dev = d[3]
        elif k == "s":
            started = True
            pin, v = e[2], e[3]
            if (pin in down) == bool(v): continue
            q = probes.get(pin)
            name = "switch %s %s%s" % (pin, "pressed" if v else "released", "" if q else " (tuner switch)" if pin == x["tpin"] else "")
            if v:
                kind = "none" if tuner is None else "in" if tuner else "norm"
                down[pin] = {"kind": kind, "t": t, "hold": bool(q and q["hold"])}
                want = None
                if tuner and not x["process"]: want = []; ctx.count("press_in")
                elif tuner is not None and q: want = [] if q["hold"] else [(c, 1) for c in q["ids"]]; ctx.count("process", bool(tuner))
                cur = [name + (" in tuner mode" if tuner else ""), want, [], t, not tuner and not q]
            else:
                d = down.pop(pin)
                held = (t - d["t"]) / 1000
                want = None
                loose = not q
                norm = None
                if q and not q["hold"]: norm = [(c, 2) for c in q["ids"]]
                elif q and not q.get("rep"):
                    if held < q["ms"] - 1 - slack(t) / 1000: norm = [z for c in q["ids"] for z in ((c, 1), (c, 2))]
                    elif held > q["ms"] + 700 + iv / 1000 + slack(t) / 1000: norm = []
                if tuner is None or d["kind"] == "none": pass
                elif d["kind"] == "norm": want = norm; loose = True
                elif d["kind"] == "before":
                    # pushed before tuner mode: just releases what has been pushed
                    if q: want = [] if q["hold"] else norm
                    if x["process"] and q and q["hold"]: want = None
                    loose = not q
                elif d["kind"] == "in":
                    if tuner:
                        want = [(31, 0)] if not x["process"] else [(31, 0)] + norm if q and norm is not None and not q["hold"] else None
                        loose = False
                    elif not x["process"]: want = []; loose = False
                    else: want = None
                cur = [name + {"in": " (pressed in tuner mode)", "before": " (pressed before tuner mode)"}.get(d["kind"], ""), want, [], t, loose]
    # handed back: everything shows the current state
    back(ctx, scr, res, plan, tuner, conn)

def back(ctx, scr, res, plan, tuner, conn):
    x, cfg = plan["x"], plan["cfg"]
    if tuner is not False or conn is not True: ctx.count("not_back"); return
    # values of the device at the end, quiet for at least two seconds
    val = {}
    last = res.t0
    strs = {}
    for e in res.trace:
        if e[1] == "dev":
            if e[2] == "set": val[tuple(e[3])] = e[4]
            if e[2] not in ("session",): last = e[0]
            if e[2] == "up": last = e[0] + 3500000     # requests sent meanwhile run into their timeout
    if res.t_end - last < 2000000: ctx.count("not_quiet"); return
    peer = res.world.peer
    conf = x["cfg"]
    taken, setat = {}, {}
    for e in res.trace:
        if e[1] == "m" and e[3]:
            d = K.decode(e[3])
            if d[0] == "val": taken[d[1:3]] = (d[3], e[0])
        elif e[1] == "dev" and e[2] == "set": setat[tuple(e[3])] = e[0]
    for it in x["items"]:
        if it["k"] not in ("eff", "bin", "par"): continue
        want = disp.look(it, conf, lambda a: peer.p.get(a, 0))
        # a report sent before a command may be taken after it, the device does not correct this
        if any(a in taken and taken[a][0] != peer.p.get(a, 0) and taken[a][1] > setat.get(a, 0) for a in map(tuple, it["a"])): ctx.count("crossed"); continue
        bad = disp.differs(scr, it, want)
        ctx.count("judged"); ctx.count("back_judged")
        if bad: ctx.bad("back", "after tuner mode: %s (%s)" % (bad, {str(a): peer.p.get(tuple(a)) for a in map(tuple, it["a"])}), res.t_end); return
    for q in x["probe"]:
        n = len(q["ids"])
        for l in q["led"]:
            ctx.count("judged")
            if not vis.led_ok(scr.led[l], vis.led((255, 255, 255), 0.15)): ctx.bad("back", "after tuner mode: LED %d of a message switch is %s" % (l, scr.led[l]), res.t_end); return
    if x["tpin"] and not x["thold"]:
        for l in x["tled"]:
            if not vis.led_ok(scr.led[l], vis.led((255, 255, 255), conf["off"])): ctx.bad("back", "after tuner mode: LED %d of the tuner switch is %s" % (l, scr.led[l]), res.t_end); return
