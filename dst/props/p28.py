"""P28: strobe tuner and tempo light."""
import math
from .. import gen as G, kemper as K, vis
from ..gen import fn, tup
from ..obs import Screen

ID = "P28"
RUNS = {"quick": 1300, "thorough": 45000}
RULE = ("2 to 8 switches with LEDs (and sometimes one) in random strobe order, strobe with random colour, dimming, speed, frame limit and direction, with and without overridden actions processed; tempo light with label on some runs. "
        "Tuner mode started and ended by the device, a switch, connection loss and reboot, several times per run; streams of deviance reports (constant, in tune, sweeping, random, bursts faster than the frame limit) in and outside of tuner mode, beat pulses and tempo changes at all times; "
        "lost, delayed, duplicated messages, stalls, slow buses and displays.")
PROBES = ["strobe_frame", "moved", "reverse", "forward_dir", "rest", "limit", "outside", "second_session", "repeat_on", "lost", "pulse_on", "pulse_off", "pulse_tuner", "bpm", "one_switch", "stall", "process"]
TUN = (0x7f, 0x7e)
PULSE, BPM = (0x7c, 0), (4, 0)

def gen(r, i, tier):
    p = G.base(r, r.choice([8000, 12000]))
    cfg, ev, dur = p["cfg"], p["events"], p["dur"]
    x = p["x"] = {}
    G.label(p, "BEAT", back=False, cb=fn("Beat"))
    cfg["bidir"] = {"lease": 30, "tuner": True}
    n = r.choice([1, 2, 2, 3, 4, 4, 6, 8])
    order = r.choice([list(range(n)), r.sample(range(n), n), [r.randrange(4) for _ in range(n)]])
    x["tempo"] = None
    x["strobe"] = r.random() < 0.8
    tempo = r.randrange(n) if r.random() < 0.6 or not x["strobe"] else None
    x["act"] = []
    for k in range(n):
        acts = []
        m = r.choice([1, 3, 3])
        pix = list(range(3 * k, 3 * k + m))
        if k == tempo:
            a = {}
            x["tempo"] = {"led": pix, "col": [100, 255, 100], "b": 0.02, "text": "{bpm} bpm"}
            if r.random() < 0.4: x["tempo"]["b"] = a["led_brightness"] = r.choice([0.3, 1])
            if r.random() < 0.3: x["tempo"]["col"] = [200, 90, 255]; a["color"] = tup(200, 90, 255)
            if r.random() < 0.7: a["display"] = G.label(p, "TEMPO")
            if r.random() < 0.3: a["text"] = x["tempo"]["text"] = "T={bpm}"
            acts = [fn("SHOW_TEMPO", **a)]
        elif r.random() < 0.8: acts = [r.choice([fn("CUSTOM_MESSAGE", message=[0xb0, 60 + k, 1]), fn("TAP_TEMPO", use_leds=True), fn("TUNER_MODE", use_leds=True)])]
        G.switch(p, acts, pixels=pix, strobe=order[k])
    sw = [s["pin"] for s in cfg["inputs"]]
    t = cfg["tuner"] = {}
    x["col"], x["dim"], x["speed"], x["fps"], x["rev"] = [255, 255, 255], 0.1, 1000, 120, True
    if x["strobe"]:
        t["strobe"] = True
        if r.random() < 0.4: x["col"] = list(r.choice([(255, 0, 0), (200, 255, 40), (255, 255, 250)])); t["strobe_color"] = tup(*x["col"])
        if r.random() < 0.6: x["dim"] = t["strobe_dim"] = r.choice([0.3, 0.5, 1])
        if r.random() < 0.5: x["speed"] = t["strobe_speed"] = r.choice([10, 40, 200, 500, 2000, 5000])
        if r.random() < 0.5: x["fps"] = t["strobe_max_fps"] = r.choice([20, 60, 90, 300, 1000])
        if r.random() < 0.5: x["rev"] = t["strobe_reverse"] = r.random() < 0.3
    x["process"] = r.random() < 0.2
    if x["process"]: t["process_overridden_actions"] = True
    def devs(a, b):
        u = a
        while u < b:
            kind = r.randrange(7)
            e = min(b, u + r.choice([200, 600, 1500]))
            v = r.choice([8192, 8191, r.randrange(7900, 8500), r.randrange(6000, 10400), r.randrange(16384), 0, 16383])
            st = r.choice([7.3, 20.1, 35.7, 61, 150])
            if kind == 6: v = 8191 + r.choice([-1, 1]) * r.randrange(20, 90); dr = r.randrange(1, 7); e = min(b, u + 1500)
            while u < e:
                if kind == 0: v = 8191
                elif kind == 6: v = max(8191, v - dr) if v > 8191 else min(8191, v + dr)      # tuned slowly, until it fits
                elif kind == 1: v = max(0, min(16383, v + r.randrange(-200, 201)))
                elif kind == 2: v = r.randrange(7000, 9400)
                ev.append({"t": u, "k": "ddev", "v": v})
                u += st if kind != 3 or r.random() < 0.1 else 2
    t = 500 + r.randrange(2500)
    bpm = 6400 + r.randrange(6000)
    ev.append({"t": 0, "k": "dset", "a": list(BPM), "v": bpm})
    while t < dur - 1500:
        d = r.choice([400, 1500, 3000])
        if r.random() < 0.3: ev.append({"t": max(0, t - 400), "k": "ddev", "v": r.choice([7000, 9500])})
        ev.append({"t": t, "k": "dtuner", "v": 1})
        devs(t - r.choice([0, 0, 200]), t + d + r.choice([0, 0, 300]))
        if r.random() < 0.15: ev.append({"t": t + d / 2, "k": "dtuner", "v": 1})
        q = r.random()
        if q < 0.3 and not x["process"]: G.press(p, r.choice(sw), t + d, 60)
        elif q < 0.38: ev.append({"t": t + d, "k": "dend"})
        elif q < 0.45: ev += [{"t": t + d, "k": "ddown"}, {"t": t + d + 2500, "k": "dup"}]; d += 2500
        else: ev.append({"t": t + d, "k": "dtuner", "v": 0})
        if r.random() < 0.3: devs(t + d + 50, t + d + 350)
        t += d + r.choice([100, 600, 2000])
    if r.random() < 0.8:
        u = r.randrange(600)
        per = r.choice([333, 500, 500, 1000, 250])
        while u < dur:
            ev.append({"t": u, "k": "dpulse", "v": 1}); ev.append({"t": u + per * r.choice([0.3, 0.5, 0.5]), "k": "dpulse", "v": 0})
            u += per
            if r.random() < 0.05: u += r.choice([600, 1500]); per = r.choice([333, 500, 700])
    for _ in range(r.randrange(0, 5)): ev.append({"t": r.randrange(dur), "k": "dset", "a": list(BPM), "v": r.choice([bpm, bpm, r.randrange(20 * 64, 256 * 64)])})
    if r.random() < 0.2: ev.append({"t": r.randrange(dur), "k": "drig", "rig": r.randrange(625)})
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 5), 10, 400)
    if r.random() < 0.3:
        for _ in range(r.randrange(1, 3)): G.fault(p, r, "d2c", ["drop", "delay", "dup"], arg=r.choice([5, 40, 200]))
    p["events"] = [e for e in ev if e["t"] >= 0]
    return G.done(p)

def check(ctx):
    res, plan = ctx.res, ctx.plan
    x, cfg = plan["x"], plan["cfg"]
    port = cfg["routings"][0][0]
    scr = Screen(res)
    sws = sorted([s for s in cfg["inputs"] if s["type"] == "switch"], key=lambda s: s["strobe"])
    n = len(sws)
    ctx.count("one_switch", n == 1)
    allpix = sorted(q for s in sws for q in s["pixels"])
    per = int(1000 / x["fps"] * n)
    speed = x["speed"] * 2000
    th = 100 * per
    tuner, conn, sense = False, False, None        # True / False / None: not known
    started = False
    ph = None           # possible phases [lo, hi], None: any
    tlast = None        # last frame or start
    draws = 0           # the timer may have been started this much later
    dev = 8192
    sess = 0
    cur = None          # what LED writes may belong to now
    frame = None        # [t, changed]
    beats = 0
    pulses = [(res.t0, 0)]; bpms = []
    bt = []             # times of update rounds
    tpl = x["tempo"]
    sincet = res.t0; sinceb = 0
    def lv(c): return tuple(c * q for q in (1, 1, 1))
    crit = sorted({(sg * 0.3 * (1 - l / 16) - q / n) % 1 for q in range(n) for l in range(17) for sg in (1, -1)})
    allowed = {}
    def levels(got):
        if got not in allowed:
            allowed[got] = {l for l in range(17) if vis.led_ok(got, vis.led(x["col"], (l / 16) ** 2 * x["dim"]))}
        return allowed[got]
    def grid(cand):
        """which phases explain the LEDs"""
        want = [(k / n, levels(scr.led[s["pixels"][0]])) for k, s in enumerate(sws)]
        if any(not w for _, w in want): return []
        out = []
        for pos in cand:
            for o, w in want:
                q = (pos + o) % 1
                d = q if q < 0.5 else 1 - q
                l = (1 - d / 0.3) * 16
                if int(l + 1e-5 if l > 0 else 0) not in w and int(l - 1e-5 if l > 0 else 0) not in w: break
            else: out.append(pos)
        return out
    def setst(v, t):
        nonlocal tuner, ph, tlast, sincet, sinceb, sess, draws
        if v is True:
            if tuner is True: ctx.count("repeat_on")
            else:
                sess += 1; ph = None
                ctx.count("second_session", sess > 1); ctx.count("process", x["process"])
            tlast, draws = t, 0
        if v != tuner: sincet, sinceb = t, beats
        tuner = v
    def endframe(t):
        """LEDs as left by a message taken"""
        nonlocal ph, tlast, frame, draws
        if frame is None: return False
        f, frame = frame, None
        if tuner is not True or not x["strobe"]: return False
        t0, kind, drew = f
        if kind != "dev" or n < 2: return False
        passed, least = (t0 - tlast) / 1000, (t0 - tlast - draws) / 1000       # drawing LEDs takes time, the timer may be started afterwards
        due = least > per + 1.01
        if not due and passed > per - 1.01: due = None
        if drew and due is False: ctx.bad("rate", "LEDs drawn again %.1f ms after the frame before, the limit is %d ms" % (passed, per), t0); return True
        ctx.count("judged"); ctx.count("limit", due is False)
        if due is None and not drew: ph, draws = None, max(draws, t0 - tlast)          # drawn without any change, or not due yet
        if not due and not drew: return False
        # all LEDs of one switch are the same
        for s in sws:
            if len({scr.led[q] for q in s["pixels"]}) > 1: ctx.bad("switch", "LEDs of one switch differ: %s" % [scr.led[q] for q in s["pixels"]], t0); return True
        for q in allpix:
            if any(g > c * x["dim"] + 0.01 for g, c in zip(scr.led[q], x["col"])): ctx.bad("dim", "LED %d is %s, beyond the dimmed colour" % (q, scr.led[q]), t0); return True
        d = dev - 8191
        if x["rev"]: d = -d
        full = abs(d)
        low = min(full, th)
        sg = 1 if d >= 0 else -1
        # the pattern moves backwards in phase for positive values: position of the highlight = -phase
        mv = sorted([-sg * low * (least - 1.2) / speed, -sg * low * (passed + 1.2) / speed])
        if full > low: mv = sorted(mv + [-sg * full * (passed + 1.2) / speed])
        mv = [mv[0], mv[-1]]
        if due is None: mv = [min(0, mv[0]), max(0, mv[1])]
        if ph is None or mv[1] - mv[0] + ph[1] - ph[0] > 0.9: lo, hi = 0, 1
        else: lo, hi = ph[0] + mv[0] - 0.002, ph[1] + mv[1] + 0.002
        # the set of phases is an intersection of intervals, so its ends are among these points
        cand = sorted([lo, hi] + [q + j for q in crit for j in range(math.floor(lo) - 1, math.ceil(hi) + 1) if lo <= q + j <= hi])
        ok = grid(cand)
        ctx.count("strobe_frame"); ctx.count("moved", full > 100); ctx.count("rest", full < 2); ctx.count("reverse", x["rev"]); ctx.count("forward_dir", not x["rev"])
        if not ok:
            key = "pattern" if ph is None or not grid(crit) else "movement"
            ctx.bad(key, "LEDs %s show no pattern moved by %.3f..%.3f turns (deviance %d, %.1f ms)" % ([scr.led[s["pixels"][0]] for s in sws], -mv[1], -mv[0], dev, passed), t0); return True
        if ph is None or max(ok) - min(ok) > 0.9:
            # keep an interval if it is one
            ph = [min(ok), max(ok)] if ok and max(ok) - min(ok) < 0.5 else None
        else: ph = [min(ok), max(ok)]
        tlast, draws = t0, 0
        return False
    for e in res.trace:
        k, t = e[1], e[0]
        if k in ("s", "m", "a", "e"):
            if cur == "on" and tlast is not None: draws = t - tlast
            if endframe(t): return
            cur = None
        if k in ("led", "txt", "col", "fill", "npx", "rx", "show"):
            if k == "led" and tuner is True and sense is not None and t - sense > 1500000 - 5000:       # the loss may have been noticed already
                conn = None; setst(None, t)
            before = scr.led[e[2]] if k == "led" and scr.led else None
            scr.apply(e)
            if k == "led" and tuner is True and started and before != e[3]:
                if cur == "on": pass
                elif cur == "dev" and x["strobe"] and n > 1:
                    if frame: frame[2] = True
                elif cur != "off" and (x["strobe"] or not x["process"]):
                    ctx.bad("foreign", "LED %d set to %s in tuner mode" % (e[2], e[3]), t); return
            if k == "led" and tuner is False and started and cur == "dev" and before != e[3]: ctx.bad("outside", "LED %d set to %s by a deviance report outside of tuner mode" % (e[2], e[3]), t); return
            if k == "txt" and scr.lab.get(e[2]) == "BEAT":
                beats += 1; bt.append(t)
                if sense is not None and conn and t - sense > 1500000 - 5000: conn = None
                if conn is not True and tuner is True: setst(None, t)
                if tpl and started and len(bt) > 3 and not any(tb - ta > 900000 for ta, tb in zip(bt[-4:], bt[-3:])):
                    a = bt[-3]
                    if tuner is False and beats - sinceb > 3 and conn is True:
                        vals = [v for u, v in pulses if u >= a]
                        before = [v for u, v in pulses if u < a]
                        if before: vals.append(before[-1])
                        ok = False
                        on = tuple(q * tpl["b"] for q in tpl["col"])
                        states = {bool(v) for v in vals}
                        ctx.count("judged"); ctx.count("pulse_on", states == {True}); ctx.count("pulse_off", states == {False})
                        for q in tpl["led"]:
                            if not any(vis.led_ok(scr.led[q], on if s else (0, 0, 0)) for s in states): ctx.bad("pulse", "LED %d of the tempo light is %s after the beat pulses %s" % (q, scr.led[q], vals), t); return
                        bv = [v for u, v in bpms if u >= a]
                        bb = [v for u, v in bpms if u < a]
                        if bv and bb and "TEMPO" in scr.lab.values():
                            bv.append(bb[-1])
                            ctx.count("bpm")
                            want = {tpl["text"].replace("{bpm}", str(w)) for v in bv for w in {int(v / 64), round(v / 64), int(v / 64 + 0.5)}}
                            if scr.text.get("TEMPO") not in want: ctx.bad("bpm", "%r is shown, but the tempo is %s" % (scr.text.get("TEMPO"), [v / 64 for v in bv]), t); return
                    elif tuner is True and beats - sinceb > 3 and not x["strobe"] and not x["process"]:
                        ctx.count("judged"); ctx.count("pulse_tuner")
                        for q in tpl["led"]:
                            if scr.led[q] != (0, 0, 0): ctx.bad("silent", "LED %d of the tempo light is %s in tuner mode" % (q, scr.led[q]), t); return
        elif k == "stall": ctx.count("stall")
        elif k == "tx":
            if e[2] != port: continue
            for b in K.split(e[3]):
                d = K.decode(b)
                if d[0] == "beacon" and d[2] & 1 and sense is not None:
                    if conn is not True: setst(False, t); ctx.count("lost"); conn = False; cur = "off"; bpms = []
                if d[0] == "cc" and d[1] == 31:
                    if conn is True: setst(bool(d[2]), t); cur = "on" if d[2] else "off"
                    else: setst(None, t)
        elif k == "s": started = True
        elif k == "m" and e[3] and started and e[2] == port:
            d = K.decode(e[3])
            if d[0] == "sense": sense, conn = t, True
            elif d[0] == "val":
                if d[1:3] == TUN:
                    setst(d[3] == 1, t); cur = "on" if d[3] == 1 else "off"
                elif d[1:3] == K.TUNER_DEV:
                    dev = d[3]; cur = "dev"; frame = [t, "dev", False]
                    ctx.count("outside", tuner is False)
                elif d[1:3] == PULSE: pulses.append((t, d[3])); del pulses[:-12]
                elif d[1:3] == BPM: bpms.append((t, d[3])); del bpms[:-6]
