"""P04: a silent device is shown as unknown."""
from .. import gen as G, kemper as K, disp
from ..obs import Screen

ID = "P04"
RUNS = {"quick": 2000, "thorough": 60000}
RULE = ("Random displays bound to device parameters (several to the same one), with and without the session protocol, request lifetimes and intervals varied. After everything is known the device falls silent: switched off, one direction dead, answers suppressed "
        "altogether or for some parameters, also twice; meanwhile switches are pressed and held, and values of parameters which are still answered change. At many moments everything has to look as the values still known demand.")
PROBES = ["polled_unknown", "pushed_unknown", "still_known", "steady", "pressed", "held", "mixed", "again", "was_on", "device_down", "mute_param", "no_answers", "rx", "tx", "changed"]

def gen(r, i, tier):
    p = G.base(r, 30000)
    cfg, c = p["cfg"], p["cfg"]["config"]
    c.pop("maxConsecutiveMidiMessages", None)
    life = 2000
    if r.random() < 0.4: c["maxRequestLifetimeMillis"] = life = r.choice([800, 1000, 1500, 3000])
    bidir = r.random() < 0.45
    x = p["x"] = {"bidir": bidir, "life": life, "sil": []}
    disp.make(r, p, bidir)
    pars = disp.params(p)
    ev = p["events"]
    sws = [q["pin"] for q in cfg["inputs"]]
    for a in pars:
        if r.random() < 0.75: ev.append({"t": r.randrange(0, 1500), "k": "dset", "a": list(a), "v": disp.value(r, a, pars[a]) or 1})
    t = 5000 + r.randrange(0, 800)
    sid = 0
    for n in range(r.choice([1, 1, 2])):
        kind = r.choice(["down", "down", "noans", "mute", "mute", "mute", "rx", "tx"])
        if kind == "mute" and not pars: kind = "down"
        need = life * 3 // 2 + 2 * G.interval(p) + 1400
        if bidir and kind in ("down", "rx"): need = max(need, 9500)
        dur = need + r.choice([200, 1500, 6000])
        z = {"kind": kind, "t0": t, "t1": t + dur, "mute": []}
        x["sil"].append(z)
        if kind == "down": ev += [{"t": t, "k": "ddown"}, {"t": t + dur, "k": "dup"}]
        elif kind == "noans": ev += [{"t": t, "k": "danswer", "v": False}, {"t": t + dur, "k": "danswer", "v": True}]
        elif kind == "mute":
            z["mute"] = [list(a) for a in r.sample(sorted(pars), r.randrange(1, len(pars) + 1))]
            ev += [{"t": t, "k": "dmute", "v": z["mute"]}, {"t": t + dur, "k": "dmute", "v": []}]
        else: p["faults"].append({"dir": "d2c" if kind == "rx" else "c2d", "t0": t, "t1": t + dur, "act": "drop", "every": 1, "off": 0, "arg": 0})
        z["press"] = []
        if r.random() < 0.5:
            for _ in range(r.choice([1, 1, 3])):
                pin = r.choice(sws); a = t + r.randrange(0, max(1, dur - 1000)); d = r.choice([60, 200, 700, 3000])
                if any(q["pin"] == pin and not (a > q["t1"] + 80 or a + d + 80 < q["t0"]) for q in z["press"]): continue
                z["press"].append({"pin": pin, "t0": a, "t1": a + d})
                G.press(p, pin, a, d)
        if kind == "mute" and r.random() < 0.4:
            free = [a for a in pars if list(a) not in z["mute"]]
            if free:
                a = r.choice(sorted(free)); z["set"] = [list(a), t + r.randrange(0, dur - 500)]
                ev.append({"t": z["set"][1], "k": "dset", "a": list(a), "v": disp.value(r, a, pars[a])})
        for _ in range(r.randrange(3, 8)): ev.append({"t": r.randrange(t, t + dur), "k": "dsnap", "id": n})
        ev.append({"t": t + dur - 1, "k": "dsnap", "id": n})
        t += dur + 9000
    for _ in range(r.choice([0, 0, 3])): ev.append({"t": r.randrange(0, t), "k": "stall", "d": r.randrange(20, 200)})
    p["dur"] = x["sil"][-1]["t1"] + 200
    return G.done(p)

def check(ctx):
    plan, res = ctx.plan, ctx.res
    cfg, x, tr = plan["cfg"], plan["x"], res.trace
    t0 = res.t0
    conf = x["cfg"]
    scr = Screen(res)
    bidir = x["bidir"]
    iv = G.interval(plan) * 1000
    pushed = lambda a: bidir and a[0] in (0x32, 0x33, 0x34, 0x35, 0x38, 0x3a) and a[1] in (0, 3)
    base_lim = x["life"] * 1500 + 2 * iv + 900000
    port = plan["peer"]["port"]
    items = [it for it in x["items"] if it["k"] not in ("rig", "str")]
    led_of, lab_of = {}, {}
    for n, it in enumerate(items):
        for l in it["led"] or (): led_of[l] = n
        if it.get("lab"): lab_of[it["lab"]] = n
    def look_of(e):
        if e[1] == "led": return scr.led[e[2]]
        if e[1] == "txt": return scr.text.get(scr.lab.get(e[2]))
        if e[1] == "col": return scr.tcol.get(scr.lab.get(e[2]))
        if e[1] == "fill": return scr.back.get(scr.rec[e[2]][1]) if scr.rec[e[2]][0] == "back" else None
    last = {}                # last answer taken
    opened = {}              # silence -> time of the first opening beacon during the silence
    lastchg = [0] * len(items)
    for e in tr:
        k = e[1]
        old = look_of(e)
        ch = scr.apply(e)
        if ch:
            if k in ("led", "txt", "col", "fill") and (old == e[3] or k == "led" and max(abs(a - b) for a, b in zip(old, e[3])) < 2): continue         # drawn again with the same look
            n = led_of.get(ch[1]) if ch[0] == "led" else lab_of.get(ch[1]) if ch[0] in ("txt", "back", "col") else None
            if n is not None: lastchg[n] = e[0]
            continue
        if k == "m" and e[3]:
            d = K.decode(e[3])
            if d[0] == "val": last[(d[1], d[2])] = e[0]
        elif k == "tx":
            for m in K.split(e[3]):
                d = K.decode(m)
                if d[0] == "beacon" and len(d) == 4 and d[2] & 1:
                    for n, z in enumerate(x["sil"]):
                        if t0 + z["t0"] * 1000 <= e[0] < t0 + z["t1"] * 1000 and n not in opened: opened[n] = e[0]
        elif k == "dev" and e[2] == "snap":
            z = x["sil"][e[3]]
            par = e[4]
            t = e[0]
            b = t0 + z["t0"] * 1000
            # what is pushed once after the connection came back must have got through
            fresh = t0 + 1000 * max([0] + [y["t1"] for y in x["sil"][:e[3]] if y["kind"] in ("down", "rx")])
            touched = set()          # parameters which are in motion by presses
            for q in [q for y in x["sil"][:e[3] + 1] for q in y["press"]]:
                a, f = t0 + q["t0"] * 1000, t0 + q["t1"] * 1000
                if t < a: continue
                for it in x["items"]:
                    if it.get("pin") != q["pin"]: continue
                    for ad in it["a"]:
                        ad = tuple(ad)
                        if t < f + base_lim or pushed(ad): touched.add(ad)
                        else: ctx.count("pressed")
                if t < f: ctx.count("held")
            dead = {"down": lambda a: True, "rx": lambda a: True, "noans": lambda a: not pushed(a), "tx": lambda a: not pushed(a), "mute": lambda a: list(a) in z["mute"] and not pushed(a)}[z["kind"]]
            for n, it in enumerate(items):
                adr = [tuple(a) for a in it["a"]]
                if any(a in touched for a in adr) or any(last.get(a, -1) < (fresh if pushed(a) else 0) for a in adr): continue
                if z.get("set") and tuple(z["set"][0]) in adr and t < t0 + z["set"][1] * 1000 + 5000000: continue
                unk, ok = set(), True
                for a in adr:
                    if not dead(a): continue
                    if pushed(a):
                        if e[3] not in opened or t < opened[e[3]] + 2 * iv + 900000: ok = False
                    elif t < max(b, last.get(a, 0)) + base_lim: ok = False
                    unk.add(a)
                if not ok: continue
                if e[3] in opened and any(pushed(a) and a not in unk for a in adr): continue      # the device has ended the session itself
                want = disp.look(it, conf, lambda a: None if a in unk else par.get(a, 0))
                d = disp.differs(scr, it, want)
                ctx.count("judged")
                for a in unk: ctx.count("pushed_unknown" if pushed(a) else "polled_unknown")
                if not unk: ctx.count("still_known"); ctx.count("changed", bool(z.get("set") and tuple(z["set"][0]) in adr))
                if unk and len(unk) < len(adr): ctx.count("mixed")
                if unk and e[3]: ctx.count("again")
                if unk and disp.look(it, conf, lambda a: par.get(a, 0)).get("on"): ctx.count("was_on")
                if d: ctx.bad("unknown" if unk else "known", "silence '%s' since %d ms: %s; %s bound to %s (answered: %s)" % (z["kind"], (t - b) // 1000, d, it["k"], adr, [a not in unk for a in adr]), t)
                # what is still answered must not even flicker
                if not unk and not z["press"] and not z.get("set"):
                    ctx.count("steady")
                    if lastchg[n] > b + 300000: ctx.bad("flicker", "silence '%s': %s bound to %s has been drawn %d ms after the silence began, but is answered all the time" % (z["kind"], it["k"], adr, (lastchg[n] - b) // 1000), lastchg[n])
    for z in x["sil"]: ctx.count(z["kind"]) if z["kind"] in ("rx", "tx") else None
    for n in ("device_down", "mute_param", "no_answers"): ctx.count(n, res.fired.get(n, 0))
