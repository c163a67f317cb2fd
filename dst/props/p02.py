"""P02: displays converge to the device's real state."""
from .. import gen as G, kemper as K, disp
from ..gen import fn
from ..obs import Screen, takes

ID = "P02"
RUNS = {"quick": 1600, "thorough": 40000}
RULE = ("Random sets of effect slots, switches and boosts bound to device parameters (also several to the same one), parameter, amp/cabinet and rig name labels, with and without the session protocol. First chaos: messages lost, duplicated, delayed, "
        "corrupted, torn in both directions, outages, reboots, dropped sessions, muted parameters, stalls, rig changes, presses. Then the link is sound; 6 s later, and after every single change made on the device or by a switch from then on, everything has to show the device's values.")
PROBES = ["polled", "pushed", "name", "rig_id", "by_device", "by_switch", "effect_on", "on", "off", "agree", "outage", "session_lost", "corrupt", "drop", "delayed", "stall", "string"]
T_CHAOS = 8000

def gen(r, i, tier):
    p = G.base(r, 30000)
    cfg, c = p["cfg"], p["cfg"]["config"]
    c.pop("maxConsecutiveMidiMessages", None)
    if r.random() < 0.3: c["maxRequestLifetimeMillis"] = r.choice([500, 1000, 1500, 2000])
    bidir = r.random() < 0.5
    x = p["x"] = {"bidir": bidir, "rough": False}
    slots, gens = disp.make(r, p, bidir)
    pars = disp.params(p)
    ev = p["events"]
    def dset(t):
        if not pars: return
        a = r.choice(sorted(pars))
        ev.append({"t": t, "k": "dset", "a": list(a), "v": disp.value(r, a, pars[a])})
    def rig(t): ev.append({"t": t, "k": "drig", "rig": r.choice([0, 4, 5, 127, 128, 624, r.randrange(625), r.randrange(625)])})
    sws = [q["pin"] for q in cfg["inputs"]]
    busy = {}
    def press(t):
        pin = r.choice(sws)
        if busy.get(pin, -1) >= t: return
        d = r.choice([60, 100, 300, 800])
        busy[pin] = t + d + 60
        G.press(p, pin, t, d)
    # chaos
    chaos = r.choice([1500, 4000, T_CHAOS])
    x["chaos"] = chaos
    for _ in range(r.randrange(0, 12)): dset(r.randrange(0, chaos))
    for _ in range(r.randrange(0, 4)): rig(r.randrange(0, chaos))
    for t in sorted(r.randrange(0, chaos) for _ in range(r.randrange(0, 10))): press(t)
    calm = r.random() < 0.1
    if not calm:
        for _ in range(r.randrange(0, 4)):
            f = G.fault(p, r, r.choice(["d2c", "d2c", "c2d", "both"]), ["drop", "drop", "delay", "dup", "corrupt", "trunc", "split"], cls=r.choice([None, None, ["val"], ["str"], ["req"], ["cc", "pc"], ["sense"], ["beacon"]]), lo=100, hi=6000, t1=chaos)
            f["t1"] = min(f["t1"], chaos)
            if f["act"] != "drop": x["rough"] = True
        if r.random() < 0.3:
            t = r.randrange(0, chaos)
            ev += [{"t": t, "k": "ddown"}, {"t": min(chaos, t + r.randrange(100, 6000)), "k": "dup"}]
            if r.random() < 0.5: ev[-1]["rig"] = r.randrange(625)
        if r.random() < 0.25:
            t = r.randrange(0, chaos)
            ev += [{"t": t, "k": "danswer", "v": False}, {"t": min(chaos, t + r.randrange(100, 6000)), "k": "danswer", "v": True}]
        if r.random() < 0.3 and pars:
            t = r.randrange(0, chaos)
            ev += [{"t": t, "k": "dmute", "v": [list(a) for a in r.sample(sorted(pars), r.randrange(1, len(pars) + 1))]}, {"t": chaos, "k": "dmute", "v": []}]
        if bidir and r.random() < 0.3: ev.append({"t": r.randrange(500, chaos), "k": "dend"})
        if r.random() < 0.4:
            end = 0
            for t in sorted(r.randrange(0, chaos - 500) for _ in range(r.randrange(1, 4))):
                d = r.randrange(50, r.choice([400, 1500, 3000]))
                if max(end, t) + d > chaos + 1500: continue
                end = max(end, t) + d
                ev.append({"t": t, "k": "stall", "d": d})
        if r.random() < 0.15:
            t = r.randrange(0, chaos); ev += [{"t": t, "k": "frag", "v": r.choice([1, 3, 7])}, {"t": chaos, "k": "frag", "v": None}]; x["rough"] = True
    # calm
    t = chaos + 7500
    x["t1"] = chaos + 2600
    n = 0
    if r.random() < 0.6: rig(chaos + r.randrange(2700, 3000))
    ev.append({"t": t, "k": "dsnap", "id": n}); x["snaps"] = [{"kind": "all"}]
    for _ in range(r.randrange(1, 5)):
        q = r.random()
        t0 = t + r.randrange(20, 400)
        z = {"t0": t0}
        if q < 0.45:
            for _ in range(r.choice([1, 1, 3])): dset(t0 + r.choice([0, 0, 30]))
            z["kind"] = "dev"
        elif q < 0.6: rig(t0); z["kind"] = "rig"
        else:
            for k in range(r.choice([1, 1, 2])): press(t0 + k * 1000)
            z["kind"] = "press"
        # the pushed ones have to be shown soon, all of them some time later
        soon = t0 + (30 if z["kind"] != "press" else 1000 + 900) + 2 * G.interval(p) + 900
        n += 1; ev.append({"t": soon, "k": "dsnap", "id": n}); x["snaps"].append(dict(z, soon=True))
        t = t0 + (0 if z["kind"] != "press" else 1900) + 5000
        n += 1; ev.append({"t": t, "k": "dsnap", "id": n}); x["snaps"].append(z)
    p["dur"] = t + 300
    return G.done(p)

def check(ctx):
    plan, res = ctx.plan, ctx.res
    cfg, x, tr = plan["cfg"], plan["x"], res.trace
    t0 = res.t0
    scr = Screen(res)
    conf = x["cfg"]
    clean = t0 + x["t1"] * 1000
    bidir = x["bidir"]
    pushed = lambda a: bidir and (a[0] in (0x32, 0x33, 0x34, 0x35, 0x38, 0x3a) and a[1] in (0, 3))
    rep = set()            # pushed parameters the device has reported, or the controller has set, since the link is sound
    rigs = [False, False]; known = False
    name_ok = not x["rough"] and not bidir
    port = plan["peer"]["port"]
    rig0, fresh = plan["peer"]["rig"], None
    begun = False          # the main loop runs: what came before is discarded
    for e in tr:
        k = e[1]
        if k == "s": begun = True
        if k == "dev" and e[0] >= clean:
            if e[2] == "set" and e[4] == "ctl": rep.add(tuple(e[3]))
            elif e[2] == "rig":
                if begun and e[3] != rig0:
                    fresh = e[0]
                    if not bidir: name_ok = True
        if k == "dev" and e[2] == "rig": rig0 = e[3]
        if k == "m" and e[3] and begun and e[0] >= clean:
            d = K.decode(e[3])
            if d[0] == "val": rep.add((d[1], d[2]))
            elif d[0] == "str" and d[1:3] == K.RIG_NAME and bidir: name_ok = True
            elif d[0] == "cc" and d[1] == 32: rigs[0] = True
            elif d[0] == "pc" and rigs[0]: known = True
        scr.apply(e)
        if k != "dev" or e[2] != "snap": continue
        _, _, _, sid, par, st, rig, active = e
        sn = x["snaps"][sid]
        groups = {}
        for it in x["items"]:
            adr = [tuple(a) for a in it["a"]]
            if it["k"] == "rig":
                if sn.get("soon"): continue
                if it["id"] and not known or it["name"] and not name_ok: continue
                want = {"text": disp.rig_text(it, rig, st[K.RIG_NAME])}
                ctx.count("judged")
                if it["name"]: ctx.count("name")
                if it["id"]: ctx.count("rig_id")
                d = disp.differs(scr, it, want)
                if d: ctx.bad("rig", "snapshot %d: %s" % (sid, d), e[0])
                continue
            if it["k"] == "str":
                if sn.get("soon") or not (not x["rough"] or fresh is not None and fresh + 3000000 < e[0]): continue
                want = disp.look(it, conf, None, lambda a: st.get(a, "?"))
                ctx.count("judged"); ctx.count("string")
            else:
                if any(pushed(a) and a not in rep for a in adr): continue
                if sn.get("soon") and not all(pushed(a) for a in adr): continue
                want = disp.look(it, conf, lambda a: par.get(a, 0))
                ctx.count("judged"); ctx.count("pushed" if pushed(adr[0]) else "polled")
                if "on" in want: ctx.count("on" if want["on"] else "off"); ctx.count("effect_on", it["k"] == "eff" and want["on"])
                if sn["kind"] in ("dev", "rig"): ctx.count("by_device")
                if sn["kind"] == "press": ctx.count("by_switch")
                z = repr(adr)
                if z in groups: ctx.count("agree")
                groups[z] = 1
            d = disp.differs(scr, it, want)
            if d: ctx.bad("soon" if sn.get("soon") else "show", "snapshot %d (%s): %s; %s bound to %s, device has %s" % (sid, sn["kind"], d, it["k"], adr, [par.get(a, st.get(a)) for a in adr]), e[0])
    f = res.fired
    ctx.count("outage", f.get("device_down", 0)); ctx.count("session_lost", f.get("session_dropped", 0)); ctx.count("stall", f.get("stall", 0))
    for n, q in (("corrupt", "corrupt"), ("drop", "drop"), ("delayed", "delay")): ctx.count(n, sum(v for k, v in f.items() if k.startswith(q)))
