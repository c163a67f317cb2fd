"""P14: rig and bank buttons load what they name."""
from .. import gen as G, kemper as K, rigs

ID = "P14"
RUNS = {"quick": 2200, "thorough": 60000}
RULE = ("Random sets of rig select buttons (rig or current slot, with or without own bank, fixed or remembered off rig and off bank, rigs excluded from remembering) and bank select buttons (with and without off bank), in both display modes, pressed in any overlap; "
        "rig changes on the device in between; announcements lost, late, duplicated; update interval, stalls, slow buses varied.")
PROBES = ["press_rigsel", "press_banksel", "press_banktog", "command", "no_command", "off_rig", "off_auto", "highlight", "adopted", "show_rigsel", "show_banksel", "show_banktog", "unknown", "stall", "drop_d2c", "delay_d2c", "loaded"]

def gen(r, i, tier):
    p = G.base(r, r.choice([8000, 12000, 16000]))
    x = p["x"] = {}
    rigs.make(r, p, ["rigsel"] * 5 + ["banksel", "banktog"] + (["rigstep", "bankstep"] if r.random() < 0.3 else []))
    ev, dur = p["events"], p["dur"]
    if r.random() < 0.8: ev.append({"t": r.randrange(400, 2500), "k": "dannounce"})
    t = r.randrange(300, 2500)
    while t < dur - 100:
        if r.random() < 0.3: ev.append({"t": t, "k": "drig", "rig": rigs.rignum(r, p["peer"]["rig"])})
        else:
            it = r.choice(x["items"]); d = r.choice([50, 100, 300, 1500])
            if not any(e["k"] == "btn" and e["pin"] == it["pin"] and e["t"] > t - 60 for e in ev): G.press(p, it["pin"], t, d)
            if r.random() < 0.4:
                a = t + d + r.choice([50, 120, 600, 1200]); G.press(p, it["pin"], a, 80); t = a
        t += r.choice([r.randrange(20, 100), r.randrange(100, 800), r.randrange(900, 2500)])
    for _ in range(r.choice([0, 0, 1, 2])): G.fault(p, r, "d2c", ["drop", "delay", "dup"], cls=r.choice([["cc"], ["pc"], ["cc", "pc"]]))
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 4), 10, 600)
    return G.done(p)

def check(ctx):
    rigs.run(ctx, ("rigsel", "banksel", "banktog"), ("rigsel", "banksel", "banktog"))
    ctx.count("loaded", sum(1 for e in ctx.res.trace if e[1] == "dev" and e[2] == "press"))
