"""P25: rig and bank steps."""
from .. import gen as G, kemper as K, rigs

ID = "P25"
RUNS = {"quick": 2200, "thorough": 60000}
RULE = ("Rig up / down buttons keeping the bank or not and plain bank up / down buttons in both display modes, beside rig and bank select buttons; started at the edges of banks and of the whole range, pressed faster and slower than the device answers, "
        "rigs changed on the device, announcements lost, late, repeated; update interval, stalls, slow displays varied.")
PROBES = ["press_rigstep", "press_bankstep", "edge", "wrap", "next_bank", "command", "no_command", "show_rigstep", "show_bankstep", "adopted", "unknown", "stall", "drop_d2c", "delay_d2c", "press_rigsel"]

def gen(r, i, tier):
    p = G.base(r, r.choice([8000, 12000]))
    x = p["x"] = {}
    p["peer"]["rig"] = rigs.rignum(r)
    rigs.make(r, p, ["rigstep"] * 5 + ["bankstep"] * 2 + ["rigsel", "banksel"] + ["steppre"] * r.choice([0, 0, 3]))
    ev, dur = p["events"], p["dur"]
    if r.random() < 0.9: ev.append({"t": r.randrange(300, 2500), "k": "dannounce"})
    t = r.randrange(600, 2500)
    step = [it for it in x["items"] if it["k"] in ("rigstep", "bankstep", "steppre")]
    while t < dur - 100:
        if r.random() < 0.2: ev.append({"t": t, "k": "drig", "rig": rigs.rignum(r)})
        else:
            it = r.choice(step) if step and r.random() < 0.85 else r.choice(x["items"])
            for _ in range(r.choice([1, 1, 2, 7])):
                d = r.choice([50, 80, 300])
                if not any(e["k"] == "btn" and e["pin"] == it["pin"] and e["t"] > t - 60 for e in ev): G.press(p, it["pin"], t, d)
                t += d + r.choice([50, 150, 500])
        t += r.choice([r.randrange(20, 100), r.randrange(100, 800), r.randrange(1200, 2500)])
    for _ in range(r.choice([0, 0, 1])): G.fault(p, r, "d2c", ["drop", "delay", "dup"], cls=r.choice([["cc"], ["pc"], ["cc", "pc"]]))
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 4), 10, 600)
    return G.done(p)

def check(ctx):
    rigs.run(ctx, ("rigstep", "bankstep", "steppre"), ("rigstep", "bankstep", "steppre"))
