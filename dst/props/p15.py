"""P15: bank preselection."""
from .. import gen as G, kemper as K, rigs

ID = "P15"
RUNS = {"quick": 2200, "thorough": 60000}
RULE = ("Preselecting bank select and bank step buttons (with and without highest bank), a bank wheel (several step widths), rig select buttons of all kinds, rig step and plain bank select buttons, rig labels with and without name; "
        "preselections moved by several of them, overtaken, ended by every kind of rig button; rig changes on the device meanwhile; announcements lost; interval, stalls, slow displays varied.")
PROBES = ["pre_start", "pre_step", "pre_end", "pre_wrap", "wheel", "blink", "press_bankpre", "press_steppre", "press_rigsel", "press_banksel", "press_rigstep", "show_rigsel", "show_bankpre", "show_steppre", "show_preselected", "stall", "drop_d2c"]

def gen(r, i, tier):
    p = G.base(r, r.choice([9000, 14000]))
    x = p["x"] = {}
    enc = r.random() < 0.5
    kinds = ["rigsel", "rigsel", "rigsel", "steppre", "steppre", "bankpre", "bankpre", r.choice(["banksel", "rigstep", "bankpre"])]
    rigs.make(r, p, kinds, n=r.randrange(2, 9), enc=enc)
    ev, dur = p["events"], p["dur"]
    if r.random() < 0.2: p["cfg"]["bidir"] = {"lease": 30, "tuner": True}
    ev.append({"t": r.randrange(300, 1500), "k": "dannounce"})
    t = r.randrange(1200, 3000)
    pre = [it for it in x["items"] if it["k"] in ("bankpre", "steppre")]
    while t < dur - 100:
        q = r.random()
        if q < 0.1: ev.append({"t": t, "k": "drig", "rig": rigs.rignum(r, p["peer"]["rig"])})
        elif q < 0.35 and enc:
            for _ in range(r.choice([1, 1, 3, 8])): ev.append({"t": t, "k": "enc", "pin": x["enc"]["pin"], "d": r.choice([1, 1, -1, 2, -2, -9, 40])}); t += r.choice([5, 60, 300])
        else:
            it = r.choice(pre) if pre and r.random() < 0.6 else r.choice(x["items"])
            for _ in range(r.choice([1, 1, 1, 3])):
                d = r.choice([50, 100, 300])
                if not any(e["k"] == "btn" and e["pin"] == it["pin"] and e["t"] > t - 60 for e in ev): G.press(p, it["pin"], t, d)
                t += d + r.choice([60, 150])
        t += r.choice([r.randrange(20, 100), r.randrange(100, 800), r.randrange(1500, 4500)])
    if r.random() < 0.3: G.fault(p, r, "d2c", ["drop"], cls=r.choice([["cc"], ["pc"], ["cc", "pc"], ["str"]]))
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 4), 10, 300)
    return G.done(p)

def check(ctx):
    rigs.run(ctx, ("rigsel", "banksel", "bankpre", "steppre", "rigstep", "enc"), ("rigsel", "banksel", "bankpre", "steppre", "label", "pre"))
