"""P05: rig number displayed = rig number announced."""
from .. import gen as G, kemper as K, rigs

ID = "P05"
RUNS = {"quick": 2200, "thorough": 60000}
RULE = ("Random sets of rig select, bank select, bank step and rig step buttons and rig labels. Announcements of random rigs (bank part and program change) from the device and by hand, interleaved with other control changes, parameter values and strings, "
        "on any channel; parts dropped, delayed past each other, duplicated, corrupted, truncated, split into single bytes; parts alone; further bank parts before the program change; presses; stalls, slow displays.")
PROBES = ["adopted", "part_again", "pc_alone", "between", "big", "unknown", "show_rigsel", "show_banksel", "show_banktog", "show_bankstep", "show_rigstep", "show_label", "highlight", "stall", "drop_d2c", "delay_d2c", "dup_d2c", "corrupt_d2c"]

def gen(r, i, tier):
    p = G.base(r, r.choice([8000, 12000, 16000]))
    x = p["x"] = {}
    rigs.make(r, p, ["rigsel", "rigsel", "banksel", "banktog", "bankstep", "rigstep"], labels=3)
    if r.random() < 0.25: p["cfg"]["bidir"] = {"lease": 30, "tuner": True}
    ev, dur, port = p["events"], p["dur"], p["peer"]["port"]
    t = r.randrange(100, 2500)
    while t < dur:
        q = r.random()
        ch = r.choice([0, 0, 0, 0, 5])
        rig = rigs.rignum(r, p["peer"]["rig"])
        raw = lambda b, d=0: ev.append({"t": t + d, "k": "raw", "port": port, "hex": b.hex()})
        if q < 0.3: ev.append({"t": t, "k": "drig", "rig": rig})
        elif q < 0.4: ev.append({"t": t, "k": "dannounce"})
        elif q < 0.65:
            b = []
            if r.random() < 0.8: b.append(K.cc(32, rig >> 7, ch))
            if r.random() < 0.2: b.append(K.cc(32, r.choice([0, 1, 2, 3, 4, 127]), ch))
            for _ in range(r.choice([0, 0, 1, 4])): b.insert(r.randrange(len(b) + 1), r.choice([K.cc(r.choice([0, 1, 31, 33, 47, 50]), r.randrange(128), ch), K.single(0x32, 3, r.randrange(2)), K.string(0, 1, "Other"), K.single(4, 1, 500)]))
            if r.random() < 0.85: b.append(K.pc(rig & 127))
            if r.random() < 0.1: b.append(K.pc(r.randrange(128)))
            g = r.choice([0, 0, 1, 30, 400]); d = 0
            for z in b: raw(z, d); d += g
        elif q < 0.72: raw(K.pc(r.randrange(128)))
        elif q < 0.8: raw(K.cc(32, r.randrange(5), ch))
        else: t += r.randrange(500, 2500)
        t += r.choice([r.randrange(0, 30), r.randrange(100, 1500), r.randrange(1200, 2500)])
    for it in x["items"]:
        for _ in range(r.choice([0, 0, 0, 2])): G.press(p, it["pin"], r.randrange(500, dur), r.randrange(50, 500))
    for _ in range(r.choice([0, 1, 3])): G.fault(p, r, "d2c", ["drop", "delay", "delay", "dup", "corrupt", "trunc", "split"], cls=r.choice([["cc"], ["pc"], ["cc", "pc"], None]))
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 4), 10, 600)
    return G.done(p)

def check(ctx):
    rigs.run(ctx, (), ("rigsel", "banksel", "banktog", "bankstep", "rigstep", "label"))
