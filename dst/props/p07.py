"""P07: no input, message or device behaviour stops the controller."""
import importlib
from .. import gen as G, kemper as K, zoo
from ..gen import fn
from ..obs import Screen

ID = "P07"
RUNS = {"quick": 3000, "thorough": 100000}
OTHERS = ["p01", "p03", "p09", "p10", "p11", "p16", "p17", "p18", "p19", "p22", "p23", "p24"]
RULE = ("Any configuration of the shipped actions, encoders, pedals, pagers, labels and protocols (and those of the other properties); everything used at random, at any speed; any bytes on the wire: complete, torn, truncated, corrupted and foreign "
        "messages, values at all limits, a device that is not there, goes away, comes back, answers twice, late or something else; stalls of seconds; pedals and encoders at their ends.")
PROBES = ["zoo", "other", "garbage", "short_sysex", "outage", "stall", "tuner", "bidir", "pager", "encoder", "pedal", "hold", "leds", "texts", "sampled", "quick_boot_press", "odd_rig", "strings", "faults"]

def junk(r):
    q = r.random()
    if q < 0.2: return bytes(r.randrange(256) for _ in range(r.randrange(1, 12)))
    if q < 0.3: return K.cc(r.choice([32, 32, 31, 0, r.randrange(128)]), r.choice([0, 1, 5, 127, r.randrange(128)]), r.choice([0, 0, 5]))
    if q < 0.4: return K.pc(r.randrange(128))
    if q < 0.5:                                             # values for any address, also wrong ones
        a = r.choice([(0x7f, 0x7e), (0x7d, 0x54), (0x7c, 0x0f), (0x7c, 0), (4, 0), (4, 1), (4, 4), (0, 0x0b), (0x32, 0), (0x32, 3), (0x3c, 0), (0x3d, 3), (0x0a, 4), (r.randrange(128), r.randrange(128))])
        return K.single(a[0], a[1], r.choice([0, 1, 16383, r.randrange(16384)]))
    if q < 0.6:                                             # strings
        a = r.choice([K.RIG_NAME, K.RIG_DATE, (0, 0x10), (0, 0x20), (0, 4)])
        return K.sysex(0, 0, 3, 0, a[0], a[1], *[r.randrange(1, 128) for _ in range(r.choice([0, 1, 5, 30, 90]))], 0)
    if q < 0.85:                                            # too short or too long
        a = r.choice([(0x7f, 0x7e), (0x7d, 0x54), (0x7c, 0x0f), (0x7c, 0), (4, 0), (4, 1), (0, 1), (0, 3), (0x32, 0), (0x32, 3), (0, 0x0b)])
        d = [0, 0, r.choice([1, 3, 0x7e, 0x41]), 0, a[0], a[1]] + [r.randrange(128) for _ in range(r.choice([0, 1, 1, 3, 5]))]
        return K.sysex(*d[:r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 20])])
    m = K.single(0x32, 3, 1)
    return m[:r.randrange(1, len(m))]

def gen(r, i, tier):
    if r.random() < 0.2:
        n = r.choice(OTHERS)
        p = importlib.import_module("dst.props." + n).gen(r, i, tier)
        p["x"] = {"kind": n}
    else:
        p = G.base(r, r.choice([4000, 6000, 10000]), peer=r.random() < 0.85)
        p["x"] = {"kind": "zoo"}
        z = zoo.Zoo(r, p)
        p["cfg"]["labels"].append({"name": "BEAT", "cb": fn("Beat")})
        z.fill()
        z.play(dense=r.choice([0.5, 1, 4]), t1=p["dur"] - 2000)
        if r.random() < 0.3: p["cfg"]["pressed0"] = [q["pin"] for q in p["cfg"]["inputs"] if q["type"] == "switch"][:2]
    cfg, dur = p["cfg"], p["dur"]
    port = cfg["routings"][0][0]
    x = p["x"]
    end = dur - 2000
    if end < 1500: return G.done(p)
    x["junk"] = r.random() < 0.7
    if x["junk"]:
        for _ in range(r.choice([3, 10, 40])):
            p["events"].append({"t": r.randrange(0, end), "k": "raw", "port": port, "hex": b"".join(junk(r) for _ in range(r.choice([1, 1, 2, 6]))).hex()})
    if r.random() < 0.15:
        for _ in range(r.choice([10, 40])):
            p["events"].append({"t": r.randrange(0, end), "k": "raw", "port": port, "hex": (junk(r) * r.choice([3, 10])).hex()})
    if p.get("peer"):
        q = r.random()
        if q < 0.25: p["events"] += [{"t": r.randrange(0, end), "k": "ddown"}, {"t": r.randrange(0, end), "k": "dup"}]
        for _ in range(r.choice([0, 2, 6])):
            p["events"].append({"t": r.randrange(300, end), "k": "drig", "rig": r.choice([0, 4, 5, 127, 128, 624, r.randrange(625)])})
        if r.random() < 0.4:
            p["events"].append({"t": r.randrange(300, end), "k": "dset", "a": list(K.TUNER_MODE), "v": 1})
            for _ in range(r.choice([0, 5, 30])):
                p["events"].append({"t": r.randrange(300, end), "k": "dtuner", "v": 1} if r.random() < 0.2 else {"t": r.randrange(300, end), "k": "raw", "port": port, "hex": K.single(*r.choice([K.TUNER_NOTE, K.TUNER_DEV]), r.choice([0, 8191, 8192, 16383, r.randrange(16384)])).hex()})
            p["events"].append({"t": r.randrange(300, end), "k": "dset", "a": list(K.TUNER_MODE), "v": r.choice([0, 3, 2])})
        for _ in range(r.choice([0, 0, 3])):
            G.fault(p, r, r.choice(["in", "out"]), ["drop", "delay", "dup", "corrupt", "trunc", "split"], t1=end)
        for _ in range(r.choice([0, 3])):
            p["events"].append({"t": r.randrange(300, end), "k": "dset", "a": r.choice([[4, 0], [4, 1], [4, 4], [0, 0x0b], [0x32, 0], [0x32, 3], [0x3c, 0], [0x0a, 4], [0x7f, 0]]), "v": r.choice([0, 1, 16383, r.randrange(16384)])})
        for _ in range(r.choice([0, 0, 10])): p["events"].append({"t": r.randrange(300, end), "k": "dpulse", "v": r.randrange(2)})
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 5), 10, r.choice([300, 3000]), 0, end)
    return G.done(p)

def check(ctx):
    res, plan = ctx.res, ctx.plan
    cfg, x = plan["cfg"], plan["x"]
    tr = res.trace
    for e in tr:
        if e[1] == "badled": ctx.bad("led", "LED %s is set to %s" % (e[2], e[3]), e[0])
        elif e[1] == "led":
            ctx.count("judged"); ctx.count("leds")
        elif e[1] == "txt": ctx.count("texts")
    zoo_ = x["kind"] == "zoo"
    ctx.count("zoo", zoo_); ctx.count("other", not zoo_); ctx.count("stall", any(e["k"] == "stall" for e in plan["events"])); ctx.count("garbage", bool(x.get("junk")))
    ctx.count("outage", any(e["k"] == "ddown" for e in plan["events"])); ctx.count("bidir", bool(cfg.get("bidir"))); ctx.count("pager", any(d["name"].startswith("_pg") for d in cfg["defs"]))
    ctx.count("encoder", any(q["type"] == "enc" for q in cfg["inputs"])); ctx.count("pedal", any(q["type"] == "pot" for q in cfg["inputs"])); ctx.count("hold", any("hold" in q for q in cfg["inputs"]))
    ctx.count("tuner", bool(cfg.get("tuner")) and any(e["k"] == "dset" and e["a"] == list(K.TUNER_MODE) for e in plan["events"])); ctx.count("quick_boot_press", bool(cfg.get("pressed0"))); ctx.count("faults", bool(plan["faults"]))
    ctx.count("odd_rig", any(e["k"] == "drig" and e["rig"] > 127 for e in plan["events"]))
    for e in tr:
        if e[1] == "m" and e[3]:
            if e[3][0] == 0xf0 and len(e[3]) < 11: ctx.count("short_sysex")
            if len(e[3]) > 6 and e[3][:1] == b"\xf0" and e[3][6] == 3: ctx.count("strings")
    if not zoo_ or res.crash or res.hang: return
    # nothing happens in the last two seconds: everything has to go on
    a = res.t_end - 1500000
    if any(e[1] == "stall" and e[0] + e[2] > a for e in tr): return
    if cfg["costs"]["read"] * len(cfg["inputs"]) * 10 > 200000: return
    got = {(e[1], e[2]) for e in tr if e[0] > a and e[1] in ("s", "a", "e")}
    scr = Screen(res)
    beats = sum(e[1] == "txt" and scr.lab.get(e[2]) == "BEAT" for e in tr if e[0] > a)
    for q in cfg["inputs"]:
        k = {"switch": "s", "enc": "e", "pot": "a"}[q["type"]]
        ctx.count("judged"); ctx.count("sampled")
        if (k, q["pin"]) not in got: ctx.bad("dead", "input %s (%s) is not read any more in the last 1.5 s" % (q["pin"], q["type"]), a)
    if not beats: ctx.bad("dead", "nothing is updated any more in the last 1.5 s", a)
