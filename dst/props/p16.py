"""P16: every encoder step moves the parameter by exactly one step width."""
from .. import gen as G, kemper as K, cat
from ..gen import fn

ID = "P16"
RUNS = {"quick": 2500, "thorough": 80000}
RULE = ("One to three encoders with up to three actions each (direct mode; whole and fractional step widths, own ranges, 7 and 14 bit; some enabled by a received value) on parameters the device reports by itself, that are asked for, "
        "or that are never reported, also several encoders on one parameter; single steps, fast spins, jumps, back and forth, start positions around zero; a device that echoes, refuses or changes the values at any time; stalls, floods of messages.")
PROBES = ["step", "spin", "back", "limit", "no_change", "fraction", "negative", "reported_between", "shared", "disabled", "enabled_again", "unknown", "nrpn", "poll", "preview", "transpose", "stall"]
POLLED = ["MAPPING_MAIN_VOLUME", "MAPPING_MONITOR_VOLUME", "MAPPING_LOOPER_VOLUME", "MAPPING_RIG_VOLUME", "MAPPING_SPACE_INTENSITY"]

def params(p, r, x, n, peer, kinds, cfg):
    """Defines n parameters -> list of {kind, n, addr, max}"""
    par, polled = [], list(POLLED)
    r.shuffle(polled)
    for k in range(n):
        kind = r.choice(kinds + (["poll"] * 4 if peer else []))
        d = {"kind": kind, "n": 82 + k, "max": 127, "echo": None}
        if kind == "resp": e = fn("ClientParameterMapping.get", name="x%d" % k, set=fn("ControlChange", 82 + k, 0), response=fn("ControlChange", 40 + k, 0))
        elif kind == "nrpn":
            d["max"] = 16383
            e = fn("ClientParameterMapping.get", name="x%d" % k, set=fn("KemperNRPNMessage", 1, 0x60, k), response=fn("KemperNRPNMessage", 1, 0x60, k))
        elif kind == "none": e = fn("ClientParameterMapping.get", name="x%d" % k, set=fn("ControlChange", 82 + k, 0))
        else:
            nm = polled.pop(); d["max"] = 16383
            d["addr"] = list(cat.MAPS[nm]["addr"]); e = "$%s()" % nm; d["name"] = nm
        d["expr"] = e
        cfg["defs"].append({"name": "_m%d" % k, "expr": e})
        if kind in ("resp", "nrpn") and r.random() < 0.6: d["echo"] = [r.choice([1, 5, 60, 400]), r.choice([None, None, None, 0, 64])]
        par.append(d)
    return par

def reports(p, r, par, port, t0=300, vals=None):
    for j, d in enumerate(par):
        if d["kind"] in ("resp", "nrpn"):
            for _ in range(r.choice([0, 1, 5, 20])):
                v = r.choice([0, 1, 2, 63, 64, 65, d["max"] - 1, d["max"], r.randrange(d["max"] + 1)])
                m = K.single(0x60, j, v) if d["kind"] == "nrpn" else K.cc(40 + j, v)
                p["events"].append({"t": r.randrange(t0, p["dur"]), "k": "raw", "port": port, "hex": m.hex()})
        elif d["kind"] == "poll":
            for _ in range(r.choice([0, 1, 3, 10])):
                p["events"].append({"t": r.randrange(t0, p["dur"]), "k": "dset", "a": d["addr"], "v": r.choice([0, 1, 64, 8000, 16383, r.randrange(16384)])})
    p["echo"] = [{"port": port, "j": j, "kind": d["kind"], "n": d["n"], "off": None, "lat": d["echo"][0], "fix": d["echo"][1]} for j, d in enumerate(par) if d.get("echo")]

def conds(p, r, x, port, cfg):
    x["conds"] = []
    for k in range(r.choice([0, 0, 1, 2])):
        n = 112 + k
        x["conds"].append({"n": n, "ref": 64})
        cfg["defs"].append({"name": "_cm%d" % k, "expr": fn("ClientParameterMapping.get", name="cond%d" % k, response=fn("ControlChange", n, 0))})
        cfg["defs"].append({"name": "_co%d" % k, "expr": fn("Cond", "$_cm%d" % k, 64)})
        G.switch(p, [fn("CUSTOM_MESSAGE", message=[0xb0, 3, 1], enable_callback="$_co%d" % k, use_leds=False)])
        t = 0
        while t < p["dur"]:
            t += r.choice([r.randrange(5, 200), r.randrange(100, 2000)])
            p["events"].append({"t": t, "k": "raw", "port": port, "hex": K.cc(n, r.choice([0, 63, 64, 127])).hex()})

def turns(p, r, pin, t0):
    t = t0
    while t < p["dur"] - 300:
        q = r.random()
        if q < 0.5:                                      # steady turning
            d = r.choice([1, -1]); g = r.choice([3, 10, 40, 150, 500])
            for _ in range(r.randrange(1, 12)):
                p["events"].append({"t": t + r.random(), "k": "enc", "pin": pin, "d": d})
                t += max(1, g + r.randrange(-2, 3))
        elif q < 0.75:                                    # back and forth
            for _ in range(r.randrange(1, 6)):
                n = r.randrange(1, 6)
                for d in (n, -n):
                    p["events"].append({"t": t + r.random(), "k": "enc", "pin": pin, "d": d}); t += r.choice([2, 20, 100])
        else:
            p["events"].append({"t": t + r.random(), "k": "enc", "pin": pin, "d": r.choice([-1, 1]) * r.choice([5, 30, 128, 300])})
        t += r.choice([r.randrange(1, 50), r.randrange(50, 500), r.randrange(300, 2500)])

def gen(r, i, tier):
    peer = r.random() < 0.45
    p = G.base(r, r.choice([4000, 6000, 9000]), peer=peer)
    cfg = p["cfg"]
    port = cfg["routings"][0][0]
    if peer and r.random() < 0.2: cfg["bidir"] = {"lease": 30, "tuner": False}
    x = p["x"] = {"enc": []}
    par = x["par"] = params(p, r, x, r.randrange(1, 5), peer, ["resp", "resp", "nrpn", "none"], cfg)
    labels = []
    for k in range(r.choice([0, 0, 1, 2])):
        labels.append(G.label(p, "L%d" % k, cb=fn("ParameterDisplayCallback", mapping=r.choice(par)["expr"])) if r.random() < 0.7 else G.label(p, "L%d" % k, text="x"))
    conds(p, r, x, port, cfg)
    spec = r.random() < 0.25 and peer
    cfg["enc0"] = {}
    for k in range(r.randrange(1, 4)):
        a, b = G.EPINS[k]
        acts, ex = [], []
        cfg["enc0"][a] = r.choice([0, 0, 1, -1, -2, 2, 100, -100, r.randrange(-1000, 1000)])
        for n in range(r.choice([1, 1, 1, 2, 3])):
            arg, en = {}, None
            if x["conds"] and r.random() < 0.6:
                en = r.randrange(len(x["conds"])); arg["enable_callback"] = "$_co%d" % en
            if labels and r.random() < 0.5: arg["preview_display"] = r.choice(labels)
            if spec and not any(q["par"] == -1 for e in x["enc"] for q in e["acts"]) and not any(q["par"] == -1 for q in acts):
                acts.append({"par": -1, "sw": 1, "lo": 28, "hi": 100, "cond": en, "prev": "preview_display" in arg})
                ex.append(fn("ENCODER_RIG_TRANSPOSE", **arg))
                continue
            j = r.randrange(len(par)); d = par[j]
            lo, hi = 0, d["max"]
            sw = 80 if d["max"] > 127 else 1
            if r.random() < 0.6:
                sw = r.choice([1, 1, 2, 3, 7, 16, 0.5, 0.25, 0.3, 1.5] + ([80, 100, 129, 33.3] if d["max"] > 127 else []))
                arg["step_width"] = sw
            if r.random() < 0.3: lo = r.choice([1, 5, 20]); arg["min_value"] = lo
            if r.random() < 0.4: hi = r.choice([d["max"] // 2, d["max"] - 1, lo + 1, lo + 10, 63]); arg["max_value"] = hi
            if "preview_display" in arg and r.random() < 0.5: arg["preview_timeout_millis"] = r.choice([200, 1500])
            acts.append({"par": j, "sw": sw, "lo": lo, "hi": hi, "cond": en, "prev": "preview_display" in arg})
            ex.append(fn("EncoderAction", "$_m%d" % j, **arg))
        cfg["inputs"].append({"type": "enc", "pin": a, "pin2": b, "actions": ex})
        x["enc"].append({"pin": a, "acts": acts})
        turns(p, r, a, r.choice([500, 800, 2000, 2500]))
    reports(p, r, par, port)
    if spec:
        for _ in range(r.choice([0, 2, 6])):
            p["events"].append({"t": r.randrange(300, p["dur"]), "k": "dset", "a": [4, 4], "v": r.choice([28, 64, 65, 100, 99, 20, 110])})
    r.shuffle(cfg["inputs"])
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 5), 10, 400)
    if r.random() < 0.2:
        for _ in range(r.choice([20, 60])):
            p["events"].append({"t": r.randrange(300, p["dur"]), "k": "raw", "port": port, "hex": (K.cc(119, r.randrange(128)) * r.choice([1, 5, 12])).hex()})
    return G.done(p)

class Values:
    """What is known about the values of the parameters: the last one sent or reported"""
    def __init__(self, par, extra=()):
        self.par, self.v, self.req, self.keys, self.poll = par, {}, {}, {}, {}
        self.sent = {}
        for j, d in enumerate(par):
            if d["kind"] == "poll": self.poll[tuple(d["addr"])] = j
            elif d["kind"] == "nrpn": self.keys[("val", 0x60, j)] = j
            else: self.keys[("cc", d["n"])] = j
        for j, addr in extra: self.poll[addr] = j
        for a, j in self.poll.items(): self.keys[("val",) + a] = j
    def take(self, t, raw):
        """-> (parameter or None, can be told)"""
        d = K.decode(raw)
        if d[0] == "cc" and 40 <= d[1] < 50 and d[1] - 40 < len(self.par) and self.par[d[1] - 40]["kind"] == "resp":
            self.v[d[1] - 40] = d[2]; return d[1] - 40, True
        if d[0] == "val":
            j = self.poll.get((d[1], d[2]))
            if j is None:
                j = self.keys.get(("val", d[1], d[2]))
                if j is None: return None, True
                self.v[j] = d[3]; return j, True
            if j in self.req:
                if t - self.req[j] > 1900000: return j, False
                del self.req[j]; self.v[j] = d[3]
                return j, True
        return None, True
    def tx(self, t, m):
        """-> None or (key, value) of a command"""
        d = K.decode(m)
        if d[0] == "req":
            j = self.poll.get((d[1], d[2]))
            if j is not None: self.req[j] = t
            return None
        if d[0] == "cc" and d[:2] in self.keys: return self.keys[d[:2]], d[2]
        if d[0] == "val" and d[:3] in self.keys: return self.keys[d[:3]], d[3]
        return None
    def stale(self, t): return any(t - q > 1900000 for q in self.req.values())

def enabled(x, cv, a): return a["cond"] is None or (cv[a["cond"]] is not None and cv[a["cond"]] >= x["conds"][a["cond"]]["ref"])

def check(ctx):
    res, plan = ctx.res, ctx.plan
    tr, x, cfg = res.trace, plan["x"], plan["cfg"]
    par = x["par"]
    port = cfg["routings"][0][0]
    val = Values(par, [(-1, (4, 4))] if any(a["par"] == -1 for e in x["enc"] for a in e["acts"]) else [])
    enc = {e["pin"]: [dict(a, ref=None, last=None) for a in e["acts"]] for e in x["enc"]}
    cv = [None] * len(x["conds"])
    for j in range(len(par)):
        ctx.count("shared", sum(a["par"] == j for e in x["enc"] for a in e["acts"]) > 1)
        ctx.count("nrpn", par[j]["kind"] == "nrpn"); ctx.count("poll", par[j]["kind"] == "poll")
    ctx.count("stall", any(e[1] == "stall" for e in tr))
    cur, rep, started = None, {}, False
    def close():
        nonlocal cur
        if not cur: return
        pin, t, pos, got = cur
        cur = None
        got = list(got)
        for a in enc[pin]:
            if not enabled(x, cv, a):
                if a["ref"] is not None: ctx.count("disabled")
                a["ref"] = None; continue
            if a["ref"] is None:
                if a["last"] is not None: ctx.count("enabled_again")
                a["ref"] = a["last"] = pos
                continue
            q = int(pos * a["sw"]) - int(a["ref"] * a["sw"])
            moved = pos - a["ref"]
            a["ref"] = a["last"] = pos
            if a["sw"] >= 1 and a["sw"] == int(a["sw"]): assert q == moved * a["sw"]
            j = a["par"]
            want, either = None, False
            v0 = val.v.get(j)
            if q:
                v = min(a["hi"], max(a["lo"], (v0 or 0) + q))
                if v0 is None: either = v == 0; want = v
                elif v != v0: want = v
                ctx.count("unknown", v0 is None); ctx.count("limit", v in (a["lo"], a["hi"])); ctx.count("no_change", v == v0)
                ctx.count("reported_between", rep.get(j, 0)); rep[j] = 0
            if moved:
                ctx.count("judged"); ctx.count("step" if abs(moved) == 1 else "spin"); ctx.count("back", moved < 0)
                ctx.count("fraction", a["sw"] != int(a["sw"])); ctx.count("negative", pos < 0); ctx.count("preview", a["prev"]); ctx.count("transpose", j == -1)
            if want is not None and got and got[0] == (j, want): got.pop(0); val.v[j] = want
            elif want is not None and not either:
                ctx.bad("step", "encoder %s moved by %d (to %d), step width %s, range %s..%s, the parameter was at %s: %s has to be sent, sent was %s" % (pin, moved, pos, a["sw"], a["lo"], a["hi"], v0, want, got), t)
                return True
            elif either: val.v[j] = want
        if got:
            ctx.bad("extra", "encoder %s at %d: %s sent without a movement to send" % (pin, pos, got), t)
            return True
    for e in tr:
        k = e[1]
        if k in ("s", "a", "e", "m"):
            if close(): break
            if val.stale(e[0]): ctx.count("late"); break
            if k in ("s", "e"): started = True
            if k == "e": cur = [e[2], e[0], e[3], []]
            elif k == "m" and e[3] and e[2] == port and started:
                d = K.decode(e[3])
                if d[0] == "cc":
                    for n, c in enumerate(x["conds"]):
                        if c["n"] == d[1]: cv[n] = d[2]
                j, ok = val.take(e[0], e[3])
                if not ok: break
                if j is not None: rep[j] = 1
        elif k == "tx":
            for m in K.split(e[3]):
                c = val.tx(e[0], m)
                if c is None: continue
                if cur: cur[3].append(c)
                else: ctx.bad("stray", "%s sent although no encoder was read" % (c,), e[0])
