"""P09: push-button modes send exactly the documented on/off commands."""
import itertools
from .. import gen as G, kemper as K, cat
from ..gen import fn

ID = "P09"
RUNS = {"quick": 2500, "thorough": 80000}
RULE = ("One to five switches with up to three push-button actions each in every mode and with every comparison (random on/off/reference values, 7 and 14 bit, value lists, own off command), on parameters the device reports by itself, "
        "parameters that are asked for, and commands without any answer; a device that echoes, keeps silent, refuses or reports other values at any time, several actions on one parameter; presses around the hold time, overlapping, stalls, MIDI floods.")
PROBES = ["mode_%s" % m for m in ("ENABLE", "DISABLE", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY", "ONE_SHOT", "NO_STATE_CHANGE")] + \
    ["report", "answer", "report_while_held", "no_command", "held", "near_hold", "refused", "shared", "off_command", "nrpn", "list", "bidir", "stall"]
MODES = ["ENABLE", "DISABLE", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY", "HOLD_MOMENTARY", "ONE_SHOT", "NO_STATE_CHANGE"]
CMP = ["EQUAL", "GREATER", "GREATER_EQUAL", "LESS", "LESS_EQUAL", "NO_STATE_CHANGE"]
POLLED = ["MAPPING_AMP_STATE", "MAPPING_CABINET_STATE", "MAPPING_MAIN_VOLUME", "MAPPING_MONITOR_VOLUME", "MAPPING_LOOPER_VOLUME", "MAPPING_RIG_VOLUME"]

def gen(r, i, tier):
    peer = r.random() < 0.4
    bidir = peer and r.random() < 0.3
    p = G.base(r, r.choice([6000, 8000, 12000]), peer=peer)
    cfg = p["cfg"]
    port = cfg["routings"][0][0]
    if r.random() < 0.2: cfg["costs"]["read"] = r.choice([8000, 20000, 40000])
    if bidir: cfg["bidir"] = {"lease": 30, "tuner": False}
    x = p["x"] = {"sw": [], "par": [], "bidir": bidir}
    par = x["par"]
    echo = {}
    # parameters: [kind, set numbers, response number]
    for k in range(r.randrange(1, 5)):
        kind = r.choice(["resp", "resp", "resp", "nrpn", "int", "none", "list"] + (["poll"] * 5 if peer else []))
        d = {"kind": kind, "n": 82 + k, "off": None, "max": 127}
        nm = "_m%d" % k
        if kind in ("resp", "list"):
            s = fn("ControlChange", 82 + k, 0) if kind == "resp" else [fn("ControlChange", 82 + k, 0), fn("ControlChange", 92 + k, 0)]
            e = fn("ClientParameterMapping.get", name="x%d" % k, set=s, response=fn("ControlChange", 40 + k, 0))
        elif kind == "nrpn":
            d["max"] = 16383
            e = fn("ClientParameterMapping.get", name="x%d" % k, set=fn("KemperNRPNMessage", 1, 0x60, k), response=fn("KemperNRPNMessage", 1, 0x60, k))
        elif kind in ("int", "none"):
            e = fn("ClientParameterMapping.get", name="x%d" % k, set=fn("ControlChange", 82 + k, 0))
        else:
            if bidir and r.random() < 0.7:
                sl = ["A", "B", "C", "D"][k]
                a = [K.SLOT_PAGE[sl], 3]
                e = fn("KemperMappings.EFFECT_STATE", "$KemperEffectSlot.EFFECT_SLOT_ID_" + sl)
                d["kind"] = "push"; d["n"] = 17 + k
            else:
                nm2 = POLLED[k]; a = list(cat.MAPS[nm2]["addr"]); e = "$%s()" % nm2
            d["addr"] = a; d["max"] = 16383 if d["kind"] == "poll" else 127
        cfg["defs"].append({"name": nm, "expr": e})
        if r.random() < 0.2 and kind not in ("list",):
            d["off"] = 102 + k
            cfg["defs"].append({"name": nm + "d", "expr": fn("ClientParameterMapping.get", name="xd%d" % k, set=fn("ControlChange", 102 + k, 0))})
        # what the device does
        if kind in ("resp", "nrpn", "list") and r.random() < 0.6: d["echo"] = [r.choice([1, 5, 60, 400]), r.choice([None, None, 0, 1, 64])]
        par.append(d)
    used = set()
    for k in range(r.randrange(1, 6)):
        acts, ex = [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            j = r.randrange(len(par)); d = par[j]
            if d["kind"] in ("poll", "push", "int", "none", "list") and j in used: continue
            used.add(j)
            mode = r.choice(MODES); cmp = r.choice(["GREATER_EQUAL"] * 4 + CMP)
            if d["kind"] in ("int", "none"): cmp = "GREATER_EQUAL"
            top = d["max"] if d["off"] is None else 127
            von = r.choice([1, 1, 127, 64, top, r.randrange(top + 1)]); voff = r.choice([0, 0, 0, r.randrange(top + 1)])
            if d["kind"] == "list": von = [von, r.randrange(128)]; voff = [voff, r.randrange(128)]
            ref = r.choice([None, None, 1, 64, r.randrange(d["max"] + 1)])
            a = {"par": j, "mode": mode, "cmp": cmp, "on": von, "off": voff, "ref": ref, "hold": 600}
            cb = dict(mapping="$_m%d" % j, value_enable=von, value_disable=voff, comparison_mode="$BinaryParameterCallback." + cmp)
            if ref is not None: cb["reference_value"] = ref
            if d["off"]: cb["mapping_disable"] = "$_m%dd" % j
            if d["kind"] == "int": cb["use_internal_state"] = True
            c = {"callback": fn("BinaryParameterCallback", **cb), "mode": "$PushButtonAction." + mode, "useSwitchLeds": r.random() < 0.5}
            if r.random() < 0.4:
                a["hold"] = r.choice([100, 300, 1000]); c["holdTimeMillis"] = a["hold"]
            acts.append(a); ex.append(fn("PushButtonAction", c))
        pin = G.switch(p, ex)
        x["sw"].append({"pin": pin, "acts": acts})
        H = acts[0]["hold"] if acts else 600
        t = r.randrange(3000, 6000) if bidir or cfg["costs"]["read"] > 4000 else r.randrange(1000, 3500)
        while t < p["dur"] - 200:
            dd = max(1, r.choice([r.randrange(1, 60), r.randrange(40, 600), r.randrange(300, 2000), H + r.randrange(-40, 60), 600 + r.randrange(-40, 60)]))
            G.press(p, pin, t + r.random(), dd)
            t += dd + r.choice([r.randrange(3, 60), r.randrange(30, 300), r.randrange(200, 1500)])
    # reports
    for j, d in enumerate(par):
        if d["kind"] in ("resp", "nrpn", "list"):
            for _ in range(r.choice([0, 3, 10, 40])):
                v = r.choice([0, 1, 63, 64, 65, 127, d["max"], r.randrange(d["max"] + 1)])
                refs = [a["ref"] if a["ref"] is not None else (a["on"][0] if isinstance(a["on"], list) else a["on"]) for s in x["sw"] for a in s["acts"] if a["par"] == j]
                if refs and r.random() < 0.4: v = min(d["max"], max(0, r.choice(refs) + r.choice([-1, 0, 0, 1])))
                m = K.single(0x60, j, v) if d["kind"] == "nrpn" else K.cc(40 + j, v)
                p["events"].append({"t": r.randrange(300, p["dur"]), "k": "raw", "port": port, "hex": m.hex()})
        elif d["kind"] in ("poll", "push"):
            for _ in range(r.choice([0, 1, 3, 10])):
                p["events"].append({"t": r.randrange(1200, p["dur"]), "k": "dset", "a": d["addr"], "v": r.choice([0, 0, 1, 1, 64, 16383, r.randrange(16384)])})
    p["echo"] = [{"port": port, "j": j, "kind": d["kind"], "n": d["n"], "off": d["off"], "lat": d["echo"][0], "fix": d["echo"][1]} for j, d in enumerate(par) if d.get("echo")]
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 5), 10, 400)
    if cfg["costs"]["read"] < 40000 and r.random() < 0.2:
        for _ in range(r.choice([20, 60])):
            p["events"].append({"t": r.randrange(300, p["dur"]), "k": "raw", "port": port, "hex": (K.cc(119, r.randrange(128)) * r.choice([1, 5, 12])).hex()})
    return G.done(p)

def sat(cmp, v, ref):
    return {"EQUAL": v == ref, "GREATER": v > ref, "GREATER_EQUAL": v >= ref, "LESS": v < ref, "LESS_EQUAL": v <= ref}[cmp]

class Act:
    """What one action knows, and what it has to send (reference model)"""
    def __init__(self, a, d, bidir):
        self.a, self.d, self.st, self.last, self.wait, self.t = a, d, False, None, 0, None
        self.ref = a["ref"] if a["ref"] is not None else (a["on"][0] if isinstance(a["on"], list) else a["on"])
    def report(self, v):
        """The device reported v"""
        if self.d["kind"] == "poll":
            # an answer may be older than a command; the second one after it is not
            if self.wait:
                self.wait -= 1
                if not self.wait: self.last = None
            if v == self.last: return
        self.last = v
        if self.a["cmp"] != "NO_STATE_CHANGE": self.st = sat(self.a["cmp"], v, self.ref)
    def command(self, on):
        a, d = self.a, self.d
        self.st = on
        if d["kind"] == "poll": self.wait = 2
        v = self.on() if on else self.off()
        if v is None: return []
        if not on and d["off"]: return [("cc", d["off"], v)]
        if d["kind"] == "list": return [("cc", d["n"], v[0]), ("cc", d["n"] + 10, v[1])]
        if d["kind"] == "nrpn": return [("val", 0x60, d["n"] - 82, v)]
        if d["kind"] == "poll": return [("val", d["addr"][0], d["addr"][1], v)]
        return [("cc", d["n"], v)]
    def on(self): return self.a["on"]
    def off(self): return self.a["off"]
    def keep(self): return self.st, self.last, self.wait, self.t
    def back(self, q): self.st, self.last, self.wait, self.t = q
    def to(self, on):
        return self.command(on) if self.st != on else []
    def push(self, t):
        m = self.a["mode"]
        self.t = t
        if m == "ENABLE": return self.to(True)
        if m == "DISABLE": return self.to(False)
        if m in ("LATCH", "HOLD_MOMENTARY"): return self.to(not self.st)
        if m == "MOMENTARY": return self.to(True)
        if m == "MOMENTARY_INVERSE": return self.to(False)
        if m == "ONE_SHOT": return self.command(True)
        return []
    def release(self, t, ask=False):
        """-> (messages, certain)"""
        m = self.a["mode"]
        if ask and m != "HOLD_MOMENTARY": return [], True
        if m == "MOMENTARY": return self.to(False), True
        if m == "MOMENTARY_INVERSE": return self.to(True), True
        if m == "HOLD_MOMENTARY":
            d = (t - self.t) / 1000 - self.a["hold"]
            if d < -25: return [], True
            if d > 40: return [] if ask else self.to(not self.st), True
            return None, False
        if m == "ONE_SHOT": self.st = False
        return [], True

def check(ctx): run(ctx, Act)

def run(ctx, Act, watch=None):
    res, plan = ctx.res, ctx.plan
    tr, x, cfg = res.trace, plan["x"], plan["cfg"]
    par = x["par"]
    port = cfg["routings"][0][0]
    sw = {s["pin"]: {"acts": [Act(a, par[a["par"]], x["bidir"]) for a in s["acts"]], "prev": False} for s in x["sw"]}
    by = {}
    for s in sw.values():
        for a in s["acts"]: by.setdefault(a.a["par"], []).append(a)
    keys = {}
    push = {tuple(d["addr"]): j for j, d in enumerate(par) if d["kind"] == "push"}
    for j, d in enumerate(par):
        if d["off"]: keys[("cc", d["off"])] = j
        if d["kind"] == "nrpn": keys[("val", 0x60, j)] = j
        elif d["kind"] == "poll": keys[("val", d["addr"][0], d["addr"][1])] = j
        else:
            keys[("cc", d["n"])] = j
            if d["kind"] == "list": keys[("cc", d["n"] + 10)] = j
        ctx.count("off_command", bool(d["off"])); ctx.count("nrpn", d["kind"] == "nrpn"); ctx.count("list", d["kind"] == "list")
    ctx.count("bidir", x["bidir"])
    for j in by: ctx.count("shared", len(by[j]) > 1)
    cur = None
    def reported(j, v):
        for a in by.get(j, []): a.report(v)
        ctx.count("report")
        ctx.count("report_while_held", any(s["prev"] and any(a.a["par"] == j for a in s["acts"]) for s in sw.values()))
        ctx.count("refused", par[j].get("echo", [0, None])[1] is not None)
    def close():
        nonlocal cur
        if not cur: return
        pin, t, v, got, old = cur
        cur = None
        s = sw[pin]
        if v == s["prev"]:
            if got: ctx.bad("unpressed", "switch %s did not change (%s) but sent %s" % (pin, "held" if v else "open", got), t)
            return
        s["prev"] = v
        acts = s["acts"]
        if old: ctx.count("late_answer"); return True
        sure = [v or a.release(t, True)[1] for a in acts]
        best = None
        for ch in itertools.product(*[[True] if q else [True, False] for q in sure]):       # around the hold time both is right
            sv = [a.keep() for a in acts]
            g, err, log = list(got), None, []
            for a, q, c in zip(acts, sure, ch):
                before = a.st
                if v: w = a.push(t)
                elif q: w = a.release(t)[0]
                else: w = a.to(not a.st) if c else []
                if par[a.a["par"]]["kind"] == "push" and w and w[0][1] == a.d["n"]:
                    for b in by[a.a["par"]]: b.report(w[0][2])
                log.append((a, q, w))
                if g[:len(w)] != w:
                    err = ("command", "switch %s %s: action %s in mode %s (known state %s, %.1f ms after the press) has to send %s, sent were %s" % (
                        pin, "pressed" if v else "released", a.d["n"], a.a["mode"], "on" if before else "off", (t - a.t) / 1000, w, got))
                    break
                g = g[len(w):]
            if not err and g:
                err = ("extra", "switch %s %s: sent %s, %s too much (actions: %s)" % (pin, "pressed" if v else "released", got, g, [(a.d["n"], a.a["mode"], a.st) for a in acts]))
            best = best or err
            if not err: break
            for a, q in zip(acts, sv): a.back(q)
        if err:
            ctx.bad(best[0], best[1], t)
            return True
        for a, q, w in log:
            ctx.count("judged"); ctx.count("mode_" + a.a["mode"]); ctx.count("no_command", not w); ctx.count("near_hold", not q)
            if not v and q and a.a["mode"] == "HOLD_MOMENTARY": ctx.count("held", len(w) > 0)
    started = False
    req = {}
    for e in tr:
        k = e[1]
        if watch and k != "s" and watch(e, sw): break
        if k == "s":
            if close(): break           # what follows can not be told
            if watch and watch(e, sw): break
            started = True
            if e[2] in sw: cur = [e[2], e[0], e[3], [], any(e[0] - req.get(a.a["par"], e[0]) > 1900000 for a in sw[e[2]]["acts"])]
        elif k in ("m", "a", "e"):
            if close(): break
            if k == "m" and e[3] and started and e[2] == port:
                d = K.decode(e[3])
                if d[0] == "cc" and 40 <= d[1] < 50 and d[1] - 40 < len(par) and par[d[1] - 40]["kind"] in ("resp", "list"): reported(d[1] - 40, d[2])
                elif d[0] == "val":
                    j = keys.get(("val", d[1], d[2]), push.get((d[1], d[2])))
                    if j is not None:
                        if par[j]["kind"] == "poll":
                            ctx.count("answer")
                            # an answer that comes after the lifetime of its request is not for this property
                            if e[0] - req.get(j, 0) > 1900000: ctx.count("late_answer"); break
                            req.pop(j, None)
                        reported(j, d[3])
        elif k == "tx":
            for m in K.split(e[3]):
                d = K.decode(m)
                q = d[:2] if d[0] == "cc" else d[:3]
                if d[0] == "req" and ("val",) + d[1:3] in keys: req[keys[("val",) + d[1:3]]] = e[0]
                if q in keys and (d[0] == "cc" or d[0] == "val"):
                    if cur: cur[3].append(tuple(d[:3] if d[0] == "cc" else d[:4]))
                    else: ctx.bad("stray", "command %s sent without a switch being processed" % (d,), e[0])
