"""P23: on/off state and restored values follow the received parameter value exactly."""
from .. import gen as G, kemper as K, cat
from ..gen import fn
from .. import vis
from ..obs import Screen
from . import p09

ID = "P23"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("One to five switches with up to three binary switch actions each in every mode and with every comparison, with and without own reference, brightness and dim settings, on their LEDs and labels, with fixed off values, values restored from before, "
        "and value lists mixing both; parameters the device reports by itself, that are asked for, and that are never reported; values at, next to and far from the reference, 7 and 14 bit; a device that echoes, refuses or changes values; presses, stalls.")
PROBES = ["cmp_%s" % c for c in p09.CMP] + ["at_ref", "below_ref", "above_ref", "shown_on", "shown_off", "unknown", "restored", "restored_nothing", "restored_list", "restored_wide", "label", "led", "shared", "nrpn", "poll", "list", "internal", "held_shown", "refused"]
COL = [(255, 0, 0), (0, 255, 0), (30, 60, 255), (255, 255, 255), (200, 100, 0), (255, 125, 0)]

def gen(r, i, tier):
    peer = r.random() < 0.4
    p = G.base(r, r.choice([6000, 8000, 12000]), peer=peer)
    cfg = p["cfg"]
    port = cfg["routings"][0][0]
    x = p["x"] = {"sw": [], "par": [], "bidir": False}
    par = x["par"]
    c = cfg["config"]
    x["def"] = [0.3, 0.02, 1, 0.2]
    for n, (k, v) in enumerate((("ledBrightnessOn", [0.2, 0.5, 1]), ("ledBrightnessOff", [0, 0.1]), ("displayDimFactorOn", [0.7, 0.9]), ("displayDimFactorOff", [0.1, 0.5]))):
        if r.random() < 0.15: c[k] = x["def"][n] = r.choice(v)
    polled = list(p09.POLLED); r.shuffle(polled)
    for k in range(r.randrange(1, 5)):
        kind = r.choice(["resp", "resp", "resp", "nrpn", "nrpn", "int", "none", "list"] + (["poll"] * 5 if peer else []))
        d = {"kind": kind, "n": 82 + k, "off": None, "max": 127}
        if kind in ("resp", "list"):
            s = fn("ControlChange", 82 + k, 0) if kind == "resp" else [fn("ControlChange", 82 + k, 0), fn("ControlChange", 92 + k, 0)]
            e = fn("ClientParameterMapping.get", name="x%d" % k, set=s, response=fn("ControlChange", 40 + k, 0))
        elif kind == "nrpn":
            d["max"] = 16383
            e = fn("ClientParameterMapping.get", name="x%d" % k, set=fn("KemperNRPNMessage", 1, 0x60, k), response=fn("KemperNRPNMessage", 1, 0x60, k))
        elif kind in ("int", "none"):
            e = fn("ClientParameterMapping.get", name="x%d" % k, set=fn("ControlChange", 82 + k, 0))
        else:
            nm2 = polled.pop(); d["addr"] = list(cat.MAPS[nm2]["addr"]); e = "$%s()" % nm2; d["max"] = 16383
        cfg["defs"].append({"name": "_m%d" % k, "expr": e})
        if kind in ("resp", "nrpn", "list") and r.random() < 0.6: d["echo"] = [r.choice([1, 5, 60, 400]), r.choice([None, None, None, 0, 1, 64])]
        par.append(d)
    used = set()
    nl = 0
    for k in range(r.randrange(1, 6)):
        acts, ex = [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            j = r.randrange(len(par)); d = par[j]
            if d["kind"] in ("poll", "int", "none", "list") and j in used: continue
            used.add(j)
            mode = r.choice(p09.MODES); cmp = r.choice(["GREATER_EQUAL"] * 3 + p09.CMP)
            if d["kind"] in ("int", "none"): cmp = "GREATER_EQUAL"
            top = d["max"]
            von = r.choice([1, 1, top, 64, r.randrange(top + 1)]); voff = r.choice([0, 0, r.randrange(top + 1), "auto", "auto", "auto"])
            if d["kind"] == "list": von = [von, r.randrange(128)]; voff = [voff, r.choice(["auto", r.randrange(128)])]
            ref = r.choice([None, None, 0, 1, 64, 127, top, r.randrange(top + 1)])
            a = {"par": j, "mode": mode, "cmp": cmp, "on": von, "off": voff, "ref": ref, "hold": 600, "col": list(r.choice(COL)), "led": r.random() < 0.7, "lab": None, "int": d["kind"] == "int",
                 "bon": x["def"][0], "boff": x["def"][1], "don": x["def"][2], "doff": x["def"][3]}
            arg = dict(value_on=von, value_off=voff, comparison_mode="$BinaryParameterCallback." + cmp, mode="$PushButtonAction." + mode, color=G.tup(*a["col"]), use_leds=a["led"])
            if mode == "HOLD_MOMENTARY" and r.random() < 0.5: del arg["mode"]
            if cmp == "GREATER_EQUAL" and r.random() < 0.5: del arg["comparison_mode"]
            if ref is not None: arg["reference_value"] = ref
            if a["int"]: arg["use_internal_state"] = True
            for kk, key, other, vals in (("bon", "led_brightness_on", "off", [0.4, 1]), ("boff", "led_brightness_off", "on", [0, 0.05]), ("don", "display_dim_factor_on", "off", [0.8]), ("doff", "display_dim_factor_off", "on", [0.3])):
                if r.random() < 0.15:
                    v = r.choice([vals[0], vals[-1], other])
                    arg[key] = v
                    a[kk] = x["def"][{"bon": 1, "boff": 0, "don": 3, "doff": 2}[kk]] if v == other else v
            if nl < 4 and r.random() < 0.5:
                a["lab"] = "D%d" % nl; nl += 1
                arg["display"] = G.label(p, a["lab"], back=G.tup(100, 100, 100)); arg["text"] = a["text"] = "T%d" % nl
            acts.append(a); ex.append(fn("BINARY_SWITCH", "$_m%d" % j, **arg))
        px = [3 * k + z for z in range(r.choice([3, 3, 3, 1, 2, 6]))] if k == 4 else None
        pin = G.switch(p, ex, pixels=px)
        x["sw"].append({"pin": pin, "acts": acts, "px": px or [3 * k, 3 * k + 1, 3 * k + 2]})
        t = r.randrange(1000, 3500)
        while t < p["dur"] - 200:
            dd = max(1, r.choice([r.randrange(1, 60), r.randrange(40, 500), r.randrange(700, 2000)]))
            G.press(p, pin, t + r.random(), dd)
            t += dd + r.choice([r.randrange(3, 60), r.randrange(200, 1500), r.randrange(500, 3000)])
    for j, d in enumerate(par):
        refs = [a["ref"] if a["ref"] is not None else (a["on"][0] if isinstance(a["on"], list) else a["on"]) for s in x["sw"] for a in s["acts"] if a["par"] == j] or [0]
        for _ in range(r.choice([0, 3, 8, 15])):
            v = r.choice([0, 1, d["max"], r.randrange(d["max"] + 1), 128 * r.randrange(d["max"] // 128 + 1)])
            if r.random() < 0.6: v = min(d["max"], max(0, r.choice(refs) + r.choice([-1, 0, 0, 1])))
            t = r.randrange(300, p["dur"])
            if d["kind"] in ("resp", "nrpn", "list"):
                m = K.single(0x60, j, v) if d["kind"] == "nrpn" else K.cc(40 + j, v)
                p["events"].append({"t": t, "k": "raw", "port": port, "hex": m.hex()})
            elif d["kind"] == "poll":
                p["events"].append({"t": max(1200, t), "k": "dset", "a": d["addr"], "v": v})
    p["echo"] = [{"port": port, "j": j, "kind": d["kind"], "n": d["n"], "off": d["off"], "lat": d["echo"][0], "fix": d["echo"][1]} for j, d in enumerate(par) if d.get("echo")]
    if r.random() < 0.25: G.stalls(p, r, r.randrange(1, 4), 10, 400)
    return G.done(p)

class Act(p09.Act):
    def __init__(self, a, d, bidir):
        super().__init__(a, d, bidir)
        self.mem, self.log = None, []
    def report(self, v):
        wait, last = self.wait, self.last
        super().report(v)
        if self.d["kind"] == "poll" and v == last and not (wait == 1): return
        if not self.st: self.mem = v
    def on(self):
        # commands for several things at once are only sent if they can be taken back
        return None if isinstance(self.a["off"], list) and self.off() is None else self.a["on"]
    def off(self):
        o = self.a["off"]
        if isinstance(o, list) and "auto" in o or o == "auto":
            self.log.append("restored_nothing" if self.mem is None else "restored_list" if isinstance(o, list) else "restored_wide" if self.mem > 127 else "restored")
        if isinstance(o, list):
            o = [self.mem if q == "auto" else q for q in o]
            return None if None in o else o
        return self.mem if o == "auto" else o
    def keep(self): return super().keep() + (self.mem,)
    def back(self, q):
        super().back(q[:4]); self.mem = q[4]

def check(ctx):
    plan, res = ctx.plan, ctx.res
    x, cfg = plan["x"], plan["cfg"]
    scr = Screen(res)
    late = vis.Late(res, plan)
    own = {}
    for s in x["sw"]:
        leds = [a for a in s["acts"] if a["led"]]
        for n, a in enumerate(leds): own[id(a)] = vis.segments(s["px"], len(leds), n)
        for a in s["acts"]: ctx.count("cmp_" + a["cmp"]); ctx.count("list", x["par"][a["par"]]["kind"] == "list"); ctx.count("internal", a["int"])
    settle = 250000
    allsw = {}
    seen = {}                 # action -> [state, since]
    def judge(q, on, t, held):
        a = q.a
        vis_on = on and (x["par"][a["par"]]["kind"] not in ("none",))
        for led in own.get(id(a), []):
            ctx.count("judged"); ctx.count("led")
            w = vis.led(a["col"], a["bon"] if vis_on else a["boff"])
            if not vis.led_ok(scr.led[led], w):
                ctx.bad("led", "LED %d shows %s, but %s (%s %s %s: %s, %s) has to be %s: %s" % (led, scr.led[led], a["par"], q.last, a["cmp"], q.ref, a["mode"], x["par"][a["par"]]["kind"], "on" if vis_on else "off", w), t)
                return True
        if a["lab"]:
            ctx.count("judged"); ctx.count("label")
            w = vis.dim(a["col"], a["don"] if vis_on else a["doff"])
            if scr.back.get(a["lab"]) != w or scr.text.get(a["lab"]) != a["text"]:
                ctx.bad("label", "label %s shows %s, %s, but parameter %s (%s %s %s: %s) has to be %s: %s, %s" % (a["lab"], scr.text.get(a["lab"]), scr.back.get(a["lab"]), a["par"], q.last, a["cmp"], q.ref, a["mode"], "on" if vis_on else "off", a["text"], w), t)
                return True
        if own.get(id(a)) or a["lab"]:
            ctx.count("shown_on" if vis_on else "shown_off"); ctx.count("unknown", q.last is None); ctx.count("held_shown", held)
            if q.last is not None:
                ctx.count("at_ref", q.last == q.ref); ctx.count("below_ref", q.last < q.ref); ctx.count("above_ref", q.last > q.ref)
    def watch(e, sw):
        t = e[0]
        allsw.update(sw)
        if e[1] in ("led", "txt", "fill", "npx"): scr.apply(e)
        if e[1] == "s":
            for s in sw.values():
                for q in s["acts"]:
                    z = seen.setdefault(id(q), [q.st, t])
                    if z[0] != q.st:
                        if t - z[1] > 0 and t - z[2 if len(z) > 2 else 1] >= 0: pass
                        seen[id(q)] = [q.st, t]
                    elif t - z[1] > settle + late.slack(z[1], t):
                        if judge(q, q.st, t, s["prev"]): return True
                        z[1] = t
    p09.run(ctx, Act, watch)
    for s in allsw.values():
        for q in s["acts"]:
            for n in q.log: ctx.count(n)
    ctx.count("nrpn", any(d["kind"] == "nrpn" for d in x["par"])); ctx.count("poll", any(d["kind"] == "poll" for d in x["par"]))
