"""P19: parameter up/down steps once per press, repeats while held, stops on release."""
from .. import gen as G, kemper as K
from ..gen import fn
from . import p16
from .p16 import enabled

ID = "P19"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("One to five switches with one or two up/down buttons each (offsets of both signs, own ranges, repeat intervals from none to 700 ms, some as hold actions, some enabled by a received value), on parameters the device reports by itself, "
        "that are asked for, or that are only known after an encoder moved them; pairs of buttons and encoders on one parameter; quick and long presses, several at once; devices that echo, refuse or change the value; stalls, floods.")
PROBES = ["press", "repeat", "long", "limit_low", "limit_high", "no_value", "reported_between", "shared", "quick_second", "hold_action", "short_action", "disabled", "no_repeat", "after_release", "nrpn", "poll", "echo_other", "stall", "due", "encoder_between", "released_between"]

def gen(r, i, tier):
    peer = r.random() < 0.45
    p = G.base(r, r.choice([5000, 8000]), peer=peer)
    cfg = p["cfg"]
    port = cfg["routings"][0][0]
    x = p["x"] = {"sw": [], "enc": []}
    par = x["par"] = p16.params(p, r, x, r.randrange(1, 4), peer, ["resp", "resp", "nrpn", "none"], cfg)
    lab = [G.label(p, "L0", cb=fn("Beat"))]
    for k in range(r.choice([0, 1, 2])):
        lab.append(G.label(p, "D%d" % k, back=G.tup(100, 100, 100)) if r.random() < 0.6 else G.label(p, "D%d" % k, cb=fn("ParameterDisplayCallback", mapping=r.choice(par)["expr"])))
    p16.conds(p, r, x, port, cfg)
    own = lab[1:]
    r.shuffle(own)
    used = set()
    for k in range(r.randrange(1, 6)):
        hold = r.random() < 0.2
        groups = []
        for g in range(2 if hold else 1):
            acts, ex = [], []
            for _ in range(r.choice([1, 1, 1, 2])):
                j = r.randrange(len(par)); d = par[j]
                off = r.choice([1, -1, 1, -1, 10, -10, 5, 127, -127] + ([80, -80, 1000, -1000, 129, -500] if d["max"] > 127 else []))
                if (j, off) in used: off += 1 if off > 0 else -1
                used.add((j, off))
                a = {"par": j, "off": off, "max": d["max"], "rep": 200, "cond": None}
                arg = {"offset": off}
                if r.random() < 0.6: a["rep"] = r.choice([0, None, 50, 100, 300, 700]); arg["repeat_interval_millis"] = a["rep"]
                if r.random() < 0.3: a["max"] = r.choice([d["max"] // 2, d["max"] - 1, 10, 63]); arg["max_value"] = a["max"]
                if x["conds"] and r.random() < 0.5: a["cond"] = r.randrange(len(x["conds"])); arg["enable_callback"] = "$_co%d" % a["cond"]
                if own and r.random() < 0.3: arg["display"] = own.pop()
                if r.random() < 0.4 and len(lab) > 1: arg["change_display"] = r.choice(lab[1:])
                acts.append(a); ex.append(fn("PARAMETER_UP_DOWN", "$_m%d" % j, **arg))
            groups.append((acts, ex))
        pin = G.switch(p, groups[0][1], hold=groups[1][1] if hold else None)
        x["sw"].append({"pin": pin, "acts": groups[0][0], "hold": groups[1][0] if hold else None})
        t = r.choice([500, 1000, 2500])
        while t < p["dur"] - 2500:
            if hold: d = r.choice([20, 100, 300, 1000, 1600])
            else: d = r.choice([20, 60, 100, 150, 300, r.randrange(20, 3000), r.randrange(200, 1200)])
            G.press(p, pin, t, d)
            t += d + r.choice([30, 60, 120, 400, r.randrange(100, 3000)])
    if r.random() < 0.4:
        cfg["enc0"] = {}
        a, b = G.EPINS[0]
        j = r.randrange(len(par))
        arg = {}
        if lab[1:] and r.random() < 0.3: arg["preview_display"] = r.choice(lab[1:])
        sw = 80 if par[j]["max"] > 127 else 1
        cfg["inputs"].append({"type": "enc", "pin": a, "pin2": b, "actions": [fn("EncoderAction", "$_m%d" % j, **arg)]})
        x["enc"].append({"pin": a, "par": j})
        p16.turns(p, r, a, r.choice([300, 1000]))
    p16.reports(p, r, par, port)
    r.shuffle(cfg["inputs"])
    if r.random() < 0.25 and not any(s["hold"] for s in x["sw"]): G.stalls(p, r, r.randrange(1, 5), 10, 400)
    if r.random() < 0.15:
        for _ in range(r.choice([20, 60])):
            p["events"].append({"t": r.randrange(300, p["dur"]), "k": "raw", "port": port, "hex": (K.cc(119, r.randrange(128)) * r.choice([1, 5, 12])).hex()})
    return G.done(p)

def check(ctx):
    res, plan = ctx.res, ctx.plan
    tr, x, cfg = res.trace, plan["x"], plan["cfg"]
    par = x["par"]
    port = cfg["routings"][0][0]
    val = p16.Values(par)
    cv = [None] * len(x["conds"])
    from ..obs import Screen
    scr = Screen(res)
    sw = {s["pin"]: {"acts": [dict(a, last=None, sent=0, id=(s["pin"], 0, n)) for n, a in enumerate(s["acts"])],
                     "hold": [dict(a, last=None, sent=0, id=(s["pin"], 1, n)) for n, a in enumerate(s["hold"])] if s["hold"] else None,
                     "down": None, "held": []} for s in x["sw"]}
    encs = {e["pin"]: e["par"] for e in x["enc"]}
    for j in range(len(par)): ctx.count("shared", sum(a["par"] == j for s in x["sw"] for a in s["acts"]) > 1)
    ctx.count("stall", any(e[1] == "stall" for e in tr))
    cur, started, beat, rep, lastsend, last_tx = None, False, None, {}, {}, 0
    def fits(a, c):
        """The command c is a step of a from the value known"""
        v = val.v.get(a["par"])
        return v is not None and c == (a["par"], min(a["max"], max(0, v + a["off"])))
    def did(a, c, t, how):
        v0 = val.v[a["par"]]
        v = val.v[c[0]] = c[1]
        ctx.count("judged"); ctx.count(how)
        ctx.count("limit_low", v == 0); ctx.count("limit_high", v == a["max"])
        ctx.count("reported_between", rep.get(a["par"], 0)); ctx.count("nrpn", par[a["par"]]["kind"] == "nrpn"); ctx.count("poll", par[a["par"]]["kind"] == "poll"); ctx.count("echo_other", bool(par[a["par"]].get("echo") and par[a["par"]]["echo"][1] is not None))
        ctx.count("quick_second", t - lastsend.get(a["par"], -10**9) < 150000 and not rep.get(a["par"]))
        lastsend[a["par"]] = t; rep[a["par"]] = 0
    def close(t1):
        nonlocal cur
        if not cur: return
        t, pin, on, got = cur
        cur = None
        got = list(got)
        if pin in encs:
            for c in got:
                if c[0] != encs[pin]: ctx.bad("stray", "encoder %s sends %s" % (pin, c), t); return True
                val.v[c[0]] = c[1]; rep[c[0]] = 0; ctx.count("encoder_between")
            return
        s = sw.get(pin)
        if s is None:
            if got: ctx.bad("stray", "switch %s sends %s" % (pin, got), t); return True
            return
        def run(acts, how):
            """All enabled actions have to send one step"""
            for a in acts:
                if not enabled(x, cv, a): ctx.count("disabled"); continue
                if val.v.get(a["par"]) is None: ctx.count("no_value"); s["held"] += [dict(a, last=None)] if how == "press" else []; continue
                want = (a["par"], min(a["max"], max(0, val.v[a["par"]] + a["off"])))
                if not got or got[0] != want:
                    ctx.bad("step", "switch %s (%s): %s from %s by %s has to be sent, sent was %s" % (pin, how, want, val.v[a["par"]], a["off"], got), t)
                    return True
                got.pop(0)
                if how == "press":
                    b = dict(a, last=last_tx); s["held"].append(b)
                did(a, want, t, how)
        if on and s["down"] is None:
            s["down"] = t; s["done"] = s["none"] = False
            if s["hold"] is None and run(s["acts"], "press"): return True
        elif not on and s["down"] is not None:
            if s["hold"] is None:
                ctx.count("long", t - s["down"] > 600000)
                for a in s["held"]: ctx.count("after_release", a["last"] is not None and bool(a["rep"])); ctx.count("no_repeat", not a["rep"])
            elif t - s["down"] < 550000 and not s["done"]:
                if run(s["acts"], "short_action"): return True
            elif not s["done"] and t - s["down"] > 650000 and not (s["none"] and not got):
                if run(s["hold"], "hold_action"): return True
            elif not s["done"] and got:                     # either
                for n in ("acts", "hold"):
                    g0 = list(got)
                    if all(any(fits(a, c) for a in s[n]) for c in g0): break
                for c in got: val.v[c[0]] = c[1]
                got.clear()
            s["down"], s["held"] = None, []
        elif on and s["hold"] is not None and not s["done"] and t - s["down"] > 550000 and not got and all(not enabled(x, cv, a) or val.v.get(a["par"]) is None for a in s["hold"]):
            s["none"] = True                                # nothing to be seen of the hold action if it runs now
        elif on and s["hold"] is not None and not s["done"] and t - s["down"] > 550000 and (got or t - s["down"] > 650000):
            s["done"] = True
            if not (s["none"] and not got) and run(s["hold"], "hold_action"): return True
        if got:
            ctx.bad("extra", "switch %s (%s): %s sent too much" % (pin, "down" if on else "up", got), t)
            return True
    for e in tr:
        k = e[1]
        t = e[0]
        if k in ("s", "a", "e", "m"):
            if close(t): break
            if val.stale(t): ctx.count("late"); break
            if k in ("s", "e"): started = True
            if k == "s": cur = (t, e[2], e[3], [])
            elif k == "e": cur = (t, e[2], e[3], [])
            elif k == "m" and e[3] and e[2] == port and started:
                d = K.decode(e[3])
                if d[0] == "cc":
                    for n, c in enumerate(x["conds"]):
                        if c["n"] == d[1]: cv[n] = d[2]
                j, ok = val.take(t, e[3])
                if not ok: break
                if j is not None: rep[j] = 1
        elif k == "tx":
            for m in K.split(e[3]):
                c = val.tx(t, m)
                if c is None: continue
                if cur: cur[3].append(c); last_tx = t; continue
                # A repetition
                ok = why = None
                for s in sw.values():
                    for a in s["held"]:
                        if not fits(a, c): continue
                        if not a["rep"]: why = "it does not repeat"; continue
                        if a["last"] is not None and t - a["last"] < a["rep"] * 1000 - 2000: why = "it repeats every %d ms, the last one was %.1f ms ago" % (a["rep"], (t - a["last"]) / 1000); continue
                        ok = a if ok is None else ok
                if ok is None:
                    ctx.bad("stray", "%s sent although no button held can send it now: values %s, held %s%s" % (c, val.v, [(a["par"], a["off"]) for s in sw.values() for a in s["held"]], ", " + why if why else ""), t)
                    break
                # (several buttons can have sent the same)
                if sum(fits(a, c) and bool(a["rep"]) for s in sw.values() for a in s["held"]) > 1: ok["last"] = None; ctx.count("ambiguous")
                for s in sw.values():
                    for a in s["held"]:
                        if a is not ok and fits(a, c): a["last"] = None
                if ok["last"] is not None: ok["last"] = t
                ok["beats"] = 0
                did(ok, c, t, "repeat")
            if ctx.v: break
        elif k == "txt":
            if scr.lab.get(e[2]) != "L0": continue
            if beat is not None:
                # Every repetition due when the round before ended has been sent in this one
                for pin, s in sw.items():
                    for a in s["held"]:
                        if not a["rep"] or a["last"] is None: continue
                        ctx.count("released_between", not enabled(x, cv, a))
                        if enabled(x, cv, a) and beat - a["last"] > a["rep"] * 1000 + 2000 and s["down"] is not None:
                            ctx.bad("lost", "switch %s is held: the last step (%s by %s) was %.1f ms ago, it has to repeat every %s ms" % (pin, a["par"], a["off"], (t - a["last"]) / 1000, a["rep"]), t)
                        else: ctx.count("due", beat - a["last"] > 0)
            if ctx.v: break
            beat = t
