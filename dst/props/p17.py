"""P17: encoder preselection is sent only on accept, and dropped on cancel."""
from .. import gen as G, kemper as K, cat
from ..gen import fn
from ..obs import Screen
from . import p16
from .p16 import Values, enabled

ID = "P17"
RUNS = {"quick": 2500, "thorough": 80000}
RULE = ("One to three encoders with one or two actions each (preselect or direct), accepted and cancelled by up to three buttons shared in any combination, previews on one or two labels shared with other encoders, pedals and step buttons; "
        "reset parameters (also the rig number); turns, accepts, cancels, device reports, rig changes and disabling in any order and timing, stalls, floods of messages.")
PROBES = ["pending", "accepted", "accept_nothing", "cancelled", "cancel_nothing", "reset", "replaced", "replaced_pedal", "restart", "reported", "two_roles", "many_encoders", "disabled_pending", "unknown", "text", "limit", "special", "direct", "back_to_value"]
SPECIAL = {"ENCODER_RIG_TRANSPOSE": ((4, 4), 1, 28, 100), "AMP_GAIN": ((0x0a, 4), 80, 0, 16383), "ENCODER_BPM": ((4, 0), 80, 0, 16383)}

def gen(r, i, tier):
    peer = r.random() < 0.45
    p = G.base(r, r.choice([5000, 8000, 12000]), peer=peer)
    cfg = p["cfg"]
    port = cfg["routings"][0][0]
    x = p["x"] = {"enc": [], "btn": [], "kill": []}
    par = x["par"] = p16.params(p, r, x, r.randrange(1, 4), peer, ["resp", "resp", "nrpn", "none"], cfg)
    labels = []
    for k in range(r.choice([1, 1, 2, 2])):
        labels.append(G.label(p, "L%d" % k, cb=fn("ParameterDisplayCallback", mapping=fn("ClientParameterMapping.get", name="shown%d" % k, response=fn("ControlChange", 100 + k, 0)))))
    p16.conds(p, r, x, port, cfg)
    nb = r.choice([1, 1, 2, 3])
    for k in range(nb): cfg["defs"].append({"name": "_b%d" % k, "expr": fn("ENCODER_BUTTON")})
    x["reset"] = r.random() < 0.5
    if x["reset"]: cfg["defs"].append({"name": "_rst", "expr": fn("ClientParameterMapping.get", name="rst", response=fn("ControlChange", 120, 0))})
    roles = {k: [] for k in range(nb)}
    cfg["enc0"] = {}
    spec = list(SPECIAL) if peer else []
    for k in range(r.randrange(1, 4)):
        a, b = G.EPINS[k]
        acts, ex = [], []
        cfg["enc0"][a] = r.choice([0, 1, -1, -2, 100, r.randrange(-1000, 1000)])
        for n in range(r.choice([1, 1, 2])):
            arg = {}
            q = {"id": "%d.%d" % (k, n), "cond": None, "acc": None, "can": None, "lab": None, "rst": False, "text": None}
            if x["conds"] and r.random() < 0.4:
                q["cond"] = r.randrange(len(x["conds"])); arg["enable_callback"] = "$_co%d" % q["cond"]
            if r.random() < 0.85: q["lab"] = r.choice(labels)[1:]; arg["preview_display"] = "$" + q["lab"]
            if r.random() < 0.85:
                q["acc"] = r.randrange(nb); arg["accept_action"] = "$_b%d" % q["acc"]
                # (one button can not be both for the same encoder)
                if r.random() < 0.6 and nb > 1:
                    q["can"] = r.choice([z for z in range(nb) if z != q["acc"]]); arg["cancel_action"] = "$_b%d" % q["can"]
            if spec and r.random() < 0.3:
                f = spec.pop()
                addr, q["sw"], q["lo"], q["hi"] = SPECIAL[f]
                q.update(par=-1 - list(SPECIAL).index(f), rst="rig" if q["acc"] is not None and q["lab"] else False, text=f)
                if f != "ENCODER_RIG_TRANSPOSE" and r.random() < 0.5: q["sw"] = r.choice([1, 64, 0.5]); arg["step_width"] = q["sw"]
                acts.append(q); ex.append(fn(f, **arg))
            else:
                j = r.randrange(len(par)); d = par[j]
                q.update(par=j, sw=80 if d["max"] > 127 else 1, lo=0, hi=d["max"])
                if r.random() < 0.4: q["sw"] = r.choice([1, 2, 7, 16, 0.5, 0.25]); arg["step_width"] = q["sw"]
                if r.random() < 0.3: q["hi"] = r.choice([d["max"] // 2, 63]); arg["max_value"] = q["hi"]
                if q["lab"] and (r.random() < 0.5 or d["kind"] == "poll"): q["text"] = "conv"; arg["convert_value"] = "$conv"
                elif q["lab"]: q["text"] = "x%d" % j
                if q["lab"] and q["acc"] is not None and x["reset"] and r.random() < 0.7: q["rst"] = "cc"; arg["preview_reset_mapping"] = "$_rst"
                if r.random() < 0.3: arg["preview_timeout_millis"] = r.choice([100, 400])
                acts.append(q); ex.append(fn("EncoderAction", "$_m%d" % j, **arg))
        cfg["inputs"].append({"type": "enc", "pin": a, "pin2": b, "actions": ex})
        x["enc"].append({"pin": a, "acts": acts})
        p16.turns(p, r, a, r.choice([500, 800, 2500]))
    for k in range(nb):
        pin = G.switch(p, ["$_b%d" % k])
        x["btn"].append({"pin": pin, "roles": []})
        t = r.randrange(500, 3000)
        while t < p["dur"] - 200:
            d = r.choice([r.randrange(5, 60), r.randrange(30, 900)])
            G.press(p, pin, t, d)
            t += d + r.choice([r.randrange(5, 100), r.randrange(100, 1500), r.randrange(500, 4000)])
    # others which use the displays
    if r.random() < 0.4:
        n = 1 if r.random() < 0.5 else 2
        for k in range(n):
            lab = r.choice(labels)
            if r.random() < 0.5 and not any(z["pin"] == G.APINS[0] for z in x["kill"]):
                cfg["inputs"].append({"type": "pot", "pin": G.APINS[0], "actions": [fn("AnalogAction", fn("ClientParameterMapping.get", name="pot", set=fn("ControlChange", 70, 0)), change_display=lab)]})
                x["kill"].append({"pin": G.APINS[0], "n": 70, "lab": lab[1:]})
                t = 500
                while t < p["dur"]:
                    p["events"].append({"t": t, "k": "adc", "pin": G.APINS[0], "v": r.randrange(65536)}); t += r.choice([50, 500, 3000])
            elif not any(z["n"] == 71 for z in x["kill"]):
                pin = G.switch(p, [fn("PARAMETER_UP_DOWN", fn("ClientParameterMapping.get", name="pud", set=fn("ControlChange", 71, 0), response=fn("ControlChange", 72, 0)), 1, change_display=lab)])
                x["kill"].append({"pin": pin, "n": 71, "lab": lab[1:]})
                p["events"].append({"t": 400, "k": "raw", "port": port, "hex": K.cc(72, 5).hex()})
                for _ in range(r.randrange(1, 5)): G.press(p, pin, r.randrange(500, p["dur"] - 1500), r.choice([20, 500, 1000]))
    p16.reports(p, r, par, port)
    for k in range(len(labels)):
        for _ in range(r.choice([0, 2, 8])):
            p["events"].append({"t": r.randrange(300, p["dur"]), "k": "raw", "port": port, "hex": K.cc(100 + k, r.randrange(128)).hex()})
    if x["reset"]:
        for _ in range(r.choice([0, 1, 3, 8])):
            p["events"].append({"t": r.randrange(300, p["dur"]), "k": "raw", "port": port, "hex": K.cc(120, r.randrange(3)).hex()})
    if peer:
        for _ in range(r.choice([0, 1, 4])): p["events"].append({"t": r.randrange(500, p["dur"]), "k": "drig", "rig": r.randrange(625)})
        for _ in range(r.choice([0, 2, 6])):
            p["events"].append({"t": r.randrange(300, p["dur"]), "k": "dset", "a": list(r.choice([z[0] for z in SPECIAL.values()])), "v": r.choice([64, 65, 100, 8000])})
    r.shuffle(cfg["inputs"])
    # in the order in which the encoders are created
    by = {e["pin"]: e for e in x["enc"]}
    for k, b in enumerate(x["btn"]):
        b["roles"] = [[a["id"], m] for c in cfg["inputs"] if c["pin"] in by for a in by[c["pin"]]["acts"] for m in ("acc", "can") if a[m] == k]
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 5), 10, 400)
    if r.random() < 0.2:
        for _ in range(r.choice([20, 60])):
            p["events"].append({"t": r.randrange(300, p["dur"]), "k": "raw", "port": port, "hex": (K.cc(119, r.randrange(128)) * r.choice([1, 5, 12])).hex()})
    return G.done(p)

def show(q, v):
    t = q["text"]
    if t == "conv": return "v=%d" % v
    if t == "ENCODER_RIG_TRANSPOSE": return "Transpose: %s%d" % ("+" if v > 64 else "", v - 64)
    if t == "AMP_GAIN": return "Gain: %s" % round(v / 1638.3, 1)
    if t == "ENCODER_BPM": return "%d bpm" % round(v / 64)
    return "%s: %d%%" % (t, round(v * 100 / q["hi"]))

def check(ctx):
    res, plan = ctx.res, ctx.plan
    tr, x, cfg = res.trace, plan["x"], plan["cfg"]
    par = x["par"]
    port = cfg["routings"][0][0]
    sp = {-1 - k: SPECIAL[f][0] for k, f in enumerate(SPECIAL)}
    val = Values(par, [(j, sp[j]) for j in {a["par"] for e in x["enc"] for a in e["acts"]} if j < 0])
    enc = {e["pin"]: [dict(a, ref=None, pend=None, rlast=None) for a in e["acts"]] for e in x["enc"]}
    alla = {a["id"]: a for e in enc.values() for a in e}
    btn = {b["pin"]: dict(b, prev=False) for b in x["btn"]}
    kill = {("cc", k["n"]): k["lab"] for k in x["kill"]}
    cv = [None] * len(x["conds"])
    rv = {"cc": None, "rig": None}
    rig1 = None
    for b in x["btn"]:
        m = {q[1] for q in b["roles"]}
        ctx.count("two_roles", len(m) == 2); ctx.count("many_encoders", len(b["roles"]) > 1)
    scr = Screen(res)
    owner = {}                  # label -> action whose preselection is shown
    cur, started, dropped = None, False, set()
    def drop(a, why):
        if a["pend"] is None: return
        ctx.count(why)
        a["pend"] = None; a["again"] = True
        if owner.get(a["lab"]) is a: owner[a["lab"]] = None
    def others(lab, me, why="replaced"):
        for a in alla.values():
            if a is not me and lab is not None and a["lab"] == lab: drop(a, why)
    def close():
        """All actions of the input read have been processed"""
        nonlocal cur
        if not cur: return
        kind, pin, t, pos, got = cur
        cur = None
        got = list(got)
        def take(j, v, what):
            if got and got[0] == (j, v): got.pop(0); val.v[j] = v; return False
            ctx.bad("command", "%s: %s has to be sent, sent was %s" % (what, v, got), t)
            return True
        if kind == "e":
            for a in enc[pin]:
                if not enabled(x, cv, a):
                    a["ref"] = None
                    ctx.count("disabled_pending", a["pend"] is not None)
                    continue
                if a["rst"] and rv[a["rst"]] is not None and rv[a["rst"]] != a["rlast"]:
                    if a["rlast"] is not None: drop(a, "reset")
                    a["rlast"] = rv[a["rst"]]
                if a["ref"] is None: a["ref"] = pos; continue
                q = int(pos * a["sw"]) - int(a["ref"] * a["sw"])
                a["ref"] = pos
                if not q: continue
                j = a["par"]; v0 = val.v.get(j)
                ctx.count("special", j < 0)
                if a["acc"] is None:                                    # direct
                    v = min(a["hi"], max(a["lo"], (v0 or 0) + q))
                    if v == v0: continue
                    if v0 is None and v == 0 and not (got and got[0] == (j, 0)): return True
                    ctx.count("direct")
                    if take(j, v, "direct encoder %s" % pin): return True
                    others(a["lab"], a)
                    if a["lab"]: owner[a["lab"]] = None
                    continue
                ctx.count("judged")
                base = a["pend"] if a["pend"] is not None else v0
                if base is None or base == "?":
                    ctx.count("unknown")
                    a["pend"] = "?"
                else:
                    v = min(a["hi"], max(a["lo"], base + q))
                    ctx.count("limit", v in (a["lo"], a["hi"]))
                    if v == base: continue
                    ctx.count("restart", a["pend"] is None and a.pop("again", False)); ctx.count("pending")
                    a["pend"] = v
                    ctx.count("back_to_value", v == v0)
                others(a["lab"], a)
                if a["lab"]: owner[a["lab"]] = a
            if got:
                ctx.bad("sent", "encoder %s turned to %d: %s sent without being accepted" % (pin, pos, got), t)
                return True
        elif pin in btn:
            b = btn[pin]
            edge = pos and not b["prev"]
            b["prev"] = pos
            for aid, m in (b["roles"] if edge else []):
                a = alla[aid]
                ctx.count("judged")
                if m == "can":
                    ctx.count("cancel_nothing", a["pend"] is None)
                    drop(a, "cancelled"); continue
                ctx.count("accept_nothing", a["pend"] is None)
                if a["pend"] is None: continue
                ctx.count("accepted")
                if a["pend"] == "?":
                    if not got or got[0][0] != a["par"] or not a["lo"] <= got[0][1] <= a["hi"]:
                        ctx.bad("command", "button %s accepts encoder %s: one value has to be sent, sent was %s" % (pin, aid, got), t); return True
                    val.v[a["par"]] = got.pop(0)[1]
                elif take(a["par"], a["pend"], "button %s accepts encoder %s" % (pin, aid)): return True
                a["pend"] = None; a["again"] = True
                if owner.get(a["lab"]) is a: owner[a["lab"]] = None
            if got:
                ctx.bad("sent", "button %s %s: %s sent, but nothing more was pending" % (pin, "pressed" if edge else "not pressed", got), t)
                return True
    def look(t):
        for lab, a in owner.items():
            if a is not None and a["pend"] not in (None, "?"):
                ctx.count("text")
                if scr.text.get(lab) != show(a, a["pend"]):
                    ctx.bad("text", "encoder %s: %s is pending, %s shows %r instead of %r" % (a["id"], a["pend"], lab, scr.text.get(lab), show(a, a["pend"])), t)
                    return True
    for e in tr:
        k = e[1]
        scr.apply(e)
        if k in ("s", "a", "e", "m"):
            if close() or look(e[0]): break
            if val.stale(e[0]): ctx.count("late"); break
            if k in ("s", "e"): started = True
            if k in ("e", "s"): cur = [k, e[2], e[0], e[3], []]
            elif k == "m" and e[3] and e[2] == port and started:
                d = K.decode(e[3])
                if d[0] == "cc":
                    for n, c in enumerate(x["conds"]):
                        if c["n"] == d[1]: cv[n] = d[2]
                    if d[1] == 120: rv["cc"] = d[2]
                    if d[1] == 32: rig1 = d[2]
                if d[0] == "pc" and rig1 is not None: rv["rig"] = 128 * rig1 + d[1]; rig1 = None
                j, ok = val.take(e[0], e[3])
                if not ok: break
                if j is not None: ctx.count("reported")
        elif k == "tx":
            for m in K.split(e[3]):
                d = K.decode(m)
                if d[0] == "cc" and d[:2] in kill:
                    lab = kill[d[:2]]
                    others(lab, None, "replaced_pedal"); owner[lab] = None
                    continue
                c = val.tx(e[0], m)
                if c is None: continue
                if cur: cur[4].append(c)
                else: ctx.bad("stray", "%s sent although no encoder or button was read" % (c,), e[0])
