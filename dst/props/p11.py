"""P11: every pushed action is released exactly once, even if it has been disabled meanwhile."""
from .. import gen as G, kemper as K, cat
from ..gen import fn
from ..obs import tx_messages

ID = "P11"
RUNS = {"quick": 1800, "thorough": 60000}
RULE = ("One to six switches with up to four actions each (raw push/release messages, momentary, inverse and hold-momentary commands, rig select, parameter steps), enabled always, by a page of one of two pagers "
        "(rotating, direct, on hold) by a condition on a received value or by the parameter they set themselves; overlapping presses, so that pages, conditions, rigs and tuner mode change while switches are held; "
        "loop speeds 1 to 40 ms per sampling gap, stalls, MIDI floods.")
PROBES = ["release_disabled", "release_enabled", "skipped_push", "enabled_meanwhile", "momentary", "inverse", "held_toggle", "rig", "step", "page_change", "cond_change", "tuner_press", "released_in_tuner", "hold_pairs", "self_disabled", "stall"]
FREE = list(range(55, 75)) + list(range(82, 110))

def gen(r, i, tier):
    peer = r.random() < 0.6
    tuner = peer and r.random() < 0.3
    p = G.base(r, r.choice([5000, 8000, 12000]), peer=peer)
    cfg = p["cfg"]
    port = cfg["routings"][0][0]
    if r.random() < 0.25: cfg["costs"]["read"] = r.choice([8000, 20000, 40000])
    if tuner:
        cfg["bidir"] = {"lease": 30, "tuner": True}; cfg["tuner"] = {}; p["peer"]["sense_ms"] = 500
    free = list(FREE); r.shuffle(free)
    params = ["MAPPING_MAIN_VOLUME", "MAPPING_MONITOR_VOLUME", "MAPPING_LOOPER_VOLUME", "MAPPING_SPACE_INTENSITY"]
    x = p["x"] = {"sw": [], "pagers": [], "conds": []}
    t0 = 1500 if tuner else 300
    # pagers
    npg = r.choice([0, 1, 1, 1, 2])
    pgsw, onpg = [], []
    for k in range(npg):
        pages = ["p%d%s" % (k, c) for c in "abc"[:r.choice([2, 2, 3])]]
        cfg["defs"].append({"name": "_pager%d" % k, "expr": fn("PagerAction", pages=[{"id": q, "color": G.tup(255, 40 * n, 0)} for n, q in enumerate(pages)], **({"select_page": pages[0]} if r.random() < 0.3 else {}))})
        direct = "select_page" in cfg["defs"][-1]["expr"]["args"]
        x["pagers"].append({"pages": pages, "marks": []})
        items = [("$_pager%d" % k, 0 if direct else None)]
        for n in range(len(pages)):
            if r.random() < 0.4: items.append((fn("_pager%d.proxy" % k, pages[n]), n))
        for e, n in items: pgsw.append((k, e, n))
    for k, e, n in pgsw:
        m = free.pop()
        mk = fn("CUSTOM_MESSAGE", message=[0xb0, m, 1], use_leds=False)
        x["pagers"][k]["marks"].append([m, n])
        if r.random() < 0.2:
            pin = G.switch(p, [], hold=[mk, e], opts={"holdTimeMillis": r.choice([20, 200])})
        else:
            pin = G.switch(p, [mk, e]); onpg.append(pin)
        t = t0
        while t < p["dur"]:
            t += r.choice([r.randrange(20, 300), r.randrange(200, 2500)])
            d = r.choice([r.randrange(5, 60), r.randrange(40, 800)])
            G.press(p, pin, t, d); t += d
    # conditions
    for k in range(r.choice([0, 0, 1, 1, 2])):
        n = 112 + k
        x["conds"].append(n)
        cfg["defs"].append({"name": "_cm%d" % k, "expr": fn("ClientParameterMapping.get", name="cond%d" % k, response=fn("ControlChange", n, 0))})
        t = 0
        while t < p["dur"]:
            t += r.choice([r.randrange(5, 200), r.randrange(100, 2000)])
            p["events"].append({"t": t, "k": "raw", "port": port, "hex": K.cc(n, r.choice([0, 1, 64, 127])).hex()})
    # an action which disables itself by what it sends
    if tuner and r.random() < 0.4 and len(pgsw) < len(G.PINS) - 2:
        cfg["defs"].append({"name": "_s", "expr": fn("KemperMappings.EFFECT_STATE", "$KemperEffectSlot.EFFECT_SLOT_ID_A")})
        p["events"] += [{"t": 0, "k": "dset", "a": [0x32, 0], "v": 34}, {"t": 0, "k": "dset", "a": [0x32, 3], "v": 0}]
        a = fn("BINARY_SWITCH", "$_s", mode="$PushButtonAction.MOMENTARY", enable_callback=fn("Cond", "$_s", 1, True))
        hold = r.random() < 0.6
        pin = G.switch(p, [] if hold else [a], hold=[a] if hold else None, opts={"holdTimeMillis": 100} if hold else {})
        x["self"] = [pin, hold]
        t = t0 + r.randrange(700, 1500)
        while t < p["dur"] - 200:
            d = max(1, r.choice([r.randrange(1, 60), r.randrange(40, 600), r.randrange(300, 1500)]))
            G.press(p, pin, t + r.random(), d)
            t += d + r.choice([r.randrange(30, 300), r.randrange(200, 1500)])
    nsw = min(r.randrange(1, 7), len(G.PINS) - len(pgsw) - 1)
    presses = []
    rigfree = [0, 1, 2, 3, 4]
    for k in range(nsw):
        acts, exprs = [], []
        hold = r.random() < 0.15
        for part in (["actions", "hold"] if hold else ["actions"]):
            lst, ex = [], []
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                kind = r.choice(["msg", "msg", "mom", "inv", "hm", "rig", "step"] if not hold else ["msg", "mom"])
                if kind == "rig" and not rigfree: kind = "msg"
                if kind == "step" and (not peer or not params): kind = "mom"
                if not free: continue
                en, a = None, {}
                q = r.random()
                if npg and q < 0.55:
                    g = r.randrange(npg); n = r.randrange(len(x["pagers"][g]["pages"]))
                    en = ["page", g, n]
                    a = {"id": x["pagers"][g]["pages"][n], "enable_callback": "$_pager%d.enable_callback" % g}
                elif x["conds"] and q < 0.85:
                    g = r.randrange(len(x["conds"])); ref = r.choice([1, 64, 65, 127])
                    en = ["cond", g, ref]
                    a = {"enable_callback": fn("Cond", "$_cm%d" % g, ref)}
                if r.random() < 0.3: a["use_leds"] = False
                cc = free.pop()
                if kind == "msg": e = fn("CUSTOM_MESSAGE", message=[0xb0, cc, 1], message_release=[0xb0, cc, 2], **a)
                elif kind in ("mom", "inv", "hm"):
                    m = fn("ClientParameterMapping.get", name="m%d" % cc, set=fn("ControlChange", cc, 0))
                    e = fn("BINARY_SWITCH", m, mode="$PushButtonAction." + {"mom": "MOMENTARY", "inv": "MOMENTARY_INVERSE", "hm": "HOLD_MOMENTARY"}[kind], use_internal_state=r.random() < 0.6, **a)
                elif kind == "rig":
                    rig = rigfree.pop(); off = None
                    ra = {}
                    if r.random() < 0.3: ra["bank"] = r.randrange(1, 6)
                    e = fn("RIG_SELECT", rig + 1, **ra, **a); cc = 50 + rig
                else:
                    nm = params.pop()
                    e = fn("PARAMETER_UP_DOWN", "$%s()" % nm, r.choice([100, -100, 1]), repeat_interval_millis=r.choice([None, 50, 200, 200, 400]), **a)
                    cc = list(cat.MAPS[nm]["addr"])
                lst.append({"k": kind, "cc": cc, "en": en}); ex.append(e)
            acts.append(lst); exprs.append(ex)
        H = r.choice([100, 300, 600])
        if hold: pin = G.switch(p, exprs[0], hold=exprs[1], opts={"holdTimeMillis": H})
        elif onpg and r.random() < 0.2:
            # the actions share a switch with a pager (which comes last)
            pin = onpg.pop()
            inp = [q for q in cfg["inputs"] if q["pin"] == pin][0]
            inp["actions"][1:1] = exprs[0]
            x["sw"].append({"pin": pin, "acts": acts[0], "hold": None})
            continue
        else: pin = G.switch(p, exprs[0])
        x["sw"].append({"pin": pin, "acts": acts[0], "hold": acts[1] if hold else None})
        t = t0 + r.randrange(0, 700)
        while t < p["dur"] - 200:
            d = max(1, r.choice([r.randrange(1, 60), r.randrange(40, 600), r.randrange(300, 2500), 600 + r.randrange(-40, 40), H + r.randrange(-30, 60)]))
            G.press(p, pin, t + r.random(), d); presses.append((t, d))
            t += d + r.choice([r.randrange(3, 60), r.randrange(30, 300), r.randrange(200, 1500)])
    if peer:
        for _ in range(r.choice([0, 1, 3])):
            p["events"].append({"t": r.randrange(500, p["dur"]), "k": "drig", "rig": r.randrange(625)})
    if tuner:
        t = 2500
        while t < p["dur"]:
            a = max(1500, r.choice(presses)[0] + r.randrange(0, 700)) if presses and r.random() < 0.6 else t
            b = a + r.choice([r.randrange(30, 400), r.randrange(200, 2500)])
            p["events"] += [{"t": a, "k": "dtuner", "v": 1}, {"t": b, "k": "dtuner", "v": 0}]
            t = b + r.randrange(300, 4000)
    if r.random() < 0.4: G.stalls(p, r, r.randrange(1, 5), 10, 400)
    if r.random() < 0.3:
        for _ in range(r.choice([20, 100])):
            p["events"].append({"t": r.randrange(300, p["dur"]), "k": "raw", "port": port, "hex": (K.cc(119, r.randrange(128)) * r.choice([1, 5, 12])).hex()})
    return G.done(p)

def check(ctx):
    res, plan = ctx.res, ctx.plan
    tr, x = res.trace, plan["x"]
    pins = {s["pin"]: s for s in x["sw"]}
    state = {p: {"prev": False, "press": None} for p in pins}
    page = [0] * len(x["pagers"])
    marks = {m: (g, n) for g, pg in enumerate(x["pagers"]) for m, n in pg["marks"]}
    cond = [None] * len(x["conds"])
    own, rigs, addrs = {}, {}, {}
    for s in x["sw"]:
        for a in s["acts"] + (s["hold"] or []):
            if a["k"] == "step": addrs[tuple(a["cc"])] = s
            else: own[a["cc"]] = s
    def enabled(a):
        if not a["en"]: return True
        if a["en"][0] == "page": return page[a["en"][1]] == a["en"][2]
        v = cond[a["en"][1]]
        return v is not None and v >= a["en"][2]
    have_tuner = "tuner" in plan["cfg"]
    tun = False
    # windows: what is sent while one switch is processed
    cur = None          # [pin, t, pressed, enabled snapshot, tuner, messages]
    up = {}
    evs = {}
    for e in tr:
        if e[1] == "ev" and e[2] == "btn": evs.setdefault(e[3], []).append((e[0], e[4]))
    slf = x.get("self")
    sl = None           # window of the switch with the self-disabling action: [t, pressed, values sent]
    sp = None           # pushed and not released yet
    sprev = False
    def judgeself():
        nonlocal sl, sp, sprev
        if sl is None: return
        (t, v, got), sl = sl, None
        was, sprev = sprev, v
        if slf[1]: want = [[], [1, 0]] if v or was else [[]]
        elif v and not was: want = [[], [1]]
        elif was and not v: want = [[0]] if sp == 1 else [[], [0]] if sp else [[]]
        else: want = [[]]
        if got not in want:
            ctx.bad("self", "switch %s %s: its action, which disables itself, sent %s instead of %s" % (slf[0], "pressed" if v and not was else "held" if v else "released" if was else "open", got, want), t)
        ctx.count("judged"); ctx.count("self_disabled", bool(got))
        sp = 1 if got == [1] else None if not v else sp
    def close():
        nonlocal cur
        judgeself()
        if cur: judge(*cur)
        cur = None
    def judge(pin, t, v, en, tn, got):
        s, st = pins[pin], state[pin]
        acts = s["acts"]
        if s["hold"] is not None:
            if tn or st["press"] == "tuner":
                if v and not st["prev"]: st["press"] = "tuner" if tn else None
                st["prev"] = v
                return
            if got:
                pairs = []
                for part, lst in (("a", acts), ("h", s["hold"])):
                    w = []
                    for a, on in zip(lst, en[0] if part == "a" else en[1]):
                        if on: w += [(a["cc"], 1), (a["cc"], 2 if a["k"] == "msg" else 0)]
                    pairs.append(w)
                if got not in pairs:
                    ctx.bad("hold_pairs", "switch %s sent %s, expected pushes and releases of its enabled actions %s or %s" % (pin, got, pairs[0], pairs[1]), t)
                ctx.count("judged"); ctx.count("hold_pairs")
            st["prev"] = v
            return
        if v and not st["prev"]:
            ctx.count("judged")
            if tn:
                if got: ctx.bad("in_tuner", "switch %s pressed in tuner mode sent %s" % (pin, got), t)
                st["press"] = {"t": t, "acts": [], "tuner": True}; ctx.count("tuner_press")
            else:
                pushed, g = [], list(got)
                for a, on in zip(acts, en[0]):
                    if not on: ctx.count("skipped_push"); continue
                    rec = dict(a); pushed.append(rec)
                    if a["k"] == "step": continue
                    nxt = g[0] if g else None
                    if a["k"] in ("msg", "mom", "rig"): ok = [(a["cc"], 1)]
                    elif a["k"] == "inv": ok = [(a["cc"], 0)]
                    else: ok = [(a["cc"], 0), (a["cc"], 1)]
                    if nxt in ok:
                        rec["v"] = nxt[1]; g.pop(0)
                    elif a["k"] != "inv":
                        ctx.bad("push", "switch %s pressed: sent %s, but the push of enabled action %s is missing or out of order" % (pin, got, a), t)
                        g = None; break
                if g:
                    ctx.bad("push_extra", "switch %s pressed: sent %s of actions that are disabled or more than once (enabled: %s)" % (pin, g, [a["cc"] for a, on in zip(acts, en[0]) if on]), t)
                st["press"] = {"t": t, "acts": pushed, "tuner": False, "en": en[0], "ok": g is not None}
        elif not v and st["prev"]:
            ctx.count("judged")
            pr = st["press"]
            st["press"] = None
            g = list(got)
            for a in pr["acts"]:
                j = acts.index({k: a[k] for k in ("k", "cc", "en")})
                ctx.count("release_enabled" if en[0][j] else "release_disabled")
                if tn: ctx.count("released_in_tuner")
                if a["k"] == "step": ctx.count("step"); continue
                nxt = g[0] if g else None
                opt = False
                if a["k"] == "msg": ok = (a["cc"], 2)
                elif a["k"] in ("mom", "rig"): ok = (a["cc"], 0); ctx.count("momentary" if a["k"] == "mom" else "rig")
                elif a["k"] == "inv": ok = (a["cc"], 1); ctx.count("inverse")
                else:
                    if "v" not in a: continue
                    ok = (a["cc"], 1 - a["v"])
                    dt = t - pr["t"]
                    if dt < 600000 - 25000: continue      # the actions before take time, too
                    ctx.count("held_toggle")
                    # time is measured within the processing of the switch, which starts after the sample and the actions before
                    opt = dt < 600000 + 30000
                if nxt == ok: g.pop(0)
                elif not opt:
                    ctx.bad("release", "switch %s released: sent %s, but the release of %s, which its press has pushed, is missing or out of order (enabled at release: %s)" % (pin, got, a, en[0][j]), t)
                    g = None; break
            if g:
                ctx.bad("release_extra", "switch %s released: sent %s, although the press has pushed %s only" % (pin, g, [a["cc"] for a in pr["acts"]]), t)
            if pr.get("en"):
                for a, b in zip(pr["en"], en[0]): ctx.count("enabled_meanwhile", b and not a)
        elif got:
            ctx.bad("unpressed", "switch %s did not change (%s) but sent %s" % (pin, "held" if v else "open", got), t)
        st["prev"] = v
    started = False
    for e in tr:
        k = e[1]
        if k == "s":
            close(); started = True
            pin = e[2]
            if slf and pin == slf[0]: sl = [e[0], bool(e[3]), []]
            if pin in pins:
                s = pins[pin]
                cur = [pin, e[0], e[3], ([enabled(a) for a in s["acts"]], [enabled(a) for a in s["hold"] or []]), tun, []]
        elif k in ("m", "e", "a"):
            close()
            if k == "m" and e[3] and started:
                d = K.decode(e[3])
                if d[0] == "cc" and d[1] in x["conds"]: cond[x["conds"].index(d[1])] = d[2]; ctx.count("cond_change")
                if d[0] == "val" and d[1:3] == (0x32, 3) and sp: sp = 2         # changed by someone else
                if have_tuner and d[0] == "val" and d[1:3] == K.TUNER_MODE: tun = d[3] == 1
        elif k == "tx":
            for m in K.split(e[3]):
                d = K.decode(m)
                if d[0] == "cc":
                    if slf and d[1] == 17:
                        if sl is None: ctx.bad("stray", "message %s sent without its switch being processed" % (d,), e[0])
                        else: sl[2].append(d[2])
                    if d[1] in marks and d[2] == 1:
                        g, n = marks[d[1]]
                        page[g] = n if n is not None else (page[g] + 1) % len(x["pagers"][g]["pages"])
                        ctx.count("page_change")
                    elif d[1] == 31 and d[2] == 0 and have_tuner: tun = False
                    elif d[1] in own:
                        if cur and own[d[1]]["pin"] == cur[0]: cur[5].append((d[1], d[2]))
                        else: ctx.bad("stray", "message %s of switch %s sent without its switch being processed" % (d, own[d[1]]["pin"]), e[0])
                elif d[0] == "val" and d[1:3] in addrs and plan.get("peer"):
                    st = state[addrs[d[1:3]]["pin"]]
                    down = st["press"] or cur and cur[0] == addrs[d[1:3]]["pin"] and cur[2]
                    if not down: ctx.bad("step", "parameter %s is stepped although its switch is not pressed" % (d[1:3],), e[0])
                    elif st["press"] and not any(a["k"] == "step" and tuple(a["cc"]) == d[1:3] for a in st["press"]["acts"]):
                        ctx.bad("step_disabled", "parameter %s is stepped although the press did not push its action" % (d[1:3],), e[0])
