"""P13: LED segments of a switch are shared without gaps, overlap or foreign writes."""
import copy
from .. import gen as G, kemper as K, vis
from ..gen import fn, tup
from ..obs import Screen

ID = "P13"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("One to eight switches with none to seven LEDs and up to six actions (normal and on hold, nested in lists, with and without LEDs) which are enabled by parameter values (and their opposite), pages, or always, in any order; fixed, rotating, state and multicolor actions; "
        "conditions, states and pages changing alone and in bursts within one update round, presses, stalls. At every update round the LEDs must show their owners, and every single write must be a color of somebody who (just) owned the LED.")
PROBES = ["one", "surplus", "each", "too_many", "nobody", "multi_full", "multi_middle", "state_on", "state_off", "rotated", "page", "write", "no_leds", "many_leds", "hold", "regained", "burst", "stall"]
COL = [(255, 0, 0), (0, 255, 0), (30, 60, 255), (255, 255, 255), (200, 100, 0), (0, 190, 80), (120, 0, 120), (90, 90, 200), (7, 255, 255), (250, 120, 130)]

def gen(r, i, tier):
    p = G.base(r, r.choice([4000, 6000, 10000]), peer=False)
    cfg = p["cfg"]
    dur = p["dur"]
    port = cfg["routings"][0][0]
    x = p["x"] = {"sw": [], "con": [], "par": [], "pages": None, "pg": None}
    cfg["labels"].append({"name": "BEAT", "cb": fn("Beat")})
    c = cfg["config"]
    x["def"] = [0.3, 0.02]
    for n, (k, v) in enumerate((("ledBrightnessOn", [0.2, 0.5, 1]), ("ledBrightnessOff", [0, 0.1]))):
        if r.random() < 0.15: c[k] = x["def"][n] = r.choice(v)
    for k in range(r.randrange(0, 4)):
        inv = k == 1 and r.random() < 0.5
        n = 112 if inv else 112 + k
        x["con"].append({"n": n, "inv": inv})
        if not inv: cfg["defs"].append({"name": "_cm%d" % k, "expr": fn("ClientParameterMapping.get", name="cond%d" % k, response=fn("ControlChange", n, 0))})
        cfg["defs"].append({"name": "_co%d" % k, "expr": fn("Cond", "$_cm%d" % (0 if inv else k), 64, inv)})
    for k in range(r.randrange(0, 4)):
        cfg["defs"].append({"name": "_b%d" % k, "expr": fn("ClientParameterMapping.get", name="b%d" % k, set=fn("ControlChange", 100 + k, 0), response=fn("ControlChange", 40 + k, 0))})
        x["par"].append({"echo": r.random() < 0.7})
    p["echo"] = [{"port": port, "j": k, "kind": "resp", "n": 100 + k, "off": None, "lat": r.choice([1, 60]), "fix": None} for k, d in enumerate(x["par"]) if d["echo"]]
    if r.random() < 0.3:
        x["pages"] = [{"id": n + 1, "color": list(r.choice(COL))} for n in range(r.randrange(2, 4))]
        cfg["defs"].append({"name": "_pg", "expr": fn("PagerAction", pages=[{"id": q["id"], "color": tup(*q["color"]), "text": "p"} for q in x["pages"]])})
    base = 0
    n_sw = r.randrange(1, 9)
    pgsw = r.randrange(n_sw) if x["pages"] else None
    for k in range(n_sw):
        npx = r.choice([3, 3, 3, 3, 1, 2, 0, 5, 7])
        px = list(range(base, base + npx)); base += npx
        if r.random() < 0.2: r.shuffle(px)
        parts = [[], []]
        for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6])):
            a = {"leds": r.random() < 0.85, "on": None}
            arg = {}
            q = r.random()
            if q < 0.6 and x["con"]: z = r.randrange(len(x["con"])); a["on"] = ["c", z]; arg["enable_callback"] = "$_co%d" % z
            elif q < 0.8 and x["pages"]: z = r.randrange(len(x["pages"])); a["on"] = ["p", z]; arg.update(id=x["pages"][z]["id"], enable_callback="$_pg.enable_callback")
            if not a["leds"] or r.random() < 0.5: arg["use_leds"] = a["leds"]
            q = r.random()
            if q < 0.4 or (q < 0.75 and not x["par"]):
                br = r.choice([0.15, 0.15, 0.02, 0.3, 1, 0])
                a.update(k="custom", b=br)
                if r.random() < 0.3: a["col"] = [list(z) for z in r.sample(COL, r.choice([2, 3, 3, 4]))]; cc = tup(*[tup(*z) for z in a["col"]])
                else: a["col"] = list(r.choice(COL)); cc = tup(*a["col"])
                if br != 0.15 or r.random() < 0.3: arg["led_brightness"] = br
                e = fn("CUSTOM_MESSAGE", message=[0xb5, 1, 1], color=cc, **arg)
            elif q < 0.75:
                z = r.randrange(len(x["par"])); m = r.choice(["LATCH", "MOMENTARY", "HOLD_MOMENTARY", "ENABLE"])
                a.update(k="bin", par=z, mode=m, col=list(r.choice(COL)), on_b=x["def"][0], off_b=x["def"][1])
                if r.random() < 0.3: a["on_b"] = arg["led_brightness_on"] = r.choice([0.5, 0.8])
                if r.random() < 0.3: a["off_b"] = arg["led_brightness_off"] = r.choice([0.01, 0.05])
                e = fn("BINARY_SWITCH", "$_b%d" % z, color=tup(*a["col"]), mode="$PushButtonAction." + m, value_on=64, **arg)
            elif q < 0.9:
                a.update(k="rot", cols=[list(z) for z in r.sample(COL, r.randrange(2, 4))], b=0.15)
                e = fn("ROTATING_MESSAGES", messages=[[0xb5, 2, 1]], led_colors=[tup(*z) for z in a["cols"]], **arg)
            else:
                a.update(k="custom", b=0.15, col=list(r.choice(COL)))
                e = fn("HID_KEYBOARD", 4, color=tup(*a["col"]), **arg)
            parts[0].append((e, a))
        hold = None
        if k == pgsw:
            q = ("$_pg", {"k": "pager", "leds": True, "on": None})
            if r.random() < 0.7: parts[0].insert(r.randrange(len(parts[0]) + 1), q)
            else: parts[1].append(q)
        if r.random() < 0.2:
            while parts[0] and r.random() < 0.6: parts[1].append(parts[0].pop())
        acts = [a for _, a in parts[0]] + [a for _, a in parts[1]]
        ex = [e for e, _ in parts[0]]
        if len(ex) > 2 and r.random() < 0.2: z = r.randrange(len(ex) - 1); ex[z:z + 2] = [[ex[z], ex[z + 1]]]
        G.switch(p, ex, pixels=px, hold=[e for e, _ in parts[1]] if parts[1] else None)
        x["sw"].append({"pin": cfg["inputs"][-1]["pin"], "px": px, "acts": acts, "n": len(parts[0]), "hold": bool(parts[1])})
        if r.random() < 0.5 or k == pgsw:
            t = r.randrange(500, 2500)
            while t < dur - 200:
                d = r.choice([r.randrange(5, 60), r.randrange(40, 400), r.randrange(650, 1500)])
                G.press(p, x["sw"][-1]["pin"], t + r.random(), d)
                t += d + r.choice([r.randrange(10, 80), r.randrange(100, 2000), r.randrange(1000, 4000)])
    # a switch that keeps the conditions informed
    G.switch(p, [fn("CUSTOM_MESSAGE", message=[0xb0, 3, 1], use_leds=False, enable_callback="$_co%d" % k) for k in range(len(x["con"]))], pixels=[])
    ccs = sorted({q["n"] for q in x["con"]}) + [40 + k for k in range(len(x["par"]))]
    t = 0
    while ccs and t < dur - 100:
        t += r.choice([r.randrange(2, 30), r.randrange(50, 500), r.randrange(300, 2000)])
        for _ in range(r.choice([1, 1, 2, 4])):
            p["events"].append({"t": t + r.random(), "k": "raw", "port": port, "hex": K.cc(r.choice(ccs), r.choice([0, 63, 64, 127])).hex()})
    if r.random() < 0.25: G.stalls(p, r, r.randrange(1, 4), 10, 500)
    return G.done(p)

def cols(a, n, x, page, st, rot):
    """Possible LED values of an action on n LEDs: list of [value per LED]"""
    if a["k"] == "pager": return [[vis.led(x["pages"][page]["color"], 0.15)] * n]
    if a["k"] == "rot" and st == "any": return [[vis.led(c, 0.15)] * n for c in a["cols"]]      # has been turned on while hidden: drawn with its update
    if a["k"] == "rot": return [[vis.led(a["cols"][rot % len(a["cols"])], 0.15)] * n]
    if a["k"] == "custom":
        c = a["col"]
        if not isinstance(c[0], list): return [[vis.led(c, a["b"])] * n]
        if len(c) == n: return [[vis.led(z, a["b"]) for z in c]]
        return [[vis.led(c[len(c) // 2], a["b"])] * n]
    return [[vis.led(a["col"], a["on_b"] if s else a["off_b"])] * n for s in st]

def check(ctx):
    plan, res = ctx.plan, ctx.res
    x = copy.deepcopy(plan["x"])
    scr = Screen(res)
    cv = {q["n"]: None for q in x["con"]}
    page = 0
    val = [None] * len(x["par"])
    sure = [True] * len(x["par"])          # nothing of the user is pending on the parameter
    held = [set() for _ in x["par"]]
    beats, t_beat = 0, 0
    own = {}
    for k, s in enumerate(x["sw"]):
        s.update(prev=False, rots=[0] * len(s["acts"]), down=[], t=0, fired=False, touched=0, sets=[], unsure=False, was=set())
        for z in s["px"]: own[z] = k
        ctx.count("no_leds", not s["px"]); ctx.count("many_leds", len(s["px"]) > 3); ctx.count("hold", s["hold"])
    pins = {s["pin"]: s for s in x["sw"]}
    def enabled(a):
        if a["on"] is None: return True
        if a["on"][0] == "p": return page == a["on"][1]
        q = x["con"][a["on"][1]]; v = cv[q["n"]]
        return v is not None and (v >= 64) != q["inv"]
    def owners(s):
        acts = [z for z, a in enumerate(s["acts"]) if a["leds"] and enabled(a)]
        return [(z, vis.segments(s["px"], len(acts), n)) for n, z in enumerate(acts)]
    def palette(s, both):
        """LED -> possible values"""
        out = {}
        for z, seg in owners(s):
            a = s["acts"][z]
            st = "any" if both else None
            if a["k"] == "bin": st = [False, True] if both or not sure[a["par"]] or held[a["par"]] else [val[a["par"]] is not None and val[a["par"]] >= 64]
            for c in cols(a, len(seg), x, page, st, s["rots"][z]):
                for l, v in zip(seg, c): out.setdefault(l, []).append((v, z))
        return out
    def note(s, touch=True):
        """Something about the switch changes"""
        if touch: s["touched"] = beats
        s["sets"].append([beats, palette(s, True)])
    for s in x["sw"]: note(s)
    def turn():
        for s in x["sw"]: note(s)
    chg = []
    def push(s, z):
        nonlocal page
        a = s["acts"][z]
        if not enabled(a): return False
        if a["k"] == "pager": page = (page + 1) % len(x["pages"]); ctx.count("page"); turn()
        if a["k"] == "bin": sure[a["par"]] = False; held[a["par"]].add((s["pin"], z)); touchpar(a["par"])
        return True
    def release(s, z):
        a = s["acts"][z]
        if a["k"] == "rot": s["rots"][z] += 1; ctx.count("rotated"); note(s)
        if a["k"] == "bin":
            held[a["par"]].discard((s["pin"], z))
            if a["mode"] != "LATCH": sure[a["par"]] = False
            touchpar(a["par"])
    def touchpar(j):
        for s in x["sw"]:
            if any(a["k"] == "bin" and a["par"] == j for a in s["acts"]): note(s)
    started = False
    for e in res.trace:
        k, t = e[1], e[0]
        if k == "s": started = True
        if k == "stall": ctx.count("stall")
        if k == "npx": scr.apply(e)
        elif k == "led":
            old = scr.led[e[2]]
            scr.apply(e)
            if beats < 2 or all(abs(a - b) <= 1 for a, b in zip(old, e[3])): continue     # (written again, rounded differently)
            n = own.get(e[2])
            if n is None: ctx.bad("foreign", "LED %d does not belong to any switch, but changes to %s" % (e[2], e[3]), t); return
            s = x["sw"][n]
            while len(s["sets"]) > 1 and beats - s["sets"][1][0] > 2: s["sets"].pop(0)
            if not any(vis.led_ok(e[3], v) for _, q in s["sets"] for v, _ in q.get(e[2], [])):
                ctx.bad("write", "LED %d changes to %s, but its owners now and lately can only show %s" % (e[2], e[3], sorted({v for _, q in s["sets"] for v, _ in q.get(e[2], [])})), t); return
            ctx.count("write"); ctx.count("judged")
        elif k == "txt" and scr.lab.get(e[2]) == "BEAT":
            beats += 1
            for s in x["sw"]:
                if beats - s["touched"] < 3: continue
                pal = palette(s, False)
                for z, seg in owners(s):
                    a = s["acts"][z]
                    opts = cols(a, len(seg), x, page, ([False, True] if not sure[a["par"]] or held[a["par"]] else [val[a["par"]] is not None and val[a["par"]] >= 64]) if a["k"] == "bin" else None, s["rots"][z])
                    got = [scr.led[l] for l in seg]
                    if not any(all(vis.led_ok(g, v) for g, v in zip(got, o)) for o in opts):
                        ctx.bad("show", "LEDs %s show %s, but belong to %s, which has to show %s" % (seg, got, {q: a[q] for q in ("k", "col", "cols", "on") if q in a}, opts), t); return
                    ctx.count("judged")
                    if seg and a["k"] == "bin" and len(opts) == 1: ctx.count("state_on" if val[a["par"]] is not None and val[a["par"]] >= 64 else "state_off")
                    if seg and isinstance(a.get("col", [0])[0], list): ctx.count("multi_full" if len(a["col"]) == len(seg) else "multi_middle")
                    if z not in s["was"] and s["was"]: ctx.count("regained")
                o = owners(s); s["was"] = {z for z, _ in o}
                n, m = len(o), len(s["px"])
                if m: ctx.count("nobody" if not n else "one" if n == 1 else "surplus" if n < m else "each" if n == m else "too_many")
        elif k == "m" and e[3] and started:
            d = K.decode(e[3])
            if d[0] != "cc": continue
            if d[1] in cv:
                cv[d[1]] = d[2]
                if chg and t - chg[-1] < 20000: ctx.count("burst")
                chg.append(t)
                for s in x["sw"]:
                    if any(a["on"] and a["on"][0] == "c" and x["con"][a["on"][1]]["n"] == d[1] for a in s["acts"]): note(s)
            elif 40 <= d[1] < 40 + len(val):
                j = d[1] - 40
                val[j] = d[2]
                if not held[j]: sure[j] = True
                touchpar(j)
        elif k == "s" and e[2] in pins:
            s = pins[e[2]]
            if e[3] and not s["prev"]:
                if s["hold"]: s["t"] = t; s["fired"] = False
                else:
                    s["down"] = []
                    for z in range(s["n"]):
                        if push(s, z): s["down"].append(z)
            elif s["hold"] and s["prev"]:
                d = (t - s["t"]) / 1000
                if not s["fired"] and abs(d - 600) < 2.5: return                 # too close to tell (P10)
                if not s["fired"] and d > 600:
                    s["fired"] = True
                    for z in range(s["n"], len(s["acts"])):
                        if push(s, z): release(s, z)
                elif not e[3] and not s["fired"]:
                    for z in range(s["n"]):
                        if push(s, z): release(s, z)
            elif not e[3] and s["prev"]:
                for z in s["down"]: release(s, z)
                s["down"] = []
            s["prev"] = e[3]
