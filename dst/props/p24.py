"""P24: custom, rotating, Boomerang and keyboard buttons."""
from .. import gen as G, kemper as K, build, vis
from ..gen import fn, tup
from ..obs import Screen

ID = "P24"
RUNS = {"quick": 2000, "thorough": 80000}
RULE = ("Up to eight switches with custom message, rotating (own numbers of messages, release messages, LED colours, display colours and texts, lists or tuples, one to three LEDs), Boomerang and keyboard actions, alone or several "
        "on a switch; presses from single samples to long, bursts, stalls, MIDI floods; USB host absent or failing for a time; both ports.")
PROBES = ["custom", "rotate", "rotate_wrap", "boomerang", "hid", "hid_fail", "release_msg", "display", "leds", "multi_led", "stall"]

COL = [(255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0), (255, 125, 0), (255, 255, 255), (180, 0, 120), (64, 242, 208), (10, 20, 30)]
RAW = lambda r, n: r.choice([[0xb0 | r.randrange(16), n % 128, r.randrange(128)], [0xc0, n % 128], [0x90, n % 128, r.randrange(128)], [0xf0, 0x7d, n % 128, r.randrange(128), 0xf7],
                             [0xb0, n % 128, 1, 0xb0, n % 128, 0], [0xe0, r.randrange(128), n % 128], [0xf0, 0, 0x20, 0x33, 2, 0x7f, 1, 0, n % 128, 1, 0, 5, 0xf7]])

def gen(r, i, tier):
    p = G.base(r, r.choice([4000, 8000]), peer=False)
    cfg = p["cfg"]
    if r.random() < 0.2: cfg["costs"]["read"] = r.choice([8000, 20000])
    if r.random() < 0.15: cfg["no_usb_hid"] = True
    x = p["x"] = []
    n = 0
    presses = []
    for k in range(r.randrange(1, 9)):
        acts, exprs = [], []
        for q in range(r.choice([1, 1, 1, 2, 3])):
            a = {"leds": r.random() < 0.8}
            kind = r.choice(["custom", "rot", "rot", "rot", "boom", "boom", "hid", "hid"])
            args = {}
            if not a["leds"]: args["use_leds"] = False
            disp = None
            if r.random() < 0.6:
                disp = "l%d_%d" % (k, q)
                G.label(p, disp); args["display"] = "$" + disp
            a["label"] = disp
            b = r.choice([None, 0.15, 1, 0.5, 0.02])
            if b is not None and kind != "boom": args["led_brightness"] = b
            b = b if b is not None else 0.15
            seq = lambda m, f: [f() for _ in range(m)]
            wrap = lambda v: tup(*v) if r.random() < 0.4 else list(v)
            if kind == "custom":
                m = RAW(r, n); n += 1
                rel = None
                if r.random() < 0.6: rel = RAW(r, n); n += 1
                c = r.choice(COL); t = "T%d" % n
                e = fn("CUSTOM_MESSAGE", message=m, text=t, color=tup(*c), **args, **({"message_release": rel} if rel else {}))
                a.update(k="custom", msg=[m], rel=[rel] if rel else None, lc=[[c]], lb=b, text=[t], dc=[c])
            elif kind == "rot":
                ms, rel = [], None
                if r.random() < 0.9:
                    for _ in range(r.randrange(1, 5)): ms.append(RAW(r, n)); n += 1
                if r.random() < 0.5 or not ms:
                    rel = []
                    for _ in range(r.randrange(1, 5)): rel.append(RAW(r, n)); n += 1
                nl = r.choice([1, 1, 2, 3])
                lc = None
                if r.random() < 0.85 or nl > 1:
                    m = r.randrange(1, 5)
                    lc = [seq(m, lambda: r.choice(COL)) for _ in range(nl)]
                    if nl > 1 and r.random() < 0.5: lc = [seq(r.randrange(1, 5), lambda: r.choice(COL)) for _ in range(nl)]
                dc = seq(r.randrange(1, 5), lambda: r.choice(COL)) if r.random() < 0.6 or nl > 1 else None
                tx = ["t%d.%d" % (n, z) for z in range(r.randrange(1, 6))] if r.random() < 0.8 else None
                e = fn("ROTATING_MESSAGES", **args, **({"messages": wrap(ms)} if ms else {}), **({"messages_release": wrap(rel)} if rel else {}),
                       **({"led_colors": [[tup(*c) for c in l] for l in lc] if nl > 1 else [tup(*c) for c in lc[0]]} if lc else {}),
                       **({"display_colors": [tup(*c) for c in dc]} if dc else {}), **({"texts": wrap(tx)} if tx else {}), **({"num_leds": nl} if nl > 1 else {}))
                a.update(k="rot", msg=ms or None, rel=rel, lc=lc, lb=b, text=tx, dc=dc or (lc[0] if lc else None), nl=nl)
            elif kind == "boom":
                nm = r.choice(sorted(build.BOOM))
                p1, p2, c, t = build.BOOM[nm]
                nl = r.choice([1, 1, 2, 3])
                b1, b2 = 0.3, 0.02
                if r.random() < 0.4: b1, b2 = 1, 0.5; args.update(led_brightness_1=1, led_brightness_2=0.5)
                if r.random() < 0.3: t = "B%d" % n; args["text"] = t
                e = fn("BOOMERANG_" + nm, **args, **({"num_leds": nl} if nl > 1 else {}))
                hi, lo = vis.dim(c, b1), vis.dim(c, b2)
                lc = [[hi, lo]] if nl == 1 else [[hi if z == nl - j - 1 else lo for j in range(nl)] for z in range(nl)]
                a.update(k="boom", msg=[[207, p1], [207, p2]], rel=None, lc=lc, lb=1, text=[t], dc=[c], nl=nl)
                n += 1
            else:
                codes = [r.randrange(4, 100) for _ in range(r.choice([1, 1, 2, 3]))]
                kc = codes[0] if len(codes) == 1 and r.random() < 0.7 else (codes if r.random() < 0.5 else tup(*codes))
                c = r.choice(COL); t = "K%d" % n; n += 1
                e = fn("HID_KEYBOARD", kc, text=t, color=tup(*c), **args)
                a.update(k="hid", msg=None, rel=None, keys=codes, lc=[[c]], lb=b, text=[t], dc=[c])
            acts.append(a); exprs.append(e)
        pix = None
        if r.random() < 0.2: pix = [[], [3 * k], [3 * k + 2, 3 * k, 3 * k + 1]][r.randrange(3)]
        pin = G.switch(p, exprs, pixels=pix)
        x.append({"pin": pin, "acts": acts, "pixels": pix if pix is not None else [3 * k, 3 * k + 1, 3 * k + 2]})
        t = r.randrange(200, 1500)
        while t < p["dur"] - 100:
            d = max(1, r.choice([r.randrange(1, 40), r.randrange(20, 200), r.randrange(100, 1200)]))
            G.press(p, pin, t + r.random(), d); presses.append(t)
            t += d + r.choice([r.randrange(3, 60), r.randrange(30, 300), r.randrange(300, 2500)])
    if r.random() < 0.4:
        a = r.choice(presses) - r.randrange(0, 300) if presses else 500
        p["events"] += [{"t": max(1, a), "k": "hid", "v": 1}] + ([{"t": max(2, a) + r.randrange(20, 2000), "k": "hid", "v": 0}] if r.random() < 0.8 else [])
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 4), 10, 400)
    if r.random() < 0.3:
        port = cfg["routings"][0][0]
        for _ in range(r.choice([20, 100])):
            p["events"].append({"t": r.randrange(300, p["dur"]), "k": "raw", "port": port, "hex": (K.cc(119, r.randrange(128)) * r.choice([1, 5, 12])).hex()})
    return G.done(p)

def at(lst, n): return lst[n % len(lst)]

def check(ctx):
    res, plan = ctx.res, ctx.plan
    tr, cfg = res.trace, plan["cfg"]
    pins = {s["pin"]: s for s in plan["x"]}
    st = {p: [False, 0, None] for p in pins}        # pressed, number of releases, time of the last release
    scr = Screen(res)
    late = vis.Late(res, plan)
    settle = 2 * G.interval(plan) * 1000 + 300000 + 12 * 40000
    cur = None

    def expect(s, n):
        """-> (leds {index: exact colour}, labels {name: (text, back)}) at rotation position n"""
        leds, labs = {}, {}
        using = []
        for a in s["acts"]:
            for j in range(a.get("nl", 1)):
                if a["leds"]: using.append((a, j))
        for i, (a, j) in enumerate(using):
            if not a["lc"]: continue
            c = at(a["lc"][j], n)
            for px in vis.segments(s["pixels"], len(using), i): leds[px] = vis.led(c, a["lb"])
        for a in s["acts"]:
            if a["label"]: labs[a["label"]] = (at(a["text"], n) if a["text"] else None, at(a["dc"], n) if a["dc"] else None)
        return leds, labs

    def look(s, t):
        q = st[s["pin"]]
        since = q[2] if q[2] is not None else res.t0
        if t - since < settle + late.slack(since, t): return
        leds, labs = expect(s, q[1])
        for px, want in leds.items():
            got = scr.led[px] if px < len(scr.led) else None
            ctx.count("judged"); ctx.count("leds")
            if any(a.get("nl", 1) > 1 for a in s["acts"]): ctx.count("multi_led")
            if not vis.led_ok(got, want): ctx.bad("led", "LED %d of switch %s is %s instead of %s (after %d presses)" % (px, s["pin"], got, want, q[1]), t)
        for nm, (text, back) in labs.items():
            ctx.count("judged"); ctx.count("display")
            if text is not None and scr.text.get(nm, "") != text: ctx.bad("text", "label %s shows %r instead of %r (after %d presses)" % (nm, scr.text.get(nm), text, q[1]), t)
            if back is not None and scr.back.get(nm) != tuple(back): ctx.bad("back", "label %s is %s instead of %s (after %d presses)" % (nm, scr.back.get(nm), back, q[1]), t)

    def close():
        nonlocal cur
        if not cur: return
        pin, t, v, got, keys = cur
        cur = None
        s, q = pins[pin], st[pin]
        want, wk = [], []
        edge = v != q[0]
        for a in s["acts"]:
            if edge and v:
                if a["k"] == "hid":
                    wk.append([("key", (c,)) for c in a["keys"]])
                elif a["msg"]: want.append(bytes(at(a["msg"], q[1])))
                ctx.count({"rot": "rotate", "boom": "boomerang"}.get(a["k"], a["k"]))
                if a["k"] == "rot" and a["msg"]: ctx.count("rotate_wrap", q[1] >= len(a["msg"]))
            elif edge and a["rel"]:
                want.append(bytes(at(a["rel"], q[1]))); ctx.count("release_msg")
        if edge: ctx.count("judged")
        if got != want:
            ctx.bad("messages", "switch %s %s the %d. time: sent %s instead of %s" % (pin, "pressed" if v else "released" if edge else "not changed", q[1] + 1, [x.hex() for x in got], [x.hex() for x in want]), t)
        if cfg.get("no_usb_hid"): wk = []
        flat = [z for w in wk for z in w]
        if any(z[0] == "keyerr" for z in keys):
            # the host refused: what is typed nevertheless is a part of the sequence, in order
            ctx.count("hid_fail")
            it = iter(flat)
            if not all(("key", z[1]) in it for z in keys): ctx.bad("keys", "switch %s %s: typed %s instead of %s" % (pin, "pressed" if v else "released", keys, flat), t)
        elif keys != flat: ctx.bad("keys", "switch %s %s: typed %s instead of %s" % (pin, "pressed" if v else "released", keys, flat), t)
        if edge and not v: q[1] += 1; q[2] = t
        q[0] = v

    on = False
    last = None
    for e in tr:
        k = e[1]
        if k == "s":
            close(); on = True
            if e[2] in pins:
                if e[3] != st[e[2]][0]: look(pins[e[2]], e[0])
                cur = [e[2], e[0], e[3], [], []]
        elif k in ("m", "e", "a"): close()
        elif k == "tx":
            if cur: cur[3].append(bytes(e[3]))
            elif on: ctx.bad("stray", "sent %s although no switch was processed" % e[3].hex(), e[0])
        elif k in ("key", "keyerr", "keydown", "keyup"):
            if cur: cur[4].append((k, tuple(e[2])))
            elif on: ctx.bad("stray_key", "typed %s although no switch was processed" % (e[2:],), e[0])
        else: scr.apply(e)
        last = e[0]
    if last is not None:         # the window that was open when the run ended is incomplete
        for s in plan["x"]:
            if not cur or cur[0] != s["pin"]: look(s, last)
