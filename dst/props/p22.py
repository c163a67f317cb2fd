"""P22: messages queued before start."""
from .. import gen as G, kemper as K
from ..gen import fn
from ..obs import Screen

ID = "P22"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("Backlogs of 0 to 250 messages (control changes, SysEx values, program changes, unregistered types, leading garbage) waiting on USB and/or DIN at power-on or arriving "
        "before, during and right after the clearing phase; every routing to the application and through; clearing on and off; loop stalls, memory shortage, slow displays.")
PROBES = ["discarded", "delivered", "no_clear", "two_sources", "through", "arrived_while_clearing", "arrived_after", "low_memory", "big_backlog", "stall"]
ASSUMPTIONS = ["reads of a port return everything waiting up to the size of the receive buffer (a message torn across two reads is the MIDI library's business)"]
CCS = {"usb": (20, 21), "din": (30, 31)}
STRP = {"usb": 0x51, "din": 0x52}
SWC = {"usb": 25, "din": 35}

def gen(r, i, tier):
    p = G.base(r, 6000, peer=False)
    cfg = p["cfg"]
    a = r.choice(["usb", "din"]); b = "din" if a == "usb" else "usb"
    rt = [[a, "app"], ["app", a]]
    if r.random() < 0.35: rt.insert(r.randrange(3), [b, "app"])
    if r.random() < 0.3: rt.append([b, a])
    if r.random() < 0.3: rt.append([a, b])
    cfg["routings"] = rt
    cfg["usb_out"] = cfg["din_out"] = 0
    if r.random() < 0.25: cfg["config"]["clearBuffers"] = False
    elif r.random() < 0.3: cfg["config"]["clearBuffers"] = True
    if r.random() < 0.2: cfg["mem"] = r.choice([1000, 14000, 16000])
    for x in ("usb", "din"):
        for c in CCS[x]:
            G.label(p, "L%d" % c, back=False, cb=fn("ParameterDisplayCallback", mapping=fn("ClientParameterMapping.get", name="m%d" % c, response=fn("ControlChange", c, 0))))
        G.label(p, "S" + x, back=False, cb=fn("ParameterDisplayCallback", mapping=fn("ClientParameterMapping.get", name="s" + x, response=fn("KemperNRPNMessage", 3, STRP[x], 1), type=1)))
        G.switch(p, [fn("BINARY_SWITCH", mapping=fn("ClientParameterMapping.get", name="w" + x, response=fn("ControlChange", SWC[x], 0), set=fn("ControlChange", 90, 0)),
                        mode="$PushButtonAction.LATCH")], pixels=[0 if x == "usb" else 1])
    cnt = {}
    def msg(x):
        k = r.random()
        if k < 0.4:
            c = r.choice(CCS[x]); cnt[c] = cnt.get(c, 0) + 1
            return K.cc(c, cnt[c] % 128)
        if k < 0.65:
            cnt[x] = cnt.get(x, 0) + 1
            return K.string(STRP[x], 1, "%s %d %s" % (x, cnt[x], "x" * r.choice([0, 3, 20, 50])))
        if k < 0.8: return K.cc(SWC[x], r.randrange(2))
        if k < 0.9: return r.choice([K.pc(r.randrange(128)), K.cc(32, 3), K.SENSE, K.single(0x32, 3, 1)])
        return bytes(r.choice([[0xf8], [0xfe], [0x90, 60, 100]]))
    p["backlog"] = []
    for x in ("usb", "din"):
        if r.random() < 0.75:
            n = r.choice([1, 2, 7, 30, 100, 250])
            d = b"".join(msg(x) for _ in range(n))
            if r.random() < 0.2: d = bytes(r.randrange(128) for _ in range(r.randrange(1, 12))) + d
            if r.random() < 0.1: d = b"\xf7" + d
            p["backlog"].append({"port": x, "hex": d.hex()})
    # around the start: the loop is entered roughly 50 to 400 ms after boot (slow displays take longer)
    for _ in range(r.choice([0, 5, 20, 60, 200])):
        x = r.choice(["usb", "din"])
        p["events"].append({"t": r.choice([r.randrange(0, 300), r.randrange(0, 1500), r.randrange(0, 2200)]), "k": "raw", "port": x, "hex": msg(x).hex()})
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 4), 10, 300, 0, 1500)
    return G.done(p)

def check(ctx):
    plan, res = ctx.plan, ctx.res
    cfg, tr = plan["cfg"], res.trace
    rt = [tuple(x) for x in cfg["routings"]]
    apin = [a for a, b in rt if b == "app"]
    ext = [(a, b) for a, b in rt if "app" not in (a, b)]
    src = set(apin) | {a for a, b in ext}
    if len(apin) > 1: ctx.count("two_sources")
    if ext: ctx.count("through")
    if cfg.get("mem", 10**6) < 15360: ctx.count("low_memory")
    si = next((i for i, e in enumerate(tr) if e[1] == "s"), None)
    if si is None:
        if not ext: ctx.bad("no-loop", "the main loop was not entered", tr[-1][0])     # forwarding takes its time on the wire
        return
    start = tr[si][0]
    clear = cfg["config"].get("clearBuffers", True)
    scr = Screen(res)
    if any(len(q["hex"]) > 1000 for q in plan["backlog"]): ctx.count("big_backlog")
    # 1. nothing is read before unless clearing; clearing ends with the first empty round
    pre = [(i, e) for i, e in enumerate(tr[:si]) if e[1] == "m"]
    if not clear:
        ctx.count("no_clear")
        if pre: ctx.bad("cleared", "messages were read before the loop although clearing is disabled", pre[0][1][0])
    else:
        ctx.count("judged")
        # last empty round: the application's sources all gave nothing, one after the other
        seq = [(e[0], e[2], e[3]) for _, e in pre]
        need = sorted(apin)
        tail = seq[-len(src):]
        if sorted(x for _, x, m in tail) != sorted(src): ctx.bad("clear-end", "clearing did not end with a read of all ports: %r" % (tail[-3:],), start)
        elif any(m and x in apin for _, x, m in tail): ctx.bad("clear-end", "clearing ended although a message was received", start)
        else:
            k = 0
            for t, x, m in seq:
                k = 0 if m and x in apin else k + 1
                if k >= 2 * len(src): ctx.bad("clear-late", "clearing went on after all ports were found empty", t); break
            for x in apin:
                T = max(t for t, y, m in seq if y == x)
                fed = sum(len([m for m in K.split(e[3]) if m[0] & 0xf0 in (0xb0, 0xc0) or m[0] == 0xf0]) for e in tr[:si] if e[1] == "in" and e[2] == x and e[0] <= T)
                got = sum(1 for t, y, m in seq if y == x and m and m[0] != 0xfd)
                ctx.count("discarded", got); ctx.count("judged", fed)
                if fed > got: ctx.bad("not-cleared", "%d messages waiting on %s were not consumed before the start" % (fed - got, x), start)
                if any(e[1] == "in" and e[2] == x and seq[0][0] < e[0] <= T for e in tr[:si]): ctx.count("arrived_while_clearing")
                if any(e[1] == "in" and e[2] == x and T < e[0] < start + 20000 for e in tr): ctx.count("arrived_after")
    # 2. displays show exactly what was taken from the start on
    names = {}
    for x in ("usb", "din"):
        for c in CCS[x]: names[("cc", c)] = "L%d" % c
        names[("str", STRP[x], 1)] = "S" + x
    expect, texts = {}, {}
    state = {"usb": [(start, 0)], "din": [(start, 0)]}
    end = tr[-1][0]
    leds = {0: [], 1: []}
    early = {}
    for i, e in enumerate(tr):
        if e[1] == "m" and e[3] and i > si and e[2] in apin:
            d = K.decode(e[3])
            n = names.get(d[:2]) if d[0] == "cc" else names.get(d[:3]) if d[0] == "str" else None
            if n: expect.setdefault(n, []).append((e[0], str(d[2]) if d[0] == "cc" else d[3]))
            if d[0] == "cc" and d[1] == SWC[e[2]]: state[e[2]].append((e[0], d[2]))
        elif e[1] == "txt":
            n = scr.lab.get(e[2])
            if n and e[3] not in ("", "Low Memory!"): texts.setdefault(n, []).append((e[0], e[3]))
        elif e[1] == "led" and e[2] in leds and i > si: leds[e[2]].append((e[0], max(e[3])))
        elif e[1] == "tx" and i > si and not ext: ctx.bad("sent", "%s was sent by itself" % e[3].hex(" "), e[0])
        elif e[1] == "led" and e[2] in leds: early[e[2]] = e
    for e in early.values():
        if max(e[3]) > 10: ctx.bad("early-led", "LED %d was switched on before the start" % e[2], e[0])
    low = cfg.get("mem", 10**6) < 15360         # the labels show a warning instead
    for n in names.values() if not low else ():
        ex, tx = expect.get(n, []), texts.get(n, [])
        ded = []
        for v in ex:
            if not ded or ded[-1][1] != v[1]: ded.append(v)
        tv, ev = [v for _, v in tx], [v[1] for v in ded]
        ctx.count("delivered", len(tv)); ctx.count("judged", len(ev))
        if tv != ev:
            j = next((j for j in range(min(len(tv), len(ev))) if tv[j] != ev[j]), min(len(tv), len(ev)))
            if j < len(tv): ctx.bad("discarded-shown" if j >= len(ev) or tx[j][0] <= start else "not-delivered", "label %s shows %r; received after start: %r" % (n, tv[j], ev[j:j + 1]), tx[j][0])
            elif ded[j][0] < end - 400000: ctx.bad("not-delivered", "label %s: %r received after the start was lost" % (n, ev[j]), ded[j][0])
    for k, x in ((0, "usb"), (1, "din")):
        st = state[x][-1]
        if st[0] < end - 1000000 and leds[k]:
            on = leds[k][-1][1] > 10
            ctx.count("judged")
            if on != bool(st[1]): ctx.bad("led", "LED of the switch on %s is %s, last value received after the start: %r" % (x, "on" if on else "off", st[1]), leds[k][-1][0])
