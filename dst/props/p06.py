"""P06: MIDI routing."""
from .. import gen as G, kemper as K
from ..gen import fn
from ..obs import Screen

ID = "P06"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("Random sets of routings between USB, DIN and the application; bursts and trickles of control changes, program changes, SysEx of any maker and length, messages of "
        "unregistered types and malformed pieces on both ports; the application's own messages by switch presses; fragmented reads, dropped, duplicated, delayed and truncated input, stalls.")
PROBES = ["forwarded", "delivered", "sent", "both", "unknown_dropped", "fragmented", "stall", "burst", "malformed"]
ASSUMPTIONS = ["each message of a port carries a marker of the port; the application's deliveries are observed at labels bound to parameters that are pushed"]

CCS = {"usb": (20, 21), "din": (30, 31)}     # bound to labels
FREE = {"usb": 40, "din": 41}                # not bound to anything
STRP = {"usb": 0x51, "din": 0x52}

def gen(r, i, tier):
    p = G.base(r, 0, peer=False)
    p["dur"] = 6000
    dur = 6000
    cfg = p["cfg"]
    rt = []
    allr = [("usb", "app"), ("din", "app"), ("usb", "din"), ("din", "usb"), ("app", "usb"), ("app", "din"), ("usb", "usb")]
    for x in allr:
        if r.random() < (0.1 if x == ("usb", "usb") else 0.62): rt.append(list(x))
    if not rt: rt = [["usb", "din"], ["usb", "app"]]
    r.shuffle(rt)
    cfg["routings"] = rt
    for x in ("usb", "din"):
        cfg[x + "_out"] = r.choice([0, 0, 5, 15])
        if r.random() < 0.15: cfg[x + "_in"] = r.choice([0, 3])
    if r.random() < 0.3: cfg["config"]["clearBuffers"] = False
    n = 0
    for x in ("usb", "din"):
        for c in CCS[x]:
            G.label(p, "L%d" % c, back=False, cb=fn("ParameterDisplayCallback", mapping=fn("ClientParameterMapping.get", name="m%d" % c, response=fn("ControlChange", c, 0))))
        G.label(p, "S" + x, back=False, cb=fn("ParameterDisplayCallback", mapping=fn("ClientParameterMapping.get", name="s" + x,
                response=fn("KemperNRPNMessage", 3, STRP[x], 1), type=1)))
    for k in range(r.randrange(1, 3)):
        m = [0xb0, 100 + k, 1]
        G.switch(p, [fn("CUSTOM_MESSAGE", message=m, message_release=[0xb0, 100 + k, 0])], pixels=[k])
        for t in range(r.randrange(0, 6)): G.press(p, G.PINS[k], r.randrange(100, 4200), r.randrange(60, 400))
    # keep presses of one pin apart
    for k in range(2):
        ev = sorted([e for e in p["events"] if e.get("pin") == G.PINS[k]], key=lambda e: e["t"])
        p["events"] = [e for e in p["events"] if e.get("pin") != G.PINS[k]]
        on = [e["t"] for e in ev if e["v"]]
        last = 0
        for t in on:
            if t - last < 150: continue
            d = r.randrange(60, 120); last = t + d
            G.press(p, G.PINS[k], t, d)
    cnt = {}
    def msg(x, dirty):
        k = r.random()
        if k < 0.35:
            c = r.choice(CCS[x]); cnt[c] = cnt.get(c, 0) + 1
            return K.cc(c, cnt[c] % 128, r.randrange(16) if r.random() < 0.3 else 0)
        if k < 0.5:
            cnt[x] = cnt.get(x, 0) + 1
            return K.string(STRP[x], 1, "%s %d %s" % (x, cnt[x], "x" * r.choice([0, 3, 20, 50])))
        if k < 0.6: return K.cc(FREE[x], r.randrange(128), r.randrange(16))
        if k < 0.7: return K.pc(r.randrange(64) + (64 if x == "din" else 0), r.randrange(16))
        if k < 0.85:
            mf = r.choice([[0x7d], [0, 0x20, 0x33], [0x41], [0, 1, 2]])
            body = [r.randrange(128) for _ in range(r.choice([1, 2, 5, 10, 30, 70]))]
            return bytes([0xf0] + mf + [1 if x == "usb" else 2] + body + [0xf7])
        if k < 0.95: return bytes(r.choice([[0x90, 60, 100], [0x80, 60, 0], [0xe0, 1, 2], [0xf8], [0xfe], [0xfa], [0xd0, 3], [0xf1, 4]]))
        if dirty: return r.choice([b"\xf7", bytes([0xb0, 20]), bytes([0xf0, 0, 0x20, 0x33]), bytes([5, 6, 7]), bytes([0xf0, 0x7d, 1, 0xb0, 20, 3]), bytes([0xc0])])
        return K.cc(FREE[x], r.randrange(128))
    p["dirty"] = r.random() < 0.3
    for x in ("usb", "din"):
        t = r.choice([0, 0, 300, 1500])
        for _ in range(r.randrange(1, 6)):
            gap = r.choice([0, 0, 1, 3, 20, 100])
            for _ in range(r.choice([1, 3, 10, 40, 100])):
                if t > 3600: break
                p["events"].append({"t": t, "k": "raw", "port": x, "hex": msg(x, p["dirty"]).hex()})
                t += gap
            t += r.choice([0, 100, 600])
    if r.random() < 0.3: p["events"].append({"t": r.randrange(0, 3000), "k": "frag", "v": r.choice([1, 2, 3, 7, 20])}); p["fragged"] = True
    if r.random() < 0.3:
        for _ in range(r.randrange(1, 4)):
            d = r.choice(["raw_usb", "raw_din"])
            G.fault(p, r, d, ["drop", "dup", "delay", "trunc", "corrupt", "split"], lo=50, hi=2000, t1=3500, arg=r.choice([1, 5, 40, 200]))
            p["dirty"] = True
    if r.random() < 0.3: G.stalls(p, r, r.randrange(1, 4), 50, 500, 0, 3600)
    if r.random() < 0.1: cfg["din_cap"] = r.choice([256, 512])
    return G.done(p)

def rechan(b, ch):
    return bytes([(b[0] & 0xf0) | ch]) + b[1:] if b[0] < 0xf0 else b

def known(b):
    return b[0] & 0xf0 in (0xb0, 0xc0) or b[0] == 0xf0

def chan_ok(b, ch):
    return ch is None or b[0] >= 0xf0 or (b[0] & 15) == ch

def check(ctx):
    plan, res = ctx.plan, ctx.res
    cfg, tr = plan["cfg"], res.trace
    rt = [tuple(x) for x in cfg["routings"]]
    ext = [(a, b) for a, b in rt if a != "app" and b != "app"]
    apin = {a for a, b in rt if b == "app"}
    apout = {b for a, b in rt if a == "app"}
    src = apin | {a for a, b in ext}
    och = {"usb": cfg["usb_out"], "din": cfg["din_out"]}
    # with an input channel the MIDI library drops a SysEx torn at the end of its buffer behind a message of another channel
    clean = not plan["dirty"] and not plan.get("fragged") and cfg.get("usb_in") is None and cfg.get("din_in") is None
    scr = Screen(res)
    for a in src:
        if a in apin and any(e[0] == a for e in ext): ctx.count("both")
    start = next((e[0] for e in tr if e[1] == "s"), None)
    if start is None: return ctx.bad("no-loop", "the main loop was not entered", tr[-1][0])
    clear = cfg["config"].get("clearBuffers", True)
    fed = {"usb": [], "din": []}; got = {"usb": [], "din": []}
    pend = {}                      # (source, target) -> expected bytes still to be sent
    apppend = {"usb": [], "din": []}
    texts = {}; expect = {}
    names = {}
    for x in ("usb", "din"):
        for c in CCS[x]: names[("cc", c)] = "L%d" % c
        names[("str", STRP[x], 1)] = "S" + x
    since = {}
    pins = {inp["pin"]: k for k, inp in enumerate(cfg["inputs"])}
    last = {}
    edge = 0
    end = tr[-1][0]
    for e in tr:
        k = e[1]
        if k == "in":
            for m in (K.split(e[3]) if clean else []):
                if known(m) and chan_ok(m, cfg.get(e[2] + "_in")): fed[e[2]].append((e[0], m))
        elif k == "ovf": ctx.count("overflow")
        elif k == "m" and e[3]:
            x, b = e[2], e[3]
            if b[0] == 0xfd:
                ctx.count("unknown_dropped" if b[1] != 0xfd else "malformed")
                continue
            if x not in src: ctx.bad("unrouted-read", "a message was taken from %s which is not the source of any route" % x, e[0])
            got[x].append((e[0], b))
            for a, t in ext:
                if a == x:
                    if pend.get((a, t)): ctx.bad("not-forwarded", "message %s of %s was not forwarded to %s" % (pend[(a, t)][0].hex(" "), a, t), e[0]); pend[(a, t)] = []
                    pend.setdefault((a, t), []).append(rechan(b, och[t]))
            if x in apin and (e[0] >= start or not clear):
                d = K.decode(b)
                n = names.get(d[:2]) if d[0] == "cc" else names.get(d[:3]) if d[0] == "str" else None
                if n: expect.setdefault(n, []).append((e[0], str(d[2]) if d[0] == "cc" else d[3]))
            # turns
            for a in {a for a, _ in ext}:
                if a == x or not clean: since[a] = 0
                elif len(fed[a]) > len(got[a]) and fed[a][len(got[a])][0] < e[0]:
                    since[a] = since.get(a, 0) + 1
                    if since[a] > 8: ctx.bad("starved", "%s is waiting while %d messages of %s were taken" % (a, since[a], x), e[0]); since[a] = -10**9
        elif k == "tx":
            t, b = e[2], e[3]
            hit = next((a for a in ("usb", "din") if pend.get((a, t)) and pend[(a, t)][0] == b), None)
            if hit: pend[(hit, t)].pop(0); ctx.count("forwarded"); ctx.count("judged")
            elif b in apppend[t]: apppend[t].remove(b); ctx.count("sent"); ctx.count("judged")
            else: ctx.bad("foreign", "%s was sent to %s without reason (twice, or not routed there)" % (b.hex(" "), t), e[0])
        elif k == "s":
            if last.get(e[2], False) != e[3]:
                last[e[2]] = e[3]
                edge = e[0]
                for t in apout:
                    if apppend[t]: ctx.bad("not-sent", "%s was not sent to %s" % (apppend[t][0].hex(" "), t), e[0]); apppend[t] = []
                    apppend[t].append(bytes([0xb0, 100 + pins[e[2]], 1 if e[3] else 0]))
        elif k == "txt":
            n = scr.lab.get(e[2])
            if n and e[3] != "" : texts.setdefault(n, []).append((e[0], e[3]))
    for (a, t), q in pend.items():
        if q and got[a][-1][0] < end - 50000: ctx.bad("not-forwarded", "message %s of %s was not forwarded to %s" % (q[0].hex(" "), a, t), end)
    for t, q in apppend.items():
        if q and edge < end - 50000: ctx.bad("not-sent", "%s was not sent to %s" % (q[0].hex(" "), t), end)
    for n in set(names.values()):
        ex, tx = expect.get(n, []), texts.get(n, [])
        # repeated values do not change the label
        ded = []
        for v in ex:
            if not ded or ded[-1][1] != v[1]: ded.append(v)
        tv = [v for _, v in tx]
        ev = [v[1] for v in ded]
        ctx.count("delivered", len(tv)); ctx.count("judged", len(ev))
        if tv != ev:
            j = next((j for j in range(min(len(tv), len(ev))) if tv[j] != ev[j]), min(len(tv), len(ev)))
            if j < len(ev) and (j < len(tv) or ded[j][0] < end - 400000):
                ctx.bad("not-delivered", "label %s: message with value %r received by the port did not reach the application (shown: %r)" % (n, ev[j], tv[j:j + 1]), ded[j][0])
            elif j >= len(ev):
                ctx.bad("delivered-extra", "label %s shows %r which was not received for the application" % (n, tv[j]), tx[j][0])
    if clean:
        for x in src:
            f, g = [m for _, m in fed[x]], [m for _, m in got[x]]
            ctx.count("judged", len(f))
            if len(f) > 50: ctx.count("burst")
            if f != g:
                j = next((j for j in range(min(len(f), len(g))) if f[j] != g[j]), min(len(f), len(g)))
                # a slow loop may still be working through its backlog when the run ends
                if j >= len(g) and any(got[y] and got[y][-1][0] > end - 400000 for y in src): ctx.count("backlog_at_end"); continue
                ctx.bad("take", "port %s: message %d (%s) was taken as %s" % (x, j, f[j].hex(" ") if j < len(f) else None, g[j].hex(" ") if j < len(g) else None), g[j][0] if j < len(g) else end)
    elif plan.get("fragged"): ctx.count("fragmented")
