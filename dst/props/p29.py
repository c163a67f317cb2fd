"""P29: files transferred over the MIDI bridge of the browser application. The real JsMidiBridge / MidiBridgeHandler / MidiHandler /
MidiListener run in node (dst/web/bridge.js) with virtual time, timers, randomness and Web MIDI ports; both ends of each cable
are bridges, the cable is simulated and faulty."""
import os, json, subprocess, select
from dst import core

ID = "P29"
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("Random seeds choose controllers, cable latencies, slow callbacks, files (empty, text with any characters, long), transfers in both directions "
        "(sent, requested, missing and failing files) at once or in turn, chunk sizes, foreign MIDI traffic, and faults on single messages "
        "(lost, duplicated, delayed and thereby reordered, corrupted, truncated).")
PROBES = ["clean", "disturbed", "delivered", "empty", "astral", "missing", "failing", "damaged", "alongside", "same_path", "concurrent", "after", "refused_dup",
          "drop", "dup", "delay", "corrupt", "trunc"]
REAL = ["web/htdocs/lib/jsmidibridge, web/htdocs/js/midi (browser application, run by node)"]
STUBS = ["Web MIDI ports, browser timers and randomness, the device's end of the bridge (a second instance of the browser's bridge)"]
ASSUMPTIONS = ["the device's bridge (only shipped as .mpy) behaves like the browser's, from which it is ported",
               "node's JavaScript engine behaves like the browser's; corruption never touches the command byte, which the protocol leaves unprotected"]

WEB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "web", "bridge.js")

# ------------------------------------------------------------------------------------------------------------- running

_node = {}

def node():
    p = _node.get(os.getpid())
    if p is None or p.poll() is not None:
        p = subprocess.Popen(["node", WEB, core.REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        _node.clear(); _node[os.getpid()] = p
    return p

def execute(plan):
    p = node()
    r = core.Result()
    r.crash = r.hang = None
    r.end, r.world, r.names, r.t0, r.t_end = "stop", None, {}, 0, plan["dur"] * 1000
    r.trace, r.fired, r.ops = [(0, "boot")], {}, 0
    p.stdin.write((json.dumps(plan) + "\n").encode()); p.stdin.flush()
    if not select.select([p.stdout], [], [], core.WALL_LIMIT)[0]:
        p.kill(); p.wait()
        r.hang = "web"
        return r
    line = p.stdout.readline()
    if not line: raise core.HarnessError("node stopped")
    out = json.loads(line)
    if "harness" in out: raise core.HarnessError(out["harness"])
    for e in out["hist"]:
        if e[1] in ("tx", "rx"): e = [e[0], e[1], e[2], bytes(e[4]), e[3]]
        if e[1] == "flt": r.fired[e[2]] = r.fired.get(e[2], 0) + 1
        r.trace.append((e[0] * 1000,) + tuple(e[1:]))
    r.ops = out["steps"]
    return r

# ------------------------------------------------------------------------------------------------------------ generator

POOL = ["abcdefghij KLM=()[]{}#\"'\\_,.", "äöüßéñ€µ→中文한", "😀🎸𝄞🚀", "\ufeff", "\n\r\t", "\0\x7f\x80"]

def text(r, n, kinds):
    return "".join(r.choice(POOL[r.choice(kinds)]) for _ in range(n))

def content(r, chunk, tag, long=False):
    if long: return tag + text(r, chunk * r.randint(15, 40), [0, 0, 2])
    k = r.random()
    kinds = [0, 0, 0, 4] if k < .4 else [0, 1, 4] if k < .6 else [0, 0, 2] if k < .75 else [0, 1, 2, 3, 4, 5]
    n = r.choice([1, 2, chunk - 1, chunk, chunk + 1, 2 * chunk, 3 * chunk, r.randint(1, 4 * chunk), r.randint(1, 12 * chunk)])
    n = max(1, min(n, 40 * chunk, 1500))
    t = text(r, n, kinds)
    return t if n < 8 else t[:r.randint(0, n)] + tag + t[n:] if r.random() < .3 else tag + t[len(tag):] if n > len(tag) + 4 else t

def gen(r, i, tier):
    n = 2 if r.random() < .3 else 1
    names = r.choice([("P0", "P1"), ("PySwitch", "PySwitch 2"), ("MIDI 12", "MIDI 1"), ("a", "A")])
    cfg = {"ports": [{"name": names[k], "alive": True, "lat": r.choice([1, 2, 5, r.randint(1, 60)])} for k in range(n)],
           "store": {}, "slow": {}, "fail": {}, "throws": r.random() < .2}
    ends = [x + str(k) for k in range(n) for x in "ad"]
    for e in ends:
        cfg["store"][e] = {}
        if r.random() < .35:
            cfg["slow"][e] = {k: r.choice([0, 1, 20, r.randint(1, 300)]) for k in ("file", "start", "recv", "fin", "send", "tx") if r.random() < .5}
    long = r.random() < .12                     # transfers taking longer than the time after which idle ones are given up
    if long:
        for c in cfg["ports"]: c["lat"] = r.randint(80, 400)
    ev = [{"t": 0, "k": "init"}] + [{"t": 10 + k, "k": "connect", "port": k, "timeout": 3000} for k in range(n)]
    x = {"ops": []}
    def op(t):
        side = r.choice(ends)
        other = ("d" if side[0] == "a" else "a") + side[1]
        chunk = r.choice([65, 100, r.randint(1, 12), r.randint(1, 200)])
        j = len(x["ops"])
        path = r.choice(["/inputs.py", "/display.py", "/lib/f%d.py" % j, "/lib/f%d.py" % j, "/ordner/ä%d 😀.txt" % j, "p%d" % j + "x" * r.choice([1, 60, 200])])
        k = r.random()
        if long: chunk = r.randint(1, 12)
        c = content(r, chunk, "<%d>" % j, long and r.random() < .6)

        if k < .4:
            ev.append({"t": t, "k": "send", "side": side, "path": path, "content": c, "chunk": chunk, "o": j})
            x["ops"].append({"from": side, "to": other, "path": path, "content": c, "chunk": chunk, "j": j})
        elif k < .82:
            holder = side if r.random() < .3 else other
            if path in cfg["store"][holder] or any(o["path"] == path and o["from"] == holder for o in x["ops"]): path += ".%d" % j
            if r.random() < .1: c = ""
            cfg["store"][holder][path] = c
            if holder == side: ev.append({"t": t, "k": "file", "side": side, "path": path, "chunk": chunk, "o": j})
            else: ev.append({"t": t, "k": "request", "side": side, "path": path, "chunk": chunk, "o": j})
            x["ops"].append({"from": holder, "to": other if holder == side else side, "path": path, "content": c, "chunk": chunk, "j": j})
        else:
            path = "/none%d" % j
            why = None
            if r.random() < .5: why = cfg["fail"][path] = "E%d " % j + text(r, r.choice([3, 90, 97, 98, 250]), r.choice([[0], [0, 1], [0, 2]]))
            ev.append({"t": t, "k": "request", "side": side, "path": path, "chunk": chunk, "o": j})
            x["ops"].append({"from": other, "to": side, "path": path, "missing": True, "why": why, "chunk": chunk, "j": j})
    t = 5000
    for _ in range(r.choice([1, 1, 2, 3, 5]) + long):
        op(t)
        t += r.choice([0, 0, r.randint(1, 100), r.randint(100, 8000)]) if not long else r.randint(500, 7000)
    for _ in range(r.choice([0, 0, 2, 6])):
        b = r.choice([[0xf0, 0, 0x7c, 0x7e] + [r.randrange(128) for _ in range(r.randrange(20))] + [0xf7], [0xf0, 0, 0x20, 0x33, 2, 0x7f, 1, 0, 4, 1, 0, 1, 0xf7],
                      [0xb0, r.randrange(128), r.randrange(128)], [0xfe], [0xc0, r.randrange(128)], [0xf0, 0xf7]])
        ev.append({"t": 5000 + r.randrange(3000), "k": "raw", "port": r.randrange(n), "to": r.choice(["host", "dev"]), "b": b})
    faults = []
    k = r.random()
    if k < .15:                          # a stretch of repeated messages while the sender is slow
        q = r.randrange(n)
        cfg["slow"].setdefault(r.choice("ad") + str(q), {})["send"] = r.randint(30, 300)
        d, at = r.choice(["a%d>d%d", "d%d>a%d"]) % (q, q), r.randint(3, 8)
        if r.random() < .6: cfg["ports"][q]["lat"] = r.choice([1, 2, 5])
        for j in range(r.randint(1, 4)): faults.append({"dir": d, "n": at + j, "act": "dup", "arg": r.randint(0, 60)})
    elif k < .65:
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            p = r.randrange(n)
            act = r.choice(["drop", "dup", "delay", "corrupt", "trunc", "dup"])
            faults.append({"dir": r.choice(["a%d>d%d", "d%d>a%d"]) % (p, p), "n": 3 + int(r.expovariate(1 / 8.0)), "act": act,
                           "arg": {"dup": r.choice([0, 1, 5, r.randrange(300), 6000]), "delay": r.choice([1, 3, 40, r.randrange(1500), 7000])}.get(act, r.randrange(1000))})
    x["late"] = len(x["ops"])
    t += 400000
    for _ in range(r.choice([1, 2])): op(t)
    return {"seed": r.randrange(1 << 30), "dur": 1500000, "cap": 6000, "cfg": cfg, "events": ev, "faults": faults, "x": dict(x, dur=1500000)}

# --------------------------------------------------------------------------------------------------------------- oracle

def unpack(b):
    """7 bit groups to bytes, as laid down in the protocol description."""
    bits = "".join(format(v, "07b") for v in b)
    return bytes(int(bits[k:k + 8], 2) for k in range(0, len(bits) - 7, 8))

def parse(m):
    """-> (command, id, rest) of a bridge message: cmd, 3 bytes checksum, id 4 bytes, rest"""
    if m[:4] != b"\xf0\x00\x7c\x7d" or len(m) < 9: return None
    return m[4], ".".join(str(v) for v in m[8:12]), m[12:-1], m[8:-1]

def check(ctx):
    p, tr, x = ctx.plan, ctx.res.trace, ctx.plan["x"]
    present = {e.get("o") for e in p["events"]}
    ops = [o for o in x["ops"] if o["j"] in present]
    whole = p["dur"] == x["dur"]                 # cut short only when a trace is minimised
    sends = {}                   # (dir, n) -> parsed
    for e in tr:
        if e[1] == "tx": sends[(e[2], e[4])] = parse(e[3])
        if e[1] == "steps" or (e[1] == "end" and e[2] and whole): ctx.bad("storm", "the traffic does not come to an end", e[0]); return
    if sum(e[1] == "tx" for e in tr) > p["cap"]: ctx.bad("storm", "the traffic does not come to an end: %d messages" % p["cap"], tr[-1][0]); return
    for e in tr:
        if e[1] == "op" and p["events"][e[2]]["k"] in ("init", "connect") and e[3] != "ok": ctx.bad("connect", "no connection to a listening controller: %r" % (e[4:],), e[0]); return
        if e[1] == "op" and e[3] != "ok":
            o = next((o for o in ops if o["j"] == p["events"][e[2]].get("o")), None)
            if o and o["from"] == p["events"][e[2]].get("side") and not o.get("missing") or p["events"][e[2]]["k"] == "request":
                ctx.bad("op", "%r: %r" % (p["events"][e[2]], e[3:]), e[0])
    # which transmission (id) carries which path, and what was disturbed
    path_of, kind_of, sender = {}, {}, {}
    for (d, n), m in sorted(sends.items(), key=lambda i: i[0][1]):
        if m and m[0] == 2:
            key = (d, m[1])
            kind_of[key] = m[2][0] if m[2] else None
            path_of[key] = unpack(m[2][5:]).decode("utf-8", "replace")
            if key in sender: ctx.bad("id-twice", "transfer id %s is used twice" % m[1])
            sender[key] = d[:2]
    hit = set()                  # (from, path) of disturbed transfers; None: unknown
    err_hit = set()
    flt = [e for e in tr if e[1] == "flt"]
    for e in flt:
        m = sends.get((e[3], e[4]))
        ctx.count("flt_" + e[2])
        if not m: continue
        a, b = e[3].split(">")
        if m[0] == 1: hit.add((b, unpack(m[3][4:]).decode("utf-8", "replace")))
        elif m[0] in (2, 3):
            k = (e[3], m[1])
            if kind_of.get(k) == 0: hit.add((a, path_of[k]))
            else: err_hit.add(a)
        else:
            k = ("%s>%s" % (b, a), m[1])
            if kind_of.get(k) == 0: hit.add((b, path_of[k]))
            else: err_hit.add(b)
    arrived, damaged = {}, {}
    errors = {}
    seen = set()
    for e in tr:
        if e[1] == "rx":
            m = sends.get((e[2], e[4])); orig = parse(e[3])
            if m and m == orig and m[0] == 2: arrived[(e[2], m[1])] = arrived.get((e[2], m[1]), 0) + 1
            if (e[2], e[4]) in seen: ctx.count("refused_dup")
            seen.add((e[2], e[4]))
            if m and m != orig and e[3][:4] == b"\xf0\x00\x7c\x7d" and len(e[3]) > 5: damaged[e[2][3:]] = damaged.get(e[2][3:], 0) + 1; ctx.count("damaged")
    for (d, n), m in sends.items():
        if m and m[0] == 2 and kind_of[(d, m[1])] == 1: errors[d[:2]] = errors.get(d[:2], 0) + 1
    # messages: 7 bit, not more text per chunk than agreed
    limit = {}
    for o in ops:
        k = (o["from"], o["path"])
        limit[k] = max(limit.get(k, 0), o["chunk"])
    for e in tr:
        if e[1] != "tx" or e[3][:4] != b"\xf0\x00\x7c\x7d": continue
        if any(v > 127 for v in e[3][1:-1]) or e[3][-1] != 0xf7: ctx.bad("frame", "no valid system exclusive message: %s" % e[3].hex(" "), e[0])
        m = sends[(e[2], e[4])]
        if m and m[0] == 3:
            k = (e[2][:2], path_of.get((e[2], m[1])))
            n = len(unpack(m[2][4:]).decode("utf-8", "replace"))
            if k in limit and n > limit[k]: ctx.bad("chunk", "a piece of %r has %d characters, at most %d were agreed" % (k[1], n, limit[k]), e[0])
    # what arrived
    offered = {}                 # (receiver, path) -> contents
    for o in ops:
        if not o.get("missing"): offered.setdefault((o["to"], o["path"]), []).append(o)
    fins, ids, got_err, told, prog, sprog = {}, {}, {}, {}, {}, {}
    for e in tr:
        if e[1] == "fin":
            k = (e[2], e[3])
            ctx.count("delivered"); ctx.count("judged")
            if k not in offered: ctx.bad("unknown-file", "%s received a file %r nobody sent" % k, e[0]); continue
            if e[5] not in [o["content"] for o in offered[k]]:
                w = offered[k][0]["content"]
                ctx.bad("altered", "%s received %r with %d characters %r..., sent were %d: %r..." % (e[2], e[3], len(e[5]), e[5][:30], len(w), w[:30]), e[0])
            fins.setdefault(k, []).append(e[5])
            d = ("d" if e[2][0] == "a" else "a") + e[2][1] + ">" + e[2]
            ids[(d, e[4])] = ids.get((d, e[4]), 0) + 1
            if ids[(d, e[4])] > arrived.get((d, e[4]), 0): ctx.bad("twice", "%s received %r %d times, it was announced %d times" % (e[2], e[3], ids[(d, e[4])], arrived.get((d, e[4]), 0)), e[0])
            if not e[5]: ctx.count("empty")
            if any(ord(c) > 0xffff for c in e[5]): ctx.count("astral")
        elif e[1] == "err": got_err.setdefault(e[2], []).append((e[0], e[3]))
        elif e[1] == "told": told.setdefault((e[2], e[3]), []).append(e[0])
        elif e[1] == "prog": prog.setdefault((e[2], e[3]), []).append((e[4], e[5]))
        elif e[1] == "sprog" and e[6] == "file": sprog.setdefault((e[2], e[3]), []).append((e[4], e[5]))
    for (s, i), ts in told.items():
        d = s + ">" + ("d" if s[0] == "a" else "a") + s[1]
        ctx.count("told")
        if len(ts) > 1: ctx.bad("told-twice", "the end of transfer %s was told %d times" % (i, len(ts)), ts[1])
        if kind_of.get((d, i)) == 0 and not ids.get((d, i)): ctx.bad("told-early", "%s was told that %r has arrived, it was not delivered" % (s, path_of[(d, i)]), ts[0])
    # undisturbed transfers complete
    clean = not flt
    ctx.count("clean" if clean else "disturbed")
    for (to, path), os_ in offered.items():
        frm = os_[0]["from"]
        if not whole or (frm, path) in hit or any(o["from"] != frm for o in os_): continue
        ctx.count("judged")
        if not clean: ctx.count("alongside")
        if len(os_) > 1: ctx.count("same_path")
        if any(o["j"] >= x["late"] for o in os_) and not clean: ctx.count("after")
        want, have = sorted(o["content"] for o in os_), sorted(fins.get((to, path), []))
        if want != have: ctx.bad("not-delivered", "%r from %s: %d of %d transfers arrived at %s although nothing disturbed them" % (path, frm, len(have), len(want), to)); continue
        for k in [k for k in path_of if sender[k] == frm and path_of[k] == path and kind_of[k] == 0]:
            d, i = k
            if len(told.get((frm, i), [])) != 1: ctx.bad("not-told", "the sender %s of %r was not told the end of the transfer" % (frm, path))
            for what, pr in (("receiver", prog.get((to, i), [])), ("sender", sprog.get((frm, i), []))):
                if [a for a, _ in pr] != list(range(len(pr))) or not pr or any(b != len(pr) for _, b in pr):
                    ctx.bad("progress", "%s of %r: progress %r" % (what, path, pr[:6]))
    # missing files are answered
    want_err = {}
    for o in ops:
        if not o.get("missing"): continue
        if o["from"][0] == "a" and p["cfg"]["throws"]: continue          # set up to throw instead of answering
        want_err[o["to"]] = want_err.get(o["to"], 0) + 1
        ctx.count("failing" if o["why"] else "missing")
        if not whole or (o["from"], o["path"]) in hit or o["from"] in err_hit: continue
        ctx.count("judged")
        ms = [m for _, m in got_err.get(o["to"], [])]
        if not [m for m in ms if m == o["why"] or (not o["why"] and m)]: ctx.bad("no-error", "%s asked for %r and got no error%s: %r" % (o["to"], o["path"], " " + repr(o["why"]) if o["why"] else "", ms[:3]))
    if clean and whole:
        for s in {"a%d" % k for k in range(len(p["cfg"]["ports"]))} | {"d%d" % k for k in range(len(p["cfg"]["ports"]))}:
            es = got_err.get(s, [])
            if len(es) != want_err.get(s, 0): ctx.bad("errors", "%s got %d errors, %d were expected: %r" % (s, len(es), want_err.get(s, 0), es[:3]))
        for e in tr:
            if e[1] == "lost" and not p["cfg"]["throws"]: ctx.bad("unhandled", "unhandled: %s" % e[2], e[0])
    # damage is reported to the other side
    for s, n in damaged.items() if whole else ():
        if s[0] == "a" and p["cfg"]["throws"]: continue
        ctx.count("judged")
        if errors.get(s, 0) < n: ctx.bad("damage-silent", "%s received %d damaged messages and reported %d errors" % (s, n, errors.get(s, 0)))
    busy = {}
    for e in tr:
        if e[1] == "start" and e[3]: busy[e[4]] = 1; ctx.count("concurrent", int(len(busy) > 1))
        elif e[1] == "fin": busy.pop(e[4], None)
