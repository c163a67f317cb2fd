"""P30: connecting to controllers, loading and saving their configurations from the browser application (DeviceController,
MidiHandler, MidiBridgeHandler, JsMidiBridge run in node, see p29)."""
from dst import core
from . import p29

ID = "P30"
RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("Random seeds choose controllers (1-4 ports with similar names, some without a bridge, some switched off and on), latencies, slow callbacks, file contents "
        "and a user's sequence of scanning, loading, saving, switching between controllers and waiting, with other MIDI traffic on the ports.")
PROBES = ["load", "save", "scan_found", "scan_none", "switched", "came_back", "off", "missing", "power", "noise", "scan_connected", "no_bridge", "heard"]
REAL = ["web/htdocs/lib/jsmidibridge, web/htdocs/js/midi, web/htdocs/js/DeviceController.js (browser application, run by node)"]
STUBS = p29.STUBS + ["user interface of the application"]
ASSUMPTIONS = [p29.ASSUMPTIONS[0], "the user waits a second between two operations; the cables lose nothing (see P29 for disturbed ones)"]
execute = p29.execute

def gen(r, i, tier):
    names = ["Ctl", "Ctl 2", "Kemper", "ctl", "MIDI 1", "MIDI 12"]
    r.shuffle(names)
    n = r.choice([1, 2, 2, 3, 4])
    ports, store, slow = [], {}, {}
    for k in range(n):
        ports.append({"name": names[k], "alive": r.random() < .9, "lat": r.choice([1, 3, 10, r.randint(1, 60)]), "device": not (n > 1 and r.random() < .2)})
        store["d%d" % k] = {}
        for f in ("/inputs.py", "/display.py"):
            if r.random() < .9: store["d%d" % k][f] = p29.content(r, 100, "<%s %d>" % (f, k)) if r.random() < .95 else ""
        if r.random() < .3: slow["d%d" % k] = {a: r.choice([1, 20, r.randint(1, 150)]) for a in ("file", "start", "recv", "fin", "send", "tx") if r.random() < .4}
    for q in ports:
        if not q["device"]: q["alive"] = False
    listen = [q["name"] for q in ports if r.random() < .3]
    user = []
    for _ in range(r.randint(1, 8)):
        q = r.choice(ports)
        k = r.random()
        if k < .4: user.append({"k": "load", "port": q["name"]})
        elif k < .65:
            j = len(user)
            user.append({"k": "save", "port": q["name"], "inputs": p29.content(r, 65, "<i%d>" % j), "display": p29.content(r, 65, "<d%d>" % j)})
        elif k < .85: user.append({"k": "scan", "load": r.random() < .7})
        elif q["device"]: user.append({"k": "power", "port": q["name"], "on": r.random() < .6})
        user.append({"k": "wait", "ms": r.choice([1000, 1000, r.randint(1000, 4000), 8000])})
    ev = []
    for _ in range(r.choice([0, 0, 3, 10])):
        b = r.choice([[0xf0, 0, 0x20, 0x33, 2, 0x7f, 1, 0, 4, 1, 0, 1, 0xf7], [0xb0, r.randrange(128), r.randrange(128)], [0xfe], [0xc0, 3], [0xf0, 0, 0x7c, 0x7e, 1, 2, 0xf7]])
        ev.append({"t": 100 + r.randrange(r.choice([12000, 40000])), "k": "raw", "port": r.randrange(n), "to": "host", "b": b})
    return {"seed": r.randrange(1 << 30), "dur": 3000000, "cap": 9000, "cfg": {"ports": ports, "store": store, "slow": slow, "fail": {}, "listen": listen}, "events": ev, "faults": [], "user": user,
            "x": {}}

def check(ctx):
    p, tr = ctx.plan, ctx.res.trace
    ports, user = p["cfg"]["ports"], p["user"]
    by = {q["name"]: "d%d" % k for k, q in enumerate(ports)}
    model = {k: dict(v) for k, v in p["cfg"]["store"].items()}
    alive = {q["name"]: q["alive"] for q in ports}
    cur, seen = None, []                              # connected port, ports connected before
    out, began, fin = {}, {}, {}
    for e in tr:
        if e[1] == "u": began[e[2]] = e[0]
        elif e[1] in ("loaded", "saved", "found", "none", "scanned", "failed", "stuck"): out.setdefault(e[2], []).append(e)
        elif e[1] == "store": fin[e[2]] = e[3]
        elif e[1] == "steps": ctx.bad("storm", "the traffic does not come to an end", e[0]); return
        elif e[1] == "rx" and e[4] and not e[3][:4] == b"\xf0\x00\x7c\x7d": ctx.count("noise")
    if sum(e[1] == "tx" for e in tr) > p["cap"]: ctx.bad("storm", "the traffic does not come to an end", tr[-1][0]); return
    if any(not q["device"] for q in ports): ctx.count("no_bridge")
    def usable(name, t):
        """Connecting to a controller: -> error expected?"""
        nonlocal cur
        if cur == name: return True
        cur = None
        if not alive[name]: ctx.count("off"); return False
        if seen: ctx.count("switched", int(seen[-1] != name)); ctx.count("came_back", int(name in seen[:-1] and seen[-1] != name))
        cur = name; seen.append(name)
        return True
    for i, u in enumerate(user):
        if i not in began: break
        o = out.get(i, [])
        kinds = [e[1] for e in o]
        t = began[i]
        if u["k"] == "power":
            if u["port"] == cur and not u["on"]: return        # a connected controller disappears: nothing is promised about later transfers
            alive[u["port"]] = u["on"]; ctx.count("power")
        elif u["k"] == "wait": pass
        else:
            ctx.count("judged")
            if "stuck" in kinds: ctx.bad("stuck", "%s of %r does not come to an end" % (u["k"], u.get("port")), o[-1][0]); return
            name = u.get("port")
            if u["k"] == "scan":
                if cur is not None: ctx.count("scan_connected")
                cur = None
                live = [q["name"] for q in ports if alive[q["name"]]]
                f = [e for e in o if e[1] in ("found", "none")]
                if len(f) != 1: ctx.bad("scan-calls", "a scan reported %d results: %r" % (len(f), [e[1:] for e in f]), t); return
                if live and f[0][1] == "none": ctx.bad("scan-missed", "a scan found nothing, listening: %r" % live, f[0][0]); return
                if f[0][1] == "found" and f[0][3] not in live: ctx.bad("scan-wrong", "a scan found %r, listening: %r" % (f[0][3], live), f[0][0]); return
                ctx.count("scan_found" if live else "scan_none")
                if f[0][0] - t > 3000000: ctx.bad("scan-slow", "a scan took %d ms" % ((f[0][0] - t) // 1000), f[0][0])
                if f[0][1] == "none" or not u["load"]: continue
                name = f[0][3]
            if not usable(name, t):
                if "failed" not in kinds: ctx.bad("no-failure", "%s of %r worked although nobody listens there" % (u["k"], name), t)
                continue
            st = model[by[name]]
            if u["k"] == "save":
                ctx.count("save")
                if "saved" not in kinds: ctx.bad("save-failed", "saving to %r failed: %r" % (name, o[-1:]), t)
                st["/inputs.py"], st["/display.py"] = u["inputs"], u["display"]
            else:
                want = [st.get("/inputs.py"), st.get("/display.py")]
                got = [e for e in o if e[1] == "loaded"]
                if None in want:
                    ctx.count("missing")
                    if got or "failed" not in kinds: ctx.bad("no-failure", "loading missing files from %r: %r" % (name, got), t)
                elif not got: ctx.bad("load-failed", "loading from %r failed: %r" % (name, o[-1:]), t)
                elif list(got[0][3:]) != want:
                    ctx.count("load"); ctx.bad("load-wrong", "loaded from %r: %r, there is %r" % (name, [str(x)[:30] for x in got[0][3:]], [x[:30] for x in want]), got[0][0])
                else: ctx.count("load")
    for name in p["cfg"].get("listen", ()):
        d = by[name] + ">a" + by[name][1:]
        sent = [tuple(e[3]) for e in tr if e[1] == "rx" and e[2] == d and e[0] > 0]
        heard = [tuple(e[3]) for e in tr if e[1] == "heard" and e[2] == name]
        ctx.count("judged"); ctx.count("heard", len(heard))
        if sorted(sent) != sorted(heard): ctx.bad("listener", "a listener on %r got %d of %d messages" % (name, len(heard), len(sent)), tr[-1][0])
    for name, st in fin.items():
        ctx.count("judged")
        if st != model[by[name]]:
            d = [k for k in set(st) | set(model[by[name]]) if st.get(k) != model[by[name]].get(k)]
            ctx.bad("store", "files of %r: %r differ from what was saved there" % (name, d), tr[-1][0])
    if not any(e[1] == "finished" for e in tr): ctx.bad("stuck", "the user's operations do not come to an end", tr[-1][0])
