"""P27: explore mode."""
from .. import gen as G

ID = "P27"
RUNS = {"quick": 1500, "thorough": 50000}
RULE = ("Explore mode on boards with 3 to 40 pins (and other names than GP...), of which random ones cannot be opened; presses of any pin in any order, of several pins at once, "
        "of pins which cannot be opened, held ones, pins pressed at power-on, bouncing contacts; slow displays, MIDI data arriving meanwhile.")
PROBES = ["press", "skipped", "bad_press", "together", "wrap_up", "wrap_down", "again", "pressed_at_start", "many_pins", "one_pin"]

def gen(r, i, tier):
    p = G.base(r, r.choice([3000, 6000]), peer=False)
    cfg, ev, dur = p["cfg"], p["events"], p["dur"]
    cfg["config"] = {"exploreMode": True}
    cfg["costs"]["gpio"] = r.choice([100, 300, 800])
    q = r.random()
    if q < 0.5: pins = ["GP%d" % k for k in range(29)]
    else:
        need = ["GP7", "GP12", "GP13", "GP14", "GP15"]
        pins = need + r.sample([n for n in ["GP%d" % k for k in range(40)] if n not in need], r.randrange(0, 20))
        if r.random() < 0.5: pins += ["LED", "A0", "VBUS_SENSE", "SPI"]
        cfg["board_pins"] = pins
    gp = [n for n in pins if n.startswith("GP")]
    m = r.random()
    if m < 0.2: bad = []
    elif m < 0.35: bad = r.sample(gp, len(gp) - r.choice([1, 2, 3]))
    else: bad = r.sample(gp, r.randrange(0, len(gp) // 2))
    cfg["bad_pins"] = bad
    good = sorted(n for n in gp if n not in bad)
    p["x"] = {"good": good, "bad": bad}
    if r.random() < 0.1: cfg["pressed0"] = r.sample(good, min(len(good), r.choice([1, 2])))
    few = r.sample(good, min(len(good), r.choice([1, 2, 4, 40])))
    t, busy = 300, {}
    while t < dur - 200:
        k = r.choice([1, 1, 1, 2, 3])
        for pin in r.sample(few, min(k, len(few))):
            if t < busy.get(pin, 0): continue
            d = r.choice([30, 80, 300, 1500])
            busy[pin] = t + d + 20
            G.press(p, pin, t, d)
        if bad and r.random() < 0.1: G.press(p, r.choice(bad), t, 60)
        if r.random() < 0.1: ev.append({"t": t, "k": "raw", "port": r.choice(["usb", "din"]), "hex": "b03201b03200"})
        t += r.choice([3, 40, 120, 400])
    return G.done(p)

def check(ctx):
    res, plan = ctx.res, ctx.plan
    x, w = plan["x"], res.world
    good = x["good"]
    n = len(good)
    ctx.count("skipped", len(x["bad"])); ctx.count("many_pins", n > 20); ctx.count("one_pin", n == 1)
    # which label belongs to which pin: by its text; which rectangle to which label: by position
    own = {}
    rect = {(r.x0, r.y): r.idx for r in w.rects}
    disp = None
    for l in w.labels:
        g = [g for g in w.groups if any(o is l for o in list.__iter__(g))]
        rc = None
        if g:
            rc = next((rect[(g[0].x + a, g[0].y + a)] for a in (0, 1, 2) if (g[0].x + a, g[0].y + a) in rect), None)
        txt = l.text
        if txt in own: ctx.bad("labels", "two labels for %s" % txt, res.t0); return
        if txt.startswith("GP"): own[txt] = rc
        else: disp = l.idx if disp is None else disp
    if sorted(own) != good: ctx.bad("labels", "labels for the pins %s, but %s can be used" % (sorted(set(own) - set(good)) or ("all but %s" % sorted(set(good) - set(own))), len(good)), res.t0); return
    fill, led, text = {}, [], ""
    down, seen, opened = {}, [], set()
    pos = None
    first = None
    fresh = None
    cur = None
    last = None
    def judge(t):
        nonlocal pos, cur
        pin, said = cur
        cur = None
        ctx.count("judged"); ctx.count("press")
        cols = {k: fill.get(v) for k, v in own.items()}
        # markers
        c = cols[pin]
        if c == fresh: ctx.bad("latest", "%s has been pressed, but is not marked" % pin, t); return True
        for k, v in cols.items():
            if k == pin: continue
            if v == c: ctx.bad("latest", "%s is marked as the latest as well as %s" % (k, pin), t); return True
            if k in seen:
                if v == fresh: ctx.bad("seen", "%s has been pressed before, but is not marked" % k, t); return True
            elif v != fresh: ctx.bad("unseen", "%s has not been pressed yet, but is marked" % k, t); return True
        if len({cols[k] for k in seen if k != pin}) > 1: ctx.bad("seen", "pins pressed before have different marks", t); return True
        ctx.count("again", pin in seen)
        if pin not in seen: seen.append(pin)
        # LEDs
        groups = [led[3 * k:3 * k + 3] for k in range(n)]
        lit = [k for k, g in enumerate(groups) if all(min(q) > 200 for q in g)]
        if len(lit) != 1: ctx.bad("lit", "%d groups of LEDs are lit" % len(lit), t); return True
        k = lit[0]
        if any(max(min(q) for q in g) > 100 for j, g in enumerate(groups) if j != k): ctx.bad("lit", "LEDs of several groups are lit", t); return True
        if pos is not None and (k - pos) % n not in (1 % n, (n - 1) % n): ctx.bad("step", "LED group %d is lit after group %d" % (k, pos), t); return True
        if pos is None and k not in (0, n - 1): ctx.bad("step", "LED group %d is lit first" % k, t); return True
        if pos is not None and n > 2: ctx.count("wrap_up", pos == n - 1 and k == 0); ctx.count("wrap_down", pos == 0 and k == n - 1)
        pos = k
        want = "(%d, %d, %d)" % (3 * k, 3 * k + 1, 3 * k + 2)
        if want not in text: ctx.bad("numbers", "%r is shown, but LEDs %s are lit" % (text, want), t); return True
        if len(said) != 1 or pin not in said[0].replace("board.", "").split() or want not in said[0]: ctx.bad("report", "reported %s for %s with LEDs %s" % (said, pin, want), t); return True
        return False
    sampled = set()
    for e in res.trace:
        k, t = e[1], e[0]
        if k == "npx": led = [(0, 0, 0)] * e[2]
        elif k == "led": led[e[2]] = e[3]
        elif k == "fill": fill[e[2]] = e[3]
        elif k == "txt":
            if e[2] == disp: text = e[3]
        elif k == "open": opened.add(e[2])
        elif k == "print":
            if cur is not None: cur[1].append(e[2])
        elif k == "ev":
            if e[2] == "btn" and e[4] and e[3] in x["bad"]: ctx.count("bad_press")
        elif k == "s":
            if cur is not None and judge(t): return
            if fresh is None:
                if not any(fill.get(v) is not None for v in own.values()): fresh = None
                cs = {fill.get(v) for v in own.values()}
                if len(cs) != 1: ctx.bad("start", "pins are marked before any press: %s" % cs, t); return
                fresh = cs.pop()
            pin, v = e[2], e[3]
            sampled.add(pin)
            if v and not down.get(pin):
                cur = (pin, [])
                ctx.count("together", last is not None and t - last < 3000); last = t
                ctx.count("pressed_at_start", pin in plan["cfg"].get("pressed0", ()) and pin not in seen)
            down[pin] = v
    if opened != set(good) or sampled != set(good): ctx.bad("pins", "listening to %s, but %s can be opened" % (sorted(opened & sampled), good), res.t0)
