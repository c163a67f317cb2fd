"""Buttons which load rigs and banks (P05, P14, P15, P25): random sets of them, what they have to send, and what they have to show.
Written from the documentation of the actions; the model knows the messages taken and the presses, nothing else."""
from . import gen as G, kemper as K, vis
from .gen import fn, tup
from .obs import Screen

BANK = [(0, 0, 255), (255, 255, 0), (255, 0, 0), (100, 255, 100), (180, 0, 120)]
WHITE = (255, 255, 255)
N, B = K.PER_BANK, K.BANKS
CUR, TGT = 10, 20       # RIG_SELECT_DISPLAY_CURRENT_RIG, RIG_SELECT_DISPLAY_TARGET_RIG
COLS = [(200, 100, 0), (0, 190, 80), (90, 90, 200)]

def rignum(r, near=None):
    q = r.random()
    if near is not None and q < 0.5: return (near + r.choice([-1, 1, 2, 5, -5, 0])) % (N * B)
    if q < 0.7: return r.choice([0, 1, 4, 5, 9, 127, 128, 129, 255, 256, 619, 620, 623, 624])
    return r.randrange(N * B)

def make(r, p, kinds, n=None, enc=False, labels=2):
    """Adds switches (kinds: weights of rigsel, banksel, bankpre, banktog, bankstep, steppre, rigstep) and labels"""
    cfg = p["cfg"]
    c = cfg["config"]
    x = p["x"]
    x["def"] = {"on": 0.3, "off": 0.02, "doff": 0.2, "don": 1}
    for k, nm, vs in (("on", "ledBrightnessOn", [0.2, 0.6]), ("off", "ledBrightnessOff", [0.05, 0.1]), ("doff", "displayDimFactorOff", [0.1, 0.4]), ("don", "displayDimFactorOn", [0.5, 0.8])):
        if r.random() < 0.12: c[nm] = x["def"][k] = r.choice(vs)
    G.label(p, "BEAT", back=False, cb=fn("Beat"))
    x["items"] = []
    rig0 = p["peer"]["rig"] if p["peer"] else 0
    mb = r.choice([None, None, 2, 5, 30])
    for k in range(n or r.randrange(2, 8)):
        kind = r.choice(kinds)
        it = {"k": kind, "mode": r.choice(["cur", "tgt", "tgt"]), "lab": None, "led": None, "text": None, "col": None}
        arg = {"display_mode": CUR if it["mode"] == "cur" else TGT}
        if r.random() < 0.75: it["lab"] = "L%d" % k; arg["display"] = G.label(p, it["lab"])
        if r.random() < 0.12: it["text"] = arg["text"] = "T%d" % k
        if r.random() < 0.1: it["col"] = list(r.choice(COLS)); arg["color"] = tup(*it["col"])
        elif r.random() < 0.1: it["col"] = [10, 200, 30]; arg["color_callback"] = "$anycol"
        if r.random() < 0.1: arg["use_leds"] = False
        else: it["led"] = [3 * k, 3 * k + 1, 3 * k + 2]
        nb = lambda: r.choice([rig0 // N + 1, rig0 // N + 2, 1, 125, r.randrange(1, 126), r.randrange(1, 6)]) if rig0 // N < 124 else r.choice([1, 124, 125, r.randrange(1, 126)])
        if kind == "rigsel":
            it["rig"] = arg["rig"] = r.choice([None] + [r.randrange(1, N + 1)] * 9)
            bank = off = boff = None
            if r.random() < 0.5: bank = nb()
            if r.random() < 0.55: off = r.choice(["auto", "auto", r.randrange(1, N + 1)])
            if bank is not None and (off is not None or r.random() < 0.3): boff = "auto" if r.random() < 0.5 else nb()
            it.update(bank=bank, off=off, boff=boff)
            for a, v in (("bank", bank), ("rig_off", off), ("bank_off", boff)):
                if v is not None or r.random() < 0.3: arg[a] = v
            it["excl"] = []
            if off == "auto" and boff != "auto" and r.random() < 0.3: it["excl"] = r.sample(range(1, N + 1), r.randrange(1, 4)); arg["auto_exclude_rigs"] = tup(*it["excl"]) if r.random() < 0.5 else it["excl"]
            e = fn("RIG_SELECT", **arg)
        elif kind in ("banksel", "bankpre", "banktog"):
            it["bank"] = nb(); it["boff"] = None
            arg["bank"] = it["bank"]
            if kind == "banktog": it["boff"] = arg["bank_off"] = nb()
            if kind == "bankpre":
                arg["preselect"] = True
                if r.random() < 0.1: arg["bank_off"] = nb()        # to be ignored
            e = fn("BANK_SELECT", **arg)
        elif kind in ("bankstep", "steppre"):
            it["d"] = r.choice([1, -1]); it["max"] = None
            if kind == "steppre":
                arg["preselect"] = True
                if mb: it["max"] = arg["max_bank"] = mb
            if r.random() < 0.2: it["dim"] = arg["dim_factor"] = r.choice(["on", "off", 0.6])
            if r.random() < 0.2: it["br"] = arg["led_brightness"] = r.choice(["on", "off", 0.4])
            if not it["text"]:
                it["text"] = "Bank up" if it["d"] > 0 else "Bank dn"
                if r.random() < 0.3: arg["text_callback"] = "$anytext"; it["text"] = "own3"; it["cbtext"] = True
            e = fn("BANK_UP" if it["d"] > 0 else "BANK_DOWN", **arg)
        else:
            it["d"] = r.choice([1, -1]); it["keep"] = r.random() < 0.5
            if not it["keep"] or r.random() < 0.5: arg["keep_bank"] = it["keep"]
            if it["mode"] == "tgt" and r.random() < 0.5: del arg["display_mode"]
            e = fn("RIG_UP" if it["d"] > 0 else "RIG_DOWN", **arg)
        it["pin"] = G.switch(p, [e], pixels=[3 * k, 3 * k + 1, 3 * k + 2])
        x["items"].append(it)
    x["enc"] = None
    if enc:
        step = r.choice([0.5, 0.5, 1, 0.25, 2])
        arg = {} if step == 0.5 and r.random() < 0.5 else {"step_width": step}
        a, b = G.EPINS[0]
        cfg["inputs"].append({"type": "enc", "pin": a, "pin2": b, "actions": [fn("ENCODER_BANK_SELECT", **arg)]})
        x["enc"] = {"pin": a, "step": step}
    x["labels"] = []
    for k in range(r.randrange(0, labels + 1)):
        it = {"id": r.choice([True, "rig", "bank"]), "name": r.random() < 0.3}
        if it["name"] and r.random() < 0.4: it["id"] = False
        it["lab"] = "R%d" % k
        G.label(p, it["lab"], back=False, cb=fn("KemperRigNameCallback", show_name=it["name"], show_rig_id=it["id"]))
        x["labels"].append(it)

class Model:
    """What the controller can know: the adopted rig, a preselected bank, and what 'auto' remembers"""
    def __init__(self, x):
        self.x, self.part, self.rig, self.pre, self.by = x, None, None, None, None
        self.mem = {n: [1 if it["off"] == "auto" else it["off"], 1 if it["boff"] == "auto" else it["boff"]] for n, it in enumerate(x["items"]) if it["k"] == "rigsel"}
        self.down = {}
        self.pos = None
        self.ended = None       # bank whose preselection has ended: its button draws again with the next announcement only
        self.wheels = set()     # all of them since the last announcement (buttons draw now and then only)
        self.wheel = None       # known finding "wheel-rig": what the bank wheel has written over the active rig
    def end(self):
        if self.pre is not None: self.ended, self.pre = self.pre, None
    def bank(self): return self.rig // N
    def slot(self): return self.rig % N
    def active(self, it): return self.rig is not None and it["rig"] is not None and self.slot() == it["rig"] - 1 and it["bank"] in (None, self.bank() + 1)
    def part32(self, v): self.part = v
    def program(self, v):
        """-> adopted"""
        if self.part is None: return False
        self.rig, self.part, self.wheel = 128 * self.part + v, None, None
        self.ended, self.wheels = None, set()
        for n, it in enumerate(self.x["items"]):
            if it["k"] != "rigsel" or self.active(it): continue
            if it["off"] == "auto" and it["rig"] is not None and self.slot() + 1 not in it["excl"]: self.mem[n][0] = self.slot() + 1
            if it["boff"] == "auto" and (self.bank() < B): self.mem[n][1] = self.bank() + 1
        return True
    def target(self, n):
        """Rig (bank or None, slot) the button n loads"""
        it = self.x["items"][n]
        off, boff = self.mem[n]
        if self.pre is not None: return self.pre, it["rig"] - 1 if it["rig"] is not None else self.slot()
        if self.active(it) and (off is not None or boff is not None):
            return (boff if it["bank"] is not None and boff is not None else it["bank"] or self.bank() + 1) - 1, (off if off is not None else it["rig"]) - 1
        s = it["rig"] - 1 if it["rig"] is not None else None if self.rig is None else self.slot()
        return (it["bank"] - 1 if it["bank"] is not None else None if self.rig is None else self.bank()), s
    def step(self, it):
        k = self.rig % N
        if it["keep"]: return self.rig + it["d"] if 0 <= k + it["d"] < N else self.rig
        return min(self.rig, N * B) + it["d"] if 0 <= min(self.rig, N * B) + it["d"] < N * B else 0 if it["d"] > 0 else N * B - 1
    def nextbank(self, it):
        return ((self.pre if self.pre is not None else self.bank()) + it["d"]) % (it["max"] or B)
    def press(self, n):
        """-> messages (cc, value)"""
        it = self.x["items"][n]
        k = it["k"]
        if k == "rigsel":
            b, s = self.target(n)
            out = []
            if self.pre is None and it["bank"] is not None: out.append((47, b))
            if s is not None: out.append((50 + s, 1)); self.down[n] = s
            self.end()
            return out
        if k == "bankstep": return [(48 if it["d"] > 0 else 49, 0)]
        if self.rig is None: return []
        if k == "rigstep":
            q = self.step(it)
            if q == self.rig: return []
            out = [(47, q // N)] if q // N != self.bank() or self.pre is not None else []
            self.end()
            self.down[n] = q % N
            return out + [(50 + q % N, 1)]
        if k == "steppre":
            self.pre, self.by = self.nextbank(it), n
            return [(47, self.pre)]
        b = it["bank"] - 1
        if it["boff"] is not None and self.bank() == b: b = it["boff"] - 1
        if k == "bankpre":
            if self.pre is not None or self.bank() != b: self.pre, self.by = b, n
            return [(47, b)]
        self.end()
        self.down[n] = self.slot()
        return [(47, b), (50 + self.slot(), 1)]
    def release(self, n):
        s = self.down.pop(n, None)
        return [] if s is None else [(50 + s, 0)]
    def turned(self, pos):
        e = self.x["enc"]
        q = int(pos * e["step"])
        if self.rig is None: self.pos = None; return []
        if self.pos is None: self.pos = q; return []
        d, self.pos = q - self.pos, q
        if not d: return []
        v = self.pre if self.pre is not None else self.bank()
        w = min(B - 1, max(0, v + d))
        if w == v: return []
        self.pre, self.by = w, "enc"
        self.wheel = w * N + self.rig % N
        self.wheels.add(self.wheel)
        return [(47, w)]
    def wrong(self, n, what, wheel=None):
        """what() as if the wheel had changed the active rig, or None if it has not (or n does not care)"""
        if self.wheel is None or not (n == "enc" or self.x["items"][n]["k"] in ("banksel", "banktog", "bankpre", "steppre", "bankstep")): return None
        own = self.rig, self.pre, self.by, self.down
        self.rig, self.down = self.wheel if wheel is None else wheel, dict(self.down)
        try: return what(), self.pre, self.down
        finally: self.rig, self.pre, self.by, self.down = own
    # ---- appearance: list of alternatives (blinking) of {led, back, text}
    def look(self, n):
        it, D = self.x["items"][n], self.x["def"]
        k, tgt = it["k"], it["mode"] == "tgt"
        if self.rig is None:
            if k == "rigstep": return [{"led": vis.led(WHITE, D["on"])}]
            if k in ("bankstep", "steppre"): return [{}]
            return [{"led": vis.led(WHITE, D["off"]), "text": "", "back": vis.dim(WHITE, D["doff"])}]
        b, s = self.bank(), self.slot()
        own = it["col"]
        col = lambda q: tuple(own) if own else BANK[q % 5]
        if k == "rigsel":
            act = self.active(it)
            if not tgt:
                bb, ss = b, s
                out = {"led": vis.led(col(b), D["off"])}
            else:
                bb, ss = self.target(n)
                out = {"led": vis.led(col(bb), D["on"] if act else D["off"])}
            out["back"] = col(bb) if tgt and act and self.pre is None else vis.dim(col(bb), D["doff"])
            out["text"] = it["text"] or "Rig %d-%d" % (bb + 1, ss + 1)
            if self.pre is None: return [out]
            return [dict(out, led=vis.led(col(bb), D[q])) for q in ("on", "off")]
        if k in ("banksel", "bankpre", "banktog"):
            act = b == it["bank"] - 1
            blink = k == "bankpre" and (self.pre if self.pre is not None else self.ended) == it["bank"] - 1
            q = b if not tgt else it["boff"] - 1 if act and it["boff"] is not None else it["bank"] - 1
            out = {"text": it["text"] or "Bank %d" % (q + 1)}
            on = dict(out, led=vis.led(col(q), D["on" if tgt else "off"]), back=col(q) if tgt else vis.dim(col(q), D["doff"]))
            off = dict(out, led=vis.led(col(q), D["off"]), back=vis.dim(col(q), D["doff"]))
            return [on, off] if blink else [on if act else off]
        if k == "rigstep":
            q = self.step(it) if tgt else self.rig
            return [{"led": vis.led(col(q // N), D["on"]), "back": col(q // N), "text": it["text"] or "Rig %d-%d" % (q // N + 1, q % N + 1)}]
        q = (((self.pre if self.pre is not None else b) + it["d"]) % (it["max"] or B)) if tgt else b
        dim, br = it.get("dim", "off"), it.get("br", "off")
        f = dim if isinstance(dim, float) else D["doff" if dim == "off" else "don"]
        l = br if isinstance(br, float) else D["off" if br == "off" else "on"]
        l2 = br * 0.1 if isinstance(br, float) else D["on" if br == "off" else "off"]
        out = {"text": it["text"], "back": vis.dim(col(q), f)}
        if k == "steppre" and self.pre is not None and self.by == n: return [dict(out, led=vis.led(col(q), z)) for z in (l, l2)]
        return [dict(out, led=vis.led(col(q), l))]
    def blinking(self, n): return len({str(q.get("led")) for q in self.look(n)}) > 1

def run(ctx, cmds, shows):
    """cmds, shows: kinds of items whose commands / appearance are judged"""
    res, plan = ctx.res, ctx.plan
    x, cfg = plan["x"], plan["cfg"]
    items = x["items"]
    port = cfg["routings"][0][0]
    scr = Screen(res)
    m = Model(x)
    pin = {it["pin"]: n for n, it in enumerate(items)}
    state = {}
    cur = None
    beats = changed = 0
    tch = 0
    last, ledt = {}, {}
    started = False
    iv = G.interval(plan) * 1000
    predirty = False
    def close():
        nonlocal cur
        if cur is None: return False
        c, cur = cur, None
        if c[2] != c[3] and c[7] is not None and c[2] == c[7][0]:
            ctx.bad("wheel-rig", "%s (rig %s, preselected bank %s): sent %s, but has to send %s, because the bank wheel has been turned" % (c[0], c[6][0], c[6][1], c[2], c[3]), c[4])
            return True
        if c[2] != c[3]:
            if c[5]: ctx.bad("command", "%s (rig %s, preselected bank %s): sent %s, but has to send %s" % (c[0], c[6][0], c[6][1], c[2], c[3]), c[4])
            return True
        if c[5]: ctx.count("judged"); ctx.count("command", bool(c[3])); ctx.count("no_command", not c[3])
        return False
    def judge(t):
        since = beats - changed
        for n, it in enumerate(items):
            if it["k"] not in shows: continue
            alts = m.look(n)
            best = None
            for a in alts:
                d = differs(scr, it, a)
                if d is None: best = None; break
                best = best or d
            if best and any((m.wrong(n, lambda: any(differs(scr, it, a) is None for a in m.look(n)), q) or (False,))[0] for q in m.wheels):
                ctx.bad("wheel-rig", "%s with rig %s and bank %s preselected by the wheel shows bank %d as the active one" % (desc(it), name(m.rig), m.pre, m.wheel // N + 1), t); best = None
                ctx.count("wheel_rig"); continue
            if best:
                ctx.bad("display", "%s with rig %s%s: %s" % (desc(it), name(m.rig), " and bank %d preselected" % (m.pre + 1) if m.pre is not None else "", best), t); return True
            ctx.count("judged"); ctx.count("show_" + it["k"]); ctx.count("unknown", m.rig is None)
            if it["k"] == "rigsel" and it["mode"] == "tgt" and m.pre is None: ctx.count("highlight", m.active(it))
            if m.pre is not None and it["led"] and m.blinking(n) and t - tch > 2500000:
                ctx.count("blink")
                if t - max(ledt.get(q, 0) for q in it["led"]) > 400000 + 3 * iv + 900000 + slackt(t):
                    ctx.bad("noblink", "%s does not blink while bank %d is preselected" % (desc(it), m.pre + 1), t); return True
        if "label" in shows:
            for it in x["labels"]:
                if m.pre is not None: want = "Bank %d" % (m.pre + 1)
                elif it["name"] or m.rig is None:
                    got = scr.text.get(it["lab"]) or ""
                    if m.rig is not None and it["id"] and not got.startswith({True: "%d-%d" % (m.bank() + 1, m.slot() + 1), "rig": str(m.slot() + 1), "bank": str(m.bank() + 1)}[it["id"]] + " "):
                        ctx.bad("label", "label %s shows %r, but the rig is %s" % (it["lab"], got, name(m.rig)), t); return True
                    if "pre" in shows and got.startswith("Bank "): ctx.bad("label", "label %s shows %r, but no bank is preselected any more" % (it["lab"], got), t); return True
                    continue
                else: want = {True: "%d-%d" % (m.bank() + 1, m.slot() + 1), "rig": str(m.slot() + 1), "bank": str(m.bank() + 1)}[it["id"]]
                got = scr.text.get(it["lab"])
                ctx.count("judged"); ctx.count("show_label"); ctx.count("show_preselected", m.pre is not None)
                if got != want: ctx.bad("label", "label %s shows %r, expected %r (rig %s)" % (it["lab"], got, want, name(m.rig)), t); return True
        return False
    stalls = [(e[0], e[2]) for e in res.trace if e[1] == "stall"]
    def slackt(t): return sum(d for a, d in stalls if a < t < a + d + 3000000)
    def ch(t):
        nonlocal changed, tch
        changed, tch = beats, t
    for e in res.trace:
        k, t = e[1], e[0]
        if k in ("s", "a", "e", "m"):
            if close(): return
        if k in ("led", "txt", "col", "fill", "npx", "rx", "show"):
            q = scr.apply(e)
            if q and q[0] == "led" and last.get(q) != e[3]: ledt[e[2]] = t; last[q] = e[3]
            if k == "txt" and scr.lab.get(e[2]) == "BEAT":
                beats += 1
                if beats - changed >= 3 and t - tch > 300000:
                    if judge(t): return
        elif k == "stall": ctx.count("stall")
        elif k == "tx":
            for b in K.split(e[3]):
                d = K.decode(b)
                if d[0] != "cc" or not 47 <= d[1] <= 54: continue
                if cur is None: ctx.bad("stray", "%s sent without any press" % (d,), t); return
                cur[2].append(d[1:3])
        elif k == "m":
            if e[3] and started and e[2] == port:
                d = K.decode(e[3])
                before = m.rig
                if d[0] == "cc" and d[1] == 32:
                    ctx.count("part_again", m.part is not None); m.part32(d[2])
                elif d[0] == "pc":
                    if m.program(d[1]):
                        ctx.count("adopted"); ctx.count("big", m.rig >= N * B)
                        ch(t)
                    else: ctx.count("pc_alone")
                elif m.part is not None: ctx.count("between")
        elif k == "s":
            started = True
            if e[2] in pin:
                n = pin[e[2]]
                if state.get(n, False) == e[3]: continue
                state[n] = e[3]
                it = items[n]
                st = (name(m.rig), m.pre)
                pre, rig = m.pre, m.rig
                other = m.wrong(n, lambda: m.press(n)) if e[3] else None
                want = m.press(n) if e[3] else m.release(n)
                if e[3]:
                    ctx.count("press_" + it["k"]); ctx.count("pre_start", pre is None and m.pre is not None); ctx.count("pre_step", pre is not None and m.pre is not None); ctx.count("pre_end", pre is not None and m.pre is None)
                    if it["k"] == "rigsel" and pre is None and m.active(it) and (it["off"] is not None or it["boff"] is not None): ctx.count("off_rig"); ctx.count("off_auto", "auto" in (it["off"], it["boff"]))
                    if it["k"] == "rigstep" and rig is not None: ctx.count("edge", rig == m.step(it)); ctx.count("wrap", abs(rig - m.step(it)) > 5); ctx.count("next_bank", rig // N != m.step(it) // N)
                    if it["k"] == "steppre" and pre is not None: ctx.count("pre_wrap", m.pre is not None and abs(pre - m.pre) > 1)
                if pre != m.pre: ch(t)
                # banks the device can not be told are for P07
                ok = it["k"] in cmds and not (rig is not None and rig >= N * B and it["k"] != "rigsel")
                cur = ["switch %s %s (%s)" % (e[2], "pressed" if e[3] else "released", desc(it)), None, [], want, t, ok, st, other]
                if other and other[0] == want and (m.pre, m.down) != other[1:]: return      # the finding "wheel-rig": not visible right now, but from now on
        elif k == "e" and x["enc"] and e[2] == x["enc"]["pin"]:
            started = True
            st = (name(m.rig), m.pre)
            pos = m.pos
            other = m.wrong("enc", lambda: m.turned(e[3]))
            m.pos = pos
            want = m.turned(e[3])
            if want: ch(t); ctx.count("wheel")
            cur = ["bank wheel at %d" % e[3], None, [], want, t, "enc" in cmds and not (m.rig is not None and m.rig >= N * B), st, other]

def name(rig): return None if rig is None else "%d-%d" % (rig // N + 1, rig % N + 1)
def desc(it): return it["k"] + " " + str({a: b for a, b in it.items() if a in ("rig", "bank", "off", "boff", "d", "keep", "max", "mode", "excl") and b not in (None, [])})

def differs(scr, it, want):
    if "led" in want and it["led"]:
        for i in it["led"]:
            if not vis.led_ok(scr.led[i], want["led"]): return "LED %d is %s, expected %s" % (i, scr.led[i], want["led"])
    if it["lab"]:
        if "back" in want and scr.back.get(it["lab"]) != want["back"]: return "background of the label is %s, expected %s" % (scr.back.get(it["lab"]), want["back"])
        if "text" in want and (scr.text.get(it["lab"]) or "") != want["text"]: return "label shows %r, expected %r" % (scr.text.get(it["lab"]), want["text"])
    return None
