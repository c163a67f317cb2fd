"""Wire protocol (independent of the code under test) and the simulated Kemper device with its faulty link."""

MFR = bytes([0x00, 0x20, 0x33])
SLOTS = ["A", "B", "C", "D", "X", "MOD", "DLY", "REV", "DLYns", "REVns"]
SLOT_PAGE = {"A": 0x32, "B": 0x33, "C": 0x34, "D": 0x35, "X": 0x38, "MOD": 0x3a, "DLY": 0x3c, "REV": 0x3d, "DLYns": 0x3c, "REVns": 0x3d}
SLOT_CC = {"A": 17, "B": 18, "C": 19, "D": 20, "X": 22, "MOD": 24, "DLY": 27, "REV": 29, "DLYns": 26, "REVns": 28}
SLOT_CONST = ["A", "B", "C", "D", "X", "MOD", "DLY", "REV", "DLY_NO_SPILL", "REV_NO_SPILL"]
PUSHED_SLOTS = ("A", "B", "C", "D", "X", "MOD")
RIG_NAME, RIG_DATE = (0, 1), (0, 3)
TUNER_MODE, TUNER_NOTE, TUNER_DEV = (0x7f, 0x7e), (0x7d, 0x54), (0x7c, 0x0f)
TEMPO_PULSE, BPM, RIG_VOL, MORPH, GAIN = (0x7c, 0), (4, 0), (4, 1), (0, 0x0b), (0x0a, 4)
PER_BANK, BANKS = 5, 125

def sysex(*data):
    return b"\xf0" + MFR + bytes(data) + b"\xf7"

def single(page, addr, value):
    return sysex(0, 0, 0x01, 0, page, addr, (value >> 7) & 0x7f, value & 0x7f)

def string(page, addr, text):
    return sysex(0, 0, 0x03, 0, page, addr, *[ord(c) & 0x7f for c in text], 0)

def cc(n, v, ch=0): return bytes([0xb0 | ch, n, v])
def pc(n, ch=0): return bytes([0xc0 | ch, n])

SENSE = sysex(0, 0, 0x7e, 0, 0x7f)

def decode(b):
    """Message bytes -> tuple describing it."""
    if not b:
        return ("?",)
    s = b[0]
    if s == 0xfd:
        return ("unknown", bytes(b[1:]))
    if s == 0xf0 and b[1:4] == MFR and b[-1] == 0xf7:
        d = b[4:-1]
        if len(d) >= 5 and d[2] == 0x7e and d[3] == 0:
            if d[4] == 0x40:
                return ("beacon",) + tuple(d[5:])
            if d[4] == 0x7f:
                return ("sense",)
        if len(d) >= 6:
            f, page, addr, rest = d[2], d[4], d[5], d[6:]
            if f == 0x41: return ("req", page, addr)
            if f == 0x43: return ("reqs", page, addr)
            if d[3] != 0: return ("sysex", bytes(d))
            if f == 0x01:
                if len(rest) >= 2: return ("val", page, addr, rest[0] * 128 + rest[1]) if len(rest) == 2 else ("val", page, addr, rest[-2] * 128 + rest[-1])
                return ("valx", page, addr, bytes(rest))
            if f == 0x03: return ("str", page, addr, bytes(rest[:-1]).decode("latin1"))
        return ("sysex", bytes(d))
    if s & 0xf0 == 0xb0 and len(b) == 3: return ("cc", b[1], b[2])
    if s & 0xf0 == 0xc0 and len(b) == 2: return ("pc", b[1])
    return ("raw", bytes(b))

def split(buf):
    """Splits a byte stream of complete messages."""
    out, i = [], 0
    while i < len(buf):
        s = buf[i]
        if s == 0xf0:
            j = buf.find(b"\xf7", i)
            if j < 0: j = len(buf) - 1
            out.append(bytes(buf[i:j + 1])); i = j + 1
        elif s & 0xf0 in (0xc0, 0xd0):
            out.append(bytes(buf[i:i + 2])); i += 2
        elif s >= 0xf0:
            out.append(bytes(buf[i:i + 1])); i += 1
        elif s >= 0x80:
            out.append(bytes(buf[i:i + 3])); i += 3
        else:
            i += 1
    return out

def klass(b):
    d = decode(b)
    return {"val": "val", "str": "str", "sense": "sense", "beacon": "beacon", "req": "req", "reqs": "req", "cc": "cc", "pc": "pc"}.get(d[0], "other")

# ---------------------------------------------------------------------------------------------------------------- link

class Link:
    """One direction of the wire. Faults are explicit rules of the plan:
    {dir, t0, t1, act, cls?, every?, off?, arg?}  (ms; every: hits each n-th matching message of the window)"""
    def __init__(self, world, direction, deliver, faults, lat_us):
        self.w, self.dir, self.deliver, self.lat = world, direction, deliver, lat_us
        self.rules = [dict(f, n=0) for f in faults if f.get("dir") in (direction, "both")]
        self.last = 0

    def send(self, b):
        w = self.w
        now = (w.t - w.t0) / 1000
        delay, copies, data = self.lat, [0], b
        k = None
        for r in self.rules:
            if not (r["t0"] <= now < r["t1"]):
                continue
            if r.get("cls"):
                k = k or klass(b)
                if k not in r["cls"]:
                    continue
            if r.get("addr"):
                d = decode(b)
                if list(d[1:3]) != list(r["addr"]):
                    continue
            r["n"] += 1
            if (r["n"] + r.get("off", 0)) % r.get("every", 1):
                continue
            a, arg = r["act"], r.get("arg", 0)
            w.fire(a + "_" + self.dir)
            w.log("flt", a, self.dir, bytes(b))
            if a == "drop":
                return
            if a == "delay":
                delay += arg * 1000
            elif a == "dup":
                copies.append(arg * 1000)
            elif a == "corrupt" and len(data) > 1:
                i = 1 + arg % max(1, len(data) - 1)
                data = data[:i] + bytes([(data[i] ^ (1 << (arg % 7))) & 0xff]) + data[i + 1:]
            elif a == "trunc":
                data = data[:max(1, len(data) - 1 - arg % max(1, len(data)))] + (b"\xf7" if data[0] == 0xf0 and r.get("end") else b"")
            elif a == "split":
                # a SysEx torn into two deliveries
                i = 1 + arg % max(1, len(data) - 1)
                first, second = data[:i], data[i:]
                w.at(w.t + delay, lambda f=first: self.deliver(f))
                w.at(w.t + delay + r.get("gap", 20) * 1000, lambda f=second: self.deliver(f))
                return
        for c in copies:
            w.at(w.t + delay + c, lambda d=data: self.deliver(d))

# -------------------------------------------------------------------------------------------------------------- device

def h(*a):
    x = 2166136261
    for v in a:
        for c in str(v):
            x = ((x ^ ord(c)) * 16777619) & 0xffffffff
        x = (x * 31 + 7) & 0xffffffff
    x ^= x >> 15; x = (x * 0x2c1b3c6d) & 0xffffffff; x ^= x >> 12
    return x

TYPES = [0, 1, 11, 12, 13, 17, 33, 42, 49, 50, 57, 58, 64, 65, 66, 68, 69, 70, 71, 75, 77, 80, 81, 91, 97, 104, 113, 116, 121, 123, 129,
         132, 138, 140, 145, 166, 177, 193]

class Kemper:
    def __init__(self, world, port, cfg, faults):
        self.w, self.port, self.cfg = world, port, cfg
        self.lat = int(cfg.get("lat", 4) * 1000)
        self.seed = cfg.get("seed", 0)
        self.up = cfg.get("up", True)
        self.pushes = cfg.get("pushes", True)
        self.d2c = Link(world, "d2c", self._deliver, faults, self.lat)
        self.c2d = Link(world, "c2d", self._receive, faults, self.lat)
        self.answer = cfg.get("answer", True)
        self.mute = set(map(tuple, cfg.get("mute", ())))
        self.p = {}
        self.s = {}
        self.log = []                       # (t, what, ...) device side history
        self.rig = cfg.get("rig", 0)
        self.presel = None
        self.session = None                 # lease end (us) of the bidirectional session
        self.tuner = 0
        self.morph_btn = 0
        self.held = None
        self.epoch = 0
        self._load(self.rig, announce=False)
        if cfg.get("sense", True):
            self._sense_loop()
        self.cmds = []

    # -- device state ------------------------------------------------------------------------------------------------
    def _note(self, *a):
        self.log.append((self.w.t,) + a)
        self.w.log("dev", *a)

    def rig_type(self, rig, slot):
        o = self.cfg.get("types")
        if o and slot in o:
            return o[slot]
        page = SLOT_PAGE[slot]
        return TYPES[h(self.seed, "ty", rig, page) % len(TYPES)]

    def _load(self, rig, announce=True):
        self.rig = rig
        self.presel = None
        for slot in ("A", "B", "C", "D", "X", "MOD", "DLY", "REV"):
            page = SLOT_PAGE[slot]
            self.p[(page, 0)] = self.rig_type(rig, slot)
            self.p[(page, 3)] = h(self.seed, "st", rig, page) & 1
            self.p[(page, 0x45)] = h(self.seed, "mx", rig, page) % 16384
        self.p[BPM] = 64 * (60 + h(self.seed, "bpm", rig) % 160)
        self.p[RIG_VOL] = 8191
        self.p[GAIN] = h(self.seed, "g", rig) % 16384
        self.p[MORPH] = 0
        self.s[RIG_NAME] = "Rig%d %s" % (rig, "abcdefg"[h(self.seed, "nm", rig) % 7])
        self.s[(0, 0x10)] = "Amp %d" % (h(self.seed, "amp", rig) % 50)
        self.s[(0, 0x20)] = "Cab %d" % (h(self.seed, "cab", rig) % 50)
        self.s[RIG_DATE] = "2024-%02d-%02d %04d" % (1 + rig % 12, 1 + (rig // 12) % 28, h(self.seed, "dt", rig) % 10000)
        if announce:
            self.announce()
            self._push_all()

    def announce(self):
        self.send(cc(32, self.rig >> 7))
        self.send(pc(self.rig & 0x7f))

    def _push_all(self):
        if not self.active():
            return
        for slot in PUSHED_SLOTS:
            page = SLOT_PAGE[slot]
            self.push((page, 0)); self.push((page, 3))
        self.send(string(*RIG_NAME, self.s[RIG_NAME]))

    def active(self):
        return self.up and self.session is not None and self.w.t < self.session

    def pushed_addr(self, a):
        return a[0] in (0x32, 0x33, 0x34, 0x35, 0x38, 0x3a) and a[1] in (0, 3) or a in (TUNER_MODE, TUNER_NOTE, TUNER_DEV)

    def push(self, a):
        if self.active() and self.pushes:
            self.send(single(a[0], a[1], self.p.get(a, 0)))

    def setp(self, a, v, by="dev"):
        a = tuple(a)
        self.p[a] = v
        self._note("set", a, v, by)
        if self.pushed_addr(a):
            self.push(a)

    def sel_rig(self, rig):
        rig %= PER_BANK * BANKS
        self._note("rig", rig)
        self._load(rig)

    # -- link --------------------------------------------------------------------------------------------------------
    def send(self, b):
        if self.up:
            self.d2c.send(b)

    def _deliver(self, b):
        self.w.ports[self.port].feed(b)

    def on_wire(self, port, b):
        if port == self.port:
            for m in split(b):
                self.c2d.send(m)

    def _sense_loop(self):
        w = self.w
        def tick():
            if self.active():
                self.send(SENSE)
            w.at(w.t + int(self.cfg.get("sense_ms", 500) * 1000), tick)
        w.at(w.t + int(self.cfg.get("sense_ms", 500) * 1000), tick)

    def _receive(self, b):
        if not self.up:
            return
        d = decode(b)
        k = d[0]
        if k == "req":
            a = (d[1], d[2])
            if self.answer and a not in self.mute:
                self.send(single(a[0], a[1], self.p.get(a, 0)))
        elif k == "reqs":
            a = (d[1], d[2])
            if self.answer and a not in self.mute:
                self.send(string(a[0], a[1], self.s.get(a, "?")))
        elif k == "beacon" and len(d) == 4:
            flags, lease = d[2], d[3]
            fresh = not self.active()
            if self.cfg.get("bidir", True):
                if (flags & 1) or not fresh:
                    self.session = self.w.t + lease * 2000000
                    self._note("session", flags, lease)
                    if flags & 1:
                        self.send(SENSE)
                        self._push_all()
                        self.push(TUNER_MODE) if self.cfg.get("push_tuner", True) else None
        elif k == "val":
            self.p[(d[1], d[2])] = d[3]
            self._note("set", (d[1], d[2]), d[3], "ctl")
            if self.pushed_addr((d[1], d[2])) and self.cfg.get("echo"):
                self.push((d[1], d[2]))
        elif k == "cc":
            self._cc(d[1], d[2])
        elif k == "pc":
            self._note("pc", d[1])

    def _cc(self, n, v):
        for slot, c in SLOT_CC.items():
            if c == n:
                a = (SLOT_PAGE[slot], 3)
                self.p[a] = 1 if v else 0
                self._note("set", a, self.p[a], "ctl")
                return
        if n == 31:
            self.tuner = 1 if v else 0
            self.p[TUNER_MODE] = self.tuner
            self._note("tuner", self.tuner, "ctl")
            self.push(TUNER_MODE)
        elif n == 47:
            self.presel = v
            self._note("presel", v)
        elif n in (48, 49):
            # bank step; value 0 steps immediately, with a slot from 50+ it loads
            b = (self.rig // PER_BANK + (1 if n == 48 else -1)) % BANKS
            self._note("bankstep", n)
            self.sel_rig(b * PER_BANK + self.rig % PER_BANK)
        elif 50 <= n <= 54:
            if v:
                bank = self.presel if self.presel is not None else self.rig // PER_BANK
                self.held = n
                self._note("press", n - 50, bank)
                self.sel_rig(bank * PER_BANK + n - 50)
            else:
                self._note("unpress", n - 50)
                self.held = None
        elif n == 80:
            self._note("morphbtn", v)
        else:
            self._note("cc", n, v)

    # -- plan events ---------------------------------------------------------------------------------------------------
    def event(self, e):
        k = e["k"]
        if k == "dset":
            self.setp(e["a"], e["v"])
        elif k == "drig":
            self.sel_rig(e["rig"])
        elif k == "dannounce":
            self.announce()
        elif k == "dname":
            self.s[RIG_NAME] = e["v"]; self.s[RIG_DATE] = e["d"]
            self._note("name", e["v"], e["d"])
            if self.active(): self.send(string(*RIG_NAME, e["v"]))
        elif k == "dstr":
            self.s[tuple(e["a"])] = e["v"]
            self._note("str", tuple(e["a"]), e["v"])
        elif k == "dtuner":
            self.tuner = e["v"]
            self.p[TUNER_MODE] = e["v"]
            self._note("tuner", e["v"], "dev")
            self.push(TUNER_MODE)
        elif k == "dnote":
            self.p[TUNER_NOTE] = e["v"]; self.push(TUNER_NOTE)
        elif k == "ddev":
            self.p[TUNER_DEV] = e["v"]; self.push(TUNER_DEV)
        elif k == "dpulse":
            if self.active(): self.send(single(0x7c, 0, e["v"]))
        elif k == "ddown":
            self.up = False; self.session = None
            self.w.fire("device_down"); self._note("down")
        elif k == "dup":
            self.up = True
            self.w.fire("device_reboot"); self._note("up")
            self.tuner = 0; self.p[TUNER_MODE] = 0
            if "rig" in e: self.sel_rig(e["rig"])
        elif k == "dend":
            self.session = None
            self.w.fire("session_dropped"); self._note("session_end")
        elif k == "dsnap":
            self._note("snap", e.get("id"), dict(self.p), dict(self.s), self.rig, bool(self.active() and self.pushes))
        elif k == "draw":
            self.send(bytes.fromhex(e["hex"]))
        elif k == "dmute":
            self.mute = set(map(tuple, e["v"]))
            self.w.fire("mute_param")
        elif k == "danswer":
            self.answer = e["v"]
            if not e["v"]: self.w.fire("no_answers")
        else:
            raise ValueError("unknown device event " + k)
