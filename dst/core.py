"""Deterministic simulator for PySwitch.

One process, one thread: the real firmware (content/lib/pyswitch) and the real adafruit_midi library run on simulated
hardware modules (board, digitalio, ... usb_midi). Simulated time only advances through seam operations, at costs given
by the plan; everything that happens (inputs, peer device, link faults, stalls) is an explicit entry of the plan. There is
no randomness and no real time in here, so a plan is one exactly repeatable execution.
"""
import sys, os, heapq, types, importlib, importlib.abc, importlib.machinery, builtins, signal

REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "content/lib/pyswitch")
MIDILIB = os.path.join(REPO, "web/htdocs/python/adafruit_midi")

class SimStop(BaseException):
    """Regular end of a run (raised from a seam)."""

class SimHang(BaseException):
    """The firmware did not come back (raised from a seam's operation limit or the wall timer)."""

class HarnessError(BaseException):
    """The simulator itself is wrong. Never reported as a violation."""

W = None        # the current world; stub modules refer to it

# ----------------------------------------------------------------------------------------------------------- world

DEFAULT_COSTS = {"read": 3000, "gpio": 25, "adc": 60, "led": 60, "text": 1500, "fill": 300, "write": 150, "mono": 2, "jit": 0}

class World:
    def __init__(self, plan):
        cfg = plan["cfg"]
        c = dict(DEFAULT_COSTS); c.update(cfg.get("costs", {}))
        self.c_read, self.c_gpio, self.c_adc, self.c_led = c["read"], c["gpio"], c["adc"], c["led"]
        self.c_text, self.c_fill, self.c_write, self.c_mono = c["text"], c["fill"], c["write"], c["mono"]
        self.jit = c["jit"]                     # max. additional cost of a port read in percent (hash based)
        self.jn = c.get("jseed", 1) & 0xffffffff
        self.plan, self.cfg = plan, cfg
        self.t0 = int(cfg.get("t0", 10000) * 1000)
        self.t = self.t0
        self.t_end = self.t0 + int(plan["dur"] * 1000)
        self.heap, self.seq = [], 0
        self.trace = []
        self.pins = {}                          # pin -> bool pressed
        self.adc = {}                           # pin -> raw value
        self.enc = {}                           # pin -> position
        self.stall = 0                          # pending stall (us), taken by the next port read
        self.ports = {}
        self.labels, self.rects, self.groups = [], [], []
        self.shown = None
        self.leds = None
        self.hid_fail = False
        self.bad_pins = set(cfg.get("bad_pins", ()))
        self.mem = cfg.get("mem", 200000)
        self.fired = {}                         # fault / event kind -> times it took effect
        self.ops = 0
        self.idle_reads = 0
        self.max_ops = cfg.get("max_ops", 6000000)
        self.frag = cfg.get("frag", 0)
        self.printed = 0
        self.peer = None
        self.stopping = False

    def fire(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    def at(self, t_us, fn):
        self.seq += 1
        heapq.heappush(self.heap, (int(t_us), self.seq, fn))

    def adv(self, dt):
        self.ops += 1
        t = self.t + dt
        h = self.heap
        while h and h[0][0] <= t:
            te, _, fn = heapq.heappop(h)
            if te > self.t:
                self.t = te
            self.guard(fn)
        self.t = t
        if t >= self.t_end:
            self.stopping = True
            raise SimStop()
        if self.ops > self.max_ops:
            raise SimHang("operation limit")

    def guard(self, fn, *a):
        """Runs simulator code (events, peer) so that its own errors can not be taken for errors of the firmware."""
        try:
            return fn(*a)
        except Exception as e:
            raise HarnessError("simulated environment: %r" % e) from e

    def log(self, *a):
        self.trace.append((self.t,) + a)

    def jitter(self):
        # xorshift: an explicit number of the plan decides the whole sequence
        x = self.jn
        x ^= (x << 13) & 0xffffffff; x ^= x >> 17; x ^= (x << 5) & 0xffffffff
        self.jn = x
        return x

class Port:
    """A serial MIDI port: bytes queued for the firmware, and the wire out."""
    def __init__(self, name, world, cap=4096, us_per_byte=0):
        self.name, self.w, self.cap, self.upb = name, world, cap, us_per_byte
        self.q = bytearray()
        self.out_hook = None
        self.closed = False

    # world side -------------------------------------------------------------
    def feed(self, data):
        w = self.w
        if len(self.q) + len(data) > self.cap:
            w.fire("rx_overflow")
            w.log("ovf", self.name, bytes(data))
            return False
        self.q += data
        w.log("in", self.name, bytes(data))
        return True

    # firmware side -----------------------------------------------------------
    def read(self, n=None, *_):
        w = self.w
        cost = w.c_read
        if w.jit:
            cost += cost * (w.jitter() % (w.jit + 1)) // 100
        if w.stall:
            cost += w.stall
            w.fire("stall")
            w.log("stall", w.stall)
            w.stall = 0
        w.adv(cost)
        if not self.q:
            return None if self.upb else b""
        if n is None:
            n = len(self.q)
        if w.frag:
            if n > w.frag and len(self.q) > w.frag:
                w.fire("fragmented_read")
            n = min(n, w.frag)
        d = bytes(self.q[:n])
        del self.q[:n]
        return d

    def readinto(self, buf, n=None):
        d = self.read(n or len(buf)) or b""
        buf[:len(d)] = d
        return len(d)

    def write(self, data, n=None):
        w = self.w
        d = bytes(data if n is None else data[:n])
        w.log("tx", self.name, d)
        if self.out_hook:
            w.guard(self.out_hook, self.name, d)
        w.adv(w.c_write + self.upb * len(d))
        return len(d)

    @property
    def in_waiting(self):
        return len(self.q)

# ------------------------------------------------------------------------------------------------------ stub modules

def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m

class Pin:
    def __init__(self, name): self.name = name
    def __repr__(self): return "board." + self.name

def make_stubs(w):
    """Fresh stub modules for one run."""
    S = {}
    cfg = w.cfg
    pins = {n: Pin(n) for n in cfg.get("board_pins") or ["GP%d" % i for i in range(29)]}
    board = _mod("board", board_id="raspberry_pi_pico", **pins)
    for need in ("GP7", "GP12", "GP13", "GP14", "GP15"):
        if not hasattr(board, need):
            setattr(board, need, Pin(need))
    S["board"] = board

    class Direction: INPUT, OUTPUT = "in", "out"
    class Pull: UP, DOWN = "up", "down"

    class DigitalInOut:
        def __init__(self, pin):
            if pin.name in w.bad_pins:
                w.fire("pin_open_error")
                raise ValueError(pin.name + " in use")
            self.pin, self.direction, self.pull = pin.name, Direction.INPUT, None
            w.log("open", self.pin)
        @property
        def value(self):
            w.adv(w.c_gpio)
            p = bool(w.pins.get(self.pin, False))
            w.trace.append((w.t, "s", self.pin, p))
            if p:
                return False
            return self.pull == Pull.UP         # without pull-up the input reads low
        def deinit(self): pass
    S["digitalio"] = _mod("digitalio", DigitalInOut=DigitalInOut, Direction=Direction, Pull=Pull)

    class AnalogIn:
        def __init__(self, pin): self.pin = pin.name
        @property
        def value(self):
            w.adv(w.c_adc)
            v = w.adc.get(self.pin, 0)
            w.trace.append((w.t, "a", self.pin, v))
            return v
    S["analogio"] = _mod("analogio", AnalogIn=AnalogIn)

    class IncrementalEncoder:
        def __init__(self, a, b, divisor=4):
            self.key = a.name
            w.enc.setdefault(self.key, 0)
        @property
        def position(self):
            w.adv(w.c_adc)
            v = w.enc[self.key]
            w.trace.append((w.t, "e", self.key, v))
            return v
    S["rotaryio"] = _mod("rotaryio", IncrementalEncoder=IncrementalEncoder)

    class UART:
        def __init__(self, a, b, baudrate=9600, timeout=1):
            self._p = w.ports["din"]
        def read(self, n=None): return self._p.read(n)
        def readinto(self, b, n=None): return self._p.readinto(b, n)
        def write(self, d, n=None): return self._p.write(d, n)
        @property
        def in_waiting(self): return self._p.in_waiting
    class SPI:
        def __init__(self, *a, **k): self.n = cfg.get("spi_busy", 0)
        def try_lock(self):
            w.adv(100)
            self.n -= 1
            return self.n < 0
        def configure(self, **k): pass
        def unlock(self): pass
    S["busio"] = _mod("busio", UART=UART, SPI=SPI)
    S["usb_midi"] = _mod("usb_midi", ports=(w.ports["usb"], w.ports["usb"]))

    class Group(list):
        def __init__(self, scale=1, x=0, y=0):
            list.__init__(self)
            self.scale, self.x, self.y = scale, x, y
            w.groups.append(self)
        __hash__ = object.__hash__
        __eq__ = object.__eq__
    class FourWire:
        def __init__(self, *a, **k): pass
    S["displayio"] = _mod("displayio", Group=Group, FourWire=FourWire, release_displays=lambda: None)

    def check_color(c):
        if c is None or isinstance(c, int):
            return c
        if not isinstance(c, (tuple, list)) or len(c) != 3:
            raise TypeError("color must be an int or a tuple of 3")
        for x in c:
            if not isinstance(x, int):
                raise TypeError("color component must be an int")
            if x < 0 or x > 255:
                raise ValueError("color component out of range")
        return tuple(c)

    class Label:
        def __init__(self, font, text="", color=0xFFFFFF, **k):
            self.idx = len(w.labels)
            w.labels.append(self)
            self._color = None; self._text = None
            self.text, self.color = text, color
            for a in ("anchor_point", "anchored_position", "line_spacing", "scale"):
                setattr(self, a, k.get(a))
        @property
        def text(self): return self._text
        @text.setter
        def text(self, v):
            if not isinstance(v, str):
                raise TypeError("text must be str")
            self._text = v
            w.log("txt", self.idx, v)
            w.adv(w.c_text)
        @property
        def color(self): return self._color
        @color.setter
        def color(self, v):
            self._color = check_color(v)
            w.log("col", self.idx, self._color)
            w.adv(w.c_fill)
    S["adafruit_display_text"] = _mod("adafruit_display_text",
        label=_mod("adafruit_display_text.label", Label=Label),
        wrap_text_to_pixels=lambda s, width, font=None, *a: s.split("\n") if s else [""])
    S["adafruit_display_text"].__path__ = []
    S["adafruit_display_text.label"] = S["adafruit_display_text"].label

    class Rect:
        def __init__(self, x, y, width, height, fill=None, outline=None, stroke=1):
            for v in (x, y, width, height):
                if not isinstance(v, int):
                    raise TypeError("int expected")
            self.idx = len(w.rects)
            w.rects.append(self)
            self.x0, self.y0, self.width, self.height = x, y, width, height
            self._x, self.y = x, y
            self._fill = None
            self.fill = fill
        @property
        def fill(self): return self._fill
        @fill.setter
        def fill(self, v):
            self._fill = check_color(v)
            w.log("fill", self.idx, self._fill)
            w.adv(w.c_fill)
        @property
        def x(self): return self._x
        @x.setter
        def x(self, v):
            if not isinstance(v, int):
                raise TypeError("int expected")
            self._x = v
            w.log("rx", self.idx, v)
            w.adv(w.c_fill)
    S["adafruit_display_shapes"] = _mod("adafruit_display_shapes")
    S["adafruit_display_shapes"].__path__ = []
    S["adafruit_display_shapes.rect"] = _mod("adafruit_display_shapes.rect", Rect=Rect)
    S["adafruit_display_shapes"].rect = S["adafruit_display_shapes.rect"]

    class ST7789:
        def __init__(self, bus, width=240, height=240, rowstart=0, rotation=0, **k):
            self.width, self.height = width, height
        def show(self, g):
            w.shown = g
            w.log("show", w.groups.index(g))
            w.adv(w.c_text * 4)
        @property
        def root_group(self): return w.shown
        @root_group.setter
        def root_group(self, g): self.show(g)

    class NeoPixel:
        def __init__(self, port, n, **k):
            if isinstance(n, bool) or not isinstance(n, int) or n < 0:
                raise TypeError("pixel count")
            self.n = n
            self.v = [(0, 0, 0)] * n
            w.leds = self
            w.log("npx", n)
        def __len__(self): return self.n
        def __getitem__(self, i): return self.v[i]
        def _set(self, i, v):
            if isinstance(i, bool) or not isinstance(i, int):
                raise TypeError("pixel index")
            if i < 0 or i >= self.n:
                w.log("badled", i, repr(v))
                raise IndexError("pixel index out of range: %r of %d" % (i, self.n))
            if not isinstance(v, (tuple, list)) or len(v) != 3:
                w.log("badled", i, repr(v))
                raise ValueError("pixel value %r" % (v,))
            for x in v:
                if isinstance(x, bool) or not isinstance(x, int) or x < 0 or x > 255:
                    w.log("badled", i, repr(v))
                    raise ValueError("pixel value %r" % (v,))
            self.v[i] = tuple(v)
            w.log("led", i, self.v[i])
        def __setitem__(self, i, v):
            if isinstance(i, slice):
                for k, x in zip(range(*i.indices(self.n)), v):
                    self._set(k, x)
            else:
                self._set(i, v)
            w.adv(w.c_led)
        def fill(self, v):
            for i in range(self.n):
                self._set(i, v)
            w.adv(w.c_led)
        def show(self): pass
        def deinit(self): pass
    S["adafruit_misc"] = _mod("adafruit_misc"); S["adafruit_misc"].__path__ = []
    S["adafruit_misc.adafruit_st7789"] = _mod("adafruit_misc.adafruit_st7789", ST7789=ST7789)
    S["adafruit_misc.neopixel"] = _mod("adafruit_misc.neopixel", NeoPixel=NeoPixel)

    class Font:
        def __init__(self, path): self.path = path
    def load_font(path):
        w.adv(20000)
        return Font(path)
    S["adafruit_bitmap_font"] = _mod("adafruit_bitmap_font"); S["adafruit_bitmap_font"].__path__ = []
    S["adafruit_bitmap_font.bitmap_font"] = _mod("adafruit_bitmap_font.bitmap_font", load_font=load_font)
    S["adafruit_bitmap_font"].bitmap_font = S["adafruit_bitmap_font.bitmap_font"]

    class Keyboard:
        def __init__(self, devices):
            if cfg.get("no_usb_hid"):
                raise OSError("no USB host")
        def _hit(self, kind, codes):
            if w.hid_fail:
                w.fire("hid_error")
                w.log("keyerr", codes)
                raise OSError("USB busy")
            for c in codes:
                if not isinstance(c, int):
                    raise TypeError("keycode")
            w.log(kind, codes)
            w.adv(1000)
        def send(self, *codes): self._hit("key", codes)
        def press(self, *codes): self._hit("keydown", codes)
        def release(self, *codes): self._hit("keyup", codes)
        def release_all(self): self._hit("keyup", ())
    S["adafruit_hid"] = _mod("adafruit_hid"); S["adafruit_hid"].__path__ = []
    S["adafruit_hid.keyboard"] = _mod("adafruit_hid.keyboard", Keyboard=Keyboard)
    S["usb_hid"] = _mod("usb_hid", devices=())
    S["micropython"] = _mod("micropython", const=lambda x: x)

    class MidiBridgeWrapper:
        def __init__(self, midi, temp_file_path, **k): self._midi = midi
        def send(self, m): self._midi.send(m)
        def receive(self): return self._midi.receive()
        def error(self, e): raise e
    S["pymidibridge"] = _mod("pymidibridge"); S["pymidibridge"].__path__ = []
    S["pymidibridge.MidiBridgeWrapper"] = _mod("pymidibridge.MidiBridgeWrapper", MidiBridgeWrapper=MidiBridgeWrapper)
    return S

# --------------------------------------------------------------------------------------------------------- importing

_code_cache = {}

class _Loader(importlib.abc.Loader):
    def __init__(self, sim, path, source=None):
        self.sim, self.path, self.source = sim, path, source
    def create_module(self, spec): return None
    def exec_module(self, module):
        if self.source is not None:
            code = compile(self.source, self.path, "exec")
        else:
            code = _code_cache.get(self.path)
            if code is None:
                with open(self.path, encoding="utf-8") as f:
                    code = compile(f.read(), self.path, "exec")
                _code_cache[self.path] = code
        module.__dict__["__builtins__"] = self.sim.builtins
        exec(code, module.__dict__)

class _StubLoader(importlib.abc.Loader):
    def __init__(self, mod): self.mod = mod
    def create_module(self, spec): return self.mod
    def exec_module(self, module): pass

class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, sim): self.sim = sim
    def find_spec(self, name, path=None, target=None):
        sim = self.sim
        top = name.split(".")[0]
        if name in sim.stubs:
            return importlib.machinery.ModuleSpec(name, _StubLoader(sim.stubs[name]),
                                                  is_package=hasattr(sim.stubs[name], "__path__"))
        if name in sim.user:
            return importlib.machinery.ModuleSpec(name, _Loader(sim, "<%s.py>" % name, sim.user[name]))
        if top == "pyswitch":
            base = os.path.join(os.path.dirname(LIB), *name.split("."))
        elif top == "adafruit_midi":
            base = os.path.join(os.path.dirname(MIDILIB), *name.split("."))
        else:
            return None
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(name, _Loader(sim, init), is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + ".py"):
            return importlib.machinery.ModuleSpec(name, _Loader(sim, base + ".py"))
        return None

PURGE = ("pyswitch", "adafruit_midi", "config", "communication", "display", "inputs", "usercode")

class Sim:
    def __init__(self, plan, user_modules, world):
        self.w = world
        self.stubs = make_stubs(world)
        self.user = user_modules
        w = world
        def monotonic():
            w.adv(w.c_mono)
            return w.t / 1000000
        def sleep(s):
            w.adv(int(s * 1000000))
        ftime = _mod("time", monotonic=monotonic, monotonic_ns=lambda: int(monotonic() * 1e9), sleep=sleep, time=monotonic)
        fgc = _mod("gc", collect=lambda: None, mem_free=lambda: w.mem, mem_alloc=lambda: 264000 - w.mem, enable=lambda: None, disable=lambda: None)
        ban = {"random", "threading", "asyncio", "socket", "subprocess"}
        real_import = builtins.__import__
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0:
                if name == "time": return ftime
                if name == "gc": return fgc
                if name in ban:
                    raise ImportError(name + " is not available on the simulated board")
            return real_import(name, globals, locals, fromlist, level)
        def prn(*a, **k):
            w.printed += 1
            if w.cfg["config"].get("exploreMode"): w.log("print", " ".join(str(x) for x in a))
        b = dict(builtins.__dict__)
        b["__import__"] = imp
        b["print"] = prn
        self.builtins = b

    def __enter__(self):
        self.saved = {}
        names = set(self.stubs) | {"time", "gc"}
        for n in list(sys.modules):
            if n.split(".")[0] in PURGE or n in self.stubs:
                self.saved[n] = sys.modules.pop(n)
        self.finder = _Finder(self)
        sys.meta_path.insert(0, self.finder)
        return self

    def __exit__(self, *a):
        sys.meta_path.remove(self.finder)
        for n in list(sys.modules):
            if n.split(".")[0] in PURGE or n in self.stubs:
                del sys.modules[n]
        sys.modules.update(self.saved)

    def instrument_midi(self):
        """Records what the application takes from and gives to the MIDI library (real code, at its boundary)."""
        w = self.w
        import adafruit_midi as am
        Real = am.MIDI
        class MIDI(Real):
            def receive(self):
                m = Real.receive(self)
                if m is None:
                    w.trace.append((w.t, "m", self._midi_in_name(), None))
                else:
                    w.trace.append((w.t, "m", self._midi_in_name(), raw(m)))
                return m
            def _midi_in_name(self):
                p = self._midi_in
                return getattr(p, "name", None) or p._p.name
        def raw(m):
            n = type(m).__name__
            if n == "MIDIUnknownEvent":
                return b"\xfd" + bytes([m.status & 0xff])
            if n == "MIDIBadEvent":
                return b"\xfd\xfd" + m.data
            ch = m.channel
            if ch is None and m.CHANNELMASK and (m._STATUS & 0xf0) != 0xf0:
                return b""
            return bytes(m.__bytes__())
        am.MIDI = MIDI

class Result:
    __slots__ = ("trace", "fired", "end", "crash", "hang", "world", "names", "t0", "t_end", "ops")

def where(exc):
    """Stable location of an exception: innermost frame inside the firmware."""
    tb, loc, chain = exc.__traceback__, None, []
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/pyswitch/" in fn or fn.startswith("<"):
            loc = "%s:%s" % (fn.split("/pyswitch/")[-1], tb.tb_frame.f_code.co_qualname if hasattr(tb.tb_frame.f_code, "co_qualname") else tb.tb_frame.f_code.co_name)
            chain.append(loc)
        tb = tb.tb_next
    return loc, chain

WALL_LIMIT = 60

def execute(plan, setup, main="process"):
    """Runs one plan. setup(world) -> user modules (config, communication, display, inputs); it also attaches peers and
    schedules the plan's events."""
    w = World(plan)
    w.ports["usb"] = Port("usb", w, cap=plan["cfg"].get("usb_cap", 4096))
    w.ports["din"] = Port("din", w, cap=plan["cfg"].get("din_cap", 4096), us_per_byte=320)
    user = setup(w)
    r = Result()
    r.crash = r.hang = None
    r.end = "stop"
    r.t0, r.t_end = w.t0, w.t_end
    def alarm(sig, frame):
        raise SimHang("wall")
    old = signal.signal(signal.SIGALRM, alarm) if WALL_LIMIT else None
    if WALL_LIMIT:
        signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        with Sim(plan, user, w) as sim:
            sim.instrument_midi()
            w.log("boot")
            try:
                importlib.import_module("pyswitch.process")
                r.end = "returned"
                if not w.stopping:
                    r.crash = ("Returned", "process", [], "main loop ended")
            except SimStop:
                pass
            except SimHang as e:
                r.end = "hang"
                r.hang = str(e)
            except HarnessError:
                raise
            except Exception as e:
                loc, chain = where(e)
                r.end = "crash"
                r.crash = (type(e).__name__, loc, chain, str(e)[:200])
    finally:
        if WALL_LIMIT:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    r.trace, r.fired, r.world, r.ops = w.trace, w.fired, w, w.ops
    return r
