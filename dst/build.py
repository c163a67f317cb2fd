"""Turns the structured configuration of a plan into the user's modules (config, communication, display, inputs)."""
from . import core, kemper

A = "pyswitch.clients.kemper.actions."
LA = "pyswitch.clients.local.actions."
FN = {}
def _r(mod, *names):
    for n in names: FN[n] = mod
_r(A + "effect_state", "EFFECT_STATE"); _r(A + "effect_state_extended_names", "EFFECT_STATE_EXT")
_r(A + "rig_select", "RIG_SELECT"); _r(A + "bank_select", "BANK_SELECT")
_r(A + "bank_up_down", "BANK_UP", "BANK_DOWN"); _r(A + "rig_up_down", "RIG_UP", "RIG_DOWN")
_r(A + "bank_select_encoder", "ENCODER_BANK_SELECT")
_r(A + "tempo", "TAP_TEMPO", "SHOW_TEMPO"); _r(A + "tempo_bpm", "ENCODER_BPM")
_r(A + "morph", "MORPH_BUTTON", "MORPH_DISPLAY"); _r(A + "rig_select_and_morph_state", "RIG_SELECT_AND_MORPH_STATE")
_r(A + "tuner", "TUNER_MODE"); _r(A + "amp", "AMP_GAIN"); _r(A + "rig_volume_boost", "RIG_VOLUME_BOOST")
_r(A + "rig_transpose", "ENCODER_RIG_TRANSPOSE"); _r(A + "effect_button", "EFFECT_BUTTON")
_r(A + "fixed_fx", "FIXED_EFFECT_STATE")
_r(A + "looper", "LOOPER_REC_PLAY_OVERDUB", "LOOPER_STOP", "LOOPER_ERASE", "LOOPER_CANCEL", "LOOPER_REVERSE", "LOOPER_TRIGGER", "LOOPER_HALF_SPEED")
_r(LA + "binary_switch", "BINARY_SWITCH"); _r(LA + "custom", "CUSTOM_MESSAGE"); _r(LA + "encoder_button", "ENCODER_BUTTON")
_r(LA + "fixed_text", "DISPLAY_FIXED_TEXT"); _r(LA + "hid", "HID_KEYBOARD"); _r(LA + "pager", "PagerAction")
_r(LA + "param_change", "PARAMETER_UP_DOWN"); _r(LA + "rotate", "ROTATING_MESSAGES")
BOOM = {"PLAY_STOP_ALL": (17, 25, (0, 255, 0), "PlayStp"), "SYNC_SERIAL": (43, 65, (255, 255, 0), "SyncSerial"), "MUTE_THRU": (3, 8, (180, 0, 120), "MuteThru"), "PANIC": (11, 40, (255, 0, 0), "PANIC"),
        "ERASE": (16, 61, (255, 0, 0), "ERASE"), "ERASE_ALL": (28, 35, (255, 0, 0), "ERASEALL"), "STACK": (15, 23, (255, 255, 0), "Stack"), "COPY": (1, 4, (0, 0, 255), "Copy"),
        "FADE": (21, 32, (100, 100, 255), "Fade"), "OCTAVE": (2, 49, (255, 255, 255), "Octave"), "ONCE": (10, 18, (100, 255, 100), "Once"), "REVERSE": (47, 56, (64, 242, 208), "Reverse")}
_r("pyswitch.clients.boomerang.actions.boomerang", *("BOOMERANG_" + k for k in BOOM))
_r("pyswitch.controller.actions", "PushButtonAction", "Action")
_r("pyswitch.controller.actions.AnalogAction", "AnalogAction")
_r("pyswitch.controller.actions.EncoderAction", "EncoderAction")
_r("pyswitch.controller.callbacks", "BinaryParameterCallback", "Callback")
_r("pyswitch.controller.callbacks.parameter_display", "ParameterDisplayCallback")
_r("pyswitch.controller.client", "ClientParameterMapping", "ClientTwoPartParameterMapping")
_r("pyswitch.clients.kemper", "KemperNRPNMessage", "KemperRigNameCallback", "TunerDisplayCallback", "KemperMappings", "KemperEffectSlot", "NRPN_VALUE")
M = "pyswitch.clients.kemper.mappings."
_r(M + "rig", "MAPPING_RIG_VOLUME", "MAPPING_RIG_TRANSPOSE", "MAPPING_RIG_COMMENT"); _r(M + "amp", "MAPPING_AMP_GAIN", "MAPPING_AMP_NAME", "MAPPING_AMP_STATE")
_r(M + "cabinet", "MAPPING_CABINET_NAME", "MAPPING_CABINET_STATE"); _r(M + "effects", "MAPPING_DLY_REV_MIX", "MAPPING_EFFECT_BUTTON")
_r(M + "freeze", "MAPPING_FREEZE", "MAPPING_FREEZE_ALL_GLOBAL"); _r(M + "morph", "MAPPING_MORPH_BUTTON", "MAPPING_MORPH_PEDAL")
_r(M + "pedals", "MAPPING_WAH_PEDAL", "MAPPING_VOLUME_PEDAL", "MAPPING_PITCH_PEDAL", "MAPPING_DELAY_MIX_PEDAL", "MAPPING_DELAY_FEEDBACK_PEDAL", "MAPPING_REVERB_MIX_PEDAL", "MAPPING_REVERB_TIME_PEDAL", "MAPPING_VOLUME_OUTPUT_PEDAL")
_r(M + "bank", "MAPPING_NEXT_BANK", "MAPPING_PREVIOUS_BANK")
_r("pyswitch.clients.local.mappings.generic", "MAPPING_SEND_PROGRAM_CHANGE")
_r(M + "rotary", "MAPPING_ROTARY_SPEED"); _r(M + "select", "MAPPING_RIG_SELECT", "MAPPING_BANK_SELECT")
_r(M + "system", "MAPPING_MAIN_VOLUME", "MAPPING_MONITOR_VOLUME", "MAPPING_LOOPER_VOLUME", "MAPPING_SPACE_INTENSITY")
_r(M + "tempo", "MAPPING_TAP_TEMPO", "MAPPING_TEMPO_DISPLAY"); _r(M + "tempo_bpm", "MAPPING_TEMPO_BPM")
_r("adafruit_midi.control_change", "ControlChange"); _r("adafruit_midi.system_exclusive", "SystemExclusive")
_r("adafruit_midi.program_change", "ProgramChange")

# What a user would write as own code: a condition for actions, and an observer of the update rounds
USERCODE = """
from pyswitch.controller.callbacks import Callback
class Cond(Callback):
    def __init__(self, mapping, ref, inv = False):
        super().__init__(mappings = [mapping])
        self.mapping = mapping
        self.ref = ref
        self.inv = inv
    def enabled(self, action):
        return self.mapping.value is not None and (self.mapping.value >= self.ref) != self.inv
class Beat(Callback):
    def __init__(self):
        super().__init__()
        self.n = 0
        self.label = None
    def update_label(self, label):
        self.label = label
        label.text = str(self.n)
    def update(self):
        super().update()
        self.n += 1
        if self.label: self.label.text = str(self.n)
class BeatAct(Callback):
    def __init__(self):
        super().__init__()
        self.n = 0
    def update_displays(self):
        pass
    def push(self):
        pass
    def release(self):
        pass
    def update(self):
        super().update()
        self.n += 1
        self.action.label.text = str(self.n)
"""
USERCODE += """
def conv(value):
    return "v=" + str(value)
"""
USERCODE += """
def curve(value):
    return (value // 1024) * 2 + 1
"""
USERCODE += """
def anycol(*args):
    return (10, 200, 30)
def anytext(*args):
    return "own" + str(len(args))
"""
for _n in ("Cond", "Beat", "BeatAct", "conv", "curve", "anycol", "anytext"): FN[_n] = "usercode"

class Names:
    def __init__(self): self.used = set()
    def expr(self, x):
        """JSON expression -> Python source"""
        if isinstance(x, dict):
            if "tup" in x:
                return self.expr(tuple(x["tup"]))
            if "fn" in x:
                n = x["fn"]
                self.use(n)
                parts = [self.expr(v) for v in x.get("pos", [])] + ["%s=%s" % (k, self.expr(v)) for k, v in x.get("args", {}).items()]
                return "%s(%s)" % (n, ", ".join(parts))
            return "{" + ", ".join("%r: %s" % (k, self.expr(v)) for k, v in x.items()) + "}"
        if isinstance(x, list):
            return "[" + ", ".join(self.expr(v) for v in x) + "]"
        if isinstance(x, tuple):
            return "(" + "".join(self.expr(v) + "," for v in x) + ")"
        if isinstance(x, str) and x.startswith("$"):
            head = x[1:].split("(")[0].split(".")[0]
            self.use(head)
            return x[1:]
        return repr(x)
    def use(self, n):
        head = n.split(".")[0]
        if head in FN: self.used.add(head)
    def imports(self):
        return "".join("from %s import %s\n" % (FN[n], n) for n in sorted(self.used))

LABEL_W, LABEL_H = 60, 20

def label_pos(i):
    return (i % 4) * LABEL_W, (i // 4) * LABEL_H

def render(cfg):
    """cfg -> dict of user module sources"""
    out = {}
    conf = dict(cfg.get("config", {}))
    n = Names()
    out["config"] = "%s\nConfig = %s\n" % ("", n.expr(conf))
    out["config"] = n.imports() + out["config"]
    # communication
    ports = {"usb": "_USB", "din": "_DIN"}
    rout = cfg.get("routings") or [["usb", "app"], ["app", "usb"]]
    used = {p for r in rout for p in r if p != "app"}
    src = "from pyswitch.controller.midi import MidiRouting\n"
    if "usb" in used:
        src += "from pyswitch.hardware.devices.pa_midicaptain import PA_MIDICAPTAIN_USB_MIDI\n_USB = PA_MIDICAPTAIN_USB_MIDI(in_channel=%r, out_channel=%r)\n" % (
            cfg.get("usb_in", None), cfg.get("usb_out", 0))
    if "din" in used:
        src += "from pyswitch.hardware.devices.pa_midicaptain import PA_MIDICAPTAIN_DIN_MIDI\n_DIN = PA_MIDICAPTAIN_DIN_MIDI(in_channel=%r, out_channel=%r)\n" % (
            cfg.get("din_in", None), cfg.get("din_out", 0))
    def end(p): return "MidiRouting.APPLICATION" if p == "app" else ports[p]
    bi = cfg.get("bidir")
    if bi:
        src += "from pyswitch.clients.kemper import KemperBidirectionalProtocol\n"
    src += "Communication = {\n"
    if bi:
        src += "  'protocol': KemperBidirectionalProtocol(time_lease_seconds=%r, tuner_mode=%r),\n" % (bi.get("lease", 30), bi.get("tuner", True))
    src += "  'midi': {'routings': [\n" + "".join("    MidiRouting(source=%s, target=%s),\n" % (end(a), end(b)) for a, b in rout) + "  ]}\n}\n"
    out["communication"] = src
    # display
    n = Names()
    body, kids = "", []
    for i, l in enumerate(cfg.get("labels", [])):
        x, y = label_pos(i)
        lay = {"font": "/fonts/H20.pcf"}
        if l.get("back", True):
            lay["backColor"] = tuple(l.get("back_color", (50, 50, 50)))
        if "text" in l: lay["text"] = l["text"]
        if "color" in l: lay["textColor"] = tuple(l["color"])
        if l.get("wrap"): lay["maxTextWidth"] = l["wrap"]
        cb = ", callback=%s" % n.expr(l["cb"]) if l.get("cb") else ""
        body += "%s = DisplayLabel(layout=%r, bounds=DisplayBounds(x=%d, y=%d, w=%d, h=%d)%s)\n" % (l["name"], lay, x, y, LABEL_W, LABEL_H, cb)
        if l.get("cb") and l["cb"].get("fn") == "Beat": body += "%s.callback.label = %s\n" % (l["name"], l["name"])
        kids.append(l["name"])
    if cfg.get("dot"):
        kids.append("BidirectionalProtocolState(DisplayBounds(0, 200, 240, 40))")
    root = "DisplayElement(bounds=DisplayBounds(0, 0, 240, 240), children=[%s])" % ", ".join(kids)
    t = cfg.get("tuner")
    if t is not None:
        n.use("TunerDisplayCallback")
        body += "Splashes = TunerDisplayCallback(splash_default=%s%s)\n" % (root, "".join(", %s=%s" % (k, n.expr(v)) for k, v in t.items()))
    else:
        body += "from pyswitch.clients.local.callbacks.splashes import SplashesCallback\nSplashes = SplashesCallback(%s)\n" % root
    out["display"] = ("from pyswitch.ui.ui import DisplayElement, DisplayBounds\n"
                      "from pyswitch.ui.elements import DisplayLabel, BidirectionalProtocolState\n" + n.imports() + body)
    # inputs
    n = Names()
    body = ""
    for d in cfg.get("defs", []):
        body += "%s = %s\n" % (d["name"], n.expr(d["expr"]))
    body += "Inputs = [\n"
    for inp in cfg.get("inputs", []):
        if inp["type"] == "switch":
            asg = "{'model': AdafruitSwitch(board.%s)%s%s}" % (inp["pin"],
                ", 'pixels': %r" % (tuple(inp["pixels"]),) if inp.get("pixels") else "",
                ", 'strobeOrder': %d" % inp["strobe"] if "strobe" in inp else "")
        elif inp["type"] == "pot":
            asg = "{'model': AdafruitPotentiometer(board.%s)}" % inp["pin"]
        else:
            asg = "{'model': AdafruitEncoder(board.%s, board.%s, divisor=%d)}" % (inp["pin"], inp["pin2"], inp.get("divisor", 2))
        body += "  {'assignment': %s,\n   'actions': %s" % (asg, n.expr(inp.get("actions", [])))
        if "hold" in inp:
            body += ",\n   'actionsHold': %s" % n.expr(inp["hold"])
        for k, v in inp.get("opts", {}).items():
            body += ",\n   %r: %r" % (k, v)
        body += "},\n"
    body += "]\n"
    out["inputs"] = ("import board\nfrom pyswitch.hardware.adafruit.AdafruitSwitch import AdafruitSwitch\n"
                     "from pyswitch.hardware.adafruit.AdafruitEncoder import AdafruitEncoder\n"
                     "from pyswitch.hardware.adafruit.AdafruitPotentiometer import AdafruitPotentiometer\n"
                     "from pyswitch.colors import Colors\nfrom display import *\n" + n.imports() + body)
    if any("from usercode" in v for v in out.values()): out["usercode"] = USERCODE
    for k, v in cfg.get("modules", {}).items():
        out[k] = v
    return out

def tup(*v):
    return {"tup": list(v)}

def fn(name, /, *pos, **args):
    d = {"fn": name}
    if pos: d["pos"] = list(pos)
    if args: d["args"] = args
    return d

def setup(plan):
    """Returns the setup function for core.execute: attaches the peer and schedules all events."""
    def do(w):
        cfg = plan["cfg"]
        for pin, v in cfg.get("adc0", {}).items(): w.adc[pin] = v
        for pin, v in cfg.get("enc0", {}).items(): w.enc[pin] = v
        for pin in cfg.get("pressed0", ()): w.pins[pin] = True
        faults = plan.get("faults", [])
        peer = plan.get("peer")
        kem = None
        if peer is not None:
            kem = kemper.Kemper(w, peer.get("port", "usb"), peer, faults)
            w.peer = kem
            w.ports[kem.port].out_hook = kem.on_wire
        # raw bytes waiting in the buffers at start
        for q in plan.get("backlog", []):
            w.ports[q["port"]].feed(bytes.fromhex(q["hex"]))
        links = {p: kemper.Link(w, "raw_" + p, w.ports[p].feed, faults, 0) for p in w.ports}
        def ev(e):
            k = e["k"]
            if k == "btn":
                w.pins[e["pin"]] = bool(e["v"])
                w.log("ev", "btn", e["pin"], bool(e["v"]))
            elif k == "adc":
                w.adc[e["pin"]] = e["v"]
            elif k == "enc":
                w.enc[e["pin"]] = w.enc.get(e["pin"], 0) + e["d"]
            elif k == "stall":
                w.stall += int(e["d"] * 1000)
            elif k == "raw":
                links[e["port"]].send(bytes.fromhex(e["hex"]))
            elif k == "hid":
                w.hid_fail = bool(e["v"])
            elif k == "frag":
                w.frag = e["v"]
            elif k == "mem":
                w.mem = e["v"]
            elif k[0] == "d":
                kem.event(e)
            else:
                raise core.HarnessError("unknown event " + k)
        # a simple device that reports what has been set (or something else)
        for q in plan.get("echo", []):
            def on_wire(_name, raw, q=q, pt=w.ports[q["port"]], old=w.ports[q["port"]].out_hook):
                if old: old(_name, raw)
                for m in kemper.split(raw):
                    d = kemper.decode(m)
                    v = None
                    if d[0] == "cc" and d[1] in (q["n"], q["off"]): v = d[2]
                    elif d[0] == "val" and d[1:3] == (0x60, q["j"]): v = d[3]
                    if v is None: continue
                    if q["fix"] is not None: v = q["fix"]
                    a = kemper.single(0x60, q["j"], v) if q["kind"] == "nrpn" else kemper.cc(40 + q["j"], v)
                    w.at(w.t + q["lat"] * 1000, lambda a=a: links[q["port"]].send(a))
            w.ports[q["port"]].out_hook = on_wire
        for e in plan.get("events", []):
            w.at(w.t0 + int(e["t"] * 1000), lambda e=e: ev(e))
        return render(cfg)
    return do

def run(plan):
    return core.execute(plan, setup(plan))
