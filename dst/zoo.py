"""Any configuration that can be built from the shipped actions (for properties that hold for all of them)."""
from . import gen as G, build
from .gen import fn, tup

NRPN = ["MAPPING_RIG_VOLUME", "MAPPING_AMP_STATE", "MAPPING_AMP_GAIN", "MAPPING_CABINET_STATE", "MAPPING_MAIN_VOLUME", "MAPPING_MONITOR_VOLUME", "MAPPING_LOOPER_VOLUME", "MAPPING_SPACE_INTENSITY", "MAPPING_RIG_TRANSPOSE"]
PEDAL = ["MAPPING_WAH_PEDAL", "MAPPING_VOLUME_PEDAL", "MAPPING_PITCH_PEDAL", "MAPPING_DELAY_MIX_PEDAL", "MAPPING_DELAY_FEEDBACK_PEDAL", "MAPPING_REVERB_MIX_PEDAL", "MAPPING_REVERB_TIME_PEDAL", "MAPPING_VOLUME_OUTPUT_PEDAL"]
MODES = ["ENABLE", "DISABLE", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY", "ONE_SHOT", "NO_STATE_CHANGE"]
SW = ["EFFECT_STATE"] * 3 + ["EFFECT_STATE_EXT", "RIG_SELECT", "RIG_SELECT", "BANK_SELECT", "BANK_SELECT", "BANK_UP", "BANK_DOWN", "RIG_UP", "RIG_DOWN", "TAP_TEMPO", "SHOW_TEMPO", "MORPH_BUTTON", "MORPH_DISPLAY", "RIG_SELECT_AND_MORPH_STATE",
     "TUNER_MODE", "RIG_VOLUME_BOOST", "EFFECT_BUTTON", "FIXED_EFFECT_STATE", "LOOPER", "BINARY_SWITCH", "BINARY_SWITCH", "CUSTOM_MESSAGE", "ENCODER_BUTTON", "DISPLAY_FIXED_TEXT", "HID_KEYBOARD", "PARAMETER_UP_DOWN", "PARAMETER_UP_DOWN", "ROTATING_MESSAGES", "BOOMERANG", "PAGER"]
DISP = ["$RIG_SELECT_DISPLAY_CURRENT_RIG", "$RIG_SELECT_DISPLAY_TARGET_RIG"]
for _d in DISP: build.FN[_d[1:]] = build.A + "rig_select"

def color(r): return r.choice([tup(255, 0, 0), tup(0, 255, 0), tup(255, 255, 255), tup(3, 100, 180), tup(r.randrange(256), r.randrange(256), r.randrange(256))])

def mapping(r): return r.choice(["$%s()" % r.choice(NRPN)] * 3 + [fn("MAPPING_FREEZE", r.choice(G.SLOT[:8])), fn("MAPPING_DLY_REV_MIX", r.choice(G.SLOT[:8])), fn("MAPPING_ROTARY_SPEED", r.choice(G.SLOT[:8])), fn("MAPPING_EFFECT_BUTTON", r.randrange(1, 5)), "$MAPPING_FREEZE_ALL_GLOBAL()",
                                 fn("ClientParameterMapping.get", name="own", set=fn("ControlChange", 90, 0), response=fn("ControlChange", 91, 0)), "$%s()" % r.choice(PEDAL)])

class Zoo:
    def __init__(self, r, p, bidir=True):
        """Fills p["cfg"] with labels, pagers, inputs"""
        self.r, self.p = r, p
        cfg = self.cfg = p["cfg"]
        if bidir and r.random() < 0.5: cfg["bidir"] = {"lease": r.choice([1, 2, 30]), "tuner": r.random() < 0.6}
        if r.random() < 0.4: cfg["dot"] = True
        if r.random() < 0.5:
            cfg["tuner"] = {k: v for k, v in (("strobe", r.random() < 0.6), ("strobe_dim", r.choice([0.05, 0.5, 1])), ("strobe_speed", r.choice([100, 1000, 5000])), ("strobe_max_fps", r.choice([10, 60, 150])), ("strobe_reverse", r.random() < 0.5), ("process_overridden_actions", r.random() < 0.5)) if r.random() < 0.6}
        self.labels = []
        for k in range(r.randrange(0, 9)):
            cb = None
            q = r.random()
            if q < 0.3: cb = fn("KemperRigNameCallback", **{n: v for n, v in (("show_name", r.random() < 0.5), ("show_rig_id", r.choice([True, False, "rig", "bank"]))) if r.random() < 0.5})
            elif q < 0.45: cb = fn("ParameterDisplayCallback", mapping="$%s()" % r.choice(NRPN + ["MAPPING_AMP_NAME", "MAPPING_CABINET_NAME", "MAPPING_RIG_COMMENT"]))
            l = dict(name="Z%d" % k)
            if cb: l["cb"] = cb
            elif r.random() < 0.4: l["text"] = r.choice(["hello", "", "two\nlines"])
            if r.random() < 0.2: l["wrap"] = r.choice([40, 100, 220])
            if r.random() < 0.2: l["color"] = (200, 0, 20)
            cfg["labels"].append(l); self.labels.append("$Z%d" % k)
        self.pagers = []
        for k in range(r.choice([0, 0, 1, 1, 2])):
            pages = [{"id": 10 * k + n + 1, "color": color(r), "text": "Page%d" % n} for n in range(r.randrange(1, 4))]
            arg = {}
            if r.random() < 0.3: arg["select_page"] = r.choice(pages)["id"]
            if r.random() < 0.4 and self.labels: arg["display"] = r.choice(self.labels)
            if r.random() < 0.2: arg["use_leds"] = False
            cfg["defs"].append({"name": "_pg%d" % k, "expr": fn("PagerAction", pages=pages, **arg)})
            self.pagers.append({"n": k, "pages": [q["id"] for q in pages], "used": False})
        self.encbtn = []
    def lab(self, q=0.5):
        return self.r.choice(self.labels) if self.labels and self.r.random() < q else None
    def common(self, arg, leds=True):
        r = self.r
        l = self.lab()
        if l: arg["display"] = l
        if leds and r.random() < 0.3: arg["use_leds"] = False
        if self.pagers and r.random() < 0.4:
            g = r.choice(self.pagers)
            arg["id"] = r.choice(g["pages"]); arg["enable_callback"] = "$_pg%d.enable_callback" % g["n"]
        elif r.random() < 0.1: arg["id"] = 7
        return arg
    def action(self):
        r = self.r
        n = r.choice(SW)
        a = {}
        C = self.common
        def opt(k, f, q=0.4):
            if r.random() < q: a[k] = f()
        mode = lambda: "$PushButtonAction." + r.choice(MODES)
        if n in ("EFFECT_STATE", "EFFECT_STATE_EXT"):
            opt("mode", mode); opt("show_slot_names", lambda: True); opt("text", lambda: "fx"); opt("color", lambda: color(r), 0.2)
            return fn(n, r.choice(G.SLOT), **C(a))
        if n == "RIG_SELECT":
            opt("rig_off", lambda: r.choice([1, 3, 5, "auto"])); opt("bank", lambda: r.choice([1, 2, 125, 126])); opt("display_mode", lambda: r.choice(DISP)); opt("color", lambda: color(r), 0.2)
            opt("color_callback", lambda: "$anycol", 0.1); opt("text_callback", lambda: "$anytext", 0.1); opt("text", lambda: "{bank}-{rig} n")
            opt("rig_btn_morph", lambda: True); opt("momentary_morph", lambda: True)
            if a.get("rig_off") == "auto": opt("auto_exclude_rigs", lambda: [1, 2])
            if "bank" in a and a.get("rig_off"): a["bank_off"] = r.choice([1, 5, "auto"])
            return fn(n, r.choice([1, 2, 3, 4, 5, 5, None]), **C(a))
        if n == "RIG_SELECT_AND_MORPH_STATE":
            opt("rig_off", lambda: r.choice([1, 3, 5, "auto"])); opt("bank", lambda: r.choice([1, 2, 125])); opt("display_mode", lambda: r.choice(DISP)); opt("morph_use_leds", lambda: False); opt("morph_display", lambda: self.lab(1)) if self.labels else None
            opt("rig_btn_morph", lambda: True); opt("momentary_morph", lambda: True); opt("morph_only_when_enabled", lambda: False)
            if "bank" in a and a.get("rig_off"): a["bank_off"] = r.choice([1, 5, "auto"])
            return fn(n, r.randrange(1, 6), **C(a))
        if n == "BANK_SELECT":
            opt("bank_off", lambda: r.choice([1, 3, 125])); opt("preselect", lambda: True); opt("display_mode", lambda: r.choice(DISP)); opt("color", lambda: color(r), 0.2)
            opt("color_callback", lambda: "$anycol", 0.1); opt("text_callback", lambda: "$anytext", 0.1); opt("text", lambda: "B{bank}")
            return fn(n, r.choice([1, 2, 3, 100, 125, 126]), **C(a))
        if n in ("BANK_UP", "BANK_DOWN"):
            opt("dim_factor", lambda: r.choice(["on", "off", 0.5])); opt("led_brightness", lambda: r.choice(["on", "off", 0.1])); opt("text", lambda: "{bank}"); opt("text_callback", lambda: "$anytext", 0.1); opt("color", lambda: color(r), 0.2)
            opt("color_callback", lambda: "$anycol", 0.1); opt("display_mode", lambda: r.choice(DISP)); opt("preselect", lambda: True); opt("max_bank", lambda: r.choice([1, 5, 125, 126]))
            return fn(n, **C(a))
        if n in ("RIG_UP", "RIG_DOWN"):
            opt("keep_bank", lambda: False); opt("display_mode", lambda: r.choice(DISP)); opt("color", lambda: color(r), 0.2); opt("color_callback", lambda: "$anycol", 0.1); opt("text_callback", lambda: "$anytext", 0.1); opt("text", lambda: "{bank}/{rig}")
            return fn(n, **C(a))
        if n == "TAP_TEMPO": return fn(n, **C(a))
        if n == "SHOW_TEMPO":
            opt("change_display", lambda: self.lab(1)) if self.labels else None
            opt("led_brightness", lambda: 0.3); opt("text", lambda: "T {bpm}")
            return fn(n, **C(a))
        if n == "MORPH_BUTTON": opt("color", lambda: r.choice([color(r), "kemper"])); return fn(n, **C(a))
        if n == "MORPH_DISPLAY": return fn(n, **C(a))
        if n == "TUNER_MODE": opt("mode", mode); return fn(n, **C(a))
        if n == "RIG_VOLUME_BOOST": opt("mode", mode); opt("remember_off_value", lambda: False); return fn(n, r.choice([0, 0.5, 0.625, 1.0]), **C(a))
        if n == "EFFECT_BUTTON": opt("use_internal_state", lambda: False); opt("text", lambda: "E"); return fn(n, r.randrange(1, 5), **C(a))
        if n == "FIXED_EFFECT_STATE": opt("mode", mode); return fn(n, r.randrange(8), **C(a))
        if n == "LOOPER": return fn("LOOPER_" + r.choice(["REC_PLAY_OVERDUB", "STOP", "ERASE", "CANCEL", "REVERSE", "TRIGGER", "HALF_SPEED"]), **C(a))
        if n == "BINARY_SWITCH":
            opt("mode", mode); opt("value_on", lambda: r.choice([1, 127])); opt("value_off", lambda: r.choice([0, 5, "auto"])); opt("comparison_mode", lambda: "$BinaryParameterCallback." + r.choice(["EQUAL", "GREATER", "LESS", "LESS_EQUAL", "NO_STATE_CHANGE"])); opt("reference_value", lambda: r.choice([0, 64, 16383]))
            opt("use_internal_state", lambda: True); opt("text", lambda: "bin"); opt("color", lambda: color(r)); opt("display_dim_factor_on", lambda: r.choice(["off", 1])); opt("led_brightness_off", lambda: r.choice(["on", 0]))
            return fn(n, mapping(r), **C(a))
        if n == "CUSTOM_MESSAGE": opt("message_release", lambda: [0xb0, 4, 0]); opt("text", lambda: "c"); return fn(n, message=r.choice([[0xb0, 4, 127], [0xc0, 4], [0xf0, 0, 0x20, 0x33, 1, 2, 0xf7], []]), **C(a))
        if n == "ENCODER_BUTTON":
            self.encbtn.append(1)
            nm = "_eb%d" % len(self.encbtn)
            x = C(a, False); x.pop("display", None)
            self.cfg["defs"].insert(len(self.cfg["defs"]), {"name": nm, "expr": fn(n, **x)})
            return "$" + nm
        if n == "DISPLAY_FIXED_TEXT": opt("back_color", lambda: color(r)); x = C(a, False); x.pop("use_leds", None); return fn(n, "fixed", **x)
        if n == "HID_KEYBOARD": opt("text", lambda: "k"); return fn(n, r.choice([4, [224, 6], tup(5)]), **C(a))
        if n == "PARAMETER_UP_DOWN":
            opt("repeat_interval_millis", lambda: r.choice([0, 50, 500])); opt("change_display", lambda: self.lab(1)) if self.labels else None
            opt("max_value", lambda: r.choice([10, 100, 127])); opt("text", lambda: "v{val}"); opt("preview_text_callback", lambda: "$anytext", 0.1)
            return fn(n, mapping(r), r.choice([1, -1, 20, -127]), **C(a))
        if n == "ROTATING_MESSAGES":
            k = r.randrange(1, 4)
            opt("messages_release", lambda: [[0xb0, 6, z] for z in range(k)]); opt("led_colors", lambda: [color(r) for _ in range(k)]); opt("texts", lambda: ["t%d" % z for z in range(k)])
            if "led_colors" in a: opt("display_colors", lambda: [color(r) for _ in range(k)])
            x = C(a)
            if "led_colors" not in a and "display" in x: del x["display"]
            return fn(n, messages=[[0xb0, 5, z] for z in range(k)], **x)
        if n == "BOOMERANG":
            return fn("BOOMERANG_" + r.choice(list(build.BOOM)), **C(a))
        g = [q for q in self.pagers if not q["used"]] if n == "PAGER" else []
        if g: g[0]["used"] = True; return "$_pg%d" % g[0]["n"]
        return fn("CUSTOM_MESSAGE", message=[0xb0, 3, 1])
    def encoder(self):
        r = self.r
        n = r.choice(["EncoderAction", "EncoderAction", "ENCODER_BPM", "ENCODER_BANK_SELECT", "ENCODER_RIG_TRANSPOSE", "AMP_GAIN"])
        a = {}
        l = self.lab(0.6)
        if l: a["preview_display"] = l
        if n != "ENCODER_BANK_SELECT" and self.encbtn and r.random() < 0.6:
            a["accept_action"] = "$_eb%d" % r.randrange(1, len(self.encbtn) + 1)
            if r.random() < 0.5: a["cancel_action"] = "$_eb%d" % r.randrange(1, len(self.encbtn) + 1)
        if n == "ENCODER_BANK_SELECT":
            if r.random() < 0.4: a["step_width"] = r.choice([0.5, 1])
            return fn(n, **a)
        if n == "EncoderAction":
            if r.random() < 0.4: a["step_width"] = r.choice([1, 0.3, 80, 500])
            if r.random() < 0.3: a["max_value"] = r.choice([1, 100])
            return fn(n, mapping(r), **a)
        return fn(n, **a)
    def fill(self, nsw=None, enc=True, pot=True):
        r, p = self.r, self.p
        for k in range(nsw if nsw is not None else r.randrange(1, 8)):
            acts = [self.action() for _ in range(r.choice([0, 1, 1, 1, 2, 3, 4, 5]))]
            hold = [self.action() for _ in range(r.choice([1, 2]))] if r.random() < 0.25 else None
            px = [3 * k, 3 * k + 1, 3 * k + 2][:r.choice([3, 3, 3, 3, 2, 1, 0])]
            opts = {}
            if hold and r.random() < 0.4: opts["holdRepeat"] = True
            if hold and r.random() < 0.4: opts["holdTimeMillis"] = r.choice([100, 300, 1500])
            G.switch(p, acts, pixels=px, hold=hold, opts=opts or None, strobe=k if r.random() < 0.7 else None)
        for g in self.pagers:
            if not g["used"]: G.switch(p, ["$_pg%d" % g["n"]])
        # a pager needs its own switch also if it is only used for conditions
        if enc:
            for k in range(r.choice([0, 0, 1, 2])):
                a, b = G.EPINS[k]
                self.cfg["inputs"].append({"type": "enc", "pin": a, "pin2": b, "actions": [self.encoder() for _ in range(r.choice([1, 1, 2]))]})
                self.cfg.setdefault("enc0", {})[a] = r.choice([0, -5, 30])
        if pot:
            for k in range(r.choice([0, 0, 1])):
                a = {}
                if r.random() < 0.5: a["auto_calibrate"] = True
                if self.labels and r.random() < 0.5: a["change_display"] = r.choice(self.labels)
                self.cfg["inputs"].append({"type": "pot", "pin": G.APINS[k], "actions": [fn("AnalogAction", "$%s()" % r.choice(PEDAL + NRPN), **a)]})
                self.cfg.setdefault("adc0", {})[G.APINS[k]] = r.randrange(65536)
        r.shuffle(self.cfg["inputs"])
    def play(self, t0=300, t1=None, dense=1.0):
        """Someone uses everything"""
        r, p = self.r, self.p
        t1 = t1 or p["dur"]
        for inp in self.cfg["inputs"]:
            t = r.randrange(t0, t0 + 1500)
            while t < t1:
                if inp["type"] == "switch":
                    d = r.choice([5, 60, 200, 700, 1500]); G.press(p, inp["pin"], t, d); t += d + r.choice([5, 50, 300, 1500, 4000]) / dense
                elif inp["type"] == "enc":
                    p["events"].append({"t": t, "k": "enc", "pin": inp["pin"], "d": r.choice([1, -1, 1, -1, 5, -40, 300])}); t += r.choice([3, 50, 400, 2000]) / dense
                else:
                    p["events"].append({"t": t, "k": "adc", "pin": inp["pin"], "v": r.randrange(65536)}); t += r.choice([10, 100, 700]) / dense
                t = round(t, 3)
