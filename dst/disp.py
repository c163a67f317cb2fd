"""Displays bound to device parameters: random configurations and how they have to look like for given values (P02, P04)."""
from . import gen as G, kemper as K, cat, vis
from .gen import fn, tup

GENERIC = ["MAPPING_AMP_STATE", "MAPPING_CABINET_STATE", "MAPPING_RIG_VOLUME", "MAPPING_AMP_GAIN", "MAPPING_MAIN_VOLUME", "MAPPING_RIG_TRANSPOSE", "MAPPING_MORPH_BUTTON", "MAPPING_LOOPER_VOLUME"]
COLS = [(255, 255, 255), (200, 100, 0), (0, 190, 80), (120, 0, 120), (90, 90, 200), (30, 60, 255)]
CMP = {"EQUAL": lambda v, r: v == r, "GREATER": lambda v, r: v > r, "GREATER_EQUAL": lambda v, r: v >= r, "LESS": lambda v, r: v < r, "LESS_EQUAL": lambda v, r: v <= r}

def make(r, p, bidir, n_sw=None):
    """Fills the configuration. p["x"]["items"]: what is displayed where."""
    cfg = p["cfg"]
    c = cfg["config"]
    x = p["x"]
    x["items"] = []
    x["cfg"] = {"on": 0.3, "off": 0.02, "don": 1, "doff": 0.2}
    for k, n, vs in (("on", "ledBrightnessOn", [0.2, 0.5, 1]), ("off", "ledBrightnessOff", [0, 0.1]), ("don", "displayDimFactorOn", [0.5, 0.8]), ("doff", "displayDimFactorOff", [0.1, 0.4])):
        if r.random() < 0.12: c[n] = x["cfg"][k] = r.choice(vs)
    if bidir: cfg["bidir"] = {"lease": 30, "tuner": r.random() < 0.7}
    slots = r.sample(K.SLOTS[:8], r.randrange(1, 5))
    gens = r.sample(GENERIC, r.randrange(1, 4))
    fixed = r.sample(range(8), r.randrange(1, 3))
    rot = r.choice(K.SLOTS[:8])
    nl = [0]
    def lab(**k):
        nl[0] += 1
        return "L%d" % nl[0], G.label(p, "L%d" % nl[0], **k)
    px = 0
    for k in range(n_sw or r.randrange(2, 7)):
        n_act = r.choice([1, 1, 1, 2, 3])
        acts, its = [], []
        for _ in range(n_act):
            it = {"led": None, "lab": None}
            arg = {}
            if r.random() < 0.75 and nl[0] < 30:
                it["lab"], arg["display"] = lab()
            arg["mode"] = "$PushButtonAction." + r.choice(["LATCH", "HOLD_MOMENTARY", "MOMENTARY", "ENABLE", "DISABLE", "MOMENTARY_INVERSE"] if r.random() < 0.5 else ["LATCH"])
            if r.random() < 0.12: arg["use_leds"] = False; it["noled"] = True
            q = r.random()
            if q < 0.5:
                s = r.choice(slots)
                it.update(k="eff", s=s, a=[[K.SLOT_PAGE[s], 0], [K.SLOT_PAGE[s], 3]], ext=r.random() < 0.35, text=None, col=None, names=r.random() < 0.25)
                if it["names"]: arg["show_slot_names"] = True
                if r.random() < 0.12: it["text"] = arg["text"] = "Fx" + s
                if r.random() < 0.12: it["col"] = list(r.choice(COLS)); arg["color"] = tup(*it["col"])
                e = fn("EFFECT_STATE_EXT" if it["ext"] else "EFFECT_STATE", "$KemperEffectSlot.EFFECT_SLOT_ID_" + s, **arg)
            elif q < 0.65:
                j = r.choice(fixed)
                nm, col, a = cat.FIXED[j]
                it.update(k="bin", a=[[5, a]], text=nm, col=list(col), cmp="GREATER_EQUAL", ref=1, max=1)
                e = fn("FIXED_EFFECT_STATE", j, **arg)
            elif q < 0.72:
                v = r.choice([0.55, 0.75, 1])
                it.update(k="bin", a=[[4, 1]], text="RigBoost", col=[255, 125, 70], cmp="GREATER_EQUAL", ref=int(16383 * v), max=16383)
                if r.random() < 0.5: arg["remember_off_value"] = False
                e = fn("RIG_VOLUME_BOOST", v, **arg)
            else:
                if r.random() < 0.2: m, a = fn("MAPPING_ROTARY_SPEED", "$KemperEffectSlot.EFFECT_SLOT_ID_" + rot), [K.SLOT_PAGE[rot], 0x1e]
                elif r.random() < 0.2: m, a = fn("MAPPING_FREEZE", "$KemperEffectSlot.EFFECT_SLOT_ID_" + rot), [0x7d, cat.FREEZE[rot]]
                else:
                    g = r.choice(gens)
                    m, a = "$%s()" % g, list(cat.MAPS[g]["addr"])
                col = r.choice(COLS)
                it.update(k="bin", a=[a], text=r.choice(["One", "two", "3"]), col=list(col), cmp="GREATER_EQUAL", ref=1, max=1)
                arg.update(color=tup(*col), text=it["text"])
                if r.random() < 0.4:
                    on, off = r.choice([(1, 0), (0, 1), (64, 3), (100, 20), (127, 0)])
                    it["cmp"] = r.choice(list(CMP))
                    arg.update(value_on=on, value_off=off, comparison_mode="$BinaryParameterCallback." + it["cmp"])
                    it["ref"] = on
                    if r.random() < 0.4: it["ref"] = arg["reference_value"] = r.choice([1, 10, 64, 127])
                    it["max"] = 127
                if r.random() < 0.25:
                    for n, kk, vs in (("led_brightness_on", "bon", [0.1, 1, "off"]), ("led_brightness_off", "boff", [0, 0.2, "on"]), ("display_dim_factor_on", "don", [0.7, "off"]), ("display_dim_factor_off", "doff", [0, "on"])):
                        if r.random() < 0.5: it[kk] = arg[n] = r.choice(vs)
                e = fn("BINARY_SWITCH", mapping=m, **arg)
            acts.append(e); its.append(it)
        npx = max(1, sum("noled" not in i for i in its)) + r.choice([0, 0, 2])
        pix = list(range(px, px + npx)); px += npx
        n = sum("noled" not in i for i in its); j = 0
        for it in its:
            if "noled" in it: continue
            it["led"] = vis.segments(pix, n, j); j += 1
        for it in its: it["pin"] = G.PINS[k]; x["items"].append(it)
        G.switch(p, acts, pixels=pix)
    names = r.random() < 0.2
    if names: p["peer"]["lat"] = r.choice([1, 1, 4])
    for _ in range(r.randrange(4, 9) if names else r.randrange(0, 5)):
        q = r.random() if not names else r.choice([0.2, 0.6, 0.9, 0.9])
        it = {"led": None}
        if q < 0.45:
            z = r.choice(gens + ["slot"])
            if z == "slot":
                s, j = r.choice(slots), r.choice([0, 3])
                m, a = fn("KemperMappings.EFFECT_" + ("STATE" if j else "TYPE"), "$KemperEffectSlot.EFFECT_SLOT_ID_" + s), [K.SLOT_PAGE[s], j]
            else: m, a = "$%s()" % z, list(cat.MAPS[z]["addr"])
            it.update(k="par", a=[a], conv=r.random() < 0.3, dflt=r.choice(["", "", "none"]), max=127)
            arg = {"mapping": m}
            if it["conv"]: arg["convert_value"] = "$conv"
            if it["dflt"]: arg["default_text"] = it["dflt"]
            it["lab"], _n = lab(back=False, cb=fn("ParameterDisplayCallback", **arg))
        elif q < 0.85:
            it.update(k="rig", a=[], name=r.random() < 0.8, id=r.choice([False, True, True, "rig", "bank"]))
            if not it["name"] and not it["id"]: it["id"] = True
            it["lab"], _n = lab(back=False, cb=fn("KemperRigNameCallback", show_name=it["name"], show_rig_id=it["id"]))
        else:
            n = r.choice(["AMP", "CABINET"])
            it.update(k="str", a=[[0, 0x10 if n == "AMP" else 0x20]])
            it["lab"], _n = lab(back=False, cb=fn("ParameterDisplayCallback", mapping="$MAPPING_%s_NAME()" % n))
        x["items"].append(it)
    return slots, gens

def params(p):
    """all numeric parameters displayed: {addr: max value}"""
    out = {}
    for it in p["x"]["items"]:
        for a in it["a"]:
            if it["k"] == "str": continue
            m = 200 if it["k"] == "eff" and a[1] == 0 else 1 if it["k"] == "eff" else it.get("max", 127)
            out[tuple(a)] = max(out.get(tuple(a), 0), m)
    # what is a slot's address in one item can be a plain value in another
    for a in out:
        if a[0] in K.SLOT_PAGE.values() and a[1] in (0, 3): out[a] = 200 if a[1] == 0 else 1
    return out

def value(r, a, m):
    """A value worth showing"""
    if m == 200: return r.choice([0, 0, 14, 43, 128, 133, 144, 200, 300, *cat.EFFECTS])
    if m == 1: return r.randrange(2)
    return r.choice([0, 1, 3, 10, 20, 63, 64, 65, 100, 126, 127] if m == 127 else [0, 1, 8191, 9010, 9011, 12286, 12287, 12288, 16382, 16383, r.randrange(16384)])

def look(it, conf, val, st=None):
    """Appearance {led, back, text, tcol} of an item; val(addr) -> value or None if unknown. Keys missing: not decided."""
    out = {}
    k = it["k"]
    if k == "eff":
        t, s = val(tuple(it["a"][0])), val(tuple(it["a"][1]))
        nm, col = cat.EFFECTS.get(t, cat.NO_EFFECT)
        none = t not in cat.EFFECTS
        if it["ext"]: nm = cat.EFFECT_NAMES.get(t, nm)
        if it["names"]: nm = it["s"] + " " + nm
        on = not none and s is not None and s >= 1
        out["text"] = it["text"] or nm
        if t in (90, 91, 137) and not it["text"]: del out["text"]
        col = it["col"] or col
    elif k == "bin":
        v = val(tuple(it["a"][0]))
        on = v is not None and CMP[it["cmp"]](v, it["ref"])
        col = it["col"]
        out["text"] = it["text"]
    elif k == "par":
        v = val(tuple(it["a"][0]))
        out["text"] = "v=%s" % v if it["conv"] else str(v) if v is not None else it["dflt"]
        return out
    elif k == "str":
        v = st(tuple(it["a"][0]))
        out["text"] = v if v is not None else ""
        return out
    else: return {}
    b = it.get("bon" if on else "boff", conf["on" if on else "off"])
    b = conf["off"] if b == "off" else conf["on"] if b == "on" else b
    d = it.get("don" if on else "doff", conf["don" if on else "doff"])
    d = conf["doff"] if d == "off" else conf["don"] if d == "on" else d
    out["led"] = vis.led(col, b)
    out["back"] = vis.dim(col, d)
    out["on"] = on
    return out

def rig_text(it, rig, name):
    b, n = rig // K.PER_BANK + 1, rig % K.PER_BANK + 1
    i = {True: "%d-%d" % (b, n), "rig": str(n), "bank": str(b), False: None}[it["id"]]
    return " ".join(z for z in (i, name if it["name"] else None) if z is not None)

def differs(scr, it, want):
    """None, or what is shown instead"""
    if "led" in want and it["led"]:
        for i in it["led"]:
            if i >= len(scr.led) or not vis.led_ok(scr.led[i], want["led"]): return "LED %d is %s, expected %s" % (i, scr.led[i] if i < len(scr.led) else None, want["led"])
    if it.get("lab"):
        if "back" in want and scr.back.get(it["lab"]) != want["back"]: return "background of %s is %s, expected %s" % (it["lab"], scr.back.get(it["lab"]), want["back"])
        if "text" in want and (scr.text.get(it["lab"]) or "") != want["text"]: return "label %s shows %r, expected %r" % (it["lab"], scr.text.get(it["lab"]), want["text"])
        if "back" in want and scr.tcol.get(it["lab"]) not in (None, vis.text_color(want["back"])): return "text colour of %s is %s on %s" % (it["lab"], scr.tcol.get(it["lab"]), want["back"])
    return None
