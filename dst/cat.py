"""What the shipped mappings and actions are, on the wire (written from the Kemper MIDI documentation and the mapping names)."""
from . import kemper as K

# mapping factory -> address, how it is set: ("nrpn",) or ("cc", n), kind of its answers
MAPS = {
    "MAPPING_RIG_VOLUME": dict(addr=(4, 1), set=("nrpn", 4, 1)), "MAPPING_RIG_TRANSPOSE": dict(addr=(4, 4), set=("nrpn", 4, 4)),
    "MAPPING_AMP_STATE": dict(addr=(0x0a, 2), set=("nrpn", 0x0a, 2)), "MAPPING_AMP_GAIN": dict(addr=(0x0a, 4), set=("nrpn", 0x0a, 4)),
    "MAPPING_CABINET_STATE": dict(addr=(0x0c, 2), set=("nrpn", 0x0c, 2)),
    "MAPPING_MAIN_VOLUME": dict(addr=(0x7f, 0), set=("nrpn", 0x7f, 0)), "MAPPING_MONITOR_VOLUME": dict(addr=(0x7f, 2), set=("nrpn", 0x7f, 2)),
    "MAPPING_LOOPER_VOLUME": dict(addr=(0x7f, 52), set=("nrpn", 0x7f, 52)), "MAPPING_SPACE_INTENSITY": dict(addr=(0x7f, 36), set=("nrpn", 0x7f, 36)),
    "MAPPING_TEMPO_BPM": dict(addr=(4, 0), set=("nrpn", 4, 0)),
    "MAPPING_MORPH_BUTTON": dict(addr=(0, 0x0b), set=("cc", 80)), "MAPPING_MORPH_PEDAL": dict(addr=(0, 0x0b), set=("cc", 11)),
    "MAPPING_AMP_NAME": dict(addr=(0, 0x10), str=True, dep=True), "MAPPING_CABINET_NAME": dict(addr=(0, 0x20), str=True, dep=True),
    "MAPPING_WAH_PEDAL": dict(set=("cc", 1)), "MAPPING_VOLUME_PEDAL": dict(set=("cc", 7)), "MAPPING_PITCH_PEDAL": dict(set=("cc", 4)),
}
FREEZE = {"A": 0x6b, "B": 0x6c, "C": 0x6d, "D": 0x6e, "X": 0x6f, "MOD": 0x71, "DLY": 0x72, "REV": 0x73}

def slot_of(expr):
    """'$KemperEffectSlot.EFFECT_SLOT_ID_A' -> 'A'"""
    n = expr.split("EFFECT_SLOT_ID_")[1]
    return {"DLY_NO_SPILL": "DLYns", "REV_NO_SPILL": "REVns"}.get(n, n)

def mapping(x):
    """mapping expression of a plan -> dict or None"""
    if isinstance(x, str) and x.startswith("$"):
        n = x[1:].split("(")[0]
        if n in MAPS: return dict(MAPS[n], name=n)
    if isinstance(x, dict) and x.get("fn") in ("MAPPING_FREEZE", "MAPPING_DLY_REV_MIX", "MAPPING_ROTARY_SPEED"):
        s = slot_of(x["pos"][0])
        a = {"MAPPING_FREEZE": (0x7d, FREEZE.get(s, 0)), "MAPPING_DLY_REV_MIX": (K.SLOT_PAGE[s], 0x45), "MAPPING_ROTARY_SPEED": (K.SLOT_PAGE[s], 0x1e)}[x["fn"]]
        return dict(addr=a, set=("nrpn",) + a, name=x["fn"] + s)
    if isinstance(x, dict) and x.get("fn") == "MAPPING_EFFECT_BUTTON":
        return dict(set=("cc", 74 + x["pos"][0]), name="FXB%d" % x["pos"][0])
    return None

def walk(cfg):
    """All action expressions with their place: (input index, 'actions'|'hold', expr)"""
    for i, inp in enumerate(cfg.get("inputs", [])):
        for part in ("actions", "hold"):
            for a in inp.get(part, []):
                yield i, part, a

def set2(addr):
    return addr[0] in (0x32, 0x33, 0x34, 0x35, 0x38, 0x3a) and addr[1] in (0, 3) or addr in (K.RIG_NAME, K.TUNER_MODE, K.TUNER_NOTE, K.TUNER_DEV)

def polled(cfg):
    """-> ({addr: number of users}, {dependent string addr: users}) the configuration has to ask for"""
    pol, dep = {}, {}
    bi = bool(cfg.get("bidir"))
    def use(a):
        if not (bi and set2(a)): pol[a] = pol.get(a, 0) + 1
    def use_dep(a):
        if bi and set2(a): return
        dep[a] = dep.get(a, 0) + 1
        pol[K.RIG_DATE] = pol.get(K.RIG_DATE, 0) + 1
    for _, _, x in walk(cfg):
        f = x.get("fn")
        if f in ("EFFECT_STATE", "EFFECT_STATE_EXT"):
            s = slot_of(x["pos"][0])
            use((K.SLOT_PAGE[s], 0)); use((K.SLOT_PAGE[s], 3))
        elif f in ("BINARY_SWITCH", "PARAMETER_UP_DOWN", "EncoderAction"):
            m = mapping(x.get("args", {}).get("mapping") or x["pos"][0])
            if m and m.get("addr"): (use_dep if m.get("dep") else use)(tuple(m["addr"]))
    for l in cfg.get("labels", []):
        x = l.get("cb")
        if not x: continue
        if x["fn"] == "KemperRigNameCallback":
            if x.get("args", {}).get("show_name", True): use_dep(K.RIG_NAME)
        elif x["fn"] == "ParameterDisplayCallback":
            m = mapping(x["args"]["mapping"])
            if m and m.get("addr"): (use_dep if m.get("dep") else use)(tuple(m["addr"]))
    return pol, dep

# Effect types of the device: (name of the category, color), and the distinct names
_CATS = [("Wah", (255, 125, 0), [*range(1, 11), 12, 13]), ("Pitch", (255, 255, 255), [11, *range(129, 133)]), ("Dist", (255, 0, 0), range(17, 43)),
         ("Comp", (0, 255, 255), (49, 50)), ("Gate", (0, 255, 255), (57, 58)), ("Space", (0, 255, 0), (64,)), ("Chorus", (0, 0, 255), (65, 66, 67, 71)),
         ("Vibrato", (0, 0, 255), (68,)), ("Rotary", (0, 0, 255), (69,)), ("Tremolo", (0, 0, 255), (70, 75, 76)), ("Slicer", (0, 0, 255), range(77, 81)),
         ("Phaser", (180, 0, 120), range(81, 92)), ("EQ", (255, 255, 0), range(97, 105)), ("Boost", (255, 0, 0), range(113, 117)), ("Looper", (255, 125, 70), range(121, 124)),
         ("Dual", (100, 255, 100), range(138, 141)), ("Delay", (0, 255, 0), range(145, 167)), ("Reverb", (0, 255, 0), range(177, 194))]
EFFECTS = {t: (n, c) for n, c, ts in _CATS for t in ts}
NO_EFFECT = ("-", (50, 50, 50))
EFFECT_NAMES = {
    0: 'Empty', 1: 'Wah', 2: 'LP', 3: 'HP', 4: 'Vowel', 6: 'Wah Ph', 7: 'Wah Fl', 8: 'Wah RR', 9: 'Ring', 10: 'FShift', 11: 'Pitch', 12: 'Wah Form', 
    13: 'VinylStp', 17: 'Bit Shp', 18: 'Octa Shp', 19: 'Soft Shp', 20: 'Hard Shp', 21: 'Wave Shp', 32: 'KDrive', 33: 'Green', 34: 'Plus DS', 
    35: 'One DS', 36: 'Muff', 37: 'Mouse', 38: 'KFuzz', 39: 'Metal DS', 42: 'Full OC', 49: 'Comp', 50: 'Swell', 57: 'Gate 2:1', 58: 'Gate 4:1', 
    64: 'Space', 65: 'VChorus', 66: 'HChorus', 67: 'Air Ch.', 68: 'Vibrato', 69: 'Rotary', 70: 'Tremolo', 71: 'MPitch', 75: 'Tremolo', 76: 'HarmTrem', 
    77: 'Pulse', 78: 'Saw', 79: 'PulsePan', 80: 'SawPan', 81: 'Phaser', 82: 'Vibe', 83: 'Ph 1way', 89: 'Flanger', 90: 'Fl 1way', 97: 'Graphic', 
    98: 'StudioEQ', 99: 'MetalEQ', 100: 'Acoustic', 101: 'Wide', 102: 'WidePh', 103: 'WideDLY', 104: 'Double', 113: 'Treble', 114: 'Lead', 115: 'Boost', 
    116: 'WahBoost', 121: 'Loop', 122: 'Loop', 123: 'LoopDist', 129: 'Transp', 130: 'ChromPtch', 131: 'HarmPtch', 132: 'Octave', 137: 'DualChrom', 
    138: 'DualHarm', 139: 'DualCryst', 140: 'DualLoop', 145: 'LDelay', 146: 'SDelay', 147: 'DualDly', 148: '2TpDelay', 149: 'S2TDelay', 150: 'Crystal', 
    151: 'LoopPitch', 152: 'FShiftDly', 161: 'RhDelay', 162: 'MeloChr', 163: 'MeloHarm', 164: 'QuadDly', 165: 'QuadChrm', 166: 'QuadHarm', 
    177: 'LReverb', 178: 'NatRev', 179: 'EasyRev', 180: 'Echo', 181: 'Cirrus', 182: 'FormRev', 183: 'Sphere', 193: 'Spring', 
}
FIXED = [("Transpose", (255, 255, 255), 1), ("Gate", (100, 100, 255), 6), ("Comp", (0, 0, 255), 11), ("Boost", (255, 0, 0), 16), ("Wah", (255, 125, 0), 21), ("Chorus", (0, 0, 255), 26),
         ("Air", (0, 0, 255), 36), ("Doubler", (0, 0, 255), 41)]
