"""Shared pieces of the plan generators."""
from .build import fn, tup
from . import kemper

SLOT = ["$KemperEffectSlot.EFFECT_SLOT_ID_" + n for n in kemper.SLOT_CONST]
PINS = ["GP%d" % i for i in (1, 25, 24, 9, 10, 11, 16, 17, 18, 19, 20)]
EPINS = [("GP2", "GP3"), ("GP4", "GP5"), ("GP21", "GP22")]
APINS = ["GP27", "GP28", "GP26"]

def costs(r, slow=1.0):
    return {"read": int(r.choice([600, 1500, 3000, 4000]) * slow), "gpio": r.choice([10, 25, 80]), "led": r.choice([20, 60, 300]),
            "text": r.choice([300, 1500, 5000]), "fill": r.choice([100, 300, 1500]), "jit": r.choice([0, 0, 30, 100]), "jseed": r.randrange(1, 1 << 31)}

def base(r, dur, peer=True, port=None):
    p = {"dur": dur, "events": [], "faults": [], "cfg": {"config": {}, "labels": [], "inputs": [], "defs": [], "costs": costs(r)}}
    port = port or r.choice(["usb", "usb", "usb", "din"])
    p["cfg"]["routings"] = [[port, "app"], ["app", port]]
    p["cfg"][port + "_out"] = r.choice([0, 0, 0, 3, 15])
    if peer:
        p["peer"] = {"port": port, "lat": r.choice([1, 4, 4, 10, 25]), "rig": r.randrange(625), "seed": r.randrange(1 << 30), "sense_ms": r.choice([480, 500, 500, 520])}
    else:
        p["peer"] = None
    if r.random() < 0.3:
        p["cfg"]["config"]["updateInterval"] = r.choice([50, 100, 200, 300, 400])
    if r.random() < 0.2:
        p["cfg"]["config"]["maxConsecutiveMidiMessages"] = r.choice([0, 1, 3, 10, 30])
    return p

def interval(plan): return plan["cfg"]["config"].get("updateInterval", 200)

def label(p, name, **k):
    l = dict(name=name, **k)
    p["cfg"]["labels"].append(l)
    return "$" + name

def switch(p, actions, pixels=None, hold=None, opts=None, strobe=None):
    n = sum(1 for i in p["cfg"]["inputs"] if i["type"] == "switch")
    d = {"type": "switch", "pin": PINS[n], "pixels": list(pixels if pixels is not None else [3 * n, 3 * n + 1, 3 * n + 2]), "actions": actions}
    if hold is not None: d["hold"] = hold
    if opts: d["opts"] = opts
    if strobe is not None: d["strobe"] = strobe
    p["cfg"]["inputs"].append(d)
    return d["pin"]

def press(p, pin, t, d):
    p["events"] += [{"t": t, "k": "btn", "pin": pin, "v": 1}, {"t": t + d, "k": "btn", "pin": pin, "v": 0}]

def stalls(p, r, n, lo, hi, t0=0, t1=None):
    for _ in range(n):
        p["events"].append({"t": r.randrange(t0, t1 or p["dur"]), "k": "stall", "d": r.randrange(lo, hi)})

def window(r, dur, lo, hi):
    t = r.randrange(0, max(1, dur - lo))
    return t, t + r.randrange(lo, hi)

def fault(p, r, d, acts, cls=None, lo=300, hi=5000, t0=0, t1=None, arg=None, every=None):
    a, b = window(r, (t1 or p["dur"]) - t0, lo, hi)
    f = {"dir": d, "t0": t0 + a, "t1": t0 + b, "act": r.choice(acts), "every": every or r.choice([1, 1, 2, 3, 5]), "off": r.randrange(5)}
    if cls: f["cls"] = cls
    f["arg"] = arg if arg is not None else (r.choice([10, 80, 300, 1200]) if f["act"] in ("delay", "dup") else r.randrange(64))
    if f["act"] == "trunc" and r.random() < 0.5: f["end"] = True
    if f["act"] == "split": f["gap"] = r.choice([1, 5, 20, 200])
    p["faults"].append(f)
    return f

def done(p):
    p["events"].sort(key=lambda e: e["t"])
    return p
