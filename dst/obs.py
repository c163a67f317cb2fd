"""Observation of a run: turns the raw trace into a screen, LED and command history (nothing in here knows the code under
test, only the simulated hardware)."""
from . import kemper, build
from .kemper import decode, split

BG = ("req", "reqs", "beacon")

class Screen:
    """Current state of display and LEDs while stepping through the trace."""
    def __init__(self, res):
        self.w = res.world
        self.lab = {}       # label idx -> name
        self.rec = {}       # rect idx -> (kind, name)
        names = [l["name"] for l in self.w.cfg.get("labels", [])]
        pos = {build.label_pos(i): n for i, n in enumerate(names)}
        for l in self.w.labels:
            for g in self.w.groups:
                if any(x is l for x in list.__iter__(g)):
                    ap = l.anchored_position
                    if ap and ap[0] == build.LABEL_W // 2 and (g.x, g.y) in pos:
                        self.lab[l.idx] = pos[(g.x, g.y)]
                    elif ap and ap[0] != build.LABEL_W // 2:
                        self.lab[l.idx] = "@note"
        nm = 0
        for r in self.w.rects:
            if (r.x0, r.y) in pos and r.width == build.LABEL_W and r.height == build.LABEL_H:
                self.rec[r.idx] = ("back", pos[(r.x0, r.y)])
            elif r.width == 4 and r.height == 4:
                self.rec[r.idx] = ("dot", None)
            else:
                self.rec[r.idx] = ("mark", nm); nm += 1
        self.text, self.tcol, self.back = {}, {}, {}
        self.led = []
        self.dot = None
        self.mark = {}          # index -> [x, color]
        self.shown = None       # index of the group shown first = main
        self.first = None

    def apply(self, e):
        k = e[1]
        if k == "led":
            self.led[e[2]] = e[3]; return ("led", e[2])
        if k == "txt":
            n = self.lab.get(e[2]); self.text[n] = e[3]; return ("txt", n)
        if k == "col":
            n = self.lab.get(e[2]); self.tcol[n] = e[3]; return ("col", n)
        if k == "fill":
            kind, n = self.rec[e[2]]
            if kind == "back": self.back[n] = e[3]
            elif kind == "dot": self.dot = e[3]
            else: self.mark.setdefault(n, [None, None])[1] = e[3]
            return (kind, n)
        if k == "rx":
            kind, n = self.rec[e[2]]
            self.mark.setdefault(n, [None, None])[0] = e[3]
            return (kind, n)
        if k == "npx":
            self.led = [(0, 0, 0)] * e[2]
        if k == "show":
            if self.first is None: self.first = e[2]
            self.shown = "main" if e[2] == self.first else "tuner"
            return ("show", self.shown)
        return None

class V:
    """One violation of a property."""
    def __init__(self, key, msg, t=None):
        self.key, self.msg, self.t = key, msg, t
    def __repr__(self):
        return "%s @%s: %s" % (self.key, None if self.t is None else "%.3f" % self.t, self.msg)

class Ctx:
    """Result of checking one run: violations, and how much was really decided."""
    def __init__(self, plan, res):
        self.plan, self.res = plan, res
        self.v = []
        self.n = {}
        self.sig = []
    def bad(self, key, msg, t=None):
        if len(self.v) < 40:
            self.v.append(V(key, msg, None if t is None else (t - self.res.t0) / 1000.0))
    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

def tx_messages(trace, port=None):
    """[(t, port, decoded, raw, index)]"""
    out = []
    for i, e in enumerate(trace):
        if e[1] == "tx" and (port is None or e[2] == port):
            for m in split(e[3]):
                out.append((e[0], e[2], decode(m), m, i))
    return out

def takes(trace):
    """Messages the application or its router took from the ports: [(t, port, decoded, raw, index)]"""
    return [(e[0], e[2], decode(e[3]), e[3], i) for i, e in enumerate(trace) if e[1] == "m" and e[3]]

def fmt(b):
    return bytes(b).hex(" ")
