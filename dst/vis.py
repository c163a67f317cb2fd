"""Expected appearance: how LEDs of a switch are shared, and how colours look (written from the README, not from the code)."""
def segments(pixels, n, i):
    """LED indices of the i-th of n LED-using actions"""
    p = list(pixels)
    if n == 1: return p
    if n < len(p):
        first = len(p) - n + 1
        return p[:first] if i == 0 else [p[first + i - 1]]
    return [p[i]] if i < len(p) else []

def dim(c, f): return tuple(int(x * f) for x in c)

def led(c, b): return tuple(x * b for x in c)

def led_ok(got, want):
    """LED value against the exact colour times brightness (integers, cut off; brightness is kept as a single precision float)"""
    return got is not None and all(w - 1.001 <= g <= w + 0.001 for g, w in zip(got, want))

def text_color(back):
    return (255, 255, 255) if back is None or back[0] * 0.2126 + back[1] * 0.7151 + back[2] * 0.0721 < 140 else (0, 0, 0)

class Late:
    """Last stall that touched a moment: how much later than planned things may happen"""
    def __init__(self, res, plan):
        t0 = res.t0
        self.st = [(t0 + int(e["t"] * 1000), int(e["d"] * 1000)) for e in plan.get("events", []) if e["k"] == "stall"]
    def slack(self, a, b):
        """stall time (us) that can fall into [a, b]"""
        return sum(d for t, d in self.st if t <= b and t + d + 2000000 >= a)
