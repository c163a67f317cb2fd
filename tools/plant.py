#!/usr/bin/env python3
"""plant.py SPEC.py [IDS] - creates /verif/seeded/<id>/ from a specification and confirms it in a scratch copy (development tool).
SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo=source of demo.py)]."""
import sys, os, subprocess, json, shutil, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["VERIF_REPO"] = os.getcwd()
import sim.core as core, sim.build as build, sim.gen as G, sim.kemper as K, sim.obs as obs
from sim.build import fn, tup
import random
def plan(dur, peer=True, port="usb", seed=1):
    p = G.base(random.Random(seed), dur, peer, port)
    p["cfg"]["config"] = {}
    p["cfg"]["costs"] = {"read": 1500, "gpio": 25, "led": 60, "text": 1500, "fill": 300, "jit": 0}
    p["cfg"][port + "_out"] = 0
    if p["peer"]: p["peer"].update({"lat": 4, "rig": 0, "seed": 5, "sense_ms": 500})
    return p
def run(p):
    G.done(p)
    r = build.run(p)
    assert not r.crash, r.crash
    assert not r.hang, r.hang
    return r
def tx(r, kind=None):
    return [((t - r.t0) / 1000, d) for t, _, d, _, _ in obs.tx_messages(r.trace) if kind is None or d[0] in (kind if isinstance(kind, tuple) else (kind,))]
def screen(r, until=None):
    s = obs.Screen(r)
    for e in r.trace:
        if until is not None and e[0] - r.t0 > until * 1000: break
        s.apply(e)
    return s
'''
HEAD_JS = r'''"use strict";
const fs = require("fs"), vm = require("vm"), assert = require("assert");
const q = []; let now = 0, seq = 0;
function at(t, fn) { q.push({ t: Math.max(now, t), n: seq++, fn, dead: false }); return q[q.length - 1]; }
const sleep = ms => new Promise(r => at(now + ms, r));
async function play(until) {
    for (;;) {
        await new Promise(r => setImmediate(r));
        q.sort((a, b) => a.t - b.t || a.n - b.n);
        if (!q.length || q[0].t > until) return;
        const e = q.shift(); if (e.dead) continue;
        now = e.t; e.fn();
    }
}
process.on("unhandledRejection", () => {});
function context(seed) {
    const c = vm.createContext({ console: { log() {}, info() {}, error() {}, warn() {} }, TextEncoder, TextDecoder, Uint8Array, navigator: {},
        crypto: { getRandomValues: a => { for (let i = 0; i < a.length; ++i) a[i] = (seed * 7919 + seq++ * 31) & 255; return a; } },
        setTimeout: (fn, ms) => at(now + ms, fn), clearTimeout: e => { if (e) e.dead = true; } });
    c.window = c; c.__now = () => 1e12 + now; c.__rnd = () => (seed % 97) / 97;
    vm.runInContext("Date.now = __now; Math.random = __rnd;", c);
    const html = fs.readFileSync("web/htdocs/index.html", "utf8");
    for (const m of html.matchAll(/<script[^>]*src="([^"]+)"/g)) if (/^(js\/midi\/|js\/misc\/|lib\/jsmidibridge\/)/.test(m[1])) vm.runInContext(fs.readFileSync("web/htdocs/" + m[1], "utf8"), c);
    return c;
}
/* two bridges; filter(dir, n, data) -> list of delays of the copies which arrive */
function pair(filter, lat = 5) {
    const out = [0, 1].map(i => { const B = vm.runInContext("JsMidiBridge", context(11 + i)); return { b: new B(), got: [], told: [], errors: [], n: 0, sent: [] }; });
    out.forEach((s, i) => {
        s.b.sendSysex = async (m, d) => { const n = ++s.n; s.sent.push(d); for (const x of filter(i, n, d)) at(now + lat + x, () => out[1 - i].b.receive({ manufacturerId: Array.from(m), data: Array.from(d) })); };
        s.b.onReceiveFinish = async d => { s.got.push([d.path, d.data]); };
        s.b.onReceiveAck = async d => { s.told.push(Array.from(d.transmissionId).join()); };
        s.b.onError = async m => { s.errors.push(m); };
    });
    return out;
}
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def stable(w):
    """Stable tests which do not pass in the copy w."""
    t = open("/opt/vp/test.sh").read().replace("/repo", w)
    open("/tmp/plant_test.sh", "w").write(t)
    sh("bash", "/tmp/plant_test.sh", "/tmp/plant_o.json")
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/plant_o.json"))
    return sorted(set(b["stable"]) - set(o["passed"]))
def main():
    spec = runpy.run_path(sys.argv[1])
    ids = sys.argv[2].split(",") if len(sys.argv) > 2 else None
    for b in spec["BUGS"]:
        if ids and b["id"] not in ids: continue
        d = os.path.join(H, "seeded", b["id"])
        if sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip(): sys.exit("/repo is not clean")
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/sim")
        for f in ("core", "build", "gen", "kemper", "obs"): shutil.copy(os.path.join(H, "dst", f + ".py"), d + "/sim/")
        open(d + "/sim/__init__.py", "w").close()
        js = b["edits"][0][0].startswith("web/")
        if js:
            shutil.rmtree(d + "/sim")
            open(d + "/demo.js", "w").write(HEAD_JS + "(async () => {\n" + b["demo"] + "\n})().then(() => process.exit(0), e => { console.log(e && e.stack || e); process.exit(1); });\n")
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexec node "$(dirname "$0")/demo.js"\n')
        else:
            open(d + "/demo.py", "w").write(HEAD + b["demo"])
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok = True
        r0 = sh("bash", d + "/demo.sh", cwd="/repo")
        W = "/tmp/plant_w"
        sh("rm", "-rf", W); sh("cp", "-a", "/repo", W)
        for f, old, new in b["edits"]:
            p = W + "/" + (f if js else "content/lib/pyswitch/" + f)
            s = open(p).read()
            if s.count(old) != 1: print(b["id"], "EDIT matches", s.count(old), "times:", old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if ok:
            diff = sh("git", "-C", W, "diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            orig = "".join(sh("git", "-C", "/repo", "show", "e09e3ea:" + (f if js else "content/lib/pyswitch/" + f)).stdout for f, _, _ in b["edits"])
            gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
            ol = set(orig.splitlines())
            if not any(l in ol for l in gone): print(b["id"], "WARNING: removes no original line")
            if any(l not in ol for l in gone): print(b["id"], "note: removes lines of own commits:", [l for l in gone if l not in ol][:3])
            miss = stable(W)
            r1 = sh("bash", d + "/demo.sh", cwd=W)
            c = sh("python3", H + "/check.py", b["property"], "--tier", "quick", "--no-evidence", cwd=H, env=dict(os.environ, VERIF_SEED="1", VERIF_REPO=W))
        sh("rm", "-rf", W)
        if not ok: continue
        good = r0.returncode == 0 and r1.returncode != 0 and not miss
        print(b["id"], "VALID" if good else "INVALID", "demo %d/%d" % (r0.returncode, r1.returncode), "tests broken: %s" % miss[:3] if miss else "",
              "check:", {0: "MISSED", 1: "caught"}.get(c.returncode, "rc %d" % c.returncode), c.stdout.strip().splitlines()[-2:-1] if c.returncode == 1 else "", flush=True)
        if r0.returncode: print((r0.stdout + r0.stderr)[-600:])
        if r1.returncode == 0: print("demo output with patch:", r1.stdout[-300:])
        if c.returncode not in (0, 1): print((c.stdout + c.stderr)[-1500:])
main()
