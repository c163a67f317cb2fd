"use strict";
/* Simulator of the browser side file transfer: the real classes of web/htdocs run in vm contexts with virtual time, timers,
   randomness and Web MIDI ports. One plan per input line, one history per output line. Nothing but the plan decides. */
const fs = require("fs"), vm = require("vm"), path = require("path"), rl = require("readline");
const ROOT = path.join(process.argv[2], "web/htdocs");

function scripts() {
    const html = fs.readFileSync(path.join(ROOT, "index.html"), "utf8");
    const out = [];
    for (const m of html.matchAll(/<script[^>]*src="([^"]+)"/g)) {
        const f = m[1].split("?")[0].replace(/^\.?\//, "");
        if (/^(js\/midi\/|js\/misc\/|js\/DeviceController|lib\/jsmidibridge\/)/.test(f)) out.push(f);
    }
    return out.map(f => new vm.Script(fs.readFileSync(path.join(ROOT, f), "utf8"), { filename: f }));
}
const SCRIPTS = scripts();

function rng(seed) {                      // mulberry32
    let a = seed >>> 0;
    return function() {
        a = (a + 0x6D2B79F5) >>> 0;
        let t = a;
        t = Math.imul(t ^ (t >>> 15), t | 1);
        t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
        return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
    };
}

let LOST = [];
process.on("unhandledRejection", e => { LOST.push(String(e && e.message || e)); });

class World {
    constructor(plan) { this.plan = plan; this.t = 0; this.q = []; this.n = 0; this.hist = []; this.msgs = 0; }
    log(...a) { this.hist.push([this.t, ...a]); }
    at(t, fn) { const e = { t: Math.max(t, this.t), n: this.n++, fn, dead: false }; this.q.push(e); return e; }
    sleep(ms) { return new Promise(r => this.at(this.t + ms, r)); }
    next() {
        let b = -1;
        for (let i = 0; i < this.q.length; ++i) {
            if (b < 0 || this.q[i].t < this.q[b].t || (this.q[i].t == this.q[b].t && this.q[i].n < this.q[b].n)) b = i;
        }
        return b < 0 ? null : this.q.splice(b, 1)[0];
    }
    context(seed) {
        const w = this, r = rng(seed), timers = new Map();
        let nt = 1;
        const c = vm.createContext({
            console: { log() {}, info() {}, error() {}, warn() {}, debug() {}, trace() {} }, queueMicrotask, structuredClone, TextEncoder, TextDecoder, Uint8Array, Array,
            setTimeout(fn, ms, ...a) { const id = nt++; timers.set(id, w.at(w.t + (ms || 0), () => { timers.delete(id); fn(...a); })); return id; },
            setInterval(fn, ms, ...a) {
                const id = nt++, tick = () => { timers.set(id, w.at(w.t + Math.max(1, ms || 0), tick)); fn(...a); };
                timers.set(id, w.at(w.t + Math.max(1, ms || 0), tick));
                return id;
            },
            clearInterval(id) { c.clearTimeout(id); },
            clearTimeout(id) { const e = timers.get(id); if (e) { e.dead = true; timers.delete(id); } },
            crypto: { getRandomValues(a) { for (let i = 0; i < a.length; ++i) a[i] = Math.floor(r() * 256); return a; } },
            navigator: {}, performance: { now: () => w.t }
        });
        c.window = c; c.self = c;
        c.__now = () => 1700000000000 + w.t; c.__rnd = r;
        vm.runInContext("Date.now = __now; Math.random = __rnd;", c);
        for (const s of SCRIPTS) s.runInContext(c);
        return c;
    }
}

async function run(plan) {
    const w = new World(plan);
    LOST = [];
    const ends = {};                                            // endpoint name ("a0", "d0") -> {bridge, store}
    const count = {};
    function link(dir, ms, deliver) {                           // one direction of a cable: messages with faults
        return function(bytes) {
            const n = count[dir] = (count[dir] || 0) + 1;
            w.msgs++;
            w.log("tx", dir, n, bytes);
            if (w.msgs > plan.cap) return;
            let copies = [{ d: 0, b: bytes }];
            for (const f of plan.faults) {
                if (f.dir != dir || f.n != n) continue;
                w.log("flt", f.act, dir, n);
                if (f.act == "drop") copies = [];
                else if (f.act == "dup") copies = copies.concat(copies.map(c => ({ d: c.d + f.arg, b: c.b })));
                else if (f.act == "delay") copies.forEach(c => { c.d += f.arg; });
                else if (f.act == "corrupt") copies.forEach(c => {
                    c.b = c.b.slice();
                    const i = 5 + (f.arg % Math.max(1, c.b.length - 6));  // after the command, before the end
                    if (i < c.b.length - 1) c.b[i] ^= 1 + (f.arg % 127);
                });
                else if (f.act == "trunc") copies.forEach(c => { c.b = c.b.slice(0, Math.max(5, c.b.length - 1 - (f.arg % 40))).concat([0xf7]); });
            }
            for (const c of copies) w.at(w.t + ms + c.d, () => { w.log("rx", dir, n, c.b); deliver(c.b); });
        };
    }
    const host = w.context(plan.seed);
    const inputs = new Map(), outputs = new Map();
    plan.cfg.ports.forEach((p, i) => {
        const input = { name: p.name, manufacturer: "m", onmidimessage: null };
        inputs.set("i" + i, input);
        const toHost = link("d" + i + ">a" + i, p.lat, b => { if (input.onmidimessage) input.onmidimessage({ data: Uint8Array.from(b) }); });
        p.toHost = toHost;
        let receive = () => {};
        p.i = i;
        if (p.device !== false) {
            const c = w.context(plan.seed + 17 * (i + 1));
            const Bridge = vm.runInContext("JsMidiBridge", c);
            const bridge = new Bridge();
            const slow = (plan.cfg.slow["d" + i] || {}).tx;
            bridge.sendSysex = async (m, d) => { toHost([0xf0].concat(m, d, [0xf7])); if (slow) await w.sleep(slow); };
            receive = b => {
                if (!p.alive) return;
                if (b[0] != 0xf0 || b[b.length - 1] != 0xf7) return;
                bridge.receive({ manufacturerId: b.slice(1, 4), data: b.slice(4, b.length - 1) });
            };
            ends["d" + i] = hook("d" + i, bridge);
        }
        const toDev = link("a" + i + ">d" + i, p.lat, b => receive(b));
        p.toDev = toDev;
        outputs.set("o" + i, { name: p.name, manufacturer: "m", send: b => toDev(Array.from(b)) });
    });
    host.navigator.requestMIDIAccess = async () => ({ sysexEnabled: true, inputs, outputs });

    const norm = p => plan.user ? "/" + p.replace(/^\/+/, "") : p;      // a device's working folder is its root
    function hook(name, bridge) {
        const s = plan.cfg.slow[name] || {};
        const e = { bridge, store: new Map(Object.entries(plan.cfg.store[name] || {})) };
        bridge.getFile = async p => {
            if (s.file) await w.sleep(s.file);
            if (e.store.has(norm(p))) return e.store.get(norm(p));
            const x = (plan.cfg.fail || {})[p];
            if (x) throw new Error(x);
            return null;
        };
        const id = x => Array.from(x).join(".");
        bridge.onReceiveStart = async d => { w.log("start", name, d.path, id(d.transmissionId), d.numChunks); if (s.start) await w.sleep(s.start); };
        bridge.onReceiveProgress = async d => { w.log("prog", name, id(d.transmissionId), d.chunk, d.numChunks); if (s.recv) await w.sleep(s.recv); };
        bridge.onReceiveFinish = async d => { w.log("fin", name, d.path, id(d.transmissionId), d.data); if (plan.user) e.store.set(norm(d.path), d.data); if (s.fin) await w.sleep(s.fin); };
        bridge.onSendProgress = async d => { w.log("sprog", name, id(d.transmissionId), d.chunk, d.numChunks, d.type); if (s.send) await w.sleep(s.send); };
        bridge.onReceiveAck = async d => { w.log("told", name, id(d.transmissionId)); };
        bridge.onError = async m => { w.log("err", name, m); };
        return e;
    }

    const Midi = vm.runInContext("MidiHandler", host), Handler = vm.runInContext("MidiBridgeHandler", host);
    const midi = new Midi();
    let handler = null;
    const conns = {};
    // ---- the user of the application: one operation after the other (plan.user)
    let device = null;
    const named = name => plan.cfg.ports.find(p => p.name == name);
    async function user() {
        const Device = vm.runInContext("DeviceController", host);
        await midi.init();
        device = new Device({ midi, ui: { progress() {}, message(m) { w.log("ui", String(m)); }, notifications: { message() {} } }, message(m) { w.log("ui", String(m)); }, handle(m) { w.log("ui", String(m)); } });
        host.__midi = midi;
        (plan.cfg.listen || []).forEach(name => {             // something else listening to a port (MIDI monitor, emulator)
            host.__cb = async data => { w.log("heard", name, Array.from(data)); };
            host.__name = name;
            vm.runInContext("__midi.addListener(new MidiListener(__name, __cb))", host);
        });
        async function load(port) {
            await device.connect(port);
            return [await device.loadFile("/inputs.py"), await device.loadFile("/display.py")];
        }
        for (let i = 0; i < plan.user.length; ++i) {
            const u = plan.user[i];
            w.log("u", i);
            let open = true;
            const act = (async () => {
                if (u.k == "wait") await w.sleep(u.ms);
                else if (u.k == "power") { named(u.port).alive = u.on; }
                else if (u.k == "load") w.log("loaded", i, ...(await load(u.port)));
                else if (u.k == "save") { await device.saveConfig({ get: async () => ({ inputs_py: u.inputs, display_py: u.display }) }, u.port); w.log("saved", i); }
                else if (u.k == "scan") {
                    const found = await new Promise(resolve => device.scan(
                        c => { w.log("found", i, c.name); host.setTimeout(() => { device.bridge.detach(c.bridge); resolve(c.name); }, 0); },
                        () => { w.log("none", i); host.setTimeout(() => resolve(null), 0); }));
                    if (found && u.load) w.log("loaded", i, ...(await load(found)));
                    w.log("scanned", i, found);
                }
            })().catch(ex => { w.log("failed", i, String(ex && ex.message || ex)); });
            const limit = w.sleep(u.limit || 120000).then(() => { if (open) { w.log("stuck", i); return "stuck"; } });
            const r = await Promise.race([act, limit]);
            open = false;
            if (r == "stuck") return;
        }
        plan.cfg.ports.filter(p => ends["d" + p.i]).forEach(p => { w.log("store", p.name, Object.fromEntries(ends["d" + p.i].store)); });
        w.log("finished");
    }
    async function op(i, e) {
        try {
            if (e.k == "init") { await midi.init(); handler = new Handler(midi); }
            else if (e.k == "connect") {
                const c = await handler.connect(plan.cfg.ports[e.port].name, null, e.timeout);
                ends["a" + e.port] = hook("a" + e.port, c.bridge);
                if (plan.cfg.throws) c.bridge.throwExceptionsOnReceive = true;
                conns[e.port] = c.bridge;
            }
            else if (e.k == "detach") { if (conns[e.port]) handler.detach(conns[e.port]); delete ends["a" + e.port]; }
            else if (e.k == "raw") { const p = plan.cfg.ports[e.port]; (e.to == "host" ? p.toHost : p.toDev)(e.b); }
            else {
                const x = ends[e.side];
                if (!x) { w.log("op", i, "none"); return; }
                if (e.k == "send") await x.bridge.sendString(e.path, e.content, e.chunk);
                else if (e.k == "file") await x.bridge.sendFile(e.path, e.chunk);
                else if (e.k == "request") await x.bridge.request(e.path, e.chunk);
            }
            w.log("op", i, "ok");
        } catch (ex) { w.log("op", i, "err", String(ex && ex.message || ex)); }
    }
    plan.events.forEach((e, i) => w.at(e.t, () => { w.log("do", i); op(i, e); }));
    if (plan.user) w.at(0, () => { user(); });
    let steps = 0;
    for (;;) {
        const e = w.next();
        if (!e || e.t > plan.dur) break;
        if (e.dead) continue;
        w.t = e.t;
        e.fn();
        await new Promise(r => setImmediate(r));
        while (LOST.length) w.log("lost", LOST.shift());
        if (++steps > 60000) { w.log("steps"); break; }
    }
    w.t = Math.min(Math.max(w.t, 0), plan.dur);
    w.log("end", w.q.filter(e => !e.dead).length);
    return { hist: w.hist, steps };
}

rl.createInterface({ input: process.stdin }).on("line", async line => {
    let out;
    try { out = await run(JSON.parse(line)); } catch (ex) { out = { harness: String(ex && ex.stack || ex) }; }
    process.stdout.write(JSON.stringify(out) + "\n");
});
