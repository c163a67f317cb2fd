BUGS = []
def bug(**k): BUGS.append(k)
J = "web/htdocs/lib/jsmidibridge/JsMidiBridge.js"
bug(id="g01-chunk-gap", property="P29", edits=[(J, "if (index != transmission.lastChunk + 1) {", "if (index <= transmission.lastChunk) {")],
    needs="a data message overtaken by a later one (or lost) while a repeated acknowledge makes the sender go on",
    breaks="a piece after a gap is accepted, the file is delivered with a part missing",
    demo='''
const [c, d] = pair((i, n) => i == 0 && n == 3 ? [] : [0]);
await c.b.sendString("/f", "abcdefghijkl", 4);
await play(200);
// the sender of the lost second piece gets an acknowledge for it (as from a repeated one)
const id = c.sent[0].slice(4, 8), pl = id.concat(Array.from(c.b.number2bytes(1, 3)));
await c.b.receive({ manufacturerId: [0, 0x7c, 0x7d], data: [4].concat(Array.from(c.b.getChecksum(new Uint8Array(pl))), pl) });
await play(1000);
for (const g of d.got) assert.strictEqual(g[1], "abcdefghijkl");
''')
bug(id="g02-ack-behind", property="P29", edits=[(J, "if (chunkIndex != transmission.nextChunk - 1) {", "if (chunkIndex >= transmission.nextChunk) {")],
    needs="an acknowledge repeated or delayed until later pieces are under way",
    breaks="an old acknowledge is taken for the current one: the sender is told the end of a transfer which has not arrived",
    demo='''
// the last piece is lost, the first acknowledge comes twice
const [a, b] = pair((i, n, m) => i == 1 && m[0] == 4 && n == 1 ? [0, 40] : i == 0 && m[0] == 3 && n == 3 ? [] : [0]);
await a.b.sendString("/f", "abcdefgh", 4);
await play(1000);
assert(!a.told.includes(a.sent[0].slice(4, 8).join()) || b.got.length == 1, "told, but not delivered");
''')
bug(id="g03-first-time", property="P29", edits=[(J, '''        // Update timestamp
        transmission.time = Date.now();

        await this.onReceiveProgress({''', '''        // Update timestamp
        transmission.time = transmission.time || Date.now();

        await this.onReceiveProgress({''')],
    needs="a transfer of more than five seconds, during which another one begins",
    breaks="a transfer still going on is thrown away as timed out",
    demo='''
const [a, b] = pair(() => [0], 400);
await a.b.sendString("/long", "x".repeat(100), 10);
at(6500, () => a.b.sendString("/other", "abc", 10));
await play(60000);
assert.deepStrictEqual(b.got.map(g => g[0]).sort(), ["/long", "/other"]);
assert.strictEqual(a.told.length, 2);
''')
bug(id="g04-port-prefix", property="P29", edits=[("web/htdocs/js/midi/MidiListener.js", "if (portName != this.portName) return;", "if (!portName.startsWith(this.portName)) return;")],
    needs="two controllers connected at once, the name of one port being the beginning of the other's",
    breaks="messages of one controller also reach the other's bridge, which answers with errors",
    demo='''
const c = context(3);
const errs = {};
const inputs = new Map(), outputs = new Map(), devs = {};
for (const name of ["Ctl", "Ctl 2"]) {
    const input = { name, manufacturer: "m", onmidimessage: null };
    const dc = context(name.length); const D = vm.runInContext("JsMidiBridge", dc); const dev = devs[name] = new D();
    errs[name] = [];
    dev.onError = async m => { errs[name].push(m); };
    dev.getFile = async () => null;
    dev.sendSysex = async (m, d) => { at(now + 3, () => input.onmidimessage({ data: Uint8Array.from([0xf0, ...m, ...d, 0xf7]) })); };
    inputs.set(name, input);
    outputs.set(name, { name, manufacturer: "m", send: msg => { const b = Array.from(msg); at(now + 3, () => dev.receive({ manufacturerId: b.slice(1, 4), data: b.slice(4, -1) })); } });
}
c.navigator.requestMIDIAccess = async () => ({ sysexEnabled: true, inputs, outputs });
const midi = vm.runInContext("new MidiHandler()", c); c.__m = midi;
await midi.init();
const h = vm.runInContext("new MidiBridgeHandler(__m)", c);
let con = {};
h.connect("Ctl", null, 3000).then(x => { con.a = x; });
await play(100);
h.connect("Ctl 2", null, 3000).then(x => { con.b = x; });
await play(200);
assert(con.a && con.b);
const got = { a: [], b: [] };
for (const k of ["a", "b"]) con[k].bridge.onReceiveFinish = async d => { got[k].push(d.path); };
await devs["Ctl 2"].sendString("/f", "abcdefgh", 3);
await play(1000);
assert.deepStrictEqual(got, { a: [], b: ["/f"] });
assert.deepStrictEqual(errs, { "Ctl": [], "Ctl 2": [] });
''')

D = "web/htdocs/js/midi/MidiBridgeHandler.js"
WORLD = """
async function world(names, lat) {
    const c = context(3), inputs = new Map(), outputs = new Map(), devs = {};
    names.forEach((name, i) => {
        const input = { name, manufacturer: "m", onmidimessage: null };
        const D = vm.runInContext("JsMidiBridge", context(20 + i)), dev = devs[name] = new D();
        dev.on = true; dev.sent = 0; dev.files = {}; dev.input = input;
        dev.getFile = async p => p in dev.files ? dev.files[p] : null;
        dev.onReceiveFinish = async d => { dev.files["/" + d.path.replace(/^\\/+/, "")] = d.data; };
        dev.onError = async () => {};
        dev.sendSysex = async (m, d) => { dev.sent++; at(now + lat(i), () => input.onmidimessage({ data: Uint8Array.from([0xf0, ...m, ...d, 0xf7]) })); };
        inputs.set(name, input);
        outputs.set(name, { name, manufacturer: "m", send: msg => { const b = Array.from(msg); at(now + lat(i), () => { if (dev.on) dev.receive({ manufacturerId: b.slice(1, 4), data: b.slice(4, -1) }); }); } });
    });
    c.navigator.requestMIDIAccess = async () => ({ sysexEnabled: true, inputs, outputs });
    vm.runInContext(fs.readFileSync("web/htdocs/js/DeviceController.js", "utf8"), c);
    const midi = c.__m = vm.runInContext("new MidiHandler()", c);
    await midi.init();
    c.__c = { midi, ui: { progress() {}, message() {} }, message() {} };
    return { device: vm.runInContext("new DeviceController(__c)", c), devs };
}
"""
bug(id="g05-no-detach", property="P30", edits=[(D, """                cleanup();
                that.detach(bridge);
                reject(""", """                cleanup();
                reject(""")],
    needs="a scan in which another controller answers first, then loading from the one given up",
    breaks="bridges of given up attempts keep answering: two answers to each message, loading fails",
    demo=WORLD + """
const { device, devs } = await world(["A", "B"], i => 5 + 20 * i);
devs.B.files = { "/inputs.py": "x".repeat(250), "/display.py": "yy" };
let found = null;
device.scan(c => { found = c.name; device.bridge.detach(c.bridge); }, () => {});
await play(3000);
assert.strictEqual(found, "A");
let got = null;
(async () => { await device.connect("B"); got = [await device.loadFile("/inputs.py"), await device.loadFile("/display.py")]; })().catch(e => { got = String(e); });
for (let i = 0; i < 40 && devs.B.sent < 500; ++i) await play(3000 + 50 * i);
assert.deepStrictEqual(got, ["x".repeat(250), "yy"]);
""")
bug(id="g06-scan-first-failure", property="P30", edits=[("web/htdocs/js/midi/MidiHandler.js", "if (onFailure && !success && !attempts.size) {", "if (onFailure && !success) {")],
    needs="a scan without any controller on several ports",
    breaks="a scan without result reports the failure once per port",
    demo=WORLD + """
const { device, devs } = await world(["A", "B", "C"], () => 5);
for (const k in devs) devs[k].on = false;
const r = [];
device.scan(c => { r.push(c.name); device.bridge.detach(c.bridge); }, () => { r.push(null); });
await play(10000);
assert.deepStrictEqual(r, [null]);
""")
