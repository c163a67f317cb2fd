BUGS = []
def bug(**k): BUGS.append(k)
SLOT = "$KemperEffectSlot.EFFECT_SLOT_ID_"
bug(id="d01-one-expiry", property="P04",
 edits=[("controller/client.py", "        for request in self.__requests:\n            if request.lifetime and request.lifetime.exceeded:\n                request.terminate()\n",
         "        expired = next((r for r in self.__requests if r.lifetime and r.lifetime.exceeded), None)\n        if expired:\n            expired.terminate()\n")],
 needs="several parameters polled at once, and a device which stops answering",
 breaks="only one request expires per clean-up, so the states of the other parameters stay on the display for much longer than the lifetime",
 demo='''
p = plan(16000)
p["cfg"]["bidir"] = None
sw = []
for i, s in enumerate("ABCDX"):
    p["events"] += [{"t": 0, "k": "dset", "a": [0x32 + i + (2 if s == "X" else 0), 0], "v": 34}, {"t": 0, "k": "dset", "a": [0x32 + i + (2 if s == "X" else 0), 3], "v": 1}]
    G.switch(p, [fn("EFFECT_STATE", slot_id="$KemperEffectSlot.EFFECT_SLOT_ID_" + s)], pixels=[i])
p["events"] += [{"t": 5000, "k": "ddown"}]
r = run(p)
a, b = screen(r, 4900), screen(r, 9500)
print(a.led[:5], b.led[:5])
assert all(max(a.led[i]) > 30 for i in range(5)) and all(max(b.led[i]) < 20 for i in range(5))
''')
bug(id="d02-value-index", property="P07",
 edits=[("controller/client.py", "                return midi_message.data[-2] * 128 + midi_message.data[-1]\n", "                return midi_message.data[6] * 128 + midi_message.data[7]\n")],
 needs="an answer which got truncated on the way",
 breaks="the controller stops with an IndexError",
 demo='''
p = plan(6000, peer=False)
pin = G.switch(p, [fn("EFFECT_STATE", slot_id="$KemperEffectSlot.EFFECT_SLOT_ID_A")])
G.switch(p, [fn("CUSTOM_MESSAGE", [176, 20, 1])])
m = K.single(0x32, 0, 34)
p["events"] += [{"t": 1000, "k": "raw", "port": "usb", "hex": (m[:-3] + m[-2:]).hex()}]
r = run(p)
''')
bug(id="d03-busy-loop", property="P08",
 edits=[("controller/controller.py", "            self.client.receive(midimsg)\n\n            # Break after a certain amount of messages to keep the device responsive\n            cnt = cnt + 1\n",
         "\n            # Break after a certain amount of messages to keep the device responsive (not counting messages nobody needs)\n            if self.client.receive(midimsg):\n                cnt = cnt + 1\n\n")],
 needs="a continuous stream of messages which do not belong to any mapping (MIDI clock, notes, control changes of others)",
 breaks="the update rounds are starved: displays and LEDs are not updated any more",
 demo='''
p = plan(8000, peer=False)
p["cfg"]["costs"]["read"] = 2000
G.label(p, "BEAT", back=False, cb=fn("Beat"))
for i in range(7000): p["events"].append({"t": 1000 + i, "k": "raw", "port": "usb", "hex": "b04001"})
r = run(p)
b = [e for e in r.trace if e[1] == "txt" and 3000000 < e[0] - r.t0 < 7000000]
print(len(b))
assert len(b) > 3
''')
bug(id="d05-hold-nothing", property="P10",
 edits=[("controller/inputs.py", "            # Hold click\n            for action in self.__actions_hold:\n                if not action.enabled:\n                    continue\n\n                action.push()        \n                action.release()\n\n            return True\n",
         "            # Hold click\n            triggered = False\n            for action in self.__actions_hold:\n                if not action.enabled:\n                    continue\n\n                triggered = True\n                action.push()        \n                action.release()\n\n            return triggered\n")],
 needs="hold actions which are all disabled, and a hold time which runs out in the same loop cycle in which the release is seen (stalled loop)",
 breaks="the short actions run for a long press",
 demo='''
p = plan(7000, peer=False)
p["cfg"]["defs"] = [{"name": "_c", "expr": fn("ClientParameterMapping.get", name="c", response=fn("ControlChange", 21, 0))}]
pin = G.switch(p, [fn("CUSTOM_MESSAGE", [176, 20, 1], enable_callback=fn("Cond", "$_c", 0))], hold=[fn("CUSTOM_MESSAGE", [176, 20, 2], enable_callback=fn("Cond", "$_c", 1))])
p["events"] += [{"t": 500, "k": "raw", "port": "usb", "hex": K.cc(21, 0).hex()}, {"t": 2100, "k": "stall", "d": 900}]
G.press(p, pin, 2000, 800)
r = run(p)
v = [d[2] for t, d in tx(r, "cc")]
print(v)
assert v == []
''')
bug(id="d07-bank-release", property="P14",
 edits=[("clients/kemper/actions/bank_select.py", "        self.__appl.client.set(self.__sent_rig_mapping, 0)\n        self.__sent_rig_mapping = None\n", "        # Release the current rig\n        if self.__mapping.value != None:\n            self.__appl.client.set(MAPPING_RIG_SELECT(self.__mapping.value % NUM_RIGS_PER_BANK), 0)\n        self.__sent_rig_mapping = None\n")],
 needs="the rig changed by someone else (device) while the bank button is held",
 breaks="the release message belongs to another rig button than the one pushed",
 demo='''
p = plan(8000)
p["cfg"]["bidir"] = {"lease": 30, "tuner": True}
p["peer"]["rig"] = 2
pin = G.switch(p, [fn("BANK_SELECT", bank=3)])
G.press(p, pin, 3000, 2000)
p["events"] += [{"t": 1500, "k": "dannounce"}, {"t": 4000, "k": "drig", "rig": 21}]
r = run(p)
v = [d[1:3] for t, d in tx(r, "cc") if 50 <= d[1] <= 54]
print(v)
assert v == [(52, 1), (52, 0)]
''')
bug(id="e01-bank-kept", property="P15",
 edits=[("clients/kemper/actions/bank_select.py", "            # End preselect display\n            if \"preselectedBank\" in self.__appl.shared:\n                del", "            # End preselect display\n            if \"preselectedBank\" in self.__appl.shared and self.__appl.shared[\"preselectedBank\"] != self.__bank - 1:\n                del")],
 needs="a bank selected directly (with its rig) which has been preselected before",
 breaks="the preselection is never ended: its bank number and blinking stay, and the next rig button selects the bank again",
 demo='''
p = plan(9000)
p["cfg"]["bidir"] = {"lease": 30, "tuner": True}
p["peer"]["rig"] = 2
G.label(p, "L", cb=fn("KemperRigNameCallback", show_name=True))
a = G.switch(p, [fn("BANK_UP", preselect=True)]); b = G.switch(p, [fn("BANK_SELECT", bank=2)])
p["events"] += [{"t": 2000, "k": "dannounce"}]
G.press(p, a, 3000, 100); G.press(p, b, 4500, 100); 
r = run(p)
print(screen(r, 4400).text, screen(r).text)
assert screen(r, 4400).text["L"] == "Bank 2" and not screen(r).text["L"].startswith("Bank")
''')
bug(id="e05-accept-again", property="P17",
 edits=[("controller/actions/EncoderAction.py", "        self.__preselect_active = False\n\n        if self.__preview:\n", "        # When accepted, the value can be fine tuned afterwards\n        if immediately:\n            self.__preselect_active = False\n\n        if self.__preview:\n")],
 needs="the accept button pressed twice",
 breaks="the value is sent again with every further press of the accept button, although nothing is preselected",
 demo='''
p = plan(9000, peer=False)
p["cfg"]["defs"] = [{"name": "_acc", "expr": fn("ENCODER_BUTTON")}]
G.label(p, "L", text="x")
p["cfg"]["inputs"].append({"type": "enc", "pin": "GP2", "pin2": "GP3", "actions": [fn("EncoderAction", fn("ClientParameterMapping.get", name="m", set=fn("ControlChange", 20, 0), response=fn("ControlChange", 20, 0)), accept_action="$_acc", preview_display="$L")]})
pin = G.switch(p, ["$_acc"])
p["events"] += [{"t": 500, "k": "raw", "port": "usb", "hex": K.cc(20, 10).hex()}]
p["events"] += [{"t": 1000, "k": "enc", "pin": "GP2", "d": 1}]; G.press(p, pin, 2000, 100); G.press(p, pin, 4000, 100)
r = run(p)
v = [d[2] for t, d in tx(r, "cc")]
print(v)
assert v == [11]
''')
bug(id="e06-other-listener", property="P02",
 edits=[("controller/client.py", "        else:\n            # Existing request: Add listener\n            if listener:\n", "        else:\n            # Existing request: Add listener (to permanent ones this has been done already)\n            if listener and not req.lifetime:\n")],
 needs="two switches bound to the same polled parameter",
 breaks="only the switch which asked first is updated with the answer",
 demo='''
p = plan(9000)
p["cfg"]["bidir"] = None
p["events"] += [{"t": 0, "k": "dset", "a": [0x32, 0], "v": 34}, {"t": 0, "k": "dset", "a": [0x32, 3], "v": 0}, {"t": 5000, "k": "dset", "a": [0x32, 3], "v": 1}]
for i in range(2): G.switch(p, [fn("EFFECT_STATE", slot_id="$KemperEffectSlot.EFFECT_SLOT_ID_A")])
r = run(p)
print(screen(r).led)
assert max(screen(r).led[0]) > 30 and screen(r).led[0] == screen(r).led[3]
''')
bug(id="e08-list-auto", property="P23",
 edits=[("controller/callbacks/__init__.py", "                if self.__update_value_disabled[i]:\n                    self._value_disable[i] = value\n", "                if self._value_disable[i] == \"auto\":\n                    self._value_disable[i] = value\n")],
 needs="a list of off values with automatic ones, and the value changing on the device while the action is off",
 breaks="switching off restores the first value ever seen instead of the last one",
 demo='''
p = plan(9000, peer=False)
pin = G.switch(p, [fn("BINARY_SWITCH", fn("ClientParameterMapping.get", name="m", set=[fn("ControlChange", 20, 0), fn("ControlChange", 22, 0)], response=fn("ControlChange", 20, 0)), mode="$PushButtonAction.LATCH", value_on=[100, 1], value_off=["auto", 0])])
p["events"] += [{"t": 500, "k": "raw", "port": "usb", "hex": K.cc(20, 10).hex()}, {"t": 900, "k": "raw", "port": "usb", "hex": K.cc(20, 40).hex()}]
G.press(p, pin, 2000, 100); G.press(p, pin, 4000, 100)
r = run(p)
v = [d[1:3] for t, d in tx(r, "cc")]
print(v)
assert v == [(20, 100), (22, 1), (20, 40), (22, 0)]
''')
bug(id="e03-preview-timeout", property="P20",
 edits=[("controller/preview.py", "            else:\n                self.__period.interval = timeout_millis                \n\n", "\n")],
 needs="two encoders with different preview timeouts sharing a label",
 breaks="the timeout of the first preview is used for all others",
 demo='''
p = plan(9000, peer=False)
G.label(p, "L", cb=fn("ParameterDisplayCallback", mapping=fn("ClientParameterMapping.get", name="s", response=fn("ControlChange", 100, 0))))
for k, ms in ((0, 3000), (1, 500)):
    p["cfg"]["inputs"].append({"type": "enc", "pin": G.EPINS[k][0], "pin2": G.EPINS[k][1], "actions": [fn("EncoderAction", fn("ClientParameterMapping.get", name="m%d" % k, set=fn("ControlChange", 20 + k, 0)), preview_display="$L", preview_timeout_millis=ms)]})
p["events"] += [{"t": 500, "k": "raw", "port": "usb", "hex": K.cc(100, 5).hex()}, {"t": 1000, "k": "enc", "pin": G.EPINS[0][0], "d": 1}, {"t": 5500, "k": "enc", "pin": G.EPINS[1][0], "d": 1}]
r = run(p)
print(screen(r, 900).text, screen(r, 5800).text, screen(r, 6900).text)
x = screen(r, 900).text["L"]
assert screen(r, 5800).text["L"] != x and screen(r, 6900).text["L"] == x
''')