BUGS = []
def bug(**k): BUGS.append(k)
bug(id="f02-same-brightness", property="P13",
 edits=[("controller/inputs.py", "            pixel = self.pixels[i]\n            self.__appl.led_driver.leds[pixel] = (\n", "            if brightnesses[i] == self.__brightnesses[i] and brightnesses[i] != 0:\n                continue\n\n            self.__appl.led_driver.leds[self.pixels[i]] = (\n")],
 needs="a brightness that a float32 array stores exactly (0.5, 0.25 ...), and an action which changes its colour only",
 breaks="the LEDs keep the old colour",
 demo='''
p = plan(5000, peer=False)
pin = G.switch(p, [fn("ROTATING_MESSAGES", messages=[[176, 20, 1], [176, 20, 2]], led_brightness=0.5, led_colors=[tup((255, 0, 0)), tup((0, 255, 0))])])
G.press(p, pin, 2000, 100)
r = run(p)
a, b = screen(r, 1900), screen(r, 4000)
print(a.led[:3], b.led[:3])
assert a.led[0] != b.led[0] and a.led[0] != (127, 127, 127)
''')
bug(id="f05-release-anew", property="P25",
 edits=[("clients/kemper/actions/rig_up_down.py", "        self.__appl.client.set(self.__sent_rig_mapping, 0)\n        self.__sent_rig_mapping = None\n",
  "        self.__appl.client.set(MAPPING_RIG_SELECT(self.__get_next_rig(self.__mapping.value % NUM_RIGS_PER_BANK, self.__mapping.value) % NUM_RIGS_PER_BANK), 0)\n        self.__sent_rig_mapping = None\n")],
 needs="the device announces the new rig while the button is still down",
 breaks="the release message is the one of another rig button",
 demo='''
p = plan(7000)
p["events"] += [{"t": 1000, "k": "drig", "rig": 11}]
pin = G.switch(p, [fn("RIG_UP")])
G.press(p, pin, 3000, 800)
r = run(p)
got = [d[1:3] for t, d in tx(r, "cc")]
print(got)
assert got == [(52, 1), (52, 0)]
''')
bug(id="f07-redundant", property="P09",
 edits=[("controller/callbacks/__init__.py", "            if value != \"auto\":\n                self.__appl.client.set(set_mapping, value)\n", "            if value != \"auto\" and (set_mapping.value != value or not set_mapping.response):\n                self.__appl.client.set(set_mapping, value)\n")],
 needs="a second command before the device has answered the first one (momentary or quick double press)",
 breaks="the release of a momentary switch sends nothing: the effect stays on",
 demo='''
p = plan(7000)
p["cfg"]["bidir"] = None
p["events"] += [{"t": 0, "k": "dset", "a": [0x32, 0], "v": 34}, {"t": 0, "k": "dset", "a": [0x32, 3], "v": 0}]
pin = G.switch(p, [fn("EFFECT_STATE", slot_id="$KemperEffectSlot.EFFECT_SLOT_ID_A", mode="$PushButtonAction.MOMENTARY")])
G.press(p, pin, 3000, 30)
p["peer"]["lat"] = 60
r = run(p)
got = [d[1:3] for t, d in tx(r, "cc")]
print(got)
assert got == [(17, 1), (17, 0)]
''')
bug(id="f08-own-value", property="P16",
 edits=[("controller/actions/EncoderAction.py", "        self._set_value(self._last_value)\n", "        if self.__preselect or not self._mapping.request:\n            self._set_value(self._last_value)\n")],
 needs="two detents within the time the device needs to answer",
 breaks="all detents between two answers together move the parameter by one step only",
 demo='''
p = plan(7000)
p["peer"]["lat"] = 50
p["events"] += [{"t": 0, "k": "dset", "a": [4, 1], "v": 5000}]
p["cfg"]["inputs"].append({"type": "enc", "pin": "GP6", "pin2": "GP7", "actions": [fn("EncoderAction", mapping=fn("MAPPING_RIG_VOLUME"), step_width=100)]})
p["events"] += [{"t": 3000 + 20 * i, "k": "enc", "pin": "GP6", "d": 1} for i in range(5)]
r = run(p)
got = [d for t, d in tx(r, "val")]
print(got)
assert [d[3] for d in got] == [5100, 5200, 5300, 5400, 5500]
''')
bug(id="f10-limit", property="P21",
 edits=[("ui/elements.py", "            if value >= self.__calibration_low and value <= self.__calibration_high:\n", "            if abs(value - 8192) <= self.__calibration_high - 8192:\n")],
 needs="a calibration whose limits are not symmetrical",
 breaks="notes below are judged by the limit for notes above",
 demo='''
p = plan(7000)
p["cfg"]["bidir"] = {"lease": 30, "tuner": True}
p["cfg"]["tuner"] = {"calibration_low": 7000}
G.switch(p, [fn("CUSTOM_MESSAGE", [176, 20, 1])])
p["events"] += [{"t": 2000, "k": "dtuner", "v": 1}, {"t": 3000, "k": "dnote", "v": 60}, {"t": 3100, "k": "ddev", "v": 7500}]
r = run(p)
s = screen(r, 5000)
print(s.tcol)
assert s.tcol.get("@note") == (100, 255, 100)
''')
bug(id="f11-updateables", property="P21",
 edits=[("ui/UiController.py", "            splash_element.init(splash_element, self.__appl)\n\n        # Add elements which are Updateables to the update queue\n        self.updateables = [", "            splash_element.init(splash_element, self.__appl)\n\n            # Add elements which are Updateables to the update queue\n            self.updateables = [")],
 needs="tuner mode, and a content of a label which changes after it has been left",
 breaks="labels on the normal screen are not updated any more after tuner mode",
 demo='''
p = plan(9000)
p["cfg"]["bidir"] = {"lease": 30, "tuner": True}
p["cfg"]["tuner"] = {}
p["cfg"]["dot"] = True
p["events"] += [{"t": 2000, "k": "dtuner", "v": 1}, {"t": 3000, "k": "dtuner", "v": 0}, {"t": 4000, "k": "ddown"}]
r = run(p)
a, b = screen(r, 3900), screen(r, 8000)
print(a.dot, b.dot)
assert a.dot != b.dot
''')
