BUGS = []
def bug(**k): BUGS.append(k)
bug(id="c01-bank-part", property="P05",
 edits=[("controller/client.py", "        if value_1 != None:\n            self.__value_1 = value_1\n            return True\n",
         "        if value_1 != None:\n            # Wait for the second part\n            if self.__value_1 == None:\n                self.__value_1 = value_1\n            return True\n")],
 needs="a bank message (CC32) whose program change got lost, followed by the complete announcement of a rig in another bank range",
 breaks="the rig number shown mixes the bank part of an old announcement with the program number of a new one",
 demo='''
p = plan(5000, peer=False)
G.label(p, "L", cb=fn("ParameterDisplayCallback", mapping=fn("ClientTwoPartParameterMapping.get", name="m", response=[fn("ControlChange", 32, 0), fn("ProgramChange", 0)])))
p["events"] += [{"t": 1000, "k": "raw", "port": "usb", "hex": "b02003"}, {"t": 1500, "k": "raw", "port": "usb", "hex": "b02001c002"}]
r = run(p)
print(screen(r).text)
assert screen(r).text["L"] == "130"
''')
bug(id="c04-pedal-toggle", property="P18",
 edits=[("controller/actions/AnalogAction.py", "        self.__last_value = -1\n", "        self.__last_value = -1\n        self.__before_last_value = -1\n"),
        ("controller/actions/AnalogAction.py", "            if self.__last_value != v:\n                # Update value on client\n                self.__last_value = v\n",
         "            # (without flickering between two neighbouring values)\n            if self.__last_value != v and not (v == self.__before_last_value and abs(v - self.__last_value) <= 1):\n                # Update value on client\n                self.__before_last_value = self.__last_value\n                self.__last_value = v\n")],
 needs="a pedal which moves by one step and back again, and then rests",
 breaks="the last value sent is not the one of the final pedal position",
 demo='''
p = plan(6000, peer=False)
p["cfg"]["inputs"].append({"type": "pot", "pin": "GP27", "actions": [fn("AnalogAction", fn("ClientParameterMapping.get", name="m", set=fn("ControlChange", 20, 0)))]})
p["events"] += [{"t": 1000 + 300 * i, "k": "adc", "pin": "GP27", "v": v * 512 + 100} for i, v in enumerate([50, 51, 50])]
r = run(p)
v = [d[2] for t, d in tx(r, "cc")]
print(v)
assert v[-1] == 50
''')
bug(id="c05-repeat-stuck", property="P19",
 edits=[("clients/local/actions/param_change.py", "    def release(self):\n        self.__pushed = False\n", "    def release(self):\n        # Only when still in charge of the switch\n        if self.action.enabled:\n            self.__pushed = False\n")],
 needs="an action which gets disabled while its switch is held (page changed by another switch)",
 breaks="the parameter keeps on stepping after the switch has been released",
 demo='''
p = plan(9000, peer=False)
p["cfg"]["defs"] = [{"name": "_c", "expr": fn("ClientParameterMapping.get", name="c", response=fn("ControlChange", 21, 0))}]
pin = G.switch(p, [fn("PARAMETER_UP_DOWN", fn("ClientParameterMapping.get", name="m", set=fn("ControlChange", 20, 0), response=fn("ControlChange", 20, 0)), 1, enable_callback=fn("Cond", "$_c", 1, True))])
p["events"] += [{"t": 500, "k": "raw", "port": "usb", "hex": K.cc(20, 10).hex()}, {"t": 600, "k": "raw", "port": "usb", "hex": K.cc(21, 0).hex()},
  {"t": 1500, "k": "raw", "port": "usb", "hex": K.cc(21, 1).hex()}]
G.press(p, pin, 1000, 1500)
r = run(p)
v = [(t, d[2]) for t, d in tx(r, "cc")]
print(v)
assert v and v[-1][0] < 3200, "stepping on after release"
''')
bug(id="c07-pager-text", property="P12",
 edits=[("clients/local/actions/pager.py", "            self.label.text = page_current[\"text\"] if \"text\" in page_current else \"\"\n", "            if \"text\" in page_current:\n                self.label.text = page_current[\"text\"]\n")],
 needs="a page without a text, entered from a page with a text",
 breaks="the label keeps showing the name of the page which has been left",
 demo='''
p = plan(6000, peer=False)
G.label(p, "L", back=tup(10, 10, 10))
p["cfg"]["defs"] = [{"name": "_p", "expr": fn("PagerAction", pages=[{"id": 1, "color": tup(255, 0, 0), "text": "One"}, {"id": 2, "color": tup(0, 255, 0)}], display="$L")}]
pin = G.switch(p, ["$_p"])
G.press(p, pin, 2000, 100)
r = run(p)
print(screen(r, 1800).text, screen(r).text)
assert screen(r, 1800).text["L"] == "One" and screen(r).text["L"] == "", "text of the other page"
''')
bug(id="c10-reference-zero", property="P23",
 edits=[("controller/callbacks/__init__.py", "int(reference_value) if reference_value != None else (", "int(reference_value) if reference_value else (")],
 needs="a reference value of zero, with an enable value different from it",
 breaks="on/off state is evaluated against the enable value instead of the reference value",
 demo='''
p = plan(4000, peer=False)
pin = G.switch(p, [fn("BINARY_SWITCH", fn("ClientParameterMapping.get", name="m", set=fn("ControlChange", 20, 0), response=fn("ControlChange", 20, 0)), mode="$PushButtonAction.LATCH", value_on=64, value_off=0, reference_value=0, comparison_mode="$BinaryParameterCallback.GREATER", color=tup(200, 0, 0))])
p["events"] += [{"t": 1000, "k": "raw", "port": "usb", "hex": K.cc(20, 30).hex()}]
r = run(p)
print(screen(r).led)
assert screen(r).led[0][0] > 30, "not shown as on"
''')
bug(id="c11-strobe-rest", property="P28",
 edits=[("controller/strobe.py", "            if value != self.__last_deviance:\n", "            # Ignore noise\n            if abs(value - self.__last_deviance) > 8:\n")],
 needs="a deviance which gets nearer to zero in small steps until it is in tune",
 breaks="the strobe keeps moving when the string is in tune",
 demo='''
p = plan(12000)
p["cfg"]["bidir"] = {"lease": 30, "tuner": True}
p["cfg"]["tuner"] = {"strobe": True, "strobe_dim": 1.0, "strobe_speed": 10}
for i in range(4): G.switch(p, [], pixels=[i], strobe=i)
p["events"] += [{"t": 2000, "k": "dtuner", "v": 1}]
for i in range(60): p["events"].append({"t": 2100 + i * 20, "k": "ddev", "v": max(8191, 8250 - i)})
for i in range(200): p["events"].append({"t": 3300 + i * 20, "k": "ddev", "v": 8191})
r = run(p)
v = [e for e in r.trace if e[1] == "led" and 4500000 < e[0] - r.t0 < 7000000]
n = [e for e in r.trace if e[1] == "led" and 2100000 < e[0] - r.t0 < 3300000]
print(len(v), len(n))
assert n and not v, "strobe moves although in tune"
''')
bug(id="c06-rotate-release", property="P24",
 edits=[("clients/local/actions/rotate.py", "            self.__messages_pos = 0\n\n        if self.__messages_release ", "            self.__messages_pos = self.__messages_release_pos = 0\n\n        if self.__messages_release ")],
 needs="a release list longer than the message list, and enough presses to get beyond the latter",
 breaks="release messages do not rotate on their own: the rest of the list is never sent",
 demo='''
p = plan(9000, peer=False)
pin = G.switch(p, [fn("ROTATING_MESSAGES", messages=[[176, 20, 1], [176, 20, 2]], messages_release=[[176, 21, 1], [176, 21, 2], [176, 21, 3]], led_colors=[tup(255, 0, 0)])])
for i in range(6): G.press(p, pin, 1000 + i * 500, 100)
r = run(p)
v = [d[2] for t, d in tx(r, "cc") if d[1] == 21]
print(v)
assert v == [1, 2, 3, 1, 2, 3]
''')
bug(id="c12-morph-reset", property="P26",
 edits=[("clients/kemper/actions/rig_up_down.py", "        self.__appl.shared[\"morphStateOverride\"] = 0\n", "        # The new rig is not morphed\n        if next_bank == curr_bank:\n            self.__appl.shared[\"morphStateOverride\"] = 0\n")],
 needs="the morph state engaged by a morph button, then a step to the next rig across a bank border",
 breaks="the morph display stays at morph although the new rig is at base",
 demo='''
p = plan(7000, peer=False)
a = G.switch(p, [fn("MORPH_BUTTON")]); b = G.switch(p, [fn("RIG_UP", keep_bank=False)])
p["events"] += [{"t": 700, "k": "raw", "port": "usb", "hex": "b02000c004"}]
G.press(p, a, 1500, 100); G.press(p, b, 3000, 100)
r = run(p)
print(screen(r, 2800).led[0], screen(r).led[0])
assert screen(r, 2800).led[0][2] > 30 and screen(r).led[0][2] == 0
''')
bug(id="c21-same-report", property="P27",
 edits=[("controller/explore.py", "        self.__step = config[\"step\"]\n", "        self.__step = config[\"step\"]\n        self.__last_out = None\n"),
        ("controller/explore.py", "        do_print(f\"board.{ self.__name } { pixel_out }\")\n", "        if pixel_out != self.__last_out:\n            do_print(f\"board.{ self.__name } { pixel_out }\")\n            self.__last_out = pixel_out\n")],
 needs="the same report text for two presses of the same switch (for example, only one usable pin)",
 breaks="the second press is not reported",
 demo='''
p = plan(5000, peer=False)
gp = ["GP%d" % k for k in range(29)]
p["cfg"]["config"] = {"exploreMode": True}; p["cfg"]["bad_pins"] = gp[2:]; p["cfg"]["bad_pins"].remove("GP9"); p["cfg"]["bad_pins"] += gp[:2]
for i in range(3): G.press(p, "GP9", 1500 + 700 * i, 200)
r = run(p)
v = [e for e in r.trace if e[1] == "print" and "board.GP9" in str(e)]
print(v)
assert len(v) == 3
''')
bug(id="c22-hold-release", property="P11",
 edits=[("controller/inputs.py", "                action.push()        \n                action.release()\n", "                action.push()        \n\n                # The action might have disabled itself\n                if action.enabled:\n                    action.release()\n")],
 needs="a hold action which disables itself when pushed (enabled depending on the parameter it sets)",
 breaks="the hold action is pushed, but never released",
 demo='''
p = plan(9000)
p["cfg"]["bidir"] = {"lease": 30, "tuner": True}
p["cfg"]["defs"] = [{"name": "_s", "expr": fn("KemperMappings.EFFECT_STATE", "$KemperEffectSlot.EFFECT_SLOT_ID_A")}]
p["events"] += [{"t": 100, "k": "dset", "a": [0x32, 0], "v": 34}, {"t": 110, "k": "dset", "a": [0x32, 3], "v": 0}]
pin = G.switch(p, [], hold=[fn("BINARY_SWITCH", "$_s", mode="$PushButtonAction.MOMENTARY", enable_callback=fn("Cond", "$_s", 1, True))])
G.press(p, pin, 4000, 1000)
r = run(p)
v = [d[1:] for t, d in tx(r, "cc")]
print(v)
assert v == [(17, 1), (17, 0)]
''')
