BUGS = []
def bug(**k): BUGS.append(k)
bug(id="b01-lease-clock", property="P01",
 edits=[("clients/kemper/__init__.py", "        if self.state != self._STATE_RUNNING:\n            self.resend_period.reset()\n", "        if self.state != self._STATE_RUNNING and not self.__has_been_running:\n            self.resend_period.reset()\n"),
        ("clients/kemper/__init__.py", "            elif self.resend_period.exceeded:\n                if self.debug:                     # pragma: no cover\n                    self.__print(\"Send keep-alive message\")\n\n                self.__send_beacon()",
         "            elif self.resend_period.exceeded:\n                if self.debug:                     # pragma: no cover\n                    self.__print(\"Send keep-alive message\")\n\n                # Renew the lease, initializing again if the device might have forgotten the parameter set\n                self.__send_beacon(init = self.init_period.exceeded and self.init_period.interval > self.resend_period.interval)")],
 needs="a lease shorter than 10 s, so that the renewal falls within the initial beacon period of 5 s",
 breaks="renewal beacons carry the init flag when the lease is short",
 demo='''
p = plan(40000)
p["cfg"]["bidir"] = {"lease": 8, "tuner": True}
p["cfg"]["dot"] = True
r = run(p)
b = [(t, d[2]) for t, d in tx(r, "beacon")]
print(b)
assert len(b) > 5
assert all(not (f & 1) for t, f in b[1:]), "renewal beacons have the init flag"
''')
bug(id="b02-request-clock", property="P03",
 edits=[("controller/client.py", "            # Existing request: Add listener\n            if listener:\n                req.add_listener(listener)\n",
         "            # Existing request: Add listener. As somebody still waits for it, keep the request alive.\n            if listener:\n                req.add_listener(listener)\n\n                if send and req.lifetime:\n                    req.lifetime.reset()\n")],
 needs="a lost answer while the parameter is still asked for in every update round: the lifetime is prolonged by every round, so the request never expires",
 breaks="a lost answer is never requested again",
 demo='''
p = plan(15000)
p["cfg"]["inputs"] = []
G.switch(p, [fn("EFFECT_STATE", slot_id="$KemperEffectSlot.EFFECT_SLOT_ID_DLY")])
p["faults"] = [{"dir": "d2c", "t0": 2000, "t1": 2600, "act": "drop"}]
r = run(p)
late = [t for t, d in tx(r, "req") if t > 7000]
print(len(late))
assert len(late) > 10, "the parameter is not requested any more after a lost answer"
''')
bug(id="b03-unknown-aborts", property="P06",
 edits=[("controller/midi.py", "                if isinstance(msg, MIDIUnknownEvent):\n                    continue\n", "                if isinstance(msg, MIDIUnknownEvent):\n                    # Nothing to deliver\n                    return sources, results\n")],
 needs="an unknown message (MIDI clock, active sensing) on one port at the very moment a message arrives on the other port",
 breaks="the message of the other port is lost",
 demo='''
p = plan(6000, peer=False)
p["cfg"]["routings"] = [["din", "usb"], ["usb", "din"]]
for i in range(40):
    p["events"] += [{"t": 1000 + 50.3 * i, "k": "raw", "port": "usb", "hex": K.cc(20, i).hex()}, {"t": 1000 + 50.3 * i, "k": "raw", "port": "din", "hex": "f8"}]
r = run(p)
got = [d for t, d in tx(r)]
print(got)
assert got == [("cc", 20, i) for i in range(40)], "not forwarded"
''')
bug(id="b04-clear-timeout", property="P22",
 edits=[("controller/controller.py", "        if self.__clear_buffer:\n            while True:\n                if not self.__midi.receive():\n                    break\n",
         "        if self.__clear_buffer:\n            # Read until nothing comes any more (limited, so an endless stream does not block the start)\n            for i in range(256):\n                if not self.__midi.receive():\n                    break\n")],
 needs="more than 256 messages waiting at power-on over both ports",
 breaks="the rest of a big backlog is processed as if it had just arrived",
 demo='''
p = plan(6000, peer=False)
G.label(p, "L", cb=fn("ParameterDisplayCallback", mapping=fn("ClientParameterMapping.get", name="m", response=fn("ControlChange", 20, 0))))
p["backlog"] = [{"port": "usb", "hex": (K.cc(20, 55) * 300).hex()}]
r = run(p)
s = screen(r)
print(s.text)
assert s.text["L"] == "", "messages waiting at power-on were shown"
''')
