"""Single source of the property texts: writes /verif/properties.jsonl."""
import json, os
L = "content/lib/pyswitch/"
K = L + "clients/kemper/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=False):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        }})

prop("P01", "Bidirectional session is opened, kept alive, and re-opened after loss",
 "With the bidirectional protocol configured, the controller sends an opening beacon (init flag set) at most every 5 s until the device answers with sense messages, then only renewal beacons (init flag clear) often enough that the granted lease never runs out, and none of these beacons changes its parameter set, lease or tuner flag. When sense messages stop it leaves the connected state no earlier than 1.5 s and no later than 1.5 s plus two update rounds after the last one, and it becomes connected again within 5 s plus two update rounds of the device answering again. The status dot is green while connected and red otherwise, and messages that are not sense messages never count as connection.",
 ["schedules", "fault_sequences", "histories"],
 "every sequence of device outages, reboots, one-way link failures, message loss, delay and stalls of the main loop",
 "Tests poke the protocol object with mocked period counters; the guarantee is about timers, losses and reconnects interleaving over minutes of operation.",
 [K + "__init__.py", L + "controller/client.py", L + "ui/elements.py", L + "misc.py"],
 [["KemperBidirectionalProtocol.update/receive", K + "__init__.py"], ["PeriodCounter", L + "misc.py"], ["BidirectionalProtocolState", L + "ui/elements.py"]],
 ["beacon bytes on the MIDI output", "colour of the protocol state dot"],
 [["session state", "offline / running", K + "__init__.py"], ["init, resend, sensing periods", "timers of the session", K + "__init__.py"]])

prop("P02", "LEDs, labels and rig name converge to the device's real state",
 "Whatever messages were lost, duplicated, delayed or corrupted before, once communication works again every switch LED and label bound to a device parameter, and the rig name label, show the device's current values within a bounded time (5 s for polled parameters; for parameters the device pushes, within two update rounds of the device's last report or the controller's last command). Several actions bound to the same parameter agree with each other. A change made on the device itself is shown just like one made from the controller.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "every history of device-side changes and switch presses under message loss, duplication, delay, corruption, outage and reboot, for every mix of bound effect slots",
 "Tests feed one answer to one mapping; convergence depends on request lifetimes, shared mappings, listener registration and caches over long faulty histories.",
 [L + "controller/client.py", L + "controller/callbacks/__init__.py", L + "controller/callbacks/effect_enable.py", K + "actions/effect_state.py", K + "__init__.py"],
 [["Client.request/receive and ClientRequest", L + "controller/client.py"], ["BinaryParameterCallback.update_displays", L + "controller/callbacks/__init__.py"], ["EffectEnableCallback.update_displays", L + "controller/callbacks/effect_enable.py"], ["KemperRigNameCallback", K + "__init__.py"]],
 ["NeoPixel values", "label text and background", "rig name label"],
 [["mapping value", "last known parameter value shared by all actions", L + "controller/client.py"]])

prop("P03", "Polling discipline: one outstanding request, retry after loss, no useless polls",
 "For every polled parameter at most one request message is on the wire unanswered at a time: it is sent again only after its answer arrived (then at most once per update round and bound action, plus once per press) or after the request lifetime has passed, and after a lost answer it is asked again within 1.5 request lifetimes plus two update rounds. Parameters pushed by an active bidirectional configuration are never requested. The rig name is requested each time the rig date answer differs from the one it was last requested for, again when its own answer got lost, and not otherwise.",
 ["schedules", "fault_sequences", "histories"],
 "every pattern of answered, late, lost, duplicated and unsolicited answers, and every update/lifetime configuration",
 "Tests send one request and one answer; leaks, double requests and lost retries only show in sequences of losses, late answers and clean-up timers.",
 [L + "controller/client.py", L + "controller/callbacks/__init__.py", K + "__init__.py"],
 [["Client._register_mapping / __cleanup_hanging_requests", L + "controller/client.py"], ["Client._DependencyListener", L + "controller/client.py"]],
 ["request messages on the MIDI output"],
 [["request list", "outstanding requests", L + "controller/client.py"]])

prop("P04", "A silent device is shown as unknown, never as its last state",
 "When the device stops answering, every LED and label of a regularly polled parameter (not the rig name, which is only fetched on rig changes) falls back to its 'off / no value' appearance within 1.5 request lifetimes plus two update rounds, and those of session-pushed parameters when the next opening beacon is sent after the loss (only while a switch is held, its own action keeps showing what the press did). The fallback happens for every action bound to the parameter, and a parameter that keeps being answered is never shown as unknown.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "every moment and pattern of device silence (total, per direction, per parameter) and every set of bound actions",
 "Tests call the terminate hook of one listener directly; the guarantee spans expiry timers, shared mappings and answers racing with the expiry.",
 [L + "controller/client.py", L + "controller/callbacks/__init__.py", K + "__init__.py"],
 [["ClientRequest.terminate", L + "controller/client.py"], ["BidirectionalClient.notify_connection_lost", L + "controller/client.py"], ["Callback.request_terminated", L + "controller/callbacks/__init__.py"]],
 ["NeoPixel values", "label text and background"])

prop("P05", "The rig number shown and used is always one the device announced",
 "The device announces its rig as a bank part (control change 32) followed by a program change; the controller adopts 128*bank part + program exactly when a program change arrives after a bank part not yet used, taking the most recent bank part, and ignores a program change without one. Whatever other messages are interleaved between, and whichever parts are lost, repeated or reordered, all displays of rig number and bank (rig label, rig select and bank select LEDs and texts) show the same adopted rig and never a mixture.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving, loss, duplication and reordering of the two-part messages with any other traffic",
 "Tests feed the two messages back to back into a single mapping; several mappings consume the same messages and real traffic interleaves them.",
 [L + "controller/client.py", K + "__init__.py", K + "mappings/select.py", K + "actions/rig_select.py", K + "actions/bank_select.py"],
 [["ClientTwoPartParameterMapping.parse/result_finished", L + "controller/client.py"], ["KemperRigNameCallback.update_label", K + "__init__.py"]],
 ["rig id label", "RIG_SELECT / BANK_SELECT labels and LEDs"],
 [["first value part", "bank part waiting for its program change", L + "controller/client.py"]])

prop("P06", "MIDI routing delivers each message once per route, in order",
 "Every complete message of a known type received on a port is forwarded exactly once to each port routed from it, byte-identical apart from the channel and in arrival order, and nothing else is forwarded; unknown message types and malformed messages are dropped. Messages for the application reach it once, messages the application sends go once to every port it is routed to, and forwarding between ports takes turns, so a port that keeps sending never keeps another port's forwarding waiting. A source routed both to the application and to another port delivers every message to both.",
 ["schedules", "fault_sequences", "configurations"],
 "every set of routings over USB and DIN ports, every arrival pattern, burst and fragmentation of messages",
 "Tests use mock devices with one queued message; loss, duplication and starvation depend on bursts arriving on several ports while the main loop is busy.",
 [L + "controller/midi.py", L + "hardware/adafruit/AdafruitUsbMidiDevice.py", L + "hardware/adafruit/AdafruitDinMidiDevice.py"],
 [["MidiController.receive / __process_external_routings", L + "controller/midi.py"], ["MidiController.send", L + "controller/midi.py"]],
 ["bytes read from and written to each port"])

prop("P07", "No input, message or device behaviour stops the controller",
 "For every configuration built from the shipped actions, no sequence of incoming bytes, switch, pedal and encoder movements, device outages and clock stalls makes the main loop raise or hang: it keeps sampling inputs and updating displays. Every LED value written stays in 0..255 and addresses an existing LED.",
 ["inputs", "schedules", "fault_sequences", "configurations", "histories"],
 "all byte streams (well-formed, truncated, corrupted), all input sequences and all mixes of shipped actions",
 "Tests run each action against the happy path it was written for; a crash needs an action to meet a value, ordering or missing state nobody sampled.",
 [L + "controller/controller.py", L + "controller/client.py", L + "controller/inputs.py", L + "controller/actions/__init__.py", L + "process.py"],
 [["Controller.tick", L + "controller/controller.py"], ["Client.receive", L + "controller/client.py"], ["all actions and callbacks", L + "clients"]],
 ["the main loop itself", "NeoPixel writes"])

prop("P08", "Inputs stay responsive and updates keep running under MIDI load",
 "Between two consecutive samples of any input at most one MIDI message is taken for the application and at most one component is updated, so each switch change that lasts longer than one sampling gap is acted on, in order, however many messages arrive. A backlog never holds up the periodic update: per update step at most the configured maximum plus one messages are handled, and update rounds (polling, blinking, timers) continue at the configured interval, never faster.",
 ["schedules", "fault_sequences", "configurations"],
 "every arrival rate and burst of MIDI traffic, every number of inputs and updateables, every message limit and update interval, with loop stalls",
 "Tests count calls on mocks for a few ticks; latency and starvation appear only when message floods, input edges and update rounds interleave.",
 [L + "controller/controller.py", L + "misc.py"],
 [["Controller.__receive_midi_messages", L + "controller/controller.py"], ["Controller.tick / PeriodCounter.exceeded", L + "controller/controller.py"]],
 ["order of input samples, port reads and outgoing messages"])

prop("P09", "Push-button modes send exactly the documented on/off commands",
 "For every press and release the commands a push-button action sends follow its mode: latch toggles per press, momentary is on exactly while pressed, inverse momentary off while pressed, hold-momentary toggles on press and toggles back on release only if held longer than its hold time, enable/disable only ever switch one way, one-shot sends the on command on every press, no-state-change sends nothing. 'Toggle' is relative to the state currently known, including changes reported by the device in between, and no command is sent when the state would not change.",
 ["schedules", "histories", "configurations"],
 "every press/release timing against the hold time, every interleaving with device-side changes, answers and losses, every mode",
 "Tests press once with a mocked period counter; the commands depend on the timing of presses relative to device reports and polling answers.",
 [L + "controller/actions/__init__.py", L + "controller/callbacks/__init__.py", L + "clients/local/actions/binary_switch.py"],
 [["PushButtonAction.push/release/state", L + "controller/actions/__init__.py"], ["BinaryParameterCallback.state_changed_by_user / evaluate_value", L + "controller/callbacks/__init__.py"]],
 ["set messages on the MIDI output"],
 [["action state", "known on/off state", L + "controller/actions/__init__.py"]])

prop("P10", "A press runs either the short or the hold actions, never both or neither",
 "On a switch with hold actions, a press released before the hold time runs all short actions once (at release) and no hold action; a press held longer runs the hold actions once as soon as the hold time is over, or with repeat enabled once per hold time while held, and no short action. Each press is judged on its own: nothing of an earlier press, repeat cycle or tuner override leaks into a later one. A switch without hold actions runs its short actions at push and their release at release.",
 ["schedules", "histories", "configurations"],
 "every press duration and sequence against the hold time, every loop granularity and stall, with and without repeat",
 "Tests mock the hold period counter; the failure modes are races between the release sample and the hold timer, over several presses.",
 [L + "controller/inputs.py", L + "misc.py"],
 [["SwitchController.process / __check_hold", L + "controller/inputs.py"]],
 ["messages sent by the short and hold actions"],
 [["hold active flags", "whether the current press is undecided or has repeated", L + "controller/inputs.py"]])

prop("P11", "Every pushed action is released exactly once, even if disabled meanwhile",
 "Each action that was pushed by pressing a switch is released exactly once when that switch is let go, in between and no matter whether paging, an enable condition or a rig change has disabled it meanwhile, so momentary effects, rig select buttons and repeating steps never stick. An action that was not pushed by the press (because it was disabled then) is never released by it.",
 ["schedules", "histories", "configurations"],
 "every interleaving of presses on several switches with page changes and enable-state changes while switches are held",
 "Tests keep the enable state constant between push and release; sticking needs a second switch or a device message in between.",
 [L + "controller/inputs.py", L + "controller/actions/__init__.py", L + "clients/local/actions/pager.py"],
 [["SwitchController.process release path", L + "controller/inputs.py"], ["Action.enabled", L + "controller/actions/__init__.py"]],
 ["on/off and press/release messages on the MIDI output"])

prop("P12", "Exactly the selected page's actions react and draw",
 "Actions assigned to a pager's page react to switches, encoders and pedals, and draw on their LEDs and labels, exactly while that page is the selected one; rotating pagers step through the pages in order and wrap, direct page buttons select their page. Two update rounds after a page change all LEDs and labels shared between pages show the selected page's actions with their current values, including values that arrived while the page was hidden, and the pager shows the page's colour and text.",
 ["schedules", "histories", "configurations"],
 "every sequence of page switches, presses and device reports, and every assignment of actions to pages",
 "Tests switch pages once on mocks; leakage between pages depends on reports arriving for hidden pages and caches surviving page changes.",
 [L + "clients/local/actions/pager.py", L + "clients/local/actions/pager_direct.py", L + "controller/actions/__init__.py", L + "controller/controller.py"],
 [["PagerAction.push / _EnableCallback", L + "clients/local/actions/pager.py"], ["DirectPagerProxy", L + "clients/local/actions/pager_direct.py"], ["Action.update / reset", L + "controller/actions/__init__.py"]],
 ["messages per press", "NeoPixel values and labels"])

prop("P13", "LED segments of a switch are shared without gaps, overlap or foreign writes",
 "At every moment the LEDs of a switch are split among its enabled LED-using actions in their order: one action gets all, fewer actions than LEDs give the first one the surplus, and actions beyond the number of LEDs get none; each LED shows its owner's current colour times brightness, within 0..255. An action never changes LEDs of another switch, and actions that are disabled or do not use LEDs never write any.",
 ["schedules", "histories", "configurations"],
 "every number of actions and LEDs per switch, every enable/disable sequence and every order of state reports",
 "Tests compute segments for fixed sets; ownership moves when enable conditions, pages and reports interleave.",
 [L + "controller/actions/__init__.py", L + "controller/inputs.py"],
 [["Action.__get_led_segments / switch_color / switch_brightness", L + "controller/actions/__init__.py"], ["SwitchController.brightnesses", L + "controller/inputs.py"]],
 ["NeoPixel values"])

prop("P14", "Rig and bank buttons bring the device to the rig they name",
 "Pressing a rig-select button makes a reachable device load exactly the configured rig (in its configured bank, or the current one), and pressing it while that rig is active loads the configured or remembered 'off' rig and bank; a bank-select button keeps the rig slot and toggles to its off bank. Every rig command is pressed and released in a pair on the same rig. The button's LED and label show the target or the current rig per its display mode; in target mode they are highlighted exactly while its rig is the active one.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every history of presses, device-side rig changes and lost or late announcements, for every combination of rig, bank, off-rig, off-bank, 'auto' and exclusion settings",
 "Tests check single messages for a given mapping value; the outcome depends on the device's state, the order of bank and rig messages and what was remembered before.",
 [K + "actions/rig_select.py", K + "actions/bank_select.py", K + "mappings/select.py", K + "mappings/bank.py"],
 [["_KemperRigSelectCallback.push/release/update_displays", K + "actions/rig_select.py"], ["KemperBankSelectCallback.push", K + "actions/bank_select.py"]],
 ["rig loaded in the simulated device", "select messages", "LED and label of the button"],
 [["off rig / off bank", "remembered rig to go back to", K + "actions/rig_select.py"]])

prop("P15", "Bank preselection changes nothing until a rig is chosen, then applies once",
 "While a bank is preselected (bank select, bank up/down or bank wheel in preselect mode) the active rig stays, the preselected bank number and blinking LEDs are shown, repeated button steps move the preselected bank by one with wrap-around at the highest bank (the bank wheel stops at the first and last one), and the device is told the same bank that is displayed. Choosing a rig loads that slot in the preselected bank (a rig step: the rig next to the active one) and ends the preselection everywhere; afterwards rig buttons act on the current bank again.",
 ["schedules", "histories", "configurations"],
 "every sequence of preselect steps on several buttons and the wheel, rig choices and device reports in between",
 "Tests run one preselect step on one action; several actions share the preselection state and its blinking owner.",
 [K + "actions/bank_up_down.py", K + "actions/bank_select.py", K + "actions/bank_select_encoder.py", K + "actions/rig_select.py", K + "__init__.py"],
 [["KemperBankChangeCallback", K + "actions/bank_up_down.py"], ["shared preselectedBank / preselectCallback / preselectBlinkState", K + "actions/bank_select.py"]],
 ["rig loaded in the simulated device", "rig name label", "button LEDs"],
 [["preselectedBank", "bank chosen but not yet applied", K + "actions/bank_select.py"]])

prop("P16", "Every encoder step moves the parameter by exactly one step width",
 "Turning an encoder sends, for each observed movement, the current value plus step width times steps (fractional step widths are rounded to whole values without accumulating an error), limited to the parameter's range, where the current value is the last one sent or reported by the device; turning back and forth inside the range returns to the start value and nothing is sent without movement, for movements while the encoder is disabled, or when the limit is already reached. This holds for movements of any size between two samples, fractional step widths, and while other encoders or the device itself change the same parameter.",
 ["schedules", "histories", "configurations", "inputs"],
 "every movement sequence, sampling granularity, step width and interleaving with device reports and other controls",
 "Tests turn one step at a time with a fixed mapping value; lost or doubled steps need movements, reports and other controls to interleave.",
 [L + "controller/actions/EncoderAction.py", L + "controller/inputs.py"],
 [["EncoderAction.process", L + "controller/actions/EncoderAction.py"]],
 ["set messages on the MIDI output"],
 [["last position / last value", "reference for the next delta", L + "controller/actions/EncoderAction.py"]])

prop("P17", "Encoder preselection is sent only on accept, and dropped on cancel",
 "With an accept button configured, turning the encoder sends nothing and previews the value that accepting would send, starting from the parameter's current value; accept sends exactly that value once, cancel or a change of the tracked reset parameter drops it and the preview, and a later turn starts again from the then current value. Accepting without a pending preselection sends nothing, and starting a preselection on another encoder sharing the display drops the first one.",
 ["schedules", "histories", "configurations"],
 "every sequence of turns, accepts, cancels, device reports and resets on one or two encoders sharing a display",
 "Tests run turn-accept once from a fresh object; stale start values and leftovers need earlier accepts, cancels or reports.",
 [L + "controller/actions/EncoderAction.py", L + "controller/preview.py", L + "clients/local/actions/encoder_button.py"],
 [["EncoderAction.accept/cancel", L + "controller/actions/EncoderAction.py"], ["ValuePreview", L + "controller/preview.py"]],
 ["set messages", "preview label text"])

prop("P18", "Pedal values are in range, rate limited, and settle on the final position",
 "The value sent for a pedal is the pedal position scaled to the parameter range (quantised, 0 below the raw threshold, full value at the end stop), always within range; messages are never closer together than the configured frame rate, are sent only when the value differs from the last one sent, and once the pedal rests the last value sent is that of its resting position within one frame. With auto calibration nothing is sent until the observed travel covers the minimum window, and from then on the ends of the observed travel map to the ends of the range.",
 ["schedules", "inputs", "histories", "configurations"],
 "every pedal motion (noise, sweeps, jumps), sampling granularity, stall, range, step count and calibration window",
 "Tests feed single values with a mocked timer; settling and calibration depend on motion sampled through the rate limiter.",
 [L + "controller/actions/AnalogAction.py", L + "controller/inputs.py"],
 [["AnalogAction.process", L + "controller/actions/AnalogAction.py"]],
 ["set messages and their times"],
 [["calibration window", "observed travel", L + "controller/actions/AnalogAction.py"]])

prop("P19", "Parameter up/down steps once per press, repeats while held, stops on release",
 "Each press of a parameter up/down button sends the known value plus its offset limited to the range, then repeats while held, never faster than the repeat interval and never after release; without a known value nothing is sent. Successive steps build on the last value sent or reported.",
 ["schedules", "histories", "configurations"],
 "every press length and sequence, update and repeat interval, and interleaving with device reports, value loss and paging",
 "Tests call push and update with mocked timers; runaway repeats and lost steps need releases, reports and updates to race.",
 [L + "clients/local/actions/param_change.py"],
 [["_ParameterChangeCallback.push/update/release", L + "clients/local/actions/param_change.py"]],
 ["set messages and their times"])

prop("P20", "Temporary previews always give the label back",
 "A value preview on a label whose content comes from a callback shows the new value at once, stays at least its timeout after the last change (as long as pending for preselections, blinking in the blink colour), and then the label shows its normal, current content in its normal colour again within one update round; changes to the underlying content during the preview are visible afterwards. A preview from one source replaces that of another on the same label, and never appears on other labels.",
 ["schedules", "histories", "configurations"],
 "every interleaving of previews from several encoders, pedals, buttons and tempo changes on one label with timeouts, accept/cancel and content changes",
 "Tests drive one preview with a mocked timer; stuck or lost overlays need several sources and content updates to overlap.",
 [L + "controller/preview.py", L + "ui/elements.py"],
 [["ValuePreview.preview/reset/update", L + "controller/preview.py"], ["DisplayLabel.update_label / override_text", L + "ui/elements.py"]],
 ["label text and text colour over time"],
 [["override text", "text shown instead of the normal one", L + "ui/elements.py"]])

prop("P21", "Tuner mode takes over the switches and hands everything back",
 "While the device is in tuner mode the tuner screen is shown with the reported note and in-tune colour, switch LEDs show nothing of their actions, and switches trigger no action: letting go of a switch that was pressed during tuner mode sends tuner-off exactly once (a switch pressed before only releases what it had pushed). When tuner mode ends, however it was ended, the normal screen, all LEDs and labels show the current state again and every switch works as before.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "every interleaving of switch presses and releases with tuner on/off reports, connection loss and parameter changes during tuner mode",
 "Tests toggle the mapping once with mock inputs; the hand-over races with switches already pressed, hold timers and reports for hidden displays.",
 [K + "__init__.py", K + "actions/tuner.py", L + "controller/inputs.py", L + "ui/UiController.py", L + "ui/elements.py"],
 [["TunerDisplayCallback.parameter_changed/push/release", K + "__init__.py"], ["SwitchController.override_action", L + "controller/inputs.py"], ["UiController.show", L + "ui/UiController.py"]],
 ["screen shown", "NeoPixel values", "tuner-off and action messages"])

prop("P22", "Messages queued before start are discarded, later ones are not",
 "At start-up all MIDI messages already waiting are consumed without any effect on actions or displays (unless clearing is disabled, in which case they are processed normally), nothing that arrives after the queue was found empty is discarded, and the controller enters its loop whatever finite backlog was waiting.",
 ["inputs", "schedules", "configurations"],
 "every backlog content and size on every routed port, and every arrival time around the start",
 "Tests mock receive() with a fixed list; what counts as waiting depends on port buffers, routings and arrival timing.",
 [L + "controller/controller.py", L + "controller/midi.py"],
 [["Controller.init", L + "controller/controller.py"]],
 ["displays and outgoing messages after start", "port reads"])

prop("P23", "On/off state and restored values follow the received parameter value exactly",
 "A switch action bound to a parameter shows on exactly when the last received value satisfies its comparison (equal, greater, greater-equal, less, less-equal) with its reference value, and off without a value; the values it sends for on and off arrive at the device unchanged over the whole 7-bit or 14-bit range. With automatic off-values, switching off restores the value the parameter last had while the action was off.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every history of reported values, presses and losses, and every comparison mode, reference and range",
 "Tests check a few values per mode; the remembered off-value and the displayed state depend on the order of reports, presses and answers.",
 [L + "controller/callbacks/__init__.py", L + "controller/client.py"],
 [["BinaryParameterCallback.evaluate_value / state_changed_by_user", L + "controller/callbacks/__init__.py"], ["ClientParameterMapping.set_value / parse_against", L + "controller/client.py"]],
 ["LED and label state", "set messages, decoded by the simulated device"])

prop("P24", "Custom, rotating and keyboard buttons emit exactly their messages, in rotation",
 "Each press of a custom, rotating or Boomerang button emits exactly the configured raw bytes for the current rotation position (and each release its release bytes), positions advance by one per press and wrap, and LED, label text and colour always show the current position. A keyboard button types its keys once per press in order, and a failing or absent USB host affects nothing else.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every press sequence over several such buttons, rotations of different lengths, and USB host failures at any keystroke",
 "Tests press a fresh button a few times; rotation state, shared switches and host failures interleave in use.",
 [L + "clients/local/actions/custom.py", L + "clients/local/actions/rotate.py", L + "clients/boomerang/actions/boomerang.py", L + "clients/local/actions/hid.py"],
 [["_CustomMessagesCallback", L + "clients/local/actions/rotate.py"], ["HidCallback.push", L + "clients/local/actions/hid.py"]],
 ["raw bytes on the MIDI output", "keystrokes", "LEDs and labels"])

prop("P25", "Rig and bank step buttons move by one and wrap as configured",
 "Rig up/down moves the device by exactly one rig per press from the rig last announced, staying inside the bank when configured to keep it (no message at its edge) and otherwise continuing into the neighbouring bank with wrap-around from the last to the first rig overall; bank up/down sends one bank step per press. Labels in target mode show the rig the next press would load.",
 ["histories", "schedules", "configurations", "fault_sequences"],
 "every sequence of presses and announcements from every rig, with late or lost announcements",
 "Tests check a few rigs; edges, wrap-around and late announcements combine over histories.",
 [K + "actions/rig_up_down.py", K + "actions/bank_up_down.py", K + "mappings/bank.py"],
 [["_KemperRigChangeCallback.__get_next_rig", K + "actions/rig_up_down.py"], ["KemperBankChangeCallback.push", K + "actions/bank_up_down.py"]],
 ["rig loaded in the simulated device", "select messages", "labels"])

prop("P26", "The displayed morph state follows the device and the morph buttons",
 "The morph colour shown is always the mix of base and morphed colour given by the last morph position known: the one reported by the device, set to fully morphed or base by the morph button or a second press on the active rig's button, and reset to base whenever another rig or bank is selected from the controller. All morph displays agree after two update rounds; a morph display meant for the active rig only leaves its LEDs to the rig button otherwise, and one of a disabled rig button is not shown.",
 ["histories", "schedules", "configurations"],
 "every interleaving of morph reports, morph button presses, rig and bank selections",
 "Tests set the shared value by hand; the displayed value is produced by several actions writing one shared state.",
 [K + "actions/morph.py", K + "actions/rig_select_and_morph_state.py", K + "actions/rig_select.py"],
 [["KemperMorphCallback / _get_color", K + "actions/morph.py"], ["shared morphStateOverride", K + "actions/rig_select.py"]],
 ["NeoPixel values"],
 [["morphStateOverride", "last known morph position", K + "actions/morph.py"]])

prop("P27", "Explore mode reports every press on every usable pin",
 "In explore mode every pin that can be opened as an input is listened to (pins that cannot are skipped), each press marks exactly that pin's label as the latest and the previous one as already seen, and moves the lit LED group one position forward or backward with wrap-around so that the displayed pixel numbers are those lit.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every press sequence over every set of usable pins, including simultaneous presses and pins failing to open",
 "Tests press a few mocked pins; wrap-around, overlap and pins that cannot be opened combine freely.",
 [L + "controller/explore.py", L + "process.py"],
 [["ExploreModeController.show_next_switch / __init_switches", L + "controller/explore.py"]],
 ["labels", "NeoPixel values"])

prop("P28", "The strobe tuner and tempo light draw only when and how they should",
 "While the tuner is on and the strobe enabled, the LEDs of all switches form one pattern moving forward for positive and backward for negative deviance (mirrored when reversed), resting when in tune, updated no faster than the frame limit and never beyond the configured dimming; without tuner mode it draws nothing. The tempo light follows the device's beat pulses, is silent in tuner mode, and shows the reported tempo value.",
 ["schedules", "histories", "configurations", "inputs"],
 "every deviance sequence, report rate, number of switches and frame limit, interleaved with tuner on/off and beat pulses",
 "Tests check a few fixed steps; direction and limits are properties of whole report sequences against time.",
 [L + "controller/strobe.py", K + "actions/tempo.py", K + "__init__.py"],
 [["StrobeController.__update_strobe", L + "controller/strobe.py"], ["_KemperShowTempoCallback.update_displays", K + "actions/tempo.py"]],
 ["NeoPixel values over time"])

W = "web/htdocs/"
prop("P29", "Files transferred over the MIDI bridge arrive exactly as sent or not at all",
 "A file delivered by the browser application's MIDI file transfer has exactly the path and text that were sent, never truncated, altered or mixed with another transfer, and is delivered at most once per announcement received, whatever messages are lost, repeated, delayed, reordered or damaged and however many transfers run at once in both directions. A transfer none of whose own messages is disturbed completes - empty files and any Unicode text included, in pieces no larger than agreed - and its sender is told exactly then; a request for a file that is missing or cannot be read is answered with an error at the requester. A damaged message is reported to the other side, foreign MIDI traffic is ignored, and the traffic always comes to an end, after which new transfers work.",
 ["fault_sequences", "schedules", "inputs", "histories"],
 "every set of files and concurrent transfers, every latency and slowness of the callbacks, every sequence of lost, repeated, delayed and damaged messages",
 "There are no tests of the transfer that run here; its races need a repeated message at one point of an asynchronous send.",
 [W + "lib/jsmidibridge/JsMidiBridge.js", W + "js/midi/MidiBridgeHandler.js", W + "js/midi/MidiHandler.js"],
 [["JsMidiBridge.receive / #receiveData / #receiveAck / #sendNextChunk", W + "lib/jsmidibridge/JsMidiBridge.js"], ["MidiBridgeHandler.connect", W + "js/midi/MidiBridgeHandler.js"], ["MidiHandler.#initReceive", W + "js/midi/MidiHandler.js"]],
 ["messages on the MIDI ports", "progress, finish, acknowledge and error callbacks"])

prop("P30", "Loading and saving work with every controller after any switching and scanning",
 "In the browser application, after any sequence of scanning for controllers, connecting to one, switching to others and back, and failed attempts, loading the configuration of a listening controller yields exactly the files stored there (an error if one is missing) and saving one stores exactly those files on that controller and changes no other. A scan reports exactly one result: a port where a controller is listening if there is one, otherwise - once, within three seconds - that there is none; connecting to a port where nobody answers fails in bounded time. No earlier connection or attempt interferes: each message of a controller is answered once, anything else listening to a port gets each of its messages exactly once, and the traffic comes to an end.",
 ["histories", "schedules", "configurations", "inputs"],
 "every set of ports and controllers, every latency, and every sequence of scans, loads, saves, switches and controllers being switched off and on",
 "The browser tests do not cover connections; the failures need a certain history of earlier connections on the same ports.",
 [W + "js/DeviceController.js", W + "js/midi/MidiBridgeHandler.js", W + "js/midi/MidiHandler.js", W + "lib/jsmidibridge/JsMidiBridge.js"],
 [["DeviceController.connect / scan / loadFile / saveFile / saveConfig", W + "js/DeviceController.js"], ["MidiHandler.scan", W + "js/midi/MidiHandler.js"], ["MidiBridgeHandler.connect / detach", W + "js/midi/MidiBridgeHandler.js"]],
 ["messages on the MIDI ports", "results of load, save and scan", "files on the controllers"])

def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    main()
