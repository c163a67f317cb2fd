From b6615b8394d53f895d7ec1fa544ef56dfcdfdbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 01/52] fix: notify all listeners of a mapping with a
 dependency (second rig name label was never updated)

---
 content/lib/pyswitch/controller/client.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 7db96cc..742b52e 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -241,13 +241,19 @@ class Client: #(ClientRequestListener):
             self.__client = client
             self.__orig_mapping = orig_mapping
             self.__last_value = None
-            self.__listener = listener
+            self.__listeners = [listener]
+
+        # All listeners which requested the mapping have to be notified
+        def add_listener(self, listener):
+            if listener not in self.__listeners:
+                self.__listeners.append(listener)
 
         def parameter_changed(self, mapping):
             if mapping.value != self.__last_value:
                 self.__last_value = mapping.value
 
-                self.__client._register_mapping(self.__orig_mapping, self.__listener, True)           
+                for listener in self.__listeners:
+                    self.__client._register_mapping(self.__orig_mapping, listener, True)           
         
         def request_terminated(self, mapping):
             pass
@@ -318,6 +324,8 @@ class Client: #(ClientRequestListener):
         if mapping.depends:
             if not mapping in self.__dependencies:
                 self.__dependencies[mapping] = self._DependencyListener(self, mapping, listener)
+            else:
+                self.__dependencies[mapping].add_listener(listener)
 
             # Register the dependency rather than the mapping itself
             self._register_mapping(mapping.depends, self.__dependencies[mapping], True)
-- 
2.43.0


From 75c3f3fa022fb745e3bce7f9e64aa733c5554824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 02/52] fix: request a dependent mapping (rig name) again when
 its answer got lost

---
 content/lib/pyswitch/controller/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 742b52e..3075101 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -249,7 +249,8 @@ class Client: #(ClientRequestListener):
                 self.__listeners.append(listener)
 
         def parameter_changed(self, mapping):
-            if mapping.value != self.__last_value:
+            # If the value of the mapping is not known (the answer got lost), it has to be requested again
+            if mapping.value != self.__last_value or self.__orig_mapping.value == None:
                 self.__last_value = mapping.value
 
                 for listener in self.__listeners:
-- 
2.43.0


From 44e5f4a023b0ebe773eafa1fcd676ede489f219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:09 +0000
Subject: [PATCH 03/52] fix: deliver all messages of a port routed to another
 port and to the application to both

---
 content/lib/pyswitch/controller/midi.py | 32 +++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/content/lib/pyswitch/controller/midi.py b/content/lib/pyswitch/controller/midi.py
index 9a36f32..02ec7a5 100755
--- a/content/lib/pyswitch/controller/midi.py
+++ b/content/lib/pyswitch/controller/midi.py
@@ -61,28 +61,44 @@ class MidiController:
         self.__routings_to_appl = [x for x in routings if x.target == MidiRouting.APPLICATION]
         self.__routings_external = [x for x in routings if x.source != MidiRouting.APPLICATION and x.target != MidiRouting.APPLICATION]
 
+        # Messages already received but not delivered to the application yet
+        self.__appl_queue = []
+
     def send(self, midi_message):
         # Send to all routings which have APPLICATION as source
         for r in self.__routings_from_appl:    
             r.target.send(midi_message)
 
     def receive(self):
+        if self.__appl_queue:
+            return self.__appl_queue.pop(0)
+
         # Process routings without APPLICATION involved 
-        self.__process_external_routings()
+        sources, results = self.__process_external_routings()
 
         # Process routings targeting APPLICATION
         for r in self.__routings_to_appl:
-            msg = r.source.receive()
+            if r.source in sources:
+                # Also routed externally: The message has already been taken from the source 
+                msg = results[sources.index(r.source)]
+
+            elif not self.__appl_queue:
+                msg = r.source.receive()
+
+            else:
+                continue
 
             if msg:
-                # Return first message for APPLICATION in the queue (next ticks will deliver the next messages)
-                return msg                
+                self.__appl_queue.append(msg)
+
+        if self.__appl_queue:
+            # Return first message for APPLICATION in the queue (next ticks will deliver the next messages)
+            return self.__appl_queue.pop(0)
     
-    # Process all routings where APPLICATION is not involved (this processes one message of each source every time)
+    # Process all routings where APPLICATION is not involved (this processes one message of each source every time).
+    # Returns the sources and the messages received from them.
     def __process_external_routings(self):
         routings = self.__routings_external
-        if not routings:
-            return
         
         # Get all sources messages
         sources = []
@@ -115,3 +131,5 @@ class MidiController:
                 r.target.send(msg)
 
                 break
+
+        return sources, results
-- 
2.43.0


From 5f4005a5fbe32ed0492ae1f3c39ea8a31440f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:22 +0000
Subject: [PATCH 04/52] fix: release exactly the actions a push has pushed, and
 judge each push of a switch on its own

---
 content/lib/pyswitch/controller/inputs.py | 42 ++++++++++++++---------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 60ae017..5b7bf64 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -45,6 +45,9 @@ class SwitchController:
         self.__hold_active = False
         self.__hold_was_active = False
 
+        # Actions which have been pushed and not been released yet
+        self.__pushed_actions = []
+
         self.__actions = _flatten_actions(get_option(config, "actions", []))
         self.__actions_hold = _flatten_actions(get_option(config, "actionsHold", []))
         
@@ -76,29 +79,28 @@ class SwitchController:
 
                 # Process all release actions assigned to the switch 
                 def release():
-                    if self.__actions_hold:    
-                        if not self.__hold_active:
-                            return
-                                                
-                        if self.__check_hold():
-                            return
-
-                        if self.__hold_was_active:
-                            self.__hold_active = False
-                            self.__hold_was_active = False
-                            return
+                    if not self.__actions_hold:
+                        # Release what has been pushed (exactly these: The actions might have been enabled or disabled since)
+                        for action in self.__pushed_actions:
+                            action.release()
+
+                        return
+
+                    if not self.__hold_active:
+                        return
+                                            
+                    if self.__check_hold():
+                        return
+
+                    if self.__hold_was_active:
+                        return
 
                     for action in self.__actions:
                         if not action.enabled:
                             continue
 
-                        if self.__actions_hold:
-                            action.push()
-
+                        action.push()
                         action.release()
-
-                    self.__hold_active = False
-                    self.__hold_was_active = False
                     
                 if self.override_action:
                     if self.override_action.release():
@@ -106,6 +108,11 @@ class SwitchController:
                 else:
                     release()
 
+                # Nothing of this push must influence the next one
+                self.__pushed_actions = []
+                self.__hold_active = False
+                self.__hold_was_active = False
+
             return
         else:
             if self.__hold_active and self.__check_hold():
@@ -131,6 +138,7 @@ class SwitchController:
             if not action.enabled:
                 continue
 
+            self.__pushed_actions.append(action)
             action.push()
 
     # Checks hold time and triggers hold action if exceeded.
-- 
2.43.0


From 25dc555553a8ebc65845b0ff17bb931a37ff1cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 05/52] fix: neither trigger pending hold actions nor end tuner
 mode with a push made before tuner mode started

---
 content/lib/pyswitch/controller/inputs.py | 24 ++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 5b7bf64..df02ecb 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -45,8 +45,9 @@ class SwitchController:
         self.__hold_active = False
         self.__hold_was_active = False
 
-        # Actions which have been pushed and not been released yet
+        # Actions (and override action) which have been pushed and not been released yet
         self.__pushed_actions = []
+        self.__pushed_override = None
 
         self.__actions = _flatten_actions(get_option(config, "actions", []))
         self.__actions_hold = _flatten_actions(get_option(config, "actionsHold", []))
@@ -65,7 +66,7 @@ class SwitchController:
 
         # This can be set to override any actions for this switch. Must be an Action instance 
         # (or at least have push/release methods).
-        self.override_action = None
+        self.__override_action = None
 
         # Sort order for the strobe tuner
         self.strobe_order = get_option(config["assignment"], "strobeOrder", 0)
@@ -103,13 +104,15 @@ class SwitchController:
                         action.release()
                     
                 if self.override_action:
-                    if self.override_action.release():
+                    # Only release the override if it has been active already when the switch was pushed
+                    if self.__pushed_override == self.override_action and self.override_action.release():
                         release()
                 else:
                     release()
 
                 # Nothing of this push must influence the next one
                 self.__pushed_actions = []
+                self.__pushed_override = None
                 self.__hold_active = False
                 self.__hold_was_active = False
 
@@ -125,6 +128,8 @@ class SwitchController:
         self.__pushed_state = True
 
         if self.override_action:
+            self.__pushed_override = self.override_action
+
             if not self.override_action.push():
                 return
 
@@ -165,6 +170,19 @@ class SwitchController:
     def actions(self):
         return self.__actions + self.__actions_hold
 
+    # Action which overrides all actions of the switch (or None)
+    @property
+    def override_action(self):
+        return self.__override_action
+
+    @override_action.setter
+    def override_action(self, action):
+        if action and not self.__override_action:
+            # Do not trigger actions for a push which has not been decided yet
+            self.__hold_active = False
+
+        self.__override_action = action
+
     # Return if the (hardware) switch is currently pushed
     @property
     def pushed(self):
-- 
2.43.0


From 9f1ee77a8a1b9c1a1b2baaa18749395f36abf128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:28 +0000
Subject: [PATCH 06/52] fix: give the switches back when the connection is lost
 in tuner mode

---
 .../lib/pyswitch/clients/kemper/__init__.py   | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 6737b30..71d2ae3 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -172,6 +172,7 @@ class TunerDisplayCallback(Callback):
         self.__splash_default = splash_default
         self.__process_overridden_actions = process_overridden_actions
         self.__pushed_before = False
+        self.__tuner_on = False
         
         if not self.__splash_tuner:
             self.__splash_tuner = TunerDisplay(
@@ -220,6 +221,8 @@ class TunerDisplayCallback(Callback):
         
         if self.__mapping.value == 1:
             # Tuner on
+            self.__tuner_on = True
+
             for input in self.__appl.inputs:
                 if hasattr(input, "pixels"):
                     input.override_action = self
@@ -228,13 +231,24 @@ class TunerDisplayCallback(Callback):
                         input.color = Colors.WHITE
                         input.brightness = 0
         else:
-            # Tuner off
-            for input in self.__appl.inputs:
-                if hasattr(input, "pixels"):
-                    input.override_action = None
+            self.__tuner_off()
+
+    # When the connection is lost during tuner mode, nobody would give back the switches
+    def request_terminated(self, mapping):
+        super().request_terminated(mapping)
+
+        if mapping == self.__mapping and self.__tuner_on:
+            self.__tuner_off()
+
+    def __tuner_off(self):
+        self.__tuner_on = False
+
+        for input in self.__appl.inputs:
+            if hasattr(input, "pixels"):
+                input.override_action = None
 
-                    for action in input.actions:
-                        action.reset()
+                for action in input.actions:
+                    action.reset()
 
     def push(self):
         self.__pushed_before = True
-- 
2.43.0


From 8a52d7aa73a638bed3ff29c2a3b773ce08d2b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:15 +0000
Subject: [PATCH 07/52] fix: do not forget that a held momentary action is on
 when it is disabled or reset

---
 content/lib/pyswitch/controller/actions/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/actions/__init__.py b/content/lib/pyswitch/controller/actions/__init__.py
index e3c91db..b4cceeb 100755
--- a/content/lib/pyswitch/controller/actions/__init__.py
+++ b/content/lib/pyswitch/controller/actions/__init__.py
@@ -228,6 +228,7 @@ class PushButtonAction(Action):
             self.__period = PeriodCounter(hold_time_ms)
         
         self.__state = False
+        self.__pushed = False
 
     @property
     def state(self):
@@ -257,6 +258,7 @@ class PushButtonAction(Action):
     # Button pushed
     def push(self):
         mode = self.__mode
+        self.__pushed = True
 
         if mode == self.ENABLE:
             # Enable
@@ -290,6 +292,7 @@ class PushButtonAction(Action):
     # Button released
     def release(self):
         mode = self.__mode
+        self.__pushed = False
 
         if mode == self.MOMENTARY:
             self.state = False
@@ -310,6 +313,10 @@ class PushButtonAction(Action):
     # Reset the action: Set False state without sending anything
     def reset(self):
         super().reset()
-        self.__state = False
+
+        # When the switch is held, the state is needed to switch back at release
+        if not self.__pushed:
+            self.__state = False
+
         self.update_displays()
 
-- 
2.43.0


From fe28028460e29ca11cb0d59b62ada4648ee03eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:09 +0000
Subject: [PATCH 08/52] fix: evaluate the state of an effect slot again when
 its effect type changes

---
 .../lib/pyswitch/controller/callbacks/effect_enable.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/effect_enable.py b/content/lib/pyswitch/controller/callbacks/effect_enable.py
index 2eba1e8..7727942 100644
--- a/content/lib/pyswitch/controller/callbacks/effect_enable.py
+++ b/content/lib/pyswitch/controller/callbacks/effect_enable.py
@@ -44,12 +44,22 @@ class EffectEnableCallback(BinaryParameterCallback):
 
         self.__current_kpp_type = self.mapping_fxtype.value
 
+        # The state has to be evaluated again, also if the value of the state is still the same
+        super().reset()
+
         # Effect category text
         if self.action.label:
             self.action.label.text = self.get_effect_category_text(self.__effect_category, self.mapping_fxtype.value)
 
         super().update_displays()
 
+    # Evaluate a new value (without an effect, there is nothing to be enabled)
+    def evaluate_value(self, value):
+        if self.__effect_category == self.CATEGORY_NONE:
+            self.action.feedback_state(False)
+        else:
+            super().evaluate_value(value)
+
     # Must return the effect category for a mapping value
     def get_effect_category(self, kpp_effect_type):
         pass                                           # pragma: no cover
-- 
2.43.0


From 8495636eb6695e47940420c02b4b737995b3b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:26 +0000
Subject: [PATCH 09/52] fix: show the real state again when a command of a
 switch has been lost

---
 .../lib/pyswitch/controller/callbacks/__init__.py  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/__init__.py b/content/lib/pyswitch/controller/callbacks/__init__.py
index 9f68186..f753e1f 100644
--- a/content/lib/pyswitch/controller/callbacks/__init__.py
+++ b/content/lib/pyswitch/controller/callbacks/__init__.py
@@ -156,6 +156,7 @@ class BinaryParameterCallback(Callback):
         self.__use_internal_state = use_internal_state
 
         self.__current_value = self       # Just some value which will never occur as a mapping value ;)
+        self.__unconfirmed = 0            # Number of answers to wait for until a command sent can be expected to be reflected
 
         self.reset()
 
@@ -219,9 +220,22 @@ class BinaryParameterCallback(Callback):
                 self.__appl.client.set(set_mapping, value)
 
         # Request value
+        self.__unconfirmed = 2 if self.mapping.request else 0
         self.update()
 
 
+    def parameter_changed(self, mapping):
+        if self.__unconfirmed and mapping == self.mapping:
+            self.__unconfirmed -= 1
+
+            # The first answer can be older than the command, the second one is not: Take it over in any case, 
+            # even if the value is still the same (the command has been lost then)
+            if not self.__unconfirmed:
+                self.__current_value = self
+
+        super().parameter_changed(mapping)
+
+
     # Reset state
     def reset(self):
         self._current_display_state = -1
-- 
2.43.0


From aea33a3dbb2ac455e78679324b4306fd6479652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:42 +0000
Subject: [PATCH 10/52] fix: keep the state of a held switch until it is
 released, even if the parameter becomes unknown meanwhile

---
 .../pyswitch/controller/actions/__init__.py   | 20 +++++++++++++++----
 .../pyswitch/controller/callbacks/__init__.py |  6 +++++-
 .../controller/callbacks/effect_enable.py     | 10 ++++++++--
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/__init__.py b/content/lib/pyswitch/controller/actions/__init__.py
index b4cceeb..3fe7e36 100755
--- a/content/lib/pyswitch/controller/actions/__init__.py
+++ b/content/lib/pyswitch/controller/actions/__init__.py
@@ -229,6 +229,7 @@ class PushButtonAction(Action):
         
         self.__state = False
         self.__pushed = False
+        self.__unknown = False
 
     @property
     def state(self):
@@ -254,6 +255,15 @@ class PushButtonAction(Action):
     # is set here again, but no functional update is done.
     def feedback_state(self, state):
         self.__state = state
+        self.__unknown = False
+
+    # Like feedback_state(False), to be used when the state is not known. As long as the switch is 
+    # pushed, this is postponed: The state is needed to switch back at release.
+    def feedback_unknown(self):
+        if self.__pushed:
+            self.__unknown = True
+        else:
+            self.__state = False
 
     # Button pushed
     def push(self):
@@ -310,13 +320,15 @@ class PushButtonAction(Action):
             self.__state = False
             self.update_displays()
 
+        if self.__unknown:
+            self.__unknown = False
+            self.__state = False
+            self.update_displays()
+
     # Reset the action: Set False state without sending anything
     def reset(self):
         super().reset()
 
-        # When the switch is held, the state is needed to switch back at release
-        if not self.__pushed:
-            self.__state = False
-
+        self.feedback_unknown()
         self.update_displays()
 
diff --git a/content/lib/pyswitch/controller/callbacks/__init__.py b/content/lib/pyswitch/controller/callbacks/__init__.py
index f753e1f..b588ba1 100644
--- a/content/lib/pyswitch/controller/callbacks/__init__.py
+++ b/content/lib/pyswitch/controller/callbacks/__init__.py
@@ -266,7 +266,11 @@ class BinaryParameterCallback(Callback):
     def evaluate_value(self, value):
         state = False
 
-        if value != None:
+        if value == None:
+            self.action.feedback_unknown()
+            return
+        
+        else:
             mode = self.__comparison_mode
 
             if mode == self.EQUAL:
diff --git a/content/lib/pyswitch/controller/callbacks/effect_enable.py b/content/lib/pyswitch/controller/callbacks/effect_enable.py
index 7727942..93d4c84 100644
--- a/content/lib/pyswitch/controller/callbacks/effect_enable.py
+++ b/content/lib/pyswitch/controller/callbacks/effect_enable.py
@@ -36,7 +36,7 @@ class EffectEnableCallback(BinaryParameterCallback):
         self.__effect_category = self.get_effect_category(self.mapping_fxtype.value) if self.mapping_fxtype.value != None else self.CATEGORY_NONE
         
         if self.__effect_category == self.CATEGORY_NONE:
-            self.action.feedback_state(False)
+            self.__feedback_no_effect()
 
         if self.__current_kpp_type == self.mapping_fxtype.value:
             super().update_displays()
@@ -56,10 +56,16 @@ class EffectEnableCallback(BinaryParameterCallback):
     # Evaluate a new value (without an effect, there is nothing to be enabled)
     def evaluate_value(self, value):
         if self.__effect_category == self.CATEGORY_NONE:
-            self.action.feedback_state(False)
+            self.__feedback_no_effect()
         else:
             super().evaluate_value(value)
 
+    def __feedback_no_effect(self):
+        if self.mapping_fxtype.value == None:
+            self.action.feedback_unknown()
+        else:
+            self.action.feedback_state(False)
+
     # Must return the effect category for a mapping value
     def get_effect_category(self, kpp_effect_type):
         pass                                           # pragma: no cover
-- 
2.43.0


From 77c3aa3f94fa0438d15dacdea22b3dd34ad53f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 11/52] fix: release what has been pushed before tuner mode
 started, when the switch is let go in tuner mode

---
 content/lib/pyswitch/clients/kemper/actions/tuner.py | 5 +++++
 content/lib/pyswitch/controller/inputs.py            | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/tuner.py b/content/lib/pyswitch/clients/kemper/actions/tuner.py
index 40eb2f0..b9b16d2 100755
--- a/content/lib/pyswitch/clients/kemper/actions/tuner.py
+++ b/content/lib/pyswitch/clients/kemper/actions/tuner.py
@@ -34,6 +34,11 @@ class _TunerModeCallback(BinaryParameterCallback):
         self.__appl = appl
 
     def state_changed_by_user(self):
+        if not self.action.state and self.action.switch.override_action:
+            # Do not switch off the tuner immediately when the button is released
+            self.action.feedback_state(True)
+            return
+
         # Code from BinaryParameterCallback.state_changed_by_user (implemented here directly to reduce stack size)
         self.__appl.client.set(self.__mapping, self._value_enable if self.action.state else self._value_disable)
         
diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index df02ecb..daf27a2 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -104,8 +104,9 @@ class SwitchController:
                         action.release()
                     
                 if self.override_action:
-                    # Only release the override if it has been active already when the switch was pushed
-                    if self.__pushed_override == self.override_action and self.override_action.release():
+                    # Only release the override if it has been active already when the switch was pushed. If not,
+                    # just release what has been pushed before.
+                    if not self.__pushed_override or (self.__pushed_override == self.override_action and self.override_action.release()):
                         release()
                 else:
                     release()
-- 
2.43.0


From e069a297f2c87e48ab3f3760a4f21d12c6ab376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 12/52] fix: a USB host which does not accept keys must not
 stop the controller

---
 content/lib/pyswitch/clients/local/actions/hid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/hid.py b/content/lib/pyswitch/clients/local/actions/hid.py
index ebd6314..4dfcf5a 100755
--- a/content/lib/pyswitch/clients/local/actions/hid.py
+++ b/content/lib/pyswitch/clients/local/actions/hid.py
@@ -48,8 +48,12 @@ class HidCallback(Callback):
         if not kbd:
             return
 
-        for code in self.__keycodes:
-            kbd.send(code)
+        try:
+            for code in self.__keycodes:
+                kbd.send(code)
+        except OSError:
+            # The host does not accept keys
+            pass
 
     def release(self):
         pass
-- 
2.43.0


From e87c84b6e66526ba36df648c07a7f7f65178e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:14 +0000
Subject: [PATCH 13/52] fix: take over every report of a parameter which is not
 requested, and keep the state of actions which have no reports

---
 content/lib/pyswitch/controller/callbacks/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/callbacks/__init__.py b/content/lib/pyswitch/controller/callbacks/__init__.py
index b588ba1..bdbf176 100644
--- a/content/lib/pyswitch/controller/callbacks/__init__.py
+++ b/content/lib/pyswitch/controller/callbacks/__init__.py
@@ -225,6 +225,9 @@ class BinaryParameterCallback(Callback):
 
 
     def parameter_changed(self, mapping):
+        if mapping == self.mapping and not mapping.request:
+            self.__current_value = self
+
         if self.__unconfirmed and mapping == self.mapping:
             self.__unconfirmed -= 1
 
@@ -267,7 +270,9 @@ class BinaryParameterCallback(Callback):
         state = False
 
         if value == None:
-            self.action.feedback_unknown()
+            # Without a response, there is no other source for the state than the user
+            if self.mapping.response:
+                self.action.feedback_unknown()
             return
         
         else:
-- 
2.43.0


From 28a54ffd782b36174d45498b108b9d2c2c32ea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:29 +0000
Subject: [PATCH 14/52] fix: an encoder lost the movement after its position
 had been -1

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index f80231b..e62a544 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -47,7 +47,7 @@ class EncoderAction(Updateable):
         self.__max_value = max_value
         self.__step_width = step_width
 
-        self.__last_pos = -1
+        self.__last_pos = None
         self._last_value = -1
         self.__convert_value = convert_value
 
@@ -114,7 +114,7 @@ class EncoderAction(Updateable):
         position = int(position * self.__step_width)
 
         # Initialize
-        if self.__last_pos == -1:
+        if self.__last_pos == None:
             self.__last_pos = position
 
         # Reset preview if the reset mapping had a value change
-- 
2.43.0


From 738fe148058744d521e6d18ed47835bab7652abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:51 +0000
Subject: [PATCH 15/52] fix: encoders started from outdated values when the
 parameter had been changed by the device or another control, and a cancel
 before the first value stopped the controller

---
 .../controller/actions/EncoderAction.py       | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index e62a544..9effcf3 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -129,21 +129,23 @@ class EncoderAction(Updateable):
         if self.__last_pos == position:
             return
 
-        # No value yet
-        if self._get_value() == None:
-            self._set_value(0)
-            
         # Get the delta value
         add_value = position - self.__last_pos
         #add_value = int((position - self.__last_pos) * self.__step_width)
 
         self.__last_pos = position
 
+        # Get value to start from: The pending preselection if there is any, or the current value
+        value = self._get_value()
+        known = (value != None)
+
+        if self.__preselect_active or (self.__preselect and not known):
+            value = self._last_value
+        elif not known:
+            value = 0
+
         # Get value to set
-        if not self.__preselect:
-            v = self._get_value() + add_value
-        else:
-            v = self._last_value + add_value
+        v = value + add_value
 
         if v < self.__min_value:
             v = self.__min_value
@@ -151,7 +153,7 @@ class EncoderAction(Updateable):
             v = self.__max_value
 
         # If changed, set or preview the value
-        if self._last_value != v:
+        if value != v or not (known or self.__preselect_active):
             self._last_value = v
             
             if not self.__preselect:
@@ -199,7 +201,5 @@ class EncoderAction(Updateable):
     def cancel(self, immediately = True):
         self.__preselect_active = False
 
-        self._last_value = self._get_value()
-
         if self.__preview:
             self.__preview.reset(immediately = immediately)
-- 
2.43.0


From 7bb77438ab0f35761685a46ef583f75ace4c10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:09 +0000
Subject: [PATCH 16/52] fix: cancelling an encoder without pending preselection
 removed the preview of other controls

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index 9effcf3..10ab569 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -199,6 +199,10 @@ class EncoderAction(Updateable):
 
     # Cancel preselection
     def cancel(self, immediately = True):
+        # Nothing to be cancelled (the preview might show something of another client)
+        if not self.__preselect_active:
+            return
+
         self.__preselect_active = False
 
         if self.__preview:
-- 
2.43.0


From dcce2e03b6fa5e14a6e29f50f23d1f6076f05bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:14 +0000
Subject: [PATCH 17/52] fix: a preselection was kept when the reset parameter
 changed while the device was not connected

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index 10ab569..f6667e9 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -119,8 +119,8 @@ class EncoderAction(Updateable):
 
         # Reset preview if the reset mapping had a value change
         if self.__preview and self.__preselect and self.__preview_reset_mapping:
-            if self.__preview_reset_mapping.value != self.__preview_reset_last_value:
-                if self.__preview_reset_mapping.value != None and self.__preview_reset_last_value != None:
+            if self.__preview_reset_mapping.value != None and self.__preview_reset_mapping.value != self.__preview_reset_last_value:
+                if self.__preview_reset_last_value != None:
                     self.cancel()
 
                 self.__preview_reset_last_value = self.__preview_reset_mapping.value
-- 
2.43.0


From f51f670f0f8e011d995dd9cab893dfd8acfff62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 18/52] fix: an encoder button used for several encoders either
 accepted or cancelled all of them

---
 .../lib/pyswitch/clients/local/actions/encoder_button.py  | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/encoder_button.py b/content/lib/pyswitch/clients/local/actions/encoder_button.py
index 29cf1ca..9eac6fd 100755
--- a/content/lib/pyswitch/clients/local/actions/encoder_button.py
+++ b/content/lib/pyswitch/clients/local/actions/encoder_button.py
@@ -22,16 +22,14 @@ class _EncoderButtonCallback(Callback):
         super().__init__()
         
         self.__encoders = []
-        self.__cancel_mode = False
 
     # cancel_mode tells us what to trigger later on, accept() or cancel().
     def register_encoder(self, encoder, cancel_mode):
-        self.__encoders.append(encoder)
-        self.__cancel_mode = cancel_mode
+        self.__encoders.append((encoder, cancel_mode))
 
     def push(self):
-        for encoder in self.__encoders:
-            if self.__cancel_mode:
+        for encoder, cancel_mode in self.__encoders:
+            if cancel_mode:
                 encoder.cancel()
             else:
                 encoder.accept()
-- 
2.43.0


From 9f328b8b60793094586973a3616faf045ce7b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:44 +0000
Subject: [PATCH 19/52] fix: movements of an encoder while its action is
 disabled were applied when it got enabled again

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++++
 content/lib/pyswitch/controller/inputs.py                | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index f6667e9..c3a5bc0 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -108,6 +108,10 @@ class EncoderAction(Updateable):
     def _set_value(self, value):
         self._mapping.value = value
 
+    # Forget the last position (used if the movement of the encoder must not have any effect)
+    def skip(self):
+        self.__last_pos = None
+
     # Process the current encoder position
     def process(self, position):
         # Scale by step width
diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index daf27a2..15d500f 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -307,6 +307,10 @@ class ContinuousController:
 
         for action in self.actions:
             if not action.enabled:
+                # Movements in the meantime must not be applied when the action is enabled again
+                if hasattr(action, "skip"):
+                    action.skip()
+
                 continue
 
             action.process(value)
-- 
2.43.0


From c4831592dded19a981961e42236cf2dfe45af1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:49 +0000
Subject: [PATCH 20/52] fix: turning the bank encoder before any rig ID has
 been received stopped the controller

---
 .../clients/kemper/actions/bank_select_encoder.py         | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 92c2daf..8664566 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -49,6 +49,14 @@ class _BankSelectEncoderAction(EncoderAction):
         if "preselectedBank" in self._appl.shared and self._appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
             self._appl.shared["preselectBlinkState"] = not self._appl.shared["preselectBlinkState"]
 
+    def process(self, position):
+        # Without knowing the current bank there is nothing to start from
+        if self._mapping.value == None:
+            self.skip()
+            return
+
+        super().process(position)
+
     def accept(self):
         super().accept()
 
-- 
2.43.0


From 655fd9b883e070fdcc32b91c1adba1635bcdf151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:16 +0000
Subject: [PATCH 21/52] fix: pedals never reached the full value if the number
 of steps did not divide 65536

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index eba6f24..0971675 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -33,7 +33,6 @@ class AnalogAction(Updateable):
         
         self.id = id
         self.__mapping = mapping
-        self.__factor = 65536 / (max_value + 1)
         self.__max_value = max_value
         self.__period = PeriodCounter(1000 / max_frame_rate)
         
@@ -41,7 +40,7 @@ class AnalogAction(Updateable):
         if self.__enable_callback:
             self.__enable_callback.action = self
 
-        self.__step_width = int(65536 / num_steps)
+        self.__num_steps = num_steps
         self.__last_value = -1
         self.__transfer_function = transfer_function
         self.__convert_value = convert_value
@@ -112,8 +111,8 @@ class AnalogAction(Updateable):
                     v = 0  # force zero MIDI when under threshold
                 else:
                     # Scale and quantize
-                    v = round(value / self.__step_width) * self.__step_width 
-                    v = int(v / self.__factor)
+                    v = round(value * self.__num_steps / 65536)
+                    v = int(v * (self.__max_value + 1) / self.__num_steps)
 
                     if v < 0:
                         v = 0
-- 
2.43.0


From aaaf8671cb1ebc146a6a3d80cf4b66abe5f88d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:21 +0000
Subject: [PATCH 22/52] fix: auto calibration left the raw value range for
 transfer functions, and failed without minimum window

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index 0971675..645f0ae 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -48,6 +48,7 @@ class AnalogAction(Updateable):
         self.__calibrate = auto_calibrate
         self.__cal_min = None
         self.__cal_max = None
+        self.__cal_factor = 1
         self.__cal_min_window = int(65536 * cal_min_window)
 
         self.__min_raw_value = min_raw_value   # store the custom min raw value
@@ -98,7 +99,7 @@ class AnalogAction(Updateable):
                     return
                 
                 # Scale the input value up
-                value = int((value - self.__cal_min) * self.__cal_factor)
+                value = min(int((value - self.__cal_min) * self.__cal_factor), 65535)
 
             # Determine the output value to be sent from the (possibly calibrated) input
             # value in range [0..65535]
-- 
2.43.0


From daa887b0ab93b37ea2a8adb5f37edbc370f85099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:50 +0000
Subject: [PATCH 23/52] fix: limit the brightness of PARAMETER_UP_DOWN when the
 value exceeds max_value

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 2654a69..53e995d 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -138,7 +138,7 @@ class _ParameterChangeCallback(Callback):
         
         self.__last_value = self._mapping.value
         
-        dim_factor = (self._mapping.value / self._max_value) if self._mapping.value != None else 0
+        dim_factor = min(self._mapping.value / self._max_value, 1) if self._mapping.value != None else 0
         if self._offset < 0:
             dim_factor = 1 - dim_factor
 
-- 
2.43.0


From 0323c86d66ac3c6bdda497b6d44c57f0fb371a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:50 +0000
Subject: [PATCH 24/52] fix: step PARAMETER_UP_DOWN from the value sent last,
 even if not reported back yet

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 53e995d..a95fa0b 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -116,6 +116,9 @@ class _ParameterChangeCallback(Callback):
         
         self.__appl.client.set(self._mapping, v)
 
+        # The next step has to start here, also if the client did not report the value yet
+        self._mapping.value = v
+
         if self.__preview:
             self.__preview.preview_mapping(
                 mapping = self._mapping,
-- 
2.43.0


From 027003fe6d2312153321e3162dd9e66d7d6d6df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:29 +0000
Subject: [PATCH 25/52] fix: BANK_UP / BANK_DOWN with dim_factor "on" stopped
 the controller

---
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index 3f89a38..d890e40 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -121,7 +121,7 @@ class KemperBankChangeCallback(Callback):
 
         if self.__dim_factor_p == "off":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOff", 0.2)
-        elif self.__display_mode == "on":
+        elif self.__dim_factor_p == "on":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOn", 1)
         else:
             self.__dim_factor = self.__dim_factor_p
-- 
2.43.0


From 5b4d2109dd0b3c07c2462f75398e5e8ec3e8c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:03 +0000
Subject: [PATCH 26/52] fix: RIG_DOWN stopped the controller when a rig beyond
 the highest bank was announced

---
 content/lib/pyswitch/clients/kemper/actions/rig_up_down.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
index aa915f2..ae85bfb 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
@@ -223,7 +223,7 @@ class _KemperRigChangeCallback(Callback):
                     return curr_rig_id
             else:
                 if curr_rig_id > 0:
-                    return curr_rig_id - 1
+                    return min(curr_rig_id, NUM_RIGS_PER_BANK * NUM_BANKS) - 1
                 else:
                     return NUM_RIGS_PER_BANK * NUM_BANKS - 1
     
\ No newline at end of file
-- 
2.43.0


From 249f066ff05323c449376dc867f8825d7dd1bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:05 +0000
Subject: [PATCH 27/52] fix: RIG_SELECT with bank_off "auto" stopped the
 controller after a bank beyond 128 was announced

---
 content/lib/pyswitch/clients/kemper/actions/rig_select.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 47c9984..70464e6 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -1,4 +1,4 @@
-from .. import NUM_RIGS_PER_BANK, BANK_COLORS, KemperMappings
+from .. import NUM_RIGS_PER_BANK, NUM_BANKS, BANK_COLORS, KemperMappings
 from ....controller.actions import Action
 from ....controller.callbacks import Callback
 from ....misc import get_option
@@ -239,7 +239,7 @@ class _KemperRigSelectCallback(Callback):
             if (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs) and self.__rig_off_auto and self.__rig != None and curr_rig != self.__rig - 1:
                 self.__rig_off = curr_rig + 1
                 
-            if self.__bank_off_auto and curr_bank != self.__bank - 1:
+            if self.__bank_off_auto and curr_bank != self.__bank - 1 and curr_bank < NUM_BANKS:
                 self.__bank_off = curr_bank + 1
 
         is_current = self.state
-- 
2.43.0


From f1643229333d81a95f5fabc9b1c4fede44a7afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:34 +0000
Subject: [PATCH 28/52] fix: a pager did not redraw when it got enabled by
 another pager, and stopped the controller if mappings were passed

---
 content/lib/pyswitch/clients/local/actions/pager.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 5548c56..e988f0b 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -95,10 +95,20 @@ class PagerAction(Callback, Action):
     # Must be called before usage
     def init(self, appl, switch):
         Action.init(self, appl, switch)
+        Callback.init(self, appl)
 
         self.current_page_index = 0
         self.current_page_id = self.pages[self.current_page_index]["id"] if len(self.pages) > 0 else None
 
+    # Called regularly: Request the mappings, and redraw when the pager gets enabled itself
+    def update(self):
+        Callback.update(self)
+        Action.update(self)
+
+    # Show the page again
+    def reset(self):
+        Action.reset(self)
+
     # Called when the switch is pushed down
     def push(self):
         if not len(self.pages):
-- 
2.43.0


From 191f92101ced4f06e88996090e1fcf05fa144c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:34 +0000
Subject: [PATCH 29/52] fix: kemper actions on hidden pages wrote the labels of
 the visible ones when the rig changed or while a bank was preselected

---
 content/lib/pyswitch/clients/kemper/actions/bank_select.py   | 2 +-
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py  | 2 +-
 content/lib/pyswitch/clients/kemper/actions/effect_button.py | 2 +-
 content/lib/pyswitch/clients/kemper/actions/rig_select.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select.py b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
index c0469df..ebfa2c1 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
@@ -108,7 +108,7 @@ class KemperBankSelectCallback(Callback):
 
         if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1 and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
-            self.update_displays()
+            self.action.update_displays()
 
     def push(self):
         if self.__mapping.value == None:
diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index d890e40..4d17d62 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -165,7 +165,7 @@ class KemperBankChangeCallback(Callback):
         if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
             
-            self.update_displays()
+            self.action.update_displays()
 
     def reset(self):
         # TODO this should not be necessary: Normally this just resets the memory, which this class doesnt have.
diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_button.py b/content/lib/pyswitch/clients/kemper/actions/effect_button.py
index e996010..b5d7e49 100755
--- a/content/lib/pyswitch/clients/kemper/actions/effect_button.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_button.py
@@ -71,7 +71,7 @@ class _KemperEffectButtonCallback(BinaryParameterCallback):
 
         if self.action.state:
             self.action.feedback_state(False)
-            self.update_displays()
+            self.action.update_displays()
 
 
 
diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 70464e6..bf704fc 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -215,7 +215,7 @@ class _KemperRigSelectCallback(Callback):
     
             if self.__last_blink_state != bs:
                 self.__last_blink_state = bs
-                self.update_displays()
+                self.action.update_displays()
 
 
     def update_displays(self):
-- 
2.43.0


From e6fed58437d900a0db460a85b912abb1845db909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:34 +0000
Subject: [PATCH 30/52] fix: LEDs and labels kept showing other actions when
 the LED segments were shared out anew, or when pages were changed twice
 within an update round

---
 .../pyswitch/controller/actions/__init__.py   | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/__init__.py b/content/lib/pyswitch/controller/actions/__init__.py
index 3fe7e36..192f1b1 100755
--- a/content/lib/pyswitch/controller/actions/__init__.py
+++ b/content/lib/pyswitch/controller/actions/__init__.py
@@ -50,6 +50,10 @@ class Action(Updateable):
 
         self.__last_enabled = -1
 
+        # Last LED settings (needed when the segments are shared out anew)
+        self.__led_color = None
+        self.__led_brightness = None
+
     # Must be called before usage
     def init(self, appl, switch):
         self.appl = appl
@@ -75,6 +79,8 @@ class Action(Updateable):
     # color can also be a tuple!
     @switch_color.setter
     def switch_color(self, color):
+        self.__led_color = color
+
         segments = self.__get_led_segments()
         if len(segments) == 0:
             return
@@ -107,6 +113,8 @@ class Action(Updateable):
 
     @switch_brightness.setter
     def switch_brightness(self, brightness):
+        self.__led_brightness = brightness
+
         segments = self.__get_led_segments()
         if len(segments) == 0:
             return
@@ -127,6 +135,17 @@ class Action(Updateable):
 
             self.update_displays()
 
+            # The other actions of the switch might have got different LED segments now
+            for action in self.switch.actions:
+                if action != self:
+                    action.restore_leds()
+
+    # Show the last color and brightness again
+    def restore_leds(self):
+        if self.__led_color is not None and self.__led_brightness is not None:
+            self.switch_color = self.__led_color
+            self.switch_brightness = self.__led_brightness
+
     # Called when the switch is pushed down
     def push(self):
         if self.callback:
@@ -146,11 +165,13 @@ class Action(Updateable):
         if self.callback:
             self.callback.update_displays()
     
-    # Reset the action
+    # Reset the action, and show its state again
     def reset(self):
         if self.callback:
             self.callback.reset()
 
+        self.update_displays()
+
     # Returns the switch LED segments to use
     def __get_led_segments(self):
         if not self.switch.pixels or not self.uses_switch_leds or not self.enabled:
@@ -327,8 +348,7 @@ class PushButtonAction(Action):
 
     # Reset the action: Set False state without sending anything
     def reset(self):
-        super().reset()
-
         self.feedback_unknown()
-        self.update_displays()
+
+        super().reset()
 
-- 
2.43.0


From bb7f2cb493235544233ca4a05afb5e23cb820ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:14 +0000
Subject: [PATCH 31/52] fix: SHOW_TEMPO did not draw again after a page change,
 and ROTATING_MESSAGES wrote the label of another page when released there

---
 .../lib/pyswitch/clients/kemper/actions/tempo.py    | 13 +++++++++----
 .../lib/pyswitch/clients/local/actions/rotate.py    |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/tempo.py b/content/lib/pyswitch/clients/kemper/actions/tempo.py
index 1cb6e39..bda0455 100755
--- a/content/lib/pyswitch/clients/kemper/actions/tempo.py
+++ b/content/lib/pyswitch/clients/kemper/actions/tempo.py
@@ -95,10 +95,15 @@ class _KemperShowTempoCallback(Callback):
         self._text = text
         self._color = color
         self._led_brightness = led_brightness
-        self.__current_value = None
-        self.__last_bpm = None
         self.__last_rig = None
 
+        self.reset()
+
+    # Reset state: Everything has to be drawn again
+    def reset(self):
+        self.__current_value = self       # Just some value which will never occur as a mapping value ;)
+        self.__last_bpm = None
+
     def push(self):
         pass
 
@@ -118,11 +123,11 @@ class _KemperShowTempoCallback(Callback):
 
         # LED blinking
         value = self.__tempo_mapping.value
-        if value != None and value != self.__current_value:
+        if value != self.__current_value:
             self.__current_value = value
 
             self.action.switch_color = self._color
-            self.action.switch_brightness = self._led_brightness if value > 0 else 0
+            self.action.switch_brightness = self._led_brightness if value != None and value > 0 else 0
 
         # Text to show
         text = None
diff --git a/content/lib/pyswitch/clients/local/actions/rotate.py b/content/lib/pyswitch/clients/local/actions/rotate.py
index fbffc66..eb161d3 100644
--- a/content/lib/pyswitch/clients/local/actions/rotate.py
+++ b/content/lib/pyswitch/clients/local/actions/rotate.py
@@ -99,7 +99,7 @@ class _CustomMessagesCallback(Callback):
             self.__appl.client.midi.send(self._RawMessage(self.__messages_release[self.__messages_release_pos]))
 
         self.__next_step()
-        self.update_displays()
+        self.action.update_displays()
 
     def __next_step(self):
         self.__messages_pos += 1
-- 
2.43.0


From fa869d6f46891d606c755ab4226c4189557c2050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:49 +0000
Subject: [PATCH 32/52] fix: LEDs and labels stayed wrong when an action got
 enabled and disabled again (or vice versa) between two update rounds

---
 .../pyswitch/controller/actions/__init__.py   | 76 ++++++++++++-------
 1 file changed, 47 insertions(+), 29 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/__init__.py b/content/lib/pyswitch/controller/actions/__init__.py
index 192f1b1..ba9521c 100755
--- a/content/lib/pyswitch/controller/actions/__init__.py
+++ b/content/lib/pyswitch/controller/actions/__init__.py
@@ -14,12 +14,10 @@ class Action(Updateable):
             self.__cb = cb
 
         def parameter_changed(self, mapping):
-            if self.__cb.enabled:
-                self.__cb.update_displays()
+            self.__cb.refresh()
 
         def request_terminated(self, mapping):
-            if self.__cb.enabled:
-                self.__cb.update_displays()
+            self.__cb.refresh()
 
     # config: {
     #      "callback":             Callback instance to update the display and LEDs. Must contain an update_displays(action) function. Optional. 
@@ -81,27 +79,31 @@ class Action(Updateable):
     def switch_color(self, color):
         self.__led_color = color
 
-        segments = self.__get_led_segments()
-        if len(segments) == 0:
+        segment_colors = self.__get_segment_colors(color)
+        if len(segment_colors) == 0:
             return
         
         tmp = self.switch.colors
 
+        for segment, segment_color in segment_colors:
+            tmp[segment] = segment_color
+
+        self.switch.colors = tmp
+
+    # Returns a list of tuples (segment, color) for all LED segments of the action 
+    def __get_segment_colors(self, color):
+        segments = self.__get_led_segments()
+
         if isinstance(color[0], tuple):
             if len(segments) == len(color):
                 # Fills all LEDs: Just pass colors
-                for i in range(len(segments)):
-                    tmp[segments[i]] = color[i]
-            else:
-                # Only fills some LEDs: Use a middle color
-                for segment in segments:
-                    tmp[segment] = color[floor(len(color) / 2)]
-        else:
-            # Single color: Fill all segments
-            for segment in segments:
-                tmp[segment] = color
+                return [(segments[i], color[i]) for i in range(len(segments))]
+            
+            # Only fills some LEDs: Use a middle color
+            color = color[floor(len(color) / 2)]
 
-        self.switch.colors = tmp
+        # Single color: Fill all segments
+        return [(segment, color) for segment in segments]
 
     # Brightness of the switch segment(s) for the action
     @property
@@ -127,24 +129,38 @@ class Action(Updateable):
 
     # Called regularly every update interval to update status of effects etc.
     def update(self):
-        if self.__last_enabled != self.enabled:
-            self.__last_enabled = self.enabled
-            
+        enabled = self.enabled
+
+        if self.__last_enabled != enabled:
             if self.callback:
                 self.callback.reset()
 
             self.update_displays()
 
-            # The other actions of the switch might have got different LED segments now
-            for action in self.switch.actions:
-                if action != self:
-                    action.restore_leds()
+            self.__last_enabled = enabled
+
+        else:
+            self.__restore_leds()
+
+    # Called when a parameter changes: Update the displays. If the action is not enabled, or has not been drawn 
+    # since it got enabled, this is left to the next update().
+    def refresh(self):
+        if self.enabled and self.__last_enabled:
+            self.update_displays()
+        else:
+            self.__last_enabled = None
 
-    # Show the last color and brightness again
-    def restore_leds(self):
-        if self.__led_color is not None and self.__led_brightness is not None:
-            self.switch_color = self.__led_color
-            self.switch_brightness = self.__led_brightness
+    # Show the last color and brightness again, if the LEDs of the action show something else (the LED segments might 
+    # have been shared out anew, and been used by another action in the meantime)
+    def __restore_leds(self):
+        if self.__led_color is None or self.__led_brightness is None:
+            return
+        
+        for segment, color in self.__get_segment_colors(self.__led_color):
+            if self.switch.colors[segment] != color or abs(self.switch.brightnesses[segment] - self.__led_brightness) > 0.001:
+                self.switch_color = self.__led_color
+                self.switch_brightness = self.__led_brightness
+                return
 
     # Called when the switch is pushed down
     def push(self):
@@ -160,6 +176,8 @@ class Action(Updateable):
     #@RuntimeStatistics.measure
     def update_displays(self):
         if not self.enabled:
+            # Draw with the next update() in which the action is enabled (again)
+            self.__last_enabled = None
             return
         
         if self.callback:
-- 
2.43.0


From c244b719a8e73cd9342dcdc6fd0d4437a1cd43c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:55 +0000
Subject: [PATCH 33/52] fix: of several labels showing the same rig, amp or
 cabinet name, some stayed empty if the name arrived before they had asked for
 it

---
 content/lib/pyswitch/controller/client.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 3075101..f50b95f 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -245,8 +245,20 @@ class Client: #(ClientRequestListener):
 
         # All listeners which requested the mapping have to be notified
         def add_listener(self, listener):
-            if listener not in self.__listeners:
-                self.__listeners.append(listener)
+            if listener in self.__listeners:
+                return
+            
+            self.__listeners.append(listener)
+
+            if not listener:
+                return
+
+            # The mapping might have been requested (and answered) for the other listeners already
+            req = self.__client.get_matching_request(self.__orig_mapping)
+            if req:
+                req.add_listener(listener)
+            elif self.__orig_mapping.value != None:
+                listener.parameter_changed(self.__orig_mapping)
 
         def parameter_changed(self, mapping):
             # If the value of the mapping is not known (the answer got lost), it has to be requested again
-- 
2.43.0


From 32d09867bc7e808eef5b58594b96ba57ff0ebe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:37 +0000
Subject: [PATCH 34/52] fix: switches pressed while the device is silent fall
 back to unknown, too

---
 content/lib/pyswitch/controller/callbacks/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/__init__.py b/content/lib/pyswitch/controller/callbacks/__init__.py
index bdbf176..d96a4bf 100644
--- a/content/lib/pyswitch/controller/callbacks/__init__.py
+++ b/content/lib/pyswitch/controller/callbacks/__init__.py
@@ -239,6 +239,14 @@ class BinaryParameterCallback(Callback):
         super().parameter_changed(mapping)
 
 
+    def request_terminated(self, mapping):
+        # The user can have changed the state since the value got unknown: Evaluate again in any case
+        if mapping == self.mapping:
+            self.__current_value = self
+
+        super().request_terminated(mapping)
+
+
     # Reset state
     def reset(self):
         self._current_display_state = -1
-- 
2.43.0


From 81c655ec2d9f161c95d08a076edb67046ba3b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:55 +0000
Subject: [PATCH 35/52] fix: RIG_SELECT toggles back to the rig which has been
 active before (auto rig_off/bank_off mixed rigs of different banks), and
 shows it in target mode

---
 .../pyswitch/clients/kemper/actions/rig_select.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index bf704fc..ca5ad2d 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -235,12 +235,13 @@ class _KemperRigSelectCallback(Callback):
         if self.__mapping.value != self.__current_value:
             self.__current_value = self.__mapping.value
 
-            # Auto rig off: If we are not on the "on" rig, set the current rig as "off" rig
-            if (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs) and self.__rig_off_auto and self.__rig != None and curr_rig != self.__rig - 1:
-                self.__rig_off = curr_rig + 1
+            # Auto rig off: If we are not on the "on" rig, set the current rig (and bank) as "off" rig
+            if not self.state:
+                if (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs) and self.__rig_off_auto and self.__rig != None:
+                    self.__rig_off = curr_rig + 1
                 
-            if self.__bank_off_auto and curr_bank != self.__bank - 1 and curr_bank < NUM_BANKS:
-                self.__bank_off = curr_bank + 1
+                if self.__bank_off_auto and curr_bank < NUM_BANKS:
+                    self.__bank_off = curr_bank + 1
 
         is_current = self.state
             
@@ -263,8 +264,8 @@ class _KemperRigSelectCallback(Callback):
                     self.action.label.back_color = bank_color if is_current else dim_color(bank_color, self.__default_dim_factor_off) 
 
                     if self.__bank != None:
-                        if is_current and self.__rig_off != None and self.__bank_off != None:
-                            self.action.label.text = self.__get_text(self.__bank_off - 1, self.__rig_off - 1)
+                        if is_current and self.__bank_off != None:
+                            self.action.label.text = self.__get_text(self.__bank_off - 1, (self.__rig_off if self.__rig_off != None else self.__rig) - 1)
                         elif self.__rig != None:
                             self.action.label.text = self.__get_text(self.__bank - 1, self.__rig - 1)
                         else:
-- 
2.43.0


From 42f34f43ca7632f4fbc522559405a868128e65eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:35 +0000
Subject: [PATCH 36/52] fix: the bank wheel started from the active bank
 instead of the preselected one, and forgot the rig slot

---
 .../pyswitch/clients/kemper/actions/bank_select_encoder.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 8664566..4fe4dca 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -69,11 +69,15 @@ class _BankSelectEncoderAction(EncoderAction):
 
         self._appl.shared["preselectedBank"] = self._last_value
 
+    # Start from the preselected bank, if any (regardless of who did the preselection)
     def _get_value(self):
+        if "preselectedBank" in self._appl.shared:
+            return self._appl.shared["preselectedBank"]
+        
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
     def _set_value(self, value):
-        self._mapping.value = value * NUM_RIGS_PER_BANK
+        self._mapping.value = value * NUM_RIGS_PER_BANK + self._mapping.value % NUM_RIGS_PER_BANK
 
 
 def _convert_value(value):
-- 
2.43.0


From 1b74df30ae7d34026de3b7ad7272d6cbcd9d9143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:35 +0000
Subject: [PATCH 37/52] fix: RIG_UP/RIG_DOWN did not end a bank preselection,
 and loaded the rig of the preselected bank

---
 content/lib/pyswitch/clients/kemper/actions/rig_up_down.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
index ae85bfb..2c1fd0e 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
@@ -122,8 +122,12 @@ class _KemperRigChangeCallback(Callback):
         next_bank = int(next_rig_id / NUM_RIGS_PER_BANK)
         next_rig = next_rig_id % NUM_RIGS_PER_BANK
         
-        if next_bank != curr_bank:
+        if next_bank != curr_bank or "preselectedBank" in self.__appl.shared:
             self.__appl.client.set(MAPPING_BANK_SELECT(), next_bank)
+
+        # If a bank preselection has been active, quit it.
+        if "preselectedBank" in self.__appl.shared:
+            del self.__appl.shared["preselectedBank"]
             
         self.__sent_rig_mapping = MAPPING_RIG_SELECT(next_rig)
         self.__appl.client.set(self.__sent_rig_mapping, 1)
-- 
2.43.0


From 114378032f947ab43ef06b890d8527e8d4dcbd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:35 +0000
Subject: [PATCH 38/52] fix: rig and bank buttons and labels kept showing an
 earlier state of a bank preselection

---
 .../lib/pyswitch/clients/kemper/__init__.py   | 10 ++++++++-
 .../clients/kemper/actions/bank_select.py     | 16 ++++++++++++--
 .../clients/kemper/actions/bank_up_down.py    | 18 ++++++++++++++-
 .../clients/kemper/actions/rig_select.py      | 22 +++++++++++++------
 4 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 71d2ae3..af9b2bc 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -103,14 +103,22 @@ class KemperRigNameCallback(Callback):
                     self.parameter_changed(self.__mapping_name)
                 elif self.__show_rig_id:
                     self.parameter_changed(self.__mapping_id)
-        else:
+        elif self.__preselect_initialized != None:
             self.__preselect_initialized = None
 
+            if self.__show_name:
+                self.parameter_changed(self.__mapping_name)
+            elif self.__show_rig_id:
+                self.parameter_changed(self.__mapping_id)
+
     def update_label(self, label):
         if "preselectedBank" in self.__appl.shared:
+            self.__preselect_initialized = self.__appl.shared["preselectedBank"]
             label.text = f"Bank { str(self.__appl.shared["preselectedBank"] + 1) }"
             return
         
+        self.__preselect_initialized = None
+        
         if self.__show_name:
             name = self.__mapping_name.value if self.__mapping_name.value else self.DEFAULT_TEXT
 
diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select.py b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
index ebfa2c1..c0a65a8 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
@@ -75,6 +75,7 @@ class KemperBankSelectCallback(Callback):
         self.__preselect = preselect
         if preselect:
             self.__preselect_blink_period = PeriodCounter(preselect_blink_interval)
+            self.__last_preselect = None
 
     @property
     def state(self):
@@ -106,9 +107,20 @@ class KemperBankSelectCallback(Callback):
     def update(self):
         Callback.update(self)
 
-        if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1 and self.__preselect_blink_period.exceeded:
+        if not self.__preselect:
+            return
+        
+        # Only the one who did the preselection controls the blinking
+        if "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
-            self.action.update_displays()
+
+        # Show every step of a preselection (and when another bank is preselected instead)
+        if "preselectedBank" in self.__appl.shared:
+            preselect = (self.__appl.shared["preselectedBank"] == self.__bank - 1, self.__appl.shared["preselectBlinkState"])
+
+            if self.__last_preselect != preselect:
+                self.__last_preselect = preselect
+                self.action.update_displays()
 
     def push(self):
         if self.__mapping.value == None:
diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index 4d17d62..8e4598c 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -115,6 +115,8 @@ class KemperBankChangeCallback(Callback):
         if preselect:
             self.__preselect_blink_period = PeriodCounter(preselect_blink_interval)
 
+        self.__last_preselect = None
+
     def init(self, appl, listener = None):
         super().init(appl, listener)
         self.__appl = appl
@@ -164,9 +166,21 @@ class KemperBankChangeCallback(Callback):
 
         if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
-            
+
+        # Show every step of a preselection (and its end)
+        preselect = self.__get_preselect()
+
+        if self.__last_preselect != preselect:
+            self.__last_preselect = preselect
             self.action.update_displays()
 
+    # State of a bank preselection, or None if there is none
+    def __get_preselect(self):
+        if "preselectedBank" in self.__appl.shared:
+            return (self.__appl.shared["preselectedBank"], self.__appl.shared["preselectCallback"] == self and self.__appl.shared["preselectBlinkState"])
+        
+        return None
+
     def reset(self):
         # TODO this should not be necessary: Normally this just resets the memory, which this class doesnt have.
         if self.action.enabled:
@@ -182,6 +196,8 @@ class KemperBankChangeCallback(Callback):
             self.action.switch_brightness = self.__led_brightness
             return
         
+        self.__last_preselect = self.__get_preselect()
+
         # Calculate bank and rig numbers in range [0...]
         bank = int(self.__mapping.value / NUM_RIGS_PER_BANK)
         rig = self.__mapping.value % NUM_RIGS_PER_BANK
diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index ca5ad2d..bf69ea4 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -100,7 +100,7 @@ class _KemperRigSelectCallback(Callback):
         self.__rig_btn_morph = rig_btn_morph
         self.__momentary_morph = momentary_morph
 
-        self.__last_blink_state = None
+        self.__last_preselect = None
         self.__sent_rig_mapping = None
 
     @property
@@ -210,13 +210,19 @@ class _KemperRigSelectCallback(Callback):
     def update(self):
         Callback.update(self)
 
-        if "preselectedBank" in self.__appl.shared and "preselectBlinkState" in self.__appl.shared:
-            bs = self.__appl.shared["preselectBlinkState"]
-    
-            if self.__last_blink_state != bs:
-                self.__last_blink_state = bs
-                self.action.update_displays()
+        # Show every step of a preselection (and its end)
+        preselect = self.__get_preselect()
+
+        if self.__last_preselect != preselect:
+            self.__last_preselect = preselect
+            self.action.update_displays()
 
+    # State of a bank preselection, or None if there is none
+    def __get_preselect(self):
+        if "preselectedBank" in self.__appl.shared and "preselectBlinkState" in self.__appl.shared:
+            return (self.__appl.shared["preselectedBank"], self.__appl.shared["preselectBlinkState"])
+        
+        return None
 
     def update_displays(self):
         if self.__mapping.value == None:
@@ -228,6 +234,8 @@ class _KemperRigSelectCallback(Callback):
             self.action.switch_brightness = self.__default_led_brightness_off
             return
         
+        self.__last_preselect = self.__get_preselect()
+
         # Calculate bank and rig numbers in range [0...]
         curr_bank = int(self.__mapping.value / NUM_RIGS_PER_BANK)
         curr_rig = self.__mapping.value % NUM_RIGS_PER_BANK
-- 
2.43.0


From ba0611ddef11cdab3d458a9c15f8bf6a70a64774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:18 +0000
Subject: [PATCH 39/52] fix: RIG_UP/RIG_DOWN with a bank preselection sent a
 bank value above 127 for rigs beyond the highest bank

---
 content/lib/pyswitch/clients/kemper/actions/rig_up_down.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
index 2c1fd0e..fe64261 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
@@ -122,7 +122,7 @@ class _KemperRigChangeCallback(Callback):
         next_bank = int(next_rig_id / NUM_RIGS_PER_BANK)
         next_rig = next_rig_id % NUM_RIGS_PER_BANK
         
-        if next_bank != curr_bank or "preselectedBank" in self.__appl.shared:
+        if next_bank != curr_bank or ("preselectedBank" in self.__appl.shared and next_bank < NUM_BANKS):
             self.__appl.client.set(MAPPING_BANK_SELECT(), next_bank)
 
         # If a bank preselection has been active, quit it.
-- 
2.43.0


From 8e27a622af7f03932e5cb02bb98b76f4c417184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:18 +0000
Subject: [PATCH 40/52] fix: the tuner note stayed in neutral colour when the
 first reported deviance was exactly in tune

---
 content/lib/pyswitch/ui/elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 08dfdc6..74d8695 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -368,7 +368,7 @@ class TunerDisplay(DisplayElement):
             self.add(self.deviance)
 
         self.__last_note = None
-        self.__last_deviance = 8192
+        self.__last_deviance = None
 
     # We need access to the client, so we store appl here
     def init(self, ui, appl):
@@ -386,7 +386,7 @@ class TunerDisplay(DisplayElement):
     # Reset the display
     def reset(self):
         self.__last_note = None
-        self.__last_deviance = 8192
+        self.__last_deviance = None
         
         if self.label_note:
             self.label_note.text = "-"
-- 
2.43.0


From 02673ebf6950512b1bc54709dfe8e729f395c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:30 +0000
Subject: [PATCH 41/52] fix: actions drew their LEDs in tuner mode

---
 content/lib/pyswitch/clients/kemper/__init__.py     | 3 +++
 content/lib/pyswitch/controller/actions/__init__.py | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index af9b2bc..0ee5993 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -179,6 +179,9 @@ class TunerDisplayCallback(Callback):
         self.__splash_tuner = splash_tuner
         self.__splash_default = splash_default
         self.__process_overridden_actions = process_overridden_actions
+
+        # In tuner mode, the LEDs are dark (or show the strobe tuner)
+        self.overrides_leds = strobe or not process_overridden_actions
         self.__pushed_before = False
         self.__tuner_on = False
         
diff --git a/content/lib/pyswitch/controller/actions/__init__.py b/content/lib/pyswitch/controller/actions/__init__.py
index ba9521c..6622f08 100755
--- a/content/lib/pyswitch/controller/actions/__init__.py
+++ b/content/lib/pyswitch/controller/actions/__init__.py
@@ -195,6 +195,11 @@ class Action(Updateable):
         if not self.switch.pixels or not self.uses_switch_leds or not self.enabled:
             return array('i')
         
+        # Override actions (tuner) can occupy the LEDs
+        override_action = getattr(self.switch, "override_action", None)
+        if override_action and getattr(override_action, "overrides_leds", False):
+            return array('i')
+        
         actions_using_leds = [a for a in self.switch.actions if a.uses_switch_leds and a.enabled]
 
         ret = array('i')
-- 
2.43.0


From 309ee8dc41b711ae6c1762fa6d6de98d7f20f845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:30 +0000
Subject: [PATCH 42/52] fix: the tuner screen stayed after a connection loss in
 tuner mode

---
 content/lib/pyswitch/clients/kemper/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 0ee5993..670459e 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -251,6 +251,9 @@ class TunerDisplayCallback(Callback):
         if mapping == self.__mapping and self.__tuner_on:
             self.__tuner_off()
 
+            # Show the default display again
+            super().parameter_changed(mapping)
+
     def __tuner_off(self):
         self.__tuner_on = False
 
-- 
2.43.0


From 9b880021933f174d42c0096d3767e6819cb1c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:18 +0000
Subject: [PATCH 43/52] fix: strobe tuner LEDs stayed dark in a further tuner
 session, or when tuner mode has been reported again

---
 content/lib/pyswitch/controller/strobe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/controller/strobe.py b/content/lib/pyswitch/controller/strobe.py
index 093250a..955f70f 100755
--- a/content/lib/pyswitch/controller/strobe.py
+++ b/content/lib/pyswitch/controller/strobe.py
@@ -71,6 +71,9 @@ class StrobeController:
                 # Tuner on
                 self.__enabled = True
                 self.__period.reset()
+
+                # The LEDs have been used by others in between, so all have to be drawn
+                self.__current_strobe_brightnesses = [None for s in self.__switches]
             else:
                 # Tuner off
                 self.__enabled = False
-- 
2.43.0


From 459681ab12b888502f3aea39280e0b44cee09502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:18 +0000
Subject: [PATCH 44/52] fix: deviance reports drew the strobe on the switch
 LEDs after a connection loss in tuner mode

---
 content/lib/pyswitch/controller/strobe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/strobe.py b/content/lib/pyswitch/controller/strobe.py
index 955f70f..c0a5df5 100755
--- a/content/lib/pyswitch/controller/strobe.py
+++ b/content/lib/pyswitch/controller/strobe.py
@@ -86,7 +86,8 @@ class StrobeController:
 
     # Called when the client is offline (requests took too long)
     def request_terminated(self, mapping):
-        pass                                       # pragma: no cover
+        if mapping == self.__mapping_state:
+            self.__enabled = False
 
     # Update the strobe LEDs
     def __update_strobe(self):
-- 
2.43.0


From 940032f43ddef74e73deb1587f4c0de13f959f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:19 +0000
Subject: [PATCH 45/52] fix: releasing a rig button set the morph displays to
 base after it has loaded the rig (momentary_morph)

---
 .../pyswitch/clients/kemper/actions/rig_select.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index bf69ea4..b694453 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -102,6 +102,7 @@ class _KemperRigSelectCallback(Callback):
 
         self.__last_preselect = None
         self.__sent_rig_mapping = None
+        self.__morphed = False              # Momentarily morphed by the last push
 
     @property
     def state(self):
@@ -138,6 +139,7 @@ class _KemperRigSelectCallback(Callback):
     # Called when the switch is pushed down
     def push(self):
         state = self.state
+        self.__morphed = False
 
         if self.__mapping.value != None:
             curr_bank = int(self.__mapping.value / NUM_RIGS_PER_BANK)
@@ -163,6 +165,7 @@ class _KemperRigSelectCallback(Callback):
 
                         if self.__momentary_morph:
                             self.__appl.shared["morphStateOverride"] = 16383
+                            self.__morphed = True
                         else:
                             self.__appl.shared["morphStateOverride"] = 0 if (self.__appl.shared["morphStateOverride"] > 0) else 16383
                     else:
@@ -193,14 +196,12 @@ class _KemperRigSelectCallback(Callback):
     # Called when the switch is released
     def release(self):
         # Release momentary morph if selected
-        if self.__mapping.value != None:
-            if self.__rig_btn_morph and self.__rig_off == None and self.__bank_off == None:
-                curr_bank = int(self.__mapping.value / NUM_RIGS_PER_BANK)
-                curr_rig = self.__mapping.value % NUM_RIGS_PER_BANK
+        if self.__morphed and self.__mapping.value != None:
+            curr_bank = int(self.__mapping.value / NUM_RIGS_PER_BANK)
+            curr_rig = self.__mapping.value % NUM_RIGS_PER_BANK
 
-                if self.__rig == curr_rig + 1 and (not self.__bank or self.__bank == curr_bank + 1):
-                    if self.__momentary_morph:
-                        self.__appl.shared["morphStateOverride"] = 0
+            if self.__rig == curr_rig + 1 and (not self.__bank or self.__bank == curr_bank + 1):
+                self.__appl.shared["morphStateOverride"] = 0
 
         # Send release (0) value if necessary
         if self.__sent_rig_mapping:
-- 
2.43.0


From 5e324f5839db3c17c61541fcc1b457b875d89b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:22 +0000
Subject: [PATCH 46/52] fix: morph displays took over outdated reports when
 they got visible, and ignored the first report after the rig has been
 selected

---
 .../pyswitch/clients/kemper/actions/morph.py  | 22 ++++++++-----------
 .../actions/rig_select_and_morph_state.py     | 10 ---------
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/morph.py b/content/lib/pyswitch/clients/kemper/actions/morph.py
index eddc17b..3f2310c 100755
--- a/content/lib/pyswitch/clients/kemper/actions/morph.py
+++ b/content/lib/pyswitch/clients/kemper/actions/morph.py
@@ -1,6 +1,7 @@
 from ....controller.actions import PushButtonAction
 from ....controller.callbacks import BinaryParameterCallback
 from ....colors import Colors
+from ....misc import get_option
 
 from ..mappings.morph import MAPPING_MORPH_BUTTON, MAPPING_MORPH_PEDAL
 
@@ -128,11 +129,8 @@ class KemperMorphCallback(BinaryParameterCallback):
         self.color_base = color_base
         self.color_morph = color_morph
 
-        self.__last_value = None
         self.appl = None
 
-        self.ignore_next_value = False
-
 
     def init(self, appl, listener = None):
         super().init(appl, listener)
@@ -151,15 +149,13 @@ class KemperMorphCallback(BinaryParameterCallback):
         if self.__set_internal_state and self.action.state:
             self.appl.shared["morphStateOverride"] = 0 if (self.appl.shared["morphStateOverride"] > 0) else 16383
 
-    
-    def evaluate_value(self, value):
-        if self.__set_internal_state and value != None and value != self.__last_value:
-            self.__last_value = value
 
-            if not self.ignore_next_value:
-                # Morph value has changed from the outside
-                self.appl.shared["morphStateOverride"] = value
-            else:
-                self.ignore_next_value = False
+    def parameter_changed(self, mapping):
+        # Only take over the value if it has been changed from the outside since the last report. The last one is shared, 
+        # because the state can have been changed by others since the action has been enabled the last time.
+        if self.__set_internal_state and mapping == self.mapping and mapping.value != None:
+            if mapping.value != get_option(self.appl.shared, "morphStateReported", None):
+                self.appl.shared["morphStateReported"] = mapping.value
+                self.appl.shared["morphStateOverride"] = mapping.value
 
-        super().evaluate_value(value)
\ No newline at end of file
+        super().parameter_changed(mapping)
diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select_and_morph_state.py b/content/lib/pyswitch/clients/kemper/actions/rig_select_and_morph_state.py
index a08586d..7671cdb 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select_and_morph_state.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select_and_morph_state.py
@@ -89,7 +89,6 @@ class KemperMorphDisplayEnableCallback(Callback):
         self.__morph_only_when_enabled = morph_only_when_enabled
 
         self.register_mapping(KemperMappings.RIG_ID())
-        self.__last_enabled = None
 
     def enabled(self, action):
         if self.__morph_only_when_enabled:
@@ -97,14 +96,5 @@ class KemperMorphDisplayEnableCallback(Callback):
         else:
             ret = self.__action_rig_select.enabled
 
-        if self.__last_enabled == None:
-            self.__last_enabled = ret
-
-        elif self.__last_enabled != ret:
-            self.__last_enabled = ret
-            
-            # Tell the callback to not take the first morph value from the Kemper as override.
-            action.callback.ignore_next_value = True
-
         return ret
 
-- 
2.43.0


From 83571149fc5f415fb7318874e005fdeaf1db2f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:25 +0000
Subject: [PATCH 47/52] fix: morph displays did not follow the morph buttons
 while the device is silent

---
 .../pyswitch/clients/kemper/actions/morph.py    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/morph.py b/content/lib/pyswitch/clients/kemper/actions/morph.py
index 3f2310c..3554f71 100755
--- a/content/lib/pyswitch/clients/kemper/actions/morph.py
+++ b/content/lib/pyswitch/clients/kemper/actions/morph.py
@@ -129,6 +129,7 @@ class KemperMorphCallback(BinaryParameterCallback):
         self.color_base = color_base
         self.color_morph = color_morph
 
+        self.__last_override = None
         self.appl = None
 
 
@@ -150,6 +151,22 @@ class KemperMorphCallback(BinaryParameterCallback):
             self.appl.shared["morphStateOverride"] = 0 if (self.appl.shared["morphStateOverride"] > 0) else 16383
 
 
+    def update(self):
+        super().update()
+
+        # The morph state is shared, so anyone could have changed it
+        if self.__set_internal_state and self.__last_override != self.appl.shared["morphStateOverride"]:
+            self.__last_override = self.appl.shared["morphStateOverride"]
+            self.action.update_displays()
+
+
+    def update_displays(self):
+        if self.__set_internal_state:
+            self.__last_override = self.appl.shared["morphStateOverride"]
+
+        super().update_displays()
+
+
     def parameter_changed(self, mapping):
         # Only take over the value if it has been changed from the outside since the last report. The last one is shared, 
         # because the state can have been changed by others since the action has been enabled the last time.
-- 
2.43.0


From eb67287b6bf7f103184843390b56907a022d39ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:04 +0000
Subject: [PATCH 48/52] fix: MIDI bridge: send an empty file as one empty chunk
 instead of empty chunks without end

---
 web/htdocs/lib/jsmidibridge/JsMidiBridge.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
index adf6c05..946f30a 100755
--- a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
+++ b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
@@ -241,7 +241,7 @@ class JsMidiBridge {
 
         await this.#startSendTransmission({
             path: path, 
-            amountChunks: Math.ceil(data.length / chunkSize),
+            amountChunks: Math.max(1, Math.ceil(data.length / chunkSize)),     // An empty file is sent as one empty chunk
             chunkSize: chunkSize, 
             message: data,
             type: JMB_TRANSMISSION_TYPE_FILE
-- 
2.43.0


From 20e9a96265a7afe92f49b88fdeaca1db626619ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:04 +0000
Subject: [PATCH 49/52] fix: MIDI bridge: keep BOM characters of received text

---
 web/htdocs/lib/jsmidibridge/JsMidiBridge.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
index 946f30a..c3b6c47 100755
--- a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
+++ b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
@@ -785,7 +785,7 @@ class JsMidiBridge {
 	 */ 
     bytes2string(data) {
 		const bytes = this.unpackBytes(data);
-		let utf8Decode = new TextDecoder();
+		let utf8Decode = new TextDecoder("utf-8", { ignoreBOM: true });   // Keeps BOM characters, they are part of the data
 		return utf8Decode.decode(new Uint8Array(bytes));
     }    
 
-- 
2.43.0


From fe40516d955cbd5a2219eee99a7580a3b1e96230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:04 +0000
Subject: [PATCH 50/52] fix: MIDI bridge: do not split surrogate pairs into
 different chunks

---
 web/htdocs/lib/jsmidibridge/JsMidiBridge.js | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
index c3b6c47..2fa475f 100755
--- a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
+++ b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
@@ -241,7 +241,6 @@ class JsMidiBridge {
 
         await this.#startSendTransmission({
             path: path, 
-            amountChunks: Math.max(1, Math.ceil(data.length / chunkSize)),     // An empty file is sent as one empty chunk
             chunkSize: chunkSize, 
             message: data,
             type: JMB_TRANSMISSION_TYPE_FILE
@@ -263,7 +262,6 @@ class JsMidiBridge {
 
         await this.#startSendTransmission({
             path: path, 
-            amountChunks: Math.ceil(message.length / chunkSize),
             chunkSize: chunkSize,             
             message: message,
             type: transmission_type
@@ -275,6 +273,12 @@ class JsMidiBridge {
      * Adds a send transmission definition and sends the start message
      */
     async #startSendTransmission(transmission) {
+        // Split by characters, not by UTF-16 code units (surrogate pairs must not be torn apart)
+        transmission.message = Array.from(transmission.message);
+
+        // An empty file is sent as one empty chunk
+        transmission.amountChunks = Math.max(1, Math.ceil(transmission.message.length / transmission.chunkSize));
+
         transmission.nextChunk = 0;
         transmission.id = this.generateTransmissionId();
 
@@ -295,7 +299,7 @@ class JsMidiBridge {
      */
     async #sendNextChunk(transmission) {
         // Read data        
-        const chunk = transmission.message.slice(0, transmission.chunkSize);
+        const chunk = transmission.message.slice(0, transmission.chunkSize).join("");
         transmission.message = transmission.message.slice(transmission.chunkSize);
         
         await this.#sendChunk(transmission, chunk);
-- 
2.43.0


From 8fd3f92bbc641fea392761da9b26009baf0a56e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:04 +0000
Subject: [PATCH 51/52] fix: MIDI bridge: a repeated ack while a chunk is being
 sent lost the next chunk

---
 web/htdocs/lib/jsmidibridge/JsMidiBridge.js | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
index 2fa475f..eb9d308 100755
--- a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
+++ b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
@@ -302,10 +302,12 @@ class JsMidiBridge {
         const chunk = transmission.message.slice(0, transmission.chunkSize).join("");
         transmission.message = transmission.message.slice(transmission.chunkSize);
         
-        await this.#sendChunk(transmission, chunk);
-
+        // Count the chunk before sending it, so a repeated ack for the last one is not taken for a new one meanwhile
+        const index = transmission.nextChunk;
         transmission.nextChunk += 1;
 
+        await this.#sendChunk(transmission, index, chunk);
+
         // Update timestamp
         transmission.time = Date.now();
     }
@@ -359,9 +361,9 @@ class JsMidiBridge {
     /**
 	 * Sends one chunk of data
 	 */ 
-    async #sendChunk(transmission, chunk) {
+    async #sendChunk(transmission, index, chunk) {
         const dataBytes = Array.from(this.string2bytes(chunk));
-        const chunkIndexBytes = Array.from(this.number2bytes(transmission.nextChunk, JMB_NUMBER_SIZE_FULLBYTES));
+        const chunkIndexBytes = Array.from(this.number2bytes(index, JMB_NUMBER_SIZE_FULLBYTES));
         
         const payload = [].concat(
             Array.from(transmission.id),
@@ -375,12 +377,12 @@ class JsMidiBridge {
         await this.onSendProgress({
 			path: transmission.path,
 			transmissionId: transmission.id,
-			chunk: transmission.nextChunk,
+			chunk: index,
 			numChunks: transmission.amountChunks,
             type: isFile ? "file" : "error"
         });
 
-        this.console.log("Send data chunk " + transmission.nextChunk + ", " + (checksum.length + payload.length) + " bytes");
+        this.console.log("Send data chunk " + index + ", " + (checksum.length + payload.length) + " bytes");
         
         await this.#sendSysex(
 			JMB_MANUFACTURER_ID,
-- 
2.43.0


From 65e6436384bf0cabdd6ca155136b227e148e18eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:35 +0000
Subject: [PATCH 52/52] fix: detach the bridge of an earlier controller
 connection before connecting or scanning

---
 web/htdocs/js/DeviceController.js | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/js/DeviceController.js b/web/htdocs/js/DeviceController.js
index e419975..5f274ea 100644
--- a/web/htdocs/js/DeviceController.js
+++ b/web/htdocs/js/DeviceController.js
@@ -30,6 +30,9 @@ class DeviceController {
     async scan(onSuccess, onFailure = null) {
         const that = this;
 
+        // The scan uses own bridges. Two bridges on the same port would both answer the controller.
+        this.#disconnect();
+
         await this.#controller.midi.scan(
             // connect
             async function(portName, attempts) {
@@ -51,12 +54,22 @@ class DeviceController {
         );
     }
     
+    /**
+     * Detaches the bridge of the current connection (if any), so it does not answer messages any more
+     */
+    #disconnect() {
+        if (!this.#connection) return;
+
+        this.bridge.detach(this.#connection.bridge);
+        this.#connection = null;
+    }
+
     /**
      * Connect a bridge to the passed port name
      */
     async connect(portName) {
         if (this.#connection && this.#connection.name == portName) return;   // Already connected to the bridge
-        this.#connection = null;
+        this.#disconnect();
         
         this.#controller.ui.progress(0, "Connecting to controller " + portName);
 
-- 
2.43.0

