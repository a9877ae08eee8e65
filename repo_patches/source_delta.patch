From 65019a6a65b8ab213473e30d4d9982eb0ac53838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:11 +0000
Subject: [PATCH 01/29] fix: setting listener forwards settings and allocation
 to its node

SettingListener did not override set() or allocate(), so settings sent through
listen() were received and then dropped by the default AudioNode::set.
---
 src/setting.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/setting.rs b/src/setting.rs
index 3b1770b..88a2fe1 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -306,6 +306,10 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.x.process(size, input, output);
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
@@ -314,4 +318,8 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.receive_settings();
         self.x.route(input, frequency)
     }
+
+    fn allocate(&mut self) {
+        self.x.allocate();
+    }
 }
-- 
2.43.0


From ffa0a2acca859d5b5e1bdce4f8397e91258a26ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:11 +0000
Subject: [PATCH 02/29] fix: dummy unit zeroes the whole block

DummyUnit::process cleared only simd_items(size) scalar samples of each channel.
---
 src/audiounit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audiounit.rs b/src/audiounit.rs
index 43c5fe0..3177c04 100644
--- a/src/audiounit.rs
+++ b/src/audiounit.rs
@@ -675,7 +675,7 @@ impl AudioUnit for DummyUnit {
 
     fn process(&mut self, size: usize, _input: &BufferRef, output: &mut BufferMut) {
         for channel in 0..self.outputs {
-            output.channel_f32_mut(channel)[0..simd_items(size)].fill(0.0);
+            output.channel_f32_mut(channel)[0..size].fill(0.0);
         }
     }
 
-- 
2.43.0


From 2e6bf322db57367b0da1373ba88ce54573dfb5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:11 +0000
Subject: [PATCH 03/29] fix: Feedback2 preallocates its feedback path too

allocate() was forwarded to the forward node only.
---
 src/feedback.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feedback.rs b/src/feedback.rs
index f24ad25..de104df 100644
--- a/src/feedback.rs
+++ b/src/feedback.rs
@@ -267,6 +267,7 @@ where
 
     fn allocate(&mut self) {
         self.x.allocate();
+        self.y.allocate();
     }
 }
 
-- 
2.43.0


From cec0f79cbe1b8cf7c43b1a511c801f776dcabee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:34 +0000
Subject: [PATCH 04/29] fix: forward settings into feedback, oversampling and
 resampling wrappers

Feedback, Feedback2, FeedbackUnit, Oversampler and Resampler inherited the
default set(), which silently drops the setting.
---
 src/feedback.rs   | 17 +++++++++++++++++
 src/oversample.rs |  5 +++++
 src/resample.rs   |  5 +++++
 3 files changed, 27 insertions(+)

diff --git a/src/feedback.rs b/src/feedback.rs
index de104df..40eb9b8 100644
--- a/src/feedback.rs
+++ b/src/feedback.rs
@@ -4,6 +4,7 @@ use super::audionode::*;
 use super::audiounit::*;
 use super::buffer::*;
 use super::math::*;
+use super::setting::*;
 use super::signal::*;
 use super::*;
 use core::marker::PhantomData;
@@ -145,6 +146,10 @@ where
         }
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
         Routing::Arbitrary(0.0).route(input, self.outputs())
     }
@@ -257,6 +262,14 @@ where
         }
     }
 
+    fn set(&mut self, setting: Setting) {
+        match setting.direction() {
+            Address::Left => self.x.set(setting.peel()),
+            Address::Right => self.y.set(setting.peel()),
+            _ => (),
+        }
+    }
+
     fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
         Routing::Arbitrary(0.0).route(input, self.outputs())
     }
@@ -409,6 +422,10 @@ impl AudioUnit for FeedbackUnit {
         self.index = (self.index + size) & self.mask;
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn inputs(&self) -> usize {
         self.feedback.len()
     }
diff --git a/src/oversample.rs b/src/oversample.rs
index 3cf7f3a..f1764e2 100644
--- a/src/oversample.rs
+++ b/src/oversample.rs
@@ -2,6 +2,7 @@
 
 use super::audionode::*;
 use super::math::*;
+use super::setting::*;
 use super::signal::*;
 use super::*;
 use numeric_array::typenum::*;
@@ -279,6 +280,10 @@ where
         output
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
         self.x.route(input, frequency)
     }
diff --git a/src/resample.rs b/src/resample.rs
index e9832cc..32ec419 100644
--- a/src/resample.rs
+++ b/src/resample.rs
@@ -2,6 +2,7 @@
 
 use super::audionode::*;
 use super::math::*;
+use super::setting::*;
 use super::signal::*;
 use super::*;
 use numeric_array::typenum::*;
@@ -95,6 +96,10 @@ where
         output
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
         super::signal::Routing::Generator(0.0).route(input, self.outputs())
     }
-- 
2.43.0


From b928e4c199a1d7343771ec52427f547cbafeffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:21 +0000
Subject: [PATCH 05/29] fix: signal flow of the first component of stacki and
 reduce

MultiStack and Reduce routed the whole input frame to their first component
instead of its own share of the inputs.
---
 src/audionode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/audionode.rs b/src/audionode.rs
index c02518e..b61ad13 100644
--- a/src/audionode.rs
+++ b/src/audionode.rs
@@ -2063,7 +2063,8 @@ where
         if self.x.is_empty() {
             return SignalFrame::new(self.outputs());
         }
-        let mut output = self.x[0].route(input, frequency);
+        let mut output =
+            self.x[0].route(&SignalFrame::copy(input, 0, X::Inputs::USIZE), frequency);
         output.resize(self.outputs());
         for i in 1..N::USIZE {
             let output_i = self.x[i].route(
@@ -2202,7 +2203,8 @@ where
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-        let mut output = self.x[0].route(input, frequency);
+        let mut output =
+            self.x[0].route(&SignalFrame::copy(input, 0, X::Inputs::USIZE), frequency);
         for j in 1..self.x.len() {
             let output_j = self.x[j].route(
                 &SignalFrame::copy(input, j * X::Inputs::USIZE, X::Inputs::USIZE),
-- 
2.43.0


From 8cd26c852a0491922aa1463d9eaf0e22f7a70d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:21 +0000
Subject: [PATCH 06/29] fix: arbitrary routing adds its latency once

The latency of a multichannel node was added again for every input after the
first, depending on the order of input latencies.
---
 src/signal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/signal.rs b/src/signal.rs
index 5f6346f..89b1da3 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -181,11 +181,11 @@ impl Routing {
         }
         match self {
             Routing::Arbitrary(latency) => {
-                let mut combo = input.at(0).distort(*latency);
+                let mut combo = input.at(0).distort(0.0);
                 for i in 1..input.len() {
-                    combo = combo.combine_nonlinear(input.at(i), *latency);
+                    combo = combo.combine_nonlinear(input.at(i), 0.0);
                 }
-                output.fill(combo);
+                output.fill(combo.delay(*latency));
             }
             Routing::Split => {
                 for i in 0..outputs {
-- 
2.43.0


From df918f15ecc4052db6c5a3050d6fddc66cfa6471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:21 +0000
Subject: [PATCH 07/29] fix: generators without inputs have a latency

Routing::Generator returned unknown signals when there were no inputs, so
latency() of a graph starting from a generator was None.
---
 src/signal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.rs b/src/signal.rs
index 89b1da3..3d7acbb 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -176,7 +176,7 @@ impl Routing {
     /// Routes signals from input to output.
     pub fn route(&self, input: &SignalFrame, outputs: usize) -> SignalFrame {
         let mut output = SignalFrame::new(outputs);
-        if input.is_empty() {
+        if input.is_empty() && !matches!(self, Routing::Generator(_)) {
             return output;
         }
         match self {
-- 
2.43.0


From d1e998d41141b04d09800ac4cb21a16815cb94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:16 +0000
Subject: [PATCH 08/29] fix: Limiter reset also resets its level follower

---
 src/dynamics.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index f30f263..3e43f7e 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -190,6 +190,7 @@ where
         if length != self.reducer.length {
             self.reducer = Self::new_buffer(sample_rate, self.lookahead);
         }
+        self.follower.reset();
         self.follower.set_sample_rate(sample_rate);
         self.reducer.clear();
         self.buffer.clear();
-- 
2.43.0


From 6114d712d230dc36ba43c9fbd52888cc9331ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:56 +0000
Subject: [PATCH 09/29] fix: Mls reset returns to the state given to the
 constructor when no hash or seed is set

---
 src/noise.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/noise.rs b/src/noise.rs
index be26ea5..5379e69 100644
--- a/src/noise.rs
+++ b/src/noise.rs
@@ -100,16 +100,19 @@ impl MlsState {
 #[derive(Clone)]
 pub struct Mls {
     mls: MlsState,
+    /// State given to the constructor, in effect until a hash or a seed is set.
+    initial: MlsState,
     seed: Option<u64>,
-    hash: u64,
+    hash: Option<u64>,
 }
 
 impl Mls {
     pub fn new(mls: MlsState) -> Self {
         Self {
             mls,
+            initial: mls,
             seed: None,
-            hash: 0,
+            hash: None,
         }
     }
 }
@@ -120,8 +123,10 @@ impl AudioNode for Mls {
     type Outputs = typenum::U1;
 
     fn reset(&mut self) {
-        let hash = self.seed.unwrap_or(self.hash);
-        self.mls = MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32);
+        self.mls = match self.seed.or(self.hash) {
+            Some(hash) => MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32),
+            None => self.initial,
+        };
     }
 
     #[inline]
@@ -138,7 +143,7 @@ impl AudioNode for Mls {
     }
 
     fn set_hash(&mut self, hash: u64) {
-        self.hash = hash;
+        self.hash = Some(hash);
         self.reset();
     }
 
-- 
2.43.0


From e258fb3c34ad47f03202a575cc7105486fbd74a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:34 +0000
Subject: [PATCH 10/29] fix: WaveSynth starts from the phase that reset gives
 it

---
 src/wavetable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wavetable.rs b/src/wavetable.rs
index 03c78a2..fdff6bf 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -276,7 +276,7 @@ where
     N: Size<f32>,
 {
     pub fn new(table: Arc<Wavetable>) -> Self {
-        WaveSynth {
+        let mut synth = WaveSynth {
             table,
             phase: 0.0,
             hash: 0,
@@ -285,7 +285,9 @@ where
             sample_rate: DEFAULT_SR as f32,
             sample_duration: 1.0 / DEFAULT_SR as f32,
             _marker: core::marker::PhantomData,
-        }
+        };
+        synth.reset();
+        synth
     }
 }
 
-- 
2.43.0


From 38593dc775e7fe5b40d76cf9de74a8ab110ee1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:34 +0000
Subject: [PATCH 11/29] fix: Reverb resets its input diffusers and gives them
 the sample rate

---
 src/reverb.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index d3e2545..314bce9 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -217,6 +217,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     type Outputs = U2;
 
     fn reset(&mut self) {
+        for x in self.pre.iter_mut() {
+            x.reset();
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.reset();
@@ -232,6 +235,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        for x in self.pre.iter_mut() {
+            x.set_sample_rate(sample_rate);
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.set_sample_rate(sample_rate);
-- 
2.43.0


From f2d159d5d9aa64b75d2c2fc9feed76f3fd31d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:41 +0000
Subject: [PATCH 12/29] fix: Adaptive starts from the level estimate that reset
 gives it

---
 src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 6a349c4..1f52e33 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -178,7 +178,7 @@ impl<S: Shape> Adaptive<S> {
             inner,
             timescale,
             smoothing: 0.0,
-            state: 0.0,
+            state: 1.0e-3,
         };
         adaptive.set_sample_rate(DEFAULT_SR);
         adaptive
-- 
2.43.0


From 33d4b510eb7e1ca840188cb6b70224a08a93e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:33 +0000
Subject: [PATCH 13/29] fix: Net::check does not examine shortcuts that are out
 of date

---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 5fe667c..e3ec659 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1025,6 +1025,10 @@ impl Net {
                     _ => (),
                 }
             }
+            // The source vertex shortcut is updated together with the order.
+            if !self.is_ordered() {
+                continue;
+            }
             if let Some((source_node, source_port)) = self.vertex[index].source_vertex {
                 assert!(source_node < self.size());
                 assert!(source_node != index);
-- 
2.43.0


From f66716ce1d9ec1b318e14cdf8efdb6a7c9ec767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:45 +0000
Subject: [PATCH 14/29] fix: Net::remove_link in a cycle does not create a self
 connection

---
 src/net.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/net.rs b/src/net.rs
index e3ec659..a06886a 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -400,7 +400,11 @@ impl Net {
                 if let Port::Local(index, port) = self.vertex[vertex].source[channel].source {
                     if index == node_index {
                         self.vertex[vertex].source[channel].source = if link {
-                            self.vertex[node_index].source[port].source
+                            match self.vertex[node_index].source[port].source {
+                                // Self connections are prohibited.
+                                Port::Local(source, _) if source == vertex => Port::Zero,
+                                source => source,
+                            }
                         } else {
                             Port::Zero
                         };
-- 
2.43.0


From 10ed332ee258fad32c5833134b1bb957542bb7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:45 +0000
Subject: [PATCH 15/29] fix: NetBackend handles commits and settings in the
 order they were sent

---
 src/net.rs     | 13 ------------
 src/realnet.rs | 56 ++++++++++++++++++--------------------------------
 2 files changed, 20 insertions(+), 49 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index a06886a..04f8bbf 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1296,19 +1296,6 @@ impl Net {
         }
         self.edit_queue.clear();
     }
-
-    /// Apply all edits from another network into this network.
-    pub(crate) fn apply_foreign_edits(
-        &mut self,
-        source: &mut Net,
-        sender: &Option<Sender<NetReturn>>,
-    ) {
-        for edit in source.edit_queue.iter_mut() {
-            if let Some(index) = self.node_index.get(&edit.id) {
-                self.vertex[*index].enqueue(edit, sender);
-            }
-        }
-    }
 }
 
 impl AudioUnit for Net {
diff --git a/src/realnet.rs b/src/realnet.rs
index df663de..90b3d20 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -61,49 +61,33 @@ impl NetBackend {
 
     /// Handle changes made to the backend.
     fn handle_messages(&mut self) {
-        let mut latest_net: Option<Net> = None;
+        // Messages are handled in the order they were sent.
         #[allow(clippy::while_let_loop)]
         loop {
             match self.receiver.try_recv() {
-                Ok(message) => {
-                    match message {
-                        NetMessage::Net(net) => {
-                            if let Some(mut net) = latest_net {
-                                // This is not the latest network, send it back immediately for deallocation.
-                                self.net.apply_foreign_edits(&mut net, &self.sender);
-                                if self
-                                    .sender
-                                    .as_ref()
-                                    .unwrap()
-                                    .try_send(NetReturn::Net(net))
-                                    .is_ok()
-                                {}
-                            }
-                            latest_net = Some(net);
-                        }
-                        NetMessage::Setting(setting) => {
-                            self.net.set(setting);
-                        }
-                        NetMessage::Null => (),
+                Ok(message) => match message {
+                    NetMessage::Net(mut net) => {
+                        // Migrate existing nodes to the new network.
+                        self.net.migrate(&mut net);
+                        core::mem::swap(&mut net, &mut self.net);
+                        self.net.apply_edits(&self.sender);
+                        // Send the previous network back for deallocation.
+                        if self
+                            .sender
+                            .as_ref()
+                            .unwrap()
+                            .try_send(NetReturn::Net(net))
+                            .is_ok()
+                        {}
                     }
-                }
+                    NetMessage::Setting(setting) => {
+                        self.net.set(setting);
+                    }
+                    NetMessage::Null => (),
+                },
                 _ => break,
             }
         }
-        if let Some(mut net) = latest_net {
-            // Migrate existing nodes to the new network.
-            self.net.migrate(&mut net);
-            core::mem::swap(&mut net, &mut self.net);
-            self.net.apply_edits(&self.sender);
-            // Send the previous network back for deallocation.
-            if self
-                .sender
-                .as_ref()
-                .unwrap()
-                .try_send(NetReturn::Net(net))
-                .is_ok()
-            {}
-        }
     }
 }
 
-- 
2.43.0


From d02b3d85f877bba50f0ab21b96a3d9e25596bd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:45 +0000
Subject: [PATCH 16/29] fix: settings sent through a frontend are not lost when
 its nodes are sent over later

---
 src/net.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 04f8bbf..b0e8dc3 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1351,8 +1351,14 @@ impl AudioUnit for Net {
 
     fn set(&mut self, setting: Setting) {
         if let Some((sender, _receiver)) = &mut self.front {
-            if sender.try_send(NetMessage::Setting(setting)).is_ok() {}
-        } else if let Address::Node(id) = setting.direction() {
+            if sender
+                .try_send(NetMessage::Setting(setting.clone()))
+                .is_ok()
+            {}
+        }
+        // A frontend keeps its own copy of the node up to date as well,
+        // as the copy is sent over if the node is changed later.
+        if let Address::Node(id) = setting.direction() {
             if let Some(index) = self.node_index.get(&id) {
                 self.vertex[*index].unit.set(setting.peel());
             }
-- 
2.43.0


From 19aedc521bdff97349b8b1afbc38f4a41ff11ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:45 +0000
Subject: [PATCH 17/29] fix: a committed crossfade is not undone by later
 changes to the node

---
 src/net.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index b0e8dc3..e7ff472 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1154,6 +1154,12 @@ impl Net {
         // Send over the original nodes to the backend.
         // This is necessary if the nodes contain any backends, which cannot be cloned effectively.
         core::mem::swap(&mut net.vertex, &mut self.vertex);
+        // Units that are being faded in replace the old ones in the frontend.
+        for edit in net.edit_queue.iter() {
+            if let Some(unit) = &edit.unit {
+                self.vertex[edit.index].unit = unit.clone();
+            }
+        }
         // Preallocate all necessary memory.
         net.allocate();
         if let Some((sender, receiver)) = &mut self.front {
-- 
2.43.0


From a0f4f0c20f0550f4d14a4c3573572e579c9ff648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:45 +0000
Subject: [PATCH 18/29] fix: Net::set_sample_rate reaches units waiting in
 crossfades

---
 src/net.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index e7ff472..54fab9f 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1319,12 +1319,23 @@ impl AudioUnit for Net {
             self.sample_rate = sample_rate;
             for vertex in &mut self.vertex {
                 vertex.unit.set_sample_rate(sample_rate as f64);
+                if let Some(unit) = &mut vertex.next.unit {
+                    unit.set_sample_rate(sample_rate as f64);
+                }
+                if let Some(unit) = &mut vertex.latest.unit {
+                    unit.set_sample_rate(sample_rate as f64);
+                }
                 // Sample rate change counts as a change
                 // to be sent to the backend because
                 // we cannot change sample rate in the backend
                 // - it may allocate or do something else inappropriate.
                 vertex.changed = self.revision;
             }
+            for edit in self.edit_queue.iter_mut() {
+                if let Some(unit) = &mut edit.unit {
+                    unit.set_sample_rate(sample_rate as f64);
+                }
+            }
             // Take the opportunity to unload some calculations.
             if !self.is_ordered() {
                 self.determine_order();
-- 
2.43.0


From e29fa4674a1c665231a7f8c8aa062b35ee6e7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:49 +0000
Subject: [PATCH 19/29] fix: sequencer fades of events that start inside a
 block

The buffer of an event begins at the first sample of the event, but the
fades indexed it from the beginning of the block.
---
 src/sequencer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index a750b63..388b6a3 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -131,8 +131,13 @@ fn fade_in(
         let fade_end_i = if fade_end_time >= end_time {
             end_index
         } else {
-            round((fade_end_time - time) / sample_duration) as usize
+            min(
+                end_index,
+                round((fade_end_time - time) / sample_duration) as usize,
+            )
         };
+        // The output buffer starts at start index.
+        let fade_end_i = max(start_index, fade_end_i) - start_index;
         let fade_phase = delerp(
             fade_start_time,
             fade_end_time,
@@ -167,7 +172,7 @@ fn fade_out(
     sample_duration: f64,
     time: f64,
     end_time: f64,
-    _start_index: usize,
+    start_index: usize,
     end_index: usize,
     ease: Fade,
     fade_duration: f64,
@@ -177,16 +182,19 @@ fn fade_out(
     let fade_start_time = fade_end_time - fade_duration;
     if fade_duration > 0.0 && fade_start_time < end_time {
         let fade_i = if fade_start_time <= time {
-            0
+            start_index
         } else {
             round((fade_start_time - time) / sample_duration) as usize
         };
+        let fade_i = clamp(start_index, end_index, fade_i);
         let fade_phase = delerp(
             fade_start_time,
             fade_end_time,
             time + fade_i as f64 * sample_duration,
         ) as f32;
         let fade_d = (sample_duration / fade_duration) as f32;
+        // The output buffer starts at start index.
+        let (fade_i, end_index) = (fade_i - start_index, end_index - start_index);
         match ease {
             Fade::Power => {
                 for channel in 0..output.channels() {
-- 
2.43.0


From 8b2912585d73e39a4f7aba739b8d21b3f7a410c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:49 +0000
Subject: [PATCH 20/29] fix: changes sent to a sequencer backend after a reset
 are not reset

Handling a reset message handled the messages that came after it first.
---
 src/realseq.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/realseq.rs b/src/realseq.rs
index 9e3089d..2371094 100644
--- a/src/realseq.rs
+++ b/src/realseq.rs
@@ -63,7 +63,7 @@ impl SequencerBackend {
         while let Ok(message) = self.receiver.try_recv() {
             match message {
                 Message::Reset => {
-                    self.reset();
+                    self.reset_sequencer();
                 }
                 Message::Push(event) => {
                     self.sequencer.push_event(event);
@@ -82,6 +82,22 @@ impl SequencerBackend {
         }
     }
 
+    /// Reset the sequencer, without handling any messages.
+    fn reset_sequencer(&mut self) {
+        if !self.sequencer.replay_events() {
+            while let Some(event) = self.sequencer.get_past_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+            while let Some(event) = self.sequencer.get_ready_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+            while let Some(event) = self.sequencer.get_active_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+        }
+        self.sequencer.reset();
+    }
+
     #[inline]
     fn send_back_past(&mut self) {
         while let Some(event) = self.sequencer.get_past_event() {
@@ -101,18 +117,7 @@ impl AudioUnit for SequencerBackend {
 
     fn reset(&mut self) {
         self.handle_messages();
-        if !self.sequencer.replay_events() {
-            while let Some(event) = self.sequencer.get_past_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-            while let Some(event) = self.sequencer.get_ready_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-            while let Some(event) = self.sequencer.get_active_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-        }
-        self.sequencer.reset();
+        self.reset_sequencer();
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-- 
2.43.0


From 462efc92452d73347b28fb29ceb00da53e3089d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:08 +0000
Subject: [PATCH 21/29] fix: sequencer fade gains stay in range at the ends of
 a fade

Times that do not fall on samples evaluated the fade curve outside its
domain, which amplifies without bound when the fade is very short.
---
 src/sequencer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index 388b6a3..ea25d52 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -149,7 +149,7 @@ fn fade_in(
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
                     for x in output.channel_f32_mut(channel)[..fade_end_i].iter_mut() {
-                        *x *= sine_ease(fade);
+                        *x *= sine_ease(clamp01(fade));
                         fade += fade_d;
                     }
                 }
@@ -158,7 +158,7 @@ fn fade_in(
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
                     for x in output.channel_f32_mut(channel)[..fade_end_i].iter_mut() {
-                        *x *= smooth5(fade);
+                        *x *= smooth5(clamp01(fade));
                         fade += fade_d;
                     }
                 }
@@ -200,7 +200,7 @@ fn fade_out(
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
                     for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
-                        *x *= sine_ease(1.0 - fade);
+                        *x *= sine_ease(1.0 - clamp01(fade));
                         fade += fade_d;
                     }
                 }
@@ -209,7 +209,7 @@ fn fade_out(
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
                     for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
-                        *x *= smooth5(1.0 - fade);
+                        *x *= smooth5(1.0 - clamp01(fade));
                         fade += fade_d;
                     }
                 }
@@ -668,12 +668,12 @@ impl AudioUnit for Sequencer {
                         match self.active[i].fade_ease {
                             Fade::Power => {
                                 for channel in 0..self.outputs {
-                                    self.tick_buffer[channel] *= sine_ease(fade_in);
+                                    self.tick_buffer[channel] *= sine_ease(max(0.0, fade_in));
                                 }
                             }
                             Fade::Smooth => {
                                 for channel in 0..self.outputs {
-                                    self.tick_buffer[channel] *= smooth5(fade_in);
+                                    self.tick_buffer[channel] *= smooth5(max(0.0, fade_in));
                                 }
                             }
                         }
@@ -689,12 +689,12 @@ impl AudioUnit for Sequencer {
                         match self.active[i].fade_ease {
                             Fade::Power => {
                                 for channel in 0..self.outputs {
-                                    self.tick_buffer[channel] *= sine_ease(1.0 - fade_out);
+                                    self.tick_buffer[channel] *= sine_ease(1.0 - min(1.0, fade_out));
                                 }
                             }
                             Fade::Smooth => {
                                 for channel in 0..self.outputs {
-                                    self.tick_buffer[channel] *= smooth5(1.0 - fade_out);
+                                    self.tick_buffer[channel] *= smooth5(1.0 - min(1.0, fade_out));
                                 }
                             }
                         }
-- 
2.43.0


From 24e82b584ba18a5594628510cbb3f083c53c6d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:51 +0000
Subject: [PATCH 22/29] fix: events pushed to a sequencer backend get its
 sample rate

The frontend does not know about changes of sample rate in the backend.
---
 src/realseq.rs   | 14 ++++++++------
 src/sequencer.rs | 19 +++++++++++++++++--
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/realseq.rs b/src/realseq.rs
index 2371094..e60cb5f 100644
--- a/src/realseq.rs
+++ b/src/realseq.rs
@@ -12,10 +12,10 @@ pub(crate) enum Message {
     /// Reset the sequencer.
     #[default]
     Reset,
-    /// Add new event in absolute time.
-    Push(Event),
-    /// Add new event in relative time.
-    PushRelative(Event),
+    /// Add new event in absolute time. The second argument is the sample rate of the event.
+    Push(Event, f64),
+    /// Add new event in relative time. The second argument is the sample rate of the event.
+    PushRelative(Event, f64),
     /// Edit event.
     Edit(EventId, Edit),
     /// Edit event in relative time.
@@ -65,10 +65,12 @@ impl SequencerBackend {
                 Message::Reset => {
                     self.reset_sequencer();
                 }
-                Message::Push(event) => {
+                Message::Push(mut event, sample_rate) => {
+                    self.sequencer.adopt_event(&mut event, sample_rate);
                     self.sequencer.push_event(event);
                 }
-                Message::PushRelative(event) => {
+                Message::PushRelative(mut event, sample_rate) => {
+                    self.sequencer.adopt_event(&mut event, sample_rate);
                     self.sequencer.push_relative_event(event);
                 }
                 Message::Edit(id, edit) => {
diff --git a/src/sequencer.rs b/src/sequencer.rs
index ea25d52..52492f4 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -347,7 +347,10 @@ impl Sequencer {
             // Deallocate all past events.
             while receiver.try_recv().is_ok() {}
             // Send the new event over.
-            if sender.try_send(Message::Push(event)).is_ok() {}
+            if sender
+                .try_send(Message::Push(event, self.sample_rate))
+                .is_ok()
+            {}
         } else if event.start_time < self.active_threshold {
             self.active_map.insert(event.id, self.active.len());
             self.active.push(event);
@@ -395,7 +398,10 @@ impl Sequencer {
             // Deallocate all past events.
             while receiver.try_recv().is_ok() {}
             // Send the new event over.
-            if sender.try_send(Message::PushRelative(event)).is_ok() {}
+            if sender
+                .try_send(Message::PushRelative(event, self.sample_rate))
+                .is_ok()
+            {}
         } else {
             event.start_time += self.time;
             event.end_time += self.time;
@@ -561,6 +567,15 @@ impl Sequencer {
         self.replay_events
     }
 
+    /// Make sure the sample rate of an event that was set up
+    /// at the given sample rate matches ours. This is an internal method.
+    pub(crate) fn adopt_event(&self, event: &mut Event, sample_rate: f64) {
+        if sample_rate != self.sample_rate {
+            event.unit.set_sample_rate(self.sample_rate);
+            event.unit.allocate();
+        }
+    }
+
     /// Get past events. This is an internal method.
     pub(crate) fn get_past_event(&mut self) -> Option<Event> {
         self.past.pop()
-- 
2.43.0


From cd11ae8e30afc249d1f5fd7e656240a12d68010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:41 +0000
Subject: [PATCH 23/29] fix: units sent to a slot get the sample rate of the
 slot

---
 src/slot.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/slot.rs b/src/slot.rs
index d061459..c992cc2 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -4,6 +4,7 @@ use super::audiounit::*;
 use super::buffer::*;
 use super::math::*;
 use super::sequencer::*;
+use super::shared::*;
 use super::signal::*;
 use super::*;
 use thingbuf::mpsc::{channel, Receiver, Sender};
@@ -17,7 +18,8 @@ enum SlotMessage {
     #[default]
     Nothing,
     /// Update unit using fade shape and fade time (in seconds).
-    Update(Fade, f64, Box<dyn AudioUnit>),
+    /// The last argument is the sample rate of the unit.
+    Update(Fade, f64, Box<dyn AudioUnit>, f64),
     /// Return a unit for deallocation.
     #[allow(dead_code)]
     Return(Box<dyn AudioUnit>),
@@ -29,6 +31,8 @@ pub struct Slot {
     outputs: usize,
     receiver: Receiver<SlotMessage>,
     sender: Sender<SlotMessage>,
+    /// Sample rate of the backend.
+    sample_rate: Shared,
 }
 
 impl Slot {
@@ -39,11 +43,13 @@ impl Slot {
         let (sender_b, receiver_b) = channel(1024);
         let inputs = initial_unit.inputs();
         let outputs = initial_unit.outputs();
+        let sample_rate = Shared::new(DEFAULT_SR as f32);
         let slot = Slot {
             inputs,
             outputs,
             receiver: receiver_a,
             sender: sender_b,
+            sample_rate: sample_rate.clone(),
         };
         initial_unit.set_sample_rate(DEFAULT_SR);
         #[allow(clippy::unnecessary_cast)]
@@ -61,6 +67,7 @@ impl Slot {
             latest_fade_time: 0.0,
             receiver: receiver_b,
             sender: sender_a,
+            shared_sample_rate: sample_rate,
             buffer: BufferVec::new(outputs),
             tick: vec![0.0; outputs],
         };
@@ -69,12 +76,16 @@ impl Slot {
 
     /// Set the unit. The current unit will be faded out and the new unit will be faded in
     /// simultaneously.
-    pub fn set(&mut self, fade: Fade, fade_time: f64, unit: Box<dyn AudioUnit>) {
+    pub fn set(&mut self, fade: Fade, fade_time: f64, mut unit: Box<dyn AudioUnit>) {
         assert_eq!(self.inputs, unit.inputs());
         assert_eq!(self.outputs, unit.outputs());
         // Deallocate units that were sent back.
         while self.receiver.try_recv().is_ok() {}
-        let message = SlotMessage::Update(fade, fade_time, unit);
+        // Make sure the sample rate of the unit matches the backend.
+        let sample_rate = self.sample_rate.value() as f64;
+        unit.set_sample_rate(sample_rate);
+        unit.allocate();
+        let message = SlotMessage::Update(fade, fade_time, unit, sample_rate);
         if self.sender.try_send(message).is_ok() {}
     }
 
@@ -103,6 +114,8 @@ pub struct SlotBackend {
     latest_fade_time: f64,
     receiver: Receiver<SlotMessage>,
     sender: Sender<SlotMessage>,
+    /// Sample rate communicated to the frontend.
+    shared_sample_rate: Shared,
     buffer: BufferVec,
     tick: Vec<f32>,
 }
@@ -125,6 +138,7 @@ impl Clone for SlotBackend {
             latest_fade_time: self.latest_fade_time,
             receiver,
             sender,
+            shared_sample_rate: Shared::new(self.shared_sample_rate.value()),
             buffer: BufferVec::new(self.outputs),
             tick: self.tick.clone(),
         }
@@ -135,7 +149,11 @@ impl SlotBackend {
     /// Handle updates.
     fn handle_messages(&mut self) {
         while let Ok(message) = self.receiver.try_recv() {
-            if let SlotMessage::Update(fade, fade_time, unit) = message {
+            if let SlotMessage::Update(fade, fade_time, mut unit, sample_rate) = message {
+                if sample_rate != self.sample_rate {
+                    unit.set_sample_rate(self.sample_rate);
+                    unit.allocate();
+                }
                 if self.next.is_none() {
                     self.next = Some(unit);
                     self.fade_phase = 0.0;
@@ -185,6 +203,7 @@ impl AudioUnit for SlotBackend {
     #[allow(clippy::unnecessary_cast)]
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.sample_rate = sample_rate;
+        self.shared_sample_rate.set_value(sample_rate as f32);
         self.current.set_sample_rate(sample_rate);
         if let Some(next) = self.next.as_deref_mut() {
             next.set_sample_rate(sample_rate);
-- 
2.43.0


From cc750068dd50e99298c0ddaf473cb9912617876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:54 +0000
Subject: [PATCH 24/29] fix: Wave::retain of a span beyond the end of the wave
 leaves an empty wave

---
 src/wave.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wave.rs b/src/wave.rs
index cc3a056..36c6405 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -314,7 +314,7 @@ impl Wave {
                 }
             }
         }
-        self.resize(i1 - i0);
+        self.resize(i1.saturating_sub(i0));
     }
 
     /// Peak amplitude of the wave. An empty wave has zero amplitude.
-- 
2.43.0


From f5daa13997617223112aff44c0144f610e2faf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:54 +0000
Subject: [PATCH 25/29] fix: Wave::render_latency and filter_latency discard
 the latency at the sample rate of the wave

---
 src/wave.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wave.rs b/src/wave.rs
index 36c6405..c780cae 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -477,6 +477,8 @@ impl Wave {
         assert_eq!(node.inputs(), 0);
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        node.set_sample_rate(sample_rate);
+        node.reset();
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
@@ -572,6 +574,7 @@ impl Wave {
         assert_eq!(node.inputs(), self.channels());
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        node.set_sample_rate(self.sample_rate());
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
-- 
2.43.0


From d83b8904facc45ba2faeb96c654b39f24b841a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:54 +0000
Subject: [PATCH 26/29] fix: errors in writing the end of a WAV are reported

---
 src/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 30b3bbe..818f408 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -72,7 +72,7 @@ impl Wave {
                 write16(&mut writer, (sample as i16) as u16)?;
             }
         }
-        std::io::Result::Ok(())
+        writer.flush()
     }
 
     /// Write the wave as a 32-bit float WAV to a buffer.
@@ -94,7 +94,7 @@ impl Wave {
                 writer.write_all(&sample.to_le_bytes())?;
             }
         }
-        std::io::Result::Ok(())
+        writer.flush()
     }
 
     /// Save the wave as a 16-bit WAV file.
-- 
2.43.0


From c410c080819c76c016f55018f78bb0944119dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:44 +0000
Subject: [PATCH 27/29] fix: TapLinear has room for the block it writes ahead

---
 src/delay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/delay.rs b/src/delay.rs
index 8bb1f8c..9e9152f 100644
--- a/src/delay.rs
+++ b/src/delay.rs
@@ -437,7 +437,7 @@ where
         let sample_rate = sample_rate as f32;
         if self.sample_rate != sample_rate {
             self.sample_rate = sample_rate;
-            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0;
+            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0 + SIMD_N as f32;
             let buffer_length = (buffer_length as usize).next_power_of_two();
             self.buffer.resize(buffer_length, 0.0);
             self.reset();
-- 
2.43.0


From d7a0c2d07af24e484ee1aff2cca55c768ac8252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:30 +0000
Subject: [PATCH 28/29] fix: Crush rounds halfway cases alike in blocks and in
 single samples

---
 src/shape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 1f52e33..1300888 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -132,7 +132,9 @@ impl Shape for Crush {
     }
     #[inline]
     fn simd(&mut self, input: F32x) -> F32x {
-        (input * self.0).round() / self.0
+        // Round lane by lane because vector rounding treats halfway cases differently.
+        let x = input * self.0;
+        F32x::new(core::array::from_fn(|i| x.as_array_ref()[i].round())) / self.0
     }
 }
 
-- 
2.43.0


From 5f952fe5100892ef296b5c11ab9776d57c2b45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:33 +0000
Subject: [PATCH 29/29] fix: Limiter output stays in -1...1 when its level lags
 behind a peak

---
 src/dynamics.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index 3e43f7e..855b201 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -216,7 +216,10 @@ where
             self.follower
                 .filter_mono(max(1.0, self.reducer.total() * 1.10));
             self.advance();
-            let limit = self.follower.value();
+            // The level may still lag behind a sudden peak.
+            let limit = output
+                .iter()
+                .fold(self.follower.value(), |limit, &x| max(limit, abs(x)));
             output * Frame::splat(1.0 / limit)
         }
     }
-- 
2.43.0

