From e9c129513a5dd79a64cd02782a430412f0dbce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:09 +0000
Subject: [PATCH 01/40] Add guarded verification hooks (cfg rawdio_verif)

---
 src/buffer/mod.rs |  5 +++++
 src/lib.rs        | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index c7bf312..8531824 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -11,3 +11,8 @@ pub(crate) use buffer_pool::BufferPool;
 pub use mutable_borrowed_audio_buffer::MutableBorrowedAudioBuffer;
 pub use owned_audio_buffer::OwnedAudioBuffer;
 pub use sample_location::SampleLocation;
+
+#[cfg(rawdio_verif)]
+pub mod verif_hooks {
+    pub use super::sample_location::SampleRange;
+}
diff --git a/src/lib.rs b/src/lib.rs
index 445d3b6..b345382 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![feature(portable_simd)]
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 //! rawdio is an audio engine that is inspired by the Web Audio API
 //!  
@@ -87,3 +88,14 @@ pub mod prelude {
         MutableBorrowedAudioBuffer, OwnedAudioBuffer, SampleLocation, Timestamp,
     };
 }
+
+/// Private items needed by an external verification harness
+///
+/// Only present when built with `--cfg rawdio_verif`
+#[cfg(rawdio_verif)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    pub use crate::buffer::verif_hooks::SampleRange;
+    pub use crate::commands::Id;
+    pub use crate::graph::{DspParameters, DspProcessor};
+}
-- 
2.43.0


From f77c412be1d748d2e496c9082272ddc0398a0243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 02/40] fix: apply all due parameter changes at once, in time
 order

---
 src/parameter/realtime_parameter.rs | 65 ++++++++++++++++-------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index cf94d35..43f58a1 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -109,44 +109,51 @@ impl RealtimeAudioParameter {
         self.set_value(value);
     }
 
-    fn value_at_time(&mut self, time: &Timestamp, sample_rate: usize, value: f64) -> f64 {
-        if let Some(next_event) = self.parameter_changes.first() {
+    fn value_at_time(&mut self, time: &Timestamp, sample_rate: usize, mut value: f64) -> f64 {
+        while let Some(next_event) = self.parameter_changes.first() {
+            let start_time = match next_event.method {
+                ValueChangeMethod::Immediate => next_event.end_time,
+                ValueChangeMethod::Linear(start_time) => start_time,
+                ValueChangeMethod::Exponential(start_time) => start_time,
+            };
+
+            if start_time > *time {
+                break;
+            }
+
+            // Changes that have already completed determine where this one starts
+            if self.current_change.end_time <= *time {
+                value = self.current_change.value;
+            }
+
             match next_event.method {
                 ValueChangeMethod::Immediate => {
-                    if next_event.end_time <= *time {
-                        self.increment = 0.0;
-                        self.coefficient = 1.0;
-                        self.current_change = self.parameter_changes.remove(0);
-                    }
-                }
-                ValueChangeMethod::Linear(start_time) => {
-                    if *time >= start_time {
-                        let duration = next_event.end_time.as_samples(sample_rate)
-                            - time.as_samples(sample_rate);
-                        let delta = next_event.value - value;
-
-                        self.increment = delta / duration;
-                        self.coefficient = 1.0;
-                        self.current_change = self.parameter_changes.remove(0);
-                    }
+                    self.increment = 0.0;
+                    self.coefficient = 1.0;
                 }
-                ValueChangeMethod::Exponential(start_time) => {
-                    if *time >= start_time {
-                        debug_assert_ne!(next_event.value, 0.0);
-                        debug_assert_ne!(value, 0.0);
+                ValueChangeMethod::Linear(_) => {
+                    let duration = next_event.end_time.as_samples(sample_rate)
+                        - time.as_samples(sample_rate);
+                    let delta = next_event.value - value;
 
-                        let ratio = next_event.value / value;
+                    self.increment = delta / duration;
+                    self.coefficient = 1.0;
+                }
+                ValueChangeMethod::Exponential(_) => {
+                    debug_assert_ne!(next_event.value, 0.0);
+                    debug_assert_ne!(value, 0.0);
 
-                        let duration = next_event.end_time.as_samples(sample_rate)
-                            - time.as_samples(sample_rate);
+                    let ratio = next_event.value / value;
 
-                        self.increment = 0.0;
-                        self.coefficient = (ratio.ln() / duration).exp();
+                    let duration = next_event.end_time.as_samples(sample_rate)
+                        - time.as_samples(sample_rate);
 
-                        self.current_change = self.parameter_changes.remove(0);
-                    }
+                    self.increment = 0.0;
+                    self.coefficient = (ratio.ln() / duration).exp();
                 }
             };
+
+            self.current_change = self.parameter_changes.remove(0);
         }
 
         if self.current_change.end_time <= *time {
-- 
2.43.0


From 2400726a3bd38de641349840d4ab1c0ee4bafc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 03/40] Add guarded verification hooks: parameter ranges (cfg
 rawdio_verif)

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index b345382..271ba64 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -98,4 +98,5 @@ pub mod verif_hooks {
     pub use crate::buffer::verif_hooks::SampleRange;
     pub use crate::commands::Id;
     pub use crate::graph::{DspParameters, DspProcessor};
+    pub use crate::parameter::ParameterRange;
 }
-- 
2.43.0


From 99b330f06079f4354c4f6d6540ec1cbb08dd602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:57 +0000
Subject: [PATCH 04/40] fix: ramps that end between two samples no longer
 overshoot their target

---
 src/parameter/realtime_parameter.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 43f58a1..997a44d 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -160,7 +160,15 @@ impl RealtimeAudioParameter {
             return self.current_change.value;
         }
 
-        (value * self.coefficient) + self.increment
+        let next_value = (value * self.coefficient) + self.increment;
+
+        // A ramp that ends between two samples must not overshoot its target
+        let target = self.current_change.value;
+        if value <= target {
+            next_value.min(target)
+        } else {
+            next_value.max(target)
+        }
     }
 
     pub fn get_values(&self, frame_count: usize) -> &[f32] {
-- 
2.43.0


From a747ac2d831d05c3da1162aeca7b0073746a5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 05/40] fix: cancelling parameter changes ending after a time
 keeps the earlier ones

---
 src/parameter/realtime_parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 997a44d..0703133 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -188,7 +188,7 @@ impl RealtimeAudioParameter {
 
     pub fn cancel_scheduled_changes_ending_after(&mut self, time: &Timestamp) {
         self.parameter_changes
-            .retain(|change| change.end_time >= *time);
+            .retain(|change| change.end_time <= *time);
     }
 
     pub fn cancel_scheduled_changes(&mut self) {
-- 
2.43.0


From 83f55e62997f561d4e03675583a877884ac7d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 06/40] fix: several connections between the same two nodes are
 not a cycle

---
 src/realtime/graph.rs            |  5 -----
 src/realtime/topological_sort.rs | 11 +++++------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index c4e5413..0bb28eb 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -108,11 +108,6 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         self.nodes.insert(id, Node::new(node_data));
     }
 
-    pub fn is_connected_to(&self, from_node_id: Id, to_node_id: Id) -> bool {
-        NodeIterator::new(from_node_id, Direction::Outgoing, &self.nodes, &self.edges)
-            .any(|id| id == to_node_id)
-    }
-
     pub fn node_iter(&self, node_id: Id, direction: Direction) -> NodeIterator<NodeData, EdgeData> {
         NodeIterator::new(node_id, direction, &self.nodes, &self.edges)
     }
diff --git a/src/realtime/topological_sort.rs b/src/realtime/topological_sort.rs
index b334b5e..31ba96a 100644
--- a/src/realtime/topological_sort.rs
+++ b/src/realtime/topological_sort.rs
@@ -35,12 +35,11 @@ impl TopologicalSort {
             self.order.push(next_node_id);
             self.dependency_count.remove(&next_node_id);
 
-            for node_id in graph.all_node_ids() {
-                if graph.is_connected_to(next_node_id, *node_id) {
-                    let previous_value = self.dependency_count.get_mut(node_id).unwrap();
-                    assert!(*previous_value > 0);
-                    *previous_value -= 1;
-                }
+            // A node that is connected more than once is visited once per connection
+            for node_id in graph.node_iter(next_node_id, Direction::Outgoing) {
+                let previous_value = self.dependency_count.get_mut(&node_id).unwrap();
+                assert!(*previous_value > 0);
+                *previous_value -= 1;
             }
         }
 
-- 
2.43.0


From 76ccec44e708bb9856675b59ed800a51f50719a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:38 +0000
Subject: [PATCH 07/40] fix: a node fed by both the system input and other
 nodes receives their sum

---
 src/realtime/dsp_graph.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 5995716..bc17dc6 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -289,8 +289,6 @@ fn copy_output_from_dependencies(
     destination_buffer: &mut dyn AudioBuffer,
     frame_count: usize,
 ) {
-    let mut mix_behaviour = MixBehaviour::Overwrite;
-
     for edge_id in graph.edge_iterator(dsp_id, Direction::Incoming) {
         let edge = graph.get_edge(edge_id).expect("Edge not found");
 
@@ -304,10 +302,8 @@ fn copy_output_from_dependencies(
             edge.edge_data.destination_input_channel,
             edge.edge_data.channel_count,
             frame_count,
-            mix_behaviour,
+            MixBehaviour::Mix,
         );
-
-        mix_behaviour = MixBehaviour::Mix;
     }
 }
 
@@ -370,7 +366,14 @@ fn prepare_single_input_node(
 
     let edge = graph.get_edge(edge_id).unwrap();
 
-    if edge.edge_data.destination_input_channel == 0 && edge.edge_data.source_output_channel == 0 {
+    let has_system_input = buffer_pools
+        .assigned
+        .has(&Endpoint::new(dsp_id, EndpointType::Input));
+
+    if !has_system_input
+        && edge.edge_data.destination_input_channel == 0
+        && edge.edge_data.source_output_channel == 0
+    {
         let input_endpoint = Endpoint::new(edge.from_node_id, EndpointType::Output);
 
         return (
-- 
2.43.0


From d62a0cb257731a0251c02868229feca5371e5b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:15 +0000
Subject: [PATCH 08/40] fix: a connection of some channels no longer passes the
 others too

---
 src/realtime/dsp_graph.rs | 10 ++++++++++
 src/realtime/graph.rs     |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index bc17dc6..7f90ae1 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -370,7 +370,17 @@ fn prepare_single_input_node(
         .assigned
         .has(&Endpoint::new(dsp_id, EndpointType::Input));
 
+    // Sharing the buffer of the source connects all of its channels
+    let connected_channel_count = edge.edge_data.channel_count;
+    let connects_all_channels = graph
+        .get_node(edge.from_node_id)
+        .is_some_and(|source| connected_channel_count >= source.output_count())
+        || graph
+            .get_node(dsp_id)
+            .is_some_and(|destination| connected_channel_count >= destination.input_count());
+
     if !has_system_input
+        && connects_all_channels
         && edge.edge_data.destination_input_channel == 0
         && edge.edge_data.source_output_channel == 0
     {
diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index 0bb28eb..cca9035 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -99,6 +99,10 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         None
     }
 
+    pub fn get_node(&self, id: Id) -> Option<&NodeData> {
+        self.nodes.get(&id).map(|node| &node.node_data)
+    }
+
     pub fn get_node_mut(&mut self, id: Id) -> Option<&mut NodeData> {
         self.nodes.get_mut(&id).map(|node| &mut node.node_data)
     }
-- 
2.43.0


From 5ab1ce0a060dc6486158321656bd5d619d48b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:21 +0000
Subject: [PATCH 09/40] fix: disconnecting two nodes removes every connection
 between them

---
 src/realtime/dsp_graph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 7f90ae1..3e4d908 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -157,8 +157,12 @@ impl DspGraph {
     }
 
     pub fn remove_connection(&mut self, connection: Connection) {
-        self.graph
-            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id);
+        // The nodes may be connected more than once
+        while self
+            .graph
+            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id)
+            .is_some()
+        {}
 
         self.mark_graph_needs_sort();
     }
-- 
2.43.0


From ab27f890f1cc6b88eb8b437ffc940c294e1356f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 10/40] fix: dropping a connected node removes its connections
 instead of panicking

---
 src/realtime/graph.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index cca9035..2c25a71 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -78,18 +78,33 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         let id = self.find_edge_between_nodes(from_node_id, to_node_id);
 
         if let Some(id) = id {
-            if let Some((_, edge)) = self.edges.remove_entry(&id) {
-                replace_connections(self, Direction::Outgoing, id, edge.next_out);
-                replace_connections(self, Direction::Incoming, id, edge.next_in);
+            return self.remove_edge_with_id(id);
+        }
 
-                return Some(edge.edge_data);
-            }
+        None
+    }
+
+    fn remove_edge_with_id(&mut self, id: Id) -> Option<EdgeData> {
+        if let Some((_, edge)) = self.edges.remove_entry(&id) {
+            replace_connections(self, Direction::Outgoing, id, edge.next_out);
+            replace_connections(self, Direction::Incoming, id, edge.next_in);
+
+            return Some(edge.edge_data);
         }
 
         None
     }
 
+    fn remove_edges_of_node(&mut self, id: Id, direction: Direction) {
+        while let Some(edge_id) = self.edge_iterator(id, direction).next() {
+            self.remove_edge_with_id(edge_id);
+        }
+    }
+
     pub fn remove_node(&mut self, id: Id) -> Option<NodeData> {
+        self.remove_edges_of_node(id, Direction::Incoming);
+        self.remove_edges_of_node(id, Direction::Outgoing);
+
         if let Some((_, node)) = self.nodes.remove_entry(&id) {
             assert!(node.incoming.is_none());
             assert!(node.outgoing.is_none());
-- 
2.43.0


From f6494cba6371db9c0d2046337cc32e0c9974b491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 11/40] fix: slicing the channels of a buffer swapped frame and
 channel counts

---
 src/buffer/borrowed_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/borrowed_audio_buffer.rs b/src/buffer/borrowed_audio_buffer.rs
index 05b512d..d0a8e87 100644
--- a/src/buffer/borrowed_audio_buffer.rs
+++ b/src/buffer/borrowed_audio_buffer.rs
@@ -33,7 +33,7 @@ impl<'a> BorrowedAudioBuffer<'a> {
         let frame_count = buffer.frame_count();
         Self::slice(
             buffer,
-            SampleRange::new(channel_offset, 0, frame_count, channel_count),
+            SampleRange::new(channel_offset, 0, channel_count, frame_count),
         )
     }
 
-- 
2.43.0


From efd570d240815b3787537275f20a9ddc7eec01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:59 +0000
Subject: [PATCH 12/40] fix: a buffer created from a slice has all the
 requested channels

---
 src/buffer/owned_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/owned_audio_buffer.rs b/src/buffer/owned_audio_buffer.rs
index 8c3bbd0..7362a78 100644
--- a/src/buffer/owned_audio_buffer.rs
+++ b/src/buffer/owned_audio_buffer.rs
@@ -29,7 +29,7 @@ impl OwnedAudioBuffer {
     ///
     /// The audio from `data` represents a single channel and will be copied to all channels
     pub fn from_slice(data: &[f32], channel_count: usize, sample_rate: usize) -> Self {
-        let mut buffer = Self::new(data.len(), 1, sample_rate);
+        let mut buffer = Self::new(data.len(), channel_count, sample_rate);
 
         for channel in 0..channel_count {
             buffer.fill_from_slice(data, SampleLocation::channel(channel));
-- 
2.43.0


From 4349138f2a05903dce1703e906a2afdd52d6e243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 13/40] fix: interleaving keeps the stride of the interleaved
 data when channel counts differ

---
 src/buffer/audio_buffer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 0c94163..8e0b93c 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -18,9 +18,9 @@ pub trait AudioBuffer {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
         let frame_count = frame_count.min(self.frame_count());
-        let channel_count = channel_count.min(self.channel_count());
+        let channels_to_fill = channel_count.min(self.channel_count());
 
-        for channel in 0..channel_count {
+        for channel in 0..channels_to_fill {
             let channel_data = self.get_channel_data_mut(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
@@ -43,10 +43,10 @@ pub trait AudioBuffer {
     ) {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
-        let channel_count = channel_count.min(self.channel_count());
+        let channels_to_copy = channel_count.min(self.channel_count());
         let frame_count = frame_count.min(self.frame_count());
 
-        for channel in 0..channel_count {
+        for channel in 0..channels_to_copy {
             let channel_data = self.get_channel_data(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
-- 
2.43.0


From 4a096f9d6e182fd4dbbcbd240aeb868d0e1e4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 14/40] fix: applying a gain of zero or one affects every
 channel in the range

---
 src/buffer/audio_buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 8e0b93c..4be8c21 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -273,11 +273,11 @@ pub trait AudioBuffer {
 
             if relative_eq!(gain, 0.0) {
                 channel_data.fill(0.0);
-                return;
+                continue;
             }
 
             if relative_eq!(gain, 1.0) {
-                return;
+                continue;
             }
 
             multiply_by_value(channel_data, gain);
-- 
2.43.0


From 445e630802473c3616334a4845a78365781ab7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 15/40] fix: setting more than 32 mixer levels before a block
 no longer blocks forever

---
 src/effects/mixer/mixer_node.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/effects/mixer/mixer_node.rs b/src/effects/mixer/mixer_node.rs
index 4a92d08..99365dd 100644
--- a/src/effects/mixer/mixer_node.rs
+++ b/src/effects/mixer/mixer_node.rs
@@ -1,7 +1,9 @@
 use crate::{commands::Id, effects::Channel, graph::DspParameters, prelude::*};
 
 use super::{
-    mixer_event::EventTransmitter, mixer_matrix::MixerMatrix, mixer_processor::MixerProcessor,
+    mixer_event::{EventReceiver, EventTransmitter},
+    mixer_matrix::MixerMatrix,
+    mixer_processor::MixerProcessor,
 };
 
 /// A node that mixes between its input and output channels
@@ -21,6 +23,7 @@ pub struct Mixer {
     /// The matrix for how the inputs will be mixed to the outputs
     pub gain_matrix: MixerMatrix,
     event_transmitter: EventTransmitter,
+    event_receiver: EventReceiver,
 }
 
 static EVENT_CHANNEL_CAPACITY: usize = 32;
@@ -34,7 +37,7 @@ impl Mixer {
 
         let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
 
-        let processor = Box::new(MixerProcessor::new(event_receiver));
+        let processor = Box::new(MixerProcessor::new(event_receiver.clone()));
 
         Self {
             node: GraphNode::new(
@@ -47,6 +50,7 @@ impl Mixer {
             ),
             gain_matrix,
             event_transmitter,
+            event_receiver,
         }
     }
 
@@ -55,7 +59,15 @@ impl Mixer {
         self.gain_matrix
             .set_level(input_channel, output_channel, level);
 
-        let _ = self.event_transmitter.send(self.gain_matrix.clone());
+        // The processor only uses the latest matrix, so when the queue is full,
+        // make space by discarding the oldest one instead of waiting
+        while self
+            .event_transmitter
+            .try_send(self.gain_matrix.clone())
+            .is_err()
+        {
+            let _ = self.event_receiver.try_recv();
+        }
     }
 
     /// Create a mixer that converts from mono to stereo
-- 
2.43.0


From 169be5c03a0a2b9e641a3bfc15e9c184aeaffbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 16/40] fix: the oscillator reads its wavetable as periodic and
 never past its end

---
 src/effects/oscillator/oscillator_processor.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/effects/oscillator/oscillator_processor.rs b/src/effects/oscillator/oscillator_processor.rs
index 5a9a029..a868a96 100644
--- a/src/effects/oscillator/oscillator_processor.rs
+++ b/src/effects/oscillator/oscillator_processor.rs
@@ -17,7 +17,7 @@ impl OscillatorProcessor {
 
     fn increment_phase(&mut self, frequency: f32, sample_rate: usize) {
         self.phase += (frequency as f64) / (sample_rate as f64);
-        while self.phase > 1.0 {
+        while self.phase >= 1.0 {
             self.phase -= 1.0;
         }
     }
@@ -25,15 +25,12 @@ impl OscillatorProcessor {
     fn get_value(&self) -> f64 {
         let offset = self.phase * self.wavetable.len() as f64;
 
-        let offset_before = offset.floor() as usize;
-        let offset_after = offset.ceil() as usize;
+        // The wavetable is periodic
+        let offset_before = offset.floor() as usize % self.wavetable.len();
+        let offset_after = (offset_before + 1) % self.wavetable.len();
 
         let value_before = self.wavetable[offset_before];
-        let value_after = if offset_after < self.wavetable.len() {
-            self.wavetable[offset_after]
-        } else {
-            0.0
-        };
+        let value_after = self.wavetable[offset_after];
 
         let weighting = offset - offset.floor();
         interpolate(value_before, value_after, weighting)
-- 
2.43.0


From aeb3ffd5ae18c25743bd972bf0ad66a46d6769a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 17/40] fix: the shelf gain accessor of the biquad no longer
 panics

---
 src/effects/biquad/biquad_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_node.rs b/src/effects/biquad/biquad_node.rs
index f51dc96..1d6ee90 100644
--- a/src/effects/biquad/biquad_node.rs
+++ b/src/effects/biquad/biquad_node.rs
@@ -88,7 +88,7 @@ impl Biquad {
 
     /// Get the shelf gain parameter
     pub fn shelf_gain(&mut self) -> &mut AudioParameter {
-        self.get_parameter_mut("shelf_gain")
+        self.get_parameter_mut("shelf-gain")
     }
 
     /// Get the gain parameter
-- 
2.43.0


From bcc7cb6f1051f236b3de11d0812635fccaa23106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 18/40] fix: biquad filters decay to silence instead of ringing
 on at a low level

---
 src/effects/biquad/biquad_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_processor.rs b/src/effects/biquad/biquad_processor.rs
index 79b5fe0..7eb8d7c 100644
--- a/src/effects/biquad/biquad_processor.rs
+++ b/src/effects/biquad/biquad_processor.rs
@@ -130,7 +130,9 @@ impl DspProcessor for BiquadProcessor {
 }
 
 fn denormal(sample: f64) -> f64 {
-    let denormal_threshold = 1e-8;
+    // Far below anything audible: flushing larger values each time the state
+    // crosses zero would keep low, resonant filters ringing forever
+    let denormal_threshold = 1e-60;
 
     if -denormal_threshold <= sample && sample <= denormal_threshold {
         return 0.0;
-- 
2.43.0


From 7c50ad4752914e1dfc5452964bdbdd0fdf20e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 19/40] fix: a shelving biquad stays stable when its shelf gain
 is zero

---
 src/effects/biquad/biquad_coefficients.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/effects/biquad/biquad_coefficients.rs b/src/effects/biquad/biquad_coefficients.rs
index 32cef0c..15f4c01 100644
--- a/src/effects/biquad/biquad_coefficients.rs
+++ b/src/effects/biquad/biquad_coefficients.rs
@@ -105,7 +105,7 @@ impl BiquadCoefficients {
     }
 
     pub fn low_shelf(center_frequency: f64, sample_rate: f64, level: Level) -> Self {
-        let a = level.as_linear().sqrt();
+        let a = shelf_amplitude(level);
 
         let omega = omega(center_frequency, sample_rate);
         let beta = (2.0 * a).sqrt();
@@ -135,7 +135,7 @@ impl BiquadCoefficients {
     }
 
     pub fn high_shelf(center_frequency: f64, sample_rate: f64, level: Level) -> Self {
-        let a = level.as_linear().sqrt();
+        let a = shelf_amplitude(level);
 
         let omega = omega(center_frequency, sample_rate);
         let beta = (a + a).sqrt();
@@ -185,6 +185,14 @@ impl BiquadCoefficients {
     }
 }
 
+fn shelf_amplitude(level: Level) -> f64 {
+    // A shelf gain of zero would put both poles on the unit circle
+    level
+        .as_linear()
+        .max(Level::from_db(-120.0).as_linear())
+        .sqrt()
+}
+
 fn omega(center_frequency: f64, sample_rate: f64) -> f64 {
     2.0 * PI * center_frequency / sample_rate
 }
-- 
2.43.0


From 33360f8d2cd10febf944627d58fdb3a59f4601f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 20/40] fix: a biquad stays stable when its frequency is above
 the Nyquist frequency

---
 src/effects/biquad/biquad_processor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_processor.rs b/src/effects/biquad/biquad_processor.rs
index 7eb8d7c..f77c17d 100644
--- a/src/effects/biquad/biquad_processor.rs
+++ b/src/effects/biquad/biquad_processor.rs
@@ -2,6 +2,8 @@ use crate::{graph::DspProcessor, prelude::*};
 
 use super::{biquad_coefficients::BiquadCoefficients, filter_type::BiquadFilterType};
 
+const MAXIMUM_FREQUENCY_RATIO: f64 = 0.49;
+
 pub struct BiquadProcessor {
     filter_type: BiquadFilterType,
     sample_rate: usize,
@@ -84,9 +86,12 @@ impl DspProcessor for BiquadProcessor {
         let frame_count = context.output_buffer.frame_count();
         let channel_count = context.output_buffer.channel_count();
 
+        // The filters are only stable below the Nyquist frequency
+        let maximum_frequency = MAXIMUM_FREQUENCY_RATIO * self.sample_rate as f64;
+
         for frame in 0..frame_count {
             let parameters = Parameters {
-                frequency: frequency[frame] as f64,
+                frequency: (frequency[frame] as f64).min(maximum_frequency),
                 q: q[frame] as f64,
                 shelf_gain: shelf_gain[frame] as f64,
             };
-- 
2.43.0


From cc7c98bc4906a1aa90c801853d4e1ee931e1fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 21/40] fix: the compressor's knee starts below the threshold
 and may be zero

---
 src/effects/compressor/compressor_processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/compressor/compressor_processor.rs b/src/effects/compressor/compressor_processor.rs
index 544e300..628c0da 100644
--- a/src/effects/compressor/compressor_processor.rs
+++ b/src/effects/compressor/compressor_processor.rs
@@ -80,9 +80,9 @@ impl CompressorProcessor {
         let envelope_db = envelope.as_db() as f32;
         let half_knee = 0.5 * knee;
 
-        let output = if envelope_db < threshold + half_knee {
+        let output = if envelope_db < threshold - half_knee {
             envelope_db
-        } else if envelope_db > threshold + half_knee {
+        } else if envelope_db >= threshold + half_knee {
             threshold + (envelope_db - threshold) / ratio
         } else {
             let excess = envelope_db - threshold + half_knee;
-- 
2.43.0


From 0fff219fc436171b99656fdd6df5dde245b8e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:00 +0000
Subject: [PATCH 22/40] fix: converting a level to decibels never goes below
 the minimum level

---
 src/utility/level.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/level.rs b/src/utility/level.rs
index 53168c5..d553118 100644
--- a/src/utility/level.rs
+++ b/src/utility/level.rs
@@ -35,10 +35,10 @@ impl Level {
 
     /// Convert to dB
     pub fn as_db(&self) -> f64 {
-        if self.linear <= 1e-9 {
+        if self.linear <= 0.0 {
             MINUS_INFINITY_DECIBELS
         } else {
-            20.0 * self.linear.log10()
+            (20.0 * self.linear.log10()).max(MINUS_INFINITY_DECIBELS)
         }
     }
 
-- 
2.43.0


From dd35ec195ed4938dac16c9bfc442e370ce191a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:56 +0000
Subject: [PATCH 23/40] fix: a soft saturator with a threshold of one passes
 full scale instead of NaN

---
 src/effects/waveshaper/waveshaper_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/waveshaper/waveshaper_node.rs b/src/effects/waveshaper/waveshaper_node.rs
index d88f561..64d5de8 100644
--- a/src/effects/waveshaper/waveshaper_node.rs
+++ b/src/effects/waveshaper/waveshaper_node.rs
@@ -43,7 +43,7 @@ impl Waveshaper {
         assert!(threshold <= 1.0);
 
         let shaper = move |input: f32| {
-            if input < threshold {
+            if input <= threshold {
                 input
             } else {
                 threshold
-- 
2.43.0


From 627467f297f185ebd50d29a5c7b68aed6cff6532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:22 +0000
Subject: [PATCH 24/40] fix: an ADSR release takes its release time from any
 level

---
 src/effects/adsr/adsr_envelope.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/effects/adsr/adsr_envelope.rs b/src/effects/adsr/adsr_envelope.rs
index 99e6a0e..272c036 100644
--- a/src/effects/adsr/adsr_envelope.rs
+++ b/src/effects/adsr/adsr_envelope.rs
@@ -57,10 +57,12 @@ impl AdsrEnvelope {
     }
 
     pub fn close(&mut self) {
-        self.phase = match self.phase {
-            Phase::Idle => Phase::Idle,
-            _ => Phase::Release,
-        };
+        if matches!(self.phase, Phase::Idle | Phase::Release) {
+            return;
+        }
+
+        self.phase = Phase::Release;
+        self.update_release_coefficient();
     }
 
     pub fn set_attack_time(&mut self, attack_time: Duration) {
@@ -76,15 +78,21 @@ impl AdsrEnvelope {
     pub fn set_sustain_level(&mut self, sustain_level: Level) {
         self.decay_coefficient =
             calculate_decay_coefficient(self.decay_time, sustain_level, self.sample_rate);
-        self.release_coefficient =
-            calculate_release_coefficient(self.release_time, sustain_level, self.sample_rate);
         self.sustain_level = sustain_level;
     }
 
     pub fn set_release_time(&mut self, release_time: Duration) {
-        self.release_coefficient =
-            calculate_release_coefficient(release_time, self.sustain_level, self.sample_rate);
         self.release_time = release_time;
+        self.update_release_coefficient();
+    }
+
+    /// The release takes its time from wherever the envelope is, not only from the sustain level
+    fn update_release_coefficient(&mut self) {
+        self.release_coefficient = calculate_release_coefficient(
+            self.release_time,
+            Level::from_linear(self.envelope),
+            self.sample_rate,
+        );
     }
 
     pub fn process(&mut self) -> f64 {
-- 
2.43.0


From 5f9b468d1861791460831be468fe4b3a8c1ebccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 25/40] fix: stopping a sampler while it fades in no longer
 jumps to full level

---
 src/effects/sampler/sampler_processor.rs | 3 ++-
 src/effects/sampler/sampler_voice.rs     | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index c9ac864..56dc17a 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -281,7 +281,8 @@ impl SamplerDspProcess {
     }
 
     fn stop(&mut self) {
-        self.voices.iter_mut().for_each(|voice| voice.stop());
+        let fade = &self.fade;
+        self.voices.iter_mut().for_each(|voice| voice.stop(fade));
         self.active_voice = None
     }
 }
diff --git a/src/effects/sampler/sampler_voice.rs b/src/effects/sampler/sampler_voice.rs
index 8ffa0db..3a91769 100644
--- a/src/effects/sampler/sampler_voice.rs
+++ b/src/effects/sampler/sampler_voice.rs
@@ -41,10 +41,13 @@ impl Voice {
         self.position
     }
 
-    pub fn stop(&mut self) {
+    pub fn stop(&mut self, fade: &Fade) {
         match self.phase {
             Phase::Stopped => (),
-            Phase::FadingIn(_) => self.phase = Phase::FadingOut(0),
+            // Fade out from the level that the fade in has reached
+            Phase::FadingIn(fade_position) => {
+                self.phase = Phase::FadingOut(fade.len() - fade_position)
+            }
             Phase::Playing => self.phase = Phase::FadingOut(0),
             Phase::FadingOut(_) => (),
         }
-- 
2.43.0


From 057f0bd98c8469d6b4f58ed6440074d86fb71c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 26/40] fix: starting a sampler while both of its voices fade
 out is no longer ignored

---
 src/effects/sampler/sampler_processor.rs | 5 ++++-
 src/effects/sampler/sampler_voice.rs     | 9 +++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 56dc17a..3f118bd 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -245,11 +245,14 @@ impl SamplerDspProcess {
 
         self.stop();
 
+        // When every voice is still fading out, take over the one that is nearest to silence
+        let fade = &self.fade;
         if let Some((index, free_voice)) = self
             .voices
             .iter_mut()
             .enumerate()
-            .find(|(_, voice)| voice.is_stopped())
+            .filter(|(_, voice)| voice.frames_until_stopped(fade).is_some())
+            .min_by_key(|(_, voice)| voice.frames_until_stopped(fade))
         {
             free_voice.start_from_position(sample_position);
             self.active_voice = Some(index);
diff --git a/src/effects/sampler/sampler_voice.rs b/src/effects/sampler/sampler_voice.rs
index 3a91769..af3d080 100644
--- a/src/effects/sampler/sampler_voice.rs
+++ b/src/effects/sampler/sampler_voice.rs
@@ -29,6 +29,15 @@ impl Voice {
         self.phase == Phase::Stopped
     }
 
+    /// The number of fading frames left before the voice is stopped, if it is going to be
+    pub fn frames_until_stopped(&self, fade: &Fade) -> Option<usize> {
+        match self.phase {
+            Phase::Stopped => Some(0),
+            Phase::FadingOut(fade_position) => Some(fade.len() - fade_position),
+            Phase::FadingIn(_) | Phase::Playing => None,
+        }
+    }
+
     pub fn start_from_position(&mut self, position: usize) {
         self.position = position;
         self.phase = match position {
-- 
2.43.0


From b5043dff36a6409e3457a8b9f172f14884ce0375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 27/40] fix: a stopped or unstarted sampler does not loop, and
 fades end whatever the position

---
 src/effects/sampler/sampler_processor.rs | 46 +++++++-----------------
 1 file changed, 12 insertions(+), 34 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 3f118bd..49279fb 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -120,14 +120,7 @@ impl SamplerDspProcess {
         Self::new_wth_fade(sample_rate, buffer, event_receiver, Fade::bypass())
     }
 
-    fn next_loop_position(&self) -> Timestamp {
-        let (loop_start, loop_end) = match self.loop_points {
-            Some(loop_points) => loop_points,
-            None => {
-                return Timestamp::from_samples(self.buffer.frame_count() as f64, self.sample_rate)
-            }
-        };
-
+    fn next_loop_position(&self, loop_start: Timestamp, loop_end: Timestamp) -> Timestamp {
         let first_loop_length = loop_end - self.start_position_in_sample;
         let subsequent_loop_length = loop_end - loop_start;
 
@@ -137,20 +130,17 @@ impl SamplerDspProcess {
         Timestamp::from_samples(sample_position, self.sample_rate)
     }
 
-    fn get_render_interval(&self, samples_remaining: usize) -> Timestamp {
-        let end_of_frame = self
-            .position
-            .incremented_by_samples(samples_remaining, self.sample_rate);
-
-        let end_of_sample = self.next_loop_position();
-
-        let end_point = if end_of_frame < end_of_sample {
-            end_of_frame
-        } else {
-            end_of_sample
+    fn frames_to_render(&self, samples_remaining: usize) -> usize {
+        let (loop_start, loop_end) = match (self.loop_points, self.active_voice) {
+            (Some(loop_points), Some(_)) => loop_points,
+            // Nothing is looping, but voices may still be playing or fading out
+            _ => return samples_remaining,
         };
 
-        end_point - self.position
+        let end_of_loop = self.next_loop_position(loop_start, loop_end);
+        let loop_remaining = (end_of_loop - self.position).as_samples(self.sample_rate);
+
+        std::cmp::min(loop_remaining.round() as usize, samples_remaining)
     }
 
     fn finish_sample(&mut self) {
@@ -159,30 +149,18 @@ impl SamplerDspProcess {
         }
     }
 
-    fn is_looping(&self) -> bool {
-        self.loop_points.is_some()
-    }
-
     fn process_sample(&mut self, output_buffer: &mut dyn AudioBuffer) {
         let mut frame_position = 0;
 
         while frame_position < output_buffer.frame_count() {
             let samples_remaining = output_buffer.frame_count() - frame_position;
+            let render_frame_count = self.frames_to_render(samples_remaining);
 
-            let render_interval = self.get_render_interval(samples_remaining);
-            let render_interval = render_interval.as_samples(self.sample_rate).round() as usize;
-
-            let render_frame_count = std::cmp::min(render_interval, samples_remaining);
-
-            if render_frame_count == 0 && self.is_looping() {
+            if render_frame_count == 0 {
                 self.finish_sample();
                 continue;
             }
 
-            if render_frame_count == 0 && !self.is_looping() {
-                break;
-            }
-
             self.process_voices(&mut MutableBorrowedAudioBuffer::slice_frames(
                 output_buffer,
                 frame_position,
-- 
2.43.0


From 51f2add7e78b12fc78a94c9b3c8d81e898a4b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 28/40] fix: changing the loop points of a looping sampler
 takes effect from its current position

---
 src/effects/sampler/sampler_processor.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 49279fb..72239cd 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -200,13 +200,32 @@ impl SamplerDspProcess {
     }
 
     fn set_loop_points(&mut self, loop_start: Timestamp, loop_end: Timestamp) {
+        self.rebase_position();
         self.loop_points = Some((loop_start, loop_end));
     }
 
     fn clear_loop_points(&mut self) {
+        self.rebase_position();
         self.loop_points = None
     }
 
+    fn position_in_sample(&self) -> Timestamp {
+        match self.loop_points {
+            Some((loop_start, loop_end)) if self.completed_loops > 0 => {
+                loop_end + self.position - self.next_loop_position(loop_start, loop_end)
+            }
+            _ => self.start_position_in_sample + self.position,
+        }
+    }
+
+    /// Continue counting from the current position in the sample, as the loops
+    /// completed so far don't have the length of those to come
+    fn rebase_position(&mut self) {
+        self.start_position_in_sample = self.position_in_sample();
+        self.position = Timestamp::zero();
+        self.completed_loops = 0;
+    }
+
     fn cancel_all(&mut self) {
         self.stop();
         self.clear_loop_points();
-- 
2.43.0


From d4cd13d3f3ea538bd972ebba6be0ddc61ac97691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 29/40] fix: sampler loops do not drift with the block size

---
 src/effects/sampler/sampler_processor.rs | 28 +++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 72239cd..e4b543c 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -26,7 +26,8 @@ pub struct SamplerDspProcess {
 
     loop_points: Option<(Timestamp, Timestamp)>,
 
-    position: Timestamp,
+    start_delay: Timestamp,
+    frames_since_start: usize,
     start_position_in_sample: Timestamp,
     completed_loops: usize,
 }
@@ -104,7 +105,8 @@ impl SamplerDspProcess {
                 sample_rate,
             ),
             loop_points: None,
-            position: Timestamp::zero(),
+            start_delay: Timestamp::zero(),
+            frames_since_start: 0,
             start_position_in_sample: Timestamp::zero(),
             completed_loops: 0,
             sample_rate,
@@ -120,6 +122,12 @@ impl SamplerDspProcess {
         Self::new_wth_fade(sample_rate, buffer, event_receiver, Fade::bypass())
     }
 
+    /// The time since the start, from the number of frames so that no rounding accumulates
+    fn position(&self) -> Timestamp {
+        self.start_delay
+            .incremented_by_samples(self.frames_since_start, self.sample_rate)
+    }
+
     fn next_loop_position(&self, loop_start: Timestamp, loop_end: Timestamp) -> Timestamp {
         let first_loop_length = loop_end - self.start_position_in_sample;
         let subsequent_loop_length = loop_end - loop_start;
@@ -138,7 +146,7 @@ impl SamplerDspProcess {
         };
 
         let end_of_loop = self.next_loop_position(loop_start, loop_end);
-        let loop_remaining = (end_of_loop - self.position).as_samples(self.sample_rate);
+        let loop_remaining = (end_of_loop - self.position()).as_samples(self.sample_rate);
 
         std::cmp::min(loop_remaining.round() as usize, samples_remaining)
     }
@@ -169,9 +177,7 @@ impl SamplerDspProcess {
 
             frame_position += render_frame_count;
 
-            self.position = self
-                .position
-                .incremented_by_samples(render_frame_count, self.sample_rate);
+            self.frames_since_start += render_frame_count;
         }
     }
 
@@ -212,9 +218,9 @@ impl SamplerDspProcess {
     fn position_in_sample(&self) -> Timestamp {
         match self.loop_points {
             Some((loop_start, loop_end)) if self.completed_loops > 0 => {
-                loop_end + self.position - self.next_loop_position(loop_start, loop_end)
+                loop_end + self.position() - self.next_loop_position(loop_start, loop_end)
             }
-            _ => self.start_position_in_sample + self.position,
+            _ => self.start_position_in_sample + self.position(),
         }
     }
 
@@ -222,7 +228,8 @@ impl SamplerDspProcess {
     /// completed so far don't have the length of those to come
     fn rebase_position(&mut self) {
         self.start_position_in_sample = self.position_in_sample();
-        self.position = Timestamp::zero();
+        self.start_delay = Timestamp::zero();
+        self.frames_since_start = 0;
         self.completed_loops = 0;
     }
 
@@ -271,7 +278,8 @@ impl SamplerDspProcess {
     fn start(&mut self, from_position: Timestamp, delay: Timestamp) {
         self.assign_voice(from_position + delay);
         self.completed_loops = 0;
-        self.position = delay;
+        self.start_delay = delay;
+        self.frames_since_start = 0;
         self.start_position_in_sample = from_position;
     }
 
-- 
2.43.0


From f694b928e0fe543047ed38a07f71b02b61c94b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 30/40] fix: a sampler started late by more than its loop
 starts in phase

---
 src/effects/sampler/sampler_processor.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index e4b543c..95219ab 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -152,8 +152,19 @@ impl SamplerDspProcess {
     }
 
     fn finish_sample(&mut self) {
-        if let Some((loop_start, _)) = self.loop_points {
-            self.loop_back(loop_start);
+        if let Some((loop_start, loop_end)) = self.loop_points {
+            let end_of_loop = self.next_loop_position(loop_start, loop_end);
+            let overdue = (self.position() - end_of_loop).as_samples(self.sample_rate);
+
+            if overdue < 1.0 {
+                self.completed_loops += 1;
+                self.assign_voice(loop_start);
+            } else {
+                // A late start may be any number of loops late
+                let loop_length = (loop_end - loop_start).as_samples(self.sample_rate);
+                self.completed_loops += 1 + (overdue / loop_length) as usize;
+                self.assign_voice(self.position_in_sample());
+            }
         }
     }
 
@@ -283,11 +294,6 @@ impl SamplerDspProcess {
         self.start_position_in_sample = from_position;
     }
 
-    fn loop_back(&mut self, from_position: Timestamp) {
-        self.completed_loops += 1;
-        self.assign_voice(from_position);
-    }
-
     fn stop(&mut self) {
         let fade = &self.fade;
         self.voices.iter_mut().for_each(|voice| voice.stop(fade));
-- 
2.43.0


From 59af753ef84cc335d869bce9dab109bc4980bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 31/40] fix: an empty sampler loop no longer hangs the audio
 process

---
 src/effects/sampler/sampler_processor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 95219ab..ca79e18 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -218,7 +218,10 @@ impl SamplerDspProcess {
 
     fn set_loop_points(&mut self, loop_start: Timestamp, loop_end: Timestamp) {
         self.rebase_position();
-        self.loop_points = Some((loop_start, loop_end));
+
+        // A loop shorter than a sample can't be played
+        let loop_length = (loop_end - loop_start).as_samples(self.sample_rate);
+        self.loop_points = (loop_length >= 1.0).then_some((loop_start, loop_end));
     }
 
     fn clear_loop_points(&mut self) {
-- 
2.43.0


From fecaf518398e433a8ff90774bd97dede1123e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 32/40] fix: a recorder whose notifications are not processed
 no longer blocks or panics

---
 src/effects/recorder/recorder_processor.rs | 49 +++++++++++++++-------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/effects/recorder/recorder_processor.rs b/src/effects/recorder/recorder_processor.rs
index e18be07..94c2122 100644
--- a/src/effects/recorder/recorder_processor.rs
+++ b/src/effects/recorder/recorder_processor.rs
@@ -12,6 +12,7 @@ pub struct RecorderProcessor {
     current_buffer: OwnedAudioBuffer,
     current_position_in_buffer: usize,
     recording: bool,
+    notified_recording: bool,
 }
 
 const MAX_PENDING_EVENTS: usize = 16;
@@ -37,23 +38,46 @@ impl RecorderProcessor {
             current_buffer: OwnedAudioBuffer::new(BUFFER_SIZE, channel_count, sample_rate),
             current_position_in_buffer: 0,
             recording: false,
+            notified_recording: false,
         }
     }
 
     fn next_buffer(&mut self) {
-        let mut next_buffer = self
-            .buffer_pool
-            .remove()
-            .expect("Ran out of record buffers");
-
         let samples_used = self.current_position_in_buffer;
         self.current_position_in_buffer = 0;
 
+        // When the notifications aren't being processed there is nowhere to put
+        // the data, so it is dropped instead of waiting on the audio thread
+        let Some(mut next_buffer) = self.buffer_pool.remove() else {
+            return;
+        };
+
         std::mem::swap(&mut next_buffer, &mut self.current_buffer);
 
-        let _ = self
+        if let Err(error) = self
             .notification_transmitter
-            .send(RecorderNotification::Data(next_buffer, samples_used));
+            .try_send(RecorderNotification::Data(next_buffer, samples_used))
+        {
+            if let RecorderNotification::Data(buffer, _) = error.into_inner() {
+                self.buffer_pool.add(buffer);
+            }
+        }
+    }
+
+    /// Let the control side know when the recording state has changed, once there is space to
+    fn notify_recording_state(&mut self) {
+        if self.notified_recording == self.recording {
+            return;
+        }
+
+        let notification = match self.recording {
+            true => RecorderNotification::Start,
+            false => RecorderNotification::Stop,
+        };
+
+        if self.notification_transmitter.try_send(notification).is_ok() {
+            self.notified_recording = self.recording;
+        }
     }
 
     fn process(&mut self, input_buffer: &dyn AudioBuffer, start_frame: usize, frame_count: usize) {
@@ -100,10 +124,7 @@ impl RecorderProcessor {
         }
 
         self.recording = true;
-
-        let _ = self
-            .notification_transmitter
-            .send(RecorderNotification::Start);
+        self.notify_recording_state();
     }
 
     fn stop(&mut self) {
@@ -113,10 +134,7 @@ impl RecorderProcessor {
 
         self.next_buffer();
         self.recording = false;
-
-        let _ = self
-            .notification_transmitter
-            .send(RecorderNotification::Stop);
+        self.notify_recording_state();
     }
 
     fn return_buffer(&mut self, buffer: OwnedAudioBuffer) {
@@ -135,6 +153,7 @@ impl RecorderProcessor {
 impl DspProcessor for RecorderProcessor {
     fn process_audio(&mut self, context: &mut ProcessContext) {
         self.event_processor.receive_events();
+        self.notify_recording_state();
 
         let mut current_time = *context.start_time;
         let mut position = 0;
-- 
2.43.0


From 2a45c3fe684d9bbdc6c4786d08e3f9a40f3724b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:05 +0000
Subject: [PATCH 33/40] fix: scheduling more than 32 ADSR events before a block
 no longer blocks forever

---
 src/effects/adsr/adsr_node.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/effects/adsr/adsr_node.rs b/src/effects/adsr/adsr_node.rs
index 08de08e..29256bb 100644
--- a/src/effects/adsr/adsr_node.rs
+++ b/src/effects/adsr/adsr_node.rs
@@ -12,14 +12,12 @@ pub struct Adsr {
     event_transmitter: Channel::Sender<AdsrEvent>,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Adsr {
     /// Create a new ADSR node
     pub fn new(context: &dyn Context, channel_count: usize, sample_rate: usize) -> Self {
         let id = Id::generate();
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
 
         let processor = Box::new(AdsrProcessor::new(
             event_receiver,
-- 
2.43.0


From 5efc51d0b78bcbeeb72e32990dcd066f97d79b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 34/40] fix: more than 32 recorder requests before a block no
 longer block forever

---
 src/effects/recorder/recorder_node.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/effects/recorder/recorder_node.rs b/src/effects/recorder/recorder_node.rs
index 674afca..1b25da5 100644
--- a/src/effects/recorder/recorder_node.rs
+++ b/src/effects/recorder/recorder_node.rs
@@ -19,7 +19,6 @@ pub struct Recorder {
     is_recording: bool,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
 static NOTIFICATION_CHANNEL_CAPACITY: usize = 32;
 
 impl Recorder {
@@ -31,7 +30,7 @@ impl Recorder {
     ) -> Rc<RefCell<Self>> {
         let id = Id::generate();
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
         let (notification_transmitter, notification_receiver) =
             Channel::bounded(NOTIFICATION_CHANNEL_CAPACITY);
 
-- 
2.43.0


From 5da5a90f17ef212d21b87fc60a9c273fad3ac0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 35/40] fix: an envelope whose notifications are not collected
 no longer blocks the audio process

---
 src/effects/envelope/envelope_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index cc86591..b558907 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -32,7 +32,7 @@ impl EnvelopeProcessor {
         for channel in 0..channel_count {
             let peak = self.peaks.get(channel).expect("Invalid channel index");
             let notification = EnvelopeNotification::new(channel, *peak);
-            let _ = self.transmitter.send(notification);
+            let _ = self.transmitter.try_send(notification);
         }
 
         self.peaks.fill_with(|| 0.0_f32);
-- 
2.43.0


From ed5964210b2d1eea6184d47ae53776298725cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 36/40] fix: an envelope follows every frame and notifies at
 its rate

---
 src/effects/envelope/envelope_processor.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index b558907..d7f5bc1 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -43,10 +43,11 @@ impl DspProcessor for EnvelopeProcessor {
     fn process_audio(&mut self, context: &mut crate::ProcessContext) {
         let mut position = 0;
         let channel_count = context.input_buffer.channel_count();
+        let total_frame_count = context.input_buffer.frame_count();
 
-        while position < channel_count {
+        while position < total_frame_count {
             let frame_count = std::cmp::min(
-                context.input_buffer.frame_count(),
+                total_frame_count - position,
                 self.notification.samples_until_next_notification(),
             );
 
@@ -71,10 +72,7 @@ impl DspProcessor for EnvelopeProcessor {
                 }
             }
 
-            if self
-                .notification
-                .advance(context.input_buffer.frame_count())
-            {
+            if self.notification.advance(frame_count) {
                 self.send_notifications(channel_count);
             }
 
-- 
2.43.0


From 185575e4570ab421dec303d9fd264990ddfeb739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:27 +0000
Subject: [PATCH 37/40] fix: convolution does not allocate on the audio thread

---
 src/effects/convolution/convolution_processor.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/effects/convolution/convolution_processor.rs b/src/effects/convolution/convolution_processor.rs
index 7069983..7251763 100644
--- a/src/effects/convolution/convolution_processor.rs
+++ b/src/effects/convolution/convolution_processor.rs
@@ -12,6 +12,7 @@ pub struct ConvolutionProcessor {
     input_fft: ComplexAudioBuffer,
     complex_input: ComplexAudioBuffer,
     complex_output: ComplexAudioBuffer,
+    scratch: Vec<Complex<f32>>,
     output_scale: f32,
     maximum_frame_count: usize,
 }
@@ -24,14 +25,21 @@ impl ConvolutionProcessor {
 
         let mut planner = FftPlanner::new();
         let fft = planner.plan_fft_forward(convolution_length);
+        let ifft = planner.plan_fft_inverse(convolution_length);
+
+        let scratch_length = std::cmp::max(
+            fft.get_inplace_scratch_len(),
+            ifft.get_inplace_scratch_len(),
+        );
 
         Self {
             fft: fft.clone(),
-            ifft: planner.plan_fft_inverse(convolution_length),
+            ifft,
             impulse_fft: fft_impulse(impulse, fft.as_ref(), convolution_length),
             input_fft: create_complex_audio_buffer(output_channel_count, convolution_length),
             complex_input: create_complex_audio_buffer(output_channel_count, convolution_length),
             complex_output: create_complex_audio_buffer(output_channel_count, convolution_length),
+            scratch: vec![Complex::zero(); scratch_length],
             output_scale: 1.0 / convolution_length as f32,
             maximum_frame_count,
         }
@@ -65,7 +73,8 @@ impl ConvolutionProcessor {
             izip!(self.complex_input.iter(), self.input_fft.iter_mut())
         {
             input_fft.copy_from_slice(complex_input);
-            self.fft.process(input_fft);
+            self.fft
+                .process_with_scratch(input_fft, &mut self.scratch);
         }
     }
 
@@ -85,7 +94,8 @@ impl ConvolutionProcessor {
 
     fn ifft_output(&mut self) {
         for output_fft in self.complex_output.iter_mut() {
-            self.ifft.process(output_fft);
+            self.ifft
+                .process_with_scratch(output_fft, &mut self.scratch);
         }
     }
 
-- 
2.43.0


From a2d3da620bdd1e27c72dd38672fa081d0e95a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:08 +0000
Subject: [PATCH 38/40] fix: removing many nodes at once does not block the
 audio process

---
 src/realtime/dsp_graph.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 3e4d908..cd71bc6 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -21,7 +21,6 @@ pub struct DspGraph {
 static MAXIMUM_BUFFER_COUNT: usize = 1024;
 static MAXIMUM_GRAPH_NODE_COUNT: usize = 512;
 static MAXIMUM_GRAPH_EDGE_COUNT: usize = 512;
-static GARBAGE_COLLECTION_CHANNEL_CAPACITY: usize = 512;
 
 impl DspGraph {
     pub fn new(
@@ -29,8 +28,8 @@ impl DspGraph {
         maximum_channel_count: usize,
         sample_rate: usize,
     ) -> Self {
-        let (garbage_collection_tx, garbage_collection_rx) =
-            crossbeam::channel::bounded(GARBAGE_COLLECTION_CHANNEL_CAPACITY);
+        // Unbounded, as the audio process can't wait for the garbage collector
+        let (garbage_collection_tx, garbage_collection_rx) = crossbeam::channel::unbounded();
         run_garbage_collector(garbage_collection_rx);
 
         Self {
-- 
2.43.0


From 3a0a336ac43c88228bc888fb483f139272e36d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:08 +0000
Subject: [PATCH 39/40] fix: end a loop at the same frame wherever blocks begin

A loop end half way between two frames was rounded from the position within
the block, so the block size decided on which of them the loop ended.
---
 src/effects/sampler/sampler_processor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index ca79e18..0248097 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -146,9 +146,14 @@ impl SamplerDspProcess {
         };
 
         let end_of_loop = self.next_loop_position(loop_start, loop_end);
-        let loop_remaining = (end_of_loop - self.position()).as_samples(self.sample_rate);
 
-        std::cmp::min(loop_remaining.round() as usize, samples_remaining)
+        // Rounded once from the start, so that it is the same frame wherever blocks begin
+        let end_frame = (end_of_loop - self.start_delay)
+            .as_samples(self.sample_rate)
+            .round() as usize;
+        let loop_remaining = end_frame.saturating_sub(self.frames_since_start);
+
+        std::cmp::min(loop_remaining, samples_remaining)
     }
 
     fn finish_sample(&mut self) {
-- 
2.43.0


From d5c8033c4322ab04d6571e67e4026a4e69879068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:14 +0000
Subject: [PATCH 40/40] fix: setting mixer levels while the audio process takes
 them no longer loses the latest one

---
 src/effects/mixer/mixer_node.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/effects/mixer/mixer_node.rs b/src/effects/mixer/mixer_node.rs
index 99365dd..d21700c 100644
--- a/src/effects/mixer/mixer_node.rs
+++ b/src/effects/mixer/mixer_node.rs
@@ -1,9 +1,7 @@
 use crate::{commands::Id, effects::Channel, graph::DspParameters, prelude::*};
 
 use super::{
-    mixer_event::{EventReceiver, EventTransmitter},
-    mixer_matrix::MixerMatrix,
-    mixer_processor::MixerProcessor,
+    mixer_event::EventTransmitter, mixer_matrix::MixerMatrix, mixer_processor::MixerProcessor,
 };
 
 /// A node that mixes between its input and output channels
@@ -23,11 +21,8 @@ pub struct Mixer {
     /// The matrix for how the inputs will be mixed to the outputs
     pub gain_matrix: MixerMatrix,
     event_transmitter: EventTransmitter,
-    event_receiver: EventReceiver,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Mixer {
     /// Create a new mixer node for a given input to output channel combination
     pub fn new(context: &dyn Context, input_count: usize, output_count: usize) -> Self {
@@ -35,9 +30,9 @@ impl Mixer {
 
         let gain_matrix = MixerMatrix::new(input_count, output_count);
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
 
-        let processor = Box::new(MixerProcessor::new(event_receiver.clone()));
+        let processor = Box::new(MixerProcessor::new(event_receiver));
 
         Self {
             node: GraphNode::new(
@@ -50,7 +45,6 @@ impl Mixer {
             ),
             gain_matrix,
             event_transmitter,
-            event_receiver,
         }
     }
 
@@ -59,15 +53,7 @@ impl Mixer {
         self.gain_matrix
             .set_level(input_channel, output_channel, level);
 
-        // The processor only uses the latest matrix, so when the queue is full,
-        // make space by discarding the oldest one instead of waiting
-        while self
-            .event_transmitter
-            .try_send(self.gain_matrix.clone())
-            .is_err()
-        {
-            let _ = self.event_receiver.try_recv();
-        }
+        let _ = self.event_transmitter.send(self.gain_matrix.clone());
     }
 
     /// Create a mixer that converts from mono to stereo
-- 
2.43.0

