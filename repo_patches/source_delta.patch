From 04f5de82dc049f4179b282c09ed499349ffc1c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 001/104] fix: stack per-node tensors when converting a graph
 to PyG data

A list of tensors was kept as a list, so grouping the node attributes
failed and no graph could be converted at all.
---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 581c173..e71cb3a 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -283,7 +283,7 @@ class MidiGraphBuilder:
                     continue
                 try:
                     if isinstance(value, (tuple, list)) and all(isinstance(v, (Tensor, np.ndarray)) for v in value):
-                        data[key] = value
+                        data[key] = torch.stack([torch.as_tensor(v) for v in value], dim=0)
                     elif isinstance(value, np.ndarray):
                         data[key] = torch.from_numpy(value)
                     elif isinstance(value, (tuple, list)) and all(isinstance(v, Tensor) for v in value):
-- 
2.43.0


From 754bed2cc6374f1a6d842aca98d91d1f2df22455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 002/104] fix: walk chord groups in order of time

Groups were keyed by the hash of their start time and walked in hash
order, which is not chronological for times that are not whole seconds.
---
 neural_graph_composer/midi_graph_builder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index e71cb3a..38c37ed 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -734,13 +734,13 @@ class MidiGraphBuilder:
 
             assert adjusted_time_hash >= 0, "n.start_time must be non-negative"
 
-            time_hash = hash(adjusted_time_hash)
-            if time_hash not in data:
-                data[time_hash] = []
+            # the key is the time itself, so that sorting the keys is chronological
+            if adjusted_time_hash not in data:
+                data[adjusted_time_hash] = []
 
-            data[time_hash].append(n)
-            if len(data[time_hash]) > longest_note_sequence:
-                longest_note_sequence = len(data[time_hash])
+            data[adjusted_time_hash].append(n)
+            if len(data[adjusted_time_hash]) > longest_note_sequence:
+                longest_note_sequence = len(data[adjusted_time_hash])
 
         if filter_single_notes:
             # Filter out single notes
-- 
2.43.0


From 155f0d0c461adc0b81de8997dfee97fa4497be29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 003/104] fix: deliver every pending graph, not only the first

The pending list was emptied after the first graph had been yielded, so
all further instruments and files built before iterating were lost.
---
 neural_graph_composer/midi_graph_builder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 38c37ed..76a0e75 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1129,7 +1129,12 @@ class MidiGraphBuilder:
             for node_hash in self._hash_to_notes:
                 assert node_hash in self.hash_to_index
 
-        for g in self._pyg_data or []:
+        while self._pyg_data:
+            # emitted graphs are removed from internal lists
+            g = self._pyg_data.pop(0)
+            if self._sub_graphs:
+                self._sub_graphs.pop(0)
+
             node_hash = [self._hash_to_index[node_hash] for node_hash in g.node_hash]
             target_indices = [self._hash_to_index[hash_val] for hash_val in g.node_hash]
 
@@ -1159,8 +1164,3 @@ class MidiGraphBuilder:
 
             yield g
             del g
-
-            del self._pyg_data[:]
-            del self._sub_graphs[:]
-            self._pyg_data = []
-            self._sub_graphs = []
-- 
2.43.0


From 9488e77b68b5ff417a5bc72b9389e29bae967d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 004/104] fix: graph sanity check treats labels as the integers
 they are

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 76a0e75..8e0e9ce 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1143,7 +1143,7 @@ class MidiGraphBuilder:
 
             # reverse sanity-check
             if is_sanity_check:
-                original_labels = [self._index_to_hash[label.item()] for label in g.label]
+                original_labels = [self._index_to_hash[label] for label in g.label]
                 original_target_indices = [self._index_to_hash[index] for index in target_indices]
                 original_y_values = [self._index_to_hash[y.item()] for y in g.y]
                 original_notes = [self._hash_to_notes[h] for h in original_labels]
-- 
2.43.0


From 5205f793b8f875227f08537fa79859dcb38c3130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 005/104] fix: one-hot chord features cover all 128 pitches

Pitch 127 was out of range for 127 classes and could not be encoded.
---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 8e0e9ce..41aef0c 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1043,7 +1043,7 @@ class MidiGraphBuilder:
                     pitch_sub_group,
                     velocity_set=velocity,
                     feature_vec_size=feature_vec_size,
-                    num_classes=127,
+                    num_classes=128,
                     velocity_num_buckets=velocity_num_buckets
                 )
 
-- 
2.43.0


From 0a979ee21d082b8b03ea90c853114f3e64c9d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 006/104] fix: convert graphs without edges

There is no edge attribute to group when a graph has no edges.
---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 41aef0c..6494357 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -318,7 +318,7 @@ class MidiGraphBuilder:
         if group_edge_attrs == 'all':
             group_edge_attrs = list(edge_attrs)
 
-        if group_edge_attrs is not None:
+        if group_edge_attrs is not None and midi_graph.number_of_edges() > 0:
             xs = []
             for key in group_edge_attrs:
                 key = f'edge_{key}' if key in node_attrs else key
-- 
2.43.0


From 286a8707152ac5a83e56fd675232492fd757eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 007/104] fix: relative velocity scaling of silent notes stays
 in range

All-zero velocities were divided by their zero average.
---
 neural_graph_composer/midi_graph_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 6494357..0c37ea6 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -656,6 +656,9 @@ class MidiGraphBuilder:
         velocities = np.array(velocities)
         # the average velocity
         avg_velocity = np.mean(velocities)
+        # nothing sounds, so there is no ratio to compute
+        if avg_velocity == 0:
+            return [0] * len(velocities)
         # the ratio between each note's velocity and the average velocity
         velocity_ratios = velocities / avg_velocity
         # scale the velocities using the scaling factor
-- 
2.43.0


From 14d9d6cbd667ca228050afcdba8a65f3eef5aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 008/104] fix: sorted dictionary stays consistent under
 construction, pop, clear, copies and comparison

---
 neural_graph_composer/midi/sorted_dict.py | 40 ++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index c6abd3d..f057610 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -31,8 +31,20 @@ class SortedDict(collections.OrderedDict):
     """
 
     def __init__(self, *args, **kwargs):
+        self._keys = []
         super().__init__(*args, **kwargs)
-        self._keys = sorted(super().keys())
+
+    def __reduce__(self):
+        return self.__class__, (self.items(),)
+
+    def __eq__(self, other):
+        """The order is given by the keys, hence only the content matters."""
+        return dict.__eq__(self, other)
+
+    def __ne__(self, other):
+        return dict.__ne__(self, other)
+
+    __hash__ = None
 
     def __setitem__(self, key, value):
         """Set the value of a key.
@@ -62,6 +74,32 @@ class SortedDict(collections.OrderedDict):
         super().__delitem__(key)
         self._keys.remove(key)
 
+    def pop(self, key, *default):
+        """Remove a key and return its value, or the default if it is not there.
+        :param key: The key to remove
+        :return: value of the key or default
+        """
+        if key not in self:
+            return super().pop(key, *default)
+        value = self[key]
+        del self[key]
+        return value
+
+    def popitem(self, last=True):
+        """Remove and return the pair with the largest key, or the smallest if not last.
+        :param last:
+        :return: (key, value)
+        """
+        if not self._keys:
+            raise KeyError("dictionary is empty")
+        key = self._keys[-1 if last else 0]
+        return key, self.pop(key)
+
+    def clear(self):
+        """Remove all keys."""
+        super().clear()
+        self._keys = []
+
     def keys(self):
         """Return an iterator over the keys sorted in ascending order.
         :return: A sorted iterator over the keys
-- 
2.43.0


From c40ea4992fe0e39b26ab9e930fb44e0b421334e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 009/104] fix: delete entries of the interval dictionary

---
 neural_graph_composer/midi/sorted_interval_dict.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/sorted_interval_dict.py b/neural_graph_composer/midi/sorted_interval_dict.py
index df88e6c..5573228 100644
--- a/neural_graph_composer/midi/sorted_interval_dict.py
+++ b/neural_graph_composer/midi/sorted_interval_dict.py
@@ -42,11 +42,7 @@ class SortedIntervalDict(collections.abc.MutableMapping):
         :return:
         """
         if isinstance(key, Interval):
-            for i, (k, v) in enumerate(self._items):
-                if k == key:
-                    del self._items[i]
-                    return
-            raise KeyError(key)
+            del self._dict[key]
         elif isinstance(key, slice):
             for k in list(self.keys())[key]:
                 del self[k]
-- 
2.43.0


From c01f66e6525d8221ecf113f557494801bdfaea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 010/104] fix: chord pitches distinguish minor from major
 intervals and accept compound ones

---
 neural_graph_composer/midi/midi_scales.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 8f11539..04ce3af 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -615,8 +615,8 @@ class MusicTheory:
         for i, interval in enumerate(interval_chord):
             # if caller pass string we convert to Enum
             if isinstance(interval, str):
-                interval = Interval[interval.upper()]
-            interval_pitch = MusicTheory.intervals[interval]
+                interval = Interval[interval]
+            interval_pitch = interval.value
             chord_pitch = (root + interval_pitch) % 12
             _chord_pitches.append(chord_pitch)
         return _chord_pitches
-- 
2.43.0


From 7d038b1416b48a77650c9c92a759d81c318982d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 011/104] fix: scale notes from a pitch class root

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 04ce3af..e913c37 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -705,7 +705,7 @@ class MusicTheory:
         elif not (0 <= root <= 11):
             raise ValueError("root pitch parameter should be within the range [0, 11]")
 
-        root_idx = MusicTheory.note_names.index(root)
+        root_idx = MusicTheory.note_names.index(root.upper()) if isinstance(root, str) else root
         intervals = MusicTheory.intervals_from_scale(scale)
         sorted_intervals = sorted(intervals, key=lambda x: MusicTheory.intervals[x])
 
-- 
2.43.0


From 8c8302e09eda1aeac8f870835a7aa5caa8c24742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 012/104] fix: triad qualities of the dorian, phrygian,
 mixolydian and locrian scales

---
 neural_graph_composer/midi/midi_scales.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index e913c37..376c753 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -349,12 +349,12 @@ class MusicTheory:
     chords = {
         ScaleType.MAJOR: ["M", "m", "m", "M", "M", "m", "dim"],
         ScaleType.MINOR: ["m", "dim", "M", "m", "m", "M", "M"],
-        ScaleType.DORIAN: ["M", "m", "m", "M", "M", "dim", "m"],
-        ScaleType.PHRYGIAN: ["m", "M", "dim", "m", "m", "M", "M"],
+        ScaleType.DORIAN: ["m", "m", "M", "M", "m", "dim", "M"],
+        ScaleType.PHRYGIAN: ["m", "M", "M", "m", "dim", "M", "m"],
         ScaleType.LYDIAN: ["M", "M", "m", "dim", "M", "m", "m"],
-        ScaleType.MIXOLYDIAN: ["M", "m", "dim", "m", "M", "m", "M"],
+        ScaleType.MIXOLYDIAN: ["M", "m", "dim", "M", "m", "m", "M"],
         ScaleType.AEOLIAN: ["m", "dim", "M", "m", "m", "M", "M"],
-        ScaleType.LOCRIAN: ["dim", "M", "m", "m", "dim", "M", "m"],
+        ScaleType.LOCRIAN: ["dim", "M", "m", "m", "M", "M", "m"],
         ScaleType.HARMONIC_MINOR: ["m", "dim", "aug", "m", "M", "M", "dim"],
         ScaleType.MELODIC_MINOR: ["m", "m", "aug", "M", "M", "dim", "dim"]
     }
-- 
2.43.0


From 220743c510022458ff7ae78f5cd0dd999ed06f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 013/104] fix: intervals of augmented and diminished seventh
 chords

---
 neural_graph_composer/midi/midi_scales.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 376c753..f397709 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -90,7 +90,7 @@ class ChordIntervals(Enum):
     MinorSeven = [3, 4, 3]
     HalfDiminishedSeven = [3, 3, 4]
     DiminishedSeven = [3, 3, 3]
-    AugmentedSeven = [4, 3, 4]
+    AugmentedSeven = [4, 4, 2]
     Sixth = [4, 3, 2]
     MinorSixth = [3, 4, 2]
     Ninth = [4, 3, 3, 4]
@@ -194,7 +194,7 @@ class Interval(Enum):
     A4 = 6
     # d5 diminished fifth
     d5 = 6
-    d7 = 10
+    d7 = 9
 
     def bases(self):
         """the base intervals that make up the compound interval.
@@ -451,7 +451,7 @@ class MusicTheory:
         "m7": [3, 4, 3],
         "m7b5": [3, 3, 4],
         "dim7": [3, 3, 3],
-        "aug7": [4, 3, 4],
+        "aug7": [4, 4, 2],
         "6": [4, 3, 2],
         "m6": [3, 4, 2],
         "9": [4, 3, 3, 4],
-- 
2.43.0


From 96a367b93e461d85c0ec2e6b554e4d96556d8430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 014/104] fix: quantize control changes

---
 .../midi/midi_control_change.py               | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index d909fb6..96d65c9 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -290,7 +290,7 @@ class MidiControlChange(MidiBaseControlChange):
         """
         if value < 0:
             raise ValueError("Quantized start step cannot be negative.")
-        elif self._quantized_end_step is not None and value >= self._quantized_end_step:
+        elif self._quantized_end_step >= 0 and value >= self._quantized_end_step:
             raise ValueError("Quantized start step must be less than quantized end step.")
         else:
             self._quantized_start_step = value
@@ -314,7 +314,7 @@ class MidiControlChange(MidiBaseControlChange):
         """
         if value < 0:
             raise ValueError("Quantized end step cannot be negative.")
-        elif self._quantized_start_step is not None and value <= self._quantized_start_step:
+        elif self._quantized_start_step >= 0 and value <= self._quantized_start_step:
             raise ValueError("Quantized end step must be greater than quantized start step.")
         else:
             self._quantized_end_step = value
@@ -338,19 +338,14 @@ class MidiControlChange(MidiBaseControlChange):
         :param amount:  quantization amount.
         :return:
         """
-        self.quantized_start_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-        self.quantized_end_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-
-        self.quantized_start_step = max(self.quantized_start_step, 0)
-        assert (self.quantized_start_step >= 0)
-        assert (self.quantized_end_step >= 0)
-
-        if self.quantized_end_step == self.quantized_start_step:
-            self.quantized_end_step += 1
+        start_step = max(self.quantize_to_nearest_step(
+            self.cc_time, sps, amount=amount), 0)
 
+        # control change has no duration, it takes one step.
         self.quantized_step = sps
+        self._quantized_start_step = start_step
+        self._quantized_end_step = start_step + 1
+        self._is_quantized = True
 
     def quantize(self, sps: int = 4, amount: float = 0.5, min_step: Optional[int] = None):
         """Returns a new quantized control change with the specified
-- 
2.43.0


From d3b0114b1154ae9ff172d6c638560a48e55d2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 015/104] fix: copies of control changes keep the drum flag and
 the quantization step

---
 neural_graph_composer/midi/midi_control_change.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index 96d65c9..c819c24 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -386,6 +386,8 @@ class MidiControlChange(MidiBaseControlChange):
             if cc_time is not None else self.cc_time,
             program=self.program,
             instrument=self.instrument,
+            is_drum=self.is_drum,
+            quantized_step=self.quantized_step,
             quantized_start_step=quantized_start_step
             if quantized_start_step is not None else self.quantized_start_step,
             quantized_end_step=quantized_end_step
-- 
2.43.0


From d7a0fbc5d19e35963b8713fdf91919929f6eb8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 016/104] fix: pitch name follows the pitch of a note

---
 neural_graph_composer/midi/midi_note.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 24fd7ac..3c41a45 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -586,6 +586,7 @@ class MidiNote(MidiEvent):
     def pitch(self, value):
         assert 0 <= value <= 127, f"Pitch value {value} is outside valid MIDI range (0-127)"
         self._pitch = value
+        self.pitch_name = librosa.midi_to_note(value)
 
     @property
     def program(self):
-- 
2.43.0


From 3506bdb59e88324a01d25f0caae21959903c5be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 017/104] fix: decode notes without the optional keys

---
 neural_graph_composer/midi/midi_note.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 3c41a45..bb4dd38 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -796,11 +796,11 @@ class MidiNote(MidiEvent):
             program=json_dict["program"],
             instrument=json_dict["instrument"],
             velocity=json_dict["velocity"],
-            quantized_start_step=json_dict.get("quantized_start_step"),
-            quantized_end_step=json_dict.get("quantized_end_step"),
-            voice=json_dict.get("voice"),
-            numerator=json_dict.get("numerator"),
-            denominator=json_dict.get("denominator"),
+            quantized_start_step=json_dict.get("quantized_start_step", -1),
+            quantized_end_step=json_dict.get("quantized_end_step", -1),
+            voice=json_dict.get("voice", 0),
+            numerator=json_dict.get("numerator", 4),
+            denominator=json_dict.get("denominator", 4),
             is_drum=json_dict.get("is_drum", False)
         )
 
-- 
2.43.0


From 1c52de1546983f2e20775bfe6d8ade6d121adb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 018/104] fix: steps of a note that is quantized again

---
 neural_graph_composer/midi/midi_note.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index bb4dd38..c74f6a8 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -467,8 +467,8 @@ class MidiNote(MidiEvent):
 
         # if already quantized , re-compute and update quantized_start_step and end step
         if self.is_quantized():
-            # Calculate duration based on new quantized steps
-            old_duration = np.divide(quantized_end_step - quantized_start_step, sps)
+            # Calculate duration, in steps, based on new quantized steps
+            old_duration = quantized_end_step - quantized_start_step
             logging.debug(f"old duration case on {old_duration}")
             # duration_before_shift = (self.end_time - self.start_time) / sps
             self.quantized_start_step = max(0, quantized_start_step)
-- 
2.43.0


From a11b130359aeda84b3a76d82b1469069381dba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 019/104] fix: quantized times lie on the grid

---
 neural_graph_composer/midi/midi_note.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index c74f6a8..89e9a71 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -506,8 +506,8 @@ class MidiNote(MidiEvent):
 
         logging.debug(f"self.quantized_start_step {self.quantized_start_step} and end step {self.quantized_end_step}")
         # Adjust the end time based on the new quantized end step.
-        new_end_time = np.around(np.divide(quantized_end_step, int(sps)), 2)
-        new_start_time = np.around(np.divide(quantized_start_step, int(sps)), 2)
+        new_end_time = np.divide(quantized_end_step, int(sps))
+        new_start_time = np.divide(quantized_start_step, int(sps))
         # If the new end time is earlier than the original end time,
         # adjust the start time as well.
         logging.debug(f"old timer {self.end_time} {self.start_time}")
@@ -518,7 +518,7 @@ class MidiNote(MidiEvent):
         new_end_time = max(0.0, min(new_end_time, 999999 - 0.001))
 
         duration = self.end_time - self.start_time
-        if new_end_time < self.end_time:
+        if new_end_time < self.end_time and not math.isclose(new_end_time, self.end_time):
             logging.debug(f"first case before {self.start_time} {new_end_time}")
             self.start_time = new_start_time
             logging.debug(f"first case set to {self.start_time} and new end time {self.start_time + duration}")
-- 
2.43.0


From 76858e02601a150abbe947ee0d281adb05d65181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 020/104] fix: float error of the step product does not move a
 quantized note

---
 neural_graph_composer/midi/midi_note.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 89e9a71..f10061b 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -361,10 +361,12 @@ class MidiNote(MidiEvent):
 
         if amount <= 0:
             raise ValueError("amount must be greater than zero")
+        # a time on the grid counts as on the grid despite the float error of the product
+        position = round(midi_time * sps + (1 - amount), 9)
         if is_floor:
-            quantized_step = math.floor(midi_time * sps + (1 - amount))
+            quantized_step = math.floor(position)
         else:
-            quantized_step = math.ceil(midi_time * sps + (1 - amount))
+            quantized_step = math.ceil(position)
         return max(0.0, quantized_step)
 
     @property
-- 
2.43.0


From e5808948ab3271761658b838ccabe393184ec0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 021/104] fix: extend a track with an empty list

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index d4b067f..ed95123 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -323,8 +323,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.notes.append(note)
             self.total_time = max(self.total_time, note.end_time)
         elif isinstance(note, list):
+            max_end_time = max([n.end_time for n in note], default=0.0)
             self.notes.extend(note)
-            max_end_time = max(note, key=lambda n: n.end_time).end_time
             self.total_time = max(self.total_time, max_end_time)
         else:
             raise TypeError("note must be a MidiNote object or a list of MidiNote objects")
@@ -338,8 +338,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.notes.append(notes)
             self.total_time = max(self.total_time, notes.end_time)
         elif isinstance(notes, list):
+            max_end_time = max([n.end_time for n in notes], default=0.0)
             self.notes.extend(notes)
-            max_end_time = max(notes, key=lambda n: n.end_time).end_time
             self.total_time = max(self.total_time, max_end_time)
         else:
             raise TypeError("notes must be a MidiNote object or a list of MidiNote objects")
-- 
2.43.0


From fd64a2339fcac9b615a029a020461711e8fc5a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 022/104] fix: add tracks

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index ed95123..bb1e56e 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -215,8 +215,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             raise ValueError("Instrument must be the same for both MidiNoteSequences.")
 
         # all notes in both sequences have the same instrument
-        if any(note.instrument != self.instrument for note in self.notes) \
-                or any(note.instrument != other.instrument for note in other.notes):
+        if any(note.instrument != self.instrument.instrument_num for note in self.notes) \
+                or any(note.instrument != other.instrument.instrument_num for note in other.notes):
             raise ValueError("All notes in both sequences must have the same instrument")
 
         midi_seq = MidiNoteSequence(instrument=self.instrument)
-- 
2.43.0


From f6377c52d6e946e5d9732bb634c0348fad99072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 023/104] fix: slices hold clipped copies of the notes

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index bb1e56e..18de8b1 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -579,7 +579,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
             new_note = copy.deepcopy(note)
             new_note.end_time = min(note.end_time, end)
-            new_midi_seq.add_note(note)
+            new_midi_seq.add_note(new_note)
 
         # update total time based on
         new_midi_seq.total_time = min(self.total_time, end)
-- 
2.43.0


From 9222d1ff47be98610a27fad57fc68db152229db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 024/104] fix: total time of a cut track

---
 neural_graph_composer/midi/midi_sequence.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 18de8b1..26be041 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -782,7 +782,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         truncated_notes = self.notes[:cut_size]
         truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=truncated_notes)
-        truncated_seq.total_time = min(self.total_time, truncated_notes[-1].end_time)
         return truncated_seq
 
     def to_midi_file(self, file_path: str, callback=save_midi_callback) -> None:
-- 
2.43.0


From 0c961e9cd58325cd6d4cf62bd94f6ec9c3a54795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 025/104] fix: extract notes between split times

---
 neural_graph_composer/midi/midi_sequence.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 26be041..6253539 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -544,9 +544,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             sub_seq.notes.append(copy.deepcopy(note))
             sub_seq.notes[-1].start_time -= split_times[sbs]
             sub_seq.notes[-1].end_time = min(note.end_time, split_times[sbs + 1]) - split_times[sbs]
-            sub_seq.notes[-1].end_time = min(sub_seq.notes[-1].end_time,
-                                             sub_seq.total_time + sub_seq.notes[-1].start_time)
-            sub_seq.total_time = sub_seq.notes[-1].end_time + sub_seq.notes[-1].start_time
+            sub_seq.total_time = max(sub_seq.total_time, sub_seq.notes[-1].end_time)
 
         return sub_sequences
 
-- 
2.43.0


From a31c37c244cb0cde18ef1cd0cdfaed42f702cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 026/104] fix: split a track

---
 neural_graph_composer/midi/midi_sequence.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 6253539..1829e5b 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -450,8 +450,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
         for split_point in num_splits:
             # update list of notes in current span
-            while notes_in_span and notes_in_span[0].end_time <= split_point:
-                notes_in_span.pop(0)
+            notes_in_span = [note for note in notes_in_span if note.end_time > split_point]
 
             # append notes that cross the split point to the list of notes in current span
             while seq_sorted_by_time and seq_sorted_by_time[0].start_time < split_point:
@@ -459,10 +458,10 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 if note.end_time > split_point:
                     notes_in_span.append(note)
 
-                # append split point to intervals if it's not on a boundary
-                # or if there are no notes in the current span
-                if not (skip_boundary and notes_in_span):
-                    intervals.append(split_point)
+            # append split point to intervals if it's not on a boundary
+            # or if there are no notes in the current span
+            if not (skip_boundary and notes_in_span):
+                intervals.append(split_point)
 
         return intervals
 
@@ -495,7 +494,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         if len(intervals) <= 1:
             return []
 
-        return MidiNoteSequence.extract_notes(intervals)
+        return self.extract(intervals)
 
     def shift_times(self, offset: float) -> None:
         """In place shifts the start and end times by offset
-- 
2.43.0


From af8990928cfdbca75391d89eaf2ff27b81b5b3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 027/104] fix: clone drum events

---
 neural_graph_composer/midi/midi_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 1829e5b..58beda4 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -664,6 +664,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """Return a clone of this object """
         cloned = MidiNoteSequence()
         cloned._notes = copy.deepcopy(self._notes)
+        cloned._drum_events = copy.deepcopy(self._drum_events)
         cloned.control_changes = copy.deepcopy(self.control_changes)
         cloned.pitch_bends = copy.deepcopy(self.pitch_bends)
         cloned.total_time = self.total_time
-- 
2.43.0


From 75322e8072abef2cc5c6b5243d0e263067ea4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 028/104] fix: total quantized steps of a track

---
 neural_graph_composer/midi/midi_sequence.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 58beda4..959da5f 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -610,9 +610,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             # quantize a note based on time to the nearest step
             quantized_note = note.quantize(sps=sps, amount=amount)
             new_notes.append(quantized_note)
-            # update total_quantized_steps
-            if note.quantized_end_step > self.__total_quantized_steps:
-                self.__total_quantized_steps = note.quantized_end_step
 
         new_control_changes = []
         #  quantize control changes and text annotations.
@@ -621,7 +618,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             quantized_cc = cc.quantize(sps=sps, amount=amount)
             new_control_changes.append(quantized_cc)
 
-        # update cc and notes
+        # update total_quantized_steps, cc and notes
+        self.__total_quantized_steps = max([n.quantized_end_step for n in new_notes], default=0)
         self.notes = new_notes
         self.control_changes = new_control_changes
 
-- 
2.43.0


From 9e1016f4c102cd59408201e911090dc59ee63378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 029/104] fix: end of the last event follows changes of the
 track

---
 neural_graph_composer/midi/midi_sequence.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 959da5f..df0c1e4 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -645,7 +645,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             if seq_tempo.midi_time == 0:
                 return seq_tempo.midi_time
 
-    @cache
     def truncate_to_last_event(self, offset: float) -> Optional[float]:
         """Truncates the sequence so that all notes end before
         `total_time + offset`.
-- 
2.43.0


From 6698337702b3a54fb9dc89c5c6a01a167516b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 030/104] fix: a piece is quantized when its tracks are

---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index a8e9029..2af13b3 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -486,7 +486,7 @@ class MidiNoteSequences:
         """Return true if all midi sequence for each instrument quantized
         :return:
         """
-        return all(n.is_quantized for n in self.__midi_seqs.values())
+        return all(n.is_quantized() for n in self.__midi_seqs.values())
 
     def get_all_sequence_events(self) -> List[MidiEvent]:
         """Return a list of all events in the sequence.
-- 
2.43.0


From 683a2a38ccd355faa5dd16f67273ce28966c86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 031/104] fix: order of signatures added at the same time

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 2af13b3..11dfac2 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -352,7 +352,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding time signature {v}")
 
-        v.seq = self.time_signatures[-1].seq + 1
+        v.seq = max((s.seq for s in self.time_signatures), default=0) + 1
 
         # replace default
         if len(self.time_signatures) >= 1 and self.is_close_to_zero(
@@ -374,7 +374,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding key signature {v}")
 
-        v.seq = self.key_signatures[-1].seq + 1
+        v.seq = max((s.seq for s in self.key_signatures), default=0) + 1
 
         # replace default
         if len(self.key_signatures) >= 1 and self.is_close_to_zero(
@@ -404,7 +404,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding tempo a signature {v}")
 
-        v.seq = self.tempo_signatures[-1].seq + 1
+        v.seq = max((s.seq for s in self.tempo_signatures), default=0) + 1
 
         if len(self.tempo_signatures) >= 1 and self.is_close_to_zero(
                 self.tempo_signatures[0].midi_time, v.midi_time):
-- 
2.43.0


From cf50976b625867606d8f9b08e1f34e649bb8714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 032/104] fix: a signature is in force from its own time on

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 11dfac2..7af3577 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -581,7 +581,7 @@ class MidiNoteSequences:
         if self.time_signatures is None or len(self.time_signatures) == 0:
             return 4, 4
 
-        i = bisect_right(self.time_signatures, MidiTimeSignature(midi_time=start_time)) - 1
+        i = bisect_right(self.time_signatures, start_time, key=lambda s: s.midi_time) - 1
         return self.time_signatures[i].numerator, self.time_signatures[i].denominator
 
     @cache
@@ -598,7 +598,7 @@ class MidiNoteSequences:
         if self.tempo_signature is None or len(self.tempo_signatures) == 0:
             return DEFAULT_PPQ, DEFAULT_QPM
 
-        i = bisect_right(self.tempo_signatures, MidiTempoSignature(midi_time=start_time)) - 1
+        i = bisect_right(self.tempo_signatures, start_time, key=lambda s: s.midi_time) - 1
         return int(self.tempo_signatures[i].qpm), self.tempo_signatures[i].resolution
 
     @cache
@@ -609,7 +609,7 @@ class MidiNoteSequences:
         """
         if self.key_signatures is None or len(self.key_signatures) == 0:
             return 0, 0
-        i = bisect_right(self.key_signatures, MidiKeySignature(midi_time=start_time)) - 1
+        i = bisect_right(self.key_signatures, start_time, key=lambda s: s.midi_time) - 1
         return self.key_signatures[i].mode, self.key_signatures[i].midi_key
 
     @property
-- 
2.43.0


From e36c2b26c8baf0a240187c1b9921c3410eda927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 033/104] fix: initial tempo follows changes of the tempo

---
 neural_graph_composer/midi/midi_sequences.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 7af3577..09b5ab2 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -306,7 +306,6 @@ class MidiNoteSequences:
                            self.__midi_tracks.values())) if self.__midi_tracks is not None else 0
         return 0
 
-    @cache
     def initial_tempo(self):
         """Return the initial tempo of the MIDI sequence, defined as the tempo
         signature with the earliest MIDI time. If there are no tempo signatures
-- 
2.43.0


From 00bbfcc15f381c5787c76ece9cc0bd1e8c3862b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 034/104] fix: list tempo changes in order and without the
 initial tempo

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 09b5ab2..3394ca8 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -474,10 +474,10 @@ class MidiNoteSequences:
         if sort_first:
             _tempo_signatures = sorted(self.tempo_signatures, key=lambda x: x.midi_time)
         else:
-            _tempo_signature = self.tempo_signature
+            _tempo_signatures = self.tempo_signatures
 
-        for sig in self.tempo_signatures:
-            if sig == self.initial_tempo or upper_bound and sig.midi_time > upper_bound:
+        for sig in _tempo_signatures:
+            if sig.midi_time == 0.0 or upper_bound is not None and sig.midi_time > upper_bound:
                 continue
             yield sig
 
-- 
2.43.0


From 3310ce4ab11e8b0f0aa6394788e3caf08dd49305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 035/104] fix: tracks created or assigned by index keep their
 index

---
 neural_graph_composer/midi/midi_sequences.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 3394ca8..f8cfb17 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -210,8 +210,8 @@ class MidiNoteSequences:
         if self._track_to_idx is None:
             self._instrument_to_idx = {}
 
-        if track_idx not in self._track_to_idx:
-            internal_idx = len(self.__midi_seqs)
+        if track_idx not in self.__midi_seqs:
+            internal_idx = track_idx
             instrument = MidiInstrumentInfo(
                 instrument=track_idx,
                 name=f"Instrument {0}",
@@ -224,8 +224,7 @@ class MidiNoteSequences:
                 is_debug=self.is_debug
             )
 
-        internal_idx = self._track_to_idx[track_idx]
-        return self.__midi_seqs[internal_idx]
+        return self.__midi_seqs[track_idx]
 
     def __setitem__(self, track_idx: int, value: Union[MidiNoteSequence, List[MidiNote]]) -> None:
         """ Sets the MidiNoteSequence for the given track index.
@@ -250,6 +249,7 @@ class MidiNoteSequences:
             self.__midi_seqs[track_idx] = MidiNoteSequence.from_notes(notes=value)
         else:
             raise TypeError("value must be a MidiNoteSequence or a list of MidiNotes")
+        self._track_to_idx[track_idx] = track_idx
 
     def __len__(self) -> int:
         """Return len of midi_seq.
-- 
2.43.0


From 744c1fa798d40ac18c8087d43ca8ec0c3a5b9a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 036/104] fix: set a track from a list of notes

---
 neural_graph_composer/midi/midi_sequences.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index f8cfb17..9fbb983 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -772,8 +772,9 @@ class MidiNoteSequences:
     def set_sequence(self, track_idx: int, sequence: Union[List[MidiNote], MidiNoteSequence]) -> None:
         """Set the MidiNoteSequence for the given track index."""
         if not isinstance(sequence, MidiNoteSequence):
-            sequence = MidiNoteSequence(resolution=self.resolution, is_debug=self.is_debug)
-            sequence.midi_notes = sequence.midi_notes + sequence
+            sequence = MidiNoteSequence(
+                notes=sequence, resolution=self.resolution, is_debug=self.is_debug)
 
         self.__midi_seqs[track_idx] = sequence
+        self._track_to_idx[track_idx] = track_idx
 
-- 
2.43.0


From 40a64f6b14c5e7e0e64809cb1fbc57ba96838999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 037/104] fix: trim and truncate the tracks of a piece

---
 neural_graph_composer/midi/midi_sequences.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 9fbb983..95a6bf7 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -511,7 +511,7 @@ class MidiNoteSequences:
         :return:
         """
         for k in self.__midi_seqs:
-            self.__midi_seqs[k].slice(initial_time, event_time)
+            self.__midi_seqs[k].notes = self.__midi_seqs[k].slice(initial_time, event_time).notes
 
     def truncate(self,
                  initial_time: Optional[float] = 0.0,
@@ -528,21 +528,18 @@ class MidiNoteSequences:
 
         if from_start is None:
             last_event_time = max(
-                [seq_event.event_end_time for seq_event in self.get_all_sequence_events()]
+                [seq_event.event_end_time for seq_event in self.get_all_sequence_events()], default=0.0
             )
-            self.trim(initial_time, last_event_time)
+            self.trim(last_event_time, initial_time)
             return last_event_time
 
         last_event_time = None
         for seq_event in self.get_all_sequence_events():
             if seq_event.event_end_time <= from_start:
-                last_event_time = seq_event.event_end_time
-            else:
-                break
+                last_event_time = max(seq_event.event_end_time, last_event_time or 0.0)
 
         if last_event_time is not None:
-            for midi_seq in self.__midi_seqs:
-                midi_seq.trim(0.0, last_event_time)
+            self.trim(last_event_time, initial_time)
 
         return last_event_time
 
-- 
2.43.0


From 3a017a2ed130882c2825e9410fff0b212a1308a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 038/104] fix: default signatures apply before the first one

---
 neural_graph_composer/midi/midi_sequences.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 95a6bf7..74905c1 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -569,15 +569,13 @@ class MidiNoteSequences:
         :param start_time: The MIDI start time.
         :return: A tuple representing the time signature (denominator, numerator).
         """
-        # inc ase start time negative
-        if start_time < 0:
-            return DEFAULT_PPQ, DEFAULT_QPM
-
         # default assumed signature
         if self.time_signatures is None or len(self.time_signatures) == 0:
             return 4, 4
 
         i = bisect_right(self.time_signatures, start_time, key=lambda s: s.midi_time) - 1
+        if i < 0:
+            return 4, 4
         return self.time_signatures[i].numerator, self.time_signatures[i].denominator
 
     @cache
@@ -587,14 +585,12 @@ class MidiNoteSequences:
         :param start_time:
         :return:
         """
-        # inc ase start time negative
-        if start_time < 0:
-            return DEFAULT_PPQ, DEFAULT_QPM
-
-        if self.tempo_signature is None or len(self.tempo_signatures) == 0:
-            return DEFAULT_PPQ, DEFAULT_QPM
+        if self.tempo_signatures is None or len(self.tempo_signatures) == 0:
+            return DEFAULT_QPM, DEFAULT_PPQ
 
         i = bisect_right(self.tempo_signatures, start_time, key=lambda s: s.midi_time) - 1
+        if i < 0:
+            return DEFAULT_QPM, DEFAULT_PPQ
         return int(self.tempo_signatures[i].qpm), self.tempo_signatures[i].resolution
 
     @cache
@@ -606,6 +602,8 @@ class MidiNoteSequences:
         if self.key_signatures is None or len(self.key_signatures) == 0:
             return 0, 0
         i = bisect_right(self.key_signatures, start_time, key=lambda s: s.midi_time) - 1
+        if i < 0:
+            return 0, 0
         return self.key_signatures[i].mode, self.key_signatures[i].midi_key
 
     @property
-- 
2.43.0


From 73cec06d225ae202c8dcf6172a16a273ed4e4e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 039/104] fix: read a MIDI file given as bytes

---
 neural_graph_composer/custom_pretty_midi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 086da07..7f54e0a 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -45,7 +45,8 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         """
         # Mustafa TODO push to github to main PrettyMIDI
         self.drum_channel = drum_channel
-        super().__init__(midi_file, resolution, initial_tempo)
+        # the file is read once, by from_file
+        super().__init__(None, resolution, initial_tempo)
         self.is_debug = is_debug
 
         if midi_file is not None:
-- 
2.43.0


From e4ea655d9168e054783f0e230d92302af460c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 040/104] fix: a note sounds until its own note off when
 another note starts

---
 neural_graph_composer/custom_pretty_midi.py | 72 +++++++++++++--------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 7f54e0a..60421c2 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -26,6 +26,11 @@ from mido.midifiles.midifiles import MidiFile
 
 MAX_TICK = 1e9
 
+# States of a note that sounds: no note off seen yet; started where an earlier note
+# of the same key was cut, so that the note off at that tick is not its own;
+# note off seen at the tick the note started.
+NOTE_OPEN, NOTE_STRUCK_AGAIN, NOTE_ENDED = range(3)
+
 
 class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
     """
@@ -268,25 +273,35 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
     def _finish_notes(
             self, event, last_note_on, __get_instrument, current_instrument, track_idx, end_of_seq=False):
 
+        # A note on finishes earlier notes of the same key, and notes that
+        # already saw a note off at the tick they started.  Other notes keep
+        # sounding until their own note off, or the end of the track.
         end_tick = event.time
-        notes_to_remove = []
+        is_struck_again = False
 
-        for k, v in last_note_on.items():
-            start_tick, velocity = v[0]
+        for k in list(last_note_on):
             _channel, _note = k
-            if end_tick > start_tick or end_of_seq:
-                # start we know, end is current note on event
-                start_time = self.tick_times[start_tick]
-                end_time = self.tick_times[end_tick]
-                note = Note(velocity, _note, start_time, end_time)
-                program = current_instrument[_channel]
-                ints = __get_instrument(program, _channel, track_idx, 1)
-                ints.notes.append(note)
-                # we close a note we remove it.
-                notes_to_remove.append(k)
-
-        for key in notes_to_remove:
-            del last_note_on[key]
+            is_same_key = not end_of_seq and k == (event.channel, event.note)
+            notes_to_keep = []
+            for start_tick, velocity, state in last_note_on[k]:
+                if end_of_seq or (end_tick > start_tick and (is_same_key or state == NOTE_ENDED)):
+                    # start we know, end is current note on event
+                    start_time = self.tick_times[start_tick]
+                    end_time = self.tick_times[end_tick]
+                    note = Note(velocity, _note, start_time, end_time)
+                    program = current_instrument[_channel]
+                    ints = __get_instrument(program, _channel, track_idx, 1)
+                    ints.notes.append(note)
+                    is_struck_again |= is_same_key and state != NOTE_ENDED
+                else:
+                    notes_to_keep.append((start_tick, velocity, state))
+            # we close a note we remove it.
+            if notes_to_keep:
+                last_note_on[k] = notes_to_keep
+            else:
+                del last_note_on[k]
+
+        return is_struck_again
 
     def _note_off_event(self, event, last_note_on, __get_instrument, current_instrument, track_idx):
 
@@ -306,16 +321,16 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         open_notes = last_note_on[key]
 
         notes_to_close = [
-            (start_tick, velocity)
-            for start_tick, velocity in open_notes
+            (start_tick, velocity, state)
+            for start_tick, velocity, state in open_notes
             if start_tick != end_tick]
 
         notes_to_keep = [
-            (start_tick, velocity)
-            for start_tick, velocity in open_notes
+            (start_tick, velocity, state)
+            for start_tick, velocity, state in open_notes
             if start_tick == end_tick]
 
-        for start_tick, velocity in notes_to_close:
+        for start_tick, velocity, _ in notes_to_close:
             start_time = self.tick_times[start_tick]
             end_time = self.tick_times[end_tick]
             # Create the note event
@@ -336,8 +351,11 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
             last_note_on[key] = notes_to_keep
         elif len(notes_to_keep) > 0 and len(notes_to_close) == 0:
             # Note off event doesn't cancel previous, so we keep it.
-            # on next Note On event this suppose to go out.
-            last_note_on[key] = notes_to_keep
+            # on next Note On event this suppose to go out, unless the note off
+            # belongs to an earlier note that was struck again at this tick.
+            last_note_on[key] = [
+                (start_tick, velocity, NOTE_OPEN if state == NOTE_STRUCK_AGAIN else NOTE_ENDED)
+                for start_tick, velocity, state in notes_to_keep]
         else:
             # Remove the last note on for this instrument
             del last_note_on[key]
@@ -405,7 +423,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         for track_idx, track in enumerate(midi_data.tracks):
             # Keep track of last note on location:
             # key = (instrument, note),
-            # value = (note-on tick, velocity)
+            # value = (note-on tick, velocity, state)
             last_note_on = collections.defaultdict(list)
             # Keep track of which instrument is playing in each channel
             # initialize to program 0 for all channels
@@ -422,10 +440,12 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                 # Note ons are note on events with velocity > 0
                 elif event.type == 'note_on' and event.velocity > 0:
                     # before we add we check do we have note that need stop
-                    self._finish_notes(event, last_note_on, __get_instrument, current_instrument, track_idx)
+                    is_struck_again = self._finish_notes(
+                        event, last_note_on, __get_instrument, current_instrument, track_idx)
                     # store this as the last note-on location
                     note_on_index = (event.channel, event.note)
-                    last_note_on[note_on_index].append((event.time, event.velocity))
+                    last_note_on[note_on_index].append(
+                        (event.time, event.velocity, NOTE_STRUCK_AGAIN if is_struck_again else NOTE_OPEN))
                 # Note offs can also be note on events with 0 velocity
                 elif event.type == 'note_off' or (event.type == 'note_on' and
                                                   event.velocity == 0):
-- 
2.43.0


From c854614967facd992114219aafdbb45b1149a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 041/104] fix: a note belongs to the program it was started
 with

---
 neural_graph_composer/custom_pretty_midi.py | 31 ++++++++++-----------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 60421c2..ae46ec4 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -283,18 +283,17 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
             _channel, _note = k
             is_same_key = not end_of_seq and k == (event.channel, event.note)
             notes_to_keep = []
-            for start_tick, velocity, state in last_note_on[k]:
+            for start_tick, velocity, program, state in last_note_on[k]:
                 if end_of_seq or (end_tick > start_tick and (is_same_key or state == NOTE_ENDED)):
                     # start we know, end is current note on event
                     start_time = self.tick_times[start_tick]
                     end_time = self.tick_times[end_tick]
                     note = Note(velocity, _note, start_time, end_time)
-                    program = current_instrument[_channel]
                     ints = __get_instrument(program, _channel, track_idx, 1)
                     ints.notes.append(note)
                     is_struck_again |= is_same_key and state != NOTE_ENDED
                 else:
-                    notes_to_keep.append((start_tick, velocity, state))
+                    notes_to_keep.append((start_tick, velocity, program, state))
             # we close a note we remove it.
             if notes_to_keep:
                 last_note_on[k] = notes_to_keep
@@ -321,25 +320,22 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         open_notes = last_note_on[key]
 
         notes_to_close = [
-            (start_tick, velocity, state)
-            for start_tick, velocity, state in open_notes
+            (start_tick, velocity, program, state)
+            for start_tick, velocity, program, state in open_notes
             if start_tick != end_tick]
 
         notes_to_keep = [
-            (start_tick, velocity, state)
-            for start_tick, velocity, state in open_notes
+            (start_tick, velocity, program, state)
+            for start_tick, velocity, program, state in open_notes
             if start_tick == end_tick]
 
-        for start_tick, velocity, _ in notes_to_close:
+        for start_tick, velocity, program, _ in notes_to_close:
             start_time = self.tick_times[start_tick]
             end_time = self.tick_times[end_tick]
             # Create the note event
             note = Note(velocity, event.note, start_time, end_time)
-            # Get the program and drum type for the current
-            # instrument
-            program = current_instrument[event.channel]
-            # Retrieve the Instrument instance for the current
-            # instrument
+            # Retrieve the Instrument instance for the program
+            # the note was started with
             # Create a new instrument if none exists
             ints = __get_instrument(program, event.channel, track_idx, 1)
             # Add the note event
@@ -354,8 +350,8 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
             # on next Note On event this suppose to go out, unless the note off
             # belongs to an earlier note that was struck again at this tick.
             last_note_on[key] = [
-                (start_tick, velocity, NOTE_OPEN if state == NOTE_STRUCK_AGAIN else NOTE_ENDED)
-                for start_tick, velocity, state in notes_to_keep]
+                (start_tick, velocity, program, NOTE_OPEN if state == NOTE_STRUCK_AGAIN else NOTE_ENDED)
+                for start_tick, velocity, program, state in notes_to_keep]
         else:
             # Remove the last note on for this instrument
             del last_note_on[key]
@@ -423,7 +419,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         for track_idx, track in enumerate(midi_data.tracks):
             # Keep track of last note on location:
             # key = (instrument, note),
-            # value = (note-on tick, velocity, state)
+            # value = (note-on tick, velocity, program, state)
             last_note_on = collections.defaultdict(list)
             # Keep track of which instrument is playing in each channel
             # initialize to program 0 for all channels
@@ -445,7 +441,8 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                     # store this as the last note-on location
                     note_on_index = (event.channel, event.note)
                     last_note_on[note_on_index].append(
-                        (event.time, event.velocity, NOTE_STRUCK_AGAIN if is_struck_again else NOTE_OPEN))
+                        (event.time, event.velocity, current_instrument[event.channel],
+                         NOTE_STRUCK_AGAIN if is_struck_again else NOTE_OPEN))
                 # Note offs can also be note on events with 0 velocity
                 elif event.type == 'note_off' or (event.type == 'note_on' and
                                                   event.velocity == 0):
-- 
2.43.0


From 24b5df90730d09d0cde9f661044c8d29877397b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 042/104] fix: events before a track's first note belong to one
 instrument only

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index ae46ec4..cb24add 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -399,7 +399,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                 # If any events appeared for this instrument before now,
                 # include them in the new instrument
                 if (_channel, _track) in stragglers:
-                    straggler = stragglers[(_channel, _track)]
+                    straggler = stragglers.pop((_channel, _track))
                     _instrument.control_changes = straggler.control_changes
                     _instrument.pitch_bends = straggler.pitch_bends
                 # Add the instrument to the instrument map
-- 
2.43.0


From b0ec1f94940985a190a14c3ffec073e152449b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 043/104] fix: read notes that end before an earlier note of
 their track

---
 neural_graph_composer/midi_reader.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index b471d36..1ba6229 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -156,23 +156,13 @@ class MidiReader(MidiBaseReader):
                     warnings.warn(f"{instrument}, note duration start and end "
                                   f"time is very close {n.start} {n.end}")
                     continue
-                # update total time
-                if not midi_seq.total_time or n.end >= midi_seq[seq_id].total_time:
-                    # update entire total for all music instruments
-                    if n.end >= midi_seq.total_time:
-                        midi_seq.total_time = n.end
-                    # update for particular instrument total time
+                # update entire total for all music instruments
+                if not midi_seq.total_time or n.end >= midi_seq.total_time:
+                    midi_seq.total_time = n.end
+                # update for particular instrument total time
+                if n.end >= midi_seq[seq_id].total_time:
                     midi_seq[seq_id].total_time = n.end
-                    yield instrument, i, n, seq_id
-                else:
-                    logging.debug(
-                        f"Skipping instrument {instrument}: "
-                        f"note {n} end time after instrument time {midi_seq.total_time}")
-                    logging.warning(
-                        "instrument {} note pitch {} interval {}-{} vel {} "
-                        "skipped".format(instrument, n.pitch, n.start, n.end, n.velocity))
-                    logging.warning(
-                        "seq total time {}".format(midi_seq.total_time))
+                yield instrument, i, n, seq_id
 
     @staticmethod
     def read_instrument_pitch_bends(
-- 
2.43.0


From e2ab0519a3820382e1dc45d6112195647a9fef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 044/104] fix: read control changes and pitch bends within the
 piece

---
 neural_graph_composer/midi_reader.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 1ba6229..4366a3b 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -180,8 +180,7 @@ class MidiReader(MidiBaseReader):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             # for each instrument iterate over all node and get time
             for n in instrument.pitch_bends:
-                if not midi_seq.total_time or n.time >= midi_seq.total_time:
-                    yield instrument, i, n, seq_id
+                yield instrument, i, n, seq_id
 
     @staticmethod
     def read_instrument_control_changes(
@@ -198,8 +197,7 @@ class MidiReader(MidiBaseReader):
         for i, instrument in enumerate(midi_data.instruments):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             for cv in instrument.control_changes:
-                if not midi_seq.total_time or cv.time >= midi_seq.total_time:
-                    yield instrument, i, cv, seq_id
+                yield instrument, i, cv, seq_id
 
     @staticmethod
     def mido_to_pretty_midi(mido_file: mido.MidiFile) -> CustomPrettyMIDI:
-- 
2.43.0


From b306fcc65b2b6154bf677163158cf907d06c2429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 045/104] fix: the lowest pitch bend is -8192

---
 neural_graph_composer/midi/midi_pitch_bend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_pitch_bend.py b/neural_graph_composer/midi/midi_pitch_bend.py
index f66428f..c16f8d9 100644
--- a/neural_graph_composer/midi/midi_pitch_bend.py
+++ b/neural_graph_composer/midi/midi_pitch_bend.py
@@ -23,14 +23,14 @@ class MidiPitchBend(MidiEvent):
         and bounded to particular instrument , track.
 
         MIDI Pitch Bend event. Is drum if event in drum channel
-        :param amount is amount of pitch bend. Based on MIDI it values between -8191 and 8191
+        :param amount is amount of pitch bend. Based on MIDI it values between -8192 and 8191
         :param program: midi program , default 0
         :param instrument:  midi instrument default 0
         :param midi_time: time of event.  time of event
         :param is_drum: default False
         """
-        if not (-8191 <= amount <= 8191):
-            raise ValueError("amount must be between -8191 and 8191")
+        if not (-8192 <= amount <= 8191):
+            raise ValueError("amount must be between -8192 and 8191")
         self.amount: int = amount
 
         if not (0 <= program <= 127):
@@ -58,7 +58,7 @@ class MidiPitchBend(MidiEvent):
         else:
             self.__midi_time: Optional[Union[float, np.ndarray]] = None
 
-        self.__amount: int = min(max(-8191, amount), 8191)
+        self.__amount: int = min(max(-8192, amount), 8191)
         self.__program: int = min(max(0, program), 255)
         self.__instrument: int = min(max(0, instrument), 255)
         self.__midi_time: Union[float, np.ndarray] = np.clip(midi_time, 0, np.inf) if midi_time is not None else 0.0
-- 
2.43.0


From 8084ef0c2a3db3646fa018dd54f9014ff23b40eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 046/104] fix: writing a piece does not truncate it

---
 neural_graph_composer/midi_reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 4366a3b..80c1477 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -317,7 +317,8 @@ class MidiReader(MidiBaseReader):
         :rtype CustomPrettyMIDI
         """
         ticks_per_quarter = sequence.resolution or DEFAULT_PPQ
-        max_event_time = sequence.truncate(to_end)
+        # everything is written unless an end is given
+        max_event_time = to_end
         initial_seq_tempo = sequence.initial_tempo()
 
         logging.debug(f"{initial_seq_tempo} {ticks_per_quarter} {max_event_time}")
@@ -365,13 +366,13 @@ class MidiReader(MidiBaseReader):
             pitch_bends = [
                 pretty_midi.PitchBend(sb.amount, sb.midi_time)
                 for sb in sequence[k].pitch_bends
-                if max_event_time and sb.midi_time < max_event_time
+                if max_event_time is None or sb.midi_time <= max_event_time
             ]
 
             control_changes = [
                 pretty_midi.ControlChange(cc.cc_number, cc.cc_value, cc.cc_time)
                 for cc in sequence[k].control_changes
-                if max_event_time and cc.cc_time < max_event_time]
+                if max_event_time is None or cc.cc_time <= max_event_time]
 
             # create instrument
             instrument = pretty_midi.Instrument(
-- 
2.43.0


From 29d7ec78f1fc461110b8021254fcba935cf9c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 047/104] fix: write every tempo change at its own tick

---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 80c1477..1599c39 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -352,7 +352,7 @@ class MidiReader(MidiBaseReader):
             print(f"Setting scale {type(seq_tempo.midi_time)}")
             tick = pm.time_to_tick(seq_tempo.midi_time)
             pm.update_scale((tick, tick_scale))
-            pm.update_tick_time([0])
+            pm._update_tick_to_time(tick)
 
         inst_infos = {}
         for i, inst_info in enumerate(sequence.instruments):
-- 
2.43.0


From 7d51f70ecc7e282e0ed80f56baa4e08e9a3ca46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 048/104] fix: write the program and the name of an instrument

---
 neural_graph_composer/midi_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 1599c39..8938a0c 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -376,7 +376,8 @@ class MidiReader(MidiBaseReader):
 
             # create instrument
             instrument = pretty_midi.Instrument(
-                sequence[k].program, sequence[k].instrument.is_drum
+                sequence[k].instrument.instrument_num, sequence[k].instrument.is_drum,
+                sequence[k].instrument.name
             )
             instrument.notes = notes
             instrument.pitch_bends = pitch_bends
-- 
2.43.0


From 45a899d3f98d4cb8957100798f0a6092c2e2b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 049/104] fix: write pieces of which the tempo cannot be
 estimated

---
 neural_graph_composer/midi_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 8938a0c..fefaf4f 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -392,7 +392,6 @@ class MidiReader(MidiBaseReader):
             pm.adjust_times(original_times, new_times)
 
         logging.debug(f"pretty midi time: {pm.get_end_time()} "
-                      f"estimate_tempo: {pm.estimate_tempo()} "
                       f"resolution: {pm.resolution}")
         return pm
 
-- 
2.43.0


From 546c251117d4f93aaaad4a4787b2a100ea2d3768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 050/104] fix: overwrite a file only when asked to

---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index fefaf4f..e759279 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -419,7 +419,7 @@ class MidiReader(MidiBaseReader):
         if not isinstance(filename, str) or not filename:
             raise ValueError("The provided filename is invalid. It should be a non-empty string.")
 
-        if do_overwrite is False and os.path.exists(filename):
+        if not do_overwrite and os.path.exists(filename):
             raise FileExistsError(
                 f"A file with the name '{filename}' "
                 f"already exists. Aborting to avoid overwriting.")
-- 
2.43.0


From b3af0be3c79f2e6c271e9b67f76558b2028513b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 051/104] fix: float error does not lower the tempo read from a
 file

---
 neural_graph_composer/midi_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index e759279..de585fa 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -68,7 +68,8 @@ class MidiReader(MidiBaseReader):
         for time_in_seconds, tempo_in_qpm in zip(tempo_times, tempo_qpms):
             sequence.add_tempo_signature(
                 MidiTempoSignature(time_in_seconds.astype(float),
-                                   qpm=tempo_in_qpm.astype(float),
+                                   # free of the float error of the tick scale
+                                   qpm=round(float(tempo_in_qpm), 6),
                                    resolution=midi.resolution)
             )
 
-- 
2.43.0


From 90a6637870d3441925b6a60e824e22016f2a3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 052/104] fix: write instrument names that a MIDI file cannot
 hold

---
 neural_graph_composer/midi_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index de585fa..996cd95 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -378,7 +378,8 @@ class MidiReader(MidiBaseReader):
             # create instrument
             instrument = pretty_midi.Instrument(
                 sequence[k].instrument.instrument_num, sequence[k].instrument.is_drum,
-                sequence[k].instrument.name
+                # names in a file are latin1
+                (sequence[k].instrument.name or "").encode("latin1", "replace").decode("latin1")
             )
             instrument.notes = notes
             instrument.pitch_bends = pitch_bends
-- 
2.43.0


From 6b52f0b882e7f9b4084aae590fd1f7fdf47783e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 053/104] fix: a write that fails leaves an existing file as it
 was

---
 neural_graph_composer/midi_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 996cd95..74ad68f 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -434,7 +434,11 @@ class MidiReader(MidiBaseReader):
             raise ValueError("The 'from_start' parameter should be less than or equal to 'to_end'.")
 
         pretty_midi_seq = MidiReader.to_pretty_midi(sequence, from_start=from_start, to_end=to_end)
-        pretty_midi_seq.write(filename)
+        # a file is opened once there is something to write to it
+        file_data = io.BytesIO()
+        pretty_midi_seq.write(file_data)
+        with open(filename, "wb" if do_overwrite else "xb") as midi_file:
+            midi_file.write(file_data.getvalue())
 
     @classmethod
     def from_file(cls, file_path: str) -> MidiNoteSequences:
-- 
2.43.0


From 9d2e9d331fc3cb051ef4bf35a50513809ca8c183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 054/104] fix: save the whole-piece graphs, not the
 per-instrument ones again

---
 neural_graph_composer/midi_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 0b48cf9..2a29872 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -578,6 +578,7 @@ class MidiDataset(InMemoryDataset):
         # self._graph_builder = None
 
         self._mask_entire_graph()
+        _data, _slices = self.collate(self.__data_list)
         _hash_to_notes = self.graph_builder.hash_to_notes
         _notes_to_hash = self.graph_builder.notes_to_hash
         _hash_to_index = self.graph_builder.hash_to_index
-- 
2.43.0


From 65fa3139534c3adfa99966941d61d7259af60b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 055/104] fix: process a corpus in which a file has nothing
 that sounds

---
 neural_graph_composer/midi_dataset.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 2a29872..1e27dfc 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -477,6 +477,10 @@ class MidiDataset(InMemoryDataset):
                     is_per_instrument=True
                 )
 
+                # no file so far holds anything that sounds
+                if not self._graph_builder.hash_to_notes:
+                    continue
+
                 # graph_builder output iterator, is_sanity_check if we want to do sanity
                 # check during this phase.
                 for midi_data in self._graph_builder.graphs(
@@ -629,11 +633,12 @@ class MidiDataset(InMemoryDataset):
                     is_include_velocity=self.include_velocity,
                     is_per_instrument=False
                 )
-                graphs = self._graph_builder.graphs()
-                if not graphs:
-                    raise ValueError("No sub graphs found in graph builder.")
-
-                midi_data = next(graphs)
+                # a file that holds nothing that sounds has no graph
+                if not self._graph_builder.hash_to_notes:
+                    continue
+                midi_data = next(self._graph_builder.graphs(), None)
+                if midi_data is None:
+                    continue
 
                 self.all_classes.update(torch.unique(midi_data.y).tolist())
                 if self.pre_filter is not None and not self.pre_filter(midi_data):
-- 
2.43.0


From 0859d914f42b6832b009fa811ac0c16193114efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 056/104] fix: an interrupted run leaves no partial processed
 file

---
 neural_graph_composer/midi_dataset.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 1e27dfc..76f4b36 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -541,6 +541,17 @@ class MidiDataset(InMemoryDataset):
                 print(f"Error for index {i}, hash {hash_of_index}, notes {original_set_of_notes}:")
                 print(node_features, original_set_tensor)
 
+    @staticmethod
+    def _save(processed, path: str):
+        """Save processed data. A file that is present counts as processed,
+        hence it appears under its name only once it is complete.
+        :param processed: what to save
+        :param path: path of the file
+        :return:
+        """
+        torch.save(processed, path + '.tmp')
+        os.replace(path + '.tmp', path)
+
     def process(self):
         """We compute the mask for each graph separately,
         since  graphs have different sizes or structures.
@@ -570,7 +581,7 @@ class MidiDataset(InMemoryDataset):
         _data, _slices = self.collate(self.__data_list)
         _dataset_length = len(self.__data_list)
         print(f"Saving {self.processed_dir} per_instrument_data.pt")
-        torch.save((_data, _slices, additional_data),
+        self._save((_data, _slices, additional_data),
                    osp.join(self.processed_dir,
                             f'per_instrument_'
                             f'vel_{self.include_velocity}_'
@@ -595,7 +606,7 @@ class MidiDataset(InMemoryDataset):
         }
 
         print(f"Saving {self.processed_dir} data.pt")
-        torch.save((_data, _slices, additional_data),
+        self._save((_data, _slices, additional_data),
                    osp.join(
                        self.processed_dir,
                        f'data_'
-- 
2.43.0


From 9057efcdfebec021a21757f841174c0a56ea2ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 057/104] fix: an interrupted run leaves no partial raw file

---
 neural_graph_composer/midi_dataset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 76f4b36..f83fb0d 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -434,11 +434,12 @@ class MidiDataset(InMemoryDataset):
                     self.files[i] = p.name
                     src_path = os.path.abspath(str(p))
                     logging.debug(f"Downloading {src_path} to {dst_path}")
-                    try:
-                        shutil.copy(src_path, dst_path)
-                    except shutil.SameFileError:
+                    if osp.exists(dst_path) and osp.samefile(src_path, dst_path):
                         warnings.warn(f"Data raw folder already containers {src_path} {dst_path}")
-                        pass
+                        continue
+                    # a file that is present counts as downloaded
+                    shutil.copy(src_path, dst_path + '.tmp')
+                    os.replace(dst_path + '.tmp', dst_path)
         else:
             for raw_file in self.raw_file_names:
                 logging.debug(f"Downloading {raw_file}")
-- 
2.43.0


From 4a65b888835056d49e8448899f518fcbdf874fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 058/104] fix: creating a dataset leaves the caller's list of
 files as it was

---
 neural_graph_composer/midi_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index f83fb0d..dfb1ff3 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -205,7 +205,7 @@ class MidiDataset(InMemoryDataset):
         # list offline files.
         self.files = []
         if midi_files is not None:
-            self.files = midi_files
+            self.files = list(midi_files)
             self._offline = True
 
         self._remove_label = remove_label
-- 
2.43.0


From d058c5bfd9204f1930ef29dcff957183fcbfd2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 059/104] fix: files of one name from different folders are all
 processed

---
 neural_graph_composer/midi_dataset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index dfb1ff3..c6fc790 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -425,13 +425,19 @@ class MidiDataset(InMemoryDataset):
         """
         logging.debug(f"raw_file_names {self.raw_file_names}")
         if len(self.files) > 0 and self._offline:
+            sources = {}
             for i, raw_file in enumerate(self.raw_file_names):
                 p = Path(raw_file).expanduser().resolve()
                 if not p.exists():
                     raise RuntimeError(f"File not found: {raw_file}")
                 if p.is_file():
-                    dst_path = os.path.join(self.raw_dir, p.name)
-                    self.files[i] = p.name
+                    # files of one name from different folders do not
+                    # replace each other
+                    name, k = p.name, 1
+                    while sources.setdefault(name, p) != p:
+                        name, k = f"{p.stem}_{k}{p.suffix}", k + 1
+                    dst_path = os.path.join(self.raw_dir, name)
+                    self.files[i] = name
                     src_path = os.path.abspath(str(p))
                     logging.debug(f"Downloading {src_path} to {dst_path}")
                     if osp.exists(dst_path) and osp.samefile(src_path, dst_path):
-- 
2.43.0


From a31073f89b265dca3548deff5626affb63693aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 060/104] fix: transforms implement what BaseTransform calls

---
 neural_graph_composer/transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 09d1feb..451a1a9 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -26,7 +26,7 @@ from torch_geometric.transforms import BaseTransform
 class AddDegreeTransform(BaseTransform):
     """Add degree to x.
     """
-    def __call__(self, data):
+    def forward(self, data):
         x = data.x.reshape(data.num_nodes, -1)
         degree = torch_geometric.utils.degree(data.edge_index[0], num_nodes=data.num_nodes)
         degree = degree.reshape(-1, 1)
@@ -49,7 +49,7 @@ class GraphIDTransform(BaseTransform):
         self.num_classes = dataset.num_classes
         print(f"Creating Graph ID transform Node proper {self.num_classes}")
 
-    def __call__(self, data):
+    def forward(self, data):
         """Transform add graph id.
 
         It requires dataset to have public method that it can access.
@@ -83,7 +83,7 @@ class RandomNodeDrop(T.BaseTransform):
         print(f"Creating Random Node proper with p {p}")
         self.p = p
 
-    def __call__(self, data: Data) -> Data:
+    def forward(self, data: Data) -> Data:
         """
 
         :param data:
@@ -148,7 +148,7 @@ class RandomEdgeDrop(T.BaseTransform):
         """
         self.p = p
 
-    def __call__(self, data):
+    def forward(self, data):
         """
         :param data:
         :return:
-- 
2.43.0


From c4cdb033086c07506cc85c775071fc1e962c0513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 061/104] fix: edges follow the nodes that stay when nodes are
 dropped

---
 neural_graph_composer/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 451a1a9..d365dcb 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -97,6 +97,10 @@ class RandomNodeDrop(T.BaseTransform):
 
         data.edge_index, data.edge_attr = RandomNodeDrop.filter_adj(
             data.edge_index, data.edge_attr, remain_idx, num_nodes)
+        # edges refer to the kept nodes by their new positions
+        new_idx = torch.zeros(num_nodes, dtype=torch.long)
+        new_idx[remain_idx] = torch.arange(len(remain_idx))
+        data.edge_index = new_idx[data.edge_index]
         data.x = data.x[remain_idx]
         data.y = data.y[remain_idx]
 
-- 
2.43.0


From f59a7deff43f6e0af18c0402c49938ddd2ebb36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 062/104] fix: drop nodes of a graph without edge attributes

---
 neural_graph_composer/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index d365dcb..10d8e6d 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -136,7 +136,7 @@ class RandomNodeDrop(T.BaseTransform):
         if edge_attr is not None:
             return edge_index[:, mask_all], edge_attr[mask_all]
         else:
-            return edge_index[:, mask_all]
+            return edge_index[:, mask_all], None
 
     def __repr__(self):
         """
-- 
2.43.0


From 775b7063870f42b260db2ff9892f74624335d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 063/104] fix: drop the hashes of dropped nodes, with or
 without masks

---
 neural_graph_composer/transforms.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 10d8e6d..7d55cc1 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -104,9 +104,13 @@ class RandomNodeDrop(T.BaseTransform):
         data.x = data.x[remain_idx]
         data.y = data.y[remain_idx]
 
-        data.train_mask = data.train_mask[remain_idx]
-        data.val_mask = data.val_mask[remain_idx]
-        data.test_mask = data.test_mask[remain_idx]
+        for key in ('train_mask', 'val_mask', 'test_mask'):
+            if key in data:
+                data[key] = data[key][remain_idx]
+        # lists with one entry per node
+        for key in ('node_hash', 'label'):
+            if data.get(key) is not None:
+                data[key] = [data[key][i] for i in remain_idx.tolist()]
         data.num_nodes = data.x.shape[0]
 
         # print(f"called return data {data}")
-- 
2.43.0


From 559eb4b0cf25ebfa37b7d6ae7e644fa928dc2ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 064/104] fix: drop edges of graphs without link labels or
 masks

---
 neural_graph_composer/transforms.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 7d55cc1..30962cf 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -171,7 +171,7 @@ class RandomEdgeDrop(T.BaseTransform):
 
         pos_edge_mask = None
         neg_edge_mask = None
-        if data.pos_edge_label is not None and data.neg_edge_label is not None:
+        if data.get('pos_edge_label') is not None and data.get('neg_edge_label') is not None:
             pos_edge_mask = data.pos_edge_label_index[:, mask]
             neg_edge_mask = data.neg_edge_label_index[:, mask]
 
@@ -180,14 +180,14 @@ class RandomEdgeDrop(T.BaseTransform):
             edge_index=edge_index,
             edge_attr=edge_attr,
             y=data.y,
-            pos_edge_label=data.pos_edge_label,
-            neg_edge_label=data.neg_edge_label,
-            train_mask=data.train_mask,
-            val_mask=data.val_mask,
-            test_mask=data.test_mask,
+            pos_edge_label=data.get('pos_edge_label'),
+            neg_edge_label=data.get('neg_edge_label'),
+            train_mask=data.get('train_mask'),
+            val_mask=data.get('val_mask'),
+            test_mask=data.get('test_mask'),
             pos_edge_label_index=pos_edge_mask,
             neg_edge_label_index=neg_edge_mask,
-            node_hash=data.node_hash
+            node_hash=data.get('node_hash')
         )
 
     def __repr__(self):
-- 
2.43.0


From 7280e0dfa320d571dffb44a139ad41b4779bac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 065/104] fix: note offs of the one-hot encoding

---
 neural_graph_composer/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/utils.py b/neural_graph_composer/utils.py
index c608f2e..3a8d212 100644
--- a/neural_graph_composer/utils.py
+++ b/neural_graph_composer/utils.py
@@ -48,13 +48,15 @@ def pretty_midi_to_one_hot(pm, fs=100):
 
     for instrument in pm.instruments:
         one_hot = np.zeros((128, int(fs * instrument.get_end_time()) + 1))
+        for note in instrument.notes:
+            # note off
+            one_hot[note.pitch, int(note.end * fs)] = -1
+            print('note off', note.pitch, int(note.end * fs))
+        # a note on is kept where another note of the pitch ends
         for note in instrument.notes:
             # note on
             one_hot[note.pitch, int(note.start * fs)] = 1
             print('note on', note.pitch, int(note.start * fs))
-            # note off
-            one_hot[note.pitch, int(note.end * fs)] = 0
-            print('note off', note.pitch, int(note.end * fs))
         one_hots.append(one_hot)
 
     one_hot = np.zeros((128, np.max([o.shape[1] for o in one_hots])))
-- 
2.43.0


From ac1888ce065323a18a1d8d7448fb60d36e324e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:14 +0000
Subject: [PATCH 066/104] fix: beats after a time signature change used a tempo
 that is not yet in force

---
 neural_graph_composer/custom_pretty_midi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index cb24add..bb9dd2f 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -689,6 +689,10 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                     ts_idx += 1
                     # Update the current bpm
                     bpm = get_current_bpm()
+            # A beat cut short by a time signature change did not get to the
+            # tempo changes after it
+            while tempo_idx > 0 and tempo_change_times[tempo_idx] > next_beat:
+                tempo_idx -= 1
             beats.append(next_beat)
         # The last beat will pass the end_time barrier, so don't include it
         beats = np.array(beats[:-1])
-- 
2.43.0


From b41b459178565d3ade259dd6b04d3f96fe504ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:14 +0000
Subject: [PATCH 067/104] fix: time signatures at one time gave the same beat
 twice

---
 neural_graph_composer/custom_pretty_midi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index bb9dd2f..88a1ec1 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -685,8 +685,12 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                 if gt_or_close(next_beat, next_ts_time):
                     # Set the next beat to the time signature change time
                     next_beat = next_ts_time
-                    # Update the time signature index
+                    # Update the time signature index, the last of several
+                    # signatures at one time is in force
                     ts_idx += 1
+                    while (ts_idx < len(self.time_signature_changes) - 1 and
+                           self.time_signature_changes[ts_idx + 1].time <= next_ts_time):
+                        ts_idx += 1
                     # Update the current bpm
                     bpm = get_current_bpm()
             # A beat cut short by a time signature change did not get to the
-- 
2.43.0


From 7f495c4f94f5f96b67b1c257a5bfbbe4ab4b8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:14 +0000
Subject: [PATCH 068/104] fix: a time signature at the end of a piece changed
 the downbeats before it

---
 neural_graph_composer/custom_pretty_midi.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 88a1ec1..6453707 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -799,10 +799,13 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         end_beat_idx = 0
         # Iterate over spans of time signatures
         for start_ts, end_ts in zip(time_signatures[:-1], time_signatures[1:]):
-            # Get index of first beat at start_ts.time, or else use first beat
-            start_beat_idx = index(beats, start_ts.time, 0)
-            # Get index of first beat at end_ts.time, or else use last beat
-            end_beat_idx = index(beats, end_ts.time, start_beat_idx)
+            # Get index of first beat at start_ts.time, or else go on from the
+            # end of the span before
+            start_beat_idx = index(beats, start_ts.time, end_beat_idx)
+            # Get index of first beat at end_ts.time.  A signature at the end of
+            # the piece has no beat, so the span takes all beats that are left
+            end_beat_idx = index(beats, end_ts.time,
+                                 start_beat_idx if end_ts.time < start_time else len(beats))
             # Add beats within this time signature range, skipping beats
             # according to the current time signature
             if start_ts.numerator % 3 == 0 and start_ts.numerator != 3:
-- 
2.43.0


From 321d26f1514d8b12a9f1fe2b549b68c3c9541deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:18 +0000
Subject: [PATCH 069/104] fix: the normalized transition matrix was nan with an
 instrument without transitions

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 6453707..0376dbb 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -926,7 +926,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         """
         # Sum up all matrices from all instruments defaulting zeros matrix
         pc_trans_mat = sum(
-            [i.get_pitch_class_transition_matrix(normalize, time_thresh)
+            [i.get_pitch_class_transition_matrix(False, time_thresh)
              for i in self.instruments], np.zeros((12, 12)))
 
         # Normalize accordingly
-- 
2.43.0


From 885896a9f94d5b3f6e43f46171f768c07df2bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 070/104] fix: chords named for a scale were not those whose
 notes lie in it

---
 neural_graph_composer/midi/midi_scales.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index f397709..4ed5b72 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -854,8 +854,9 @@ class MusicTheory:
 
         scale_notes = MusicTheory.notes_from_scale(root_note, scale_name)
         chords = []
-        for chord_name, chord_intervals in MusicTheory.chord_intervals.items():
-            chord_notes = [scale_notes[interval % len(scale_notes)] for interval in chord_intervals]
+        for chord_name, chord_intervals in MusicTheory.chord_intervals_mapping.items():
+            chord_pitches = MusicTheory.chord_pitch_from_interval(root_note, chord_intervals)
+            chord_notes = [MusicTheory.pitch_names[pitch % 12] for pitch in chord_pitches]
             if set(chord_notes).issubset(set(scale_notes)):
                 chord = root_note + chord_name
                 chords.append(chord)
-- 
2.43.0


From e501cb5d07bdebec558e146d595efa14d0532028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 071/104] fix: frequency of a pitch name and octave was not
 that of the pitch

---
 neural_graph_composer/midi/midi_note.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index f10061b..71ecfcb 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -755,7 +755,8 @@ class MidiNote(MidiEvent):
         >>> MusicNote.pitch_to_freq('F#', 5)
         739.988845423269
         """
-        semitones_above_a4 = (octave - 4) * SEMITONES_PER_OCTAVE + PITCH_FREQUENCIES[pitch]
+        semitones_above_a4 = ((octave - 4) * SEMITONES_PER_OCTAVE
+                              + PITCH_FREQUENCIES[pitch] - PITCH_FREQUENCIES['A'])
         return MidiNote.note_to_freq(REFERENCE_NOTE + semitones_above_a4)
 
     @staticmethod
-- 
2.43.0


From aaff89bbfcf3650bf9de36da0a7eb9722c3098c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 072/104] fix: datasets with other filter or split settings in
 one folder reused each other's files

---
 neural_graph_composer/midi_dataset.py | 37 ++++++++++++---------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index c6fc790..1789d51 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -377,14 +377,20 @@ class MidiDataset(InMemoryDataset):
         """
         :return:
         """
-        return [f'per_instrument_'
-                f'vel_{self.include_velocity}_'
-                f'feature_size_{self.feature_vec_size}_'
-                f'tolerance_{str(self.tolerance)}.pt',
-                f'data_'
-                f'vel_{self.include_velocity}_'
-                f'feature_size_{self.feature_vec_size}_'
-                f'tolerance_{str(self.tolerance)}.pt']
+        settings = (f'vel_{self.include_velocity}_'
+                    f'feature_size_{self.feature_vec_size}_'
+                    f'tolerance_{str(self.tolerance)}')
+        # settings other than default have files of their own.
+        if self.filter_single_notes:
+            settings += '_filter_single_notes'
+        if not self._remove_label:
+            settings += '_label'
+        if not self._do_split_mask:
+            settings += '_no_split'
+        elif (self.__train_ratio, self.__val_ratio) != (0.7, 0.15):
+            settings += f'_split_{self.__train_ratio}_{self.__val_ratio}'
+
+        return [f'per_instrument_{settings}.pt', f'data_{settings}.pt']
 
     def compute_statistics(self):
         """
@@ -589,12 +595,7 @@ class MidiDataset(InMemoryDataset):
         _dataset_length = len(self.__data_list)
         print(f"Saving {self.processed_dir} per_instrument_data.pt")
         self._save((_data, _slices, additional_data),
-                   osp.join(self.processed_dir,
-                            f'per_instrument_'
-                            f'vel_{self.include_velocity}_'
-                            f'feature_size_{self.feature_vec_size}_'
-                            f'tolerance_{str(self.tolerance)}.pt')
-                   )
+                   osp.join(self.processed_dir, self.processed_file_names[0]))
         del self.__data_list
         self.__data_list = None
         # self._graph_builder = None
@@ -614,13 +615,7 @@ class MidiDataset(InMemoryDataset):
 
         print(f"Saving {self.processed_dir} data.pt")
         self._save((_data, _slices, additional_data),
-                   osp.join(
-                       self.processed_dir,
-                       f'data_'
-                       f'vel_{self.include_velocity}_'
-                       f'feature_size_{self.feature_vec_size}_'
-                       f'tolerance_{str(self.tolerance)}.pt'
-                   ))
+                   osp.join(self.processed_dir, self.processed_file_names[1]))
         del self.__data_list
         self.__data_list = None
 
-- 
2.43.0


From 16c2a857e2db67b570b20a83d8340b5f3a34c805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:58 +0000
Subject: [PATCH 073/104] fix: an interrupted save of a checkpoint made later
 runs fail

---
 ngc_shared.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 31c1de0..a2aa985 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -205,11 +205,14 @@ class Experiments:
             os.makedirs(checkpoint_dir)
         checkpoint_path = os.path.join(checkpoint_dir, f"checkpoint_{epoch}.pt")
 
+        # load takes any checkpoint that is present, hence it appears
+        # under its name only once it is complete.
         torch.save({
             'epoch': epoch,
             'model_state_dict': self.model.state_dict(),
             'optimizer_state_dict': optimizer_state
-        }, checkpoint_path)
+        }, checkpoint_path + '.tmp')
+        os.replace(checkpoint_path + '.tmp', checkpoint_path)
 
     def load_checkpoint(self, model_type: str, checkpoint_dir: str = 'checkpoints'):
         """Loads the last saved checkpoint from a given directory.
-- 
2.43.0


From a92536543060282f86fbd11fa9ab5c8c83401748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 074/104] fix: checkpoints of a model whose name has brackets
 were not found

---
 ngc_shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index a2aa985..c393216 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -227,7 +227,7 @@ class Experiments:
             print(f"Checkpoint directory {checkpoint_dir} does not exist.")
             return
 
-        checkpoint_files = glob.glob(os.path.join(checkpoint_dir, "*.pt"))
+        checkpoint_files = glob.glob(os.path.join(glob.escape(checkpoint_dir), "*.pt"))
         metrics_files = sorted(glob.glob(os.path.join(self.metrics_dir, f"{model_type}*.pt")))
         if not checkpoint_files:
             print("No checkpoints found.")
-- 
2.43.0


From 614666228808d7ddb12232431a28c10694da5a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 075/104] fix: training and test metrics were saved as those of
 validation

---
 ngc_shared.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index c393216..1e01073 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -300,10 +300,10 @@ class Experiments:
 
         if self.save_metrics and self.metrics_rate and self.current_epoch % self.metrics_rate == 0:
             metrics = {
-                'test_accs': self.val_accs,
-                'tet_f1s': self.val_f1s,
-                'test_precisions': self.val_precisions,
-                'test_recalls': self.val_recalls,
+                'test_accs': self.test_accs,
+                'test_f1s': self.test_f1s,
+                'test_precisions': self.test_precisions,
+                'test_recalls': self.test_recalls,
                 'test_aucs': self.test_aucs,
                 'test_aps': self.test_aps,
             }
@@ -347,10 +347,11 @@ class Experiments:
                 if not os.path.exists(self.metrics_dir):
                     os.makedirs(self.metrics_dir)
             metrics = {
-                'test_accs': self.val_accs,
-                'tet_f1s': self.val_f1s,
-                'test_precisions': self.val_precisions,
-                'test_recalls': self.val_recalls
+                'train_losses': self.train_losses,
+                'train_accs': self.train_accs,
+                'train_f1s': self.train_f1s,
+                'train_precisions': self.train_precisions,
+                'train_recalls': self.train_recalls
             }
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_train_metrics.pt")
             torch.save(metrics, filename)
-- 
2.43.0


From 85755a289a62120f63cab55488a157319e3a12a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 076/104] fix: metrics saved by an earlier run were not found
 when it was resumed

---
 ngc_shared.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 1e01073..85a1423 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -228,7 +228,8 @@ class Experiments:
             return
 
         checkpoint_files = glob.glob(os.path.join(glob.escape(checkpoint_dir), "*.pt"))
-        metrics_files = sorted(glob.glob(os.path.join(self.metrics_dir, f"{model_type}*.pt")))
+        metrics_files = [os.path.basename(f) for f in glob.glob(
+            os.path.join(glob.escape(self.metrics_dir), "*_metrics.pt"))]
         if not checkpoint_files:
             print("No checkpoints found.")
             return
@@ -245,11 +246,11 @@ class Experiments:
         if self.save_metrics and f"{model_type}_train_metrics.pt" in metrics_files:
             train_metrics = torch.load(os.path.join(self.metrics_dir, f"{model_type}_train_metrics.pt"))
             print(f"Loaded test metric from {train_metrics}.")
-            self.train_losses = train_metrics["train_losses"]
-            self.train_accs = train_metrics["train_accs"]
-            self.train_f1s = train_metrics["train_f1s"]
-            self.train_precisions = train_metrics["train_precisions"]
-            self.train_recalls = train_metrics["train_recalls"]
+            self.train_losses = train_metrics.get("train_losses", [])
+            self.train_accs = train_metrics.get("train_accs", [])
+            self.train_f1s = train_metrics.get("train_f1s", [])
+            self.train_precisions = train_metrics.get("train_precisions", [])
+            self.train_recalls = train_metrics.get("train_recalls", [])
         if self.save_metrics and f"{model_type}_validation_metrics.pt" in metrics_files:
             val_metrics = torch.load(os.path.join(self.metrics_dir, f"{model_type}_validation_metrics.pt"))
             print(f"Loaded test metric from {val_metrics}.")
@@ -261,9 +262,11 @@ class Experiments:
             test_metrics = torch.load(os.path.join(self.metrics_dir, f"{model_type}_test_metrics.pt"))
             print(f"Loaded test metric from {test_metrics}.")
             self.test_accs = test_metrics["test_accs"]
-            self.test_f1s = test_metrics["test_f1s"]
+            self.test_f1s = test_metrics.get("test_f1s", [])
             self.test_precisions = test_metrics["test_precisions"]
             self.test_recalls = test_metrics["test_recalls"]
+            self.test_aucs = test_metrics.get("test_aucs", [])
+            self.test_aps = test_metrics.get("test_aps", [])
 
         print(f"Loaded checkpoint from {checkpoint_path}.")
 
-- 
2.43.0


From 80166cc8404425c673ae32994638b1d0efd907c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:37 +0000
Subject: [PATCH 077/104] fix: an interrupted save of metrics made later runs
 fail

---
 ngc_shared.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 85a1423..e72ce7c 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -314,7 +314,9 @@ class Experiments:
                 if not os.path.exists(self.metrics_dir):
                     os.makedirs(self.metrics_dir)
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_test_metrics.pt")
-            torch.save(metrics, filename)
+            # resumed runs load it, hence it appears only once it is complete.
+            torch.save(metrics, filename + '.tmp')
+            os.replace(filename + '.tmp', filename)
 
     def update_metrics(self, loss_avg: float,
                        train_f1: Optional[float] = None,
@@ -357,7 +359,9 @@ class Experiments:
                 'train_recalls': self.train_recalls
             }
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_train_metrics.pt")
-            torch.save(metrics, filename)
+            # resumed runs load it, hence it appears only once it is complete.
+            torch.save(metrics, filename + '.tmp')
+            os.replace(filename + '.tmp', filename)
 
     def update_val_metric(self, val_acc, val_f1, val_precision, val_recall):
         """ Update validation metrics.
@@ -380,7 +384,9 @@ class Experiments:
                 'val_recalls': self.val_recalls
             }
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_validation_metrics.pt")
-            torch.save(metrics, filename)
+            # resumed runs load it, hence it appears only once it is complete.
+            torch.save(metrics, filename + '.tmp')
+            os.replace(filename + '.tmp', filename)
 
     def split(self, ds):
         """
-- 
2.43.0


From c3f0262f84392580471d6d4c12f18ca8c601557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 078/104] fix: nodes removed from a graph left edges, weights
 and labels of other nodes

---
 ngc_shared.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index e72ce7c..19294ac 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -415,8 +415,10 @@ class Experiments:
         nodes_to_remove = np.random.choice(data.num_nodes, num_nodes_to_remove, replace=False)
         mask = torch.ones(data.num_nodes, dtype=torch.bool)
         mask[nodes_to_remove] = False
-        data.x = data.x[mask]
-        data.edge_index = data.edge_index[:, mask[data.edge_index[0]] & mask[data.edge_index[1]]]
+        # whatever belongs to a node or an edge goes with it,
+        # and edges refer to the kept nodes by their new positions.
+        for key, value in data.subgraph(mask):
+            data[key] = value
         return data
 
     def dataset_split_mask(self, split_mask_ration=0.8):
-- 
2.43.0


From a6d701a3b3485134ba73f5708637693e9f7de64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 079/104] fix: half-open intervals contained no point and
 overlapped nothing

---
 neural_graph_composer/interval/interval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/interval/interval.py b/neural_graph_composer/interval/interval.py
index 7f8551b..2d22063 100644
--- a/neural_graph_composer/interval/interval.py
+++ b/neural_graph_composer/interval/interval.py
@@ -50,7 +50,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :rtype: bool
         """
         if end is not None:
-            return math.isclose(begin, self.end) and end > self.begin
+            return begin < self.end and end > self.begin
         try:
             return self.overlaps(begin.begin, begin.end)
         except:
@@ -83,7 +83,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :return: True or False
         :rtype: bool
         """
-        return math.isclose(self.begin, p) and math.isclose(p, self.end)
+        return self.begin <= p < self.end
 
     def range_matches(self, other):
         """Whether the begins equal and the ends equal. Compare __eq__().
@@ -234,7 +234,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :rtype: bool
         """
         self._raise_if_null(other)
-        return math.isclose(self.end, getattr(other, 'end', other))
+        return self.end <= getattr(other, 'end', other)
 
     def gt(self, other):
         """Strictly greater than. Returns True if no part of this Interval
-- 
2.43.0


From 005f6459687bed655b3a130215c85a9cd77df3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 080/104] fix: the nodes of the interval tree put and sought
 intervals by closeness of ends

---
 neural_graph_composer/interval/node.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/neural_graph_composer/interval/node.py b/neural_graph_composer/interval/node.py
index 650d026..9c39ce9 100644
--- a/neural_graph_composer/interval/node.py
+++ b/neural_graph_composer/interval/node.py
@@ -107,10 +107,9 @@ class Node(object):
         s_left = []
         s_right = []
         for k in intervals:
-            math.isclose(k.end, self.x_center)
             if k.begin > self.x_center:
                 s_right.append(k)
-            elif math.isclose(k.end, self.x_center):
+            elif k.end <= self.x_center:
                 s_left.append(k)
             else:
                 self.s_center.add(k)
@@ -317,14 +316,14 @@ class Node(object):
             self.search_point(j, result)
         return result
 
-    def search_point(self, point: FloatInterval, result: set):
+    def search_point(self, point: float, result: set):
         """
         Returns all intervals that contain point.
         """
         for k in self.s_center:
-            if point.isclose(k.begin) and point.isclose(k.end):
+            if k.begin <= point < k.end:
                 result.add(k)
-        if point.isclose(self.x_center) and self[0]:
+        if point < self.x_center and self[0]:
             return self[0].search_point(point, result)
         elif point > self.x_center and self[1]:
             return self[1].search_point(point, result)
@@ -480,7 +479,7 @@ class Node(object):
         assert (isinstance(self.s_center, set))
 
         bal = self.balance
-        assert math.isclose(abs(bal), 2.0), \
+        assert abs(bal) < 2, \
             "Error: Rotation should have happened, but didn't! \n{}".format(
                 self.print_structure(tostring=True)
             )
@@ -497,7 +496,7 @@ class Node(object):
         for iv in self.s_center:
             assert hasattr(iv, 'begin')
             assert hasattr(iv, 'end')
-            assert math.isclose(iv.begin < iv.end)
+            assert iv.begin < iv.end
             assert iv.overlaps(self.x_center)
             for parent in sorted(parents):
                 assert not iv.contains_point(parent), \
@@ -505,7 +504,7 @@ class Node(object):
                         parent, iv, self.print_structure(tostring=True)
                     )
         if self[0]:
-            assert math.isclose(self[0].x_center, self.x_center), \
+            assert self[0].x_center < self.x_center, \
                 "Error: Out-of-order left child! {}".format(self.x_center)
             self[0].verify(parents.union([self.x_center]))
         if self[1]:
-- 
2.43.0


From 23edf064b6cbad25d7b83c3100a96eba1b6b268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 081/104] fix: the interval tree used names of its classes that
 do not exist

---
 neural_graph_composer/interval/intervaltree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neural_graph_composer/interval/intervaltree.py b/neural_graph_composer/interval/intervaltree.py
index 1596756..b68906e 100644
--- a/neural_graph_composer/interval/intervaltree.py
+++ b/neural_graph_composer/interval/intervaltree.py
@@ -29,6 +29,7 @@ mbayramo@stanford.edu
 spyroot@gmail.com
 """
 from .interval import FloatInterval
+from .interval import FloatInterval as Interval
 from .node import Node
 from numbers import Number
 from sortedcontainers import SortedDict
@@ -1144,3 +1145,7 @@ class FloatIntervalTree(MutableSet):
         :rtype: tuple
         """
         return IntervalTree, (sorted(self.all_intervals),)
+
+
+IntervalTree = FloatIntervalTree
+
-- 
2.43.0


From f65e0f43ac0ea63eb6eabd6c834cd7bfc3987275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 082/104] fix: asking for the pitches of a track reordered its
 notes

---
 neural_graph_composer/midi/midi_sequence.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index df0c1e4..1f08ff9 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -350,8 +350,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         :return: list of ints
         """
         if self.notes:
-            self.notes.sort(key=lambda n: n.start_time)
-            return [n.pitch for n in self.notes]
+            return [n.pitch for n in sorted(self.notes, key=lambda n: n.start_time)]
         return []
 
     def add_note(self, note: MidiNote) -> None:
-- 
2.43.0


From ec2da70355a3525777d648f07514b7c95343142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 083/104] fix: computing split intervals emptied the notes it
 was given

---
 neural_graph_composer/midi/midi_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 1f08ff9..64f92e6 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -446,6 +446,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         intervals = [0.0]  # start with 0 as the first interval
         notes_in_span = []
+        seq_sorted_by_time = list(seq_sorted_by_time)
 
         for split_point in num_splits:
             # update list of notes in current span
-- 
2.43.0


From 191b0a018a1a758baa1e21d39472af051a80bf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:34 +0000
Subject: [PATCH 084/104] fix: gaps between onsets were pooled with the
 shortest pool, not the nearest

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 0376dbb..1601279 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -552,7 +552,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         for interval in ioi:
             # If this ioi falls within a cluster (threshold is 25ms)
             if (np.abs(clusters - interval) < .025).any():
-                k = np.argmin(clusters - interval)
+                k = np.argmin(np.abs(clusters - interval))
                 # Update cluster mean
                 clusters[k] = (cluster_counts[k] * clusters[k] +
                                interval) / (cluster_counts[k] + 1)
-- 
2.43.0


From 8330cdfed4458c14839e70896df3c634929afa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:34 +0000
Subject: [PATCH 085/104] fix: one start of the beat more than asked for was
 tried

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 1601279..89f4fc4 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -729,7 +729,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         start_times = []
         onset_index = 0
         # Try the first 10 (unique) onsets as beat tracking start locations
-        while (len(beat_candidates) <= candidates and
+        while (len(beat_candidates) < candidates and
                len(beat_candidates) <= len(note_list) and
                onset_index < len(note_list)):
             # Make sure we are using a new start location
-- 
2.43.0


From d845033a002727c99a3b2381a6a0a99192f98c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:34 +0000
Subject: [PATCH 086/104] fix: a beat close to the start of a piece made the
 estimate of its start fail

---
 neural_graph_composer/custom_pretty_midi.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 89f4fc4..3fafd61 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -751,9 +751,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
             beat_signal = np.zeros(int(fs * (self.get_end_time() + 1)))
             for beat in np.append(0, beats):
                 if beat - tolerance < 0:
-                    beat_window = np.ones(
-                        int(fs * 2 * tolerance + (beat - tolerance) * fs))
-                    beat_signal[:int((beat + tolerance) * fs)] = beat_window
+                    beat_signal[:int((beat + tolerance) * fs)] = 1.
                 else:
                     beat_start = int((beat - tolerance) * fs)
                     beat_end = beat_start + int(fs * tolerance * 2)
-- 
2.43.0


From 9369cfce3682f531dd5e2c0bbd9fd7bf842f4b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:34 +0000
Subject: [PATCH 087/104] fix: a piece without sound was synthesized as
 not-a-number

---
 neural_graph_composer/custom_pretty_midi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 3fafd61..79af95d 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -987,8 +987,9 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         # Sum all waveforms in
         for waveform in waveforms:
             synthesized[:waveform.shape[0]] += waveform
-        # Normalize
-        synthesized /= np.abs(synthesized).max()
+        # Normalize, unless nothing sounds
+        if synthesized.any():
+            synthesized /= np.abs(synthesized).max()
         return synthesized
 
     def fluidsynth(self, fs=44100, sf2_path=None):
-- 
2.43.0


From af7f32e0b0483016b135eb0b0dc2da5b3d91ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:34 +0000
Subject: [PATCH 088/104] fix: a piece could not be made from a file by its own
 reader

---
 neural_graph_composer/midi/midi_sequences.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 74905c1..0873ef9 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -185,6 +185,11 @@ class MidiNoteSequences:
         except Exception as e:
             raise ValueError(f"Unable to load file {file_path}") from e
 
+        # a reader gives a whole piece, or tracks
+        if isinstance(midi_data, MidiNoteSequences):
+            midi_data.filename = file_path
+            return midi_data
+
         return cls(filename=file_path, midi_seq=midi_data)
 
     def __getitem__(self, track_idx: int) -> MidiNoteSequence:
-- 
2.43.0


From f12e0b4f0e0eefda5a64776ae063430432d7d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:34 +0000
Subject: [PATCH 089/104] fix: statistics of a dataset failed on every dataset

---
 neural_graph_composer/midi_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 1789d51..2df5f04 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -400,7 +400,7 @@ class MidiDataset(InMemoryDataset):
         for data in self:
             num_nodes += data.num_nodes
             num_edges += data.num_edges
-            num_labels += torch.unique(data.label).size(0)
+            num_labels += torch.unique(data.y).size(0)
 
         return {
             "num_nodes": num_nodes,
-- 
2.43.0


From 3e1576b76e08a74a7e267d0a3574e57824c0f6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:34 +0000
Subject: [PATCH 090/104] fix: asking for edge weights read an attribute that
 does not exist

---
 neural_graph_composer/midi_dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 2df5f04..f0f121b 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -415,13 +415,15 @@ class MidiDataset(InMemoryDataset):
         """
         return len(self.index_to_hash)
 
+    @staticmethod
     def has_edge_weights(pyg_data, default_key="edge_attr"):
         """
+        :param pyg_data:
         :param default_key:
         :return:
         """
-        return hasattr(pyg_data, default_key) \
-            and pyg_data.edge_attr is not None and pyg_data.weight.size(0) > 0
+        weights = getattr(pyg_data, default_key, None)
+        return weights is not None and weights.size(0) > 0
 
     def download(self):
         """ Downloads the MIDI files from the given URL and extracts them to the `raw_dir`.
-- 
2.43.0


From f4a2d78b5af7292990c89a0c2d5925c3c02cc8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:20 +0000
Subject: [PATCH 091/104] fix: entries of the controller table could be equal
 and unequal at once

---
 neural_graph_composer/midi/midi_control_change.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index c819c24..1eddb03 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -51,9 +51,6 @@ class MidiBaseControlChange:
     def __lt__(self, other):
         return self.cc_number < other.cc_number
 
-    def __ne__(self, other):
-        return self.cc_number != other.cc_number
-
     def __repr__(self) -> str:
         return f"MidiBaseControlChange(cc_number={self.cc_number}, description='{self.description}', " \
                f"cc_min={self.cc_min}, cc_max={self.cc_max}, is_onoff={self.is_onoff})"
-- 
2.43.0


From 4c66bb01f6b1d92d83b4ebaec6da97384371dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:20 +0000
Subject: [PATCH 092/104] fix: a piece whose download broke off counted as
 downloaded

---
 neural_graph_composer/midi_dataset.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index f0f121b..cbf4f4f 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -457,7 +457,14 @@ class MidiDataset(InMemoryDataset):
         else:
             for raw_file in self.raw_file_names:
                 logging.debug(f"Downloading {raw_file}")
-                path = download_url(f"{self.__url}/{raw_file}", self.raw_dir)
+                path = osp.join(self.raw_dir, raw_file)
+                if not osp.exists(path):
+                    # a file that is present counts as downloaded
+                    part = path + '.tmp'
+                    if osp.exists(part):
+                        os.remove(part)
+                    download_url(f"{self.__url}/{raw_file}", self.raw_dir, filename=raw_file + '.tmp')
+                    os.replace(part, path)
                 if raw_file.endswith(".zip"):
                     extract_zip(path, self.raw_dir)
                 if raw_file.endswith(".tar"):
-- 
2.43.0


From d0f76b0d9e5707b41bd915b20c9182ebc9c1fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:20 +0000
Subject: [PATCH 093/104] fix: pieces with special characters in their names
 could not be downloaded

---
 neural_graph_composer/midi_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index cbf4f4f..61fcb8e 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -7,6 +7,7 @@ import shutil
 import warnings
 from typing import Optional, List, Dict, Callable
 from pathlib import Path
+from urllib.parse import quote
 
 import numpy as np
 import torch
@@ -463,7 +464,7 @@ class MidiDataset(InMemoryDataset):
                     part = path + '.tmp'
                     if osp.exists(part):
                         os.remove(part)
-                    download_url(f"{self.__url}/{raw_file}", self.raw_dir, filename=raw_file + '.tmp')
+                    download_url(f"{self.__url}/{quote(raw_file)}", self.raw_dir, filename=raw_file + '.tmp')
                     os.replace(part, path)
                 if raw_file.endswith(".zip"):
                     extract_zip(path, self.raw_dir)
-- 
2.43.0


From 5dafc7b2c9dce611bc9b2775f3be741962dd80a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 094/104] fix: tempos, drums and text were changed when a piece
 was saved

---
 neural_graph_composer/custom_pretty_midi.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 79af95d..a3c5e47 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -1329,6 +1329,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                 'time_signature': lambda e: (2 * 256 * 256),
                 'key_signature': lambda e: (3 * 256 * 256),
                 'lyrics': lambda e: (4 * 256 * 256),
+                'text': lambda e: (4 * 256 * 256),
                 'program_change': lambda e: (5 * 256 * 256),
                 'pitchwheel': lambda e: ((6 * 256 * 256) + e.pitch),
                 'control_change': lambda e: ((7 * 256 * 256) + (e.control * 256) + e.value),
@@ -1374,7 +1375,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         for (tick, tick_scale) in self._tick_scales:
             timing_track.append(mido.MetaMessage(
                 'set_tempo', time=tick,
-                tempo=int(6e7 / (60. / (tick_scale * self.resolution)))))
+                tempo=int(round(6e7 / (60. / (tick_scale * self.resolution))))))
 
         # Add in each time signature
         for ts in self.time_signature_changes:
@@ -1399,6 +1400,12 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                                                  time=self.time_to_tick(l.time),
                                                  text=l.text))
 
+        # Add in all text events
+        for l in getattr(self, "text_events", []):
+            timing_track.append(mido.MetaMessage('text',
+                                                 time=self.time_to_tick(l.time),
+                                                 text=l.text))
+
         # Sort the (absolute-tick-timed) events.
         timing_track.sort(key=functools.cmp_to_key(event_compare))
         # Add in an end of track event
@@ -1476,3 +1483,14 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                 tick += event.time
 
         return mido_file
+
+    def write(self, filename):
+        """Write what serialize returns to a MIDI file.
+        :param filename: path to a file or a file object to write to.
+        :return:
+        """
+        mido_file = self.serialize()
+        if hasattr(filename, "write"):
+            mido_file.save(file=filename)
+        else:
+            mido_file.save(filename=filename)
-- 
2.43.0


From c6d3e244a727a95369a59aa63b8651962067e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 095/104] fix: a parsed file was changed by reading it

---
 neural_graph_composer/custom_pretty_midi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index a3c5e47..2a86ac8 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -85,7 +85,8 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         print(f"Loading midi from a file {midi_file}")
         # Load in the MIDI data using the midi module
         if isinstance(midi_file, mido.MidiFile):
-            midi_data = midi_file
+            # the ticks of the caller's events stay as they are
+            midi_data = copy.deepcopy(midi_file)
         elif isinstance(midi_file, six.string_types):
             # If a string was given, pass it as the string filename
             midi_data = mido.MidiFile(filename=midi_file)
-- 
2.43.0


From 22b775e9a63063775233fa9a01c2f8e93e4642f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 096/104] fix: serializing into a given file corrupted the
 tracks it has

---
 neural_graph_composer/custom_pretty_midi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 2a86ac8..de2d8ae 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -1351,6 +1351,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
 
         #  TODO added in case we want pass MIDI file
         #  and use mido file abstraction to send live.
+        given_tracks = 0 if mido_file is None else len(mido_file.tracks)
         if mido_file is None:
             mido_file = mido.MidiFile(ticks_per_beat=self.resolution)
         else:
@@ -1477,7 +1478,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
             mido_file.tracks.append(track)
 
         # Turn ticks to relative time from absolute
-        for track in mido_file.tracks:
+        for track in mido_file.tracks[given_tracks:]:
             tick = 0
             for event in track:
                 event.time -= tick
-- 
2.43.0


From 2b4c795f92d53718dbc28325ce981a85305d1877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 097/104] fix: drum events given to a track were ignored

---
 neural_graph_composer/midi/midi_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 64f92e6..94e968c 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -113,6 +113,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
         self._notes = [] if notes is None else [n for n in notes if not self.instrument.is_drum]
         self._drum_events = [] if notes is None else [n for n in notes if self.instrument.is_drum]
+        self._drum_events.extend(drum_events or [])
         # midi seq total time
         self.__total_time = max([n.end_time for n in self.notes], default=0.0)
 
-- 
2.43.0


From 9d2c7737afc30b08da5d5e2aae7c29f3eef14039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 098/104] fix: signature lists given to a piece were shared and
 kept unsorted

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 0873ef9..d39a14e 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -146,19 +146,19 @@ class MidiNoteSequences:
         if time_signatures is None:
             self.time_signatures = []
         else:
-            self.time_signatures = time_signatures
+            self.time_signatures = sorted(time_signatures, key=lambda x: x.midi_time)
 
         # list of key signature changes
         if key_signatures is None:
             self.key_signatures = []
         else:
-            self.key_signatures = key_signatures
+            self.key_signatures = sorted(key_signatures, key=lambda x: x.midi_time)
 
         # list of key signature changes
         if tempo_signatures is None:
             self.tempo_signatures = []
         else:
-            self.tempo_signatures = tempo_signatures
+            self.tempo_signatures = sorted(tempo_signatures, key=lambda x: x.midi_time)
         #
         self.resolution = resolution
 
-- 
2.43.0


From 39e4f50a569989e7cf64d7a5eedb4f8c37f9ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 099/104] fix: making a piece of tracks of one instrument
 changed the first of them

---
 neural_graph_composer/midi/midi_sequences.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index d39a14e..e527ef6 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -664,7 +664,10 @@ class MidiNoteSequences:
             instrument_program = midi_seq.instrument.instrument_num
             if instrument_program in self._track_to_idx:
                 existing_idx = self._track_to_idx[instrument_program]
-                self.__midi_seqs[existing_idx].merge(midi_seq)
+                # the tracks given stay as they are
+                merged = self.__midi_seqs[existing_idx].clone()
+                merged.merge(midi_seq)
+                self.__midi_seqs[existing_idx] = merged
             else:
                 self.__midi_seqs[instrument_program] = midi_seq
                 self._track_to_idx[instrument_program] = instrument_program
-- 
2.43.0


From 58ce91767dde99e10d860496f145388abfbe7786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 100/104] fix: a track made from notes shared the list of the
 caller

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 94e968c..eab0149 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -709,7 +709,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         :return: a MidiNoteSequence object
         """
         sequence = cls()
-        sequence.notes = notes
+        sequence.notes = list(notes)
         sequence._adjust_total_time()
         return sequence
 
-- 
2.43.0


From 1fa464d0a7a9b021c71ed34f0a069980170f3011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:27 +0000
Subject: [PATCH 101/104] fix: an interval tree can be taken away from itself

---
 neural_graph_composer/interval/intervaltree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/interval/intervaltree.py b/neural_graph_composer/interval/intervaltree.py
index b68906e..2b4fc44 100644
--- a/neural_graph_composer/interval/intervaltree.py
+++ b/neural_graph_composer/interval/intervaltree.py
@@ -379,7 +379,7 @@ class FloatIntervalTree(MutableSet):
         """
         Removes all intervals in other from self.
         """
-        for iv in other:
+        for iv in list(other):
             self.discard(iv)
 
     def union(self, other):
-- 
2.43.0


From 03c4d97a6fd6760e91b3de269ad82c50ecf90138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:31 +0000
Subject: [PATCH 102/104] fix: 'all' groups every node attribute of a converted
 graph

---
 neural_graph_composer/midi_graph_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 0c37ea6..a2c996d 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -258,6 +258,9 @@ class MidiGraphBuilder:
         else:
             node_attrs = {}
 
+        if group_node_attrs == 'all':
+            group_node_attrs = list(node_attrs)
+
         if midi_graph.number_of_edges() > 0:
             edge_attrs = list(next(iter(midi_graph.edges(data=True)))[-1].keys())
         else:
-- 
2.43.0


From 364fe660ad44f333800f01de0964e43bce6dd269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:49 +0000
Subject: [PATCH 103/104] fix: a quantized start on the grid stays there for
 notes shorter than a millisecond

---
 neural_graph_composer/midi/midi_note.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 71ecfcb..7e18cba 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -516,7 +516,9 @@ class MidiNote(MidiEvent):
         logging.debug(f"New3 self.quantized_start_step {self.quantized_start_step}")
         logging.debug(f"New new_end_time {new_end_time}")
 
-        new_start_time = max(0.0, min(new_start_time, self.end_time - 0.001))
+        # a start on the grid is kept as long as it lies before the end
+        if new_start_time >= self.end_time:
+            new_start_time = max(0.0, self.end_time - 0.001)
         new_end_time = max(0.0, min(new_end_time, 999999 - 0.001))
 
         duration = self.end_time - self.start_time
-- 
2.43.0


From 44b72f0f57f07290181c06f4f2773f41fc637b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:29 +0000
Subject: [PATCH 104/104] fix: beats per measure of a time signature are those
 documented

---
 neural_graph_composer/midi/midi_time_signature.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_time_signature.py b/neural_graph_composer/midi/midi_time_signature.py
index 9e3be73..79c8f45 100644
--- a/neural_graph_composer/midi/midi_time_signature.py
+++ b/neural_graph_composer/midi/midi_time_signature.py
@@ -254,7 +254,11 @@ class MidiTimeSignature(MidiSeq):
         if 2 ** denominator_pow != self.denominator:
             raise ValueError("Invalid time signature: denominator is not a negative power of 2")
 
-        return self.numerator * 2 ** (denominator_pow - 2)
+        # compound meters (6/8, 9/8, 12/8, ...) count groups of three
+        if self.denominator >= 8 and self.numerator > 3 and self.numerator % 3 == 0:
+            return self.numerator // 3
+
+        return self.numerator
 
     def __repr__(self):
         """
-- 
2.43.0

