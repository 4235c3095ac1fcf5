From 030efa40f6637f31d416594d2b803f277e7af2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:03 +0000
Subject: [PATCH 01/48] fix: stop parameter smoothers when the graph is cleared

Smoothers still running when a clear arrives refer to input indices of the
dropped program: process_smoothers() then panicked on the audio thread with
an index out of bounds, or kept overwriting an unrelated input of the graph
that was built afterwards.
---
 src/nodes/node_exec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index bd5d5aa..97fd992 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -212,6 +212,12 @@ impl NodeExecutor {
                         let _ = write!(w, "[dbg] Cleared graph ({} nodes)", self.prog.prog.len());
                     });
 
+                    // The running smoothers refer to inputs of the previous program:
+                    for sm in self.smoothers.iter_mut() {
+                        sm.1.stop();
+                    }
+                    self.target_refresh.clear();
+
                     let prev_prog = std::mem::replace(&mut self.prog, prog);
                     let _ = self.shared.graph_drop_prod.push(DropMsg::Prog { prog: prev_prog });
                 }
-- 
2.43.0


From a93f7848d169d365dc0d7cf2464bbda31176ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:03 +0000
Subject: [PATCH 02/48] fix: apply parameter changes when all smoothers are
 busy

With all 40 smoothers running, further parameter changes were dropped and
the audio side kept the old value forever.
---
 src/nodes/node_exec.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 97fd992..ea80e37 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -409,6 +409,13 @@ impl NodeExecutor {
             sm.1.set(prog.params[input_idx], value);
             //d// println!("SET SMOOTHER {} {:6.3} (old = {:6.3})",
             //d//          input_idx, value, prog.params[input_idx]);
+        } else {
+            // All smoothers are busy: jump to the new value instead of losing it.
+            prog.params[input_idx] = value;
+            prog.inp[input_idx].fill(value);
+            for refresh in self.target_refresh.iter_mut().filter(|r| r.0 == input_idx) {
+                refresh.1 = value;
+            }
         }
     }
 
-- 
2.43.0


From 0f6135aa101338c39f14c507aed0cbb4bc88bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:03 +0000
Subject: [PATCH 03/48] fix: off by one bounds check in mod_in_local2global

A cell with input index 32 made Matrix::sync() panic.
---
 src/nodes/node_conf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index b25fffa..fd9b46f 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -87,7 +87,7 @@ impl NodeInstance {
     }
 
     pub fn mod_in_local2global(&self, idx: u8) -> Option<usize> {
-        if (idx as usize) > self.in2mod_map.len() {
+        if (idx as usize) >= self.in2mod_map.len() {
             return None;
         }
         self.in2mod_map[idx as usize]
-- 
2.43.0


From 071cbc99349bd18344c35cdb2632d6c55bc39d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:03 +0000
Subject: [PATCH 04/48] fix: restore_matrix() also restores the assigned inputs

After a rejected change param_input_is_used() kept reporting the inputs of
the discarded layout.
---
 src/matrix.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9bd7215..8805932 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -671,6 +671,8 @@ impl Matrix {
     pub fn restore_matrix(&mut self) {
         if let Some(matrix) = self.saved_matrix.take() {
             self.matrix = matrix;
+            // Forget the edges and assigned inputs of the discarded layout:
+            self.update_graph_ordering_and_edges();
         }
     }
 
-- 
2.43.0


From 31347dee780e2ac19b87334a444603c3375a538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:44 +0000
Subject: [PATCH 05/48] fix: pattern length changes update all tracker columns

Value columns interpolate towards the last row. After set_rows() only the
first column was sent to the sequencer, the others kept playing the curve of
the old pattern length.
---
 src/dsp/tracker/pattern.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 4783f09..9557456 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -117,6 +117,11 @@ impl PatternData {
         }
     }
 
+    /// Marks all columns as modified, so all of them are sent to the backend again.
+    pub fn modified_all_cols(&mut self) {
+        self.dirty_col = [true; MAX_COLS];
+    }
+
     pub fn col_is_modified_reset(&mut self, col: usize) -> bool {
         if self.dirty_col.get(col).copied().unwrap_or(false) {
             self.dirty_col[col] = false;
@@ -357,7 +362,8 @@ impl UIPatternModel for PatternData {
 
     fn set_rows(&mut self, rows: usize) {
         self.rows = rows.min(self.data.len());
-        self.modified_col(0); // modify any col, so we send an update.
+        // The interpolated columns depend on the pattern length:
+        self.modified_all_cols();
         self.generation += 1;
     }
 
-- 
2.43.0


From 34f067a268ff16762b8622e9ccd3ee2dd2340b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:44 +0000
Subject: [PATCH 06/48] fix: a recreated tracker backend receives the complete
 pattern

When the TSeq node was created again (eg. after Matrix::clear()) the columns
already sent to the previous backend were never sent again, and the sequencer
played silence.
---
 src/dsp/tracker/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index ea8c745..9683732 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -117,6 +117,9 @@ impl Tracker {
             self.seq = Some(PatternSequencer::new(MAX_PATTERN_LEN));
             self.data_prod = prod;
             self.seq_cons = Some(con);
+
+            // The new backend knows nothing about the pattern yet:
+            self.data.lock().unwrap().modified_all_cols();
         }
 
         let seq = self.seq.take().unwrap();
-- 
2.43.0


From 033bd837cf1487ed3a3a14aec3cd6e4f583442f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:44 +0000
Subject: [PATCH 07/48] fix: keep tracker updates when the queue to the audio
 thread is full

send_one_update() reset the modified flag of the column even if the message
could not be queued, so the edit never reached the sequencer.
---
 src/dsp/tracker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index 9683732..e460743 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -87,6 +87,11 @@ impl Tracker {
     }
 
     pub fn send_one_update(&mut self) -> bool {
+        if self.data_prod.is_full() {
+            // Keep the column marked as modified until it can be sent.
+            return false;
+        }
+
         let mut data = self.data.lock().unwrap();
 
         for col in 0..MAX_COLS {
-- 
2.43.0


From 155c7ca5c2aab8a5f255dd407171aba7b95e9c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:44 +0000
Subject: [PATCH 08/48] fix: loading a pattern refreshes the displayed cells

get_cell() kept returning the cached text of the previous pattern.
---
 src/dsp/tracker/pattern.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 9557456..cbb039d 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -98,6 +98,7 @@ impl PatternData {
         for (row_idx, row) in repr.data.iter().enumerate() {
             for (col_idx, cell) in row.iter().enumerate() {
                 self.data[row_idx][col_idx] = if *cell < 0 { None } else { Some(*cell as u16) };
+                self.strings[row_idx][col_idx] = None;
             }
         }
 
-- 
2.43.0


From 68faa7885923e98ead5b11832592be38f8a93c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:02 +0000
Subject: [PATCH 09/48] fix: loading a patch resets patterns and block
 functions that are not part of it

---
 src/matrix.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 8805932..8de13de 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -2,7 +2,7 @@
 // This file is a part of HexoDSP. Released under GPL-3.0-or-later.
 // See README.md and COPYING for details.
 
-use crate::dsp::tracker::PatternData;
+use crate::dsp::tracker::{PatternData, MAX_PATTERN_LEN};
 use crate::dsp::{NodeId, NodeInfo, ParamId, SAtom};
 use crate::matrix_repr::*;
 pub use crate::monitor::MON_SIG_CNT;
@@ -927,18 +927,35 @@ impl Matrix {
             self.place(cell.x as usize, cell.y as usize, cell);
         }
 
-        for (tracker_id, pat) in repr.patterns.iter().enumerate() {
-            if let Some(pat) = pat {
+        // Patterns and block functions that are not part of the loaded patch
+        // are reset, so nothing of the previous patch is left.
+        for tracker_id in 0..repr.patterns.len().max(256) {
+            let pat = repr.patterns.get(tracker_id).and_then(|pat| pat.as_ref());
+
+            if pat.is_some() || self.has_tracker(tracker_id) {
                 if let Some(pd) = self.get_pattern_data(tracker_id) {
-                    pd.lock().unwrap().from_repr(pat);
+                    let mut pd = pd.lock().unwrap();
+                    if let Some(pat) = pat {
+                        pd.from_repr(pat);
+                    } else {
+                        pd.from_repr(&PatternData::new(MAX_PATTERN_LEN).to_repr());
+                    }
                 }
             }
         }
 
-        for (bf_id, block_fun) in repr.block_funs.iter().enumerate() {
-            if let Some(block_fun) = block_fun {
+        for bf_id in 0..repr.block_funs.len().max(256) {
+            let block_fun = repr.block_funs.get(bf_id).and_then(|bf| bf.as_ref());
+
+            if block_fun.is_some() || self.has_code_engine(bf_id) {
                 if let Some(bf) = self.get_block_function(bf_id) {
-                    bf.lock().unwrap().load_snapshot(block_fun);
+                    let mut bf = bf.lock().unwrap();
+                    if let Some(block_fun) = block_fun {
+                        bf.load_snapshot(block_fun);
+                    } else if !bf.is_unset() {
+                        let empty = BlockFun::new(bf.block_language()).save_snapshot();
+                        bf.load_snapshot(&empty);
+                    }
                 }
             }
         }
-- 
2.43.0


From 58509c4561c5a7f689478a550c7ff8f7559ccb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:02 +0000
Subject: [PATCH 10/48] fix: patterns and block functions of all instances are
 saved, not only of contiguous ones

---
 src/matrix.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 8de13de..2cd1aac 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -874,8 +874,11 @@ impl Matrix {
         });
 
         let mut patterns: Vec<Option<PatternRepr>> = vec![];
-        let mut tracker_id = 0;
-        while tracker_id < 128 || self.has_tracker(tracker_id) {
+        // The instance numbers of the used trackers and code engines don't need
+        // to be contiguous, so save everything up to the last one in use.
+        let tracker_count =
+            (128..256).rev().find(|id| self.has_tracker(*id)).map(|id| id + 1).unwrap_or(128);
+        for tracker_id in 0..tracker_count {
             if let Some(pdata) = self.get_pattern_data(tracker_id) {
                 patterns.push(if pdata.lock().unwrap().is_unset() {
                     None
@@ -883,13 +886,12 @@ impl Matrix {
                     Some(pdata.lock().unwrap().to_repr())
                 });
             }
-
-            tracker_id += 1;
         }
 
         let mut block_funs: Vec<Option<BlockFunSnapshot>> = vec![];
-        let mut bf_id = 0;
-        while bf_id < 32 || self.has_code_engine(bf_id) {
+        let bf_count =
+            (32..256).rev().find(|id| self.has_code_engine(*id)).map(|id| id + 1).unwrap_or(32);
+        for bf_id in 0..bf_count {
             if let Some(bf) = self.get_block_function(bf_id) {
                 block_funs.push(if bf.lock().unwrap().is_unset() {
                     None
@@ -897,8 +899,6 @@ impl Matrix {
                     Some(bf.lock().unwrap().save_snapshot())
                 });
             }
-
-            bf_id += 1;
         }
 
         let properties = self.properties.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
-- 
2.43.0


From 629c2ee7c690c68f967cf46ec73c05f87bbf265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:02 +0000
Subject: [PATCH 11/48] fix: save the modulation amount of parameters whose
 value was never set

---
 src/nodes/node_conf.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index fd9b46f..a274172 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -517,7 +517,7 @@ impl NodeConfigurator {
     /// Most useful for serialization and saving patches.
     #[allow(clippy::type_complexity)]
     pub fn dump_param_values(&self) -> (Vec<(ParamId, f32, Option<f32>)>, Vec<(ParamId, SAtom)>) {
-        let params: Vec<(ParamId, f32, Option<f32>)> = self
+        let mut params: Vec<(ParamId, f32, Option<f32>)> = self
             .param_values
             .iter()
             .map(|(param_id, value)| {
@@ -529,6 +529,13 @@ impl NodeConfigurator {
             })
             .collect();
 
+        // A modulation amount may be assigned to a parameter whose value was not set (yet):
+        for (param_id, modamt) in self.param_modamt.iter() {
+            if modamt.is_some() && !self.param_values.contains_key(param_id) {
+                params.push((*param_id, param_id.denorm(param_id.norm_def()), *modamt));
+            }
+        }
+
         let atoms: Vec<(ParamId, SAtom)> =
             self.atom_values.iter().map(|(param_id, value)| (*param_id, value.clone())).collect();
 
-- 
2.43.0


From 35eb82d38ea1f2a68de0c576641a8cc31bbf1b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:01 +0000
Subject: [PATCH 12/48] fix: pattern data in a damaged patch is bounds checked

---
 src/matrix_repr.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index c6146f8..c120fde 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -151,7 +151,7 @@ impl PatternRepr {
 
         let cts = &v["col_types"];
         if let Value::Array(cts) = cts {
-            for (i, ct) in cts.iter().enumerate() {
+            for (i, ct) in cts.iter().enumerate().take(MAX_COLS) {
                 col_types[i] = ct.as_i64().unwrap_or(0) as u8;
             }
         }
@@ -159,9 +159,9 @@ impl PatternRepr {
         let mut data = vec![vec![-1; MAX_COLS]; MAX_PATTERN_LEN];
         let dt = &v["data"];
         if let Value::Array(dt) = dt {
-            for (row_idx, row) in dt.iter().enumerate() {
+            for (row_idx, row) in dt.iter().enumerate().take(MAX_PATTERN_LEN) {
                 if let Value::Array(row) = row {
-                    for (col_idx, c) in row.iter().enumerate() {
+                    for (col_idx, c) in row.iter().enumerate().take(MAX_COLS) {
                         data[row_idx][col_idx] = c.as_i64().unwrap_or(-1) as i32;
                     }
                 }
@@ -171,7 +171,7 @@ impl PatternRepr {
         Ok(Self {
             col_types,
             data,
-            rows: v["rows"].as_i64().unwrap_or(0) as usize,
+            rows: v["rows"].as_i64().unwrap_or(0).clamp(0, MAX_PATTERN_LEN as i64) as usize,
             edit_step: v["edit_step"].as_i64().unwrap_or(0) as usize,
             cursor: (
                 v["cursor_row"].as_i64().unwrap_or(0) as usize,
-- 
2.43.0


From 38a2864436992bea7432317f2246f6e1b32d2812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:31 +0000
Subject: [PATCH 13/48] fix: block functions in a damaged patch are sanitized
 when loading

---
 src/wblockdsp/language.rs | 52 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 2efe7fe..17867be 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -11,6 +11,11 @@ use std::collections::VecDeque;
 
 use serde_json::{json, Value};
 
+/// Upper limit for the rows of a [Block], when loading it from a patch.
+const MAX_BLOCK_ROWS: i64 = 256;
+/// Limit for the coordinates inside a [BlockArea], when loading it from a patch.
+const MAX_AREA_COORD: i64 = 0xFFFF;
+
 pub trait BlockView {
     fn rows(&self) -> usize;
     fn contains(&self, idx: usize) -> Option<usize>;
@@ -240,7 +245,7 @@ impl Block {
 
         Ok(Box::new(Block {
             id: v["id"].as_i64().unwrap_or(0) as usize,
-            rows: v["rows"].as_i64().unwrap_or(0) as usize,
+            rows: v["rows"].as_i64().unwrap_or(1).clamp(1, MAX_BLOCK_ROWS) as usize,
             contains: (
                 if v["contains"][0].is_i64() {
                     Some(v["contains"][0].as_i64().unwrap_or(0) as usize)
@@ -926,15 +931,15 @@ impl BlockArea {
         let blks = &v["blocks"];
         if let Value::Array(blks) = blks {
             for b in blks.iter() {
-                let x = b["x"].as_i64().unwrap_or(0);
-                let y = b["y"].as_i64().unwrap_or(0);
+                let x = b["x"].as_i64().unwrap_or(0).clamp(-MAX_AREA_COORD, MAX_AREA_COORD);
+                let y = b["y"].as_i64().unwrap_or(0).clamp(-MAX_AREA_COORD, MAX_AREA_COORD);
                 blocks.insert((x, y), Block::deserialize(&b["block"])?);
             }
         }
 
         let size = (
-            v["size"][0].as_i64().unwrap_or(0) as usize,
-            v["size"][1].as_i64().unwrap_or(0) as usize,
+            v["size"][0].as_i64().unwrap_or(0).clamp(0, MAX_AREA_COORD) as usize,
+            v["size"][1].as_i64().unwrap_or(0).clamp(0, MAX_AREA_COORD) as usize,
         );
         let auto_shrink = v["auto_shrink"].as_bool().unwrap_or(true);
         let header = v["header"].as_str().unwrap_or("").to_string();
@@ -1145,11 +1150,46 @@ impl BlockFunSnapshot {
             }
         }
 
+        // The root area always needs to exist:
+        if a.is_empty() {
+            a.push(Box::new(BlockArea::new(16, 16)));
+        }
+
+        Self::drop_invalid_sub_areas(&mut a);
+
         Ok(BlockFunSnapshot {
             areas: a,
-            cur_id: v["current_block_id_counter"].as_i64().unwrap_or(0) as usize,
+            cur_id: v["current_block_id_counter"].as_i64().unwrap_or(0).max(0) as usize,
         })
     }
+
+    /// Drops references to sub areas, that don't exist, that are used by multiple
+    /// blocks or that would make an area contain itself.
+    fn drop_invalid_sub_areas(areas: &mut [Box<BlockArea>]) {
+        let mut parents: Vec<Option<usize>> = vec![None; areas.len()];
+
+        for area_id in 0..areas.len() {
+            for block in areas[area_id].blocks.values_mut() {
+                for sub_area in [&mut block.contains.0, &mut block.contains.1] {
+                    if let Some(id) = *sub_area {
+                        let mut valid = id > 0 && id < parents.len() && parents[id].is_none();
+
+                        let mut ancestor = Some(area_id);
+                        while let (true, Some(a_id)) = (valid, ancestor) {
+                            valid = a_id != id;
+                            ancestor = parents[a_id];
+                        }
+
+                        if valid {
+                            parents[id] = Some(area_id);
+                        } else {
+                            *sub_area = None;
+                        }
+                    }
+                }
+            }
+        }
+    }
 }
 
 #[derive(Debug, Clone)]
-- 
2.43.0


From 9bf4fe62a46d81d5f3f53e4d4a8383c9a97cada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:26 +0000
Subject: [PATCH 14/48] fix: ports that a node does not have are not connected
 when loading a patch

---
 src/matrix_repr.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index c120fde..b6300cb 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -25,20 +25,26 @@ fn deserialize_node_id(v: &Value, i1: usize, i2: usize) -> Result<NodeId, Matrix
 }
 
 fn inp2idx(node_id: NodeId, v: &Value) -> i16 {
-    let inp = v.as_i64().unwrap_or(-2) as i16;
-
-    if inp > -2 {
-        inp
+    if let Some(inp) = v.as_i64() {
+        // Ports that don't exist are treated as not connected:
+        u8::try_from(inp)
+            .ok()
+            .filter(|i| node_id.inp_name_by_idx(*i).and_then(|n| node_id.inp(n)) == Some(*i))
+            .map(|i| i as i16)
+            .unwrap_or(-1)
     } else {
         v.as_str().map(|s| node_id.inp(s).map(|i| i as i16).unwrap_or(-1)).unwrap_or(-1)
     }
 }
 
 fn out2idx(node_id: NodeId, v: &Value) -> i16 {
-    let out = v.as_i64().unwrap_or(-2) as i16;
-
-    if out > -2 {
-        out
+    if let Some(out) = v.as_i64() {
+        // Ports that don't exist are treated as not connected:
+        u8::try_from(out)
+            .ok()
+            .filter(|i| node_id.out_name_by_idx(*i).and_then(|n| node_id.out(n)) == Some(*i))
+            .map(|i| i as i16)
+            .unwrap_or(-1)
     } else {
         v.as_str().map(|s| node_id.out(s).map(|i| i as i16).unwrap_or(-1)).unwrap_or(-1)
     }
-- 
2.43.0


From b003573fc73f9dd92fd959e362abfad34c90ff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:26 +0000
Subject: [PATCH 15/48] fix: negative block colors in a damaged patch are not
 taken over

---
 src/wblockdsp/language.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 17867be..84543b4 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -263,7 +263,7 @@ impl Block {
             lbl: v["lbl"].as_str().unwrap_or("?").to_string(),
             inputs,
             outputs,
-            color: v["color"].as_i64().unwrap_or(0) as usize,
+            color: v["color"].as_i64().unwrap_or(0).max(0) as usize,
         }))
     }
 }
-- 
2.43.0


From 4c1685100dae0167cb83300734292b6a697ebdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:18 +0000
Subject: [PATCH 16/48] fix: blocks in a damaged patch do not overlap after
 loading

---
 src/wblockdsp/language.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 84543b4..be15c4c 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -926,7 +926,7 @@ impl BlockArea {
     /// Deserializes a from a JSON [Value].
     /// Usually called by [BlockFunSnapshot::deserialize].
     pub fn deserialize(v: &Value) -> Result<Box<BlockArea>, serde_json::Error> {
-        let mut blocks = HashMap::new();
+        let mut blocks: HashMap<(i64, i64), Box<Block>> = HashMap::new();
 
         let blks = &v["blocks"];
         if let Value::Array(blks) = blks {
@@ -937,6 +937,16 @@ impl BlockArea {
             }
         }
 
+        // Blocks may not overlap each other, so they end where the next block starts:
+        let origins: Vec<(i64, i64)> = blocks.keys().copied().collect();
+        for ((x, y), block) in blocks.iter_mut() {
+            for (ox, oy) in origins.iter() {
+                if ox == x && oy > y {
+                    block.rows = block.rows.min((oy - y) as usize);
+                }
+            }
+        }
+
         let size = (
             v["size"][0].as_i64().unwrap_or(0).clamp(0, MAX_AREA_COORD) as usize,
             v["size"][1].as_i64().unwrap_or(0).clamp(0, MAX_AREA_COORD) as usize,
-- 
2.43.0


From b59064a60467798f1535b529c28ded54406fc8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:21 +0000
Subject: [PATCH 17/48] fix: negative cursor positions in a damaged patch are
 not taken over

---
 src/matrix_repr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index b6300cb..0e898e3 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -178,10 +178,10 @@ impl PatternRepr {
             col_types,
             data,
             rows: v["rows"].as_i64().unwrap_or(0).clamp(0, MAX_PATTERN_LEN as i64) as usize,
-            edit_step: v["edit_step"].as_i64().unwrap_or(0) as usize,
+            edit_step: v["edit_step"].as_i64().unwrap_or(0).max(0) as usize,
             cursor: (
-                v["cursor_row"].as_i64().unwrap_or(0) as usize,
-                v["cursor_col"].as_i64().unwrap_or(0) as usize,
+                v["cursor_row"].as_i64().unwrap_or(0).max(0) as usize,
+                v["cursor_col"].as_i64().unwrap_or(0).max(0) as usize,
             ),
         })
     }
-- 
2.43.0


From e15a078bfa2136b1c28b3ca10cfa3e38a61518cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:32 +0000
Subject: [PATCH 18/48] fix: shifting a port in a row that a block does not
 have does not panic

---
 src/wblockdsp/language.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index be15c4c..94a51b0 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -115,7 +115,7 @@ impl Block {
     /// down, wrapping around at the end. If `output` is true, the
     /// output port at `idx` is shifted.
     pub fn shift_port(&mut self, idx: usize, output: bool) {
-        if self.rows <= 1 {
+        if self.rows <= 1 || idx >= self.rows {
             return;
         }
 
-- 
2.43.0


From b01f96644515d2988d3662114fc15762c5f305bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:32 +0000
Subject: [PATCH 19/48] fix: moving a block to an unknown area does not lose
 the block

---
 src/wblockdsp/language.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 94a51b0..fee1192 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1732,6 +1732,10 @@ impl BlockFun {
             return Err(BlockDSPError::CircularAction(id, id2));
         }
 
+        if self.areas.get(id2).is_none() {
+            return Err(BlockDSPError::UnknownArea(id2));
+        }
+
         let (block, xo, yo) = if let Some(area) = self.areas.get_mut(id) {
             area.remove_at(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?
         } else {
-- 
2.43.0


From b5362ec4e4d15cdc2595c94f3b12f75d548906fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:10 +0000
Subject: [PATCH 20/48] fix: cloning a block to an unknown area can not put the
 clone into its own sub area

---
 src/wblockdsp/language.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index fee1192..b437db7 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1579,6 +1579,10 @@ impl BlockFun {
     ) -> Result<(), BlockDSPError> {
         let lang = self.language.clone();
 
+        if self.areas.get(id2).is_none() {
+            return Err(BlockDSPError::UnknownArea(id2));
+        }
+
         let (mut block, _xo, yo) = if let Some(area) = self.areas.get_mut(id) {
             let (block, xo, yo) =
                 area.ref_mut_at_origin(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?;
-- 
2.43.0


From 5edb1c617a734d73d0ba1660f21a4d5152b7017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:10 +0000
Subject: [PATCH 21/48] fix: filler blocks of a split chain do not overlap and
 get their own sub areas

---
 src/wblockdsp/language.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index b437db7..1ee0032 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -546,6 +546,15 @@ impl BlockChain {
         true
     }
 
+    /// Returns true if any of the loaded blocks overlap each other.
+    fn load_overlaps(&self) -> bool {
+        let mut cells: HashSet<(i64, i64)> = HashSet::new();
+
+        self.load
+            .iter()
+            .any(|(block, x, y)| (0..block.rows).any(|row| !cells.insert((*x, *y + row as i64))))
+    }
+
     pub fn area_is_subarea_of_loaded(&mut self, area: usize, fun: &mut BlockFun) -> bool {
         let mut areas = vec![];
 
@@ -1631,7 +1640,8 @@ impl BlockFun {
 
         chain.remove_load(area_clone.as_mut());
 
-        let lang = self.language.borrow();
+        let lang = self.language.clone();
+        let lang = lang.borrow();
         let typ: Option<&BlockType> = if let Some(filler_type) = filler_type {
             Some(
                 lang.types
@@ -1642,12 +1652,21 @@ impl BlockFun {
             None
         };
 
+        let known_ids: HashSet<usize> = chain.load.iter().map(|(block, _, _)| block.id).collect();
+
         chain.split_load_after_x(x, y, typ, self.id_gen.clone());
 
-        if !chain.area_has_space_for_load(&mut area_clone, 0, 0) {
+        if !chain.area_has_space_for_load(&mut area_clone, 0, 0) || chain.load_overlaps() {
             return Err(BlockDSPError::NoSpaceAvailable(id, x, y, 0));
         }
 
+        // The filler blocks need their own sub areas:
+        for (block, _, _) in chain.load.iter_mut() {
+            if !known_ids.contains(&block.id) {
+                self.create_areas_for_block(block.as_mut());
+            }
+        }
+
         chain.place_load(&mut area_clone);
         self.generation += 1;
 
-- 
2.43.0


From 1c369f0d155567c290338ee504ae5bd25167f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:10 +0000
Subject: [PATCH 22/48] fix: a recreated Code node receives its block function

---
 src/global.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/global.rs b/src/global.rs
index fe5c76f..871fed8 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -164,6 +164,12 @@ impl NodeGlobalData {
     /// to the previously returned [CodeEngineBackend].
     #[cfg(feature = "synfx-dsp-jit")]
     pub fn get_code_engine_backend(&mut self, index: usize) -> CodeEngineBackend {
+        // The new backend does not know the current block function yet,
+        // so it needs to be uploaded (again) by the next [NodeGlobalData::check_code]:
+        if let Some((generation, _)) = self.block_functions.get_mut(&index) {
+            *generation = 0;
+        }
+
         self.get_code_engine(index).get_backend()
     }
 
-- 
2.43.0


From bf2379372f250a752ca9d28b6809902c33af598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:23 +0000
Subject: [PATCH 23/48] fix: block inputs are evaluated in the order of their
 translation

---
 src/wblockdsp/compiler.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index e431724..564369d 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -313,8 +313,23 @@ impl Block2JITCompiler {
             optype => {
                 let mut childs = vec![];
 
+                let mut inputs = vec![];
                 let mut i = 0;
-                while let Some((inp, out, child)) = node.nth_child(i) {
+                while let Some(input) = node.nth_child(i) {
+                    inputs.push(input);
+                    i += 1;
+                }
+
+                // The inputs need to be translated in the order they are going to be
+                // evaluated, which is the input order in the BlockLanguage. Otherwise the
+                // temporary variables of shared nodes are read before they are assigned.
+                if let Some(names) = self.lang.borrow().get_type_inputs(optype) {
+                    inputs.sort_by_key(|(inp, _, _)| {
+                        names.iter().position(|name| name.as_deref() == Some(&inp[..]))
+                    });
+                }
+
+                for (inp, out, child) in inputs {
                     let out = if out.len() > 0 { Some(out) } else { None };
 
                     let child = self.trans2bjit(&child, out)?;
@@ -323,12 +338,8 @@ impl Block2JITCompiler {
                     } else {
                         childs.push((None, child));
                     }
-                    i += 1;
                 }
 
-                // TODO: Reorder the childs/arguments according to the input
-                //       order in the BlockLanguage
-
                 let cnt = self.lang.borrow().type_output_count(optype);
                 if cnt > 1 {
                     let mut area = vec![];
-- 
2.43.0


From fb4f2f5c45372d49160cb51d85cdd12100703ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:54 +0000
Subject: [PATCH 24/48] =?UTF-8?q?fix:=20the=20=CF=80=20and=202=CF=80=20blo?=
 =?UTF-8?q?cks=20can=20be=20compiled?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/wblockdsp/compiler.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index 564369d..2f75fb5 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -425,6 +425,8 @@ impl Block2JITCompiler {
             BlkASTNode::Node { id, typ, childs, .. } => match &typ[..] {
                 "if" => Err(BlkJITCompileError::UnknownError),
                 "zero" => Ok(literal(0.0)),
+                "π" => Ok(literal(std::f64::consts::PI)),
+                "2π" => Ok(literal(std::f64::consts::TAU)),
                 _ => {
                     if *id == 0 {
                         return Err(BlkJITCompileError::NodeWithoutID(typ.to_string()));
-- 
2.43.0


From cb5cde47c1a0399858f5e520811b0b0950b3d511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:55 +0000
Subject: [PATCH 25/48] fix: a cyclic or shared builder graph no longer
 overflows the stack

---
 src/synth_constructor.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/synth_constructor.rs b/src/synth_constructor.rs
index f2770a2..bf3d74e 100644
--- a/src/synth_constructor.rs
+++ b/src/synth_constructor.rs
@@ -39,7 +39,7 @@ See also [SynthConstructor::new] and [crate::build].
 use crate::build::*;
 use crate::nodes::{new_node_engine, NodeGraphOrdering};
 use crate::{NodeConfigurator, NodeExecutor, NodeId, SAtom};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 /// Returned by [SynthConstructor] if some error occured while updating the graph
 /// or changing paramters.
@@ -119,9 +119,16 @@ impl SynthConstructor {
         &mut self,
         node: &ConstructorNode,
         only_update_params: bool,
+        visited: &mut HashSet<*const std::cell::RefCell<Vec<ConstructorOp>>>,
     ) -> Result<bool, SynthError> {
         let mut need_rebuild = false;
 
+        // Builder nodes can be shared between multiple inputs or even form
+        // a cycle, make sure to look at each of them only once:
+        if !visited.insert(std::rc::Rc::as_ptr(&node.ops)) {
+            return Ok(need_rebuild);
+        }
+
         let node_id = node.node_id;
 
         if !self.nodes.contains_key(&node_id) {
@@ -174,7 +181,7 @@ impl SynthConstructor {
         }
 
         for node in walk_afterwads.iter() {
-            if self.walk_upload(&node, only_update_params)? {
+            if self.walk_upload(&node, only_update_params, visited)? {
                 need_rebuild = true;
             }
         }
@@ -240,7 +247,7 @@ impl SynthConstructor {
     pub fn update_params(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<bool, SynthError> {
         let built_node = node.build();
 
-        if self.walk_upload(&built_node, true)? {
+        if self.walk_upload(&built_node, true, &mut HashSet::new())? {
             self.upload(node)?;
             Ok(true)
         } else {
@@ -298,7 +305,7 @@ impl SynthConstructor {
 
     pub fn upload(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<(), SynthError> {
         let node = node.build();
-        self.walk_upload(&node, false)?;
+        self.walk_upload(&node, false, &mut HashSet::new())?;
 
         self.graph_ordering.clear();
 
-- 
2.43.0


From 6f16aed3ebdc45fd6cb34608c2c35274e96ee819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:55 +0000
Subject: [PATCH 26/48] fix: a refused graph leaves the SynthConstructor
 unchanged

---
 src/synth_constructor.rs | 91 ++++++++++++++++++++++++++++++----------
 1 file changed, 69 insertions(+), 22 deletions(-)

diff --git a/src/synth_constructor.rs b/src/synth_constructor.rs
index bf3d74e..b21eeb2 100644
--- a/src/synth_constructor.rs
+++ b/src/synth_constructor.rs
@@ -120,6 +120,7 @@ impl SynthConstructor {
         node: &ConstructorNode,
         only_update_params: bool,
         visited: &mut HashSet<*const std::cell::RefCell<Vec<ConstructorOp>>>,
+        changed_nodes: &mut Vec<NodeId>,
     ) -> Result<bool, SynthError> {
         let mut need_rebuild = false;
 
@@ -161,11 +162,20 @@ impl SynthConstructor {
                         }
                     }
                     ConstructorOp::SetSetting(name, v) => {
+                        if node_id.inp_param(&name).is_none() {
+                            return Err(SynthError::UnknownParam(node_id, name.to_string()));
+                        }
                         node_config.set_param(&name, SAtom::setting(*v), None);
                         changed_params = true;
                     }
                     ConstructorOp::Input(param, node, out) => {
                         let id = node.node_id;
+                        if node_id.inp(param).is_none() {
+                            return Err(SynthError::UnknownParam(node_id, param.to_string()));
+                        }
+                        if id.out(out).is_none() {
+                            return Err(SynthError::BadOutputName(id, out.to_string()));
+                        }
                         if !only_update_params {
                             node_config.set_edge(param, id, out);
                             need_rebuild = true;
@@ -176,12 +186,12 @@ impl SynthConstructor {
             }
         }
 
-        if only_update_params && changed_params && self.update_node_params(node_id)? {
-            need_rebuild = true;
+        if changed_params {
+            changed_nodes.push(node_id);
         }
 
         for node in walk_afterwads.iter() {
-            if self.walk_upload(&node, only_update_params, visited)? {
+            if self.walk_upload(&node, only_update_params, visited, changed_nodes)? {
                 need_rebuild = true;
             }
         }
@@ -189,6 +199,49 @@ impl SynthConstructor {
         Ok(need_rebuild)
     }
 
+    /// Merges the given builder nodes into the known graph. If there is something wrong
+    /// with them, the known graph stays as it was before. Returns a flag whether the DSP
+    /// graph needs to be rebuilt and the nodes with changed parameters.
+    fn merge_nodes(
+        &mut self,
+        node: &ConstructorNode,
+        only_update_params: bool,
+    ) -> Result<(bool, Vec<NodeId>), SynthError> {
+        let old_nodes = self.nodes.clone();
+        let mut changed_nodes = vec![];
+
+        let res = self
+            .walk_upload(node, only_update_params, &mut HashSet::new(), &mut changed_nodes)
+            .and_then(|need_rebuild| self.calc_node_order().map(|_| need_rebuild));
+
+        match res {
+            Ok(need_rebuild) => Ok((need_rebuild, changed_nodes)),
+            Err(e) => {
+                self.nodes = old_nodes;
+                Err(e)
+            }
+        }
+    }
+
+    fn calc_node_order(&mut self) -> Result<Vec<NodeId>, SynthError> {
+        self.graph_ordering.clear();
+
+        for (node_id, node_conf) in self.nodes.iter() {
+            self.graph_ordering.add_node(*node_id);
+
+            for (_, (output_node_id, _)) in node_conf.edges.iter() {
+                self.graph_ordering.add_edge(*node_id, *output_node_id);
+            }
+        }
+
+        let mut ordered_nodes = vec![];
+        if !self.graph_ordering.calculate_order(&mut ordered_nodes) {
+            return Err(SynthError::CycleDetected);
+        }
+
+        Ok(ordered_nodes)
+    }
+
     fn update_node_params(&mut self, node_id: NodeId) -> Result<bool, SynthError> {
         let mut needs_graph_rebuild = false;
 
@@ -247,12 +300,19 @@ impl SynthConstructor {
     pub fn update_params(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<bool, SynthError> {
         let built_node = node.build();
 
-        if self.walk_upload(&built_node, true, &mut HashSet::new())? {
+        let (mut need_rebuild, changed_nodes) = self.merge_nodes(&built_node, true)?;
+
+        for node_id in changed_nodes.iter() {
+            if self.update_node_params(*node_id)? {
+                need_rebuild = true;
+            }
+        }
+
+        if need_rebuild {
             self.upload(node)?;
-            Ok(true)
-        } else {
-            Ok(false)
         }
+
+        Ok(need_rebuild)
     }
 
     /// Updates the dynamic node for the Rust1x1 nodes. The `index` refers to the
@@ -305,22 +365,9 @@ impl SynthConstructor {
 
     pub fn upload(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<(), SynthError> {
         let node = node.build();
-        self.walk_upload(&node, false, &mut HashSet::new())?;
-
-        self.graph_ordering.clear();
+        self.merge_nodes(&node, false)?;
 
-        for (node_id, node_conf) in self.nodes.iter() {
-            self.graph_ordering.add_node(*node_id);
-
-            for (_, (output_node_id, _)) in node_conf.edges.iter() {
-                self.graph_ordering.add_edge(*node_id, *output_node_id);
-            }
-        }
-
-        let mut ordered_nodes = vec![];
-        if !self.graph_ordering.calculate_order(&mut ordered_nodes) {
-            return Err(SynthError::CycleDetected);
-        }
+        let ordered_nodes = self.calc_node_order()?;
 
         for node_id in ordered_nodes.iter().rev() {
             if self.config.unique_index_for(node_id).is_none() {
-- 
2.43.0


From 9e880acabb1337b715bcb7950af9666fe6b4eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:55 +0000
Subject: [PATCH 27/48] fix: update_params uploads the graph when inputs
 changed

---
 src/synth_constructor.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/synth_constructor.rs b/src/synth_constructor.rs
index b21eeb2..fb46261 100644
--- a/src/synth_constructor.rs
+++ b/src/synth_constructor.rs
@@ -67,8 +67,10 @@ impl NodeConfig {
         Self { edges: HashMap::new(), params: HashMap::new() }
     }
 
-    pub fn set_edge(&mut self, param_name: &str, node_id: NodeId, output: &str) {
-        self.edges.insert(param_name.to_string(), (node_id, output.to_string()));
+    /// Returns `true` if this changed the edges.
+    pub fn set_edge(&mut self, param_name: &str, node_id: NodeId, output: &str) -> bool {
+        let edge = (node_id, output.to_string());
+        self.edges.insert(param_name.to_string(), edge.clone()) != Some(edge)
     }
 
     pub fn set_param(&mut self, param_name: &str, value: SAtom, modamt: Option<f32>) {
@@ -118,7 +120,6 @@ impl SynthConstructor {
     fn walk_upload(
         &mut self,
         node: &ConstructorNode,
-        only_update_params: bool,
         visited: &mut HashSet<*const std::cell::RefCell<Vec<ConstructorOp>>>,
         changed_nodes: &mut Vec<NodeId>,
     ) -> Result<bool, SynthError> {
@@ -176,8 +177,7 @@ impl SynthConstructor {
                         if id.out(out).is_none() {
                             return Err(SynthError::BadOutputName(id, out.to_string()));
                         }
-                        if !only_update_params {
-                            node_config.set_edge(param, id, out);
+                        if node_config.set_edge(param, id, out) {
                             need_rebuild = true;
                         }
                         walk_afterwads.push(node.clone());
@@ -191,7 +191,7 @@ impl SynthConstructor {
         }
 
         for node in walk_afterwads.iter() {
-            if self.walk_upload(&node, only_update_params, visited, changed_nodes)? {
+            if self.walk_upload(&node, visited, changed_nodes)? {
                 need_rebuild = true;
             }
         }
@@ -202,16 +202,12 @@ impl SynthConstructor {
     /// Merges the given builder nodes into the known graph. If there is something wrong
     /// with them, the known graph stays as it was before. Returns a flag whether the DSP
     /// graph needs to be rebuilt and the nodes with changed parameters.
-    fn merge_nodes(
-        &mut self,
-        node: &ConstructorNode,
-        only_update_params: bool,
-    ) -> Result<(bool, Vec<NodeId>), SynthError> {
+    fn merge_nodes(&mut self, node: &ConstructorNode) -> Result<(bool, Vec<NodeId>), SynthError> {
         let old_nodes = self.nodes.clone();
         let mut changed_nodes = vec![];
 
         let res = self
-            .walk_upload(node, only_update_params, &mut HashSet::new(), &mut changed_nodes)
+            .walk_upload(node, &mut HashSet::new(), &mut changed_nodes)
             .and_then(|need_rebuild| self.calc_node_order().map(|_| need_rebuild));
 
         match res {
@@ -300,7 +296,7 @@ impl SynthConstructor {
     pub fn update_params(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<bool, SynthError> {
         let built_node = node.build();
 
-        let (mut need_rebuild, changed_nodes) = self.merge_nodes(&built_node, true)?;
+        let (mut need_rebuild, changed_nodes) = self.merge_nodes(&built_node)?;
 
         for node_id in changed_nodes.iter() {
             if self.update_node_params(*node_id)? {
@@ -365,7 +361,7 @@ impl SynthConstructor {
 
     pub fn upload(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<(), SynthError> {
         let node = node.build();
-        self.merge_nodes(&node, false)?;
+        self.merge_nodes(&node)?;
 
         let ordered_nodes = self.calc_node_order()?;
 
-- 
2.43.0


From 370fa017a815b95043695f1644c0ccfb2866e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:31 +0000
Subject: [PATCH 28/48] fix: a MIDI CC selected for several outputs of MidiCC
 reaches all of them

---
 src/dsp/node_midicc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_midicc.rs b/src/dsp/node_midicc.rs
index d80da81..8a0b615 100644
--- a/src/dsp/node_midicc.rs
+++ b/src/dsp/node_midicc.rs
@@ -120,10 +120,12 @@ impl DspNode for MidiCC {
                     if cc == midicc_cc1 {
                         self.cur_cc1 = value;
                         change = true;
-                    } else if cc == midicc_cc2 {
+                    }
+                    if cc == midicc_cc2 {
                         self.cur_cc2 = value;
                         change = true;
-                    } else if cc == midicc_cc3 {
+                    }
+                    if cc == midicc_cc3 {
                         self.cur_cc3 = value;
                         change = true;
                     }
-- 
2.43.0


From 0a11a2619ab7c255df371248b5aed9226155386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:31 +0000
Subject: [PATCH 29/48] fix: injected MIDI events keep their order

---
 src/nodes/node_exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index ea80e37..d7273f5 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -338,7 +338,7 @@ impl NodeExecutor {
         self.exec_ctx.midi_ccs.clear();
 
         if self.injected_midi.len() > 0 {
-            for ev in self.injected_midi.iter().rev() {
+            for ev in self.injected_midi.iter() {
                 let ev = HxTimedEvent::new_timed(0, *ev);
                 if ev.is_cc() {
                     self.exec_ctx.midi_ccs.push(ev);
-- 
2.43.0


From a4a3c5edecf068a17be0c23491d4402f61b96b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:31 +0000
Subject: [PATCH 30/48] fix: every MIDI note restarts the gate and keeps it
 open while held

---
 src/dsp/node_midip.rs | 60 +++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 37 deletions(-)

diff --git a/src/dsp/node_midip.rs b/src/dsp/node_midip.rs
index 6dbe1c3..bad954e 100644
--- a/src/dsp/node_midip.rs
+++ b/src/dsp/node_midip.rs
@@ -32,9 +32,11 @@ macro_rules! fa_midip_gmode {
 /// The (stereo) output port of the plugin
 #[derive(Debug, Clone)]
 pub struct MidiP {
-    next_gate: i8,
+    /// If the current note is still being held.
+    held: bool,
+    /// If the gate output was open in the most recent frame.
+    gate_open: bool,
     cur_note: u8,
-    cur_gate: u8,
     cur_vel: f32,
     trig_sig: TrigSignal,
     gate_sig: GateSignal,
@@ -43,9 +45,9 @@ pub struct MidiP {
 impl MidiP {
     pub fn new(_nid: &NodeId, _node_global: &NodeGlobalRef) -> Self {
         Self {
-            next_gate: 0,
+            held: false,
+            gate_open: false,
             cur_note: 0,
-            cur_gate: 0,
             cur_vel: 0.0,
             trig_sig: TrigSignal::new(),
             gate_sig: GateSignal::new(),
@@ -85,7 +87,6 @@ MIDI channel, the gate will restart after a very short pause.
     }
 }
 
-#[allow(clippy::comparison_chain)]
 impl DspNode for MidiP {
     fn set_sample_rate(&mut self, srate: f32) {
         self.trig_sig.set_sample_rate(srate);
@@ -127,12 +128,8 @@ impl DspNode for MidiP {
         for frame in 0..ctx.nframes() {
             let gate_len = denorm::MidiP::glen(glen, frame);
 
-            if self.next_gate > 0 {
-                self.cur_gate = 1;
-            } else if self.next_gate < 0 {
-                self.cur_gate = 0;
-            }
-            self.next_gate = 0;
+            let was_held = self.held;
+            let mut note_on = false;
 
             while let Some(ev) = ptr.next_at(frame) {
                 match ev {
@@ -141,12 +138,8 @@ impl DspNode for MidiP {
                             continue;
                         }
 
-                        if self.cur_gate > 0 {
-                            self.next_gate = 1;
-                            self.cur_gate = 0;
-                        } else {
-                            self.cur_gate = 1;
-                        }
+                        note_on = true;
+                        self.held = true;
                         self.trig_sig.trigger();
                         self.gate_sig.trigger();
                         self.cur_note = note;
@@ -158,35 +151,28 @@ impl DspNode for MidiP {
                         }
 
                         if self.cur_note == note {
-                            self.next_gate = -1;
+                            self.held = false;
                         }
                     }
                     _ => (),
                 }
             }
 
-            match gmode {
-                1 => {
-                    gate.write(frame, self.trig_sig.next());
-                }
-                2 => {
-                    if self.next_gate > 0 {
-                        gate.write(frame, 0.0);
-                        self.cur_gate = 0;
-                    } else {
-                        let gsig = self.gate_sig.next(gate_len);
-                        self.cur_gate = gsig.ceil() as u8;
-                        gate.write(frame, gsig);
-                    }
-                }
-                _ => {
-                    gate.write(frame, if self.cur_gate > 0 { 1.0 } else { 0.0 });
-                }
-            }
+            // A new note shortly pauses an open gate:
+            let pause = note_on && self.gate_open;
+
+            let gate_sig = match gmode {
+                1 => self.trig_sig.next(),
+                _ if pause => 0.0,
+                2 => self.gate_sig.next(gate_len),
+                _ if note_on || was_held => 1.0,
+                _ => 0.0,
+            };
+            self.gate_open = gate_sig > 0.0;
+            gate.write(frame, gate_sig);
 
             let note = (self.cur_note as f32 - 69.0) / 120.0;
             let note = note + det.read(frame);
-            //d// println!("FRAME: {} => gate={}, freq={}, next_gate={}", frame, self.cur_gate, note, self.next_gate);
             freq.write(frame, note);
             vel.write(frame, self.cur_vel as f32);
         }
-- 
2.43.0


From 108640c92db1f7c5fe458656085cb86cba424184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:26 +0000
Subject: [PATCH 31/48] fix: the slew time of MidiCC and Ext nodes does not
 depend on the sample rate

---
 src/dsp/node_ext.rs    | 6 +++++-
 src/dsp/node_midicc.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_ext.rs b/src/dsp/node_ext.rs
index 48dfadc..f6131a4 100644
--- a/src/dsp/node_ext.rs
+++ b/src/dsp/node_ext.rs
@@ -59,7 +59,11 @@ react to MIDI CC messages.
         }
 
         impl DspNode for $name {
-            fn set_sample_rate(&mut self, _srate: f32) {}
+            fn set_sample_rate(&mut self, srate: f32) {
+                self.slew1.set_sample_rate(srate);
+                self.slew2.set_sample_rate(srate);
+                self.slew3.set_sample_rate(srate);
+            }
             fn reset(&mut self) {}
 
             #[inline]
diff --git a/src/dsp/node_midicc.rs b/src/dsp/node_midicc.rs
index 8a0b615..24fbbf8 100644
--- a/src/dsp/node_midicc.rs
+++ b/src/dsp/node_midicc.rs
@@ -73,7 +73,11 @@ If you need different ~~slew~~ values for the CCs, I recommend creating other
 }
 
 impl DspNode for MidiCC {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.slew_cc1.set_sample_rate(srate);
+        self.slew_cc2.set_sample_rate(srate);
+        self.slew_cc3.set_sample_rate(srate);
+    }
     fn reset(&mut self) {}
 
     #[inline]
-- 
2.43.0


From dbdfb8b4152aa097cd4b42b3de6a721b5c722b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:26 +0000
Subject: [PATCH 32/48] fix: MIDI events beyond the limit of a block come late
 instead of overflowing

---
 src/nodes/midi.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nodes/midi.rs b/src/nodes/midi.rs
index eef2e10..ff55411 100644
--- a/src/nodes/midi.rs
+++ b/src/nodes/midi.rs
@@ -93,7 +93,9 @@ impl EventWindowing {
     ) -> Option<HxTimedEvent> {
         if let Some(event) = self.event.take() {
             if event.timing < (to_time + block_size) {
-                return Some(HxTimedEvent { timing: event.timing - to_time, kind: event.kind });
+                // An event that did not fit into a previous block comes late:
+                let timing = event.timing.saturating_sub(to_time);
+                return Some(HxTimedEvent { timing, kind: event.kind });
             } else {
                 self.event = Some(event);
             }
-- 
2.43.0


From 865d05896b86fba2ad0344dd39f19cc48702e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:52 +0000
Subject: [PATCH 33/48] fix: the declick ramp of Sampl does not overflow at the
 end of the sample

---
 src/dsp/node_sampl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index 0293add..ffb63bc 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -241,7 +241,8 @@ impl Sampl {
 
                 // next_sample mutates self.phase, so we need the current phase
                 // that is used for looking up the sample from the audio data.
-                let sample_idx = self.phase.floor() as usize;
+                // The phase may have advanced past the end of the (wrapping) slice.
+                let sample_idx = self.phase.floor() as usize % sample_slice.len().max(1);
 
                 let mut s =
                     self.next_sample(sr_factor, playback_speed as f64, sample_slice, reverse);
-- 
2.43.0


From 0f9fd1aa7bd649f4ad17b7ee5addfae48794ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:52 +0000
Subject: [PATCH 34/48] fix: Map maps inputs below the input range below the
 output range

---
 src/dsp/node_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_map.rs b/src/dsp/node_map.rs
index 55db70a..658a583 100644
--- a/src/dsp/node_map.rs
+++ b/src/dsp/node_map.rs
@@ -120,7 +120,7 @@ impl DspNode for Map {
                 let x = if (imax - imin).abs() < std::f32::EPSILON {
                     1.0
                 } else {
-                    ((s - imin) / (imax - imin)).abs()
+                    (s - imin) / (imax - imin)
                 };
                 last_val = x;
                 let s = min + (max - min) * x;
@@ -139,7 +139,7 @@ impl DspNode for Map {
                 let x = if (imax - imin).abs() < std::f32::EPSILON {
                     1.0
                 } else {
-                    ((s - imin) / (imax - imin)).abs()
+                    (s - imin) / (imax - imin)
                 };
                 last_val = x;
                 let s = min + (max - min) * x;
-- 
2.43.0


From d100e1535c614be02b94e86aaeea8c8b479acfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 35/48] fix: a OneShot sample ends at its end

---
 src/dsp/node_sampl.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index ffb63bc..9ea77c6 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -261,12 +261,10 @@ impl Sampl {
                     s *= ramp_atten_factor as f32;
                 }
 
-                self.last_sample = s;
-                out.write(frame, s);
-
-                if !do_loop && prev_phase > self.phase {
-                    // played past end => stop playing.
+                if !do_loop && prev_phase >= sample_slice.len() as f64 {
+                    // played past end => stop playing, without repeating the start.
                     is_playing = false;
+                    s = 0.0;
                 }
 
                 s
-- 
2.43.0


From b9801b122a9e37870fa9ba9d2215e4393e4d35cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:55 +0000
Subject: [PATCH 36/48] fix: filters stay stable at sample rates below 44.1kHz

---
 src/dsp/node_biqfilt.rs |  2 +-
 src/dsp/node_fvafilt.rs |  6 +++++-
 src/dsp/node_sfilter.rs | 32 ++++++++++++++++++--------------
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/dsp/node_biqfilt.rs b/src/dsp/node_biqfilt.rs
index 063e0bd..2419caf 100644
--- a/src/dsp/node_biqfilt.rs
+++ b/src/dsp/node_biqfilt.rs
@@ -120,7 +120,7 @@ impl DspNode for BiqFilt {
 
         let ftype = ftype.i() as u8;
         let cfreq = denorm::BiqFilt::freq(freq, 0);
-        let cfreq = cfreq.clamp(0.0, 22000.0);
+        let cfreq = cfreq.clamp(0.0, 22000.0 * (self.srate / 44100.0).min(1.0));
         let cq = denorm::BiqFilt::q(q, 0);
         let cgain = denorm::BiqFilt::gain(gain, 0);
 
diff --git a/src/dsp/node_fvafilt.rs b/src/dsp/node_fvafilt.rs
index 56d355f..62ddf77 100644
--- a/src/dsp/node_fvafilt.rs
+++ b/src/dsp/node_fvafilt.rs
@@ -70,6 +70,7 @@ pub struct FVaFilt {
     sallenkey: SallenKey,
     oversample: (PolyIIRHalfbandFilter, PolyIIRHalfbandFilter),
     dc_filter: DCFilterX4,
+    max_freq: f32,
 }
 
 impl FVaFilt {
@@ -81,6 +82,7 @@ impl FVaFilt {
             sallenkey: SallenKey::new(params.clone()),
             oversample: (PolyIIRHalfbandFilter::new(8, true), PolyIIRHalfbandFilter::new(8, true)),
             dc_filter: DCFilterX4::default(),
+            max_freq: 20000.0,
             params,
             old_params: Box::new((0.0, 0.0, 0.0, 0, 0, -1)),
         }
@@ -171,7 +173,7 @@ macro_rules! on_param_change {
         unsafe {
             let params = Arc::get_mut_unchecked(&mut $self.params);
             let new_params = (
-                denorm::FVaFilt::freq($freq, $frame).clamp(1.0, 20000.0),
+                denorm::FVaFilt::freq($freq, $frame).clamp(1.0, $self.max_freq),
                 denorm::FVaFilt::res($res, $frame).clamp(0.0, 1.0),
                 denorm::FVaFilt::drive($drive, $frame).max(0.0),
                 $ftype,
@@ -223,6 +225,8 @@ impl DspNode for FVaFilt {
             let params = Arc::get_mut_unchecked(&mut self.params);
             // TODO: Set oversampling dependent on the sample rate, and not pass 2.0*sr here!
             params.set_sample_rate(srate * 2.0);
+            // The solvers do not converge if the cutoff is too close to the sample rate.
+            self.max_freq = 20000.0 * (srate / 44100.0).min(1.0);
         }
     }
 
diff --git a/src/dsp/node_sfilter.rs b/src/dsp/node_sfilter.rs
index c6ba6f4..8cd253d 100644
--- a/src/dsp/node_sfilter.rs
+++ b/src/dsp/node_sfilter.rs
@@ -252,34 +252,38 @@ impl DspNode for SFilter {
             self.otype = ftype;
         }
 
+        // The cutoff limits below are made for 44.1kHz, scale them for lower sample rates:
+        let flim =
+            if self.israte > 1.0 / 44100.0 { 1.0 / (44100.0 * self.israte) } else { 1.0 };
+
         match ftype {
             0 => {
                 // Lowpass
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, input, 22000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, input, 22000.0 * flim, {
                     process_1pole_lowpass(input, freq, self.israte, &mut self.z)
                 })
             }
             1 => {
                 // Lowpass TPT
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, input, 22000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, input, 22000.0 * flim, {
                     process_1pole_tpt_lowpass(input, freq, self.israte, &mut self.z)
                 })
             }
             2 => {
                 // Highpass
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, input, 22000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, input, 22000.0 * flim, {
                     process_1pole_highpass(input, freq, self.israte, &mut self.z, &mut self.y)
                 })
             }
             3 => {
                 // Highpass TPT
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, input, 22000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, input, 22000.0 * flim, {
                     process_1pole_tpt_highpass(input, freq, self.israte, &mut self.z)
                 })
             }
             4 => {
                 // Low Pass Hal Chamberlin SVF
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, input, 2.0, 16000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, input, 2.0, 16000.0 * flim, {
                     let (_high, _notch) = process_hal_chamberlin_svf(
                         input,
                         freq,
@@ -293,7 +297,7 @@ impl DspNode for SFilter {
             }
             5 => {
                 // High Pass Hal Chamberlin SVF
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, input, 16000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, input, 16000.0 * flim, {
                     let (high, _notch) = process_hal_chamberlin_svf(
                         input,
                         freq,
@@ -307,7 +311,7 @@ impl DspNode for SFilter {
             }
             6 => {
                 // Band Pass Hal Chamberlin SVF
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, input, 16000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, input, 16000.0 * flim, {
                     let (_high, _notch) = process_hal_chamberlin_svf(
                         input,
                         freq,
@@ -321,7 +325,7 @@ impl DspNode for SFilter {
             }
             7 => {
                 // Notch Hal Chamberlin SVF
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, input, 16000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, input, 16000.0 * flim, {
                     let (_high, notch) = process_hal_chamberlin_svf(
                         input,
                         freq,
@@ -335,7 +339,7 @@ impl DspNode for SFilter {
             }
             8 => {
                 // Simper SVF Low Pass
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, 1.0, input, 22000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, 1.0, input, 22000.0 * flim, {
                     let (low, _band, _high) =
                         process_simper_svf(input, freq, res, self.israte, &mut self.k, &mut self.h);
                     low
@@ -343,7 +347,7 @@ impl DspNode for SFilter {
             }
             9 => {
                 // Simper SVF High Pass
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, 1.0, input, 22000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, 1.0, input, 22000.0 * flim, {
                     let (_low, _band, high) =
                         process_simper_svf(input, freq, res, self.israte, &mut self.k, &mut self.h);
                     high
@@ -351,7 +355,7 @@ impl DspNode for SFilter {
             }
             10 => {
                 // Simper SVF Band Pass
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, 1.0, input, 22000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, 1.0, input, 22000.0 * flim, {
                     let (_low, band, _high) =
                         process_simper_svf(input, freq, res, self.israte, &mut self.k, &mut self.h);
                     band
@@ -359,7 +363,7 @@ impl DspNode for SFilter {
             }
             11 => {
                 // Simper SVF Notch
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, 1.0, input, 22000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, 1.0, input, 22000.0 * flim, {
                     let (low, _band, high) =
                         process_simper_svf(input, freq, res, self.israte, &mut self.k, &mut self.h);
                     low + high
@@ -367,7 +371,7 @@ impl DspNode for SFilter {
             }
             12 => {
                 // Simper SVF Peak
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, 1.0, input, 22000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, 1.0, input, 22000.0 * flim, {
                     let (low, _band, high) =
                         process_simper_svf(input, freq, res, self.israte, &mut self.k, &mut self.h);
                     low - high
@@ -375,7 +379,7 @@ impl DspNode for SFilter {
             }
             13 => {
                 // Stilson/Moog Low Pass
-                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, 1.0, input, 20000.0, {
+                process_filter_fun32!(ctx.nframes(), inp, out, freq, res, 1.0, input, 20000.0 * flim, {
                     // Clip here, to prevent blowups, because the
                     // moog filter is quite touchy...
                     let input = input.clamp(-1.0, 1.0);
-- 
2.43.0


From 391c036da1b2f29b2a29b82f995568bbd8a74ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:55 +0000
Subject: [PATCH 37/48] fix: TSeq does not print on the audio thread

---
 src/dsp/node_tseq.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dsp/node_tseq.rs b/src/dsp/node_tseq.rs
index f362c41..5a2f3cd 100644
--- a/src/dsp/node_tseq.rs
+++ b/src/dsp/node_tseq.rs
@@ -218,7 +218,6 @@ impl DspNode for TSeq {
         for (frame, phase_out) in phase_out.iter_mut().enumerate().take(ctx.nframes()) {
             if time.trigger.check_trigger(denorm::TSeq::trig(trig, frame)) {
                 time.clock.sync();
-                println!("CLOCK SYNC");
             }
 
             let phase = match cmode {
-- 
2.43.0


From 2252d6b53578f76de9720fe7088cde15b2a95de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:31 +0000
Subject: [PATCH 38/48] fix: the feedback delay is 3.14ms in any order of the
 nodes and at any sample rate

---
 src/dsp/node_fbwr_fbrd.rs | 12 +++--
 src/global.rs             |  2 +-
 src/nodes/node_exec.rs    |  6 ++-
 src/shared_feedback.rs    | 94 +++++++++++++++++++++++++--------------
 4 files changed, 76 insertions(+), 38 deletions(-)

diff --git a/src/dsp/node_fbwr_fbrd.rs b/src/dsp/node_fbwr_fbrd.rs
index 00733b7..7ca4722 100644
--- a/src/dsp/node_fbwr_fbrd.rs
+++ b/src/dsp/node_fbwr_fbrd.rs
@@ -62,7 +62,7 @@ impl DspNode for FbWr {
     fn process(
         &mut self,
         ctx: &mut dyn NodeAudioContext,
-        _ectx: &mut NodeExecContext,
+        ectx: &mut NodeExecContext,
         _nctx: &NodeContext,
         _atoms: &[SAtom],
         inputs: &[ProcBuf],
@@ -73,6 +73,8 @@ impl DspNode for FbWr {
 
         let inp = inp::FbWr::inp(inputs);
 
+        self.fb_wr.set_frame(ectx.frame);
+
         for frame in 0..ctx.nframes() {
             self.fb_wr.write(inp.read(frame));
         }
@@ -133,14 +135,16 @@ volume of the feedback.
 }
 
 impl DspNode for FbRd {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.fb_rd.set_sample_rate(srate);
+    }
     fn reset(&mut self) {}
 
     #[inline]
     fn process(
         &mut self,
         ctx: &mut dyn NodeAudioContext,
-        _ectx: &mut NodeExecContext,
+        ectx: &mut NodeExecContext,
         _nctx: &NodeContext,
         _atoms: &[SAtom],
         inputs: &[ProcBuf],
@@ -152,6 +156,8 @@ impl DspNode for FbRd {
         let vol = inp::FbRd::vol(inputs);
         let sig = out::FbRd::sig(outputs);
 
+        self.fb_rd.set_frame(ectx.frame);
+
         let mut last_val = 0.0;
         for frame in 0..ctx.nframes() {
             last_val = self.fb_rd.read();
diff --git a/src/global.rs b/src/global.rs
index 871fed8..f405028 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -72,7 +72,7 @@ impl NodeGlobalData {
 
     pub fn get_shared_feedback(&mut self, instance: usize) -> &mut SharedFeedback {
         if !self.feedback.contains_key(&instance) {
-            // FIXME: Sample rate needs to be determined properly!
+            // The FbRd node sets the actual sample rate of it's reader.
             let new_shared_feedback = SharedFeedback::new(44100.0);
             self.feedback.insert(instance, new_shared_feedback);
         }
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index d7273f5..4aedabf 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -160,13 +160,15 @@ pub struct NodeExecContext {
     /// Handle to the external parameters, external meaning parameters that come in via eg. the
     /// plugin API or are provided elsewhere on the audio thread.
     pub ext_param: Option<Arc<dyn ExternalParams>>,
+    /// The number of frames that were processed before the current block.
+    pub frame: u64,
 }
 
 impl NodeExecContext {
     fn new() -> Self {
         let midi_notes = Vec::with_capacity(MAX_MIDI_NOTES_PER_BLOCK);
         let midi_ccs = Vec::with_capacity(MAX_MIDI_CC_PER_BLOCK);
-        Self { midi_notes, midi_ccs, ext_param: None }
+        Self { midi_notes, midi_ccs, ext_param: None, frame: 0 }
     }
 
     fn set_sample_rate(&mut self, _srate: f32) {}
@@ -495,6 +497,8 @@ impl NodeExecutor {
             }
         }
 
+        exec_ctx.frame = exec_ctx.frame.wrapping_add(nframes as u64);
+
         prog.out_feedback.publish();
 
         self.shared.monitor_backend.check_recycle();
diff --git a/src/shared_feedback.rs b/src/shared_feedback.rs
index 4ee55d8..6d17a12 100644
--- a/src/shared_feedback.rs
+++ b/src/shared_feedback.rs
@@ -8,37 +8,45 @@
 //! See also [crate::NodeGlobalData] which provides the [SharedFeedback] to the nodes.
 
 use crate::dsp::MAX_BLOCK_SIZE;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
-use synfx_dsp::AtomicFloat;
 
 pub const FB_DELAY_LENGTH_MS: f32 = 3.14;
 
+/// Length of the feedback buffer in samples. A power of two, which has space for
+/// [FB_DELAY_LENGTH_MS] and one block at all common sample rates.
+const FB_BUFFER_LENGTH: usize = 4096;
+
+/// Calculates the delay in samples for the given sample rate.
+fn delay_sample_count(sample_rate: f32) -> u64 {
+    let delay_sample_count = ((sample_rate * FB_DELAY_LENGTH_MS) / 1000.0) as usize;
+
+    // Ensure we got at least MAX_BLOCK_SIZE though!
+    delay_sample_count.clamp(MAX_BLOCK_SIZE, FB_BUFFER_LENGTH - MAX_BLOCK_SIZE) as u64
+}
+
 /// The SharedFeedback is a feedback delay buffer for the `FbWr` and `FbRd` nodes.
 ///
 /// They have a fixed delay of 3.14ms, which should be equal for all sample rates above 42kHz.
 /// Below that the delay might be longer to accomodate the [crate::dsp::MAX_BLOCK_SIZE].
 ///
+/// Every sample is stored together with (the lower 32 bits of) the number of the frame
+/// it was written in. That way the delay is the same regardless in which order the nodes are
+/// executed and when they were created, and old buffer contents are not read again.
+///
 /// See also [crate::NodeGlobalData] which provides the [SharedFeedback] to the DSP nodes.
 #[derive(Debug, Clone)]
 pub struct SharedFeedback {
-    buffer: Arc<Vec<AtomicFloat>>,
-    delay_sample_count: usize,
+    buffer: Arc<Vec<AtomicU64>>,
+    sample_rate: f32,
 }
 
 impl SharedFeedback {
     pub fn new(sample_rate: f32) -> Self {
         let mut buf = vec![];
-        let delay_sample_count = ((sample_rate * FB_DELAY_LENGTH_MS) / 1000.0) as usize;
+        buf.resize_with(FB_BUFFER_LENGTH, || AtomicU64::new(0));
 
-        // Ensure we got at least MAX_BLOCK_SIZE though!
-        let delay_sample_count = delay_sample_count.max(MAX_BLOCK_SIZE);
-
-        // Multiply by 3, to make ample space for the FB_DELAY_LENGTH_MS,
-        // probably 2*delay_sample_count would be fine too,
-        // but I'm anxious about off by one bugs :-)
-        buf.resize_with(3 * delay_sample_count, || AtomicFloat::new(0.0));
-
-        Self { buffer: Arc::new(buf), delay_sample_count }
+        Self { buffer: Arc::new(buf), sample_rate }
     }
 }
 
@@ -50,19 +58,18 @@ impl SharedFeedback {
 /// read from that [SharedFeedback] buffer via a [SharedFeedbackReader].
 #[derive(Debug, Clone)]
 pub struct SharedFeedbackWriter {
-    buffer: Arc<Vec<AtomicFloat>>,
-    write_ptr: usize,
-    delay_sample_count: usize,
+    buffer: Arc<Vec<AtomicU64>>,
+    write_frame: u64,
 }
 
 impl SharedFeedbackWriter {
     pub fn new(sfb: &SharedFeedback) -> Self {
-        let buffer = sfb.buffer.clone();
-        Self {
-            buffer,
-            delay_sample_count: sfb.delay_sample_count,
-            write_ptr: sfb.delay_sample_count,
-        }
+        Self { buffer: sfb.buffer.clone(), write_frame: 0 }
+    }
+
+    /// Set the number of the frame that is written next.
+    pub fn set_frame(&mut self, frame: u64) {
+        self.write_frame = frame;
     }
 
     /// Write the next sample in to the feedback buffer.
@@ -72,8 +79,9 @@ impl SharedFeedbackWriter {
     /// on the audio thread writing the buffer per buffer iteration. And then one or more
     /// `FbRd` DSP node reading from that buffer.
     pub fn write(&mut self, s: f32) {
-        self.buffer[self.write_ptr].set(s);
-        self.write_ptr = (self.write_ptr + 1) % self.delay_sample_count;
+        let idx = self.write_frame as usize % FB_BUFFER_LENGTH;
+        self.buffer[idx].store((self.write_frame << 32) | s.to_bits() as u64, Ordering::Relaxed);
+        self.write_frame = self.write_frame.wrapping_add(1);
     }
 }
 
@@ -86,22 +94,42 @@ impl SharedFeedbackWriter {
 /// buffer is big.
 #[derive(Debug, Clone)]
 pub struct SharedFeedbackReader {
-    buffer: Arc<Vec<AtomicFloat>>,
-    read_ptr: usize,
-    delay_sample_count: usize,
+    buffer: Arc<Vec<AtomicU64>>,
+    read_frame: u64,
+    delay_sample_count: u64,
 }
 
 impl SharedFeedbackReader {
     pub fn new(sfb: &SharedFeedback) -> Self {
-        Self { buffer: sfb.buffer.clone(), delay_sample_count: sfb.delay_sample_count, read_ptr: 0 }
+        Self {
+            buffer: sfb.buffer.clone(),
+            delay_sample_count: delay_sample_count(sfb.sample_rate),
+            read_frame: 0,
+        }
+    }
+
+    /// Set the sample rate, which determines the length of the delay in samples.
+    pub fn set_sample_rate(&mut self, sample_rate: f32) {
+        self.delay_sample_count = delay_sample_count(sample_rate);
     }
 
-    /// Read the next sample from the buffer. Wraps around after some internal buffer
-    /// size (that is consistent with the [SharedFeedback] buffer size). Used by `FbRd` DSP node
+    /// Set the number of the frame that is read next.
+    pub fn set_frame(&mut self, frame: u64) {
+        self.read_frame = frame;
+    }
+
+    /// Read the next sample from the buffer, that is the sample that was written
+    /// [FB_DELAY_LENGTH_MS] before, or 0.0 if none was written then. Used by `FbRd` DSP node
     /// to do it's functionality.
     pub fn read(&mut self) -> f32 {
-        let ret = self.buffer[self.read_ptr].get();
-        self.read_ptr = (self.read_ptr + 1) % self.delay_sample_count;
-        ret
+        let frame = self.read_frame.wrapping_sub(self.delay_sample_count);
+        self.read_frame = self.read_frame.wrapping_add(1);
+
+        let slot = self.buffer[frame as usize % FB_BUFFER_LENGTH].load(Ordering::Relaxed);
+        if (slot >> 32) as u32 == frame as u32 {
+            f32::from_bits(slot as u32)
+        } else {
+            0.0
+        }
     }
 }
-- 
2.43.0


From 3e2e59b6a098bb0c0af47327174ab6a9f588f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:35 +0000
Subject: [PATCH 39/48] fix: nodes run at the sample rate that was set before
 their graph was picked up

---
 src/dsp/mod.rs         | 23 ++++++++++++++++++++---
 src/nodes/node_exec.rs |  6 ++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index 18c4d7a..bed36d6 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -2701,7 +2701,7 @@ node_list! {make_node_info_enum}
 /// 4. Upon update of the [crate::nodes::NodeProg] on the DSP thread it is disposed
 /// by being sent to the drop thread.
 #[derive(Clone)]
-pub struct Node(pub Arc<SyncUnsafeCell<dyn DspNode>>, NodeId);
+pub struct Node(pub Arc<SyncUnsafeCell<dyn DspNode>>, NodeId, Arc<AtomicFloat>);
 
 impl Node {
     pub fn id(&self) -> NodeId {
@@ -2710,11 +2710,20 @@ impl Node {
 
     #[inline]
     pub fn set_sample_rate(&self, srate: f32) {
+        self.2.set(srate);
         unsafe {
             (*self.0.get()).set_sample_rate(srate);
         }
     }
 
+    /// Sets the sample rate only if the node does not already operate at that sample rate.
+    #[inline]
+    pub fn update_sample_rate(&self, srate: f32) {
+        if self.2.get() != srate {
+            self.set_sample_rate(srate);
+        }
+    }
+
     #[inline]
     pub fn reset(&self) {
         unsafe {
@@ -2748,7 +2757,11 @@ pub struct NopNode();
 
 impl NopNode {
     pub fn new_node() -> Node {
-        Node(Arc::new(SyncUnsafeCell::new(Self {})), NodeId::Nop)
+        Node(
+            Arc::new(SyncUnsafeCell::new(Self {})),
+            NodeId::Nop,
+            Arc::new(AtomicFloat::new(0.0)),
+        )
     }
 }
 
@@ -2785,7 +2798,11 @@ pub fn node_factory(node_id: NodeId, node_global: &NodeGlobalRef) -> Option<(Nod
         ) => {
             match node_id {
                 $(NodeId::$variant(_) => Some((
-                    Node(Arc::new(SyncUnsafeCell::new($variant::new(&node_id, node_global))), node_id),
+                    Node(
+                        Arc::new(SyncUnsafeCell::new($variant::new(&node_id, node_global))),
+                        node_id,
+                        Arc::new(AtomicFloat::new(0.0)),
+                    ),
                     NodeInfo::from_node_id(node_id),
                 )),)+
                 _ => None,
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 4aedabf..4bada7b 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -226,6 +226,12 @@ impl NodeExecutor {
                 GraphMessage::NewProg { prog, copy_old_out } => {
                     let mut prev_prog = std::mem::replace(&mut self.prog, prog);
 
+                    // The sample rate might have changed since the nodes were created
+                    // or since they were part of the running program the last time.
+                    for op in self.prog.prog.iter() {
+                        op.node.update_sample_rate(self.sample_rate);
+                    }
+
                     //                    unsafe {
                     //                        _MM_SET_FLUSH_ZERO_MODE(_MM_FLUSH_ZERO_ON);
                     //                    }
-- 
2.43.0


From db93645e0cf764242de2cdfba5e66111e4034a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:22 +0000
Subject: [PATCH 40/48] fix: the observer is told about a changed modulation
 amount

---
 src/matrix.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 2cd1aac..f80a3c6 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1091,6 +1091,9 @@ impl Matrix {
             ret
         } else {
             self.gen_counter += 1;
+            if let Some(obs) = &self.observer {
+                obs.update_param(&param);
+            }
             Ok(())
         }
     }
-- 
2.43.0


From 6e6dc03575ed892e87c5437903983b3e2166a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:30 +0000
Subject: [PATCH 41/48] fix: a node can feed more than 64 other nodes

---
 src/nodes/node_graph_ordering.rs | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/nodes/node_graph_ordering.rs b/src/nodes/node_graph_ordering.rs
index a247bd8..85a610a 100644
--- a/src/nodes/node_graph_ordering.rs
+++ b/src/nodes/node_graph_ordering.rs
@@ -6,39 +6,28 @@ use crate::dsp::NodeId;
 use std::collections::HashMap;
 use std::collections::HashSet;
 
-pub const MAX_NODE_EDGES: usize = 64;
-pub const UNUSED_NODE_EDGE: usize = 999999;
-
-#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 struct Node {
     /// The [NodeId] of this node.
     node_id: NodeId,
     /// The output edges of this node.
-    edges: [usize; MAX_NODE_EDGES],
-    /// The first unused index in the `edges` array.
-    unused_idx: usize,
+    edges: Vec<usize>,
 }
 
 impl Node {
     pub fn new() -> Self {
-        Self { node_id: NodeId::Nop, edges: [UNUSED_NODE_EDGE; MAX_NODE_EDGES], unused_idx: 0 }
+        Self { node_id: NodeId::Nop, edges: vec![] }
     }
 
     pub fn clear(&mut self) {
         self.node_id = NodeId::Nop;
-        self.edges = [UNUSED_NODE_EDGE; MAX_NODE_EDGES];
-        self.unused_idx = 0;
+        self.edges.clear();
     }
 
     pub fn add_edge(&mut self, node_index: usize) {
-        for ni in self.edges.iter().take(self.unused_idx) {
-            if *ni == node_index {
-                return;
-            }
+        if !self.edges.contains(&node_index) {
+            self.edges.push(node_index);
         }
-
-        self.edges[self.unused_idx] = node_index;
-        self.unused_idx += 1;
     }
 }
 
@@ -122,7 +111,7 @@ impl NodeGraphOrdering {
             }
 
             if let Some(node) = self.get_node(node_id) {
-                for node_idx in node.edges.iter().take(node.unused_idx) {
+                for node_idx in node.edges.iter() {
                     node_stack.push(self.nodes[*node_idx].node_id);
                 }
             }
@@ -145,7 +134,7 @@ impl NodeGraphOrdering {
 
         // Calculate the number of inputs for each node:
         for node in self.nodes.iter().take(self.node_count) {
-            for out_node_idx in node.edges.iter().take(node.unused_idx) {
+            for out_node_idx in node.edges.iter() {
                 self.in_degree[*out_node_idx] += 1;
             }
         }
@@ -169,7 +158,7 @@ impl NodeGraphOrdering {
             out.push(node.node_id);
 
             // Push the nodes we output to, to the end of the dequeue:
-            for neigh_node_idx in node.edges.iter().take(node.unused_idx) {
+            for neigh_node_idx in node.edges.iter() {
                 // by reducing the input count of the to be visited node:
                 self.in_degree[*neigh_node_idx] -= 1;
 
-- 
2.43.0


From 9cc5b60c7d6ad177dc2ff5428bfb97df1af8ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:50 +0000
Subject: [PATCH 42/48] fix: more than 256 allocated nodes do not alias each
 other

---
 src/nodes/node_conf.rs | 10 ++++++----
 src/nodes/node_exec.rs |  2 +-
 src/nodes/node_prog.rs |  2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index a274172..87e22dc 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -6,7 +6,7 @@ use super::{
     FeedbackFilter, GraphEvent, GraphMessage, HxMidiEvent, NodeOp, NodeProg, MAX_DSP_NODE_INPUTS,
     UNUSED_MONITOR_IDX,
 };
-use crate::dsp::{node_factory, Node, NodeId, NodeInfo, ParamId, SAtom};
+use crate::dsp::{node_factory, Node, NodeId, NodeInfo, ParamId, SAtom, ALL_NODE_IDS};
 use crate::monitor::{new_monitor_processor, MinMaxMonitorSamples, Monitor, MON_SIG_CNT};
 use crate::nodes::drop_thread::DropThread;
 use crate::SampleLibrary;
@@ -21,6 +21,9 @@ use triple_buffer::Output;
 
 const NODE_COMMUNICATION_BUFFER_SIZE: usize = 512;
 
+/// All instances of all nodes.
+const MAX_NODES: usize = ALL_NODE_IDS.len() * 256;
+
 /// A NodeInstance describes the input/output/atom ports of a Node
 /// and holds other important house keeping information for the [NodeConfigurator].
 #[derive(Debug, Clone)]
@@ -74,7 +77,7 @@ impl NodeInstance {
 
     pub fn as_op(&self) -> NodeOp {
         NodeOp {
-            idx: self.prog_idx as u8,
+            idx: self.prog_idx,
             node: self.node.clone(),
             out_idxlen: (self.out_start, self.out_end),
             in_idxlen: (self.in_start, self.in_end),
@@ -283,8 +286,7 @@ impl SharedNodeConf {
         let (monitor_backend, monitor) = new_monitor_processor();
 
         let mut node_ctx_values = Vec::new();
-        node_ctx_values
-            .resize_with(NODE_COMMUNICATION_BUFFER_SIZE, || Arc::new(AtomicFloat::new(0.0)));
+        node_ctx_values.resize_with(MAX_NODES * 2, || Arc::new(AtomicFloat::new(0.0)));
 
         let mut exec_node_ctx_vals = Vec::new();
         for ctx_val in node_ctx_values.iter() {
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 4bada7b..774efe3 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -477,7 +477,7 @@ impl NodeExecutor {
             let inp = op.in_idxlen;
             let at = op.at_idxlen;
             let md = op.mod_idxlen;
-            let ctx_idx = op.idx as usize * 2;
+            let ctx_idx = op.idx * 2;
 
             for modop in prog.modops[md.0..md.1].iter_mut() {
                 modop.process(nframes);
diff --git a/src/nodes/node_prog.rs b/src/nodes/node_prog.rs
index 2759526..2399d76 100644
--- a/src/nodes/node_prog.rs
+++ b/src/nodes/node_prog.rs
@@ -70,7 +70,7 @@ impl ModOp {
 #[derive(Debug, Clone)]
 pub struct NodeOp {
     /// Stores the index of the node
-    pub idx: u8,
+    pub idx: usize,
     /// Stores the reference to the node.
     pub node: Node,
     /// Output index and length of the node:
-- 
2.43.0


From 8507c2027c135383cec7843e09400b5fa6a8b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:01 +0000
Subject: [PATCH 43/48] fix: searching an unused instance ends when all
 instances are in use

---
 src/nodes/node_conf.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index 87e22dc..0595b81 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -752,13 +752,20 @@ impl NodeConfigurator {
     ///
     /// If new nodes were created/deleted/reordered in between this function
     /// might not work properly and assign already used instances.
+    ///
+    /// If all instances are in use, the given [NodeId] is returned.
     pub fn unused_instance_node_id(&self, mut id: NodeId) -> NodeId {
+        let first_id = id;
+
         while let Some((_, Some(ni), _)) = self.node_by_id(&id) {
             if !ni.is_used() {
                 return ni.id;
             }
 
             id = id.to_instance(id.instance() + 1);
+            if id == first_id {
+                break;
+            }
         }
 
         id
-- 
2.43.0


From 6aac425719fffd449ed72f7ef5101dc50a522dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:05 +0000
Subject: [PATCH 44/48] fix: a chain is placed with unused instances and sets
 the parameters of the nodes it placed

---
 src/chain_builder.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 959618b..310ea1a 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -248,6 +248,7 @@ impl MatrixCellChain {
         }
 
         let mut last_unused = HashMap::new();
+        let mut placed_ids = vec![];
 
         let mut pos = (at_x, at_y);
 
@@ -259,16 +260,18 @@ impl MatrixCellChain {
             let node_id = cell.node_id();
             let node_name = node_id.name();
 
-            let node_id = if let Some(i) = last_unused.get(node_name).cloned() {
-                last_unused.insert(node_name.to_string(), i + 1);
+            // Search behind the instance that was assigned to the previous link
+            // with the same node, because that one is not in use until the next sync:
+            let first_id = if let Some(i) = last_unused.get(node_name).cloned() {
                 node_id.to_instance(i + 1)
             } else {
-                let node_id = matrix.get_unused_instance_node_id(node_id);
-                last_unused.insert(node_name.to_string(), node_id.instance());
                 node_id
             };
+            let node_id = matrix.get_unused_instance_node_id(first_id);
+            last_unused.insert(node_name, node_id.instance());
 
             cell.set_node_id_keep_ios(node_id);
+            placed_ids.push(node_id);
 
             matrix.place(x, y, cell);
 
@@ -277,9 +280,12 @@ impl MatrixCellChain {
             pos.1 = (pos.1 as i32 + offs.1) as usize;
         }
 
-        for link in self.chain.iter() {
+        for (link, node_id) in self.chain.iter().zip(placed_ids) {
             for (pid, at) in link.params.iter() {
-                matrix.set_param(*pid, at.clone());
+                // The parameter belongs to the instance that was actually placed:
+                if let Some(pid) = node_id.param_by_idx(pid.inp() as usize) {
+                    matrix.set_param(pid, at.clone());
+                }
             }
         }
 
-- 
2.43.0


From 61078807df906030ebd7766df59644b49719a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:20 +0000
Subject: [PATCH 45/48] fix: the log calls of the audio side take no memory

The writer handed to the log closures had a heap buffer of its own, allocated and freed with every call, also when the audio side took over a new graph. It now writes straight into the log line, which also cuts overlong lines off instead of panicking.
---
 src/log.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/log.rs b/src/log.rs
index 8f5bfd7..fcc37b0 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -105,9 +105,12 @@ impl Log {
         self.buf.fill(0xFF);
 
         let len = {
-            let mut bw = std::io::BufWriter::new(&mut self.buf[..]);
+            // Without a buffer of its own the writer does not need to allocate memory,
+            // which must not happen on the audio thread.
+            let max = self.buf.len();
+            let mut bw = std::io::BufWriter::with_capacity(0, &mut self.buf[..]);
             f(&mut bw);
-            bw.buffer().len()
+            max - bw.get_ref().len()
         };
 
         if len < (self.buf.len() - 1) {
-- 
2.43.0


From 7f3f40a7a2622e7348108c3d5e4361a016d0cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:51 +0000
Subject: [PATCH 46/48] fix: graph updates are not lost while the audio side
 picks none up

The ring buffer to the audio side holds 512 updates. Further updates (parameter and setting changes, amounts, even new graphs) were dropped silently, so both sides differed until the same value was set again. They are now kept and sent, in order, as soon as there is room.
---
 src/nodes/node_conf.rs | 50 ++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index 0595b81..5ef0744 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -13,7 +13,7 @@ use crate::SampleLibrary;
 use crate::{NodeGlobalData, NodeGlobalRef};
 
 use ringbuf::{Consumer, Producer, RingBuffer};
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::sync::Arc;
 
 use synfx_dsp::AtomicFloat;
@@ -258,6 +258,8 @@ pub(crate) struct SharedNodeConf {
     pub(crate) node_ctx_values: Vec<Arc<AtomicFloat>>,
     /// For updating the NodeExecutor with graph updates.
     pub(crate) graph_update_prod: Producer<GraphMessage>,
+    /// Graph updates that did not fit into the ring buffer yet.
+    pub(crate) pending_updates: VecDeque<GraphMessage>,
     /// For receiving events from the DSP graph.
     pub(crate) graph_event_cons: Consumer<GraphEvent>,
     /// For receiving monitor data from the backend thread.
@@ -299,6 +301,7 @@ impl SharedNodeConf {
             Self {
                 node_ctx_values,
                 graph_update_prod: rb_graph_prod,
+                pending_updates: VecDeque::new(),
                 graph_event_cons: rb_ev_con,
                 monitor,
                 drop_thread,
@@ -316,6 +319,25 @@ impl SharedNodeConf {
     }
 }
 
+impl SharedNodeConf {
+    /// Sends an update to the NodeExecutor. If the ring buffer is full (because the NodeExecutor
+    /// did not pick up updates for some time), the update is kept and sent later, in order.
+    pub(crate) fn send_update(&mut self, msg: GraphMessage) {
+        self.pending_updates.push_back(msg);
+        self.flush_updates();
+    }
+
+    /// Sends the updates that did not fit into the ring buffer before.
+    pub(crate) fn flush_updates(&mut self) {
+        while let Some(msg) = self.pending_updates.pop_front() {
+            if let Err(msg) = self.graph_update_prod.push(msg) {
+                self.pending_updates.push_front(msg);
+                break;
+            }
+        }
+    }
+}
+
 impl NodeConfigurator {
     pub(crate) fn new() -> (Self, SharedNodeExec) {
         let nodes = Vec::new();
@@ -438,10 +460,7 @@ impl NodeConfigurator {
                 self.param_modamt.insert(param, v);
 
                 if let Some(mod_idx) = mod_idx {
-                    let _ = self
-                        .shared
-                        .graph_update_prod
-                        .push(GraphMessage::ModamtUpdate { mod_idx, modamt });
+                    self.shared.send_update(GraphMessage::ModamtUpdate { mod_idx, modamt });
                 }
 
                 false
@@ -494,10 +513,7 @@ impl NodeConfigurator {
                 nparam.value = at.clone();
 
                 let at_idx = nparam.at_idx;
-                let _ = self
-                    .shared
-                    .graph_update_prod
-                    .push(GraphMessage::AtomUpdate { at_idx, value: at });
+                self.shared.send_update(GraphMessage::AtomUpdate { at_idx, value: at });
             }
         } else {
             self.param_values.insert(param, at.f());
@@ -507,10 +523,7 @@ impl NodeConfigurator {
                 nparam.value = value;
 
                 let input_idx = nparam.input_idx;
-                let _ = self
-                    .shared
-                    .graph_update_prod
-                    .push(GraphMessage::ParamUpdate { input_idx, value });
+                self.shared.send_update(GraphMessage::ParamUpdate { input_idx, value });
             }
         }
     }
@@ -708,7 +721,7 @@ impl NodeConfigurator {
                 i += 1;
             }
 
-            let _ = self.shared.graph_update_prod.push(GraphMessage::SetMonitor { bufs });
+            self.shared.send_update(GraphMessage::SetMonitor { bufs });
         }
     }
 
@@ -725,7 +738,7 @@ impl NodeConfigurator {
         self.atoms.clear();
         self.atom_values.clear();
 
-        let _ = self.shared.graph_update_prod.push(GraphMessage::Clear { prog: NodeProg::empty() });
+        self.shared.send_update(GraphMessage::Clear { prog: NodeProg::empty() });
     }
 
     pub fn create_node(&mut self, ni: NodeId) -> Option<(&NodeInfo, u8)> {
@@ -984,7 +997,7 @@ impl NodeConfigurator {
 
         self.output_fb_cons = prog.take_feedback_consumer();
 
-        let _ = self.shared.graph_update_prod.push(GraphMessage::NewProg { prog, copy_old_out });
+        self.shared.send_update(GraphMessage::NewProg { prog, copy_old_out });
     }
 
     /// Retrieves the feedback value for a specific output port of the
@@ -1008,6 +1021,8 @@ impl NodeConfigurator {
     ///
     /// Retrieve the output value by calling [NodeConfigurator::out_fb_for].
     pub fn update_output_feedback(&mut self) {
+        self.shared.flush_updates();
+
         if let Some(out_fb_output) = &mut self.output_fb_cons {
             out_fb_output.update();
             let out_vec = out_fb_output.output_buffer();
@@ -1026,11 +1041,12 @@ impl NodeConfigurator {
     /// back to the GUI thread the standard way. This is mostly used for automated testing.
     /// And maybe some day for some kind of remote control script from WLambda?
     pub fn inject_midi_event(&mut self, midi_ev: HxMidiEvent) {
-        let _ = self.shared.graph_update_prod.push(GraphMessage::InjectMidi { midi_ev });
+        self.shared.send_update(GraphMessage::InjectMidi { midi_ev });
     }
 
     /// Returns the next [GraphEvent] from the DSP/audio/backend thread.
     pub fn next_event(&mut self) -> Option<GraphEvent> {
+        self.shared.flush_updates();
         self.shared.graph_event_cons.pop()
     }
 }
-- 
2.43.0


From 56aa4e972f5f46225d8515df3428f54eee0039b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:11 +0000
Subject: [PATCH 47/48] fix: gates with a probability are decided every time
 their row is entered

---
 src/dsp/tracker/sequencer.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/dsp/tracker/sequencer.rs b/src/dsp/tracker/sequencer.rs
index 6ea6a7e..ed77ef9 100644
--- a/src/dsp/tracker/sequencer.rs
+++ b/src/dsp/tracker/sequencer.rs
@@ -10,9 +10,13 @@ pub struct PatternSequencer {
     rows: usize,
     data: Vec<Vec<(f32, u8)>>,
     rng: SplitMix64,
-    rand_vals: [(usize, f64); MAX_COLS],
+    /// The row each column drew it's last random value for, the most recent phase and that value.
+    rand_vals: [(usize, f32, f64); MAX_COLS],
 }
 
+/// Marks that there is no random value for the current row yet.
+const NO_ROW: usize = 99999;
+
 const FRACT_16THS: [f32; 16] = [
     1.0 / 16.0,
     2.0 / 16.0,
@@ -38,7 +42,7 @@ impl PatternSequencer {
             rows,
             data: vec![vec![(0.0, 0); MAX_PATTERN_LEN]; MAX_COLS],
             rng: SplitMix64::new(0x91234),
-            rand_vals: [(99999, 0.0); MAX_COLS],
+            rand_vals: [(NO_ROW, 0.0, 0.0); MAX_COLS],
         }
     }
 
@@ -52,7 +56,7 @@ impl PatternSequencer {
             rows,
             data: vec![vec![(0.0, 0); MAX_PATTERN_LEN]; MAX_COLS],
             rng: SplitMix64::new_from_i64(seed),
-            rand_vals: [(99999, 0.0); MAX_COLS],
+            rand_vals: [(NO_ROW, 0.0, 0.0); MAX_COLS],
         }
     }
 
@@ -163,14 +167,20 @@ impl PatternSequencer {
             //d//     "row_div={}, pw={}, phase={} / {}",
             //d//     row_div, pulse_width, sub_frac, phase_frac);
 
+            // Every time a row is entered (again) it gets a new random value. If the pattern
+            // consists of only one row, that happens when the phase wraps around.
+            let (rand_line, prev_phase, rand_val) = &mut self.rand_vals[col_idx];
+            if *rand_line != line || (*phase - *prev_phase).abs() > 0.5 {
+                *rand_line = NO_ROW;
+            }
+            *prev_phase = *phase;
+
             if probability < 0xF {
-                let rand_val = if self.rand_vals[col_idx].0 != line {
-                    let new_rand_val = self.rng.next_open01();
-                    self.rand_vals[col_idx] = (line, new_rand_val);
-                    new_rand_val
-                } else {
-                    self.rand_vals[col_idx].1
-                };
+                if *rand_line == NO_ROW {
+                    *rand_line = line;
+                    *rand_val = self.rng.next_open01();
+                }
+                let rand_val = *rand_val;
                 //d// println!("RANDVAL: {:?} | {:9.7}", self.rand_vals[col_idx], FRACT_16THS[probability as usize]);
 
                 if rand_val > (FRACT_16THS[probability as usize] as f64) {
-- 
2.43.0


From 61694a4077a8f1be06ca9c7423879ea41b94f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:49 +0000
Subject: [PATCH 48/48] fix: numbers in a patch that do not fit into a
 parameter are not taken over as infinite

---
 src/matrix_repr.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index 0e898e3..f1c227c 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -233,6 +233,11 @@ impl From<std::io::Error> for MatrixDeserError {
     }
 }
 
+/// Numbers that don't fit into an `f32` would become infinite, and could not be saved again.
+fn as_finite_f32(v: &Value) -> Option<f32> {
+    v.as_f64().map(|v| v as f32).filter(|v| v.is_finite())
+}
+
 fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
     match v[0].as_str().unwrap_or("?") {
         "i" => {
@@ -243,8 +248,8 @@ fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
             }
         }
         "p" => {
-            if let Some(v) = v[1].as_f64() {
-                Ok(SAtom::param(v as f32))
+            if let Some(v) = as_finite_f32(&v[1]) {
+                Ok(SAtom::param(v))
             } else {
                 Err(MatrixDeserError::InvalidAtom(v.to_string()))
             }
@@ -267,8 +272,8 @@ fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
             let mut buf: [f32; 8] = [0.0; 8];
 
             for i in 0..8 {
-                if let Some(v) = v[i + 1].as_f64() {
-                    buf[i] = v as f32;
+                if let Some(v) = as_finite_f32(&v[i + 1]) {
+                    buf[i] = v;
                 } else {
                     return Err(MatrixDeserError::InvalidAtom(v.to_string()));
                 }
@@ -375,8 +380,8 @@ impl MatrixRepr {
                 if let Some(param_id) = param_id {
                     m.params.push((
                         param_id,
-                        v[3].as_f64().unwrap_or(0.0) as f32,
-                        v[4].as_f64().map(|v| v as f32),
+                        as_finite_f32(&v[3]).unwrap_or(0.0),
+                        as_finite_f32(&v[4]),
                     ));
                 } else {
                     return Err(MatrixDeserError::UnknownParamId(v.to_string()));
-- 
2.43.0

