From c226145bc9caa0e44b65aa3225ddec8c18145b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:03 +0000
Subject: [PATCH 01/10] fix: do not overflow on an over-long weight in a range
 string

---
 src/hand_range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 4992e4c..de9eb96 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -222,8 +222,8 @@ impl HandRange {
             let digit = self.char_vec[*i].to_digit(10);
             match digit {
                 Some(num) => {
-                    number *= 10;
-                    number += num;
+                    // saturate: an over-long number is rejected below, not an overflow
+                    number = u32::saturating_add(u32::saturating_mul(number, 10), num);
                     *i += 1;
                 }
                 None => {
-- 
2.43.0


From 0b077d84dff6795b425d3074c6953e8a5935077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:04 +0000
Subject: [PATCH 02/10] fix: return an error for an invalid rank or suit in
 card_from_chars

---
 src/hand_range.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index de9eb96..f4de2ee 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -460,6 +460,9 @@ pub fn card_from_chars<T: Iterator<Item = char>>(chars: &mut T) -> Result<u8, St
 
     let rank = char_to_rank(rank_char);
     let suit = char_to_suit(suit_char);
+    if rank == u8::MAX || suit == u8::MAX {
+        return Err("Invalid card".to_string());
+    }
 
     Ok(4 * rank + suit)
 }
-- 
2.43.0


From 3e49f314313e438d765a51110ef1265b5b30b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:06 +0000
Subject: [PATCH 03/10] fix: accept a pair range written in ascending order
 (22-55)

---
 src/hand_range.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index f4de2ee..3a49e09 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -338,8 +338,14 @@ impl HandRange {
 
     fn add_combos_dash(&mut self, rank1: u8, rank2: u8, rank3: u8, rank4: u8, suited: bool, offsuited: bool, weight: u8){
         if rank1 == rank2 {
-            for r in rank3..=rank1{
-                self.add_combos(r, r, suited, offsuited, weight);
+            if rank1 > rank3 {
+                for r in rank3..=rank1{
+                    self.add_combos(r, r, suited, offsuited, weight);
+                }
+            } else {
+                for r in rank1..=rank3{
+                    self.add_combos(r, r, suited, offsuited, weight);
+                }
             }
         } else {
             if rank1 == rank3 {
-- 
2.43.0


From 490f325424c541ddf47b22a35f6fea7000b35e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:08 +0000
Subject: [PATCH 04/10] fix: split a tied pot without dropping the remainder

---
 src/equity_calculator/simulator.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 4448a14..0d541b2 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -542,7 +542,8 @@ pub struct UnitResults {
 }
 
 impl Default for UnitResults {
-    fn default() -> Self {
+    fn default() -> Self {
+
         UnitResults { 
             wins: 0, 
             ties: 0, 
@@ -555,7 +556,8 @@ impl Default for UnitResults {
             rank: u8::MAX, 
             draw: 0,
             valid: false
-        }
+        }
+
     }
 }
 
@@ -1135,9 +1137,9 @@ impl Simulator {
                         }
                     } else {
                         results.ties[batch.player_ids[j]] +=
-                            (batch.wins_by_mask[i] / winner_count) as f64;
+                            batch.wins_by_mask[i] as f64 / winner_count as f64;
                         if batch.player_ids[j] == 0 {
-                            batch_equity += (batch.wins_by_mask[i] / winner_count) as f64;
+                            batch_equity += batch.wins_by_mask[i] as f64 / winner_count as f64;
                         }
                     }
                     actual_player_mask |= 1 << batch.player_ids[j];
-- 
2.43.0


From 220c5a86f57070dde4c4036d79eef4f5884df7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 05/10] fix: keep weighted counts from overflowing with 8 or 9
 players

---
 src/equity_calculator/simulator.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 0d541b2..7633838 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -91,7 +91,7 @@ pub fn exact_equity<F: Fn(u8)>(
     hand_ranges
         .iter_mut()
         .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-    let combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+    let combined_ranges = CombinedRange::from_ranges(&reduce_weights(&hand_ranges));
     for cr in &combined_ranges {
         if cr.size() == 0 {
             return Err(SimulatorError::ConflictingRanges);
@@ -199,7 +199,7 @@ pub fn approx_equity<F: Fn(u8)>(
     hand_ranges
         .iter_mut()
         .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-    let mut combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+    let mut combined_ranges = CombinedRange::from_ranges(&reduce_weights(&hand_ranges));
     for cr in &mut combined_ranges {
         if cr.size() == 0 {
             return Err(SimulatorError::ConflictingRanges);
@@ -253,6 +253,30 @@ pub fn approx_equity<F: Fn(u8)>(
     Ok(results)
 }
 
+/// Divides the weights of each range by their greatest common divisor
+///
+/// Only the weights relative to each other matter within a range. A showdown counts
+/// with the product of the players' weights, so without this, ranges of full weight
+/// (100 each) overflow the 64 bit counters with 8 or 9 players.
+fn reduce_weights(hand_ranges: &[HandRange]) -> Vec<HandRange> {
+    let mut hand_ranges = hand_ranges.to_owned();
+    for hand_range in &mut hand_ranges {
+        let mut divisor: u8 = 0;
+        for hand in &hand_range.hands {
+            let mut rest = hand.2;
+            while rest != 0 {
+                (divisor, rest) = (rest, divisor % rest);
+            }
+        }
+        if divisor > 1 {
+            for hand in &mut hand_range.hands {
+                hand.2 /= divisor;
+            }
+        }
+    }
+    hand_ranges
+}
+
 /// Stores total results of the simulation
 #[derive(Debug, Clone)]
 pub struct SimulationResults {
-- 
2.43.0


From 026250383f146a9fa94bb15c93765600baaed017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 06/10] fix: credit the ninth player, whose bit did not fit in
 the winner mask

---
 src/equity_calculator/simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 7633838..77eb474 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1279,9 +1279,9 @@ impl Simulator {
         flush_possible: bool,
     ) {
         // evaulate hands
-        let mut winner_mask: u8 = 0;
+        let mut winner_mask: u16 = 0;
         let mut best_score: u16 = 0;
-        let mut player_mask: u8 = 1;
+        let mut player_mask: u16 = 1;
         let mut counter: usize = 0;
         let mut indexes: [usize; MAX_PLAYERS] = [0; MAX_PLAYERS];
 
-- 
2.43.0


From 2a95f00fa8b66f47e9f23c02ec4541675845d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:15 +0000
Subject: [PATCH 07/10] fix: do not count an empty last batch as a sample of
 equity 0

---
 src/equity_calculator/simulator.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 77eb474..dba5a39 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1175,13 +1175,16 @@ impl Simulator {
 
         results.eval_count += batch.eval_count;
         if !self.calc_exact {
-            results.batch_sum += batch_equity;
-            results.batch_sum2 += batch_equity * batch_equity;
-            results.batch_count += 1.0;
-            results.stdev = (1e-9 + results.batch_sum2
-                - results.batch_sum * results.batch_sum / results.batch_count)
-                .sqrt()
-                / results.batch_count;
+            // the last batch of a thread may be empty, which is not a sample
+            if batch.eval_count > 0 {
+                results.batch_sum += batch_equity;
+                results.batch_sum2 += batch_equity * batch_equity;
+                results.batch_count += 1.0;
+                results.stdev = (1e-9 + results.batch_sum2
+                    - results.batch_sum * results.batch_sum / results.batch_count)
+                    .sqrt()
+                    / results.batch_count;
+            }
 
             let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0) as u8;
             tx.send(progress).unwrap();
-- 
2.43.0


From a50903325672c9e416f31a2bb5bd1d4461dd57f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:16 +0000
Subject: [PATCH 08/10] fix: do not stop a simulation after its first batch

---
 src/equity_calculator/simulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index dba5a39..549683e 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -27,6 +27,9 @@ const MAX_PLAYERS: usize = 9;
 const BOARD_CARDS: u32 = 5;
 const NUM_HANDS: usize = 1326;
 const NUM_COMBOS: usize = 169;
+/// Batches needed before the standard deviation between them says anything
+/// (the one of a single batch is always 0)
+const MIN_BATCHES: f64 = 16.0;
 
 #[derive(Debug, Clone)]
 pub enum SimulatorError {
@@ -1190,7 +1193,7 @@ impl Simulator {
             tx.send(progress).unwrap();
 
             // calc variance
-            if !finished && results.stdev < self.stdev_target {
+            if !finished && results.batch_count >= MIN_BATCHES && results.stdev < self.stdev_target {
                 self.stopped.store(true, std::sync::atomic::Ordering::SeqCst);
             }
         } else {
-- 
2.43.0


From e5b53983d2855a1e17dc07ce06b49e60f6cb4d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:16 +0000
Subject: [PATCH 09/10] fix: report progress of at most 100%

---
 src/equity_calculator/simulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 549683e..35e2d53 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1190,6 +1190,7 @@ impl Simulator {
             }
 
             let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0) as u8;
+            let progress = std::cmp::min(progress, 100);
             tx.send(progress).unwrap();
 
             // calc variance
-- 
2.43.0


From 75f49c2896c4d45ea9c335d73cf2598d8a171f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:21 +0000
Subject: [PATCH 10/10] fix: notice cancellation while no deal is found

---
 src/equity_calculator/simulator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 35e2d53..59bc436 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -729,6 +729,10 @@ impl Simulator {
         // let randomize_order = postflop_combos > 10000 && preflop_combos <= 2 * MAX_LOOKUP_SIZE;
         loop {
             if enum_pos >= enum_end {
+                // also here: holdings that cannot be dealt together count nothing
+                if self.stopped.load(std::sync::atomic::Ordering::SeqCst) {
+                    break;
+                }
                 let batch_size = std::cmp::max(2000000 / postflop_combos, 1);
                 let (p, e) = self.reserve_batch(batch_size);
                 enum_pos = p;
-- 
2.43.0

