// C13, C14, C15, C16, C17, C18, C19, C20, C21, C23, C24: the two calculations as a whole.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
use vstd::arithmetic::power2::*;
verus! {
global size_of usize == 8;
//@ floats
//@ grw? Arc<AtomicBool> =>> Shared
//@ grw? Mutex::new($e) =>> lock_of_position($e)
//@ grw? RwLock::new($e) =>> lock_of_results($e)
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ import hand <Add for Hand>::add
//@ import hand <AddAssign for Hand>::add_assign
//@ include simspec
//@ include world
//@ include indexspec
//@ include drawspec
//@ include boardspec
//@ include rangesok
//@ include groups
//@ include dealspec
//@ include logspec
//@ include countspec
//@ include walkspec
//@ include positions
//@ include threads
//@ include mergespec
//@ include conflictspec
//@ include recordspec
//@ include finalspec
//@ include gamespec
//@ include regroup
//@ include teamspec
//@ item src/equity_calculator/simulator.rs const MIN_PLAYERS
//@ item src/equity_calculator/simulator.rs enum SimulatorError
//@ include scalespec
//@ include resultspec
//@ include requestlemmas
//@ include requestproofs
//@ import hand Hand::from_bit_mask
//@ import conflict HandRange::remove_conflicting_combos
//@ import records Simulator::save_hand_weights
//@ import records Simulator::fix_hand_weights
//@ import records Simulator::set_ranks
//@ import records reduce_weights
//@ import combine CombinedRange::from_ranges
//@ import combine CombinedRange::size
//@ import merge SimulationResults::init
//@ import enumerate Simulator::enumerate_all
//@ import walk Simulator::sim_random_walk_monte_carlo
//@ import final SimulationResults::get_equity
//@ import final SimulationResults::generate_final_data
//@ import final SimulationResults::generate_board_data
// ---- the start
//@ fn src/equity_calculator/simulator.rs Simulator::new
//@ ret r
//@ spec
    requires 1 <= hand_ranges.len() <= 9, size(mask_cards(board_mask)) <= 5,
    ensures r.hand_ranges@ == hand_ranges@, r.combined_ranges@ == combined_ranges@, r.board_mask == board_mask, r.dead_mask == dead_mask, is_hand(r.fixed_board, mask_cards(board_mask)), r.n_players == hand_ranges.len(), r.calc_exact == calc_exact, r.stdev_target == stdev_target,
        r.stopped == cancel_token, // [C26]
        r.enum_pos.at@ == 0, r.results.first@ is Some && fresh(r.results.first@->Some_0, hand_ranges.len() as int),
//@ end
//@ fn src/equity_calculator/combined_range.rs CombinedRange::shuffle
//@ sig <R: Rng> =>>
//@ sig &mut R =>> &mut Gen
//@ rw $e.shuffle($r) =>> mixed(&mut $e, $r)
//@ spec
    ensures reordered(*old(self), *final(self)),
//@ end
//@ fn src/equity_calculator/simulator.rs exact_equity
//@ ret r
//@ attrs #[verifier::loop_isolation(false)]
//@ rw hand_ranges.to_owned() =>> owned(hand_ranges)
//@ rw hand_ranges.iter_mut().for_each(|$one_h| $e); =>> { let mut i__: usize = 0; while i__ < hand_ranges.len() invariant i__ <= hand_ranges.len(), some_left(hs, hand_ranges@, i__ as int, board_mask, dead_mask), proper(hs), decreases hand_ranges.len() - i__ { proof { lemma_deck_64(hs, i__ as int); } let $one_h = &mut hand_ranges[i__]; i__ += 1; $e; } }
//@ rw CombinedRange::from_ranges(&$e) =>> { let of__ = $e; proof { rs = of__@; ks = hand_ranges@; lemma_prepared(hs, ks, rs, board_mask, dead_mask); } CombinedRange::from_ranges(of__.as_slice()) }
//@ rw reduce_weights(&$e) =>> reduce_weights($e.as_slice())
//@ rw Arc::new($e) =>> { let made__ = $e; proof { gs = made__.combined_ranges@; lemma_ready(hs, ks, rs, board_mask, dead_mask, gs); } made__ }
//@ rw let ($one_t, $one_r) = channel(); =>> let $one_t = sender();
//@ rw thread::scope(|$one_s| $b); =>> proof { r2 = shared; lemma_zeroed(r0, r2, n); } let mut team = assemble(&sim, &shared); proof { t0 = team; } $b proof { tm = team; } shared = team.join(); proof { r3 = shared; hy = choose|h: History| #[trigger] history(tm, h, r3); lemma_left_at(tm, hy, r3, n, hy.whole.len() as int); }
//@ rw $one_s.spawn(move || $b); =>> { let mut world = team.enter(); proof { lemma_idle(team, world, n); } $b team.leave(world); }
//@ rw $one_t.clone() =>> another(&$one_t)
//@ rw Arc::clone(&sim) =>> (&sim)
//@ rw sim.enumerate_all($one_t) =>> sim.enumerate_all($one_t, &mut world)
//@ rw let $one_f = sim.save_hand_weights(); =>> proof { r1 = shared; } let $one_f = sim.save_hand_weights(&mut shared); proof { lemma_noted(r0, r1, shared, ks, mask_cards(board_mask)); }
//@ rw sim.set_ranks(); =>> proof { r1 = shared; } sim.set_ranks(&mut shared); proof { lemma_labelled(r0, r1, shared, ks, mask_cards(board_mask)); }
//@ rw sim.fix_hand_weights($e); =>> proof { lemma_kept_weights(ks, r2, r3); } sim.fix_hand_weights($e, &mut shared); proof { r4 = shared; lemma_shown(r3, r4, ks); lemma_weights_shown(ks, r2, r3, r4); lemma_same_consistent(r3, r4); }
//@ rw drop($one_t); =>> let rx = team.messages();
//@ rw callback($one_m) =>> ({ proof { called = called.push(*$one_m as int); lemma_in_range(team, *$one_m as int); } callback(*$one_m) })
//@ rw Arc::try_unwrap(sim).unwrap().results =>> shared
//@ rw $one_r.into_inner().unwrap() =>> $one_r
//@ rw $one_r.get_equity(); =>> $one_r.get_equity(); proof { r5 = $one_r; lemma_small(r5.hand_results@, ks); }
//@ rw $one_r.generate_final_data(); =>> $one_r.generate_final_data(); proof { r6 = $one_r; lemma_classed(r5, r6, n); lemma_counts_chain(r3, r4, r6); lemma_same_weights(r5.hand_results@, r6.hand_results@, ks); lemma_small(r6.hand_results@, ks); }
//@ rw $one_r.generate_board_data(); =>> proof { lemma_ranks_known(ks, board_mask, r2, r6); } $one_r.generate_board_data();
//@ spec
    requires fair_request(hand_ranges@, board_mask, dead_mask), countable(hand_ranges@, board_mask, dead_mask), alone() == (n_threads <= 1), forall|x: u8| x <= 100 ==> #[trigger] callback.requires((x,)),
    ensures refused(hand_ranges@, board_mask, dead_mask, r), // [C20]
        r is Err && r->Err_0 is ConflictingRanges ==> conflicting(hand_ranges@, board_mask, dead_mask), // [C20]
        r is Ok ==> forall|p: int| 0 <= p < hand_ranges.len() ==> kept((#[trigger] hand_ranges@[p]).hands@, board_mask, dead_mask).len() > 0, // [C20]
        r is Ok && n_threads >= 1 && !cancelled() ==> counts_every_deal(hand_ranges@, board_mask, dead_mask, r->Ok_0), // [C13, C14, C21]
        r is Ok ==> consistent(r->Ok_0) && r->Ok_0.wins.len() == hand_ranges.len() && shares_out(r->Ok_0), // [C13, C16]
        r is Ok ==> classes_add_up(r->Ok_0, hand_ranges.len() as int), // [C17]
        r is Ok ==> labels_right(hand_ranges@, board_mask, dead_mask, r->Ok_0), // [C18]
        r is Ok ==> weights_right(hand_ranges@, board_mask, dead_mask, r->Ok_0), // [C19]
//@ at start
    let ghost token = cancel_token;
    let ghost hs = hand_ranges@;
    let ghost n = hs.len() as int;
    let ghost mut ks: Seq<HandRange> = hs;
    let ghost mut rs: Seq<HandRange> = hs;
    let ghost mut gs: Seq<CombinedRange> = Seq::empty();
    let ghost mut r1: SimulationResults = arbitrary();
    let ghost mut r2: SimulationResults = arbitrary();
    let ghost mut r3: SimulationResults = arbitrary();
    let ghost mut r4: SimulationResults = arbitrary();
    let ghost mut r5: SimulationResults = arbitrary();
    let ghost mut r6: SimulationResults = arbitrary();
    let ghost mut t0: Team = arbitrary();
    let ghost mut tm: Team = arbitrary();
    let ghost mut hy: History = arbitrary();
    let ghost mut called: Seq<int> = Seq::empty();
    proof { lemma_mask_ones(board_mask); lemma_mask_ones(dead_mask); }
//@ loop 2
    invariant groups_of(combined_ranges@, rs), 0 <= k__2 <= combined_ranges.len(), forall|a: int| 0 <= a < k__2 ==> (#[trigger] combined_ranges@[a]).size > 0,
    decreases combined_ranges.len() - k__2,
//@ at stmt `return Err(SimulatorError::ConflictingRanges);` 1 before
    proof { lemma_no_deal(combined_ranges@, k__2 - 1, ks, rs, board_mask, dead_mask); }
//@ at stmt `let sim = ` 1 after
    let mut shared = opened(&sim);
    assert(sim.stopped == token); // [C26]
    __probe!();
    let ghost r0 = shared;
    proof { lemma_at_first(r0, n); }
//@ loop 4
    invariant 0 <= k__4 <= e__4, team == (Team { worlds: team.worlds, ..t0 }), team.worlds@.len() == k__4, exact_workers(sim, team.worlds@),
    decreases e__4 - k__4,
//@ loop 6
    invariant 0 <= k__6 <= rx.len(), called == as_ints(rx@).take(k__6 as int),
    decreases rx.len() - k__6,
//@ at tail
    __probe!();
    proof {
        let (g, z) = (game(rs, board_mask, dead_mask), results);
        assert(n_threads == 1 ==> rises(called) && (!cancelled() ==> called.len() > 0 && called.last() == 100)); // [C23]
        if n_threads >= 1 && !cancelled() {
            lemma_counts_every_deal(hs, ks, rs, board_mask, dead_mask, sim, tm, hy, r3, z); // [C13, C14, C21]
        }
        lemma_shares(tm, hy, r3, n, r5, z); // [C13, C16]
        lemma_classes(tm, hy, r3, n, r5, r6, z); // [C17]
        if size(mask_cards(board_mask)) >= 3 {
            lemma_labels_right(hs, ks, board_mask, dead_mask, r2, r6, z); // [C18]
        }
        lemma_all_quiet_exact(sim, ks, rs, board_mask, dead_mask, tm); // [C19]
        lemma_weights_right(hs, ks, board_mask, dead_mask, tm, hy, r3, z); // [C19]
    }
//@ end
//@ fn src/equity_calculator/simulator.rs approx_equity
//@ ret r
//@ attrs #[verifier::loop_isolation(false)]
//@ rw hand_ranges.to_owned() =>> owned(hand_ranges)
//@ rw hand_ranges.iter_mut().for_each(|$one_h| $e); =>> { let mut i__: usize = 0; while i__ < hand_ranges.len() invariant i__ <= hand_ranges.len(), some_left(hs, hand_ranges@, i__ as int, board_mask, dead_mask), proper(hs), decreases hand_ranges.len() - i__ { proof { lemma_deck_64(hs, i__ as int); } let $one_h = &mut hand_ranges[i__]; i__ += 1; $e; } }
//@ rw CombinedRange::from_ranges(&$e) =>> { let of__ = $e; proof { rs = of__@; ks = hand_ranges@; lemma_prepared(hs, ks, rs, board_mask, dead_mask); } CombinedRange::from_ranges(of__.as_slice()) }
//@ rw reduce_weights(&$e) =>> reduce_weights($e.as_slice())
//@ rw Arc::new($e) =>> { let made__ = $e; proof { gs = made__.combined_ranges@; lemma_ready(hs, ks, rs, board_mask, dead_mask, gs); } made__ }
//@ rw let ($one_t, $one_r) = channel(); =>> let $one_t = sender();
//@ rw thread::scope(|$one_s| $b); =>> proof { r2 = shared; lemma_zeroed(r0, r2, n); } let mut team = assemble(&sim, &shared); proof { t0 = team; } $b proof { tm = team; } shared = team.join(); proof { r3 = shared; hy = choose|h: History| #[trigger] history(tm, h, r3); lemma_left_at(tm, hy, r3, n, hy.whole.len() as int); }
//@ rw $one_s.spawn(move || $b); =>> { let mut world = team.enter(); proof { lemma_idle(team, world, n); } $b team.leave(world); }
//@ rw $one_t.clone() =>> another(&$one_t)
//@ rw Arc::clone(&sim) =>> (&sim)
//@ rw sim.sim_random_walk_monte_carlo(&mut rng, $one_t) =>> sim.sim_random_walk_monte_carlo(&mut rng, $one_t, &mut world)
//@ rw SmallRng::from_rng($e) =>> seeded($e)
//@ rw let mut rng = rng(); =>> let mut rng = thread_rng();
//@ rw let $one_f = sim.save_hand_weights(); =>> proof { r1 = shared; } let $one_f = sim.save_hand_weights(&mut shared); proof { lemma_noted(r0, r1, shared, ks, mask_cards(board_mask)); }
//@ rw sim.set_ranks(); =>> proof { r1 = shared; } sim.set_ranks(&mut shared); proof { lemma_labelled(r0, r1, shared, ks, mask_cards(board_mask)); }
//@ rw sim.fix_hand_weights($e); =>> proof { lemma_kept_weights(ks, r2, r3); } sim.fix_hand_weights($e, &mut shared); proof { r4 = shared; lemma_shown(r3, r4, ks); lemma_weights_shown(ks, r2, r3, r4); lemma_same_consistent(r3, r4); }
//@ rw drop($one_t); =>> let rx = team.messages();
//@ rw callback($one_m) =>> ({ proof { called = called.push(*$one_m as int); lemma_in_range(team, *$one_m as int); } callback(*$one_m) })
//@ rw Arc::try_unwrap(sim).unwrap().results =>> shared
//@ rw $one_r.into_inner().unwrap() =>> $one_r
//@ rw $one_r.get_equity(); =>> $one_r.get_equity(); proof { r5 = $one_r; lemma_small(r5.hand_results@, ks); }
//@ rw $one_r.generate_final_data(); =>> $one_r.generate_final_data(); proof { r6 = $one_r; lemma_classed(r5, r6, n); lemma_counts_chain(r3, r4, r6); lemma_same_weights(r5.hand_results@, r6.hand_results@, ks); lemma_small(r6.hand_results@, ks); }
//@ rw $one_r.generate_board_data(); =>> proof { lemma_ranks_known(ks, board_mask, r2, r6); } $one_r.generate_board_data();
//@ spec
    requires fair_request(hand_ranges@, board_mask, dead_mask), alone() == (n_threads <= 1), forall|x: u8| x <= 100 ==> #[trigger] callback.requires((x,)),
    ensures refused(hand_ranges@, board_mask, dead_mask, r), // [C20]
        r is Err && r->Err_0 is ConflictingRanges ==> conflicting(hand_ranges@, board_mask, dead_mask), // [C20]
        r is Ok ==> forall|p: int| 0 <= p < hand_ranges.len() ==> kept((#[trigger] hand_ranges@[p]).hands@, board_mask, dead_mask).len() > 0, // [C20]
        r is Ok ==> counts_proper_deals(hand_ranges@, board_mask, dead_mask, r->Ok_0), // [C15, C21]
        r is Ok ==> consistent(r->Ok_0) && r->Ok_0.wins.len() == hand_ranges.len() && shares_out(r->Ok_0), // [C16]
        r is Ok ==> classes_add_up(r->Ok_0, hand_ranges.len() as int), // [C17]
        r is Ok ==> labels_right(hand_ranges@, board_mask, dead_mask, r->Ok_0), // [C18]
        r is Ok && n_threads == 1 ==> whole_batches(r->Ok_0) && (!cancelled() ==> target_reached(r->Ok_0, stdev_target.r@) || out_of_luck(hand_ranges@, board_mask, dead_mask)), // [C24]
        r is Ok ==> weights_right(hand_ranges@, board_mask, dead_mask, r->Ok_0), // [C19]
//@ at start
    let ghost token = cancel_token;
    let ghost hs = hand_ranges@;
    let ghost n = hs.len() as int;
    let ghost mut ks: Seq<HandRange> = hs;
    let ghost mut rs: Seq<HandRange> = hs;
    let ghost mut gs: Seq<CombinedRange> = Seq::empty();
    let ghost mut r1: SimulationResults = arbitrary();
    let ghost mut r2: SimulationResults = arbitrary();
    let ghost mut r3: SimulationResults = arbitrary();
    let ghost mut r4: SimulationResults = arbitrary();
    let ghost mut r5: SimulationResults = arbitrary();
    let ghost mut r6: SimulationResults = arbitrary();
    let ghost mut t0: Team = arbitrary();
    let ghost mut tm: Team = arbitrary();
    let ghost mut hy: History = arbitrary();
    let ghost mut called: Seq<int> = Seq::empty();
    let ghost mut old_groups: Seq<CombinedRange> = Seq::empty();
    proof { lemma_mask_ones(board_mask); lemma_mask_ones(dead_mask); }
//@ loop 2
    invariant groups_of(combined_ranges@, rs), old_groups == combined_ranges@, 0 <= k__2 <= combined_ranges.len(), forall|a: int| 0 <= a < k__2 ==> (#[trigger] combined_ranges@[a]).size > 0,
    decreases combined_ranges.len() - k__2,
//@ at loop 2 pre
    proof { old_groups = combined_ranges@; }
//@ at stmt `return Err(SimulatorError::ConflictingRanges);` 1 before
    proof { lemma_no_deal(old_groups, k__2 - 1, ks, rs, board_mask, dead_mask); }
//@ at loop 2 end
    proof { lemma_one_shuffled(old_groups, combined_ranges@, k__2 - 1, rs); old_groups = combined_ranges@; }
//@ at stmt `let sim = ` 1 after
    let mut shared = opened(&sim);
    assert(sim.stopped == token); // [C26]
    __probe!();
    let ghost r0 = shared;
    proof { lemma_at_first(r0, n); }
//@ loop 4
    invariant 0 <= k__4 <= e__4, team == (Team { worlds: team.worlds, ..t0 }), team.worlds@.len() == k__4, walkers(sim, t0, team.worlds@),
    decreases e__4 - k__4,
//@ loop 6
    invariant 0 <= k__6 <= rx.len(), called == as_ints(rx@).take(k__6 as int),
    decreases rx.len() - k__6,
//@ at tail
    __probe!();
    proof {
        let (g, z) = (game(rs, board_mask, dead_mask), results);
        lemma_counts_proper_deals(hs, ks, rs, board_mask, dead_mask, sim, tm, hy, r3, z); // [C15, C21]
        if n_threads == 1 {
            lemma_alone_walk(sim, tm, tm.worlds@[0], r3, z, n); // [C24]
        }
        lemma_shares(tm, hy, r3, n, r5, z); // [C16]
        lemma_classes(tm, hy, r3, n, r5, r6, z); // [C17]
        if size(mask_cards(board_mask)) >= 3 {
            lemma_labels_right(hs, ks, board_mask, dead_mask, r2, r6, z); // [C18]
        }
        lemma_all_quiet_walks(sim, ks, rs, board_mask, dead_mask, tm); // [C19]
        lemma_weights_right(hs, ks, board_mask, dead_mask, tm, hy, r3, z); // [C19]
    }
//@ end
} // verus!
fn main() {}
