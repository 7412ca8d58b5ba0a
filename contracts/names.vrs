// C05: looking up the record of a named hand or class.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include poker
//@ include handtables
//@ include namespec
// the name tables are decided by the checker program tables_names, run on every check
pub axiom fn tables_names()
    ensures names_ok();
#[verifier::external_body]
fn hand_name(i: usize) -> (r: &'static str)
    requires i < 1326,
    ensures r@ == hand_name_at(i as int),
{ unimplemented!() }
#[verifier::external_body]
fn class_name(i: usize) -> (r: &'static str)
    requires i < 169,
    ensures r@ == class_name_at(i as int),
{ unimplemented!() }
// a map from names to numbers (std's HashMap<&str, usize>)
pub struct NameMap { pub m: Ghost<Map<Seq<char>, int>> }
impl NameMap {
    #[verifier::external_body]
    fn new() -> (r: NameMap)
        ensures r.m@ == Map::<Seq<char>, int>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: &str, v: usize)
        ensures final(self).m@ == old(self).m@.insert(k@, v as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&'static usize>)
        ensures r == (if self.m@.dom().contains(k@) { Some(&(self.m@[k@] as usize)) } else { None }), self.m@.dom().contains(k@) ==> *r.unwrap() == self.m@[k@],
    { unimplemented!() }
}
// m gives the names of the first n hands (classes) their numbers, and no other name
pub open spec fn hand_numbers(m: Map<Seq<char>, int>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.dom().contains(#[trigger] hand_name_at(i)) && m[hand_name_at(i)] == i
    &&& forall|s: Seq<char>| #[trigger] m.dom().contains(s) ==> 0 <= m[s] < n && hand_name_at(m[s]) == s
}
pub open spec fn class_numbers(m: Map<Seq<char>, int>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.dom().contains(#[trigger] class_name_at(i)) && m[class_name_at(i)] == i
    &&& forall|s: Seq<char>| #[trigger] m.dom().contains(s) ==> 0 <= m[s] < n && class_name_at(m[s]) == s
}
//@ item src/string_lookup.rs static HAND_TO_INDEX | static HAND_TO_INDEX: LazyLock<HashMap<&str,usize>> = LazyLock::new(|| { let mut $m = HashMap::new(); for $i in 0..$n { $m.insert(INDEX_TO_HAND[$j], $k); } $m }); =>> fn hand_to_index() -> (r: NameMap) ensures hand_numbers(r.m@, 1326), { proof { tables_names(); } let mut $m = NameMap::new(); let mut i__: usize = 0; while i__ < $n invariant i__ <= 1326, names_ok(), hand_numbers($m.m@, i__ as int), decreases 1326 - i__ { let $i = i__; i__ += 1; $m.insert(hand_name($j), $k); } $m }
//@ item src/string_lookup.rs static COMBO_TO_INDEX | static COMBO_TO_INDEX: LazyLock<HashMap<&str,usize>> = LazyLock::new(|| { let mut $m = HashMap::new(); for $i in 0..$n { $m.insert(INDEX_TO_COMBO[$j], $k); } $m }); =>> fn combo_to_index() -> (r: NameMap) ensures class_numbers(r.m@, 169), { proof { tables_names(); } let mut $m = NameMap::new(); let mut i__: usize = 0; while i__ < $n invariant i__ <= 169, names_ok(), class_numbers($m.m@, i__ as int), decreases 169 - i__ { let $i = i__; i__ += 1; $m.insert(class_name($j), $k); } $m }
//@ item src/equity_calculator/simulator.rs const NUM_HANDS
//@ item src/equity_calculator/simulator.rs const NUM_COMBOS
//@ item src/equity_calculator/simulator.rs struct UnitResults
//@ item src/equity_calculator/simulator.rs struct SimulationResults
impl Clone for UnitResults {
    #[verifier::external_body]
    fn clone(&self) -> (r: UnitResults)
        ensures r == *self,
    { unimplemented!() }
}
//@ fn src/equity_calculator/simulator.rs SimulationResults::get_hand_result
//@ ret r
//@ rw? HAND_TO_INDEX.get($e) =>> hand_to_index().get($e)
//@ rw? COMBO_TO_INDEX.get($e) =>> combo_to_index().get($e)
//@ rw? player+index =>> player+*index
//@ spec
    requires player < 9, self.hand_results.len() >= 1326 * (player + 1),
    ensures forall|i: int| 0 <= i < 1326 && #[trigger] hand_name_at(i) == hand@ ==> r.is_ok() && r.unwrap() == self.hand_results@[1326 * player + i],
        (forall|i: int| 0 <= i < 1326 ==> #[trigger] hand_name_at(i) != hand@) ==> r.is_err(),
//@ end
//@ fn src/equity_calculator/simulator.rs SimulationResults::get_combo_result
//@ ret r
//@ rw? HAND_TO_INDEX.get($e) =>> hand_to_index().get($e)
//@ rw? COMBO_TO_INDEX.get($e) =>> combo_to_index().get($e)
//@ rw? player+index =>> player+*index
//@ spec
    requires player < 9, self.combo_results.len() >= 169 * (player + 1),
    ensures forall|i: int| 0 <= i < 169 && #[trigger] class_name_at(i) == hand@ ==> r.is_ok() && r.unwrap() == self.combo_results@[169 * player + i],
        (forall|i: int| 0 <= i < 169 ==> #[trigger] class_name_at(i) != hand@) ==> r.is_err(),
//@ end
} // verus!
fn main() {}
