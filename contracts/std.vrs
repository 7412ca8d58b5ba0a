// Standard library functions whose meaning is assumed
#[verifier::external_body]
fn rt_assert(b: bool)
    requires b,
{ assert!(b) }
pub assume_specification[ u64::is_power_of_two ](n: u64) -> (r: bool)
    ensures r == exists|k: nat| k < 64 && n == #[trigger] vstd::arithmetic::power2::pow2(k),
;
