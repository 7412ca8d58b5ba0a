// ------------------------------------------------------------------------------------------
// f64 taken as exact real numbers (rounding is not modelled; a division by zero is any value).
#[derive(Clone, Copy)]
pub struct F64 { pub r: Ghost<real> }
pub open spec fn rl(x: int) -> real { x as real }
pub open spec fn f64v(x: real) -> F64 { F64 { r: Ghost(x) } }
impl vstd::std_specs::ops::AddSpecImpl<F64> for F64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: F64) -> bool { true } open spec fn add_spec(self, o: F64) -> F64 { f64v(self.r@ + o.r@) } }
impl Add for F64 { type Output = F64; #[verifier::external_body] fn add(self, o: F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<F64> for F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: F64) -> bool { true } open spec fn sub_spec(self, o: F64) -> F64 { f64v(self.r@ - o.r@) } }
impl std::ops::Sub for F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<F64> for F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: F64) -> bool { true } open spec fn mul_spec(self, o: F64) -> F64 { f64v(self.r@ * o.r@) } }
impl std::ops::Mul for F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<F64> for F64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: F64) -> bool { true } open spec fn div_spec(self, o: F64) -> F64 { f64v(self.r@ / o.r@) } }
impl std::ops::Div for F64 { type Output = F64; #[verifier::external_body] fn div(self, o: F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<F64> for F64 { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, o: F64) -> bool { true } open spec fn add_assign_spec(&self, o: F64) -> &F64 { &f64v(self.r@ + o.r@) } }
impl AddAssign for F64 { #[verifier::external_body] fn add_assign(&mut self, o: F64) { unimplemented!() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<F64> for F64 { open spec fn obeys_div_assign_spec() -> bool { true } open spec fn div_assign_req(&self, o: F64) -> bool { true } open spec fn div_assign_spec(&self, o: F64) -> &F64 { &f64v(self.r@ / o.r@) } }
impl std::ops::DivAssign for F64 { #[verifier::external_body] fn div_assign(&mut self, o: F64) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<F64> for F64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F64) -> bool { self.r@ == o.r@ } }
impl PartialEq for F64 { #[verifier::external_body] fn eq(&self, o: &F64) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl<F64> for F64 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &F64) -> Option<std::cmp::Ordering> { Some(if self.r@ < o.r@ { std::cmp::Ordering::Less } else if self.r@ == o.r@ { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }) } }
impl PartialOrd for F64 { #[verifier::external_body] fn partial_cmp(&self, o: &F64) -> Option<std::cmp::Ordering> { unimplemented!() } }
#[verifier::external_body]
fn f64_of(x: u128) -> (r: F64)
    ensures r.r@ == rl(x as int),
{ unimplemented!() }
#[verifier::external_body]
fn f64_lit(x: u128, y: u128) -> (r: F64)
    ensures r.r@ == rl(x as int) / rl(y as int),
{ unimplemented!() }
pub uninterp spec fn root(x: real) -> real;
impl F64 {
    // the real square root, where there is one
    #[verifier::external_body] fn sqrt(self) -> (r: F64) ensures r.r@ == root(self.r@), self.r@ >= 0real ==> r.r@ >= 0real && r.r@ * r.r@ == self.r@, { unimplemented!() }
    #[verifier::external_body] fn powi(self, n: i32) -> (r: F64) ensures n == 2 ==> r.r@ == self.r@ * self.r@, { unimplemented!() }
}
// `as u8`: towards zero, within 0..=255
pub open spec fn cut_to(x: real, k: int) -> bool { (0real <= x < 256real ==> rl(k) <= x < rl(k + 1)) && (x < 0real ==> k == 0) && (x >= 256real ==> k == 255) }
#[verifier::external_body]
fn f64_to_u8(x: F64) -> (r: u8)
    ensures cut_to(x.r@, r as int),
{ unimplemented!() }
