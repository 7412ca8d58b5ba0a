// C06: division by the precomputed divider is integer division.
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
use vstd::bits::*;
verus! {
global size_of usize == 8;

//@ include std
//@ include divspec
// -------- arithmetic
proof fn lemma_magic(m: int, d: int, n: int, p: int, e: int)
    requires d > 0, n >= 0, p > 0, e > 0, m * d == p + e, e * n < p,
    ensures (m * n) / p == n / d,
{
    let q = n / d;
    let r = n % d;
    lemma_fundamental_div_mod(n, d);
    assert(n == d * q + r);
    assert(q >= 0) by (nonlinear_arith) requires n >= 0, d > 0, q == n / d;
    // m n d = p n + e n
    assert(m * n * d == p * n + e * n) by (nonlinear_arith) requires m * d == p + e;
    let x = m * n - p * q;
    assert(x * d == p * r + e * n) by (nonlinear_arith) requires m * n * d == p * n + e * n, n == d * q + r, x == m * n - p * q;
    assert(x >= 0) by (nonlinear_arith) requires x * d == p * r + e * n, d > 0, p > 0, r >= 0, e > 0, n >= 0;
    assert(p * r + e * n < p * d) by (nonlinear_arith) requires r <= d - 1, p > 0, e * n < p;
    assert(x < p) by (nonlinear_arith) requires x * d == p * r + e * n, p * r + e * n < p * d, d > 0;
    assert(m * n == q * p + x) by (nonlinear_arith) requires x == m * n - p * q;
    lemma_fundamental_div_mod_converse(m * n, p, q, x);
}
proof fn lemma_pow2_consts()
    ensures pow2(64) == 0x1_0000_0000_0000_0000, pow2(0) == 1, pow2(63) == 0x8000_0000_0000_0000,
{
    lemma2_to64(); lemma2_to64_rest();
    lemma_pow2_unfold(65);
}
proof fn lemma_en(e: int, n: int, s: nat)
    requires 0 < e <= pow2(s), 0 <= n < 0x1_0000_0000_0000_0000,
    ensures e * n < pow2(64 + s),
{
    lemma_pow2_consts();
    lemma_pow2_adds(64, s);
    lemma_pow2_pos(s);
    let ps = pow2(s) as int;
    assert(e * n < ps * 0x1_0000_0000_0000_0000) by (nonlinear_arith) requires 0 < e <= ps, 0 <= n < 0x1_0000_0000_0000_0000;
}
// a divisor of a power of two is a power of two
proof fn lemma_div_pow2(d: int, k: nat, c: int) -> (j: nat)
    requires d > 0, c * d == pow2(k),
    ensures d == pow2(j), j <= k,
    decreases k,
{
    lemma_pow2_pos(k);
    assert(c > 0) by (nonlinear_arith) requires c * d > 0, d > 0, c * d == pow2(k), pow2(k) > 0;
    if k == 0 {
        lemma2_to64();
        assert(d == 1) by (nonlinear_arith) requires c * d == 1, c > 0, d > 0;
        return 0;
    }
    lemma_pow2_unfold(k);
    if c % 2 == 0 {
        assert((c / 2) * d == pow2((k - 1) as nat)) by (nonlinear_arith) requires c % 2 == 0, c * d == 2 * pow2((k - 1) as nat);
        return lemma_div_pow2(d, (k - 1) as nat, c / 2);
    }
    if d % 2 == 1 {
        let (a, b) = (c / 2, d / 2);
        assert(c * d == 2 * (2 * a * b + a + b) + 1) by (nonlinear_arith) requires c == 2 * a + 1, d == 2 * b + 1;
        assert(false);
    }
    assert(c * (d / 2) == pow2((k - 1) as nat)) by (nonlinear_arith) requires d % 2 == 0, c * d == 2 * pow2((k - 1) as nat);
    let j = lemma_div_pow2(d / 2, (k - 1) as nat, c);
    lemma_pow2_unfold(j + 1);
    j + 1
}
proof fn lemma_shl_u128(s: u32)
    requires s < 128,
    ensures (1u128 << s) == pow2(s as nat),
    decreases s,
{
    if s == 0 { assert(1u128 << 0 == 1) by (bit_vector); lemma2_to64(); return; }
    lemma_shl_u128((s - 1) as u32);
    let p = (s - 1) as u32;
    assert(1u128 << s == 2 * (1u128 << p)) by (bit_vector) requires 0 < s < 128, p == s - 1;
    lemma_pow2_unfold(s as nat);
}
proof fn lemma_shl_u64(s: u64)
    requires s < 64,
    ensures (1u64 << s) == pow2(s as nat),
{
    lemma_pow2_consts();
    lemma_u64_pow2_no_overflow(s as nat);
    lemma_u64_shl_is_mul(1, s);
}

//@ fn src/fastdivide.rs libdivide_mullhi_u64
//@ ret r
//@ spec
    ensures r == (x as int * y as int) / 0x1_0000_0000_0000_0000,
//@ at start
    proof {
        assert(x as int * y as int <= 0xffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff) by (nonlinear_arith) requires 0 <= x <= 0xffff_ffff_ffff_ffff, 0 <= y <= 0xffff_ffff_ffff_ffff;
        let z = (x as u128 * y as u128) as u128;
        lemma_u128_shr_is_div(z, 64u128);
        lemma_pow2_consts();
        assert(z / 0x1_0000_0000_0000_0000 < 0x1_0000_0000_0000_0000) by (nonlinear_arith) requires z <= 0xffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff;
    }
//@ end

spec fn floor_log2_spec(d: u64) -> int { 63 - vstd::std_specs::bits::u64_leading_zeros(d) }
proof fn lemma_floor(n: u64)
    requires n > 0,
    ensures 0 <= floor_log2_spec(n) < 64, pow2(floor_log2_spec(n) as nat) <= n < pow2((floor_log2_spec(n) + 1) as nat),
    decreases n,
{
    vstd::std_specs::bits::axiom_u64_leading_zeros(n);
    lemma2_to64();
    reveal_with_fuel(vstd::std_specs::bits::u64_leading_zeros, 2);
    if n > 1 {
        lemma_floor(n / 2);
        let f = floor_log2_spec(n / 2);
        lemma_pow2_unfold((f + 1) as nat);
        lemma_pow2_unfold((f + 2) as nat);
    }
}
//@ fn src/fastdivide.rs floor_log2
//@ ret r
//@ spec
    requires n > 0,
    ensures r < 64, pow2(r as nat) <= n < pow2((r + 1) as nat),
//@ rw? assert_ne!($a, $b) =>> rt_assert($a != $b)
//@ at start
    proof { lemma_floor(n); }
//@ end

//@ fn src/fastdivide.rs DividerU64::power_of_2_division
//@ ret r
//@ spec
    ensures
        match r { Some(v) => stands_for(v, divisor), None => divisor == 0 || forall|k: nat| k < 64 ==> divisor != pow2(k) },
//@ at stmt `floor_log2` 1 before
    proof {
        let k = choose|k: nat| k < 64 && divisor == pow2(k);
        assert forall|j: nat| j < 64 && pow2(j) <= divisor < #[trigger] pow2(j + 1) implies j == k by {
            if j < k { lemma_pow2_strictly_increases(j, k); if j + 1 < k { lemma_pow2_strictly_increases(j + 1, k); } }
            else if k < j { lemma_pow2_strictly_increases(k, j); }
        }
    }
//@ end

//@ fn src/fastdivide.rs DividerU64::fast_path
//@ ret r
//@ spec
    requires divisor > 0, forall|k: nat| k < 64 ==> divisor != pow2(k),
    ensures r matches Some(v) ==> stands_for(v, divisor),
//@ rw? assert!($e) =>> rt_assert($e)
//@ at stmt `let u =` 1 after
    proof {
        lemma_shl_u128((floor_log_2_d + 64) as u32);
        lemma_pow2_consts();
        lemma_pow2_adds(64, floor_log_2_d as nat);
        let p = u as int; let d = divisor as int;
        lemma_fundamental_div_mod(p, d);
        let q = p / d;
        assert(q * d == d * q) by (nonlinear_arith);
        assert(q >= 0) by (nonlinear_arith) requires p >= 0, d > 0, q == p / d;
        lemma_pow2_pos(floor_log_2_d as nat);
        assert(q <= 0xffff_ffff_ffff_ffff) by (nonlinear_arith)
            requires d * q <= p, p == 0x1_0000_0000_0000_0000 * pow2(floor_log_2_d as nat), d > pow2(floor_log_2_d as nat), pow2(floor_log_2_d as nat) > 0, q >= 0;
        assert(0 <= q * d <= p);
        if p % d == 0 {
            let j = lemma_div_pow2(d, (64 + floor_log_2_d) as nat, q);
            if j >= 64 { if j > 64 { lemma_pow2_strictly_increases(64, j); }; }
        }
        assert(q != 0xffff_ffff_ffff_ffff) by {
            if q == 0xffff_ffff_ffff_ffff {
                // then d (2^64 - 1) <= 2^64 * 2^f with d > 2^f
                let f = pow2(floor_log_2_d as nat) as int;
                assert(floor_log_2_d <= 63);
                if floor_log_2_d == 63 { } else { lemma_pow2_strictly_increases(floor_log_2_d as nat, 63); }
                assert(d * 0xffff_ffff_ffff_ffff <= 0x1_0000_0000_0000_0000 * f);
                assert(d >= f + 1);
                assert(f < 0xffff_ffff_ffff_ffff);
                assert(false) by (nonlinear_arith) requires d * 0xffff_ffff_ffff_ffff <= 0x1_0000_0000_0000_0000 * f, d >= f + 1, f < 0xffff_ffff_ffff_ffff;
            }
        }
    }
//@ at stmt `let e` 1 after
    proof {
        lemma_shl_u64(floor_log_2_d as u64);
        lemma_pow2_pos(floor_log_2_d as nat);
        assert((1u64 << floor_log_2_d) == (1u64 << (floor_log_2_d as u64)));
        let m = proposed_magic_number as int + 1;
        let d = divisor as int;
        assert(m * d == pow2((64 + floor_log_2_d) as nat) + e) by (nonlinear_arith)
            requires m == proposed_magic_number as int + 1, e == d - reminder, reminder == pow2((64 + floor_log_2_d) as nat) - proposed_magic_number as int * d;
    }
//@ end

//@ fn src/fastdivide.rs DividerU64::general_path
//@ ret r
//@ spec
    requires divisor > 0, forall|k: nat| k < 64 ==> divisor != pow2(k),
    ensures stands_for(r, divisor),
//@ at start
    proof {
        vstd::std_specs::bits::axiom_u64_leading_zeros(divisor);
        let f = floor_log2_spec(divisor); lemma_floor(divisor);
        lemma_shl_u128((64 + f) as u32);
        lemma_pow2_consts();
        lemma_pow2_adds(64, f as nat);
        lemma_pow2_adds(1, (64 + f) as nat); 
        lemma_pow2_adds(64, (f + 1) as nat);
        lemma2_to64();
        lemma_pow2_pos(f as nat);
        assert(pow2((f + 1) as nat) == 2 * pow2(f as nat)) by { lemma_pow2_adds(1, f as nat); }
        lemma_floor(divisor); if f < 63 { lemma_pow2_strictly_increases(f as nat, 63); }
        let e = pow2((64 + f) as nat) as int;
        let d = divisor as int;
        let x = 2 * e - d;
        assert(e >= d);
        lemma_fundamental_div_mod(x, d);
        let q = x / d;
        let m = 2 + q;
        // m d = 2 e + (d - x % d),  0 < d - x % d <= d < 2^(f+1)
        assert(m * d == 2 * e + (d - x % d)) by (nonlinear_arith) requires m == 2 + q, x == d * q + x % d, x == 2 * e - d;
        // 2^64 <= m < 2^65
        let p = pow2(f as nat) as int;
        assert(m > 0x1_0000_0000_0000_0000) by (nonlinear_arith) requires m * d > 2 * e, e == 0x1_0000_0000_0000_0000 * p, d < 2 * p, d > 0, p > 0;
        assert(m < 2 * 0x1_0000_0000_0000_0000) by (nonlinear_arith) requires m * d <= 2 * e + d, e == 0x1_0000_0000_0000_0000 * p, d >= p + 1, p > 0, d > 0, p <= 0x8000_0000_0000_0000, m * d == 2 * e + (d - x % d), x % d >= 0;
        assert(pow2((65 + f) as nat) == 2 * e);
    }
//@ at stmt `let m =` 1 after
    proof {
        assert((m as u64) + 0x1_0000_0000_0000_0000 == m) by {
            assert((m as u64) as u128 + 0x1_0000_0000_0000_0000u128 == m) by (bit_vector) requires 0x1_0000_0000_0000_0000u128 <= m, m < 0x2_0000_0000_0000_0000u128;
        }
        assert(off_by(m as int, divisor as int, (65 + (p - 1)) as nat) == m as int * divisor - pow2((65 + (p - 1)) as nat));
    }
//@ end

//@ fn src/fastdivide.rs DividerU64::divide_by
//@ ret r
//@ spec
    requires divisor > 0,
    ensures stands_for(r, divisor),
//@ rw? assert!($e) =>> rt_assert($e)
//@ rw? $a.or_else(|| $b).unwrap_or_else(|| $c) =>> match $a { Some(x) => x, None => match $b { Some(x) => x, None => $c } }
//@ end

// what divide computes
spec fn value(v: DividerU64, n: u64) -> int {
    match v {
        DividerU64::BitShift(s) => n as int / pow2(s as nat) as int,
        DividerU64::Fast { magic, shift } => ((magic as int * n as int) / 0x1_0000_0000_0000_0000) / pow2(shift as nat) as int,
        DividerU64::General { magic_low, shift } => {
            let q = (magic_low as int * n as int) / 0x1_0000_0000_0000_0000;
            ((n - q) / 2 + q) / pow2(shift as nat) as int
        }
    }
}
proof fn lemma_mulhi(m: int, n: int)
    requires 0 <= m <= 0xffff_ffff_ffff_ffff, 0 <= n <= 0xffff_ffff_ffff_ffff,
    ensures 0 <= (m * n) / 0x1_0000_0000_0000_0000 <= n, 0 <= m * n,
{
    assert(0 <= m * n <= 0xffff_ffff_ffff_ffff * n) by (nonlinear_arith) requires 0 <= m <= 0xffff_ffff_ffff_ffff, 0 <= n;
}
proof fn lemma_divide(v: DividerU64, n: u64, d: u64)
    requires stands_for(v, d),
    ensures value(v, n) == n as int / d as int,
{
    lemma_pow2_consts();
    let b: int = 0x1_0000_0000_0000_0000;
    match v {
        DividerU64::BitShift(s) => {}
        DividerU64::Fast { magic, shift } => {
            let e = off_by(magic as int, d as int, (64 + shift) as nat);
            lemma_en(e, n as int, shift as nat);
            lemma_pow2_pos((64 + shift) as nat); lemma_pow2_pos(shift as nat);
            lemma_magic(magic as int, d as int, n as int, pow2((64 + shift) as nat) as int, e);
            lemma_pow2_adds(64, shift as nat);
            lemma_mulhi(magic as int, n as int);
            lemma_div_denominator(magic as int * n as int, b, pow2(shift as nat) as int);
        }
        DividerU64::General { magic_low, shift } => {
            let m = magic_low + b;
            let s1 = (shift + 1) as nat;
            let e = off_by(m, d as int, (65 + shift) as nat);
            lemma_en(e, n as int, s1);
            lemma_pow2_pos((65 + shift) as nat); lemma_pow2_pos(s1); lemma_pow2_pos(shift as nat);
            lemma_magic(m, d as int, n as int, pow2((65 + shift) as nat) as int, e);
            lemma_pow2_adds(64, s1); lemma_pow2_adds(1, shift as nat); lemma2_to64();
            let x = magic_low as int * n as int;
            lemma_mulhi(magic_low as int, n as int);
            let q = x / b;
            assert(m * n == x + n * b) by (nonlinear_arith) requires m == magic_low + b, x == magic_low as int * n as int;
            lemma_hoist_over_denominator(x, n as int, b as nat);
            assert((m * n) / b == q + n);
            lemma_div_denominator(m * n, b, pow2(s1) as int);
            lemma_div_denominator(q + n, 2, pow2(shift as nat) as int);
            assert((n - q) / 2 + q == (q + n) / 2);
        }
    }
}
//@ fn src/fastdivide.rs DividerU64::divide
//@ ret r
//@ spec
    requires exists|d: u64| stands_for(*self, d),
    ensures forall|d: u64| stands_for(*self, d) ==> r == n / d,
//@ at start
    proof {
        let v = *self;
        assert forall|d: u64| stands_for(v, d) implies value(v, n) == n as int / d as int by { lemma_divide(v, n, d); }
        lemma_pow2_consts();
        match v {
            DividerU64::BitShift(s) => { lemma_u64_shr_is_div(n, s as u64); }
            DividerU64::Fast { magic, shift } => {
                lemma_mulhi(magic as int, n as int);
                lemma_u64_shr_is_div(((magic as int * n as int) / 0x1_0000_0000_0000_0000) as u64, shift as u64);
            }
            DividerU64::General { magic_low, shift } => {
                lemma_mulhi(magic_low as int, n as int);
                let q = (magic_low as int * n as int) / 0x1_0000_0000_0000_0000;
                let h = (n - q) as u64;
                lemma_u64_shr_is_div(h, 1);
                lemma2_to64();
                assert(h >> 1i32 == h >> 1u64) by (bit_vector);
                assert(0 <= h / 2 + q <= n);
                lemma_u64_shr_is_div((h / 2 + q) as u64, shift as u64);
            }
        }
    }
//@ end
impl vstd::std_specs::ops::DivSpecImpl<DividerU64> for u64 {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: DividerU64) -> bool { exists|d: u64| stands_for(o, d) }
    open spec fn div_spec(self, o: DividerU64) -> u64 { arbitrary() }
}
//@ fn src/fastdivide.rs <core::ops::Div<DividerU64> for u64>::div
//@ ret r
//@ spec
    ensures forall|d: u64| stands_for(denom, d) ==> r == self / d,
//@ end

} // verus!
fn main() {}
