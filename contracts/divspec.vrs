//@ item src/fastdivide.rs enum DividerU64 derive=Clone,Copy

// -------- what a divider has to satisfy to stand for d
// m d exceeds 2^k by a little
pub open spec fn off_by(m: int, d: int, k: nat) -> int { m * d - pow2(k) }
pub open spec fn magic_for(m: int, d: int, k: nat, s: nat) -> bool { 0 < off_by(m, d, k) <= pow2(s) }
pub open spec fn stands_for(v: DividerU64, d: u64) -> bool {
    d > 0 && match v {
        DividerU64::BitShift(s) => s < 64 && d == pow2(s as nat),
        DividerU64::Fast { magic, shift } => shift < 64 && magic_for(magic as int, d as int, (64 + shift) as nat, shift as nat),
        DividerU64::General { magic_low, shift } => shift < 64 && magic_for(magic_low + 0x1_0000_0000_0000_0000, d as int, (65 + shift) as nat, (1 + shift) as nat),
    }
}

