// ------------------------------------------------------------------------------------------
// The number of ones of a word.
pub assume_specification[ u64::count_ones ](x: u64) -> (r: u32) ensures r == ones(x, 64);
pub open spec fn ones(x: u64, n: int) -> int decreases n { if n <= 0 { 0 } else { ones(x, n - 1) + b2i(x & (1u64 << (n - 1) as u64) != 0) } }
