// a range whose weights are those of another times m / n has the same weights in lowest terms
proof fn lemma_gcd_scale(a: int, b: int, c: int)
    requires a >= 0, b >= 0, c > 0,
    ensures gcd(c * a, c * b) == c * gcd(a, b), gcd(a, b) >= 0, a > 0 || b > 0 ==> gcd(a, b) > 0,
    decreases b,
{
    assert(c * a >= 0 && c * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0, c > 0;
    if b > 0 {
        assert(c * b > 0) by (nonlinear_arith) requires b > 0, c > 0;
        let (q, r) = (a / b, a % b);
        assert((c * a) % (c * b) == c * (a % b)) by {
            assert(a == b * q + r) by (nonlinear_arith) requires b > 0, q == a / b, r == a % b;
            assert(c * a == (c * b) * q + c * r) by (nonlinear_arith) requires a == b * q + r;
            assert(0 <= c * r < c * b) by (nonlinear_arith) requires 0 <= r < b, c > 0;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c * a, c * b, q, c * r);
        }
        lemma_gcd_scale(b, a % b, c);
    } else { assert(c * 0 == 0) by (nonlinear_arith); }
}
proof fn lemma_gcd_to_scale(x: Seq<RangeCombo>, y: Seq<RangeCombo>, m: int, n: int, k: int)
    requires x.len() == y.len(), m > 0, n > 0, 0 <= k <= x.len(), forall|j: int| 0 <= j < x.len() ==> m * (#[trigger] x[j]).2 == n * y[j].2,
    ensures m * gcd_to(x, k) == n * gcd_to(y, k), gcd_to(x, k) >= 0, gcd_to(y, k) >= 0, forall|j: int| 0 <= j < k && (#[trigger] x[j]).2 > 0 ==> gcd_to(x, k) > 0,
    decreases k,
{
    if k > 0 {
        lemma_gcd_to_scale(x, y, m, n, k - 1);
        lemma_gcd_scale(gcd_to(x, k - 1), x[k - 1].2 as int, m);
        lemma_gcd_scale(gcd_to(y, k - 1), y[k - 1].2 as int, n);
        assert(m * x[k - 1].2 == n * y[k - 1].2);
    } else { assert(m * 0 == 0 && n * 0 == 0) by (nonlinear_arith); }
}
proof fn lemma_gcd_divides(a: int, b: int)
    requires a >= 0, b >= 0, a > 0 || b > 0,
    ensures gcd(a, b) > 0, a % gcd(a, b) == 0, b % gcd(a, b) == 0,
    decreases b,
{
    if b > 0 {
        let (q, r) = (a / b, a % b);
        assert(a == b * q + r && 0 <= r < b) by (nonlinear_arith) requires b > 0, q == a / b, r == a % b;
        lemma_gcd_divides(b, r);
        let g = gcd(b, r);
        let (x, y) = (b / g, r / g);
        assert(b == g * x && r == g * y) by (nonlinear_arith) requires g > 0, b % g == 0, r % g == 0, x == b / g, y == r / g;
        assert(a == (x * q + y) * g) by (nonlinear_arith) requires a == b * q + r, b == g * x, r == g * y;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(x * q + y, g);
    } else { assert(a % a == 0 && 0int % a == 0) by (nonlinear_arith) requires a > 0; }
}
proof fn lemma_gcd_to_divides(h: Seq<RangeCombo>, k: int, j: int)
    requires 0 <= j < k <= h.len(), h[j].2 > 0,
    ensures gcd_to(h, k) > 0, h[j].2 as int % gcd_to(h, k) == 0,
    decreases k,
{
    lemma_gcd_to_scale(h, h, 1, 1, k); lemma_gcd_to_scale(h, h, 1, 1, k - 1);
    let (a, b, w) = (gcd_to(h, k - 1), h[k - 1].2 as int, h[j].2 as int);
    assert(h[j].2 > 0);
    if j < k - 1 {
        lemma_gcd_to_divides(h, k - 1, j);
        lemma_gcd_divides(a, b);
        let g = gcd(a, b);
        let (x, y) = (w / a, a / g);
        assert(w == a * x && a == g * y) by (nonlinear_arith) requires a > 0, g > 0, w % a == 0, a % g == 0, x == w / a, y == a / g;
        assert(w == (x * y) * g) by (nonlinear_arith) requires w == a * x, a == g * y;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(x * y, g);
    } else { lemma_gcd_divides(a, b); }
}
// the weights are divided without a remainder
pub proof fn theorem_exact(a: HandRange, b: HandRange, k: int)
    requires lowest(a, b), 0 <= k < a.hands.len(),
    ensures ({ let g = gcd_to(a.hands@, a.hands.len() as int); a.hands@[k].2 == (if g > 1 { g } else { 1 }) * b.hands@[k].2 }),
{
    let g = gcd_to(a.hands@, a.hands.len() as int);
    let (u, v) = (a.hands@[k].2 as int, b.hands@[k].2 as int);
    if u > 0 {
        lemma_gcd_to_divides(a.hands@, a.hands.len() as int, k);
        assert(v == if g > 1 { u / g } else { u });
        if g > 1 { assert(u == g * v) by (nonlinear_arith) requires u % g == 0, g > 1, v == u / g; } else { assert(g == 1); }
    } else if g > 1 { assert(0int / g == 0) by (nonlinear_arith) requires g > 1; assert(g * 0 == 0) by (nonlinear_arith); }
}
// C21: a common factor makes no difference
pub proof fn theorem_scale(a: HandRange, b: HandRange, la: HandRange, lb: HandRange, m: int, n: int)
    requires lowest(a, la), lowest(b, lb), a.hands.len() == b.hands.len(), m > 0, n > 0,
        forall|k: int| 0 <= k < a.hands.len() ==> (#[trigger] a.hands@[k]).0 == b.hands@[k].0 && a.hands@[k].1 == b.hands@[k].1 && m * a.hands@[k].2 == n * b.hands@[k].2,
    ensures la.hands@ =~= lb.hands@,
{
    let (x, y) = (a.hands@, b.hands@);
    let (g, h) = (gcd_to(x, x.len() as int), gcd_to(y, y.len() as int));
    lemma_gcd_to_scale(x, y, m, n, x.len() as int);
    assert forall|k: int| 0 <= k < x.len() implies #[trigger] la.hands@[k] == lb.hands@[k] by {
        let (u, v) = (x[k].2 as int, y[k].2 as int);
        assert(m * u == n * v);
        if u > 0 {
            assert(g > 0);
            assert(h > 0) by (nonlinear_arith) requires m * g == n * h, m > 0, n > 0, g > 0;
            let (s, t) = (if g > 1 { u / g } else { u }, if h > 1 { v / h } else { v });
            assert(s == u / g && t == v / h) by (nonlinear_arith) requires s == (if g > 1 { u / g } else { u }), t == (if h > 1 { v / h } else { v }), g > 0, h > 0;
            assert(m * g > 0) by (nonlinear_arith) requires m > 0, g > 0;
            vstd::arithmetic::div_mod::lemma_div_denominator(m * u, m, g);
            vstd::arithmetic::div_mod::lemma_div_denominator(n * v, n, h);
            assert((m * u) / m == u && (n * v) / n == v) by (nonlinear_arith) requires m > 0, n > 0;
            assert(u / g == (m * u) / (m * g));
            assert(v / h == (n * v) / (n * h));
        } else {
            assert(u == 0 && v == 0) by (nonlinear_arith) requires u <= 0, u >= 0, v >= 0, m * u == n * v, m > 0, n > 0;
            if g > 1 { assert(0int / g == 0) by (nonlinear_arith) requires g > 1; }
            if h > 1 { assert(0int / h == 0) by (nonlinear_arith) requires h > 1; }
        }
        assert(la.hands@[k].2 == lb.hands@[k].2 && la.hands@[k].0 == lb.hands@[k].0 && la.hands@[k].1 == lb.hands@[k].1);
    }
}
proof fn lemma_gcd_same(h: Seq<RangeCombo>, w: int, k: int)
    requires w > 0, 0 < k <= h.len(), forall|j: int| 0 <= j < h.len() ==> (#[trigger] h[j]).2 == w,
    ensures gcd_to(h, k) == w,
    decreases k,
{
    assert(h[k - 1].2 == w);
    assert(0int % w == 0 && w % w == 0) by (nonlinear_arith) requires w > 0;
    if k > 1 { lemma_gcd_same(h, w, k - 1); reveal_with_fuel(gcd, 3); } else { reveal_with_fuel(gcd_to, 2); reveal_with_fuel(gcd, 3); }
}
// C21: hands of one common weight count once each
pub proof fn theorem_same(a: HandRange, b: HandRange, w: int)
    requires lowest(a, b), w > 0, forall|k: int| 0 <= k < a.hands.len() ==> (#[trigger] a.hands@[k]).2 == w,
    ensures forall|k: int| 0 <= k < b.hands.len() ==> (#[trigger] b.hands@[k]).2 == 1,
{
    if a.hands.len() > 0 { lemma_gcd_same(a.hands@, w, a.hands.len() as int); assert(w / w == 1) by (nonlinear_arith) requires w > 0; }
    assert forall|k: int| 0 <= k < b.hands.len() implies (#[trigger] b.hands@[k]).2 == 1 by { assert(a.hands@[k].2 == w); }
}
