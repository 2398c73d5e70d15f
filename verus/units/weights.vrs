/*@prelude*/
/*@include ../inc/weights.vrs*/
// ---- the closed form is the optimum of the regularised objective
/// gradient g, hessian h, penalties l1, l2: the objective of weight w is g w + (h + l2) w^2 / 2 + l1 |w|
pub open spec fn objective(g: real, h: real, l1: real, l2: real, w: real) -> real {
    g * w + (h + l2) * (w * w) / 2real + l1 * (if w < 0real { 0real - w } else { w })
}
proof fn mul_sub_dist(a: real, b: real, c: real) ensures (a - b) * c == a * c - b * c { assert((a - b) * c == a * c - b * c) by(nonlinear_arith); }
proof fn nonneg_square(d: real) ensures d * d >= 0real { assert(d * d >= 0real) by(nonlinear_arith); }
proof fn nonneg_prod(a: real, x: real) requires a > 0real, x >= 0real ensures a * x >= 0real { assert(a * x >= 0real) by(nonlinear_arith) requires a > 0real, x >= 0real; }
proof fn dist3(a: real, x: real, y: real, z: real) ensures a * (x - 2real * y + z) == a * x - 2real * (a * y) + a * z { assert(a * (x - 2real * y + z) == a * x - 2real * (a * y) + a * z) by(nonlinear_arith); }
proof fn assoc(a: real, o: real, w: real) ensures a * (w * o) == (a * o) * w { assert(a * (w * o) == (a * o) * w) by(nonlinear_arith); }
proof fn square_expand(a: real, w: real, o: real, t: real)
    requires a > 0real, a * o == t,
    ensures a * (w * w) - 2real * (t * w) + t * o >= 0real, a * (o * o) == t * o,
{
    // (w - o)^2 >= 0, expanded one product at a time
    let d = w - o;
    mul_sub_dist(w, o, d);
    assert(w * d == d * w && o * d == d * o) by(nonlinear_arith);
    mul_sub_dist(w, o, w);
    mul_sub_dist(w, o, o);
    assert(o * w == w * o) by(nonlinear_arith);
    assert(d * d == w * w - 2real * (w * o) + o * o);
    let (ww, wo, oo, dd) = (w * w, w * o, o * o, d * d);
    nonneg_square(d);
    nonneg_prod(a, dd);
    dist3(a, ww, wo, oo);
    assoc(a, o, w);
    assoc(a, o, o);
    assert(a * wo == t * w);
    assert(a * oo == t * o);
}
pub proof fn weight_is_optimal(g: real, h: real, l1: real, l2: real, w: real)
    requires h + l2 > 0real, l1 >= 0real,
    ensures objective(g, h, l1, l2, opt_weight(l1, l2, 0real, g, h)) <= objective(g, h, l1, l2, w),
{
    reveal(opt_weight); reveal(gain_w);
    let a = h + l2;
    let s = shrink(g, l1);
    let o = 0real - s / a;
    let t = 0real - s;
    assert(a * o == t) by(nonlinear_arith) requires o == 0real - s / a, a > 0real, t == 0real - s;
    square_expand(a, w, o, t);
    let aw = if w < 0real { 0real - w } else { w };
    let ao = if o < 0real { 0real - o } else { o };
    let ow = objective(g, h, l1, l2, w);
    let oo = objective(g, h, l1, l2, o);
    if g > l1 {
        mul_sub_dist(l1, g, w);
        mul_sub_dist(l1, g, o);
        assert(o <= 0real) by(nonlinear_arith) requires a * o == t, t < 0real, a > 0real;
        assert(l1 * aw >= 0real - l1 * w) by(nonlinear_arith) requires aw >= 0real - w, l1 >= 0real;
        assert(l1 * ao == 0real - l1 * o) by(nonlinear_arith) requires ao == 0real - o;
    } else if g < 0real - l1 {
        mul_sub_dist(0real - l1, g, w);
        mul_sub_dist(0real - l1, g, o);
        assert((0real - l1) * w == 0real - l1 * w) by(nonlinear_arith);
        assert((0real - l1) * o == 0real - l1 * o) by(nonlinear_arith);
        assert(o >= 0real) by(nonlinear_arith) requires a * o == t, t > 0real, a > 0real;
        assert(l1 * aw >= l1 * w) by(nonlinear_arith) requires aw >= w, l1 >= 0real;
        assert(l1 * ao == l1 * o);
    } else {
        assert(o == 0real) by(nonlinear_arith) requires a * o == t, t == 0real, a > 0real;
        if w >= 0real {
            assert(g * w >= 0real - l1 * w) by(nonlinear_arith) requires g >= 0real - l1, w >= 0real;
        } else {
            assert(g * w >= l1 * w) by(nonlinear_arith) requires g <= l1, w <= 0real;
            assert(l1 * (0real - w) == 0real - l1 * w) by(nonlinear_arith);
        }
        assert(a * (w * w) >= 0real) by(nonlinear_arith) requires a > 0real;
        assert(a * (o * o) == 0real && g * o == 0real && l1 * ao == 0real) by(nonlinear_arith) requires o == 0real, ao == 0real;
    }
}
/// with no L1 penalty and no limits the gain of the optimal weight is g^2 / (h + l2)
pub proof fn gain_at_optimum(g: real, h: real, l2: real)
    requires h + l2 > 0real,
    ensures gain_w(l2, g, h, opt_weight(0real, l2, 0real, g, h)) == g * g / (h + l2),
{
    reveal(opt_weight); reveal(gain_w);
    let a = h + l2;
    let o = 0real - g / a;
    assert(shrink(g, 0real) == g);
    assert(a * o == 0real - g) by(nonlinear_arith) requires o == 0real - g / a, a > 0real;
    assert(a * (o * o) == (0real - g) * o) by(nonlinear_arith) requires a * o == 0real - g;
    assert(g * o == 0real - (g * g) / a) by(nonlinear_arith) requires o == 0real - g / a, a > 0real;
    assert(2real * g * o == 2real * (g * o)) by(nonlinear_arith);
    assert((0real - g) * o == 0real - g * o) by(nonlinear_arith);
}
} fn main() {}
