/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/rsum.vrs*/
/*@include ../inc/objectives.vrs*/
// ---- the constant is the minimiser of the weighted squared loss
pub open spec fn sq_loss(y: Seq<F64>, w: Seq<F64>, n: int, c: real) -> real decreases n {
    if n <= 0 { 0real } else { sq_loss(y, w, n - 1, c) + w[n - 1].v() * ((c - y[n - 1].v()) * (c - y[n - 1].v())) }
}
pub open spec fn wyy(y: Seq<F64>, w: Seq<F64>, n: int) -> real decreases n { if n <= 0 { 0real } else { wyy(y, w, n - 1) + w[n - 1].v() * (y[n - 1].v() * y[n - 1].v()) } }
proof fn one_row(w: real, c: real, y: real) ensures w * ((c - y) * (c - y)) == (c * c) * w - (2real * c) * (w * y) + w * (y * y) {
    assert(w * ((c - y) * (c - y)) == (c * c) * w - (2real * c) * (w * y) + w * (y * y)) by (nonlinear_arith);
}
proof fn dist(a: real, x: real, y: real) ensures a * (x + y) == a * x + a * y { assert(a * (x + y) == a * x + a * y) by (nonlinear_arith); }
proof fn lemma_poly(y: Seq<F64>, w: Seq<F64>, n: int, c: real)
    requires 0 <= n <= y.len(), y.len() == w.len(),
    ensures sq_loss(y, w, n, c) == (c * c) * ww(w, n) - (2real * c) * wy(y, w, n) + wyy(y, w, n),
    decreases n
{
    if n > 0 {
        lemma_poly(y, w, n - 1, c);
        one_row(w[n - 1].v(), c, y[n - 1].v());
        dist(c * c, ww(w, n - 1), w[n - 1].v());
        reveal(rmul);
        dist(2real * c, wy(y, w, n - 1), w[n - 1].v() * y[n - 1].v());
    } else {
        assert((c * c) * 0real == 0real && (2real * c) * 0real == 0real);
    }
}
pub proof fn squared_init_is_optimal(y: Seq<F64>, w: Seq<F64>, m: real, c: real)
    requires y.len() == w.len(), ww(w, y.len() as int) > 0real, ww(w, y.len() as int) * m == wy(y, w, y.len() as int),
    ensures sq_loss(y, w, y.len() as int, m) <= sq_loss(y, w, y.len() as int, c),
{
    let n = y.len() as int;
    lemma_poly(y, w, n, m);
    lemma_poly(y, w, n, c);
    let W = ww(w, n);
    let B = wy(y, w, n);
    // loss(c) - loss(m) = W (c - m)^2
    assert((c * c) * W - (2real * c) * B - (m * m) * W + (2real * m) * B == W * ((c - m) * (c - m))) by (nonlinear_arith) requires W * m == B;
    assert((c - m) * (c - m) >= 0real) by (nonlinear_arith);
    let z = (c - m) * (c - m);
    assert(W * z >= 0real) by (nonlinear_arith) requires W > 0real, z >= 0real;
}
} fn main() {}
