//! Quadrature: the node tables, the Gaussian and the composite rules, improper and partial integrals.
use crate::h_assume as assume;
use multicalc::error::IntegrateError;
use multicalc::gaussian_tables::nodes;
use multicalc::numerical_integration::GaussianQuadratureMethod as G;
use multicalc::numerical_integration::IterativeMethod as I;
use multicalc::numerical_integration::*;

#[inline(never)]
pub fn opaque_f(x: f64) -> f64 {
    x
}
#[inline(never)]
pub fn opaque_g(x: f64, y: f64, z: f64) -> f64 {
    x + y + z
}
// ---- node tables, read off as constants by props/c05.py ----
fn h_table<const N: usize>(m: G) -> (usize, [(f64, f64); N]) {
    let t = nodes(m, N).unwrap();
    let mut o = [(0.0, 0.0); N];
    for i in 0..N {
        o[i] = t[i];
    }
    (t.len(), o)
}
macro_rules! tables {
    ($($n:literal $a:ident $b:ident $c:ident),*) => { $(
        pub fn $a() -> (usize, [(f64, f64); $n]) { h_table::<$n>(G::GaussLegendre) }
        pub fn $b() -> (usize, [(f64, f64); $n]) { h_table::<$n>(G::GaussHermite) }
        pub fn $c() -> (usize, [(f64, f64); $n]) { h_table::<$n>(G::GaussLaguerre) }
    )* };
}
tables!(1 h_legendre_1 h_hermite_1 h_laguerre_1, 2 h_legendre_2 h_hermite_2 h_laguerre_2, 3 h_legendre_3 h_hermite_3 h_laguerre_3,
    4 h_legendre_4 h_hermite_4 h_laguerre_4, 5 h_legendre_5 h_hermite_5 h_laguerre_5, 6 h_legendre_6 h_hermite_6 h_laguerre_6,
    7 h_legendre_7 h_hermite_7 h_laguerre_7, 8 h_legendre_8 h_hermite_8 h_laguerre_8, 9 h_legendre_9 h_hermite_9 h_laguerre_9,
    10 h_legendre_10 h_hermite_10 h_laguerre_10, 11 h_legendre_11 h_hermite_11 h_laguerre_11, 12 h_legendre_12 h_hermite_12 h_laguerre_12,
    13 h_legendre_13 h_hermite_13 h_laguerre_13, 14 h_legendre_14 h_hermite_14 h_laguerre_14, 15 h_legendre_15 h_hermite_15 h_laguerre_15,
    16 h_legendre_16 h_hermite_16 h_laguerre_16, 17 h_legendre_17 h_hermite_17 h_laguerre_17, 18 h_legendre_18 h_hermite_18 h_laguerre_18,
    19 h_legendre_19 h_hermite_19 h_laguerre_19, 20 h_legendre_20 h_hermite_20 h_laguerre_20, 21 h_legendre_21 h_hermite_21 h_laguerre_21,
    22 h_legendre_22 h_hermite_22 h_laguerre_22, 23 h_legendre_23 h_hermite_23 h_laguerre_23, 24 h_legendre_24 h_hermite_24 h_laguerre_24,
    25 h_legendre_25 h_hermite_25 h_laguerre_25, 26 h_legendre_26 h_hermite_26 h_laguerre_26, 27 h_legendre_27 h_hermite_27 h_laguerre_27,
    28 h_legendre_28 h_hermite_28 h_laguerre_28, 29 h_legendre_29 h_hermite_29 h_laguerre_29, 30 h_legendre_30 h_hermite_30 h_laguerre_30);

pub fn orders_refused() -> ([bool; 6], [bool; 6]) {
    let r = |m: G, n: usize| nodes(m, n) == Err(IntegrateError::QuadratureOrderOutOfRange);
    ([r(G::GaussLegendre, 0), r(G::GaussLegendre, 31), r(G::GaussHermite, 0), r(G::GaussHermite, 31), r(G::GaussLaguerre, 0), r(G::GaussLaguerre, 1000)], [true; 6])
}
// ---- Gaussian rules ----
fn h_gauss(m: G, n: usize, a: f64, b: f64) -> f64 {
    let mut s = 0.0;
    for &(w, x) in nodes(m, n).unwrap() {
        s += w * opaque_f((b - a) / 2.0 * x + (a + b) / 2.0);
    }
    s * (b - a) / 2.0
}
fn h_plain(m: G, n: usize) -> f64 {
    let mut s = 0.0;
    for &(w, x) in nodes(m, n).unwrap() {
        s += w * opaque_f(x);
    }
    s
}
pub fn legendre_rule(a: f64, b: f64) -> ([f64; 4], [f64; 4]) {
    assume(a < b);
    let r = |n: usize| GaussianSingle::<f64>::from_parameters(n, G::GaussLegendre).single_integral(&opaque_f, &[a, b]).unwrap();
    let e = |n: usize| h_gauss(G::GaussLegendre, n, a, b);
    ([r(1), r(2), r(5), r(30)], [e(1), e(2), e(5), e(30)])
}
pub fn legendre_default(a: f64, b: f64) -> (f64, f64) {
    assume(a < b);
    (GaussianSingle::<f64>::default().single_integral(&opaque_f, &[a, b]).unwrap(), h_gauss(G::GaussLegendre, 4, a, b))
}
pub fn legendre_twice(a: f64, b: f64, c: f64, d: f64) -> (f64, f64) {
    assume(a < b && c < d);
    let mut s = 0.0;
    for &(w, _) in nodes(G::GaussLegendre, 3).unwrap() {
        s += w;
    }
    (GaussianSingle::<f64>::from_parameters(3, G::GaussLegendre).double_integral(&opaque_f, &[[a, b], [c, d]]).unwrap(), (d - c) / 2.0 * s * h_gauss(G::GaussLegendre, 3, a, b))
}
pub fn hermite_rule() -> ([f64; 3], [f64; 3]) {
    let r = |n: usize| GaussianSingle::<f64>::from_parameters(n, G::GaussHermite).single_integral(&opaque_f, &[f64::NEG_INFINITY, f64::INFINITY]).unwrap();
    ([r(1), r(4), r(17)], [h_plain(G::GaussHermite, 1), h_plain(G::GaussHermite, 4), h_plain(G::GaussHermite, 17)])
}
pub fn laguerre_rule() -> ([f64; 3], [f64; 3]) {
    let r = |n: usize| GaussianSingle::<f64>::from_parameters(n, G::GaussLaguerre).single_integral(&opaque_f, &[0.0, f64::INFINITY]).unwrap();
    ([r(1), r(4), r(17)], [h_plain(G::GaussLaguerre, 1), h_plain(G::GaussLaguerre, 4), h_plain(G::GaussLaguerre, 17)])
}
/// a partial integral moves its own variable and leaves the others at the point
pub fn legendre_partial(p: [f64; 3], a: f64, b: f64) -> ([f64; 3], [f64; 3]) {
    assume(a < b);
    let f = |v: &[f64; 3]| opaque_g(v[0], v[1], v[2]);
    let m = GaussianMulti::<f64>::from_parameters(3, G::GaussLegendre);
    let r = |k: usize| m.single_partial_integral(&f, k, &[a, b], &p).unwrap();
    let e = |k: usize| {
        let mut s = 0.0;
        for &(w, x) in nodes(G::GaussLegendre, 3).unwrap() {
            let mut v = p;
            v[k] = (b - a) / 2.0 * x + (a + b) / 2.0;
            s += w * f(&v);
        }
        s * (b - a) / 2.0
    };
    ([r(0), r(1), r(2)], [e(0), e(1), e(2)])
}
fn h_double(m: G, n: usize, i: usize, j: usize, p: [f64; 3], l: [[f64; 2]; 2]) -> f64 {
    let mut s = 0.0;
    let g = |q: [f64; 2], x: f64| if q[1] < f64::INFINITY { (q[1] - q[0]) / 2.0 * x + (q[0] + q[1]) / 2.0 } else { x };
    let h = |q: [f64; 2]| if q[1] < f64::INFINITY { (q[1] - q[0]) / 2.0 } else { 1.0 };
    for &(w, x) in nodes(m, n).unwrap() {
        for &(u, y) in nodes(m, n).unwrap() {
            let mut v = p;
            v[i] = g(l[0], x);
            v[j] = g(l[1], y);
            s += w * u * opaque_g(v[0], v[1], v[2]);
        }
    }
    s * h(l[0]) * h(l[1])
}
pub fn legendre_double_partial(p: [f64; 3], a: f64, b: f64, c: f64, d: f64) -> ([f64; 3], [f64; 3]) {
    assume(a < b && c < d);
    let f = |v: &[f64; 3]| opaque_g(v[0], v[1], v[2]);
    let m = GaussianMulti::<f64>::from_parameters(2, G::GaussLegendre);
    let l = [[a, b], [c, d]];
    let r = |i: usize, j: usize| m.double_partial_integral(&f, [i, j], &l, &p).unwrap();
    let e = |i: usize, j: usize| h_double(G::GaussLegendre, 2, i, j, p, l);
    ([r(0, 1), r(1, 0), r(2, 0)], [e(0, 1), e(1, 0), e(2, 0)])
}
pub fn hermite_double_partial(p: [f64; 3]) -> ([f64; 2], [f64; 2]) {
    let f = |v: &[f64; 3]| opaque_g(v[0], v[1], v[2]);
    let m = GaussianMulti::<f64>::from_parameters(3, G::GaussHermite);
    let l = [[f64::NEG_INFINITY, f64::INFINITY]; 2];
    let r = |i: usize, j: usize| m.double_partial_integral(&f, [i, j], &l, &p).unwrap();
    let e = |i: usize, j: usize| h_double(G::GaussHermite, 3, i, j, p, l);
    ([r(0, 2), r(1, 0)], [e(0, 2), e(1, 0)])
}
pub fn laguerre_partial(p: [f64; 3]) -> ([f64; 2], [f64; 2]) {
    let f = |v: &[f64; 3]| opaque_g(v[0], v[1], v[2]);
    let m = GaussianMulti::<f64>::from_parameters(2, G::GaussLaguerre);
    let l = [[0.0, f64::INFINITY]; 2];
    let mut s = 0.0;
    for &(w, x) in nodes(G::GaussLaguerre, 2).unwrap() {
        s += w * opaque_g(p[0], x, p[2]);
    }
    ([m.double_partial_integral(&f, [2, 1], &l, &p).unwrap(), m.single_partial_integral(&f, 1, &l[0], &p).unwrap()], [h_double(G::GaussLaguerre, 2, 2, 1, p, l), s])
}
pub fn gauss_refuses(a: f64, b: f64) -> ([bool; 8], [bool; 8]) {
    assume(a >= b);
    let ill = |m: G, a: f64, b: f64| GaussianSingle::<f64>::from_parameters(3, m).single_integral(&opaque_f, &[a, b]) == Err(IntegrateError::LimitsIllDefined);
    let inf = f64::INFINITY;
    let f = |v: &[f64; 3]| opaque_g(v[0], v[1], v[2]);
    let m = GaussianMulti::<f64>::from_parameters(2, G::GaussLegendre);
    (
        [
            ill(G::GaussLegendre, a, b),
            ill(G::GaussLegendre, a, inf),
            ill(G::GaussLegendre, f64::NAN, b),
            ill(G::GaussHermite, a, inf),
            ill(G::GaussHermite, 0.0, inf),
            ill(G::GaussLaguerre, a - b + 1.0, inf),
            ill(G::GaussLaguerre, -inf, inf),
            m.single_partial_integral(&f, 3, &[0.0, 1.0], &[0.0; 3]) == Err(IntegrateError::IndexOutOfRange),
        ],
        [true; 8],
    )
}
pub fn gauss_multi_refuses(a: f64, b: f64, p: [f64; 3]) -> ([bool; 4], [bool; 4]) {
    assume(a >= b);
    let f = |v: &[f64; 3]| opaque_g(v[0], v[1], v[2]);
    let m = |n: usize| GaussianMulti::<f64>::from_parameters(n, G::GaussLegendre);
    (
        [
            m(2).double_partial_integral(&f, [0, 1], &[[0.0, 1.0], [a, b]], &p) == Err(IntegrateError::LimitsIllDefined),
            m(2).double_partial_integral(&f, [0, 1], &[[a, b], [0.0, 1.0]], &p) == Err(IntegrateError::LimitsIllDefined),
            m(2).double_partial_integral(&f, [0, 5], &[[0.0, 1.0]; 2], &p) == Err(IntegrateError::IndexOutOfRange),
            m(31).double_partial_integral(&f, [0, 1], &[[0.0, 1.0]; 2], &p) == Err(IntegrateError::QuadratureOrderOutOfRange),
        ],
        [true; 4],
    )
}
pub fn gauss_non_finite(a: f64) -> ([bool; 2], [bool; 2]) {
    let f = |x: f64| if x > a { f64::NAN } else { 1.0 };
    let r = GaussianSingle::<f64>::from_parameters(3, G::GaussLegendre).single_integral(&f, &[a - 1.0, a + 1.0]);
    let g = |v: &[f64; 1]| f(v[0]);
    let q = GaussianMulti::<f64>::from_parameters(3, G::GaussLegendre).single_partial_integral(&g, 0, &[a - 1.0, a + 1.0], &[a]);
    ([r == Err(IntegrateError::NonFinite), q == Err(IntegrateError::NonFinite)], [true; 2])
}
// ---- composite rules ----
fn h_poly(c: &[f64; 6], n: usize, x: f64) -> f64 {
    let mut s = 0.0;
    for i in 0..n {
        s = s * x + c[n - 1 - i];
    }
    s
}
fn h_antipoly(c: &[f64; 6], n: usize, x: f64) -> f64 {
    let mut s = 0.0;
    for i in 0..n {
        s = s * x + c[n - 1 - i] / (n - i) as f64;
    }
    s * x
}
fn h_exact(c: &[f64; 6], n: usize, m: I, it: u64, a: f64, b: f64) -> (f64, f64) {
    let s = IterativeSingle::<f64>::from_parameters(it, m);
    (s.single_integral(&|x| h_poly(c, n, x), &[a, b]).unwrap(), h_antipoly(c, n, b) - h_antipoly(c, n, a))
}
pub fn booles_exact_one_panel(c: [f64; 6], a: f64, b: f64) -> (f64, f64) {
    assume(a < b);
    h_exact(&c, 6, I::Booles, 4, a, b)
}
pub fn booles_exact_three_panels(c: [f64; 6], a: f64, b: f64) -> (f64, f64) {
    assume(a < b);
    h_exact(&c, 6, I::Booles, 12, a, b)
}
pub fn booles_exact_rounded(c: [f64; 6], a: f64, b: f64) -> (f64, f64) {
    assume(a < b);
    h_exact(&c, 6, I::Booles, 5, a, b)
}
pub fn booles_exact_default(c: [f64; 6], a: f64, b: f64) -> (f64, f64) {
    assume(a < b);
    (IterativeSingle::<f64>::default().single_integral(&|x| h_poly(&c, 6, x), &[a, b]).unwrap(), h_antipoly(&c, 6, b) - h_antipoly(&c, 6, a))
}
pub fn simpsons_exact_one_panel(c: [f64; 6], a: f64, b: f64) -> (f64, f64) {
    assume(a < b);
    h_exact(&c, 4, I::Simpsons, 3, a, b)
}
pub fn simpsons_exact_three_panels(c: [f64; 6], a: f64, b: f64) -> (f64, f64) {
    assume(a < b);
    h_exact(&c, 4, I::Simpsons, 9, a, b)
}
pub fn simpsons_exact_rounded(c: [f64; 6], a: f64, b: f64) -> (f64, f64) {
    assume(a < b);
    h_exact(&c, 4, I::Simpsons, 4, a, b)
}
pub fn trapezoid_exact(c: [f64; 6], a: f64, b: f64) -> (f64, f64) {
    assume(a < b);
    h_exact(&c, 2, I::Trapezoidal, 5, a, b)
}
pub fn counts_rounded_up() -> ([u64; 8], [u64; 8]) {
    let n = |m: I, n: u64| IterativeConfig::from_parameters(n, m).total_iterations;
    ([n(I::Booles, 1), n(I::Booles, 4), n(I::Booles, 5), n(I::Booles, 11998), n(I::Simpsons, 1), n(I::Simpsons, 3), n(I::Simpsons, 4), n(I::Trapezoidal, 7)], [4, 4, 8, 12000, 3, 3, 6, 7])
}
/// Kahan and pairwise sums agree, and the rule is the weighted sum of its samples
pub fn trapezoid_samples(a: f64, b: f64) -> ([f64; 2], [f64; 2]) {
    assume(a < b);
    let s = IterativeSingle::<f64>::from_parameters(5, I::Trapezoidal);
    let h = (b - a) / 5.0;
    let mut e = opaque_f(a) + opaque_f(b);
    for i in 1..5 {
        e += 2.0 * opaque_f(a + h * i as f64);
    }
    ([s.single_integral(&opaque_f, &[a, b]).unwrap(), s.with_kahan_summation().single_integral(&opaque_f, &[a, b]).unwrap()], [e * h / 2.0; 2])
}
fn h_weight(m: I, i: usize) -> f64 {
    match m {
        I::Booles => [14.0, 32.0, 12.0, 32.0][i % 4] * 2.0 / 45.0,
        I::Simpsons => [2.0, 3.0, 3.0][i % 3] * 3.0 / 8.0,
        I::Trapezoidal => 1.0,
    }
}
/// the composite rule of n intervals over [a, b] of any function of the sample
fn h_composite(m: I, n: usize, a: f64, b: f64, f: &impl Fn(f64) -> f64) -> f64 {
    let h = (b - a) / n as f64;
    let mut e = (f(a) + f(b)) * h_weight(m, 0) / 2.0;
    for i in 1..n {
        e += h_weight(m, i) * f(a + h * i as f64);
    }
    e * h
}
pub fn booles_samples(a: f64, b: f64) -> ([f64; 2], [f64; 2]) {
    assume(a < b);
    let s = IterativeSingle::<f64>::from_parameters(8, I::Booles);
    ([s.single_integral(&opaque_f, &[a, b]).unwrap(), s.with_kahan_summation().single_integral(&opaque_f, &[a, b]).unwrap()], [h_composite(I::Booles, 8, a, b, &opaque_f); 2])
}
pub fn simpsons_samples(a: f64, b: f64) -> ([f64; 2], [f64; 2]) {
    assume(a < b);
    let s = IterativeSingle::<f64>::from_parameters(9, I::Simpsons);
    ([s.single_integral(&opaque_f, &[a, b]).unwrap(), s.with_kahan_summation().single_integral(&opaque_f, &[a, b]).unwrap()], [h_composite(I::Simpsons, 9, a, b, &opaque_f); 2])
}
/// half-open domains go through x = a + t / (1 - t), the whole line through x = tan(pi (t - 1/2))
pub fn upper_infinite(a: f64) -> ([f64; 2], [f64; 2]) {
    let t = 1.0 - f64::EPSILON;
    let g = |t: f64| opaque_f(a + t / (1.0 - t)) / ((1.0 - t) * (1.0 - t));
    let r = |m: I, n: u64| IterativeSingle::<f64>::from_parameters(n, m).single_integral(&opaque_f, &[a, f64::INFINITY]).unwrap();
    ([r(I::Trapezoidal, 3), r(I::Booles, 4)], [h_composite(I::Trapezoidal, 3, 0.0, t, &g), h_composite(I::Booles, 4, 0.0, t, &g)])
}
pub fn lower_infinite(b: f64) -> ([f64; 2], [f64; 2]) {
    let t = 1.0 - f64::EPSILON;
    let g = |t: f64| opaque_f(b - t / (1.0 - t)) / ((1.0 - t) * (1.0 - t));
    let r = |m: I, n: u64| IterativeSingle::<f64>::from_parameters(n, m).single_integral(&opaque_f, &[f64::NEG_INFINITY, b]).unwrap();
    ([r(I::Trapezoidal, 3), r(I::Simpsons, 3)], [h_composite(I::Trapezoidal, 3, 0.0, t, &g), h_composite(I::Simpsons, 3, 0.0, t, &g)])
}
pub fn both_infinite() -> (f64, f64) {
    let e = f64::EPSILON;
    let p = core::f64::consts::PI;
    let g = |t: f64| {
        let x = p * (t - 0.5);
        opaque_f(x.tan()) * p / (x.cos() * x.cos())
    };
    (IterativeSingle::<f64>::from_parameters(3, I::Trapezoidal).single_integral(&opaque_f, &[f64::NEG_INFINITY, f64::INFINITY]).unwrap(), h_composite(I::Trapezoidal, 3, e, 1.0 - e, &g))
}
pub fn twice(a: f64, b: f64, c: f64, d: f64) -> ([f64; 2], [f64; 2]) {
    assume(a < b && c < d);
    let s = |m: I| IterativeSingle::<f64>::from_parameters(4, m).double_integral(&opaque_f, &[[a, b], [c, d]]).unwrap();
    ([s(I::Booles), s(I::Trapezoidal)], [(d - c) * h_composite(I::Booles, 4, a, b, &opaque_f), (d - c) * h_composite(I::Trapezoidal, 4, a, b, &opaque_f)])
}
pub fn partial(p: [f64; 3], a: f64, b: f64) -> ([f64; 3], [f64; 3]) {
    assume(a < b);
    let f = |v: &[f64; 3]| opaque_g(v[0], v[1], v[2]);
    let m = |k: usize| IterativeMulti::<f64>::from_parameters(4, I::Booles).single_partial_integral(&f, k, &[a, b], &p).unwrap();
    let w = |k: usize| {
        h_composite(I::Booles, 4, a, b, &|x| {
            let mut v = p;
            v[k] = x;
            f(&v)
        })
    };
    ([m(0), m(1), m(2)], [w(0), w(1), w(2)])
}
fn h_twofold(m: I, n: usize, i: usize, j: usize, p: [f64; 3], l: [[f64; 2]; 2]) -> f64 {
    h_composite(m, n, l[1][0], l[1][1], &|y| {
        h_composite(m, n, l[0][0], l[0][1], &|x| {
            let mut v = p;
            v[i] = x;
            v[j] = y;
            opaque_g(v[0], v[1], v[2])
        })
    })
}
pub fn double_partial(p: [f64; 3], a: f64, b: f64, c: f64, d: f64) -> ([f64; 3], [f64; 3]) {
    assume(a < b && c < d);
    let f = |v: &[f64; 3]| opaque_g(v[0], v[1], v[2]);
    let l = [[a, b], [c, d]];
    let r = |m: I, i: usize, j: usize| IterativeMulti::<f64>::from_parameters(3, m).double_partial_integral(&f, [i, j], &l, &p).unwrap();
    ([r(I::Trapezoidal, 0, 1), r(I::Trapezoidal, 2, 0), r(I::Simpsons, 1, 2)], [h_twofold(I::Trapezoidal, 3, 0, 1, p, l), h_twofold(I::Trapezoidal, 3, 2, 0, p, l), h_twofold(I::Simpsons, 3, 1, 2, p, l)])
}
pub fn double_partial_improper(p: [f64; 3], a: f64, c: f64, d: f64) -> ([f64; 2], [f64; 2]) {
    assume(c < d);
    let f = |v: &[f64; 3]| opaque_g(v[0], v[1], v[2]);
    let g = |x: f64, y: f64| opaque_g(x, y, p[2]);
    let t = 1.0 - f64::EPSILON;
    let n = |l: [[f64; 2]; 2]| IterativeMulti::<f64>::from_parameters(2, I::Trapezoidal).double_partial_integral(&f, [0, 1], &l, &p).unwrap();
    let q = |t: f64| 1.0 / ((1.0 - t) * (1.0 - t));
    (
        [n([[a, f64::INFINITY], [c, d]]), n([[c, d], [f64::NEG_INFINITY, a]])],
        [
            h_composite(I::Trapezoidal, 2, c, d, &|y| h_composite(I::Trapezoidal, 2, 0.0, t, &|t| g(a + t / (1.0 - t), y) * q(t))),
            h_composite(I::Trapezoidal, 2, 0.0, t, &|t| q(t) * h_composite(I::Trapezoidal, 2, c, d, &|x| g(x, a - t / (1.0 - t)))),
        ],
    )
}
pub fn refuses(a: f64, b: f64, p: [f64; 3]) -> ([bool; 9], [bool; 9]) {
    assume(a >= b);
    let inf = f64::INFINITY;
    let ill = |x: f64, y: f64| IterativeSingle::<f64>::from_parameters(4, I::Booles).single_integral(&opaque_f, &[x, y]) == Err(IntegrateError::LimitsIllDefined);
    let f = |v: &[f64; 3]| opaque_g(v[0], v[1], v[2]);
    let m = IterativeMulti::<f64>::from_parameters(4, I::Booles);
    (
        [
            ill(a, b),
            ill(a, -inf),
            ill(inf, a),
            ill(inf, -inf),
            ill(f64::NAN, a),
            ill(a, f64::NAN),
            m.double_partial_integral(&f, [0, 1], &[[0.0, 1.0], [a, b]], &p) == Err(IntegrateError::LimitsIllDefined),
            m.single_partial_integral(&f, 3, &[0.0, 1.0], &p) == Err(IntegrateError::IndexOutOfRange),
            IterativeSingle::<f64>::from_parameters(0, I::Trapezoidal).single_integral(&opaque_f, &[0.0, 1.0]) == Err(IntegrateError::IterationsZero),
        ],
        [true; 9],
    )
}
pub fn non_finite(a: f64) -> ([bool; 4], [bool; 4]) {
    let f = |x: f64| if x > a { f64::INFINITY } else { 1.0 };
    let r = |m: I, x: f64, y: f64| IterativeSingle::<f64>::from_parameters(4, m).single_integral(&f, &[x, y]) == Err(IntegrateError::NonFinite);
    let q = IterativeMulti::<f64>::from_parameters(4, I::Booles).single_partial_integral(&|v: &[f64; 1]| f(v[0]), 0, &[a - 1.0, a + 1.0], &[a]);
    ([r(I::Booles, a - 1.0, a + 1.0), r(I::Simpsons, a - 1.0, a + 1.0), r(I::Trapezoidal, a - 1.0, f64::INFINITY), q == Err(IntegrateError::NonFinite)], [true; 4])
}
