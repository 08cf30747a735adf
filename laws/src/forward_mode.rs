//! Forward-mode scalars carry exact derivatives: every operation of Dual, HyperDual and Jet is the chain rule.
use crate::h_assume as assume;
use multicalc::{Dual, HyperDual, Jet, Numeric};

type D = Dual<f64>;
type H = HyperDual<f64>;
type J = Jet<f64, 4>;
type J5 = Jet<f64, 6>;

fn d(a: [f64; 2]) -> D {
    Dual::new(a[0], a[1])
}
fn h(a: [f64; 4]) -> H {
    HyperDual::new(a[0], a[1], a[2], a[3])
}
fn j(a: [f64; 4]) -> J {
    Jet::new(a)
}
fn od(x: D) -> [f64; 2] {
    [x.value, x.deriv]
}
fn oh(x: H) -> [f64; 4] {
    [x.real, x.eps1, x.eps2, x.eps1eps2]
}

/// f applied to a Dual / HyperDual / Jet, given f, f', f'', f''' at the point
fn chain_d(f: [f64; 4], a: [f64; 2]) -> [f64; 2] {
    [f[0], f[1] * a[1]]
}
fn chain_h(f: [f64; 4], a: [f64; 4]) -> [f64; 4] {
    [f[0], f[1] * a[1], f[1] * a[2], f[1] * a[3] + f[2] * a[1] * a[2]]
}
fn chain_j(f: [f64; 4], c: [f64; 4]) -> [f64; 4] {
    [
        f[0],
        f[1] * c[1],
        f[1] * c[2] + f[2] * c[1] * c[1] / 2.0,
        f[1] * c[3] + f[2] * c[1] * c[2] + f[3] * c[1] * c[1] * c[1] / 6.0,
    ]
}

macro_rules! unary {
    ($m:ident, |$x:ident| $op:expr, |$v:ident| $f:expr $(, assume $g:expr)?) => {
        pub mod $m {
            use super::*;
            #[inline]
            fn h_op<S: Numeric>($x: S) -> S { $op }
            #[inline]
            fn h_d($v: f64) -> [f64; 4] { $(assume($g);)? $f }
            pub fn dual(a: [f64; 2]) -> ([f64; 2], [f64; 2]) { let f = h_d(a[0]); (od(h_op(d(a))), chain_d(f, a)) }
            pub fn hyper_dual(a: [f64; 4]) -> ([f64; 4], [f64; 4]) { let f = h_d(a[0]); (oh(h_op(h(a))), chain_h(f, a)) }
            pub fn jet(a: [f64; 4]) -> ([f64; 4], [f64; 4]) { let f = h_d(a[0]); (h_op(j(a)).coeffs, chain_j(f, a)) }
            pub fn value(x: f64) -> (f64, f64) { let f = h_d(x); (h_op(x), f[0]) }
            /// the value part is what the same program computes on plain numbers
            pub fn dual_primal(a: [f64; 2]) -> (f64, f64) { h_d(a[0]); (h_op(d(a)).value, h_op(a[0])) }
            pub fn hyper_primal(a: [f64; 4]) -> (f64, f64) { h_d(a[0]); (h_op(h(a)).real, h_op(a[0])) }
            pub fn jet_primal(a: [f64; 4]) -> (f64, f64) { h_d(a[0]); (h_op(j(a)).coeffs[0], h_op(a[0])) }
            /// nesting two Duals gives the second derivative a HyperDual gives
            pub fn nested(a: [f64; 4]) -> ([f64; 4], [f64; 4]) {
                h_d(a[0]);
                let n = h_op(Dual::new(d([a[0], a[1]]), d([a[2], a[3]])));
                ([n.value.value, n.value.deriv, n.deriv.value, n.deriv.deriv], oh(h_op(h(a))))
            }
        }
    };
}

unary!(neg, |x| -x, |v| [-v, -1.0, 0.0, 0.0]);
unary!(square, |x| x * x, |v| [v * v, 2.0 * v, 2.0, 0.0]);
unary!(sqrt, |x| x.sqrt(), |v| [v.sqrt(), 1.0 / (2.0 * v.sqrt()), -1.0 / (4.0 * v * v.sqrt()), 3.0 / (8.0 * v * v * v.sqrt())], assume v > 0.0);
unary!(cbrt, |x| x.cbrt(), |v| [v.cbrt(), 1.0 / (3.0 * v.cbrt().powi(2)), -2.0 / (9.0 * v.cbrt().powi(5)), 10.0 / (27.0 * v.cbrt().powi(8))], assume v != 0.0);
unary!(sin, |x| x.sin(), |v| [v.sin(), v.cos(), -v.sin(), -v.cos()]);
unary!(cos, |x| x.cos(), |v| [v.cos(), -v.sin(), -v.cos(), v.sin()]);
unary!(tan, |x| x.tan(), |v| { let t = v.tan(); let s = 1.0 + t * t; [t, s, 2.0 * t * s, 2.0 * s * (1.0 + 3.0 * t * t)] });
unary!(exp, |x| x.exp(), |v| [v.exp(), v.exp(), v.exp(), v.exp()]);
unary!(expm1, |x| x.expm1(), |v| [v.exp() - 1.0, v.exp(), v.exp(), v.exp()]);
unary!(log, |x| x.log(), |v| [v.ln(), 1.0 / v, -1.0 / (v * v), 2.0 / (v * v * v)], assume v > 0.0);
unary!(ln_1p, |x| x.ln_1p(), |v| { let u = 1.0 + v; [u.ln(), 1.0 / u, -1.0 / (u * u), 2.0 / (u * u * u)] }, assume v + 1.0 > 0.0);
unary!(log2, |x| x.log2(), |v| { let k = 2.0f64.ln(); [v.ln() / k, 1.0 / v / k, -1.0 / (v * v) / k, 2.0 / (v * v * v) / k] }, assume v > 0.0);
unary!(log10, |x| x.log10(), |v| { let k = 10.0f64.ln(); [v.ln() / k, 1.0 / v / k, -1.0 / (v * v) / k, 2.0 / (v * v * v) / k] }, assume v > 0.0);
unary!(atan, |x| x.atan(), |v| { let q = 1.0 + v * v; [v.atan(), 1.0 / q, -2.0 * v / (q * q), (6.0 * v * v - 2.0) / (q * q * q)] });
unary!(asin, |x| x.asin(), |v| { let q = 1.0 - v * v; let s = q.sqrt(); [v.asin(), 1.0 / s, v / (q * s), (1.0 + 2.0 * v * v) / (q * q * s)] }, assume v < 1.0 && v > -1.0 && 1.0 - v * v > 0.0);
unary!(acos, |x| x.acos(), |v| { let q = 1.0 - v * v; let s = q.sqrt(); [v.acos(), -1.0 / s, -v / (q * s), -(1.0 + 2.0 * v * v) / (q * q * s)] }, assume v < 1.0 && v > -1.0 && 1.0 - v * v > 0.0);
unary!(sinh, |x| x.sinh(), |v| { let (p, n) = (v.exp(), (-v).exp()); let (s, c) = ((p - n) / 2.0, (p + n) / 2.0); [s, c, s, c] });
unary!(cosh, |x| x.cosh(), |v| { let (p, n) = (v.exp(), (-v).exp()); let (s, c) = ((p - n) / 2.0, (p + n) / 2.0); [c, s, c, s] });
unary!(tanh, |x| x.tanh(), |v| { let (p, n) = (v.exp(), (-v).exp()); let (s, c) = ((p - n) / 2.0, (p + n) / 2.0); let t = s / c; let q = 1.0 - t * t; [t, q, -2.0 * t * q, (6.0 * t * t - 2.0) * q] }, assume { let (p, n) = (v.exp(), (-v).exp()); let c: f64 = (p + n) / 2.0; c > 0.0 });
unary!(abs, |x| x.abs(), |v| [v.abs(), if v < 0.0 { -1.0 } else { 1.0 }, 0.0, 0.0], assume v != 0.0);
unary!(signum, |x| x.signum(), |v| [if v < 0.0 { -1.0 } else { 1.0 }, 0.0, 0.0, 0.0], assume v != 0.0);
unary!(floor, |x| x.floor(), |v| [v.floor(), 0.0, 0.0, 0.0]);
unary!(ceil, |x| x.ceil(), |v| [v.ceil(), 0.0, 0.0, 0.0]);
unary!(round, |x| x.round(), |v| [v.round(), 0.0, 0.0, 0.0]);
unary!(trunc, |x| x.trunc(), |v| [v.trunc(), 0.0, 0.0, 0.0]);
unary!(recip, |x| x.recip(), |v| [1.0 / v, -1.0 / (v * v), 2.0 / (v * v * v), -6.0 / (v * v * v * v)], assume v != 0.0);
unary!(wrap_to_pi, |x| x.wrap_to_pi(), |v| [v - 2.0 * core::f64::consts::PI * (v / (2.0 * core::f64::consts::PI)).round(), 1.0, 0.0, 0.0]);
unary!(to_radians, |x| x.to_radians(), |v| { let k = core::f64::consts::PI / 180.0; [v / 180.0 * core::f64::consts::PI, 1.0 / 180.0 * core::f64::consts::PI + 0.0 * k, 0.0, 0.0] });
unary!(to_degrees, |x| x.to_degrees(), |v| [v / core::f64::consts::PI * 180.0, 1.0 / core::f64::consts::PI * 180.0, 0.0, 0.0]);
unary!(powi_4, |x| x.powi(4), |v| [v * v * v * v, 4.0 * v * v * v, 12.0 * v * v, 24.0 * v]);
unary!(powi_0, |x| x.powi(0), |_v| [1.0, 0.0, 0.0, 0.0]);
unary!(powi_1, |x| x.powi(1), |v| [v, 1.0, 0.0, 0.0]);
unary!(powi_7, |x| x.powi(7), |v| { let p = v * v; [p * p * p * v, 7.0 * p * p * p, 42.0 * p * p * v, 210.0 * p * p] });
unary!(powi_m3, |x| x.powi(-3), |v| { let p = v * v; [1.0 / (p * v), -3.0 / (p * p), 12.0 / (p * p * v), -60.0 / (p * p * p)] }, assume v != 0.0);
unary!(exp_sin, |x| (x.sin() * x).exp(), |v| { let (s, c) = (v.sin(), v.cos()); let g1 = s + v * c; let g2 = 2.0 * c - v * s; let g3 = -3.0 * s - v * c; let e = (s * v).exp(); [e, e * g1, e * (g2 + g1 * g1), e * (g3 + 3.0 * g1 * g2 + g1 * g1 * g1)] });
unary!(rational, |x| (x * x + S::ONE) / (x - S::TWO), |v| { let u = v - 2.0; [(v * v + 1.0) / u, (v * v - 4.0 * v - 1.0) / (u * u), 10.0 / (u * u * u), -30.0 / (u * u * u * u)] }, assume v != 2.0);

// ---- two-argument operations: f, f_x, f_y, f_xx, f_xy, f_yy ----
fn chain2_d(f: [f64; 6], a: [f64; 2], b: [f64; 2]) -> [f64; 2] {
    [f[0], f[1] * a[1] + f[2] * b[1]]
}
fn chain2_h(f: [f64; 6], a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    [
        f[0],
        f[1] * a[1] + f[2] * b[1],
        f[1] * a[2] + f[2] * b[2],
        f[1] * a[3] + f[2] * b[3] + f[3] * a[1] * a[2] + f[4] * (a[1] * b[2] + a[2] * b[1]) + f[5] * b[1] * b[2],
    ]
}
fn chain2_j(f: [f64; 6], a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [
        f[0],
        f[1] * a[1] + f[2] * b[1],
        f[1] * a[2] + f[2] * b[2] + f[3] * a[1] * a[1] / 2.0 + f[4] * a[1] * b[1] + f[5] * b[1] * b[1] / 2.0,
    ]
}
macro_rules! binary {
    ($m:ident, |$x:ident, $y:ident| $op:expr, |$v:ident, $w:ident| $f:expr $(, assume $g:expr)?) => {
        pub mod $m {
            use super::*;
            #[inline]
            fn h_op<S: Numeric>($x: S, $y: S) -> S { $op }
            #[inline]
            fn h_d($v: f64, $w: f64) -> [f64; 6] { $(assume($g);)? $f }
            pub fn dual(a: [f64; 2], b: [f64; 2]) -> ([f64; 2], [f64; 2]) { let f = h_d(a[0], b[0]); (od(h_op(d(a), d(b))), chain2_d(f, a, b)) }
            pub fn hyper_dual(a: [f64; 4], b: [f64; 4]) -> ([f64; 4], [f64; 4]) { let f = h_d(a[0], b[0]); (oh(h_op(h(a), h(b))), chain2_h(f, a, b)) }
            pub fn jet(a: [f64; 3], b: [f64; 3]) -> ([f64; 3], [f64; 3]) { let f = h_d(a[0], b[0]); (h_op(Jet::new(a), Jet::new(b)).coeffs, chain2_j(f, a, b)) }
            pub fn dual_primal(a: [f64; 2], b: [f64; 2]) -> (f64, f64) { h_d(a[0], b[0]); (h_op(d(a), d(b)).value, h_op(a[0], b[0])) }
            pub fn hyper_primal(a: [f64; 4], b: [f64; 4]) -> (f64, f64) { h_d(a[0], b[0]); (h_op(h(a), h(b)).real, h_op(a[0], b[0])) }
            pub fn jet_primal(a: [f64; 4], b: [f64; 4]) -> (f64, f64) { h_d(a[0], b[0]); (h_op(j(a), j(b)).coeffs[0], h_op(a[0], b[0])) }
        }
    };
}
binary!(add, |x, y| x + y, |v, w| [v + w, 1.0, 1.0, 0.0, 0.0, 0.0]);
binary!(sub, |x, y| x - y, |v, w| [v - w, 1.0, -1.0, 0.0, 0.0, 0.0]);
binary!(mul, |x, y| x * y, |v, w| [v * w, w, v, 0.0, 1.0, 0.0]);
binary!(div, |x, y| x / y, |v, w| [v / w, 1.0 / w, -v / (w * w), 0.0, -1.0 / (w * w), 2.0 * v / (w * w * w)], assume w != 0.0);
binary!(safe_div, |x, y| x.safe_div(y), |v, w| [v / w, 1.0 / w, -v / (w * w), 0.0, -1.0 / (w * w), 2.0 * v / (w * w * w)], assume w != 0.0);
binary!(add_assign, |x, y| { let mut z = x; z += y; z }, |v, w| [v + w, 1.0, 1.0, 0.0, 0.0, 0.0]);
binary!(sub_assign, |x, y| { let mut z = x; z -= y; z }, |v, w| [v - w, 1.0, -1.0, 0.0, 0.0, 0.0]);
binary!(mul_assign, |x, y| { let mut z = x; z *= y; z }, |v, w| [v * w, w, v, 0.0, 1.0, 0.0]);
binary!(div_assign, |x, y| { let mut z = x; z /= y; z }, |v, w| [v / w, 1.0 / w, -v / (w * w), 0.0, -1.0 / (w * w), 2.0 * v / (w * w * w)], assume w != 0.0);
binary!(atan2, |y, x| y.atan2(x), |v, w| { let r = v * v + w * w; [v.atan2(w), w / r, -v / r, -2.0 * v * w / (r * r), (v * v - w * w) / (r * r), 2.0 * v * w / (r * r)] }, assume v * v + w * w > 0.0);
binary!(max, |x, y| x.max(y), |v, w| if v > w { [v, 1.0, 0.0, 0.0, 0.0, 0.0] } else { [w, 0.0, 1.0, 0.0, 0.0, 0.0] }, assume v != w);
binary!(min, |x, y| x.min(y), |v, w| if v < w { [v, 1.0, 0.0, 0.0, 0.0, 0.0] } else { [w, 0.0, 1.0, 0.0, 0.0, 0.0] }, assume v != w);
binary!(copysign, |x, y| x.copysign(y), |v, w| { let s = if (v < 0.0) == (w < 0.0) { 1.0 } else { -1.0 }; [s * v, s, 0.0, 0.0, 0.0, 0.0] }, assume v != 0.0 && w != 0.0);
binary!(powf, |x, y| x.powf(y), |v, w| { let p = (w * v.ln()).exp(); let l = v.ln(); [p, p * w / v, p * l, p * w * (w - 1.0) / (v * v), p / v * (1.0 + w * l), p * l * l] }, assume v > 0.0);
binary!(mul_add, |x, y| x.mul_add(y, y), |v, w| [v * w + w, w, v + 1.0, 0.0, 1.0, 0.0]);

// hypot is tested through its square: the root of a scaled sum is not comparable by value number
pub fn hypot_dual(a: [f64; 2], b: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    assume(a[0] != 0.0 && b[0] != 0.0);
    let r = d(a).hypot(d(b));
    (od(r * r), od(d(a) * d(a) + d(b) * d(b)))
}
pub fn hypot_hyper(a: [f64; 4], b: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    assume(a[0] != 0.0 && b[0] != 0.0);
    let r = h(a).hypot(h(b));
    (oh(r * r), oh(h(a) * h(a) + h(b) * h(b)))
}
pub fn hypot_jet(a: [f64; 4], b: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    assume(a[0] != 0.0 && b[0] != 0.0);
    let r = j(a).hypot(j(b));
    ((r * r).coeffs, (j(a) * j(a) + j(b) * j(b)).coeffs)
}

// ---- clamping freezes the derivative outside the range ----
pub fn clamp_dual(a: [f64; 2], lo: f64, hi: f64) -> ([f64; 2], [f64; 2]) {
    assume(lo < hi && a[0] != lo && a[0] != hi);
    (od(d(a).clamp(lo, hi)), if a[0] < lo { [lo, 0.0] } else if a[0] > hi { [hi, 0.0] } else { a })
}
pub fn clamp_hyper(a: [f64; 4], lo: f64, hi: f64) -> ([f64; 4], [f64; 4]) {
    assume(lo < hi && a[0] != lo && a[0] != hi);
    (oh(h(a).clamp(lo, hi)), if a[0] < lo { [lo, 0.0, 0.0, 0.0] } else if a[0] > hi { [hi, 0.0, 0.0, 0.0] } else { a })
}
pub fn clamp_jet(a: [f64; 4], lo: f64, hi: f64) -> ([f64; 4], [f64; 4]) {
    assume(lo < hi && a[0] != lo && a[0] != hi);
    (j(a).clamp(lo, hi).coeffs, if a[0] < lo { [lo, 0.0, 0.0, 0.0] } else if a[0] > hi { [hi, 0.0, 0.0, 0.0] } else { a })
}

// ---- comparisons see only the value ----
macro_rules! order {
    ($m:ident, $n:literal, $mk:expr) => {
        pub mod $m {
            use super::*;
            fn m(a: [f64; $n]) -> impl Numeric { $mk(a) }
            pub fn lt(a: [f64; $n], b: [f64; $n]) -> (bool, bool) { (m(a) < m(b), a[0] < b[0]) }
            pub fn le(a: [f64; $n], b: [f64; $n]) -> (bool, bool) { (m(a) <= m(b), a[0] <= b[0]) }
            pub fn gt(a: [f64; $n], b: [f64; $n]) -> (bool, bool) { (m(a) > m(b), a[0] > b[0]) }
            pub fn ge(a: [f64; $n], b: [f64; $n]) -> (bool, bool) { (m(a) >= m(b), a[0] >= b[0]) }
            pub fn eq(a: [f64; $n], b: [f64; $n]) -> (bool, bool) { (m(a) == m(b), a[0] == b[0]) }
            pub fn ne(a: [f64; $n], b: [f64; $n]) -> (bool, bool) { (m(a) != m(b), a[0] != b[0]) }
        }
    };
}
order!(order_dual, 2, d);
order!(order_hyper, 4, h);
order!(order_jet, 4, j);

// ---- constants are constants ----
fn consts<S: Numeric>() -> [S; 12] {
    [S::ZERO, S::ONE, S::TWO, S::THREE, S::HALF, S::TEN, S::HUNDRED, S::ONE_HUNDRED_EIGHTY, S::PI, S::TWO_PI, S::EPSILON, S::MIN_POSITIVE]
}
fn known() -> [f64; 12] {
    [0.0, 1.0, 2.0, 3.0, 0.5, 10.0, 100.0, 180.0, core::f64::consts::PI, 2.0 * core::f64::consts::PI, f64::EPSILON, f64::MIN_POSITIVE]
}
pub fn consts_plain() -> ([f64; 12], [f64; 12]) {
    (consts::<f64>(), known())
}
pub fn consts_dual() -> ([[f64; 2]; 12], [[f64; 2]; 12]) {
    (consts::<D>().map(od), known().map(|v| [v, 0.0]))
}
pub fn consts_hyper() -> ([[f64; 4]; 12], [[f64; 4]; 12]) {
    (consts::<H>().map(oh), known().map(|v| [v, 0.0, 0.0, 0.0]))
}
pub fn consts_jet() -> ([[f64; 4]; 12], [[f64; 4]; 12]) {
    (consts::<J>().map(|x| x.coeffs), known().map(|v| [v, 0.0, 0.0, 0.0]))
}
pub fn lift_dual(v: f64) -> ([[f64; 2]; 3], [[f64; 2]; 3]) {
    ([od(D::constant(v)), od(D::from_f64(v)), od(D::variable(v))], [[v, 0.0], [v, 0.0], [v, 1.0]])
}
pub fn lift_hyper(v: f64) -> ([[f64; 4]; 3], [[f64; 4]; 3]) {
    ([oh(H::constant(v)), oh(H::from_f64(v)), oh(H::variable(v))], [[v, 0.0, 0.0, 0.0], [v, 0.0, 0.0, 0.0], [v, 1.0, 1.0, 0.0]])
}
pub fn lift_jet(v: f64) -> ([[f64; 4]; 3], [[f64; 4]; 3]) {
    ([J::constant(v).coeffs, J::from_f64(v).coeffs, J::variable(v).coeffs], [[v, 0.0, 0.0, 0.0], [v, 0.0, 0.0, 0.0], [v, 1.0, 0.0, 0.0]])
}
pub fn lift_usize() -> ([f64; 4], [f64; 4]) {
    let x = H::from_usize(7);
    ([D::from_usize(7).value, x.real, J::from_u64(7).coeffs[0], <f64 as Numeric>::from_usize(7)], [7.0; 4])
}
/// Jet::derivative is k! times the k-th Taylor coefficient
pub fn jet_derivative(c: [f64; 6]) -> ([f64; 7], [f64; 7]) {
    let x = J5::new(c);
    (
        [x.derivative(0), x.derivative(1), x.derivative(2), x.derivative(3), x.derivative(4), x.derivative(5), x.value()],
        [c[0], c[1], 2.0 * c[2], 6.0 * c[3], 24.0 * c[4], 120.0 * c[5], c[0]],
    )
}
/// high orders: the recurrences of Jet agree with their defining identities up to order 5
pub fn jet5_exp_log(c: [f64; 6]) -> ([f64; 6], [f64; 6]) {
    assume(c[0] > 0.0);
    (J5::new(c).log().exp().coeffs, c)
}
pub fn jet5_sqrt(c: [f64; 6]) -> ([f64; 6], [f64; 6]) {
    assume(c[0] > 0.0);
    let r = J5::new(c).sqrt();
    ((r * r).coeffs, c)
}
pub fn jet5_div(a: [f64; 6], b: [f64; 6]) -> ([f64; 6], [f64; 6]) {
    assume(b[0] != 0.0);
    (((J5::new(a) / J5::new(b)) * J5::new(b)).coeffs, a)
}
pub fn jet5_pythagoras(c: [f64; 6]) -> ([f64; 6], [f64; 6]) {
    let (s, k) = (J5::new(c).sin(), J5::new(c).cos());
    ((s * s + k * k).coeffs, [1.0, 0.0, 0.0, 0.0, 0.0, 0.0])
}
pub fn jet5_tan(c: [f64; 6]) -> ([f64; 6], [f64; 6]) {
    assume(c[0].cos() != 0.0);
    ((J5::new(c).tan() * J5::new(c).cos()).coeffs, J5::new(c).sin().coeffs)
}
pub fn jet5_expm1(c: [f64; 6]) -> ([f64; 6], [f64; 6]) {
    ((J5::new(c).expm1() + J5::ONE).coeffs, J5::new(c).exp().coeffs)
}
pub fn jet5_ln_1p(c: [f64; 6]) -> ([f64; 6], [f64; 6]) {
    assume(c[0] + 1.0 > 0.0);
    (J5::new(c).ln_1p().coeffs, (J5::new(c) + J5::ONE).log().coeffs)
}

// ---- single precision means the same functions ----
macro_rules! single {
    ($($m:ident: |$x:ident| $op:expr, $e:expr $(, assume $g:expr)?;)*) => {
        pub mod single {
            use super::*;
            $(pub fn $m($x: f32) -> (f32, f32) {
                $(assume($g);)?
                fn h_op<S: Numeric>($x: S) -> S { $op }
                (h_op($x), $e)
            })*
        }
    };
}
single! {
    sqrt: |x| x.sqrt(), f32::sqrt(x), assume x > 0.0;
    cbrt: |x| x.cbrt(), f32::cbrt(x);
    sin: |x| x.sin(), f32::sin(x);
    cos: |x| x.cos(), f32::cos(x);
    tan: |x| x.tan(), f32::tan(x);
    exp: |x| x.exp(), f32::exp(x);
    expm1: |x| x.expm1(), f32::exp_m1(x);
    log: |x| x.log(), f32::ln(x), assume x > 0.0;
    ln_1p: |x| x.ln_1p(), f32::ln_1p(x), assume x > 0.0;
    log2: |x| x.log2(), f32::log2(x), assume x > 0.0;
    log10: |x| x.log10(), f32::log10(x), assume x > 0.0;
    atan: |x| x.atan(), f32::atan(x);
    asin: |x| x.asin(), f32::asin(x);
    acos: |x| x.acos(), f32::acos(x);
    sinh: |x| x.sinh(), f32::sinh(x);
    cosh: |x| x.cosh(), f32::cosh(x);
    tanh: |x| x.tanh(), f32::tanh(x);
    abs: |x| x.abs(), if x < 0.0 { -x } else { x };
    signum: |x| x.signum(), if x < 0.0 { -1.0 } else { 1.0 }, assume x != 0.0;
    floor: |x| x.floor(), f32::floor(x);
    ceil: |x| x.ceil(), f32::ceil(x);
    round: |x| x.round(), f32::round(x);
    trunc: |x| x.trunc(), f32::trunc(x);
    recip: |x| x.recip(), 1.0 / x, assume x != 0.0;
    powi_5: |x| x.powi(5), x * x * x * x * x;
    powi_m2: |x| x.powi(-2), 1.0 / (x * x), assume x != 0.0;
    to_radians: |x| x.to_radians(), x / 180.0 * core::f32::consts::PI;
    to_degrees: |x| x.to_degrees(), x / core::f32::consts::PI * 180.0;
    wrap_to_pi: |x| x.wrap_to_pi(), { let t = core::f32::consts::PI * 2.0; x - t * (x / t).round() };
}
pub mod single2 {
    use super::*;
    pub fn two(x: f32, y: f32) -> ([f32; 4], [f32; 4]) {
        assume(x > 0.0);
        ([Numeric::atan2(x, y), Numeric::powf(x, y), Numeric::mul_add(x, y, y), Numeric::hypot(x, y)], [f32::atan2(x, y), f32::powf(x, y), x * y + y, f32::hypot(x, y)])
    }
    pub fn order(x: f32, y: f32, s: f32) -> ([f32; 4], [f32; 4]) {
        assume(x < y && s != 0.0 && x != 0.0);
        let a = if x < 0.0 { -x } else { x };
        (
            [Numeric::max(x, y), Numeric::min(x, y), Numeric::copysign(x, s), Numeric::clamp(s, x, y)],
            [y, x, if s < 0.0 { -a } else { a }, if s < x { x } else if s > y { y } else { s }],
        )
    }
    pub fn zero_div(x: f32, y: f32) -> ([f32; 3], [f32; 3]) {
        assume(x > 0.0 && y != 0.0);
        ([Numeric::safe_div(x, 0.0), Numeric::safe_div(-x, 0.0), Numeric::safe_div(x, y)], [f32::INFINITY, f32::NEG_INFINITY, x / y])
    }
    pub fn consts() -> ([f32; 18], [f32; 18]) {
        fn h_all<S: Numeric>() -> [S; 18] {
            [
                S::ZERO, S::ONE, S::TWO, S::THREE, S::HALF, S::TEN, S::HUNDRED, S::ONE_HUNDRED_EIGHTY, S::PI, S::TWO_PI, S::EPSILON, S::EPSILON_X4, S::EPSILON_X30,
                S::INFINITY, S::NEG_INFINITY, S::MAX, S::MIN_POSITIVE, S::from_usize(7) + S::from_u64(9) + S::from_f64(0.5),
            ]
        }
        let p = core::f32::consts::PI;
        (
            h_all(),
            [
                0.0, 1.0, 2.0, 3.0, 0.5, 10.0, 100.0, 180.0, p, 2.0 * p, f32::EPSILON, 4.0 * f32::EPSILON, 30.0 * f32::EPSILON,
                f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN_POSITIVE, 16.5,
            ],
        )
    }
    pub fn consts64() -> ([f64; 6], [f64; 6]) {
        (
            [<f64 as Numeric>::EPSILON_X4, <f64 as Numeric>::EPSILON_X30, <f64 as Numeric>::INFINITY, <f64 as Numeric>::NEG_INFINITY, <f64 as Numeric>::MAX, <f64 as Numeric>::NAN.max(2.0)],
            [4.0 * f64::EPSILON, 30.0 * f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 2.0],
        )
    }
    pub fn nature(x: f32, y: f64) -> bool {
        assume(x < 1e30 && x > -1e30 && y < 1e300 && y > -1e300);
        let n = <f32 as Numeric>::NAN;
        let i = <f32 as Numeric>::INFINITY;
        Numeric::is_finite(x) && !Numeric::is_nan(x) && !Numeric::is_infinite(x) && Numeric::is_nan(n) && !Numeric::is_finite(n) && !Numeric::is_infinite(n)
            && Numeric::is_infinite(i) && Numeric::is_infinite(-i) && !Numeric::is_nan(i) && !Numeric::is_finite(i)
            && Numeric::is_finite(y) && !Numeric::is_nan(y) && !Numeric::is_infinite(y)
            && Numeric::is_nan(<f64 as Numeric>::NAN) && !Numeric::is_finite(<f64 as Numeric>::NAN) && !Numeric::is_infinite(<f64 as Numeric>::NAN)
            && Numeric::is_infinite(<f64 as Numeric>::NEG_INFINITY) && !Numeric::is_finite(<f64 as Numeric>::INFINITY)
    }
}
