//! Derivative operators: exact on any function for automatic differentiation, the stated difference quotient otherwise.
use crate::h_assume as assume;
use multicalc::approximation::{LinearApproximator, QuadraticApproximator};
use multicalc::error::DiffError;
use multicalc::numerical_derivative::*;
use multicalc::vector_field::{curl_2d, curl_3d, divergence_2d, divergence_3d};
use multicalc::{Numeric, ScalarFn, ScalarFnN, VectorFn};

/// c0 + c1 x + ... + c7 x^7 + k exp(m x)
struct Poly {
    c: [f64; 8],
    k: f64,
    m: f64,
}
impl ScalarFn for Poly {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let mut acc = S::ZERO;
        for i in 0..8 {
            acc = acc * x + S::from_f64(self.c[7 - i]);
        }
        acc + S::from_f64(self.k) * (S::from_f64(self.m) * x).exp()
    }
}
fn poly(a: [f64; 10]) -> Poly {
    Poly { c: [a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]], k: a[8], m: a[9] }
}
/// n-th derivative of Poly, from the definition
fn deriv(p: &Poly, n: usize, x: f64) -> f64 {
    let mut acc = 0.0;
    for i in n..8 {
        let mut f = 1.0;
        for j in 0..n {
            f *= (i - j) as f64;
        }
        let mut xp = 1.0;
        for _ in n..i {
            xp *= x;
        }
        acc += f * p.c[i] * xp;
    }
    let mut mp = 1.0;
    for _ in 0..n {
        mp *= p.m;
    }
    acc + p.k * mp * (p.m * x).exp()
}

macro_rules! orders { ($($m:ident $n:literal),*) => { $(
    pub fn $m(a: [f64; 10], x: f64) -> (f64, f64) {
        let p = poly(a);
        (AutoDiffSingle::<f64>::new().differentiate($n, &p, x).unwrap(), deriv(&p, $n, x))
    }
)* } }
orders!(auto_order1 1, auto_order2 2, auto_order3 3, auto_order4 4, auto_order5 5, auto_order6 6);
pub fn auto_named(a: [f64; 10], x: f64) -> ([f64; 4], [f64; 4]) {
    let p = poly(a);
    let ad = AutoDiffSingle::<f64>::new();
    let (d1, d2) = (deriv(&p, 1, x), deriv(&p, 2, x));
    ([ad.first_derivative(&p, x).unwrap(), ad.second_derivative(&p, x).unwrap(), derivative(&p, x), second_derivative(&p, x)], [d1, d2, d1, d2])
}
/// orders outside 1..=6 are refused
pub fn auto_refuses(a: [f64; 10], x: f64) -> bool {
    let p = poly(a);
    let ad = AutoDiffSingle::<f64>::new();
    matches!(ad.differentiate(0, &p, x), Err(DiffError::OrderZero)) && matches!(ad.differentiate(7, &p, x), Err(DiffError::OrderUnsupported))
}

/// three variables, full cubic plus a transcendental cross term
struct Cubic {
    c: [f64; 20],
}
/// the monomials x^i y^j z^k of degree <= 3
const MON: [[usize; 3]; 20] = [
    [0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [2, 0, 0], [0, 2, 0], [0, 0, 2], [1, 1, 0], [1, 0, 1], [0, 1, 1],
    [3, 0, 0], [0, 3, 0], [0, 0, 3], [2, 1, 0], [2, 0, 1], [1, 2, 0], [0, 2, 1], [1, 0, 2], [0, 1, 2], [1, 1, 1],
];
fn pw<S: Numeric>(x: S, n: usize) -> S {
    let mut r = S::ONE;
    for _ in 0..n {
        r = r * x;
    }
    r
}
fn cubic<S: Numeric>(c: &[f64; 20], p: &[S; 3]) -> S {
    let mut acc = S::ZERO;
    for (i, m) in MON.iter().enumerate() {
        acc = acc + S::from_f64(c[i]) * pw(p[0], m[0]) * pw(p[1], m[1]) * pw(p[2], m[2]);
    }
    acc
}
impl ScalarFnN<3> for Cubic {
    fn eval<S: Numeric>(&self, p: &[S; 3]) -> S {
        cubic(&self.c, p)
    }
}
/// derivative of the cubic along a list of variables
fn dcubic(c: &[f64; 20], p: &[f64; 3], vars: &[usize]) -> f64 {
    let mut acc = 0.0;
    for (i, m) in MON.iter().enumerate() {
        let mut e = *m;
        let mut f = c[i];
        for &v in vars {
            if e[v] == 0 {
                f = 0.0;
            } else {
                f *= e[v] as f64;
                e[v] -= 1;
            }
        }
        acc += f * pw(p[0], e[0]) * pw(p[1], e[1]) * pw(p[2], e[2]);
    }
    acc
}
type C = [f64; 20];
type P3 = [f64; 3];

pub fn partials_first(c: C, p: P3) -> ([f64; 3], [f64; 3]) {
    let ad = AutoDiffMulti::<f64>::new();
    let f = Cubic { c };
    ([0, 1, 2].map(|i| ad.first_partial_derivative(&f, i, &p).unwrap()), [0, 1, 2].map(|i| dcubic(&c, &p, &[i])))
}
pub fn partials_free_fn(c: C, p: P3) -> ([f64; 3], [f64; 3]) {
    let f = Cubic { c };
    ([0, 1, 2].map(|i| partial(&f, i, &p).unwrap()), [0, 1, 2].map(|i| dcubic(&c, &p, &[i])))
}
pub fn partials_second(c: C, p: P3) -> ([[f64; 3]; 3], [[f64; 3]; 3]) {
    let ad = AutoDiffMulti::<f64>::new();
    let f = Cubic { c };
    ([0, 1, 2].map(|i| [0, 1, 2].map(|j| ad.second_partial_derivative(&f, &[i, j], &p).unwrap())), [0, 1, 2].map(|i| [0, 1, 2].map(|j| dcubic(&c, &p, &[i, j]))))
}
pub fn partials_third(c: C, p: P3) -> ([f64; 6], [f64; 6]) {
    let ad = AutoDiffMulti::<f64>::new();
    let f = Cubic { c };
    let l = [[0, 1, 2], [0, 0, 0], [1, 1, 0], [2, 0, 2], [2, 1, 1], [0, 2, 2]];
    (l.map(|i| ad.differentiate(&f, &i, &p).unwrap()), l.map(|i| dcubic(&c, &p, &i)))
}
pub fn partials_refuse(c: C, p: P3) -> bool {
    let ad = AutoDiffMulti::<f64>::new();
    let f = Cubic { c };
    matches!(ad.first_partial_derivative(&f, 3, &p), Err(DiffError::IndexOutOfRange))
        && matches!(ad.differentiate(&f, &[0, 3], &p), Err(DiffError::IndexOutOfRange))
        && matches!(ad.differentiate(&f, &[0, 1, 2, 0], &p), Err(DiffError::OrderUnsupported))
        && matches!(ad.differentiate::<_, 3, 0>(&f, &[], &p), Err(DiffError::OrderZero))
}

/// a vector field with three cubic components
struct Field {
    c: [C; 3],
}
impl VectorFn<3, 3> for Field {
    fn eval<S: Numeric>(&self, p: &[S; 3]) -> [S; 3] {
        [cubic(&self.c[0], p), cubic(&self.c[1], p), cubic(&self.c[2], p)]
    }
}
struct Field2 {
    c: [C; 2],
}
impl VectorFn<3, 2> for Field2 {
    fn eval<S: Numeric>(&self, p: &[S; 3]) -> [S; 2] {
        [cubic(&self.c[0], p), cubic(&self.c[1], p)]
    }
}
pub fn jacobian_square(c: [C; 3], p: P3) -> ([[f64; 3]; 3], [[f64; 3]; 3]) {
    let j = Jacobian::new().evaluate(&Field { c }, &p).unwrap();
    ([0, 1, 2].map(|r| [0, 1, 2].map(|k| j[(r, k)])), [0, 1, 2].map(|r| [0, 1, 2].map(|k| dcubic(&c[r], &p, &[k]))))
}
pub fn jacobian_wide(c: [C; 2], p: P3) -> ([[f64; 3]; 2], [[f64; 3]; 2]) {
    let j = Jacobian::new().evaluate(&Field2 { c }, &p).unwrap();
    ([0, 1].map(|r| [0, 1, 2].map(|k| j[(r, k)])), [0, 1].map(|r| [0, 1, 2].map(|k| dcubic(&c[r], &p, &[k]))))
}
pub fn jacobian_heap(c: [C; 2], p: P3) -> ([[f64; 3]; 2], [[f64; 3]; 2]) {
    let j = Jacobian::new().evaluate_on_heap(&Field2 { c }, &p).unwrap();
    ([0, 1].map(|r| [0, 1, 2].map(|k| j[r][k])), [0, 1].map(|r| [0, 1, 2].map(|k| dcubic(&c[r], &p, &[k]))))
}
pub fn jacobian_column(c: [C; 2], p: P3) -> ([f64; 2], [f64; 2]) {
    (AutoDiffMulti::<f64>::new().jacobian_column(&Field2 { c }, 1, &p).unwrap(), [dcubic(&c[0], &p, &[1]), dcubic(&c[1], &p, &[1])])
}
pub fn hessian(c: C, p: P3) -> ([[f64; 3]; 3], [[f64; 3]; 3]) {
    let h = Hessian::new().evaluate(&Cubic { c }, &p).unwrap();
    ([0, 1, 2].map(|r| [0, 1, 2].map(|k| h[(r, k)])), [0, 1, 2].map(|r| [0, 1, 2].map(|k| dcubic(&c, &p, &[r, k]))))
}
pub fn curl3(c: [C; 3], p: P3) -> ([f64; 3], [f64; 3]) {
    let d = |f: usize, v: usize| dcubic(&c[f], &p, &[v]);
    (curl_3d(AutoDiffMulti::<f64>::new(), &Field { c }, &p).unwrap(), [d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)])
}
pub fn curl2(c: [C; 2], p: P3) -> (f64, f64) {
    (curl_2d(AutoDiffMulti::<f64>::new(), &Field2 { c }, &p).unwrap(), dcubic(&c[1], &p, &[0]) - dcubic(&c[0], &p, &[1]))
}
pub fn div3(c: [C; 3], p: P3) -> (f64, f64) {
    (divergence_3d(AutoDiffMulti::<f64>::new(), &Field { c }, &p).unwrap(), dcubic(&c[0], &p, &[0]) + dcubic(&c[1], &p, &[1]) + dcubic(&c[2], &p, &[2]))
}
pub fn div2(c: [C; 2], p: P3) -> (f64, f64) {
    (divergence_2d(AutoDiffMulti::<f64>::new(), &Field2 { c }, &p).unwrap(), dcubic(&c[0], &p, &[0]) + dcubic(&c[1], &p, &[1]))
}
/// divergence of a curl vanishes: the second-order operators commute
pub fn hessian_symmetric_under_fd(c: C, p: P3, h: f64) -> bool {
    assume(h > 0.0);
    let m = Hessian::from_derivator(FiniteDifferenceMulti::from_parameters(h, FiniteDifferenceMode::Central, 1.0)).evaluate(&Cubic { c }, &p).unwrap();
    m[(0, 1)] == m[(1, 0)] && m[(0, 2)] == m[(2, 0)] && m[(1, 2)] == m[(2, 1)]
}

// ---- local models ----
pub fn linear_model(c: C, p: P3, x: P3) -> ([f64; 6], [f64; 6]) {
    let f = Cubic { c };
    let m = LinearApproximator::new().approximate(&f, &p).unwrap();
    let g = [0, 1, 2].map(|i| dcubic(&c, &p, &[i]));
    let v = cubic(&c, &p);
    let at = |x: [f64; 3]| v + g[0] * (x[0] - p[0]) + g[1] * (x[1] - p[1]) + g[2] * (x[2] - p[2]);
    ([m.predict(&x), m.predict(&p), m.intercept(), m.coefficients()[0], m.coefficients()[1], m.coefficients()[2]], [at(x), v, at([0.0; 3]), g[0], g[1], g[2]])
}
pub fn quadratic_model(c: C, p: P3, x: P3) -> ([f64; 2], [f64; 2]) {
    let f = Cubic { c };
    let m = QuadraticApproximator::new().approximate(&f, &p).unwrap();
    let d = [x[0] - p[0], x[1] - p[1], x[2] - p[2]];
    let mut v = cubic(&c, &p);
    for i in 0..3 {
        v += dcubic(&c, &p, &[i]) * d[i];
        for j in 0..3 {
            v += 0.5 * dcubic(&c, &p, &[i, j]) * d[i] * d[j];
        }
    }
    ([m.predict(&x), m.predict(&p)], [v, cubic(&c, &p)])
}
/// a quadratic function is its own quadratic model
pub fn quadratic_model_exact(q: [f64; 10], p: P3, x: P3) -> (f64, f64) {
    let mut c = [0.0; 20];
    for i in 0..10 {
        c[i] = q[i];
    }
    let f = Cubic { c };
    (QuadraticApproximator::new().approximate(&f, &p).unwrap().predict(&x), cubic(&c, &x))
}
pub fn linear_metrics(c: C, p: P3, pts: [P3; 5]) -> ([f64; 4], [f64; 4]) {
    let f = Cubic { c };
    let m = LinearApproximator::new().approximate(&f, &p).unwrap();
    let r = m.prediction_metrics(&pts, &f);
    let y = pts.map(|x| cubic(&c, &x));
    let mean = (y[0] + y[1] + y[2] + y[3] + y[4]) / 5.0;
    let e = pts.map(|x| m.predict(&x) - cubic(&c, &x));
    let (mut sa, mut ss, mut st) = (0.0, 0.0, 0.0);
    for i in 0..5 {
        sa += e[i].abs();
        ss += e[i] * e[i];
        st += (y[i] - mean) * (y[i] - mean);
    }
    assume(st > 0.0);
    ([r.mean_absolute_error, r.mean_squared_error, r.r_squared, r.adjusted_r_squared], [sa / 5.0, ss / 5.0, 1.0 - ss / st, 1.0 - ss / st * 4.0 / 1.0])
}
pub fn quadratic_metrics(c: C, p: P3, pts: [P3; 3]) -> ([f64; 2], [f64; 2]) {
    let f = Cubic { c };
    let m = QuadraticApproximator::new().approximate(&f, &p).unwrap();
    let r = m.prediction_metrics(&pts, &f);
    let e = pts.map(|x| m.predict(&x) - cubic(&c, &x));
    let mse = (e[0] * e[0] + e[1] * e[1] + e[2] * e[2]) / 3.0;
    ([r.mean_squared_error, r.root_mean_squared_error], [mse, mse.sqrt()])
}

// ---- finite differences ----
fn fd(mode: FiniteDifferenceMode, h: f64, k: f64) -> FiniteDifferenceSingle<f64> {
    FiniteDifferenceSingle::from_parameters(h, mode, k)
}
pub fn fd_first(a: [f64; 10], x: f64, h: f64) -> ([f64; 3], [f64; 3]) {
    assume(h > 0.0);
    let p = poly(a);
    let m = [FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central];
    let f = |x: f64| p.eval(x);
    (m.map(|m| fd(m, h, 10.0).differentiate(1, &p, x).unwrap()), [(f(x + h) - f(x)) / h, (f(x) - f(x - h)) / h, (f(x + h) - f(x - h)) / (2.0 * h)])
}
/// a polynomial whose degree is the order of the formula is differentiated exactly, whatever the step
pub fn fd_exact_quadratic(c: [f64; 3], x: f64, h: f64) -> ([f64; 2], [f64; 2]) {
    assume(h > 0.0);
    let p = poly([c[0], c[1], c[2], 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]);
    let d = fd(FiniteDifferenceMode::Central, h, 3.0);
    ([d.differentiate(1, &p, x).unwrap(), d.differentiate(2, &p, x).unwrap()], [c[1] + 2.0 * c[2] * x, 2.0 * c[2]])
}
pub fn fd_second_orders(a: [f64; 10], x: f64, h: f64, k: f64) -> ([f64; 2], [f64; 2]) {
    assume(h > 0.0 && k > 0.0);
    let p = poly(a);
    let f = |x: f64| p.eval(x);
    let g = |x: f64, s: f64| (f(x + s) - f(x - s)) / (2.0 * s);
    let w = |x: f64, s: f64| (f(x + s) - f(x)) / s;
    (
        [fd(FiniteDifferenceMode::Central, h, k).differentiate(2, &p, x).unwrap(), fd(FiniteDifferenceMode::Forward, h, k).differentiate(2, &p, x).unwrap()],
        [(g(x + h, k * h) - g(x - h, k * h)) / (2.0 * h), (w(x + h, k * h) - w(x, k * h)) / h],
    )
}
/// order n is exact on polynomials of degree n
pub fn fd_third_exact(c: [f64; 4], x: f64, h: f64, k: f64) -> ([f64; 3], [f64; 3]) {
    assume(h > 0.0 && k > 0.0);
    let p = poly([c[0], c[1], c[2], c[3], 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]);
    let m = [FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central];
    (m.map(|m| fd(m, h, k).differentiate(3, &p, x).unwrap()), [6.0 * c[3]; 3])
}
pub fn fd_refuses(a: [f64; 10], x: f64, h: f64) -> bool {
    assume(h < 0.0);
    let p = poly(a);
    let m = FiniteDifferenceMode::Central;
    matches!(fd(m, 0.1, 2.0).differentiate(0, &p, x), Err(DiffError::OrderZero))
        && matches!(fd(m, 0.0, 2.0).differentiate(1, &p, x), Err(DiffError::StepSizeZero))
        && matches!(fd(m, h, 2.0).differentiate(1, &p, x), Err(DiffError::InvalidStepSize))
}
fn fdm(mode: FiniteDifferenceMode, h: f64, k: f64) -> FiniteDifferenceMulti<f64> {
    FiniteDifferenceMulti::from_parameters(h, mode, k)
}
pub fn fd_partial(c: C, p: P3, h: f64) -> ([f64; 9], [f64; 9]) {
    assume(h > 0.0);
    let f = Cubic { c };
    let at = |v: usize, s: f64| {
        let mut q = p;
        q[v] += s;
        cubic(&c, &q)
    };
    let m = |m: FiniteDifferenceMode, i: usize| fdm(m, h, 10.0).first_partial_derivative(&f, i, &p).unwrap();
    use FiniteDifferenceMode::*;
    (
        [m(Forward, 0), m(Forward, 1), m(Forward, 2), m(Backward, 0), m(Backward, 1), m(Backward, 2), m(Central, 0), m(Central, 1), m(Central, 2)],
        [
            (at(0, h) - at(0, 0.0)) / h, (at(1, h) - at(1, 0.0)) / h, (at(2, h) - at(2, 0.0)) / h,
            (at(0, 0.0) - at(0, -h)) / h, (at(1, 0.0) - at(1, -h)) / h, (at(2, 0.0) - at(2, -h)) / h,
            (at(0, h) - at(0, -h)) / (2.0 * h), (at(1, h) - at(1, -h)) / (2.0 * h), (at(2, h) - at(2, -h)) / (2.0 * h),
        ],
    )
}
pub fn fd_mixed_exact(q: [f64; 10], p: P3, h: f64, k: f64) -> ([[f64; 3]; 3], [[f64; 3]; 3]) {
    assume(h > 0.0 && k > 0.0);
    let mut c = [0.0; 20];
    for i in 0..10 {
        c[i] = q[i];
    }
    let f = Cubic { c };
    let d = fdm(FiniteDifferenceMode::Central, h, k);
    ([0, 1, 2].map(|i| [0, 1, 2].map(|j| d.second_partial_derivative(&f, &[i, j], &p).unwrap())), [0, 1, 2].map(|i| [0, 1, 2].map(|j| dcubic(&c, &p, &[i, j]))))
}
pub fn fd_third_mixed(c: C, p: P3, h: f64, k: f64) -> ([f64; 3], [f64; 3]) {
    assume(h > 0.0 && k > 0.0);
    let f = Cubic { c };
    let m = [FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central];
    (m.map(|m| fdm(m, h, k).differentiate(&f, &[0, 1, 2], &p).unwrap()), [c[19]; 3])
}
pub fn fd_column(c: [C; 2], p: P3, h: f64) -> ([f64; 6], [f64; 6]) {
    assume(h > 0.0);
    let f = Field2 { c };
    let m = |m: FiniteDifferenceMode| fdm(m, h, 10.0).jacobian_column(&f, 1, &p).unwrap();
    let g = |m: FiniteDifferenceMode, i: usize| fdm(m, h, 10.0).first_partial_derivative(&Cubic { c: c[i] }, 1, &p).unwrap();
    use FiniteDifferenceMode::*;
    let (a, b, z) = (m(Forward), m(Backward), m(Central));
    ([a[0], a[1], b[0], b[1], z[0], z[1]], [g(Forward, 0), g(Forward, 1), g(Backward, 0), g(Backward, 1), g(Central, 0), g(Central, 1)])
}
pub fn fd_multi_refuses(c: C, p: P3, h: f64) -> bool {
    assume(h < 0.0);
    let f = Cubic { c };
    let m = FiniteDifferenceMode::Forward;
    matches!(fdm(m, 0.1, 2.0).first_partial_derivative(&f, 3, &p), Err(DiffError::IndexOutOfRange))
        && matches!(fdm(m, 0.0, 2.0).first_partial_derivative(&f, 0, &p), Err(DiffError::StepSizeZero))
        && matches!(fdm(m, h, 2.0).first_partial_derivative(&f, 0, &p), Err(DiffError::InvalidStepSize))
        && matches!(fdm(m, 0.1, 2.0).differentiate::<_, 3, 0>(&f, &[], &p), Err(DiffError::OrderZero))
}
