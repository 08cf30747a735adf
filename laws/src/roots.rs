//! Polynomials and root finding.
use crate::h_assume as assume;
use multicalc::error::{LinalgError, PolynomialError, SolveError};
use multicalc::polynomial::*;
use multicalc::root_finding::*;
use multicalc::scalar::{Jet, ScalarFn, VectorFn};
use multicalc::Numeric;

fn h_ev<const N: usize>(c: [f64; N], x: f64) -> f64 {
    let mut s = 0.0;
    let mut p = 1.0;
    for k in 0..N {
        s += c[k] * p;
        p *= x;
    }
    s
}
/// k-th derivative coefficients of c
fn h_d<const N: usize>(c: [f64; N]) -> [f64; N] {
    let mut o = [0.0; N];
    for k in 1..N {
        o[k - 1] = k as f64 * c[k];
    }
    o
}
fn p<const N: usize>(c: [f64; N]) -> Polynomial<N> {
    Polynomial::new(c)
}

// ---- arithmetic ----
pub fn poly_evaluate(c: [f64; 6], x: f64) -> (f64, f64) {
    (p(c).evaluate(x), h_ev(c, x))
}
pub fn poly_derivatives(c: [f64; 5], x: f64) -> ([f64; 6], [f64; 6]) {
    let d = h_d(c);
    let e = h_d(d);
    let f = h_d(e);
    (p(c).evaluate_with_derivatives(x), [h_ev(c, x), h_ev(d, x), h_ev(e, x), h_ev(f, x), 24.0 * c[4], 0.0])
}
pub fn poly_derivative(c: [f64; 5]) -> (([f64; 5], [f64; 5], [f64; 5], [f64; 5]), ([f64; 5], [f64; 5], [f64; 5], [f64; 5])) {
    let d = h_d(c);
    ((*p(c).derivative().coefficients(), *p(c).nth_derivative(0).coefficients(), *p(c).nth_derivative(3).coefficients(), *p(c).nth_derivative(5).coefficients()), (d, c, h_d(h_d(d)), [0.0; 5]))
}
pub fn poly_integral(c: [f64; 4], a: f64, b: f64) -> (f64, f64) {
    (p(c).definite_integral(a, b), c[0] * (b - a) + c[1] * (b * b - a * a) / 2.0 + c[2] * (b * b * b - a * a * a) / 3.0 + c[3] * (b * b * b * b - a * a * a * a) / 4.0)
}
pub fn poly_ring(a: [f64; 4], b: [f64; 4], k: f64, x: f64) -> ([f64; 6], [f64; 6]) {
    assume(k * k > 0.01);
    let (u, v) = (h_ev(a, x), h_ev(b, x));
    let e = |q: Polynomial<4>| q.evaluate(x);
    ([e(p(a) + p(b)), e(p(a) - p(b)), e(-p(a)), e(p(a) * k), e(p(a) / k), e(p(a).scale(k))], [u + v, u - v, -u, k * u, u / k, k * u])
}
pub fn poly_product(a: [f64; 3], b: [f64; 4], x: f64) -> ([f64; 2], [f64; 2]) {
    let w: Polynomial<6> = p(a).multiply_into(&p(b)).unwrap();
    let z: Polynomial<8> = p(a).multiply_into(&p(b)).unwrap();
    ([w.evaluate(x), z.evaluate(x)], [h_ev(a, x) * h_ev(b, x), h_ev(a, x) * h_ev(b, x)])
}
pub fn poly_product_overflow(a: [f64; 3], b: [f64; 3]) -> bool {
    assume(a[2] > 0.01 && b[2] > 0.01 && a[1] > 0.01);
    let small: Result<Polynomial<4>, _> = p(a).multiply_into(&p(b));
    let zero: Result<Polynomial<4>, _> = p([a[0], a[1], 0.0]).multiply_into(&p(b));
    let lost: Result<Polynomial<3>, _> = p([a[0], a[1], 0.0]).multiply_into(&p(b));
    small == Err(PolynomialError::DegreeOverflow) && zero.is_ok() && lost == Err(PolynomialError::DegreeOverflow)
}
pub fn poly_compose(a: [f64; 3], b: [f64; 3], x: f64) -> (f64, f64) {
    let w: Polynomial<5> = p(a).compose_into(&p(b)).unwrap();
    (w.evaluate(x), h_ev(a, h_ev(b, x)))
}
pub fn poly_compose_overflow(a: [f64; 3], b: [f64; 3]) -> bool {
    assume(a[2] > 0.01 && b[2] > 0.01);
    let w: Result<Polynomial<4>, _> = p(a).compose_into(&p(b));
    w == Err(PolynomialError::DegreeOverflow)
}
pub fn poly_divide(a: [f64; 5], b: [f64; 3], x: f64) -> ((f64, f64), (f64, f64)) {
    assume(b[2] * b[2] > 0.01);
    let (q, r): (Polynomial<3>, Polynomial<2>) = p(a).divide(&p(b)).unwrap();
    let (s, t): (Polynomial<5>, Polynomial<5>) = p(a).divide(&p(b)).unwrap();
    ((q.evaluate(x) * h_ev(b, x) + r.evaluate(x), s.evaluate(x) * h_ev(b, x) + t.evaluate(x)), (h_ev(a, x), h_ev(a, x)))
}
/// a divisor stored with vanishing high coefficients divides by its true degree
pub fn poly_divide_padded(a: [f64; 4], b: [f64; 2], x: f64) -> ((f64, f64), (f64, f64)) {
    assume(b[1] * b[1] > 0.01);
    let (q, r): (Polynomial<3>, Polynomial<1>) = p(a).divide(&p([b[0], b[1], 0.0, 0.0])).unwrap();
    ((q.evaluate(x) * h_ev(b, x) + r.evaluate(x), r.evaluate(x)), (h_ev(a, x), h_ev(a, -b[0] / b[1])))
}
pub fn poly_divide_low(a: [f64; 2], b: [f64; 3]) -> (([f64; 2], [f64; 2]), ([f64; 2], [f64; 2])) {
    assume(b[2] * b[2] > 0.01);
    let (q, r): (Polynomial<2>, Polynomial<2>) = p(a).divide(&p(b)).unwrap();
    ((*q.coefficients(), *r.coefficients()), ([0.0; 2], a))
}
pub fn poly_divide_refuses(a: [f64; 4], b: [f64; 2]) -> bool {
    assume(a[3] > 0.01 && b[1] > 0.01 && b[0] > 0.01);
    let zero: Result<(Polynomial<4>, Polynomial<4>), _> = p(a).divide(&p([0.0, 0.0, 0.0]));
    let tight: Result<(Polynomial<2>, Polynomial<2>), _> = p(a).divide(&p(b));
    zero == Err(PolynomialError::LeadingCoefficientZero) && tight == Err(PolynomialError::DegreeOverflow)
}
pub fn poly_shift(c: [f64; 5], h: f64, x: f64) -> (f64, f64) {
    (p(c).shift_argument(h).evaluate(x), h_ev(c, x + h))
}
pub fn poly_scale_argument(c: [f64; 5], k: f64, x: f64) -> (f64, f64) {
    (p(c).scale_argument(k).evaluate(x), h_ev(c, k * x))
}
pub fn poly_reverse(c: [f64; 5], x: f64) -> (f64, f64) {
    assume(x * x > 0.01);
    (p(c).reverse().evaluate(x), x * x * x * x * h_ev(c, 1.0 / x))
}
pub fn poly_degree(c: [f64; 4]) -> bool {
    assume(c[3] > 0.01 && c[1] < -0.01);
    p(c).degree() == Some(3)
        && p([c[0], c[1], 0.0, 0.0]).degree() == Some(1)
        && p([c[1], 0.0, 0.0, 0.0]).degree() == Some(0)
        && p([0.0; 4]).degree().is_none()
        && p([0.0; 4]).is_zero()
        && !p([0.0, c[1], 0.0, 0.0]).is_zero()
        && p(c).leading_coefficient() == Some(c[3])
        && p([c[0], c[1], 0.0, 0.0]).leading_coefficient() == Some(c[1])
        && p([0.0; 4]).leading_coefficient().is_none()
        && p(c).coefficient(4).is_none()
        && p(c).coefficient(3) == Some(c[3])
}
pub fn poly_resize(c: [f64; 4]) -> bool {
    assume(c[3] > 0.01 && c[1] > 0.01);
    let up: Option<Polynomial<6>> = p(c).try_resize();
    let down: Option<Polynomial<3>> = p(c).try_resize();
    let fits: Option<Polynomial<2>> = p([c[0], c[1], 0.0, 0.0]).try_resize();
    let lost: Option<Polynomial<1>> = p([c[0], c[1], 0.0, 0.0]).try_resize();
    up == Some(p([c[0], c[1], c[2], c[3], 0.0, 0.0])) && down.is_none() && fits == Some(p([c[0], c[1]])) && lost.is_none()
}

// ---- construction ----
pub fn poly_from_roots(r: [f64; 4], x: f64) -> ([f64; 2], [f64; 2]) {
    let f = (x - r[0]) * (x - r[1]) * (x - r[2]) * (x - r[3]);
    ([Polynomial::<5>::from_roots(&r).unwrap().evaluate(x), Polynomial::<7>::from_roots(&r).unwrap().evaluate(x)], [f, f])
}
pub fn poly_from_roots_refuses(r: [f64; 4]) -> bool {
    Polynomial::<4>::from_roots(&r) == Err(PolynomialError::DegreeOverflow)
        && Polynomial::<5>::from_roots(&[r[0], f64::NAN]) == Err(PolynomialError::NonFinite)
        && Polynomial::<5>::from_roots(&[f64::INFINITY, r[0]]) == Err(PolynomialError::NonFinite)
        && Polynomial::<2>::from_roots(&[]) == Ok(p([1.0, 0.0]))
}
pub fn poly_from_jet(c: [f64; 4], x: f64, h: f64) -> (f64, f64) {
    let j = Jet::<f64, 4>::variable(x);
    let v = ((j * Jet::constant(c[3]) + Jet::constant(c[2])) * j + Jet::constant(c[1])) * j + Jet::constant(c[0]);
    (Polynomial::<4>::from_jet(&v).unwrap().evaluate(h), h_ev(c, x + h))
}
pub fn poly_from_points(c: [f64; 4], n: [f64; 4], x: f64) -> (f64, f64) {
    let q = Polynomial::<4>::from_points(&n, &[h_ev(c, n[0]), h_ev(c, n[1]), h_ev(c, n[2]), h_ev(c, n[3])]).unwrap();
    (q.evaluate(x), h_ev(c, x))
}
pub fn poly_from_points_small(v: f64, n: [f64; 2], w: [f64; 2], x: f64) -> ([f64; 3], [f64; 3]) {
    let q = Polynomial::<2>::from_points(&n, &w).unwrap();
    ([Polynomial::<1>::from_points(&[x], &[v]).unwrap().evaluate(x + 1.0), q.evaluate(n[0]), q.evaluate(n[1])], [v, w[0], w[1]])
}
pub fn poly_from_points_refuses(n: [f64; 2], v: [f64; 3]) -> bool {
    let f = |a: [f64; 3], b: [f64; 3]| Polynomial::<3>::from_points(&a, &b);
    f([n[0], n[0], n[0] + 1.0], v) == Err(PolynomialError::DuplicateNode)
        && f([n[0], n[0] + 2.0, n[0]], v) == Err(PolynomialError::DuplicateNode)
        && f([n[0], n[0], n[0]], v) == Err(PolynomialError::DuplicateNode)
        && f([n[0], f64::NAN, n[1]], v) == Err(PolynomialError::NonFinite)
        && f([1.0, 2.0, 3.0], [v[0], v[1], f64::INFINITY]) == Err(PolynomialError::NonFinite)
}
pub fn poly_chebyshev(a: f64, b: f64) -> ([f64; 9], [f64; 9]) {
    let n = Polynomial::<3>::chebyshev_nodes(a, b);
    let m = Polynomial::<6>::chebyshev_nodes(-1.0, 1.0);
    let (c, w) = ((a + b) / 2.0, (b - a) / 2.0);
    let r = 3.0f64.sqrt() / 2.0;
    let t = |x: f64| {
        let y = 2.0 * x * x - 1.0;
        4.0 * y * y * y - 3.0 * y
    };
    ([n[0], n[1], n[2], t(m[0]), t(m[1]), t(m[2]), t(m[3]), t(m[4]), t(m[5])], [c - r * w, c, c + r * w, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0])
}
pub fn poly_chebyshev_ascends() -> bool {
    let m = Polynomial::<6>::chebyshev_nodes(-1.0, 1.0);
    m[0] < m[1] && m[1] < m[2] && m[2] < m[3] && m[3] < m[4] && m[4] < m[5] && m[0] == -m[5] && m[1] == -m[4] && m[2] == -m[3]
}
pub fn poly_fit_exact(c: [f64; 2], x: f64) -> (f64, f64) {
    let n = [0.0, 1.0, 2.0, 4.0];
    let q = Polynomial::<2>::fit_least_squares(&n, &[h_ev(c, n[0]), h_ev(c, n[1]), h_ev(c, n[2]), h_ev(c, n[3])]).unwrap();
    (q.evaluate(x), h_ev(c, x))
}
/// the residual of a least-squares fit is orthogonal to every power kept
pub fn poly_fit_orthogonal(v: [f64; 3]) -> ([f64; 2], [f64; 2]) {
    let n = [-1.0, 0.0, 1.0];
    let q = Polynomial::<2>::fit_least_squares(&n, &v).unwrap();
    let mut s = [0.0; 2];
    for i in 0..3 {
        let r = v[i] - q.evaluate(n[i]);
        s[0] += r;
        s[1] += r * n[i];
    }
    (s, [0.0; 2])
}
pub fn poly_fit_refuses(v: [f64; 3]) -> bool {
    Polynomial::<4>::fit_least_squares(&[0.0, 1.0, 2.0], &v) == Err(PolynomialError::TooFewSamples)
        && Polynomial::<2>::fit_least_squares(&[0.0, f64::NAN, 2.0], &v) == Err(PolynomialError::NonFinite)
        && Polynomial::<2>::fit_least_squares(&[0.0, 1.0, 2.0], &[v[0], f64::INFINITY, v[2]]) == Err(PolynomialError::NonFinite)
        && Polynomial::<2>::fit_least_squares(&[v[0], v[0], v[0]], &v) == Err(PolynomialError::DuplicateNode)
}
pub fn poly_hermite_cubic(v: [f64; 4], s: f64) -> ([f64; 4], [f64; 4]) {
    assume(s > 0.01);
    let c = Polynomial::<4>::from_endpoint_derivatives(v[0], v[1], v[2], v[3], s).unwrap();
    let a: [f64; 2] = c.evaluate_with_derivatives(0.0);
    let b: [f64; 2] = c.evaluate_with_derivatives(1.0);
    ([a[0], a[1] / s, b[0], b[1] / s], v)
}
pub fn poly_hermite_septic(a: [f64; 4], b: [f64; 4]) -> (([f64; 4], [f64; 4]), ([f64; 4], [f64; 4])) {
    let s = 2.0;
    let c = Polynomial::<8>::from_endpoint_derivatives(&a, &b, s).unwrap();
    let x: [f64; 4] = c.evaluate_with_derivatives(0.0);
    let y: [f64; 4] = c.evaluate_with_derivatives(1.0);
    let g = |d: [f64; 4]| [d[0], d[1] / s, d[2] / (s * s), d[3] / (s * s * s)];
    ((g(x), g(y)), (a, b))
}
pub fn poly_hermite_refuses(v: [f64; 4], s: f64) -> bool {
    assume(s <= 0.0);
    Polynomial::<4>::from_endpoint_derivatives(v[0], v[1], v[2], v[3], s) == Err(PolynomialError::SpanNotPositive)
        && Polynomial::<4>::from_endpoint_derivatives(v[0], f64::NAN, v[2], v[3], 1.0) == Err(PolynomialError::NonFinite)
        && Polynomial::<4>::from_endpoint_derivatives(v[0], v[1], v[2], v[3], f64::INFINITY) == Err(PolynomialError::NonFinite)
        && Polynomial::<8>::from_endpoint_derivatives(&v, &v, s) == Err(PolynomialError::SpanNotPositive)
        && Polynomial::<8>::from_endpoint_derivatives(&v, &[v[0], v[1], v[2], f64::NAN], 1.0) == Err(PolynomialError::NonFinite)
}

// ---- several variables ----
type T2 = MultivariateTerm<2>;
fn h_m(c: [f64; 4]) -> MultivariatePolynomial<2, 6> {
    MultivariatePolynomial::try_from_terms(&[T2::new(c[0], [0, 0]), T2::new(c[1], [2, 1]), T2::new(c[2], [1, 3]), T2::new(c[3], [0, 2])]).unwrap()
}
fn h_mv(c: [f64; 4], x: f64, y: f64) -> f64 {
    c[0] + c[1] * x * x * y + c[2] * x * y * y * y + c[3] * y * y
}
pub fn multi_evaluate(c: [f64; 4], x: f64, y: f64) -> (f64, f64) {
    (h_m(c).evaluate(&[x, y]), h_mv(c, x, y))
}
pub fn multi_derivatives(c: [f64; 4], x: f64, y: f64) -> ([f64; 4], [f64; 4]) {
    let d = [2.0 * c[1] * x * y + c[2] * y * y * y, c[1] * x * x + 3.0 * c[2] * x * y * y + 2.0 * c[3] * y];
    let g = h_m(c).gradient_at(&[x, y]).into_array();
    ([h_m(c).partial_derivative(0).unwrap().evaluate(&[x, y]), h_m(c).partial_derivative(1).unwrap().evaluate(&[x, y]), g[0], g[1]], [d[0], d[1], d[0], d[1]])
}
pub fn multi_antiderivative(c: [f64; 4], x: f64, y: f64) -> ([f64; 4], [f64; 4]) {
    let (a, b) = (h_m(c).partial_antiderivative(0).unwrap(), h_m(c).partial_antiderivative(1).unwrap());
    ([a.partial_derivative(0).unwrap().evaluate(&[x, y]), b.partial_derivative(1).unwrap().evaluate(&[x, y]), a.evaluate(&[0.0, y]), b.evaluate(&[x, 0.0])], [h_mv(c, x, y), h_mv(c, x, y), 0.0, 0.0])
}
pub fn multi_substitute(c: [f64; 4], k: f64, x: f64, y: f64) -> ([f64; 2], [f64; 2]) {
    ([h_m(c).substitute(0, k).unwrap().evaluate(&[x, y]), h_m(c).substitute(1, k).unwrap().evaluate(&[x, y])], [h_mv(c, k, y), h_mv(c, x, k)])
}
pub fn multi_ring(c: [f64; 4], d: [f64; 2], x: f64, y: f64) -> ([f64; 2], [f64; 2]) {
    let e: MultivariatePolynomial<2, 2> = MultivariatePolynomial::try_from_array([T2::new(d[0], [2, 1]), T2::new(d[1], [1, 0])]).unwrap();
    let s: MultivariatePolynomial<2, 8> = h_m(c).add_into(&e).unwrap();
    let q: MultivariatePolynomial<2, 8> = h_m(c).multiply_into(&e).unwrap();
    let v = d[0] * x * x * y + d[1] * x;
    ([s.evaluate(&[x, y]), q.evaluate(&[x, y])], [h_mv(c, x, y) + v, h_mv(c, x, y) * v])
}
pub fn multi_collect(c: [f64; 3], x: f64, y: f64) -> ((f64, bool), (f64, bool)) {
    assume(c[0] > 0.01 && c[1] > 0.01 && c[2] > 0.01);
    let mut m: MultivariatePolynomial<2, 6> = MultivariatePolynomial::try_from_terms(&[T2::new(c[0], [1, 0]), T2::new(c[1], [0, 1]), T2::new(-c[0], [1, 0]), T2::new(c[2], [0, 1]), T2::new(c[2], [2, 2])]).unwrap();
    m.collect_like_terms();
    ((m.evaluate(&[x, y]), m.len() == 2 && m.terms().len() == 2), ((c[1] + c[2]) * y + c[2] * x * x * y * y, true))
}
pub fn multi_refuses(c: [f64; 4]) -> bool {
    let t = |v: f64| T2::new(v, [1, 1]);
    let mut full: MultivariatePolynomial<2, 1> = MultivariatePolynomial::new();
    assume(full.push(t(c[0])).is_ok());
    full.push(t(c[1])) == Err(PolynomialError::CapacityExceeded)
        && full.len() == 1
        && full.push(t(f64::NAN)) == Err(PolynomialError::NonFinite)
        && MultivariatePolynomial::<2, 2>::try_from_array([t(c[0]), t(f64::INFINITY)]) == Err(PolynomialError::NonFinite)
        && MultivariatePolynomial::<2, 1>::try_from_terms(&[t(c[0]), t(c[1])]) == Err(PolynomialError::CapacityExceeded)
        && h_m(c).partial_derivative(2) == Err(PolynomialError::VariableOutOfRange)
        && h_m(c).partial_antiderivative(2) == Err(PolynomialError::VariableOutOfRange)
        && h_m(c).substitute(2, 1.0) == Err(PolynomialError::VariableOutOfRange)
        && MultivariatePolynomial::<2, 1>::try_from_terms(&[T2::new(c[0], [u32::MAX, 0])]).unwrap().partial_antiderivative(0) == Err(PolynomialError::DegreeOverflow)
}
pub fn multi_degrees(c: [f64; 4]) -> bool {
    h_m(c).total_degree() == Some(4) && h_m(c).degree_in(0) == Some(2) && h_m(c).degree_in(1) == Some(3) && h_m(c).degree_in(2).is_none() && MultivariatePolynomial::<2, 1>::new().total_degree().is_none() && MultivariatePolynomial::<2, 1>::new().degree_in(0).is_none()
}
pub fn multi_univariate(c: [f64; 4], x: f64) -> ([f64; 2], [f64; 2]) {
    assume(c[0] * c[0] > 0.01 && c[1] * c[1] > 0.01 && c[2] * c[2] > 0.01 && c[3] * c[3] > 0.01);
    let m: MultivariatePolynomial<1, 4> = MultivariatePolynomial::from_univariate(&p(c)).unwrap();
    let back: Polynomial<4> = m.to_univariate().unwrap();
    ([m.evaluate(&[x]), back.evaluate(x)], [h_ev(c, x), h_ev(c, x)])
}
pub fn multi_univariate_refuses(c: [f64; 4]) -> bool {
    assume(c[0] > 0.01 && c[1] > 0.01 && c[2] > 0.01 && c[3] > 0.01);
    let m: MultivariatePolynomial<1, 4> = MultivariatePolynomial::from_univariate(&p(c)).unwrap();
    let tight: Result<Polynomial<3>, _> = m.to_univariate();
    MultivariatePolynomial::<1, 3>::from_univariate(&p(c)) == Err(PolynomialError::CapacityExceeded) && tight == Err(PolynomialError::DegreeOverflow)
}

// ---- pieces ----
type C = [[f64; 3]; 4];
fn h_curve(c: C, s: [f64; 2]) -> PiecewisePolynomial<3, 3, 2> {
    assume(s[0] > 0.1 && s[1] > 0.1);
    PiecewisePolynomial::try_from_pieces(&[[p(c[0]), p(c[1])], [p(c[2]), p(c[3])]], &s).unwrap()
}
pub fn piece_evaluate(c: C, u: f64) -> (([f64; 2], [f64; 2], [f64; 2]), ([f64; 2], [f64; 2], [f64; 2])) {
    let q = h_curve(c, [2.0, 0.5]);
    let k = if u <= 0.0 { (0, 0.0) } else if u < 2.0 { (0, u / 2.0) } else if u < 2.5 { (2, (u - 2.0) / 0.5) } else { (2, 1.0) };
    let s = if k.0 == 0 { 2.0 } else { 0.5 };
    let v = [h_ev(c[k.0], k.1), h_ev(c[k.0 + 1], k.1)];
    let d = [h_ev(h_d(c[k.0]), k.1) / s, h_ev(h_d(c[k.0 + 1]), k.1) / s];
    let e = q.evaluate_with_derivatives::<2>(u).unwrap();
    ((q.evaluate(u).unwrap().into_array(), e[0].into_array(), e[1].into_array()), (v, v, d))
}
pub fn piece_derivatives(c: C, u: f64, s: [f64; 2]) -> ([[f64; 2]; 4], [[f64; 2]; 4]) {
    let q = h_curve(c, s);
    assume(u > 0.0 && u < s[0]);
    let t = u / s[0];
    let d = |c: [f64; 3]| [h_ev(c, t), h_ev(h_d(c), t) / s[0], 2.0 * c[2] / (s[0] * s[0]), 0.0];
    let (x, y) = (d(c[0]), d(c[1]));
    let e = q.evaluate_with_derivatives::<4>(u).unwrap();
    ([e[0].into_array(), e[1].into_array(), e[2].into_array(), e[3].into_array()], [[x[0], y[0]], [x[1], y[1]], [x[2], y[2]], [x[3], y[3]]])
}
pub fn piece_derivative_curve(c: C, u: f64) -> (([f64; 2], [f64; 2]), ([f64; 2], [f64; 2])) {
    let q = h_curve(c, [2.0, 0.5]);
    let e = q.evaluate_with_derivatives::<3>(u).unwrap();
    ((q.derivative().evaluate(u).unwrap().into_array(), q.nth_derivative(2).evaluate(u).unwrap().into_array()), (e[1].into_array(), e[2].into_array()))
}
pub fn piece_integral(c: C) -> (([f64; 2], [f64; 2], [f64; 2]), ([f64; 2], [f64; 2], [f64; 2])) {
    let s = [2.0, 0.5];
    let q = h_curve(c, s);
    let w = |c: [f64; 3], a: f64, b: f64| c[0] * (b - a) + c[1] * (b * b - a * a) / 2.0 + c[2] * (b * b * b - a * a * a) / 3.0;
    let o = |k: usize| s[0] * w(c[k], 0.5, 1.0) + s[1] * w(c[k + 2], 0.0, 0.5);
    let all = |k: usize| s[0] * w(c[k], 0.0, 1.0) + s[1] * w(c[k + 2], 0.0, 1.0);
    (
        (q.definite_integral(1.0, 2.25).unwrap().into_array(), q.definite_integral(2.25, 1.0).unwrap().into_array(), q.definite_integral(-3.0, 9.0).unwrap().into_array()),
        ([o(0), o(1)], [-o(0), -o(1)], [all(0), all(1)]),
    )
}
pub fn piece_integral_inside(c: C, a: f64, b: f64) -> ([f64; 2], [f64; 2]) {
    assume(a > 2.0 && a < 2.5);
    let q = h_curve(c, [2.0, 0.5]);
    let w = |c: [f64; 3], a: f64, b: f64| 0.5 * (c[0] * (b - a) + c[1] * (b * b - a * a) / 2.0 + c[2] * (b * b * b - a * a * a) / 3.0);
    let t = (a - 2.0) / 0.5;
    let _ = b;
    (q.definite_integral(a, 5.0).unwrap().into_array(), [w(c[2], t, 1.0), w(c[3], t, 1.0)])
}
pub fn piece_spans(c: C, s: [f64; 2]) -> ((f64, bool), (f64, bool)) {
    let q = h_curve(c, s);
    ((q.total_span(), q.span(0) == Some(s[0]) && q.span(1) == Some(s[1]) && q.span(2).is_none() && q.piece_count() == 2 && q.piece_polynomial(1, 0) == Some(&p(c[2])) && q.piece_polynomial(2, 0).is_none() && q.piece_polynomial(0, 2).is_none()), (s[0] + s[1], true))
}
pub fn piece_refuses(c: C, s: f64, z: f64) -> bool {
    assume(s > 0.1 && z <= 0.0);
    type Q = PiecewisePolynomial<1, 3, 2>;
    let a = [p(c[0]), p(c[1])];
    Q::try_from_pieces(&[], &[]) == Err(PolynomialError::Empty)
        && Q::try_from_pieces(&[a, a], &[s, s]) == Err(PolynomialError::CapacityExceeded)
        && PiecewisePolynomial::<3, 3, 2>::try_from_pieces(&[a, a], &[s]) == Err(PolynomialError::CapacityExceeded)
        && Q::try_from_pieces(&[a], &[z]) == Err(PolynomialError::SpanNotPositive)
        && Q::try_from_pieces(&[a], &[f64::NAN]) == Err(PolynomialError::SpanNotPositive)
        && Q::try_from_pieces(&[a], &[f64::INFINITY]) == Err(PolynomialError::SpanNotPositive)
}

// ---- closed-form roots ----
pub fn roots_linear(k: f64, r: f64) -> (([f64; 1], bool), ([f64; 1], bool)) {
    assume(k * k > 0.01);
    let s = p([-k * r, k]).real_roots().unwrap();
    (([s.as_slice()[0]], s.len() == 1), ([r], true))
}
pub fn roots_quadratic(k: f64, r: [f64; 2]) -> (([f64; 2], bool), ([f64; 2], bool)) {
    assume(k * k > 0.01);
    let d = k * (r[0] - r[1]);
    assume(d * d > 0.0001);
    let s = p([k * r[0] * r[1], -k * (r[0] + r[1]), k]).real_roots().unwrap();
    assume(s.len() == 2);
    let o = if r[0] <= r[1] { r } else { [r[1], r[0]] };
    let (x, y) = (s.as_slice()[0], s.as_slice()[1]);
    // sorted and the same pair
    (([x + y, x * y], x <= y), ([o[0] + o[1], o[0] * o[1]], true))
}
pub fn roots_quadratic_double(k: f64, r: f64) -> (([f64; 2], bool), ([f64; 2], bool)) {
    assume(k * k > 0.01 && r * r > 0.01);
    let s = p([k * r * r, -2.0 * k * r, k]).real_roots().unwrap();
    (([s.as_slice()[0], s.as_slice()[1]], s.len() == 2), ([r, r], true))
}
pub fn roots_quadratic_zero(k: f64) -> (([f64; 2], bool), ([f64; 2], bool)) {
    assume(k * k > 0.01);
    let s = p([0.0, 0.0, k]).real_roots().unwrap();
    (([s.as_slice()[0], s.as_slice()[1]], s.len() == 2), ([0.0, 0.0], true))
}
pub fn roots_quadratic_none(k: f64, r: f64, w: f64) -> bool {
    assume(k * k > 0.01 && w * w > 0.01);
    // k ((x - r)^2 + w^2)
    p([k * k * (r * r + w * w), -2.0 * k * k * r, k * k]).real_roots().unwrap().is_empty()
}
pub fn roots_cubic_one(k: f64, s: f64, u: f64, v: f64) -> ((f64, bool), (f64, bool)) {
    assume(k * k > 0.01 && u * u > 0.01 && v * v > 0.01);
    // y^3 - 3uv y - (u^3 + v^3) has the real root u + v, and it is the only one when u and v differ
    let d = (u * u * u - v * v * v) / 2.0;
    assume(d * d > 0.0001);
    let (b, c) = (-3.0 * u * v, -(u * u * u + v * v * v));
    let q = p([k * (-s * s * s - b * s + c), k * (3.0 * s * s + b), -3.0 * k * s, k]);
    let o = q.real_roots().unwrap();
    assume(o.len() == 1);
    ((o.as_slice()[0], true), (s + u + v, true))
}
pub fn roots_cubic_pure(k: f64, s: f64, u: f64) -> ((f64, bool), (f64, bool)) {
    assume(k * k > 0.01 && u * u > 0.01);
    let c = u * u * u;
    let q = p([k * (-s * s * s + c), k * 3.0 * s * s, -3.0 * k * s, k]);
    let o = q.real_roots().unwrap();
    ((o.as_slice()[0], o.len() == 1), (s - u, true))
}
pub fn roots_cubic_triple(k: f64, s: f64) -> (([f64; 3], bool), ([f64; 3], bool)) {
    assume(k * k > 0.01);
    let o = p([-k * s * s * s, k * 3.0 * s * s, -3.0 * k * s, k]).real_roots().unwrap();
    assume(o.len() == 3);
    (([o.as_slice()[0], o.as_slice()[1], o.as_slice()[2]], true), ([s, s, s], true))
}
/// y^3 - 3 m^2 y - 2 m^3 cos 3t: every root reported is a root, and together they are all of them
pub fn roots_cubic_three(k: f64, s: f64, m: f64, t: f64) -> ([f64; 3], [f64; 3]) {
    let m = m * m + 0.1;
    assume(k * k > 0.01);
    let (c3, s3) = ((3.0 * t).cos(), (3.0 * t).sin());
    assume(s3 * s3 > 0.0001 && (m * m) > 0.0 && (1.0 / m) * (1.0 / m) > 0.0);
    let (b, c) = (-3.0 * m * m, -2.0 * m * m * m * c3);
    assume(4.0 * b * b * b + 27.0 * c * c <= 0.0 && c3 < 1.0 && c3 > -1.0);
    let q = p([k * (-s * s * s - b * s + c), k * (3.0 * s * s + b), -3.0 * k * s, k]);
    let o = q.real_roots().unwrap();
    assume(o.len() == 3);
    let (x, y, z) = (o.as_slice()[0] - s, o.as_slice()[1] - s, o.as_slice()[2] - s);
    ([x + y + z, x * y + y * z + z * x, x * y * z], [0.0, b, -c])
}
pub fn roots_biquadratic(k: f64, s: f64, a: f64, b: f64) -> ([f64; 4], [f64; 4]) {
    assume(k * k > 0.01 && a * a > 0.1 && b * b > 0.1);
    let d = a * a - b * b;
    assume(d * d > 0.0001);
    // ((x-s)^2 - a^2)((x-s)^2 - b^2)
    let y = Polynomial::<5>::from_roots(&[s + a, s - a, s + b, s - b]).unwrap() * k;
    let o = y.real_roots().unwrap();
    assume(o.len() == 4);
    let r = o.as_slice();
    let (x, y, z, w) = (r[0] - s, r[1] - s, r[2] - s, r[3] - s);
    ([x + y + z + w, x * x + y * y + z * z + w * w, x * x * x + y * y * y + z * z * z + w * w * w, x * y * z * w], [0.0, 2.0 * a * a + 2.0 * b * b, 0.0, a * a * b * b])
}
pub fn roots_refuse(c: [f64; 4]) -> bool {
    let n = f64::NAN;
    p([c[0], 0.0]).real_roots() == Err(PolynomialError::LeadingCoefficientZero)
        && p([c[0], c[1], 0.0]).real_roots() == Err(PolynomialError::LeadingCoefficientZero)
        && p([c[0], c[1], c[2], 0.0]).real_roots() == Err(PolynomialError::LeadingCoefficientZero)
        && p([c[0], c[1], c[2], c[3], 0.0]).real_roots() == Err(PolynomialError::LeadingCoefficientZero)
        && p([n, 1.0]).real_roots() == Err(PolynomialError::NonFinite)
        && p([c[0], n, 1.0]).real_roots() == Err(PolynomialError::NonFinite)
        && p([c[0], n, c[1], 1.0]).real_roots() == Err(PolynomialError::NonFinite)
        && p([c[0], n, c[1], c[2], 1.0]).real_roots() == Err(PolynomialError::NonFinite)
}
pub fn roots_cauchy(c: [f64; 3], k: f64) -> (f64, f64) {
    assume(k > 0.01);
    let b = p([c[0] * k, c[1] * k, c[2] * k, k, 0.0]).cauchy_root_bound().unwrap();
    let m = c[0].abs().max(c[1].abs()).max(c[2].abs());
    (b, 1.0 + m)
}
/// the range takes in its upper end but not its lower one
pub fn roots_count_simple(r: f64, a: f64, b: f64) -> bool {
    let q = p([-r, 1.0, 0.0]);
    q.count_real_roots(r - 1.0, r + 1.0) == Ok(1) && q.count_real_roots(r, r + 1.0) == Ok(0) && q.count_real_roots(r - 1.0, r) == Ok(1) && q.count_real_roots(r + 1.0, r + 2.0) == Ok(0) && { let _ = (a, b); true }
}
pub fn roots_count_cubic() -> bool {
    let q = p([3.0, -1.0, -3.0, 1.0]);
    q.count_real_roots(-5.0, 5.0) == Ok(3) && q.count_real_roots(-1.0, 3.0) == Ok(2) && q.count_real_roots(-1.0, 2.9) == Ok(1) && q.count_real_roots(1.5, 2.5) == Ok(0)
}
pub fn roots_count_repeated(r: f64) -> bool {
    let q = Polynomial::<4>::from_roots(&[r, r, r + 2.0]).unwrap();
    q.count_real_roots(r - 1.0, r + 3.0) == Ok(2) && q.count_real_roots(r - 1.0, r + 1.0) == Ok(1)
}
pub fn roots_in_middle(r: f64) -> ((f64, bool), (f64, bool)) {
    // width 4 about the root, tolerance 5: no halving; tolerance 3: one
    let q = Polynomial::<3>::from_roots(&[r, r + 20.0]).unwrap();
    let o = q.real_roots_in(r - 2.0, r + 2.0, 5.0, 10).unwrap();
    let h = q.real_roots_in(r - 1.0, r + 3.0, 3.0, 10).unwrap();
    ((o.as_slice()[0] + 10.0 * h.as_slice()[0], o.len() == 1 && h.len() == 1), (r + 10.0 * r, true))
}
pub fn roots_in_refuses(c: [f64; 3], z: f64) -> bool {
    assume(z <= 0.0 && c[2] > 0.01);
    let q = p(c);
    q.real_roots_in(f64::NAN, 1.0, 0.1, 9) == Err(PolynomialError::NonFinite)
        && q.real_roots_in(0.0, f64::INFINITY, 0.1, 9) == Err(PolynomialError::NonFinite)
        && q.real_roots_in(0.0, 1.0, f64::NAN, 9) == Err(PolynomialError::NonFinite)
        && q.real_roots_in(0.0, 1.0, z, 9) == Err(PolynomialError::ToleranceNotPositive)
        && q.real_roots_in(1.0, 0.5, 0.1, 9) == Err(PolynomialError::RangeReversed)
        && p([-1.0, 1.0]).real_roots_in(0.0, 3.0, 0.1, 2) == Err(PolynomialError::DidNotConverge { steps: 2 })
}

// ---- solvers ----
struct HLine(f64, f64);
impl ScalarFn for HLine {
    fn eval<S: Numeric>(&self, x: S) -> S {
        (x - S::from_f64(self.1)) * S::from_f64(self.0)
    }
}
struct HQuad([f64; 3]);
impl ScalarFn for HQuad {
    fn eval<S: Numeric>(&self, x: S) -> S {
        (x * S::from_f64(self.0[2]) + S::from_f64(self.0[1])) * x + S::from_f64(self.0[0])
    }
}
pub fn newton_line(k: f64, r: f64, x: f64) -> ((f64, f64), (f64, f64)) {
    let d = (x - r) * k;
    assume(d > 1.0 || d < -1.0);
    assume(k > 0.01 || k < -0.01);
    let o = Newton::new().solve(&HLine(k, r), x).unwrap();
    ((o.root, o.residual), (r, 0.0))
}
/// one step of Newton's method, seen through a step tolerance that accepts it
pub fn newton_step(c: [f64; 3], x: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    let d = 2.0 * c[2] * x + c[1];
    let f = h_ev(c, x);
    let y = x - f / d;
    assume(d * d > 0.01 && (y - x).abs() <= 1.0 + y.abs());
    let o = Newton::new().with_xtol(1.0).with_ftol(-1.0).solve(&HQuad(c), x).unwrap();
    ((o.root, o.residual, o.iterations == 1 && o.termination == RootTermination::StepTolerance), (y, h_ev(c, y), true))
}
pub fn newton_two_steps(c: [f64; 3], x: f64, t: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    let d = 2.0 * c[2] * x + c[1];
    assume(d * d > 0.01);
    let y = x - h_ev(c, x) / d;
    let e = 2.0 * c[2] * y + c[1];
    assume(e * e > 0.01 && t > 0.0);
    let z = y - h_ev(c, y) / e;
    match Newton::new().with_xtol(t).with_ftol(-1.0).with_max_iterations(2).solve(&HQuad(c), x) {
        Err(e) => {
            // neither step was short enough
            let far = (y - x).abs() > t * (1.0 + y.abs()) && (z - y).abs() > t * (1.0 + z.abs());
            ((0.0, 0.0, e == SolveError::DidNotConverge { iters: 2 } && far), (0.0, 0.0, true))
        }
        Ok(o) => {
            let first = (y - x).abs() <= t * (1.0 + y.abs());
            let w = if first { y } else { z };
            ((o.root, o.residual, o.iterations == if first { 1 } else { 2 }), (w, h_ev(c, w), true))
        }
    }
}
pub fn newton_at_root(c: [f64; 2], r: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    let o = Newton::new().solve(&HQuad([-c[0] * r - c[1] * r * r, c[0], c[1]]), r).unwrap();
    ((o.root, o.residual, o.termination == RootTermination::ResidualTolerance), (r, 0.0, true))
}
pub fn newton_refuses(c: f64, x: f64) -> bool {
    assume(c > 1.0 || c < -1.0);
    Newton::new().solve(&HQuad([c, 0.0, 0.0]), x).err() == Some(SolveError::Linalg(LinalgError::Singular))
        && Newton::new().solve(&HQuad([f64::NAN, 1.0, 0.0]), x).err() == Some(SolveError::NonFinite)
        && Newton::new().with_max_iterations(0).solve(&HQuad([c, 1.0, 0.0]), x).err() == Some(SolveError::DidNotConverge { iters: 0 })
}
struct HSystem([f64; 6]);
impl VectorFn<2, 2> for HSystem {
    fn eval<S: Numeric>(&self, v: &[S; 2]) -> [S; 2] {
        let k = |i: usize| S::from_f64(self.0[i]);
        [v[0] * k(0) + v[1] * k(1) + k(2), v[0] * k(3) + v[1] * k(4) + k(5)]
    }
}
/// one step solves a linear system
pub fn newton_system_linear(c: [f64; 6], x: [f64; 2]) -> (([f64; 2], bool), ([f64; 2], bool)) {
    let d = c[0] * c[4] - c[1] * c[3];
    assume(d * d > 0.01 && c[0] * c[0] > 0.01);
    let o = NewtonSystem::new().with_ftol(-1.0).solve(&HSystem(c), &x).unwrap();
    let s = [(c[1] * c[5] - c[2] * c[4]) / d, (c[2] * c[3] - c[0] * c[5]) / d];
    ((o.root, o.iterations <= 2), (s, true))
}
struct HCurved([f64; 3]);
impl VectorFn<2, 2> for HCurved {
    fn eval<S: Numeric>(&self, v: &[S; 2]) -> [S; 2] {
        let k = |i: usize| S::from_f64(self.0[i]);
        [v[0] * v[0] + v[1] * k(0) + k(1), v[1] * v[0] + k(2)]
    }
}
pub fn newton_system_step(c: [f64; 3], a: f64) -> (([f64; 2], f64), ([f64; 2], f64)) {
    let x = [2.0 + a * a, 1.0];
    let f = [x[0] * x[0] + x[1] * c[0] + c[1], x[1] * x[0] + c[2]];
    let j = [[2.0 * x[0], c[0]], [x[1], x[0]]];
    match NewtonSystem::new().with_xtol(1.0).with_ftol(-1.0).with_max_iterations(1).solve(&HCurved(c), &x) {
        Err(_) => (([0.0; 2], 0.0), ([0.0; 2], 0.0)),
        Ok(o) => {
            let s = [o.root[0] - x[0], o.root[1] - x[1]];
            let y = o.root;
            let g = [y[0] * y[0] + y[1] * c[0] + c[1], y[1] * y[0] + c[2]];
            (
                ([j[0][0] * s[0] + j[0][1] * s[1], j[1][0] * s[0] + j[1][1] * s[1]], o.residual_norm * o.residual_norm),
                ([-f[0], -f[1]], g[0] * g[0] + g[1] * g[1]),
            )
        }
    }
}
pub fn newton_system_refuses(c: [f64; 6], x: [f64; 2]) -> bool {
    NewtonSystem::new().solve(&HSystem([f64::NAN, c[1], c[2], c[3], c[4], c[5]]), &x).err() == Some(SolveError::NonFinite)
        && NewtonSystem::new().with_ftol(-1.0).with_max_iterations(0).solve(&HSystem(c), &x).err() == Some(SolveError::DidNotConverge { iters: 0 })
        && NewtonSystem::new().with_ftol(-1.0).solve(&HSystem([1.0, 2.0, c[0], 2.0, 4.0, c[1]]), &x).err().is_some()
}
fn h_sign(up: bool) -> f64 {
    if up { 1.0 } else { -1.0 }
}
/// bisection halves the bracket that holds the sign change
pub fn bisection_exhausts(up: bool, r: f64) -> bool {
    assume(r > 0.0 && r < 8.0);
    let o = Bisection::new().with_xtol(1e-9).with_ftol(-1.0).with_max_iterations(3).solve(&HLine(h_sign(up), r), 0.0, 8.0);
    o.err() == Some(SolveError::DidNotConverge { iters: 3 })
}
/// with a width accepted at one, every start from a bracket of eight ends on the middle of the eighth that holds the root
pub fn bisection_result(up: bool, r: f64, swap: bool) -> bool {
    assume(r > 0.0 && r < 8.0);
    let (a, b) = if swap { (8.0, 0.0) } else { (0.0, 8.0) };
    match Bisection::new().with_xtol(0.1).with_ftol(-1.0).with_max_iterations(12).solve(&HLine(h_sign(up), r), a, b) {
        Err(_) => false,
        Ok(o) => {
            let w = 0.05 * (1.0 + o.root);
            o.root - r <= w && r - o.root <= w && o.termination == RootTermination::BracketWidth
        }
    }
}
pub fn bisection_narrows(up: bool, r: f64) -> bool {
    assume(r > 4.0 && r < 5.0);
    match Bisection::new().with_xtol(0.01).with_ftol(-1.0).with_max_iterations(20).solve(&HLine(h_sign(up), r), -3.0, 13.0) {
        Err(_) => false,
        Ok(o) => {
            let w = 0.005 * (1.0 + o.root);
            o.root - r <= w && r - o.root <= w
        }
    }
}
pub fn bisection_ends(k: f64, r: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    assume(k * k > 0.01);
    let a = Bisection::new().solve(&HLine(k, r), r, r + 1.0).unwrap();
    let b = Bisection::new().solve(&HLine(k, r), r - 1.0, r).unwrap();
    ((a.root, b.root, a.iterations == 0 && b.iterations == 0), (r, r, true))
}
pub fn bracket_refused(k: f64, r: f64) -> bool {
    assume(k * k > 0.01);
    Bisection::new().solve(&HLine(k, r), r + 1.0, r + 2.0).err() == Some(SolveError::InvalidBracket)
        && Bisection::new().solve(&HLine(k, r), r - 1.0, r - 2.0).err() == Some(SolveError::InvalidBracket)
        && Brent::new().solve(&HLine(k, r), r + 1.0, r + 2.0).err() == Some(SolveError::InvalidBracket)
        && Brent::new().solve(&HLine(k, r), r - 1.0, r - 2.0).err() == Some(SolveError::InvalidBracket)
        && Bisection::new().solve(&HLine(f64::NAN, r), r - 1.0, r + 2.0).err() == Some(SolveError::NonFinite)
        && Brent::new().solve(&HLine(f64::NAN, r), r - 1.0, r + 2.0).err() == Some(SolveError::NonFinite)
}
pub fn brent_ends(k: f64, r: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    assume(k * k > 0.01);
    let a = Brent::new().solve(&HLine(k, r), r, r + 1.0).unwrap();
    let b = Brent::new().solve(&HLine(k, r), r - 1.0, r).unwrap();
    ((a.root, b.root, a.iterations == 0 && b.iterations == 0), (r, r, true))
}
/// a straight line is solved by the first secant step, from either end
pub fn brent_line(k: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    assume(k > 0.01 || k < -0.01);
    let o = Brent::new().solve(&HLine(k, 2.0), 0.0, 3.0).unwrap();
    let q = Brent::new().solve(&HLine(k, 2.0), 3.0, 0.0).unwrap();
    ((o.root, q.root, o.iterations == 1 && q.iterations == 1), (2.0, 2.0, true))
}

/// whatever the function, the reported residual is its value at the reported root, which lies in the bracket
pub fn brent_reports(a: f64, b: f64, q: f64) -> ((f64, bool), (f64, bool)) {
    let a = -(a * a + 0.01);
    let b = b * b + 0.01;
    let c = [a, b - a - q, q];
    match Brent::new().with_max_iterations(1).solve(&HQuad(c), 0.0, 1.0) {
        Err(e) => ((0.0, e == SolveError::DidNotConverge { iters: 1 }), (0.0, true)),
        Ok(o) => ((o.residual, o.root >= 0.0 && o.root <= 1.0), (h_ev(c, o.root), true)),
    }
}
/// the secant point is taken only when it falls within half the bracket of the best end
pub fn brent_first_step(a: f64, b: f64, q: f64) -> ((f64, bool), (f64, bool)) {
    let a = -(a * a + 2.0);
    let b = b * b + 2.0;
    let c = [a, b - a - q, q];
    let s = -a / (b - a);
    // the best end is the one of the smaller residual, and the secant point is nearer to it
    match Brent::new().with_xtol(-1.0).with_ftol(1.0).with_max_iterations(1).solve(&HQuad(c), 0.0, 1.0) {
        Err(_) => ((0.0, true), (0.0, true)),
        Ok(o) => (((o.root - s) * (o.root - 0.5), o.iterations == 1), (0.0, true)),
    }
}
/// a step that would enlarge the residual is halved until it does not
pub fn newton_backtracks(k: f64) -> ((f64, f64, f64), (f64, f64, f64)) {
    assume(k > 0.1 || k < -0.1);
    let f = HQuad([k, 0.0, k]);
    let n = Newton::new().with_ftol(-1.0).with_xtol(4.0);
    let o = n.with_backtracking(true).solve(&f, 0.5).unwrap();
    let q = Newton::new().with_ftol(-1.0).with_xtol(4.0).solve(&f, 0.5).unwrap();
    ((o.root, o.residual, q.root), (-0.125, k * 1.015625, -0.75))
}
pub fn newton_backtracks_bounded(k: f64) -> bool {
    // no step along the line shrinks the residual: the last try stands
    assume(k > 0.1 || k < -0.1);
    let o = Newton::new().with_ftol(-1.0).with_xtol(4.0).with_backtracking(true).solve(&HQuad([k, 1e-4 * k, k]), 0.0);
    o.is_ok()
}
struct HPair(f64);
impl VectorFn<2, 2> for HPair {
    fn eval<S: Numeric>(&self, v: &[S; 2]) -> [S; 2] {
        let k = S::from_f64(self.0);
        [(v[0] * v[0] + S::ONE) * k, (v[1] - v[0]) * k]
    }
}
pub fn newton_system_backtracks(k: f64) -> (([f64; 2], [f64; 2]), ([f64; 2], [f64; 2])) {
    assume(k > 0.1 || k < -0.1);
    let o = NewtonSystem::new().with_ftol(-1.0).with_xtol(4.0).with_backtracking(true).solve(&HPair(k), &[0.5, 0.5]).unwrap();
    let q = NewtonSystem::new().with_ftol(-1.0).with_xtol(4.0).solve(&HPair(k), &[0.5, 0.5]).unwrap();
    ((o.root, q.root), ([-0.125, -0.125], [-0.75, -0.75]))
}

// ---- quartics with repeated or missing roots
fn h_quartic(k: f64, s: f64, e: [f64; 3]) -> Polynomial<5> {
    // y^4 + e2 y^2 + e1 y + e0 about s
    Polynomial::<5>::new([
        k * (s * s * s * s + e[2] * s * s - e[1] * s + e[0]),
        k * (-4.0 * s * s * s - 2.0 * e[2] * s + e[1]),
        k * (6.0 * s * s + e[2]),
        k * -4.0 * s,
        k,
    ])
}
pub fn roots_quartic_double_middle(k: f64, s: f64, a: f64) -> (([f64; 4], usize), ([f64; 4], usize)) {
    let a = a * a + 0.5;
    assume(k * k > 0.01 && a > 0.25 && 2.0 * a > 0.5);
    let o = h_quartic(k, s, [0.0, 0.0, -a * a]).real_roots().unwrap();
    let r = o.as_slice();
    (([r[0], r[1], r[2], r[3]], r.len()), ([s - a, s, s, s + a], 4))
}
pub fn roots_quartic_fourfold(k: f64, s: f64) -> (([f64; 4], usize), ([f64; 4], usize)) {
    assume(k * k > 0.01);
    let o = h_quartic(k, s, [0.0; 3]).real_roots().unwrap();
    let r = o.as_slice();
    (([r[0], r[1], r[2], r[3]], r.len()), ([s, s, s, s], 4))
}
pub fn roots_quartic_double_only(k: f64, s: f64, a: f64) -> (([f64; 2], usize), ([f64; 2], usize)) {
    let a = a * a + 0.5;
    assume(k * k > 0.01 && a > 0.25 && 2.0 * a > 0.5);
    let o = h_quartic(k, s, [0.0, 0.0, a * a]).real_roots().unwrap();
    let r = o.as_slice();
    (([r[0], r[1]], r.len()), ([s, s], 2))
}
pub fn roots_quartic_two(k: f64, s: f64, a: f64, b: f64) -> (([f64; 2], usize), ([f64; 2], usize)) {
    let (a, b) = (a * a + 0.5, b * b + 0.5);
    assume(k * k > 0.01 && a > 0.25 && 2.0 * a > 0.5 && 2.0 * b > 0.5);
    let o = h_quartic(k, s, [-a * a * b * b, 0.0, b * b - a * a]).real_roots().unwrap();
    let r = o.as_slice();
    (([r[0], r[1]], r.len()), ([s - a, s + a], 2))
}
pub fn roots_quartic_none(k: f64, s: f64, a: f64, b: f64) -> bool {
    let (a, b) = (a * a + 0.5, b * b + 0.5);
    assume(k * k > 0.01 && a > 0.25 && 2.0 * a > 0.5 && 2.0 * b > 0.5);
    h_quartic(k, s, [a * a * b * b, 0.0, b * b + a * a]).real_roots().unwrap().as_slice().is_empty()
}
/// y^4 - 5 y^2 ... the ladder -3, -1, 1, 3 slid, with one rung moved so that odd powers stay
pub fn roots_quartic_general(k: f64, s: f64) -> ([f64; 5], [f64; 5]) {
    assume(k * k > 0.01);
    let a = 1.0;
    // rungs 0, 1, 2, 4 of size a from s
    let q = Polynomial::<5>::from_roots(&[s, s + a, s + 2.0 * a, s + 4.0 * a]).unwrap() * k;
    let o = q.real_roots().unwrap();
    let r = o.as_slice();
    ([r[0], r[1], r[2], r[3], r.len() as f64], [s, s + a, s + 2.0 * a, s + 4.0 * a, 4.0])
}
/// (y^2 - 2y + 2)(y^2 + 2y - 3) about s: two real roots, the other pair is complex
pub fn roots_quartic_half(k: f64, s: f64) -> ([f64; 3], [f64; 3]) {
    assume(k * k > 0.01);
    let o = h_quartic(k, s, [-6.0, 10.0, -5.0]).real_roots().unwrap();
    let r = o.as_slice();
    ([r[0], r[1], r.len() as f64], [s - 3.0, s + 1.0, 2.0])
}
pub fn roots_cubic_double(k: f64, s: f64) -> ([f64; 4], [f64; 4]) {
    assume(k * k > 0.01);
    let o = Polynomial::<4>::from_roots(&[s, s, s + 3.0]).unwrap() * k;
    let o = o.real_roots().unwrap();
    let r = o.as_slice();
    ([r[0], r[1], r[2], r.len() as f64], [s, s, s + 3.0, 3.0])
}

// ---- whole runs against the textbook ----
struct HPoly<const N: usize>([f64; N], f64);
impl<const N: usize> ScalarFn for HPoly<N> {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let mut s = S::ZERO;
        for k in (0..N).rev() {
            s = s * x + S::from_f64(self.0[k]);
        }
        s * S::from_f64(self.1)
    }
}
fn h_f<const N: usize>(c: [f64; N], x: f64) -> f64 {
    let mut s = 0.0;
    for k in (0..N).rev() {
        s = s * x + c[k];
    }
    s
}
fn h_between(x: f64, a: f64, b: f64) -> bool {
    if a < b { x >= a && x <= b } else { x >= b && x <= a }
}
fn h_abs(x: f64) -> f64 {
    if x < 0.0 { -x } else { x }
}
/// Brent's method as published, run until the residual is within `tol`: the best point and the count
fn h_brent<const N: usize>(c: [f64; N], a: f64, b: f64, tol: f64) -> (f64, usize) {
    let (mut a, mut b) = (a, b);
    if h_abs(h_f(c, a)) < h_abs(h_f(c, b)) {
        (a, b) = (b, a);
    }
    let (mut fa, mut fb) = (h_f(c, a), h_f(c, b));
    let (mut p, mut fp) = (a, fa);
    let mut d = 0.0;
    let mut halved = true;
    for n in 0..8 {
        if h_abs(fb) <= tol {
            return (b, n);
        }
        let mut s = if fa != fp && fb != fp {
            a * fb * fp / ((fa - fb) * (fa - fp)) + b * fa * fp / ((fb - fa) * (fb - fp)) + p * fa * fb / ((fp - fa) * (fp - fb))
        } else {
            b - fb * (b - a) / (fb - fa)
        };
        let reach = if halved { h_abs(b - p) } else { h_abs(p - d) };
        halved = !h_between(s, 0.75 * a + 0.25 * b, b) || 2.0 * h_abs(s - b) >= reach;
        if halved {
            s = 0.5 * a + 0.5 * b;
        }
        let fs = h_f(c, s);
        d = p;
        p = b;
        fp = fb;
        if (fa < 0.0) == (fs < 0.0) {
            a = s;
            fa = fs;
        } else {
            b = s;
            fb = fs;
        }
        if h_abs(fa) < h_abs(fb) {
            (a, b) = (b, a);
            (fa, fb) = (fb, fa);
        }
    }
    (b, 99)
}
fn h_brents<const N: usize>(c: [f64; N], a: f64, b: f64, k: f64, tol: [f64; 3]) -> ([(f64, f64, bool); 3], [(f64, f64, bool); 3]) {
    assume(k > 0.1);
    assume(k < 1e6);
    (
        tol.map(|t| match Brent::new().with_xtol(0.0).with_ftol(t * k).solve(&HPoly(c, k), a, b) {
            Ok(o) => (o.root, o.residual, o.iterations == h_brent(c, a, b, t).1 && o.termination == RootTermination::ResidualTolerance),
            Err(_) => (0.0, 0.0, false),
        }),
        tol.map(|t| {
            let r = h_brent(c, a, b, t).0;
            (r, k * h_f(c, r), true)
        }),
    )
}
pub fn brent_cubic(k: f64) -> ([(f64, f64, bool); 3], [(f64, f64, bool); 3]) {
    h_brents([-5.0, -2.0, 0.0, 1.0], 2.0, 3.0, k, [0.5, 0.0625, 0.001])
}
pub fn brent_cubic_swapped(k: f64) -> ([(f64, f64, bool); 3], [(f64, f64, bool); 3]) {
    h_brents([-5.0, -2.0, 0.0, 1.0], 3.0, 2.0, k, [0.5, 0.0625, 0.001])
}
pub fn brent_falling(k: f64) -> ([(f64, f64, bool); 3], [(f64, f64, bool); 3]) {
    // (x + 3)(x - 1)^2, the usual example, on [-4, 4/3]
    h_brents([3.0, -5.0, 1.0, 1.0], -4.0, 1.25, k, [3.0, 0.5, 0.125])
}
/// the bracket alone stops it, with the better end reported
pub fn brent_width(k: f64) -> ((f64, bool), (f64, bool)) {
    assume(k > 0.1);
    assume(k < 1e6);
    let o = Brent::new().with_xtol(1.0).with_ftol(-1.0).solve(&HPoly([-5.0, -2.0, 0.0, 1.0], k), 2.0, 3.0).unwrap();
    ((o.root, o.iterations == 0 && o.termination == RootTermination::BracketWidth), (2.0, true))
}
pub fn brent_exact_start(k: f64) -> ((f64, bool), (f64, bool)) {
    assume(k > 0.1);
    assume(k < 1e6);
    let o = Brent::new().with_ftol(2.0 * k).solve(&HPoly([-5.0, -2.0, 0.0, 1.0], k), 3.0, 2.0).unwrap();
    ((o.root, o.iterations == 0 && o.termination == RootTermination::ResidualTolerance), (2.0, true))
}
/// a residual small enough ends the halving at the middle it was found at
pub fn bisection_residual(k: f64, up: bool) -> ([f64; 3], [f64; 3]) {
    assume(k > 0.1);
    assume(k < 1e6);
    let s = if up { k } else { -k };
    // x^2 - 2 on [0, 4]: middles 2, 1, 1.5, 1.25, 1.375, 1.4375
    let go = |t: f64, a: f64, b: f64| match Bisection::new().with_xtol(0.0).with_ftol(t * k).solve(&HPoly([-2.0, 0.0, 1.0], s), a, b) {
        Ok(o) => o.root + 100.0 * o.iterations as f64 + if o.termination == RootTermination::ResidualTolerance && o.residual == s * (o.root * o.root - 2.0) { 0.0 } else { 1e6 },
        Err(_) => -1.0,
    };
    ([go(0.75, 0.0, 4.0), go(0.25, 4.0, 0.0), go(0.125, 0.0, 4.0)], [301.5, 301.5, 501.375])
}
pub fn bisection_width(k: f64) -> ([f64; 2], [f64; 2]) {
    assume(k > 0.1);
    assume(k < 1e6);
    let go = |t: f64| match Bisection::new().with_xtol(t).with_ftol(-1.0).solve(&HPoly([-2.0, 0.0, 1.0], k), 0.0, 4.0) {
        Ok(o) => o.root + 100.0 * o.iterations as f64 + if o.termination == RootTermination::BracketWidth { 0.0 } else { 1e6 },
        Err(_) => -1.0,
    };
    // width 1 against 0.4 (1 + 1.5), then width 1/2 against 0.2 (1 + 1.25) and 1/4 against 0.2 (1 + 1.375)
    ([go(0.4), go(0.2)], [301.5, 501.375])
}
/// within tolerance on entry, the guess is handed back; and after a step it is checked at the next one
pub fn newton_system_residual(k: f64) -> (([f64; 2], f64, bool), ([f64; 2], f64, bool)) {
    assume(k > 0.1);
    assume(k < 1e6);
    assume(5.0 * k * (5.0 * k) > 0.0);
    let f = HSystem([k, 0.0, -3.0 * k, 0.0, k, -4.0 * k]);
    let o = NewtonSystem::new().with_ftol(6.0 * k).solve(&f, &[0.0, 0.0]).unwrap();
    let q = NewtonSystem::new().with_ftol(4.0 * k).with_xtol(0.0).solve(&f, &[0.0, 0.0]).unwrap();
    ((o.root, q.root[0] + 10.0 * q.root[1], o.termination == RootTermination::ResidualTolerance), ([0.0, 0.0], 43.0, true))
}
struct HThree([[f64; 4]; 3]);
impl VectorFn<3, 3> for HThree {
    fn eval<S: Numeric>(&self, v: &[S; 3]) -> [S; 3] {
        let k = |i: usize, j: usize| S::from_f64(self.0[i][j]);
        [0, 1, 2].map(|i| v[0] * k(i, 0) + v[1] * k(i, 1) + v[2] * k(i, 2) + k(i, 3))
    }
}
pub fn newton_system_three(k: f64, r: [f64; 3], x: [f64; 3]) -> (([f64; 3], bool), ([f64; 3], bool)) {
    assume(k > 0.1);
    assume(k < 1e6);
    let a = [[4.0, 1.0, -1.0], [2.0, 5.0, 0.0], [1.0, -1.0, 3.0]];
    let s = a.map(|a| [a[0] * k, a[1] * k, a[2] * k, -k * (a[0] * r[0] + a[1] * r[1] + a[2] * r[2])]);
    match NewtonSystem::new().with_ftol(-1.0).with_xtol(-1.0).with_max_iterations(1).solve(&HThree(s), &x) {
        Err(_) => {}
        Ok(_) => return (([9.0; 3], false), ([0.0; 3], true)),
    }
    match NewtonSystem::new().with_ftol(-1.0).solve(&HThree(s), &x) {
        Err(_) => (([9.0; 3], false), ([0.0; 3], true)),
        Ok(o) => ((o.root, true), (r, true)),
    }
}

// ---- roots of any degree ----
/// three roots closed in on one by one, in order, each to half the tolerance
pub fn roots_in_three(k: f64) -> (([f64; 3], usize), ([f64; 3], usize)) {
    assume(k > 0.1);
    assume(k < 1e6);
    // (x + 3)(x - 1)(x - 2) on [-8, 8]
    let q = p([6.0 * k, -7.0 * k, 0.0, k]);
    let o = q.real_roots_in(-8.0, 8.0, 0.5, 40).unwrap();
    let s = o.as_slice();
    // every range is a dyadic one of width 1/2 that holds its root at the upper end
    (([s[0], s[1], s[2]], o.len()), ([-3.25, 0.75, 1.75], 3))
}
pub fn roots_count_degrees(k: f64) -> bool {
    assume(k > 0.1);
    assume(k < 1e6);
    let s = |c: [f64; 7]| p(c.map(|c| c * k));
    // x^6 - 14x^4 + 49x^2 - 36 has the roots -3, -2, -1, 1, 2 and 3
    let q = s([-36.0, 0.0, 49.0, 0.0, -14.0, 0.0, 1.0]);
    q.count_real_roots(-4.0, 4.0) == Ok(6)
        && q.count_real_roots(-2.5, 2.5) == Ok(4)
        && q.count_real_roots(0.0, 2.0) == Ok(2)
        && q.count_real_roots(2.0, 3.0) == Ok(1)
        && q.count_real_roots(3.0, 9.0) == Ok(0)
        && q.count_real_roots(4.0, -4.0) == Ok(0)
        && s([1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0]).count_real_roots(-9.0, 9.0) == Ok(0)
        && s([0.0, 0.0, 0.0, 0.0, 0.0, -1.0, 1.0]).count_real_roots(-9.0, 9.0) == Ok(2)
        && s([4.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]).count_real_roots(-9.0, 9.0) == Ok(0)
}
/// eight coefficients at once
pub fn poly_wide(a: [f64; 8], b: [f64; 8], x: f64) -> ([f64; 5], [f64; 5]) {
    let (q, w) = (p(a), p(b));
    (
        [q.evaluate(x), (q + w).evaluate(x), (q - w).evaluate(x), q.derivative().evaluate(x), q.definite_integral(0.0, x)],
        [h_ev(a, x), h_ev(a, x) + h_ev(b, x), h_ev(a, x) - h_ev(b, x), h_ev(h_d(a), x), {
            let mut s = 0.0;
            let mut t = x;
            for k in 0..8 {
                s += a[k] * t / (k as f64 + 1.0);
                t *= x;
            }
            s
        }],
    )
}
