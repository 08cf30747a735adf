//! Initial value problems: step formulas, the error test, step control, dense output and attitude integration.
use crate::h_assume as assume;
use multicalc::error::IntegrateError;
use multicalc::linear_algebra::*;
use multicalc::ode::*;
use multicalc::spatial::*;
use multicalc::{Dual, Jet, Numeric};

type V1 = Vector<1>;
type V2 = Vector<2>;

#[inline(never)]
pub fn opaque_rate(k: f64, t: f64, x: f64, y: f64) -> f64 {
    k + t + x + y
}
fn h_any(t: f64, s: &V2) -> V2 {
    Vector::new([opaque_rate(0.0, t, s[0], s[1]), opaque_rate(1.0, t, s[0], s[1])])
}
/// a polynomial field in time and two states, of degree five along each
fn h_field<T: Numeric>(c: &[f64; 12], t: T, x: T, y: T) -> [T; 2] {
    let k = |i: usize| T::from_f64(c[i]);
    [
        k(0) + k(1) * t + k(2) * x * y + k(3) * y * y * y + k(4) * t * t * t * t + k(5) * x * x * t,
        k(6) + k(7) * x + k(8) * x * x + k(9) * t * t * y + k(10) * x * y * y + k(11) * y * y * y * y,
    ]
}
/// Taylor coefficients of the solution of Y' = F(s, Y) at s = 0
fn h_series<const K: usize>(c: &[f64; 12], y0: [f64; 2]) -> [[f64; K]; 2] {
    let mut s = [0.0; K];
    s[1] = 1.0;
    let mut y = [[0.0; K]; 2];
    y[0][0] = y0[0];
    y[1][0] = y0[1];
    for k in 0..K - 1 {
        let f = h_field(c, Jet::<f64, K>::new(s), Jet::new(y[0]), Jet::new(y[1]));
        y[0][k + 1] = f[0].coeffs[k] / (k + 1) as f64;
        y[1][k + 1] = f[1].coeffs[k] / (k + 1) as f64;
    }
    y
}
fn h_jet<const K: usize>(v: f64) -> Jet<f64, K> {
    let mut a = [0.0; K];
    a[0] = v;
    a[1] = 1.0;
    Jet::new(a)
}
/// one classical step agrees with the solution through the fourth power of the timestep
pub fn rk4_order_four(c: [f64; 12], y: [f64; 2]) -> ([[f64; 5]; 2], [[f64; 5]; 2]) {
    type J = Jet<f64, 5>;
    let f = |t: J, s: &Vector<2, J>| Vector::new(h_field(&c, t, s[0], s[1]));
    let o = Rk4::step(&f, J::from_f64(0.0), &Vector::new([J::from_f64(y[0]), J::from_f64(y[1])]), h_jet::<5>(0.0));
    ([o[0].coeffs, o[1].coeffs], h_series::<5>(&c, y))
}
/// started later, the same
pub fn rk4_order_four_late(c: [f64; 12], y: [f64; 2], t0: f64) -> ([[f64; 5]; 2], [[f64; 5]; 2]) {
    type J = Jet<f64, 5>;
    let f = |t: J, s: &Vector<2, J>| Vector::new(h_field(&c, t - J::from_f64(t0), s[0], s[1]));
    let o = Rk4::step(&f, J::from_f64(t0), &Vector::new([J::from_f64(y[0]), J::from_f64(y[1])]), h_jet::<5>(0.0));
    ([o[0].coeffs, o[1].coeffs], h_series::<5>(&c, y))
}
/// integrating is stepping, each step from where the last one ended, and the observer sees every point
pub fn rk4_integrate(t: f64, y: [f64; 2], h: f64) -> (([[f64; 3]; 4], usize, [f64; 2]), ([[f64; 3]; 4], usize, [f64; 2])) {
    let mut seen = [[0.0; 3]; 4];
    let mut n = 0;
    let end = Rk4::integrate(&h_any, t, &Vector::new(y), h, 3, |t, s| {
        seen[n] = [t, s[0], s[1]];
        n += 1;
    });
    let mut want = [[0.0; 3]; 4];
    let (mut at, mut s) = (t, Vector::new(y));
    want[0] = [at, s[0], s[1]];
    for i in 1..4 {
        s = Rk4::step(&h_any, at, &s, h);
        at += h;
        want[i] = [at, s[0], s[1]];
    }
    ((seen, n, *end.as_array()), (want, 4, *s.as_array()))
}
pub fn rk4_no_steps(t: f64, y: [f64; 2], h: f64) -> (([f64; 2], usize), ([f64; 2], usize)) {
    let mut n = 0;
    let end = Rk4::integrate(&h_any, t, &Vector::new(y), h, 0, |_, _| n += 1);
    ((*end.as_array(), n), (y, 1))
}
/// the adaptive step agrees through the fifth power
pub fn rk45_order_five(c: [f64; 12], y: [f64; 2]) -> ([[f64; 6]; 2], [[f64; 6]; 2]) {
    type J = Jet<f64, 6>;
    let d = h_jet::<6>(0.0);
    // y' = d F(d t, y) over [0, 1] is Y' = F(s, Y) over [0, d]
    let f = |t: J, s: &Vector<2, J>| {
        let r = h_field(&c, d * t, s[0], s[1]);
        Vector::new([d * r[0], d * r[1]])
    };
    let one = J::from_f64(1.0);
    let o = Rk45::<J>::default().with_first_step(one).with_max_steps(1).solve(&f, J::from_f64(0.0), &Vector::new([J::from_f64(y[0]), J::from_f64(y[1])]), one).unwrap();
    ([o[0].coeffs, o[1].coeffs], h_series::<6>(&c, y))
}
/// the slope handed to the next step is the field at the new point
fn h_one() -> Rk45 {
    Rk45::default().with_first_step(1.0).with_max_steps(1)
}
pub fn rk45_step_record(t: f64, y: [f64; 2]) -> (([f64; 2], [[f64; 2]; 4]), ([f64; 2], [[f64; 2]; 4])) {
    let mut seen: Option<Step<2>> = None;
    let end = h_one().for_each_step(&h_any, t, &Vector::new(y), t + 1.0, |s| seen = Some(*s)).unwrap();
    let s = seen.unwrap();
    let (d0, d1) = (h_any(t, &Vector::new(y)), h_any(t + 1.0, &end));
    (
        ([s.time_start, s.time_end], [*s.state_start.as_array(), *s.state_end.as_array(), *s.derivative_start.as_array(), *s.derivative_end.as_array()]),
        ([t, t + 1.0], [y, *end.as_array(), *d0.as_array(), *d1.as_array()]),
    )
}
/// quadrature of c t^k: exact below degree five
fn h_power(k: usize, c: f64, y: f64) -> Option<f64> {
    let f = |t: f64, _: &V1| {
        let mut p = c;
        for _ in 0..k {
            p *= t;
        }
        Vector::new([p])
    };
    h_one().with_atol(1e-3).with_rtol(1e-2).solve(&f, 0.0, &Vector::new([y]), 1.0).ok().map(|s| s[0])
}
pub fn rk45_quadrature(c: f64, y: f64) -> ([f64; 5], [f64; 5]) {
    let g = |k: usize| h_power(k, c, y);
    assume(g(4).is_some());
    ([g(0).unwrap(), g(1).unwrap(), g(2).unwrap(), g(3).unwrap(), g(4).unwrap()], [y + c, y + c / 2.0, y + c / 3.0, y + c / 4.0, y + c / 5.0])
}
/// the error estimate is the difference to the embedded fourth-order formula, weighed by atol + rtol max(|before|, |after|)
pub fn rk45_error_test(c: f64, y: f64) -> (bool, bool) {
    // b - b^ of Dormand and Prince on c t^4
    let e = [-71.0 / 16695.0, 71.0 / 1920.0, -17253.0 / 339200.0, 22.0 / 525.0, -1.0 / 40.0];
    let x = [0.3, 0.8, 8.0 / 9.0, 1.0, 1.0];
    let mut s = 0.0;
    for i in 0..5 {
        s += e[i] * x[i] * x[i] * x[i] * x[i];
    }
    let err = s * c;
    let w = 1e-3 + 1e-2 * y.abs().max((y + c / 5.0).abs());
    (h_power(4, c, y).is_some(), (err / w).abs() <= 1.0)
}
/// in two dimensions the test is on the root mean square
pub fn rk45_error_rms(c: [f64; 2], y: [f64; 2]) -> (bool, bool) {
    let e = [-71.0 / 16695.0, 71.0 / 1920.0, -17253.0 / 339200.0, 22.0 / 525.0, -1.0 / 40.0];
    let x = [0.3, 0.8, 8.0 / 9.0, 1.0, 1.0];
    let mut s = 0.0;
    for i in 0..5 {
        s += e[i] * x[i] * x[i] * x[i] * x[i];
    }
    let f = |t: f64, _: &V2| Vector::new([c[0] * t * t * t * t, c[1] * t * t * t * t]);
    let ok = h_one().with_atol(1e-3).with_rtol(0.0).solve(&f, 0.0, &Vector::new(y), 1.0).is_ok();
    let (a, b) = (s * c[0] / 1e-3, s * c[1] / 1e-3);
    (ok, (a * a + b * b) / 2.0 <= 1.0)
}
/// solving backwards is solving the reversed field forwards
pub fn rk45_backward(t: f64, y: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    let b = h_one().solve(&h_any, t, &Vector::new(y), t - 1.0);
    let g = |s: f64, v: &V2| {
        let r = h_any(-s, v);
        Vector::new([-r[0], -r[1]])
    };
    let f = h_one().solve(&g, -t, &Vector::new(y), 1.0 - t);
    assume(b.is_ok() && f.is_ok());
    (*b.unwrap().as_array(), *f.unwrap().as_array())
}
fn h_two(c: f64, y: f64, first: f64, max: f64) -> ([Step<1>; 2], usize, Result<V1, IntegrateError>) {
    let f = |t: f64, _: &V1| Vector::new([c * t * t * t * t]);
    let z = Vector::new([0.0]);
    let mut s = [Step { time_start: 0.0, time_end: 0.0, state_start: z, state_end: z, derivative_start: z, derivative_end: z }; 2];
    let mut n = 0;
    let r = Rk45::default().with_atol(1e-3).with_rtol(0.0).with_first_step(first).with_max_step(max).with_max_steps(2).for_each_step(&f, 0.0, &Vector::new([y]), 1.0, |x| {
        if n < 2 {
            s[n] = *x;
        }
        n += 1;
    });
    (s, n, r)
}
/// accepted steps join up, and carry the end slope over
pub fn rk45_steps_join(c: f64, y: f64) -> (([f64; 4], bool), ([f64; 4], bool)) {
    let (s, n, r) = h_two(c, y, 0.5, f64::INFINITY);
    assume(n == 2);
    (([s[1].time_start, s[1].state_start[0], s[1].derivative_start[0], s[0].time_start], r.is_ok() == (s[1].time_end == 1.0)), ([s[0].time_end, s[0].state_end[0], s[0].derivative_end[0], 0.0], true))
}
/// a step grows at most tenfold, shrinks at most fivefold unless the end is nearer, and never leaves the span or the maximum
pub fn rk45_step_growth(c: f64, y: f64) -> (bool, bool) {
    let (s, n, _) = h_two(c, y, 0.0625, f64::INFINITY);
    assume(n == 2);
    let h = s[1].time_end - s[1].time_start;
    (h <= 0.625 && h >= 0.0125 && s[1].time_end <= 1.0, true)
}
pub fn rk45_max_step(c: f64, y: f64) -> (bool, bool) {
    let (s, n, _) = h_two(c, y, 0.5, 0.125);
    assume(n == 2);
    (s[0].time_end == 0.125 && s[1].time_end - s[1].time_start <= 0.125, true)
}
/// a refused step is retried from the same point with a step no longer
pub fn rk45_retry(c: f64, y: f64) -> (([f64; 2], bool), ([f64; 2], bool)) {
    let f = |t: f64, _: &V1| Vector::new([c * t * t * t * t]);
    let one = Rk45::default().with_atol(1e-3).with_rtol(0.0).with_first_step(0.5).with_max_steps(1);
    let mut m = 0;
    let _ = one.for_each_step(&f, 0.0, &Vector::new([y]), 1.0, |_| m += 1);
    assume(m == 0);
    let (s, n, _) = h_two(c, y, 0.5, f64::INFINITY);
    assume(n == 1);
    (([s[0].time_start, s[0].state_start[0]], s[0].time_end <= 0.5 && s[0].time_end >= 0.1), ([0.0, y], true))
}
/// out of budget, too small a step, ill-posed spans and values that are not numbers are reported as such
pub fn rk45_budget(c: f64, y: f64) -> (bool, bool) {
    let (s, n, r) = h_two(c, y, 0.25, f64::INFINITY);
    assume(n < 2 || s[1].time_end < 0.9);
    (r == Err(IntegrateError::DidNotConverge { steps: 2 }), true)
}
pub fn rk45_min_step(c: f64, y: f64) -> (bool, bool) {
    let f = |t: f64, _: &V1| Vector::new([c * t * t * t * t]);
    let one = || Rk45::default().with_atol(1e-3).with_rtol(0.0).with_first_step(1.0).with_max_steps(1);
    let r = one().with_min_step(2.0).solve(&f, 0.0, &Vector::new([y]), 1.0);
    let ok = one().solve(&f, 0.0, &Vector::new([y]), 1.0).is_ok();
    (r == Err(IntegrateError::StepSizeTooSmall), !ok)
}
pub fn rk45_refuses(t: f64, y: f64) -> ([bool; 5], [bool; 5]) {
    let f = |_: f64, s: &V1| *s;
    let nan = |_: f64, _: &V1| Vector::new([f64::NAN]);
    let s = Rk45::<f64>::default();
    let v = Vector::new([y]);
    (
        [
            s.solve(&f, t, &v, t) == Err(IntegrateError::LimitsIllDefined),
            s.solve(&f, t, &v, f64::INFINITY) == Err(IntegrateError::LimitsIllDefined),
            s.solve(&f, f64::NAN, &v, t) == Err(IntegrateError::LimitsIllDefined),
            s.solve(&nan, t, &v, t + 1.0) == Err(IntegrateError::NonFinite),
            s.solve(&f, t, &Vector::new([f64::NAN]), t + 1.0) == Err(IntegrateError::NonFinite),
        ],
        [true; 5],
    )
}
pub fn rk45_late_nan(t: f64, y: f64) -> (bool, bool) {
    // finite at the start, not a number at every later stage
    let f = |s: f64, v: &V1| if s == t { *v } else { Vector::new([f64::NAN]) };
    let mut n = 0;
    let r = Rk45::<f64>::default().with_first_step(1.0).for_each_step(&f, t, &Vector::new([y]), t + 2.0, |_| n += 1);
    (r == Err(IntegrateError::NonFinite) && n == 0, true)
}
/// left to itself the first step stays inside the span and the maximum, and points the right way
pub fn rk45_auto_first(c: f64) -> ([bool; 2], [bool; 2]) {
    let f = |_: f64, _: &V1| Vector::new([c]);

    let mut h = 1.0;
    let mut n = 0;
    let _ = Rk45::default().with_max_step(0.25).with_max_steps(1).for_each_step(&f, 0.0, &Vector::new([0.0]), -1.0, |s| {
        h = s.time_end - s.time_start;
        n += 1;
    });
    assume(n == 1);
    ([h < 0.0, h >= -0.25], [true; 2])
}
// ---- dense output ----
fn h_step(t: [f64; 2], y: [f64; 2], d: [f64; 2]) -> Step<1> {
    Step { time_start: t[0], time_end: t[1], state_start: Vector::new([y[0]]), state_end: Vector::new([y[1]]), derivative_start: Vector::new([d[0]]), derivative_end: Vector::new([d[1]]) }
}
/// a cubic is recovered from its end values and slopes
pub fn dense_cubic(c: [f64; 4], t: [f64; 2], x: f64) -> (f64, f64) {
    let p = |x: f64| c[0] + x * (c[1] + x * (c[2] + x * c[3]));
    let q = |x: f64| c[1] + x * (2.0 * c[2] + x * 3.0 * c[3]);
    (h_step(t, [p(t[0]), p(t[1])], [q(t[0]), q(t[1])]).interpolate(x)[0], p(x))
}
pub fn dense_ends(t: [f64; 2], y: [f64; 2], d: [f64; 2]) -> ([f64; 4], [f64; 4]) {
    let s = |v: f64| Dual::new(v, 0.0);
    let g = Step { time_start: s(t[0]), time_end: s(t[1]), state_start: Vector::new([s(y[0])]), state_end: Vector::new([s(y[1])]), derivative_start: Vector::new([s(d[0])]), derivative_end: Vector::new([s(d[1])]) };
    let (a, b) = (g.interpolate(Dual::new(t[0], 1.0))[0], g.interpolate(Dual::new(t[1], 1.0))[0]);
    ([a.value, b.value, a.deriv, b.deriv], [y[0], y[1], d[0], d[1]])
}
/// a grid is filled from the step that covers each time
pub fn grid_one_step(y: [f64; 2], q: f64) -> ([[f64; 2]; 3], [[f64; 2]; 3]) {
    assume(q > 0.0 && q < 1.0);
    let mut out = [Vector::new([7.0, 7.0]); 3];
    h_one().solve_on_grid(&h_any, 0.0, &Vector::new(y), &[0.0, q, 1.0], &mut out).unwrap();
    let mut seen: Option<Step<2>> = None;
    h_one().for_each_step(&h_any, 0.0, &Vector::new(y), 1.0, |s| seen = Some(*s)).unwrap();
    let s = seen.unwrap();
    ([*out[0].as_array(), *out[1].as_array(), *out[2].as_array()], [y, *s.interpolate(q).as_array(), *s.state_end.as_array()])
}
pub fn grid_backward(y: [f64; 2], q: f64) -> ([[f64; 2]; 2], [[f64; 2]; 2]) {
    assume(q < 0.0 && q > -1.0);
    let mut out = [Vector::new([7.0, 7.0]); 2];
    h_one().solve_on_grid(&h_any, 0.0, &Vector::new(y), &[q, -1.0], &mut out).unwrap();
    let mut seen: Option<Step<2>> = None;
    h_one().for_each_step(&h_any, 0.0, &Vector::new(y), -1.0, |s| seen = Some(*s)).unwrap();
    let s = seen.unwrap();
    ([*out[0].as_array(), *out[1].as_array()], [*s.interpolate(q).as_array(), *s.state_end.as_array()])
}
/// each time is read from its own step
pub fn grid_two_steps(c: f64, y: f64, q: f64) -> ([f64; 2], [f64; 2]) {
    assume(q > 0.0 && q < 1.0);
    let f = |t: f64, _: &V1| Vector::new([c * t * t * t * t]);
    let (s, n, r) = h_two(c, y, 0.5, f64::INFINITY);
    assume(n == 2 && r.is_ok());
    let mut out = [Vector::new([7.0]); 2];
    Rk45::default().with_atol(1e-3).with_rtol(0.0).with_first_step(0.5).with_max_steps(2).solve_on_grid(&f, 0.0, &Vector::new([y]), &[q, 1.0], &mut out).unwrap();
    let w = if q <= 0.5 { s[0].interpolate(q) } else { s[1].interpolate(q) };
    ([out[0][0], out[1][0]], [w[0], s[1].state_end[0]])
}
pub fn grid_refuses(y: f64, q: f64) -> ([bool; 4], [bool; 4]) {
    let f = |_: f64, _: &V1| Vector::new([1.0]);
    let s = h_one();
    let v = Vector::new([y]);
    let mut out = [v; 2];
    assume(q < 0.0 || q > 1.0);
    (
        [
            s.solve_on_grid(&f, 0.0, &v, &[1.0], &mut out) == Err(IntegrateError::LimitsIllDefined),
            s.solve_on_grid(&f, 0.0, &v, &[], &mut []) == Ok(()),
            s.solve_on_grid(&f, 0.0, &v, &[q, 1.0], &mut out) == Err(IntegrateError::LimitsIllDefined),
            s.solve_on_grid(&f, 0.0, &v, &[1.0, 1.0], &mut out) == Ok(()),
        ],
        [true; 4],
    )
}

/// a grid may start where the solution does and end there, whichever way time runs
pub fn grid_backward_from_start(y: [f64; 2], q: f64) -> ([[f64; 2]; 3], [[f64; 2]; 3]) {
    assume(q < 0.0 && q > -1.0);
    let mut out = [Vector::new([7.0, 7.0]); 4];
    h_one().solve_on_grid(&h_any, 0.0, &Vector::new(y), &[0.0, 0.0, q, -1.0], &mut out).unwrap();
    let mut seen: Option<Step<2>> = None;
    h_one().for_each_step(&h_any, 0.0, &Vector::new(y), -1.0, |s| seen = Some(*s)).unwrap();
    let s = seen.unwrap();
    assume(*out[1].as_array() == y);
    ([*out[0].as_array(), *out[2].as_array(), *out[3].as_array()], [y, *s.interpolate(q).as_array(), *s.state_end.as_array()])
}
pub fn grid_backward_refuses(y: f64, q: f64) -> ([bool; 3], [bool; 3]) {
    let f = |_: f64, _: &V1| Vector::new([1.0]);
    let s = h_one();
    let v = Vector::new([y]);
    let mut out = [v; 2];
    assume(q > 0.0 || q < -1.0);
    (
        [
            s.solve_on_grid(&f, 0.0, &v, &[q, -1.0], &mut out) == Err(IntegrateError::LimitsIllDefined),
            s.solve_on_grid(&f, 0.0, &v, &[-1.0, -1.0], &mut out) == Ok(()),
            s.solve_on_grid(&f, 0.0, &v, &[0.0, -1.0], &mut out) == Ok(()),
        ],
        [true; 3],
    )
}

// ---- attitude ----
fn h_rotation(a: [f64; 4]) -> SO3 {
    let n = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
    let (w, x, y, z) = (a[0], a[1], a[2], a[3]);
    SO3::from_quaternion(Quaternion::new((w * w - x * x - y * y - z * z) / n, 2.0 * w * x / n, 2.0 * w * y / n, 2.0 * w * z / n))
}
fn h_m(r: SO3) -> [[f64; 3]; 3] {
    r.to_matrix().into_array()
}
pub fn attitude_step(a: [f64; 4], w: [f64; 3], h: f64) -> ([[f64; 3]; 3], [[f64; 3]; 3]) {
    let q = h_rotation(a);
    (h_m(ExponentialMap::attitude_step(q, Vector::new(w), h)), h_m(q * SO3::exp(Vector::new([w[0] * h, w[1] * h, w[2] * h]))))
}
pub fn attitude_step_accelerated(a: [f64; 4], w: [f64; 3], g: [f64; 3], h: f64) -> ([[f64; 3]; 3], [[f64; 3]; 3]) {
    let q = h_rotation(a);
    let m = [w[0] + g[0] * h / 2.0, w[1] + g[1] * h / 2.0, w[2] + g[2] * h / 2.0];
    (h_m(ExponentialMap::attitude_step_with_angular_acceleration(q, Vector::new(w), Vector::new(g), h)), h_m(q * SO3::exp(Vector::new([m[0] * h, m[1] * h, m[2] * h]))))
}
/// the midpoint rule: half a step at the first rate, then the whole step at the rate found there
pub fn attitude_midpoint(a: [f64; 4], t: f64, h: f64) -> (([[[f64; 3]; 3]; 3], [f64; 3], usize), ([[[f64; 3]; 3]; 3], [f64; 3], usize)) {
    assume(h > 0.0);
    let rate = |t: f64, q: SO3| {
        let m = h_m(q);
        Vector::new([opaque_rate(2.0, t, m[0][0], m[0][1]), opaque_rate(3.0, t, m[1][0], m[1][2]), opaque_rate(4.0, t, m[2][0], m[2][1])])
    };
    let q = h_rotation(a);
    let mut at = [0.0; 3];
    let mut seen = [q; 3];
    let mut n = 0;
    let end = ExponentialMap::integrate_attitude(&rate, t, q, h, 2, |t, q| {
        at[n] = t;
        seen[n] = q;
        n += 1;
    })
    .unwrap();
    let mut w = [q; 3];
    for i in 0..2 {
        let s = t + i as f64 * h;
        let mid = ExponentialMap::attitude_step(w[i], rate(s, w[i]), h / 2.0);
        w[i + 1] = ExponentialMap::attitude_step(w[i], rate(s + h / 2.0, mid), h);
    }
    (([h_m(seen[0]), h_m(seen[1]), h_m(end)], at, n), ([h_m(q), h_m(w[1]), h_m(w[2])], [t, t + h, t + 2.0 * h], 3))
}
/// at a constant rate the steps add up to one turn
pub fn attitude_constant(a: [f64; 4], w: f64, h: f64) -> ([[f64; 3]; 3], [[f64; 3]; 3]) {
    assume(h > 0.0 && h * w * (h * w) > 0.01);
    let q = h_rotation(a);
    let end = ExponentialMap::integrate_attitude(&|_, _| Vector::new([0.0, 0.0, w]), 0.0, q, h, 3, |_, _| {}).unwrap();
    let (s, c) = ((3.0 * h * w).sin(), (3.0 * h * w).cos());
    let (m, e) = (h_m(q), [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]);
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                o[i][j] += m[i][k] * e[k][j];
            }
        }
    }
    (h_m(end), o)
}
pub fn attitude_refuses(h: f64) -> ([bool; 3], [bool; 3]) {
    let q = SO3::identity();
    let still = |_: f64, _: SO3| Vector::new([0.0; 3]);
    let nan = |_: f64, _: SO3| Vector::new([f64::NAN, 0.0, 0.0]);
    assume(h <= 0.0);
    (
        [
            ExponentialMap::integrate_attitude(&still, 0.0, q, h, 1, |_, _| {}).err() == Some(IntegrateError::NonPositiveTimestep),
            ExponentialMap::integrate_attitude(&still, 0.0, q, f64::NAN, 1, |_, _| {}).err() == Some(IntegrateError::NonFinite),
            ExponentialMap::integrate_attitude(&nan, 0.0, q, 1.0, 1, |_, _| {}).err() == Some(IntegrateError::NonFinite),
        ],
        [true; 3],
    )
}
