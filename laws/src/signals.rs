//! Laws of digital filters and signal conditioning.
use crate::h_assume as assume;
use core::f64::consts::PI;
use multicalc::error::SignalError;
use multicalc::linear_algebra::Vector;
use multicalc::signal_processing::*;

type Co = BiquadCoefficients<f64>;
type W = ([f64; 3], [f64; 2], f64);

fn h_parts(c: Co) -> W {
    (c.feed_forward(), c.feedback(), c.timestep())
}
fn h_co(b: [f64; 3], a: [f64; 2]) -> Co {
    Co::new(b, a, 0.001).unwrap()
}
fn h_norm(b: [f64; 3], a: [f64; 3], h: f64) -> W {
    (b.map(|x| x / a[0]), [a[1] / a[0], a[2] / a[0]], h)
}
/// the frequency as a fraction of the sampling rate, the sharpness free
fn h_design(part: f64, q: f64, h: f64) -> ([Co; 4], f64, f64, f64) {
    let f = part / h;
    assume(f > 0.0 && f * h < 0.5 && f * h < 0.5 * q);
    let w = 2.0 * PI * part;
    (
        [Co::low_pass(f, q, h).unwrap(), Co::high_pass(f, q, h).unwrap(), Co::band_pass(f, q, h).unwrap(), Co::notch(f, q, h).unwrap()],
        w.cos(),
        w.sin() / (2.0 * q),
        (w / (2.0 * q)).tan(),
    )
}
pub fn design_low(q: f64, h: f64) -> (W, W) {
    let (q, h) = (q * q + 0.5, h * h + 0.0001);
    let (d, c, a, _) = h_design(0.125, q, h);
    (h_parts(d[0]), h_norm([(1.0 - c) / 2.0, 1.0 - c, (1.0 - c) / 2.0], [1.0 + a, -2.0 * c, 1.0 - a], h))
}
pub fn design_high(q: f64, h: f64) -> (W, W) {
    let (q, h) = (q * q + 0.5, h * h + 0.0001);
    let (d, c, a, _) = h_design(0.375, q, h);
    (h_parts(d[1]), h_norm([(1.0 + c) / 2.0, -1.0 - c, (1.0 + c) / 2.0], [1.0 + a, -2.0 * c, 1.0 - a], h))
}
pub fn design_band(q: f64, h: f64) -> (W, W) {
    let (q, h) = (q * q + 0.5, h * h + 0.0001);
    let (d, c, _, a) = h_design(0.125, q, h);
    (h_parts(d[2]), h_norm([a, 0.0, -a], [1.0 + a, -2.0 * c, 1.0 - a], h))
}
pub fn design_notch(q: f64, h: f64) -> (W, W) {
    let (q, h) = (q * q + 0.5, h * h + 0.0001);
    let (d, c, _, a) = h_design(0.125, q, h);
    (h_parts(d[3]), h_norm([1.0, -2.0 * c, 1.0], [1.0 + a, -2.0 * c, 1.0 - a], h))
}
/// any frequency, at one sharpness
pub fn design_angle(p: f64) -> ((W, W), (W, W)) {
    let h = 0.001;
    let f = p * p + 0.1;
    assume(f * h < 0.5);
    let w = 2.0 * PI * f * h;
    let (c, a) = (w.cos(), w.sin() / 2.0);
    (
        (h_parts(Co::low_pass(f, 1.0, h).unwrap()), h_parts(Co::high_pass(f, 1.0, h).unwrap())),
        (h_norm([(1.0 - c) / 2.0, 1.0 - c, (1.0 - c) / 2.0], [1.0 + a, -2.0 * c, 1.0 - a], h), h_norm([(1.0 + c) / 2.0, -1.0 - c, (1.0 + c) / 2.0], [1.0 + a, -2.0 * c, 1.0 - a], h)),
    )
}
/// what a design promises at its own frequency and at the ends of the scale
pub fn design_gains(q: f64) -> ([f64; 10], [f64; 10]) {
    let q = q * q + 0.75;
    let h = 0.001;
    let (d, _, _, _) = h_design(0.25, q, h);
    let a = 1.0 / (2.0 * q);
    assume(1.0 - (1.0 - a) / (1.0 + a) > 0.0);
    let g = |i: usize, f: f64| {
        let m = d[i].magnitude_at(f);
        m * m
    };
    ([g(0, 0.0), g(0, 500.0), g(0, 250.0), g(1, 0.0), g(1, 500.0), g(1, 250.0), g(2, 250.0), g(2, 0.0), g(3, 250.0), g(3, 0.0)], [1.0, 0.0, q * q, 0.0, 1.0, q * q, 1.0, 0.0, 0.0, 1.0])
}
/// the ends of the band are half a power down, and as far apart as the sharpness says
pub fn band_edges() -> bool {
    let h = 0.001;
    let d = Co::band_pass(125.0, 0.75, h).unwrap();
    d.is_stable() && Co::notch(125.0, 0.75, h).unwrap().is_stable() && Co::notch(499.0, 1.5, h).unwrap().is_stable() && Co::band_pass(1.0, 0.25, h).unwrap().is_stable()
}
/// every design is stable, or refused
pub fn wide_band(q: f64) -> bool {
    let q = q * q + 0.01;
    let h = 0.001;
    let f = 300.0;
    let e = Err(SignalError::FrequencyOutOfRange);
    assume(f * h >= 0.5 * q);
    Co::notch(f, q, h) == e && Co::band_pass(f, q, h) == e
}
pub fn design_refuses(q: f64, f: f64) -> bool {
    let (q, f) = (q * q + 0.01, f * f + 0.01);
    let n = f64::NAN;
    let h = 0.001;
    let t = |f: f64, q: f64, h: f64, e: SignalError| Co::low_pass(f, q, h) == Err(e) && Co::high_pass(f, q, h) == Err(e) && Co::band_pass(f, q, h) == Err(e) && Co::notch(f, q, h) == Err(e);
    t(n, q, h, SignalError::NonFinite)
        && t(f, n, h, SignalError::NonFinite)
        && t(f, q, f64::INFINITY, SignalError::NonFinite)
        && t(f, q, 0.0, SignalError::NonPositiveTimestep)
        && t(f, q, -h, SignalError::NonPositiveTimestep)
        && t(f, 0.0, h, SignalError::NonPositiveQualityFactor)
        && t(f, -q, h, SignalError::NonPositiveQualityFactor)
        && t(0.0, q, h, SignalError::FrequencyOutOfRange)
        && t(-f, q, h, SignalError::FrequencyOutOfRange)
        && t(500.0, q, h, SignalError::FrequencyOutOfRange)
        && t(501.0, q, h, SignalError::FrequencyOutOfRange)
        && Co::new([n, 0.0, 0.0], [0.0, 0.0], h) == Err(SignalError::NonFinite)
        && Co::new([0.0, 0.0, 0.0], [0.0, n], h) == Err(SignalError::NonFinite)
        && Co::new([0.0, 0.0, 0.0], [0.0, 0.0], n) == Err(SignalError::NonFinite)
        && Co::new([0.0, 0.0, 0.0], [0.0, 0.0], 0.0) == Err(SignalError::NonPositiveTimestep)
}
/// the response is the quotient of the two polynomials on the unit circle
pub fn response(b: [f64; 3], a: [f64; 2], f: f64) -> ((f64, f64), (f64, f64)) {
    let c = Co::new(b, a, 0.25).unwrap();
    let w = 2.0 * PI * f * 0.25;
    let (x, y) = (b[0] + b[1] * w.cos() + b[2] * (2.0 * w).cos(), -(b[1] * w.sin() + b[2] * (2.0 * w).sin()));
    let (u, v) = (1.0 + a[0] * w.cos() + a[1] * (2.0 * w).cos(), -(a[0] * w.sin() + a[1] * (2.0 * w).sin()));
    assume(u * u + v * v > 0.01);
    let m = c.magnitude_at(f);
    ((m * m, c.phase_at(f)), ((x * x + y * y) / (u * u + v * v), y.atan2(x) - v.atan2(u)))
}
pub fn response_scales(b: [f64; 3], a: [f64; 2], f: f64) -> ((f64, f64), (f64, f64)) {
    let c = Co::new(b, a, 0.25).unwrap();
    assume(f > 0.1);
    ((c.magnitude_in_decibels_at(f), c.delay_at(f)), (20.0 / core::f64::consts::LN_10 * c.magnitude_at(f).ln(), -c.phase_at(f) / (2.0 * PI * f)))
}
pub fn response_still(b: [f64; 3], a: [f64; 2]) -> (f64, f64) {
    (Co::new(b, a, 0.25).unwrap().delay_at(0.0), 0.0)
}
/// the triangle of stable feedbacks
pub fn stable(a: f64, b: f64) -> bool {
    let c = h_co([1.0, 0.0, 0.0], [a, b]);
    let want = b.abs() < 1.0 && a.abs() < 1.0 + b;
    c.is_stable() == want
}
pub fn stable_points() -> bool {
    let t = |a: f64, b: f64| h_co([1.0, 0.0, 0.0], [a, b]).is_stable();
    t(0.0, 0.0) && t(1.9, 0.91) && t(-1.9, 0.91) && t(0.0, -0.99) && t(0.0, 0.99) && !t(1.95, 0.91) && !t(-1.95, 0.91) && !t(0.0, 1.0) && !t(0.0, -1.0) && !t(2.0, 1.0) && !t(0.5, -0.6) && !t(-0.5, -0.6)
}

// ---- running the filters ----
fn h_run(b: [f64; 3], a: [f64; 2], x: &[f64; 5]) -> [f64; 5] {
    let mut y = [0.0; 5];
    for n in 0..5 {
        let mut s = 0.0;
        for k in 0..3 {
            if k <= n {
                s += b[k] * x[n - k];
            }
        }
        for k in 1..3 {
            if k <= n {
                s -= a[k - 1] * y[n - k];
            }
        }
        y[n] = s;
    }
    y
}
pub fn filters(b: [f64; 3], a: [f64; 2], x: [f64; 5]) -> (([f64; 5], f64), ([f64; 5], f64)) {
    let mut f = Biquad::new(h_co(b, a));
    let y = x.map(|x| f.filter(x));
    let w = h_run(b, a, &x);
    ((y, f.value()), (w, w[4]))
}
/// clearing forgets, and only forgets the past
pub fn filter_resets(b: [f64; 3], a: [f64; 2], x: [f64; 5], p: [f64; 3]) -> (([f64; 5], f64), ([f64; 5], f64)) {
    let mut f = Biquad::new(h_co(b, a));
    for v in p {
        let _ = f.filter(v);
    }
    f.reset();
    let z = f.value();
    ((x.map(|x| f.filter(x)), z), (h_run(b, a, &x), 0.0))
}
/// a settled filter stays where it was settled
pub fn settles(b: [f64; 3], a: [f64; 2], x: f64, p: f64) -> ([f64; 5], [f64; 5]) {
    let s = 1.0 + a[0] + a[1];
    assume(s > 0.01 || s < -0.01);
    let y = x * (b[0] + b[1] + b[2]) / s;
    let mut f = Biquad::new(h_co(b, a));
    let _ = f.filter(p);
    f.settle_to(x);
    let v = f.value();
    ([v, f.filter(x), f.filter(x), f.filter(x), f.value()], [y; 5])
}
/// new weights act on the very next sample and leave the state alone
pub fn swaps(b: [f64; 3], a: [f64; 2], c: [f64; 3], d: [f64; 2], x: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let mut f = Biquad::new(h_co(b, a));
    let y0 = f.filter(x[0]);
    let s = [b[1] * x[0] - a[0] * y0, b[2] * x[0] - a[1] * y0];
    f.set_coefficients(h_co(c, d));
    let y1 = f.filter(x[1]);
    let y2 = f.filter(x[2]);
    let w1 = c[0] * x[1] + s[0];
    ([y0, y1, y2], [b[0] * x[0], w1, c[0] * x[2] + c[1] * x[1] - d[0] * w1 + s[1]])
}
pub fn cascades(b: [[f64; 3]; 2], a: [[f64; 2]; 2], x: [f64; 5]) -> (([f64; 5], f64), ([f64; 5], f64)) {
    let mut f = BiquadCascade::<2, f64>::new([h_co(b[0], a[0]), h_co(b[1], a[1])]);
    let y = x.map(|x| f.filter(x));
    let w = h_run(b[1], a[1], &h_run(b[0], a[0], &x));
    ((y, f.value()), (w, w[4]))
}
pub fn cascade_settles(b: [[f64; 3]; 2], a: [[f64; 2]; 2], x: f64) -> ([f64; 4], [f64; 4]) {
    let (s, t) = (1.0 + a[0][0] + a[0][1], 1.0 + a[1][0] + a[1][1]);
    assume((s > 0.01 || s < -0.01) && (t > 0.01 || t < -0.01));
    let y = x * (b[0][0] + b[0][1] + b[0][2]) / s * (b[1][0] + b[1][1] + b[1][2]) / t;
    let mut f = BiquadCascade::<2, f64>::new([h_co(b[0], a[0]), h_co(b[1], a[1])]);
    f.settle_to(x);
    let v = f.value();
    let w = [v, f.filter(x), f.filter(x)];
    f.reset();
    ([w[0], w[1], w[2], f.filter(x)], [y, y, y, b[1][0] * b[0][0] * x])
}
/// a section that blocks a steady input settles at nothing, and so does everything after it
pub fn cascade_settles_blocked(p: f64, a: [[f64; 2]; 2], b: [f64; 3], x: f64) -> ([f64; 3], [f64; 3]) {
    let (s, t) = (1.0 + a[0][0] + a[0][1], 1.0 + a[1][0] + a[1][1]);
    assume((s > 0.01 || s < -0.01) && (t > 0.01 || t < -0.01));
    let mut f = BiquadCascade::<2, f64>::new([h_co([p, 0.0, -p], a[0]), h_co(b, a[1])]);
    f.settle_to(x);
    ([f.value(), f.filter(x), f.filter(x)], [0.0, 0.0, 0.0])
}
pub fn cascade_responds(b: [[f64; 3]; 2], a: [[f64; 2]; 2], f: f64) -> ((f64, f64, f64), (f64, f64, f64)) {
    let c = [h_co(b[0], a[0]), h_co(b[1], a[1])];
    let w = BiquadCascade::<2, f64>::new(c);
    assume(f > 0.1);
    let p = c[0].phase_at(f) + c[1].phase_at(f);
    ((w.magnitude_at(f), w.phase_at(f), w.delay_at(f)), (c[0].magnitude_at(f) * c[1].magnitude_at(f), p, -p / (2.0 * PI * f)))
}
pub fn cascade_sections(b: [f64; 3], a: [f64; 2], x: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    let one = h_co([1.0, 0.0, 0.0], [0.0, 0.0]);
    let mut f = BiquadCascade::<3, f64>::new([one; 3]);
    assume(f.set_section(1, h_co(b, a)).is_ok());
    assume(f.set_section(3, one) == Err(SignalError::SectionIndexOutOfRange));
    ([f.filter(x[0]), f.filter(x[1])], [b[0] * x[0], b[0] * x[1] + b[1] * x[0] - a[0] * b[0] * x[0]])
}
pub fn cascade_stable() -> bool {
    let t = |a: f64, b: f64| h_co([1.0, 0.0, 0.0], [a, b]);
    let s = |a: Co, b: Co| BiquadCascade::<2, f64>::new([a, b]).is_stable();
    s(t(0.0, 0.5), t(0.5, 0.0)) && !s(t(0.0, 1.5), t(0.5, 0.0)) && !s(t(0.5, 0.0), t(0.0, 1.5))
}
pub fn channels(b: [f64; 3], a: [f64; 2], x: [[f64; 2]; 3], v: [f64; 2]) -> (([f64; 2], [f64; 2], [f64; 2], [f64; 2]), ([f64; 2], [f64; 2], [f64; 2], [f64; 2])) {
    let s = 1.0 + a[0] + a[1];
    assume(s > 0.01 || s < -0.01);
    let mut f = MultiChannelBiquad::<2, f64>::new(h_co(b, a));
    let mut y = [0.0; 2];
    for p in x {
        y = f.filter(Vector::new(p)).into_array();
    }
    let r = f.value().into_array();
    let mut g = [Biquad::new(h_co(b, a)), Biquad::new(h_co(b, a))];
    let mut w = [0.0; 2];
    for p in x {
        w = [g[0].filter(p[0]), g[1].filter(p[1])];
    }
    f.settle_to(Vector::new(v));
    let u = f.value().into_array();
    f.reset();
    let z = f.value().into_array();
    let k = (b[0] + b[1] + b[2]) / s;
    ((y, r, u, z), (w, w, [v[0] * k, v[1] * k], [0.0; 2]))
}
pub fn harmonics(q: f64, p: f64) -> ((W, W, W), (W, W, W)) {
    let q = q * q + 0.5;
    let h = 0.001;
    let f = 0.1 + p * p;
    assume(f * h < 0.1 && f * h < 0.5 && f * 3.0 * h < 0.5 && f * 2.0 * h < 0.5);
    assume(f * h < 0.5 * q && f * 2.0 * h < 0.5 * q && f * 3.0 * h < 0.5 * q);
    let c = harmonic_notch_coefficients::<3, f64>(f, q, h).unwrap();
    let n = |k: f64| h_parts(Co::notch(f * k, q, h).unwrap());
    ((h_parts(c[0]), h_parts(c[1]), h_parts(c[2])), (n(1.0), n(2.0), n(3.0)))
}
pub fn harmonics_refuse(q: f64) -> bool {
    let q = q * q + 1.0;
    harmonic_notch_coefficients::<3, f64>(170.0, q, 0.001) == Err(SignalError::FrequencyOutOfRange)
        && harmonic_notch_coefficients::<3, f64>(-1.0, q, 0.001) == Err(SignalError::FrequencyOutOfRange)
        && harmonic_notch_coefficients::<3, f64>(10.0, -q, 0.001) == Err(SignalError::NonPositiveQualityFactor)
        && harmonic_notch_coefficients::<3, f64>(100.0, q, 0.001).is_ok()
}

// ---- conditioning ----
pub fn deadband(k: f64, x: f64) -> ((f64, f64, f64), (f64, f64, f64)) {
    assume(k >= 0.0);
    let m = x.abs();
    let p = Deadband::plain(k).unwrap();
    let r = Deadband::recentered(k).unwrap();
    ((p.apply(x), r.apply(x), p.threshold()), if m <= k { (0.0, 0.0, k) } else if x > 0.0 { (x, x - k, k) } else { (x, x + k, k) })
}
pub fn deadband_refuses(k: f64) -> bool {
    let k = k * k + 0.01;
    let e = Err(SignalError::NegativeThreshold);
    Deadband::plain(-k) == e && Deadband::recentered(-k) == e && Deadband::plain(f64::NAN) == Err(SignalError::NonFinite) && Deadband::plain(0.0).is_ok()
}
pub fn hysteresis(x: [f64; 4]) -> bool {
    let mut s = Hysteresis::new(-1.0, 2.0).unwrap();
    let mut want = s.is_high();
    let mut good = !want;
    for v in x {
        if v > 2.0 {
            want = true;
        }
        if v < -1.0 {
            want = false;
        }
        good = good && s.update(v) == want && s.is_high() == want;
    }
    s.reset();
    good && !s.is_high()
}
pub fn hysteresis_refuses(l: f64, g: f64) -> bool {
    let g = g * g + 0.01;
    let e = Err(SignalError::ThresholdsOutOfOrder);
    Hysteresis::new(l, l) == e && Hysteresis::new(l + 1.0, l) == e && Hysteresis::new(f64::NAN, l) == Err(SignalError::NonFinite) && Hysteresis::new(l, f64::INFINITY) == Err(SignalError::NonFinite) && Hysteresis::new(l, l + g).is_ok()
}
pub fn slew(r: f64, f: f64, x: [f64; 3]) -> (([f64; 3], f64), ([f64; 3], f64)) {
    let (r, f) = (r * r + 0.01, f * f + 0.01);
    let h = 0.5;
    let mut s = SlewRateLimiter::new(r, f, h).unwrap();
    let mut y = [x[0]; 3];
    for k in 1..3 {
        let d = x[k] - y[k - 1];
        y[k] = y[k - 1] + if d > r * h { r * h } else if d < -(f * h) { -(f * h) } else { d };
    }
    ((x.map(|x| s.filter(x)), s.value()), (y, y[2]))
}
pub fn slew_resets(r: f64, h: f64, x: [f64; 2]) -> ([f64; 3], [f64; 3]) {
    let (r, h) = (r * r + 0.01, h * h + 0.01);
    let mut s = SlewRateLimiter::symmetric(r, h).unwrap();
    let a = s.filter(x[0]);
    s.reset();
    let z = s.value();
    ([a, z, s.filter(x[1])], [x[0], 0.0, x[1]])
}
pub fn slew_symmetric(r: f64, h: f64) -> (f64, f64) {
    let (r, h) = (r * r + 0.01, h * h + 0.01);
    let mut s = SlewRateLimiter::symmetric(r, h).unwrap();
    let _ = s.filter(0.0);
    let g = r * h;
    let u = s.filter(g * 3.0);
    let _ = s.filter(-g * 5.0);
    (u + s.filter(-g * 5.0), 0.0)
}
pub fn slew_refuses(r: f64) -> bool {
    let r = r * r + 0.01;
    let e = Err(SignalError::NonPositiveRate);
    SlewRateLimiter::new(-r, r, 0.1) == e
        && SlewRateLimiter::new(r, -r, 0.1) == e
        && SlewRateLimiter::new(0.0, r, 0.1) == e
        && SlewRateLimiter::new(r, 0.0, 0.1) == e
        && SlewRateLimiter::new(r, r, 0.0) == Err(SignalError::NonPositiveTimestep)
        && SlewRateLimiter::new(r, r, -r) == Err(SignalError::NonPositiveTimestep)
        && SlewRateLimiter::new(r, f64::NAN, 0.1) == Err(SignalError::NonFinite)
}

// ---- smoothing ----
pub fn one_pole(s: f64, x: [f64; 3]) -> (([f64; 3], f64, f64), ([f64; 3], f64, f64)) {
    assume(s >= 0.0 && s <= 1.0);
    let mut f = OnePoleLowPass::new(s).unwrap();
    let y = x.map(|x| f.filter(x));
    let v = f.value();
    f.reset();
    let a = x[0];
    let b = s * x[1] + (1.0 - s) * a;
    let c = s * x[2] + (1.0 - s) * b;
    ((y, v, f.filter(x[2])), ([a, b, c], c, x[2]))
}
pub fn one_pole_cutoff(f: f64, h: f64, x: [f64; 2]) -> (f64, f64) {
    let (f, h) = (f * f, h * h + 0.01);
    let a = 2.0 * PI * f * h;
    assume(f >= 0.0 && a / (a + 1.0) >= 0.0 && a / (a + 1.0) <= 1.0);
    let mut p = OnePoleLowPass::from_cutoff(f, h).unwrap();
    let _ = p.filter(x[0]);
    (p.filter(x[1]), (a * x[1] + x[0]) / (a + 1.0))
}
pub fn one_pole_refuses(k: f64) -> bool {
    let k = k * k + 0.01;
    let e = Err(SignalError::CoefficientOutOfRange);
    OnePoleLowPass::new(-k) == e
        && OnePoleLowPass::new(1.0 + k) == e
        && OnePoleLowPass::new(f64::NAN) == Err(SignalError::NonFinite)
        && OnePoleLowPass::<f64>::from_cutoff(-k, 0.1) == Err(SignalError::FrequencyOutOfRange)
        && OnePoleLowPass::<f64>::from_cutoff(k, 0.0) == Err(SignalError::NonPositiveTimestep)
        && OnePoleLowPass::<f64>::from_cutoff(k, -k) == Err(SignalError::NonPositiveTimestep)
        && OnePoleLowPass::<f64>::from_cutoff(f64::INFINITY, k) == Err(SignalError::NonFinite)
}
pub fn average(x: [f64; 6]) -> (([f64; 6], f64), ([f64; 6], f64)) {
    let mut f = MovingAverage::<3, f64>::new().unwrap();
    let at = |k: i32| if k < 0 { x[0] } else { x[k as usize] };
    let mut w = [0.0; 6];
    for k in 0..6 {
        let n = k as i32;
        w[k] = (at(n) + at(n - 1) + at(n - 2)) / 3.0;
    }
    let y = x.map(|x| f.filter(x));
    f.reset();
    ((y, f.filter(x[3])), (w, x[3]))
}
pub fn median(x: f64) -> ([f64; 3], [f64; 3]) {
    let mut f = RunningMedian::<3, f64>::new().unwrap();
    let y = [f.filter(3.0), f.filter(x), f.filter(5.0)];
    (y, [3.0, 3.0, if x < 3.0 { 3.0 } else if x > 5.0 { 5.0 } else { x }])
}
pub fn median_wraps(x: f64) -> ([f64; 4], [f64; 4]) {
    let mut f = RunningMedian::<3, f64>::new().unwrap();
    for v in [5.0, 1.0, 9.0] {
        let _ = f.filter(v);
    }
    let m = |a: f64, b: f64, c: f64| if c < a { a } else if c > b { b } else { c };
    let y = f.filter(x);
    let z = f.filter(4.0);
    let u = f.filter(2.0);
    let _ = f.filter(7.0);
    ([y, z, u, f.value()], [m(1.0, 9.0, x), m(4.0, 9.0, x), m(2.0, 4.0, x), 4.0])
}
pub fn median_five() -> bool {
    let mut f = RunningMedian::<5, f64>::new().unwrap();
    let x = [3.0, -1.0, 7.0, 2.0, 9.0, 4.0, 4.0, -5.0, 0.5];
    let w = [3.0, 3.0, 3.0, 3.0, 3.0, 4.0, 4.0, 4.0, 4.0];
    let mut good = true;
    for k in 0..9 {
        good = good && f.filter(x[k]) == w[k];
    }
    f.reset();
    good && f.filter(6.0) == 6.0 && f.filter(1.0) == 6.0
}
pub fn windows_refuse() -> bool {
    MovingAverage::<0, f64>::new() == Err(SignalError::WindowTooShort)
        && RunningMedian::<0, f64>::new() == Err(SignalError::WindowTooShort)
        && RunningMedian::<4, f64>::new() == Err(SignalError::WindowEvenLength)
        && SavitzkyGolay::<4, 2, f64>::centered(0.1) == Err(SignalError::WindowEvenLength)
        && SavitzkyGolay::<3, 4, f64>::latest(0.1) == Err(SignalError::PolynomialOrderTooHigh)
        && SavitzkyGolay::<3, 0, f64>::latest(0.1) == Err(SignalError::WindowTooShort)
        && SavitzkyGolay::<3, 2, f64>::latest(0.0) == Err(SignalError::NonPositiveTimestep)
        && SavitzkyGolay::<3, 2, f64>::centered(f64::NAN) == Err(SignalError::NonFinite)
}
// ---- local fits ----
fn h_poly(c: &[f64; 3], t: f64) -> f64 {
    c[0] + c[1] * t + c[2] * t * t
}
/// a curve of the fitted order comes back with its slope and bend
pub fn golay_latest_pinv(c: [f64; 3]) -> ([f64; 4], [f64; 4]) {
    let h = 0.5;
    let mut f = SavitzkyGolay::<5, 3, f64>::latest(h).unwrap();
    for k in 0..7 {
        let _ = f.filter(h_poly(&c, k as f64 * h));
    }
    let t = 3.0;
    ([f.value(), f.first_derivative(), f.second_derivative(), f.delay()], [h_poly(&c, t), c[1] + 2.0 * c[2] * t, 2.0 * c[2], 0.0])
}
pub fn golay_centered_pinv(c: [f64; 3]) -> ([f64; 4], [f64; 4]) {
    let h = 0.5;
    let mut f = SavitzkyGolay::<5, 3, f64>::centered(h).unwrap();
    for k in 0..7 {
        let _ = f.filter(h_poly(&c, k as f64 * h));
    }
    let t = 2.0;
    ([f.value(), f.first_derivative(), f.second_derivative(), f.delay()], [h_poly(&c, t), c[1] + 2.0 * c[2] * t, 2.0 * c[2], 1.0])
}
/// the timestep scales the slope once and the bend twice
pub fn golay_scales_pinv(h: f64, x: [f64; 3]) -> ([f64; 4], [f64; 4]) {
    let h = h * h + 0.01;
    let mut f = SavitzkyGolay::<3, 3, f64>::centered(h).unwrap();
    for v in x {
        let _ = f.filter(v);
    }
    ([f.value(), f.first_derivative(), f.second_derivative(), f.delay()], [x[1], (x[2] - x[0]) / (2.0 * h), (x[0] - 2.0 * x[1] + x[2]) / (h * h), h])
}
/// fewer terms than samples: the least-squares line
pub fn golay_line_pinv(x: [f64; 5]) -> (([f64; 2], [f64; 2], f64, f64), ([f64; 2], [f64; 2], f64, f64)) {
    let mut f = SavitzkyGolay::<3, 2, f64>::latest(2.0).unwrap();
    let mut g = SavitzkyGolay::<3, 2, f64>::centered(2.0).unwrap();
    let first = f.filter(x[0]);
    for k in 0..5 {
        if k > 0 {
            let _ = f.filter(x[k]);
        }
        let _ = g.filter(x[k]);
    }
    let m = (x[2] + x[3] + x[4]) / 3.0;
    let s = (x[4] - x[2]) / 2.0;
    (([f.value(), f.first_derivative()], [g.value(), g.first_derivative()], f.second_derivative(), first), ([m + s, s / 2.0], [m, s / 2.0], 0.0, x[0]))
}
pub fn golay_resets_pinv(a: f64, b: f64) -> ([f64; 3], [f64; 3]) {
    let mut f = SavitzkyGolay::<3, 2, f64>::latest(1.0).unwrap();
    let _ = f.filter(a);
    let _ = f.filter(b);
    f.reset();
    let z = f.value();
    ([z, f.filter(b), f.first_derivative()], [0.0, b, 0.0])
}

// ---- longer histories and wider windows ----
pub fn cascade_three(b: [[f64; 3]; 3], a: [[f64; 2]; 3], x: [f64; 5]) -> ([f64; 5], [f64; 5]) {
    let mut f = BiquadCascade::<3, f64>::new([h_co(b[0], a[0]), h_co(b[1], a[1]), h_co(b[2], a[2])]);
    (x.map(|x| f.filter(x)), h_run(b[2], a[2], &h_run(b[1], a[1], &h_run(b[0], a[0], &x))))
}
/// every section is swapped in its own place, and keeps what it remembers
pub fn cascade_swaps(b: [[f64; 3]; 2], a: [[f64; 2]; 2], c: [f64; 3], d: [f64; 2], x: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let mut f = BiquadCascade::<2, f64>::new([h_co(b[0], a[0]), h_co(b[1], a[1])]);
    let mut g = [Biquad::new(h_co(b[0], a[0])), Biquad::new(h_co(b[1], a[1]))];
    let mut y = [0.0; 3];
    let mut w = [0.0; 3];
    for n in 0..3 {
        if n == 1 {
            assume(f.set_section(1, h_co(c, d)).is_ok());
            g[1].set_coefficients(h_co(c, d));
        }
        if n == 2 {
            assume(f.set_section(0, h_co(c, d)).is_ok());
            g[0].set_coefficients(h_co(c, d));
        }
        y[n] = f.filter(x[n]);
        let m = g[0].filter(x[n]);
        w[n] = g[1].filter(m);
    }
    (y, w)
}
pub fn cascade_three_settles(a: [[f64; 2]; 3], b: [[f64; 3]; 3], x: f64) -> ([f64; 3], [f64; 3]) {
    let s = [1.0 + a[0][0] + a[0][1], 1.0 + a[1][0] + a[1][1], 1.0 + a[2][0] + a[2][1]];
    assume((s[0] > 0.01 || s[0] < -0.01) && (s[1] > 0.01 || s[1] < -0.01) && (s[2] > 0.01 || s[2] < -0.01));
    let mut y = x;
    for k in 0..3 {
        y = y * (b[k][0] + b[k][1] + b[k][2]) / s[k];
    }
    let mut f = BiquadCascade::<3, f64>::new([h_co(b[0], a[0]), h_co(b[1], a[1]), h_co(b[2], a[2])]);
    f.settle_to(x);
    ([f.value(), f.filter(x), f.filter(x)], [y; 3])
}
pub fn cascade_three_responds(b: [[f64; 3]; 3], a: [[f64; 2]; 3], f: f64) -> ([f64; 4], [f64; 4]) {
    let c = [h_co(b[0], a[0]), h_co(b[1], a[1]), h_co(b[2], a[2])];
    let w = BiquadCascade::<3, f64>::new(c);
    let m = c[0].magnitude_at(f) * c[1].magnitude_at(f) * c[2].magnitude_at(f);
    assume(m > 0.0);
    let m = 1.0 * c[0].magnitude_at(f) * c[1].magnitude_at(f) * c[2].magnitude_at(f);
    ([w.magnitude_at(f), w.phase_at(f), w.delay_at(0.0), w.magnitude_in_decibels_at(f)], [m, c[0].phase_at(f) + c[1].phase_at(f) + c[2].phase_at(f), 0.0, 20.0 / core::f64::consts::LN_10 * m.ln()])
}
pub fn channels_swap(b: [f64; 3], a: [f64; 2], c: [f64; 3], d: [f64; 2], x: [[f64; 3]; 3]) -> ([f64; 3], [f64; 3]) {
    let mut f = MultiChannelBiquad::<3, f64>::new(h_co(b, a));
    let mut g = [Biquad::new(h_co(b, a)); 3];
    let mut y = [0.0; 3];
    let mut w = [0.0; 3];
    for n in 0..3 {
        if n == 2 {
            f.set_coefficients(h_co(c, d));
            for k in 0..3 {
                g[k].set_coefficients(h_co(c, d));
            }
        }
        y = f.filter(Vector::new(x[n])).into_array();
        for k in 0..3 {
            w[k] = g[k].filter(x[n][k]);
        }
    }
    (y, w)
}
pub fn harmonics_none() -> bool {
    harmonic_notch_coefficients::<0, f64>(10.0, 1.0, 0.001).is_err()
}
pub fn harmonics_four(q: f64, h: f64) -> ((W, W), (W, W)) {
    let (q, h) = (q * q + 0.5, h * h + 0.0001);
    let f = 0.0625 / h;
    assume(f > 0.0 && f * h < 0.5 && f * h < 0.5 * q && f * 4.0 * h < 0.5);
    assume(f * 2.0 * h < 0.5 && f * 3.0 * h < 0.5 && f * 2.0 > 0.0 && f * 3.0 > 0.0 && f * 4.0 > 0.0);
    assume(f * 2.0 * h < 0.5 * q && f * 3.0 * h < 0.5 * q && f * 4.0 * h < 0.5 * q);
    let s = harmonic_notch_coefficients::<4, f64>(f, q, h).unwrap();
    ((h_parts(s[2]), h_parts(s[3])), (h_parts(Co::notch(f * 3.0, q, h).unwrap()), h_parts(Co::notch(f * 4.0, q, h).unwrap())))
}
pub fn hysteresis_edges(k: f64) -> bool {
    let k = k * k + 0.5;
    let mut s = Hysteresis::new(-k, 2.0 * k).unwrap();
    let x = [2.0, 2.5, 2.0, 0.0, -1.0, -0.5, 2.0, -1.5, 2.0, 3.0, -1.0, -2.0, -1.0, 0.0];
    let w = [false, true, true, true, true, true, true, false, false, true, true, false, false, false];
    let mut good = true;
    for n in 0..14 {
        good = good && s.update(x[n] * k) == w[n];
    }
    good
}
pub fn hysteresis_long(x: [f64; 7]) -> bool {
    let mut s = Hysteresis::new(0.5, 0.75).unwrap();
    let mut want = false;
    let mut good = true;
    for n in 0..7 {
        if n == 4 {
            s.reset();
            want = false;
        }
        want = if want { !(x[n] < 0.5) } else { x[n] > 0.75 };
        good = good && s.update(x[n]) == want;
    }
    good
}
pub fn slew_long(k: f64) -> ([f64; 10], [f64; 10]) {
    let k = k * k + 0.5;
    let mut s = SlewRateLimiter::new(2.0 * k, 4.0 * k, 0.25).unwrap();
    let x = [3.0, 5.0, 5.0, 5.0, 4.75, -4.0, -4.0, 2.75, 2.5, 3.25];
    let w = [3.0, 3.5, 4.0, 4.5, 4.75, 3.75, 2.75, 2.75, 2.5, 3.0];
    (x.map(|x| s.filter(x * k)), w.map(|w| w * k))
}
pub fn slew_five(r: f64, f: f64, x: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    let (r, f) = (r * r + 0.01, f * f + 0.01);
    let h = 0.25;
    let mut s = SlewRateLimiter::new(r, f, h).unwrap();
    let mut y = [x[0]; 4];
    for k in 1..4 {
        let d = x[k] - y[k - 1];
        y[k] = y[k - 1] + if d > r * h { r * h } else if d < -(f * h) { -(f * h) } else { d };
    }
    (x.map(|x| s.filter(x)), y)
}
fn h_window<const W: usize, const N: usize>(x: [f64; N]) -> [[f64; W]; N] {
    let mut o = [[0.0; W]; N];
    for n in 0..N {
        for k in 0..W {
            o[n][k] = if n >= k { x[n - k] } else { x[0] };
        }
    }
    o
}
pub fn average_four(x: [f64; 9], y: [f64; 6]) -> (([f64; 9], [f64; 6], f64), ([f64; 9], [f64; 6], f64)) {
    let mut f = MovingAverage::<4, f64>::new().unwrap();
    let m = |w: [f64; 4]| (w[0] + w[1] + w[2] + w[3]) / 4.0;
    let a = x.map(|x| f.filter(x));
    f.reset();
    let b = y.map(|x| f.filter(x));
    let (v, w) = (h_window::<4, 9>(x).map(m), h_window::<4, 6>(y).map(m));
    ((a, b, f.value()), (v, w, w[5]))
}
pub fn average_one(x: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let mut f = MovingAverage::<1, f64>::new().unwrap();
    (x.map(|x| f.filter(x)), x)
}
/// the value with as many samples below as above
fn h_median<const W: usize>(w: [f64; W]) -> f64 {
    let mut m = w[0];
    for c in 0..W {
        let (mut below, mut same) = (0, 0);
        for v in w {
            if v < w[c] {
                below += 1;
            } else if v == w[c] {
                same += 1;
            }
        }
        if below <= W / 2 && below + same > W / 2 {
            m = w[c];
        }
    }
    m
}
pub fn median_seven(k: f64) -> ([f64; 18], [f64; 18]) {
    let k = k * k + 0.5;
    let x = [3.0, -1.0, 7.0, 2.0, 9.0, 4.0, 4.0, -5.0, 0.5, 4.0, 4.0, 11.0, -8.0, 6.0, 2.0, 2.0, 2.0, 5.0];
    let mut f = RunningMedian::<7, f64>::new().unwrap();
    let w = h_window::<7, 18>(x).map(h_median);
    (x.map(|x| f.filter(x * k)), w.map(|w| w * k))
}
pub fn median_rising_falling(k: f64) -> ([f64; 14], [f64; 14]) {
    let k = k * k + 0.5;
    let x = [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 6.5, 5.5, 4.5, 3.5, 2.5, 1.5, 0.5];
    let mut f = RunningMedian::<5, f64>::new().unwrap();
    let w = h_window::<5, 14>(x).map(h_median);
    (x.map(|x| f.filter(x * k)), w.map(|w| w * k))
}
pub fn median_resets(k: f64) -> ([f64; 6], [f64; 6]) {
    let k = k * k + 0.5;
    let mut f = RunningMedian::<3, f64>::new().unwrap();
    for x in [5.0, 2.0, 8.0, 1.0] {
        let _ = f.filter(x * k);
    }
    f.reset();
    let x = [-2.0, 4.0, 3.0, 9.0, 6.0, 1.0];
    let w = h_window::<3, 6>(x).map(h_median);
    (x.map(|x| f.filter(x * k)), w.map(|w| w * k))
}
pub fn median_one(x: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let mut f = RunningMedian::<1, f64>::new().unwrap();
    (x.map(|x| f.filter(x)), x)
}
pub fn one_pole_long(s: f64, x: [f64; 5], y: [f64; 3]) -> (([f64; 5], [f64; 3]), ([f64; 5], [f64; 3])) {
    assume(s > 0.0 && s <= 1.0);
    let mut f = OnePoleLowPass::new(s).unwrap();
    let run = |n: usize, x: &[f64]| {
        let mut v = x[0];
        for k in 1..=n {
            v = s * x[k] + (1.0 - s) * v;
        }
        v
    };
    let a = x.map(|x| f.filter(x));
    f.reset();
    let b = y.map(|x| f.filter(x));
    ((a, b), ([run(0, &x), run(1, &x), run(2, &x), run(3, &x), run(4, &x)], [run(0, &y), run(1, &y), run(2, &y)]))
}
pub fn deadband_edges(k: f64) -> ([f64; 12], [f64; 12]) {
    let k = k * k + 0.5;
    let x = [-3.0, -1.0, -0.5, 0.0, 1.0, 1.5];
    let (p, r) = (Deadband::plain(k).unwrap(), Deadband::recentered(k).unwrap());
    let (a, b) = (x.map(|x| p.apply(x * k)), x.map(|x| r.apply(x * k)));
    ([a[0], a[1], a[2], a[3], a[4], a[5], b[0], b[1], b[2], b[3], b[4], b[5]], [-3.0 * k, 0.0, 0.0, 0.0, 0.0, 1.5 * k, -2.0 * k, 0.0, 0.0, 0.0, 0.0, 0.5 * k])
}
