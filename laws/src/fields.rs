//! Laws of integrals over fields along curves, sensor geometry, maps, rotors and random numbers.
use crate::h_assume as assume;
use core::f64::consts::PI;
use multicalc::error::*;
use multicalc::linear_algebra::Vector;
use multicalc::mapping::*;
use multicalc::plant::*;
use multicalc::random::{Pcg32, RandomSource};
use multicalc::vector_field::*;

/// a polygon through the sampled points
fn h_along<const N: usize>(f: impl Fn(&[f64; N]) -> [f64; N], c: impl Fn(f64) -> [f64; N], a: f64, b: f64, n: usize) -> [f64; N] {
    let mut out = [0.0; N];
    let mut p = c(a);
    let h = (b - a) / n as f64;
    for i in 0..n {
        let q = c(a + h * (i + 1) as f64);
        let (u, v) = (f(&p), f(&q));
        for k in 0..N {
            out[k] += (q[k] - p[k]) * (u[k] + v[k]) / 2.0;
        }
        p = q;
    }
    out
}
fn h_curve(k: &[f64; 6], t: f64) -> [f64; 3] {
    [k[0] + k[1] * t * t, k[2] * t + k[3] * t * t * t, k[4] - k[5] * t]
}
fn h_field(w: &[f64; 6], p: &[f64; 3]) -> [f64; 3] {
    [w[0] * p[1] + w[1] * p[0] * p[2], w[2] * p[0] * p[0] + w[3] * p[1], w[4] * p[2] + w[5] * p[0] * p[1]]
}
pub fn line3(w: [f64; 6], k: [f64; 6], a: f64, s: f64) -> ((f64, [f64; 3]), (f64, [f64; 3])) {
    let s = s * s + 0.01;
    assume(a < a + s);
    let f: [&dyn Fn(&[f64; 3]) -> f64; 3] = [&|p| h_field(&w, p)[0], &|p| h_field(&w, p)[1], &|p| h_field(&w, p)[2]];
    let c: [&dyn Fn(f64) -> f64; 3] = [&|t| h_curve(&k, t)[0], &|t| h_curve(&k, t)[1], &|t| h_curve(&k, t)[2]];
    let l = [a, a + s];
    let e = h_along(|p| h_field(&w, p), |t| h_curve(&k, t), a, a + s, 3);
    (
        (
            line_integral_3d_custom(&f, &c, &l, 3).unwrap(),
            [0, 1, 2].map(|i| line_integral_partial_3d(&f, &c, &l, 3, i).unwrap()),
        ),
        (e[0] + e[1] + e[2], e),
    )
}
pub fn line2(w: [f64; 6], k: [f64; 6], a: f64, s: f64) -> ((f64, [f64; 2], f64), (f64, [f64; 2], f64)) {
    let s = s * s + 0.01;
    assume(a < a + s);
    let g = |p: &[f64; 2]| {
        let x = h_field(&w, &[p[0], p[1], 1.0]);
        [x[0], x[1]]
    };
    let h = |t: f64| {
        let x = h_curve(&k, t);
        [x[0], x[1]]
    };
    let f: [&dyn Fn(&[f64; 2]) -> f64; 2] = [&|p| g(p)[0], &|p| g(p)[1]];
    let c: [&dyn Fn(f64) -> f64; 2] = [&|t| h(t)[0], &|t| h(t)[1]];
    let l = [a, a + s];
    let e = h_along(g, h, a, a + s, 4);
    // across the curve: the component along its outward normal
    let n = h_along(
        |p| {
            let x = g(p);
            [-x[1], x[0]]
        },
        h,
        a,
        a + s,
        4,
    );
    (
        (line_integral_2d_custom(&f, &c, &l, 4).unwrap(), [0, 1].map(|i| line_integral_partial_2d(&f, &c, &l, 4, i).unwrap()), flux_integral_2d_custom(&f, &c, &l, 4).unwrap()),
        (e[0] + e[1], e, n[0] + n[1]),
    )
}
/// each sample sees the field and the curve once, at the curve's own point
pub fn line_opaque(a: f64, b: f64) -> (f64, f64) {
    assume(a < b);
    let f: [&dyn Fn(&[f64; 2]) -> f64; 2] = [&|p| opaque_p(p[0], p[1]), &|p| opaque_q(p[0], p[1])];
    let c: [&dyn Fn(f64) -> f64; 2] = [&|t| opaque_x(t), &|t| opaque_y(t)];
    let e = h_along(|p| [opaque_p(p[0], p[1]), opaque_q(p[0], p[1])], |t| [opaque_x(t), opaque_y(t)], a, b, 2);
    (line_integral_2d_custom(&f, &c, &[a, b], 2).unwrap(), e[0] + e[1])
}
pub fn opaque_p(_x: f64, _y: f64) -> f64 {
    0.0
}
pub fn opaque_q(_x: f64, _y: f64) -> f64 {
    0.0
}
pub fn opaque_x(_x: f64) -> f64 {
    0.0
}
pub fn opaque_y(_x: f64) -> f64 {
    0.0
}
pub fn line_refuses(a: f64, b: f64) -> bool {
    assume(a < b);
    let f: [&dyn Fn(&[f64; 2]) -> f64; 2] = [&|p| p[0], &|p| p[1]];
    let c: [&dyn Fn(f64) -> f64; 2] = [&|t| t, &|t| t * t];
    let r = |l: [f64; 2], n: u64, i: usize| line_integral_partial_2d(&f, &c, &l, n, i).err();
    r([b, a], 2, 0) == Some(IntegrateError::LimitsIllDefined)
        && r([a, a], 2, 0) == Some(IntegrateError::LimitsIllDefined)
        && r([a, f64::NAN], 2, 0) == Some(IntegrateError::LimitsIllDefined)
        && r([a, b], 0, 0) == Some(IntegrateError::IterationsZero)
        && r([a, b], 2, 2) == Some(IntegrateError::IndexOutOfRange)
}


// ---- the directions and distances of a scan ----
pub fn scan_angles(f: f64, r: f64) -> (([f64; 5], f64, f64, f64, f64), ([f64; 5], f64, f64, f64, f64)) {
    let (f, r) = (f * f + 0.01, r * r + 0.01);
    assume(f <= 6.0 && f <= core::f64::consts::TAU);
    let s = ScanGeometry::<5, f64>::try_new(f, r).unwrap();
    (
        ([0, 1, 2, 3, 4].map(|i| s.beam_angle(i).unwrap()), s.angle_increment(), s.field_of_view(), s.maximum_range(), s.minimum_range()),
        ([-f / 2.0, -f / 4.0, 0.0, f / 4.0, f / 2.0], f / 4.0, f, r, 0.0),
    )
}
pub fn scan_limits(f: f64) -> bool {
    let f = f * f + 0.01;
    let s = |f: f64, r: f64| ScanGeometry::<3, f64>::try_new(f, r).err();
    let g = ScanGeometry::<3, f64>::try_new(2.0, 5.0).unwrap();
    s(-f, 1.0) == Some(MappingError::InvalidFieldOfView)
        && s(0.0, 1.0) == Some(MappingError::InvalidFieldOfView)
        && s(core::f64::consts::TAU + f, 1.0) == Some(MappingError::InvalidFieldOfView)
        && s(core::f64::consts::TAU, 1.0).is_none()
        && s(1.0, -f) == Some(MappingError::NonPositiveRange)
        && s(1.0, 0.0) == Some(MappingError::NonPositiveRange)
        && s(f64::NAN, 1.0) == Some(MappingError::NonFinite)
        && s(1.0, f64::INFINITY) == Some(MappingError::NonFinite)
        && ScanGeometry::<1, f64>::try_new(1.0, 1.0).err() == Some(MappingError::TooFewBeams)
        && g.with_minimum_range(-f).err() == Some(MappingError::InvalidRangeLimits)
        && g.with_minimum_range(5.0).err() == Some(MappingError::InvalidRangeLimits)
        && g.with_minimum_range(5.0 + f).err() == Some(MappingError::InvalidRangeLimits)
        && g.with_minimum_range(f64::NAN).err() == Some(MappingError::NonFinite)
        && g.beam_angle(3).is_none()
        && g.num_beams() == 3
}
pub fn scan_valid(x: f64) -> bool {
    let s = ScanGeometry::<3, f64>::try_new(2.0, 5.0).unwrap().with_minimum_range(0.5).unwrap();
    let want = x >= 0.5 && x <= 5.0;
    s.range_is_valid(x) == want && !s.range_is_valid(f64::INFINITY) && !s.range_is_valid(f64::NAN) && s.range_is_valid(0.5) && s.range_is_valid(5.0)
}
pub fn scan_nearest() -> bool {
    let s = ScanGeometry::<5, f64>::try_new(2.0, 5.0).unwrap();
    let mut good = true;
    for i in 0..5 {
        good = good && s.nearest_beam_index(s.beam_angle(i).unwrap()) == Some(i);
    }
    for k in 0..40 {
        let a = -0.985 + 0.05 * k as f64;
        let i = s.nearest_beam_index(a).unwrap();
        for j in 0..5 {
            good = good && (s.beam_angle(i).unwrap() - a).abs() <= (s.beam_angle(j).unwrap() - a).abs();
        }
    }
    good && s.nearest_beam_index(1.01).is_none() && s.nearest_beam_index(-1.01).is_none() && s.nearest_beam_index(f64::NAN).is_none() && s.nearest_beam_index(1.0) == Some(4) && s.nearest_beam_index(-1.0) == Some(0)
}
/// a beam at any fraction of the way
pub fn scan_beam_back(f: f64) -> bool {
    let f = f * f + 0.01;
    assume(f <= 6.0 && f <= core::f64::consts::TAU);
    let s = ScanGeometry::<7, f64>::try_new(f, 1.0).unwrap();
    let mut good = true;
    for i in 0..7 {
        good = good && s.nearest_beam_index(s.beam_angle(i).unwrap()) == Some(i);
    }
    good
}

// ---- maps ----
struct Room {
    cells: [[bool; 4]; 3],
    origin: [f64; 2],
    size: f64,
}
impl OccupancyMap for Room {
    fn columns(&self) -> usize {
        4
    }
    fn rows(&self) -> usize {
        3
    }
    fn resolution(&self) -> f64 {
        self.size
    }
    fn origin(&self) -> [f64; 2] {
        self.origin
    }
    fn is_occupied(&self, row: usize, column: usize) -> bool {
        row < 3 && column < 4 && self.cells[row][column]
    }
}
impl MutableOccupancyMap for Room {
    fn set_cell(&mut self, row: usize, column: usize, occupied: bool) {
        if row < 3 && column < 4 {
            self.cells[row][column] = occupied;
        }
    }
    fn clear(&mut self) {
        self.cells = [[false; 4]; 3];
    }
}
/// a cell holds its lower edges and not its upper ones
pub fn cells(o: [f64; 2], r: f64) -> bool {
    let r = r * r + 0.01;
    let m = Room { cells: [[false; 4]; 3], origin: o, size: r };
    let at = |x: f64, y: f64| m.cell_of([o[0] + r * x, o[1] + r * y]);
    at(0.0, 0.0) == Some((0, 0))
        && at(0.99, 0.99) == Some((0, 0))
        && at(1.0, 0.5) == Some((0, 1))
        && at(0.5, 1.0) == Some((1, 0))
        && at(3.9, 2.9) == Some((2, 3))
        && at(4.0, 1.0).is_none()
        && at(1.0, 3.0).is_none()
        && at(-0.1, 1.0).is_none()
        && at(1.0, -0.1).is_none()
        && at(2.5, 2.5) == Some((2, 2))
        && at(1e9, 1.0).is_none()
}
pub fn cells_nowhere(_x: f64) -> bool {
    let m = Room { cells: [[false; 4]; 3], origin: [0.0, 0.0], size: 1.0 };
    m.cell_of([f64::NAN, 0.5]).is_none() && m.cell_of([0.5, f64::NAN]).is_none() && m.cell_of([f64::INFINITY, 0.5]).is_none() && m.cell_of([0.5, f64::NEG_INFINITY]).is_none()
}
/// the distance at which a straight line first touches a blocked cell, by cutting the line at every grid line
fn h_first(m: &Room, p: [f64; 2], d: [f64; 2], far: f64) -> Option<f64> {
    let mut t = [0.0; 10];
    let mut n = 1;
    for k in 0..5 {
        if d[0] != 0.0 {
            t[n] = (m.origin[0] + k as f64 * m.size - p[0]) / d[0];
            n += 1;
        }
    }
    for k in 0..4 {
        if d[1] != 0.0 {
            t[n] = (m.origin[1] + k as f64 * m.size - p[1]) / d[1];
            n += 1;
        }
    }
    for i in 1..n {
        let mut j = i;
        while j > 0 && t[j] < t[j - 1] {
            let x = t[j];
            t[j] = t[j - 1];
            t[j - 1] = x;
            j -= 1;
        }
    }
    for i in 0..n {
        if t[i] >= 0.0 && i + 1 < n && t[i + 1] - t[i] > 0.0000001 {
            let c = (t[i] + t[i + 1]) / 2.0;
            let (x, y) = (((p[0] + c * d[0] - m.origin[0]) / m.size).floor(), ((p[1] + c * d[1] - m.origin[1]) / m.size).floor());
            if x >= 0.0 && y >= 0.0 && x < 4.0 && y < 3.0 && m.cells[y as usize][x as usize] {
                return if t[i] <= far { Some(t[i]) } else { None };
            }
        }
    }
    None
}
fn h_cast(cells: [[bool; 4]; 3], p: [f64; 2], bearing: f64, far: f64) -> (f64, f64) {
    let m = Room { cells, origin: [-1.0, 2.0], size: 0.5 };
    let w = h_first(&m, p, [bearing.cos(), bearing.sin()], far);
    (m.cast_ray(p, bearing, far).unwrap_or(-1.0), w.unwrap_or(-1.0))
}
pub fn ray_level(cells: [[bool; 4]; 3]) -> ((f64, f64), (f64, f64)) {
    let (a, b) = (h_cast(cells, [-0.9, 2.6], 0.0, 5.0), h_cast(cells, [0.9, 3.3], PI, 5.0));
    ((a.0, b.0), (a.1, b.1))
}
pub fn ray_upright(cells: [[bool; 4]; 3]) -> ((f64, f64), (f64, f64)) {
    let (a, b) = (h_cast(cells, [-0.9, 2.1], PI / 2.0, 5.0), h_cast(cells, [0.3, 3.4], -PI / 2.0, 5.0));
    ((a.0, b.0), (a.1, b.1))
}
pub fn ray_slanted(cells: [[bool; 4]; 3]) -> (f64, f64) {
    h_cast(cells, [-0.9, 2.05], PI / 6.0, 5.0)
}
pub fn ray_back(cells: [[bool; 4]; 3]) -> (f64, f64) {
    h_cast(cells, [0.9, 3.45], PI + PI / 6.0, 5.0)
}
pub fn ray_steep(cells: [[bool; 4]; 3]) -> (f64, f64) {
    h_cast(cells, [-0.1, 2.1], PI * 2.0 / 3.0, 5.0)
}
pub fn ray_from_outside(cells: [[bool; 4]; 3]) -> (f64, f64) {
    h_cast(cells, [-2.0, 1.9], PI / 6.0, 9.0)
}
pub fn ray_from_above(cells: [[bool; 4]; 3]) -> (f64, f64) {
    h_cast(cells, [0.9, 4.5], -PI / 2.0 - PI / 12.0, 9.0)
}
/// the range ends the search where the cell is entered, not where it ends
pub fn ray_short(cells: [[bool; 4]; 3]) -> (f64, f64) {
    h_cast(cells, [-0.9, 2.05], PI / 6.0, 0.9)
}
pub fn ray_away(cells: [[bool; 4]; 3], far: f64) -> bool {
    let m = Room { cells, origin: [-1.0, 2.0], size: 0.5 };
    m.cast_ray([-1.5, 2.5], PI, far).is_none()
        && m.cast_ray([-1.5, 2.5], PI / 2.0, far).is_none()
        && m.cast_ray([-1.5, 1.5], -PI / 6.0, far).is_none()
        && m.cast_ray([-1.5, 5.0], PI / 12.0, far).is_none()
        && m.cast_ray([0.0, 1.5], 0.0, far).is_none()
        && m.cast_ray([3.0, 2.5], PI, 1.5).is_none()
}
pub fn ray_inside(cells: [[bool; 4]; 3]) -> bool {
    let mut c = cells;
    c[1][2] = true;
    let m = Room { cells: c, origin: [-1.0, 2.0], size: 0.5 };
    m.cast_ray([0.1, 2.7], 1.0, 0.0) == Some(0.0)
}
pub fn marks_point(o: [f64; 2], b: [[bool; 4]; 3]) -> bool {
    let mut m = Room { cells: b, origin: o, size: 0.5 };
    m.occupy_point([o[0] + 0.6, o[1] + 1.2]);
    m.occupy_point([o[0] + 2.1, o[1] + 1.2]);
    m.occupy_point([f64::NAN, o[1]]);
    let mut c = b;
    c[2][1] = true;
    m.cells == c
}
pub fn marks_line(b: [[bool; 4]; 3]) -> bool {
    let mut m = Room { cells: b, origin: [0.0, 0.0], size: 1.0 };
    m.occupy_polyline(&[[0.5, 0.5], [3.5, 0.5], [3.5, 2.5]], false);
    let mut c = b;
    c[0] = [true; 4];
    c[1][3] = true;
    c[2][3] = true;
    let first = m.cells == c;
    m.occupy_polyline(&[[3.5, 2.5], [0.5, 2.5], [0.5, 0.5]], true);
    c[2] = [true; 4];
    c[1][0] = true;
    // the closing leg runs back along the diagonal
    c[1][1] = true;
    c[1][2] = true;
    first && m.is_occupied(2, 0) && m.is_occupied(1, 0) && m.cells == c
}
pub fn marks_little(b: [[bool; 4]; 3]) -> bool {
    let mut m = Room { cells: b, origin: [0.0, 0.0], size: 1.0 };
    m.occupy_polyline(&[], true);
    m.occupy_polyline(&[[0.5, 1.5]], false);
    let untouched = m.cells == b;
    m.occupy_polyline(&[[1.5, 1.5]], true);
    let mut c = b;
    c[1][1] = true;
    untouched && m.cells == c
}
pub fn dynamic_cells(o: [f64; 2], r: f64) -> bool {
    let r = r * r + 0.01;
    let mut g = DynamicOccupancyGrid::try_new(3, 2, r, o).unwrap();
    let mut good = g.columns() == 3 && g.rows() == 2 && g.resolution() == r && g.origin() == o;
    for i in 0..2 {
        for j in 0..3 {
            good = good && !g.is_occupied(i, j);
            g.set_cell(i, j, true);
            for k in 0..2 {
                for l in 0..3 {
                    good = good && g.is_occupied(k, l) == (k == i && l == j);
                }
            }
            g.set_cell(i, j, false);
        }
    }
    g.set_cell(2, 0, true);
    g.set_cell(0, 3, true);
    for k in 0..3 {
        for l in 0..4 {
            good = good && !g.is_occupied(k, l);
        }
    }
    g.set_cell(1, 1, true);
    good = good && g.is_occupied(1, 1);
    g.clear();
    good && !g.is_occupied(1, 1)
}
pub fn dynamic_refuses(r: f64) -> bool {
    let r = r * r + 0.01;
    let t = |c: usize, n: usize, r: f64, o: [f64; 2]| DynamicOccupancyGrid::try_new(c, n, r, o).err();
    t(0, 2, r, [0.0, 0.0]) == Some(MappingError::EmptyGrid)
        && t(2, 0, r, [0.0, 0.0]) == Some(MappingError::EmptyGrid)
        && t(2, 2, -r, [0.0, 0.0]) == Some(MappingError::NonPositiveResolution)
        && t(2, 2, 0.0, [0.0, 0.0]) == Some(MappingError::NonPositiveResolution)
        && t(2, 2, f64::NAN, [0.0, 0.0]) == Some(MappingError::NonFinite)
        && t(2, 2, r, [0.0, f64::INFINITY]) == Some(MappingError::NonFinite)
        && t(2, 2, r, [f64::NAN, 0.0]) == Some(MappingError::NonFinite)
        && t(usize::MAX, 2, r, [0.0, 0.0]) == Some(MappingError::GridTooLarge)
}

// ---- rotors ----
pub fn mixer_quad_pinv(l: f64, k: f64, t: [f64; 4]) -> (([f64; 6], bool), ([f64; 6], bool)) {
    let (l, k) = (l * l + 0.01, k * k + 0.01);
    let m = MultirotorMixer::quadrotor_x(l, k, -1e6, 1e6).unwrap();
    let c = m.rotor_thrusts(t[0], Vector::new([t[1], t[2], t[3]]));
    assume(!c.saturated());
    let w = m.wrench(c.thrusts());
    let (f, q) = (w.force(), w.torque());
    (([f[0], f[1], f[2], q[0], q[1], q[2]], c.saturated()), ([0.0, 0.0, t[0], t[1], t[2], t[3]], false))
}
/// torque is arm crossed with thrust, and each rotor turns the body against its own spin
pub fn mixer_wrench_pinv(l: f64, k: f64, t: [f64; 4]) -> ([f64; 6], [f64; 6]) {
    let (l, k) = (l * l + 0.01, k * k + 0.01);
    let m = MultirotorMixer::quadrotor_x(l, k, 0.0, 9.0).unwrap();
    let h = l / 2.0_f64.sqrt();
    let at = [[h, -h], [-h, h], [h, h], [-h, -h]];
    let w = m.wrench(Vector::new(t));
    let (f, q) = (w.force(), w.torque());
    let mut e = [0.0; 6];
    for i in 0..4 {
        e[2] += t[i];
        e[3] += at[i][1] * t[i];
        e[4] -= at[i][0] * t[i];
        e[5] += if i < 2 { k * t[i] } else { -k * t[i] };
    }
    ([f[0], f[1], f[2], q[0], q[1], q[2]], e)
}
pub fn mixer_saturates_pinv(t: [f64; 4]) -> (([f64; 4], bool), ([f64; 4], bool)) {
    let h = 2.0_f64.sqrt();
    let m = MultirotorMixer::quadrotor_x(h, 0.5, 1.0, 4.0).unwrap();
    let c = m.rotor_thrusts(t[0], Vector::new([t[1], t[2], t[3]]));
    let mut s = false;
    // arms of one on each axis
    let raw = [t[0] - t[1] - t[2] + 2.0 * t[3], t[0] + t[1] + t[2] + 2.0 * t[3], t[0] + t[1] - t[2] - 2.0 * t[3], t[0] - t[1] + t[2] - 2.0 * t[3]];
    let w = raw.map(|x| {
        let x = x / 4.0;
        if x < 1.0 {
            s = true;
            1.0
        } else if x > 4.0 {
            s = true;
            4.0
        } else {
            x
        }
    });
    ((c.thrusts().into_array(), c.saturated()), (w, s))
}
pub fn mixer_six_pinv(t: [f64; 4]) -> ([f64; 6], [f64; 6]) {
    let p = [[1.0, 0.0, 0.0], [0.5, 0.9, 0.1], [-0.5, 0.9, 0.2], [-1.0, 0.0, 0.3], [-0.5, -0.9, 0.0], [0.5, -0.9, 0.0]].map(|x| Vector::new(x));
    let s = [RotorSpin::Clockwise, RotorSpin::CounterClockwise, RotorSpin::Clockwise, RotorSpin::CounterClockwise, RotorSpin::Clockwise, RotorSpin::CounterClockwise];
    let m = MultirotorMixer::new(p, s, 0.02, -1e6, 1e6).unwrap();
    let c = m.rotor_thrusts(t[0], Vector::new([t[1], t[2], t[3]]));
    assume(!c.saturated());
    let w = m.wrench(c.thrusts());
    let (f, q) = (w.force(), w.torque());
    ([f[0], f[1], f[2], q[0], q[1], q[2]], [0.0, 0.0, t[0], t[1], t[2], t[3]])
}
pub fn mixer_refuses(k: f64) -> bool {
    let k = k * k + 0.01;
    let t = |l: f64, k: f64, a: f64, b: f64| MultirotorMixer::quadrotor_x(l, k, a, b).err();
    let n = f64::NAN;
    t(-k, k, 0.0, 1.0) == Some(PlantError::NonPositiveArmLength)
        && t(0.0, k, 0.0, 1.0) == Some(PlantError::NonPositiveArmLength)
        && t(n, k, 0.0, 1.0) == Some(PlantError::NonFinite)
        && t(k, n, 0.0, 1.0) == Some(PlantError::NonFinite)
        && t(k, k, n, 1.0) == Some(PlantError::NonFinite)
        && t(k, k, 0.0, n) == Some(PlantError::NonFinite)
        && t(k, -k, 0.0, 1.0) == Some(PlantError::NonPositiveTorqueRatio)
        && t(k, 0.0, 0.0, 1.0) == Some(PlantError::NonPositiveTorqueRatio)
        && t(k, k, 1.0, 1.0) == Some(PlantError::InvalidThrustLimits)
        && t(k, k, 1.0 + k, 1.0) == Some(PlantError::InvalidThrustLimits)
}

// ---- random numbers ----
struct Tape {
    draws: [f64; 6],
    at: usize,
    cache: Option<f64>,
}
impl RandomSource<f64> for Tape {
    fn next_u32(&mut self) -> u32 {
        0
    }
    fn next_unit(&mut self) -> f64 {
        let x = self.draws[self.at];
        self.at += 1;
        x
    }
    fn get_cache(&mut self) -> Option<f64> {
        self.cache.take()
    }
    fn set_cache(&mut self, value: f64) {
        self.cache = Some(value);
    }
}
/// pairs from the square that miss the disc are drawn again, both halves of a pair are used, and nothing else is
pub fn normals(u: [f64; 2]) -> (([f64; 3], bool), ([f64; 3], bool)) {
    let mut t = Tape { draws: [1.0, 0.25, u[0], u[1], 0.25, 0.5], at: 0, cache: None };
    let p = |a: f64, b: f64| {
        let (x, y) = (2.0 * a - 1.0, 2.0 * b - 1.0);
        let s = x * x + y * y;
        let k = (-2.0 * s.ln() / s).sqrt();
        (s, x * k, y * k)
    };
    let (s, x, y) = p(u[0], u[1]);
    assume(s < 1.0 && s > 0.0001);
    let (_, z, _) = p(0.25, 0.5);
    (([t.standard_normal(), t.standard_normal(), t.standard_normal()], t.at == 6), ([x, y, z], true))
}
/// the published sequence of the generator, and the words each number is made of
pub fn generator() -> bool {
    let mut g = Pcg32::<f64>::with_stream(42, 54);
    let w = [0xa15c02b7u32, 0x7b47f409, 0xba1d3330, 0x83d2f293, 0xbfa4784b, 0xcbed606e];
    let mut good = true;
    for k in 0..6 {
        good = good && g.next_u32() == w[k];
    }
    let mut g = Pcg32::<f64>::with_stream(42, 54);
    good = good && g.next_u64() == 0xa15c02b7_7b47f409;
    good = good && g.next_unit() == (0xba1d3330_83d2f293u64 >> 11) as f64 / 9007199254740992.0;
    let mut h = Pcg32::<f32>::with_stream(42, 54);
    good && RandomSource::<f32>::next_unit(&mut h) == (0xa15c02b7u32 >> 8) as f32 / 16777216.0
}
