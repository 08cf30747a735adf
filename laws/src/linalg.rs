//! Linear algebra: every operation against its textbook definition, every factorisation against the product it names.
use crate::h_assume as assume;
use multicalc::linear_algebra::*;

type M<const R: usize, const C: usize> = [[f64; C]; R];
fn h_mul<const R: usize, const K: usize, const C: usize>(a: M<R, K>, b: M<K, C>) -> M<R, C> {
    let mut o = [[0.0; C]; R];
    for i in 0..R {
        for j in 0..C {
            for k in 0..K {
                o[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    o
}
fn h_t<const R: usize, const C: usize>(a: M<R, C>) -> M<C, R> {
    let mut o = [[0.0; R]; C];
    for i in 0..R {
        for j in 0..C {
            o[j][i] = a[i][j];
        }
    }
    o
}
fn h_id<const N: usize>() -> M<N, N> {
    let mut o = [[0.0; N]; N];
    for i in 0..N {
        o[i][i] = 1.0;
    }
    o
}
fn h_mv<const R: usize, const C: usize>(a: M<R, C>, x: [f64; C]) -> [f64; R] {
    let mut o = [0.0; R];
    for i in 0..R {
        for j in 0..C {
            o[i] += a[i][j] * x[j];
        }
    }
    o
}
fn h_diag<const N: usize>(d: [f64; N]) -> M<N, N> {
    let mut o = [[0.0; N]; N];
    for i in 0..N {
        o[i][i] = d[i];
    }
    o
}
fn h_dot<const N: usize>(a: [f64; N], b: [f64; N]) -> f64 {
    let mut s = 0.0;
    for i in 0..N {
        s += a[i] * b[i];
    }
    s
}
/// symmetric matrix from its lower triangle
fn h_sym<const N: usize>(a: M<N, N>) -> M<N, N> {
    let mut o = a;
    for i in 0..N {
        for j in 0..i {
            o[j][i] = a[i][j];
        }
    }
    o
}
fn h_det2(a: M<2, 2>) -> f64 {
    a[0][0] * a[1][1] - a[0][1] * a[1][0]
}
/// cofactor expansion along the first row
fn h_det3(a: M<3, 3>) -> f64 {
    let mut s = 0.0;
    for c in 0..3 {
        let (p, q) = ((c + 1) % 3, (c + 2) % 3);
        s += a[0][c] * (a[1][p] * a[2][q] - a[1][q] * a[2][p]);
    }
    s
}
fn h_det4(a: M<4, 4>) -> f64 {
    let mut s = 0.0;
    let mut sign = 1.0;
    for c in 0..4 {
        let mut m = [[0.0; 3]; 3];
        for i in 0..3 {
            let mut k = 0;
            for j in 0..4 {
                if j != c {
                    m[i][k] = a[i + 1][j];
                    k += 1;
                }
            }
        }
        s += sign * a[0][c] * h_det3(m);
        sign = -sign;
    }
    s
}
fn h_det5(a: M<5, 5>) -> f64 {
    let mut s = 0.0;
    let mut sign = 1.0;
    for c in 0..5 {
        let mut m = [[0.0; 4]; 4];
        for i in 0..4 {
            let mut k = 0;
            for j in 0..5 {
                if j != c {
                    m[i][k] = a[i + 1][j];
                    k += 1;
                }
            }
        }
        s += sign * a[0][c] * h_det4(m);
        sign = -sign;
    }
    s
}
fn h_perm<const R: usize, const C: usize>(a: M<R, C>, p: [usize; R]) -> M<R, C> {
    let mut o = a;
    for i in 0..R {
        o[i] = a[p[i]];
    }
    o
}

// ---- entries, shapes, elementwise arithmetic
pub fn matrix_access(a: M<2, 3>) -> ([f64; 8], [f64; 8]) {
    let m = Matrix::new(a);
    let arr = m.into_array();
    (
        [m[(1, 2)], *m.get(0, 2).unwrap(), arr[1][0], m.try_row(1).unwrap()[2], m.try_column(2).unwrap()[1], m.try_row(0).unwrap()[1], m.try_column(0).unwrap()[1], Matrix::from(a)[(0, 1)]],
        [a[1][2], a[0][2], a[1][0], a[1][2], a[1][2], a[0][1], a[1][0], a[0][1]],
    )
}
pub fn matrix_access_outside(a: M<2, 3>) -> bool {
    let mut m = Matrix::new(a);
    m.get(2, 0).is_none() && m.get(0, 3).is_none() && m.get_mut(2, 2).is_none() && m.get_mut(1, 3).is_none() && m.try_row(2).is_none() && m.try_column(3).is_none() && m.try_row(1).is_some() && m.try_column(2).is_some() && m.get_mut(1, 2).is_some()
}
pub fn matrix_from_slice(a: [f64; 6]) -> (M<2, 3>, M<2, 3>) {
    (Matrix::<2, 3>::try_from_row_slice(&a).unwrap().into_array(), [[a[0], a[1], a[2]], [a[3], a[4], a[5]]])
}
pub fn matrix_from_slice_wrong_length(a: [f64; 7]) -> bool {
    Matrix::<2, 3>::try_from_row_slice(&a).is_none() && Matrix::<2, 3>::try_from_row_slice(&a[..5]).is_none() && Matrix::<2, 3>::try_from_row_slice(&[]).is_none()
}
pub fn matrix_write(a: M<2, 3>, x: f64, y: f64, z: f64) -> (M<2, 3>, M<2, 3>) {
    let mut m = Matrix::new(a);
    m[(1, 0)] = x;
    *m.get_mut(0, 2).unwrap() = y;
    m.as_mut_slice_rows()[1][2] = z;
    let mut o = a;
    o[1][0] = x;
    o[0][2] = y;
    o[1][2] = z;
    (m.into_array(), o)
}
pub fn matrix_from_fn(x: f64, y: f64) -> (M<3, 2>, M<3, 2>) {
    (Matrix::<3, 2>::from_fn(|i, j| x * i as f64 + y * j as f64).into_array(), [[0.0, y], [x, x + y], [x + x, x + x + y]])
}
pub fn matrix_zeros_identity_diagonal(d: [f64; 3]) -> ((M<3, 3>, M<3, 3>, M<3, 3>, [f64; 3]), (M<3, 3>, M<3, 3>, M<3, 3>, [f64; 3])) {
    (
        (Matrix::<3, 3>::zeros().into_array(), Matrix::<3, 3>::identity().into_array(), Matrix::from_diagonal(d).into_array(), Matrix::from_diagonal(d).diagonal()),
        ([[0.0; 3]; 3], h_id(), h_diag(d), d),
    )
}
pub fn matrix_diagonal_trace(a: M<4, 4>) -> (([f64; 4], f64), ([f64; 4], f64)) {
    let m = Matrix::new(a);
    ((m.diagonal(), m.trace()), ([a[0][0], a[1][1], a[2][2], a[3][3]], a[0][0] + a[1][1] + a[2][2] + a[3][3]))
}
pub fn matrix_add_sub_neg_scale(a: M<2, 3>, b: M<2, 3>, s: f64) -> ([M<2, 3>; 6], [M<2, 3>; 6]) {
    assume(s != 0.0);
    let (m, n) = (Matrix::new(a), Matrix::new(b));
    let mut e = [[[0.0; 3]; 2]; 6];
    for i in 0..2 {
        for j in 0..3 {
            e[0][i][j] = a[i][j] + b[i][j];
            e[1][i][j] = a[i][j] - b[i][j];
            e[2][i][j] = -a[i][j];
            e[3][i][j] = a[i][j] * s;
            e[4][i][j] = a[i][j] * s;
            e[5][i][j] = a[i][j] / s;
        }
    }
    ([(m + n).into_array(), (m - n).into_array(), (-m).into_array(), m.scale(s).into_array(), (m * s).into_array(), (m / s).into_array()], e)
}
pub fn matrix_add_assign(a: M<3, 2>, b: M<3, 2>) -> ((M<3, 2>, M<3, 2>), (M<3, 2>, M<3, 2>)) {
    let (mut m, mut n) = (Matrix::new(a), Matrix::new(a));
    m += Matrix::new(b);
    n -= Matrix::new(b);
    ((m.into_array(), n.into_array()), ((Matrix::new(a) + Matrix::new(b)).into_array(), (Matrix::new(a) - Matrix::new(b)).into_array()))
}
pub fn matrix_product(a: M<2, 3>, b: M<3, 4>) -> (M<2, 4>, M<2, 4>) {
    ((Matrix::new(a) * Matrix::new(b)).into_array(), h_mul(a, b))
}
pub fn matrix_vector_product(a: M<2, 3>, x: [f64; 3]) -> ([f64; 2], [f64; 2]) {
    ((Matrix::new(a) * Vector::new(x)).into_array(), h_mv(a, x))
}
pub fn matrix_transpose(a: M<2, 3>) -> (M<3, 2>, M<3, 2>) {
    (Matrix::new(a).transpose().into_array(), h_t(a))
}
pub fn matrix_frobenius(a: M<2, 3>) -> (f64, f64) {
    let mut s = 0.0;
    for i in 0..2 {
        for j in 0..3 {
            s += a[i][j] * a[i][j];
        }
    }
    (Matrix::new(a).frobenius_norm(), s.sqrt())
}
pub fn matrix_symmetrized(a: M<3, 3>) -> (M<3, 3>, M<3, 3>) {
    let mut o = a;
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = 0.5 * (a[i][j] + a[j][i]);
        }
    }
    (Matrix::new(a).symmetrized().into_array(), o)
}
pub fn matrix_symmetrized_is_symmetric(a: M<4, 4>) -> bool {
    let s = Matrix::new(a).symmetrized().into_array();
    s[0][1] == s[1][0] && s[0][2] == s[2][0] && s[0][3] == s[3][0] && s[1][2] == s[2][1] && s[1][3] == s[3][1] && s[2][3] == s[3][2]
}
pub fn matrix_is_symmetric_accepts(a: M<3, 3>) -> bool {
    Matrix::new(h_sym(a)).is_symmetric()
}
pub fn matrix_spd_helper(a: [f64; 4]) -> (M<2, 2>, M<2, 2>) {
    let f = [[a[0], a[1]], [a[2], a[3]]];
    let mut o = h_mul(f, h_t(f));
    o[0][0] += 0.25;
    o[1][1] += 0.25;
    (Matrix::<2, 2>::symmetric_positive_definite(&a).into_array(), o)
}

// ---- determinant and inverse
pub fn det1(a: M<1, 1>) -> (f64, f64) {
    (Matrix::new(a).determinant(), a[0][0])
}
pub fn det2(a: M<2, 2>) -> (f64, f64) {
    (Matrix::new(a).determinant(), h_det2(a))
}
pub fn det3(a: M<3, 3>) -> (f64, f64) {
    (Matrix::new(a).determinant(), h_det3(a))
}
pub fn det4(a: M<4, 4>) -> (f64, f64) {
    (Matrix::new(a).determinant(), h_det4(a))
}
pub fn det5(a: M<5, 5>) -> (f64, f64) {
    (Matrix::new(a).determinant(), h_det5(a))
}
macro_rules! inverses { ($($l:ident $r:ident $n:literal),*) => { $(
    pub fn $l(a: M<$n, $n>) -> (M<$n, $n>, M<$n, $n>) {
        (h_mul(Matrix::new(a).inverse().unwrap().into_array(), a), h_id())
    }
    pub fn $r(a: M<$n, $n>) -> (M<$n, $n>, M<$n, $n>) {
        (h_mul(a, Matrix::new(a).inverse().unwrap().into_array()), h_id())
    }
)* } }
inverses!(inverse1_left inverse1_right 1, inverse2_left inverse2_right 2, inverse3_left inverse3_right 3, inverse4_left inverse4_right 4);
fn h_block5(a: [f64; 7]) -> M<5, 5> {
    [[a[0], 0.0, 0.0, a[1], 0.0], [0.0, a[4], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0, a[5]], [a[2], 0.0, 0.0, a[3], 0.0], [0.0, 0.0, a[6], 0.0, 0.0]]
}
pub fn inverse5_block(a: [f64; 7]) -> (M<5, 5>, M<5, 5>) {
    let m = h_block5(a);
    (h_mul(Matrix::new(m).inverse().unwrap().into_array(), m), h_id())
}
pub fn inverse_singular_refused(x: f64, y: f64, k: f64) -> bool {
    Matrix::new([[x, y], [k * x, k * y]]).inverse().is_err() && Matrix::new([[0.0]]).inverse().is_err()
}

// ---- LU
pub fn lu2(a: M<2, 2>) -> (M<2, 2>, M<2, 2>) {
    let f = Matrix::new(a).lu_decompose().unwrap();
    (h_mul(f.lower().into_array(), f.upper().into_array()), h_perm(a, f.permutation()))
}
pub fn lu3(a: M<3, 3>) -> (M<3, 3>, M<3, 3>) {
    let f = Matrix::new(a).lu_decompose().unwrap();
    (h_mul(f.lower().into_array(), f.upper().into_array()), h_perm(a, f.permutation()))
}
pub fn lu3_shape(a: M<3, 3>) -> ([f64; 9], [f64; 9]) {
    let f = Matrix::new(a).lu_decompose().unwrap();
    let (l, u) = (f.lower().into_array(), f.upper().into_array());
    ([l[0][0], l[1][1], l[2][2], l[0][1], l[0][2], l[1][2], u[1][0], u[2][0], u[2][1]], [1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0])
}
pub fn lu3_determinant(a: M<3, 3>) -> (f64, f64) {
    (Matrix::new(a).lu_decompose().unwrap().determinant(), h_det3(a))
}
pub fn lu3_solve(a: M<3, 3>, b: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    (h_mv(a, Matrix::new(a).lu_decompose().unwrap().solve(Vector::new(b)).into_array()), b)
}
pub fn solve3(a: M<3, 3>, b: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    (h_mv(a, Matrix::new(a).solve(Vector::new(b)).unwrap().into_array()), b)
}
pub fn lu3_solve_matrix(a: M<3, 3>, b: M<3, 2>) -> (M<3, 2>, M<3, 2>) {
    (h_mul(a, Matrix::new(a).lu_decompose().unwrap().solve_matrix(Matrix::new(b)).into_array()), b)
}
pub fn lu3_inverse(a: M<3, 3>) -> (M<3, 3>, M<3, 3>) {
    (h_mul(a, Matrix::new(a).lu_decompose().unwrap().inverse().into_array()), h_id())
}
pub fn lu4(a: M<4, 4>) -> (M<4, 4>, M<4, 4>) {
    let f = Matrix::new(a).lu_decompose().unwrap();
    (h_mul(f.lower().into_array(), f.upper().into_array()), h_perm(a, f.permutation()))
}

// ---- Cholesky
pub fn cholesky2(a: M<2, 2>) -> (M<2, 2>, M<2, 2>) {
    let s = h_sym(a);
    let l = Matrix::new(s).cholesky().unwrap().lower().into_array();
    (h_mul(l, h_t(l)), s)
}
pub fn cholesky3(a: M<3, 3>) -> (M<3, 3>, M<3, 3>) {
    let s = h_sym(a);
    let l = Matrix::new(s).cholesky().unwrap().lower().into_array();
    (h_mul(l, h_t(l)), s)
}
pub fn cholesky4(a: M<4, 4>) -> (M<4, 4>, M<4, 4>) {
    let s = h_sym(a);
    let l = Matrix::new(s).cholesky().unwrap().lower().into_array();
    (h_mul(l, h_t(l)), s)
}
pub fn cholesky3_shape(a: M<3, 3>) -> ([f64; 3], [f64; 3]) {
    let l = Matrix::new(h_sym(a)).cholesky().unwrap().lower().into_array();
    ([l[0][1], l[0][2], l[1][2]], [0.0; 3])
}
pub fn cholesky3_positive_diagonal(a: M<3, 3>) -> bool {
    let l = Matrix::new(h_sym(a)).cholesky().unwrap().lower().into_array();
    l[0][0] > 0.0 && l[1][1] > 0.0 && l[2][2] > 0.0
}
pub fn cholesky3_determinant(a: M<3, 3>) -> (f64, f64) {
    let s = h_sym(a);
    (Matrix::new(s).cholesky().unwrap().determinant(), h_det3(s))
}
pub fn cholesky3_solve(a: M<3, 3>, b: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let s = h_sym(a);
    (h_mv(s, Matrix::new(s).cholesky().unwrap().solve(Vector::new(b)).into_array()), b)
}
pub fn cholesky3_solve_matrix(a: M<3, 3>, b: M<3, 2>) -> (M<3, 2>, M<3, 2>) {
    let s = h_sym(a);
    (h_mul(s, Matrix::new(s).cholesky().unwrap().solve_matrix(Matrix::new(b)).into_array()), b)
}
pub fn cholesky3_inverse(a: M<3, 3>) -> (M<3, 3>, M<3, 3>) {
    let s = h_sym(a);
    (h_mul(Matrix::new(s).cholesky().unwrap().inverse().into_array(), s), h_id())
}

// ---- vectors
pub fn vector_access(a: [f64; 3], x: f64) -> ([f64; 6], [f64; 6]) {
    let mut v = Vector::new(a);
    let w = Vector::<3>::try_from_slice(&a).unwrap();
    let g = Vector::from(a);
    *v.get_mut(1).unwrap() = x;
    v[2] = x + 1.0;
    v.as_mut_slice()[0] = x + 2.0;
    ([v[0], v[1], *v.get(2).unwrap(), w[0], w[2], g.into_array()[1]], [x + 2.0, x, x + 1.0, a[0], a[2], a[1]])
}
pub fn vector_access_outside(a: [f64; 4]) -> bool {
    let mut v = Vector::new([a[0], a[1], a[2]]);
    v.get(3).is_none() && v.get_mut(3).is_none() && v.get(2).is_some() && Vector::<3>::try_from_slice(&a).is_none() && Vector::<3>::try_from_slice(&a[..2]).is_none()
}
pub fn vector_arith(a: [f64; 3], b: [f64; 3], s: f64) -> ([[f64; 3]; 10], [[f64; 3]; 10]) {
    assume(s != 0.0);
    let (v, w) = (Vector::new(a), Vector::new(b));
    let (mut p, mut q) = (v, v);
    p += w;
    q -= w;
    let mut e = [[0.0; 3]; 10];
    for i in 0..3 {
        e[0][i] = a[i] + b[i];
        e[1][i] = a[i] - b[i];
        e[2][i] = -a[i];
        e[3][i] = a[i] * s;
        e[4][i] = a[i] * s;
        e[5][i] = a[i] / s;
        e[6][i] = a[i] + b[i];
        e[7][i] = a[i] - b[i];
        e[8][i] = a[i] * a[i] + i as f64 * 0.0;
        e[9][i] = s * i as f64;
    }
    (
        [
            (v + w).into_array(),
            (v - w).into_array(),
            (-v).into_array(),
            v.scale(s).into_array(),
            (v * s).into_array(),
            (v / s).into_array(),
            p.into_array(),
            q.into_array(),
            v.map(|x| x * x).into_array(),
            Vector::<3>::from_fn(|i| s * i as f64).into_array(),
        ],
        e,
    )
}
pub fn vector_products(a: [f64; 3], b: [f64; 3], c: [f64; 3]) -> ((f64, f64, f64, f64), (f64, f64, f64, f64)) {
    let (v, w, u) = (Vector::new(a), Vector::new(b), Vector::new(c));
    let d = h_dot(a, a);
    ((v.dot(w), v.norm_squared(), v.norm(), v.scalar_triple(w, u)), (h_dot(a, b), d, d.sqrt(), h_det3([a, b, c])))
}
pub fn vector_cross(a: [f64; 3], b: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    (Vector::new(a).cross(Vector::new(b)).into_array(), [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
}
pub fn vector_cross2(a: [f64; 2], b: [f64; 2]) -> (f64, f64) {
    (Vector::new(a).cross(Vector::new(b)), a[0] * b[1] - a[1] * b[0])
}
pub fn vector_normalize(a: [f64; 3]) -> ([[f64; 3]; 4], [[f64; 3]; 4]) {
    let n = h_dot(a, a).sqrt();
    assume(n > 0.0);
    let e = [a[0] / n, a[1] / n, a[2] / n];
    let v = Vector::new(a);
    let (mut p, mut q) = (v, v);
    p.normalize();
    let ok = q.try_normalize().is_some();
    assume(ok);
    ([v.normalized().into_array(), v.try_normalized().unwrap().into_array(), p.into_array(), q.into_array()], [e; 4])
}
pub fn vector_try_normalize_zero() -> bool {
    let mut z = Vector::<3>::zeros();
    Vector::<3>::zeros().try_normalized().is_none() && z.try_normalize().is_none() && z[0] == 0.0 && z[1] == 0.0 && z[2] == 0.0
}

// ---- QR
pub fn qr2_reconstruct(a: M<2, 2>) -> (M<2, 2>, M<2, 2>) {
    let f = PivotedQr::decompose(Matrix::new(a)).unwrap();
    let p = f.permutation();
    let at = h_t(a);
    (h_mul(f.orthogonal().into_array(), f.triangular().into_array()), h_t(h_perm(at, p)))
}
pub fn qr2_orthogonal(a: M<2, 2>) -> (M<2, 2>, M<2, 2>) {
    let q = PivotedQr::decompose(Matrix::new(a)).unwrap().orthogonal().into_array();
    (h_mul(h_t(q), q), h_id())
}
pub fn qr2_solve(a: M<2, 2>, b: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    let x = PivotedQr::decompose(Matrix::new(a)).unwrap().solve_least_squares(Vector::new(b)).unwrap();
    (h_mv(a, x.into_array()), b)
}
pub fn qr32_reconstruct(a: M<3, 2>) -> (M<3, 2>, M<3, 2>) {
    let f = PivotedQr::decompose(Matrix::new(a)).unwrap();
    let p = f.permutation();
    (h_mul(f.orthogonal().into_array(), f.triangular().into_array()), h_t(h_perm(h_t(a), p)))
}
pub fn qr32_orthogonal(a: M<3, 2>) -> (M<2, 2>, M<2, 2>) {
    let q = PivotedQr::decompose(Matrix::new(a)).unwrap().orthogonal().into_array();
    (h_mul(h_t(q), q), h_id())
}
/// normal equations
pub fn qr32_least_squares(a: M<3, 2>, b: [f64; 3]) -> ([f64; 2], [f64; 2]) {
    let x = PivotedQr::decompose(Matrix::new(a)).unwrap().solve_least_squares(Vector::new(b)).unwrap().into_array();
    let r = h_mv(a, x);
    (h_mv(h_t(a), r), h_mv(h_t(a), b))
}
pub fn qr_wide_refused(a: M<2, 3>) -> bool {
    PivotedQr::decompose(Matrix::new(a)).is_err() && Matrix::new(a).svd().is_err()
}
/// (A^T A + D^2) x = A^T b
pub fn qr22_damped(a: M<2, 2>, b: [f64; 2], d: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    let (x, _) = PivotedQr::decompose(Matrix::new(a)).unwrap().into_damped(Vector::new(b)).solve_with_diagonal(&d);
    let x = x.into_array();
    let t = h_mv(h_t(a), h_mv(a, x));
    ([t[0] + d[0] * d[0] * x[0], t[1] + d[1] * d[1] * x[1]], h_mv(h_t(a), b))
}
pub fn qr22_damped_zero_diagonal(a: M<2, 2>, b: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    let l = PivotedQr::decompose(Matrix::new(a)).unwrap().into_damped(Vector::new(b));
    (l.solve_with_zero_diagonal().0.into_array(), l.solve_with_diagonal(&[0.0; 2]).0.into_array())
}
pub fn qr22_a_x_norm(a: M<2, 2>, b: [f64; 2], x: [f64; 2]) -> (f64, f64) {
    let l = PivotedQr::decompose(Matrix::new(a)).unwrap().into_damped(Vector::new(b));
    let r = h_mv(a, x);
    (l.a_x_norm(&Vector::new(x)), h_dot(r, r).sqrt())
}

// ---- symmetric eigendecomposition and SVD
pub fn eigen2_orthogonal(a: M<2, 2>) -> (M<2, 2>, M<2, 2>) {
    let v = Matrix::new(h_sym(a)).symmetric_eigendecomposition().unwrap().eigenvectors().into_array();
    (h_mul(h_t(v), v), h_id())
}
pub fn eigen2_quadratic_form(a: M<2, 2>) -> ([f64; 2], [f64; 2]) {
    let s = h_sym(a);
    let f = Matrix::new(s).symmetric_eigendecomposition().unwrap();
    let v = f.eigenvectors().into_array();
    let d = h_mul(h_t(v), h_mul(s, v));
    (f.eigenvalues().into_array(), [d[0][0], d[1][1]])
}
pub fn eigen2_descending(a: M<2, 2>) -> bool {
    let e = Matrix::new(h_sym(a)).symmetric_eigendecomposition().unwrap().eigenvalues();
    e[0] >= e[1]
}
pub fn eigen_diagonal3(d: [f64; 3]) -> (f64, f64) {
    let f = Matrix::new(h_diag(d)).symmetric_eigendecomposition().unwrap();
    let e = f.eigenvalues();
    (f.determinant() + e[0] + e[1] + e[2], d[0] * d[1] * d[2] + d[0] + d[1] + d[2])
}
pub fn eigen_asymmetric_refused() -> bool {
    Matrix::new([[1.0, 5.0], [2.0, 3.0]]).symmetric_eigendecomposition().is_err() && Matrix::new([[1.0, 5.0], [5.0, 1.0]]).symmetric_eigendecomposition().is_ok()
}
pub fn eigen2_spectrum(a: M<2, 2>) -> ([f64; 4], [f64; 4]) {
    let s = h_sym(a);
    let f = Matrix::new(s).symmetric_eigendecomposition().unwrap();
    let e = f.eigenvalues();
    ([f.determinant(), e[0] + e[1], f.clamped(f64::NEG_INFINITY)[(0, 0)], f.clamped(f64::NEG_INFINITY)[(1, 0)]], [e[0] * e[1], s[0][0] + s[1][1], h_vdv(f)[0][0], h_vdv(f)[0][1]])
}
fn h_vdv(f: SymmetricEigendecomposition<2>) -> M<2, 2> {
    let v = f.eigenvectors().into_array();
    h_mul(v, h_mul(h_diag(f.eigenvalues().into_array()), h_t(v)))
}
pub fn eigen2_clamped(a: M<2, 2>, lo: f64) -> (M<2, 2>, M<2, 2>) {
    let f = Matrix::new(h_sym(a)).symmetric_eigendecomposition().unwrap();
    let v = f.eigenvectors().into_array();
    let e = f.eigenvalues();
    (f.clamped(lo).into_array(), h_mul(v, h_mul(h_diag([e[0].max(lo), e[1].max(lo)]), h_t(v))))
}
pub fn eigen2_positive_definite(a: M<2, 2>) -> bool {
    let f = Matrix::new(h_sym(a)).symmetric_eigendecomposition().unwrap();
    f.is_positive_definite() == (f.eigenvalues()[1] > 0.0)
}
pub fn svd_reconstruct2(a: M<2, 2>) -> (M<2, 2>, M<2, 2>) {
    let f = Matrix::new(a).svd().unwrap();
    let us = h_mul(f.left().into_array(), h_diag(f.singular_values().into_array()));
    (h_mul(us, h_t(f.right().into_array())), a)
}
pub fn svd_right_orthogonal2(a: M<2, 2>) -> (M<2, 2>, M<2, 2>) {
    let v = Matrix::new(a).svd().unwrap().right().into_array();
    (h_mul(h_t(v), v), h_id())
}
pub fn svd_descending2(a: M<2, 2>) -> bool {
    let e = Matrix::new(a).svd().unwrap().singular_values();
    e[0] >= e[1] && e[1] >= 0.0
}
pub fn svd_reconstruct32(a: M<3, 2>) -> (M<3, 2>, M<3, 2>) {
    let f = Matrix::new(a).svd().unwrap();
    let us = h_mul(f.left().into_array(), h_diag(f.singular_values().into_array()));
    (h_mul(us, h_t(f.right().into_array())), a)
}
pub fn svd_left_unit2(a: M<2, 2>) -> ([f64; 2], [f64; 2]) {
    let f = Matrix::new(a).svd().unwrap();
    let s = f.singular_values();
    assume(s[1] > 0.0);
    let u = f.left().into_array();
    ([u[0][0] * u[0][0] + u[1][0] * u[1][0], u[0][1] * u[0][1] + u[1][1] * u[1][1]], [1.0, 1.0])
}
pub fn svd_pseudo_inverse_from_factors(a: M<2, 2>) -> (M<2, 2>, M<2, 2>) {
    let f = Matrix::new(a).svd().unwrap();
    let s = f.singular_values();
    assume(s[1] > 0.0);
    let inv = h_mul(f.right().into_array(), h_mul(h_diag([1.0 / s[0], 1.0 / s[1]]), h_t(f.left().into_array())));
    (f.pseudo_inverse_tol(0.0).into_array(), inv)
}
pub fn svd_diagonal() -> bool {
    let f = Matrix::new([[3.0, 0.0], [0.0, -5.0]]).svd().unwrap();
    let s = f.singular_values();
    s[0] == 5.0 && s[1] == 3.0 && f.rank(1.0) == 2 && f.rank(3.5) == 1 && f.rank(3.0) == 1 && f.condition_number() == 5.0 / 3.0
}
pub fn svd_diagonal_solve(b: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    (Matrix::new([[0.0, 2.0], [-5.0, 0.0]]).svd().unwrap().solve(Vector::new(b)).into_array(), [b[1] / -5.0, b[0] / 2.0])
}
pub fn svd_wide_pseudo_inverse(b: f64) -> (M<2, 1>, M<2, 1>) {
    (Matrix::new([[3.0, 4.0]]).pseudo_inverse().unwrap().into_array(), [[3.0 / 25.0], [4.0 / 25.0 + 0.0 * b]])
}

// ---- exponential, Lyapunov, Riccati
/// the diagonal Pade approximant of degree 6
fn h_pade(x: f64) -> f64 {
    let c = [665280.0, 332640.0, 75600.0, 10080.0, 840.0, 42.0, 1.0];
    let (mut n, mut d, mut p) = (0.0, 0.0, 1.0);
    let mut sign = 1.0;
    for k in 0..7 {
        n += c[k] * p;
        d += sign * c[k] * p;
        p *= x;
        sign = -sign;
    }
    n / d
}
pub fn expm1_small(x: f64) -> (f64, f64) {
    assume(x.abs() <= 0.5);
    (Matrix::new([[x]]).expm().unwrap()[(0, 0)], h_pade(x))
}
pub fn expm1_scaled(x: f64) -> (f64, f64) {
    assume(x > 0.0 && x > 0.5 && x * 0.5 > 0.5 && x * 0.5 * 0.5 <= 0.5);
    let h = h_pade(x / 4.0);
    (Matrix::new([[x]]).expm().unwrap()[(0, 0)], (h * h) * (h * h))
}
pub fn expm_nilpotent(x: f64, y: f64, z: f64) -> (M<3, 3>, M<3, 3>) {
    assume(x > 0.0 && y > 0.0 && z > 0.0 && x <= 0.5 && y + z <= 0.5);
    (Matrix::new([[0.0, x, y], [0.0, 0.0, z], [0.0, 0.0, 0.0]]).expm().unwrap().into_array(), [[1.0, x, y + x * z / 2.0], [0.0, 1.0, z], [0.0, 0.0, 1.0]])
}
pub fn expm_zero() -> (M<3, 3>, M<3, 3>) {
    (Matrix::<3, 3>::zeros().expm().unwrap().into_array(), h_id())
}
/// X = A^T X A + Q
pub fn lyapunov_nilpotent(x: f64, q: [f64; 3]) -> (M<2, 2>, M<2, 2>) {
    let (a, q) = ([[0.0, x], [0.0, 0.0]], [[q[0], q[1]], [q[1], q[2]]]);
    let p = solve_discrete_lyapunov(Matrix::new(a), Matrix::new(q)).unwrap().into_array();
    let r = h_mul(h_t(a), h_mul(p, a));
    (p, [[q[0][0] + r[0][0], q[0][1] + r[0][1]], [q[1][0] + r[1][0], q[1][1] + r[1][1]]])
}
/// P = A^T P A - A^T P B (R + B^T P B)^-1 B^T P A + Q
pub fn riccati_nilpotent(x: f64, b: f64, q: [f64; 3], r: f64) -> (M<2, 2>, M<2, 2>) {
    let (a, bm, q) = ([[0.0, x], [0.0, 0.0]], [[b], [0.0]], [[q[0], q[1]], [q[1], q[2]]]);
    let p = solve_discrete_riccati(Matrix::new(a), Matrix::new(bm), Matrix::new(q), Matrix::new([[r]])).unwrap().into_array();
    let s = r + h_mul(h_t(bm), h_mul(p, bm))[0][0];
    let k = h_mul(h_t(bm), h_mul(p, a))[0];
    let t = h_mul(h_t(a), h_mul(p, a));
    let mut e = q;
    for i in 0..2 {
        for j in 0..2 {
            e[i][j] += t[i][j] - k[i] * k[j] / s;
        }
    }
    (p, e)
}

// ---- pivoting: the largest entry by magnitude, whatever its sign
/// a matrix with a zero on its diagonal and only negative numbers below it is still perfectly regular
pub fn lu_negative_below_zero(s: f64, b: [f64; 4], t: f64) -> ((f64, M<3, 3>), (f64, M<3, 3>)) {
    let (s, t) = (s * s + 0.5, t * t + 0.5);
    let m = [[0.0, t, b[0]], [-s, b[1], b[2]], [0.0, 0.0, t]];
    let f = Matrix::new(m).lu_decompose().unwrap();
    let _ = b[3];
    ((f.determinant(), h_mul(f.inverse().into_array(), m)), (s * t * t, h_id()))
}
pub fn lu_negative_second_pivot(s: f64, b: [f64; 3], t: f64) -> ((f64, M<3, 3>), (f64, M<3, 3>)) {
    let (s, t) = (s * s + 0.5, t * t + 0.5);
    let m = [[t, b[0], b[1]], [0.0, 0.0, t], [0.0, -s, b[2]]];
    let f = Matrix::new(m).lu_decompose().unwrap();
    ((f.determinant(), h_mul(f.inverse().into_array(), m)), (s * t * t, h_id()))
}
/// every multiplier is at most one in size: the pivot row is the largest there is
pub fn lu_multipliers(s: f64, b: [f64; 6]) -> ([f64; 2], [f64; 2]) {
    let s = s * s + 0.5;
    let m = [[s, b[0], b[1]], [2.0 * s, b[2], b[3]], [-4.0 * s, b[4], b[5]]];
    let l = Matrix::new(m).lu_decompose().unwrap().lower().into_array();
    ([l[1][0] * l[2][0], l[1][0] + l[2][0]], [0.25 * 0.5, -0.75])
}
pub fn solve_permuted(s: [f64; 4], b: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    let s = s.map(|x| x * x + 0.5);
    let m = [[0.0, 0.0, -s[0], 0.0], [-s[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, s[2]], [0.0, -s[3], 0.0, 0.0]];
    let x = Matrix::new(m).solve(Vector::new(b)).unwrap().into_array();
    (x, [-b[1] / s[1], -b[3] / s[3], -b[0] / s[0], b[2] / s[2]])
}

// ---- the same laws at sizes where a slip in an index has somewhere to hide
pub fn product_large(a: M<5, 6>, b: M<6, 4>) -> (M<5, 4>, M<5, 4>) {
    ((Matrix::new(a) * Matrix::new(b)).into_array(), h_mul(a, b))
}
pub fn transpose_large(a: M<6, 4>, x: [f64; 4]) -> ((M<4, 6>, [f64; 6]), (M<4, 6>, [f64; 6])) {
    ((Matrix::new(a).transpose().into_array(), (Matrix::new(a) * Vector::new(x)).into_array()), (h_t(a), h_mv(a, x)))
}
pub fn elementwise_large(a: M<4, 6>, b: M<4, 6>, s: f64) -> ((M<4, 6>, M<4, 6>, M<4, 6>), (M<4, 6>, M<4, 6>, M<4, 6>)) {
    let (mut p, mut q, mut r) = (a, a, a);
    for i in 0..4 {
        for j in 0..6 {
            p[i][j] = a[i][j] + b[i][j];
            q[i][j] = a[i][j] - b[i][j];
            r[i][j] = a[i][j] * s;
        }
    }
    let (x, y) = (Matrix::new(a), Matrix::new(b));
    (((x + y).into_array(), (x - y).into_array(), (x * s).into_array()), (p, q, r))
}
pub fn trace_symmetrized_large(a: M<6, 6>) -> ((f64, M<6, 6>), (f64, M<6, 6>)) {
    let mut s = a;
    let mut t = 0.0;
    for i in 0..6 {
        t += a[i][i];
        for j in 0..6 {
            s[i][j] = (a[i][j] + a[j][i]) / 2.0;
        }
    }
    ((Matrix::new(a).trace(), Matrix::new(a).symmetrized().into_array()), (t, s))
}
pub fn vector_large(a: [f64; 7], b: [f64; 7], s: f64) -> (([f64; 7], [f64; 7], f64, f64), ([f64; 7], [f64; 7], f64, f64)) {
    let (x, y) = (Vector::new(a), Vector::new(b));
    let mut p = a;
    let mut q = a;
    for i in 0..7 {
        p[i] = a[i] + b[i];
        q[i] = a[i] * s;
    }
    (((x + y).into_array(), (x * s).into_array(), x.dot(y), x.norm_squared()), (p, q, h_dot(a, b), h_dot(a, a)))
}
/// a lower triangle with positive diagonal is its own Cholesky factor
fn h_lower<const N: usize>(a: M<N, N>) -> M<N, N> {
    let mut l = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..i {
            l[i][j] = a[i][j];
        }
        l[i][i] = a[i][i] * a[i][i] + 0.5;
    }
    l
}
pub fn cholesky_large(a: M<5, 5>) -> (M<5, 5>, M<5, 5>) {
    let l = h_lower(a);
    (Matrix::new(h_mul(l, h_t(l))).cholesky().unwrap().lower().into_array(), l)
}
fn h_sparse6(a: [f64; 6], b: [f64; 6]) -> M<6, 6> {
    let mut l = h_diag(a.map(|x| x * x + 0.5));
    l[2][0] = b[0];
    l[3][1] = b[1];
    l[4][2] = b[2];
    l[5][0] = b[3];
    l[5][3] = b[4];
    l[5][4] = b[5];
    l
}
pub fn cholesky_solve_large(a: [f64; 6], b: [f64; 6], c: [f64; 6]) -> (([f64; 6], f64), ([f64; 6], f64)) {
    let l = h_sparse6(a, b);
    let m = h_mul(l, h_t(l));
    let f = Matrix::new(m).cholesky().unwrap();
    let mut d = 1.0;
    for i in 0..6 {
        d *= l[i][i] * l[i][i];
    }
    ((h_mv(m, f.solve(Vector::new(c)).into_array()), f.determinant()), (c, d))
}
/// rows of a lower-triangular matrix with unit diagonal and small multipliers, scaled and shuffled
pub fn lu_large(a: [f64; 6], b: [f64; 6]) -> ((f64, [f64; 6]), (f64, [f64; 6])) {
    let mut u = h_diag(a.map(|x| x * x + 0.5));
    u[0][3] = b[0];
    u[1][4] = b[1];
    u[2][5] = b[2];
    u[3][4] = b[3];
    u[1][2] = b[4];
    let mut l = h_id::<6>();
    l[2][0] = 0.5;
    l[3][0] = -0.25;
    l[4][1] = -0.5;
    l[5][3] = 0.5;
    l[5][2] = 0.75;
    let m = h_mul(l, u);
    let rows = [m[4], m[0], m[5], m[1], m[2], m[3]];
    let f = Matrix::new(rows).lu_decompose().unwrap();
    let mut d = 1.0;
    for i in 0..6 {
        d *= u[i][i];
    }
    // row order 4 0 5 1 2 3 is two swaps short of sorted plus one: its sign is -1 to the number of inversions (4,0)(4,1)(4,2)(4,3)(5,1)(5,2)(5,3)
    ((f.determinant(), h_mv(rows, f.solve(Vector::new(b)).into_array())), (-d, b))
}
pub fn determinant_large_permuted(a: [f64; 6]) -> (f64, f64) {
    let a = a.map(|x| x * x + 0.5);
    let mut m = [[0.0; 6]; 6];
    for i in 0..6 {
        m[i][(i + 1) % 6] = if i % 2 == 0 { a[i] } else { -a[i] };
    }
    // a 6-cycle is odd, three entries are negative
    (Matrix::new(m).determinant(), a[0] * a[1] * a[2] * a[3] * a[4] * a[5])
}
pub fn inverse_large_permuted(a: [f64; 6]) -> (M<6, 6>, M<6, 6>) {
    let a = a.map(|x| x * x + 0.5);
    let (mut m, mut w) = ([[0.0; 6]; 6], [[0.0; 6]; 6]);
    for i in 0..6 {
        let (j, s) = ((i + 2) % 6, if i < 3 { a[i] } else { -a[i] });
        m[i][j] = s;
        w[j][i] = 1.0 / s;
    }
    (Matrix::new(m).inverse().unwrap().into_array(), w)
}
// a tall system up to a scale
fn h_tall(s: f64) -> M<4, 3> {
    [[2.0, 4.0, 2.0].map(|x| x * s), [2.0, -7.0, 3.0].map(|x| x * s), [1.0, 4.0, -6.0].map(|x| x * s), [0.0, 0.0, 0.0]]
}
pub fn qr_large_least_squares(s: f64, b: [f64; 4]) -> ([f64; 3], [f64; 3]) {
    let a = h_tall(s * s + 0.5);
    let x = PivotedQr::decompose(Matrix::new(a)).unwrap().solve_least_squares(Vector::new(b)).unwrap().into_array();
    (h_mv(h_t(a), h_mv(a, x)), h_mv(h_t(a), b))
}
pub fn qr_large_reconstruct(s: f64) -> (M<4, 3>, M<4, 3>) {
    let a = h_tall(s * s + 0.5);
    let f = PivotedQr::decompose(Matrix::new(a)).unwrap();
    let p = f.permutation();
    (h_mul(f.orthogonal().into_array(), f.triangular().into_array()), h_t(h_perm(h_t(a), p)))
}
pub fn qr_large_damped(s: f64, b: [f64; 4], d: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let a = h_tall(s * s + 0.5);
    let (x, _) = PivotedQr::decompose(Matrix::new(a)).unwrap().into_damped(Vector::new(b)).solve_with_diagonal(&d);
    let x = x.into_array();
    let t = h_mv(h_t(a), h_mv(a, x));
    ([0, 1, 2].map(|i| t[i] + d[i] * d[i] * x[i]), h_mv(h_t(a), b))
}
/// two coupled pairs with known eigenvalues 9, 6, 3 and -2, up to a scale
fn h_pairs(s: f64) -> M<4, 4> {
    // rows/columns 0 and 2: eigenvalues 9 and -2 along (2,1) and (-1,2); 1 and 3: 6 and 3 along (1,1) and (1,-1)
    let (a, b, c) = ((4.0 * 9.0 - 2.0) / 5.0, (2.0 * 9.0 + 4.0) / 5.0, (9.0 - 8.0) / 5.0);
    [[a, 0.0, b, 0.0], [0.0, 4.5, 0.0, 1.5], [b, 0.0, c, 0.0], [0.0, 1.5, 0.0, 4.5]].map(|r| r.map(|x| x * s))
}
pub fn eigen_large(s: f64) -> (([f64; 4], M<4, 4>), ([f64; 4], M<4, 4>)) {
    let s = s * s + 0.5;
    let m = h_pairs(s);
    let f = Matrix::new(m).symmetric_eigendecomposition().unwrap();
    let v = f.eigenvectors().into_array();
    let e = f.eigenvalues().into_array();
    ((e, h_mul(m, v)), ([9.0 * s, 6.0 * s, 3.0 * s, -2.0 * s], h_mul(v, h_diag(e))))
}
pub fn eigen_large_derived(s: f64) -> bool {
    let s = s * s + 0.5;
    let f = Matrix::new(h_pairs(s)).symmetric_eigendecomposition().unwrap();
    !f.is_positive_definite() && f.condition_number() == 4.5
}
pub fn eigen_large_orthogonal(s: f64) -> (M<4, 4>, M<4, 4>) {
    let v = Matrix::new(h_pairs(s * s + 0.5)).symmetric_eigendecomposition().unwrap().eigenvectors().into_array();
    (h_mul(h_t(v), v), h_id())
}
// columns along (2,2,1), (1,-2,2), (-2,1,2) of lengths 3, 9 and 6
fn h_orth(s: f64) -> M<4, 3> {
    [[2.0, 3.0, -4.0].map(|x| x * s), [2.0, -6.0, 2.0].map(|x| x * s), [0.0, 0.0, 0.0], [1.0, 6.0, 4.0].map(|x| x * s)]
}
/// the squares the decomposition takes roots of, so the roots have names
fn h_squares(s: f64) {
    assume(s > 0.0);
    for k in [3.0, 9.0, 6.0] {
        assume(k * s * (k * s) > 0.0);
    }
    for k in [27.0, 54.0, 18.0] {
        assume(k * s * s * (k * s * s) > 0.0);
    }
}
pub fn svd_large(s: f64, b: [f64; 4]) -> (([f64; 3], [f64; 3], M<4, 3>), ([f64; 3], [f64; 3], M<4, 3>)) {
    h_squares(s);
    let a = h_orth(s);
    let f = Matrix::new(a).svd().unwrap();
    let e = f.singular_values().into_array();
    let us = h_mul(f.left().into_array(), h_diag(e));
    ((e, h_mv(h_t(a), h_mv(a, f.solve(Vector::new(b)).into_array())), h_mul(us, h_t(f.right().into_array()))), ([9.0 * s, 6.0 * s, 3.0 * s], h_mv(h_t(a), b), a))
}
pub fn svd_large_wide(s: f64) -> (M<3, 3>, M<3, 3>) {
    h_squares(s);
    let a = h_t(h_orth(s));
    (h_mul(a, Matrix::new(a).pseudo_inverse().unwrap().into_array()), h_id())
}
pub fn svd_rank_large(s: f64) -> bool {
    let s = s * s + 0.5;
    let f = Matrix::new([[3.0 * s, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, -4.0 * s], [0.0, 0.0, 0.0]]).svd().unwrap();
    let e = f.singular_values();
    e[0] == 4.0 * s && e[1] == 3.0 * s && e[2] == 0.0 && f.rank(3.5 * s) == 1 && f.rank(0.1 * s) == 2 && f.condition_number() == f64::INFINITY
}
/// dropping the null direction: the solution of least length
pub fn svd_min_norm(s: f64, b: [f64; 3]) -> ([f64; 2], [f64; 2]) {
    let s = s * s + 0.5;
    let a = [[s, s], [2.0 * s, 2.0 * s], [2.0 * s, 2.0 * s]];
    let k = (b[0] + 2.0 * b[1] + 2.0 * b[2]) / (18.0 * s);
    (Matrix::new(a).svd().unwrap().solve(Vector::new(b)).into_array(), [k, k])
}
