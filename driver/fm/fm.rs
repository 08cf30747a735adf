//! Fourier-Motzkin infeasibility test with integer tightening; same algorithm as lib/lin.py.
use std::collections::HashMap;

fn gcd(mut a: i64, mut b: i64) -> i64 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a.abs()
}

type Row = (i128, Vec<i64>);

/// None: constant row that is fine; Some(Err): contradiction
fn norm(r: Row) -> Option<Result<Row, ()>> {
    let (c, mut v) = r;
    let mut g = 0i64;
    for &x in &v {
        if x != 0 {
            g = gcd(g, x);
            if g == 1 {
                return Some(Ok((c, v)));
            }
        }
    }
    if g == 0 {
        return if c < 0 { Some(Err(())) } else { None };
    }
    for x in v.iter_mut() {
        *x /= g;
    }
    Some(Ok((c.div_euclid(g as i128), v)))
}

const LIMIT: usize = 900;

fn solve(nv: usize, rows: Vec<Row>) -> bool {
    let mut work: HashMap<Vec<i64>, i128> = HashMap::new();
    let put = |w: &mut HashMap<Vec<i64>, i128>, r: Row| {
        let e = w.entry(r.1).or_insert(r.0);
        if *e > r.0 {
            *e = r.0;
        }
    };
    for r in rows {
        match norm(r) {
            None => {}
            Some(Err(())) => return true,
            Some(Ok(r)) => put(&mut work, r),
        }
    }
    let mut steps = 0;
    while !work.is_empty() {
        let mut pos = vec![0i64; nv];
        let mut neg = vec![0i64; nv];
        for k in work.keys() {
            for (i, &c) in k.iter().enumerate() {
                if c > 0 {
                    pos[i] += 1
                } else if c < 0 {
                    neg[i] += 1
                }
            }
        }
        let mut best: Option<(i64, usize)> = None;
        for i in 0..nv {
            if pos[i] + neg[i] > 0 {
                let cost = pos[i] * neg[i] - pos[i] - neg[i];
                if best.is_none() || cost < best.unwrap().0 {
                    best = Some((cost, i));
                }
            }
        }
        let t = match best {
            Some(b) => b.1,
            None => return false,
        };
        let mut p = vec![];
        let mut n = vec![];
        let mut r: HashMap<Vec<i64>, i128> = HashMap::with_capacity(work.len());
        for (k, c) in work.drain() {
            if k[t] > 0 {
                p.push((c, k));
            } else if k[t] < 0 {
                n.push((c, k));
            } else {
                r.insert(k, c);
            }
        }
        for (fc, f) in &p {
            for (gc, g) in &n {
                let (a, b) = (f[t], -g[t]);
                let l = gcd(a, b);
                let (kf, kg) = (b / l, a / l);
                let mut h = Vec::with_capacity(nv);
                let mut ovf = false;
                for i in 0..nv {
                    match f[i].checked_mul(kf).and_then(|x| g[i].checked_mul(kg).and_then(|y| x.checked_add(y))) {
                        Some(x) => h.push(x),
                        None => {
                            ovf = true;
                            break;
                        }
                    }
                }
                let c = fc.checked_mul(kf as i128).and_then(|x| gc.checked_mul(kg as i128).and_then(|y| x.checked_add(y)));
                if ovf || c.is_none() {
                    continue; // dropping a consequence is sound: fewer contradictions found
                }
                match norm((c.unwrap(), h)) {
                    None => {}
                    Some(Err(())) => return true,
                    Some(Ok(row)) => put(&mut r, row),
                }
            }
        }
        work = r;
        if work.len() > LIMIT {
            return false;
        }
        steps += 1;
        if steps > 200 {
            return false;
        }
    }
    false
}

use std::cell::RefCell;

type Sparse = (i128, Vec<(u32, i64)>);
thread_local! {
    static FACTS: RefCell<Vec<Sparse>> = const { RefCell::new(Vec::new()) };
}

/// registers a constraint, returns its id
/// # Safety
/// arrays must have the stated lengths
#[no_mangle]
pub unsafe extern "C" fn fm_register(n: u32, vars: *const u32, coefs: *const i64, clo: u64, chi: i64) -> u32 {
    let v = (0..n as usize).map(|i| (*vars.add(i), *coefs.add(i))).collect();
    FACTS.with(|f| {
        let mut f = f.borrow_mut();
        f.push((((chi as i128) << 64) | (clo as i128), v));
        (f.len() - 1) as u32
    })
}

/// # Safety
/// arrays must have the stated lengths
#[no_mangle]
pub unsafe extern "C" fn fm_query(n: u32, ids: *const u32) -> i32 {
    FACTS.with(|f| {
        let f = f.borrow();
        let mut vars: Vec<u32> = vec![];
        for i in 0..n as usize {
            for (t, _) in &f[*ids.add(i) as usize].1 {
                vars.push(*t);
            }
        }
        vars.sort_unstable();
        vars.dedup();
        let mut rows = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            let s = &f[*ids.add(i) as usize];
            let mut v = vec![0i64; vars.len()];
            for (t, c) in &s.1 {
                v[vars.binary_search(t).unwrap()] = *c;
            }
            rows.push((s.0, v));
        }
        solve(vars.len(), rows) as i32
    })
}
