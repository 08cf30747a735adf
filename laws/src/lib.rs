//! Laws that multicalc must obey, written as functions over its public API.  Nothing here is ever executed: rustc
//! type-checks them against /repo's current source, and /verif/lib/vn.py numbers the values of their MIR.
//! A law returns a pair whose two components must get the same value number, or a bool that must fold to true, on
//! every path that returns.  `opaque_*` functions are uninterpreted, `h_*` functions are helpers.
#![allow(clippy::all)]

#[inline]
pub fn h_assume(c: bool) {
    if !c {
        panic!()
    }
}

macro_rules! modules {
    ($($f:literal $m:ident),* $(,)?) => { $( #[cfg(feature = $f)] pub mod $m; )* };
}
modules! {
    "cloud" cloud,
    "reach" reach,
    "signals" signals,
    "fields" fields,
    "motion" motion,
    "fitting" fitting,
    "roots" roots,
    "control" control,
    "estimation" estimation,
    "quadrature" quadrature,
    "ode" ode,
    "mechanics" mechanics,
    "lie" lie,
    "linalg" linalg,
    "derivatives" derivatives,
    "forward_mode" forward_mode,
}
