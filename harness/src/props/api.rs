//! The twelve functions of the library behind one signature.
use crate::refm::*;
use seuif97 as s97;

pub const FN: [&str; 12] = ["pt", "ph", "ps", "hs", "pv", "tv", "th", "ts", "px", "tx", "hx", "sx"];
/// the ids of a function's own two arguments
pub const OWN: [[i32; 2]; 12] = [[0, 1], [0, 4], [0, 5], [4, 5], [0, 3], [1, 3], [1, 4], [1, 5], [0, 15], [1, 15], [4, 15], [5, 15]];
pub const ALL: [i32; 36] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35,
];
pub const ERR: [f64; 8] = [-9999.0, -1000.0, -2100.0, -2101.0, -2102.0, -2103.0, -2201.0, -2202.0];
pub fn is_err(x: f64) -> bool {
    ERR.contains(&x)
}
pub fn call(k: usize, a: f64, b: f64, o: i32) -> f64 {
    match k {
        0 => s97::pt(a, b, o),
        1 => s97::ph(a, b, o),
        2 => s97::ps(a, b, o),
        3 => s97::hs(a, b, o),
        4 => s97::pv(a, b, o),
        5 => s97::tv(a, b, o),
        6 => s97::th(a, b, o),
        7 => s97::ts(a, b, o),
        8 => s97::px(a, b, o),
        9 => s97::tx(a, b, o),
        10 => s97::hx(a, b, o),
        _ => s97::sx(a, b, o),
    }
}
pub fn call_r(k: usize, a: f64, b: f64, o: i32, r: i32) -> f64 {
    match k {
        0 => s97::pt(a, b, (o, r)),
        1 => s97::ph(a, b, (o, r)),
        2 => s97::ps(a, b, (o, r)),
        3 => s97::hs(a, b, (o, r)),
        4 => s97::pv(a, b, (o, r)),
        5 => s97::tv(a, b, (o, r)),
        6 => s97::th(a, b, (o, r)),
        7 => s97::ts(a, b, (o, r)),
        _ => call(k, a, b, o),
    }
}
/// the arguments of function k for a state (k < 8); x for k >= 8
pub fn args(k: usize, p: f64, t: f64, h: f64, s: f64, v: f64) -> (f64, f64) {
    match k {
        0 => (p, t),
        1 => (p, h),
        2 => (p, s),
        3 => (h, s),
        4 => (p, v),
        5 => (t, v),
        6 => (t, h),
        _ => (t, s),
    }
}
pub fn args_st(k: usize, p: f64, t: f64, st: &St) -> (f64, f64) {
    args(k, p, t, st.h, st.s, st.v)
}
pub fn lab(k: usize, a: f64, b: f64) -> String {
    format!("{}({a:?}, {b:?}", FN[k])
}
pub fn oname(o: i32) -> String {
    match NAMES.get(o as usize) {
        Some(n) => n.to_string(),
        None => o.to_string(),
    }
}
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
