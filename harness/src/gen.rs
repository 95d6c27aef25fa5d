//! Generators: proptest strategies for states, boundary-focused.
use crate::engine::{case, Case};
use crate::refm::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// [0,1] with the ends, and points near the ends at every scale
pub fn unit() -> BoxedStrategy<f64> {
    prop_oneof![
        24 => 0.0..1.0f64,
        2 => Just(0.0),
        1 => Just(-0.0),
        2 => Just(1.0),
        2 => (0.0..16.0f64).prop_map(|k| 10f64.powf(-k)),
        2 => (0.0..16.0f64).prop_map(|k| 1.0 - 10f64.powf(-k)),
    ]
    .boxed()
}
/// a relative offset: 0, or +-10^-k
pub fn tiny() -> BoxedStrategy<f64> {
    prop_oneof![
        1 => Just(0.0),
        6 => (1.0..16.0f64, any::<bool>()).prop_map(|(k, n)| { let d = 10f64.powf(-k); if n { -d } else { d } }),
    ]
    .boxed()
}
pub fn lerp(a: f64, b: f64, u: f64) -> f64 {
    if u >= 1.0 {
        b
    } else {
        a + (b - a) * u
    }
}
pub fn loglerp(a: f64, b: f64, u: f64) -> f64 {
    if u <= 0.0 {
        a
    } else if u >= 1.0 {
        b
    } else {
        (a.ln() + (b.ln() - a.ln()) * u).exp()
    }
}
pub fn k2c(t: f64) -> f64 {
    t - 273.15
}
/// clamp a Celsius temperature so that t + 273.15 stays in [a,b] K
pub fn pmax2(T: f64) -> f64 {
    if T <= 623.15 {
        psat(T)
    } else if T <= 863.15 {
        b23_p(T)
    } else {
        100.0
    }
}
fn mixp(a: f64, b: f64, u: f64, log: bool) -> f64 {
    if log {
        loglerp(a, b, u)
    } else {
        lerp(a, b, u)
    }
}
/// (p, t) in region 1
pub fn pt1() -> BoxedStrategy<(f64, f64)> {
    (unit(), unit(), any::<bool>())
        .prop_map(|(a, b, l)| {
            let t = lerp(0.0, 350.0, a);
            (mixp(psat((t + 273.15).min(TC)), 100.0, b, l), t)
        })
        .boxed()
}
pub fn pt2() -> BoxedStrategy<(f64, f64)> {
    (unit(), unit(), any::<bool>())
        .prop_map(|(a, b, l)| {
            let t = lerp(0.0, 800.0, a);
            (mixp(PMIN, pmax2(t + 273.15), b, l), t)
        })
        .boxed()
}
pub fn pt3() -> BoxedStrategy<(f64, f64)> {
    prop_oneof![
        // whole region, by T then p
        3 => (unit(), unit(), any::<bool>()).prop_map(|(a, b, l)| {
            let t = lerp(350.0, 590.0, a);
            (mixp(b23_p(t + 273.15), 100.0, b, l), t)
        }),
        // by p then T: the many small subregions below 40 MPa
        4 => (unit(), unit()).prop_map(|(a, b)| {
            let p = lerp(P623, 40.0, a);
            (p, lerp(350.0, k2c(b23_t(p)), b))
        }),
        // near-critical
        3 => (unit(), unit()).prop_map(|(a, b)| (lerp(20.5, 24.0, a), lerp(365.0, 385.0, b))),
        1 => (tiny(), tiny()).prop_map(|(a, b)| (PC * (1.0 + a), k2c(TC * (1.0 + b)))),
        // subregion boundary lines
        4 => (0..BNDS.len(), unit(), tiny()).prop_map(|(k, a, e)| {
            let (n, lo, hi) = BNDS[k];
            let p = lerp(lo, hi, a);
            (p, k2c(bnd3(n, p) * (1.0 + 1e-3 * e)))
        }),
        1 => (0..P3LIM.len(), tiny(), unit()).prop_map(|(k, e, b)| {
            let p = P3LIM[k] * (1.0 + 1e-2 * e);
            (p, lerp(350.0, k2c(b23_t(p.max(P623))), b))
        }),
    ]
    .boxed()
}
pub const BNDS: [(&str, f64, f64); 19] = [
    ("ab", 25.0, 100.0), ("cd", 19.00881189173929, 40.0), ("ef", 22.064, 40.0), ("gh", 22.5, 25.0), ("ij", 22.5, 25.0), ("jk", 20.5, 25.0),
    ("mn", 22.5, 23.0), ("op", 22.5, 23.0), ("qu", 21.04336732, 22.5), ("rx", 21.04336732, 22.5), ("uv", 22.064, 22.5), ("wx", 22.064, 22.5),
    ("cd", 19.00881189173929, 23.5), ("ef", 22.064, 23.5), ("jk", 20.5, 23.5), ("qu", 21.9316, 22.11), ("rx", 21.9009, 22.11), ("uv", 22.064, 22.11),
    ("wx", 22.064, 22.11),
];
pub const P3LIM: [f64; 12] =
    [100.0, 40.0, 25.0, 23.5, 23.0, 22.5, 22.11, 22.064, 21.04336731897525, 20.5, 19.00881189173929, 16.5291642526045];
pub fn pt5() -> BoxedStrategy<(f64, f64)> {
    (unit(), unit(), any::<bool>()).prop_map(|(a, b, l)| (mixp(PMIN, 50.0, b, l), lerp(800.0, 2000.0, a))).boxed()
}
/// near the region boundaries and at the corners
pub fn pt_edges() -> BoxedStrategy<(f64, f64)> {
    prop_oneof![
        // saturation line
        3 => (unit(), tiny()).prop_map(|(a, e)| {
            let t = lerp(0.0, k2c(TC), a);
            (psat((t + 273.15).min(TC)) * (1.0 + e), t)
        }),
        // B23
        2 => (unit(), tiny()).prop_map(|(a, e)| {
            let t = lerp(350.0, 590.0, a);
            (b23_p(t + 273.15) * (1.0 + e), t)
        }),
        // isotherms that bound regions
        3 => (0..6usize, tiny(), unit(), any::<bool>()).prop_map(|(k, e, b, l)| {
            let t = [0.0, 350.0, 590.0, 800.0, 2000.0, 373.946][k] + 100.0 * e * if e.abs() < 1e-3 { 1.0 } else { 0.0 };
            (mixp(PMIN, 100.0, b, l), t)
        }),
        // isobars
        2 => (0..6usize, tiny(), unit()).prop_map(|(k, e, a)| {
            let p = [PMIN, 100.0, 50.0, P623, PC, 4.0][k] * (1.0 + e * if e.abs() < 1e-2 { 1.0 } else { 0.0 });
            (p, lerp(0.0, 2000.0, a))
        }),
    ]
    .boxed()
}
/// values people type
pub fn pt_round() -> BoxedStrategy<(f64, f64)> {
    (
        prop_oneof![(1..1000i32).prop_map(|k| k as f64 * 0.1), (1..1000i32).prop_map(|k| k as f64 * 0.001), (1..101i32).prop_map(|k| k as f64)],
        prop_oneof![4 => (0..2001i32).prop_map(|k| k as f64), 1 => (0..20001i32).prop_map(|k| k as f64 * 0.1), 1 => (274..2273i32).prop_map(|k| k as f64 - 273.15)],
    )
        .boxed()
}
/// every kind of (p, t) state, mostly inside the range of validity
pub fn pt_any() -> BoxedStrategy<(f64, f64)> {
    prop_oneof![4 => pt1(), 4 => pt2(), 5 => pt3(), 3 => pt5(), 4 => pt_edges(), 2 => pt_round()].boxed()
}
pub fn pt_case(s: BoxedStrategy<(f64, f64)>) -> BoxedStrategy<Case> {
    s.prop_map(|(p, t)| case(&[p, t], &[])).boxed()
}
/// (t, x) on the saturation line
pub fn tx_sat() -> BoxedStrategy<(f64, f64)> {
    (
        prop_oneof![
            6 => unit().prop_map(|a| lerp(0.0, k2c(TC), a)),
            2 => unit().prop_map(|a| lerp(350.0, k2c(TC), a)),
            1 => (tiny(), 0..5usize).prop_map(|(e, k)| (([273.15, 273.16, 623.15, 643.15, TC][k]) * (1.0 + e * 1e-2)).clamp(273.15, TC) - 273.15),
            1 => (0..374i32).prop_map(|k| k as f64),
        ],
        prop_oneof![
            4 => Just(0.0),
            4 => Just(1.0),
            12 => unit(),
            2 => (0..101i32).prop_map(|k| k as f64 * 0.01),
            // close to the saturated liquid and to the saturated steam
            1 => (1.0..15.9f64, any::<bool>()).prop_map(|(k, n)| if n { 1.0 - 10f64.powf(-k) } else { 10f64.powf(-k) }),
            1 => (1..16i32, any::<bool>()).prop_map(|(k, n)| if n { 1.0 - 10f64.powi(-k) } else { 10f64.powi(-k) }),
        ],
    )
        .boxed()
}
/// numbers that narrower integer types take for the small number `n`
pub fn alias(n: std::ops::Range<i64>) -> BoxedStrategy<i64> {
    (n, 0..4usize, 1..128i64, any::<bool>())
        .prop_map(|(n, j, k, s)| {
            let d = [1 << 8, 1 << 16, 1 << 24, 1 << 31][j] * if j == 3 { 1 } else { k };
            (if s { n - d } else { n + d }) as i32 as i64
        })
        .boxed()
}
/// wild doubles
pub fn wild() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => (-20.0..20.0f64, any::<bool>()).prop_map(|(k, n)| { let d = 10f64.powf(k); if n { -d } else { d } }),
        2 => -4000.0..4000.0f64,
        2 => 0.0..120.0f64,
        1 => any::<u64>().prop_map(f64::from_bits),
        1 => (0..16usize).prop_map(|k| [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1.0, -1.0, 273.15, 1e308, -273.15, 22.064, 373.946][k]),
    ]
    .boxed()
}
