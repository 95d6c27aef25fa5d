//! Comparison of a returned property with the reference, relative to the property's own scale.
use crate::refm::*;

/// natural magnitude below which differences count as absolute
pub fn scale(o: i32, st: &St) -> f64 {
    let rt = R * st.T;
    match o {
        1 => 273.15,
        4 | 6 | 7 | 12 | 13 => rt,
        5 => R,
        14 => 0.0,
        17 | 31 | 35 => 1.0 / st.T,
        19 => st.v / st.T,
        21 => 1e-5 * R / st.v,
        22 => 1000.0 * (st.v + st.T * st.dvdt.abs()),
        23 => 1000.0 * (st.v + st.T * st.dvdt.abs()) / st.cp.abs(),
        30 => 1.0,
        29 => 1e-3,
        _ => 0.0,
    }
}
/// round-off amplification of property `o` at this state: ill-conditioned spots are the critical
/// region (kT and cp diverge), d v/d T -> 0 near 4 degC, exp(g/RT)
pub fn amp(o: i32, st: &St) -> f64 {
    let base = match st.reg {
        3 => {
            // 1/(kT p): relative loss in dp/drho
            let kt = -st.dvdp / st.v;
            let a = 1.0 + (kt * st.p).abs() + st.cp.abs() / 20.0;
            if a.is_finite() {
                a.min(1e12)
            } else {
                1e12
            }
        }
        _ => 1.0,
    };
    match o {
        33 | 34 => base * (1.0 + (st.g / (R * st.T)).abs()),
        10 | 11 => base * 4.0,
        // derivatives of the residual part near ideal-gas behaviour
        22 | 23 if st.reg == 2 || st.reg == 5 => {
            let z = 1000.0 * st.p * st.v / (R * st.T);
            base * (1.0 + 1e-2 / (1.0 - z).abs().max(1e-14)).min(1e6)
        }
        _ => base,
    }
}
pub fn ok(o: i32, got: f64, want: f64, st: &St, tol: f64) -> bool {
    if !got.is_finite() || !want.is_finite() {
        return false;
    }
    (got - want).abs() <= tol * amp(o, st) * (want.abs() + scale(o, st))
}
pub fn rel(a: f64, b: f64) -> f64 {
    (a - b).abs() / b.abs().max(1e-300)
}
