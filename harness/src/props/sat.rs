//! C04 C05 C11 C12: the saturation line and wet steam
use super::pt::{subs3, BASIC, EXT, TRANS};
use crate::cmp::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use seuif97 as s97;

fn g_tx() -> BoxedStrategy<Case> {
    tx_sat().prop_map(|(t, x)| case(&[t, x], &[])).boxed()
}
/// K from the Celsius argument exactly as a caller's value is meant, kept inside the range
fn kel(t: f64) -> f64 {
    t + 273.15
}
fn in_range(T: f64) -> bool {
    T >= 273.15 && T <= TC
}
fn zone(T: f64) -> &'static str {
    if T <= 623.15 {
        "T<=623.15K"
    } else if T <= 643.15 {
        "623.15..643.15K"
    } else {
        "643.15K..Tc"
    }
}
/// saturated liquid/vapour candidates: two when an interval limit is within round-off
pub fn sat_cands(p: f64, T: f64, vap: bool) -> Vec<St> {
    let mut r: Vec<St> = vec![];
    let f = |p: f64, T: f64, reg3f: bool, key: f64| -> St {
        if !reg3f {
            if vap {
                reg2(p, T)
            } else {
                reg1(p, T)
            }
        } else {
            let mut s = reg3(1.0 / v3sub(sub3_sat(key, vap), p, T), T);
            s.reg = 3;
            s
        }
    };
    let near = (T - 623.15).abs() < 1e-6;
    if T <= 623.15 || near {
        r.push(f(p, T, false, p));
    }
    if T > 623.15 || near {
        for k in [p, p * (1.0 - 1e-11), p * (1.0 + 1e-11)] {
            r.push(f(p, T, true, k));
        }
        // the critical point itself
        if (T - TC).abs() < 1e-6 || (p - PC).abs() < 1e-6 {
            r.push(reg3(DC, T));
        }
        // published roundings of the interval limits
        for lim in [P3CD, 19.00881, 20.5, 21.0434, 21.04336731897525, 21.9316, 21.93161551, 21.9009, 21.90096265] {
            if (p - lim).abs() < 5e-5 {
                r.push(f(p, T, true, lim - 1e-4));
                r.push(f(p, T, true, lim + 1e-4));
            }
        }
    }
    r
}

// ---------------------------------------------------------------- C04
fn satline(c: &Case) -> Out {
    let (t, x) = (c.f[0], c.f[1]);
    let T = kel(t);
    if !in_range(T) {
        let g = s97::tx(t, x, 0);
        if T < 273.15 - 1e-9 || T > TC + 1e-9 {
            return if g == -9999.0 { Out::Ok("outside") } else { Out::Fail(format!("tx(t={t:?}, x={x:?}, p) = {g:?} outside the range of temperature")) };
        }
        return Out::Skip;
    }
    let p = s97::tx(t, x, 0);
    if !(rel(p, psat(T)) <= 1e-9) {
        return Out::Fail(format!("tx(t={t:?}, x={x:?}, p) = {p:?}, IF97 saturation pressure {:?}", psat(T)));
    }
    if p > PC || p < PMIN {
        // the pressure of the end points rounds to the outside of the range
        return if p > PC * (1.0 + 1e-6) || p < PMIN * (1.0 - 1e-6) { Out::Fail(format!("tx(t={t:?}, x={x:?}, p) = {p:?}")) } else { Out::Skip };
    }
    let tb = s97::px(p, x, 1);
    if !((tb - t).abs() <= 2e-8) {
        return Out::Fail(format!("px(tx(t={t:?}, x={x:?}, p)={p:?}, x, t) = {tb:?}"));
    }
    if !((tb + 273.15 - tsat(p)).abs() <= 1e-9) {
        return Out::Fail(format!("px(p={p:?}, x={x:?}, t) = {tb:?}, IF97 saturation temperature {:?}", tsat(p) - 273.15));
    }
    let pb = s97::tx(tb.min(k2c(TC)).max(0.0), x, 0);
    if !(rel(pb, p) <= 1e-9) {
        return Out::Fail(format!("tx(px(p={p:?}, x={x:?}, t)={tb:?}, x, p) = {pb:?}"));
    }
    for q in [0.0, 1.0, 0.37] {
        if s97::tx(t, q, 0) != p || s97::px(p, q, 1) != tb {
            return Out::Fail(format!("saturation pressure/temperature at t={t:?} depends on the quality ({x:?} or {q:?})"));
        }
    }
    Out::Ok(zone(T))
}
fn satmono(c: &Case) -> Out {
    let (a, b) = (c.f[0].min(c.f[1]), c.f[0].max(c.f[1]));
    if !(in_range(kel(a)) && in_range(kel(b)) && b - a > 1e-7) {
        return Out::Skip;
    }
    let (pa, pb) = (s97::tx(a, 0.0, 0), s97::tx(b, 0.0, 0));
    if !(pb > pa) {
        return Out::Fail(format!("saturation pressure does not increase: tx({a:?}) = {pa:?}, tx({b:?}) = {pb:?}"));
    }
    if pa < PMIN || pb > PC {
        return Out::Skip;
    }
    let (ta, tb) = (s97::px(pa, 1.0, 1), s97::px(pb, 1.0, 1));
    if !(tb > ta) {
        return Out::Fail(format!("saturation temperature does not increase: px({pa:?}) = {ta:?}, px({pb:?}) = {tb:?}"));
    }
    Out::Ok(zone(kel(b)))
}
fn psat_range(c: &Case) -> Out {
    let (p, x) = (c.f[0], c.f[1]);
    let g = s97::px(p, x, 1);
    if p < PMIN * (1.0 - 1e-12) || p > PC || !(x >= 0.0 && x <= 1.0) {
        if x.is_nan() || p.is_nan() {
            return Out::Skip;
        }
        return if g == -9999.0 { Out::Ok("outside") } else { Out::Fail(format!("px(p={p:?}, x={x:?}, t) = {g:?} outside the range")) };
    }
    if !(p >= PMIN) {
        return Out::Skip;
    }
    if !((g + 273.15 - tsat(p)).abs() <= 1e-9) {
        return Out::Fail(format!("px(p={p:?}, x={x:?}, t) = {g:?}, IF97 {:?}", tsat(p) - 273.15));
    }
    let (pb, want) = (s97::tx(g.clamp(0.0, k2c(TC)), x, 0), p);
    if !(rel(pb, want) <= 1e-9) {
        return Out::Fail(format!("tx(px(p={p:?}, x={x:?}, t)) = {pb:?}"));
    }
    Out::Ok(zone(g + 273.15))
}
pub fn c04() -> Prop {
    Prop {
        id: "C04",
        assumptions: &["the reference saturation equations of /verif/harness/src/refm.rs"],
        setup: Some(crate::selfcheck::check),
        subs: vec![
            Sub {
                name: "inverse",
                rule: "(t,x) along the whole line, near its ends and interval limits, and outside it; non-trivial = on the line with both directions compared, or outside it and refused",
                gen: || prop_oneof![9 => tx_sat(), 1 => (unit().prop_map(|u| lerp(-50.0, 500.0, u)), unit())].prop_map(|(t, x)| case(&[t, x], &[])).boxed(),
                check: satline,
                quick: 4_000_000,
                deep: 80_000_000,
            },
            Sub {
                name: "pressure",
                rule: "(p,x) log-uniform over and beyond the line's pressures; non-trivial = inside and inverted, or outside and refused",
                gen: || {
                    (prop_oneof![6 => unit().prop_map(|u| loglerp(PMIN, PC, u)), 4 => unit().prop_map(|u| lerp(PMIN, PC, u)), 1 => unit().prop_map(|u| lerp(PC, 30.0, u)), 1 => unit().prop_map(|u| loglerp(1e-8, PMIN, u)),
                        2 => (0..4usize, tiny()).prop_map(|(k, e)| [PMIN, PC, P623, 21.0434][k] * (1.0 + 0.01 * e))], prop_oneof![5 => unit(), 1 => -1.0..2.0f64])
                        .prop_map(|(p, x)| case(&[p, x], &[]))
                        .boxed()
                },
                check: psat_range,
                quick: 4_000_000,
                deep: 80_000_000,
            },
            Sub {
                name: "monotone",
                rule: "pairs of temperatures at distances 1e-7 K .. the whole range; non-trivial = both on the line",
                gen: || {
                    (tx_sat(), prop_oneof![3 => tx_sat().prop_map(|a| a.0), 5 => (0.0..7.0f64).prop_map(|k| -(10f64.powf(-k)))])
                        .prop_map(|((t, _), d)| case(&[t, if d < 0.0 { t - d } else { d }], &[]))
                        .boxed()
                },
                check: satmono,
                quick: 3_000_000,
                deep: 50_000_000,
            },
        ],
    }
}

// ---------------------------------------------------------------- C05
const MIX: [i32; 8] = [2, 3, 4, 5, 6, 7, 12, 13];
fn mixval(o: i32, l: &St, v: &St, x: f64) -> f64 {
    let m = |k: i32| prop(l, k) + x * (prop(v, k) - prop(l, k));
    if o == 2 {
        1.0 / m(3)
    } else {
        m(o)
    }
}
fn mixok(o: i32, g: f64, w: f64, T: f64, tol: f64) -> bool {
    let sc = match o {
        4 | 6 | 7 | 12 | 13 => R * T,
        5 => R,
        _ => 0.0,
    };
    g.is_finite() && (g - w).abs() <= tol * (w.abs() + sc)
}
/// states at x = 0, x = 1 and in between through `call(x, o)`
fn sat_props(lab: String, p: f64, T: f64, x: f64, call: &dyn Fn(i32) -> f64) -> Out {
    if x == 0.0 || x == 1.0 {
        let cands = sat_cands(p, T, x == 1.0);
        let mut ids: Vec<i32> = BASIC.to_vec();
        ids.extend(EXT);
        ids.extend(TRANS);
        let crit = (T - TC).abs() < 1e-3; // derivatives diverge
        let mut why = String::new();
        'c: for st in &cands {
            for &o in &ids {
                let g = call(o);
                let w = prop(st, o);
                if crit && ![2, 3, 4, 5, 6, 7, 12, 13, 14].contains(&o) {
                    continue;
                }
                // the critical values are listed constants (4.41202148 / 2087.5468)
                let tol = if (T - TC).abs() < 1e-6 { 1e-4 } else if T > 646.0 { 1e-6 } else if T > 623.0 { 2e-8 } else { 1e-9 };
                let okk = if [6, 7, 12, 13, 4, 5].contains(&o) { mixok(o, g, w, T, tol) } else { ok(o, g, w, st, tol) };
                if !okk {
                    why = format!("{lab}, {}) = {g:?}, IF97 {w:?} (rel {:.2e})", NAMES[o as usize], rel(g, w));
                    continue 'c;
                }
            }
            return Out::Ok(if x == 0.0 { "x=0" } else { "x=1" });
        }
        return Out::Fail(why);
    }
    let (ls, vs) = (sat_cands(p, T, false), sat_cands(p, T, true));
    let mut why = String::new();
    let tol = if (T - TC).abs() < 1e-6 { 1e-3 } else if T > 646.0 { 1e-6 } else if T > 623.0 { 2e-8 } else { 1e-9 };
    let mut good = false;
    'm: for l in &ls {
        for v in &vs {
            let mut all = true;
            for o in MIX {
                let g = call(o);
                let w = mixval(o, l, v, x);
                if !mixok(o, g, w, T, tol) {
                    why = format!("{lab}, {}) = {g:?}, mixture of the saturated phases {w:?} (rel {:.2e})", NAMES[o as usize], rel(g, w));
                    all = false;
                    break;
                }
            }
            if all {
                good = true;
                break 'm;
            }
        }
    }
    if !good {
        return Out::Fail(why);
    }
    for o in [8, 9, 10, 11, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35] {
        let g = call(o);
        if g != -1000.0 {
            return Out::Fail(format!("{lab}, {}) = {g:?} for wet steam, where the library defines none (-1000)", NAMES[o as usize]));
        }
    }
    Out::Ok(zone(T))
}
fn tx_states(c: &Case) -> Out {
    let (t, x) = (c.f[0], c.f[1]);
    let T = kel(t);
    if !in_range(T) || !(0.0..=1.0).contains(&x) {
        return Out::Skip;
    }
    let p = psat(T);
    sat_props(format!("tx(t={t:?}, x={x:?}"), p, T, x, &|o| s97::tx(t, x, o))
}
fn px_states(c: &Case) -> Out {
    let (t, x) = (c.f[0], c.f[1]);
    let p = psat(kel(t).clamp(273.15, TC)).clamp(PMIN, PC);
    if !(0.0..=1.0).contains(&x) {
        return Out::Skip;
    }
    let T = tsat(p);
    sat_props(format!("px(p={p:?}, x={x:?}"), p, T, x, &|o| s97::px(p, x, o))
}
/// px and tx give the same state, and echo what they were given
fn pxtx(c: &Case) -> Out {
    let (t, x) = (c.f[0], c.f[1]);
    let T = kel(t);
    if !in_range(T) || !(0.0..=1.0).contains(&x) {
        return Out::Skip;
    }
    let p = s97::tx(t, x, 0);
    if s97::tx(t, x, 1) != t || s97::tx(t, x, 15) != x {
        return Out::Fail(format!("tx(t={t:?}, x={x:?}) does not return its own arguments"));
    }
    if p < PMIN || p > PC {
        return Out::Skip;
    }
    if s97::px(p, x, 0) != p || s97::px(p, x, 15) != x {
        return Out::Fail(format!("px(p={p:?}, x={x:?}) does not return its own arguments"));
    }
    // saturated states move with T: compare away from the interval limits and the critical point
    if T > 643.0 || (T - 623.15).abs() < 1e-6 || (p - P3CD).abs() < 1e-3 || (p - 20.5).abs() < 1e-3 {
        return Out::Trivial;
    }
    for o in MIX {
        let (a, b) = (s97::tx(t, x, o), s97::px(p, x, o));
        if !mixok(o, a, b, T, 1e-7) {
            return Out::Fail(format!("tx(t={t:?}, x={x:?}, {}) = {a:?} but px(p={p:?}, x, ..) = {b:?}", NAMES[o as usize]));
        }
    }
    Out::Ok(zone(T))
}
/// between the phases: v, s, h, u grow with x; the mixture lies between the phases; g is the same in both
fn lever(c: &Case) -> Out {
    let (t, x, y) = (c.f[0], c.f[1].min(c.f[2]), c.f[1].max(c.f[2]));
    let T = kel(t);
    if !in_range(T) || !(0.0..=1.0).contains(&x) || !(0.0..=1.0).contains(&y) || y - x < 1e-6 || T > TC - 0.05 {
        return Out::Skip;
    }
    for o in [3, 4, 5, 7] {
        let (l, a, b, v) = (s97::tx(t, 0.0, o), s97::tx(t, x, o), s97::tx(t, y, o), s97::tx(t, 1.0, o));
        if !(l <= a * (1.0 + 1e-12) + 1e-12 && a < b && b <= v * (1.0 + 1e-12)) {
            return Out::Fail(format!("tx(t={t:?}): {} at x=0,{x:?},{y:?},1: {l:?} {a:?} {b:?} {v:?} not increasing", NAMES[o as usize]));
        }
        let w = a + (b - a) * 0.5;
        let m = s97::tx(t, 0.5 * (x + y), o);
        if !((m - w).abs() <= 1e-9 * (w.abs() + v.abs())) {
            return Out::Fail(format!("tx(t={t:?}): {} is not linear in x at {:?}", NAMES[o as usize], 0.5 * (x + y)));
        }
    }
    let dg = (s97::tx(t, x, 13) - s97::tx(t, y, 13)).abs();
    // the g of the two phases agree within IF97's inconsistency of the saturation line
    if dg > 0.12 {
        return Out::Fail(format!("tx(t={t:?}, g) differs by {dg:?} kJ/kg between x={x:?} and {y:?}"));
    }
    Out::Ok(zone(T))
}
pub fn c05() -> Prop {
    Prop {
        id: "C05",
        assumptions: &["saturated phases are the region 1/2 equations up to 623.15 K and the region 3 equation with the published saturation subregions above", "within 1e-6 K of the critical point only agreement to 1e-4 is required"],
        setup: Some(crate::selfcheck::check),
        subs: vec![
            Sub { name: "tx", rule: "(t,x) over the line incl. x=0 and x=1 and interval limits; every property id compared; non-trivial = inside the range", gen: g_tx, check: tx_states, quick: 1_500_000, deep: 25_000_000 },
            Sub { name: "px", rule: "as tx, entered by pressure", gen: g_tx, check: px_states, quick: 1_500_000, deep: 25_000_000 },
            Sub { name: "px=tx", rule: "same state entered by p and by t; non-trivial = away from the near-critical zone", gen: g_tx, check: pxtx, quick: 1_500_000, deep: 20_000_000 },
            Sub { name: "lever", rule: "(t, x, y); non-trivial = two distinct qualities more than 0.05 K below the critical temperature", gen: || (tx_sat(), unit()).prop_map(|((t, x), y)| case(&[t, x, y], &[])).boxed(), check: lever, quick: 1_000_000, deep: 15_000_000 },
        ],
    }
}

// ---------------------------------------------------------------- C11
struct Mix {
    p: f64,
    T: f64,
    l: St,
    v: St,
}
fn mix_at(p: f64, T: f64) -> Mix {
    let mut l = sat_liq(p, T);
    let mut v = sat_vap(p, T);
    l.p = p;
    v.p = p;
    Mix { p, T, l, v }
}
const PAIRS: [&str; 7] = ["ph", "ps", "pv", "tv", "th", "ts", "hs"];
pub fn wet(c: &Case) -> Out {
    let (t, x, k) = (c.f[0], c.f[1], c.i[0] as usize % 7);
    let T0 = kel(t);
    if !in_range(T0) || !(x > 0.0 && x < 1.0) {
        return Out::Skip;
    }
    // the interval limits above 643.15 K carry the 0.1 %..2 % steps of the near-critical equations
    if T0 > 643.1 {
        return wet_crit(c);
    }
    if (T0 - 623.15).abs() < 1e-3 {
        return Out::Skip;
    }
    let p = psat(T0).clamp(PMIN, PC);
    let bt = k == 3 || k == 4 || k == 5;
    let T = if bt { T0 } else { tsat(p) };
    if (p - P3CD).abs() < 1e-4 || (p - 20.5).abs() < 1e-4 {
        return Out::Skip;
    }
    let m = mix_at(p, T);
    let y = match k {
        0 | 4 => mixval(4, &m.l, &m.v, x),
        1 | 5 => mixval(5, &m.l, &m.v, x),
        2 | 3 => mixval(3, &m.l, &m.v, x),
        _ => mixval(5, &m.l, &m.v, x),
    };
    let h = mixval(4, &m.l, &m.v, x);
    if k == 6 && T < 273.15 + 1e-7 {
        return Out::Skip;
    }
    // distance from the boundary of the region that the published boundary equations need
    let edge = x.min(1.0 - x);
    let need = if T > 623.15 { 3e-3 } else if k == 6 { 1e-3 } else { 1e-6 };
    if edge < need {
        return Out::Skip;
    }
    let (a, f): (f64, Box<dyn Fn(i32) -> f64>) = match k {
        0 => (p, Box::new(move |o| s97::ph(p, y, o))),
        1 => (p, Box::new(move |o| s97::ps(p, y, o))),
        2 => (p, Box::new(move |o| s97::pv(p, y, o))),
        3 => (t, Box::new(move |o| s97::tv(t, y, o))),
        4 => (t, Box::new(move |o| s97::th(t, y, o))),
        5 => (t, Box::new(move |o| s97::ts(t, y, o))),
        _ => (h, Box::new(move |o| s97::hs(h, y, o))),
    };
    let lab = format!("{}({a:?}, {y:?}", PAIRS[k]);
    let r = f(16);
    if r != 4.0 {
        // the same (t,h) or (t,s) may also be compressed water; then that state must be a true one
        if (k == 4 || k == 5) && r == 1.0 {
            let pp = f(0);
            if pp >= psat(T) * (1.0 - 1e-6) && pp <= 100.0 {
                let st = reg1(pp, T);
                let e = if k == 4 { (st.h - y).abs() } else { (st.s - y).abs() };
                if e < 1e-6 {
                    return Out::Trivial;
                }
            }
        }
        return Out::Fail(format!("{lab}, region) = {r:?} for wet steam of t={:?}, x={x:?}", T - 273.15));
    }
    let pt_ok = (1e-9, 1e-9);
    // hs solves for T: tolerance of the published T(h,s) equation
    let hs = k == 6;
    let (tp, tt) = if hs { (1e-4, 1e-3) } else { pt_ok };
    let (gp, gt) = (f(0), f(1));
    if !(rel(gp, p) <= tp) || !((gt + 273.15 - T).abs() <= tt) {
        return Out::Fail(format!("{lab}): p={gp:?} t={gt:?} for wet steam of p={p:?} t={:?} x={x:?}", T - 273.15));
    }
    let gx = f(15);
    let cond = match k {
        0 | 4 | 6 => (m.l.h.abs() + m.v.h.abs()) / (m.v.h - m.l.h),
        1 | 5 => (m.l.s.abs() + m.v.s.abs()) / (m.v.s - m.l.s),
        _ => (m.v.v + m.l.v) / (m.v.v - m.l.v),
    };
    let tx = if hs { 2e-5 } else { 1e-10 } * cond.abs().max(1.0);
    if !((gx - x).abs() <= tx) {
        return Out::Fail(format!("{lab}, x) = {gx:?} for wet steam of quality {x:?} (allowed {tx:.1e})"));
    }
    for o in MIX {
        let g = f(o);
        let w = mixval(o, &m.l, &m.v, x);
        let tol = if hs { 2e-4 } else { 1e-8 };
        if !mixok(o, g, w, T, tol) {
            return Out::Fail(format!("{lab}, {}) = {g:?}, wet steam of x={x:?} has {w:?} (rel {:.2e})", NAMES[o as usize], rel(g, w)));
        }
    }
    for o in [8, 9, 10, 24, 26, 18] {
        let g = f(o);
        if g != -1000.0 {
            return Out::Fail(format!("{lab}, {}) = {g:?} for wet steam, where the library defines none (-1000)", NAMES[o as usize]));
        }
    }
    Out::Ok(PAIRS[k])
}
/// 643.15 K .. Tc: self-consistency of what is returned
fn wet_crit(c: &Case) -> Out {
    let (t, x, k) = (c.f[0], c.f[1], c.i[0] as usize % 7);
    let T = kel(t);
    if T > 646.0 || x < 0.1 || x > 0.9 {
        return Out::Skip;
    }
    let p = s97::tx(t, 0.5, 0);
    let o = [4, 5, 3, 3, 4, 5, 5][k];
    let h = s97::tx(t, x, 4);
    let y = if k < 3 { s97::px(p, x, o) } else { s97::tx(t, x, o) };
    let f = |q: i32| match k {
        0 => s97::ph(p, y, q),
        1 => s97::ps(p, y, q),
        2 => s97::pv(p, y, q),
        3 => s97::tv(t, y, q),
        4 => s97::th(t, y, q),
        5 => s97::ts(t, y, q),
        _ => s97::hs(h, y, q),
    };
    let lab = format!("{}({:?}, {y:?})", PAIRS[k], if k < 3 { p } else if k == 6 { h } else { t });
    if f(16) != 4.0 {
        return Out::Fail(format!("{lab}: region {:?} for wet steam of t={t:?} x={x:?}", f(16)));
    }
    if k == 6 {
        // T is solved for, and the saturated states step
        if !((f(15) - x).abs() < 0.01) || !((f(1) - t).abs() < 0.1) || !((s97::px(f(0), f(15), 4) - h).abs() < 0.01) || !((s97::px(f(0), f(15), 5) - y).abs() < 2e-3) {
            return Out::Fail(format!("{lab}: p={:?} t={:?} x={:?} for wet steam of t={t:?} x={x:?}", f(0), f(1), f(15)));
        }
        return Out::Ok("hs near critical");
    }
    if !((f(15) - x).abs() < 1e-7) {
        return Out::Fail(format!("{lab}: x = {:?} for wet steam of x={x:?}", f(15)));
    }
    if !((f(1) - t).abs() < 1e-7) || !(rel(f(0), p) < 1e-9) {
        return Out::Fail(format!("{lab}: p={:?} t={:?} for wet steam of p={p:?} t={t:?}", f(0), f(1)));
    }
    Out::Ok("near critical")
}
pub fn c11() -> Prop {
    Prop {
        id: "C11",
        assumptions: &["quality margins: 1e-6 below 623.15 K (1e-3 for hs), 3e-3 above, because the published region boundaries are approximations there; hs only below 623.15 K"],
        setup: Some(crate::selfcheck::check),
        subs: vec![Sub {
            name: "wet",
            rule: "(t,x,pair): v,h,s of the mixture from the reference model, fed to ph ps pv tv th ts hs; non-trivial = the library reports region 4 and everything is compared (a legitimate compressed-water answer of th/ts is trivial)",
            gen: || (tx_sat(), 0..7i64).prop_map(|((t, x), k)| case(&[t, x], &[k])).boxed(),
            check: wet,
            quick: 3_000_000,
            deep: 40_000_000,
        }],
    }
}

// ---------------------------------------------------------------- C12
/// the temperatures where the equations of the saturated phases change, and the property steps
fn at_step(t: f64) -> bool {
    let T = t + 273.15;
    if (T - 623.15).abs() < 1e-6 || T > TC - 2e-3 {
        return true;
    }
    T > 640.0 && T < TC && [P3CD, 19.00881, 19.0088, 20.5, 21.0434, 21.04336731897525, 21.9316, 21.93161551, 21.9009, 21.90096265].iter().any(|p| (psat(T) / p - 1.0).abs() < 1e-7)
}
fn yx_tol(tb: f64, isS: bool) -> f64 {
    if at_step(tb) {
        // inside of a step of y(T,x) no temperature has this value
        if isS { 5e-2 } else { 25.0 }
    } else if tb > 369.0 {
        if isS { 1e-7 } else { 1e-4 }
    } else if isS { 1e-8 } else { 1e-5 }
}
fn hx_sx(c: &Case) -> Out {
    let (t, x, isS) = (c.f[0], c.f[1], c.i[0] == 1);
    let T = kel(t);
    if !in_range(T) || T - 273.15 < 1e-7 || !(0.0..=1.0).contains(&x) {
        return Out::Skip;
    }
    let o = if isS { 5 } else { 4 };
    let y = s97::tx(t, x, o);
    let f = |q: i32| if isS { s97::sx(y, x, q) } else { s97::hx(y, x, q) };
    let nm = if isS { "sx" } else { "hx" };
    if f(o) != y || f(15) != x {
        return Out::Fail(format!("{nm}({y:?}, {x:?}) does not return its own arguments: {:?} {:?}", f(o), f(15)));
    }
    let tb = f(1);
    let near = T > 643.1;
    if at_step(t) && tb == -9999.0 {
        return Out::Trivial;
    }
    if !(tb >= -1e-9 && tb <= k2c(TC) + 1e-9) {
        return Out::Fail(format!("{nm}({y:?}, {x:?}, t) = {tb:?} although tx(t={t:?}, x) has this value"));
    }
    // y(T,x) need not be monotonic: the state found must reproduce y, whichever root it is
    let yb = s97::tx(tb.clamp(0.0, k2c(TC)), x, o);
    let tol = yx_tol(tb, isS);
    if !((yb - y).abs() <= tol) {
        return Out::Fail(format!("{nm}({y:?}, {x:?}, t) = {tb:?}, where the value is {yb:?}"));
    }
    let pb = f(0);
    if !(rel(pb, psat((tb + 273.15).clamp(273.15, TC))) <= 1e-7) {
        return Out::Fail(format!("{nm}({y:?}, {x:?}): p = {pb:?} t = {tb:?} not on the saturation line"));
    }
    if tb < 369.9 && pb >= PMIN {
        for q in MIX {
            if q == o {
                continue;
            }
            let (a, b) = (f(q), s97::tx(tb.clamp(0.0, k2c(TC)), x, q));
            if (tb - 350.0).abs() > 1e-6 && !mixok(q, a, b, tb + 273.15, 1e-6) {
                return Out::Fail(format!("{nm}({y:?}, {x:?}, {}) = {a:?} but tx at its temperature {tb:?} gives {b:?}", NAMES[q as usize]));
            }
        }
    }
    Out::Ok(if near { "near critical" } else if isS { "sx" } else { "hx" })
}
/// arbitrary (y,x): a number only where a state exists, and then that state
fn hx_any(c: &Case) -> Out {
    let (y, x, isS) = (c.f[0], c.f[1], c.i[0] == 1);
    let o = if isS { 5 } else { 4 };
    let nm = if isS { "sx" } else { "hx" };
    let tb = if isS { s97::sx(y, x, 1) } else { s97::hx(y, x, 1) };
    if tb < 0.0 && (tb + 9999.0).abs() < 1e-9 {
        return Out::Ok("refused");
    }
    if !(tb >= -1e-9 && tb <= k2c(TC) + 1e-9) {
        return Out::Fail(format!("{nm}({y:?}, {x:?}, t) = {tb:?}: neither an error value nor a saturation temperature"));
    }
    let yb = s97::tx(tb.clamp(0.0, k2c(TC)), x, o);
    let tol = yx_tol(tb, isS);
    if !((yb - y).abs() <= tol) {
        return Out::Fail(format!("{nm}({y:?}, {x:?}, t) = {tb:?}, where the value is {yb:?}"));
    }
    Out::Ok("found")
}
pub fn c12() -> Prop {
    Prop {
        id: "C12",
        assumptions: &["at 623.15 K and at the limits of the near-critical saturation equations y(T,x) has steps: within 1e-7 of these pressures and in the last 2 mK below the critical temperature a missing root is tolerated and the residual bound is 25 kJ/kg, 0.05 kJ/(kg K)"],
        setup: None,
        subs: vec![
            Sub { name: "roundtrip", rule: "(t,x,pair): y = tx(t,x,h|s), then hx/sx; non-trivial = a state found and compared", gen: || (tx_sat(), 0..2i64).prop_map(|((t, x), k)| case(&[t, x], &[k])).boxed(), check: hx_sx, quick: 300_000, deep: 6_000_000 },
            Sub {
                name: "any",
                rule: "(y,x) over and beyond the range of h and s; non-trivial = refused, or found and reproduced",
                gen: || {
                    (unit(), prop_oneof![4 => unit(), 1 => Just(0.0), 1 => Just(1.0), 1 => -0.5..1.5f64], 0..2i64)
                        .prop_map(|(u, x, k)| case(&[if k == 1 { lerp(-1.0, 10.0, u) } else { lerp(-50.0, 3000.0, u) }, x], &[k]))
                        .boxed()
                },
                check: hx_any,
                quick: 300_000,
                deep: 6_000_000,
            },
        ],
    }
}
#[allow(dead_code)]
fn _unused() {
    let _ = subs3(25.0, 650.0);
}
