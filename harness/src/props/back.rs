//! C06 C07 C08: (p,h) (p,s) (h,s)
use super::pt::{rname, sure_region, BASIC, EXT, TRANS};
use crate::cmp::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use proptest::prelude::*;
use seuif97 as s97;

#[derive(Clone, Copy, PartialEq)]
enum K {
    PH,
    PS,
    HS,
}
fn call(k: K, a: f64, b: f64, o: i32) -> f64 {
    match k {
        K::PH => s97::ph(a, b, o),
        K::PS => s97::ps(a, b, o),
        K::HS => s97::hs(a, b, o),
    }
}
fn kname(k: K) -> &'static str {
    ["ph", "ps", "hs"][k as usize]
}
fn near(x: f64, y: f64) -> bool {
    (x / y - 1.0).abs() < 1e-9
}
fn with_reg(mut s: St, r: i32) -> St {
    s.reg = r;
    s
}
/// states the published equations of region `g` assign to the input (more than one within round-off of a subregion boundary)
fn cands(k: K, g: i32, a: f64, b: f64) -> Vec<St> {
    let mut v = vec![];
    match k {
        K::PH | K::PS => {
            let (p, y) = (a, b);
            match g {
                1 => v.push(reg1(p, if k == K::PH { t1_ph(p, y) } else { t1_ps(p, y) })),
                2 => {
                    let (c, bnd) = if k == K::PH { (sub2_ph(p, y), p >= 6.5 && near(y, h2bc(p))) } else { (sub2_ps(p, y), near(y, 5.85)) };
                    let mut cs = vec![c];
                    if bnd && c != 'a' {
                        cs = vec!['b', 'c'];
                    }
                    if k == K::PH && (p / 6.5467 - 1.0).abs() < 1e-6 {
                        cs = vec!['b', 'c'];
                    }
                    if near(p, 4.0) {
                        cs.push('a');
                        cs.push('b');
                    }
                    // the 2bc line starts at 6.5467 MPa; above it in h the equation of 2b holds anyway
                    for c in cs {
                        v.push(reg2(p, if k == K::PH { t2_ph_sub(c, p, y) } else { t2_ps_sub(c, p, y) }));
                    }
                }
                3 => {
                    let (lim, isa) = if k == K::PH { (h3ab(p), y <= h3ab(p)) } else { (SC, y <= SC) };
                    let mut cs = vec![isa];
                    if near(y, lim) {
                        cs.push(!isa);
                    }
                    for c in cs {
                        let (T, vv) = if k == K::PH { (t3_ph_sub(c, p, y), v3_ph_sub(c, p, y)) } else { (t3_ps_sub(c, p, y), v3_ps_sub(c, p, y)) };
                        v.push(with_reg(reg3(1.0 / vv, T), 3));
                    }
                }
                _ => {}
            }
        }
        K::HS => {
            let (h, s) = (a, b);
            let mut ps = vec![];
            match g {
                1 => ps.push(p1_hs(h, s)),
                2 => {
                    let c = sub2_hs(h, s);
                    let mut cs = vec![c];
                    if near(s, 5.85) && c != 'a' {
                        cs = vec!['b', 'c'];
                    }
                    if near(h, h2ab_s(s)) {
                        cs.push('a');
                        cs.push(if s >= 5.85 { 'b' } else { 'c' });
                    }
                    for c in cs {
                        ps.push(p2_hs_sub(c, h, s));
                    }
                }
                3 => {
                    let isa = s <= SC;
                    ps.push(p3_hs_sub(isa, h, s));
                    if near(s, SC) {
                        ps.push(p3_hs_sub(!isa, h, s));
                    }
                }
                _ => {}
            }
            for p in ps {
                v.extend(cands(K::PH, g, p, h).into_iter().map(|mut st| {
                    if g != 3 {
                        st.p = p;
                    }
                    st
                }));
            }
        }
    }
    v
}
/// compare everything the pair returns with the state
fn compare(k: K, a: f64, b: f64, g: i32, sts: &[St]) -> Result<(), String> {
    let mut why = String::from("no equation for this region");
    'st: for st in sts {
        let mut ids: Vec<i32> = vec![1];
        ids.extend(BASIC);
        ids.extend(EXT);
        ids.extend(TRANS);
        for o in ids {
            // arguments are echoed
            if (k == K::PH && o == 4) || (k == K::PS && o == 5) || (k == K::HS && (o == 4 || o == 5)) {
                continue;
            }
            if o == 29 && (st.T > TC || g == 5) {
                continue;
            }
            let got = call(k, a, b, o);
            let want = prop(st, o);
            // the backward polynomials cancel: a little wider than the forward equations
            if !ok(o, got, want, st, 2e-8) {
                why = format!("{}({a:?}, {b:?}, {}) = {got:?}, IF97 region {g}: {want:?} (rel {:.2e})", kname(k), NAMES[o as usize], rel(got, want));
                continue 'st;
            }
        }
        if k == K::HS {
            let got = s97::hs(a, b, 0);
            let want = match g {
                3 => p3_hs_sub(if near(b, SC) { rel(got, p3_hs_sub(true, a, b)) < 1e-8 } else { b <= SC }, a, b),
                _ => st.p,
            };
            if !(rel(got, want) <= 2e-8) {
                why = format!("hs({a:?}, {b:?}, p) = {got:?}, IF97 region {g}: {want:?}");
                continue 'st;
            }
        }
        return Ok(());
    }
    Err(why)
}
/// a region g occurs within (rp, dT) of (p,T)
fn nearby(g: i32, p: f64, T: f64, rp: f64, dT: f64) -> bool {
    for a in [-1.0, -0.3, 0.0, 0.3, 1.0] {
        for b in [-1.0, -0.3, 0.0, 0.3, 1.0] {
            let (q, t) = ((p * (1.0 + a * rp)).clamp(PMIN, 100.0), (T + b * dT).clamp(273.15, 2273.15));
            if region_pt(q, t) == g {
                return true;
            }
        }
    }
    g == 4 && T < TC && {
        let d = rp + dT * 20.0 / T;
        (p / psat(T) - 1.0).abs() <= d
    }
}
fn from_state(k: K, c: &Case) -> Out {
    let (p, t) = (c.f[0], c.f[1]);
    let T = t + 273.15;
    let r = sure_region(p, T);
    if r == 0 {
        return Out::Skip;
    }
    let mut st = state_in(r, p, T);
    if r == 3 {
        // the exact state of the Helmholtz equation, unless the near-critical auxiliary equations are needed
        let v = v3_exact(p, T, st.v);
        if !((v / st.v - 1.0).abs() < 0.05) {
            return Out::Skip;
        }
        st = reg3(1.0 / v, T);
    }
    let (a, b) = match k {
        K::PH => (p, st.h),
        K::PS => (p, st.s),
        K::HS => (st.h, st.s),
    };
    let g = call(k, a, b, 16);
    let lab = format!("{}({a:?}, {b:?})", kname(k));
    if g < 0.0 {
        return Out::Fail(format!("{lab}: region {g:?} for the state p={p:?} t={t:?} of region {r}"));
    }
    let g = g as i32;
    if g != r {
        let (rp, dT) = match k {
            K::PH | K::PS => (if T > 623.0 && T < 650.0 { 5e-3 } else { 1e-7 }, 0.03),
            K::HS => (8e-3, 0.1),
        };
        // regions 2 and 5 overlap by up to 0.1 K
        let dT = if (T - 1073.15).abs() < 0.2 { 0.15 } else { dT };
        if !nearby(g, p, T, rp, dT) {
            return Out::Fail(format!("{lab}: region {g} for the state p={p:?} t={t:?} of region {r}"));
        }
    }
    // consistency with the state it came from
    let (gp, gT) = (call(k, a, b, 0), call(k, a, b, 1) + 273.15);
    if k != K::HS && gp != p {
        return Out::Fail(format!("{lab}: pressure {gp:?}"));
    }
    let (dh, ds) = if g == 4 {
        // wet steam: the mixture of the saturated phases
        let x = call(k, a, b, 15);
        let (q, tq) = (gp.clamp(PMIN, PC), gT.clamp(273.15, TC));
        let (l, v) = (sat_liq(q, tq), sat_vap(q, tq));
        if !(x > -0.6 && x < 1.6) {
            return Out::Fail(format!("{lab}: x = {x:?}"));
        }
        ((l.h + x * (v.h - l.h) - st.h).abs(), (l.s + x * (v.s - l.s) - st.s).abs())
    } else {
        let s2 = match g {
            3 => reg3(1.0 / call(k, a, b, 3), gT),
            1 => reg1(gp, gT),
            2 => reg2(gp, gT),
            _ => reg5(gp, gT),
        };
        (((s2.h - st.h).abs()), ((s2.s - st.s).abs()))
    };
    // published consistency requirements, with margin for the forward differences at the edges
    let (th, ts) = match (k, g) {
        (_, 5) if gT == 1073.15 => (0.1, 1e-4),
        (_, 5) => (2e-6, 1e-7),
        (K::HS, 4) => (2.0, 4e-3),
        (_, 4) => (4.0, 8e-3),
        (K::HS, _) => (0.5, 1e-3),
        (K::PH, _) => (0.5, 1e9),
        (K::PS, _) => (1e9, 6e-4),
    };
    let (th, ts) = match k {
        K::PH => (th, 1e9),
        K::PS => (1e9, ts),
        K::HS => (th, ts),
    };
    if !(dh <= th) || !(ds <= ts) {
        return Out::Fail(format!("{lab}: returned state p={gp:?} T={gT:?} region {g} misses the input by dh={dh:.3e} ds={ds:.3e} (from p={p:?} t={t:?})"));
    }
    // dT is ill-conditioned where cp diverges
    let dT = (gT - T).abs();
    let tT = if g == 5 && r == 2 { 0.15 } else if g == 5 { 1e-5 } else { 0.06 + if k == K::HS { 0.25 } else { 0.0 } };
    if !(dT <= tT) {
        return Out::Fail(format!("{lab}: T = {gT:?} for a state of T = {T:?} (p={p:?})"));
    }
    if k == K::HS && g != 4 && st.cp < 50.0 {
        let tp = if g == 5 && r == 2 { 3e-3 } else if g == 5 { 1e-6 } else if g == 2 { 3e-3 } else { 0.02 / p + 2e-3 };
        // liquid: p(h,s) is published to 0.015 MPa
        let tp = if g == 1 { 0.02 / p } else { tp };
        if !((gp / p - 1.0).abs() <= tp) {
            return Out::Fail(format!("{lab}: p = {gp:?} for a state of p = {p:?} (t={t:?})"));
        }
    }
    if g == 4 {
        return Out::Trivial;
    }
    let sts = if g == 5 { vec![reg5(gp, gT)] } else { cands(k, g, a, b) };
    match compare(k, a, b, g, &sts) {
        Ok(()) => Out::Ok(rname(g)),
        Err(e) => Out::Fail(e),
    }
}
fn ph_state(c: &Case) -> Out {
    from_state(K::PH, c)
}
fn ps_state(c: &Case) -> Out {
    from_state(K::PS, c)
}
fn hs_state(c: &Case) -> Out {
    from_state(K::HS, c)
}

/// limits of y at p
fn ylim(k: K, p: f64) -> (f64, f64) {
    let lo = reg1(p, 273.15);
    let hi = if p <= 50.0 { reg5(p, 2273.15) } else { reg2(p, 1073.15) };
    if k == K::PH {
        (lo.h, hi.h)
    } else {
        (lo.s, hi.s)
    }
}
/// the (p,y) plane, in and out of the range of validity
fn plane(k: K, c: &Case) -> Out {
    let (p, y) = (c.f[0], c.f[1]);
    let f = |o: i32| call(k, p, y, o);
    let lab = format!("{}({p:?}, {y:?})", kname(k));
    let scale = if k == K::PH { 1.0 } else { 1e-3 };
    if !p.is_finite() || !y.is_finite() {
        return Out::Skip;
    }
    let refuse = |why: &str| -> Out {
        for o in [16, 1, 3, 8, 24] {
            let g = f(o);
            if !(g < 0.0 && g <= -1000.0) {
                return Out::Fail(format!("{lab}, {}) = {g:?}, {why}", NAMES[o as usize]));
            }
        }
        Out::Ok("refused")
    };
    if p < PMIN * (1.0 - 1e-9) || p > 100.0 {
        return refuse("the pressure is outside the range");
    }
    if p < PMIN * (1.0 + 1e-9) {
        return Out::Skip;
    }
    let (lo, hi) = ylim(k, p);
    if y < lo - 1e-6 * scale || y > hi + 1e-6 * scale {
        return refuse("which no state of the range of validity has");
    }
    if y < lo + 1e-6 * scale || y > hi - 1e-6 * scale {
        return Out::Skip;
    }
    // between region 2 at 1073.15 K and the start of region 5 (published equations overlap by up to 0.05 kJ/kg there)
    let g = f(16);
    if !(g >= 1.0 && g <= 5.0) {
        return Out::Fail(format!("{lab}: region {g:?} inside the range of validity"));
    }
    let g = g as i32;
    // the region by comparing y with the values on the region boundaries at this pressure
    let yv = |s: &St| if k == K::PH { s.h } else { s.s };
    let w25 = yv(&reg2(p, 1073.15));
    let mut want = vec![];
    let tol = 1e-8 * (y.abs() + 1000.0 * scale);
    if y > w25 - tol && p <= 50.0 {
        want.push(5);
    }
    if y < w25 + tol || p > 50.0 {
        if p <= P623 * (1.0 + 1e-9) {
            let T = tsat(p);
            let (l, v) = (yv(&reg1(p, T)), yv(&reg2(p, T)));
            if y < l + tol {
                want.push(1);
            }
            if y > l - tol && y < v + tol {
                want.push(4);
            }
            if y > v - tol {
                want.push(2);
            }
        }
        if p >= P623 * (1.0 - 1e-9) {
            let (l, v) = (yv(&reg1(p, 623.15)), yv(&reg2(p, b23_t(p).min(863.15))));
            if y < l + tol {
                want.push(1);
            }
            if y > v - tol {
                want.push(2);
            }
            if y > l - tol && y < v + tol {
                if p >= PC {
                    want.push(3);
                } else {
                    // the equation of the saturation line holds between the saturated states of 623.15 K
                    let (l6, v6) = (yv(&reg1(P623, 623.15)), yv(&reg2(P623, 623.15)));
                    if y < l6 + tol || y > v6 - tol {
                        want.push(3);
                    }
                    let p34 = if k == K::PH { p3sat_h(y) } else { p3sat_s(y) };
                    if p < p34 * (1.0 + 1e-9) {
                        want.push(4);
                    }
                    if p > p34 * (1.0 - 1e-9) {
                        want.push(3);
                    }
                }
            }
        }
    }
    if !want.contains(&g) {
        return Out::Fail(format!("{lab}: region {g}, by the boundaries of IF97 {want:?}"));
    }
    if g == 4 {
        let x = f(15);
        if !(x > -0.5 && x < 1.5) {
            return Out::Fail(format!("{lab}: x = {x:?}"));
        }
        return Out::Ok("region 4");
    }
    let gT = f(1) + 273.15;
    if g == 5 {
        let st = reg5(p, gT);
        let edge = (gT - 1073.15).abs() < 1e-9;
        let tol = if edge { 2.0 * scale } else { 1e-6 * scale };
        if !((yv(&st) - y).abs() <= tol) {
            return Out::Fail(format!("{lab}: T = {gT:?}, where the value is {:?}", yv(&st)));
        }
    }
    let sts = if g == 5 { vec![reg5(p, gT)] } else { cands(k, g, p, y) };
    match compare(k, p, y, g, &sts) {
        Ok(()) => Out::Ok(rname(g)),
        Err(e) => Out::Fail(e),
    }
}
fn ph_plane(c: &Case) -> Out {
    plane(K::PH, c)
}
fn ps_plane(c: &Case) -> Out {
    plane(K::PS, c)
}
fn g_plane(k: K) -> proptest::strategy::BoxedStrategy<Case> {
    let p = prop_oneof![
        4 => unit().prop_map(|u| loglerp(PMIN, 100.0, u)),
        4 => unit().prop_map(|u| lerp(PMIN, 100.0, u)),
        2 => unit().prop_map(|u| lerp(16.0, 24.0, u)),
        2 => (0..9usize, tiny()).prop_map(|(i, e)| [PMIN, 100.0, 50.0, P623, PC, 4.0, 6.5467, 5.85, 6.546699678][i] * (1.0 + 0.1 * e)),
        1 => unit().prop_map(|u| loglerp(1e-9, 1e3, u)),
    ];
    let sub = prop_oneof![6 => unit().prop_map(|u| (0usize, u)), 5 => (1..8usize, tiny())];
    (p, sub)
        .prop_map(move |(p, (j, u))| {
            let q = p.clamp(PMIN, 100.0);
            let (lo, hi) = ylim(k, q);
            let yv = |s: &St| if k == K::PH { s.h } else { s.s };
            let T = tsat(q.min(PC));
            let b = match j {
                0 => return case(&[p, lo - 0.05 * (hi - lo) + 1.1 * (hi - lo) * u], &[]),
                1 => lo,
                2 => hi,
                3 => yv(&reg2(q, 1073.15)),
                4 => if q <= P623 { yv(&reg1(q, T)) } else { yv(&reg1(q, 623.15)) },
                5 => if q <= P623 { yv(&reg2(q, T)) } else { yv(&reg2(q, b23_t(q).min(863.15))) },
                6 => if k == K::PH { if q > 6.55 { h2bc(q) } else { 2800.0 } } else { 5.85 },
                _ => if k == K::PH { h3ab(q) } else { SC },
            };
            case(&[p, b + u * if k == K::PH { 1000.0 } else { 1.0 }], &[])
        })
        .boxed()
}
/// the (h,s) plane, the published entropy and enthalpy limits of its regions, and the curves that bound them
fn g_hs() -> proptest::strategy::BoxedStrategy<Case> {
    const SL: [f64; 14] = [
        -1.545495919e-4, 3.397782955, 3.77828134, 4.41202148223476, 5.048096828, 5.260578707, 5.85, 9.155759395, 5.2108878,
        5.1, 5.7, 6.04048367171238, 6.0, 6.070,
    ];
    const HL: [f64; 8] = [2563.592004, 2812.942061, 2087.54684511715, 1670.858218, 2500.892619, 1.0, 2095.0, 4095.0];
    let uni = (unit(), unit()).prop_map(|(a, b)| (lerp(-100.0, 7500.0, a), lerp(-0.5, 14.5, b)));
    let lim = (unit(), 0..SL.len(), tiny(), unit()).prop_map(|(a, i, e, b)| {
        let s = SL[i] * (1.0 + e);
        (if b < 0.5 { lerp(-100.0, 7500.0, a) } else { lerp(1000.0, 3000.0, a) }, s)
    });
    let hlim = (unit(), 0..HL.len(), tiny()).prop_map(|(a, i, e)| (HL[i] * (1.0 + e), lerp(-0.5, 10.0, a)));
    let curve = (0..9usize, unit(), tiny(), tiny(), unit()).prop_map(|(j, u, e, d, m)| {
        let lo = loglerp(PMIN, 100.0, u);
        let p6 = lerp(P623, 100.0, u);
        let t = lerp(273.15, 623.15, u);
        let st = match j {
            0 => reg1(psat(t), t),
            1 => reg2(psat(t), t),
            2 => reg1(p6, 623.15),
            3 => reg2(p6, b23_t(p6).min(863.15)),
            4 => reg2(lo, 1073.15),
            5 => reg1(100.0, t),
            6 => reg2(100.0, lerp(863.15, 1073.15, u)),
            7 => reg2(PMIN, lerp(273.15, 1073.15, u)),
            _ => reg1(lo.max(psat(273.15)), 273.15),
        };
        let (e, d) = if m < 0.4 { (e, 0.0) } else if m < 0.8 { (0.0, d) } else { (e, d) };
        (st.h + 1e-2 * e * (st.h.abs() + 100.0) * 10.0, st.s + 1e-2 * d * (st.s.abs() + 0.5) * 10.0)
    });
    prop_oneof![4 => uni, 3 => lim, 2 => hlim, 4 => curve].prop_map(|(h, s)| case(&[h, s], &[])).boxed()
}
/// any (h,s): refused, or a state of the range of validity that has these values
fn hs_plane(c: &Case) -> Out {
    let (h, s) = (c.f[0], c.f[1]);
    let f = |o: i32| s97::hs(h, s, o);
    let lab = format!("hs({h:?}, {s:?})");
    if !h.is_finite() || !s.is_finite() {
        return Out::Skip;
    }
    let g = f(16);
    if g < 0.0 {
        for o in [0, 1, 3, 8, 24] {
            if !(f(o) <= -1000.0) {
                return Out::Fail(format!("{lab}, {}) = {:?} although its region is {g:?}", NAMES[o as usize], f(o)));
            }
        }
        return Out::Ok("refused");
    }
    let g = g as i32;
    let (p, T) = (f(0), f(1) + 273.15);
    let (hh, ss) = match g {
        1 => { let s = reg1(p, T); (s.h, s.s) }
        2 => { let s = reg2(p, T); (s.h, s.s) }
        5 => { let s = reg5(p, T); (s.h, s.s) }
        3 => { let s = reg3(1.0 / f(3), T); (s.h, s.s) }
        4 => {
            let x = f(15);
            let (q, tq) = (p.clamp(PMIN, PC), T.clamp(273.15, TC));
            let (l, v) = (sat_liq(q, tq), sat_vap(q, tq));
            if !(x > -0.01 && x < 1.01) {
                return Out::Fail(format!("{lab}: x = {x:?}"));
            }
            (l.h + x * (v.h - l.h), l.s + x * (v.s - l.s))
        }
        _ => return Out::Fail(format!("{lab}: region {g}")),
    };
    if !((hh - h).abs() < 0.5 && (ss - s).abs() < 1e-3) {
        return Out::Fail(format!("{lab}: the returned state p={p:?} T={T:?} region {g} has h={hh:?} s={ss:?}"));
    }
    if !(p > 0.99 * PMIN && p < 100.1 && T > 273.1 && T < 2273.16) {
        return Out::Fail(format!("{lab}: the returned state p={p:?} T={T:?} region {g} is outside the range of validity"));
    }
    Out::Ok(rname(g))
}
const ASM: &[&str] = &[
    "the reference model in /verif/harness/src",
    "published consistency of the backward equations, with margin: |dh| <= 0.5 kJ/kg, |ds| <= 6e-4 kJ/(kg K) (1e-3 for hs), |dT| <= 0.06 K (0.31 K for hs)",
];
const RS: &str = "(p,t) of all single-phase regions and their edges, turned into the pair with the reference model; non-trivial = the returned state is single-phase and every property is compared";
const RP: &str = "the (p,y) plane directly, on and around every region and subregion boundary and outside the range; non-trivial = region decided, all properties compared, or refused";
pub fn c06() -> Prop {
    Prop {
        id: "C06",
        assumptions: ASM,
        setup: Some(crate::selfcheck::check),
        subs: vec![
            Sub { name: "state", rule: RS, gen: || pt_case(pt_any()), check: ph_state, quick: 1_500_000, deep: 20_000_000 },
            Sub { name: "plane", rule: RP, gen: || g_plane(K::PH), check: ph_plane, quick: 1_500_000, deep: 20_000_000 },
        ],
    }
}
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        assumptions: ASM,
        setup: Some(crate::selfcheck::check),
        subs: vec![
            Sub { name: "state", rule: RS, gen: || pt_case(pt_any()), check: ps_state, quick: 1_500_000, deep: 20_000_000 },
            Sub { name: "plane", rule: RP, gen: || g_plane(K::PS), check: ps_plane, quick: 1_500_000, deep: 20_000_000 },
        ],
    }
}
pub fn c08() -> Prop {
    Prop {
        id: "C08",
        assumptions: ASM,
        setup: Some(crate::selfcheck::check),
        subs: vec![Sub { name: "state", rule: RS, gen: || pt_case(pt_any()), check: hs_state, quick: 2_000_000, deep: 30_000_000 },
            Sub {
                name: "plane",
                rule: "(h,s) over and beyond the range; non-trivial = refused, or answered by a state whose h and s are compared with the reference equations",
                gen: g_hs,
                check: hs_plane,
                quick: 2_000_000,
                deep: 30_000_000,
            }],
    }
}
