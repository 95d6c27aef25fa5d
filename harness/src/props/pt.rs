//! C01 C02 C03 C13 C14: what (p,t) returns
use crate::cmp::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use seuif97 as s97;

pub const BASIC: [i32; 8] = [2, 3, 4, 5, 7, 8, 9, 10];
pub const EXT: [i32; 16] = [6, 11, 12, 13, 14, 17, 18, 19, 20, 21, 22, 23, 31, 32, 33, 34];
pub const TRANS: [i32; 7] = [24, 25, 26, 27, 28, 29, 30];

/// On the saturation line within the library's documented tolerance (1e-6) plus margin: handled by C03-C05
pub fn near_sat(p: f64, T: f64, tol: f64) -> bool {
    T <= TC && (p / psat(T) - 1.0).abs() < tol
}
/// the region of (p,T), or 0 when outside or when round-off decides between two regions
pub fn sure_region(p: f64, T: f64) -> i32 {
    let r = region_pt(p, T);
    if r == 0 || near_sat(p, T, 1.1e-6) {
        return 0;
    }
    if T > 623.15 && T <= 863.15 && (p / b23_p(T) - 1.0).abs() < 1e-11 {
        return 0;
    }
    r
}
pub fn rname(r: i32) -> &'static str {
    match r {
        1 => "region 1",
        2 => "region 2",
        3 => "region 3",
        4 => "region 4",
        5 => "region 5",
        _ => "outside",
    }
}
pub fn sub3name(c: char) -> &'static str {
    const N: [&str; 26] = [
        "3a", "3b", "3c", "3d", "3e", "3f", "3g", "3h", "3i", "3j", "3k", "3l", "3m", "3n", "3o", "3p", "3q", "3r", "3s", "3t", "3u", "3v", "3w",
        "3x", "3y", "3z",
    ];
    N[(c as u8 - b'a') as usize]
}
/// subregions of region 3 this (p,T) may legitimately be assigned to (two when a boundary is within round-off)
pub fn subs3(p: f64, T: f64) -> Vec<char> {
    let mut v = vec![sub3(p, T)];
    for (dp, dt) in [(1e-12, 0.0), (-1e-12, 0.0), (0.0, 1e-12), (0.0, -1e-12)] {
        let c = sub3((p * (1.0 + dp)).min(100.0), T * (1.0 + dt));
        if !v.contains(&c) {
            v.push(c);
        }
    }
    // both published roundings of the pressure limits
    for (q, lim) in [(19.00881189173929, 19.0088), (21.04336731897525, 21.0434), (21.93161551, 21.9316), (21.90096265, 21.9009)] {
        let (a, b): (f64, f64) = if q < lim { (q, lim) } else { (lim, q) };
        if p >= a - 1e-9 && p <= b + 1e-9 {
            for x in [a - 1e-6, b + 1e-6] {
                let c = sub3(x, T);
                if !v.contains(&c) {
                    v.push(c);
                }
            }
        }
    }
    v
}
fn verify(ids: &[i32], p: f64, t: f64, sts: &[St], tol: f64, f: impl Fn(i32) -> f64) -> Result<(), String> {
    let mut err = String::new();
    'st: for st in sts {
        for &o in ids {
            let g = f(o);
            let w = prop(st, o);
            if !ok(o, g, w, st, tol) {
                err = format!(
                    "pt(p={p:?}, t={t:?}, {}) = {g:?}, IF97 region {} gives {w:?} (rel {:.2e})",
                    NAMES[o as usize], st.reg, rel(g, w)
                );
                continue 'st;
            }
        }
        return Ok(());
    }
    Err(err)
}
fn c125(c: &Case, ids: &[i32]) -> Out {
    let (p, t) = (c.f[0], c.f[1]);
    let T = t + 273.15;
    let r = sure_region(p, T);
    if !(r == 1 || r == 2 || r == 5) {
        return Out::Skip;
    }
    let st = state_in(r, p, T);
    match verify(ids, p, t, &[st], 2e-10, |o| s97::pt(p, t, o)) {
        Ok(()) => Out::Ok(rname(r)),
        Err(e) => Out::Fail(e),
    }
}
fn c3(c: &Case, ids: &[i32]) -> Out {
    let (p, t) = (c.f[0], c.f[1]);
    let T = t + 273.15;
    if sure_region(p, T) != 3 {
        return Out::Skip;
    }
    let subs = subs3(p, T);
    let sts: Vec<St> = subs.iter().map(|&k| reg3(1.0 / v3sub(k, p, T), T)).map(|mut s| { s.reg = 3; s }).collect();
    // `p` of the state is the input, all the rest follows from (v,T)
    match verify(ids, p, t, &sts, 2e-10, |o| s97::pt(p, t, o)) {
        Ok(()) => Out::Ok(sub3name(subs[0])),
        Err(e) => Out::Fail(e),
    }
}
fn basic125(c: &Case) -> Out {
    c125(c, &BASIC)
}
fn ext125(c: &Case) -> Out {
    c125(c, &EXT)
}
fn trans125(c: &Case) -> Out {
    c125_trans(c)
}
fn c125_trans(c: &Case) -> Out {
    let (p, t) = (c.f[0], c.f[1]);
    let ids: &[i32] = if t + 273.15 <= TC { &TRANS } else { &[24, 25, 26, 27, 28, 30] };
    let ids2: Vec<i32> = ids.iter().copied().filter(|&o| o != 29 || sure_region(p, t + 273.15) != 5).collect();
    c125(c, &ids2)
}
fn basic3(c: &Case) -> Out {
    c3(c, &BASIC)
}
fn ext3(c: &Case) -> Out {
    c3(c, &EXT)
}
fn trans3(c: &Case) -> Out {
    if c.f[1] + 273.15 <= TC {
        c3(c, &TRANS)
    } else {
        c3(c, &[24, 25, 26, 27, 28, 30])
    }
}
/// v(p,T) of region 3 against the Helmholtz equation itself: p(1/v,T) reproduces p
fn v3_consistent(c: &Case) -> Out {
    let (p, t) = (c.f[0], c.f[1]);
    let T = t + 273.15;
    if sure_region(p, T) != 3 {
        return Out::Skip;
    }
    let v = s97::pt(p, t, 3);
    if !(v > 0.0 && v < 0.02) {
        return Out::Fail(format!("pt(p={p:?}, t={t:?}, v) = {v:?}"));
    }
    let subs = subs3(p, T);
    // near-critical auxiliary equations u..z: 0.1 % and worse by design, elsewhere 0.001 %
    let aux = subs.iter().any(|c| "uvwxyz".contains(*c));
    let ve = v3_exact(p, T, v);
    let d = (v / ve - 1.0).abs();
    let tol = if aux { if subs.iter().any(|c| "yz".contains(*c)) { 0.05 } else { 3e-3 } } else { 2.5e-5 };
    if !(d <= tol) {
        return Out::Fail(format!("pt(p={p:?}, t={t:?}, v) = {v:?} but the region 3 equation has p(1/v,T) = p at v = {ve:?} (rel {d:.2e})"));
    }
    Out::Ok(sub3name(subs[0]))
}
fn g12() -> BoxedStrategy<Case> {
    pt_case(prop_oneof![4 => pt1(), 5 => pt2(), 3 => pt5(), 3 => pt_edges(), 1 => pt_round()].boxed())
}
fn g3() -> BoxedStrategy<Case> {
    pt_case(prop_oneof![9 => pt3(), 1 => pt_edges()].boxed())
}
const R125: &str = "(p,t) stratified over regions 1, 2, 5 (linear and logarithmic in p), their edges and corners, and round values; each case compares every listed property; non-trivial = inside the region, away from the saturation band";
const R3: &str = "(p,t) over region 3 by T, by p, near the critical point and on every subregion boundary line; non-trivial = a state of region 3, classed by subregion";
const ASM: &[&str] = &[
    "the reference model in /verif/harness/src (its own arithmetic and coefficient tables, checked against the IAPWS verification values at start-up)",
    "x86-64 libm pow/exp/log agree to 1e-12 between reference and library",
];
pub fn c01() -> Prop {
    Prop {
        id: "C01",
        assumptions: ASM,
        setup: Some(crate::selfcheck::check),
        subs: vec![Sub { name: "equations", rule: R125, gen: g12, check: basic125, quick: 4_000_000, deep: 60_000_000 }],
    }
}
pub fn c02() -> Prop {
    Prop {
        id: "C02",
        assumptions: ASM,
        setup: Some(crate::selfcheck::check),
        subs: vec![
            Sub { name: "equations", rule: R3, gen: g3, check: basic3, quick: 3_000_000, deep: 40_000_000 },
            Sub { name: "volume", rule: "same states; the returned volume is put back into the independent pressure equation", gen: g3, check: v3_consistent, quick: 2_000_000, deep: 20_000_000 },
        ],
    }
}
pub fn c13() -> Prop {
    Prop {
        id: "C13",
        assumptions: ASM,
        setup: Some(crate::selfcheck::check),
        subs: vec![
            Sub { name: "regions125", rule: R125, gen: g12, check: ext125, quick: 2_500_000, deep: 30_000_000 },
            Sub { name: "region3", rule: R3, gen: g3, check: ext3, quick: 1_500_000, deep: 20_000_000 },
            Sub { name: "identities", rule: "any single-phase (p,t); relations among the returned values themselves (h=u+pv, g=h-Ts, cp-cv, k, kT, Joule-Thomson, numeric d/dp and d/dT ...); non-trivial = inside a region", gen: || pt_case(pt_any()), check: identities, quick: 2_000_000, deep: 20_000_000 },
        ],
    }
}
pub fn c14() -> Prop {
    Prop {
        id: "C14",
        assumptions: &["thermal conductivity is the 2011 formulation without the critical enhancement, as the library documents in its source"],
        setup: Some(crate::selfcheck::check),
        subs: vec![
            Sub { name: "regions125", rule: R125, gen: g12, check: trans125, quick: 2_000_000, deep: 25_000_000 },
            Sub { name: "region3", rule: R3, gen: g3, check: trans3, quick: 1_000_000, deep: 15_000_000 },
            Sub { name: "relations", rule: "any single-phase (p,t): nu=eta/rho, a=lambda/(rho cp), Pr=eta cp/lambda, all positive, epsilon>1, sigma decreasing to 0 at Tc; non-trivial = inside a region", gen: || pt_case(pt_any()), check: trans_rel, quick: 1_500_000, deep: 15_000_000 },
        ],
    }
}
/// relations between the library's own outputs
pub fn identities(c: &Case) -> Out {
    let (p, t) = (c.f[0], c.f[1]);
    let T = t + 273.15;
    let r = sure_region(p, T);
    if r == 0 {
        return Out::Skip;
    }
    let q = |o: i32| s97::pt(p, t, o);
    let (v, d, h, s, u, cp, cv, w) = (q(3), q(2), q(4), q(5), q(7), q(8), q(9), q(10));
    let (vt, vp, ptv) = (q(19), q(20), q(21));
    // pressure of the state: the input, except that region 3 recomputes it from v(p,T)
    let st = if r == 3 { reg3(1.0 / v, T) } else { St { p, ..state_in(r, p, T) } };
    let pp = st.p;
    let a = amp(3, &st);
    let rt = R * T;
    let z = 1000.0 * pp * v / rt;
    let checks: [(&str, f64, f64, f64); 17] = [
        ("d = 1/v", d * v, 1.0, 1e-12),
        ("h = u + pv", h, u + 1000.0 * pp * v, 1e-9 * (h.abs() + rt)),
        ("g = h - Ts", q(13), h - T * s, 1e-9 * (h.abs() + T * s.abs() + rt)),
        ("f = u - Ts", q(12), u - T * s, 1e-9 * (u.abs() + T * s.abs() + rt)),
        ("e = h - T0 s", q(6), h - 273.16 * s, 1e-9 * (h.abs() + 300.0 * s.abs() + rt)),
        ("z = pv/RT", q(14), z, 1e-9 * z.abs()),
        ("cp - cv = -T (dv/dT)^2/(dv/dp)", cp - cv, -1000.0 * T * vt * vt / vp, 1e-8 * a * (cp + cv)),
        ("(dp/dT)v = -(dv/dT)/(dv/dp)", ptv, -vt / vp, 1e-9 * a * (ptv.abs() + R / v / 1000.0)),
        ("alpha_v = (dv/dT)/v", q(17), vt / v, 1e-9 * a * (vt / v).abs().max(1.0 / T)),
        ("kT = -(dv/dp)/v", q(18), -vp / v, 1e-9 * a * (vp / v).abs()),
        ("kappa = w^2/(pv)", q(11), w * w * 1e-6 / (pp * v), 1e-8 * a * (w * w * 1e-6 / (pp * v))),
        ("w^2 = -v^2 cp/cv/(dv/dp)", w * w, -v * v * cp / cv / vp * 1e6, 1e-7 * a * w * w),
        ("(dh/dp)T = v - T dv/dT", q(22), 1000.0 * (v - T * vt), 1e-9 * a * 1000.0 * (v + T * vt.abs())),
        ("mu = -(dh/dp)T/cp", q(23), -q(22) / cp, 1e-9 * a * 1000.0 * (v + T * vt.abs()) / cp),
        ("alpha_p = (dp/dT)v/p", q(31), ptv / pp, 1e-9 * a * (ptv / pp).abs().max(1.0 / T)),
        ("beta_p = -1/(p dv/dp)", q(32), -1.0 / (pp * vp), 1e-9 * a * (1.0 / (pp * vp)).abs()),
        ("f* = p phi", q(34), pp * q(33), 1e-9 * (pp * q(33)).abs()),
    ];
    for (n, g, w, tol) in checks {
        if !((g - w).abs() <= tol) {
            return Out::Fail(format!("(p={p:?}, t={t:?}) region {r}: {n}: {g:?} vs {w:?} (allowed {tol:.2e})"));
        }
    }
    if rel(q(35), q(31)) > 1e-9 * a && (q(35) - q(31)).abs() > 1e-9 / T {
        return Out::Fail(format!("(p={p:?}, t={t:?}): alpha_p {:?} vs beta {:?}", q(35), q(31)));
    }
    Out::Ok(rname(r))
}
fn trans_rel(c: &Case) -> Out {
    let (p, t) = (c.f[0], c.f[1]);
    let T = t + 273.15;
    let r = sure_region(p, T);
    if r == 0 {
        return Out::Skip;
    }
    let q = |o: i32| s97::pt(p, t, o);
    let (d, cp, dv, kv, tc, td, pr, eps) = (q(2), q(8), q(24), q(25), q(26), q(27), q(28), q(30));
    let list: [(&str, f64, f64); 3] = [
        ("nu = eta/rho", kv, dv / d),
        ("a = lambda/(rho cp)", td, tc / (d * cp * 1000.0)),
        ("Pr = eta cp/lambda", pr, dv * cp * 1000.0 / tc),
    ];
    for (n, g, w) in list {
        if !(rel(g, w) <= 1e-9) {
            return Out::Fail(format!("(p={p:?}, t={t:?}) region {r}: {n}: {g:?} vs {w:?}"));
        }
    }
    for (n, x, lo, hi) in [("viscosity", dv, 5e-6, 3e-3), ("conductivity", tc, 5e-3, 1.2), ("Pr", pr, 0.2, 2e6), ("epsilon", eps, 1.0, 120.0)] {
        if !(x >= lo && x <= hi) {
            return Out::Fail(format!("(p={p:?}, t={t:?}) region {r}: {n} = {x:?} outside [{lo:?}, {hi:?}]"));
        }
    }
    if T <= TC && r != 5 {
        let s = q(29);
        let s2 = s97::pt(p, t, 29);
        if !(s >= 0.0 && s <= 0.0757 && s == s2) {
            return Out::Fail(format!("(p={p:?}, t={t:?}): surface tension {s:?}"));
        }
    }
    Out::Ok(rname(r))
}

// ---------------------------------------------------------------- C03
fn classify(c: &Case) -> Out {
    let (p, t) = (c.f[0], c.f[1]);
    let T = t + 273.15;
    let g = s97::pt(p, t, 16);
    if !(p.is_finite() && T.is_finite()) {
        return Out::Skip;
    }
    if T == TC && p == PC {
        return if g == 3.0 { Out::Ok("critical") } else { Out::Fail(format!("critical point: region {g:?}")) };
    }
    let r = region_pt(p, T);
    let (want, lab): (f64, &'static str) = if r == 0 {
        // round-off of the limits themselves
        if (T - 273.15).abs() < 1e-9 && T < 273.15 {
            return Out::Skip;
        }
        if !(g < 0.0) {
            return Out::Fail(format!("pt(p={p:?}, t={t:?}, region) = {g:?} outside the range of validity"));
        }
        return Out::Ok("outside");
    } else if T < TC && near_sat(p, T, 0.9e-6) {
        (4.0, "saturation band")
    } else if T < TC && near_sat(p, T, 1.1e-6) {
        return Out::Skip;
    } else if T >= TC && T < TC + 1e-9 {
        return Out::Skip;
    } else if T > 623.15 && T <= 863.15 && (p / b23_p(T) - 1.0).abs() < 1e-11 {
        return Out::Skip;
    } else {
        (r as f64, rname(r))
    };
    if g != want {
        return Out::Fail(format!("pt(p={p:?}, t={t:?}, region) = {g:?}, IF97 defines {want:?}"));
    }
    Out::Ok(lab)
}
/// the flat plane, including everything outside
fn g_plane() -> BoxedStrategy<Case> {
    let out = (prop_oneof![unit().prop_map(|u| lerp(-1.0, 120.0, u)), unit().prop_map(|u| loglerp(1e-9, 1e3, u))], unit().prop_map(|u| lerp(-30.0, 2300.0, u)));
    let hot = (unit().prop_map(|u| lerp(45.0, 105.0, u)), unit().prop_map(|u| lerp(780.0, 2010.0, u)));
    pt_case(prop_oneof![6 => pt_any(), 4 => pt_edges(), 3 => out, 1 => hot, 1 => (wild(), wild())].boxed())
}
pub fn c03() -> Prop {
    Prop {
        id: "C03",
        assumptions: &["closed/open ends of the ranges as the library fixes them: 273.15<=T, T<=623.15 region 1/2, T<=1073.15 region 2, T<=2273.15, and the saturation band |p/psat-1|<1e-6 reported as region 4"],
        setup: Some(crate::selfcheck::check),
        subs: vec![Sub { name: "region", rule: "the whole (p,t) plane with boundaries at every distance 1e-1..1e-16, corners, and points outside the range; non-trivial = a decided point (not within round-off of a boundary)", gen: g_plane, check: classify, quick: 12_000_000, deep: 150_000_000 }],
    }
}
