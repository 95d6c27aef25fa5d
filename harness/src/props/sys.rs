//! C15 C16 C17 C21: what holds across all functions
use super::api::*;
use super::pt::{rname, sure_region, BASIC, EXT, TRANS};
use crate::cmp::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use seuif97 as s97;

fn ids() -> Vec<i32> {
    let mut v = BASIC.to_vec();
    v.extend(EXT);
    v.extend(TRANS);
    v
}
/// a single-phase state away from round-off ties; region 3 states are those of v3(p,T)
pub fn state(p: f64, t: f64) -> Option<St> {
    let T = t + 273.15;
    let r = sure_region(p, T);
    if r == 0 {
        return None;
    }
    let mut st = state_in(r, p, T);
    st.reg = r;
    Some(st)
}
fn near_crit(p: f64, T: f64) -> bool {
    (T - TC).abs() < 3.0 && (p / PC - 1.0).abs() < 0.03
}
// ------------------------------------------------------------------------------------------- C15
fn coherent(c: &Case) -> Out {
    let (p, t, k) = (c.f[0], c.f[1], 1 + c.i[0] as usize % 7);
    let Some(st0) = state(p, t) else { return Out::Skip };
    let (a, b) = args_st(k, p, t, &st0);
    let f = |o: i32| call(k, a, b, o);
    let l = lab(k, a, b);
    let g = f(16);
    if g < 0.0 {
        return Out::Skip; // acceptance is the matter of C06-C10
    }
    for (i, o) in OWN[k].iter().enumerate() {
        if !same(f(*o), [a, b][i]) {
            return Out::Fail(format!("{l}, {}) = {:?}: not the argument itself", oname(*o), f(*o)));
        }
    }
    let g = g as i32;
    let (gp, gt) = (f(0), f(1));
    if g == 4 {
        return mixture(k, &l, &f);
    }
    let gT = gt + 273.15;
    let back = [f(3), f(4), f(5)];
    for o in ids() {
        if OWN[k].contains(&o) || (o == 29 && (gT > TC || g == 5)) {
            continue;
        }
        let w = f(o);
        if g == 3 {
            // the equation of region 3 at the v and T that the pair returns
            let mut s3 = reg3(1.0 / back[0], gT);
            s3.reg = 3;
            let want = prop(&s3, o);
            if !ok(o, w, want, &s3, 1e-8) {
                return Out::Fail(format!("{l}, {}) = {w:?}; the state at the v={:?} t={gt:?} it returns has {want:?}", oname(o), back[0]));
            }
            continue;
        }
        let want = s97::pt(gp, gt, (o, g));
        let st = state_in(g, gp, gT);
        let loose = (o == 2 || (24..=30).contains(&o)) && (k == 4 || k == 5); // density of the given v
        if !ok(o, w, want, &st, if loose { 2e-5 } else { 1e-8 }) {
            return Out::Fail(format!("{l}, {}) = {w:?}; (p,t) returns {want:?} for the p={gp:?} t={gt:?} it returns (rel {:.1e})", oname(o), rel(w, want)));
        }
    }
    if g == 3 {
        if near_crit(gp, gT) || gp > 100.0 || (gT < TC && (gp / psat(gT) - 1.0).abs() < 5e-3) {
            return Out::Trivial;
        }
        let v = s97::pt(gp, gt, (3, 3));
        let st = reg3(1.0 / back[0], gT);
        let tol = 1e-3 + 0.05 * (st.dvdt / st.v).abs();
        if !(rel(back[0], v) < tol) {
            return Out::Fail(format!("{l}, v) = {:?}; (p,t) returns {v:?} for the p={gp:?} t={gt:?} it returns", back[0]));
        }
    }
    Out::Ok(FN[k])
}
/// wet steam: every extensive property is the mixture of (p,0) and (p,1) at the quality returned
fn mixture(k: usize, l: &str, f: &dyn Fn(i32) -> f64) -> Out {
    let (gp, gt, x) = (f(0), f(1), f(15));
    if gp > 22.0 {
        return Out::Trivial; // within 0.3 % of the critical pressure qualities are ill-defined
    }
    // above 623.15 K the wet region is delimited by published approximations
    let tx = if gp > 21.8 { 0.05 } else if gp > 16.5 { 3e-3 } else if k == 3 { 1e-4 } else { 1e-6 };
    if !(x >= -tx && x <= 1.0 + tx) {
        return Out::Fail(format!("{l}, x) = {x:?}"));
    }
    let ps = s97::tx(gt, 0.5, 0);
    if !is_err(ps) && !(rel(gp, ps) < 1e-8) {
        return Out::Fail(format!("{l}): p={gp:?} at t={gt:?}, where saturation is at {ps:?}"));
    }
    let q = gp.clamp(PMIN, 22.064);
    for o in [3, 4, 5, 7] {
        let (w, w0, w1) = (f(o), s97::px(q, 0.0, o), s97::px(q, 1.0, o));
        let want = w0 + x * (w1 - w0);
        let sc = (w1 - w0).abs() + w0.abs();
        let own = OWN[k].contains(&o);
        let tol = if own { if k == 3 { 1e-4 } else { 1e-6 } } else { 1e-7 } + if gt > 370.0 { 1e-3 } else { 0.0 };
        if !((w - want).abs() <= tol * sc) {
            return Out::Fail(format!("{l}, {}) = {w:?}; wet steam of the p={gp:?} x={x:?} it returns has {want:?}", oname(o)));
        }
    }
    Out::Ok("wet steam")
}
fn coherent_wet(c: &Case) -> Out {
    let (t, x, k) = (c.f[0], c.f[1], c.i[0] as usize % 11 + 1);
    let T = t + 273.15;
    if !(T >= 273.16 && T < 646.9) || (T - 623.15).abs() < 1e-3 || !(0.0..=1.0).contains(&x) {
        return Out::Skip;
    }
    let p = s97::tx(t, x, 0);
    let g = |o: i32| s97::tx(t, x, o);
    let (a, b) = match k {
        8 => (p, x),
        9 => (t, x),
        10 => (g(4), x),
        11 => (g(5), x),
        _ => args(k, p, t, g(4), g(5), g(3)),
    };
    let f = |o: i32| call(k, a, b, o);
    let l = lab(k, a, b);
    for (i, o) in OWN[k].iter().enumerate() {
        if !same(f(*o), [a, b][i]) && !(k >= 8 && is_err(f(3))) {
            return Out::Fail(format!("{l}, {}) = {:?}: not the argument itself", oname(*o), f(*o)));
        }
    }
    if (k < 8 && is_err(f(16))) || is_err(f(0)) || is_err(f(3)) {
        return Out::Skip;
    }
    // h and s of the saturated states make a small step at 623.15 K (regions 1 and 3): a root
    // inside the step has no exact solution
    if (f(0) - 16.529164252604).abs() < 1e-6 {
        return Out::Skip;
    }
    if k < 8 && f(16) != 4.0 {
        return Out::Trivial;
    }
    match mixture(k, &l, &f) {
        Out::Ok(_) => Out::Ok(FN[k]),
        o => o,
    }
}
pub fn c15() -> Prop {
    Prop {
        id: "C15",
        assumptions: &[
            "region 3: (p,t) finds v by the published subregion equations, other pairs by their own backward equations; the two agree within 0.1 % + 50 mK, not compared within 3 K and 3 % of the critical point",
        ],
        setup: Some(crate::selfcheck::check),
        subs: vec![
            Sub { name: "single", rule: "(p,t) turned into the arguments of one of the seven other pairs; non-trivial = a state was returned and every id compared", gen: || (pt_any(), 0..7i64).prop_map(|((p, t), k)| case(&[p, t], &[k])).boxed(), check: coherent, quick: 1_200_000, deep: 25_000_000 },
            Sub { name: "wet", rule: "(t,x) turned into the arguments of one of the eleven other functions; non-trivial = reported as wet steam and compared", gen: || (tx_sat(), 0..11i64).prop_map(|((p, t), k)| case(&[p, t], &[k])).boxed(), check: coherent_wet, quick: 600_000, deep: 10_000_000 },
        ],
    }
}

// ------------------------------------------------------------------------------------------- C16
/// ids that no function knows
fn bad_id(n: i64) -> i32 {
    let n = n as i32;
    if (0..36).contains(&n) {
        n + 36
    } else {
        n
    }
}
/// everything about one point: region and properties are all errors, or all finite numbers
fn point(k: usize, a: f64, b: f64, bad: i64) -> Out {
    let l = lab(k, a, b);
    let f = |o: i32| call(k, a, b, o);
    let u = bad_id(bad);
    let e = f(u);
    if !is_err(e) {
        return Out::Fail(format!("{l}, {u}) = {e:?} for an id that does not exist"));
    }
    let g = if k < 8 { f(16) } else { 0.0 };
    if k < 8 && !(is_err(g) || (1.0..=5.0).contains(&g) && g.fract() == 0.0) {
        return Out::Fail(format!("{l}, region) = {g:?}"));
    }
    let refused = if k < 8 { is_err(g) } else { is_err(f(7)) };
    for o in ALL {
        if OWN[k].contains(&o) || o == 16 {
            continue;
        }
        let w = f(o);
        if !w.is_finite() {
            return Out::Fail(format!("{l}, {}) = {w:?}", oname(o)));
        }
        if refused {
            if !is_err(w) {
                return Out::Fail(format!("{l}, {}) = {w:?} although the point is refused (region {g:?})", oname(o)));
            }
            continue;
        }
        // accepted: which ids are defined
        let wet = k >= 8 || g == 4.0;
        let defined = if o == 15 {
            true
        } else if k >= 8 && (b != 0.0 && b != 1.0) || k < 8 && g == 4.0 {
            [0, 1, 2, 3, 4, 5, 7].contains(&o)
        } else if o == 29 {
            !wet && f(1) <= 373.94
        } else {
            !wet || BASIC.contains(&o) || o <= 1
        };
        if k == 0 && g == 4.0 {
            continue; // (p,t) on the saturation line does not determine a state
        }
        if defined && is_err(w) {
            return Out::Fail(format!("{l}, {}) = {w:?} for a valid state (region {g:?}, t={:?})", oname(o), f(1)));
        }
        if !wet && o == 29 && (g == 5.0 || f(1) > 373.95) && !is_err(w) {
            return Out::Fail(format!("{l}, st) = {w:?} above the critical temperature"));
        }
        if o == 15 && !(w >= -0.2 && w <= 1.2) {
            return Out::Fail(format!("{l}, x) = {w:?}"));
        }
    }
    if refused {
        Out::Ok("refused")
    } else {
        Out::Ok(FN[k])
    }
}
fn pt_range(c: &Case) -> Out {
    let (p, t) = (c.f[0], c.f[1]);
    let T = t + 273.15;
    if !p.is_finite() || !t.is_finite() {
        return Out::Skip;
    }
    let edge = rel(p, 100.0) < 1e-12 || rel(p, 50.0) < 1e-12 || rel(p, PMIN) < 1e-9 || [273.15, 1073.15, 2273.15].iter().any(|e| (T - e).abs() < 1e-10);
    let inside = region_pt(p, T) != 0;
    let g = call(0, p, t, 16);
    if !edge && is_err(g) == inside {
        return Out::Fail(format!("pt({p:?}, {t:?}, region) = {g:?}, a point {} the range of validity", if inside { "inside" } else { "outside" }));
    }
    point(0, p, t, c.i[0])
}
fn any_point(c: &Case) -> Out {
    let (a, b, k) = (c.f[0], c.f[1], c.i[1] as usize % 12);
    if !a.is_finite() || !b.is_finite() {
        return Out::Skip;
    }
    point(k, a, b, c.i[0])
}
fn from_state(c: &Case) -> Out {
    let (p, t, k) = (c.f[0], c.f[1], c.i[1] as usize % 8);
    let Some(st) = state(p, t) else { return Out::Skip };
    let (a, b) = args_st(k, p, t, &st);
    // a little off the state, so that the limits of the range are crossed
    let (a, b) = (a * (1.0 + c.f[2]), b * (1.0 + c.f[3]));
    point(k, a, b, c.i[0])
}
/// px tx hx sx: the range of the saturation line and of the quality
fn sat_range(c: &Case) -> Out {
    let (a, x, k) = (c.f[0], c.f[1], 8 + c.i[1] as usize % 2);
    if !a.is_finite() || !x.is_finite() {
        return Out::Skip;
    }
    let (lo, hi) = if k == 8 { (PMIN, PC) } else { (0.0, TC - 273.15) };
    let edge = rel(a, hi) < 1e-12 || (a - lo).abs() < 1e-11;
    let inside = a >= lo && a <= hi && (0.0..=1.0).contains(&x);
    let w = call(k, a, x, 4);
    if !edge && is_err(w) == inside {
        return Out::Fail(format!("{}, h) = {w:?}, a point {} the range of wet steam", lab(k, a, x), if inside { "inside" } else { "outside" }));
    }
    point(k, a, x, c.i[0])
}
fn bad_ids() -> BoxedStrategy<i64> {
    prop_oneof![3 => alias(0..36).prop_map(|o| if (0..36).contains(&o) { 36 } else { o }), 3 => 36..60i64, 2 => -40..0i64, 1 => any::<i32>().prop_map(|x| x as i64), 1 => Just(i32::MAX as i64), 1 => Just(i32::MIN as i64)].boxed()
}
/// the neighbourhood of every limit of the range, and the whole plane
fn pt_around() -> BoxedStrategy<(f64, f64)> {
    let p = || {
        prop_oneof![
            3 => unit().prop_map(|u| loglerp(1e-9, 1e3, u)),
            2 => unit().prop_map(|u| lerp(-20.0, 150.0, u)),
            4 => (0..5usize, tiny()).prop_map(|(k, e)| [PMIN, 100.0, 50.0, P623, PC][k] * (1.0 + e)),
            1 => wild(),
        ]
    };
    let t = || {
        prop_oneof![
            3 => unit().prop_map(|u| lerp(-50.0, 2500.0, u)),
            4 => (0..6usize, tiny()).prop_map(|(k, e)| [273.15, 623.15, TC, 863.15, 1073.15, 2273.15][k] * (1.0 + e) - 273.15),
            2 => (0..4usize).prop_map(|k| [0.0, 800.0, 2000.0, 350.0][k]),
            1 => wild(),
        ]
    };
    (p(), t()).boxed()
}
/// (a,b) for function k: its plane well beyond the range, or wild
pub fn plane_any() -> BoxedStrategy<Case> {
    (0..12i64, unit(), unit(), wild(), wild(), 0..10usize, bad_ids())
        .prop_map(|(k, u, w, x, y, m, bad)| {
            let val = |o: i32, u: f64| match o {
                0 => loglerp(1e-9, 300.0, u),
                1 => lerp(-30.0, 2100.0, u),
                3 => loglerp(5e-4, 3000.0, u),
                4 => lerp(-300.0, 8000.0, u),
                5 => lerp(-1.0, 15.0, u),
                _ => lerp(-0.3, 1.3, u),
            };
            let own = OWN[k as usize];
            let a = if m == 0 { x } else { val(own[0], u) };
            let b = if m <= 1 { y } else { val(own[1], w) };
            case(&[a, b], &[bad, k])
        })
        .boxed()
}
pub fn off() -> BoxedStrategy<f64> {
    prop_oneof![3 => Just(0.0), 2 => tiny(), 1 => (-0.1..0.1f64)].boxed()
}
pub fn c16() -> Prop {
    const R1: &str = "non-trivial = the point was classified as refused or accepted and all ids, an unknown id included, were asked for";
    Prop {
        id: "C16",
        assumptions: &[
            "arguments are finite; a function's own two arguments are echoed, refused point or not",
            "within 1e-12 relative of a limit of the range round-off may decide",
            "(p,t) on the saturation line is ambiguous and answered by an error value",
        ],
        setup: Some(crate::selfcheck::check),
        subs: vec![
            Sub { name: "pt", rule: R1, gen: || (pt_around(), bad_ids()).prop_map(|((p, t), b)| case(&[p, t], &[b])).boxed(), check: pt_range, quick: 600_000, deep: 10_000_000 },
            Sub { name: "satline", rule: R1, gen: || (pt_around(), prop_oneof![4 => unit(), 1 => Just(0.0), 1 => Just(1.0), 1 => wild(), 2 => (-0.5..1.5f64), 2 => tiny(), 2 => tiny().prop_map(|e| 1.0 + e)], bad_ids(), 0..2i64).prop_map(|((p, t), x, b, k)| case(&[if k == 0 { p } else { t }, x], &[b, k])).boxed(), check: sat_range, quick: 400_000, deep: 5_000_000 },
            Sub { name: "plane", rule: R1, gen: plane_any, check: any_point, quick: 800_000, deep: 15_000_000 },
            Sub { name: "state", rule: R1, gen: || (pt_any(), off(), off(), bad_ids(), 0..8i64).prop_map(|((p, t), x, y, b, k)| case(&[p, t, x, y], &[b, k])).boxed(), check: from_state, quick: 600_000, deep: 15_000_000 },
        ],
    }
}

// ------------------------------------------------------------------------------------------- C17
/// an extrapolation that still looks like water or steam
fn sane(r: i32, st: &St) -> bool {
    let z = 1000.0 * st.p * st.v / (R * st.T);
    st.v > 0.0 && st.cp > 0.0 && st.cp < 100.0 && st.cv > 0.0 && st.w > 0.0 && st.dvdp < 0.0 && if r == 1 { st.v < 0.003 } else { z > 0.3 || r == 3 }
}
/// naming the detected region changes nothing; naming any region selects it
fn detected(c: &Case) -> Out {
    let (a, b, k) = (c.f[0], c.f[1], c.i[0] as usize % 8);
    if !a.is_finite() || !b.is_finite() {
        return Out::Skip;
    }
    let l = lab(k, a, b);
    let g = call(k, a, b, 16);
    if is_err(g) {
        // 10 = none given
        return if same(call_r(k, a, b, 4, 10), call(k, a, b, 4)) { Out::Trivial } else { Out::Fail(format!("{l}, (h,10)) differs from {l}, h)")) };
    }
    let g = g as i32;
    for o in ALL {
        let (w, wr, wn) = (call(k, a, b, o), call_r(k, a, b, o, g), call_r(k, a, b, o, 10));
        if !same(w, wr) || !same(w, wn) {
            return Out::Fail(format!("{l}, {}) = {w:?}, but with its region {g} named {wr:?}, with none (10) named {wn:?}", oname(o)));
        }
    }
    for r in 1..=5 {
        let w = call_r(k, a, b, 16, r);
        if w != r as f64 {
            return Out::Fail(format!("{l}, (region,{r})) = {w:?}"));
        }
        let x = call_r(k, a, b, 15, r);
        if r != 4 && x != if r == 1 { 0.0 } else { 1.0 } {
            return Out::Fail(format!("{l}, (x,{r})) = {x:?}"));
        }
    }
    let r = c.i[1] as i32;
    if !(1..=5).contains(&r) && r != 10 {
        for o in [4, 8, 16, 24] {
            let w = call_r(k, a, b, o, r);
            if !is_err(w) && !OWN[k].contains(&o) {
                return Out::Fail(format!("{l}, ({},{r})) = {w:?} for a region that does not exist", oname(o)));
            }
        }
    }
    Out::Ok(FN[k])
}
fn detected_state(c: &Case) -> Out {
    let (p, t, k) = (c.f[0], c.f[1], c.i[0] as usize % 8);
    let Some(st) = state(p, t) else { return Out::Skip };
    let (a, b) = args_st(k, p, t, &st);
    detected(&case(&[a, b], &c.i))
}
/// (p,t) with a region named: that region's equation, also beyond its own region (metastable states)
fn named_pt(c: &Case) -> Out {
    let (p, t, r) = (c.f[0], c.f[1], [1, 2, 5, 3][c.i[0] as usize % 4]);
    let T = t + 273.15;
    if !(p >= PMIN && p <= 100.0 && T >= 273.15 && T <= 2273.15) {
        return Out::Skip;
    }
    // as far as the equation is a smooth extrapolation
    let st = match r {
        1 if T < 640.0 && p > 0.3 * psat(T) => reg1(p, T),
        2 if T < 1200.0 && (T > 623.15 && p < 1.3 * b23_p(T.min(863.15)) && p <= 100.0 || T <= 623.15 && p < 2.0 * psat(T)) => reg2(p, T),
        5 if T > 1000.0 && p <= 60.0 => reg5(p, T),
        3 if sure_region(p, T) == 3 => state_in(3, p, T),
        _ => return Out::Skip,
    };
    let mut st = st;
    st.reg = r;
    if !sane(r, &st) {
        return Out::Skip;
    }
    if r == 3 && super::pt::subs3(p, T).len() > 1 {
        return Out::Skip;
    }
    for o in ids() {
        if o == 29 && T > TC || (26..=28).contains(&o) && region_pt(p, T) != r {
            continue;
        }
        let w = s97::pt(p, t, (o, r));
        let want = prop(&st, o);
        if !ok(o, w, want, &st, 1e-7) {
            return Out::Fail(format!("pt({p:?}, {t:?}, ({},{r})) = {w:?}; the equation of region {r} has {want:?} (rel {:.1e}); the region is {}", oname(o), rel(w, want), region_pt(p, T)));
        }
    }
    if region_pt(p, T) == r {
        Out::Ok("its own region")
    } else {
        Out::Ok(["region 1 beyond", "region 2 beyond", "region 5 beyond", "region 3"][c.i[0] as usize % 4])
    }
}
/// other pairs with a region named: every property is that region's at the p and T returned
fn named_pair(c: &Case) -> Out {
    let (p, t, k, r) = (c.f[0], c.f[1], 1 + c.i[0] as usize % 7, [1, 2, 5][c.i[1] as usize % 3]);
    let T = t + 273.15;
    if !(p >= PMIN && p <= 100.0 && T >= 273.15 && T <= 2273.15) {
        return Out::Skip;
    }
    let st0 = match r {
        1 if T < 630.0 && p > 0.5 * psat(T) => reg1(p, T),
        2 if T < 1080.0 && (T > 623.15 && p < 1.1 * b23_p(T.min(863.15)) || T <= 623.15 && p < 1.3 * psat(T)) => reg2(p, T),
        5 if T > 1070.0 && p <= 50.0 => reg5(p, T),
        _ => return Out::Skip,
    };
    if !sane(r, &st0) {
        return Out::Skip;
    }
    let (a, b) = args_st(k, p, t, &st0);
    let l = lab(k, a, b);
    let f = |o: i32| call_r(k, a, b, o, r);
    let (gp, gt) = (f(0), f(1));
    if !gp.is_finite() || !gt.is_finite() || is_err(gp) || is_err(gt) {
        return Out::Fail(format!("{l}, (.,{r})): p={gp:?} t={gt:?} for the state p={p:?} t={t:?}"));
    }
    let mut st = state_in(r, gp, gt + 273.15);
    st.reg = r;
    if !sane(r, &st) {
        return Out::Trivial;
    }
    for o in ids() {
        if OWN[k].contains(&o) || (o == 29 && gt + 273.15 > TC) || (26..=28).contains(&o) && region_pt(p, T) != r {
            continue;
        }
        let w = f(o);
        let want = s97::pt(gp, gt, (o, r));
        let loose = (o == 2 || (24..=30).contains(&o)) && (k == 4 || k == 5);
        if loose && region_pt(p, T) != r {
            continue; // v beyond the region is clamped, density is that of the given v
        }
        if !ok(o, w, want, &st, if loose { 2e-4 } else { 1e-7 }) {
            return Out::Fail(format!("{l}, ({},{r})) = {w:?}; that region has {want:?} at the p={gp:?} t={gt:?} returned for the state p={p:?} t={t:?}", oname(o)));
        }
    }
    if region_pt(p, T) == r {
        return Out::Ok(FN[k]);
    }
    // just beyond the region: still the state asked for
    if k <= 2 && T <= 623.15 && (p / psat(T) - 1.0).abs() < 0.02 && !((gt - t).abs() < 1.0) {
        return Out::Fail(format!("{l}, (t,{r})) = {gt:?} for the state p={p:?} t={t:?} of that region's equation"));
    }
    Out::Ok("beyond the region")
}
/// region 4 named: the lever rule between the saturated states, whatever the region
fn named_4(c: &Case) -> Out {
    let (p, t, k) = (c.f[0], c.f[1], [1usize, 2, 4, 5, 6, 7][c.i[0] as usize % 6]);
    let T = t + 273.15;
    let Some(st) = state(p, t) else { return Out::Skip };
    let bt = k >= 5;
    if !(bt && T < 640.0 || !bt && p > 6.2e-4 && p < 21.5) {
        return Out::Skip;
    }
    // regions 1 and 3 meet here: which of the two formulas gives the saturated liquid is round-off
    if (p - 16.5291642526045).abs() < 1e-6 || (T - 623.15).abs() < 1e-3 {
        return Out::Skip;
    }
    let (a, b) = args_st(k, p, t, &st);
    let l = lab(k, a, b);
    let o = OWN[k][1];
    let end = |x: f64, o: i32| if bt { s97::tx(t, x, o) } else { s97::px(p, x, o) };
    let (y0, y1) = (end(0.0, o), end(1.0, o));
    let x = (b - y0) / (y1 - y0);
    let got = call_r(k, a, b, 15, 4);
    if !((got - x).abs() <= 1e-7 * (1.0 + x.abs()) * (1.0 + (y0 / (y1 - y0)).abs())) {
        return Out::Fail(format!("{l}, (x,4)) = {got:?}; the lever rule gives {x:?}"));
    }
    let s = if bt { 0 } else { 1 };
    let (w, want) = (call_r(k, a, b, s, 4), end(0.5, s));
    if !((w - want).abs() <= 1e-9 * (want.abs() + 1.0)) {
        return Out::Fail(format!("{l}, ({},4)) = {w:?}; saturation has {want:?}", oname(s)));
    }
    for q in [3, 4, 5, 7] {
        if q == o {
            continue;
        }
        let (z0, z1, w) = (end(0.0, q), end(1.0, q), call_r(k, a, b, q, 4));
        let want = z0 + x * (z1 - z0);
        if !((w - want).abs() <= 1e-6 * (1.0 + x.abs()) * (z0.abs() + z1.abs())) {
            return Out::Fail(format!("{l}, ({},4)) = {w:?}; the lever rule gives {want:?}", oname(q)));
        }
    }
    Out::Ok(FN[k])
}
pub fn c17() -> Prop {
    const RN: &str = "non-trivial = a state of the named region for which every id was compared";
    Prop {
        id: "C17",
        assumptions: &["beyond its own region an equation is compared only where it extrapolates smoothly (v, cp, cv, w > 0)", "10 is the number for 'none named'"],
        setup: Some(crate::selfcheck::check),
        subs: vec![
            Sub { name: "detected", rule: "the state turned into the arguments of each of the 8 pairs; non-trivial = a region was detected; all 36 ids with it named, all 5 regions and a non-existing one asked for", gen: || (pt_any(), 0..8i64, region_no()).prop_map(|((p, t), k, r)| case(&[p, t], &[k, r])).boxed(), check: detected_state, quick: 400_000, deep: 8_000_000 },
            Sub { name: "plane", rule: "the plane of each pair in and out of range; non-trivial = a region was detected, as above", gen: || (plane_any(), region_no()).prop_map(|(c, r)| case(&c.f, &[c.i[1], r])).boxed(), check: plane_detected, quick: 600_000, deep: 8_000_000 },
            Sub { name: "pt", rule: RN, gen: || (prop_oneof![pt_any(), pt_meta()], 0..4i64).prop_map(|((p, t), k)| case(&[p, t], &[k])).boxed(), check: named_pt, quick: 800_000, deep: 15_000_000 },
            Sub { name: "pairs", rule: RN, gen: || (prop_oneof![pt_any(), pt_meta()], 0..7i64, 0..3i64).prop_map(|((p, t), k, r)| case(&[p, t], &[k, r])).boxed(), check: named_pair, quick: 800_000, deep: 15_000_000 },
            Sub { name: "named4", rule: "(p,t) turned into the arguments of one of the 6 pairs with p or t; non-trivial = x, the saturation value and v h s u with region 4 named compared with the lever rule", gen: || (prop_oneof![pt_any(), pt_meta()], 0..6i64).prop_map(|((p, t), k)| case(&[p, t], &[k])).boxed(), check: named_4, quick: 300_000, deep: 5_000_000 },
        ],
    }
}
fn plane_detected(c: &Case) -> Out {
    if c.i[0] >= 8 {
        return Out::Skip;
    }
    detected(c)
}
fn region_no() -> BoxedStrategy<i64> {
    prop_oneof![-3..14i64, alias(0..6), any::<i32>().prop_map(|x| x as i64)].boxed()
}
/// superheated water, subcooled steam: near the saturation line on both sides
fn pt_meta() -> BoxedStrategy<(f64, f64)> {
    (unit(), -0.5..0.5f64).prop_map(|(u, d)| { let T = lerp(273.15, 640.0, u); ((psat(T) * (1.0 + d)).clamp(PMIN, 100.0), T - 273.15) }).boxed()
}

// ------------------------------------------------------------------------------------------- C21
/// one call with anything; panics, aborts and hangs are seen by the driver
fn total(c: &Case) -> Out {
    let (a, b, k, o, r) = (c.f[0], c.f[1], c.i[0] as usize % 12, c.i[1] as i32, c.i[2] as i32);
    let w = if r == 10 { call(k, a, b, o) } else { call_r(k, a, b, o, r) };
    std::hint::black_box(w);
    if !a.is_finite() || !b.is_finite() {
        Out::Ok("not finite")
    } else if is_err(w) {
        Out::Ok("error value")
    } else {
        Out::Ok(FN[k])
    }
}
/// a point near a valid state with every id and region
fn total_state(c: &Case) -> Out {
    let (p, t, k, r) = (c.f[0], c.f[1], c.i[0] as usize % 12, c.i[1] as i32);
    let Some(st) = state(p, t) else { return Out::Skip };
    let (a, b) = match k {
        8 => (p, c.f[2]),
        9 => (t, c.f[2]),
        10 => (st.h, c.f[2]),
        11 => (st.s, c.f[2]),
        _ => args_st(k, p, t, &st),
    };
    let (a, b) = (a * (1.0 + c.f[3]), if k >= 8 { b } else { b * (1.0 + c.f[4]) });
    for o in ALL {
        std::hint::black_box(call(k, a, b, o));
        std::hint::black_box(call_r(k, a, b, o, r));
    }
    Out::Ok(FN[k])
}
pub fn any_ids() -> BoxedStrategy<i64> {
    prop_oneof![8 => 0..36i64, 1 => -10..80i64, 1 => alias(0..36), 1 => any::<i32>().prop_map(|x| x as i64)].boxed()
}
fn any_region() -> BoxedStrategy<i64> {
    prop_oneof![4 => Just(10i64), 6 => 1..6i64, 1 => -3..14i64, 1 => alias(0..6), 1 => any::<i32>().prop_map(|x| x as i64)].boxed()
}
fn bits() -> BoxedStrategy<f64> {
    prop_oneof![any::<u64>().prop_map(f64::from_bits), wild()].boxed()
}
pub fn c21() -> Prop {
    const R1: &str = "one call of one of the 12 functions with any id and region; every case counts";
    Prop {
        id: "C21",
        assumptions: &["a case that uses more than 20 s of CPU time (a nominal call takes microseconds), confirmed on replay, counts as not returning", "integer overflow checks are compiled in"],
        setup: None,
        subs: vec![
            Sub { name: "bits", rule: R1, gen: || (bits(), bits(), 0..12i64, any_ids(), any_region()).prop_map(|(a, b, k, o, r)| case(&[a, b], &[k, o, r])).boxed(), check: total, quick: 2_000_000, deep: 60_000_000 },
            Sub { name: "plane", rule: R1, gen: || (plane_any(), any_ids(), any_region()).prop_map(|(c, o, r)| case(&c.f, &[c.i[1], o, r])).boxed(), check: total, quick: 2_000_000, deep: 60_000_000 },
            Sub { name: "state", rule: "a valid state or its neighbourhood through one function, all 36 ids, detected and named region; every case counts", gen: || (pt_any(), unit(), off(), off(), 0..12i64, any_region()).prop_map(|((p, t), x, d, e, k, r)| case(&[p, t, x, d, e], &[k, r])).boxed(), check: total_state, quick: 250_000, deep: 6_000_000 },
        ],
    }
}
