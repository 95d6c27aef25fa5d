//! C22 C23: signs, derivatives, monotonicity, continuity
use super::api::*;
use super::pt::{rname, sure_region};
use crate::cmp::*;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use seuif97 as s97;

fn kel(t: f64) -> f64 {
    t + 273.15
}
// ------------------------------------------------------------------------------------------- C22
fn signs(c: &Case) -> Out {
    let (p, t) = (c.f[0], c.f[1]);
    let r = sure_region(p, kel(t));
    if r == 0 {
        return Out::Skip;
    }
    let f = |o: i32| s97::pt(p, t, o);
    let (cp, cv, w, v, d, kt, dvdp, dvdt, ec, dpdt, dv, tc, ks) = (f(8), f(9), f(10), f(3), f(2), f(18), f(20), f(19), f(17), f(21), f(24), f(26), f(11));
    let l = format!("pt({p:?}, {t:?})");
    if !(cv > 0.0 && cp >= cv * (1.0 - 1e-9) && cp.is_finite()) {
        return Out::Fail(format!("{l}: cp={cp:?} cv={cv:?} (region {r})"));
    }
    for (n, x) in [("w", w), ("v", v), ("d", d), ("kt", kt), ("dv", dv), ("tc", tc), ("ks", ks), ("-dvdp", -dvdp)] {
        if !(x > 0.0 && x.is_finite()) {
            return Out::Fail(format!("{l}: {n} = {x:?} (region {r})"));
        }
    }
    if dvdt * ec < 0.0 || dvdt * dpdt < 0.0 {
        return Out::Fail(format!("{l}: dvdt={dvdt:?} ec={ec:?} dpdt={dpdt:?} (region {r})"));
    }
    // only water below about 4 degC contracts on heating
    if ec <= 0.0 && (r != 1 || t > 4.1) {
        return Out::Fail(format!("{l}: ec = {ec:?} (region {r})"));
    }
    Out::Ok(rname(r))
}
/// integral of f over [a,b], its value at the ends and in between (Boole)
fn boole(a: f64, b: f64, f: &dyn Fn(f64) -> f64) -> f64 {
    let h = (b - a) / 4.0;
    (b - a) / 90.0 * (7.0 * f(a) + 32.0 * f(a + h) + 12.0 * f(a + 2.0 * h) + 32.0 * f(a + 3.0 * h) + 7.0 * f(b))
}
/// differences of the returned functions are integrals of the returned derivatives (regions 1 2 5)
fn integrals(c: &Case) -> Out {
    let (p, t, dt, dp) = (c.f[0], c.f[1], c.f[2], c.f[3]);
    let r = sure_region(p, kel(t));
    let (t2, p2) = (t + dt, p * (1.0 + dp));
    if r == 0 || r == 3 || sure_region(p, kel(t2)) != r || sure_region(p2, kel(t)) != r || sure_region(p, kel(t + 0.5 * dt)) != r {
        return Out::Skip;
    }
    let f = |p: f64, t: f64, o: i32| s97::pt(p, t, (o, r));
    let rt = R * kel(t);
    let isobar = |name: &str, o: i32, want: f64, mag: f64| -> Result<(), String> {
        let (a, b) = (f(p, t, o), f(p, t2, o));
        let d = b - a;
        if (d - want).abs() <= 2e-6 * want.abs() + 3e-13 * (a.abs() + mag) {
            Ok(())
        } else {
            Err(format!("isobar p={p:?} from t={t:?} to {t2:?} (region {r}): {name} changes by {d:?}, its derivative integrates to {want:?}"))
        }
    };
    let isotherm = |name: &str, o: i32, want: f64, mag: f64| -> Result<(), String> {
        let (a, b) = (f(p, t, o), f(p2, t, o));
        let d = b - a;
        if (d - want).abs() <= 2e-6 * want.abs() + 3e-13 * (a.abs() + mag) {
            Ok(())
        } else {
            Err(format!("isotherm t={t:?} from p={p:?} to {p2:?} (region {r}): {name} changes by {d:?}, its derivative integrates to {want:?}"))
        }
    };
    let v0 = f(p, t, 3);
    let res = (|| {
        isobar("h", 4, boole(t, t2, &|x| f(p, x, 8)), rt)?;
        isobar("s", 5, boole(t, t2, &|x| f(p, x, 8) / kel(x)), R)?;
        isobar("v", 3, boole(t, t2, &|x| f(p, x, 19)), v0)?;
        isobar("v (ec)", 3, boole(t, t2, &|x| f(p, x, 17) * f(p, x, 3)), v0)?;
        isobar("g", 13, boole(t, t2, &|x| -f(p, x, 5)), rt)?;
        isotherm("v", 3, boole(p, p2, &|x| f(x, t, 20)), v0)?;
        isotherm("v (kt)", 3, boole(p, p2, &|x| -f(x, t, 18) * f(x, t, 3)), v0)?;
        isotherm("g", 13, boole(p, p2, &|x| 1000.0 * f(x, t, 3)), rt)?;
        isotherm("s", 5, boole(p, p2, &|x| -1000.0 * f(x, t, 19)), R)?;
        // the part of h that depends on p can be small against v p
        let m = (p2 - p).abs() * 1000.0 * v0;
        isotherm("h", 4, boole(p, p2, &|x| 1000.0 * (f(x, t, 3) - kel(t) * f(x, t, 19))), rt + 3e6 * m)?;
        isotherm("h (ijtc)", 4, boole(p, p2, &|x| f(x, t, 22)), rt + 3e6 * m)?;
        Ok(())
    })();
    match res {
        Ok(()) => Out::Ok(rname(r)),
        Err(e) => Out::Fail(e),
    }
}
/// region 3, whose natural variables are (t,v)
fn integrals3(c: &Case) -> Out {
    let (p, t, dt, dv) = (c.f[0], c.f[1], c.f[2], c.f[3]);
    if sure_region(p, kel(t)) != 3 {
        return Out::Skip;
    }
    let v = state_in(3, p, kel(t)).v;
    let (t2, v2) = (t + dt, v * (1.0 + dv));
    let f = |t: f64, v: f64, o: i32| s97::tv(t, v, o);
    for (a, b) in [(t, v), (t2, v), (t, v2)] {
        if f(a, b, 16) != 3.0 {
            return Out::Skip;
        }
    }
    for e in [0.25, 0.5, 0.75] {
        if f(t + e * dt, v, 16) != 3.0 || f(t, v + e * (v2 - v), 16) != 3.0 {
            return Out::Skip;
        }
    }
    let rt = R * kel(t);
    let chk = |name: &str, line: &str, a: f64, b: f64, want: f64, mag: f64| -> Result<(), String> {
        let d = b - a;
        if (d - want).abs() <= 1e-5 * want.abs() + 1e-12 * (a.abs() + mag) {
            Ok(())
        } else {
            Err(format!("{line} from t={t:?} v={v:?} to t={t2:?}, v={v2:?} (region 3): {name} changes by {d:?}, its derivative integrates to {want:?}"))
        }
    };
    let ro = |o: i32| f(t, v, o);
    let ii = |o: i32| f(t2, v, o);
    let iv = |o: i32| f(t, v2, o);
    let res = (|| {
        chk("u", "isochor", ro(7), ii(7), boole(t, t2, &|x| f(x, v, 9)), rt)?;
        chk("s", "isochor", ro(5), ii(5), boole(t, t2, &|x| f(x, v, 9) / kel(x)), R)?;
        chk("p", "isochor", ro(0), ii(0), boole(t, t2, &|x| f(x, v, 21)), p)?;
        chk("f", "isochor", ro(12), ii(12), boole(t, t2, &|x| -f(x, v, 5)), rt)?;
        let m = 1000.0 * p * v;
        chk("p", "isotherm", ro(0), iv(0), boole(v, v2, &|x| 1.0 / f(t, x, 20)), p)?;
        chk("p (kt)", "isotherm", ro(0), iv(0), boole(v, v2, &|x| -1.0 / f(t, x, 18) / x), p)?;
        chk("f", "isotherm", ro(12), iv(12), boole(v, v2, &|x| -1000.0 * f(t, x, 0)), rt + m)?;
        chk("s", "isotherm", ro(5), iv(5), boole(v, v2, &|x| 1000.0 * f(t, x, 21)), R)?;
        Ok(())
    })();
    match res {
        Ok(()) => Out::Ok("region 3"),
        Err(e) => Out::Fail(e),
    }
}
/// any two states on an isobar or an isotherm, whatever their regions
fn mono(c: &Case) -> Out {
    let (p, t, q, u, bar) = (c.f[0], c.f[1], c.f[2], c.f[3], c.i[0] & 1 == 0);
    let (r1, r2) = (sure_region(p, kel(t)), if bar { sure_region(p, kel(u)) } else { sure_region(q, kel(t)) });
    if r1 == 0 || r2 == 0 {
        return Out::Skip;
    }
    // the published v(p,T) equations around the critical point have steps of percents
    let crit = |p: f64, t: f64| (kel(t) - TC).abs() < 6.0 && (p / PC - 1.0).abs() < 0.05;
    if crit(p, t) || bar && crit(p, u) || !bar && crit(q, t) {
        return Out::Skip;
    }
    let f = s97::pt::<i32>;
    let cross = r1 != r2 || r1 == 3;
    if bar {
        let (a, b) = if t < u { (t, u) } else { (u, t) };
        if b - a < 1e-6 {
            return Out::Trivial;
        }
        for (o, tol) in [(4, 0.5), (5, 1e-3), (7, 0.5)] {
            // u, too, rises with t at constant p except for cold water
            if o == 7 && a < 10.0 {
                continue;
            }
            let (x, y) = (f(p, a, o), f(p, b, o));
            if !(y > x - if cross { tol } else { 1e-11 * (x.abs() + 1.0) }) {
                return Out::Fail(format!("isobar p={p:?}: {} = {x:?} at t={a:?} but {y:?} at t={b:?}", oname(o)));
            }
        }
        let (x, y) = (f(p, a, 3), f(p, b, 3));
        if a > 5.0 && !(y > x * (1.0 - if cross { 2e-3 } else { 1e-12 })) {
            return Out::Fail(format!("isobar p={p:?}: v = {x:?} at t={a:?} but {y:?} at t={b:?}"));
        }
    } else {
        let (a, b) = if p < q { (p, q) } else { (q, p) };
        if rel(a, b) < 1e-6 {
            return Out::Trivial;
        }
        let (x, y) = (f(a, t, 3), f(b, t, 3));
        if !(y < x * (1.0 + if cross { 2e-3 } else { 1e-12 })) {
            return Out::Fail(format!("isotherm t={t:?}: v = {x:?} at p={a:?} but {y:?} at p={b:?}"));
        }
        let (x, y) = (f(a, t, 5), f(b, t, 5));
        if t > 5.0 && !(y < x + if cross { 1e-3 } else { 1e-12 * (x.abs() + 1.0) }) {
            return Out::Fail(format!("isotherm t={t:?}: s = {x:?} at p={a:?} but {y:?} at p={b:?}"));
        }
    }
    Out::Ok(match (r1.min(r2), r1.max(r2)) {
        (1, 1) => "1-1",
        (1, 2) => "1-2",
        (1, 3) => "1-3",
        (2, 2) => "2-2",
        (2, 3) => "2-3",
        (3, 3) => "3-3",
        (5, 5) => "5-5",
        _ => "to 5",
    })
}
fn step(a: f64, b: f64) -> BoxedStrategy<f64> {
    (unit(), any::<bool>()).prop_map(move |(u, s)| loglerp(a, b, u) * if s { 1.0 } else { -1.0 }).boxed()
}
pub fn c22() -> Prop {
    Prop {
        id: "C22",
        assumptions: &[
            "states within 1.1e-6 of the saturation line left out",
            "derivatives are integrated by Boole's rule over steps of 0.02-1 K and 0.05-1 %; agreement within 2e-6 (1e-5 in region 3)",
            "across region boundaries and inside region 3 (published v(p,T) approximation) monotonicity up to the published step sizes: 0.5 kJ/kg, 1 J/(kg K), 0.2 %",
        ],
        setup: None,
        subs: vec![
            Sub { name: "signs", rule: "single-phase (p,t); non-trivial = inside the range, off round-off ties", gen: || pt_case(pt_any()), check: signs, quick: 800_000, deep: 15_000_000 },
            Sub { name: "relations", rule: "single-phase (p,t), near-critical ones included; non-trivial = inside the range; 17 differential relations between the returned properties compared", gen: || pt_case(prop_oneof![2 => pt_any(), 1 => pt3(), 1 => (tiny(), tiny()).prop_map(|(a, b)| (PC * (1.0 + a), TC * (1.0 + b) - 273.15))].boxed()), check: super::pt::identities, quick: 600_000, deep: 10_000_000 },
            Sub { name: "integrals", rule: "steps in T and p inside regions 1 2 5; non-trivial = both steps stay in the region; 11 integral relations compared", gen: || (prop_oneof![pt1(), pt2(), pt5(), pt_edges(), pt_round()], step(0.02, 1.0), step(5e-4, 1e-2)).prop_map(|((p, t), a, b)| case(&[p, t, a, b], &[])).boxed(), check: integrals, quick: 400_000, deep: 6_000_000 },
            Sub { name: "integrals3", rule: "steps in T and v inside region 3; non-trivial = both steps stay in the region; 8 integral relations compared", gen: || (pt3(), step(0.02, 1.0), step(5e-4, 1e-2)).prop_map(|((p, t), a, b)| case(&[p, t, a, b], &[])).boxed(), check: integrals3, quick: 200_000, deep: 3_000_000 },
            Sub { name: "monotone", rule: "two states on one isobar or isotherm, near or far, same or different regions; non-trivial = distinct", gen: || (pt_any(), prop_oneof![pt_any(), (Just(0.0), Just(0.0)).boxed()], tiny(), any::<bool>()).prop_map(|((p, t), (q, u), e, b)| { let near = q == 0.0; case(&[p, t, if near { p * (1.0 + e) } else { q }, if near { t + e * kel(t) } else { u }], &[b as i64]) }).boxed(), check: mono, quick: 800_000, deep: 15_000_000 },
        ],
    }
}
// ------------------------------------------------------------------------------------------- C23
fn near_crit(p: f64, T: f64) -> bool {
    (T - TC).abs() < 6.0 && (p / PC - 1.0).abs() < 0.05
}
/// largest admissible steps between two adjacent states: temperature K, pressure relative, and
/// the published consistency of the basic equations (IF97 section 10: v 0.05 %, h 0.2 kJ/kg,
/// s 0.2 J/(kg K), cp 1 %, w 2 %)
struct Lim {
    T: f64,
    p: f64,
    v: f64,
    h: f64,
    s: f64,
    cp: f64,
    w: f64,
}
fn compare(l: &str, ga: &dyn Fn(i32) -> f64, gb: &dyn Fn(i32) -> f64, m: &Lim, wet: bool) -> Result<(), String> {
    let (pa, ta, pb, tb) = (ga(0), ga(1), gb(0), gb(1));
    let bad = |n: &str, a: f64, b: f64, lim: f64| format!("{l}: {n} = {a:?} on one side, {b:?} on the other (step {:.2e}, allowed {lim:.1e})", (a - b).abs());
    if !((ta - tb).abs() <= m.T) {
        return Err(bad("t", ta, tb, m.T));
    }
    if !((pa - pb).abs() <= m.p * pa) {
        return Err(bad("p", pa, pb, m.p * pa));
    }
    let (T, p) = (kel(ta), pa);
    // sensitivities of the single-phase side
    let (ec, kt, cp) = if wet { (0.0, 0.0, 4.0) } else { (ga(17).abs().max(gb(17).abs()), ga(18).max(gb(18)), ga(8).max(gb(8))) };
    let (va, vb) = (ga(3), gb(3));
    // wet side: the quality where the published boundary is crossed is good to 1e-4
    let lv = if wet { va * 2e-3 + 1e-4 * R * T / (1000.0 * p) } else { va * (m.v + ec * m.T + kt * p * m.p) };
    if !((va - vb).abs() <= lv) {
        return Err(bad("v", va, vb, lv));
    }
    let lh = m.h + cp * m.T + 1000.0 * va * (1.0 + T * ec) * p * m.p;
    for o in [4, 7] {
        if !((ga(o) - gb(o)).abs() <= lh) {
            return Err(bad(&oname(o), ga(o), gb(o), lh));
        }
    }
    let ls = m.s + cp / T * m.T + 1000.0 * va * ec * p * m.p;
    if !((ga(5) - gb(5)).abs() <= ls) {
        return Err(bad("s", ga(5), gb(5), ls));
    }
    if wet {
        return Ok(());
    }
    for (o, lim) in [(8, m.cp), (9, m.cp), (10, m.w), (24, 10.0 * m.v), (26, 10.0 * m.v)] {
        let (a, b) = (ga(o), gb(o));
        let near = 3.0 * (ec * m.T + kt * p * m.p);
        if !((a - b).abs() <= a * (lim + near)) {
            return Err(bad(&oname(o), a, b, a * (lim + near)));
        }
    }
    Ok(())
}
/// (p,t) on both sides of a boundary of regions or subregions
fn edge_pt(c: &Case) -> Out {
    let (kind, u, e) = (c.i[0] as usize, c.f[0], c.f[1].abs().clamp(1e-13, 1e-9));
    let (p, T, along_p) = match kind {
        0 => (lerp(P623, 100.0, u), 623.15, false),
        1 => {
            let T = lerp(623.15, 863.15, u);
            (b23_p(T), T, c.i[1] & 1 == 0)
        }
        2 => (loglerp(PMIN, 50.0, u), 1073.15, false),
        3 => {
            let (n, lo, hi) = BNDS[c.i[1] as usize % BNDS.len()];
            let p = lerp(lo, hi, u);
            (p, bnd3(n, p), false)
        }
        _ => {
            let p = P3LIM[1 + c.i[1] as usize % 10];
            (p, lerp(623.15, b23_t(p), u), true)
        }
    };
    let (a, b) = if along_p { ((p * (1.0 - e), T), (p * (1.0 + e), T)) } else { ((p, T * (1.0 - e)), (p, T * (1.0 + e))) };
    let (ra, rb) = (sure_region(a.0, a.1), sure_region(b.0, b.1));
    if ra == 0 || rb == 0 {
        return Out::Skip;
    }
    if near_crit(p, T) {
        return Out::Skip;
    }
    // sides of the saturation line are different phases
    if T < TC && (p / psat(T) - 1.0).abs() < 1e-6 {
        return Out::Skip;
    }
    let ga = |o: i32| s97::pt(a.0, k2c(a.1), o);
    let gb = |o: i32| s97::pt(b.0, k2c(b.1), o);
    let inner = kind >= 3;
    let m = Lim { T: 1e-5, p: 1e-8, v: 5e-4, h: 0.2, s: 2e-4, cp: if inner { 0.03 } else { 0.01 }, w: if inner { 0.01 } else { 0.02 } };
    match compare(&format!("pt at p={p:?} t={:?}", k2c(T)), &ga, &gb, &m, false) {
        Ok(()) => {
            if ra != rb || inner {
                Out::Ok(["1|3", "2|3", "2|5", "subregions of 3 in t", "subregions of 3 in p"][kind.min(4)])
            } else {
                Out::Trivial
            }
        }
        Err(e) => Out::Fail(e),
    }
}
/// other pairs: bisection between two argument values of different region, then the two
/// neighbouring doubles are compared
fn crossing(c: &Case) -> Out {
    let (a, b1, b2, k) = (c.f[0], c.f[1], c.f[2], 1 + c.i[0] as usize % 7);
    let reg = |b: f64| call(k, a, b, 16);
    let (r1, r2) = (reg(b1), reg(b2));
    if is_err(r1) || is_err(r2) || r1 == r2 {
        return Out::Skip;
    }
    let (mut x, mut y) = (b1, b2);
    for _ in 0..80 {
        let m = 0.5 * (x + y);
        if m == x || m == y {
            break;
        }
        if reg(m) == r1 {
            x = m;
        } else {
            y = m;
        }
    }
    let r2 = reg(y);
    let l = format!("{} where region {r1} meets {r2}", lab(k, a, x));
    if is_err(r2) {
        // a hole between two valid states; the surfaces of regions 2 and 5 do not quite meet in (h,s)
        if k == 3 && (call(k, a, x, 1) - 800.0).abs() < 0.5 {
            return Out::Trivial;
        }
        return Out::Fail(format!("{l}: a refused point between two accepted ones ({b1:?} and {b2:?})"));
    }
    let f = |b: f64| move |o: i32| call(k, a, b, o);
    let (fa, fb) = (f(x), f(y));
    let (p, T) = (fa(0), kel(fa(1)));
    if near_crit(p, T) || near_crit(fb(0), kel(fb(1))) {
        return Out::Skip;
    }
    // (t,h) and (t,s) of cold water occur at two pressures: which is returned changes there
    if k >= 6 && r1.min(r2) == 1.0 && r1.max(r2) == 4.0 && rel(p, fb(0)) > 1e-3 {
        return Out::Trivial;
    }
    let wet = r1 == 4.0 || r2 == 4.0;
    let five = r1 == 5.0 || r2 == 5.0;
    let three = r1 == 3.0 || r2 == 3.0;
    let m = Lim { T: if five { 0.25 } else { 0.05 }, p: if k == 3 { 1e-2 } else { 1e-3 }, v: if three { 2e-3 } else { 5e-4 }, h: 0.3, s: 5e-4, cp: 0.03, w: 0.03 };
    match compare(&l, &fa, &fb, &m, wet) {
        Ok(()) => Out::Ok(FN[k]),
        Err(e) => Out::Fail(e),
    }
}
/// both sides of a boundary between the subregions of the backward equations
fn edge_back(c: &Case) -> Out {
    let (kind, u, w, e) = (c.i[0] as usize, c.f[0], c.f[1], c.f[2].abs().clamp(1e-13, 1e-9));
    const SC: f64 = 4.41202148223476;
    let (k, a, b, along_a) = match kind {
        0 => (1, 4.0, lerp(2800.0, 4100.0, u), true),
        1 => {
            let p = lerp(6.6, 100.0, u);
            (1, p, 0.26526571908428e4 + ((p - 0.45257578905948e1) / 0.12809002730136e-3).sqrt(), false)
        }
        2 => {
            let p = lerp(P623, 100.0, u);
            (1, p, h3ab(p), false)
        }
        3 => (2, 4.0, lerp(6.0, 8.0, u), true),
        4 => (2, lerp(6.6, 100.0, u), 5.85, false),
        5 => (2, lerp(P623, 100.0, u), SC, false),
        6 => {
            let s = lerp(5.85, 9.15, u);
            (3, h2ab_s(s), s, true)
        }
        7 => (3, lerp(2600.0, 4100.0, u), 5.85, false),
        _ => (3, lerp(1700.0, 2800.0, u), SC, false),
    };
    let _ = w;
    let (x, y) = if along_a { ((a * (1.0 - e), b), (a * (1.0 + e), b)) } else { ((a, b * (1.0 - e)), (a, b * (1.0 + e))) };
    let ga = |o: i32| call(k, x.0, x.1, o);
    let gb = |o: i32| call(k, y.0, y.1, o);
    let (ra, rb) = (ga(16), gb(16));
    if ra != rb || ra == 4.0 || is_err(ra) {
        return Out::Skip;
    }
    if near_crit(ga(0), kel(ga(1))) {
        return Out::Skip;
    }
    let m = Lim { T: 0.05, p: if k == 3 { 2e-3 } else { 1e-3 }, v: if ra == 3.0 { 2e-3 } else { 5e-4 }, h: 0.3, s: 5e-4, cp: 0.03, w: 0.02 };
    match compare(&lab(k, a, b), &ga, &gb, &m, false) {
        Ok(()) => Out::Ok(["ph 2ab", "ph 2bc", "ph 3ab", "ps 2ab", "ps 2bc", "ps 3ab", "hs 2ab", "hs 2bc", "hs 3ab"][kind.min(8)]),
        Err(e) => Out::Fail(e),
    }
}
/// saturated states on both sides of the limits between the equations used for them
fn edge_sat(c: &Case) -> Out {
    let (x, e, j) = (c.f[0], c.f[1].abs().clamp(1e-13, 1e-9), c.i[0] as usize % 6);
    let p = [P623, 19.0088, 20.5, 21.0434, 21.9009, 21.9316][j];
    let bt = c.i[1] & 1 == 0;
    let t = k2c(if j == 0 { 623.15 } else { tsat(p) });
    let (a, f): (f64, fn(f64, f64, i32) -> f64) = if bt { (kel(t), |a, x, o| s97::tx(k2c(a), x, o)) } else { (p, |a, x, o| s97::px(a, x, o)) };
    let (lo, hi) = (a * (1.0 - e), a * (1.0 + e));
    for o in [0, 1, 3, 4, 5, 7] {
        let (y, z) = (f(lo, x, o), f(hi, x, o));
        let lim = match o {
            0 | 1 => 1e-6 * y.abs(),
            // published steps of the saturated volumes grow towards the critical point
            3 => [1e-3, 1e-3, 1e-3, 1e-3, 6e-2, 6e-2][j] * y,
            5 => [1e-3, 1e-3, 1e-3, 1e-3, 3e-2, 3e-2][j],
            _ => [0.5, 0.5, 0.5, 0.5, 18.0, 18.0][j],
        };
        if !((y - z).abs() <= lim) {
            return Out::Fail(format!("{}({a:?}, {x:?}, {}): {y:?} below, {z:?} above", if bt { "tx" } else { "px" }, oname(o)));
        }
    }
    Out::Ok(if bt { "tx" } else { "px" })
}
/// inside one region: bisection between two states towards the larger change, down to adjacent
/// doubles, finds a step wherever it is
fn jumps(c: &Case) -> Out {
    let (k, o) = (c.i[0] as usize % 10, [0, 1, 3, 4, 5, 10][c.i[2] as usize % 6]);
    let second = c.i[1] & 1 == 0;
    let (a, b, to) = (c.f[0], c.f[1], c.f[2]);
    let f = |z: f64, o: i32| if second { call(k, a, z, o) } else { call(k, z, b, o) };
    let r = f(if second { b } else { a }, 16);
    let o = if o == 10 && r == 4.0 { 3 } else { o };
    if is_err(r) || f(to, 16) != r {
        return Out::Skip;
    }
    let (mut x, mut y) = (if second { b } else { a }, to);
    let (mut fx, mut fy) = (f(x, o), f(y, o));
    for _ in 0..90 {
        let m = 0.5 * (x + y);
        if m == x || m == y {
            break;
        }
        if f(m, 16) != r {
            return Out::Skip; // the region is not convex: crossing() looks at its boundary
        }
        let fm = f(m, o);
        if (fx - fm).abs() > (fy - fm).abs() {
            (y, fy) = (m, fm);
        } else {
            (x, fx) = (m, fm);
        }
    }
    let l = if second { format!("{} inside region {r}", lab(k, a, x)) } else { format!("{} inside region {r}", lab(k, x, b)) };
    let (ga, gb) = (|o: i32| f(x, o), |o: i32| f(y, o));
    let (p, T) = (ga(0), kel(ga(1)));
    // the published p(h,s) of region 1 is good to 0.015 MPa: it may be negative at low pressures
    if k == 3 && r == 1.0 && p < 0.05 {
        return Out::Trivial;
    }
    if near_crit(p, T) || (r == 4.0 && T > 643.0) {
        return Out::Skip;
    }
    // (t,h) and (t,s) of cold and of hot water occur at two pressures
    if (k == 6 || k == 7) && r == 1.0 && rel(p, gb(0)) > 1e-6 {
        return Out::Trivial;
    }
    let m = match (k, r as i32) {
        (0, 3) | (4..=7, 3) => Lim { T: 1e-3, p: 1e-3, v: 1e-3, h: 0.2, s: 2e-4, cp: 0.03, w: 0.01 },
        (1..=3, 2 | 3) => Lim { T: 0.05, p: if k == 3 { 2e-3 } else { 1e-3 }, v: if r == 3.0 { 2e-3 } else { 5e-4 }, h: 0.3, s: 5e-4, cp: 0.03, w: 0.02 },
        (_, 4) => Lim { T: 1e-3, p: 1e-4, v: 1e-3, h: 0.2, s: 5e-4, cp: 0.01, w: 0.01 },
        // the secant ends within 1e-8 m3/kg, K or MPa
        (4, 2 | 5) => Lim { T: 5e-3, p: 1e-6, v: 2e-5, h: 0.02, s: 2e-5, cp: 1e-4, w: 1e-4 },
        _ => Lim { T: 1e-5, p: 1e-5 + if k >= 3 { 1e-7 / p } else { 0.0 }, v: 1e-6, h: 1e-3, s: 1e-5, cp: 1e-5, w: 1e-5 },
    };
    match compare(&l, &ga, &gb, &m, r == 4.0) {
        Ok(()) => Out::Ok(FN[k]),
        Err(e) => Out::Fail(e),
    }
}
fn g_jump() -> BoxedStrategy<Case> {
    (prop_oneof![3 => pt_any(), 1 => tx_sat().prop_map(|(t, x)| (-x, t)).boxed()], pt_any(), unit(), 0..10usize, any::<bool>(), 0..6i64, -0.2..0.2f64, any::<bool>())
        .prop_filter_map("state", |((p, t), (q, u), w, k, second, o, e, near)| {
            let args = |p: f64, t: f64| -> Option<(f64, f64)> {
                if p <= 0.0 || k >= 8 {
                    // wet steam: quality -p, or the generated one
                    let x = if p <= 0.0 { -p } else { w };
                    let T = kel(t.clamp(0.0, 369.8));
                    let (t, ps) = (k2c(T), psat(T));
                    return Some(match k {
                        0 => return None,
                        8 => (ps, x),
                        9 => (t, x),
                        _ => {
                            let y = |o: i32| s97::tx(t, x, o);
                            let id = OWN[k];
                            (if id[0] == 0 { ps } else if id[0] == 1 { t } else { y(id[0]) }, y(id[1]))
                        }
                    });
                }
                let r = sure_region(p, kel(t));
                if r == 0 {
                    return None;
                }
                Some(if k == 0 { (p, t) } else { args_st(k, p, t, &state_in(r, p, kel(t))) })
            };
            let (a, b) = args(p, t)?;
            let to = if near {
                (if second { b } else { a }) * (1.0 + e)
            } else {
                let (a2, b2) = args(q, u)?;
                if second { b2 } else { a2 }
            };
            Some(case(&[a, b, to], &[k as i64, !second as i64, o]))
        })
        .boxed()
}
pub fn c23() -> Prop {
    Prop {
        id: "C23",
        assumptions: &["consistency of the basic equations at the boundaries as IAPWS requires: v 0.05 %, h 0.2 kJ/kg, s 0.2 J/(kg K), cp 1 %, w 2 %", "within 6 K and 5 % of the critical point not compared"],
        setup: Some(crate::selfcheck::check),
        subs: vec![
            Sub { name: "pt", rule: "a point of a boundary 1|3, 2|3, 2|5 or between subregions of 3, both sides at 1e-13..1e-9; non-trivial = the sides are in different (sub)regions", gen: || (0..5i64, 0..1000i64, unit(), tiny()).prop_map(|(k, j, u, e)| case(&[u, e], &[k, j])).boxed(), check: edge_pt, quick: 600_000, deep: 10_000_000 },
            Sub { name: "pairs", rule: "two points of one pair, equal in the first argument, of different regions, bisected to adjacent doubles; non-trivial = the neighbours have different valid regions", gen: g_cross, check: crossing, quick: 1_500_000, deep: 20_000_000 },
            Sub { name: "backward", rule: "a point of a boundary between subregions of the equations of (p,h) (p,s) (h,s), both sides at 1e-13..1e-9; non-trivial = valid single-phase states of one region", gen: || (0..9i64, unit(), unit(), tiny()).prop_map(|(k, u, w, e)| case(&[u, w, e], &[k])).boxed(), check: edge_back, quick: 400_000, deep: 5_000_000 },
            Sub { name: "sat", rule: "px and tx on both sides of the limits between the equations of the saturated states; every case counts", gen: || (prop_oneof![Just(0.0), Just(1.0), unit()], tiny(), 0..6i64, 0..2i64).prop_map(|(x, e, j, k)| case(&[x, e], &[j, k])).boxed(), check: edge_sat, quick: 50_000, deep: 500_000 },
            Sub { name: "jumps", rule: "two states of one region that differ in one argument of any of ten functions, bisected towards the larger change down to adjacent doubles; non-trivial = never left the region, neighbours compared", gen: g_jump, check: jumps, quick: 800_000, deep: 15_000_000 },
        ],
    }
}
fn g_cross() -> BoxedStrategy<Case> {
    (pt_any(), pt_any(), 0..7usize, -0.05..0.05f64, any::<bool>())
        .prop_filter_map("state", |((p, t), (q, u), k, e, near)| {
            if sure_region(p, kel(t)) == 0 || sure_region(q, kel(u)) == 0 {
                return None;
            }
            let kk = k + 1;
            let st = state_in(sure_region(p, kel(t)), p, kel(t));
            let (a, b1) = args_st(kk, p, t, &st);
            let b2 = if near {
                b1 * (1.0 + e)
            } else {
                // the second argument of a state with the same first argument, where that is p or t
                let (p2, t2) = if kk == 1 || kk == 2 || kk == 4 { (p, u) } else { (q, t) };
                let r = sure_region(p2, kel(t2));
                if r == 0 {
                    return None;
                }
                args_st(kk, p2, t2, &state_in(r, p2, kel(t2))).1
            };
            Some(case(&[a, b1, b2], &[k as i64]))
        })
        .boxed()
}
