//! Reference model of IAPWS-IF97, written independently of the code under test:
//! one generic second-order evaluation of the dimensionless potentials, and every property
//! derived from (v, cp, dv/dT, dv/dp) through general thermodynamic identities.
#![allow(non_snake_case, non_upper_case_globals)]
use crate::tables::*;

pub const R: f64 = 0.461526;
pub const TC: f64 = 647.096;
pub const PC: f64 = 22.064;
pub const DC: f64 = 322.0;
pub const TT: f64 = 273.16;
pub const PMIN: f64 = 0.000611212677444; // psat(273.15 K)
pub const P623: f64 = 16.5291642526045; // psat(623.15 K)
pub const SC: f64 = 4.41202148223476;

/// value, first and second derivatives of a two-variable function
#[derive(Clone, Copy, Debug, Default)]
pub struct J2 {
    pub f: f64,
    pub a: f64,
    pub b: f64,
    pub aa: f64,
    pub ab: f64,
    pub bb: f64,
}

fn ipow(x: f64, n: f64) -> f64 {
    if n == 0.0 {
        1.0
    } else {
        x.powi(n as i32)
    }
}

/// sum n * a^I * b^J with derivatives (all exponents integral)
pub fn poly(t: &[T3], a: f64, b: f64) -> J2 {
    let mut r = J2::default();
    for &(i, j, n) in t {
        let pa = ipow(a, i);
        let pb = ipow(b, j);
        let pa1 = if i == 0.0 { 0.0 } else { i * ipow(a, i - 1.0) };
        let pb1 = if j == 0.0 { 0.0 } else { j * ipow(b, j - 1.0) };
        let pa2 = if i == 0.0 || i == 1.0 { 0.0 } else { i * (i - 1.0) * ipow(a, i - 2.0) };
        let pb2 = if j == 0.0 || j == 1.0 { 0.0 } else { j * (j - 1.0) * ipow(b, j - 2.0) };
        r.f += n * pa * pb;
        r.a += n * pa1 * pb;
        r.b += n * pa * pb1;
        r.aa += n * pa2 * pb;
        r.ab += n * pa1 * pb1;
        r.bb += n * pa * pb2;
    }
    r
}
pub fn val(t: &[T3], a: f64, b: f64) -> f64 {
    let mut s = 0.0;
    for &(i, j, n) in t {
        s += n * ipow(a, i) * ipow(b, j);
    }
    s
}

/// Every property of a single-phase state.
#[derive(Clone, Copy, Debug)]
pub struct St {
    pub reg: i32,
    pub p: f64,
    pub T: f64,
    pub v: f64,
    pub h: f64,
    pub s: f64,
    pub u: f64,
    pub f: f64,
    pub g: f64,
    pub cp: f64,
    pub cv: f64,
    pub w: f64,
    pub dvdt: f64,
    pub dvdp: f64,
    pub dpdt: f64,
    /// Gibbs energy of the ideal-gas part (regions 2 and 5)
    pub g0: f64,
}

fn finish(reg: i32, p: f64, T: f64, v: f64, g: f64, s: f64, cp: f64, dvdt: f64, dvdp: f64, g0: f64) -> St {
    let h = g + T * s;
    let u = h - 1000.0 * p * v;
    let cv = cp + 1000.0 * T * dvdt * dvdt / dvdp;
    let dvdp_s = dvdp + 1000.0 * T * dvdt * dvdt / cp;
    let w2 = -v * v / dvdp_s * 1.0e6;
    St {
        reg,
        p,
        T,
        v,
        h,
        s,
        u,
        f: u - T * s,
        g,
        cp,
        cv,
        w: w2.sqrt(),
        dvdt,
        dvdp,
        dpdt: -dvdt / dvdp,
        g0,
    }
}

fn from_gamma(reg: i32, p: f64, T: f64, ps: f64, ts: f64, gm: J2, g0: f64) -> St {
    // gm: derivatives with respect to pi and tau
    let tau = ts / T;
    let g = R * T * gm.f;
    let s = R * (tau * gm.b - gm.f);
    let v = R * T / ps * gm.a / 1000.0;
    let cp = -R * tau * tau * gm.bb;
    let dvdt = R / (1000.0 * ps) * (gm.a - tau * gm.ab);
    let dvdp = R * T * gm.aa / (1000.0 * ps * ps);
    finish(reg, p, T, v, g, s, cp, dvdt, dvdp, g0)
}

pub fn reg1(p: f64, T: f64) -> St {
    let pi = p / 16.53;
    let tau = 1386.0 / T;
    let q = poly(&G1, 7.1 - pi, tau - 1.222);
    let gm = J2 { f: q.f, a: -q.a, b: q.b, aa: q.aa, ab: -q.ab, bb: q.bb };
    from_gamma(1, p, T, 16.53, 1386.0, gm, 0.0)
}

const J02: [(f64, f64); 9] = [
    (0.0, -0.96927686500217e1),
    (1.0, 0.10086655968018e2),
    (-5.0, -0.56087911283020e-2),
    (-4.0, 0.71452738081455e-1),
    (-3.0, -0.40710498223928),
    (-2.0, 0.14240819171444e1),
    (-1.0, -0.43839511319450e1),
    (2.0, -0.28408632460772),
    (3.0, 0.21268463753307e-1),
];
const J05: [(f64, f64); 6] = [
    (0.0, -0.13179983674201e2),
    (1.0, 0.68540841634434e1),
    (-3.0, -0.24805148933466e-1),
    (-2.0, 0.36901534980333),
    (-1.0, -0.31161318213925e1),
    (2.0, -0.32961626538917),
];
fn ideal(j0: &[(f64, f64)], pi: f64, tau: f64) -> J2 {
    let mut r = J2 { f: pi.ln(), a: 1.0 / pi, b: 0.0, aa: -1.0 / (pi * pi), ab: 0.0, bb: 0.0 };
    for &(j, n) in j0 {
        r.f += n * ipow(tau, j);
        if j != 0.0 {
            r.b += n * j * ipow(tau, j - 1.0);
        }
        if j != 0.0 && j != 1.0 {
            r.bb += n * j * (j - 1.0) * ipow(tau, j - 2.0);
        }
    }
    r
}
fn add(x: J2, y: J2) -> J2 {
    J2 { f: x.f + y.f, a: x.a + y.a, b: x.b + y.b, aa: x.aa + y.aa, ab: x.ab + y.ab, bb: x.bb + y.bb }
}
pub fn reg2(p: f64, T: f64) -> St {
    let tau = 540.0 / T;
    let i = ideal(&J02, p, tau);
    let r = poly(&G2R, p, tau - 0.5);
    from_gamma(2, p, T, 1.0, 540.0, add(i, r), R * T * i.f)
}
pub fn reg5(p: f64, T: f64) -> St {
    let tau = 1000.0 / T;
    let i = ideal(&J05, p, tau);
    let r = poly(&G5R, p, tau);
    from_gamma(5, p, T, 1.0, 1000.0, add(i, r), R * T * i.f)
}
/// region 3 from density and temperature
pub fn reg3(d: f64, T: f64) -> St {
    const N1: f64 = 0.10658070028513e1;
    let de = d / DC;
    let tau = TC / T;
    let q = poly(&F3, de, tau);
    let f = J2 { f: q.f + N1 * de.ln(), a: q.a + N1 / de, b: q.b, aa: q.aa - N1 / (de * de), ab: q.ab, bb: q.bb };
    let rt = R * T;
    let p = d * rt * de * f.a / 1000.0; // MPa
    let a = rt * f.f; // Helmholtz
    let s = R * (tau * f.b - f.f);
    let cv = -R * tau * tau * f.bb;
    let dpdd = rt / 1000.0 * (2.0 * de * f.a + de * de * f.aa);
    let dpdt = R * d / 1000.0 * (de * f.a - de * tau * f.ab);
    let v = 1.0 / d;
    let dpdv = -d * d * dpdd;
    let dvdp = 1.0 / dpdv;
    let dvdt = -dpdt / dpdv;
    let cp = cv + 1000.0 * T * dpdt * dpdt / (d * d * dpdd);
    let u = a + T * s;
    let w2 = (dpdd + 1000.0 * T * dpdt * dpdt / (d * d * cv) ) * 1.0e6;
    St {
        reg: 3,
        p,
        T,
        v,
        h: u + 1000.0 * p * v,
        s,
        u,
        f: a,
        g: a + 1000.0 * p * v,
        cp,
        cv,
        w: w2.sqrt(),
        dvdt,
        dvdp,
        dpdt,
        g0: 0.0,
    }
}

// ---------------------------------------------------------------- region 4
const N4: [f64; 10] = [
    0.11670521452767e4,
    -0.72421316703206e6,
    -0.17073846940092e2,
    0.12020824702470e5,
    -0.32325550322333e7,
    0.14915108613530e2,
    -0.48232657361591e4,
    0.40511340542057e6,
    -0.23855557567849,
    0.65017534844798e3,
];
pub fn psat(T: f64) -> f64 {
    let n = N4;
    let th = T + n[8] / (T - n[9]);
    let a = th * th + n[0] * th + n[1];
    let b = n[2] * th * th + n[3] * th + n[4];
    let c = n[5] * th * th + n[6] * th + n[7];
    let x = 2.0 * c / (-b + (b * b - 4.0 * a * c).sqrt());
    x * x * x * x
}
pub fn tsat(p: f64) -> f64 {
    let n = N4;
    let be = p.sqrt().sqrt();
    let e = be * be + n[2] * be + n[5];
    let f = n[0] * be * be + n[3] * be + n[6];
    let g = n[1] * be * be + n[4] * be + n[7];
    let d = 2.0 * g / (-f - (f * f - 4.0 * e * g).sqrt());
    (n[9] + d - ((n[9] + d) * (n[9] + d) - 4.0 * (n[8] + n[9] * d)).sqrt()) / 2.0
}
pub fn b23_p(T: f64) -> f64 {
    0.34805185628969e3 - 0.11671859879975e1 * T + 0.10192970039326e-2 * T * T
}
pub fn b23_t(p: f64) -> f64 {
    0.57254459862746e3 + ((p - 0.13918839778870e2) / 0.10192970039326e-2).sqrt()
}

// ---------------------------------------------------------------- region 3 v(p,T)
pub fn bnd3(k: &str, p: f64) -> f64 {
    let l = p.ln();
    let pol = |c: &[f64]| c.iter().rev().fold(0.0, |a, &x| a * p + x);
    let lg = |c0: f64, c1: f64, c2: f64, m1: f64, m2: f64| c0 + c1 * l + c2 * l * l + m1 / l + m2 / (l * l);
    match k {
        "ab" => lg(0.154793642129415e4, -0.187661219490113e3, 0.213144632222113e2, -0.191887498864292e4, 0.918419702359447e3),
        "op" => lg(0.969461372400213e3, -0.332500170441278e3, 0.642859598466067e2, 0.773845935768222e3, -0.152313732937084e4),
        "wx" => lg(0.728052609145380e1, 0.973505869861952e2, 0.147370491183191e2, 0.329196213998375e3, 0.873371668682417e3),
        "ef" => 3.727888004 * (p - 22.064) + 647.096,
        "cd" => pol(&[0.585276966696349e3, 0.278233532206915e1, -0.127283549295878e-1, 0.159090746562729e-3]),
        "gh" => pol(&[-0.249284240900418e5, 0.428143584791546e4, -0.269029173140130e3, 0.751608051114157e1, -0.787105249910383e-1]),
        "ij" => pol(&[0.584814781649163e3, -0.616179320924617, 0.260763050899562, -0.587071076864459e-2, 0.515308185433082e-4]),
        "jk" => pol(&[0.617229772068439e3, -0.770600270141675e1, 0.697072596851896, -0.157391839848015e-1, 0.137897492684194e-3]),
        "mn" => pol(&[0.535339483742384e3, 0.761978122720128e1, -0.158365725441648, 0.192871054508108e-2]),
        "qu" => pol(&[0.565603648239126e3, 0.529062258221222e1, -0.102020639611016, 0.122240301070145e-2]),
        "rx" => pol(&[0.584561202520006e3, -0.102961025163669e1, 0.243293362700452, -0.294905044740799e-2]),
        "uv" => pol(&[0.528199646263062e3, 0.890579602135307e1, -0.222814134903755, 0.286791682263697e-2]),
        _ => unreachable!(),
    }
}
pub const P3CD: f64 = 19.00881189173929;
/// Table 2 and Table 10 of the v(p,T) supplementary release
pub fn sub3(p: f64, T: f64) -> char {
    let le = |k: &str| T <= bnd3(k, p);
    let pick = |ks: &[(&str, char)], last: char| {
        for &(k, c) in ks {
            if le(k) {
                return c;
            }
        }
        last
    };
    if p > 40.0 {
        return pick(&[("ab", 'a')], 'b');
    }
    if p > 25.0 {
        return pick(&[("cd", 'c'), ("ab", 'd'), ("ef", 'e')], 'f');
    }
    if p > 23.5 {
        return pick(&[("cd", 'c'), ("gh", 'g'), ("ef", 'h'), ("ij", 'i'), ("jk", 'j')], 'k');
    }
    if p > 23.0 {
        return pick(&[("cd", 'c'), ("gh", 'l'), ("ef", 'h'), ("ij", 'i'), ("jk", 'j')], 'k');
    }
    if p > 22.5 {
        return pick(
            &[("cd", 'c'), ("gh", 'l'), ("mn", 'm'), ("ef", 'n'), ("op", 'o'), ("ij", 'p'), ("jk", 'j')],
            'k',
        );
    }
    if p > psat(643.15) {
        if le("cd") {
            return 'c';
        }
        if le("qu") {
            return 'q';
        }
        if !le("rx") {
            return if le("jk") { 'r' } else { 'k' };
        }
        // around the critical point
        if p > 22.11 {
            return pick(&[("uv", 'u'), ("ef", 'v'), ("wx", 'w')], 'x');
        }
        if p > 22.064 {
            return pick(&[("uv", 'u'), ("ef", 'y'), ("wx", 'z')], 'x');
        }
        if T <= tsat(p) {
            if p > 21.93161551 {
                return pick(&[("uv", 'u')], 'y');
            }
            return 'u';
        }
        if p > 21.90096265 {
            return pick(&[("wx", 'z')], 'x');
        }
        return 'x';
    }
    if p > 20.5 {
        if le("cd") {
            return 'c';
        }
        if T <= tsat(p) {
            return 's';
        }
        return pick(&[("jk", 'r')], 'k');
    }
    if p > P3CD {
        if le("cd") {
            return 'c';
        }
        return if T <= tsat(p) { 's' } else { 't' };
    }
    if T <= tsat(p) {
        'c'
    } else {
        't'
    }
}
struct P3 {
    v: f64,
    p: f64,
    t: f64,
    a: f64,
    b: f64,
    c: f64,
    d: f64,
    e: f64,
}
fn par3(c: char) -> (P3, &'static [T3]) {
    let k = |v, p, t, a, b, c, d, e| P3 { v, p, t, a, b, c, d, e };
    match c {
        'a' => (k(0.0024, 100., 760., 0.085, 0.817, 1., 1., 1.), &PT2V_3A[..]),
        'b' => (k(0.0041, 100., 860., 0.280, 0.779, 1., 1., 1.), &PT2V_3B[..]),
        'c' => (k(0.0022, 40., 690., 0.259, 0.903, 1., 1., 1.), &PT2V_3C[..]),
        'd' => (k(0.0029, 40., 690., 0.559, 0.939, 1., 1., 4.), &PT2V_3D[..]),
        'e' => (k(0.0032, 40., 710., 0.587, 0.918, 1., 1., 1.), &PT2V_3E[..]),
        'f' => (k(0.0064, 40., 730., 0.587, 0.891, 0.5, 1., 4.), &PT2V_3F[..]),
        'g' => (k(0.0027, 25., 660., 0.872, 0.971, 1., 1., 4.), &PT2V_3G[..]),
        'h' => (k(0.0032, 25., 660., 0.898, 0.983, 1., 1., 4.), &PT2V_3H[..]),
        'i' => (k(0.0041, 25., 660., 0.910, 0.984, 0.5, 1., 4.), &PT2V_3I[..]),
        'j' => (k(0.0054, 25., 670., 0.875, 0.964, 0.5, 1., 4.), &PT2V_3J[..]),
        'k' => (k(0.0077, 25., 680., 0.802, 0.935, 1., 1., 1.), &PT2V_3K[..]),
        'l' => (k(0.0026, 24., 650., 0.908, 0.989, 1., 1., 4.), &PT2V_3L[..]),
        'm' => (k(0.0028, 23., 650., 1.000, 0.997, 1., 0.25, 1.), &PT2V_3M[..]),
        'n' => (k(0.0031, 23., 650., 0.976, 0.997, 0., 0., 0.), &PT2V_3N[..]),
        'o' => (k(0.0034, 23., 650., 0.974, 0.996, 0.5, 1., 1.), &PT2V_3O[..]),
        'p' => (k(0.0041, 23., 650., 0.972, 0.997, 0.5, 1., 1.), &PT2V_3P[..]),
        'q' => (k(0.0022, 23., 650., 0.848, 0.983, 1., 1., 4.), &PT2V_3Q[..]),
        'r' => (k(0.0054, 23., 650., 0.874, 0.982, 1., 1., 1.), &PT2V_3R[..]),
        's' => (k(0.0022, 21., 640., 0.886, 0.990, 1., 1., 4.), &PT2V_3S[..]),
        't' => (k(0.0088, 20., 650., 0.803, 1.020, 1., 1., 1.), &PT2V_3T[..]),
        'u' => (k(0.0026, 23., 650., 0.902, 0.988, 1., 1., 1.), &PT2V_3U[..]),
        'v' => (k(0.0031, 23., 650., 0.960, 0.995, 1., 1., 1.), &PT2V_3V[..]),
        'w' => (k(0.0039, 23., 650., 0.959, 0.995, 1., 1., 4.), &PT2V_3W[..]),
        'x' => (k(0.0049, 23., 650., 0.910, 0.988, 1., 1., 1.), &PT2V_3X[..]),
        'y' => (k(0.0031, 22., 650., 0.996, 0.994, 1., 1., 4.), &PT2V_3Y[..]),
        'z' => (k(0.0038, 22., 650., 0.993, 0.994, 1., 1., 4.), &PT2V_3Z[..]),
        _ => unreachable!(),
    }
}
/// volume from the published equation of one subregion
pub fn v3sub(c: char, p: f64, T: f64) -> f64 {
    let (q, t) = par3(c);
    if c == 'n' {
        return q.v * val(t, p / q.p - q.a, T / q.t - q.b).exp();
    }
    let pw = |x: f64, e: f64| {
        if e == 1.0 {
            x
        } else if e == 0.5 {
            x.sqrt()
        } else if e == 0.25 {
            x.sqrt().sqrt()
        } else {
            x.powf(e)
        }
    };
    let w = val(t, pw(p / q.p - q.a, q.c), pw(T / q.t - q.b, q.d));
    q.v * if q.e == 4.0 { w * w * w * w } else { w }
}
pub fn v3(p: f64, T: f64) -> f64 {
    v3sub(sub3(p, T), p, T)
}
/// subregion of the saturated liquid (x=0) / vapour (x=1) at p in region 3
pub fn sub3_sat(p: f64, vapour: bool) -> char {
    if !vapour {
        if p < P3CD {
            'c'
        } else if p < 21.0434 {
            's'
        } else if p < 21.9316 {
            'u'
        } else {
            'y'
        }
    } else if p < 20.5 {
        't'
    } else if p < 21.0434 {
        'r'
    } else if p < 21.9009 {
        'x'
    } else {
        'z'
    }
}
/// exact root of p = p(rho,T) (Newton with safeguard from an initial volume)
pub fn v3_exact(p: f64, T: f64, v0: f64) -> f64 {
    let mut d = 1.0 / v0;
    for _ in 0..60 {
        let st = reg3(d, T);
        let dpdd = -1.0 / (st.dvdp * d * d);
        let mut step = (p - st.p) / dpdd;
        if !step.is_finite() || dpdd <= 0.0 {
            break;
        }
        let lim = 0.05 * d;
        step = step.clamp(-lim, lim);
        d += step;
        if step.abs() < 1e-14 * d {
            break;
        }
    }
    1.0 / d
}

/// region of (p,T) by the IF97 definition; 0 = outside
pub fn region_pt(p: f64, T: f64) -> i32 {
    if !(p >= PMIN && p <= 100.0 && T >= 273.15 && T <= 2273.15) {
        return 0;
    }
    if T > 1073.15 {
        return if p <= 50.0 { 5 } else { 0 };
    }
    if T <= 623.15 {
        return if p >= psat(T) { 1 } else { 2 };
    }
    if T <= 863.15 {
        return if p <= b23_p(T) { 2 } else { 3 };
    }
    2
}
/// state at (p,T) in a given region
pub fn state_in(reg: i32, p: f64, T: f64) -> St {
    match reg {
        1 => reg1(p, T),
        2 => reg2(p, T),
        3 => reg3(1.0 / v3(p, T), T),
        5 => reg5(p, T),
        _ => unreachable!(),
    }
}

/// saturated states at (p,T) on the saturation line, as IF97 builds them
pub fn sat_liq(p: f64, T: f64) -> St {
    if T <= 623.15 {
        reg1(p, T)
    } else {
        reg3(1.0 / v3sub(sub3_sat(p, false), p, T), T)
    }
}
pub fn sat_vap(p: f64, T: f64) -> St {
    if T <= 623.15 {
        reg2(p, T)
    } else {
        reg3(1.0 / v3sub(sub3_sat(p, true), p, T), T)
    }
}

// ---------------------------------------------------------------- backward equations
pub fn t1_ph(p: f64, h: f64) -> f64 {
    val(&PH2T_REG1, p, h / 2500.0 + 1.0)
}
pub fn t1_ps(p: f64, s: f64) -> f64 {
    val(&PS2T_REG1, p, s + 2.0)
}
pub fn p1_hs(h: f64, s: f64) -> f64 {
    100.0 * val(&HS2P_REG1, h / 3400.0 + 0.05, s / 7.6 + 0.05)
}
pub fn h2bc(p: f64) -> f64 {
    0.26526571908428e4 + ((p - 0.45257578905948e1) / 0.12809002730136e-3).sqrt()
}
pub fn sub2_ph(p: f64, h: f64) -> char {
    if p <= 4.0 {
        'a'
    } else if p < 6.5467 || !(h < h2bc(p)) {
        'b'
    } else {
        'c'
    }
}
pub fn t2_ph_sub(c: char, p: f64, h: f64) -> f64 {
    match c {
        'a' => val(&PH2T_REG2A, p, h / 2000.0 - 2.1),
        'b' => val(&PH2T_REG2B, p - 2.0, h / 2000.0 - 2.6),
        _ => val(&PH2T_REG2C, p + 25.0, h / 2000.0 - 1.8),
    }
}
pub fn t2_ph(p: f64, h: f64) -> f64 {
    t2_ph_sub(sub2_ph(p, h), p, h)
}
pub fn sub2_ps(p: f64, s: f64) -> char {
    if p <= 4.0 {
        'a'
    } else if s >= 5.85 {
        'b'
    } else {
        'c'
    }
}
pub fn t2_ps_sub(c: char, p: f64, s: f64) -> f64 {
    match c {
        'a' => {
            let sg = s / 2.0 - 2.0;
            PS2T_REG2A.iter().map(|&(i, j, n)| n * p.powf(i) * ipow(sg, j)).sum()
        }
        'b' => val(&PS2T_REG2B, p, 10.0 - s / 0.7853),
        _ => val(&PS2T_REG2C, p, 2.0 - s / 2.9251),
    }
}
pub fn t2_ps(p: f64, s: f64) -> f64 {
    t2_ps_sub(sub2_ps(p, s), p, s)
}
pub fn h2ab_s(s: f64) -> f64 {
    -0.349898083432139e4 + s * (0.257560716905876e4 + s * (-0.421073558227969e3 + s * 0.276349063799944e2))
}
pub fn sub2_hs(h: f64, s: f64) -> char {
    if h <= h2ab_s(s) {
        'a'
    } else if s >= 5.85 {
        'b'
    } else {
        'c'
    }
}
pub fn p2_hs_sub(c: char, h: f64, s: f64) -> f64 {
    match c {
        'a' => 4.0 * val(&HS2P_REG2A, h / 4200.0 - 0.5, s / 12.0 - 1.2).powi(4),
        'b' => 100.0 * val(&HS2P_REG2B, h / 4100.0 - 0.6, s / 7.9 - 1.01).powi(4),
        _ => 100.0 * val(&HS2P_REG2C, h / 3500.0 - 0.7, s / 5.9 - 1.1).powi(4),
    }
}
pub fn p2_hs(h: f64, s: f64) -> f64 {
    p2_hs_sub(sub2_hs(h, s), h, s)
}
pub fn h3ab(p: f64) -> f64 {
    0.201464004206875e4 + p * (0.374696550136983e1 + p * (-0.219921901054187e-1 + p * 0.875131686009950e-4))
}
pub fn t3_ph_sub(a: bool, p: f64, h: f64) -> f64 {
    if a {
        760.0 * val(&PH2T_3A_REG3, p / 100.0 + 0.240, h / 2300.0 - 0.615)
    } else {
        860.0 * val(&PH2T_3B_REG3, p / 100.0 + 0.298, h / 2800.0 - 0.720)
    }
}
pub fn v3_ph_sub(a: bool, p: f64, h: f64) -> f64 {
    if a {
        0.0028 * val(&PH2V_3A_REG3, p / 100.0 + 0.128, h / 2100.0 - 0.727)
    } else {
        0.0088 * val(&PH2V_3B_REG3, p / 100.0 + 0.0661, h / 2800.0 - 0.720)
    }
}
pub fn t3_ps_sub(a: bool, p: f64, s: f64) -> f64 {
    if a {
        760.0 * val(&PS2T_3A_REG3, p / 100.0 + 0.240, s / 4.4 - 0.703)
    } else {
        860.0 * val(&PS2T_3B_REG3, p / 100.0 + 0.760, s / 5.3 - 0.818)
    }
}
pub fn v3_ps_sub(a: bool, p: f64, s: f64) -> f64 {
    if a {
        0.0028 * val(&PS2V_3A_REG3, p / 100.0 + 0.187, s / 4.4 - 0.755)
    } else {
        0.0088 * val(&PS2V_3B_REG3, p / 100.0 + 0.298, s / 5.3 - 0.816)
    }
}
pub fn p3_hs_sub(a: bool, h: f64, s: f64) -> f64 {
    if a {
        99.0 * val(&HS2P3A_REG3, h / 2300.0 - 1.01, s / 4.4 - 0.75)
    } else {
        16.6 / val(&HS2P3B_REG3, h / 2800.0 - 0.681, s / 5.3 - 0.792)
    }
}
pub fn t4_hs(h: f64, s: f64) -> f64 {
    550.0 * val(&HS2T_REG43, h / 2800.0 - 0.119, s / 9.2 - 1.07)
}
pub fn p3sat_h(h: f64) -> f64 {
    22.0 * val(&H2P_SAT_REG3, h / 2600.0 - 1.02, h / 2600.0 - 0.608)
}
pub fn p3sat_s(s: f64) -> f64 {
    22.0 * val(&S2P_SAT_REG3, s / 5.2 - 1.03, s / 5.2 - 0.699)
}
// boundaries h(s) of the (h,s) supplementary release
pub fn h1_s(s: f64) -> f64 {
    1700.0 * val(&HS_REGION_H1_S, s / 3.8 - 1.09, s / 3.8 + 0.366e-4)
}
pub fn h3a_s(s: f64) -> f64 {
    1700.0 * val(&HS_REGION_H3A_S, s / 3.8 - 1.09, s / 3.8 + 0.366e-4)
}
pub fn h2ab_sat_s(s: f64) -> f64 {
    2800.0 * val(&HS_REGION_H2AB_S, 5.21 / s - 0.513, s / 9.2 - 0.524).exp()
}
pub fn h2c3b_s(s: f64) -> f64 {
    2800.0 * val(&HS_REGION_H2C3B_S, s / 5.9 - 1.02, s / 5.9 - 0.726).powi(4)
}
pub fn h13_s(s: f64) -> f64 {
    1700.0 * val(&HS_REGION_H13_S, s / 3.8 - 0.884, s / 3.8 - 0.864)
}
pub fn t23_hs(h: f64, s: f64) -> f64 {
    900.0 * val(&HS_REGION_T_HS, h / 3000.0 - 0.727, s / 5.3 - 0.864)
}

// ---------------------------------------------------------------- transport
pub fn viscosity(d: f64, T: f64) -> f64 {
    let tr = T / TC;
    let dr = d / DC;
    const H0: [f64; 4] = [1.67752, 2.20462, 0.6366564, -0.241605];
    let mut s = 0.0;
    for i in (0..4).rev() {
        s = s / tr + H0[i];
    }
    let mu0 = 100.0 * tr.sqrt() / s;
    const H: [T3; 21] = [
        (0., 0., 5.20094e-1), (1., 0., 8.50895e-2), (2., 0., -1.08374), (3., 0., -2.89555e-1),
        (0., 1., 2.22531e-1), (1., 1., 9.99115e-1), (2., 1., 1.88797), (3., 1., 1.26613), (5., 1., 1.20573e-1),
        (0., 2., -2.81378e-1), (1., 2., -9.06851e-1), (2., 2., -7.72479e-1), (3., 2., -4.89837e-1), (4., 2., -2.57040e-1),
        (0., 3., 1.61913e-1), (1., 3., 2.57399e-1),
        (0., 4., -3.25372e-2), (3., 4., 6.98452e-2),
        (4., 5., 8.72102e-3),
        (3., 6., -4.35673e-3), (5., 6., -5.93264e-4),
    ];
    1e-6 * mu0 * (dr * val(&H, 1.0 / tr - 1.0, dr - 1.0)).exp()
}
/// background thermal conductivity lambda0*lambda1 of the 2011 formulation (no critical enhancement)
pub fn conductivity(d: f64, T: f64) -> f64 {
    let tr = T / TC;
    let dr = d / DC;
    const L0: [f64; 5] = [2.443221e-3, 1.323095e-2, 6.770357e-3, -3.454586e-3, 4.096266e-4];
    let mut s = 0.0;
    for i in (0..5).rev() {
        s = s / tr + L0[i];
    }
    const L: [[f64; 6]; 5] = [
        [1.60397357, -0.646013523, 0.111443906, 0.102997357, -0.0504123634, 0.00609859258],
        [2.33771842, -2.78843778, 1.53616167, -0.463045512, 0.0832827019, -0.00719201245],
        [2.19650529, -4.54580785, 3.55777244, -1.40944978, 0.275418278, -0.0205938816],
        [-1.21051378, 1.60812989, -0.621178141, 0.0716373224, 0.0, 0.0],
        [-2.7203370, 4.57586331, -3.18369245, 1.1168348, -0.19268305, 0.012913842],
    ];
    let mut e = 0.0;
    for i in (0..5).rev() {
        let r = (0..6).rev().fold(0.0, |a, j| a * (dr - 1.0) + L[i][j]);
        e = e * (1.0 / tr - 1.0) + r;
    }
    1e-3 * tr.sqrt() / s * (dr * e).exp()
}
pub fn surface_tension(T: f64) -> f64 {
    let t = 1.0 - T / TC;
    0.2358 * t.powf(1.256) * (1.0 - 0.625 * t)
}
pub fn dielectric(d: f64, T: f64) -> f64 {
    let de = d / DC;
    let ta = TC / T;
    const N: [(f64, f64, f64); 11] = [
        (1., 0.25, 0.978224486826), (1., 1., -0.957771379375), (1., 2.5, 0.237511794148), (2., 1.5, 0.714692244396),
        (3., 1.5, -0.298217036956), (3., 2.5, -0.108863472196), (4., 2., 0.949327488264e-1), (5., 2., -0.980469816509e-2),
        (6., 5., 0.165167634970e-4), (7., 0.5, 0.937359795772e-4), (10., 10., -0.123179218720e-9),
    ];
    let mut g = 1.0 + 0.196096504426e-2 * de * (T / 228.0 - 1.0).powf(-1.2);
    for (i, j, n) in N {
        g += n * ipow(de, i) * ta.powf(j);
    }
    let (k, na, al, e0, mu, m) = (1.380658e-23, 6.0221367e23, 1.636e-40, 8.854187817e-12, 6.138e-30, 0.018015268);
    let a = na * mu * mu * d * g / (m * e0 * k * T);
    let b = na * al * d / (3.0 * m * e0);
    (1.0 + a + 5.0 * b + (9.0 + 2.0 * a + 18.0 * b + a * a + 10.0 * a * b + 9.0 * b * b).sqrt()) / (4.0 - 4.0 * b)
}

// ---------------------------------------------------------------- property ids
pub const NAMES: [&str; 36] = [
    "p", "t", "d", "v", "h", "s", "e", "u", "cp", "cv", "w", "ks", "f", "g", "z", "x", "r", "ec", "kt", "dvdt", "dvdp",
    "dpdt", "ijtc", "jtc", "dv", "kv", "tc", "td", "pr", "st", "sdc", "pc", "betap", "fi", "fu", "alfap",
];
/// property `o` of a single-phase state; None for x / region
pub fn prop(st: &St, o: i32) -> f64 {
    let d = 1.0 / st.v;
    match o {
        0 => st.p,
        1 => st.T - 273.15,
        2 => d,
        3 => st.v,
        4 => st.h,
        5 => st.s,
        6 => st.h - TT * st.s,
        7 => st.u,
        8 => st.cp,
        9 => st.cv,
        10 => st.w,
        11 => st.w * st.w * 1e-6 / (st.p * st.v),
        12 => st.f,
        13 => st.g,
        14 => 1000.0 * st.p * st.v / (R * st.T),
        17 => st.dvdt / st.v,
        18 => -st.dvdp / st.v,
        19 => st.dvdt,
        20 => st.dvdp,
        21 => st.dpdt,
        22 => 1000.0 * (st.v - st.T * st.dvdt),
        23 => 1000.0 * (st.T * st.dvdt - st.v) / st.cp,
        24 => viscosity(d, st.T),
        25 => viscosity(d, st.T) * st.v,
        26 => conductivity(d, st.T),
        27 => conductivity(d, st.T) * st.v / (1000.0 * st.cp),
        28 => 1000.0 * viscosity(d, st.T) * st.cp / conductivity(d, st.T),
        29 => surface_tension(st.T),
        30 => dielectric(d, st.T),
        31 => st.dpdt / st.p,
        32 => -1.0 / (st.p * st.dvdp),
        33 => {
            let g0 = if st.reg == 2 || st.reg == 5 { st.g0 } else { 0.0 };
            ((st.g - g0) / (R * st.T)).exp()
        }
        34 => st.p * prop(st, 33),
        35 => st.dpdt / st.p,
        _ => f64::NAN,
    }
}
