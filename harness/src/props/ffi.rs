//! C18, C19: the C and the Python interfaces against the Rust API
use super::api::*;
use super::sys::{any_ids, off, plane_any, state};
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::ffi::{c_char, c_void, CString};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::{Mutex, OnceLock};

fn base() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn build(features: &[&str]) -> Result<(), String> {
    let o = Command::new("bash").arg(format!("{}/tools/ffi.sh", base())).args(features).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)));
    }
    Ok(())
}
/// Bit for bit, or within what the round-off of another inlining explains: the interfaces are compiled
/// separately, and at a region limit or where the state is badly conditioned the last bit of an
/// intermediate value decides. The Rust API's own answers in the next 1e-15 .. 1e-9 around say how far.
fn agree(k: usize, a: f64, b: f64, o: i32, w: f64, want: f64) -> bool {
    if same(w, want) {
        return true;
    }
    // what the arguments alone decide: no round-off is involved
    if OWN[k].contains(&o) || (k == 0 || k >= 8) && is_err(w) != is_err(want) {
        return false;
    }
    if !is_err(w) && !is_err(want) && (w - want).abs() <= 1e-11 * want.abs() {
        return true;
    }
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for d in [3e-16, 1e-14, 1e-12, 1e-10, 1e-9] {
        for (x, y) in [(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (1, -1), (-1, 1), (-1, -1)] {
            let v = call(k, a * (1.0 + d * x as f64), b * (1.0 + d * y as f64), o);
            if same(v, w) {
                return true;
            }
            if !is_err(v) {
                lo = lo.min(v);
                hi = hi.max(v);
            }
        }
    }
    if !is_err(want) {
        lo = lo.min(want);
        hi = hi.max(want);
    }
    let e = 1e-9 * w.abs() + (hi - lo);
    !is_err(w) && lo <= hi && w >= lo - e && w <= hi + e
}
fn class(k: usize, want: f64) -> Out {
    if is_err(want) {
        Out::Ok("refused")
    } else {
        Out::Ok(FN[k])
    }
}
fn ids() -> BoxedStrategy<i64> {
    prop_oneof![30 => -1..38i64, 1 => alias(0..36)].boxed()
}
/// (function, a, b, id) with valid states, their neighbourhood, the whole plane and wild numbers
fn g_call() -> BoxedStrategy<Case> {
    prop_oneof![
        5 => (pt_any(), off(), off(), 0..8i64, ids()).prop_map(|((p, t), x, y, k, o)| {
            let st = state(p, t).unwrap_or(state_in(2, p, t + 273.15));
            let (a, b) = args_st(k as usize, p, t, &st);
            case(&[a * (1.0 + x), b * (1.0 + y)], &[k, o])
        }),
        3 => (tx_sat(), 0..4i64, ids()).prop_map(|((t, x), k, o)| {
            let T = t + 273.15;
            let a = match k {
                0 => psat(T),
                1 => t,
                2 => seuif97::tx(t, x, 4),
                _ => seuif97::tx(t, x, 5),
            };
            case(&[a, x], &[8 + k, o])
        }),
        4 => (plane_any(), ids()).prop_map(|(c, o)| case(&c.f, &[c.i[1], o])),
        1 => (wild(), wild(), 0..12i64, any_ids()).prop_map(|(a, b, k, o)| case(&[a, b], &[k, o])),
    ]
    .boxed()
}

/// the limits of the arguments themselves, and the doubles next to them
fn g_limit() -> BoxedStrategy<Case> {
    let step = || prop_oneof![3 => Just(0i64), 2 => Just(1i64), 2 => Just(-1i64), 1 => -1000..1000i64];
    let at = |v: f64, n: i64| f64::from_bits(v.to_bits().wrapping_add(n as u64));
    (0..12i64, 0..6usize, 0..6usize, step(), step(), -1..38i64, unit(), any::<bool>())
        .prop_map(move |(k, i, j, m, n, o, u, mid)| {
            let P = [PMIN, PC, 100.0, 50.0, 0.000611212677444, 1e-8];
            let tl = [0.0, TC - 273.15, 350.0, 800.0, 2000.0, 590.0];
            let H = [2803.285256, -0.041587826, 2803.28, 0.0, 2084.2562556, 1670.8582];
            let S = [9.1557593953, -1.545496e-04, 9.0, 0.0, 4.41202148223476, 3.77828134];
            let X = [0.0, 1.0, 1.0, 0.0, -0.0, 0.5];
            let L = [&P, &tl, &X, &X, &H, &S];
            let ax = |o: i32| L[if o == 15 { 2 } else { o as usize % 6 }];
            let (oa, ob) = (OWN[k as usize][0], OWN[k as usize][1]);
            let mut a = at(ax(oa)[i], m);
            let mut b = if ob == 3 { [1e-3, 0.0016, 206.0, 1.0, 100.0, 0.01][j] } else { at(ax(ob)[j], n) };
            if mid {
                // one argument at its limit, the other anywhere
                if u < 0.5 {
                    a = match oa { 0 => 50.0 * u, 1 => 1600.0 * u, 4 => 5000.0 * u, _ => 18.0 * u };
                } else {
                    let u = u - 0.5;
                    b = match ob { 1 => 1600.0 * u, 4 => 8000.0 * u, 5 => 20.0 * u, 15 => 2.0 * u, _ => 10f64.powf(8.0 * u - 3.0) };
                }
            }
            case(&[a, b], &[k, o])
        })
        .boxed()
}

// ------------------------------------------------------------------------------------------- C18
extern "C" {
    fn dlopen(f: *const c_char, flags: i32) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}
type CF = unsafe extern "C" fn(f64, f64, i32) -> f64;
static LIBS: OnceLock<[[CF; 12]; 2]> = OnceLock::new();
const LIB: [&str; 2] = ["cdecl", "stdcall"];
fn load(feature: &str) -> Result<[CF; 12], String> {
    let path = format!("{}/harness/target/ffi/lib/{feature}.so", base());
    let c = CString::new(path.clone()).unwrap();
    let h = unsafe { dlopen(c.as_ptr(), 2) };
    if h.is_null() {
        return Err(format!("dlopen {path}"));
    }
    let mut r = vec![];
    for n in FN {
        let s = CString::new(n).unwrap();
        let q = unsafe { dlsym(h, s.as_ptr()) };
        if q.is_null() {
            return Err(format!("{path} has no symbol {n}"));
        }
        r.push(unsafe { std::mem::transmute::<*mut c_void, CF>(q) });
    }
    Ok(r.try_into().unwrap())
}
fn setup_c() -> Result<(), String> {
    build(&LIB)?;
    let l = [load(LIB[0])?, load(LIB[1])?];
    let _ = LIBS.set(l);
    Ok(())
}
fn c_call(c: &Case) -> Out {
    let (a, b, k, o) = (c.f[0], c.f[1], c.i[0].rem_euclid(12) as usize, c.i[1] as i32);
    let l = LIBS.get().unwrap();
    let want = call(k, a, b, o);
    for j in 0..2 {
        let w = unsafe { l[j][k](a, b, o) };
        if !agree(k, a, b, o, w, want) {
            return Out::Fail(format!("{} library: {}, {}) = {w:?}, the Rust API returns {want:?}", LIB[j], lab(k, a, b), oname(o)));
        }
    }
    class(k, want)
}
/// every id for one point
fn c_ids(c: &Case) -> Out {
    let (a, b, k) = (c.f[0], c.f[1], c.i[0].rem_euclid(12) as usize);
    let l = LIBS.get().unwrap();
    let mut last = 0.0;
    for o in -2..39 {
        let want = call(k, a, b, o);
        if o == 7 {
            last = want;
        }
        for j in 0..2 {
            let w = unsafe { l[j][k](a, b, o) };
            if !agree(k, a, b, o, w, want) {
                return Out::Fail(format!("{} library: {}, {}) = {w:?}, the Rust API returns {want:?}", LIB[j], lab(k, a, b), oname(o)));
            }
        }
    }
    class(k, last)
}
pub fn c18() -> Prop {
    Prop {
        id: "C18",
        assumptions: &[
            "both C interfaces run as 64-bit Linux shared objects built from a copy of the sources in which extern \"stdcall\" (which exists on 32-bit x86 only) is extern \"C\"; the 32-bit calling convention itself is compiled by the repository's build but not executed",
        ],
        setup: Some(setup_c),
        subs: vec![
            Sub { name: "call", rule: "one of 12 functions x any id (also non-existent) at valid states, beside them, in the whole plane and with wild numbers, through both libraries; every case counts", gen: g_call, check: c_call, quick: 4_000_000, deep: 100_000_000 },
            Sub { name: "limits", rule: "arguments at the limits of the range and the doubles next to them; every case counts", gen: g_limit, check: c_call, quick: 2_000_000, deep: 30_000_000 },
            Sub { name: "ids", rule: "the same, all ids -2..38 of one point", gen: g_call, check: c_ids, quick: 200_000, deep: 6_000_000 },
        ],
    }
}

// ------------------------------------------------------------------------------------------- C19
const PY: &str = r#"
import sys, struct, signal
sys.path.insert(0, sys.argv[1])
import seuif97
from seuif97 import seuif97 as ext
ns = {}
exec("from seuif97 import *", ns)
F = ["pt", "ph", "ps", "hs", "pv", "tv", "th", "ts", "px", "tx", "hx", "sx"]
H = sys.argv[2].split(",")
tab = [[getattr(ext, f, None) for f in F], [getattr(seuif97, f, None) for f in F], [ns.get(f) for f in F], [getattr(seuif97, h, None) for h in H], [ns.get(h) for h in H]]
r, w = sys.stdin.buffer, sys.stdout.buffer
while True:
    b = r.read(40)
    if len(b) < 40:
        break
    kind, i, flags, a, x, o = struct.unpack("<iiqddq", b)
    signal.setitimer(signal.ITIMER_VIRTUAL, 15)
    f = tab[kind][i]
    if flags & 1:
        a = int(a)
    if flags & 2:
        x = int(x)
    st, v = 0, 0.0
    if f is None:
        st = 1
    else:
        try:
            v = f(a, x, o) if kind < 3 else f(a, x)
            if not isinstance(v, float):
                st = 3
                v = 0.0
        except BaseException as e:
            st = 4 if isinstance(e, OverflowError) else 2
    w.write(struct.pack("<qd", st, v))
    w.flush()
"#;
/// xy2z of python/seuif97/__init__.py: for each function the three basic ids and x that are not its arguments
fn helpers() -> Vec<(String, usize, i32)> {
    let L = [("p", 0), ("t", 1), ("v", 3), ("h", 4), ("s", 5), ("x", 15)];
    let mut r = vec![];
    for k in 0..12 {
        for (n, o) in L {
            // every one of the six that is not an argument, except p,t from each other's pair: pt2*, hx2* ...
            if !OWN[k].contains(&o) {
                r.push((format!("{}2{n}", FN[k]), k, o));
            }
        }
    }
    r
}
static POOL: Mutex<Vec<Child>> = Mutex::new(Vec::new());
static PRESENT: OnceLock<Vec<bool>> = OnceLock::new();
fn ask(kind: i32, i: i32, flags: i64, a: f64, b: f64, o: i64) -> Result<(i64, f64), String> {
    let z = POOL.lock().unwrap().pop();
    let mut z = match z {
        Some(z) => z,
        None => {
            let names: Vec<String> = helpers().into_iter().map(|h| h.0).collect();
            Command::new("/usr/bin/python3")
                .args(["-B", "-c", PY, &format!("{}/harness/target/ffi/pkg", base()), &names.join(",")])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .map_err(|e| e.to_string())?
        }
    };
    let mut q = vec![];
    q.extend(kind.to_le_bytes());
    q.extend(i.to_le_bytes());
    q.extend(flags.to_le_bytes());
    q.extend(a.to_bits().to_le_bytes());
    q.extend(b.to_bits().to_le_bytes());
    q.extend(o.to_le_bytes());
    let mut out = [0u8; 16];
    let ok = z.stdin.as_mut().unwrap().write_all(&q).and_then(|_| z.stdin.as_mut().unwrap().flush()).is_ok() && z.stdout.as_mut().unwrap().read_exact(&mut out).is_ok();
    if !ok {
        let st = z.wait();
        return Err(format!("the python process ended ({st:?})"));
    }
    POOL.lock().unwrap().push(z);
    Ok((i64::from_le_bytes(out[..8].try_into().unwrap()), f64::from_bits(u64::from_le_bytes(out[8..].try_into().unwrap()))))
}
/// the 48 helpers of the package at the commit this was written for
const HELPERS: [&str; 48] = [
    "pt2h", "pt2s", "pt2v", "pt2x", "ph2t", "ph2s", "ph2v", "ph2x", "ps2h", "ps2t", "ps2v", "ps2x", "hs2p", "hs2t", "hs2v", "hs2x", "pv2t", "pv2h", "pv2s", "pv2x", "tv2p", "tv2h", "tv2s",
    "tv2x", "th2p", "th2s", "th2v", "th2x", "ts2p", "ts2h", "ts2v", "ts2x", "px2t", "px2h", "px2s", "px2v", "tx2p", "tx2h", "tx2s", "tx2v", "hx2p", "hx2t", "hx2s", "hx2v", "sx2p", "sx2t",
    "sx2h", "sx2v",
];
fn setup_py() -> Result<(), String> {
    build(&["python"])?;
    // an interpreter that cannot import the module at all is an error of the check, not a case
    let (st, v) = ask(1, 0, 0, 3.0, 300.0, 4)?;
    if st != 0 || !v.is_finite() {
        return Err(format!("seuif97.pt(3, 300, 4): status {st}, {v}"));
    }
    let h = helpers();
    let mut pres = vec![];
    for (j, _) in h.iter().enumerate() {
        let (st, _) = ask(3, j as i32, 0, 1.0, 1.0, 0)?;
        pres.push(st != 1);
    }
    let _ = PRESENT.set(pres);
    Ok(())
}
fn expect(what: String, got: Result<(i64, f64), String>, k: usize, a: f64, b: f64, o: i32, want: f64) -> Option<Out> {
    match got {
        Err(e) => Some(Out::Fail(format!("{what}: {e}"))),
        Ok((1, _)) => Some(Out::Fail(format!("{what}: there is no such function"))),
        Ok((0, w)) if agree(k, a, b, o, w, want) => None,
        Ok((0, w)) => Some(Out::Fail(format!("{what} = {w:?}, the Rust API returns {want:?}"))),
        Ok((st, _)) => Some(Out::Fail(format!("{what}: {}; the Rust API returns {want:?}", if st == 3 { "not a float" } else { "an exception" }))),
    }
}
fn py_call(c: &Case) -> Out {
    let (a, b, k, o, kind) = (c.f[0], c.f[1], c.i[0].rem_euclid(12) as usize, c.i[1] as i32, c.i[2].rem_euclid(3) as i32);
    let want = call(k, a, b, o);
    let what = format!("{}{}, {})", ["module seuif97.seuif97: ", "seuif97.", "from seuif97 import *: "][kind as usize], lab(k, a, b), oname(o));
    expect(what, ask(kind, k as i32, 0, a, b, o as i64), k, a, b, o, want).unwrap_or(class(k, want))
}
/// whole numbers passed as Python ints
fn py_ints(c: &Case) -> Out {
    let (a, b, k, o, fl) = (c.f[0].round(), c.f[1].round(), c.i[0].rem_euclid(12) as usize, c.i[1] as i32, 1 + c.i[2].rem_euclid(3));
    if !a.is_finite() || !b.is_finite() {
        return Out::Skip;
    }
    // int(-0.0) is 0
    let (a, b) = (a + 0.0, b + 0.0);
    let want = call(k, a, b, o);
    expect(format!("seuif97.{} as int, {})", lab(k, a, b), oname(o)), ask(1, k as i32, fl, a, b, o as i64), k, a, b, o, want).unwrap_or(class(k, want))
}
fn py_helper(c: &Case) -> Out {
    let h = helpers();
    let known: Vec<usize> = (0..h.len()).filter(|j| PRESENT.get().unwrap()[*j] || HELPERS.contains(&h[*j].0.as_str())).collect();
    // the helpers of the function the case was drawn for
    let k = c.i[0].rem_euclid(12) as usize;
    let own: Vec<usize> = known.iter().copied().filter(|j| h[*j].1 == k).collect();
    if own.is_empty() {
        return Out::Skip;
    }
    for j in own {
        let (n, k, o) = &h[j];
        let want = call(*k, c.f[0], c.f[1], *o);
        for kind in [3, 4] {
            let what = format!("{}{n}({:?}, {:?})", if kind == 3 { "seuif97." } else { "from seuif97 import *: " }, c.f[0], c.f[1]);
            if let Some(e) = expect(what, ask(kind, j as i32, 0, c.f[0], c.f[1], 0), *k, c.f[0], c.f[1], *o, want) {
                return e;
            }
        }
    }
    class(k, call(k, c.f[0], c.f[1], if OWN[k].contains(&4) { 5 } else { 4 }))
}
pub fn c19() -> Prop {
    Prop {
        id: "C19",
        assumptions: &["CPython /usr/bin/python3 with the pyo3 version of Cargo.toml; the package is the repository's python/seuif97 with the extension built from its sources laid beside it"],
        setup: Some(setup_py),
        subs: vec![
            Sub { name: "module", rule: "one of 12 functions, reached through the extension, the package or a star import, x any id (also non-existent), valid and invalid arguments; every case counts", gen: || (g_call(), 0..3i64).prop_map(|(c, n)| case(&c.f, &[c.i[0], c.i[1], n])).boxed(), check: py_call, quick: 1_200_000, deep: 25_000_000 },
            Sub { name: "limits", rule: "the same at the limits of the range and the doubles next to them; every case counts", gen: || (g_limit(), 0..3i64).prop_map(|(c, n)| case(&c.f, &[c.i[0], c.i[1], n])).boxed(), check: py_call, quick: 600_000, deep: 8_000_000 },
            Sub { name: "helpers", rule: "all xy2z helpers of one function at a point; every case counts", gen: g_call, check: py_helper, quick: 300_000, deep: 6_000_000 },
            Sub { name: "ints", rule: "whole numbers passed as Python ints, one or both; every case counts", gen: || (g_call(), 0..3i64).prop_map(|(c, n)| case(&c.f, &[c.i[0], c.i[1], n])).boxed(), check: py_ints, quick: 200_000, deep: 4_000_000 },
        ],
    }
}
