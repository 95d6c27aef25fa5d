//! C20: the result of a call depends on its arguments alone
use super::api::*;
use super::pt::sure_region;
use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
const MAXN: usize = 8192;
const DEAD: u64 = 0x7ff8_dead_dead_dead;
const ROUNDS: usize = 6;
const THREADS: usize = 4;
const FORKS: usize = 6;
const ENDURE: usize = 1_200_000;
/// per thread the first answer of every call and one that differs from it, if any
const SLOTS: usize = 2 * THREADS;
fn slots(mode: u32) -> usize {
    match mode {
        2 | 3 => SLOTS,
        4 => 2,
        _ => 1,
    }
}
#[derive(Clone, Copy, Debug)]
struct Call {
    k: i32,
    o: i32,
    r: i32,
    a: f64,
    b: f64,
}
fn run(c: &Call) -> f64 {
    if c.r == 10 {
        call(c.k as usize, c.a, c.b, c.o)
    } else {
        call_r(c.k as usize, c.a, c.b, c.o, c.r)
    }
}
/// A process that never calls the library itself: every request is served by forked copies of it,
/// each of which is therefore a fresh process. mode 0: one copy per call; 1: one copy for the whole
/// sequence; 2: one copy, THREADS threads, each the whole sequence from another starting point;
/// 3: FORKS copies, THREADS threads in lockstep: they start every call together, on one or on
/// neighbouring calls, from the very first call of the process on; 4: one copy, the sequence again and
/// again until ENDURE calls are made
pub fn zygote() -> ! {
    let shm = unsafe { mmap(std::ptr::null_mut(), MAXN * 8 * SLOTS, 3, 0x21, -1, 0) } as *mut u64;
    let (mut i, mut o) = (std::io::stdin(), std::io::stdout());
    let mut h = [0u8; 8];
    while i.read_exact(&mut h).is_ok() {
        let (mode, n) = (u32::from_le_bytes(h[..4].try_into().unwrap()), u32::from_le_bytes(h[4..].try_into().unwrap()) as usize);
        let mut buf = vec![0u8; n * 28];
        if n > MAXN || i.read_exact(&mut buf).is_err() {
            break;
        }
        let calls: Vec<Call> = buf
            .chunks(28)
            .map(|b| {
                let w = |j: usize| i32::from_le_bytes(b[j..j + 4].try_into().unwrap());
                let d = |j: usize| f64::from_bits(u64::from_le_bytes(b[j..j + 8].try_into().unwrap()));
                Call { k: w(0), o: w(4), r: w(8), a: d(12), b: d(20) }
            })
            .collect();
        let res = |j: usize| unsafe { shm.add(j) };
        let total = n * slots(mode);
        for j in 0..total {
            unsafe { *res(j) = DEAD };
        }
        let in_child = |f: &dyn Fn()| unsafe {
            let p = fork();
            if p == 0 {
                alarm(if mode == 4 { 800 } else { 60 });
                f();
                _exit(0);
            }
            let mut s = 0;
            waitpid(p, &mut s, 0);
        };
        match mode {
            0 => {
                for j in 0..n {
                    in_child(&|| unsafe { *res(j) = run(&calls[j]).to_bits() });
                }
            }
            1 => in_child(&|| {
                for j in 0..n {
                    unsafe { *res(j) = run(&calls[j]).to_bits() };
                }
            }),
            4 => in_child(&|| {
                for q in 0..ENDURE {
                    let j = q % n;
                    let w = run(&calls[j]).to_bits();
                    unsafe {
                        if q < n {
                            *res(j) = w;
                            *res(n + j) = w;
                        } else if w != *res(j) {
                            *res(n + j) = w;
                        }
                    }
                }
            }),
            _ => {
                let base = shm as usize;
                let put = move |th: usize, m: usize, w: u64| unsafe {
                    let (f, l) = ((base as *mut u64).add(th * n + m), (base as *mut u64).add((THREADS + th) * n + m));
                    if *f == DEAD {
                        *f = w;
                        *l = w;
                    } else if w != *f {
                        *l = w;
                    }
                };
                if mode == 2 {
                    in_child(&|| {
                        let calls = &calls;
                        let bar = &std::sync::Barrier::new(THREADS);
                        std::thread::scope(|s| {
                            for th in 0..THREADS {
                                s.spawn(move || {
                                    bar.wait();
                                    for _ in 0..ROUNDS {
                                        for j in 0..n {
                                            let m = (j + th * n / THREADS) % n;
                                            put(th, m, run(&calls[m]).to_bits());
                                        }
                                    }
                                });
                            }
                        });
                    });
                } else {
                    for q in 0..FORKS {
                        in_child(&|| {
                            let calls = &calls;
                            let here = &AtomicUsize::new(0);
                            std::thread::scope(|s| {
                                for th in 0..THREADS {
                                    s.spawn(move || {
                                        for j in 0..n {
                                            let m = (j + q + if q % 2 == 0 { 0 } else { th }) % n;
                                            here.fetch_add(1, Ordering::AcqRel);
                                            let mut spin = 0u32;
                                            while here.load(Ordering::Acquire) < (j + 1) * THREADS {
                                                spin += 1;
                                                if spin > 2000 {
                                                    std::thread::yield_now();
                                                } else {
                                                    std::hint::spin_loop();
                                                }
                                            }
                                            put(th, m, run(&calls[m]).to_bits());
                                        }
                                    });
                                }
                            });
                        });
                    }
                }
            }
        }
        let out: Vec<u8> = (0..total).flat_map(|j| unsafe { *res(j) }.to_le_bytes()).collect();
        if o.write_all(&out).is_err() || o.flush().is_err() {
            break;
        }
    }
    std::process::exit(0)
}
static POOL: Mutex<Vec<Child>> = Mutex::new(Vec::new());
fn serve(reqs: &[(u32, &[Call])]) -> Vec<Vec<u64>> {
    let z = POOL.lock().unwrap().pop();
    let mut z = z.unwrap_or_else(|| {
        Command::new(std::env::current_exe().unwrap()).arg("--zygote").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("zygote")
    });
    let mut res = vec![];
    for (mode, calls) in reqs {
        let mut b = vec![];
        b.extend(mode.to_le_bytes());
        b.extend((calls.len() as u32).to_le_bytes());
        for c in *calls {
            for w in [c.k, c.o, c.r] {
                b.extend(w.to_le_bytes());
            }
            b.extend(c.a.to_bits().to_le_bytes());
            b.extend(c.b.to_bits().to_le_bytes());
        }
        z.stdin.as_mut().unwrap().write_all(&b).expect("zygote");
        let n = calls.len() * slots(*mode);
        let mut out = vec![0u8; n * 8];
        z.stdout.as_mut().unwrap().read_exact(&mut out).expect("zygote");
        res.push(out.chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect());
    }
    POOL.lock().unwrap().push(z);
    res
}
fn calls_of(c: &Case) -> Vec<Call> {
    c.i.chunks_exact(3).zip(c.f.chunks_exact(2)).map(|(i, f)| Call { k: (i[0] as i32).rem_euclid(12), o: i[1] as i32, r: i[2] as i32, a: f[0], b: f[1] }).collect()
}
fn text(c: &Call) -> String {
    let o = if c.r == 10 { oname(c.o) } else { format!("({},{})", oname(c.o), c.r) };
    format!("{}, {o})", lab(c.k as usize, c.a, c.b))
}
fn same_bits(a: u64, b: u64) -> bool {
    a == b || (f64::from_bits(a).is_nan() && f64::from_bits(b).is_nan() && a != DEAD && b != DEAD)
}
fn judge(calls: &[Call], mode: u32) -> Result<bool, String> {
    let r = serve(&[(0, calls), (mode, calls)]);
    let n = calls.len();
    for j in 0..n {
        if r[0][j] == DEAD {
            return Err(format!("{} does not return in a fresh process", text(&calls[j])));
        }
        for th in 0..slots(mode) {
            let w = r[1][th * n + j];
            if w == DEAD {
                return Err(format!("{} (call {j}) does not return {}", text(&calls[j]), if mode == 2 || mode == 3 { "with several threads" } else { "after the calls before it" }));
            }
            if !same_bits(w, r[0][j]) {
                return Err(format!(
                    "{} = {:?} in a fresh process, but {:?} {}",
                    text(&calls[j]),
                    f64::from_bits(r[0][j]),
                    f64::from_bits(w),
                    if mode == 2 || mode == 3 { "with several threads".into() } else if mode == 4 { "again in a process of a million calls".into() } else { format!("as call {} of the sequence{}", j + 1, if j > 0 { format!(", after {}", text(&calls[j - 1])) } else { "".into() }) }
                ));
            }
        }
    }
    Ok(r[0].iter().filter(|x| !is_err(f64::from_bits(**x))).count() * 2 >= n)
}
fn seq(c: &Case) -> Out {
    let calls = calls_of(c);
    if calls.len() < 2 {
        return Out::Skip;
    }
    match judge(&calls, 1) {
        Ok(true) => Out::Ok(if calls.len() > 8 { "9 calls and more" } else { "2..8 calls" }),
        Ok(false) => Out::Trivial,
        Err(e) => Out::Fail(e),
    }
}
fn threads(c: &Case) -> Out {
    let calls = calls_of(c);
    if calls.len() < 2 {
        return Out::Skip;
    }
    match judge(&calls, 2) {
        Ok(true) => Out::Ok("4 threads"),
        Ok(false) => Out::Trivial,
        Err(e) => Out::Fail(e),
    }
}
/// two cases at a time: the threads of a case need cores of their own to meet
static GATE: [Mutex<()>; 2] = [Mutex::new(()), Mutex::new(())];
fn lockstep(c: &Case) -> Out {
    let calls = calls_of(c);
    if calls.len() < 2 {
        return Out::Skip;
    }
    let _g = GATE[(c.f[0].to_bits().count_ones() & 1) as usize].lock().unwrap_or_else(|e| e.into_inner());
    match judge(&calls, 3) {
        Ok(true) => Out::Ok("4 threads in lockstep"),
        Ok(false) => Out::Trivial,
        Err(e) => Out::Fail(e),
    }
}
fn endure(c: &Case) -> Out {
    // hx and sx cost some fifty times what the others do
    let calls: Vec<Call> = calls_of(c).into_iter().filter(|c| c.k < 10).collect();
    if calls.len() < 2 {
        return Out::Skip;
    }
    match judge(&calls, 4) {
        Ok(true) => Out::Ok("1.2 million calls"),
        Ok(false) => Out::Trivial,
        Err(e) => Out::Fail(e),
    }
}
/// n calls drawn from the sequence's own calls in an order of its own: long histories
fn long(c: &Case) -> Out {
    let base = calls_of(c);
    if base.len() < 2 {
        return Out::Skip;
    }
    let fresh = serve(&[(0, &base)]).pop().unwrap();
    let mut x = 0x9e37_79b9_7f4a_7c15u64 ^ base[0].a.to_bits() ^ (base.len() as u64) << 32;
    let idx: Vec<usize> = (0..MAXN)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 33) as usize % base.len()
        })
        .collect();
    let calls: Vec<Call> = idx.iter().map(|&i| base[i]).collect();
    let r = serve(&[(1, &calls)]).pop().unwrap();
    for j in 0..MAXN {
        if !same_bits(r[j], fresh[idx[j]]) {
            return Out::Fail(format!("{} = {:?} in a fresh process, but {:?} as call {} of a long sequence", text(&calls[j]), f64::from_bits(fresh[idx[j]]), f64::from_bits(r[j]), j + 1));
        }
    }
    Out::Ok("8192 calls")
}
/// calls that resemble each other: the same state through other functions, ids and regions, the
/// next double, the same first argument, refused points in between, exact repetitions
fn g_seq(max: usize) -> BoxedStrategy<Case> {
    let one = (0..12i64, 0..40i32, prop_oneof![6 => Just(10i64), 2 => 1..6i64, 1 => -1..8i64], 0..3usize, 0..16usize, tiny(), unit());
    (proptest::collection::vec(pt_any(), 3), proptest::collection::vec(one, 2..max))
        .prop_map(|(st, steps)| {
            let mut c = Case { f: vec![], i: vec![] };
            for (k, o, r, s, mode, e, u) in steps {
                let n = c.i.len() / 3;
                let (mut p, mut t) = st[s];
                if mode == 0 {
                    t = st[(s + 1) % 3].1; // isobar of one state, temperature of another
                }
                let rg = sure_region(p, t + 273.15);
                let st0 = state_in(if rg == 0 { 2 } else { rg }, p, t + 273.15);
                let (mut a, mut b) = match k {
                    8 => (p, u),
                    9 => (t, u),
                    10 => (st0.h, u),
                    11 => (st0.s, u),
                    _ => args_st(k as usize, p, t, &st0),
                };
                let (mut k, mut o, mut r) = (k, o as i64 % 37, r);
                match mode {
                    1 => b = f64::from_bits(b.to_bits().wrapping_add(1)),
                    2 => a = f64::from_bits(a.to_bits().wrapping_sub(1)),
                    3 => b *= 1.0 + e,
                    4 => a *= 1.0 + e,
                    5 => b = -b,
                    6 if n > 0 => {
                        // exact repetition with another id
                        let j = (u * n as f64) as usize % n;
                        k = c.i[3 * j];
                        r = c.i[3 * j + 2];
                        a = c.f[2 * j];
                        b = c.f[2 * j + 1];
                    }
                    7 if n > 0 => {
                        // another function with the same two numbers
                        let j = (u * n as f64) as usize % n;
                        a = c.f[2 * j];
                        b = c.f[2 * j + 1];
                    }
                    8 if n > 0 => {
                        // exact repetition
                        let j = (u * n as f64) as usize % n;
                        k = c.i[3 * j];
                        o = c.i[3 * j + 1];
                        r = c.i[3 * j + 2];
                        a = c.f[2 * j];
                        b = c.f[2 * j + 1];
                    }
                    _ => {}
                }
                p = a;
                t = b;
                c.f.extend([p, t]);
                c.i.extend([k, o, r]);
            }
            c
        })
        .boxed()
}
pub fn c20() -> Prop {
    Prop {
        id: "C20",
        assumptions: &[
            "a forked copy of a process that has never called the library stands for a fresh process",
            "threads: races are looked for by repetition (4 threads, 6 rounds each), not enumerated",
        ],
        setup: None,
        subs: vec![
            Sub { name: "sequence", rule: "2..24 related calls, run in one process and one by one in fresh processes; non-trivial = at least half are answered by a value", gen: || g_seq(25), check: seq, quick: 24_000, deep: 500_000 },
            Sub { name: "threads", rule: "the same with 4 threads at once in different order, 6 rounds; non-trivial = at least half are answered by a value", gen: || g_seq(25), check: threads, quick: 8_000, deep: 150_000 },
            Sub { name: "lockstep", rule: "the same with 4 threads that start each call together, from the first call of a fresh process, 6 times; non-trivial = at least half are answered by a value", gen: || g_seq(25), check: lockstep, quick: 6_000, deep: 120_000 },
            Sub { name: "endure", rule: "a sequence without hx, sx repeated until 1.2 million calls are made in one process; non-trivial = at least half are answered by a value", gen: || g_seq(41), check: endure, quick: 16, deep: 300 },
            Sub { name: "long", rule: "8192 calls drawn from up to 40 related ones; every case counts", gen: || g_seq(41), check: long, quick: 1_500, deep: 40_000 },
        ],
    }
}
