//! Driver: proptest strategies -> check -> shrink -> replay file / evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*};
use std::sync::Mutex;

/// A generated case in its final, physical form (also the replay format).
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub f: Vec<f64>,
    pub i: Vec<i64>,
}
pub fn case(f: &[f64], i: &[i64]) -> Case {
    Case { f: f.to_vec(), i: i.to_vec() }
}

pub enum Out {
    /// outside the property's domain: not counted as evaluated
    Skip,
    /// evaluated, trivial by the rule
    Trivial,
    /// evaluated, non-trivial, with its class
    Ok(&'static str),
    /// property violated
    Fail(String),
    /// violated in the way the named entry of known_findings.txt describes
    Known(&'static str, String),
}

pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    pub gen: fn() -> BoxedStrategy<Case>,
    pub check: fn(&Case) -> Out,
    pub quick: u64,
    pub deep: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    /// runs once before the subs (builds bindings and the like); Err = error of the check
    pub setup: Option<fn() -> Result<(), String>>,
}

pub const SHARDS: usize = 8;
const HANG_CPU_S: f64 = 20.0; // thread CPU time of one case, thousands of times the nominal cost

// ---------------------------------------------------------------- slots shared with the parent
// One file-backed slot per shard with the case in flight, so that a case that kills the
// process (stack overflow, abort) or never returns can be recovered and replayed.
const SLOT: usize = 4096;
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, ts: *mut [i64; 2]) -> i32;
}
static SLOTS: AtomicU64 = AtomicU64::new(0);
static SEQ: [AtomicU64; SHARDS] = [const { AtomicU64::new(0) }; SHARDS];
static TID: [AtomicU64; SHARDS] = [const { AtomicU64::new(0) }; SHARDS];
thread_local! { static SHARD: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
static CUR_SUB: AtomicI32 = AtomicI32::new(-1);

fn open_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("slot file");
    f.set_len((SLOT * SHARDS) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT * SHARDS, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    SLOTS.store(p as u64, SeqCst);
}
/// publish the case in flight
fn publish(c: &Case) {
    let s = SHARD.with(|x| x.get());
    if s == usize::MAX {
        return;
    }
    let base = SLOTS.load(Relaxed);
    if base != 0 {
        let nf = c.f.len().min(240);
        let ni = c.i.len().min(240);
        unsafe {
            let q = (base as *mut u64).add(s * SLOT / 8);
            *q = (CUR_SUB.load(Relaxed) as u64) + 1;
            *q.add(1) = nf as u64;
            *q.add(2) = ni as u64;
            for k in 0..nf {
                *q.add(3 + k) = c.f[k].to_bits();
            }
            for k in 0..ni {
                *q.add(3 + nf + k) = c.i[k] as u64;
            }
        }
    }
    SEQ[s].fetch_add(1, Release);
}
fn clear_slot() {
    let s = SHARD.with(|x| x.get());
    let base = SLOTS.load(Relaxed);
    if s != usize::MAX && base != 0 {
        unsafe { *(base as *mut u64).add(s * SLOT / 8) = 0 };
    }
    if s != usize::MAX {
        SEQ[s].fetch_add(1, Release);
    }
}
fn slots_from(path: &str) -> Vec<(usize, Case)> {
    let mut r = vec![];
    let Ok(b) = std::fs::read(path) else { return r };
    for s in 0..SHARDS {
        let w = |k: usize| u64::from_le_bytes(b[s * SLOT + 8 * k..s * SLOT + 8 * k + 8].try_into().unwrap());
        if b.len() < SLOT * SHARDS || w(0) == 0 {
            continue;
        }
        let (nf, ni) = (w(1) as usize, w(2) as usize);
        if 3 + nf + ni > SLOT / 8 {
            continue;
        }
        r.push((
            w(0) as usize - 1,
            Case { f: (0..nf).map(|k| f64::from_bits(w(3 + k))).collect(), i: (0..ni).map(|k| w(3 + nf + k) as i64).collect() },
        ));
    }
    r
}
fn cpu_of(tid: u64) -> f64 {
    unsafe {
        let mut c = 0;
        if pthread_getcpuclockid(tid as usize, &mut c) != 0 {
            return 0.0;
        }
        let mut ts = [0i64; 2];
        if clock_gettime(c, &mut ts) != 0 {
            return 0.0;
        }
        ts[0] as f64 + ts[1] as f64 * 1e-9
    }
}

// ---------------------------------------------------------------- json
pub fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r + "\""
}
fn jcase(c: &Case) -> String {
    let f: Vec<String> = c.f.iter().map(|x| format!("\"{:?}\"", x)).collect();
    let b: Vec<String> = c.f.iter().map(|x| format!("\"{:016x}\"", x.to_bits())).collect();
    let i: Vec<String> = c.i.iter().map(|x| x.to_string()).collect();
    format!("\"f\": [{}], \"bits\": [{}], \"i\": [{}]", f.join(", "), b.join(", "), i.join(", "))
}
fn parse_replay(txt: &str) -> Option<(String, Case)> {
    let field = |k: &str| -> Option<&str> {
        let a = txt.find(&format!("\"{}\":", k))? + k.len() + 3;
        Some(txt[a..].trim_start())
    };
    let list = |k: &str| -> Option<Vec<String>> {
        let t = field(k)?;
        let e = t.find(']')?;
        Some(t[1..e].split(',').map(|s| s.trim().trim_matches('"').to_string()).filter(|s| !s.is_empty()).collect())
    };
    let sub = field("sub")?;
    let sub = &sub[1..1 + sub[1..].find('"')?];
    let f = list("bits")?.iter().map(|s| u64::from_str_radix(s, 16).map(f64::from_bits)).collect::<Result<Vec<_>, _>>().ok()?;
    let i = list("i")?.iter().map(|s| s.parse::<i64>()).collect::<Result<Vec<_>, _>>().ok()?;
    Some((sub.to_string(), Case { f, i }))
}

// ---------------------------------------------------------------- running one case
fn run_one(check: fn(&Case) -> Out, c: &Case) -> Out {
    publish(c);
    match catch_unwind(AssertUnwindSafe(|| check(c))) {
        Ok(o) => o,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Out::Fail(format!("panic: {m}"))
        }
    }
}
fn hash(c: &Case) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for w in c.f.iter().map(|x| x.to_bits()).chain(c.i.iter().map(|x| *x as u64)) {
        h = (h ^ w).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_add(b.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(0x632BE59BD9B4E019);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn runner(seed: u64) -> TestRunner {
    let mut b = [0u8; 32];
    for k in 0..4 {
        b[8 * k..8 * k + 8].copy_from_slice(&mix(seed, k as u64).to_le_bytes());
    }
    TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, TestRng::from_seed(RngAlgorithm::ChaCha, &b))
}

/// fewer significant digits while it still fails
/// seconds given to shrinking one failure
const SHRINK_S: u64 = 40;
fn round_shrink(check: fn(&Case) -> Out, mut c: Case, mut msg: String, t0: std::time::Instant) -> (Case, String) {
    for k in 0..c.f.len() {
        let x = c.f[k];
        if !x.is_finite() || x == 0.0 {
            continue;
        }
        for d in 0..14usize {
            let y: f64 = format!("{:.*e}", d, x).parse().unwrap();
            if y == x || t0.elapsed().as_secs() > SHRINK_S {
                break;
            }
            let mut t = c.clone();
            t.f[k] = y;
            if let Out::Fail(m) = run_one(check, &t) {
                c = t;
                msg = m;
                break;
            }
        }
    }
    (c, msg)
}

#[derive(Default)]
struct Acc {
    gen: u64,
    skipped: u64,
    evals: u64,
    classes: BTreeMap<&'static str, u64>,
    seen: HashSet<u64>,
    seen_n: u64,
    samples: Vec<String>,
    known: BTreeMap<&'static str, (u64, String)>,
}
const SEEN_CAP: usize = 1_500_000;

fn shard(sub: &Sub, n: u64, seed: u64, stop: &AtomicBool) -> (Acc, Option<(Case, String)>) {
    let mut a = Acc::default();
    let strat = (sub.gen)();
    let mut r = runner(seed);
    for k in 0..n {
        if stop.load(Relaxed) {
            break;
        }
        let Ok(mut tree) = strat.new_tree(&mut r) else { continue };
        let c = tree.current();
        a.gen += 1;
        match run_one(sub.check, &c) {
            Out::Skip => a.skipped += 1,
            Out::Trivial => a.evals += 1,
            Out::Ok(l) => {
                a.evals += 1;
                *a.classes.entry(l).or_default() += 1;
                if a.seen.len() < SEEN_CAP && a.seen.insert(hash(&c)) {
                    a.seen_n += 1;
                }
                if a.samples.len() < 2 && k >= 3 {
                    a.samples.push(format!("{{\"sub\": {}, \"class\": {}, {}}}", jstr(sub.name), jstr(l), jcase(&c)));
                }
            }
            Out::Known(id, m) => {
                a.evals += 1;
                let e = a.known.entry(id).or_insert((0, m));
                e.0 += 1;
            }
            Out::Fail(m0) => {
                a.evals += 1;
                if stop.swap(true, SeqCst) {
                    break;
                }
                let (mut best, mut msg) = (c, m0);
                let mut steps = 0;
                let t0 = std::time::Instant::now();
                let mut alive = tree.simplify();
                while alive && steps < 3000 && t0.elapsed().as_secs() <= SHRINK_S {
                    steps += 1;
                    let t = tree.current();
                    if let Out::Fail(m) = run_one(sub.check, &t) {
                        best = t;
                        msg = m;
                        alive = tree.simplify();
                    } else {
                        alive = tree.complicate();
                    }
                }
                let (best, msg) = round_shrink(sub.check, best, msg, t0);
                clear_slot();
                return (a, Some((best, msg)));
            }
        }
    }
    clear_slot();
    (a, None)
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn write_replay(prop: &str, sub: &str, c: &Case, msg: &str) -> String {
    let d = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    let p = format!("{d}/{prop}-{sub}.json");
    let _ = std::fs::write(
        &p,
        format!("{{\"property\": {}, \"sub\": {}, {}, \"message\": {}}}\n", jstr(prop), jstr(sub), jcase(c), jstr(msg)),
    );
    p
}
/// ids listed as findings in known_findings.txt
fn listed_findings(prop: &str) -> Vec<String> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let mut w = l.split_whitespace();
            let p = w.next()?.strip_prefix("property=")?;
            let id = w.next()?.strip_prefix("id=")?;
            (p == prop).then(|| id.to_string())
        })
        .collect()
}

/// The child: runs everything in-process. Exit 0 held, 1 violated, 2 error.
pub fn run(p: &Prop, tier: &str, seed: u64, slots: &str, only: Option<&str>) -> i32 {
    let t0 = std::time::Instant::now();
    std::panic::set_hook(Box::new(|_| {}));
    open_slots(slots);
    if let Some(f) = p.setup {
        if let Err(e) = f() {
            println!("ERROR property={}: {}", p.id, e);
            return 2;
        }
    }
    let id = p.id;
    // watchdog on the CPU time of one case
    std::thread::spawn(move || {
        let mut last = [(0u64, 0u64, 0.0f64); SHARDS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for s in 0..SHARDS {
                let tid = TID[s].load(SeqCst);
                if tid == 0 {
                    continue;
                }
                let q = SEQ[s].load(Acquire);
                let cpu = cpu_of(tid);
                if last[s].0 != q || last[s].1 != tid {
                    last[s] = (q, tid, cpu);
                } else if cpu - last[s].2 > HANG_CPU_S {
                    println!("HANG property={id} shard={s} cpu={:.1}", cpu - last[s].2);
                    std::process::exit(70 + s as i32);
                }
            }
        }
    });
    let deep = tier == "thorough";
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    // quick: about half a minute per property on 8 cores
    let scale = scale * if deep { 1.0 } else { match p.id { "C01" | "C14" | "C22" => 5.0, "C02" | "C03" | "C04" | "C05" | "C12" | "C13" => 3.0, "C06" | "C07" | "C16" | "C21" => 2.0, _ => 1.0 } };
    let mut viol = 0;
    let (mut evals, mut distinct) = (0u64, 0u64);
    let mut js_subs = vec![];
    let mut samples = vec![];
    let mut rules = vec![];
    let mut known: BTreeMap<&'static str, (u64, String)> = BTreeMap::new();
    for (si, sub) in p.subs.iter().enumerate() {
        if only.map_or(false, |o| o != sub.name) {
            continue;
        }
        // a violated property is not explored for ever
        if viol > 0 && !deep && t0.elapsed().as_secs() > 240 {
            break;
        }
        CUR_SUB.store(si as i32, SeqCst);
        let n = (((if deep { sub.deep.max(sub.quick * 6) } else { sub.quick }) as f64) * scale) as u64;
        let per = n.div_ceil(SHARDS as u64);
        let stop = AtomicBool::new(false);
        let res: Mutex<Vec<(usize, Acc, Option<(Case, String)>)>> = Mutex::new(vec![]);
        let ts = std::time::Instant::now();
        std::thread::scope(|sc| {
            for s in 0..SHARDS {
                let (stop, res) = (&stop, &res);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        SHARD.with(|x| x.set(s));
                        TID[s].store(unsafe { pthread_self() } as u64, SeqCst);
                        let sd = mix(mix(mix(seed, s as u64), si as u64 + 100), p.id.bytes().fold(7, |a, b| a * 131 + b as u64));
                        let (a, f) = shard(sub, per, sd, stop);
                        TID[s].store(0, SeqCst);
                        res.lock().unwrap().push((s, a, f));
                    })
                    .unwrap();
            }
        });
        let mut r = res.into_inner().unwrap();
        r.sort_by_key(|x| x.0);
        let mut tot = Acc::default();
        for (_, a, f) in r {
            tot.gen += a.gen;
            tot.skipped += a.skipped;
            tot.evals += a.evals;
            for (k, v) in a.classes {
                *tot.classes.entry(k).or_default() += v;
            }
            if tot.seen.is_empty() {
                tot.seen = a.seen;
            } else {
                tot.seen.extend(a.seen);
            }
            for x in a.samples {
                if tot.samples.len() < 3 {
                    tot.samples.push(x);
                }
            }
            for (k, v) in a.known {
                let e = known.entry(k).or_insert((0, v.1));
                e.0 += v.0;
            }
            if let Some((c, m)) = f {
                viol += 1;
                let path = write_replay(p.id, sub.name, &c, &m);
                println!("{} {}: {}", p.id, sub.name, m);
                println!("VIOLATION property={} replay={}", p.id, path);
            }
        }
        let cl: Vec<String> = tot.classes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
        js_subs.push(format!(
            "{{\"sub\": {}, \"generated\": {}, \"outside_domain\": {}, \"evaluated\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.1}, \"classes\": {{{}}}}}",
            jstr(sub.name), tot.gen, tot.skipped, tot.evals, tot.seen.len(), ts.elapsed().as_secs_f64(), cl.join(", ")
        ));
        rules.push(format!("{}: {}", sub.name, sub.rule));
        evals += tot.evals;
        distinct += tot.seen.len() as u64;
        samples.append(&mut tot.samples);
        println!(
            "{} {:<22} generated {} evaluated {} non-trivial {} ({:.1}s) {:?}",
            p.id, sub.name, tot.gen, tot.evals, tot.seen.len(), ts.elapsed().as_secs_f64(), tot.classes
        );
    }
    let listed = listed_findings(p.id);
    let mut jk = vec![];
    for (k, (n, m)) in &known {
        if listed.iter().any(|l| l == k) {
            println!("KNOWN-FINDING: property={} id={} {} ({} cases)", p.id, k, m, n);
            jk.push(format!("{{\"id\": {}, \"cases\": {}, \"what\": {}}}", jstr(k), n, jstr(m)));
        } else {
            viol += 1;
            let path = write_replay(p.id, k, &case(&[], &[]), m);
            println!("{}: unlisted finding {}: {}", p.id, k, m);
            println!("VIOLATION property={} replay={}", p.id, path);
        }
    }
    let asm: Vec<String> = p.assumptions.iter().map(|s| jstr(s)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [\n   {}\n  ],\n  \"subchecks\": [\n   {}\n  ],\n  \"known_findings\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(p.id), jstr(tier), seed as i64, evals, distinct,
        jstr(&format!("Cases come from proptest strategies seeded with VERIF_SEED; counted once per shard and capped at {} per shard. {}", SEEN_CAP, rules.join(" | "))),
        samples.join(",\n   "), js_subs.join(",\n   "), jk.join(", "), asm.join(", "), t0.elapsed().as_secs_f64(), viol
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    if only.is_none() {
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), p.id), ev) {
            println!("ERROR property={}: evidence: {}", p.id, e);
            return 2;
        }
    }
    if viol > 0 {
        1
    } else {
        0
    }
}

/// Replay one case in-process: 1 = still fails.
pub fn replay(p: &Prop, path: &str) -> i32 {
    let Some((sub, c)) = std::fs::read_to_string(path).ok().and_then(|t| parse_replay(&t)) else {
        println!("ERROR cannot read {path}");
        return 2;
    };
    if let Some(f) = p.setup {
        if let Err(e) = f() {
            println!("ERROR property={}: {}", p.id, e);
            return 2;
        }
    }
    let Some(s) = p.subs.iter().find(|s| s.name == sub) else {
        println!("ERROR no sub-check {sub}");
        return 2;
    };
    match run_one(s.check, &c) {
        Out::Fail(m) => {
            println!("{} {}: {}", p.id, sub, m);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        Out::Known(k, m) => {
            println!("known {k}: {m}");
            0
        }
        Out::Skip => {
            println!("outside the domain");
            0
        }
        _ => {
            println!("holds");
            0
        }
    }
}

/// The parent: runs `run` in a child, and turns a child that dies or spins into a verdict.
pub fn supervise(p: &Prop, args: &[String]) -> i32 {
    let slots = format!("/dev/shm/if97check-{}-{}.slots", p.id, std::process::id());
    let slots = if std::path::Path::new("/dev/shm").is_dir() { slots } else { slots.replace("/dev/shm", "/tmp") };
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).arg("--child").args(args).env("IF97_SLOTS", &slots).status();
    let code = match &st {
        Ok(s) => s.code().unwrap_or(-1),
        Err(e) => {
            println!("ERROR {e}");
            2
        }
    };
    let mut rc = code;
    if !(0..=2).contains(&code) {
        // died by a signal / abort, or the CPU watchdog fired: find the case and replay it alone
        let cands = slots_from(&slots);
        rc = 2;
        for (k, (si, c)) in cands.iter().enumerate() {
            let sub = match p.subs.get(*si) {
                Some(s) => s.name,
                None => continue,
            };
            let why = if code >= 70 && code < 70 + SHARDS as i32 {
                "a call does not return (CPU time bound of the case exceeded)"
            } else {
                "a call ends the process (stack overflow or abort)"
            };
            let path = write_replay(p.id, &format!("{sub}"), c, why);
            let tmp = format!("{}.{}", path, k);
            let _ = std::fs::rename(&path, &tmp);
            // `ulimit -t` is CPU time: a spinning replay is killed by SIGXCPU/SIGKILL
            let r = std::process::Command::new("bash")
                .arg("-c")
                .arg(format!("ulimit -t {}; exec \"$0\" \"$@\"", HANG_CPU_S as u64))
                .arg(&exe)
                .args([p.id, "--replay", &tmp])
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status();
            let bad = match r {
                Ok(s) => s.code().map_or(true, |c| c > 2),
                Err(_) => false,
            };
            if bad {
                let _ = std::fs::rename(&tmp, &path);
                println!("{} {}: {} {:?}", p.id, sub, why, c);
                println!("VIOLATION property={} replay={}", p.id, path);
                rc = 1;
                break;
            } else {
                let _ = std::fs::remove_file(&tmp);
            }
        }
        if rc == 2 {
            println!("ERROR property={}: the run ended with {:?} and no case in flight reproduces it", p.id, st);
        }
    }
    let _ = std::fs::remove_file(&slots);
    rc
}
