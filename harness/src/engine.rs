//! Property-based testing engine: choice-sequence generators with integrated shrinking,
//! deterministic seeding, parallel worker processes, replay files and evidence.
//!
//! A case is a function of a sequence of bounded choices. In random mode the choices come from a
//! PRNG seeded by (VERIF_SEED, property, sub-check, index); in replay mode from a saved list, with
//! 0 (the simplest choice) once the list is used up. Shrinking edits the list.

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug)]
pub enum Stop {
    /// The generated input is outside the property's domain.
    Discard,
    Fail(String),
}
pub type R = Result<(), Stop>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Stop::Fail(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Stop::Fail(format!($($t)*))) } };
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

struct Rng([u64; 4]);
impl Rng {
    fn new(mut seed: u64) -> Self {
        let mut s = [0u64; 4];
        for x in s.iter_mut() {
            seed = seed.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = seed;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            *x = z ^ (z >> 31);
        }
        Rng(s)
    }
    fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

/// Source of choices handed to a case.
pub struct G {
    rng: Option<Rng>,
    given: Vec<u64>,
    rec: Vec<u64>,
    pub labels: Vec<&'static str>,
    nontrivial: bool,
    desc: String,
    pub thorough: bool,
}

impl G {
    fn random(seed: u64, thorough: bool) -> Self {
        G { rng: Some(Rng::new(seed)), given: vec![], rec: vec![], labels: vec![], nontrivial: false, desc: String::new(), thorough }
    }
    fn replay(given: Vec<u64>, thorough: bool) -> Self {
        G { rng: None, given, rec: vec![], labels: vec![], nontrivial: false, desc: String::new(), thorough }
    }
    /// A source that repeats the given choices.
    pub fn of(choices: Vec<u64>) -> Self {
        G::replay(choices, false)
    }
    /// The choices made so far.
    pub fn choices(&self) -> &[u64] {
        &self.rec
    }
    /// Uniform choice in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => {
                if n == 1 {
                    0
                } else {
                    ((r.next() as u128 * n as u128) >> 64) as u64
                }
            }
            None => self.given.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
        };
        self.rec.push(v);
        v
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// Size biased to small values: minimum of two draws.
    pub fn small(&mut self, lo: usize, hi: usize) -> usize {
        let a = self.size(lo, hi);
        let b = self.size(lo, hi);
        a.min(b)
    }
    /// Size in lo..=hi, biased to small values, and in pct percent of the draws in hi..=far.
    pub fn tail(&mut self, lo: usize, hi: usize, far: usize, pct: u64) -> usize {
        if self.chance(pct) {
            self.size(hi, far)
        } else {
            self.small(lo, hi)
        }
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        hi << 32 | lo
    }
    /// True with probability pct/100; false is the simple value.
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) >= 100 - pct
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.below((xs.len() - i) as u64) as usize;
            xs.swap(i, j);
        }
    }
    /// Classify the case (counted in the evidence).
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Record the human-readable input of the case (identifies the case for distinctness).
    pub fn input(&mut self, s: impl Into<String>) {
        self.desc = s.into();
    }
    pub fn add_input(&mut self, s: impl AsRef<str>) {
        if !self.desc.is_empty() {
            self.desc.push_str("; ");
        }
        self.desc.push_str(s.as_ref());
    }
    /// Declare that this case reached what the property is about.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut G) -> R,
}

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    /// Called once in every process before any case (e.g. to intern symbols in a fixed order).
    pub init: fn(),
}

static PANIC: Mutex<String> = Mutex::new(String::new());

fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("panicked at {}: {}", loc, msg);
        }
    }));
}

fn run_case(f: fn(&mut G) -> R, g: &mut G) -> R {
    match catch_unwind(AssertUnwindSafe(|| f(g))) {
        Ok(r) => r,
        Err(_) => {
            crate::io::restore_stdout();
            Err(Stop::Fail(PANIC.lock().map(|p| p.clone()).unwrap_or_default()))
        }
    }
}

fn case_seed(seed: u64, prop: &str, sub: &str, index: u64) -> u64 {
    fnv(format!("{}/{}/{}/{}", seed, prop, sub, index).as_bytes())
}

fn shrink(f: fn(&mut G) -> R, start: Vec<u64>, thorough: bool) -> (Vec<u64>, String, String) {
    let t0 = Instant::now();
    let mut best = start;
    let mut msg = String::new();
    let mut desc = String::new();
    let mut evals = 0u32;
    let mut attempt = |c: Vec<u64>, best: &mut Vec<u64>, force: bool| -> bool {
        evals += 1;
        if !force && (evals > 6000 || t0.elapsed() > Duration::from_secs(30)) {
            return false;
        }
        let mut g = G::replay(c, thorough);
        if let Err(Stop::Fail(m)) = run_case(f, &mut g) {
            let smaller = g.rec.len() < best.len() || (g.rec.len() == best.len() && g.rec < *best);
            if smaller || force {
                *best = g.rec;
                msg = m;
                desc = g.desc;
                return true;
            }
        }
        false
    };
    let first = best.clone();
    attempt(first, &mut best, true);
    loop {
        let before = best.clone();
        // drop chunks
        for size in [32usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len().saturating_sub(size) as isize;
            while i >= 0 {
                if (i as usize) + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i as usize..i as usize + size);
                    if !attempt(c, &mut best, false) {
                        // drop and decrement a preceding count
                        if i > 0 {
                            let mut c = best.clone();
                            c.drain(i as usize..(i as usize + size).min(c.len()));
                            let k = i as usize - 1;
                            if c[k] > 0 {
                                c[k] -= 1;
                                attempt(c, &mut best, false);
                            }
                        }
                    }
                }
                i -= 1;
            }
        }
        // zero / lower values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(c, &mut best, false) {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if attempt(c, &mut best, false) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt(c, &mut best, false);
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    (best, msg, desc)
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…[{} bytes]", &s[..e], s.len())
}

const EXIT_FOUND: i32 = 10;

#[derive(Default)]
struct Stats {
    evals: u64,
    discards: u64,
    keys: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
}

const ROUNDS: u64 = 64;
fn rounds_of(total: u64, r: u64) -> (u64, u64) {
    (total * r / ROUNDS, total * (r + 1) / ROUNDS)
}
/// Runs the rounds from `first` on, without the cases in `skip` (which ran out of memory or time).
fn worker(p: &Prop, k: u64, w: u64, dir: &Path, seed: u64, thorough: bool, cap: Duration, first: u64, skip: &[String]) -> i32 {
    let t0 = Instant::now();
    let status = dir.join(format!("status{}", k));
    let mut capped = false;
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_SUB").ok();
    let mut sf = std::fs::File::create(&status).unwrap();
    // round-robin over sub-checks in proportion to their case counts, so that a time cap hits all alike
    let totals: Vec<u64> = p
        .subs
        .iter()
        .map(|s| {
            if only.as_deref().map_or(false, |o| o != s.name) {
                0
            } else {
                (((if thorough { s.thorough } else { s.quick }) as f64) * scale).ceil() as u64
            }
        })
        .collect();
    for r in first..ROUNDS {
        let mut stats: BTreeMap<&str, Stats> = BTreeMap::new();
        for (si, s) in p.subs.iter().enumerate() {
            let (lo, hi) = rounds_of(totals[si], r);
            let st = stats.entry(s.name).or_default();
            for index in lo..hi {
                if index % w != k {
                    continue;
                }
                if capped || t0.elapsed() > cap {
                    capped = true;
                    break;
                }
                {
                    use std::os::unix::fs::FileExt;
                    let line = format!("{:<24} {:<20}\n", s.name, index);
                    let _ = sf.write_all_at(line.as_bytes(), 0);
                    let _ = sf.flush();
                }
                if skip.contains(&format!("{} {}", s.name, index)) {
                    st.discards += 1;
                    *st.labels.entry("given up: out of memory or time".into()).or_insert(0) += 1;
                    continue;
                }
                let mut g = G::random(case_seed(seed, p.id, s.name, index), thorough);
                let r = run_case(s.f, &mut g);
                match r {
                    Ok(()) => {
                        st.evals += 1;
                        for l in &g.labels {
                            *st.labels.entry(l.to_string()).or_insert(0) += 1;
                        }
                        if g.nontrivial {
                            *st.labels.entry("nontrivial".into()).or_insert(0) += 1;
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            s.name.hash(&mut h);
                            g.desc.hash(&mut h);
                            if st.keys.insert(h.finish()) && st.samples.len() < 2 && st.evals % 7 == 1 {
                                st.samples.push(clip(&format!("[{}] {}", s.name, g.desc), 600));
                            }
                        }
                    }
                    Err(Stop::Discard) => {
                        st.discards += 1;
                    }
                    Err(Stop::Fail(m0)) => {
                        let rec = g.rec.clone();
                        // save the raw failure first, in case shrinking crashes
                        let raw = json!({"property": p.id, "sub": s.name, "seed": seed, "index": index, "choices": rec,
                            "message": m0, "input": g.desc});
                        std::fs::write(dir.join(format!("fail{}.json", k)), serde_json::to_string(&raw).unwrap()).unwrap();
                        let (best, msg, desc) = shrink(s.f, rec.clone(), thorough);
                        let out = json!({"property": p.id, "sub": s.name, "seed": seed, "index": index,
                            "choices": best, "message": if msg.is_empty() {m0.clone()} else {msg}, "input": desc,
                            "original": {"choices": rec, "message": clip(&m0, 2000), "input": clip(&g.desc, 4000)}});
                        std::fs::write(dir.join(format!("fail{}.json", k)), serde_json::to_string_pretty(&out).unwrap()).unwrap();
                        return EXIT_FOUND;
                    }
                }
            }
        }
        let out: BTreeMap<&str, Value> = stats
            .iter()
            .map(|(n, s)| {
                (
                    *n,
                    json!({"evals": s.evals, "discards": s.discards, "labels": s.labels,
                    "keys": s.keys.iter().collect::<Vec<_>>(), "samples": s.samples}),
                )
            })
            .collect();
        std::fs::write(
            dir.join(format!("stats{}-{}.json", k, r)),
            serde_json::to_string(&json!({"subs": out, "capped": capped})).unwrap(),
        )
        .unwrap();
        if capped {
            break;
        }
    }
    0
}

fn replay_choices(p: &Prop, v: &Value, key: &str) -> Option<(Result<(), String>, String)> {
    let v2 = if key.is_empty() { v } else { &v[key] };
    let sub = v["sub"].as_str()?;
    let s = p.subs.iter().find(|s| s.name == sub)?;
    let ch: Vec<u64> = v2["choices"].as_array()?.iter().map(|x| x.as_u64().unwrap_or(0)).collect();
    let mut g = G::replay(ch, v["thorough"].as_bool().unwrap_or(false));
    let r = run_case(s.f, &mut g);
    Some((
        match r {
            Err(Stop::Fail(m)) => Err(m),
            _ => Ok(()),
        },
        g.desc,
    ))
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn spawn(exe: &Path, args: &[String], cwd: &Path, err: &Path) -> Child {
    std::fs::create_dir_all(cwd).unwrap();
    Command::new(exe)
        .args(args)
        .current_dir(cwd)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(err).unwrap())
        .env("RAYON_NUM_THREADS", "2")
        .spawn()
        .expect("spawn worker")
}

/// Cases that may be given up for lack of memory or time before that counts as a failure.
const MAX_OOM: usize = 8;
const MAX_STALLS: usize = 3;

fn limit_memory() {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 7 << 29, rlim_max: 7 << 29 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
}

/// Entry point of every check binary.
pub fn main(p: Prop) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => {
            limit_memory();
            quiet_panics();
            (p.init)();
            let k = args[2].parse().unwrap();
            let w = args[3].parse().unwrap();
            let cap = Duration::from_secs(args[5].parse().unwrap());
            // a large stack, so that deep but legal recursion is not mistaken for a crash
            let dir = PathBuf::from(&args[4]);
            let first: u64 = args[6].parse().unwrap();
            let skip: Vec<String> = args[7].split(',').map(|s| s.to_string()).collect();
            let code = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || worker(&p, k, w, &dir, seed, thorough, cap, first, &skip))
                .unwrap()
                .join()
                .unwrap_or(3);
            std::process::exit(code)
        }
        Some("--one") => {
            // run one random case by (sub, index): used to confirm crashes
            limit_memory();
            quiet_panics();
            (p.init)();
            let sub = args[2].clone();
            let index: u64 = args[3].parse().unwrap();
            let code = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let s = p.subs.iter().find(|s| s.name == sub).unwrap();
                    let mut g = G::random(case_seed(seed, p.id, s.name, index), thorough);
                    match run_case(s.f, &mut g) {
                        Err(Stop::Fail(m)) => {
                            eprintln!("{}\ninput: {}", m, g.desc);
                            EXIT_FOUND
                        }
                        _ => 0,
                    }
                })
                .unwrap()
                .join()
                .unwrap_or(3);
            std::process::exit(code)
        }
        Some("--replay") => {
            limit_memory();
            quiet_panics();
            (p.init)();
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let key = args.get(3).cloned().unwrap_or_default();
            let code = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || match replay_choices(&p, &v, &key) {
                    Some((Err(m), desc)) => {
                        eprintln!("reproduced: {}\ninput: {}", m, desc);
                        EXIT_FOUND
                    }
                    Some((Ok(()), _)) => 0,
                    None => 3,
                })
                .unwrap()
                .join()
                .unwrap_or(3);
            std::process::exit(code)
        }
        Some(a) if a.starts_with("--") => {
            eprintln!("unknown option {}", a);
            std::process::exit(2)
        }
        _ => {}
    }
    std::process::exit(supervise(p, seed, thorough))
}

fn supervise(p: Prop, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let w: u64 = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 8)
    });
    let scratch = Scratch(std::env::temp_dir().join(format!("vh-{}-{}", p.id, std::process::id())));
    let _ = std::fs::remove_dir_all(&scratch.0);
    std::fs::create_dir_all(&scratch.0).unwrap();
    let dir = scratch.0.clone();
    let cap = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000u64 } else { 420 });
    let stall_limit = Duration::from_secs(100);

    let start = |k: u64, first: u64, skip: &[String]| {
        let left = (cap as f64 - t0.elapsed().as_secs_f64()).max(1.0) as u64;
        spawn(
            &exe,
            &["--worker".into(), k.to_string(), w.to_string(), dir.display().to_string(), left.to_string(), first.to_string(), skip.join(",")],
            &dir.join(format!("cwd{}", k)),
            &dir.join(format!("err{}", k)),
        )
    };
    let mut kids: Vec<Option<Child>> = (0..w).map(|k| Some(start(k, 0, &[]))).collect();
    // cases given up, with the reason, for lack of memory and for lack of time
    let mut skips: Vec<Vec<String>> = vec![vec![]; w as usize];
    let mut given_up: [Vec<(String, String)>; 2] = [vec![], vec![]];
    let round_of = |case: &str| -> Option<u64> {
        let mut it = case.split(' ');
        let (sub, index): (&str, u64) = (it.next()?, it.next()?.parse().ok()?);
        let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let s = p.subs.iter().find(|s| s.name == sub)?;
        let total = (((if thorough { s.thorough } else { s.quick }) as f64) * scale).ceil() as u64;
        (0..ROUNDS).find(|r| index < rounds_of(total, *r).1)
    };
    let mut last: Vec<(String, Instant)> = (0..w).map(|_| (String::new(), Instant::now())).collect();
    let mut found: Option<u64> = None;
    let mut crashed: Option<(u64, String)> = None;
    let mut lost: Option<String> = None;
    loop {
        let mut alive = false;
        let mut stuck: Vec<(usize, usize, String)> = vec![];
        for k in 0..w as usize {
            if let Some(c) = &mut kids[k] {
                match c.try_wait().unwrap() {
                    Some(st) => {
                        kids[k] = None;
                        match st.code() {
                            Some(0) => {}
                            Some(c) if c == EXIT_FOUND => found = Some(k as u64),
                            _ => {
                                let err = std::fs::read_to_string(dir.join(format!("err{}", k))).unwrap_or_default();
                                let how = format!("{}", st);
                                if dir.join(format!("fail{}.json", k)).exists() {
                                    // while shrinking: the raw failure was saved
                                    found = Some(k as u64);
                                } else if err.contains("memory allocation of") || how.contains("SIGKILL") {
                                    stuck.push((k, 0, format!("ran out of memory ({})", how)));
                                } else {
                                    crashed = Some((k as u64, how));
                                }
                            }
                        }
                    }
                    None => {
                        alive = true;
                        let s = std::fs::read_to_string(dir.join(format!("status{}", k))).unwrap_or_default();
                        let shrinking = dir.join(format!("fail{}.json", k)).exists();
                        if s != last[k].0 {
                            last[k] = (s, Instant::now());
                        } else if last[k].1.elapsed() > stall_limit && !shrinking {
                            let _ = c.kill();
                            let _ = c.wait();
                            kids[k] = None;
                            stuck.push((k, 1, format!("did not end in {:?}", stall_limit)));
                        } else if last[k].1.elapsed() > stall_limit + Duration::from_secs(60) {
                            // shrinking got stuck: the raw failure was saved
                            found = Some(k as u64);
                        }
                    }
                }
            }
        }
        for (k, why, how) in stuck {
            // the case is given up and the worker goes on behind it
            let at = std::fs::read_to_string(dir.join(format!("status{}", k))).unwrap_or_default();
            let at: Vec<&str> = at.split_whitespace().collect();
            let at = at.join(" ");
            eprintln!("{}: case {} {}", p.id, at, how);
            match round_of(&at) {
                Some(r) if !skips[k].contains(&at) => {
                    skips[k].push(at.clone());
                    given_up[why].push((at, how));
                    kids[k] = Some(start(k as u64, r, &skips[k]));
                    last[k] = (String::new(), Instant::now());
                    alive = true;
                }
                _ => lost = Some(format!("worker {} {}", k, how)),
            }
        }
        if given_up[0].len() > MAX_OOM || given_up[1].len() > MAX_STALLS {
            break;
        }
        if found.is_some() || crashed.is_some() || !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    for c in kids.iter_mut().flatten() {
        let _ = c.kill();
        let _ = c.wait();
    }

    let mut violation: Option<Value> = None;
    for (why, max) in [(0, MAX_OOM), (1, MAX_STALLS)] {
        // so many are no accident; the cases are confirmed alone
        if given_up[why].len() <= max || found.is_some() || crashed.is_some() {
            continue;
        }
        for (at, how) in given_up[why].iter().take(2) {
            let (sub, index) = at.split_once(' ').unwrap();
            let mut c = spawn(&exe, &["--one".into(), sub.into(), index.into()], &dir.join("cwd-one"), &dir.join("err-one"));
            let st = wait_for(&mut c, stall_limit);
            if st.map_or(true, |st| st.code() != Some(0)) {
                violation = Some(json!({"property": p.id, "sub": sub, "seed": seed, "index": index.parse::<u64>().unwrap_or(0),
                    "thorough": thorough, "crash": how, "message": format!("the case {} as do {} others", how, given_up[why].len() - 1),
                    "input": "see (sub, seed, index)"}));
            }
        }
        if violation.is_none() {
            eprintln!("ERROR {}: {} cases given up, but not when run alone; no verdict", p.id, given_up[why].len());
            return 2;
        }
    }
    if let Some(k) = found {
        let text = std::fs::read_to_string(dir.join(format!("fail{}.json", k))).unwrap_or_default();
        match serde_json::from_str::<Value>(&text) {
            Ok(mut v) => {
                v["thorough"] = json!(thorough);
                violation = Some(v)
            }
            Err(_) => {
                eprintln!("ERROR {}: worker {} reported a failure but left no readable record", p.id, k);
                return 2;
            }
        }
    } else if let Some((k, how)) = crashed {
        let status = std::fs::read_to_string(dir.join(format!("status{}", k))).unwrap_or_default();
        let err = std::fs::read_to_string(dir.join(format!("err{}", k))).unwrap_or_default();
        let mut it = status.split_whitespace();
        let (sub, index) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
        eprintln!("{}: worker {} ended with {} in case {} {}: {}", p.id, k, how, sub, index, clip(&err, 500));
        if sub.is_empty() {
            eprintln!("ERROR {}: worker start failure; no verdict", p.id);
            return 2;
        }
        // confirm in a fresh process
        let errf = dir.join("err-one");
        let mut c = spawn(&exe, &["--one".into(), sub.clone(), index.clone()], &dir.join("cwd-one"), &errf);
        let st = wait_for(&mut c, Duration::from_secs(120));
        match st {
            Some(st) if st.code() != Some(0) && st.code() != Some(EXIT_FOUND) => {
                let e1 = std::fs::read_to_string(&errf).unwrap_or_default();
                if e1.contains("memory allocation of") || format!("{}", st).contains("SIGKILL") {
                    eprintln!("ERROR {}: out of memory; no verdict", p.id);
                    return 2;
                }
                violation = Some(json!({"property": p.id, "sub": sub, "seed": seed, "index": index.parse::<u64>().unwrap_or(0),
                    "thorough": thorough, "crash": format!("{}", st), "message": format!("process crashes: {} {}", st, clip(&e1, 500)),
                    "input": "see (sub, seed, index)"}));
            }
            Some(st) if st.code() == Some(EXIT_FOUND) => {
                violation = Some(json!({"property": p.id, "sub": sub, "seed": seed, "index": index.parse::<u64>().unwrap_or(0),
                    "thorough": thorough, "message": std::fs::read_to_string(&errf).unwrap_or_default(), "input": ""}));
            }
            _ => {
                eprintln!("ERROR {}: crash of case {} {} did not reproduce; no verdict", p.id, sub, index);
                return 2;
            }
        }
    } else if let Some(m) = lost {
        eprintln!("ERROR {}: {}; no verdict", p.id, m);
        return 2;
    }

    // collect stats
    let mut evals = 0u64;
    let mut discards = 0u64;
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut per_sub: BTreeMap<String, (u64, u64, BTreeMap<String, u64>)> = BTreeMap::new();
    let mut capped = false;
    for (k, r) in (0..w).flat_map(|k| (0..ROUNDS).map(move |r| (k, r))) {
        if let Ok(t) = std::fs::read_to_string(dir.join(format!("stats{}-{}.json", k, r))) {
            let v: Value = serde_json::from_str(&t).unwrap();
            capped |= v["capped"].as_bool().unwrap_or(false);
            for (n, s) in v["subs"].as_object().unwrap() {
                let e = per_sub.entry(n.clone()).or_default();
                e.0 += s["evals"].as_u64().unwrap();
                e.1 += s["discards"].as_u64().unwrap();
                evals += s["evals"].as_u64().unwrap();
                discards += s["discards"].as_u64().unwrap();
                for (l, c) in s["labels"].as_object().unwrap() {
                    *e.2.entry(l.clone()).or_insert(0) += c.as_u64().unwrap();
                }
                for x in s["keys"].as_array().unwrap() {
                    keys.insert(x.as_u64().unwrap());
                }
                let have = samples.iter().filter(|x| x.starts_with(&format!("[{}]", n))).count();
                for x in s["samples"].as_array().unwrap().iter().take(2usize.saturating_sub(have)) {
                    samples.push(x.as_str().unwrap().to_string());
                }
            }
        }
    }
    let subs: Value = per_sub
        .iter()
        .map(|(n, (e, d, l))| (n.clone(), json!({"evaluations": e, "discarded": d, "classes": l})))
        .collect::<serde_json::Map<_, _>>()
        .into();

    let mut code = 0;
    let mut vcount = 0;
    if let Some(v) = &violation {
        let rdir = verif_dir().join("evidence").join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let text = serde_json::to_string_pretty(v).unwrap();
        let path = rdir.join(format!("{}-{:08x}.json", p.id, fnv(text.as_bytes()) as u32));
        std::fs::write(&path, &text).unwrap();
        let mut confirmed = v.get("crash").is_some() || v.get("choices").is_none();
        if !confirmed {
            for key in ["", "original", "", "original"] {
                let errf = dir.join("err-replay");
                let mut a = vec!["--replay".to_string(), path.display().to_string()];
                if !key.is_empty() {
                    a.push(key.into());
                }
                let mut c = spawn(&exe, &a, &dir.join("cwd-replay"), &errf);
                if let Some(st) = wait_for(&mut c, Duration::from_secs(240)) {
                    if st.code() == Some(EXIT_FOUND) {
                        confirmed = true;
                        break;
                    }
                }
            }
        }
        println!("{}: sub-check {} failed", p.id, v["sub"].as_str().unwrap_or(""));
        println!("  message: {}", clip(v["message"].as_str().unwrap_or(""), 1500));
        println!("  input: {}", clip(v["input"].as_str().unwrap_or(""), 2000));
        if !confirmed {
            eprintln!("ERROR {}: the failure did not reproduce in a fresh process; record kept at {}; no verdict", p.id, path.display());
            return 2;
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        vcount = 1;
        code = 1;
        if samples.is_empty() {
            samples.push(clip(v["input"].as_str().unwrap_or(""), 600));
        }
    }
    let ev = json!({
        "property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": keys.len(), "rule": p.rule, "samples": samples,
            "discarded": discards, "sub_checks": subs, "time_capped": capped, "workers": w,
        },
        "assumptions": p.assumptions, "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0, "violations": vcount,
    });
    let edir = verif_dir().join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    let mut f = std::fs::File::create(edir.join(format!("{}.json", p.id))).unwrap();
    f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
    if code == 0 {
        println!(
            "OK {}: {} cases, {} distinct non-trivial, {} discarded, {:.1}s{}",
            p.id, evals, keys.len(), discards, t0.elapsed().as_secs_f64(), if capped { " (time cap reached)" } else { "" }
        );
        if std::env::var("VERIF_VERBOSE").is_ok() {
            println!("{}", serde_json::to_string_pretty(&subs).unwrap());
        }
    }
    code
}

fn wait_for(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return Some(st);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
