//! The engine: runs workloads over the crate on several threads, catches panics, records what was observed, and
//! supervises itself from a second process so that an abort, a fatal signal or an endless call becomes a verdict.

use crate::rng::{hash, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// --- target calls ------------------------------------------------------------------------------------------------

thread_local! {
    static IN: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Marks a call into the crate: a panic or endless loop inside is the crate's, anything else is the harness's.
pub fn tgt<R>(f: impl FnOnce() -> R) -> R {
    let outer = IN.with(|x| x.replace(true));
    let s = SLOT.with(|x| x.get());
    if s != usize::MAX && !outer {
        let s = slot(s);
        s.seq.fetch_add(1, Relaxed);
        s.inside.store(1, Relaxed);
        let r = f();
        s.inside.store(0, Relaxed);
        IN.with(|x| x.set(outer));
        return r;
    }
    let r = f();
    IN.with(|x| x.set(outer));
    r
}

/// Runs `f`, which calls the crate, and hands back the panic message if it panics.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let r = catch_unwind(AssertUnwindSafe(|| tgt(f)));
    r.map_err(|_| {
        reset_target();
        PANIC.with(|p| p.borrow().clone())
    })
}

fn reset_target() {
    IN.with(|x| x.set(false));
    let s = SLOT.with(|x| x.get());
    if s != usize::MAX {
        slot(s).inside.store(0, Relaxed);
    }
}

// --- shared slots ------------------------------------------------------------------------------------------------

#[repr(C)]
pub struct Slot {
    wl: AtomicU64,
    idx: AtomicU64,
    seq: AtomicU64,
    inside: AtomicU64,
}

const SLOTS: usize = 64;
static SLOT_BASE: AtomicUsize = AtomicUsize::new(0);

fn slot(i: usize) -> &'static Slot {
    let base = SLOT_BASE.load(Relaxed) as *const Slot;
    unsafe { &*base.add(i) }
}

#[cfg(not(miri))]
fn map_slots(path: &str) {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
    }
    let n = SLOTS * std::mem::size_of::<Slot>();
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(n as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap failed");
    SLOT_BASE.store(p as usize, SeqCst);
}

#[cfg(miri)]
fn map_slots(_: &str) {
    let v: Vec<Slot> = (0..SLOTS)
        .map(|_| Slot { wl: 0.into(), idx: 0.into(), seq: 0.into(), inside: 0.into() })
        .collect();
    let p: &'static mut [Slot] = v.leak();
    SLOT_BASE.store(p.as_ptr().expose_provenance(), SeqCst);
}

static OUT_FD: AtomicI32 = AtomicI32::new(2);
pub fn out_fd() -> i32 {
    OUT_FD.load(Relaxed)
}

// --- cases -------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Cases per grab of a thread
    pub chunk: u64,
    /// 0 for all
    pub threads: usize,
    /// Not for an interpreter
    pub native: bool,
    pub f: fn(&mut Cx),
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub workloads: Vec<Workload>,
    /// Events of which at least so many must have been observed in a full run, or the run decided nothing
    pub require: Vec<(&'static str, u64)>,
    pub assumptions: Vec<&'static str>,
    /// What was enumerated completely, if anything
    pub exhaustive: &'static str,
}

pub fn wl(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Cx)) -> Workload {
    Workload { name, quick, thorough, chunk: 64, threads: 0, native: false, f }
}

/// Few heavy cases.
pub fn heavy(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Cx)) -> Workload {
    Workload { name, quick, thorough, chunk: 1, threads: 4, native: false, f }
}

#[derive(Default)]
struct Id(u64);
impl Hasher for Id {
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
type Set = HashSet<u64, BuildHasherDefault<Id>>;

#[derive(Default)]
pub struct Stats {
    events: Vec<(&'static str, u64)>,
    seen: Set,
    samples: Vec<String>,
    known: BTreeMap<String, (u64, String)>,
    /// Workload, case and digest of what was recorded
    log: Vec<(usize, u64, u64)>,
    pub evals: u64,
}

const SEEN_CAP: usize = 4_000_000;

pub struct Cx {
    pub prop: &'static str,
    pub wl: &'static str,
    pub idx: u64,
    pub n: u64,
    pub seed: u64,
    pub tier: Tier,
    pub rng: Rng,
    pub st: Stats,
    pub fails: Vec<String>,
    samples_left: u32,
    record: u64,
    show: bool,
}

impl Cx {
    /// An outcome for the log of this part, which is compared with those of the others.
    pub fn record(&mut self, digest: u64, what: impl Fn() -> String) {
        self.record = (self.record ^ digest).wrapping_mul(0x100000001b3) | 1;
        if self.show {
            println!("{}", what());
        }
    }

    pub fn evn(&mut self, name: &'static str, n: u64) {
        for e in self.st.events.iter_mut() {
            if e.0.as_ptr() == name.as_ptr() && e.0.len() == name.len() {
                e.1 += n;
                return;
            }
        }
        self.st.events.push((name, n));
    }
    pub fn ev(&mut self, name: &'static str) {
        self.evn(name, 1)
    }
    /// A non-trivial case; counted if distinct.
    pub fn seen(&mut self, h: u64) {
        if self.st.seen.len() < SEEN_CAP {
            self.st.seen.insert(h);
        }
    }
    pub fn seen_bytes(&mut self, b: &[u8]) {
        self.seen(hash(b))
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx % 7 == 3 && self.samples_left > 0 {
            self.samples_left -= 1;
            let mut s = f();
            if s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.st.samples.push(format!("{}[{}]: {}", self.wl, self.idx, s));
        }
    }
    pub fn fail(&mut self, msg: String) {
        if self.fails.len() < 4 {
            self.fails.push(msg);
        }
    }
    /// A failure that known_findings.txt may list.
    pub fn known(&mut self, sig: &str, msg: String) {
        if KNOWN.lock().unwrap().iter().any(|k| k.0 == self.prop && k.1 == sig) {
            let e = self.st.known.entry(sig.to_string()).or_insert((0, msg));
            e.0 += 1;
        } else {
            self.fail(msg)
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

static KNOWN: Mutex<Vec<(String, String, String)>> = Mutex::new(Vec::new());

/// Lines "known: property=<id> signature=<sig> <text>".
fn load_known(path: &str) {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("").to_string();
            let s = it.next().unwrap_or("").trim_start_matches("signature=").to_string();
            v.push((p, s, it.next().unwrap_or("").to_string()));
        }
    }
    *KNOWN.lock().unwrap() = v;
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 200 {
            let _ = write!(s, "..({} bytes)", b.len());
            break;
        }
        let _ = write!(s, "{:02x}", x);
    }
    if b.is_empty() {
        s.push_str("(empty)");
    }
    s
}

/// Debug output of anything, cut.
pub fn cut<T: std::fmt::Debug>(t: &T) -> String {
    // stops as soon as it is long enough: the value may be huge
    struct Short(String);
    impl std::fmt::Write for Short {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for c in s.chars() {
                if self.0.len() > 700 {
                    return Err(std::fmt::Error);
                }
                self.0.push(c)
            }
            Ok(())
        }
    }
    let mut s = Short(String::new());
    if write!(s, "{:?}", t).is_err() {
        s.0.push_str("...");
    }
    s.0
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}

/// Runs one case; an unwinding out of the crate is a failure of the property, whatever it is about.
fn one(cx: &mut Cx, w: &Workload) -> Result<(), String> {
    let r = catch_unwind(AssertUnwindSafe(|| (w.f)(cx)));
    if r.is_err() {
        let msg = PANIC.with(|p| p.borrow().clone());
        let inside = IN.with(|x| x.get());
        reset_target();
        if inside {
            cx.fail(format!("the crate panicked: {}", msg));
        } else {
            return Err(format!("harness panic in {} [{}]: {}", w.name, cx.idx, msg));
        }
    }
    Ok(())
}

fn case_rng(seed: u64, prop: &str, wl: &str, idx: u64) -> Rng {
    Rng::new(hash(format!("{} {} {} {}", seed, prop, wl, idx).as_bytes()))
}

fn new_cx(check: &Check, w: &Workload, seed: u64, tier: Tier) -> Cx {
    Cx {
        prop: check.id,
        wl: w.name,
        idx: 0,
        n: if tier == Tier::Quick { w.quick } else { w.thorough },
        seed,
        tier,
        rng: Rng::new(0),
        st: Stats::default(),
        fails: vec![],
        samples_left: 2,
        record: 0,
        show: false,
    }
}

// --- thread CPU clocks -------------------------------------------------------------------------------------------

#[cfg(not(miri))]
pub mod clock {
    #[repr(C)]
    struct Ts {
        s: isize,
        n: isize,
    }
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    pub fn id() -> i32 {
        let mut c = -1;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
        c
    }
    pub fn read(c: i32) -> f64 {
        let mut t = Ts { s: 0, n: 0 };
        if unsafe { clock_gettime(c, &mut t) } != 0 {
            return 0.0;
        }
        t.s as f64 + t.n as f64 * 1e-9
    }
}

/// One call into the crate may use this much CPU time. The slowest legitimate call takes well under a second.
pub const CALL_LIMIT: f64 = 40.0;

// --- worker ------------------------------------------------------------------------------------------------------

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub struct Args {
    pub seed: u64,
    pub tier: Tier,
    pub root: String,
    pub threads: usize,
    pub budget: f64,
    /// First case of each workload
    pub from: u64,
}

impl Args {
    pub fn from_env() -> Args {
        let e = |k: &str| std::env::var(k).ok();
        let tier = if e("VERIF_TIER").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
        Args {
            seed: e("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
            tier,
            root: e("MQTTMON_ROOT").unwrap_or_else(|| "/verif".to_string()),
            from: e("MQTTMON_FROM").and_then(|s| s.parse().ok()).unwrap_or(0),
            threads: e("MQTTMON_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8),
            budget: e("MQTTMON_BUDGET_S")
                .and_then(|s| s.parse().ok())
                .unwrap_or(if tier == Tier::Quick { 240.0 } else { 1500.0 }),
        }
    }
}

/// Runs all workloads of a check in this process and writes what happened to `out`.
pub fn worker(check: &Check, a: &Args, slots: &str, out: &str) -> i32 {
    install_hook();
    load_known(&format!("{}/known_findings.txt", a.root));
    map_slots(slots);
    let file = std::fs::OpenOptions::new().create(true).append(true).open(out).unwrap();
    #[cfg(not(miri))]
    {
        use std::os::fd::AsRawFd;
        OUT_FD.store(file.as_raw_fd(), SeqCst);
    }
    let file = Mutex::new(file);
    let say = |s: String| {
        let mut f = file.lock().unwrap();
        let _ = f.write_all((s + "\n").as_bytes());
        let _ = f.flush();
    };
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let violations = AtomicUsize::new(0);
    let harness_error = AtomicBool::new(false);
    let start = Instant::now();
    let clocks: Vec<AtomicI32> = (0..SLOTS).map(|_| AtomicI32::new(0)).collect();

    let mut total = Stats::default();
    let mut events: BTreeMap<String, u64> = BTreeMap::new();
    let merged: Mutex<&mut Stats> = Mutex::new(&mut total);

    std::thread::scope(|sc| {
        #[cfg(not(miri))]
        sc.spawn(|| {
            // Watches for a call that does not end
            let mut last = vec![(0u64, 0.0f64); SLOTS];
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for i in 0..SLOTS {
                    let c = clocks[i].load(Relaxed);
                    let s = slot(i);
                    if c == 0 || s.inside.load(Relaxed) == 0 {
                        continue;
                    }
                    let seq = s.seq.load(Relaxed);
                    let t = clock::read(c);
                    if last[i].0 != seq {
                        last[i] = (seq, t);
                    } else if t - last[i].1 > CALL_LIMIT {
                        let w = check.workloads[s.wl.load(Relaxed) as usize].name;
                        say(format!(
                            "V\t{}\t{}\tone call into the crate used more than {} s of CPU time without returning",
                            w,
                            s.idx.load(Relaxed),
                            CALL_LIMIT
                        ));
                        std::process::exit(98);
                    }
                }
            }
        });
        #[cfg(miri)]
        let _ = (&done, &clocks);

        for (wi, w) in check.workloads.iter().enumerate() {
            let n = match a.tier {
                _ if w.native && cfg!(miri) => 0,
                Tier::Quick => w.quick,
                Tier::Thorough => w.thorough,
            };
            let next = AtomicU64::new(a.from.min(n));
            let chunk = if cfg!(miri) { 1 } else { w.chunk };
            let ran = AtomicU64::new(0);
            let nt = if w.threads == 0 { a.threads } else { w.threads.min(a.threads) };
            // Workloads share the budget; each may use what is left divided by those to come
            let left = (a.budget - start.elapsed().as_secs_f64()).max(1.0);
            let to_come = check.workloads[wi..].iter().filter(|w| !w.native || !cfg!(miri)).count().max(1);
            let cap = Instant::now() + Duration::from_secs_f64(left / to_come as f64);
            std::thread::scope(|sc2| {
                for ti in 0..nt {
                    let (next, ran, stop, say, clocks, violations, harness_error, merged) =
                        (&next, &ran, &stop, &say, &clocks, &violations, &harness_error, &merged);
                    sc2.spawn(move || {
                        SLOT.with(|x| x.set(ti));
                        #[cfg(not(miri))]
                        clocks[ti].store(clock::id(), Relaxed);
                        let _ = clocks;
                        let s = slot(ti);
                        let mut cx = new_cx(check, w, a.seed, a.tier);
                        cx.samples_left = if ti == 0 { 2 } else { 0 };
                        'all: loop {
                            let from = next.fetch_add(chunk, Relaxed);
                            if from >= n {
                                break;
                            }
                            for idx in from..(from + chunk).min(n) {
                                if stop.load(Relaxed) {
                                    break 'all;
                                }
                                s.wl.store(wi as u64, Relaxed);
                                s.idx.store(idx, Relaxed);
                                cx.idx = idx;
                                cx.rng = case_rng(a.seed, check.id, w.name, idx);
                                if cfg!(miri) {
                                    say(format!("P\t{}\t{}", w.name, idx));
                                }
                                let r = one(&mut cx, w);
                                cx.st.evals += 1;
                                if cx.record != 0 {
                                    cx.st.log.push((wi, idx, cx.record));
                                    cx.record = 0;
                                }
                                if let Err(e) = r {
                                    say(format!("H\t{}", esc(&e)));
                                    harness_error.store(true, Relaxed);
                                    stop.store(true, Relaxed);
                                }
                                for f in cx.fails.drain(..) {
                                    if violations.fetch_add(1, Relaxed) < 6 {
                                        say(format!("V\t{}\t{}\t{}", w.name, idx, esc(&f)));
                                    }
                                    stop.store(true, Relaxed);
                                }
                            }
                            if Instant::now() > cap {
                                break;
                            }
                        }
                        ran.fetch_add(cx.st.evals, Relaxed);
                        #[cfg(not(miri))]
                        clocks[ti].store(0, Relaxed);
                        SLOT.with(|x| x.set(usize::MAX));
                        let mut m = merged.lock().unwrap();
                        m.evals += cx.st.evals;
                        for (k, v) in cx.st.events.drain(..) {
                            match m.events.iter_mut().find(|e| e.0 == k) {
                                Some(e) => e.1 += v,
                                None => m.events.push((k, v)),
                            }
                        }
                        m.seen.extend(cx.st.seen.drain());
                        m.samples.append(&mut cx.st.samples);
                        m.log.append(&mut cx.st.log);
                        for (k, (c, msg)) in std::mem::take(&mut cx.st.known) {
                            let e = m.known.entry(k).or_insert((0, msg));
                            e.0 += c;
                        }
                    });
                }
            });
            let r = ran.load(Relaxed);
            say(format!("W\t{}\t{}\t{}", w.name, r, n));
            if stop.load(Relaxed) {
                break;
            }
        }
        done.store(true, Relaxed);
    });
    let _ = merged;
    for (k, v) in &total.events {
        *events.entry(k.to_string()).or_insert(0) += v;
    }
    for (k, v) in &events {
        say(format!("C\t{}\t{}", k, v));
    }
    for s in &total.samples {
        say(format!("S\t{}", esc(s)));
    }
    for (k, (n, m)) in &total.known {
        say(format!("K\t{}\t{}\t{}", k, n, esc(m)));
    }
    if !total.log.is_empty() {
        let mut t = String::new();
        for (w, i, d) in &total.log {
            let _ = writeln!(t, "{} {} {}", w, i, d);
        }
        let _ = std::fs::write(format!("{}.log", out), t);
    }
    say(format!("E\t{}", total.evals));
    say(format!("D\t{}", total.seen.len()));
    if violations.load(Relaxed) == 0 && !harness_error.load(Relaxed) {
        for (k, min) in &check.require {
            let got = events.get(*k).copied().unwrap_or(0);
            // The interpreter is so slow that a part need not get to everything
            let min = match cfg!(miri) {
                true => 0,
                false if std::env::var("MQTTMON_PART").is_ok() => 1,
                false => *min,
            };
            if got < min {
                say(format!("H\tonly {} of the event {:?} observed, {} expected", got, k, min));
            }
        }
    }
    say("END".to_string());
    if violations.load(Relaxed) > 0 {
        1
    } else {
        0
    }
}

/// Runs one case in this process; prints its failures.
pub fn run_case(check: &Check, a: &Args, wname: &str, idx: u64) -> i32 {
    install_hook();
    load_known(&format!("{}/known_findings.txt", a.root));
    let w = match check.workloads.iter().find(|w| w.name == wname) {
        Some(w) => w,
        None => {
            eprintln!("no workload {}", wname);
            return 3;
        }
    };
    let mut cx = new_cx(check, w, a.seed, a.tier);
    cx.idx = idx;
    cx.rng = case_rng(a.seed, check.id, w.name, idx);
    cx.show = true;
    match one(&mut cx, w) {
        Err(e) => {
            println!("{}", e);
            3
        }
        Ok(()) if cx.fails.is_empty() => {
            println!("case {} {}[{}] passes", check.id, wname, idx);
            0
        }
        Ok(()) => {
            for f in &cx.fails {
                println!("case {} {}[{}]: {}", check.id, wname, idx, f);
            }
            1
        }
    }
}

// --- supervisor --------------------------------------------------------------------------------------------------

pub struct Part {
    pub label: String,
    /// Program and arguments; "worker ID" and file arguments are appended
    pub cmd: Vec<String>,
    /// Seed offset, so that parts look at different cases
    pub salt: u64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn supervise(check: &Check, a: &Args, parts: &[Part]) -> i32 {
    use std::process::{Command, Stdio};
    let start = Instant::now();
    load_known(&format!("{}/known_findings.txt", a.root));
    let work = format!("{}/build/work/{}-{}", a.root, check.id, std::process::id());
    let _ = std::fs::create_dir_all(&work);
    let _ = std::fs::create_dir_all(format!("{}/replays", a.root));
    let _ = std::fs::create_dir_all(format!("{}/evidence", a.root));

    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut events: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut viol: Vec<(String, String, u64, u64, String)> = vec![]; // part, workload, idx, seed, message
    let mut trouble: Vec<String> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut full = true;

    // All parts run at once
    let files = |pi: usize| (format!("{}/slots{}", work, pi), format!("{}/out{}", work, pi), format!("{}/cap{}", work, pi));
    let mut running = vec![];
    for (pi, part) in parts.iter().enumerate() {
        let (slots, out, cap) = files(pi);
        let seed = a.seed.wrapping_add(part.salt * 1_000_003);
        let capf = std::fs::File::create(&cap).unwrap();
        let mut c = Command::new(&part.cmd[0]);
        c.args(&part.cmd[1..])
            .args(["worker", check.id, &slots, &out])
            .env("VERIF_SEED", seed.to_string())
            .env("MQTTMON_CAPTURE", &cap)
            .stdin(Stdio::null())
            .stdout(capf.try_clone().unwrap())
            .stderr(capf);
        if pi > 0 {
            c.env("MQTTMON_PART", &part.label);
        }
        match c.spawn() {
            Ok(c) => running.push((pi, part, seed, c)),
            Err(e) => trouble.push(format!("{}: cannot start: {}", part.label, e)),
        }
    }
    // A worker keeps to its budget itself; this is only for the case that it does not
    let deadline = Instant::now() + Duration::from_secs_f64(a.budget * 2.0 + 200.0);
    for (pi, part, seed, mut child) in running {
        let (slots, out, cap) = files(pi);
        let status = loop {
            match child.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) if Instant::now() > deadline => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(5)),
                Err(_) => break None,
            }
        };
        let mut at: Option<(String, u64)> = None;
        let mut ended = false;
        let mut part_evals = false;
        let mut part_viol = 0;
        for l in std::fs::read_to_string(&out).unwrap_or_default().lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "V" if f.len() > 3 => {
                    part_viol += 1;
                    viol.push((part.label.clone(), f[1].into(), f[2].parse().unwrap_or(0), seed, unesc(f[3])));
                }
                "C" if f.len() > 2 => *events.entry(f[1].into()).or_insert(0) += f[2].parse().unwrap_or(0),
                "S" if f.len() > 1 => samples.push(unesc(f[1])),
                "K" if f.len() > 3 => {
                    let e = known.entry(f[1].into()).or_insert((0, unesc(f[3])));
                    e.0 += f[2].parse::<u64>().unwrap_or(0);
                }
                "E" if f.len() > 1 => {
                    let n = f[1].parse::<u64>().unwrap_or(0);
                    part_evals = n > 0;
                    evals += n;
                }
                "D" if f.len() > 1 && pi == 0 => distinct = f[1].parse().unwrap_or(0),
                "W" if f.len() > 3 => {
                    if f[2] != f[3] {
                        full = false;
                    }
                    notes.push(format!("{}{}: {} of {} cases", if pi > 0 { part.label.clone() + " " } else { String::new() }, f[1], f[2], f[3]))
                }
                "H" if f.len() > 1 => trouble.push(format!("{}: {}", part.label, unesc(f[1]))),
                "P" if f.len() > 2 => at = Some((f[1].into(), f[2].parse().unwrap_or(0))),
                "END" => ended = true,
                _ => {}
            }
        }
        let said = std::fs::read(&cap).unwrap_or_default();
        let said_s = String::from_utf8_lossy(&said).to_string();
        let sanitizer = ["ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "error: Undefined Behavior", "WARNING: ThreadSanitizer", "WARNING: MemorySanitizer", "error: memory leaked", "ERROR SUMMARY"]
            .iter()
            .any(|m| said_s.contains(m) && (*m != "ERROR SUMMARY" || !said_s.contains("ERROR SUMMARY: 0 errors")));
        if ended && !part_evals {
            trouble.push(format!("{}: no case was run", part.label));
        }
        let ok_exit = status.map(|s| s.success()).unwrap_or(false);
        if (!ended || !ok_exit || sanitizer) && part_viol == 0 {
            use std::os::unix::process::ExitStatusExt;
            let sig = status.and_then(|s| s.signal());
            let code = status.and_then(|s| s.code());
            let what = match (status, sig, code) {
                _ if sanitizer => "a sanitizer report".to_string(),
                (None, ..) => "no end within its time".to_string(),
                (_, Some(s), _) => format!("signal {}", s),
                (_, _, Some(97)) => "the allocation cap".to_string(),
                (_, _, c) => format!("exit code {:?}", c),
            };
            let crash = sanitizer || matches!(sig, Some(4 | 5 | 6 | 7 | 8 | 11 | 31)) || code == Some(97);
            let mut tail = said_s.clone();
            if tail.len() > 3000 {
                let mut k = 3000;
                while !tail.is_char_boundary(k) {
                    k -= 1;
                }
                tail.truncate(k);
            }
            if crash {
                // Which case was it? Try those that were running, each in a process of its own.
                let mut found = None;
                let raw = std::fs::read(&slots).unwrap_or_default();
                if part.label.starts_with("miri") {
                    found = at;
                } else {
                    for ch in raw.chunks_exact(32) {
                        let q = |i: usize| u64::from_le_bytes(ch[i * 8..i * 8 + 8].try_into().unwrap());
                        let (w, idx) = (q(0) as usize, q(1));
                        if w >= check.workloads.len() || q(2) == 0 {
                            continue;
                        }
                        let name = check.workloads[w].name;
                        let r = Command::new(&part.cmd[0])
                            .args(&part.cmd[1..])
                            .args(["case", check.id, name, &idx.to_string()])
                            .env("VERIF_SEED", seed.to_string())
                            .stdin(Stdio::null())
                            .stdout(Stdio::null())
                            .stderr(Stdio::null())
                            .status();
                        if !r.map(|s| s.success()).unwrap_or(true) {
                            found = Some((name.to_string(), idx));
                            break;
                        }
                    }
                }
                let (w, i) = found.unwrap_or(("unknown".into(), 0));
                viol.push((part.label.clone(), w, i, seed, format!("the process ended with {}\n{}", what, tail)));
            } else {
                trouble.push(format!("{}: worker ended with {}: {}", part.label, what, tail));
            }
        } else if ended && !said.is_empty() && part_viol == 0 && matches!(part.label.as_str(), "main" | "plain") {
            if check.id == "C25" {
                viol.push((part.label.clone(), "unknown".into(), 0, seed, format!("output on fd 1 or 2: {}", cut(&said_s))));
            } else {
                notes.push(format!("the crate printed {} bytes", said.len()));
            }
        }
    }

    // What the parts recorded for the same case must be the same
    let log = |pi: usize| -> BTreeMap<(usize, u64), u64> {
        let t = std::fs::read_to_string(files(pi).1 + ".log").unwrap_or_default();
        t.lines()
            .filter_map(|l| {
                let mut n = l.split(' ').map(|x| x.parse::<u64>().unwrap_or(0));
                Some(((n.next()? as usize, n.next()?), n.next()?))
            })
            .collect()
    };
    let first = log(0);
    if !first.is_empty() {
        for (pi, part) in parts.iter().enumerate().skip(1) {
            let (mut same, mut bad) = (0, None);
            for (k, d) in log(pi) {
                match first.get(&k) {
                    Some(x) if *x != d => bad = bad.or(Some(k)),
                    Some(_) => same += 1,
                    None => {}
                }
            }
            *events.entry(format!("outcomes compared with part {}", part.label)).or_insert(0) += same;
            if let Some((w, i)) = bad {
                let name = check.workloads[w].name;
                let shown = |p: &Part| {
                    let o = Command::new(&p.cmd[0])
                        .args(&p.cmd[1..])
                        .args(["case", check.id, name, &i.to_string()])
                        .env("VERIF_SEED", a.seed.to_string())
                        .env("MQTTMON_PART", &p.label)
                        .stdin(Stdio::null())
                        .output();
                    o.map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default()
                };
                let (x, y) = (shown(&parts[0]), shown(part));
                let l = x.lines().zip(y.lines()).find(|l| l.0 != l.1).unwrap_or(("", ""));
                viol.push((part.label.clone(), name.into(), i, a.seed, format!("another outcome than in the main build: {}\nmain build: {}", l.1, l.0)));
            } else if same == 0 && viol.is_empty() && trouble.is_empty() {
                trouble.push(format!("{}: nothing to compare", part.label));
            }
        }
    }

    let wall = start.elapsed().as_secs_f64();
    let tier = if a.tier == Tier::Quick { "quick" } else { "thorough" };
    // Evidence
    let mut e = String::new();
    let _ = write!(
        e,
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        js(check.id), tier, a.seed, evals, distinct, js(check.rule)
    );
    if !check.exhaustive.is_empty() {
        let _ = write!(e, "  \"enumerated_completely\": {},\n", js(if full { check.exhaustive } else { "nothing: the run was cut short" }));
    }
    let _ = write!(e, "  \"events\": {{");
    for (i, (k, v)) in events.iter().enumerate() {
        let _ = write!(e, "{}{}: {}", if i > 0 { ", " } else { "" }, js(k), v);
    }
    let _ = write!(e, "}},\n  \"workloads\": [");
    for (i, n) in notes.iter().enumerate() {
        let _ = write!(e, "{}{}", if i > 0 { ", " } else { "" }, js(n));
    }
    let _ = write!(e, "],\n  \"samples\": [");
    if samples.is_empty() {
        samples.push("(none taken)".into());
    }
    for (i, n) in samples.iter().take(14).enumerate() {
        let _ = write!(e, "{}\n   {}", if i > 0 { "," } else { "" }, js(n));
    }
    let _ = write!(e, "\n  ]\n }},\n \"assumptions\": [");
    for (i, n) in check.assumptions.iter().enumerate() {
        let _ = write!(e, "{}{}", if i > 0 { ", " } else { "" }, js(n));
    }
    let _ = write!(e, "],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, viol.len());
    let _ = std::fs::write(format!("{}/evidence/{}.json", a.root, check.id), e);
    let _ = std::fs::remove_dir_all(&work);

    for (sig, (n, m)) in &known {
        let text = KNOWN.lock().unwrap().iter().find(|k| k.0 == check.id && k.1 == *sig).map(|k| k.2.clone());
        println!("KNOWN-FINDING: property={} {} ({} cases, e.g. {})", check.id, text.unwrap_or_default(), n, m);
    }
    for (part, w, idx, seed, msg) in viol.iter().take(5) {
        let path = format!("{}/replays/{}-{}-{}-{}.txt", a.root, check.id, part, w.replace(' ', "-"), idx);
        let body = format!(
            "property: {}\npart: {}\nworkload: {}\nindex: {}\nseed: {}\ntier: {}\n\n{}\n",
            check.id, part, w, idx, seed, tier, msg
        );
        let _ = std::fs::write(&path, body);
        println!("VIOLATION property={} replay={}", check.id, path);
        for l in msg.lines().take(12) {
            println!("  {}", l);
        }
    }
    println!(
        "{} {}: {} cases, {} distinct, {:.1} s, {} violations",
        check.id, tier, evals, distinct, wall, viol.len()
    );
    if !viol.is_empty() {
        return 1;
    }
    if !trouble.is_empty() {
        for t in &trouble {
            println!("INCONCLUSIVE {}: {}", check.id, t);
        }
        return 3;
    }
    0
}

/// Where the texts of two values part.
pub fn parting<T: std::fmt::Debug>(a: &T, b: &T) -> String {
    let (a, b) = (format!("{:?}", a), format!("{:?}", b));
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    if n < 500 {
        return String::new();
    }
    let at = |s: &str| String::from_utf8_lossy(&s.as_bytes()[(n - 40).min(s.len())..(n + 80).min(s.len())]).into_owned();
    format!(" (they part at ..{}.. and ..{}..)", at(&a), at(&b))
}
