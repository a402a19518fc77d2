//! Exploration engine: families of enumerated units, run in parallel in a child process, with a
//! memory-mapped journal so that a crash or hang of the code under test is attributed to a unit,
//! reproduced in isolation, and only then reported.

use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::process::Command;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

use crate::alloc;

pub struct Family {
    pub name: &'static str,
    /// What is enumerated, with bounds (goes to the evidence file).
    pub what: String,
    pub count: u64,
    pub run: Box<dyn Fn(&mut Cx, u64) + Sync + Send>,
}

pub fn family(
    name: &'static str,
    what: impl Into<String>,
    count: u64,
    run: impl Fn(&mut Cx, u64) + Sync + Send + 'static,
) -> Family {
    Family { name, what: what.into(), count, run: Box::new(run) }
}

pub struct Check {
    pub id: &'static str,
    pub families: Vec<Family>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// The reduced bound used when the code runs under a slow monitor (Miri, address sanitizer).
pub fn small() -> bool {
    cfg!(miri) || std::env::var("MC_SMALL").is_ok()
}

const STATE_CAP: usize = 3_000_000;

/// Exploration context of one worker thread.
pub struct Cx {
    pub tier: Tier,
    verbose: bool,
    desc: String,
    journal: Journal,
    slot: usize,
    pub cases: u64,
    pub transitions: u64,
    pub nontrivial: u64,
    states: HashSet<u64, std::hash::BuildHasherDefault<IdHasher>>,
    outcomes: HashSet<u64, std::hash::BuildHasherDefault<IdHasher>>,
    capped: bool,
    truncated: bool,
    deadline: Instant,
    known: Vec<String>,
    want_samples: usize,
    samples: Vec<String>,
}

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // fixed keys: the same on every run
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Payload of a panic raised by the checks themselves.
pub struct Violation(pub String);

impl Cx {
    /// Starts one execution of the implementation. `desc` is only evaluated when needed.
    #[inline]
    pub fn case(&mut self, desc: impl FnOnce() -> String) {
        self.cases += 1;
        self.journal.beat(self.slot);
        if self.verbose {
            self.desc = alloc::untracked(desc);
            let d = std::mem::take(&mut self.desc);
            self.journal.describe(&d);
            if cfg!(miri) {
                eprintln!("CASE {d}");
            }
            self.desc = d;
        } else if self.samples.len() < self.want_samples && self.cases.is_power_of_two() {
            let d = alloc::untracked(desc);
            alloc::untracked(|| self.samples.push(d));
        }
    }
    /// A heartbeat for executions that run where `self` is not at hand.
    pub fn beater(&self) -> impl Fn() + Send + Sync + 'static + use<> {
        let (journal, slot) = (self.journal, self.slot);
        move || journal.beat(slot)
    }
    /// An execution of which `case` was not told.
    pub fn more_cases(&mut self, n: u64) {
        self.cases += n;
    }
    /// Time left for this pass (a unit that takes long looks at it).
    pub fn time_left(&self) -> Duration {
        self.deadline.saturating_duration_since(Instant::now())
    }
    /// Not everything was explored.
    pub fn truncated(&mut self) {
        self.truncated = true;
    }
    pub fn is_verbose(&self) -> bool {
        self.verbose
    }
    /// A step of the reference model whose counterpart was executed and compared.
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    #[inline]
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn state(&mut self, h: &impl Hash) {
        let h = hash_of(h);
        alloc::untracked(|| {
            if self.states.len() < STATE_CAP {
                self.states.insert(h);
            } else {
                self.capped = true;
            }
        })
    }
    pub fn outcome(&mut self, h: &impl Hash) {
        let h = hash_of(h);
        alloc::untracked(|| {
            if self.outcomes.len() < STATE_CAP {
                self.outcomes.insert(h);
            }
        })
    }
    pub fn fail(&self, msg: impl Into<String>) -> ! {
        panic::panic_any(Violation(msg.into()))
    }
    /// A failure of a kind that may be listed as a known finding.
    pub fn finding(&mut self, key: &str, msg: impl FnOnce() -> String) {
        if self.known.iter().any(|k| k == key) {
            return;
        }
        let listed = KNOWN.get().map(|k| k.iter().any(|x| x == key)).unwrap_or(false);
        if !listed {
            let m = msg();
            self.fail(m)
        }
        let key = key.to_string();
        alloc::untracked(|| self.known.push(key.clone()));
    }
}

#[macro_export]
macro_rules! check {
    ($cx:expr, $cond:expr, $($arg:tt)*) => {
        if !$cond { $cx.fail(format!($($arg)*)) }
    };
}

#[macro_export]
macro_rules! check_eq {
    ($cx:expr, $l:expr, $r:expr, $($arg:tt)*) => {
        match (&$l, &$r) {
            (l, r) => if !(*l == *r) {
                $cx.fail(format!("{}: got {:?}, expected {:?}", format!($($arg)*), l, r))
            }
        }
    };
}

static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        if QUIET.with(|q| q.get()) {
            return;
        }
        alloc::untracked(|| {
            let msg = payload(info.payload());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line()));
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc.unwrap_or_default()));
        })
    }));
}

fn payload(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(v) = p.downcast_ref::<Violation>() {
        return v.0.clone();
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        return s.to_string();
    }
    if let Some(s) = p.downcast_ref::<String>() {
        return s.clone();
    }
    "panic".to_string()
}

/// Runs `f`; `None` if it panicked. Violations raised inside pass through.
pub fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
    let was = QUIET.with(|q| q.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    match r {
        Ok(r) => Some(r),
        Err(p) => {
            if p.is::<Violation>() {
                panic::resume_unwind(p)
            }
            None
        }
    }
}

// ---------------------------------------------------------------------------------------------
// journal

const SLOTS: usize = 16;
const RING: usize = 512;
const SLOT_WORDS: usize = 4 + 2 * RING;
const TEXT: usize = 1 << 16;

#[derive(Clone, Copy)]
struct Journal {
    base: *mut u64,
}
unsafe impl Send for Journal {}
unsafe impl Sync for Journal {}

impl Journal {
    const BYTES: usize = SLOTS * SLOT_WORDS * 8 + TEXT;
    fn open(path: Option<&str>) -> Journal {
        if cfg!(miri) || path.is_none() {
            let v = vec![0u64; Self::BYTES / 8 + 1].leak();
            return Journal { base: v.as_mut_ptr() };
        }
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path.unwrap())
            .expect("journal");
        f.set_len(Self::BYTES as u64).expect("journal");
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                Self::BYTES,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap");
        Journal { base: p.cast() }
    }
    fn word(&self, slot: usize, w: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(slot * SLOT_WORDS + w) as *const AtomicU64) }
    }
    // words: 0 = heartbeat, 1 = ring position (number of units started), 2 = busy
    fn beat(&self, slot: usize) {
        let w = self.word(slot, 0);
        w.store(w.load(Relaxed).wrapping_add(1), Relaxed);
    }
    fn start(&self, slot: usize, fam: usize, idx: u64) {
        let n = self.word(slot, 1).load(Relaxed);
        let r = 4 + 2 * (n as usize % RING);
        self.word(slot, r).store(fam as u64, Relaxed);
        self.word(slot, r + 1).store(idx, Relaxed);
        self.word(slot, 1).store(n + 1, Relaxed);
        self.word(slot, 2).store(1, Relaxed);
        self.beat(slot);
    }
    fn idle(&self, slot: usize) {
        self.word(slot, 2).store(0, Relaxed);
    }
    fn busy(&self, slot: usize) -> bool {
        self.word(slot, 2).load(Relaxed) == 1
    }
    fn recent(&self, slot: usize, n: usize) -> Vec<(usize, u64)> {
        let total = self.word(slot, 1).load(Relaxed) as usize;
        let k = n.min(total).min(RING);
        (total - k..total)
            .map(|i| {
                let r = 4 + 2 * (i % RING);
                (self.word(slot, r).load(Relaxed) as usize, self.word(slot, r + 1).load(Relaxed))
            })
            .collect()
    }
    fn describe(&self, d: &str) {
        let n = d.len().min(TEXT - 8);
        unsafe {
            let t = self.base.add(SLOTS * SLOT_WORDS);
            *t = n as u64;
            std::ptr::copy_nonoverlapping(d.as_ptr(), t.add(1).cast(), n);
        }
    }
    fn description(&self) -> String {
        unsafe {
            let t = self.base.add(SLOTS * SLOT_WORDS);
            let n = (*t as usize).min(TEXT - 8);
            String::from_utf8_lossy(std::slice::from_raw_parts(t.add(1).cast(), n)).into_owned()
        }
    }
}

// ---------------------------------------------------------------------------------------------
// running

fn new_cx(tier: Tier, journal: Journal, slot: usize, verbose: bool, want_samples: usize, cap: u64) -> Cx {
    Cx {
        tier,
        verbose,
        desc: String::new(),
        journal,
        slot,
        cases: 0,
        transitions: 0,
        nontrivial: 0,
        states: HashSet::default(),
        outcomes: HashSet::default(),
        capped: false,
        truncated: false,
        deadline: Instant::now() + Duration::from_secs(cap),
        known: Vec::new(),
        want_samples,
        samples: Vec::new(),
    }
}

/// Runs one unit; the message of the violation if there was one.
fn run_unit(check: &Check, cx: &mut Cx, fam: usize, idx: u64) -> Result<(), String> {
    cx.journal.start(cx.slot, fam, idx);
    if cfg!(miri) {
        eprintln!("UNIT {fam}:{idx}");
    }
    let f = &check.families[fam];
    let r = panic::catch_unwind(AssertUnwindSafe(|| (f.run)(cx, idx)));
    match r {
        Ok(()) => Ok(()),
        Err(p) => Err(match p.downcast::<Violation>() {
            Ok(v) => v.0,
            Err(_) => {
                format!("unexpected panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))
            }
        }),
    }
}

struct Args {
    mode: String,
    tier: Tier,
    out: String,
    journal: Option<String>,
    threads: usize,
    cap: u64,
    stall: u64,
    known: Vec<String>,
    /// Only units with this remainder modulo the second number (for runs spread over processes).
    shard: (u64, u64),
    rest: Vec<String>,
}

fn parse() -> Args {
    let mut a = Args {
        mode: "run".into(),
        tier: Tier::Quick,
        out: String::new(),
        journal: None,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(SLOTS),
        cap: 600,
        stall: 60,
        known: Vec::new(),
        shard: (0, 1),
        rest: Vec::new(),
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("argument value");
        match x.as_str() {
            "--tier" => {
                a.tier = match v().as_str() {
                    "thorough" => Tier::Thorough,
                    _ => Tier::Quick,
                }
            }
            "--out" => a.out = v(),
            "--journal" => a.journal = Some(v()),
            "--threads" => a.threads = v().parse().unwrap(),
            "--cap" => a.cap = v().parse().unwrap(),
            "--stall" => a.stall = v().parse().unwrap(),
            "--known" => a.known.push(v()),
            "--shard" => {
                let v = v();
                let (k, n) = v.split_once('/').expect("k/n");
                a.shard = (k.parse().unwrap(), n.parse().unwrap());
            }
            "run" | "worker" | "units" | "list" => a.mode = x,
            _ => a.rest.push(x),
        }
    }
    a
}

fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

#[derive(Default)]
struct Total {
    cases: u64,
    transitions: u64,
    nontrivial: u64,
    states: HashSet<u64, std::hash::BuildHasherDefault<IdHasher>>,
    outcomes: HashSet<u64, std::hash::BuildHasherDefault<IdHasher>>,
    capped: bool,
    truncated: bool,
    known: Vec<String>,
    samples: Vec<String>,
    violation: Option<(usize, u64, String)>,
}

fn worker(check: &Check, a: &Args) -> i32 {
    let journal = Journal::open(a.journal.as_deref());
    let start = Instant::now();
    let fam = AtomicUsize::new(0);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let live = AtomicUsize::new(a.threads);
    let lock = Mutex::new(());
    let total = Mutex::new(Total::default());
    let done_units: Vec<AtomicU64> = check.families.iter().map(|_| AtomicU64::new(0)).collect();
    let fam_cases: Vec<AtomicU64> = check.families.iter().map(|_| AtomicU64::new(0)).collect();
    let fam_ms: Vec<AtomicU64> = check.families.iter().map(|_| AtomicU64::new(0)).collect();
    std::thread::scope(|s| {
        for t in 0..a.threads {
            let (fam, next, stop, timed_out, total, lock, done_units, fam_cases, fam_ms, live) = (
                &fam, &next, &stop, &timed_out, &total, &lock, &done_units, &fam_cases, &fam_ms, &live,
            );
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut cx = new_cx(a.tier, journal, t, false, if t == 0 { 24 } else { 0 }, a.cap);
                    'outer: loop {
                        if stop.load(Relaxed) {
                            break;
                        }
                        if start.elapsed() > Duration::from_secs(a.cap) {
                            timed_out.store(true, Relaxed);
                            break;
                        }
                        let (f, from, to) = {
                            let _g = lock.lock().unwrap();
                            let mut f = fam.load(Relaxed);
                            let mut n = next.load(Relaxed);
                            while f < check.families.len() && n >= check.families[f].count {
                                f += 1;
                                n = 0;
                                fam.store(f, Relaxed);
                            }
                            if f >= check.families.len() {
                                break 'outer;
                            }
                            let c = check.families[f].count;
                            let chunk = ((c - n) / (a.threads as u64 * 8)).clamp(1, 4096);
                            next.store(n + chunk, Relaxed);
                            (f, n, (n + chunk).min(c))
                        };
                        let t0 = Instant::now();
                        let before = cx.cases;
                        for idx in from..to {
                            if stop.load(Relaxed) {
                                break 'outer;
                            }
                            if idx % a.shard.1 != a.shard.0 {
                                continue;
                            }
                            if let Err(msg) = run_unit(check, &mut cx, f, idx) {
                                stop.store(true, Relaxed);
                                let mut tot = total.lock().unwrap();
                                // keep the earliest violation: families are ordered simplest first
                                let cand = (f, idx, msg);
                                if tot.violation.as_ref().is_none_or(|v| (cand.0, cand.1) < (v.0, v.1)) {
                                    tot.violation = Some(cand);
                                }
                                break 'outer;
                            }
                            if start.elapsed() > Duration::from_secs(a.cap) {
                                timed_out.store(true, Relaxed);
                                break 'outer;
                            }
                        }
                        done_units[f].fetch_add(to - from, Relaxed);
                        fam_cases[f].fetch_add(cx.cases - before, Relaxed);
                        fam_ms[f].fetch_add(t0.elapsed().as_micros() as u64, Relaxed);
                    }
                    journal.idle(t);
                    let mut tot = total.lock().unwrap();
                    tot.cases += cx.cases;
                    tot.transitions += cx.transitions;
                    tot.nontrivial += cx.nontrivial;
                    tot.states.extend(cx.states.drain());
                    tot.outcomes.extend(cx.outcomes.drain());
                    tot.capped |= cx.capped;
                    tot.truncated |= cx.truncated;
                    tot.samples.append(&mut cx.samples);
                    for k in cx.known.drain(..) {
                        if !tot.known.contains(&k) {
                            tot.known.push(k)
                        }
                    }
                    live.fetch_sub(1, Relaxed);
                })
                .unwrap();
        }
        // watchdog: a worker whose heartbeat stands still is in a call that does not return
        if !cfg!(miri) {
            let mut last = vec![(0u64, Instant::now()); a.threads];
            while live.load(Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for t in 0..a.threads {
                    let b = journal.word(t, 0).load(Relaxed);
                    if b != last[t].0 || !journal.busy(t) {
                        last[t] = (b, Instant::now());
                    } else if last[t].1.elapsed() > Duration::from_secs(a.stall) {
                        eprintln!("STALL thread {t}");
                        unsafe { libc::_exit(77) }
                    }
                }
            }
        }
    });
    let tot = total.into_inner().unwrap();
    let mut violation = String::from("null");
    if let Some((f, idx, msg)) = &tot.violation {
        // replay the unit with descriptions on: must fail again, the same way
        let mut cx = new_cx(a.tier, journal, 0, true, 0, a.cap);
        let again = run_unit(check, &mut cx, *f, *idx);
        let (desc, msg2) = match &again {
            Err(m) => (cx.desc.clone(), m.clone()),
            Ok(()) => (String::from("(not reproduced when the unit is replayed alone)"), msg.clone()),
        };
        violation = format!(
            "{{\"family\":{},\"unit\":{},\"message\":{},\"case\":{},\"reproduced\":{}}}",
            json_str(check.families[*f].name),
            idx,
            json_str(&msg2),
            json_str(&desc),
            again.is_err()
        );
    }
    let mut fams = String::new();
    for (i, f) in check.families.iter().enumerate() {
        if i > 0 {
            fams.push(',');
        }
        write!(
            fams,
            "{{\"name\":{},\"what\":{},\"units\":{},\"units_done\":{},\"executions\":{},\"cpu_ms\":{}}}",
            json_str(f.name),
            json_str(&f.what),
            f.count,
            done_units[i].load(Relaxed),
            fam_cases[i].load(Relaxed),
            fam_ms[i].load(Relaxed) / 1000
        )
        .unwrap();
    }
    let exhaustive = tot.violation.is_none() && !tot.truncated && !timed_out.load(Relaxed);
    let out = format!(
        "{{\"property\":{},\"states\":{},\"states_capped\":{},\"transitions\":{},\"executions\":{},\"nontrivial\":{},\"outcomes\":{},\"exhaustive\":{},\"families\":[{}],\"samples\":{},\"known\":{},\"violation\":{},\"wall_s\":{:.2}}}\n",
        json_str(check.id),
        tot.states.len(),
        tot.capped,
        tot.transitions,
        tot.cases,
        tot.nontrivial,
        tot.outcomes.len(),
        exhaustive,
        fams,
        serde_json::to_string(&tot.samples).unwrap(),
        serde_json::to_string(&tot.known).unwrap(),
        violation,
        start.elapsed().as_secs_f64()
    );
    if a.out.is_empty() || cfg!(miri) {
        print!("{out}");
    } else {
        std::fs::File::create(&a.out).unwrap().write_all(out.as_bytes()).unwrap();
    }
    if tot.violation.is_some() { 1 } else { 0 }
}

fn units(check: &Check, a: &Args) -> i32 {
    let journal = Journal::open(a.journal.as_deref());
    let stall = a.stall;
    if !cfg!(miri) {
        std::thread::spawn(move || {
            let mut last = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(20));
                let b = journal.word(0, 0).load(Relaxed);
                if b != last.0 {
                    last = (b, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(stall) {
                    eprintln!("STALL");
                    unsafe { libc::_exit(77) }
                }
            }
        });
    }
    let mut cx = new_cx(a.tier, journal, 0, true, 0, a.cap);
    // a thread of the same kind as the workers, for the same stack limit
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                for u in &a.rest {
                    let (f, i) = u.split_once(':').expect("family:unit");
                    let f = f.parse::<usize>().ok().unwrap_or_else(|| {
                        check.families.iter().position(|x| x.name == f).expect("family")
                    });
                    if let Err(m) = run_unit(check, &mut cx, f, i.parse().unwrap()) {
                        println!("family {} unit {}\ncase: {}\n{}", check.families[f].name, i, cx.desc, m);
                        return 1;
                    }
                }
                0
            })
            .unwrap()
            .join()
            .unwrap_or(101)
    })
}

fn exit_kind(st: std::process::ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    if let Some(sig) = st.signal() {
        return Some(match sig {
            libc::SIGSEGV => "crashed with SIGSEGV (invalid memory access or stack overflow)".into(),
            libc::SIGBUS => "crashed with SIGBUS".into(),
            libc::SIGABRT => "aborted".into(),
            s => format!("killed by signal {s}"),
        });
    }
    match st.code() {
        Some(77) => Some("a call did not return (no progress)".into()),
        Some(78) => Some("allocation without bound".into()),
        Some(86) => Some("memory error reported by address sanitizer".into()),
        Some(0) | Some(1) => None,
        Some(c) => Some(format!("exited with {c}")),
        None => Some("ended".into()),
    }
}

fn run_with_deadline(mut c: Command, secs: u64) -> (Option<std::process::ExitStatus>, String) {
    let err = std::env::temp_dir().join(format!("mc-stderr-{}", std::process::id()));
    c.stderr(std::fs::File::create(&err).unwrap());
    let mut ch = c.spawn().expect("spawn");
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait().unwrap() {
            Some(st) => break Some(st),
            None if t0.elapsed() > Duration::from_secs(secs) => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(10)),
        }
    };
    let text = std::fs::read(&err).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let _ = std::fs::remove_file(&err);
    (st, text)
}

fn supervise(check: &Check, a: &Args) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let journal_path = format!("{}.journal", a.out);
    let _ = std::fs::remove_file(&journal_path);
    let _ = std::fs::remove_file(&a.out);
    let tier = match a.tier {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    };
    let base = |mode: &str| {
        let mut c = Command::new(&exe);
        c.arg(mode).args(["--tier", tier, "--out", &a.out, "--journal", &journal_path]);
        c.args(["--threads", &a.threads.to_string(), "--cap", &a.cap.to_string()]);
        c.args(["--stall", &a.stall.to_string()]);
        c.args(["--shard", &format!("{}/{}", a.shard.0, a.shard.1)]);
        for k in &a.known {
            c.args(["--known", k]);
        }
        c
    };
    let (st, stderr) = run_with_deadline(base("worker"), a.cap + a.stall + 120);
    let crash = match st {
        None => Some("no end within the time limit".to_string()),
        Some(st) => exit_kind(st),
    };
    let Some(how) = crash else {
        let _ = std::fs::remove_file(&journal_path);
        return st.unwrap().code().unwrap();
    };
    eprintln!("{}: worker {how}\n{}", check.id, tail(&stderr, 3000));
    // attribute: units in progress first, alone; then the whole recent sequence of each thread
    let j = Journal::open(Some(&journal_path));
    let mut tries: Vec<Vec<(usize, u64)>> = Vec::new();
    let busy: Vec<usize> = (0..a.threads).filter(|&t| j.busy(t)).collect();
    for &t in &busy {
        tries.push(j.recent(t, 1));
    }
    for &t in &busy {
        tries.push(j.recent(t, 64));
        tries.push(j.recent(t, RING));
    }
    let journal2 = format!("{}.journal2", a.out);
    for seq in tries.into_iter().filter(|s| !s.is_empty()) {
        let _ = std::fs::remove_file(&journal2);
        let mut c = Command::new(&exe);
        c.args(["units", "--tier", tier, "--journal", &journal2]);
        c.args(["--cap", &a.cap.to_string(), "--stall", &a.stall.to_string()]);
        for k in &a.known {
            c.args(["--known", k]);
        }
        for (f, i) in &seq {
            c.arg(format!("{f}:{i}"));
        }
        c.stdout(std::process::Stdio::null());
        let (st, err2) = run_with_deadline(c, a.cap + a.stall + 60);
        let how2 = match st {
            None => None,
            Some(st) if st.code() == Some(1) => Some("violates the property".to_string()),
            Some(st) => exit_kind(st),
        };
        if let Some(how2) = how2 {
            let desc = Journal::open(Some(&journal2)).description();
            let (f, i) = *seq.last().unwrap();
            let out = format!(
                "{{\"property\":{},\"states\":0,\"states_capped\":false,\"transitions\":0,\"executions\":0,\"nontrivial\":0,\"outcomes\":0,\"exhaustive\":false,\"families\":[],\"samples\":[],\"known\":[],\"violation\":{{\"family\":{},\"unit\":{},\"message\":{},\"case\":{},\"units\":{},\"reproduced\":true}},\"wall_s\":0}}\n",
                json_str(check.id),
                json_str(check.families[f].name),
                i,
                json_str(&format!("{how2}\n{}", tail(&err2, 2500))),
                json_str(&desc),
                json_str(&format!("{seq:?}"))
            );
            std::fs::write(&a.out, out).unwrap();
            let _ = std::fs::remove_file(&journal_path);
            let _ = std::fs::remove_file(&journal2);
            return 1;
        }
    }
    eprintln!("{}: the crash was not reproduced", check.id);
    let _ = std::fs::remove_file(&journal_path);
    let _ = std::fs::remove_file(&journal2);
    3
}

fn tail(s: &str, n: usize) -> &str {
    let mut i = s.len().saturating_sub(n);
    while !s.is_char_boundary(i) {
        i += 1;
    }
    &s[i..]
}

pub fn main(id: &'static str, make: impl FnOnce(Tier) -> Vec<Family>) {
    install_hook();
    let a = parse();
    KNOWN.set(a.known.clone()).unwrap();
    let mut check = Check { id, families: make(a.tier) };
    // for development: one family only (`check` clears this variable)
    if let Ok(only) = std::env::var("MC_ONLY") {
        check.families.retain(|f| f.name == only);
    }
    let code = match a.mode.as_str() {
        "run" if cfg!(miri) => worker(&check, &a),
        "run" => supervise(&check, &a),
        "worker" => worker(&check, &a),
        "units" => units(&check, &a),
        _ => {
            for (i, f) in check.families.iter().enumerate() {
                println!("{i} {} {} -- {}", f.name, f.count, f.what);
            }
            0
        }
    };
    std::process::exit(code)
}
