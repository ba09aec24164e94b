//! Exploration engine: parallel deterministic enumeration, isolation of crashes
//! and hangs in a child process, verdicts, replay artefacts and evidence.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// A violation found in a case, or a defect of the harness itself.
#[derive(Clone, Debug)]
pub enum Fail {
    Violation(String),
    Engine(String),
}

pub type Res<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! viol {
    ($($t:tt)*) => { return Err($crate::engine::Fail::Violation(format!($($t)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fail::Violation(format!($($t)*))) } };
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

/// The payload with which harness callbacks panic on purpose.
pub struct Injected;

/// The payload with which harness callbacks report a violation.
pub struct Verdict(pub String);

/// Reports a violation from inside a callback of the code under test.
pub fn vpanic(msg: String) -> ! {
    std::panic::panic_any(Verdict(msg))
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string payload>".to_string()
        };
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = (msg, loc);
            }
        });
    }));
}

/// Turns a panic that escaped from a case into a verdict. A panic raised in the
/// harness's own sources is a defect of the harness, any other one was raised
/// by the code under test (or by a library it called).
pub fn panic_fail() -> Fail {
    let (msg, loc) = LAST_PANIC.with(|p| p.borrow().clone());
    let text = format!("panicked at {loc}: {msg}");
    if loc.starts_with("src/") || loc.contains("/verif/harness/src/") {
        Fail::Engine(text)
    } else {
        Fail::Violation(text)
    }
}

pub fn guarded<R>(f: impl FnOnce() -> Res<R>) -> Res<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => match p.downcast::<Verdict>() {
            Ok(v) => Err(Fail::Violation(v.0)),
            Err(_) => Err(panic_fail()),
        },
    }
}

// ---------------------------------------------------------------- slots

pub const SLOT: usize = 16384;
pub const NSLOTS: usize = 16;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

static SLOTS: AtomicUsize = AtomicUsize::new(0);

/// Maps the file in which each thread notes the case it is about to run.
pub fn map_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .open(path)
        .expect("slots file");
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT * NSLOTS, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    SLOTS.store(p as usize, SeqCst);
}

pub fn limit_memory(bytes: u64) {
    // sanitizers need address space, and interpreters have no such call
    if cfg!(any(miri, feature = "plain")) {
        return;
    }
    unsafe { setrlimit(9, &[bytes, bytes]) };
}

/// slot layout: u64 sequence number, u32 length, bytes
pub fn slot_write(tid: usize, case: &str) {
    let base = SLOTS.load(Relaxed);
    if base == 0 {
        return;
    }
    unsafe {
        let p = (base + (tid % NSLOTS) * SLOT) as *mut u8;
        let seq = p as *mut u64;
        seq.write_volatile(seq.read_volatile() + 1);
        let n = case.len().min(SLOT - 16);
        ((p as usize + 8) as *mut u32).write_volatile(n as u32);
        std::ptr::copy_nonoverlapping(case.as_ptr(), p.add(12), n);
    }
}

pub fn slot_clear(tid: usize) {
    slot_write(tid, "");
}

// ---------------------------------------------------------------- context

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: i64,
    pub nthreads: usize,
    pub t0: Instant,
    pub stop: AtomicBool,
    fails: Mutex<Vec<(u64, String, Fail)>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    notes: Mutex<BTreeMap<String, String>>,
    order: AtomicU64,
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, nthreads: usize) -> Ctx {
        Ctx {
            prop: prop.to_string(),
            tier,
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1),
            nthreads,
            t0: Instant::now(),
            stop: AtomicBool::new(false),
            fails: Mutex::new(vec![]),
            counters: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            notes: Mutex::new(BTreeMap::new()),
            order: AtomicU64::new(0),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// quick or thorough value
    pub fn qt<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }

    pub fn add(&self, name: &str, n: u64) {
        *self
            .counters
            .lock()
            .unwrap()
            .entry(name.to_string())
            .or_insert(0) += n;
    }

    pub fn count(&self, name: &str) -> u64 {
        *self.counters.lock().unwrap().get(name).unwrap_or(&0)
    }

    pub fn note(&self, name: &str, text: impl Into<String>) {
        self.notes
            .lock()
            .unwrap()
            .insert(name.to_string(), text.into());
    }

    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s.into());
        }
    }

    pub fn failed(&self) -> bool {
        self.stop.load(Relaxed)
    }

    pub fn report(&self, order: u64, case: String, fail: Fail) {
        self.fails.lock().unwrap().push((order, case, fail));
        self.stop.store(true, SeqCst);
    }

    /// Runs one case: notes it in the thread's slot, catches panics and records
    /// a failure. Returns true if the case passed.
    pub fn case(&self, tid: usize, order: u64, case: &str, f: impl FnOnce() -> Res) -> bool {
        slot_write(tid, case);
        let r = guarded(f);
        slot_clear(tid);
        match r {
            Ok(()) => true,
            Err(e) => {
                self.report(order, case.to_string(), e);
                false
            }
        }
    }

    /// Applies `f` to all items in parallel; the results keep the order of the
    /// items. Once a failure has been recorded no later item is started, so the
    /// reported failure is the first in the enumeration order.
    pub fn par_map<T: Sync, R: Send>(
        &self,
        items: &[T],
        f: impl Fn(usize, u64, &T) -> R + Sync,
    ) -> Vec<R> {
        let base = self.order.fetch_add(items.len() as u64, SeqCst);
        let next = AtomicUsize::new(0);
        let out: Mutex<Vec<(usize, Vec<R>)>> = Mutex::new(vec![]);
        let chunk = (items.len() / (self.nthreads * 32)).clamp(1, 512);
        if self.nthreads == 1 {
            let it = items.iter().enumerate().take_while(|_| !self.failed());
            return it.map(|(i, t)| f(0, base + i as u64, t)).collect();
        }
        std::thread::scope(|s| {
            for tid in 0..self.nthreads {
                let (next, out, f) = (&next, &out, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || loop {
                        let i = next.fetch_add(chunk, SeqCst);
                        if i >= items.len() || self.failed() {
                            break;
                        }
                        let end = (i + chunk).min(items.len());
                        let mut v = Vec::with_capacity(end - i);
                        for j in i..end {
                            v.push(f(tid, base + j as u64, &items[j]));
                        }
                        out.lock().unwrap().push((i, v));
                    })
                    .expect("spawn");
            }
        });
        let mut out = out.into_inner().unwrap();
        out.sort_by_key(|x| x.0);
        out.into_iter().flat_map(|x| x.1).collect()
    }

    /// Runs all cases in parallel.
    pub fn par_cases<T: Sync>(
        &self,
        items: &[T],
        name: impl Fn(&T) -> String + Sync,
        f: impl Fn(&T) -> Res + Sync,
    ) {
        let (part, parts) = part();
        let base = self.order.load(SeqCst);
        self.par_map(items, |tid, ord, t| {
            if (ord - base) % parts == part {
                self.case(tid, ord, &name(t), || f(t));
            }
        });
    }

    fn json_evidence(&self, level: &str, violations: usize) -> String {
        let counters = self.counters.lock().unwrap();
        let notes = self.notes.lock().unwrap();
        let samples = self.samples.lock().unwrap();
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
            js(&self.prop),
            js(self.tier.name()),
            self.seed,
            js(level)
        );
        for (k, v) in counters.iter() {
            let _ = writeln!(s, "  {}: {},", js(k), v);
        }
        for (k, v) in notes.iter().filter(|(k, _)| !k.starts_with("assume")) {
            let _ = writeln!(s, "  {}: {},", js(k), js(v));
        }
        let _ = writeln!(s, "  \"exhaustive\": {},", violations == 0);
        let _ = writeln!(
            s,
            "  \"samples\": [{}]\n }},",
            samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")
        );
        let ass: Vec<String> = notes
            .iter()
            .filter(|(k, _)| k.starts_with("assume"))
            .map(|(_, v)| js(v))
            .collect();
        let _ = writeln!(s, " \"assumptions\": [{}],", ass.join(", "));
        let _ = writeln!(
            s,
            " \"wall_s\": {:.2},\n \"violations\": {}\n}}",
            self.t0.elapsed().as_secs_f64(),
            violations
        );
        s
    }

    /// Writes the evidence, prints the verdict and returns the exit code.
    pub fn finish(&self, level: &str) -> i32 {
        let mut fails = std::mem::take(&mut *self.fails.lock().unwrap());
        fails.sort_by_key(|f| f.0);
        if let Some((_, case, Fail::Engine(m))) =
            fails.iter().find(|f| matches!(f.2, Fail::Engine(_)))
        {
            println!("ENGINE-ERROR {m}\n  case: {case}");
            return 2;
        }
        let nv = fails.len();
        let dir = evidence_dir();
        let _ = std::fs::create_dir_all(&dir);
        let ev = self.json_evidence(level, nv);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.prop)), ev) {
            println!("ENGINE-ERROR cannot write the evidence: {e}");
            return 2;
        }
        match fails.first() {
            Some((_, case, Fail::Violation(m))) => {
                violation(&self.prop, case, m);
                1
            }
            _ => {
                let c = self.counters.lock().unwrap();
                println!(
                    "OK property={} tier={} wall={:.1}s {}",
                    self.prop,
                    self.tier.name(),
                    self.t0.elapsed().as_secs_f64(),
                    c.iter()
                        .map(|(k, v)| format!("{k}={v}"))
                        .collect::<Vec<_>>()
                        .join(" ")
                );
                0
            }
        }
    }
}

/// `MC_PART=i/n` runs every n-th case only, so that n processes can share the
/// cases between them where one process cannot run threads in parallel.
fn part() -> (u64, u64) {
    std::env::var("MC_PART")
        .ok()
        .and_then(|s| s.split_once('/').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))))
        .unwrap_or((0, 1))
}

fn evidence_dir() -> PathBuf {
    std::env::var("MC_EVIDENCE_DIR").map_or_else(|_| verif_dir().join("evidence"), PathBuf::from)
}

pub fn verif_dir() -> PathBuf {
    if let Ok(d) = std::env::var("VERIF_DIR") {
        return PathBuf::from(d);
    }
    // the binary lives in <verif>/harness/target*/...
    let mut p = std::env::current_exe().unwrap_or_default();
    while p.pop() {
        if p.join("MANIFEST.json").exists() || p.join("properties.jsonl").exists() {
            return p;
        }
    }
    PathBuf::from("/verif")
}

pub fn violation(prop: &str, case: &str, msg: &str) {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}.txt"));
    let _ = std::fs::write(
        &path,
        format!("property: {prop}\ncase: {case}\nmessage: {}\n", msg.replace('\n', " ")),
    );
    println!("  case: {case}\n  {msg}");
    println!("VIOLATION property={prop} replay={}", path.display());
    let _ = std::io::stdout().flush();
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- case text

/// A case is written as `key=value` words separated by blanks.
pub struct Case(pub BTreeMap<String, String>);

impl Case {
    pub fn parse(s: &str) -> Case {
        Case(
            s.split_whitespace()
                .filter_map(|w| w.split_once('='))
                .map(|(a, b)| (a.to_string(), b.to_string()))
                .collect(),
        )
    }
    pub fn get(&self, k: &str) -> &str {
        self.0.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn num<T: std::str::FromStr>(&self, k: &str) -> T {
        self.get(k)
            .parse()
            .unwrap_or_else(|_| panic!("bad number for {k} in case"))
    }
}

// ---------------------------------------------------------------- supervisor

/// Runs `args` in a child process and triages crashes and hangs: the cases that
/// were running when the child died are replayed one by one in processes of
/// their own, and one that dies again is a violation.
pub fn supervise(prop: &str, tier: &str, sub: &str, hang_s: u64, total_s: u64) -> i32 {
    let exe = std::env::current_exe().expect("current_exe");
    for attempt in 0..2 {
        match run_child(&exe, &[sub, prop, tier], hang_s, total_s) {
            ChildEnd::Code(c) if c == 0 || c == 1 || c == 2 => return c,
            ChildEnd::Code(c) => {
                println!("ENGINE-ERROR worker ended with code {c}");
                return 2;
            }
            ChildEnd::Timeout => {
                println!("ENGINE-ERROR worker exceeded {total_s} s");
                return 2;
            }
            ChildEnd::Signal(sig, cases) | ChildEnd::Hang(sig, cases) => {
                if sig == 9 {
                    println!("ENGINE-ERROR worker was killed");
                    return 2;
                }
                for case in &cases {
                    for _ in 0..2 {
                        let what = match run_child(&exe, &["replay-case", prop, tier, case], hang_s, hang_s + 10) {
                            ChildEnd::Signal(s, _) if s != 9 => format!("the process died with signal {s}"),
                            ChildEnd::Hang(..) | ChildEnd::Timeout => format!("no end within {hang_s} s"),
                            ChildEnd::Code(1) => "the case fails when run on its own".to_string(),
                            _ => continue,
                        };
                        write_crash_evidence(prop, tier);
                        violation(prop, case, &what);
                        return 1;
                    }
                }
                // The damage may have been done by an earlier case. A second
                // complete run that dies as well is a violation, too.
                if attempt == 1 {
                    write_crash_evidence(prop, tier);
                    violation(
                        prop,
                        "whole=1",
                        &format!("memory was corrupted: the exploration died with signal {sig} in two of two runs"),
                    );
                    return 1;
                }
            }
        }
    }
    println!("ENGINE-ERROR the worker died once and not again");
    2
}

fn write_crash_evidence(prop: &str, tier: &str) {
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let c = Ctx::new(prop, tier, 1);
    c.note("explanation", "the exploration ended at a case that killed the process");
    c.add("evaluations", 1);
    c.sample("see the replay file");
    let dir = evidence_dir();
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}.json")), c.json_evidence("other", 1));
}

enum ChildEnd {
    Code(i32),
    Signal(i32, Vec<String>),
    Hang(i32, Vec<String>),
    Timeout,
}

fn read_slots(path: &PathBuf) -> Vec<(u64, String)> {
    let data = std::fs::read(path).unwrap_or_default();
    let mut v = vec![];
    for i in 0..NSLOTS {
        if data.len() < (i + 1) * SLOT {
            break;
        }
        let s = &data[i * SLOT..(i + 1) * SLOT];
        let seq = u64::from_ne_bytes(s[0..8].try_into().unwrap());
        let n = u32::from_ne_bytes(s[8..12].try_into().unwrap()) as usize;
        v.push((seq, String::from_utf8_lossy(&s[12..12 + n.min(SLOT - 16)]).to_string()));
    }
    v
}

fn run_child(exe: &PathBuf, args: &[&str], hang_s: u64, total_s: u64) -> ChildEnd {
    use std::os::unix::process::ExitStatusExt;
    static N: AtomicUsize = AtomicUsize::new(0);
    let path = std::env::temp_dir().join(format!(
        "rtree-mc-{}-{}.slots",
        std::process::id(),
        N.fetch_add(1, SeqCst)
    ));
    std::fs::write(&path, vec![0u8; SLOT * NSLOTS]).expect("slots file");
    let mut child = std::process::Command::new(exe)
        .args(args)
        .env("RTREE_MC_SLOTS", &path)
        .env("VERIF_DIR", verif_dir())
        .spawn()
        .expect("spawn worker");
    let t0 = Instant::now();
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); NSLOTS];
    let end = loop {
        if let Some(st) = child.try_wait().expect("wait") {
            break if let Some(sig) = st.signal() {
                ChildEnd::Signal(
                    sig,
                    read_slots(&path).into_iter().map(|x| x.1).filter(|c| !c.is_empty()).collect(),
                )
            } else {
                ChildEnd::Code(st.code().unwrap_or(2))
            };
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 2000 { 20 } else { 200 }));
        let mut hung = vec![];
        for (i, (seq, case)) in read_slots(&path).into_iter().enumerate() {
            if seq != seen[i].0 || case.is_empty() {
                seen[i] = (seq, Instant::now());
            } else if seen[i].1.elapsed().as_secs() >= hang_s {
                hung.push(case);
            }
        }
        if !hung.is_empty() {
            let _ = child.kill();
            let _ = child.wait();
            break ChildEnd::Hang(0, hung);
        }
        if t0.elapsed().as_secs() >= total_s {
            let _ = child.kill();
            let _ = child.wait();
            break ChildEnd::Timeout;
        }
    };
    let _ = std::fs::remove_file(&path);
    end
}
