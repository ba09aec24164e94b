//! C32: running out of memory ends the process in an orderly way.
//!
//! Every allocation of every history fails in a process of its own, which has to
//! be ended by the handler of allocation errors (or by a panic).
use rtree_mc::prelude::*;
use rusty_rtree::filter::NoFilter;
use rusty_rtree::ranking::Ranking;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

struct Failing;

thread_local! {
    /// allocations that succeed before one fails; counts in the armed parts only
    static LEFT: Cell<i64> = const { Cell::new(i64::MAX) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

unsafe impl GlobalAlloc for Failing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED.with(|a| a.get()) {
            let n = LEFT.with(|x| x.replace(x.get() - 1));
            if n == 0 {
                ARMED.with(|a| a.set(false));
                return std::ptr::null_mut();
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static GLOBAL: Failing = Failing;

const START: i64 = 1 << 40;

/// The history with everything that the library does armed.
fn history(c: &Case) -> Res<i64> {
    let alpha = Alpha::<Bi2>::new(c.get("A"));
    let mut r = Run::new(&alpha, parse_cfg(c.get("C")));
    let hist = parse_hist(c.get("H"));
    let end = c.get("E");
    let armed = |on: bool| ARMED.with(|a| a.set(on));
    LEFT.with(|l| l.set(match c.get("F") {
        "" => START,
        _ => c.num::<i64>("F"),
    }));
    armed(true);
    for &op in &hist {
        r.apply(op)?;
    }
    let t = &mut r.tree;
    let n = match end {
        "iter" => t.iter().count() + t.iter_mut().count(),
        "filter" => t.filter_iter::<<Bi2 as Variant>::K, _>(NoFilter).count() + t.filter_iter_mut::<<Bi2 as Variant>::K, _>(NoFilter).count(),
        "join" => t.join::<_, _, _, <Bi2 as Variant>::K, <Bi2 as Variant>::K, _>(&*t, NoRel).count(),
        "left" => t.left_join::<_, _, _, <Bi2 as Variant>::K, <Bi2 as Variant>::K, _>(&*t, NoRel).map(|(_, i)| i.count()).sum(),
        // with all inner iterators alive at once
        "kept" => {
            let kept: Vec<_> = t.left_join::<_, _, _, <Bi2 as Variant>::K, <Bi2 as Variant>::K, _>(&*t, NoRel).map(|(_, i)| i).collect();
            kept.into_iter().map(|i| i.count()).sum()
        }
        "frank" => t.filter_iter_asc_by(Some0).count() + t.filter_iter_asc_by_mut(Some0).count(),
        "rank" => t.iter_asc_by(Zero).count() + t.iter_asc_by_mut(Zero).count(),
        "clone" => {
            let c = t.clone();
            c.len()
        }
        _ => 0,
    };
    armed(false);
    std::hint::black_box(n);
    r.check_contents()?;
    Ok(START - LEFT.with(|l| l.get()))
}

#[derive(Clone)]
struct NoRel;
impl<A, B, C, D> rusty_rtree::filter::JoinFilter<A, B, C, D> for NoRel {
    fn test_bounds(&self, _: &A, _: &B) -> bool {
        true
    }
    fn test_key(&self, _: &C, _: &D) -> bool {
        true
    }
}

struct Zero;
impl<B, K> Ranking<B, K> for Zero {
    type Metric = i32;
    fn bounds_min(&self, _: &B) -> i32 {
        0
    }
    fn rank_key(&self, _: &K) -> i32 {
        0
    }
}

struct Some0;
impl<B, K> Ranking<B, K> for Some0 {
    type Metric = Option<i32>;
    fn bounds_min(&self, _: &B) -> Option<i32> {
        Some(0)
    }
    fn rank_key(&self, _: &K) -> Option<i32> {
        Some(0)
    }
}

static RUNS: AtomicU64 = AtomicU64::new(0);
static PANICS: AtomicU64 = AtomicU64::new(0);

/// Runs a case in a process of its own.
fn child(case: &str) -> Res<(Option<i32>, Option<i32>, String, String)> {
    let out = std::env::current_exe().and_then(|exe| Command::new(exe).env("RUST_BACKTRACE", "0").args(["child", case]).stdin(Stdio::null()).output());
    let out = out.map_err(|e| Fail::Engine(format!("cannot run a process: {e}")))?;
    RUNS.fetch_add(1, Relaxed);
    let text = |b: &[u8]| String::from_utf8_lossy(b).trim().to_string();
    Ok((out.status.code(), out.status.signal(), text(&out.stdout), text(&out.stderr)))
}

/// The allocation with the number F fails.
fn one(c: &Case, _: Tier) -> Res {
    let case: String = c.0.iter().map(|(k, v)| format!("{k}={v} ")).collect();
    let (code, signal, out, err) = child(&case)?;
    match (code, signal) {
        // the handler of allocation errors prints this and aborts
        (None, Some(6)) if err.contains("memory allocation of") => Ok(()),
        (Some(3), None) => {
            PANICS.fetch_add(1, Relaxed);
            Ok(())
        }
        (Some(0), None) if c.num::<i64>("F") >= out.parse().unwrap_or(0) => Ok(()),
        (Some(0), None) => viol!("the failed allocation was not noticed"),
        (Some(4), None) => viol!("after the failed allocation: {out}"),
        (Some(9), _) | (_, Some(9)) => Err(Fail::Engine(format!("the process was ended: {code:?} {signal:?} {err}"))),
        _ => viol!("the process ends with code {code:?} signal {signal:?}: {}", err.chars().take(300).collect::<String>()),
    }
}

fn run(ctx: &Ctx) {
    let mut cases = vec![];
    let ends = ["", "iter", "filter", "rank", "frank", "join", "left", "kept", "clone"];
    for a in ["scat:12", "over:12"] {
        for (up, dn) in [("asc", "desc"), ("ends", "mid"), ("step3", "asc")] {
            for n in ctx.qt(vec![0, 1, 2, 4, 7, 12], (0..=24).collect()) {
                let h: Vec<Op> = order(up, 12).into_iter().cycle().take(n).enumerate().map(|(i, k)| if i % 4 == 3 { Op::Uni(k) } else { Op::Ins(k) }).collect();
                for cfg in ctx.qt(vec![(2, 1), (3, 1), (4, 2)], vec![(2, 1), (3, 1), (4, 2), (5, 2), (8, 4)]) {
                    for end in ends {
                        cases.push(format!("A={a} C={} H={} E={end}", fmt_cfg(cfg), fmt_hist(&h)));
                    }
                    let mut d = h.clone();
                    d.push(Op::Clo);
                    d.extend(order(dn, 12).into_iter().filter(|k| h.iter().any(|o| matches!(o, Op::Ins(x) | Op::Uni(x) if x == k))).map(Op::Rem));
                    cases.push(format!("A={a} C={} H={} E=", fmt_cfg(cfg), fmt_hist(&d)));
                }
            }
        }
    }
    // all short histories
    let menu = [Op::Ins(0), Op::Ins(1), Op::Uni(2), Op::Rem(0), Op::Rem(1), Op::Clo];
    let mut hs: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..ctx.qt(4, 5) {
        hs = hs.into_iter().flat_map(|h| menu.iter().map(move |&o| h.iter().copied().chain([o]).collect())).collect();
    }
    for h in &hs {
        cases.push(format!("A=mix C=2.1 H={} E={}", fmt_hist(h), ends[cases.len() % ends.len()]));
    }
    // how many allocations there are
    let counts = ctx.par_map(&cases, |_, _, c| child(c).ok().and_then(|r| if r.0 == Some(0) { r.2.parse::<i64>().ok() } else { None }).unwrap_or(64));
    let faults: Vec<String> = cases.iter().zip(&counts).flat_map(|(c, n)| (0..*n).map(move |i| format!("{c} F={i}"))).collect();
    ctx.par_cases(&faults, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    for c in faults.iter().step_by(faults.len() / 8 + 1) {
        ctx.sample(c);
    }
    ctx.add("histories", cases.len() as u64);
    ctx.add("distinct_nontrivial", faults.len() as u64);
    ctx.add("evaluations", RUNS.load(Relaxed));
    ctx.add("ended_by_a_panic", PANICS.load(Relaxed));
    ctx.note(
        "rule",
        "histories of operations with a query at the end; each allocation of each of them fails in a process of its own, \
         which has to end in the handler of allocation errors (or with a panic), not by a memory fault, and not with a result",
    );
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("child") {
        let r = std::panic::catch_unwind(|| history(&Case::parse(&args[2])));
        ARMED.with(|a| a.set(false));
        match r {
            Ok(Ok(n)) => println!("{n}"),
            Ok(Err(e)) => {
                println!("{e:?}");
                std::process::exit(4);
            }
            Err(_) => std::process::exit(3),
        }
        return;
    }
    rtree_mc::main_for("C32", "fault_enumeration", run, one)
}
