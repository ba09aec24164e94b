//! C12: a panic in user code never corrupts memory.
//!
//! For every tree of a family and every operation on it, each callback that the
//! operation makes is made to panic in an execution of its own.
use rtree_mc::calloc;
use rtree_mc::prelude::*;
use rtree_mc::tracked::*;
use rusty_rtree::bounds::SAABB;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

#[cfg(not(feature = "plain"))]
#[global_allocator]
static GLOBAL: calloc::Checked = calloc::Checked;

static FAULTS: AtomicU64 = AtomicU64::new(0);
static OPS: AtomicU64 = AtomicU64::new(0);
static LATER: AtomicU64 = AtomicU64::new(0);
static LIBRARY: AtomicU64 = AtomicU64::new(0);
/// Destructors are what panics, instead of everything else.
pub static DROPS: AtomicBool = AtomicBool::new(false);
static KINDS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

/// Runs the library; true if an injected panic ended it. Panics of the library
/// itself are tolerated only when it had been interrupted before.
fn step(interrupted: bool, f: impl FnOnce()) -> Res<bool> {
    world(|w| w.drops.set(DROPS.load(Relaxed)));
    let r = catch_unwind(AssertUnwindSafe(f));
    world(|w| w.drops.set(false));
    match r {
        Ok(()) => Ok(false),
        Err(p) => {
            if p.is::<Injected>() {
                return Ok(true);
            }
            if let Some(v) = p.downcast_ref::<Verdict>() {
                viol!("{}", v.0);
            }
            match panic_fail() {
                Fail::Violation(_) if interrupted => {
                    LIBRARY.fetch_add(1, Relaxed);
                    Ok(false)
                }
                e => Err(e),
            }
        }
    }
}

const QUERIES: [&str; 18] = [
    "clone", "get", "getmut", "iter", "filter", "filtermut", "asc", "ascmut", "fasc", "fascmut", "min", "minmut", "fmin",
    "fminmut", "join", "ljoin0", "ljoin1", "ljoin2",
];

/// An entry as it is seen: the key and the value.
type Seen = Vec<(u8, u32)>;

/// Runs one operation. Iterators that were interrupted are run on to their end,
/// so that `seen` has everything that an iterator ever yielded.
fn operation<P: Pad>(r: &mut TRun<P>, other: &TRun<P>, op: &str, arg: u8, seen: &mut Seen, hit: &mut bool) -> Res {
    // a query that is resumed after it has been interrupted
    macro_rules! resume {
        ($make:expr) => {{
            let mut it = None;
            *hit |= step(*hit, || it = Some($make))?;
            if let Some(mut it) = it {
                for _ in 0..200 {
                    let mut e = None;
                    *hit |= step(*hit, || e = it.next().map(|(k, v)| (k.look(), v.look())))?;
                    match e {
                        Some(e) => seen.push(e),
                        // the end, or the panic
                        None if !*hit => break,
                        None => {
                            // goes on after the panic
                            *hit |= step(true, || e = it.next().map(|(k, v)| (k.look(), v.look())))?;
                            match e {
                                Some(e) => seen.push(e),
                                None => break,
                            }
                        }
                    }
                }
                // dropped only now
                *hit |= step(*hit, || drop(it))?;
            }
        }};
    }
    macro_rules! single {
        ($make:expr) => {{
            let mut e = None;
            *hit |= step(*hit, || e = $make.map(|(k, v)| (k.look(), v.look())))?;
            seen.extend(e);
        }};
    }
    let mask = if arg == 0 { u64::MAX } else { 0b1011_0110_1101_1010_1101 };
    // arguments are built before, without panics
    match op {
        "i" | "u" => {
            let (k, v) = (r.key(arg), TV::new(1000));
            if op == "i" {
                *hit |= step(*hit, || r.tree.insert(k, v))?;
            } else {
                *hit |= step(*hit, || {
                    r.tree.insert_unique(k, v);
                })?;
            }
        }
        "r" => {
            let k = r.key(arg);
            *hit |= step(*hit, || {
                r.tree.remove::<TK<P>>(&k);
            })?;
        }
        "clone" => {
            let mut c = None;
            *hit |= step(*hit, || c = Some(r.tree.clone()))?;
            if let Some(c) = &c {
                seen.extend(c.iter().map(|(k, v)| (k.look(), v.look())));
            }
            *hit |= step(*hit, || drop(c))?;
        }
        // the whole tree is dropped, and an empty one goes on
        "d" => {
            let mut empty = None;
            *hit |= step(*hit, || empty = Some(rusty_rtree::RTree::new(rusty_rtree::RTreeConfig { max_children: 2, min_children: 1 })))?;
            let Some(empty) = empty else { return Ok(()) };
            let old = std::mem::replace(&mut r.tree, empty);
            *hit |= step(*hit, || drop(old))?;
        }
        "get" => {
            let k = r.key(arg);
            let mut e = None;
            *hit |= step(*hit, || e = r.tree.get(&k).map(|v| v.look()))?;
            seen.extend(e.map(|v| (arg, v)));
        }
        "getmut" => {
            let k = r.key(arg);
            let mut e = None;
            *hit |= step(*hit, || e = r.tree.get_mut(&k).map(|v| v.look()))?;
            seen.extend(e.map(|v| (arg, v)));
        }
        "iter" => resume!(r.tree.iter()),
        "filter" => {
            let f = r.filter(mask);
            resume!(r.tree.filter_iter::<TK<P>, _>(f))
        }
        "filtermut" => {
            let f = r.filter(mask);
            resume!(r.tree.filter_iter_mut::<TK<P>, _>(f))
        }
        "asc" => {
            let f = TR(r.filter(mask));
            resume!(r.tree.iter_asc_by(f))
        }
        "ascmut" => {
            let f = TR(r.filter(mask));
            resume!(r.tree.iter_asc_by_mut(f))
        }
        "fasc" => {
            let f = TO(r.filter(mask));
            resume!(r.tree.filter_iter_asc_by(f))
        }
        "fascmut" => {
            let f = TO(r.filter(mask));
            resume!(r.tree.filter_iter_asc_by_mut(f))
        }
        "min" => {
            let f = TR(r.filter(mask));
            single!(r.tree.min_by(f))
        }
        "minmut" => {
            let f = TR(r.filter(mask));
            single!(r.tree.min_by_mut(f))
        }
        "fmin" => {
            let f = TO(r.filter(mask));
            single!(r.tree.filter_min_by(f))
        }
        "fminmut" => {
            let f = TO(r.filter(mask));
            single!(r.tree.filter_min_by_mut(f))
        }
        "join" => {
            let f = r.filter(mask);
            let mut it = None;
            *hit |= step(*hit, || it = Some(r.tree.join::<_, _, _, TK<P>, TK<P>, _>(&other.tree, f)))?;
            let Some(mut it) = it else { return Ok(()) };
            let mut pairs = BTreeSet::new();
            for _ in 0..400 {
                let mut e = None;
                let was = *hit;
                *hit |= step(*hit, || {
                    e = it.next().map(|(x, y)| (x.0.look(), x.1.look(), y.0.look(), y.1.look()))
                })?;
                match e {
                    Some(e) => ensure!(pairs.insert(e), "the join yielded the pair {e:?} twice"),
                    None if *hit && !was => {}
                    None => break,
                }
            }
            *hit |= step(*hit, || drop(it))?;
            for (a, b, c, d) in pairs {
                ensure!(r.model.contains(&(a, b)), "the join yielded the left entry {:?}", (a, b));
                ensure!(other.model.contains(&(c, d)), "the join yielded the right entry {:?}", (c, d));
            }
        }
        "ljoin0" | "ljoin1" | "ljoin2" => {
            let way = op.as_bytes()[5] - b'0';
            let f = r.filter(mask);
            let mut it = None;
            *hit |= step(*hit, || it = Some(r.tree.left_join::<_, _, _, TK<P>, TK<P>, _>(&other.tree, f)))?;
            let Some(mut it) = it else { return Ok(()) };
            let mut kept = vec![];
            for i in 0..100 {
                let mut e = None;
                let was = *hit;
                *hit |= step(*hit, || e = it.next())?;
                let Some(((k, v), inner)) = e else {
                    if *hit && !was {
                        continue;
                    }
                    break;
                };
                seen.push((k.look(), v.look()));
                let mut inner = inner;
                let drain = match way {
                    0 => 100,
                    1 => i % 2,
                    _ => 0,
                };
                for _ in 0..drain {
                    let mut e = None;
                    let was = *hit;
                    *hit |= step(*hit, || e = inner.next().map(|(k, v)| (k.look(), v.look())))?;
                    match e {
                        Some(e) => ensure!(other.model.contains(&e), "the left join yielded the right entry {e:?}"),
                        None if *hit && !was => {}
                        None => break,
                    }
                }
                kept.push(inner);
            }
            if way != 1 {
                *hit |= step(*hit, || drop(it))?;
            }
            for mut inner in kept {
                let mut rights = BTreeSet::new();
                for _ in 0..100 {
                    let mut e = None;
                    let was = *hit;
                    *hit |= step(*hit, || e = inner.next().map(|(k, v)| (k.look(), v.look())))?;
                    match e {
                        Some(e) => {
                            ensure!(other.model.contains(&e), "the left join yielded the right entry {e:?}");
                            ensure!(rights.insert(e), "the left join yielded the right entry {e:?} twice");
                        }
                        None if *hit && !was => {}
                        None => break,
                    }
                }
                *hit |= step(*hit, || drop(inner))?;
            }
        }
        _ => panic!("unknown operation {op}"),
    }
    Ok(())
}

/// What the tree yields after the panic.
fn look_around<P: Pad>(r: &mut TRun<P>, allowed: &Seen, what: &str) -> Res<Seen> {
    let once = |v: &Seen, how: &str| -> Res {
        let mut s = BTreeSet::new();
        for e in v {
            ensure!(allowed.contains(e), "{what}: {how} yields the entry {e:?}, which was not in the tree");
            ensure!(s.insert(*e), "{what}: {how} yields the entry {e:?} twice");
        }
        Ok(())
    };
    let a: Seen = r.tree.iter().take(500).map(|(k, v)| (k.look(), v.look())).collect();
    once(&a, "iter")?;
    let b: Seen = r.tree.iter_mut().take(500).map(|(k, v)| (k.look(), v.look())).collect();
    ensure!(a == b, "{what}: iter yields {a:?} and iter_mut yields {b:?}");
    let f = r.filter(u64::MAX);
    let c: Seen = r.tree.filter_iter::<TK<P>, _>(f).take(500).map(|(k, v)| (k.look(), v.look())).collect();
    once(&c, "filter_iter")?;
    let f = TR(r.filter(u64::MAX));
    let c: Seen = r.tree.iter_asc_by(f).take(500).map(|(k, v)| (k.look(), v.look())).collect();
    once(&c, "iter_asc_by")?;
    world(|w| w.check()).map_err(|e| at(e, what))?;
    Ok(a)
}

/// All faults of one operation in one tree.
fn faults<P: Pad>(keys: &[SAABB<i32, 2>], cfg: Cfg, h: &[Op], op: &str, arg: u8, follow: &[(String, u8)]) -> Res {
    let mutates = matches!(op, "i" | "u" | "r" | "d");
    let joins = op.contains("join");
    let mut calls: Option<u64> = None;
    let mut names: Vec<&'static str> = vec![];
    let mut n = 0;
    while calls.map_or(true, |c| n <= c) {
        world(|w| w.reset());
        calloc::start();
        let what = format!("{op}{arg}, callback {n}");
        let r = guarded(|| {
            let mut r = TRun::<P>::build(keys, cfg, h)?;
            // the other side of joins has another configuration and half of the keys
            let other = TRun::<P>::build(keys, (3, 1), if joins { &h[..(h.len() + 1) / 2] } else { &[] })?;
            let before = format!("{:?}", r.tree);
            let mut allowed: Seen = r.model.clone();
            if mutates {
                allowed.push((arg, 1000));
            }
            let mut seen = vec![];
            let mut hit = false;
            if n == 0 {
                world(|w| w.record());
            }
            world(|w| w.arm(n));
            operation(&mut r, &other, op, arg, &mut seen, &mut hit)?;
            let c = world(|w| w.calls());
            world(|w| w.arm(0));
            world(|w| w.check()).map_err(|e| at(e, &what))?;
            OPS.fetch_add(1, Relaxed);
            if n == 0 {
                names = world(|w| w.recorded());
                calls = Some(c);
            } else {
                if !hit {
                    return Err(Fail::Engine(format!("{what}: the callback was not reached")));
                }
                FAULTS.fetch_add(1, Relaxed);
            }
            for (i, e) in seen.iter().enumerate() {
                ensure!(allowed.contains(e), "{what}: yielded {e:?}, which was not in the tree");
                ensure!(!seen[..i].contains(e), "{what}: yielded {e:?} twice");
            }
            if !mutates {
                let after = format!("{:?}", r.tree);
                ensure!(before == after, "{what}: the tree was\n{before}\nand is\n{after}");
            }
            let mut present = look_around(&mut r, &allowed, &what)?;
            if !mutates {
                let mut a = present.clone();
                let mut b = r.model.clone();
                a.sort();
                b.sort();
                ensure!(a == b, "{what}: the tree had {b:?} and has {a:?}");
            }
            if mutates {
                // what was taken out of the tree by a panic never comes back, and
                // later operations find a tree whose memory is sound
                for (j, (fop, farg)) in follow.iter().enumerate() {
                    let mut hit = true;
                    let mut seen = vec![];
                    operation(&mut r, &other, fop, *farg, &mut seen, &mut hit)?;
                    let what = format!("{what}, then {fop}{farg}");
                    world(|w| w.check()).map_err(|e| at(e, &what))?;
                    if fop == "i" || fop == "u" {
                        present.push((*farg, 1000));
                    }
                    // values that are stored later are not distinguished
                    let ids: BTreeSet<_> = r.tree.iter().take(500).map(|(k, v)| (k as *const _ as usize, v as *const _ as usize)).collect();
                    let now: Seen = r.tree.iter().take(500).map(|(k, v)| (k.look(), v.look())).collect();
                    ensure!(ids.len() == now.len(), "{what}: an entry is yielded twice: {now:?}");
                    for e in &now {
                        ensure!(present.contains(e), "{what}: yields {e:?}, which was not in the tree");
                        ensure!(e.1 == 1000 || now.iter().filter(|x| *x == e).count() == 1, "{what}: yields {e:?} twice");
                    }
                    world(|w| w.check()).map_err(|e| at(e, &what))?;
                    LATER.fetch_add(1, Relaxed);
                    if j % 2 == 1 {
                        // a copy is as good as the tree
                        let mut c = None;
                        step(true, || c = Some(r.tree.clone()))?;
                        drop(c);
                        world(|w| w.check()).map_err(|e| at(e, &what))?;
                    }
                }
            }
            drop(r);
            drop(other);
            world(|w| w.check()).map_err(|e| at(e, &format!("{what}, and dropped")))
        });
        let (e, _, _) = calloc::end();
        r?;
        ensure!(e == 0, "{what}: {}", calloc::error_text(e));
        n += 1;
        // what the other callbacks do is decided elsewhere
        while DROPS.load(Relaxed) && names.get(n as usize - 1).is_some_and(|s| !s.ends_with("drop")) {
            n += 1;
        }
    }
    let mut k = KINDS.lock().unwrap();
    for n in names.into_iter().filter(|n| !DROPS.load(Relaxed) || n.ends_with("drop")) {
        *k.entry(format!("{} in {}", n, if mutates { "an insertion or removal" } else { op.trim_end_matches(char::is_numeric) })).or_insert(0) += 1;
    }
    Ok(())
}

fn menu(nk: usize, queries: bool) -> Vec<(String, u8)> {
    let mut v = vec![];
    for k in 0..nk as u8 {
        for o in ["i", "u", "r"] {
            v.push((o.to_string(), k));
        }
    }
    if queries {
        v.push(("d".to_string(), 0));
        for q in QUERIES {
            v.push((q.to_string(), 0));
            if !matches!(q, "clone" | "iter") {
                v.push((q.to_string(), 1));
            }
        }
    }
    v
}

pub fn one(c: &Case, _: Tier) -> Res {
    if c.get("O").is_empty() {
        return replay::<Bi2>(c, &|_, _, _| Ok(()));
    }
    let keys = tkeys(c.get("A"));
    let (cfg, h) = (parse_cfg(c.get("C")), parse_hist(c.get("H")));
    let follow: Vec<(String, u8)> = c
        .get("F")
        .split(',')
        .filter(|s| s.len() > 1)
        .map(|s| (s[..1].to_string(), s[1..].parse().unwrap()))
        .collect();
    match c.get("P") {
        "plain" => faults::<()>(&keys, cfg, &h, c.get("O"), c.num("N"), &follow),
        "aligned" => faults::<Aligned>(&keys, cfg, &h, c.get("O"), c.num("N"), &follow),
        "big" => faults::<Big>(&keys, cfg, &h, c.get("O"), c.num("N"), &follow),
        _ => panic!("unknown padding"),
    }
}

fn go(ctx: &Ctx, pad: &str, alpha: &str, nk: usize, specs: &[Spec], follows: &[&str]) {
    let mut cases = vec![];
    for s in specs {
        for (op, arg) in menu(nk, true) {
            let mutates = op.len() == 1;
            for f in if mutates { follows } else { &follows[..1] } {
                cases.push(format!("P={pad} A={alpha} C={} H={} O={op} N={arg} F={f}", fmt_cfg(s.cfg), fmt_hist(&s.hist)));
            }
        }
    }
    if let Some(c) = cases.last() {
        ctx.sample(c);
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    ctx.add("operations_in_trees", cases.len() as u64);
}

pub fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    let some = [(2, 1), (3, 1), (4, 2)];
    let follows = ["i0,r1,r0,u1,i2", "r0,r1,r2,i1,i1", "u2,i0,i0,r2,r0"];
    let v = reachable::<Bi2>(ctx, "mix", 3, "ir", ctx.qt(5, 6), 8, &some);
    go(ctx, "plain", "mix", 3, &v, &follows[..ctx.qt(1, 3)]);
    let v = reachable::<Bi2>(ctx, "far", 3, "iur", ctx.qt(4, 5), 8, &some);
    go(ctx, "big", "far", 3, &v, &follows[1..]);
    for (shape, n) in [("scat:12", 12), ("over:14", 14), ("cross:20", 20)] {
        let a = Alpha::<Bi2>::new(shape);
        let mut hs = vec![];
        for up in scripts(a.len(), n.min(a.len()), 'i').into_iter().take(ctx.qt(1, 4)) {
            for dn in if t { &["asc", "mid"][..] } else { &["mid"] } {
                hs.push(drain(&up, dn, a.len()));
            }
        }
        let hs: Vec<_> = prefixes(&hs).into_iter().filter(|h| t || h.len() % 3 == 1).collect();
        for &cfg in if t { &SMALL[..] } else { &some[..2] } {
            let mut s = Search::new(ctx, &a, cfg);
            s.seeds(&hs, &|_, _, _| Ok(()));
            let specs: Vec<Spec> = s.states.iter().map(|s| Spec { cfg, hist: s.hist.clone(), height: s.height, n: s.n }).collect();
            go(ctx, if n == 12 { "aligned" } else { "plain" }, shape, ctx.qt(3, 6), &specs, &follows[..1]);
        }
    }
    ctx.add("evaluations", OPS.load(Relaxed));
    ctx.add("distinct_nontrivial", FAULTS.load(Relaxed));
    ctx.add("operations_after_a_panic", LATER.load(Relaxed));
    ctx.add("later_operations_that_panicked_in_the_library", LIBRARY.load(Relaxed));
    let k = KINDS.lock().unwrap();
    ctx.add("fault_sites_by_callback_and_operation", k.len() as u64);
    ctx.note(
        "rule",
        "evaluations: executions of an operation on a tree rebuilt for it, one of them without a fault and one for each callback that the operation makes; \
         distinct_nontrivial: the executions in which that callback was reached and panicked, each with a different tree, operation, or callback",
    );
    ctx.note("explanation", "callbacks that panicked: ".to_string() + &k.keys().cloned().collect::<Vec<_>>().join("; "));
    ctx.note("assume1", "one callback panics per operation; the debug output and the destructors of user types do not panic; memory may be leaked");
}

fn main() {
    rtree_mc::main_for("C12", "fault_enumeration", run, one)
}
