//! C35: user code may use trees and iterators while the library calls it.
//!
//! For every tree of a family and every operation, each callback that the
//! operation makes runs another operation: on another tree, on the same tree if
//! the operation only reads, or on other iterators, down to the inner iterators
//! of the left join that is being stepped.
use rtree_mc::calloc;
use rtree_mc::prelude::*;
use rtree_mc::tracked::*;
use rusty_rtree::bounds::SAABB;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

#[cfg(not(feature = "plain"))]
#[global_allocator]
static GLOBAL: calloc::Checked = calloc::Checked;

static RUNS: AtomicU64 = AtomicU64::new(0);
static NESTED: AtomicU64 = AtomicU64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static KINDS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

type Seen = Vec<(u8, u32)>;
const READS: [&str; 11] = ["get0", "get1", "iter", "filter", "asc", "fasc", "min", "fmin", "join", "ljoin", "clone"];
const MASK: u64 = 0b1011_0110_1101_1010_1101;

/// A query, run to its end.
fn read<P: Pad>(r: &TRun<P>, other: &TTree<P>, op: &str) -> Seen {
    let mut out = vec![];
    let look = |(k, v): (&TK<P>, &TV<P>)| (k.look(), v.look());
    match op {
        "get0" | "get1" => {
            let k = r.key(op.as_bytes()[3] - b'0');
            out.extend(r.tree.get(&k).map(|v| (k.k, v.look())));
        }
        "iter" => out.extend(r.tree.iter().map(look)),
        "filter" => out.extend(r.tree.filter_iter::<TK<P>, _>(r.filter(MASK)).map(look)),
        "asc" => out.extend(r.tree.iter_asc_by(TR(r.filter(u64::MAX))).map(look)),
        "fasc" => out.extend(r.tree.filter_iter_asc_by(TO(r.filter(MASK))).map(look)),
        "min" => out.extend(r.tree.min_by(TR(r.filter(u64::MAX))).map(look)),
        "fmin" => out.extend(r.tree.filter_min_by(TO(r.filter(MASK))).map(look)),
        "join" => {
            for (a, b) in r.tree.join::<_, _, _, TK<P>, TK<P>, _>(other, r.filter(u64::MAX)) {
                out.push((a.0.look(), a.1.look()));
                out.push((b.0.look(), b.1.look()));
            }
        }
        "ljoin" => {
            for (a, inner) in r.tree.left_join::<_, _, _, TK<P>, TK<P>, _>(other, r.filter(u64::MAX)) {
                out.push(look(a));
                out.extend(inner.map(look));
            }
        }
        "clone" => {
            let c = r.tree.clone();
            out.extend(c.iter().map(look));
        }
        _ => panic!("unknown query {op}"),
    }
    out
}

/// An operation that needs the tree for itself.
fn write<P: Pad>(r: &mut TRun<P>, op: &str) -> Seen {
    let mut out = vec![];
    let arg = op.as_bytes()[1].wrapping_sub(b'0');
    let look = |(k, v): (&TK<P>, &mut TV<P>)| (k.look(), v.look());
    match op {
        "i0" | "i1" | "i2" => r.tree.insert(r.key(arg), TV::new(500)),
        "u0" | "u1" | "u2" => out.extend(r.tree.insert_unique(r.key(arg), TV::new(600)).map(|v| (arg, v.look()))),
        "r0" | "r1" | "r2" => out.extend(r.tree.remove::<TK<P>>(&r.key(arg)).map(|v| (arg, v.look()))),
        "drop" => drop(std::mem::replace(&mut r.tree, RTree::new(RTreeConfig { max_children: 2, min_children: 1 }))),
        "replace" => {
            let c = r.tree.clone();
            r.tree = c;
        }
        "getmut" => out.extend(r.tree.get_mut(&r.key(1)).map(|v| (1, v.look()))),
        "itermut" => out.extend(r.tree.iter_mut().map(look)),
        "filtermut" => {
            let f = r.filter(MASK);
            out.extend(r.tree.filter_iter_mut::<TK<P>, _>(f).map(look))
        }
        "ascmut" => {
            let f = TR(r.filter(u64::MAX));
            out.extend(r.tree.iter_asc_by_mut(f).map(look))
        }
        "fascmut" => {
            let f = TO(r.filter(MASK));
            out.extend(r.tree.filter_iter_asc_by_mut(f).map(look))
        }
        "minmut" => {
            let f = TR(r.filter(u64::MAX));
            out.extend(r.tree.min_by_mut(f).map(look))
        }
        "fminmut" => {
            let f = TO(r.filter(MASK));
            out.extend(r.tree.filter_min_by_mut(f).map(look))
        }
        _ => panic!("unknown operation {op}"),
    }
    out
}

const WRITES: [&str; 17] = [
    "i0", "i1", "i2", "u0", "u1", "u2", "r0", "r1", "r2", "drop", "replace", "getmut", "filtermut", "ascmut", "fascmut", "minmut", "fminmut",
];
/// what is done to the other tree within a callback
const NEST: [&str; 13] = ["i0", "i1", "u1", "r0", "r1", "drop", "replace", "fascmut", "filter", "asc", "join", "ljoin", "get1"];
/// what is done to the same tree
const SAME: [&str; 7] = ["get0", "filter", "asc", "fasc", "join", "ljoin", "clone"];

fn any<P: Pad>(r: &mut TRun<P>, op: &str) -> Seen {
    if READS.contains(&op) {
        let this: &TRun<P> = r;
        read(this, &this.tree, op)
    } else {
        write(r, op)
    }
}

fn session<R>(what: &str, body: impl FnOnce() -> Res<R>) -> Res<R> {
    world(|w| w.reset());
    calloc::start();
    let r = guarded(body);
    let (e, _, _) = calloc::end();
    let r = r.map_err(|e| at(e, what))?;
    world(|w| w.check()).map_err(|e| at(e, what))?;
    ensure!(e == 0, "{what}: {}", calloc::error_text(e));
    Ok(r)
}

type Outcome = (Seen, String);

/// All nestings in one operation on one tree.
fn nest<P: Pad>(keys: &[SAABB<i32, 2>], cfg: Cfg, h: &[Op], hb: &[Op], op: &str) -> Res {
    let reads = READS.contains(&op);
    let drops = !reads;
    // what the operation does on its own, and what the nested ones do
    let mut alone: BTreeMap<&str, Outcome> = BTreeMap::new();
    let mut names: Vec<&'static str> = vec![];
    let (main, calls) = session(op, || {
        let mut a = TRun::<P>::build(keys, cfg, h)?;
        let b = TRun::<P>::build(keys, (2, 1), hb)?;
        world(|w| w.record());
        world(|w| w.arm(0));
        world(|w| w.drops.set(drops));
        let seen = if reads { read(&a, &b.tree, op) } else { write(&mut a, op) };
        world(|w| w.drops.set(false));
        names = world(|w| w.recorded());
        Ok(((seen, format!("{:?}", a.tree)), world(|w| w.calls())))
    })?;
    for n in NEST {
        let o = session(n, || {
            let mut b = TRun::<P>::build(keys, (2, 1), hb)?;
            let seen = any(&mut b, n);
            Ok((seen, format!("{:?}", b.tree)))
        })?;
        alone.insert(n, o);
    }
    let same: BTreeMap<&str, Seen> = if reads {
        session("alone", || {
            let a = TRun::<P>::build(keys, cfg, h)?;
            Ok(SAME.iter().map(|&n| (n, read(&a, &a.tree, n))).collect())
        })?
    } else {
        BTreeMap::new()
    };
    for at in 0..=calls {
        for i in 0..NEST.len() + if reads { SAME.len() } else { 0 } {
            if at == 0 && i > 0 && i != NEST.len() {
                continue;
            }
            let what = || {
                let n = if i < NEST.len() { NEST[i] } else { SAME[i - NEST.len()] };
                let name = if at == 0 { "all callbacks" } else { names[at as usize - 1] };
                format!("{op}, with {n} of {} within {name} ({at})", if i < NEST.len() { "another tree" } else { "the same tree" })
            };
            let r = session("", || {
                let mut a = TRun::<P>::build(keys, cfg, h)?;
                let b = TRun::<P>::build(keys, (2, 1), hb)?;
                // joins are with a tree that nested operations leave alone
                let shared = TRun::<P>::build(keys, (2, 1), if op.contains("join") { hb } else { &[] })?;
                let b = RefCell::new(b);
                let bad = RefCell::new(None::<String>);
                let count = Cell::new(0usize);
                // while a tree is read, others may read it
                let ap: *const TRun<P> = &a;
                let mut hook = || {
                    let was = world(|w| w.drops.replace(false));
                    let c = count.get();
                    count.set(c + 1);
                    let note = |m: String| {
                        let mut s = bad.borrow_mut();
                        if s.is_none() {
                            *s = Some(m)
                        }
                    };
                    if i < NEST.len() {
                        if at == 0 {
                            // a tree of its own each time
                            let n = NEST[c % NEST.len()];
                            if let Ok(mut b) = TRun::<P>::build(keys, (2, 1), hb) {
                                let seen = any(&mut b, n);
                                if seen != alone[n].0 {
                                    note(format!("the nested {n} gave {seen:?}, and gives {:?} elsewhere", alone[n].0));
                                }
                            }
                        } else {
                            let n = NEST[i];
                            let seen = any(&mut *b.borrow_mut(), n);
                            if seen != alone[n].0 {
                                note(format!("the nested {n} gave {seen:?}, and gives {:?} elsewhere", alone[n].0));
                            }
                        }
                    } else {
                        let n = SAME[if at == 0 { c % SAME.len() } else { i - NEST.len() }];
                        let a = unsafe { &*ap };
                        let seen = read(a, &a.tree, n);
                        if seen != same[n] {
                            note(format!("the nested {n} gave {seen:?}, and gives {:?} elsewhere", same[n]));
                        }
                    }
                    world(|w| w.drops.set(was));
                };
                let seen = world(|w| {
                    w.drops.set(drops);
                    let r = w.within(at, &mut hook, || if reads { read(unsafe { &*ap }, &shared.tree, op) } else { write(&mut a, op) });
                    w.drops.set(false);
                    r
                });
                if count.get() == 0 && calls > 0 {
                    return Err(Fail::Engine("the callback was not reached".to_string()));
                }
                if let Some(m) = bad.borrow_mut().take() {
                    viol!("{m}");
                }
                ensure!(seen == main.0, "gave {seen:?}, and gives {:?} elsewhere", main.0);
                let d = format!("{:?}", a.tree);
                ensure!(d == main.1, "left the tree\n{d}\nand leaves it as\n{}\nelsewhere", main.1);
                if i < NEST.len() && at > 0 {
                    let d = format!("{:?}", b.borrow().tree);
                    let x = &alone[NEST[i]].1;
                    ensure!(d == *x, "the nested operation left its tree\n{d}\nand leaves it as\n{x}\nelsewhere");
                }
                NESTED.fetch_add(count.get() as u64, Relaxed);
                Ok(())
            });
            r.map_err(|e| rtree_mc::tracked::at(e, &what()))?;
            RUNS.fetch_add(1, Relaxed);
        }
    }
    let mut k = KINDS.lock().unwrap();
    for n in names.into_iter().collect::<BTreeSet<_>>() {
        *k.entry(format!("{n} in {}", op.trim_end_matches(char::is_numeric))).or_insert(0) += 1;
    }
    Ok(())
}

// ------------------------------------------------------------ iterators

type It<'a> = Box<dyn Iterator<Item = (u8, u32)> + 'a>;
type Lj<'a> = Box<dyn FnMut() -> Option<((u8, u32), It<'a>)> + 'a>;

/// Iterators that are stepped from outside and from within callbacks of each
/// other. One that is being stepped is not there.
#[derive(Default)]
struct Slots<'a> {
    l: RefCell<Option<Lj<'a>>>,
    inn: RefCell<Vec<Option<It<'a>>>>,
    g: RefCell<Option<It<'a>>>,
    lout: RefCell<Seen>,
    iout: RefCell<Vec<Seen>>,
    gout: RefCell<Seen>,
    lend: Cell<bool>,
    gend: Cell<bool>,
    /// inner iterators that are finished
    iend: RefCell<Vec<bool>>,
}
impl<'a> Slots<'a> {
    fn step_l(&self) -> bool {
        let Some(mut l) = self.l.borrow_mut().take() else { return false };
        let e = l();
        STEPS.fetch_add(1, Relaxed);
        match e {
            Some((e, inner)) => {
                self.lout.borrow_mut().push(e);
                self.iout.borrow_mut().push(vec![]);
                self.iend.borrow_mut().push(false);
                self.inn.borrow_mut().push(Some(inner));
            }
            None => self.lend.set(true),
        }
        *self.l.borrow_mut() = Some(l);
        true
    }
    fn step_i(&self, j: usize) -> bool {
        let it = self.inn.borrow_mut().get_mut(j).and_then(|s| s.take());
        let Some(mut it) = it else { return false };
        let e = it.next();
        STEPS.fetch_add(1, Relaxed);
        match e {
            Some(e) => self.iout.borrow_mut()[j].push(e),
            None => self.iend.borrow_mut()[j] = true,
        }
        self.inn.borrow_mut()[j] = Some(it);
        true
    }
    fn step_g(&self) -> bool {
        let Some(mut g) = self.g.borrow_mut().take() else { return false };
        let e = g.next();
        STEPS.fetch_add(1, Relaxed);
        match e {
            Some(e) => self.gout.borrow_mut().push(e),
            None => self.gend.set(true),
        }
        *self.g.borrow_mut() = Some(g);
        true
    }
    /// An action within a callback. Returns whether it was possible.
    fn act(&self, what: &str) -> bool {
        let n = self.inn.borrow().len();
        match what {
            "step outer" => self.step_l(),
            "step the last" => n > 0 && self.step_i(n - 1),
            "step the one before" => n > 1 && self.step_i(n - 2),
            "step the first" => n > 2 && self.step_i(0),
            "step another" => self.step_g(),
            "drop outer" => self.l.borrow_mut().take().is_some(),
            "drop the last" => n > 0 && self.drop_i(n - 1),
            "drop the one before" => n > 1 && self.drop_i(n - 2),
            "drop the first" => n > 2 && self.drop_i(0),
            "drop another" => {
                let g = self.g.borrow_mut().take();
                g.is_some()
            }
            "drop all inner" => (0..n).fold(false, |a, j| self.drop_i(j) | a),
            _ => panic!("unknown action {what}"),
        }
    }
    fn drop_i(&self, j: usize) -> bool {
        // dropped when the slot is not borrowed any more
        let it = self.inn.borrow_mut()[j].take();
        it.is_some()
    }
    fn made(&self) -> usize {
        self.inn.borrow().len()
    }
    fn on(&self, j: usize) -> bool {
        !self.iend.borrow()[j]
    }
    fn run(&self, way: u8) {
        match way {
            // each inner iterator to its end, then the next
            0 => {
                while !self.lend.get() && self.step_l() {
                    let j = self.made();
                    if j > 0 {
                        while self.on(j - 1) && self.step_i(j - 1) {}
                    }
                    if !self.gend.get() {
                        self.step_g();
                    }
                }
            }
            // inner iterators are kept
            1 => while !self.lend.get() && self.step_l() {},
            // one step each
            _ => loop {
                let mut on = !self.lend.get() && self.step_l();
                for j in 0..self.made() {
                    if self.on(j) {
                        on |= self.step_i(j);
                    }
                }
                if !self.gend.get() {
                    on |= self.step_g();
                }
                if !on {
                    break;
                }
            },
        }
        // the rest
        while !self.lend.get() && self.step_l() {}
        let mut j = 0;
        while j < self.made() {
            while self.on(j) && self.step_i(j) {}
            j += 1;
        }
        while !self.gend.get() && self.step_g() {}
    }
}

const ACTS: [&str; 11] = [
    "step outer", "step the last", "step the one before", "step the first", "step another", "drop outer", "drop the last",
    "drop the one before", "drop the first", "drop another", "drop all inner",
];

fn slots<'a, P: Pad>(a: &'a TRun<P>, b: &'a TRun<P>, kind: &str) -> Slots<'a> {
    let look = |(k, v): (&TK<P>, &TV<P>)| (k.look(), v.look());
    let s = Slots::default();
    let mut l = a.tree.left_join::<_, _, _, TK<P>, TK<P>, _>(&b.tree, a.filter(u64::MAX));
    *s.l.borrow_mut() = Some(Box::new(move || l.next().map(|(x, inner)| (look(x), Box::new(inner.map(look)) as It<'a>))));
    *s.g.borrow_mut() = Some(match kind {
        "iter" => Box::new(b.tree.iter().map(look)),
        "filter" => Box::new(b.tree.filter_iter::<TK<P>, _>(a.filter(MASK)).map(look)),
        "asc" => Box::new(b.tree.iter_asc_by(TR(a.filter(u64::MAX))).map(look)),
        "fasc" => Box::new(a.tree.filter_iter_asc_by(TO(a.filter(MASK))).map(look)),
        "join" => Box::new(b.tree.join::<_, _, _, TK<P>, TK<P>, _>(&a.tree, a.filter(u64::MAX)).map(move |(x, y)| {
            (x.0.look() * 16 + y.0.look(), x.1.look() * 1000 + y.1.look())
        })),
        _ => panic!("unknown kind {kind}"),
    });
    s
}

fn steps<P: Pad>(keys: &[SAABB<i32, 2>], cfg: Cfg, h: &[Op], hb: &[Op], kind: &str, way: u8) -> Res {
    let mut names: Vec<&'static str> = vec![];
    let (lout, iout, gout, calls) = session("alone", || {
        let a = TRun::<P>::build(keys, cfg, h)?;
        let b = TRun::<P>::build(keys, (2, 1), hb)?;
        let s = slots(&a, &b, kind);
        world(|w| w.record());
        world(|w| w.arm(0));
        s.run(way);
        names = world(|w| w.recorded());
        let (l, i, g) = (s.lout.take(), s.iout.take(), s.gout.take());
        Ok((l, i, g, world(|w| w.calls())))
    })?;
    let prefix = |what: &str, x: &Seen, y: &Seen, whole: bool| -> Res {
        ensure!(
            y.starts_with(x) && (!whole || x.len() == y.len()),
            "{what} yielded {x:?}, and yields {y:?} elsewhere"
        );
        Ok(())
    };
    for at in 0..=calls {
        for (i, act) in ACTS.iter().enumerate() {
            if at == 0 && act.starts_with("drop") {
                continue;
            }
            let r = session("", || {
                let a = TRun::<P>::build(keys, cfg, h)?;
                let b = TRun::<P>::build(keys, (2, 1), hb)?;
                let before = (format!("{:?}", a.tree), format!("{:?}", b.tree));
                let s = slots(&a, &b, kind);
                let done = Cell::new(0);
                let mut hook = || {
                    if s.act(act) {
                        done.set(done.get() + 1);
                    }
                };
                world(|w| w.within(at, &mut hook, || s.run(way)));
                // what was dropped has given a part only
                let l = s.l.borrow().is_some();
                prefix("the left join", &s.lout.borrow(), &lout, l)?;
                for (j, x) in s.iout.borrow().iter().enumerate() {
                    prefix("an inner iterator", x, &iout[j], s.inn.borrow()[j].is_some())?;
                }
                prefix("the other iterator", &s.gout.borrow(), &gout, s.g.borrow().is_some())?;
                ensure!(before == (format!("{:?}", a.tree), format!("{:?}", b.tree)), "the tree has changed");
                NESTED.fetch_add(done.get(), Relaxed);
                Ok(())
            });
            r.map_err(|e| {
                let name = if at == 0 { "all callbacks" } else { names[at as usize - 1] };
                rtree_mc::tracked::at(e, &format!("left join in way {way} with {kind}, and '{}' within {name} ({at})", ACTS[i]))
            })?;
            RUNS.fetch_add(1, Relaxed);
        }
    }
    Ok(())
}

pub fn one(c: &Case, _: Tier) -> Res {
    if c.get("O").is_empty() {
        return replay::<Bi2>(c, &|_, _, _| Ok(()));
    }
    let keys = tkeys(c.get("A"));
    let (cfg, h, hb) = (parse_cfg(c.get("C")), parse_hist(c.get("H")), parse_hist(c.get("G")));
    match (c.get("O"), c.get("P")) {
        ("steps", "plain") => steps::<()>(&keys, cfg, &h, &hb, c.get("K"), c.num("W")),
        ("steps", "big") => steps::<Big>(&keys, cfg, &h, &hb, c.get("K"), c.num("W")),
        (o, "plain") => nest::<()>(&keys, cfg, &h, &hb, o),
        (o, "big") => nest::<Big>(&keys, cfg, &h, &hb, o),
        _ => panic!("unknown padding"),
    }
}

fn go(ctx: &Ctx, pad: &str, alpha: &str, specs: &[Spec], others: &[Spec], part: &str) {
    let mut cases = vec![];
    let ops: Vec<&str> = READS.iter().chain(&WRITES).copied().collect();
    for (n, s) in specs.iter().enumerate() {
        let hist = fmt_hist(&s.hist);
        match part {
            "nest" => {
                // each tree with one of the others
                let o = &others[n % others.len()];
                for op in &ops {
                    cases.push(format!("P={pad} A={alpha} C={} H={hist} G={} O={op}", fmt_cfg(s.cfg), fmt_hist(&o.hist)));
                }
            }
            _ => {
                for o in others {
                    for (k, kind) in ["iter", "filter", "asc", "fasc", "join"].into_iter().enumerate() {
                        let way = (n + k) % 3;
                        cases.push(format!("P={pad} A={alpha} C={} H={hist} G={} O=steps K={kind} W={way}", fmt_cfg(s.cfg), fmt_hist(&o.hist)));
                    }
                }
            }
        }
    }
    if let Some(c) = cases.last() {
        ctx.sample(c);
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    ctx.add("operations_in_trees", cases.len() as u64);
}

/// States along growing and draining histories.
fn some(ctx: &Ctx, alpha: &str, n: usize, cfg: Cfg, ways: usize, every: usize) -> Vec<Spec> {
    let a = Alpha::<Bi2>::new(alpha);
    let mut hs = vec![];
    for up in scripts(a.len(), n.min(a.len()), 'i').into_iter().take(ways) {
        hs.push(drain(&up, "mid", a.len()));
    }
    let hs: Vec<_> = prefixes(&hs).into_iter().filter(|h| h.len() % every == 1 % every).collect();
    let mut s = Search::new(ctx, &a, cfg);
    s.seeds(&hs, &|_, _, _| Ok(()));
    s.states.iter().map(|s| Spec { cfg, hist: s.hist.clone(), height: s.height, n: s.n }).collect()
}

pub fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    let cfgs = [(4, 2), (2, 1), (3, 1)];
    let v = reachable::<Bi2>(ctx, "mix", 3, "ir", ctx.qt(3, 5), 8, &cfgs[..ctx.qt(2, 3)]);
    let others = some(ctx, "mix", 7, (2, 1), 1, ctx.qt(3, 1));
    go(ctx, "plain", "mix", &v, &others, "nest");
    go(ctx, "plain", "mix", &v, &others, "steps");
    let v = reachable::<Bi2>(ctx, "far", 3, "iur", ctx.qt(2, 4), 8, &cfgs);
    go(ctx, "big", "far", &v, &others, "nest");
    for (shape, n) in [("scat:10", 10), ("over:9", 9)] {
        let others = some(ctx, shape, ctx.qt(5, 7), (2, 1), 1, 3);
        for &cfg in &cfgs[..ctx.qt(2, 3)] {
            let v = some(ctx, shape, n, cfg, ctx.qt(1, 4), if t { 1 } else { 4 });
            go(ctx, if n == 10 { "plain" } else { "big" }, shape, &v, &others, "nest");
            go(ctx, "plain", shape, &v, &others[others.len() / 2..], "steps");
        }
    }
    ctx.add("evaluations", RUNS.load(Relaxed));
    ctx.add("distinct_nontrivial", NESTED.load(Relaxed));
    ctx.add("steps_of_iterators", STEPS.load(Relaxed));
    let k = KINDS.lock().unwrap();
    ctx.add("callbacks_by_kind_and_operation", k.len() as u64);
    ctx.note(
        "rule",
        "evaluations: executions of an operation or program of steps in whose callbacks another operation was run; \
         distinct_nontrivial: operations that were run within a callback and were possible there",
    );
    ctx.note("explanation", "callbacks that were used: ".to_string() + &k.keys().cloned().collect::<Vec<_>>().join("; "));
    ctx.note("assume1", "operations are nested one deep: callbacks of nested operations use nothing themselves");
}

fn main() {
    rtree_mc::main_for("C35", "exhaustive_nesting", run, one)
}
