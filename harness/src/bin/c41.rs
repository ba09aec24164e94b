//! C41: the Debug output shows the tree as it is.
//!
//! Keys, values and bounds write marks and log how they were asked to be
//! formatted, writers fail at each of their bytes, and formatting fails or
//! panics at each object.
use rtree_mc::calloc::untracked;
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{Bounded, Bounds, Volume, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::RTreeConfig;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt::{self, Debug, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    B([i32; 4]),
    K(u32),
    V(u32),
}

/// How an object was asked to be formatted.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct Flags(bool, Option<usize>, Option<usize>, char, bool, bool);
fn flags(f: &fmt::Formatter) -> Flags {
    Flags(f.alternate(), f.width(), f.precision(), f.fill(), f.sign_plus(), f.sign_aware_zero_pad())
}

thread_local! {
    static LOG: RefCell<Vec<(Ev, Flags)>> = const { RefCell::new(vec![]) };
    /// which call fails, and whether it panics
    static FUSE: Cell<(usize, bool)> = const { Cell::new((usize::MAX, false)) };
}
fn show(f: &mut fmt::Formatter, e: Ev) -> fmt::Result {
    let n = untracked(|| {
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            l.push((e, flags(f)));
            l.len() - 1
        })
    });
    let (at, panics) = FUSE.with(|f| f.get());
    if n == at {
        if panics {
            std::panic::panic_any(rtree_mc::engine::Injected);
        }
        return Err(fmt::Error);
    }
    // marks that nobody else writes
    match e {
        Ev::B(b) => write!(f, "<b{},{},{},{}>", b[0], b[1], b[2], b[3]),
        Ev::K(k) => write!(f, "<k{k}>"),
        Ev::V(v) => write!(f, "<v{v}>"),
    }
}

type I = SAABB<i32, 2>;
#[derive(Clone, PartialEq)]
struct DB(I);
fn quad(b: &I) -> [i32; 4] {
    [b.min[0], b.min[1], b.max[0], b.max[1]]
}
impl Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        show(f, Ev::B(quad(&self.0)))
    }
}
impl Contains<DB> for DB {
    fn contains(&self, o: &DB) -> bool {
        self.0.contains(&o.0)
    }
}
impl Intersects<DB> for DB {
    fn intersects(&self, o: &DB) -> bool {
        self.0.intersects(&o.0)
    }
}
impl Bounds for DB {
    fn empty() -> DB {
        DB(I::empty())
    }
    fn union(a: &DB, b: &DB) -> DB {
        DB(I::union(&a.0, &b.0))
    }
    fn union_all(i: impl IntoIterator<Item = DB>) -> DB {
        DB(I::union_all(i.into_iter().map(|b| b.0)))
    }
}
impl Volume for DB {
    fn volume(&self) -> noisy_float::types::N64 {
        self.0.volume()
    }
}
#[derive(Clone, PartialEq, Eq)]
struct DK(u32, I);
impl Debug for DK {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        show(f, Ev::K(self.0))
    }
}
impl Bounded<DB> for DK {
    fn bounds(&self) -> DB {
        DB(self.1)
    }
}
#[derive(Clone)]
struct DV(u32);
impl Debug for DV {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        show(f, Ev::V(self.0))
    }
}
type T = rusty_rtree::RTree<DB, DK, DV>;

/// A writer that accepts a number of bytes.
struct Short {
    left: usize,
    got: String,
    refused: usize,
}
impl Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.refused > 0 {
            self.refused += 1;
            return Err(fmt::Error);
        }
        if s.len() > self.left {
            self.refused += 1;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

/// What a filter that accepts everything is shown: the bounds of all nodes.
struct Shown<'a>(&'a RefCell<Vec<[i32; 4]>>);
impl SpatialFilter<DB, DK> for Shown<'_> {
    fn test_bounds(&self, b: &DB) -> bool {
        self.0.borrow_mut().push(quad(&b.0));
        true
    }
    fn test_key(&self, _: &DK) -> bool {
        true
    }
}

/// All that such a filter meets, in order.
struct Met(RefCell<Vec<(u32, [i32; 4])>>);
impl SpatialFilter<DB, DK> for &Met {
    fn test_bounds(&self, b: &DB) -> bool {
        self.0.borrow_mut().push((u32::MAX, quad(&b.0)));
        true
    }
    fn test_key(&self, k: &DK) -> bool {
        self.0.borrow_mut().push((k.0, quad(&k.1)));
        true
    }
}

static OUTPUTS: AtomicU64 = AtomicU64::new(0);
static HISTORIES: AtomicU64 = AtomicU64::new(0);
static STATES: AtomicU64 = AtomicU64::new(0);
static TRANSITIONS: AtomicU64 = AtomicU64::new(0);
static FAULTS: AtomicU64 = AtomicU64::new(0);

/// Splits an output into marks, each with the number of brackets around it.
fn marks(s: &str) -> Res<Vec<(String, usize)>> {
    let (mut v, mut depth, mut open) = (vec![], vec![], None);
    for (i, c) in s.char_indices() {
        match c {
            '<' => open = Some(i),
            '>' => {
                let Some(o) = open.take() else { viol!("not well-formed: {s}") };
                v.push((s[o..=i].to_string(), depth.len()));
            }
            _ if open.is_some() => {}
            '(' | '[' | '{' => depth.push(c),
            ')' | ']' | '}' => {
                let want = match c {
                    ')' => '(',
                    ']' => '[',
                    _ => '{',
                };
                ensure!(depth.pop() == Some(want), "brackets do not match: {s}");
            }
            _ => {}
        }
    }
    ensure!(depth.is_empty() && open.is_none(), "brackets do not match: {s}");
    Ok(v)
}

fn fmt_with(t: &T, i: usize, w: &mut dyn Write) -> (fmt::Result, Flags) {
    let f = |a, b, c, d, e, g| Flags(a, b, c, d, e, g);
    match i {
        0 => (write!(w, "{t:?}"), f(false, None, None, ' ', false, false)),
        1 => (write!(w, "{t:#?}"), f(true, None, None, ' ', false, false)),
        2 => (write!(w, "{t:7.3?}"), f(false, Some(7), Some(3), ' ', false, false)),
        3 => (write!(w, "{t:+09?}"), f(false, Some(9), None, ' ', true, true)),
        _ => (write!(w, "{t:*^#5.1?}"), f(true, Some(5), Some(1), '*', false, false)),
    }
}
fn take() -> Vec<(Ev, Flags)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

fn check(t: &T, faults: bool) -> Res {
    take();
    FUSE.with(|f| f.set((usize::MAX, false)));
    let entries: Vec<(u32, u32)> = t.iter().map(|e| (e.0 .0, e.1 .0)).collect();
    let shown = RefCell::new(vec![]);
    ensure!(t.filter_iter::<DK, _>(Shown(&shown)).count() == entries.len(), "a filter that accepts everything does not yield everything");
    let mut nodes = shown.into_inner();
    if entries.is_empty() {
        nodes = vec![quad(&I::empty())];
    }
    nodes.sort();
    let mut whole = vec![];
    for i in 0..5 {
        let mut s = String::new();
        let (r, want) = fmt_with(t, i, &mut s);
        ensure!(r.is_ok(), "formatting fails: {r:?}");
        let log = take();
        OUTPUTS.fetch_add(1, Relaxed);
        for (e, f) in &log {
            ensure!(*f == want, "{e:?} is formatted with {f:?} instead of {want:?}");
        }
        let m = marks(&s)?;
        let text: Vec<String> = log
            .iter()
            .map(|(e, _)| match e {
                Ev::B(b) => format!("<b{},{},{},{}>", b[0], b[1], b[2], b[3]),
                Ev::K(k) => format!("<k{k}>"),
                Ev::V(v) => format!("<v{v}>"),
            })
            .collect();
        let seen: Vec<&String> = m.iter().map(|x| &x.0).collect();
        ensure!(seen == text.iter().collect::<Vec<_>>(), "what is formatted is {text:?}, what is in the output is {seen:?}");
        // each entry once, in the order of iteration, key and value together
        let kv: Vec<Ev> = log.iter().map(|x| x.0).filter(|e| !matches!(e, Ev::B(_))).collect();
        let want_kv: Vec<Ev> = entries.iter().flat_map(|e| [Ev::K(e.0), Ev::V(e.1)]).collect();
        ensure!(kv == want_kv, "the entries in the output are {kv:?} instead of {want_kv:?}");
        // the bounds of each node once
        let mut b: Vec<[i32; 4]> = log.iter().filter_map(|(e, _)| if let Ev::B(b) = e { Some(*b) } else { None }).collect();
        b.sort();
        ensure!(b == nodes, "the bounds in the output are {b:?} instead of {nodes:?}");
        // all entries at the same depth
        let depths: Vec<usize> = m.iter().filter(|x| !x.0.starts_with("<b")).map(|x| x.1).collect();
        ensure!(depths.windows(2).all(|w| w[0] == w[1]), "entries are shown at different depths: {s}");
        // the same text without the layout
        if !want.0 {
            whole.push(s.clone());
            ensure!(i == 0 || numberless(&s) == numberless(&whole[0]), "formatting options change the structure: {s} instead of {}", whole[0]);
        } else {
            let flat: String = s.chars().filter(|c| !c.is_whitespace()).collect::<String>().replace(",]", "]").replace(",}", "}").replace(",)", ")");
            let base: String = whole[0].chars().filter(|c| !c.is_whitespace()).collect();
            ensure!(numberless(&flat) == numberless(&base), "the pretty form is {flat} instead of {base}");
        }
    }
    if !faults {
        return Ok(());
    }
    let full = whole[0].clone();
    // writers that fail
    for left in 0..full.len() {
        let mut w = Short { left, got: String::new(), refused: 0 };
        let (r, _) = fmt_with(t, 0, &mut w);
        FAULTS.fetch_add(1, Relaxed);
        ensure!(r.is_err(), "formatting succeeds although the writer has failed after {left} bytes");
        ensure!(full.starts_with(&w.got), "the writer has got {} before its end", w.got);
        ensure!(w.refused == 1, "the writer was used {} more times after it had failed", w.refused - 1);
        take();
    }
    // objects that fail or panic
    let calls = 2 * entries.len() + nodes.len();
    for at in 0..calls {
        for panics in [false, true] {
            FUSE.with(|f| f.set((at, panics)));
            let mut s = String::new();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fmt_with(t, 0, &mut s).0));
            FUSE.with(|f| f.set((usize::MAX, false)));
            let log = take();
            FAULTS.fetch_add(1, Relaxed);
            match r {
                Ok(r) => ensure!(r.is_err() && !panics, "formatting returns {r:?} although object {at} {}", if panics { "has panicked" } else { "has failed" }),
                Err(p) => ensure!(p.is::<rtree_mc::engine::Injected>() && panics, "formatting panics"),
            }
            ensure!(log.len() == at + 1, "{} more objects are formatted after one has failed", log.len() - at - 1);
            ensure!(full.starts_with(&s), "the output before the failure is {s} instead of the beginning of {full}");
        }
    }
    // nothing has changed
    let mut s = String::new();
    let _ = fmt_with(t, 0, &mut s);
    take();
    ensure!(s == full, "the output has changed to {s} from {full}");
    Ok(())
}
/// Without the digits outside of marks (numbers of the configuration are padded
/// if that is asked for).
fn numberless(s: &str) -> String {
    let (mut o, mut inside) = (String::new(), false);
    for c in s.chars() {
        inside = (inside || c == '<') && c != '>';
        if inside || !(c.is_ascii_digit() || " *+".contains(c)) {
            o.push(c);
        }
    }
    o
}

fn bx(b: &MBox) -> I {
    rtree_mc::variants::sb(b)
}

/// Trees along a history; values are numbers of insertions.
fn history(cfg: Cfg, alpha: &[MBox], h: &[Op], every: usize, faults: usize, seen: &mut HashSet<Vec<(u32, [i32; 4])>>) -> Res {
    let mut t: T = T::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 });
    let mut fresh = |t: &T| {
        // trees that differ in their values only are the same: the order in
        // which a filter meets bounds and keys tells the rest
        let met = Met(RefCell::new(vec![]));
        t.filter_iter::<DK, _>(&met).for_each(drop);
        let new = seen.insert(met.0.into_inner());
        STATES.fetch_add(new as u64, Relaxed);
        new
    };
    if fresh(&t) {
        check(&t, true)?;
    }
    for (i, op) in h.iter().enumerate() {
        match *op {
            Op::Ins(k) => t.insert(DK(k as u32, bx(&alpha[k as usize])), DV(i as u32)),
            Op::Uni(k) => drop(t.insert_unique(DK(k as u32, bx(&alpha[k as usize])), DV(i as u32))),
            Op::Rem(k) => drop(t.remove(&DK(k as u32, bx(&alpha[k as usize])))),
            Op::Clo => t = t.clone(),
            Op::Mut => {}
        }
        TRANSITIONS.fetch_add(1, Relaxed);
        if i % every == 0 && fresh(&t) {
            check(&t, t.len() <= faults)?;
        }
    }
    HISTORIES.fetch_add(1, Relaxed);
    Ok(())
}

const CFGS: [Cfg; 5] = [(2, 1), (3, 1), (4, 2), (7, 3), (17, 8)];

/// A case: histories of all sequences of inserted and removed keys of some
/// length with a prefix, or a script.
fn one(c: &Case, _: Tier) -> Res {
    let cfg: Cfg = (c.num("M"), c.num("m"));
    let name = c.get("A");
    if name.is_empty() {
        panic!("no alphabet");
    }
    let a = Alpha::<Bi2>::new(name);
    let n = a.len();
    match c.get("S") {
        "all" => {
            // each sequence of L operations over the first keys, beginning with F
            let mut seen = HashSet::new();
            let l: usize = c.num("L");
            let menu = op_menu(n.min(4), "iur");
            let mut h = vec![menu[c.num::<usize>("F")]; l];
            let mut idx = vec![0usize; l];
            loop {
                for i in 1..l {
                    h[i] = menu[idx[i]];
                }
                history(cfg, &a.boxes, &h, l - 1, 8, &mut seen)?;
                let mut i = l - 1;
                while i > 0 && idx[i] == menu.len() - 1 {
                    idx[i] = 0;
                    i -= 1;
                }
                if i == 0 {
                    return Ok(());
                }
                idx[i] += 1;
            }
        }
        s => {
            let o = order(s, n);
            let mut h: Vec<Op> = o.iter().map(|&k| Op::Ins(k)).collect();
            h.extend(order("step3", n).iter().map(|&k| Op::Rem(k)));
            history(cfg, &a.boxes, &h, 1, c.num("X"), &mut HashSet::new())
        }
    }
}

fn run(ctx: &Ctx) {
    let mut cases = vec![];
    let l = ctx.qt(5, 6);
    for cfg in CFGS.iter().take(3) {
        for f in 0..12 {
            cases.push(format!("S=all A=mix:4 M={} m={} L={l} F={f}", cfg.0, cfg.1));
        }
    }
    for cfg in CFGS {
        for a in ["scat", "cross", "over"] {
            for s in ["asc", "desc", "step7", "ends", "mid"] {
                cases.push(format!("S={s} A={a}:{} M={} m={} X={}", ctx.qt(30, 60), cfg.0, cfg.1, ctx.qt(20, 60)));
            }
        }
    }
    // tall trees
    for a in ["over", "nested", "line"] {
        for s in ["asc", "desc", "step7", "mid"] {
            cases.push(format!("S={s} A={a}:{} M=2 m=1 X=6", ctx.qt(72, 200)));
        }
    }
    for c in cases.iter().step_by(cases.len() / 8) {
        ctx.sample(c);
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), ctx.tier));
    ctx.add("traces_validated_against_impl", HISTORIES.load(Relaxed));
    ctx.add("states", STATES.load(Relaxed));
    ctx.add("transitions", TRANSITIONS.load(Relaxed));
    ctx.add("outputs", OUTPUTS.load(Relaxed));
    ctx.add("faults", FAULTS.load(Relaxed));
    std_notes(ctx);
    ctx.note("marks", "keys, values and bounds write marks and log the formatting options; five sets of options; writers that fail at each byte; objects whose formatting fails or panics");
}

fn main() {
    rtree_mc::main_for("C41", "model_checking", run, one)
}
