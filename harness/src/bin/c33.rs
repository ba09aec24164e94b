//! C33: equal trees behave equally, whatever their past.
//!
//! Each state is reached in several ways; all operations and queries have to have
//! the same results on each of these trees and lead to equal trees again.
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{Bounded, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

static PAIRS: AtomicU64 = AtomicU64::new(0);
static CHECKS: AtomicU64 = AtomicU64::new(0);

fn mixed(h: &[Op]) -> u64 {
    fmt_hist(h).bytes().fold(14695981039346656037, |a, b| (a ^ b as u64).wrapping_mul(1099511628211))
}

/// Results of an operation or, without one, of queries, in terms of the
/// positions of the entries in the tree.
fn signature<V: Variant>(alpha: &Alpha<V>, cfg: Cfg, h: &[Op], op: Option<Op>) -> Res<(u128, Vec<u32>)>
where
    V::B: Contains<V::B>,
{
    let mut r = Run::build(alpha, cfg, h)?;
    let place: HashMap<u32, u32> = r.entries()?.iter().enumerate().map(|(i, e)| (e.1, i as u32)).collect();
    let at = |v: &u32| place.get(v).copied().unwrap_or(u32::MAX);
    let cap = place.len() * place.len() + 2;
    let mut out = vec![];
    match op {
        Some(Op::Rem(k)) => out.push(r.tree.remove::<V::K>(&alpha.keys[k as usize]).map_or(u32::MAX - 1, |v| at(&v))),
        Some(Op::Uni(k)) => out.push(r.tree.insert_unique(alpha.keys[k as usize].clone(), 0).map_or(u32::MAX - 1, |v| at(&v))),
        Some(Op::Ins(k)) => r.tree.insert(alpha.keys[k as usize].clone(), 0),
        Some(op) => r.apply(op)?,
        None => {
            let n = alpha.len();
            for k in &alpha.keys {
                out.push(r.tree.get(k).map_or(u32::MAX - 1, at));
            }
            for mask in [0b0110, 0b1011, u64::MAX] {
                out.extend(r.tree.filter_iter::<V::K, _>(Sub { alpha, mask, mode: 't' }).take(cap).map(|e| at(e.1)));
                out.extend(r.tree.filter_iter_mut::<V::K, _>(Sub { alpha, mask, mode: 'i' }).take(cap).map(|e| at(e.1)));
            }
            // rankings with ties
            for m in [1, 2, 3] {
                let ranks: Vec<Option<u32>> = (0..n as u32).map(|i| Some(i % m)).collect();
                let rank = || Rank { alpha, ranks: &ranks, mode: 't' };
                out.extend(r.tree.iter_asc_by(rank()).take(cap).map(|e| at(e.1)));
                out.extend(r.tree.iter_asc_by_mut(rank()).take(cap).map(|e| at(e.1)));
                out.extend(r.tree.filter_iter_asc_by(ORank(rank())).take(cap).map(|e| at(e.1)));
                out.extend(r.tree.min_by(rank()).map(|e| at(e.1)));
            }
            let rel = every::<V, V>(alpha, alpha);
            out.extend(r.tree.join::<_, _, _, V::K, V::K, _>(&r.tree, rel.clone()).take(cap).flat_map(|(a, b)| [at(&a.1), at(&b.1)]));
            for (l, inner) in r.tree.left_join::<_, _, _, V::K, V::K, _>(&r.tree, rel).take(cap) {
                out.push(at(l.1));
                out.extend(inner.take(cap).map(|e| at(e.1)));
            }
            out.push(r.tree.len() as u32);
        }
    }
    r.model.clear();
    let canon = dump::<V>(&r.tree, cap)?.canon;
    Ok((canon, out))
}

#[derive(Clone)]
struct Every;
fn every<L, R>(_: &Alpha<L>, _: &Alpha<R>) -> Every
where
    L: Variant,
    R: Variant,
{
    Every
}
impl<A, B, C, D> rusty_rtree::filter::JoinFilter<A, B, C, D> for Every {
    fn test_bounds(&self, _: &A, _: &B) -> bool {
        true
    }
    fn test_key(&self, _: &C, _: &D) -> bool {
        true
    }
}

/// Compares two trees with the same structure that were built differently.
fn same<V: Variant>(alpha: &Alpha<V>, cfg: Cfg, menu: &[Op], a: &[Op], b: &[Op], noise: bool) -> Res
where
    V::B: Contains<V::B>,
{
    PAIRS.fetch_add(1, Relaxed);
    for op in [None].into_iter().chain(menu.iter().copied().map(Some)) {
        let x = signature(alpha, cfg, a, op)?;
        if noise {
            // other trees come and go in between
            let w = signature(alpha, (2, 1), &scripts(alpha.len(), alpha.len(), 'i')[1], None)?;
            ensure!(!w.1.is_empty(), "nothing is in the other tree");
        }
        let y = signature(alpha, cfg, b, op)?;
        CHECKS.fetch_add(1, Relaxed);
        let what = op.map_or("queries".to_string(), |o| format!("{o:?}"));
        ensure!(x.1 == y.1, "results of {what} differ between trees that are equal: entries {:?} and {:?}", x.1, y.1);
        ensure!(x.0 == y.0, "{what} makes trees differ that are equal");
    }
    Ok(())
}

/// Histories that end with a tree that equals the one at the end of `h`.
fn others(h: &[Op], nk: usize) -> Vec<Vec<Op>> {
    let mut v = vec![];
    // something was in the tree, and has been removed
    for (n, dn) in [(1, "asc"), (5, "desc"), (nk.max(9), "mid"), (40, "step3")] {
        let mut p: Vec<Op> = (0..n).map(|i| if i % 3 == 2 { Op::Uni((i % nk) as u8) } else { Op::Ins((i % nk) as u8) }).collect();
        let o = order(dn, nk);
        for _ in 0..n.div_ceil(nk) {
            p.extend(o.iter().map(|&k| Op::Rem(k)));
        }
        p.extend(h);
        v.push(p);
    }
    // clones and writes on the way
    for i in [0, h.len() / 2, h.len()] {
        for op in [Op::Clo, Op::Mut] {
            let mut p = h.to_vec();
            p.insert(i, op);
            v.push(p);
        }
    }
    // failed operations
    let mut p = vec![];
    for &op in h {
        p.extend([Op::Rem(nk as u8 - 1)].into_iter().filter(|_| !h.contains(&Op::Ins(nk as u8 - 1)) && !h.contains(&Op::Uni(nk as u8 - 1))));
        p.push(op);
        p.push(Op::Clo);
    }
    v.push(p);
    v
}

fn canon<V: Variant>(alpha: &Alpha<V>, cfg: Cfg, h: &[Op]) -> Res<u128> {
    Ok(Run::build(alpha, cfg, h)?.dump()?.canon)
}

fn space<V: Variant>(ctx: &Ctx, name: &str, nk: usize, depth: usize, cfgs: &[Cfg], reps: usize)
where
    V::B: Contains<V::B>,
{
    let alpha = Alpha::<V>::new(name);
    let menu = op_menu(nk.min(alpha.len()), "iru");
    for &cfg in cfgs {
        if ctx.failed() {
            return;
        }
        let alt: Mutex<HashMap<u128, Vec<(u64, Vec<Op>)>>> = Mutex::new(HashMap::new());
        let mut s = Search::new(ctx, &alpha, cfg);
        s.bfs(&[vec![]], &menu, depth, 8, &|r: &mut Run<V>, d: &Dump, _| {
            let mut g = alt.lock().unwrap();
            let v = g.entry(d.canon).or_default();
            // which ones are kept does not depend on their order
            v.push((mixed(&r.hist), r.hist.clone()));
            v.sort_by_key(|x| x.0);
            v.truncate(reps + 1);
            Ok(())
        });
        let alt = alt.into_inner().unwrap();
        let mut jobs: Vec<(Vec<Op>, Vec<Op>, bool)> = vec![];
        for st in &s.states {
            for (_, h) in alt.get(&st.canon).into_iter().flatten() {
                if *h != st.hist {
                    jobs.push((st.hist.clone(), h.clone(), false));
                }
            }
            jobs.push((st.hist.clone(), st.hist.clone(), true));
        }
        pairs::<V>(ctx, &alpha, cfg, nk, jobs);
        // some other ways for all of them
        let jobs: Vec<_> = s.states.iter().step_by(ctx.qt(7, 2)).flat_map(|st| others(&st.hist, nk).into_iter().map(|o| (st.hist.clone(), o, false))).collect();
        pairs::<V>(ctx, &alpha, cfg, nk, jobs);
    }
}

fn pairs<V: Variant>(ctx: &Ctx, alpha: &Alpha<V>, cfg: Cfg, nk: usize, jobs: Vec<(Vec<Op>, Vec<Op>, bool)>)
where
    V::B: Contains<V::B>,
{
    if let Some(j) = jobs.iter().max_by_key(|j| j.0.len() + j.1.len()) {
        ctx.sample(format!("{} G={}", case_name(alpha, cfg, &j.0, ""), fmt_hist(&j.1)));
    }
    let menu = op_menu(nk.min(alpha.len()), "iruc");
    ctx.par_cases(
        &jobs,
        |j| format!("{} G={} N={} K={nk}", case_name(alpha, cfg, &j.0, ""), fmt_hist(&j.1), j.2 as u8),
        |j| pair(alpha, cfg, &menu, j),
    );
}

fn pair<V: Variant>(alpha: &Alpha<V>, cfg: Cfg, menu: &[Op], j: &(Vec<Op>, Vec<Op>, bool)) -> Res
where
    V::B: Contains<V::B>,
{
    // histories in other orders may lead to other trees
    if canon(alpha, cfg, &j.0)? != canon(alpha, cfg, &j.1)? {
        return Ok(());
    }
    same(alpha, cfg, menu, &j.0, &j.1, j.2)
}

/// Grown trees, each as it is and built in the other ways.
fn grown<V: Variant>(ctx: &Ctx, shape: &str, nk: usize, n: usize, stride: usize, cfgs: &[Cfg])
where
    V::B: Contains<V::B>,
{
    let alpha = Alpha::<V>::new(&format!("{shape}:{nk}"));
    for &cfg in cfgs {
        if ctx.failed() {
            return;
        }
        let mut jobs = vec![];
        for (j, h) in walks(alpha.len(), n).iter().enumerate() {
            for i in (1..=h.len()).filter(|i| (i + j) % stride == 0) {
                let h = h[..i].to_vec();
                let o = others(&h, nk);
                jobs.push((h.clone(), o[(i + j) % o.len()].clone(), false));
                jobs.push((h.clone(), h, true));
            }
        }
        pairs::<V>(ctx, &alpha, cfg, nk.min(9), jobs);
    }
}

// --------------------------------------------------------- types of contents

#[derive(Clone, PartialEq, Eq, Debug)]
struct Key<const N: usize> {
    b: SAABB<i32, 2>,
    pad: [u8; N],
}
impl<const N: usize> Bounded<SAABB<i32, 2>> for Key<N> {
    fn bounds(&self) -> SAABB<i32, 2> {
        self.b.bounds()
    }
}

struct Log<'a>(&'a RefCell<String>);
impl<'a, const N: usize> SpatialFilter<SAABB<i32, 2>, Key<N>> for Log<'a> {
    fn test_bounds(&self, b: &SAABB<i32, 2>) -> bool {
        self.0.borrow_mut().push_str(&format!("[{b:?}"));
        true
    }
    fn test_key(&self, k: &Key<N>) -> bool {
        self.0.borrow_mut().push_str(&format!("({:?}", k.b));
        true
    }
}

fn contents<const N: usize, T>(alpha: &Alpha<Bi2>, cfg: Cfg, h: &[Op], value: impl Fn(u32) -> T) -> String {
    let mut t: RTree<SAABB<i32, 2>, Key<N>, T> = RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 });
    let key = |k: u8| Key::<N> { b: alpha.keys[k as usize].bounds(), pad: [7; N] };
    let mut out = String::new();
    for (i, op) in h.iter().enumerate() {
        match *op {
            Op::Ins(k) => t.insert(key(k), value(i as u32)),
            Op::Uni(k) => out.push_str(if t.insert_unique(key(k), value(i as u32)).is_some() { "u" } else { "n" }),
            Op::Rem(k) => out.push_str(if t.remove::<Key<N>>(&key(k)).is_some() { "r" } else { "n" }),
            _ => {}
        }
    }
    let log = RefCell::new(String::new());
    for (k, _) in t.filter_iter::<Key<N>, _>(Log(&log)).take(h.len() + 2) {
        out.push_str(&format!("{:?};", k.b));
    }
    out + &log.into_inner()
}

fn types(c: &Case) -> Res {
    let alpha = Alpha::<Bi2>::new(c.get("A"));
    let cfg = parse_cfg(c.get("C"));
    let h = parse_hist(c.get("H"));
    let want = contents::<0, u32>(&alpha, cfg, &h, |i| i);
    macro_rules! is {
        ($n:expr, $t:ty, $f:expr) => {
            let got = contents::<$n, $t>(&alpha, cfg, &h, $f);
            ensure!(got == want, "with {} bytes in keys and values of type {} the tree is\n{got}\nbut with u32\n{want}", $n, stringify!($t));
            CHECKS.fetch_add(1, Relaxed);
        };
    }
    is!(0, (), |_| ());
    is!(1, u8, |i| i as u8);
    is!(3, String, |i| "x".repeat(i as usize % 5));
    is!(33, [u64; 9], |i| [i as u64; 9]);
    is!(200, Option<Box<u32>>, |i| (i % 2 == 0).then(|| Box::new(i)));
    is!(0, std::cell::Cell<u128>, |i| std::cell::Cell::new(i as u128));
    Ok(())
}

fn run(ctx: &Ctx) {
    let small = [(2, 1), (3, 1), (4, 2)];
    space::<Bi2>(ctx, "mix", 3, ctx.qt(7, 8), &SMALL, ctx.qt(3, 5));
    space::<Bi2>(ctx, "mix", 5, ctx.qt(4, 5), &small, 3);
    space::<Bi2>(ctx, "nest", 3, ctx.qt(5, 7), &small, 3);
    space::<PtV>(ctx, "mix", 3, ctx.qt(5, 6), &small, 3);
    space::<Bd2>(ctx, "mix", 3, ctx.qt(4, 5), &small, 3);
    grown::<Bi2>(ctx, "scat", 24, 48, ctx.qt(3, 1), &[(2, 1), (3, 1), (4, 2), (8, 4), (17, 8)]);
    grown::<PtV>(ctx, "grid", 16, 60, ctx.qt(9, 2), &[(2, 1), (4, 2), (9, 3)]);
    // types of keys and values
    let mut cases = vec![];
    let menu = op_menu(3, "iru");
    let mut hs: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..ctx.qt(4, 5) {
        hs = hs.into_iter().flat_map(|h| menu.iter().map(move |&o| h.iter().copied().chain([o]).collect())).collect();
    }
    let short = hs.len();
    hs.extend(prefixes(&walks(24, 48)).into_iter().step_by(ctx.qt(5, 1)));
    for (i, h) in hs.iter().enumerate() {
        for cfg in [(2, 1), (3, 1), (4, 2), (8, 4)] {
            cases.push(format!("T=1 A={} C={} H={}", if i < short { "mix" } else { "scat:24" }, fmt_cfg(cfg), fmt_hist(h)));
        }
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| types(&Case::parse(c)));
    ctx.sample(cases.last().unwrap());
    ctx.add("pairs_of_equal_trees", PAIRS.load(Relaxed));
    ctx.add("comparisons", CHECKS.load(Relaxed));
    std_notes(ctx);
    ctx.note("rule", "each state is reached by several histories (found by the search, and by preambles, clones, writes and other trees in between); every operation and all queries are executed on both trees; and each history is executed with seven types of values and keys");
}

fn replay_pair<V: Variant>(c: &Case) -> Res
where
    V::B: Contains<V::B>,
{
    let alpha = Alpha::<V>::new(c.get("A"));
    let cfg = parse_cfg(c.get("C"));
    if c.get("G").is_empty() {
        return Run::<V>::build(&alpha, cfg, &parse_hist(c.get("H"))).map(|_| ());
    }
    let menu = op_menu(c.num::<usize>("K").min(alpha.len()), "iruc");
    pair(&alpha, cfg, &menu, &(parse_hist(c.get("H")), parse_hist(c.get("G")), c.get("N") == "1"))
}

fn one(c: &Case, _: Tier) -> Res {
    if c.get("T") == "1" {
        return types(c);
    }
    pick!(c.get("V"); [Bi2, PtV, Bd2]; V => replay_pair::<V>(c))
}

fn main() {
    rtree_mc::main_for("C33", "model_checking", run, one)
}
