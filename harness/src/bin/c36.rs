//! C36: trees hold the memory of their nodes only, and queries little more than
//! a path of them.
use noisy_float::types::{n64, N64};
use rtree_mc::calloc::{self, bytes, extra, untracked};
use rtree_mc::prelude::*;
use rusty_rtree::bounds::SAABB;
use rusty_rtree::filter::{JoinFilter, NoFilter, SpatialFilter};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::Cell;
use std::mem::size_of;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

#[global_allocator]
static GLOBAL: calloc::Checked = calloc::Checked;

static MEASURED: AtomicU64 = AtomicU64::new(0);
/// The largest shares of the limits that were needed, in percent.
static WORST: [AtomicI64; 5] = [const { AtomicI64::new(0) }; 5];
const WHAT: [&str; 5] = ["tree", "operation", "query", "ranked", "left_join"];

type K = SAABB<i32, 2>;
type T = RTree<K, K, u32>;

/// The memory of a node: room for its children and one more, each a node or an entry.
fn node(cfg: Cfg) -> i64 {
    let child = (size_of::<K>() + 32).max(size_of::<(K, u32)>());
    (cfg.0 as i64 + 1) * child as i64 + 32
}
/// The most that a tree with `n` nodes may hold.
fn tree_limit(cfg: Cfg, n: usize) -> i64 {
    3 * n as i64 * node(cfg) / 2 + 512
}
/// The most that an insertion or removal may need for a while.
fn op_limit(cfg: Cfg, height: usize) -> i64 {
    3 * (height as i64 + 2) * node(cfg) + 512
}
/// The most that the iterator of a query may hold.
fn query_limit(cfg: Cfg, height: usize) -> i64 {
    (height as i64 + 3) * (128 + 8 * cfg.0 as i64) + 512
}
/// The most that a ranked query may hold that has looked at `n` things.
fn ranked_limit(n: u64) -> i64 {
    2 * 64 * (n as i64 + 4) + 512
}

fn within(what: usize, got: i64, limit: i64, text: impl FnOnce() -> String) -> Res {
    MEASURED.fetch_add(1, Relaxed);
    WORST[what].fetch_max(got * 100 / limit, Relaxed);
    ensure!(got <= limit, "{} {got} bytes, more than {limit}", untracked(text));
    Ok(())
}

struct Some3;
impl SpatialFilter<K, K> for Some3 {
    fn test_bounds(&self, b: &K) -> bool {
        b.max.0[0] >= 2
    }
    fn test_key(&self, k: &K) -> bool {
        k.max.0[0] >= 2
    }
}
/// By the first coordinate; counts what is looked at.
struct Low<'a>(&'a Cell<u64>);
impl Ranking<K, K> for Low<'_> {
    type Metric = N64;
    fn bounds_min(&self, b: &K) -> N64 {
        self.0.set(self.0.get() + 1);
        n64(b.min.0[0] as f64)
    }
    fn rank_key(&self, k: &K) -> N64 {
        self.0.set(self.0.get() + 1);
        n64(k.min.0[0] as f64)
    }
}
struct LowSome<'a>(&'a Cell<u64>);
impl Ranking<K, K> for LowSome<'_> {
    type Metric = Option<N64>;
    fn bounds_min(&self, b: &K) -> Option<N64> {
        self.0.set(self.0.get() + 1);
        Some(n64(b.min.0[0] as f64))
    }
    fn rank_key(&self, k: &K) -> Option<N64> {
        self.0.set(self.0.get() + 1);
        (k.min.0[0] % 2 == 0).then(|| n64(k.min.0[0] as f64))
    }
}
#[derive(Clone, Copy)]
struct Rel(u8);
impl JoinFilter<K, K, K, K> for Rel {
    fn test_bounds(&self, a: &K, b: &K) -> bool {
        self.0 == 0 || a.intersects(b)
    }
    fn test_key(&self, a: &K, b: &K) -> bool {
        self.0 == 0 || a.intersects(b)
    }
}

/// Steps an iterator to its end and limits what it holds all the time.
fn steps<I: Iterator>(name: &str, cfg: Cfg, height: usize, most: usize, make: impl FnOnce() -> I) -> Res {
    let base = bytes();
    let limit = query_limit(cfg, height);
    let (mut q, x) = extra(make);
    within(2, x, limit, || format!("creating {name} takes"))?;
    for i in 0..most + 2 {
        let (e, x) = extra(|| q.next().is_none());
        within(2, bytes() - base + x, limit, || format!("{name} holds in step {i}"))?;
        if e {
            break;
        }
    }
    drop(q);
    ensure!(bytes() == base, "{name} leaves {} bytes behind", bytes() - base);
    Ok(())
}
fn ranked<I: Iterator>(name: &str, n: &Cell<u64>, most: usize, make: impl FnOnce() -> I) -> Res {
    let base = bytes();
    n.set(0);
    let (mut q, x) = extra(make);
    within(3, x, ranked_limit(n.get()), || format!("creating {name} takes"))?;
    for i in 0..most + 2 {
        let before = bytes();
        let (e, x) = extra(|| q.next().is_none());
        within(3, before - base + x, ranked_limit(n.get()), || format!("{name} has, having looked at {} keys and bounds in step {i},", n.get()))?;
        if e {
            break;
        }
    }
    drop(q);
    ensure!(bytes() == base, "{name} leaves {} bytes behind", bytes() - base);
    Ok(())
}
fn minimum(name: &str, n: &Cell<u64>, f: impl FnOnce() -> bool) -> Res {
    let base = bytes();
    n.set(0);
    let (_, x) = extra(f);
    within(3, x, ranked_limit(n.get()), || format!("{name} has, having looked at {} keys and bounds,", n.get()))?;
    ensure!(bytes() == base, "{name} leaves {} bytes behind", bytes() - base);
    Ok(())
}

/// All queries on a tree, and joins with another.
fn queries(t: &mut T, cfg: Cfg, height: usize, n: usize, o: &T, oheight: usize, deep: bool) -> Res {
    steps("an iterator", cfg, height, n, || t.iter())?;
    steps("a mutable iterator", cfg, height, n, || t.iter_mut())?;
    steps("a query for everything", cfg, height, n, || t.filter_iter::<K, _>(NoFilter))?;
    steps("a query for some entries", cfg, height, n, || t.filter_iter::<K, _>(Some3))?;
    steps("a mutable query for some entries", cfg, height, n, || t.filter_iter_mut::<K, _>(Some3))?;
    let c = Cell::new(0);
    ranked("a ranked query", &c, n, || t.iter_asc_by(Low(&c)))?;
    ranked("a mutable ranked query", &c, n, || t.iter_asc_by_mut(Low(&c)))?;
    ranked("a filtered ranked query", &c, n, || t.filter_iter_asc_by(LowSome(&c)))?;
    ranked("a mutable filtered ranked query", &c, n, || t.filter_iter_asc_by_mut(LowSome(&c)))?;
    minimum("min_by", &c, || t.min_by(Low(&c)).is_some())?;
    minimum("min_by_mut", &c, || t.min_by_mut(Low(&c)).is_some())?;
    minimum("filter_min_by", &c, || t.filter_min_by(LowSome(&c)).is_some())?;
    minimum("filter_min_by_mut", &c, || t.filter_min_by_mut(LowSome(&c)).is_some())?;
    let base = bytes();
    let first = t.iter().next().map(|e| *e.0);
    for k in first.into_iter().chain([SAABB { min: SVec([77, 77]), max: SVec([77, 78]) }]) {
        let (_, x) = extra(|| (t.get(&k).is_some(), t.get_mut(&k).is_some(), t.len(), t.is_empty()));
        within(2, x, query_limit(cfg, height), || "lookups take".into())?;
    }
    ensure!(bytes() == base, "lookups leave {} bytes behind", bytes() - base);
    let h = height.max(oheight);
    for r in [Rel(0), Rel(1)] {
        if r.0 == 0 && !deep {
            continue;
        }
        let most = n * n + 2;
        steps("a join", cfg, 2 * h, most, || t.join(o, r))?;
        steps("a join on the other side", cfg, 2 * h, most, || o.join(t, r))?;
        for (l, r_, side) in [(&*t, o, "left"), (o, &*t, "right")] {
            // inner iterators dropped at once, used up, kept; dropped one, two or five
            // steps later, or several at a time
            for mode in 0..7 {
                let limit = |live: i64| (1 + live) * query_limit(cfg, h) + query_limit(cfg, h);
                let base = bytes();
                let mut kept: Vec<_> = untracked(|| Vec::with_capacity(l.len() + 2));
                let (mut q, x) = extra(|| l.left_join(r_, r));
                within(4, x, limit(0), || format!("creating a left join on the {side} takes"))?;
                for i in 0..l.len() + 1 {
                    let before = bytes();
                    let (e, x) = extra(|| q.next());
                    let live = kept.len() as i64;
                    within(4, before - base + x, limit(live + 1), || format!("a left join on the {side} (mode {mode}) with {live} inner iterators alive has in step {i}"))?;
                    let Some((_, mut inner)) = e else { break };
                    if mode == 1 {
                        for j in 0..r_.len() + 1 {
                            let before = bytes();
                            let (e, x) = extra(|| inner.next().is_none());
                            within(4, before - base + x, limit(1), || format!("an inner iterator on the {side} has, with its left join, in step {j}"))?;
                            if e {
                                break;
                            }
                        }
                    } else if mode >= 2 {
                        kept.push(inner);
                        match mode {
                            3 | 4 | 5 => {
                                let most = [1, 2, 5][mode - 3];
                                if kept.len() > most {
                                    drop(kept.remove(0));
                                }
                            }
                            6 if i % 9 == 8 => kept.clear(),
                            _ => (),
                        }
                    }
                }
                drop(q);
                if kept.is_empty() {
                    ensure!(bytes() == base, "a left join on the {side} leaves {} bytes behind", bytes() - base);
                }
                drop(kept);
                ensure!(bytes() == base, "the inner iterators of a left join on the {side} leave {} bytes behind", bytes() - base);
            }
        }
    }
    Ok(())
}

fn grow(t: &mut T, keys: &[K], op: Op, i: usize) {
    match op {
        Op::Ins(k) => t.insert(keys[k as usize], i as u32),
        Op::Uni(k) => {
            t.insert_unique(keys[k as usize], i as u32);
        }
        Op::Rem(k) => {
            t.remove(&keys[k as usize]);
        }
        Op::Clo => {
            let c = t.clone();
            *t = c;
        }
        Op::Mut => t.iter_mut().for_each(|e| *e.1 += 1),
    }
}

/// Builds the tree again, counting memory.
fn check(r: &mut Run<Bi2>, d: &Dump, _: Option<Op>) -> Res {
    let (cfg, hist) = (r.cfg, r.hist.clone());
    let keys: Vec<K> = r.alpha.keys.clone();
    let (n, nodes, height) = (r.model.len(), d.nodes.len(), d.height());
    calloc::start();
    let res = (|| {
        let mut t: T = RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 });
        within(0, bytes(), tree_limit(cfg, 1), || "a new tree holds".into())?;
        let mut last = 0;
        for (i, &op) in hist.iter().enumerate() {
            last = extra(|| grow(&mut t, &keys, op, i)).1;
        }
        match hist.last() {
            Some(Op::Clo) => within(1, last, tree_limit(cfg, nodes), || "a clone takes".into())?,
            Some(Op::Mut) => within(2, last, query_limit(cfg, height), || "writing all values takes".into())?,
            // the tree can have been one level higher before
            Some(op) => within(1, last, op_limit(cfg, height + 1), || format!("{op:?} needs for a while"))?,
            None => {}
        }
        within(0, bytes(), tree_limit(cfg, nodes), || format!("the tree with {nodes} nodes and {n} entries holds"))?;
        let held = bytes();
        let mut other: T = RTree::new(RTreeConfig { max_children: 2, min_children: 1 });
        for i in 0..3usize {
            other.insert(keys[i % keys.len()], 0);
        }
        queries(&mut t, cfg, height, n, &other, 2, true)?;
        drop(other);
        ensure!(bytes() == held, "queries have left {} bytes behind", bytes() - held);
        let c = t.clone();
        within(0, bytes() - held, tree_limit(cfg, nodes), || format!("the clone of the tree with {nodes} nodes holds"))?;
        drop(c);
        ensure!(bytes() == held, "a clone has left {} bytes behind", bytes() - held);
        // emptied, the tree holds what a new one does
        for k in keys.iter().cycle().take(n * keys.len() + 1) {
            t.remove(k);
        }
        ensure!(t.is_empty(), "the tree has {} entries after all were removed", t.len());
        within(0, bytes(), tree_limit(cfg, 1), || format!("emptied, the tree that had {nodes} nodes holds"))?;
        drop(t);
        ensure!(bytes() == 0, "the dropped tree leaves {} bytes behind", bytes());
        Ok(())
    })();
    let (e, _, _) = calloc::end();
    res?;
    ensure!(e == 0, "{}", calloc::error_text(e));
    Ok(())
}

fn key(mode: usize, i: usize) -> K {
    let i = i as i32;
    let (x, y) = match mode {
        0 => (i * 613 % 1009, i * 871 % 997),
        1 => (i % 60 * 3, i / 60 * 3),
        _ => (i % 5, i % 3),
    };
    SAABB { min: SVec([x, y]), max: SVec([x + i % 3, y + i % 2]) }
}

/// Larger trees that grow, shrink and grow again.
fn large(cfg: Cfg, n: usize, mode: usize) -> Res {
    calloc::start();
    let res = (|| {
        let mut t: T = RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 });
        let mut other: T = RTree::new(RTreeConfig { max_children: 4, min_children: 2 });
        for i in 0..40 {
            other.insert(key(mode, i * 3), 0);
        }
        let given = bytes();
        let mut height = 0;
        let mut look = |t: &mut T, when: &str, deep: bool| -> Res<usize> {
            let d = untracked(|| dump::<Bi2>(t, n))?;
            let (nodes, h, len) = (d.nodes.len(), d.height(), t.len());
            untracked(|| drop(d));
            within(0, bytes() - given, tree_limit(cfg, nodes), || format!("{when}, the tree with {nodes} nodes and {len} entries holds"))?;
            if deep {
                queries(t, cfg, h, len, &other, 6, false)?;
                let held = bytes();
                let c = t.clone();
                within(0, bytes() - held, tree_limit(cfg, nodes), || format!("{when}, the clone of the tree with {nodes} nodes holds"))?;
                drop(c);
                ensure!(bytes() == held, "{when}, the tree holds {} bytes more after queries and a clone", bytes() - held);
            }
            Ok(h)
        };
        for round in 0..2 {
            for i in 0..n {
                let (_, x) = extra(|| if i % 4 == 3 { drop(t.insert_unique(key(mode, i), i as u32)) } else { t.insert(key(mode, i), i as u32) });
                if i % (n / 6) == n / 6 - 1 {
                    height = look(&mut t, "grown", i + n / 6 >= n)?;
                }
                within(1, x, op_limit(cfg, height + 10), || format!("the insertion of entry {i} in round {round} needs for a while"))?;
            }
            // once from the front, once by turns
            for i in 0..n {
                let j = if round == 0 { i } else { i * 7 % n };
                let (_, x) = extra(|| t.remove(&key(mode, j)).is_some());
                within(1, x, op_limit(cfg, height), || format!("the removal of entry {j} in round {round} needs for a while"))?;
                if i % (n / 6) == n / 6 - 1 {
                    look(&mut t, "thinned out", i < n / 2)?;
                }
            }
            for i in 0..n {
                t.remove(&key(mode, i));
            }
            ensure!(t.is_empty(), "the tree has {} entries after all were removed", t.len());
            look(&mut t, "emptied", true)?;
        }
        drop((t, other));
        ensure!(bytes() == 0, "the dropped trees leave {} bytes behind", bytes());
        Ok(())
    })();
    let (e, _, _) = calloc::end();
    res?;
    ensure!(e == 0, "{}", calloc::error_text(e));
    Ok(())
}

fn one(c: &Case, _: Tier) -> Res {
    if !c.get("L").is_empty() {
        return large(parse_cfg(c.get("C")), c.num("L"), c.num("M"));
    }
    replay::<Bi2>(c, &check)
}

fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    let mut cases = vec![];
    for (cfg, n) in [((2, 1), 700), ((3, 1), 1200), ((4, 2), 1500), ((8, 3), 2000), ((16, 8), 2400), ((40, 20), 3000), ((300, 100), 6000)] {
        for mode in 0..3 {
            // many equal keys make very tall trees of nodes with two children
            let n = if mode == 2 && cfg.0 == 2 { 240 } else if t { 3 * n } else { n };
            cases.push(format!("C={} L={n} M={mode}", fmt_cfg(cfg)));
        }
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    ctx.add("large_trees", cases.len() as u64);
    let plan = Plan {
        only_new: false,
        bfs: vec![
            ("mix", 3, "iurcm", ctx.qt(6, 7), 8, SMALL.to_vec()),
            ("over:4", 4, "ir", ctx.qt(7, 8), 8, vec![(2, 1), (4, 2)]),
            ("mix", 1, "ir", ctx.qt(16, 22), 16, vec![(2, 1), (3, 1)]),
        ],
        scripts: vec![("scat", ctx.qt(16, 28), SMALL.to_vec()), ("nested", ctx.qt(12, 20), vec![(2, 1), (4, 2)])],
        around: vec![],
        walks: vec![("scat", 100, 100, ctx.qt(11, 3), vec![(2, 1), (3, 1), (17, 8), (64, 32)])],
    };
    explore::<Bi2>(ctx, &plan, &check);
    ctx.add("measurements", MEASURED.load(Relaxed));
    for (w, x) in WHAT.iter().zip(&WORST) {
        ctx.add(&format!("worst_percent_of_limit_{w}"), x.load(Relaxed) as u64);
    }
    std_notes(ctx);
    ctx.note("limits", "a node counts as max_children + 1 times the size of a child, times 1.5; an operation may need three nodes per level; a query 128 bytes and 8 per child for each level; a ranked query 128 bytes for each thing that it has looked at");
}

fn main() {
    rtree_mc::main_for("C36", "model_checking", run, one)
}
