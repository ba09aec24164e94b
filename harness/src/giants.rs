//! Trees that are far larger than those of the spaces: nodes with hundreds of
//! children at all levels, leaves with tens of thousands of entries, and trees
//! of many levels with many entries. One history each; every part compares what
//! the tree shows with a list of its entries.

use crate::dump::{dump, Dump};
use crate::engine::{Case, Ctx, Fail, Res};
use crate::model::*;
use crate::variants::Bi2;
use crate::{ensure, viol};
use noisy_float::types::{n64, N64};
use rusty_rtree::bounds::SAABB;
use rusty_rtree::filter::{IntersectsFilter, JoinFilter, SpatialFilter};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

pub type K = SAABB<i32, 2>;
pub type Tree = RTree<K, K, u32>;

/// Name, configuration, number of entries, arrangement.
type Spec = (&'static str, Cfg, usize, &'static str);
pub const SPECS: [Spec; 9] = [
    // more than 256 children in leaves and in inner nodes
    ("wide", (300, 100), 40_000, "grid"),
    ("rows", (280, 2), 45_000, "rows"),
    // a leaf with more than 65 536 entries
    ("leaf", (100_000, 2), 66_000, "grid"),
    // inner nodes with tens of children on several levels
    ("mid", (64, 8), 9_000, "scatter"),
    ("full", (40, 20), 6_000, "rows"),
    // tall trees
    ("tall", (3, 1), 9_000, "scatter"),
    ("thin", (2, 1), 3_000, "grid"),
    ("four", (4, 2), 9_000, "rows"),
    // few different keys
    ("same", (16, 8), 4_000, "same"),
];

pub fn key(arr: &str, n: usize, i: usize) -> K {
    let at = |x: usize, y: usize, w: usize, h: usize| -> K {
        let (x, y) = (x as i32, y as i32);
        SAABB { min: SVec([x, y]), max: SVec([x + w as i32, y + h as i32]) }
    };
    match arr {
        // the points of a grid in a scattered order
        "grid" => {
            let p = i * 7919 % n;
            at(4 * (p % 200), 4 * (p / 200), p % 3, p % 2)
        }
        // one row after the other
        "rows" => at(4 * (i % 150), 4 * (i / 150), i % 2, i % 3),
        // overlapping boxes all over a square
        "scatter" => at(i * 613 % 1009, i * 871 % 997, i % 11, i % 7),
        "same" => at(i * 7 % 10, i * 3 % 5, i % 2, 1),
        _ => panic!("arrangement {arr}"),
    }
}

pub struct Giant {
    pub name: &'static str,
    pub cfg: Cfg,
    pub tree: Tree,
    /// the entries, by value
    pub live: Vec<Option<K>>,
}

pub fn mbox(k: &K) -> MBox {
    b2(k.min.0[0] as i64, k.min.0[1] as i64, k.max.0[0] as i64, k.max.0[1] as i64)
}

impl Giant {
    pub fn new(name: &str) -> Giant {
        Giant::grown(name, 0).0
    }
    /// A giant without its last entries, and these.
    pub fn grown(name: &str, but: usize) -> (Giant, Vec<K>) {
        let s = SPECS.iter().find(|s| s.0 == name).expect("giant");
        let mut g = Giant { name: s.0, cfg: s.1, tree: RTree::new(RTreeConfig { max_children: s.1 .0, min_children: s.1 .1 }), live: vec![] };
        for i in 0..s.2 - but {
            g.insert(key(s.3, s.2, i));
        }
        (g, (s.2 - but..s.2).map(|i| key(s.3, s.2, i)).collect())
    }
    pub fn insert(&mut self, k: K) {
        self.tree.insert(k, self.live.len() as u32);
        self.live.push(Some(k));
    }
    pub fn len(&self) -> usize {
        self.live.iter().flatten().count()
    }
    /// Removes the key of every `step`-th entry.
    pub fn thin_out(&mut self, step: usize, from: usize) -> Res {
        for i in (from..self.live.len()).step_by(step) {
            let Some(k) = self.live[i] else { continue };
            let Some(v) = self.tree.remove(&k) else { viol!("{}: the removal of {k:?} finds nothing", self.name) };
            ensure!(self.live.get(v as usize) == Some(&Some(k)), "{}: the removal of {k:?} returns {v}, whose key is another", self.name);
            self.live[v as usize] = None;
        }
        Ok(())
    }
    pub fn dump(&self) -> Res<Dump> {
        dump::<Bi2>(&self.tree, self.live.len())
    }

    /// Iteration, length and lookups show the entries.
    fn contents(&self, when: &str) -> Res {
        let mut seen = vec![false; self.live.len()];
        let (mut n, mut last) = (0, HashMap::<[i32; 4], u32>::new());
        for (k, v) in self.tree.iter() {
            ensure!(self.live.get(*v as usize) == Some(&Some(*k)), "{} {when}: iteration yields {k:?} with {v}, which is no entry", self.name);
            ensure!(!std::mem::replace(&mut seen[*v as usize], true), "{} {when}: iteration yields {v} twice", self.name);
            last.entry([k.min.0[0], k.min.0[1], k.max.0[0], k.max.0[1]]).or_insert(*v);
            n += 1;
        }
        ensure!(n == self.len() && self.tree.len() == n, "{} {when}: {n} entries are yielded and counted as {} instead of {}", self.name, self.tree.len(), self.len());
        ensure!(self.tree.is_empty() == (n == 0), "{} {when}: is_empty() is {}", self.name, self.tree.is_empty());
        // lookups find the first of equal keys
        let step = if self.name == "leaf" { 997 } else { 7 };
        for k in self.live.iter().step_by(step).flatten() {
            let want = last.get(&[k.min.0[0], k.min.0[1], k.max.0[0], k.max.0[1]]);
            let got = self.tree.get(k);
            ensure!(got == want, "{} {when}: the lookup of {k:?} finds {got:?} instead of {want:?}", self.name);
        }
        for k in self.live.iter().step_by(97).flatten() {
            let other = SAABB { min: k.min, max: SVec([k.max.0[0] + 40, k.max.0[1] + 1]) };
            ensure!(self.tree.get(&other).is_none(), "{} {when}: the lookup of {other:?} finds something", self.name);
        }
        Ok(())
    }

    /// Bounds, fill and depth of all nodes.
    fn structure(&self, when: &str, bounds: bool) -> Res {
        let d = self.dump()?;
        let height = d.height();
        for (i, n) in d.nodes.iter().enumerate() {
            let c = n.kids.len() + n.ents.len();
            if bounds {
                let kids: Vec<MBox> = if n.kids.is_empty() {
                    n.ents.iter().filter_map(|v| self.live[*v as usize].map(|k| mbox(&k))).collect()
                } else {
                    n.kids.iter().filter_map(|k| d.nodes[*k].bounds).collect()
                };
                let want = MBox::union_all(&kids);
                ensure!(n.bounds == want, "{} {when}: node {i} at depth {} has the bounds {:?} instead of {want:?}", self.name, n.depth, n.bounds);
            } else {
                ensure!(c <= self.cfg.0, "{} {when}: node {i} at depth {} has {c} children", self.name, n.depth);
                ensure!(n.parent.is_none() || c >= self.cfg.1, "{} {when}: node {i} at depth {} has {c} children only", self.name, n.depth);
                ensure!(n.parent.is_some() || n.kids.is_empty() || c >= 2, "{} {when}: the root has a single child node", self.name);
                ensure!(!n.kids.is_empty() || n.depth == height, "{} {when}: leaf {i} is at depth {}, others at {height}", self.name, n.depth);
            }
        }
        Ok(())
    }

    fn windows(&self) -> Vec<K> {
        let w = |x, y, a, b| SAABB { min: SVec([x, y]), max: SVec([a, b]) };
        vec![
            w(-9, -9, -1, -1),
            w(-9, -9, 2000, 2000),
            w(0, 0, 0, 0),
            w(100, 100, 300, 160),
            w(397, 0, 401, 1500),
            w(0, 77, 1100, 77),
            w(3, 3, 3, 3),
            w(596, 780, 2000, 2000),
        ]
    }

    fn queries(&mut self, when: &str) -> Res {
        for w in self.windows() {
            let mut want: Vec<u32> = (0..self.live.len() as u32).filter(|v| self.live[*v as usize].is_some_and(|k| w.intersects(&k))).collect();
            want.sort();
            let nodes = 4 * self.live.len() + 64;
            let tests = Cell::new(0usize);
            let f = Window { w, bounds: true, tests: &tests };
            let mut got: Vec<u32> = self.tree.filter_iter::<K, _>(f).map(|e| *e.1).collect();
            got.sort();
            ensure!(got == want, "{} {when}: the query of {w:?} yields {} entries instead of {}", self.name, got.len(), want.len());
            ensure!(tests.get() < nodes, "{} {when}: the query of {w:?} makes {} tests", self.name, tests.get());
            let f = Window { w, bounds: false, tests: &tests };
            let mut got: Vec<u32> = self.tree.filter_iter::<K, _>(f).map(|e| *e.1).collect();
            got.sort();
            ensure!(got == want, "{} {when}: the query of {w:?} without pruning yields {} entries instead of {}", self.name, got.len(), want.len());
            let mut got: Vec<u32> = self.tree.filter_iter_mut::<K, _>(IntersectsFilter::new(w)).map(|e| *e.1).collect();
            got.sort();
            ensure!(got == want, "{} {when}: the mutable query of {w:?} yields {} entries instead of {}", self.name, got.len(), want.len());
        }
        Ok(())
    }

    fn ranked(&mut self, when: &str) -> Res {
        for p in [[0, 0], [333, 400], [-50, 2000], [1009, 3]] {
            let mut want: Vec<(N64, u32)> = (0..self.live.len() as u32).filter_map(|v| self.live[v as usize].map(|k| (dist(&k, p), v))).collect();
            want.sort();
            for limit in [None, Some(n64(3000.0))] {
                let want: Vec<(N64, u32)> = want.iter().copied().filter(|x| limit.map_or(true, |l| x.0 <= l)).collect();
                for mutable in [false, true] {
                    let got: Vec<(K, u32)> = match (limit, mutable) {
                        (None, false) => self.tree.iter_asc_by(Near(p)).map(|e| (*e.0, *e.1)).collect(),
                        (None, true) => self.tree.iter_asc_by_mut(Near(p)).map(|e| (*e.0, *e.1)).collect(),
                        (Some(l), false) => self.tree.filter_iter_asc_by(Within(p, l)).map(|e| (*e.0, *e.1)).collect(),
                        (Some(l), true) => self.tree.filter_iter_asc_by_mut(Within(p, l)).map(|e| (*e.0, *e.1)).collect(),
                    };
                    let mut got: Vec<(N64, u32)> = got.into_iter().map(|(k, v)| (dist(&k, p), v)).collect();
                    ensure!(
                        got.windows(2).all(|w| w[0].0 <= w[1].0),
                        "{} {when}: ranked iteration from {p:?} (limit {limit:?}, mutable {mutable}) is not in order", self.name
                    );
                    got.sort();
                    ensure!(
                        got == want,
                        "{} {when}: ranked iteration from {p:?} (limit {limit:?}, mutable {mutable}) yields {} entries instead of these {}", self.name, got.len(), want.len()
                    );
                }
            }
            let first = self.tree.min_by(Near(p)).map(|e| dist(e.0, p));
            ensure!(first == want.first().map(|x| x.0), "{} {when}: the nearest entry to {p:?} is at {first:?}", self.name);
        }
        Ok(())
    }

    /// Joins with a small and another giant tree, on both sides.
    fn joins(&self, left: bool) -> Res {
        let mut small: Tree = RTree::new(RTreeConfig { max_children: 3, min_children: 1 });
        let mut few: Vec<K> = vec![];
        for (i, k) in self.live.iter().step_by(self.live.len() / 37 + 1).flatten().enumerate() {
            let k = SAABB { min: k.min, max: SVec([k.max.0[0] + (i % 9) as i32, k.max.0[1] + 4]) };
            small.insert(k, i as u32);
            few.push(k);
        }
        let all: Vec<(K, u32)> = (0..self.live.len() as u32).filter_map(|v| self.live[v as usize].map(|k| (k, v))).collect();
        let mut want: Vec<(u32, u32)> = vec![];
        for (k, v) in &all {
            want.extend((0..few.len() as u32).filter(|i| few[*i as usize].intersects(k)).map(|i| (*v, i)));
        }
        let swap = |v: &[(u32, u32)]| v.iter().map(|x| (x.1, x.0)).collect::<Vec<_>>();
        for loose in [false, true] {
            // without pruning, all pairs of nodes are visited
            if loose && all.len() * few.len() > 3_000_000 {
                continue;
            }
            let f = Touch { loose };
            let (a, b) = if left {
                (left_pairs(&self.tree, &small, f, all.len())?, left_pairs(&small, &self.tree, f, few.len())?)
            } else {
                (pairs(&self.tree, &small, f), pairs(&small, &self.tree, f))
            };
            self.same_pairs(a, want.clone(), "a small tree")?;
            self.same_pairs(b, swap(&want), "a small tree on the left")?;
        }
        // another tree of the same entries in another order and configuration
        let mut other: Tree = RTree::new(RTreeConfig { max_children: 9, min_children: 3 });
        let mut by_key: HashMap<[i32; 4], Vec<u32>> = HashMap::new();
        let n = if self.name == "same" { 300 } else { all.len() };
        for (k, v) in all.iter().rev().take(n) {
            other.insert(*k, *v);
            by_key.entry([k.min.0[0], k.min.0[1], k.max.0[0], k.max.0[1]]).or_default().push(*v);
        }
        // entries of one leaf are compared with all entries of the other tree
        if self.name == "leaf" {
            return Ok(());
        }
        let mut want = vec![];
        for (k, v) in &all {
            if let Some(l) = by_key.get(&[k.min.0[0], k.min.0[1], k.max.0[0], k.max.0[1]]) {
                want.extend(l.iter().map(|o| (*v, *o)));
            }
        }
        let (a, b) = if left {
            (left_pairs(&self.tree, &other, Equal, all.len())?, left_pairs(&other, &self.tree, Equal, n)?)
        } else {
            (pairs(&self.tree, &other, Equal), pairs(&other, &self.tree, Equal))
        };
        self.same_pairs(a, want.clone(), "an equal tree")?;
        self.same_pairs(b, swap(&want), "an equal tree on the left")
    }
    fn same_pairs(&self, mut a: Vec<(u32, u32)>, mut b: Vec<(u32, u32)>, what: &str) -> Res {
        a.sort();
        b.sort();
        ensure!(a == b, "{}: a join with {what} yields {} pairs instead of these {}", self.name, a.len(), b.len());
        Ok(())
    }

    fn clones(&mut self) -> Res {
        let d = self.dump()?;
        let mut c = self.tree.clone();
        ensure!(dump::<Bi2>(&c, self.live.len())?.same(&d), "{}: the clone has another structure, or other entries", self.name);
        for (i, (_, v)) in c.iter_mut().enumerate() {
            if i % 3 == 0 {
                *v += 1_000_000;
            }
        }
        let keys: Vec<K> = self.live.iter().flatten().copied().collect();
        for k in keys.iter().step_by(keys.len() / if self.name == "leaf" { 20 } else { 300 } + 1) {
            ensure!(c.remove(k).is_some(), "{}: the clone has no {k:?}", self.name);
        }
        ensure!(self.dump()?.same(&d), "{}: the use of a clone has changed the original", self.name);
        drop(c);
        self.contents("after its clone was dropped")?;
        let c = self.tree.clone();
        let dc = dump::<Bi2>(&c, self.live.len())?;
        self.thin_out(5, 0)?;
        ensure!(dump::<Bi2>(&c, self.live.len())?.same(&dc), "{}: the use of the original has changed the clone", self.name);
        Ok(())
    }

    fn writes(&mut self) -> Res {
        let order: Vec<u32> = self.tree.iter().map(|e| *e.1).collect();
        let d = self.dump()?;
        for (at, (k, v)) in self.tree.iter_mut().enumerate() {
            ensure!(order.get(at) == Some(v) && self.live[*v as usize] == Some(*k), "{}: mutable iteration is at {v} instead of {:?}", self.name, order.get(at));
            *v += 10;
        }
        let now: Vec<u32> = self.tree.iter().map(|e| *e.1).collect();
        ensure!(now.len() == order.len() && now.iter().zip(&order).all(|(a, b)| *a == b + 10), "{}: mutable iteration does not reach all values once", self.name);
        for (k, v) in self.tree.filter_iter_mut::<K, _>(IntersectsFilter::new(self.windows_all())) {
            ensure!(self.live[*v as usize - 10] == Some(*k), "{}: a mutable query yields {v} with {k:?}", self.name);
            *v -= 5;
        }
        for (_, v) in self.tree.iter_asc_by_mut(Near([5, 5])) {
            *v -= 5;
        }
        ensure!(self.dump()?.same(&d), "{}: writing the values has changed the tree", self.name);
        Ok(())
    }
    /// All operations by key act on the first entry of iteration with that key.
    fn dups(&mut self) -> Res {
        let step = (self.live.len() / 120).max(1);
        for at in (0..self.live.len()).step_by(step) {
            let Some(k) = self.live[at] else { continue };
            let first = |t: &Tree| t.iter().find(|e| *e.0 == k).map(|e| *e.1);
            let want = first(&self.tree);
            match at / step % 4 {
                0 => {
                    let got = self.tree.get_mut(&k).map(|v| *v);
                    ensure!(got == want, "{}: the mutable lookup of {k:?} finds {got:?} instead of {want:?}", self.name);
                }
                1 => {
                    let n = self.live.len() as u32;
                    let got = self.tree.insert_unique(k, n);
                    ensure!(got == want, "{}: the unique insertion of {k:?} replaces {got:?} instead of {want:?}", self.name);
                    ensure!(first(&self.tree) == Some(n), "{}: the unique insertion of {k:?} is not found", self.name);
                    self.live[got.unwrap() as usize] = None;
                    self.live.push(Some(k));
                }
                _ => {
                    let got = self.tree.remove(&k);
                    ensure!(got == want, "{}: the removal of {k:?} returns {got:?} instead of {want:?}", self.name);
                    self.live[got.unwrap() as usize] = None;
                }
            }
            let got = self.tree.get(&k).copied();
            ensure!(got == first(&self.tree), "{}: the lookup of {k:?} finds {got:?}", self.name);
        }
        self.contents("after operations by key")
    }

    /// Each node that a query reaches, and nothing else, is examined, once.
    fn visits(&mut self) -> Res {
        let d = self.dump()?;
        for w in self.windows() {
            let (mut nodes, mut keys) = (vec![], vec![]);
            let mw = mbox(&w);
            let mut todo = vec![0];
            while let Some(i) = todo.pop() {
                let Some(b) = d.nodes[i].bounds else { continue };
                nodes.push(b);
                if b.intersects(&mw) {
                    todo.extend(&d.nodes[i].kids);
                    keys.extend(d.nodes[i].ents.iter().map(|v| mbox(&self.live[*v as usize].unwrap())));
                }
            }
            for mutable in [false, true] {
                let log = Log { w, nodes: RefCell::default(), keys: RefCell::default() };
                if mutable {
                    self.tree.filter_iter_mut::<K, _>(&log).count();
                } else {
                    self.tree.filter_iter::<K, _>(&log).count();
                }
                for (what, mut want, mut got) in [("bounds", nodes.clone(), log.nodes.into_inner()), ("keys", keys.clone(), log.keys.into_inner())] {
                    want.sort();
                    got.sort();
                    ensure!(got == want, "{}: a query of {w:?} examines {} {what} instead of these {}", self.name, got.len(), want.len());
                }
            }
        }
        Ok(())
    }

    /// Ranked iteration looks into no node beyond what it has yielded.
    fn best(&mut self) -> Res {
        let d = self.dump()?;
        for p in [[0, 0], [333, 400], [-50, 2000]] {
            for take in [1, 2, 40, 700] {
                for mutable in [false, true] {
                    let c = Counted { p, nodes: Cell::new(0), keys: Cell::new(0) };
                    let far = if mutable {
                        self.tree.iter_asc_by_mut(&c).take(take).map(|e| dist(e.0, p)).max()
                    } else {
                        self.tree.iter_asc_by(&c).take(take).map(|e| dist(e.0, p)).max()
                    };
                    let Some(far) = far else { continue };
                    let (mut nodes, mut keys) = (1, 0);
                    for n in &d.nodes {
                        if n.bounds.is_some_and(|b| n64(b.dist_sq_pt([p[0] as i64, p[1] as i64, 0]) as f64) <= far) {
                            nodes += n.kids.len();
                            keys += n.ents.len();
                        }
                    }
                    ensure!(
                        c.nodes.get() <= nodes && c.keys.get() <= keys,
                        "{}: ranked iteration from {p:?} for {take} entries up to {far} examines {} nodes and {} keys, of {nodes} and {keys} in reach",
                        self.name, c.nodes.get(), c.keys.get()
                    );
                }
            }
        }
        Ok(())
    }

    fn windows_all(&self) -> K {
        SAABB { min: SVec([-1, -1]), max: SVec([3000, 3000]) }
    }
}

fn dist(k: &K, p: [i32; 2]) -> N64 {
    let s: i64 = (0..2).map(|d| (k.min.0[d] - p[d]).max(p[d] - k.max.0[d]).max(0) as i64).map(|x| x * x).sum();
    n64(s as f64)
}

struct Near([i32; 2]);
impl Ranking<K, K> for Near {
    type Metric = N64;
    fn bounds_min(&self, b: &K) -> N64 {
        dist(b, self.0)
    }
    fn rank_key(&self, k: &K) -> N64 {
        dist(k, self.0)
    }
}
struct Within([i32; 2], N64);
impl Ranking<K, K> for Within {
    type Metric = Option<N64>;
    // nodes that cannot be in reach have no metric, as None must not come first for others
    fn bounds_min(&self, b: &K) -> Option<N64> {
        Some(dist(b, self.0)).filter(|d| *d <= self.1)
    }
    fn rank_key(&self, k: &K) -> Option<N64> {
        Some(dist(k, self.0)).filter(|d| *d <= self.1)
    }
}

struct Window<'a> {
    w: K,
    bounds: bool,
    tests: &'a Cell<usize>,
}
impl SpatialFilter<K, K> for Window<'_> {
    fn test_bounds(&self, b: &K) -> bool {
        self.tests.set(self.tests.get() + 1);
        !self.bounds || self.w.intersects(b)
    }
    fn test_key(&self, k: &K) -> bool {
        self.tests.set(self.tests.get() + 1);
        self.w.intersects(k)
    }
}

struct Log {
    w: K,
    nodes: RefCell<Vec<MBox>>,
    keys: RefCell<Vec<MBox>>,
}
impl SpatialFilter<K, K> for &Log {
    fn test_bounds(&self, b: &K) -> bool {
        self.nodes.borrow_mut().push(mbox(b));
        self.w.intersects(b)
    }
    fn test_key(&self, k: &K) -> bool {
        self.keys.borrow_mut().push(mbox(k));
        self.w.intersects(k)
    }
}
struct Counted {
    p: [i32; 2],
    nodes: Cell<usize>,
    keys: Cell<usize>,
}
impl Ranking<K, K> for &Counted {
    type Metric = N64;
    fn bounds_min(&self, b: &K) -> N64 {
        self.nodes.set(self.nodes.get() + 1);
        dist(b, self.p)
    }
    fn rank_key(&self, k: &K) -> N64 {
        self.keys.set(self.keys.get() + 1);
        dist(k, self.p)
    }
}

#[derive(Clone, Copy)]
struct Touch {
    loose: bool,
}
impl JoinFilter<K, K, K, K> for Touch {
    fn test_bounds(&self, a: &K, b: &K) -> bool {
        self.loose || a.intersects(b)
    }
    fn test_key(&self, a: &K, b: &K) -> bool {
        a.intersects(b)
    }
}
#[derive(Clone, Copy)]
struct Equal;
impl JoinFilter<K, K, K, K> for Equal {
    fn test_bounds(&self, a: &K, b: &K) -> bool {
        a.intersects(b)
    }
    fn test_key(&self, a: &K, b: &K) -> bool {
        a == b
    }
}

fn pairs<F: JoinFilter<K, K, K, K>>(a: &Tree, b: &Tree, f: F) -> Vec<(u32, u32)> {
    a.join::<K, K, u32, K, K, _>(b, f).map(|(x, y)| (x.1, y.1)).collect()
}
/// An odd item's matches are read at once, an even one's after the next item
/// has been taken.
fn left_pairs<F: JoinFilter<K, K, K, K> + Clone>(a: &Tree, b: &Tree, f: F, n: usize) -> Res<Vec<(u32, u32)>> {
    let (mut v, mut seen) = (vec![], 0);
    let mut late = None;
    for (i, ((_, l), mut it)) in a.left_join::<K, K, u32, K, K, _>(b, f).enumerate() {
        seen += 1;
        if i % 2 == 0 {
            v.extend(it.by_ref().take(1).map(|r| (*l, *r.1)));
            late = Some((l, it));
        } else {
            if let Some((l, it)) = late.take() {
                v.extend(it.map(|r| (*l, *r.1)));
            }
            v.extend(it.map(|r| (*l, *r.1)));
        }
    }
    if let Some((l, it)) = late.take() {
        v.extend(it.map(|r| (*l, *r.1)));
    }
    if seen != n {
        return Err(Fail::Violation(format!("a left join yields {seen} items for {n} left entries")));
    }
    Ok(v)
}

/// Runs a part of the checks on a giant tree, which then is thinned out and
/// grown again.
pub fn part(part: &str, g: &mut Giant) -> Res {
    let go = |g: &mut Giant, when: &str| -> Res {
        match part {
            "contents" => g.contents(when),
            "bounds" => g.structure(when, true),
            "fill" => g.structure(when, false),
            "queries" => g.queries(when),
            "ranked" => g.ranked(when),
            "join" => g.joins(false),
            "left" => g.joins(true),
            "clone" => g.clones(),
            "write" => g.writes(),
            "dups" => g.dups(),
            "visits" => g.visits(),
            "best" => g.best(),
            _ => panic!("part {part}"),
        }
    };
    go(g, "after growing")?;
    if g.name == "leaf" || ["write", "clone", "dups"].contains(&part) {
        return Ok(());
    }
    g.thin_out(3, 0)?;
    g.thin_out(2, 1)?;
    go(g, "after removals")?;
    if part != "contents" && part != "bounds" && part != "fill" {
        return Ok(());
    }
    let n = g.live.len();
    for i in 0..n / 8 {
        g.insert(key("scatter", n, i * 5));
    }
    go(g, "after growing again")?;
    g.thin_out(1, n / 2)?;
    go(g, "after more removals")?;
    g.thin_out(1, 0)?;
    go(g, "after removing everything")
}

pub fn cases(parts: &[&str]) -> Vec<String> {
    parts.iter().flat_map(|p| SPECS.iter().map(move |s| format!("GP={p} GN={}", s.0))).collect()
}

/// All cases of some parts; a case that names a giant is for `one`.
pub fn run(ctx: &Ctx, parts: &[&str]) {
    let cs = cases(parts);
    ctx.par_cases(&cs, |c| c.clone(), |c| one(&Case::parse(c)));
    ctx.add("giant_trees", cs.len() as u64);
    ctx.note("giants", "trees of up to 66 000 entries with up to 300 children per inner node, up to 66 000 per leaf, or more than ten levels, each grown, thinned out and (for some parts) grown again and emptied by one history");
}
pub fn is(c: &Case) -> bool {
    !c.get("GP").is_empty()
}
pub fn one(c: &Case) -> Res {
    part(c.get("GP"), &mut Giant::new(c.get("GN")))
}
