//! C34: insertions and removals work along paths of the tree.
//!
//! Bounds and keys have identities and log what is done with them. The structure
//! is read from what queries show to a filter that accepts a single path.
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{Bounded, Bounds, Volume, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

type Flat = SAABB<i32, 2>;

thread_local! {
    static NEXT: Cell<u64> = const { Cell::new(1) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static SEEN: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn id() -> u64 {
    NEXT.with(|n| n.replace(n.get() + 1))
}
fn touch(i: u64) {
    if ON.with(|o| o.get()) {
        SEEN.with(|s| s.borrow_mut().insert(i));
        CALLS.with(|c| c.set(c.get() + 1));
    }
}
/// What an operation touches, and how often.
fn logged<R>(f: impl FnOnce() -> R) -> (R, HashSet<u64>, u64) {
    SEEN.with(|s| s.borrow_mut().clear());
    CALLS.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    (r, SEEN.with(|s| s.borrow().clone()), CALLS.with(|c| c.get()))
}

struct PB {
    b: Flat,
    id: u64,
}
impl PB {
    fn new(b: Flat) -> PB {
        PB { b, id: id() }
    }
}
impl Clone for PB {
    fn clone(&self) -> PB {
        touch(self.id);
        PB::new(self.b)
    }
}
impl Contains<PB> for PB {
    fn contains(&self, o: &PB) -> bool {
        touch(self.id);
        touch(o.id);
        self.b.contains(&o.b)
    }
}
impl Intersects<PB> for PB {
    fn intersects(&self, o: &PB) -> bool {
        touch(self.id);
        touch(o.id);
        self.b.intersects(&o.b)
    }
}
impl Bounds for PB {
    fn empty() -> PB {
        PB::new(SAABB::empty())
    }
    fn union(l: &PB, r: &PB) -> PB {
        touch(l.id);
        touch(r.id);
        PB::new(SAABB::union(&l.b, &r.b))
    }
    fn union_all(it: impl IntoIterator<Item = PB>) -> PB {
        PB::new(SAABB::union_all(it.into_iter().map(|b| {
            touch(b.id);
            b.b
        })))
    }
}
impl Volume for PB {
    fn volume(&self) -> noisy_float::types::N64 {
        touch(self.id);
        self.b.volume()
    }
}

struct PK {
    k: u8,
    b: Flat,
    id: u64,
}
impl PartialEq for PK {
    fn eq(&self, o: &PK) -> bool {
        touch(self.id);
        touch(o.id);
        self.k == o.k
    }
}
impl Eq for PK {}
impl Bounded<PB> for PK {
    fn bounds(&self) -> PB {
        touch(self.id);
        PB::new(self.b)
    }
}

type Tree = RTree<PB, PK, u32>;

/// Accepts the nodes of one path and no key.
struct Along<'a> {
    path: &'a [u64],
    nodes: &'a RefCell<Vec<(u64, Flat)>>,
    keys: &'a RefCell<Vec<(u64, u8)>>,
}
impl<'a> SpatialFilter<PB, PK> for Along<'a> {
    fn test_bounds(&self, b: &PB) -> bool {
        self.nodes.borrow_mut().push((b.id, b.b));
        self.path.contains(&b.id)
    }
    fn test_key(&self, k: &PK) -> bool {
        self.keys.borrow_mut().push((k.id, k.k));
        false
    }
}

#[derive(Clone)]
struct Node {
    parent: Option<usize>,
    depth: usize,
    bounds: Flat,
}
/// The nodes of a tree and below which of them each object is. The first node
/// stands for the tree itself.
struct Shape {
    nodes: Vec<Node>,
    below: HashMap<u64, usize>,
    keys: Vec<(usize, u8)>,
}

fn shape(t: &Tree) -> Shape {
    let mut s = Shape { nodes: vec![Node { parent: None, depth: 0, bounds: SAABB::empty() }], below: HashMap::new(), keys: vec![] };
    let mut ids: Vec<u64> = vec![0];
    let mut i = 0;
    while i < s.nodes.len() {
        let mut path = vec![];
        let mut at = i;
        while let Some(p) = s.nodes[at].parent {
            path.push(ids[at]);
            at = p;
        }
        let (nodes, keys) = (RefCell::new(vec![]), RefCell::new(vec![]));
        let n = t.filter_iter::<PK, _>(Along { path: &path, nodes: &nodes, keys: &keys }).take(1).count();
        assert_eq!(n, 0);
        for (b, bounds) in nodes.into_inner() {
            if !s.below.contains_key(&b) {
                s.below.insert(b, i);
                ids.push(b);
                s.nodes.push(Node { parent: Some(i), depth: s.nodes[i].depth + 1, bounds });
            }
        }
        for (k, name) in keys.into_inner() {
            if s.below.insert(k, i).is_none() {
                s.keys.push((i, name));
            }
        }
        i += 1;
    }
    s
}

impl Shape {
    fn height(&self) -> usize {
        self.nodes.iter().map(|n| n.depth).max().unwrap_or(0)
    }
    fn chain(&self, mut i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while let Some(p) = self.nodes[i].parent {
            v.push(p);
            i = p;
        }
        v
    }
    /// The nodes whose children were touched.
    fn opened(&self, seen: &HashSet<u64>) -> Vec<usize> {
        let mut v: Vec<usize> = seen.iter().filter_map(|i| self.below.get(i)).copied().collect();
        v.sort();
        v.dedup();
        v
    }
    /// The opened nodes lie on one path.
    fn one_path(&self, opened: &[usize], what: &str) -> Res {
        let Some(&deepest) = opened.iter().max_by_key(|i| self.nodes[**i].depth) else { return Ok(()) };
        let chain = self.chain(deepest);
        for o in opened {
            ensure!(
                chain.contains(o),
                "{what} examines children of the node with the bounds {:?} at depth {} and of the one with {:?} at depth {}, which are not on one path",
                self.nodes[deepest].bounds,
                self.nodes[deepest].depth,
                self.nodes[*o].bounds,
                self.nodes[*o].depth
            );
        }
        Ok(())
    }
    /// An opened node and those above it, below the root, touch the bounds of the
    /// key.
    fn searched(&self, o: usize, b: &Flat) -> bool {
        let root = (self.nodes.iter().filter(|n| n.parent == Some(0)).count() == 1) as usize;
        self.chain(o).iter().all(|&i| i <= root || self.nodes[i].bounds.intersects(b))
    }
}

static OPS: AtomicU64 = AtomicU64::new(0);
static CONDENSED: AtomicU64 = AtomicU64::new(0);
static MOST: AtomicU64 = AtomicU64::new(0);
static STATES: AtomicU64 = AtomicU64::new(0);

struct PRun {
    keys: Vec<Flat>,
    cfg: Cfg,
    tree: Tree,
    n: usize,
    stamp: u32,
}

impl PRun {
    fn new(keys: &[Flat], cfg: Cfg) -> PRun {
        PRun { keys: keys.to_vec(), cfg, tree: RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 }), n: 0, stamp: 0 }
    }
    fn key(&self, k: u8) -> PK {
        PK { k, b: self.keys[k as usize], id: id() }
    }
    fn apply(&mut self, op: Op) {
        self.stamp += 1;
        match op {
            Op::Ins(k) => {
                self.tree.insert(self.key(k), self.stamp);
                self.n += 1;
            }
            Op::Uni(k) => self.n += self.tree.insert_unique(self.key(k), self.stamp).is_none() as usize,
            Op::Rem(k) => self.n -= self.tree.remove::<PK>(&self.key(k)).is_some() as usize,
            _ => {}
        }
    }
    /// The operation, with what it examines.
    fn judged(&mut self, op: Op) -> Res {
        let before = shape(&self.tree);
        let (n, max) = (self.n, self.cfg.0 as u64);
        ensure!(before.keys.len() == n, "a query is shown {} of {n} keys", before.keys.len());
        let what = format!("{op:?}");
        let ((), seen, calls) = logged(|| self.apply(op));
        OPS.fetch_add(1, Relaxed);
        let opened = before.opened(&seen);
        let most = (before.height() as u64 + 2) * (max + 1) * (max + 1);
        MOST.fetch_max(calls * 100 / most, Relaxed);
        match op {
            Op::Ins(_) => {
                before.one_path(&opened, &what)?;
                ensure!(calls <= COST * most, "{what} uses bounds and keys {calls} times in a tree of height {}", before.height());
            }
            Op::Uni(k) => {
                // a search, and an insertion if nothing is found
                let b = self.keys[k as usize];
                let rest: Vec<usize> = opened.into_iter().filter(|o| !before.searched(*o, &b)).collect();
                if self.n == n {
                    ensure!(rest.is_empty(), "{what} examines children of nodes that cannot contain the key");
                }
                before.one_path(&rest, &what)?;
            }
            Op::Rem(k) => {
                let b = self.keys[k as usize];
                let small = |l: usize| before.keys.iter().filter(|x| x.0 == l).count() <= self.cfg.1;
                if self.n < n && before.nodes.len() > 2 && before.keys.iter().any(|x| x.1 == k && small(x.0)) {
                    // the entries of dissolved nodes are inserted again
                    CONDENSED.fetch_add(1, Relaxed);
                    return Ok(());
                }
                for o in opened {
                    ensure!(before.searched(o, &b), "{what} examines children of the node with the bounds {:?}, which cannot contain the key", before.nodes[o].bounds);
                }
            }
            _ => {}
        }
        Ok(())
    }
}

/// Uses of objects per child and child of a node on the path.
const COST: u64 = 12;

fn one(c: &Case, _: Tier) -> Res {
    let keys = rtree_mc::tracked::tkeys(c.get("A"));
    let mut r = PRun::new(&keys, parse_cfg(c.get("C")));
    let h = parse_hist(c.get("H"));
    // only the last operations are judged; the others are in other cases
    let from = h.len().saturating_sub(c.get("J").parse().unwrap_or(1));
    for (i, &op) in h.iter().enumerate() {
        if i < from {
            r.apply(op);
        } else {
            r.judged(op)?;
        }
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    let mut cases: Vec<String> = vec![];
    // states of the search, each with every operation
    let plans: [(&str, usize, usize, &[Cfg]); 3] = [
        ("mix", 4, ctx.qt(7, 8), &SMALL),
        ("nest", 4, ctx.qt(6, 8), &[(2, 1), (3, 1), (4, 2)]),
        ("mix", 6, ctx.qt(5, 6), &[(2, 1), (3, 1), (4, 2)]),
    ];
    for (name, nk, depth, cfgs) in plans {
        let alpha = Alpha::<Bi2>::new(name);
        let menu = op_menu(nk.min(alpha.len()), "iru");
        for &cfg in cfgs {
            let mut s = Search::new(ctx, &alpha, cfg);
            s.only_new = true;
            s.bfs(&[vec![]], &op_menu(nk.min(alpha.len()), "ir"), depth, 8, &|_, _, _| Ok(()));
            STATES.fetch_add(s.states.len() as u64, Relaxed);
            for st in &s.states {
                for &op in &menu {
                    let h: Vec<Op> = st.hist.iter().copied().chain([op]).collect();
                    cases.push(format!("A={name} C={} H={}", fmt_cfg(cfg), fmt_hist(&h)));
                }
            }
        }
    }
    // growing and draining, every step judged
    for (a, nk, n, cfgs) in [
        ("scat", 40usize, ctx.qt(160usize, 600), vec![(2, 1), (3, 1), (4, 2), (5, 2), (8, 4), (17, 8), (33, 16)]),
        ("over", 30, ctx.qt(60, 120), vec![(2, 1), (4, 2), (9, 3)]),
        ("nested", 24, ctx.qt(48, 96), vec![(2, 1), (4, 1), (6, 3)]),
        ("line", 50, ctx.qt(100, 250), vec![(2, 1), (3, 1), (4, 2)]),
        ("grid", 36, ctx.qt(72, 180), vec![(2, 1), (4, 2), (12, 6)]),
    ] {
        let nk = tkeys_len(a, nk);
        for h in walks(nk, n) {
            for &cfg in &cfgs {
                cases.push(format!("A={a}:{nk} C={} H={} J={}", fmt_cfg(cfg), fmt_hist(&h), h.len()));
            }
        }
    }
    for c in cases.iter().step_by(cases.len() / 6 + 1) {
        ctx.sample(c.chars().take(200).collect::<String>());
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    std_notes(ctx);
    ctx.add("operations_judged", OPS.load(Relaxed));
    ctx.add("removals_that_dissolved_nodes", CONDENSED.load(Relaxed));
    ctx.add("most_uses_in_percent_of_height_times_squared_fanout", MOST.load(Relaxed));
    ctx.note(
        "rule",
        "every operation in every state, and every step of growing and draining histories: which bounds and keys of the tree are used. \
         For an insertion they have to be children of the nodes of one path, for a removal that dissolves no node and for the search of a \
         unique insertion children of nodes that touch the key; removals that dissolve nodes are counted, but not judged",
    );
}

fn tkeys_len(a: &str, n: usize) -> usize {
    rtree_mc::tracked::tkeys(&format!("{a}:{n}")).len()
}

fn main() {
    rtree_mc::main_for("C34", "model_checking", run, one)
}
