//! C42: nodes are split and put together again where the tree has to grow least.
use rtree_mc::prelude::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static INSERTS: AtomicU64 = AtomicU64::new(0);
static SPLITS: AtomicU64 = AtomicU64::new(0);
static GAPS: AtomicU64 = AtomicU64::new(0);
static INNER_GAPS: AtomicU64 = AtomicU64::new(0);
static KNOWN: AtomicU64 = AtomicU64::new(0);
static DISSOLVED: AtomicU64 = AtomicU64::new(0);
static EXACT: AtomicU64 = AtomicU64::new(0);
static UNKNOWN: AtomicU64 = AtomicU64::new(0);

fn mix(h: u64, x: u64) -> u64 {
    let mut z = h.rotate_left(23) ^ x.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z = (z ^ z >> 29).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z ^ z >> 32
}

/// A child of a node: an entry or a node.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Child {
    Ent(u32),
    Node(usize),
}

/// A tree that can be changed as the library would.
#[derive(Clone)]
struct Tree<'a> {
    nodes: Vec<DNode>,
    root: usize,
    keys: &'a HashMap<u32, MBox>,
    dims: usize,
}

impl<'a> Tree<'a> {
    fn of(d: &Dump, keys: &'a HashMap<u32, MBox>, dims: usize) -> Tree<'a> {
        Tree { nodes: d.nodes.clone(), root: 0, keys, dims }
    }
    fn kids(&self, n: usize) -> Vec<Child> {
        let n = &self.nodes[n];
        n.kids.iter().map(|k| Child::Node(*k)).chain(n.ents.iter().map(|v| Child::Ent(*v))).collect()
    }
    fn level(&self, mut n: usize) -> usize {
        let mut l = 0;
        while let Some(k) = self.nodes[n].kids.first() {
            n = *k;
            l += 1;
        }
        l
    }
    /// The level of the nodes that have such a child.
    fn home(&self, c: Child) -> usize {
        match c {
            Child::Ent(_) => 0,
            Child::Node(n) => self.level(n) + 1,
        }
    }
    fn bounds(&self, c: Child) -> MBox {
        match c {
            Child::Ent(v) => self.keys[&v],
            Child::Node(n) => self.nodes[n].bounds.expect("a node below the root is empty"),
        }
    }
    /// An identity: the entries and nodes below, in any order.
    fn id(&self, c: Child) -> u64 {
        match c {
            Child::Ent(v) => v as u64,
            Child::Node(n) => {
                let mut v: Vec<u64> = self.kids(n).into_iter().map(|c| self.id(c)).collect();
                v.sort();
                v.iter().fold(1 + self.nodes[n].kids.len().min(1) as u64, |h, x| mix(h, *x))
            }
        }
    }
    fn fit(&mut self, n: usize) {
        let b: Vec<MBox> = self.kids(n).into_iter().map(|c| self.bounds(c)).collect();
        self.nodes[n].bounds = MBox::union_all(b.iter());
    }
    fn volume(&self, b: &MBox) -> i128 {
        (0..self.dims).map(|d| (b.hi[d] - b.lo[d]) as i128).product()
    }
    /// The children of an inner node that may receive something with these bounds.
    fn best(&self, n: usize, b: &MBox, smallest: bool) -> Vec<usize> {
        let cost = |k: usize| {
            let had = self.nodes[k].bounds.unwrap();
            let v = self.volume(&had);
            (self.volume(&had.union(b)) - v, if smallest { v } else { 0 })
        };
        let k = &self.nodes[n].kids;
        let min = k.iter().map(|k| cost(*k)).min();
        k.iter().copied().filter(|k| Some(cost(*k)) == min).collect()
    }
}

/// What is inserted, one after the other, into the tree `b` to get the tree `a`.
struct Step<'a> {
    a: &'a Tree<'a>,
    ids: &'a [u64],
    cfg: Cfg,
    smallest: bool,
}

impl Step<'_> {
    fn all(&self, b: &Tree, items: &[Child]) -> Res {
        match items {
            [] => {
                let mut top = b.root;
                while b.nodes[top].kids.len() == 1 {
                    top = b.nodes[top].kids[0];
                }
                ensure!(b.id(Child::Node(top)) == self.ids[0], "a removal leaves something else than the other entries where they were");
                EXACT.fetch_add(1, Relaxed);
                Ok(())
            }
            [last] => {
                let r = match self.a.level(0) as i64 - b.level(b.root) as i64 {
                    0 => self.became(b, b.root, &[0], *last, true),
                    1 => self.became(b, b.root, &self.a.nodes[0].kids, *last, true),
                    n => viol!("the height changes by {n}"),
                };
                if r.is_ok() {
                    EXACT.fetch_add(1, Relaxed);
                }
                r
            }
            [first, rest @ ..] => self.choose(b, vec![b.root], *first, rest),
        }
    }
    /// Each choice for an insertion below the end of the path.
    fn choose(&self, b: &Tree, path: Vec<usize>, item: Child, rest: &[Child]) -> Res {
        let n = *path.last().unwrap();
        let bounds = b.bounds(item);
        if b.level(n) == b.home(item) {
            if b.kids(n).len() == self.cfg.0 {
                // what a split makes is not known
                UNKNOWN.fetch_add(1, Relaxed);
                return Ok(());
            }
            let mut c = b.clone();
            match item {
                Child::Ent(v) => c.nodes[n].ents.push(v),
                Child::Node(k) => c.nodes[n].kids.push(k),
            }
            for p in path.iter().rev() {
                c.fit(*p);
            }
            return self.all(&c, rest);
        }
        let mut r = Ok(());
        for k in b.best(n, &bounds, self.smallest) {
            let mut p = path.clone();
            p.push(k);
            r = self.choose(b, p, item, rest);
            if r.is_ok() {
                break;
            }
        }
        r
    }
    /// Node `n` has become the nodes `a` by the insertion of the item. It is
    /// sure that the new node comes last if the parent has not been split.
    fn became(&self, b: &Tree, n: usize, a: &[usize], item: Child, sure: bool) -> Res {
        let total: usize = a.iter().map(|i| self.a.kids(*i).len()).sum();
        match a.len() {
            1 => {}
            2 => {
                ensure!(total == self.cfg.0 + 1, "an insertion splits a node that would have {total} children, of {} allowed", self.cfg.0);
                self.split(a, sure)?;
            }
            n => viol!("an insertion turns one node into {n}"),
        }
        let is: HashMap<u64, Child> = a.iter().flat_map(|i| self.a.kids(*i)).map(|c| (self.id(c), c)).collect();
        if b.level(n) == b.home(item) {
            let was: HashSet<u64> = b.kids(n).into_iter().chain([item]).map(|c| b.id(c)).collect();
            ensure!(
                was == is.keys().copied().collect(),
                "what is inserted into, or put back into, a tree is not added to the node with the children {:?}, which grows least, or not as a whole",
                b.kids(n)
            );
            return Ok(());
        }
        let was: HashMap<u64, usize> = b.nodes[n].kids.iter().map(|k| (b.id(Child::Node(*k)), *k)).collect();
        let gone: Vec<usize> = was.iter().filter(|x| !is.contains_key(x.0)).map(|x| *x.1).collect();
        let new: Vec<usize> = is.iter().filter(|x| !was.contains_key(x.0)).map(|x| self.node(*x.1)).collect::<Res<_>>()?;
        let best = b.best(n, &b.bounds(item), self.smallest);
        if gone.is_empty() && new.len() == 1 {
            // a node was split and one of its halves has what the node had
            let mut r = Ok(());
            for &c in &best {
                r = self.became(b, c, &[self.node(is[&b.id(Child::Node(c))])?, new[0]], item, a.len() == 1);
                if r.is_ok() {
                    break;
                }
            }
            return r;
        }
        ensure!(gone.len() == 1, "an insertion changes {} of the {} children of a node", gone.len(), b.nodes[n].kids.len());
        ensure!(best.contains(&gone[0]), "an insertion takes a child that does not grow least");
        self.became(b, gone[0], &new, item, a.len() == 1)
    }
    fn node(&self, c: Child) -> Res<usize> {
        match c {
            Child::Node(n) => Ok(n),
            Child::Ent(_) => viol!("an entry is among nodes"),
        }
    }
    fn id(&self, c: Child) -> u64 {
        match c {
            Child::Node(n) => self.ids[n],
            c => self.a.id(c),
        }
    }
    /// Children in two groups with a wide gap between them come apart there.
    fn split(&self, a: &[usize], sure: bool) -> Res {
        let firsts: Vec<usize> = if sure {
            let kids = &self.a.nodes[self.a.nodes[a[0]].parent.unwrap()].kids;
            let at = |n: usize| kids.iter().position(|k| *k == n);
            vec![(at(a[0]) > at(a[1])) as usize]
        } else {
            vec![0, 1]
        };
        SPLITS.fetch_add(1, Relaxed);
        let halves: Vec<Vec<MBox>> = a.iter().map(|n| self.a.kids(*n).into_iter().map(|c| self.a.bounds(c)).collect()).collect();
        let all: Vec<MBox> = halves.concat();
        let min = self.cfg.1.max(1);
        for d in 0..self.a.dims {
            let o = (0..self.a.dims).filter(|x| *x != d);
            if !o.clone().all(|x| all.iter().all(|b| b.lo[x] == all[0].lo[x] && b.hi[x] == all[0].hi[x] && b.lo[x] < b.hi[x])) {
                continue;
            }
            let mut s = all.clone();
            s.sort_by_key(|b| b.lo[d]);
            for i in min..=s.len().saturating_sub(min) {
                let (l, r) = s.split_at(i);
                if l.is_empty() || r.is_empty() {
                    continue;
                }
                let (left, right) = (l, r);
                let span = |v: &[MBox]| {
                    let b = MBox::union_all(v.iter()).unwrap();
                    (b.lo[d], b.hi[d])
                };
                let (l, r) = (span(l), span(r));
                if r.0 - l.1 <= (l.1 - l.0).max(r.1 - r.0) {
                    continue;
                }
                GAPS.fetch_add(1, Relaxed);
                if self.a.level(a[0]) > 0 {
                    INNER_GAPS.fetch_add(1, Relaxed);
                }
                let (x, y) = (span(&halves[0]), span(&halves[1]));
                if known(min, left, right, &halves, &firsts) {
                    KNOWN.fetch_add(1, Relaxed);
                    continue;
                }
                ensure!(
                    (x == l && y == r) || (x == r && y == l),
                    "a node whose children are at {l:?} and, far away, at {r:?} is split into nodes at {x:?} and at {y:?}"
                );
            }
        }
        Ok(())
    }
}

/// The listed finding: the first group has exactly the fewest children allowed
/// and gets one child of the other group, and all others are where they should be.
fn known(min: usize, l: &[MBox], r: &[MBox], halves: &[Vec<MBox>], firsts: &[usize]) -> bool {
    for (small, large) in [(l, r), (r, l)] {
        for f in firsts {
            let (with, rest) = (&halves[*f], &halves[1 - *f]);
            if small.len() == min && with.len() == min + 1 && rest.iter().all(|b| large.contains(b)) {
                let mut v = with.clone();
                v.retain(|b| !small.contains(b));
                if v.len() == 1 && large.contains(&v[0]) {
                    return true;
                }
            }
        }
    }
    false
}

fn permutations(v: &[Child]) -> Vec<Vec<Child>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut w = v.to_vec();
        let x = w.remove(i);
        for mut p in permutations(&w) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}

fn check<V: Variant>(r: &mut Run<V>, a: &Dump, op: Option<Op>) -> Res {
    let (Some(op), Some((_, before))) = (op, r.hist.split_last()) else { return Ok(()) };
    if !matches!(op, Op::Ins(_) | Op::Uni(_) | Op::Rem(_)) {
        return Ok(());
    }
    let p = Run::<V>::build(r.alpha, r.cfg, before)?;
    let d = p.dump()?;
    let mut keys: HashMap<u32, MBox> = HashMap::new();
    for e in p.model.iter().chain(r.model.iter()) {
        keys.insert(e.1, r.alpha.boxes[e.0 as usize]);
    }
    let a = &Tree::of(a, &keys, V::D);
    let ids: Vec<u64> = (0..a.nodes.len()).map(|n| a.id(Child::Node(n))).collect();
    let step = Step { a, ids: &ids, cfg: r.cfg, smallest: !matches!(op, Op::Uni(_)) };
    let mut b = Tree::of(&d, &keys, V::D);
    if r.model.len() == p.model.len() + 1 {
        INSERTS.fetch_add(1, Relaxed);
        return step.all(&b, &[Child::Ent(r.stamp)]);
    }
    if r.model.len() + 1 != p.model.len() {
        return Ok(());
    }
    // a removal: the nodes of the path that have become too small are gone
    let now: HashSet<u32> = r.model.iter().map(|e| e.1).collect();
    let gone = p.model.iter().map(|e| e.1).find(|v| !now.contains(v)).unwrap();
    let Some(mut n) = b.nodes.iter().position(|n| n.ents.contains(&gone)) else {
        viol!("the entry with the value {gone} is in no leaf");
    };
    b.nodes[n].ents.retain(|v| *v != gone);
    b.fit(n);
    let mut back: Vec<Vec<Child>> = vec![];
    while let Some(up) = b.nodes[n].parent {
        let kids = b.kids(n);
        if kids.len() < r.cfg.1.max(1) {
            b.nodes[up].kids.retain(|k| *k != n);
            back.push(kids);
        }
        b.fit(up);
        n = up;
    }
    if back.is_empty() {
        return Ok(());
    }
    while b.nodes[b.root].kids.len() == 1 {
        b.root = b.nodes[b.root].kids[0];
    }
    DISSOLVED.fetch_add(1, Relaxed);
    // nodes are put back as they are
    for c in back.iter().flatten().filter(|c| matches!(c, Child::Node(_))) {
        ensure!(ids.contains(&b.id(*c)), "a removal takes a node apart, or changes it, that has to be put back");
    }
    // the rest of a dissolved node is put back in some order, leaves first
    let mut orders: Vec<Vec<Child>> = vec![vec![]];
    for level in &back {
        if level.len() > 3 {
            return Ok(());
        }
        let p = permutations(level);
        orders = orders.iter().flat_map(|o| p.iter().map(move |p| [o.as_slice(), p].concat())).collect();
    }
    let mut res = Ok(());
    for o in orders {
        res = step.all(&b, &o);
        if res.is_ok() {
            break;
        }
    }
    res
}

fn plan(ctx: &Ctx) -> Plan {
    let mut p = structural(ctx);
    let t = ctx.thorough();
    let rows: Vec<Cfg> = vec![(2, 1), (3, 1), (4, 1), (4, 2), (5, 2), (6, 3)];
    p.bfs = vec![
        ("mix", 4, "ir", ctx.qt(7, 8), 20, SMALL.to_vec()),
        ("nest", 3, "iur", ctx.qt(7, 9), 20, SMALL.to_vec()),
        ("row:4", 4, "ir", ctx.qt(7, 9), 20, rows.clone()),
        ("row:6", 6, "iu", ctx.qt(6, 8), 20, rows.clone()),
    ];
    p.scripts.push(("row", 64, wide(t)));
    p.scripts.push(("row", 63, rows.clone()));
    p.around = vec![
        ("row", 16, vec![5, 8, 9, 13, 16], "ir", ctx.qt(2, 3), rows),
        ("scat", 20, vec![9, 13, 20], "ir", 2, vec![(4, 2), (5, 2), (6, 3), (7, 3)]),
        ("over", 14, vec![9, 12, 14], "ir", 2, vec![(4, 2), (7, 3)]),
    ];
    p.walks = vec![
        ("scat", 150, 150, ctx.qt(13, 3), LARGE.to_vec()),
        ("row", 128, 128, ctx.qt(7, 3), LARGE.to_vec()),
        ("over", 60, 180, ctx.qt(19, 5), TALL.to_vec()),
    ];
    p
}

fn rows(ctx: &Ctx) -> Plan {
    let mut p = side(ctx);
    p.bfs = vec![("row:4", 4, "ir", ctx.qt(6, 8), 20, vec![(2, 1), (3, 1), (4, 2)])];
    p.scripts = vec![("row", 32, vec![(2, 1), (3, 1), (4, 2), (5, 2)]), ("scat", 30, vec![(2, 1), (4, 2), (7, 3)])];
    p
}

fn run(ctx: &Ctx) {
    explore_all!(ctx, check; plan(ctx) => [Bi2]; rows(ctx) => [TagV, PtV, Bi3, Bi1, Bd2]);
    ctx.add("insertions", INSERTS.load(Relaxed));
    ctx.add("splits", SPLITS.load(Relaxed));
    ctx.add("splits_with_a_gap", GAPS.load(Relaxed));
    ctx.add("splits_of_inner_nodes_with_a_gap", INNER_GAPS.load(Relaxed));
    ctx.add("splits_as_in_the_known_finding", KNOWN.load(Relaxed));
    ctx.add("removals_that_dissolve_nodes", DISSOLVED.load(Relaxed));
    ctx.add("changes_explained", EXACT.load(Relaxed));
    ctx.add("changes_with_a_split_in_between", UNKNOWN.load(Relaxed));
    std_notes(ctx);
    ctx.note("assume3", "of several parts that are put back, the places of those after one that splits a node are not checked");
}

fn one(c: &Case, _: Tier) -> Res {
    pick!(c.get("V"); [Bi2, TagV, PtV, Bi3, Bi1, Bd2]; V => replay::<V>(c, &check::<V>))
}

fn main() {
    rtree_mc::main_for("C42", "model_checking", run, one)
}
