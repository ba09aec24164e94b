//! C26: operations change one path of the tree only.
use rtree_mc::giants::{mbox, Giant, SPECS};
use rtree_mc::prelude::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static INSERTS: AtomicU64 = AtomicU64::new(0);
static SPLITS: AtomicU64 = AtomicU64::new(0);
static REMOVALS: AtomicU64 = AtomicU64::new(0);

fn mix(h: u64, x: u64) -> u64 {
    let mut z = h.rotate_left(23) ^ x.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z = (z ^ z >> 29).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z ^ z >> 32
}

/// An identity for each node: its entries and nodes below, in any order.
fn ids(d: &Dump) -> Vec<u64> {
    let mut id = vec![0; d.nodes.len()];
    for i in (0..d.nodes.len()).rev() {
        let n = &d.nodes[i];
        let mut v: Vec<u64> = n.kids.iter().map(|k| id[*k]).chain(n.ents.iter().map(|e| *e as u64)).collect();
        v.sort();
        id[i] = v.iter().fold(if n.kids.is_empty() { 1 } else { 2 }, |h, x| mix(h, *x));
    }
    id
}

fn volume(b: &MBox, dims: usize) -> i128 {
    (0..dims).map(|d| (b.hi[d] - b.lo[d]) as i128).product()
}

struct Ins<'a> {
    b: &'a Dump,
    bi: Vec<u64>,
    a: &'a Dump,
    ai: Vec<u64>,
    val: u32,
    key: MBox,
    max: usize,
    dims: usize,
    by_volume: bool,
    /// among the children that grow least, the smallest is taken
    smallest: bool,
}

impl Ins<'_> {
    /// Node `b` before the insertion has become the nodes `a`: one, or two by a split.
    fn became(&self, b: usize, a: &[usize]) -> Res {
        let nb = &self.b.nodes[b];
        let total: usize = a.iter().map(|i| self.a.nodes[*i].kids.len() + self.a.nodes[*i].ents.len()).sum();
        match a.len() {
            1 => {}
            2 => {
                ensure!(total == self.max + 1, "an insertion splits a node that would have {total} children, of {} allowed", self.max);
                SPLITS.fetch_add(1, Relaxed);
            }
            n => viol!("an insertion turns one node into {n}"),
        }
        if nb.kids.is_empty() {
            let was: HashSet<u32> = nb.ents.iter().copied().chain([self.val]).collect();
            let is: HashSet<u32> = a.iter().flat_map(|i| self.a.nodes[*i].ents.iter().copied()).collect();
            ensure!(was == is && total == was.len(), "an insertion turns a leaf with the values {:?} into leaves with {is:?}", nb.ents);
            return Ok(());
        }
        let was: HashMap<u64, usize> = nb.kids.iter().map(|k| (self.bi[*k], *k)).collect();
        let is: HashMap<u64, usize> = a.iter().flat_map(|i| &self.a.nodes[*i].kids).map(|k| (self.ai[*k], *k)).collect();
        let gone: Vec<usize> = was.iter().filter(|x| !is.contains_key(x.0)).map(|x| *x.1).collect();
        let new: Vec<usize> = is.iter().filter(|x| !was.contains_key(x.0)).map(|x| *x.1).collect();
        if gone.is_empty() && new.len() == 1 {
            // a node was split and one of its halves has what the node had
            let mut r = Ok(());
            for &c in &nb.kids {
                r = self.chosen(nb, c).and_then(|_| self.became(c, &[is[&self.bi[c]], new[0]]));
                if r.is_ok() {
                    break;
                }
            }
            return r;
        }
        ensure!(gone.len() == 1, "an insertion changes {} of the {} children of a node at depth {}", gone.len(), nb.kids.len(), nb.depth);
        self.chosen(nb, gone[0])?;
        self.became(gone[0], &new)
    }

    /// The child `c` grows least and is, among those that do, the smallest.
    fn chosen(&self, nb: &DNode, c: usize) -> Res {
        if self.by_volume {
            let cost = |k: usize| -> Option<(i128, i128)> {
                let b = self.b.nodes[k].bounds?;
                let v = volume(&b, self.dims);
                Some((volume(&b.union(&self.key), self.dims) - v, if self.smallest { v } else { 0 }))
            };
            let best = nb.kids.iter().filter_map(|k| cost(*k)).min();
            ensure!(
                cost(c) == best,
                "an insertion takes a child that grows by a volume of {:?} and has {:?}, although another one grows by {:?} and has {:?}",
                cost(c).map(|x| x.0), cost(c).map(|x| x.1), best.map(|x| x.0), best.map(|x| x.1)
            );
        }
        Ok(())
    }
}

/// The value `gone` was removed from the leaf `at` of the tree `b`, which is now `a`.
fn removed(b: &Dump, a: &Dump, mut at: usize, gone: u32, min: usize) -> Res {
    let ai = ids(a);
    // does the path keep the minimum fill?
    if b.nodes[at].parent.is_some() && b.nodes[at].ents.len() <= min {
        return Ok(());
    }
    REMOVALS.fetch_add(1, Relaxed);
    let mut want = b.clone();
    want.nodes[at].ents.retain(|v| *v != gone);
    let wi = ids(&want);
    ensure!(wi[0] == ai[0], "a removal that leaves enough entries in the leaf changes more than this leaf");
    // the bounds beside the path are as before
    let mut path = HashSet::from([at]);
    while let Some(q) = b.nodes[at].parent {
        path.insert(q);
        at = q;
    }
    let mut had: HashMap<u64, Vec<Option<MBox>>> = HashMap::new();
    for (i, n) in b.nodes.iter().enumerate().filter(|x| !path.contains(&x.0)) {
        had.entry(wi[i]).or_default().push(n.bounds);
    }
    for (i, n) in a.nodes.iter().enumerate() {
        if let Some(v) = had.get(&ai[i]) {
            ensure!(v.contains(&n.bounds), "a removal changes the bounds of a node beside its path to {:?}", n.bounds);
        }
    }
    Ok(())
}

/// The last insertions into, and some removals from, a giant tree.
fn path(name: &str, last: usize) -> Res {
    let (mut g, rest) = Giant::grown(name, last);
    let mut b = g.dump()?;
    for k in rest {
        g.insert(k);
        let a = g.dump()?;
        INSERTS.fetch_add(1, Relaxed);
        let i = Ins { b: &b, bi: ids(&b), a: &a, ai: ids(&a), val: g.live.len() as u32 - 1, key: mbox(&k), max: g.cfg.0, dims: 2, by_volume: true, smallest: true };
        match a.height() as i64 - b.height() as i64 {
            0 => i.became(0, &[0])?,
            1 => i.became(0, &a.nodes[0].kids)?,
            n => viol!("{name}: an insertion changes the height by {n}"),
        }
        b = a;
    }
    for i in 0..last {
        let at = i * (g.live.len() / last);
        let Some(k) = g.live[at] else { continue };
        let Some(gone) = g.tree.remove(&k) else { viol!("{name}: the removal of {k:?} finds nothing") };
        g.live[gone as usize] = None;
        let a = g.dump()?;
        let Some(at) = b.nodes.iter().position(|n| n.ents.contains(&gone)) else {
            viol!("{name}: the entry with the value {gone} is in no leaf");
        };
        removed(&b, &a, at, gone, g.cfg.1)?;
        b = a;
    }
    Ok(())
}

fn check<V: Variant>(r: &mut Run<V>, a: &Dump, op: Option<Op>) -> Res {
    judge(r, a, op, true)
}

/// Without the choice of the child, for bounds with volumes of their own.
fn check_any<V: Variant>(r: &mut Run<V>, a: &Dump, op: Option<Op>) -> Res {
    judge(r, a, op, false)
}

fn judge<V: Variant>(r: &mut Run<V>, a: &Dump, op: Option<Op>, by_volume: bool) -> Res {
    let (Some(op), Some((_, before))) = (op, r.hist.split_last()) else { return Ok(()) };
    let p = Run::<V>::build(r.alpha, r.cfg, before)?;
    let b = &p.dump()?;
    let (ai, bi) = (ids(a), ids(b));
    match op {
        Op::Ins(k) | Op::Uni(k) if r.model.len() == p.model.len() + 1 => {
            INSERTS.fetch_add(1, Relaxed);
            let i = Ins { b, bi, a, ai, val: r.stamp, key: r.alpha.boxes[k as usize], max: r.cfg.0, dims: V::D, by_volume, smallest: matches!(op, Op::Ins(_)) };
            match a.height() as i64 - b.height() as i64 {
                0 => i.became(0, &[0]),
                1 => {
                    let kids = &a.nodes[0].kids;
                    ensure!(kids.len() == 2, "an insertion makes a new root with {} children", kids.len());
                    i.became(0, kids)
                }
                n => viol!("an insertion changes the height by {n}"),
            }
        }
        Op::Rem(_) if r.model.len() + 1 == p.model.len() => {
            let now: HashSet<u32> = r.model.iter().map(|e| e.1).collect();
            let gone = p.model.iter().map(|e| e.1).find(|v| !now.contains(v)).unwrap();
            let Some(at) = b.nodes.iter().position(|n| n.ents.contains(&gone)) else {
                viol!("the entry with the value {gone} is in no leaf");
            };
            removed(b, a, at, gone, r.cfg.1)
        }
        _ => Ok(()),
    }
}

fn plan(ctx: &Ctx) -> Plan {
    let mut p = structural(ctx);
    let t = ctx.thorough();
    // every transition is checked, on two trees
    p.bfs = vec![
        ("mix", 4, "ir", ctx.qt(7, 9), 20, SMALL.to_vec()),
        ("mix", 3, "iur", ctx.qt(7, 9), 20, SMALL.to_vec()),
        ("nest", 3, "ir", ctx.qt(8, 10), 20, SMALL.to_vec()),
        ("far", 5, "ir", ctx.qt(6, 8), 20, vec![(2, 1), (3, 1), (4, 2)]),
        ("over:5", 5, "ir", ctx.qt(6, 8), 20, vec![(2, 1), (3, 1), (4, 2)]),
    ];
    if !t {
        p.around.truncate(4);
    }
    p.walks = vec![
        ("scat", 200, 200, ctx.qt(13, 3), LARGE.to_vec()),
        ("over", 60, 180, ctx.qt(19, 5), TALL.to_vec()),
        ("grid", 256, 600, ctx.qt(131, 41), vec![(2, 1), (200, 2)]),
    ];
    p
}

fn run(ctx: &Ctx) {
    let giants: Vec<_> = SPECS.iter().filter(|s| s.0 != "leaf").map(|s| (s.0, if s.2 > 10_000 { 40 } else { ctx.qt(200, 1000) })).collect();
    ctx.par_cases(&giants, |g| format!("G={} L={}", g.0, g.1), |g| path(g.0, g.1));
    ctx.add("giant_trees", giants.len() as u64);
    explore_all!(ctx, check; plan(ctx) => [Bi2]; side(ctx) => [TagV, PtV, LnV, Bi3, Bi1, Bd2]);
    explore_all!(ctx, check_any; side(ctx) => [LossyV<0>, LossyV<1>, LossyV<2>, LabelV]; side(ctx) => []);
    ctx.add("insertions", INSERTS.load(Relaxed));
    ctx.add("splits", SPLITS.load(Relaxed));
    ctx.add("removals_without_underfull_nodes", REMOVALS.load(Relaxed));
    std_notes(ctx);
}

fn one(c: &Case, _: Tier) -> Res {
    if !c.get("G").is_empty() {
        return path(c.get("G"), c.num("L"));
    }
    let v = c.get("V");
    if ["boxi2", "tagi2", "pti2", "lni2", "boxi3", "boxi1", "boxd2"].contains(&v) {
        return pick!(v; [Bi2, TagV, PtV, LnV, Bi3, Bi1, Bd2]; V => replay::<V>(c, &check::<V>));
    }
    pick!(v; [LossyV<0>, LossyV<1>, LossyV<2>, LabelV]; V => replay::<V>(c, &check_any::<V>))
}

fn main() {
    rtree_mc::main_for("C26", "model_checking", run, one)
}
