//! C25: operations without effect leave the tree as it was, and entries stay
//! whole.
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{Bounded, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static IDLE: AtomicU64 = AtomicU64::new(0);
static WHOLE: AtomicU64 = AtomicU64::new(0);

/// Removals of keys that are not there and unique inserts of keys that are.
fn check<V: Variant>(r: &mut Run<V>, d0: &Dump, _: Option<Op>) -> Res
where
    V::B: Contains<V::B>,
{
    let mut n = 0;
    for k in 0..r.alpha.len() as u8 {
        let key = r.alpha.keys[k as usize].clone();
        if r.has(k) {
            let ents = r.entries()?;
            let new = r.stamp + 1_000;
            let Some(old) = r.tree.insert_unique(key.clone(), new) else {
                viol!("unique insert of key {k} finds no entry with that key, but there is one");
            };
            let mut d = r.dump()?;
            for m in d.nodes.iter_mut() {
                for v in m.ents.iter_mut().filter(|v| **v == new) {
                    *v = old;
                }
            }
            ensure!(d.same(d0), "a unique insert of key {k}, which is there, changes more than one value");
            ensure!(ents.iter().any(|e| *e == (k, old)), "a unique insert of key {k} returns the value {old} of no entry with that key");
            // back again
            let x = r.tree.insert_unique(key, old);
            ensure!(x == Some(new), "a second unique insert of key {k} returns {x:?} instead of {new}");
            let d = r.dump()?;
            ensure!(d.same(d0), "a second unique insert of key {k} does not restore the tree");
        } else {
            let x = r.tree.remove::<V::K>(&key);
            ensure!(x.is_none(), "removal of key {k}, which is not there, returns {x:?}");
            let d = r.dump()?;
            ensure!(d.same(d0), "removal of key {k}, which is not there, changes the tree");
            ensure!(r.tree.len() == r.model.len(), "removal of key {k}, which is not there, changes the length");
        }
        n += 1;
    }
    IDLE.fetch_add(n, Relaxed);
    Ok(())
}

/// A key that equality does not see all of.
#[derive(Clone, Debug)]
struct Who {
    b: SAABB<i32, 2>,
    who: u32,
}
impl PartialEq for Who {
    fn eq(&self, o: &Who) -> bool {
        self.b == o.b
    }
}
impl Eq for Who {}
impl Bounded<SAABB<i32, 2>> for Who {
    fn bounds(&self) -> SAABB<i32, 2> {
        self.b
    }
}

/// Every entry keeps its own key object and its own value through all
/// operations; a unique insert keeps the key that is there.
fn whole(alpha: &str, cfg: Cfg, hist: &[Op]) -> Res {
    let boxes: Vec<SAABB<i32, 2>> = {
        let mut v: Vec<SAABB<i32, 2>> = vec![];
        for b in Bi2::prep(alphabet(alpha, 2)) {
            let b = SAABB { min: SVec([b.lo[0] as i32, b.lo[1] as i32]), max: SVec([b.hi[0] as i32, b.hi[1] as i32]) };
            if !v.contains(&b) {
                v.push(b);
            }
        }
        v
    };
    let mut t: RTree<SAABB<i32, 2>, Who, u32> = RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 });
    // box, key object, value
    let mut model: Vec<(u8, u32, u32)> = vec![];
    let mut id = 0;
    for (i, &op) in hist.iter().enumerate() {
        id += 1;
        match op {
            Op::Ins(k) => {
                t.insert(Who { b: boxes[k as usize], who: id }, 1000 + id);
                model.push((k, id, 1000 + id));
            }
            Op::Uni(k) => match t.insert_unique(Who { b: boxes[k as usize], who: id }, 1000 + id) {
                None => model.push((k, id, 1000 + id)),
                Some(v) => match model.iter_mut().find(|e| e.0 == k && e.2 == v) {
                    Some(e) => e.2 = 1000 + id,
                    None => viol!("operation {i} returns the value {v}, which no entry with its key has"),
                },
            },
            Op::Rem(k) => match t.remove(&Who { b: boxes[k as usize], who: id }) {
                None => ensure!(!model.iter().any(|e| e.0 == k), "operation {i} finds no entry, but there is one"),
                Some(v) => match model.iter().position(|e| e.0 == k && e.2 == v) {
                    Some(j) => {
                        model.swap_remove(j);
                    }
                    None => viol!("operation {i} returns the value {v}, which no entry with its key has"),
                },
            },
            Op::Clo => t = t.clone(),
            Op::Mut => {
                for (_, v) in t.iter_mut() {
                    *v += 5000;
                }
                for e in model.iter_mut() {
                    e.2 += 5000;
                }
            }
        }
        let got = t
            .iter()
            .take(model.len() + 2)
            .map(|(k, v)| (boxes.iter().position(|b| *b == k.b).map_or(255, |x| x as u8), k.who, *v))
            .collect();
        same_set(got, model.clone(), &format!("entries (extent, key object, value) after operation {i}"))?;
        WHOLE.fetch_add(1, Relaxed);
    }
    Ok(())
}

fn plan(ctx: &Ctx) -> Plan {
    let small = SMALL.to_vec();
    let some = vec![(2, 1), (3, 1), (4, 2)];
    Plan {
        only_new: true,
        bfs: vec![
            ("mix", 4, "ir", ctx.qt(7, 9), 20, small.clone()),
            ("mix", 6, "ir", ctx.qt(6, 8), 20, some.clone()),
            ("nest", 3, "ir", ctx.qt(8, 11), 20, small.clone()),
            ("far", 5, "ir", ctx.qt(6, 8), 20, some.clone()),
            ("mix", 1, "ir", 24, 24, small.clone()),
        ],
        scripts: SHAPES.iter().map(|s| (*s, ctx.qt(24, 48), wide(ctx.thorough()))).collect(),
        around: vec![("scat", 20, vec![7, 11, 16, 20], "ir", ctx.qt(1, 2), small.clone()), ("over", 12, vec![6, 9, 12], "ir", ctx.qt(1, 2), small)],
        walks: vec![("scat", 120, 120, ctx.qt(23, 3), LARGE.to_vec()), ("over", 60, 180, ctx.qt(31, 5), TALL.to_vec())],
    }
}

/// Histories with key objects: all sequences, and scripts.
fn objects(ctx: &Ctx) {
    let t = ctx.thorough();
    let mut hs: Vec<(&'static str, Cfg, Vec<Op>)> = vec![];
    for (alpha, nk, menu, depth) in [("mix", 2, "iur", if t { 8 } else { 7 }), ("mix", 3, "ur", if t { 8 } else { 7 }), ("nest", 2, "iur", if t { 8 } else { 6 })] {
        let menu = op_menu(nk, menu);
        let mut all: Vec<Vec<Op>> = vec![vec![]];
        for _ in 0..depth {
            all = all.into_iter().flat_map(|h| menu.iter().map(move |&o| h.iter().copied().chain([o]).collect())).collect();
        }
        for cfg in [(2, 1), (3, 1)] {
            hs.extend(all.iter().map(|h| (alpha, cfg, h.clone())));
        }
    }
    for alpha in ["scat:20", "over:20", "nested:16", "cross:16"] {
        let nk = Bi2::prep(alphabet(alpha, 2)).len();
        for cfg in wide(t) {
            for up in scripts(nk, nk, 'i').into_iter().chain(scripts(nk, 2 * nk, 'u')) {
                for dn in ["asc", "mid"] {
                    hs.push((alpha, cfg, drain(&up, dn, nk)));
                }
            }
            hs.extend(walks(nk, 3 * nk).into_iter().map(|h| (alpha, cfg, h)));
        }
    }
    ctx.par_cases(&hs, |(a, c, h)| format!("W=1 A={a} C={} H={}", fmt_cfg(*c), fmt_hist(h)), |(a, c, h)| whole(a, *c, h));
    ctx.add("traces_validated_against_impl", hs.len() as u64);
    ctx.add("transitions", WHOLE.load(Relaxed));
}

fn run(ctx: &Ctx) {
    explore_all!(ctx, check; plan(ctx) => [Bi2]; side(ctx) => [TagV, PtV, LnV, Bi3, LabelV, AnyV]);
    objects(ctx);
    ctx.add("operations_without_effect", IDLE.load(Relaxed));
    std_notes(ctx);
}

fn one(c: &Case, _: Tier) -> Res {
    if !c.get("W").is_empty() {
        return whole(c.get("A"), parse_cfg(c.get("C")), &parse_hist(c.get("H")));
    }
    pick!(c.get("V"); [Bi2, TagV, PtV, LnV, Bi3, LabelV, AnyV]; V => replay::<V>(c, &check::<V>))
}

fn main() {
    rtree_mc::main_for("C25", "model_checking", run, one)
}
