//! C07: ranked search is best-first and asks for each metric at most once.
use rtree_mc::prelude::*;
use rusty_rtree::ranking::Ranking;
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn id<T>(x: T) -> T {
    x
}

pub static QUERIES: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
struct Log {
    bounds: Vec<MBox>,
    keys: Vec<u8>,
}

struct Rec<'a, V: Variant> {
    rank: Rank<'a, V>,
    log: &'a RefCell<Log>,
}
impl<'a, V: Variant> Rec<'a, V> {
    fn b(&self, b: &V::B) -> Option<u32> {
        let m = V::mbox(b);
        let Some(x) = m else { vpanic("a ranking was asked about empty bounds".into()) };
        self.log.borrow_mut().bounds.push(x);
        self.rank.of_box(m)
    }
    fn k(&self, k: &V::K) -> Option<u32> {
        let id = self.rank.alpha.id(k);
        self.log.borrow_mut().keys.push(id as u8);
        self.rank.ranks[id]
    }
}
impl<'a, V: Variant> Ranking<V::B, V::K> for Rec<'a, V> {
    type Metric = u32;
    fn bounds_min(&self, b: &V::B) -> u32 {
        self.b(b).unwrap_or(NEVER)
    }
    fn rank_key(&self, k: &V::K) -> u32 {
        self.k(k).unwrap_or(NEVER)
    }
}
struct ORec<'a, V: Variant>(Rec<'a, V>);
impl<'a, V: Variant> Ranking<V::B, V::K> for ORec<'a, V> {
    type Metric = Option<u32>;
    fn bounds_min(&self, b: &V::B) -> Option<u32> {
        self.0.b(b)
    }
    fn rank_key(&self, k: &V::K) -> Option<u32> {
        self.0.k(k)
    }
}

/// From which point of an iteration on each node and key may be asked about:
/// 0 before anything is yielded, 1 + m while results up to the metric m are
/// yielded, END once everything is, never if the node has to stay closed.
struct Pre {
    vals: Vec<MBox>,
    /// per node: index of its bounds
    val: Vec<usize>,
    /// per node: keys of its entries
    keys: Vec<Vec<u8>>,
}

const END: u64 = u64::MAX - 1;

impl Pre {
    fn new<V: Variant>(r: &Run<V>, d: &Dump) -> Pre {
        let mut p = Pre { vals: vec![], val: vec![], keys: vec![] };
        for n in &d.nodes {
            let b = n.bounds.unwrap_or(b2(1, 1, 0, 0));
            let i = p.vals.iter().position(|x| *x == b).unwrap_or_else(|| {
                p.vals.push(b);
                p.vals.len() - 1
            });
            p.val.push(i);
            p.keys.push(n.ents.iter().filter_map(|v| r.key_of(*v)).collect());
        }
        p
    }

    fn limits(&self, d: &Dump, low: &[Option<u32>], nk: usize) -> (Vec<Vec<u64>>, Vec<Vec<u64>>) {
        let mut b = vec![vec![]; self.vals.len()];
        let mut k = vec![vec![]; nk];
        let from = |i: usize| low[i].map_or(u64::MAX, |x| 1 + x as u64);
        for (i, n) in d.nodes.iter().enumerate() {
            b[self.val[i]].push(n.parent.map_or(0, from));
            for x in &self.keys[i] {
                k[*x as usize].push(from(i));
            }
        }
        b.iter_mut().for_each(|v| v.sort());
        k.iter_mut().for_each(|v| v.sort());
        (b, k)
    }
}

/// Checks what has been asked for up to each result.
fn judge(pre: &Pre, lim: &(Vec<Vec<u64>>, Vec<Vec<u64>>), steps: &[(u64, usize, usize)], log: &Log, what: &dyn Fn() -> String) -> Res {
    let mut nb = vec![0; pre.vals.len()];
    let mut nk = vec![0; lim.1.len()];
    let (mut ib, mut ik) = (0, 0);
    let tell = |s: u64| match s {
        0 => "before any result".to_string(),
        END => "after all results".to_string(),
        m => format!("up to the result with the metric {}", m - 1),
    };
    for &(s, b, k) in steps {
        for x in &log.bounds[ib..b] {
            let Some(i) = pre.vals.iter().position(|y| x == y) else {
                viol!("{}: the bounds {x:?} are ranked, which no node has", what());
            };
            let ok = lim.0[i].get(nb[i]).map_or(false, |t| *t <= s);
            nb[i] += 1;
            ensure!(ok, "{}: {}, the bounds {x:?} have been ranked {} times, which opens a node too early or twice", what(), tell(s), nb[i]);
        }
        for &x in &log.keys[ik..k] {
            let i = x as usize;
            let ok = lim.1[i].get(nk[i]).map_or(false, |t| *t <= s);
            nk[i] += 1;
            ensure!(ok, "{}: {}, the key {x} has been ranked {} times, which opens a leaf too early or twice", what(), tell(s), nk[i]);
        }
        (ib, ik) = (b, k);
    }
    Ok(())
}

pub fn check<V: Variant>(r: &mut Run<V>, d: &Dump, _: Option<Op>) -> Res {
    let cap = r.model.len();
    let nk = r.alpha.len();
    let alpha = r.alpha;
    let mut n = 0;
    let pre = Pre::new(r, d);
    for opt in [false, true] {
        for ranks in rank_tables(nk, 3, 4, opt) {
            for mode in ['t', 'l', 'a'] {
                let rank = Rank::<V> { alpha, ranks: &ranks, mode };
                let low: Vec<Option<u32>> = d
                    .nodes
                    .iter()
                    .map(|x| rank.of_box(x.bounds).or(if opt { None } else { Some(NEVER) }))
                    .collect();
                let first = r.model.iter().filter_map(|e| ranks[e.0 as usize]).min();
                let lim = pre.limits(d, &low, nk);
                macro_rules! form {
                    ($wrap:expr, $it:ident, $min:ident) => {{
                        let what = || format!("{} with ranks {ranks:?}, bounds metric {mode}", stringify!($it));
                        let log = RefCell::new(Log::default());
                        let mut steps = vec![];
                        let mut at = |s: u64| steps.push((s, log.borrow().bounds.len(), log.borrow().keys.len()));
                        {
                            let mut it = r.tree.$it($wrap(Rec { rank: rank.clone(), log: &log }));
                            at(0);
                            let mut got = 0;
                            while let Some((k, _)) = it.next() {
                                at(1 + ranks[alpha.id(k)].unwrap_or(NEVER) as u64);
                                got += 1;
                                ensure!(got <= cap, "{}: more than {cap} results", what());
                            }
                            at(END);
                        }
                        judge(&pre, &lim, &steps, &log.borrow(), &what)?;
                        log.replace(Log::default());
                        let _ = r.tree.$min($wrap(Rec { rank: rank.clone(), log: &log }));
                        let s = first.map_or(END, |m| 1 + m as u64);
                        let l = log.take();
                        judge(&pre, &lim, &[(s, l.bounds.len(), l.keys.len())], &l, &what)?;
                        n += 2;
                    }};
                }
                if opt {
                    form!(ORec, filter_iter_asc_by, filter_min_by);
                    form!(ORec, filter_iter_asc_by_mut, filter_min_by_mut);
                } else {
                                        form!(id, iter_asc_by, min_by);
                    form!(id, iter_asc_by_mut, min_by_mut);
                }
            }
        }
    }
    QUERIES.fetch_add(n, Relaxed);
    Ok(())
}

fn run(ctx: &Ctx) {
    rtree_mc::giants::run(ctx, &["best"]);
    explore_all!(ctx, check; ranking(ctx) => [Bi2]; querying_side(ctx) => [TagV, PtV]);
    ctx.add("queries", QUERIES.load(Relaxed));
    std_notes(ctx);
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    pick!(c.get("V"); [Bi2, TagV, PtV]; V => replay::<V>(c, &check::<V>))
}

fn main() {
    rtree_mc::main_for("C07", "model_checking", run, one)
}
