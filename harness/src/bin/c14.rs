//! C14: mutable access reaches each value once and changes nothing else.
use rtree_mc::prelude::*;
use rusty_rtree::contains::Contains;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static QUERIES: AtomicU64 = AtomicU64::new(0);

/// Keeps all references of a mutable query at once and writes through them in
/// reverse order. Returns the values that were found.
fn write_all<'t>(refs: Vec<&'t mut u32>, base: u32, what: &str) -> Res<Vec<u32>> {
    let mut at: Vec<*const u32> = refs.iter().map(|r| &**r as *const u32).collect();
    at.sort();
    ensure!(at.windows(2).all(|w| w[0] != w[1]), "{what} hands out two references to the same value");
    let old: Vec<u32> = refs.iter().map(|r| **r).collect();
    for (i, r) in refs.into_iter().enumerate().rev() {
        *r = base + i as u32;
    }
    Ok(old)
}

pub fn check<V: Variant>(r: &mut Run<V>, d0: &Dump, _: Option<Op>) -> Res
where
    V::B: Contains<V::B>,
{
    let alpha = r.alpha;
    let nk = alpha.len();
    let cap = r.model.len();
    let mut n = 0;
    let mut base = 1_000_000;
    // runs a mutable query and its shared form
    macro_rules! q {
        ($what:expr, $shared:expr, $mutable:expr) => {{
            let what: String = $what;
            let want: Vec<u32> = capped($shared, cap, &what)?;
            base += 1000;
            let refs: Vec<&mut u32> = capped($mutable, cap, &what)?;
            let old = write_all(refs, base, &what)?;
            same_set(old.clone(), want, &format!("{what}: values of the mutable and of the shared form"))?;
            // the model follows the writes
            for e in r.model.iter_mut() {
                if let Some(i) = old.iter().position(|o| *o == e.1) {
                    e.1 = base + i as u32;
                }
            }
            r.check_contents().map_err(|e| match e {
                Fail::Violation(m) => Fail::Violation(format!("after writes through {what}: {m}")),
                e => e,
            })?;
            n += 1;
        }};
    }
    q!("iter_mut".into(), r.tree.iter().map(|e| *e.1), r.tree.iter_mut().map(|e| e.1));
    q!("&mut tree".into(), (&r.tree).into_iter().map(|e| *e.1), (&mut r.tree).into_iter().map(|e| e.1));
    for k in 0..nk {
        let key = alpha.keys[k].clone();
        q!(format!("get_mut of key {k}"), r.tree.get(&key).copied().into_iter(), r.tree.get_mut(&key).into_iter());
    }
    for mask in masks(nk, 4) {
        let f = Sub::<V> { alpha, mask, mode: 't' };
        q!(
            format!("filter_iter_mut for the keys {mask:#b}"),
            r.tree.filter_iter::<V::K, _>(f.clone()).map(|e| *e.1),
            r.tree.filter_iter_mut::<V::K, _>(f.clone()).map(|e| e.1)
        );
    }
    for ranks in rank_tables(nk, 2, 4, false) {
        let f = Rank::<V> { alpha, ranks: &ranks, mode: 't' };
        q!(
            format!("iter_asc_by_mut with {ranks:?}"),
            r.tree.iter_asc_by(f.clone()).map(|e| *e.1),
            r.tree.iter_asc_by_mut(f.clone()).map(|e| e.1)
        );
        q!(
            format!("min_by_mut with {ranks:?}"),
            r.tree.min_by(f.clone()).map(|e| *e.1).into_iter(),
            r.tree.min_by_mut(f.clone()).map(|e| e.1).into_iter()
        );
    }
    for ranks in rank_tables(nk, 3, 4, true) {
        let f = ORank(Rank::<V> { alpha, ranks: &ranks, mode: 't' });
        q!(
            format!("filter_iter_asc_by_mut with {ranks:?}"),
            r.tree.filter_iter_asc_by(f.clone()).map(|e| *e.1),
            r.tree.filter_iter_asc_by_mut(f.clone()).map(|e| e.1)
        );
        q!(
            format!("filter_min_by_mut with {ranks:?}"),
            r.tree.filter_min_by(f.clone()).map(|e| *e.1).into_iter(),
            r.tree.filter_min_by_mut(f.clone()).map(|e| e.1).into_iter()
        );
    }
    r.check_lookups()?;
    let d1 = r.dump()?;
    ensure!(d0.canon == d1.canon, "queries have changed the structure, the bounds or the keys");
    QUERIES.fetch_add(n, Relaxed);
    Ok(())
}

fn run(ctx: &Ctx) {
    rtree_mc::giants::run(ctx, &["write", "queries", "ranked"]);
    explore_all!(ctx, check; ranking(ctx) => [Bi2]; querying_side(ctx) => [TagV, PtV, Bi3]);
    ctx.add("queries", QUERIES.load(Relaxed));
    std_notes(ctx);
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    pick!(c.get("V"); [Bi2, TagV, PtV, Bi3]; V => replay::<V>(c, &check::<V>))
}

fn main() {
    rtree_mc::main_for("C14", "model_checking", run, one)
}
