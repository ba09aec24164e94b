//! C04: a filtered query yields exactly the matching entries, each once.
use rtree_mc::prelude::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static QUERIES: AtomicU64 = AtomicU64::new(0);

pub fn check<V: Variant>(r: &mut Run<V>, _: &Dump, _: Option<Op>) -> Res {
    let cap = r.model.len();
    let all: Vec<(u8, u32)> = r.model.clone();
    same_set(r.entries()?, all.clone(), "unfiltered iteration")?;
    let got: Vec<u32> = capped(r.tree.iter_mut().map(|e| *e.1), cap, "unfiltered mutable iteration")?;
    same_set(got, all.iter().map(|e| e.1).collect(), "unfiltered mutable iteration")?;
    let got: Vec<u32> = capped((&r.tree).into_iter().map(|e| *e.1), cap, "iteration over &tree")?;
    same_set(got, all.iter().map(|e| e.1).collect(), "iteration over &tree")?;
    let got: Vec<u32> = capped((&mut r.tree).into_iter().map(|e| *e.1), cap, "iteration over &mut tree")?;
    same_set(got, all.iter().map(|e| e.1).collect(), "iteration over &mut tree")?;
    let mut n = 4;
    let n_keys = r.alpha.len();
    for mask in masks(n_keys, 6) {
        let want: Vec<(u8, u32)> = all.iter().filter(|e| mask >> e.0 & 1 == 1).copied().collect();
        for mode in ['t', 'i', 'a'] {
            let f = Sub { alpha: r.alpha, mask, mode };
            let alpha = r.alpha;
            let got = capped(
                r.tree.filter_iter::<V::K, _>(f.clone()).map(|(k, v)| (alpha.id(k) as u8, *v)),
                cap,
                "filtered iteration",
            )?;
            same_set(got, want.clone(), &format!("filter for the keys {mask:#b}, bounds test {mode}"))?;
            let got = capped(
                r.tree.filter_iter_mut::<V::K, _>(f).map(|(k, v)| (alpha.id(k) as u8, *v)),
                cap,
                "filtered mutable iteration",
            )?;
            same_set(got, want.clone(), &format!("mutable filter for the keys {mask:#b}, bounds test {mode}"))?;
            n += 2;
        }
    }
    QUERIES.fetch_add(n, Relaxed);
    Ok(())
}

fn run(ctx: &Ctx) {
    rtree_mc::giants::run(ctx, &["queries"]);
    explore_all!(ctx, check; querying(ctx, 1) => [Bi2]; querying_side(ctx) => [TagV, Bi3, Bi1, Bd2, PtV, LnV]);
    ctx.add("queries", QUERIES.load(Relaxed));
    std_notes(ctx);
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    pick!(c.get("V"); [Bi2, TagV, Bi3, Bi1, Bd2, PtV, LnV]; V => replay::<V>(c, &check::<V>))
}

fn main() {
    rtree_mc::main_for("C04", "model_checking", run, one)
}
