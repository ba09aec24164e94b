//! C06: ranked iteration is complete and in ascending order.
use rtree_mc::prelude::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static QUERIES: AtomicU64 = AtomicU64::new(0);

pub fn check<V: Variant>(r: &mut Run<V>, _: &Dump, _: Option<Op>) -> Res {
    let cap = r.model.len();
    let nk = r.alpha.len();
    let alpha = r.alpha;
    let mut n = 0;
    for opt in [false, true] {
        // only the keys that occur matter, and unused ones take the lowest rank
        for ranks in rank_tables(nk, 3, 4, opt) {
            for mode in ['t', 'l', 'a'] {
                let rank = Rank::<V> { alpha, ranks: &ranks, mode };
                let tell = || format!("ranks {ranks:?}, bounds metric {mode}");
                let mut want: Vec<(u32, u8, u32)> =
                    r.model.iter().filter_map(|e| ranks[e.0 as usize].map(|x| (x, e.0, e.1))).collect();
                want.sort();
                let judge = |got: Vec<(u8, u32)>, what: &str| -> Res<Option<(u8, u32)>> {
                    let first = got.first().copied();
                    let ms: Vec<Option<u32>> = got.iter().map(|e| ranks[e.0 as usize]).collect();
                    ensure!(ms.windows(2).all(|w| w[0] <= w[1]), "{what} with {}: metrics {ms:?} are not ascending", tell());
                    same_set(
                        got.iter().map(|e| (ranks[e.0 as usize].unwrap_or(NEVER), e.0, e.1)).collect(),
                        want.clone(),
                        &format!("{what} with {}", tell()),
                    )?;
                    Ok(first)
                };
                macro_rules! forms {
                    ($r:expr, $it:ident, $itm:ident, $min:ident, $minm:ident, $n1:literal) => {{
                        let a = capped(r.tree.$it($r).map(|(k, v)| (alpha.id(k) as u8, *v)), cap, $n1)?;
                        let fa = judge(a, $n1)?;
                        let m = r.tree.$min($r).map(|(k, v)| (alpha.id(k) as u8, *v));
                        ensure!(m == fa, "{} min form with {}: {m:?} instead of {fa:?}", $n1, tell());
                        let b = capped(r.tree.$itm($r).map(|(k, v)| (alpha.id(k) as u8, *v)), cap, $n1)?;
                        let fb = judge(b, concat!("mutable ", $n1))?;
                        let m = r.tree.$minm($r).map(|(k, v)| (alpha.id(k) as u8, *v));
                        ensure!(m == fb, "mutable {} min form with {}: {m:?} instead of {fb:?}", $n1, tell());
                        n += 4;
                    }};
                }
                if opt {
                    forms!(ORank(rank.clone()), filter_iter_asc_by, filter_iter_asc_by_mut, filter_min_by, filter_min_by_mut, "filtered ranked iteration");
                } else {
                    forms!(rank.clone(), iter_asc_by, iter_asc_by_mut, min_by, min_by_mut, "ranked iteration");
                }
            }
        }
    }
    QUERIES.fetch_add(n, Relaxed);
    Ok(())
}

fn run(ctx: &Ctx) {
    rtree_mc::giants::run(ctx, &["ranked"]);
    explore_all!(ctx, check; ranking(ctx) => [Bi2]; querying_side(ctx) => [TagV, Bi3, PtV, LnV]);
    ctx.add("queries", QUERIES.load(Relaxed));
    std_notes(ctx);
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    pick!(c.get("V"); [Bi2, TagV, Bi3, PtV, LnV]; V => replay::<V>(c, &check::<V>))
}

fn main() {
    rtree_mc::main_for("C06", "model_checking", run, one)
}
