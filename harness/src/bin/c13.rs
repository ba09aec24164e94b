//! C13: all key operations agree on which of several equal keys is the first.
use rtree_mc::prelude::*;
use rusty_rtree::contains::Contains;

pub fn check<V: Variant>(r: &mut Run<V>, _: &Dump, _: Option<Op>) -> Res
where
    V::B: Contains<V::B>,
{
    let ents = r.entries()?;
    for k in 0..r.alpha.len() as u8 {
        let key = r.alpha.keys[k as usize].clone();
        let first = ents.iter().find(|e| e.0 == k).map(|e| e.1);
        let g = r.tree.get(&key).copied();
        ensure!(g == first, "get of key {k} shows {g:?}, the first in iteration order is {first:?}");
        let g = r.tree.get_mut(&key).map(|v| *v);
        ensure!(g == first, "get_mut of key {k} shows {g:?}, the first in iteration order is {first:?}");
        let Some(first) = first else { continue };
        let rest: Vec<(u8, u32)> = ents.iter().filter(|e| e.1 != first).copied().collect();

        let mut t = r.rebuild()?;
        let g = t.tree.remove::<V::K>(&key);
        ensure!(g == Some(first), "remove of key {k} returns {g:?}, the first in iteration order is {first}");
        let got = t.tree.iter().map(|(k, v)| (r.alpha.id(k) as u8, *v)).collect();
        same_set(got, rest.clone(), &format!("entries after the removal of key {k}"))?;

        let mut t = r.rebuild()?;
        let new = 1_000_000;
        let g = t.tree.insert_unique(key.clone(), new);
        ensure!(g == Some(first), "unique insert of key {k} returns {g:?}, the first in iteration order is {first}");
        let got: Vec<(u8, u32)> = t.tree.iter().map(|(k, v)| (r.alpha.id(k) as u8, *v)).collect();
        let mut want = rest;
        want.push((k, new));
        same_set(got.clone(), want, &format!("entries after the unique insert of key {k}"))?;
        // the replaced entry stays where it was and is still the first one
        ensure!(got.iter().find(|e| e.0 == k).map(|e| e.1) == Some(new), "after a unique insert of key {k} its entry is no longer the first one");
    }
    Ok(())
}

fn plan(ctx: &Ctx) -> Plan {
    let small = SMALL.to_vec();
    Plan {
        only_new: true,
        bfs: vec![
            ("mix", 2, "iu", ctx.qt(11, 14), 20, small.clone()),
            ("mix", 3, "ir", ctx.qt(9, 11), 20, small.clone()),
            ("mix", 1, "ir", 30, 30, small.clone()),
            ("nest", 2, "ir", ctx.qt(12, 15), 20, vec![(2, 1), (3, 1), (4, 2)]),
            ("far", 3, "ir", ctx.qt(8, 10), 20, small.clone()),
            ("over:4", 4, "ir", ctx.qt(7, 9), 20, small.clone()),
        ],
        scripts: vec![
            ("scat", ctx.qt(24, 40), wide(ctx.thorough())),
            ("nested", ctx.qt(20, 40), small.clone()),
            ("cross", ctx.qt(20, 40), small.clone()),
        ],
        around: vec![("scat", 6, vec![6], "i", ctx.qt(4, 5), small.clone()), ("over", 5, vec![3, 5], "ir", ctx.qt(4, 6), small)],
        walks: vec![("scat", 120, 120, ctx.qt(17, 2), LARGE.to_vec()), ("over", 60, 180, ctx.qt(23, 3), TALL.to_vec())],
    }
}

fn run(ctx: &Ctx) {
    rtree_mc::giants::run(ctx, &["dups"]);
    explore_all!(ctx, check; plan(ctx) => [Bi2, TagV]; side(ctx) => [PtV, LnV, Bi3]);
    std_notes(ctx);
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    pick!(c.get("V"); [Bi2, TagV, PtV, LnV, Bi3]; V => replay::<V>(c, &check::<V>))
}

fn main() {
    rtree_mc::main_for("C13", "model_checking", run, one)
}
