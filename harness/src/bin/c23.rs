//! C23: any lawful bounds type works, also one whose unions over-approximate.
//!
//! The checks of single properties are applied to trees with such bounds.
#![allow(dead_code)]
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{Bounded, Bounds};
use rusty_rtree::contains::Contains;

#[path = "c04.rs"]
mod filtered;
#[path = "c06.rs"]
mod ranked;
#[path = "c05.rs"]
mod pruned;
#[path = "c07.rs"]
mod best_first;
#[path = "c08.rs"]
mod joined;
#[path = "c09.rs"]
mod left_joined;
#[path = "c13.rs"]
mod first;
#[path = "c14.rs"]
mod mutable;

/// Contents, results and the rules that bounds have to obey.
fn check<V: Variant>(r: &mut Run<V>, d: &Dump, _: Option<Op>) -> Res {
    r.check_contents()?;
    r.check_lookups()?;
    let (max, min) = r.cfg;
    let height = d.height();
    for (i, n) in d.nodes.iter().enumerate() {
        let Some(b) = n.bounds else {
            ensure!(r.model.is_empty(), "node {i} has no bounds");
            continue;
        };
        let mut below = vec![];
        d.below(i, &mut below);
        for v in below {
            let Some(k) = r.key_of(v) else { viol!("the tree holds the value {v}, which no entry has") };
            let Some(kb) = V::mbox(&r.alpha.keys[k as usize].bounds()) else { continue };
            ensure!(b.contains(&kb), "below node {i} at depth {} with the bounds {b:?} is the key {k} with the bounds {kb:?}", n.depth);
        }
        let c = n.kids.len() + n.ents.len();
        ensure!(c <= max && (i == 0 || c >= min), "node {i} at depth {} has {c} children", n.depth);
        ensure!(n.depth == height || !n.kids.is_empty(), "leaf {i} is at depth {}, others at {height}", n.depth);
    }
    Ok(())
}

/// Everything that is asked of a tree, on each of fewer trees.
fn queries<V: Variant>(r: &mut Run<V>, d: &Dump, op: Option<Op>) -> Res {
    check(r, d, op)?;
    filtered::check(r, d, op)?;
    ranked::check(r, d, op)?;
    pruned::filters(r, d)?;
    best_first::check(r, d, op)?;
    first::check(r, d, op)?;
    // writes other values, so it comes last
    mutable::check(r, d, op)
}

fn deep(ctx: &Ctx) -> Plan {
    let small = SMALL.to_vec();
    Plan {
        only_new: false,
        bfs: vec![
            ("mix", 4, "iur", ctx.qt(6, 8), 20, vec![(2, 1), (3, 1), (4, 2)]),
            ("nest", 3, "ir", ctx.qt(8, 10), 20, vec![(2, 1), (4, 2)]),
        ],
        scripts: vec![("scat", ctx.qt(20, 40), small.clone()), ("cross", ctx.qt(14, 30), small.clone()), ("nested", ctx.qt(12, 24), small)],
        around: vec![("over", 10, vec![5, 8, 10], "ir", ctx.qt(2, 3), vec![(2, 1), (4, 2)])],
        walks: vec![("scat", 120, 120, ctx.qt(23, 5), vec![(2, 1), (3, 1), (17, 8), (33, 16)])],
    }
}

fn asking(ctx: &Ctx) -> Plan {
    let some = vec![(2, 1), (3, 1), (4, 2)];
    Plan {
        only_new: true,
        bfs: vec![("scat:4", 4, "ir", ctx.qt(4, 6), 8, some.clone())],
        scripts: vec![("scat", ctx.qt(9, 20), some.clone()), ("over", ctx.qt(7, 16), some)],
        around: vec![],
        walks: vec![("scat", 30, 60, ctx.qt(61, 11), vec![(2, 1), (17, 8)])],
    }
}

macro_rules! all {
    ($m:ident) => {
        $m!(LossyV<0>, LossyV<1>, LossyV<2>, LossyV<3>, LabelV, AnyV)
    };
}

fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    let (dp, ap) = (deep(ctx), asking(ctx));
    macro_rules! trees {
        ($($t:ty),*) => {$(
            explore::<$t>(ctx, &dp, &check::<$t>);
            explore::<$t>(ctx, &ap, &|r: &mut Run<$t>, d: &Dump, op: Option<Op>| {
                // cases of this kind are replayed with all queries
                queries::<$t>(r, d, op)
            });
        )*};
    }
    all!(trees);
    let sizes: &[usize] = if th { &[1, 2, 3, 5, 7, 9, 12, 16] } else { &[1, 3, 6, 12] };
    macro_rules! joins {
        ($l:ty, $r:ty) => {{
            let a = grown::<$l>(ctx, "scat:16", sizes, &["asc", "step3"], &[(2, 1), (4, 2)]);
            let b = grown::<$r>(ctx, "scat:16", sizes, &["ends"], &[(2, 1), (3, 1)]);
            let ps = all_pairs(&a, &b, "scat:16", "scat:16");
            joined::go::<$l, $r>(ctx, &ps);
            left_joined::go::<$l, $r>(ctx, &ps, 0);
        }};
    }
    joins!(LossyV<0>, LossyV<1>);
    joins!(LossyV<1>, LossyV<2>);
    joins!(LossyV<3>, LossyV<3>);
    joins!(LossyV<2>, LossyV<0>);
    joins!(LabelV, LabelV);
    joins!(AnyV, LossyV<3>);
    let q = [&filtered::QUERIES, &ranked::QUERIES, &best_first::QUERIES, &mutable::QUERIES, &joined::QUERIES, &left_joined::JOINS];
    ctx.add("queries", q.iter().map(|c| c.load(std::sync::atomic::Ordering::Relaxed)).sum());
    std_notes(ctx);
    ctx.note(
        "bounds_types",
        "lossy0 rounds unions outwards to a lattice, lossy1 adds a margin with every union (so that the union of equal bounds is larger), lossy2 jumps to the \
         whole plane, lossy3 depends on the order of its arguments; labels are sets of labels, any has one value only",
    );
    ctx.note("assume3", "bounds types that violate the documented contract are out of scope");
}

fn one(c: &Case, _: Tier) -> Res {
    macro_rules! pairs {
        ($(($l:ty, $r:ty)),*) => {$(
            if c.get("V") == <$l as Variant>::NAME && c.get("W") == <$r as Variant>::NAME {
                let p = Pair::parse(c);
                if c.get("N").is_empty() {
                    joined::pair::<$l, $r>(&p)?;
                }
                return left_joined::pair::<$l, $r>(&p, 0);
            }
        )*};
    }
    if !c.get("G").is_empty() {
        pairs!((LossyV<0>, LossyV<1>), (LossyV<1>, LossyV<2>), (LossyV<3>, LossyV<3>), (LossyV<2>, LossyV<0>), (LabelV, LabelV), (AnyV, LossyV<3>));
        panic!("unknown pair");
    }
    pick!(c.get("V"); [LossyV<0>, LossyV<1>, LossyV<2>, LossyV<3>, LabelV, AnyV]; V => replay::<V>(c, &queries::<V>))
}

fn main() {
    let _ = <Labels as Bounds>::empty().contains(&Labels(0));
    rtree_mc::main_for("C23", "model_checking", run, one)
}
