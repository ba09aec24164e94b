//! C39: keys without an extent are kept, found and removed like others.
//!
//! The checks of single properties are applied to trees in which some keys, or
//! all, have the bounds of nothing.
#![allow(dead_code)]
use rtree_mc::prelude::*;
use noisy_float::types::N64;
use rusty_rtree::bounds::{Bounds, Volume, SAABB};

#[path = "c03.rs"]
mod filled;
#[path = "c04.rs"]
mod filtered;
#[path = "c06.rs"]
mod ranked;
#[path = "c08.rs"]
mod joined;
#[path = "c09.rs"]
mod left_joined;
#[path = "c13.rs"]
mod first;
#[path = "c14.rs"]
mod mutable;

/// Contents, lookups and the rules for nodes.
fn check<V: Variant>(r: &mut Run<V>, d: &Dump, op: Option<Op>) -> Res {
    r.check_contents()?;
    r.check_lookups()?;
    for (i, n) in d.nodes.iter().enumerate() {
        let mut below = vec![];
        d.below(i, &mut below);
        let mut u = VOID;
        for v in below {
            let Some(k) = r.key_of(v) else { viol!("the tree holds the value {v}, which no entry has") };
            u = u.union(&r.alpha.boxes[k as usize]);
        }
        let want = (u.lo[0] <= u.hi[0]).then_some(u);
        let bounds = n.bounds.filter(|b| *b != VOID);
        ensure!(bounds == want, "node {i} at depth {} has the bounds {:?} instead of {:?}", n.depth, bounds, want);
    }
    filled::check(r, d, op)
}

/// Everything that is asked of a tree, on each of fewer trees.
fn queries<V: Variant>(r: &mut Run<V>, d: &Dump, op: Option<Op>) -> Res {
    check(r, d, op)?;
    filtered::check(r, d, op)?;
    ranked::check(r, d, op)?;
    first::check(r, d, op)?;
    // writes other values, so it comes last
    mutable::check(r, d, op)
}

fn volume<N: Coord, const D: usize>() -> Res {
    let e = SAABB::<N, D>::empty();
    let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.volume().raw()));
    ensure!(matches!(v, Ok(x) if x == 0.0), "the volume of empty bounds in {D} dimensions is {v:?}");
    Ok(())
}
fn volumes() -> Res {
    volume::<i32, 1>()?;
    volume::<i32, 2>()?;
    volume::<i32, 3>()?;
    volume::<i32, 4>()?;
    volume::<u32, 2>()?;
    volume::<u32, 3>()?;
    volume::<N64, 1>()?;
    volume::<N64, 2>()?;
    volume::<N64, 3>()?;
    volume::<noisy_float::types::N32, 2>()
}

fn deep(ctx: &Ctx) -> Plan {
    let small = SMALL.to_vec();
    Plan {
        only_new: false,
        bfs: vec![
            ("mix", 4, "iur", ctx.qt(6, 8), 20, vec![(2, 1), (3, 1), (4, 2)]),
            ("nest", 3, "ir", ctx.qt(8, 10), 20, vec![(2, 1), (4, 2)]),
        ],
        scripts: vec![("scat", ctx.qt(20, 40), small.clone()), ("cross", ctx.qt(14, 30), small.clone()), ("nested", ctx.qt(12, 24), small)],
        around: vec![("over", 10, vec![5, 8, 10], "ir", ctx.qt(2, 3), vec![(2, 1), (4, 2)])],
        walks: vec![("scat", 120, 120, ctx.qt(23, 5), vec![(2, 1), (3, 1), (17, 8), (33, 16)])],
    }
}

fn asking(ctx: &Ctx) -> Plan {
    let some = vec![(2, 1), (3, 1), (4, 2)];
    Plan {
        only_new: true,
        bfs: vec![("scat:4", 4, "ir", ctx.qt(4, 6), 8, some.clone())],
        scripts: vec![("scat", ctx.qt(9, 20), some.clone()), ("over", ctx.qt(7, 16), some)],
        around: vec![],
        walks: vec![("scat", 30, 60, ctx.qt(61, 11), vec![(2, 1), (17, 8)])],
    }
}

macro_rules! all {
    ($m:ident) => {
        $m!(
            VoidV<i32, 1, 0>, VoidV<N64, 1, 0>, VoidV<i32, 2, 0>, VoidV<i32, 2, 1>, VoidV<i32, 2, 2>, VoidV<u32, 2, 0>, VoidV<N64, 2, 0>,
            VoidV<N64, 2, 1>, VoidV<N64, 2, 2>, VoidV<i32, 3, 0>, VoidV<N64, 3, 0>, VoidV<N64, 3, 1>, VoidLabelV
        )
    };
}
macro_rules! pairs {
    ($m:ident) => {
        $m!(
            (VoidV<i32, 2, 0>, VoidV<i32, 2, 1>), (VoidV<i32, 2, 2>, VoidV<i32, 2, 0>), (VoidV<N64, 2, 1>, VoidV<N64, 2, 2>), (VoidLabelV, VoidLabelV)
        )
    };
}

fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    let (dp, ap) = (deep(ctx), asking(ctx));
    ctx.par_cases(&["volumes"], |_| "S=volumes".into(), |_| volumes());
    macro_rules! trees {
        ($($t:ty),*) => {$(
            explore::<$t>(ctx, &dp, &check::<$t>);
            explore::<$t>(ctx, &ap, &|r: &mut Run<$t>, d: &Dump, op: Option<Op>| {
                // cases of this kind are replayed with all queries
                queries::<$t>(r, d, op)
            });
        )*};
    }
    all!(trees);
    let sizes: &[usize] = if th { &[1, 2, 3, 5, 7, 9, 12, 16] } else { &[1, 3, 6, 12] };
    macro_rules! joins {
        ($(($l:ty, $r:ty)),*) => {$({
            let a = grown::<$l>(ctx, "scat:16", sizes, &["asc", "step3"], &[(2, 1), (4, 2)]);
            let b = grown::<$r>(ctx, "scat:16", sizes, &["ends"], &[(2, 1), (3, 1)]);
            let ps = all_pairs(&a, &b, "scat:16", "scat:16");
            joined::go::<$l, $r>(ctx, &ps);
            left_joined::go::<$l, $r>(ctx, &ps, 0);
        })*};
    }
    pairs!(joins);
    let q = [&filtered::QUERIES, &ranked::QUERIES, &mutable::QUERIES, &joined::QUERIES, &left_joined::JOINS];
    ctx.add("queries", q.iter().map(|c| c.load(std::sync::atomic::Ordering::Relaxed)).sum());
    std_notes(ctx);
    ctx.note(
        "keys",
        "boxes in one to three dimensions of signed, unsigned and floating-point coordinates, of which one third, two thirds or all are empty, \
         and sets of labels, of which one third are empty; different keys without an extent are not equal",
    );
    ctx.note("assume3", "filters and rankings answer for the bounds of nothing as for those of a key below; spatial filters and distances have no answer for keys without an extent");
}

fn one(c: &Case, _: Tier) -> Res {
    if c.get("S") == "volumes" {
        return volumes();
    }
    macro_rules! find {
        ($(($l:ty, $r:ty)),*) => {$(
            if c.get("V") == <$l as Variant>::NAME && c.get("W") == <$r as Variant>::NAME {
                let p = Pair::parse(c);
                if c.get("N").is_empty() {
                    joined::pair::<$l, $r>(&p)?;
                }
                return left_joined::pair::<$l, $r>(&p, 0);
            }
        )*};
    }
    if !c.get("G").is_empty() {
        pairs!(find);
        panic!("unknown pair");
    }
    macro_rules! go {
        ($($t:ty),*) => { pick!(c.get("V"); [$($t),*]; V => replay::<V>(c, &queries::<V>)) };
    }
    all!(go)
}

fn main() {
    rtree_mc::main_for("C39", "model_checking", run, one)
}
