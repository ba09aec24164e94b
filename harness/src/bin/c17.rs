//! C17: the provided filters answer spatial queries exactly on any tree.
use rtree_mc::geo::{hits, tuples};
use rtree_mc::prelude::*;
use rusty_rtree::bounds::SAABB;
use rusty_rtree::filter::{BoundedContainsFilter, BoundedIntersectsFilter, ContainsFilter, IntersectsFilter, NoFilter, SpatialFilter};
use rusty_rtree::geom::{line::Line, ray::Ray, sphere::Sphere};
use rusty_rtree::vector::SVec;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static QUERIES: AtomicU64 = AtomicU64::new(0);
static MATCHES: AtomicU64 = AtomicU64::new(0);

/// Some coordinates of the keys on an axis, and some between and beyond.
fn axis(boxes: &[MBox], d: usize, n: usize) -> Vec<i64> {
    let mut v: Vec<i64> = boxes.iter().flat_map(|b| [b.lo[d], b.hi[d]]).collect();
    v.sort();
    v.dedup();
    let (first, last) = (v[0], v[v.len() - 1]);
    if v.len() > n {
        let m = v.len();
        v = (0..n).map(|i| v[i * (m - 1) / (n - 1)]).collect();
    }
    // between two keys
    if let Some(w) = v.windows(2).find(|w| w[1] - w[0] > 1) {
        v.push(w[0] + 1);
    }
    v.push(last + 1);
    if first > 0 || boxes.iter().any(|b| b.lo[d] < 0) {
        v.push(first - 1);
    }
    v.sort();
    v.dedup();
    v
}

struct Grid {
    pts: Vec<[i64; 3]>,
    boxes: Vec<MBox>,
}

fn grid(boxes: &[MBox], dims: usize, n: usize) -> Grid {
    let ax: Vec<Vec<i64>> = (0..dims).map(|d| axis(boxes, d, n)).collect();
    let mut pts = vec![[0i64; 3]];
    let mut bs = vec![mb([0; 3], [0; 3])];
    for d in 0..dims {
        pts = pts.iter().flat_map(|p| ax[d].iter().map(move |x| { let mut p = *p; p[d] = *x; p })).collect();
        bs = bs
            .iter()
            .flat_map(|b| {
                let ax = &ax[d];
                (0..ax.len()).flat_map(move |i| (i..ax.len()).map(move |j| (i, j))).map(move |(i, j)| {
                    let mut b = *b;
                    b.lo[d] = ax[i];
                    b.hi[d] = ax[j];
                    b
                })
            })
            .collect();
    }
    Grid { pts, boxes: bs }
}

fn wide(p: &[i64; 3]) -> [i128; 3] {
    p.map(|x| x as i128)
}
fn minus(a: &[i64; 3], b: &[i64; 3]) -> [i128; 3] {
    std::array::from_fn(|d| (a[d] - b[d]) as i128)
}
fn seg_hits(b: &MBox, p: &[i64; 3], q: &[i64; 3]) -> bool {
    hits(&wide(&b.lo), &wide(&b.hi), &wide(p), &minus(q, p), true)
}
fn ray_hits(b: &MBox, p: &[i64; 3], n: &[i64; 3]) -> bool {
    hits(&wide(&b.lo), &wide(&b.hi), &wide(p), &minus(n, &[0; 3]), false)
}

/// A query on the tree, shared and mutable, against the expected keys.
fn ask<V: Variant, F: SpatialFilter<V::B, V::K>>(r: &mut Run<V>, make: impl Fn() -> F, want: &[bool], what: &dyn Fn() -> String) -> Res {
    let cap = r.model.len();
    let mut exp: Vec<u32> = r.model.iter().filter(|e| want[e.0 as usize]).map(|e| e.1).collect();
    exp.sort();
    for mutable in [false, true] {
        let mut got: Vec<u32> = if mutable {
            capped(r.tree.filter_iter_mut::<V::K, _>(make()).map(|e| *e.1), cap, "mutable query")?
        } else {
            capped(r.tree.filter_iter::<V::K, _>(make()).map(|e| *e.1), cap, "query")?
        };
        got.sort();
        if got != exp {
            let name = |v: &Vec<u32>| v.iter().map(|x| r.key_of(*x).map_or("?".into(), |k| format!("{:?}", r.alpha.keys[k as usize]))).collect::<Vec<_>>().join(", ");
            viol!("{}, mutable {mutable}: yields the keys [{}] instead of [{}]", what(), name(&got), name(&exp));
        }
    }
    QUERIES.fetch_add(2, Relaxed);
    MATCHES.fetch_add(exp.len() as u64, Relaxed);
    Ok(())
}

fn expect<V: Variant>(r: &Run<V>, f: impl Fn(usize, &MBox) -> bool) -> Vec<bool> {
    r.alpha.boxes.iter().enumerate().map(|(i, b)| f(i, b)).collect()
}

/// how fine the grids are: coordinates for boxes and points, and for lines
fn fine(dims: usize, n: usize) -> (usize, usize) {
    let base = match dims {
        1 => (12, 12),
        2 => (5, 4),
        _ => (2, 2),
    };
    if n > 12 && dims > 1 {
        (base.0.min(3), base.1.min(2))
    } else {
        base
    }
}

fn check_box<N: Coord + CName, const D: usize>(r: &mut Run<BoxV<N, D>>, _: &Dump, _: Option<Op>) -> Res {
    let (n, nl) = fine(D, r.alpha.len());
    let g = grid(&r.alpha.boxes, D, n);
    let ones = vec![true; r.alpha.len()];
    ask(r, || NoFilter, &ones, &|| "NoFilter".into())?;
    for b in &g.boxes {
        let q: SAABB<N, D> = sb(b);
        let want = expect(r, |_, k| b.intersects(k));
        ask(r, || IntersectsFilter::new(q), &want, &|| format!("IntersectsFilter of {q:?}"))?;
        ask(r, || BoundedIntersectsFilter::new_bounded(q), &want, &|| format!("BoundedIntersectsFilter of {q:?}"))?;
        let want = expect(r, |_, k| b.contains(k));
        ask(r, || ContainsFilter::new(q), &want, &|| format!("ContainsFilter of {q:?}"))?;
        ask(r, || BoundedContainsFilter::new_bounded(q), &want, &|| format!("BoundedContainsFilter of {q:?}"))?;
    }
    for p in &g.pts {
        let q: SVec<N, D> = sv(p);
        let want = expect(r, |_, k| k.contains(&mb(*p, *p)));
        ask(r, || IntersectsFilter::new(q), &want, &|| format!("IntersectsFilter of the point {q:?}"))?;
        ask(r, || BoundedIntersectsFilter::new_bounded(q), &want, &|| format!("BoundedIntersectsFilter of the point {q:?}"))?;
    }
    let g = grid(&r.alpha.boxes, D, nl);
    for p in &g.pts {
        let a: SVec<N, D> = sv(p);
        for q in &g.pts {
            let l = Line(a, sv::<N, D>(q));
            let want = expect(r, |_, k| seg_hits(k, p, q));
            ask(r, || IntersectsFilter::new(l.clone()), &want, &|| format!("IntersectsFilter of {l:?}"))?;
            ask(r, || BoundedIntersectsFilter::new_bounded(l.clone()), &want, &|| format!("BoundedIntersectsFilter of {l:?}"))?;
        }
        let signed = N::CN[1] != "boxu1";
        for t in tuples(if signed { 5 } else { 3 }, D) {
            let n: [i64; 3] = std::array::from_fn(|d| if d < D { t[d] - if signed { 2 } else { 0 } } else { 0 });
            let want = expect(r, |_, k| ray_hits(k, p, &n));
            ask(r, || IntersectsFilter::new(Ray { origin: a, n: sv::<N, D>(&n) }), &want, &|| format!("IntersectsFilter of the ray from {p:?} in direction {n:?}"))?;
        }
    }
    Ok(())
}

fn check_pt(r: &mut Run<PtV>, _: &Dump, _: Option<Op>) -> Res {
    let (n, _) = fine(2, r.alpha.len());
    let g = grid(&r.alpha.boxes, 2, n + 1);
    for b in &g.boxes {
        let q: SAABB<i32, 2> = sb(b);
        let want = expect(r, |_, k| b.contains(k));
        ask(r, || IntersectsFilter::new(q), &want, &|| format!("IntersectsFilter of {q:?}"))?;
        ask(r, || BoundedIntersectsFilter::new_bounded(q), &want, &|| format!("BoundedIntersectsFilter of {q:?}"))?;
        ask(r, || ContainsFilter::new(q), &want, &|| format!("ContainsFilter of {q:?}"))?;
        ask(r, || BoundedContainsFilter::new_bounded(q), &want, &|| format!("BoundedContainsFilter of {q:?}"))?;
    }
    for p in &g.pts {
        for radius in [0, 1, 2, 3, 5, 7, 10, 100] {
            let want = expect(r, |_, k| (0..2).map(|d| (k.lo[d] - p[d]).pow(2)).sum::<i64>() <= radius * radius);
            ask(
                r,
                || BoundedIntersectsFilter::<SAABB<i32, 2>, _>::new_bounded(Sphere { center: sv::<i32, 2>(p), radius: radius as i32 }),
                &want,
                &|| format!("BoundedIntersectsFilter of the sphere with radius {radius} around {p:?}"),
            )?;
        }
    }
    Ok(())
}

fn check_ln(r: &mut Run<LnV>, _: &Dump, _: Option<Op>) -> Res {
    let (n, _) = fine(2, r.alpha.len());
    let g = grid(&r.alpha.boxes, 2, n + 1);
    let ends: Vec<([i64; 3], [i64; 3])> =
        r.alpha.keys.iter().map(|k| ([k.0 .0[0] as i64, k.0 .0[1] as i64, 0], [k.1 .0[0] as i64, k.1 .0[1] as i64, 0])).collect();
    for b in &g.boxes {
        let q: SAABB<i32, 2> = sb(b);
        let want = expect(r, |i, _| seg_hits(b, &ends[i].0, &ends[i].1));
        ask(r, || IntersectsFilter::new(q), &want, &|| format!("IntersectsFilter of {q:?}"))?;
        ask(r, || BoundedIntersectsFilter::new_bounded(q), &want, &|| format!("BoundedIntersectsFilter of {q:?}"))?;
    }
    Ok(())
}

fn plan(ctx: &Ctx, dims: usize) -> Plan {
    let some = vec![(2, 1), (3, 1), (4, 2)];
    let b = if dims == 2 { 0 } else { 1 };
    Plan {
        only_new: true,
        bfs: vec![("mix", 4, "ir", ctx.qt(5, 6) - b, 8, some.clone()), ("nest", 3, "ir", ctx.qt(5, 6) - b, 8, vec![(2, 1), (4, 2)])],
        scripts: vec![
            ("scat", ctx.qt(12, 24), vec![(2, 1), (4, 2)]),
            ("over", ctx.qt(10, 20), vec![(3, 1)]),
            ("cross", ctx.qt(8, 16), vec![(2, 1)]),
        ],
        around: vec![],
        walks: vec![("scat", 60, 60, ctx.qt(31, 7), vec![(2, 1), (17, 8)])],
    }
}

fn side_plan(ctx: &Ctx) -> Plan {
    Plan {
        only_new: true,
        bfs: vec![("mix", 4, "ir", ctx.qt(4, 5), 8, vec![(2, 1), (4, 2)])],
        scripts: vec![("scat", ctx.qt(10, 16), vec![(2, 1)])],
        around: vec![],
        walks: vec![("scat", 40, 40, ctx.qt(41, 11), vec![(2, 1), (17, 8)])],
    }
}

fn run(ctx: &Ctx) {
    explore::<Bi2>(ctx, &plan(ctx, 2), &check_box::<i32, 2>);
    let side = side_plan(ctx);
    explore::<Bi1>(ctx, &plan(ctx, 1), &check_box::<i32, 1>);
    explore::<Bi3>(ctx, &side, &check_box::<i32, 3>);
    explore::<Bu2>(ctx, &side, &check_box::<u32, 2>);
    explore::<Bd2>(ctx, &side, &check_box::<N64c, 2>);
    explore::<PtV>(ctx, &plan(ctx, 2), &check_pt);
    explore::<LnV>(ctx, &plan(ctx, 2), &check_ln);
    ctx.add("queries", QUERIES.load(Relaxed));
    ctx.add("entries_yielded", MATCHES.load(Relaxed));
    std_notes(ctx);
}

type N64c = noisy_float::types::N64;

fn one(c: &Case, _: Tier) -> Res {
    match c.get("V") {
        "boxi2" => replay::<Bi2>(c, &check_box::<i32, 2>),
        "boxi1" => replay::<Bi1>(c, &check_box::<i32, 1>),
        "boxi3" => replay::<Bi3>(c, &check_box::<i32, 3>),
        "boxu2" => replay::<Bu2>(c, &check_box::<u32, 2>),
        "boxd2" => replay::<Bd2>(c, &check_box::<N64c, 2>),
        "pti2" => replay::<PtV>(c, &check_pt),
        "lni2" => replay::<LnV>(c, &check_ln),
        v => panic!("variant {v}"),
    }
}


fn main() {
    rtree_mc::main_for("C17", "model_checking", run, one)
}
