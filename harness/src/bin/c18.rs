//! C18: distances are exact and nearest-neighbour queries return the nearest.
use noisy_float::types::{N32, N64};
use rtree_mc::geo::*;
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{AABB, SAABB};
use rusty_rtree::ranking::{EuclideanDistanceRanking, PointDistance, Ranking};
use rusty_rtree::vector::SVec;
use std::ops::{Add, Mul, Sub};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static EVALS: AtomicU64 = AtomicU64::new(0);
static QUERIES: AtomicU64 = AtomicU64::new(0);
static BETWEEN: AtomicU64 = AtomicU64::new(0);

fn at<N: Num>(map: &str, x: i64) -> N {
    match map {
        "unit" => N::of(x),
        "centred" => N::of(x - 2),
        "gaps" => N::of([1, 2, 5, 11, 23, 64, 100][x as usize]),
        "signed" => N::of([-97, -20, -3, 0, 4, 31, 85][x as usize]),
        "frac" => N::frac([-64, -9, 0, 5, 64, 77, 131][x as usize]).unwrap(),
        _ => panic!("map {map}"),
    }
}
fn point<N: Num, const D: usize>(m: &str, p: &[i64]) -> SVec<N, D> {
    SVec(std::array::from_fn(|d| at(m, p[d])))
}
fn exact<N: Num, const D: usize>(p: &SVec<N, D>) -> [i128; D] {
    std::array::from_fn(|d| p.0[d].exact())
}
/// squared distance of two boxes, in 1/4096
fn gap(a: (&[i128], &[i128]), b: (&[i128], &[i128])) -> i128 {
    (0..a.0.len()).map(|d| (a.0[d] - b.1[d]).max(b.0[d] - a.1[d]).max(0).pow(2)).sum()
}

/// The distances from one box to everything in the grid.
fn grid<N, const D: usize>(m: &str, n: i64, i: usize) -> Res
where
    N: Num + Into<f64> + Add<Output = N> + Sub<Output = N> + Mul<Output = N> + num_traits::Bounded,
{
    let boxes = grid_boxes(n, D);
    let mk = |b: &(Vec<i64>, Vec<i64>)| -> SAABB<N, D> { AABB { min: point(m, &b.0), max: point(m, &b.1) } };
    let a = mk(&boxes[i]);
    let (alo, ahi) = (exact(&a.min), exact(&a.max));
    let mut ev = 0;
    for p in tuples(n, D) {
        let p: SVec<N, D> = point(m, &p);
        let e = exact(&p);
        let want = gap((&alo, &ahi), (&e, &e));
        let got: N = a.dist_sq(&p);
        let f: f64 = got.into();
        ensure!(f == want as f64 / 4096.0, "the squared distance from {p:?} to {a:?} is {got:?} instead of {}", want as f64 / 4096.0);
        let rank = EuclideanDistanceRanking::<SVec<N, D>, N>::new(p);
        let low: N = Ranking::<SAABB<N, D>, SAABB<N, D>>::bounds_min(&rank, &a);
        let key: N = Ranking::<SAABB<N, D>, SAABB<N, D>>::rank_key(&rank, &a);
        ensure!(low == got && key == got, "the ranking by distance to {p:?} has {low:?} as bounds metric and {key:?} as key metric of {a:?}, the distance is {got:?}");
        ev += 3;
        if a.min == a.max {
            let got: N = a.min.dist_sq(&p);
            let f: f64 = got.into();
            ensure!(f == want as f64 / 4096.0, "the squared distance from {p:?} to {:?} is {got:?} instead of {}", a.min, want as f64 / 4096.0);
            let key: N = Ranking::<SAABB<N, D>, SVec<N, D>>::rank_key(&rank, &a.min);
            ensure!(key == got, "the ranking by distance to {p:?} has the metric {key:?} for {:?}", a.min);
            ev += 2;
        }
    }
    for b in &boxes {
        let b = mk(b);
        let (lo, hi) = (exact(&b.min), exact(&b.max));
        let want = gap((&alo, &ahi), (&lo, &hi)) as f64 / 4096.0;
        let got = a.sq_dist_to(&b).raw();
        ensure!(got == want, "the squared distance between {a:?} and {b:?} is {got} instead of {want}");
        ev += 1;
        // no key inside is nearer than its bounds
        if (0..D).all(|d| alo[d] <= lo[d] && hi[d] <= ahi[d]) && n <= 4 {
            for p in tuples(n, D) {
                let p: SVec<N, D> = point(m, &p);
                ensure!(a.dist_sq(&p) <= b.dist_sq(&p), "{a:?} contains {b:?}, which is nearer to {p:?}");
                BETWEEN.fetch_add(1, Relaxed);
            }
        }
    }
    EVALS.fetch_add(ev, Relaxed);
    Ok(())
}

/// Nearest-neighbour queries from all points around the keys.
fn check<V: Variant, N, const D: usize>(r: &mut Run<V>, _: &Dump, _: Option<Op>) -> Res
where
    N: Coord,
    V: Variant<B = SAABB<N, D>>,
    V::K: PointDistance<SVec<N, D>, N>,
{
    let cap = r.model.len();
    let low = r.alpha.boxes.iter().flat_map(|b| b.lo[..D].to_vec()).min().unwrap_or(0);
    let boxes = &r.alpha.boxes;
    let mut axes: Vec<Vec<i64>> = vec![];
    for d in 0..D {
        let mut v: Vec<i64> = boxes.iter().flat_map(|b| [b.lo[d], b.hi[d], (b.lo[d] + b.hi[d]) / 2]).collect();
        v.sort();
        v.dedup();
        let m = v.len();
        let n = if D == 1 { 20 } else { 6 };
        if m > n {
            v = (0..n).map(|i| v[i * (m - 1) / (n - 1)]).collect();
        }
        v.push(v[v.len() - 1] + 3);
        if low > 5 || low < 0 {
            v.insert(0, v[0] - 3);
        }
        axes.push(v);
    }
    let mut pts = vec![[0i64; 3]];
    for (d, ax) in axes.iter().enumerate() {
        pts = pts.iter().flat_map(|p| ax.iter().map(move |x| { let mut p = *p; p[d] = *x; p })).collect();
    }
    let mut n = 0;
    for p in &pts {
        let dist: Vec<i64> = boxes.iter().map(|b| (0..D).map(|d| (b.lo[d] - p[d]).max(p[d] - b.hi[d]).max(0).pow(2)).sum()).collect();
        let q: SVec<N, D> = sv(p);
        let of = |v: u32| r.key_of(v).map(|k| dist[k as usize]);
        let make = || EuclideanDistanceRanking::<SVec<N, D>, N>::new(q);
        let mut want: Vec<i64> = r.model.iter().map(|e| dist[e.0 as usize]).collect();
        want.sort();
        let all: Vec<u32> = capped(r.tree.iter_asc_by(make()).map(|e| *e.1), cap, "ranked iteration")?;
        let got: Vec<i64> = all.iter().map(|v| of(*v).unwrap_or(-1)).collect();
        ensure!(got == want, "the squared distances from {q:?} come as {got:?} instead of {want:?}");
        let first = r.tree.min_by(make()).map(|e| *e.1);
        ensure!(first.map(|v| of(v)) == want.first().map(|w| Some(*w)), "the nearest entry to {q:?} is {first:?}, at {:?} instead of {:?}", first.map(of), want.first());
        n += 2;
        let mut vals: Vec<u32> = all.clone();
        vals.sort();
        let mut mv: Vec<u32> = r.model.iter().map(|e| e.1).collect();
        mv.sort();
        ensure!(vals == mv, "ranking by the distance to {q:?} yields the values {vals:?} instead of {mv:?}");
        let all: Vec<u32> = capped(r.tree.iter_asc_by_mut(make()).map(|e| *e.1), cap, "mutable ranked iteration")?;
        let got: Vec<i64> = all.iter().map(|v| r.key_of(*v).map_or(-1, |k| dist[k as usize])).collect();
        ensure!(got == want, "the squared distances from {q:?} in mutable iteration come as {got:?} instead of {want:?}");
        let first = r.tree.min_by_mut(make()).map(|e| *e.1);
        ensure!(first.and_then(|v| r.key_of(v)).map(|k| dist[k as usize]) == want.first().copied(), "the nearest entry to {q:?} in the mutable form has the value {first:?}");
        n += 2;
    }
    QUERIES.fetch_add(n, Relaxed);
    Ok(())
}

fn plan(ctx: &Ctx) -> Plan {
    let some = vec![(2, 1), (3, 1), (4, 2)];
    Plan {
        only_new: true,
        bfs: vec![
            ("mix", 4, "ir", ctx.qt(6, 7), 8, SMALL.to_vec()),
            ("nest", 3, "ir", ctx.qt(6, 7), 8, some.clone()),
            ("over:4", 4, "ir", ctx.qt(5, 6), 8, some.clone()),
        ],
        scripts: vec![
            ("scat", ctx.qt(20, 36), SMALL.to_vec()),
            ("nested", ctx.qt(12, 24), some.clone()),
            ("cross", ctx.qt(12, 24), some.clone()),
            ("line", ctx.qt(14, 24), some.clone()),
            ("clus", ctx.qt(12, 24), some),
        ],
        around: vec![],
        walks: vec![("scat", 100, 100, ctx.qt(23, 5), vec![(2, 1), (3, 1), (17, 8), (32, 4)])],
    }
}

fn side(ctx: &Ctx) -> Plan {
    Plan {
        only_new: true,
        bfs: vec![("mix", 4, "ir", ctx.qt(5, 6), 8, vec![(2, 1), (4, 2)])],
        scripts: vec![("scat", ctx.qt(12, 24), vec![(2, 1), (3, 1)])],
        around: vec![],
        walks: vec![("scat", 60, 60, ctx.qt(41, 11), vec![(2, 1), (17, 8)])],
    }
}

type I = i32;

fn one(c: &Case, _: Tier) -> Res {
    if !c.get("T").is_empty() {
        let (m, n, i) = (c.get("M"), c.num::<i64>("N"), c.num::<usize>("I"));
        macro_rules! dims {
            ($t:ty) => {
                match c.num::<usize>("D") {
                    1 => grid::<$t, 1>(m, n, i),
                    2 => grid::<$t, 2>(m, n, i),
                    3 => grid::<$t, 3>(m, n, i),
                    4 => grid::<$t, 4>(m, n, i),
                    5 => grid::<$t, 5>(m, n, i),
                    6 => grid::<$t, 6>(m, n, i),
                    d => panic!("dimension {d}"),
                }
            };
        }
        macro_rules! many {
            ($t:ty) => {
                match c.num::<usize>("D") {
                    7 => grid::<$t, 7>(m, n, i),
                    9 => grid::<$t, 9>(m, n, i),
                    17 => grid::<$t, 17>(m, n, i),
                    33 => grid::<$t, 33>(m, n, i),
                    65 => grid::<$t, 65>(m, n, i),
                    d => panic!("dimension {d}"),
                }
            };
        }
        if c.num::<usize>("D") >= MANY {
            return match c.get("T") {
                "i32" => many!(i32),
                "N64" => many!(N64),
                t => panic!("type {t}"),
            };
        }
        return match c.get("T") {
            "i32" => dims!(i32),
            "u32" => dims!(u32),
            "i16" => dims!(i16),
            "u16" => dims!(u16),
            "N64" => dims!(N64),
            "N32" => dims!(N32),
            t => panic!("type {t}"),
        };
    }
    match c.get("V") {
        "boxi2" => replay::<Bi2>(c, &check::<Bi2, I, 2>),
        "boxi1" => replay::<Bi1>(c, &check::<Bi1, I, 1>),
        "boxi3" => replay::<Bi3>(c, &check::<Bi3, I, 3>),
        "boxu2" => replay::<Bu2>(c, &check::<Bu2, u32, 2>),
        "boxd2" => replay::<Bd2>(c, &check::<Bd2, N64, 2>),
        "boxf2" => replay::<Bf2>(c, &check::<Bf2, N32, 2>),
        "pti2" => replay::<PtV>(c, &check::<PtV, I, 2>),
        v => panic!("variant {v}"),
    }
}

fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    let mut cases = vec![];
    for (ty, maps) in [
        ("i32", &["centred", "gaps", "signed"][..]),
        ("u32", &["unit", "gaps"]),
        ("i16", &["centred", "gaps"]),
        ("u16", &["gaps"]),
        ("N64", &["centred", "gaps", "frac"]),
        ("N32", &["gaps", "frac"]),
    ] {
        for m in maps {
            let mut g = vec![(1u32, 7i64), (2, 6), (3, 3), (4, 2), (5, 2), (6, 2)];
            if t {
                g = vec![(1, 7), (2, 7), (3, 5), (4, 3), (5, 2), (6, 2)];
            }
            for (d, n) in g {
                for i in 0..((n * (n + 1) / 2) as usize).pow(d) {
                    cases.push(format!("T={ty} M={m} D={d} N={n} I={i}"));
                }
            }
        }
    }
    for (ty, m) in [("i32", "signed"), ("N64", "gaps"), ("N64", "frac")] {
        for d in [7, 9, 17, 33, 65] {
            let n = if t && d < 20 { 3 } else { 2 };
            for i in 0..grid_boxes(n, d).len() {
                cases.push(format!("T={ty} M={m} D={d} N={n} I={i}"));
            }
        }
    }
    for c in cases.iter().step_by(cases.len() / 3 + 1) {
        ctx.sample(c);
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    explore::<Bi2>(ctx, &plan(ctx), &check::<Bi2, I, 2>);
    explore::<PtV>(ctx, &plan(ctx), &check::<PtV, I, 2>);
    let side = side(ctx);
    explore::<Bi1>(ctx, &side, &check::<Bi1, I, 1>);
    explore::<Bi3>(ctx, &side, &check::<Bi3, I, 3>);
    explore::<Bu2>(ctx, &side, &check::<Bu2, u32, 2>);
    explore::<Bd2>(ctx, &side, &check::<Bd2, N64, 2>);
    explore::<Bf2>(ctx, &side, &check::<Bf2, N32, 2>);
    ctx.add("distances_compared", EVALS.load(Relaxed));
    ctx.add("lower_bounds_compared", BETWEEN.load(Relaxed));
    ctx.add("nearest_neighbour_queries", QUERIES.load(Relaxed));
    std_notes(ctx);
    ctx.note("assume3", "squared distances are representable in the metric, as the ranking's documentation requires");
}

fn main() {
    rtree_mc::main_for("C18", "model_checking", run, one)
}
