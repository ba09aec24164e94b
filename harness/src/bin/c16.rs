//! C16: segment, ray and sphere tests agree with exact geometry.
use noisy_float::types::{N32, N64};
use rtree_mc::geo::*;
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{Bounded, AABB, SAABB};
use rusty_rtree::geom::{line::Line, ray::Ray, sphere::Sphere};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::vector::SVec;
use std::ops::{Add, Sub};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static EVALS: AtomicU64 = AtomicU64::new(0);
static INPUTS: AtomicU64 = AtomicU64::new(0);
static HITS: AtomicU64 = AtomicU64::new(0);

trait Coordinate: Num + Into<f64> + Add<Output = Self> + Sub<Output = Self> + num_traits::Bounded {}
impl<N: Num + Into<f64> + Add<Output = N> + Sub<Output = N> + num_traits::Bounded> Coordinate for N {}

/// Maps from grid numbers to coordinates; all increasing.
fn at<N: Num>(map: &str, x: i64) -> N {
    match map {
        "unit" => N::of(x),
        "centred" => N::of(x - 2),
        // distances whose quotients are not exact
        "prime" => N::of([3, 10, 17, 33, 100, 107, 121][x as usize]),
        "wide" => N::of([-20011, -7, 0, 13, 977, 10007, 30011][x as usize]),
        "frac" => N::frac([-64, -9, 0, 5, 64, 77, 131][x as usize]).unwrap(),
        // zeros with a sign are as good as others
        "zeros" if x == 1 => N::negative_zero().unwrap(),
        "zeros" => N::of([-5, 0, 0, 7, 20][x as usize]),
        "far" => N::of(1_000_003 * x - 2_000_000),
        _ => panic!("map {map}"),
    }
}
fn point<N: Num, const D: usize>(m: &str, p: &[i64]) -> SVec<N, D> {
    SVec(std::array::from_fn(|d| at(m, p[d])))
}
fn exact<N: Num, const D: usize>(p: &SVec<N, D>) -> [i128; D] {
    std::array::from_fn(|d| p.0[d].exact())
}

/// All segments that start at one point against all boxes.
fn segments<N: Coordinate, const D: usize>(m: &str, n: i64, i: usize) -> Res {
    let pts = tuples(n, D);
    let boxes: Vec<SAABB<N, D>> = grid_boxes(n, D).iter().map(|(a, b)| AABB { min: point(m, a), max: point(m, b) }).collect();
    let ebox: Vec<_> = boxes.iter().map(|b| (exact(&b.min), exact(&b.max))).collect();
    let p: SVec<N, D> = point(m, &pts[i]);
    let ep = exact(&p);
    let (mut ev, mut yes) = (0, 0);
    for q in &pts {
        let q: SVec<N, D> = point(m, q);
        let eq = exact(&q);
        let delta: [i128; D] = std::array::from_fn(|d| eq[d] - ep[d]);
        let line = Line(p.clone(), q.clone());
        for (b, (lo, hi)) in boxes.iter().zip(&ebox) {
            let want = hits(lo, hi, &ep, &delta, true);
            let got = line.intersects(b);
            ensure!(got == want, "the segment from {p:?} to {q:?} intersects {b:?}: {got} instead of {want}");
            let got = Intersects::<Line<SVec<N, D>>>::intersects(b, &line);
            ensure!(got == want, "{b:?} intersects the segment from {p:?} to {q:?}: {got} instead of {want}");
            yes += want as u64;
        }
        ev += 2 * boxes.len() as u64 + 3;
        let got: AABB<SVec<N, D>> = line.bounds();
        let want = AABB {
            min: SVec(std::array::from_fn(|d| p.0[d].min(q.0[d]))),
            max: SVec(std::array::from_fn(|d| p.0[d].max(q.0[d]))),
        };
        ensure!(got == want, "the bounds of the segment from {p:?} to {q:?} are {got:?}");
        let sq: f64 = delta.iter().map(|d| (d * d) as f64 / 4096.0).sum();
        let got = line.sq_len();
        ensure!(got == sq, "the squared length of the segment from {p:?} to {q:?} is {got} instead of {sq}");
        let got = line.len();
        ensure!(got == sq.sqrt(), "the length of the segment from {p:?} to {q:?} is {got} instead of {}", sq.sqrt());
    }
    EVALS.fetch_add(ev, Relaxed);
    INPUTS.fetch_add((pts.len() * boxes.len()) as u64, Relaxed);
    HITS.fetch_add(yes, Relaxed);
    Ok(())
}

/// All rays that start at one point against all boxes; directions are all
/// vectors of a range.
fn rays<N: Coordinate, const D: usize>(m: &str, n: i64, i: usize, r: i64) -> Res {
    let pts = tuples(n, D);
    let boxes: Vec<SAABB<N, D>> = grid_boxes(n, D).iter().map(|(a, b)| AABB { min: point(m, a), max: point(m, b) }).collect();
    let ebox: Vec<_> = boxes.iter().map(|b| (exact(&b.min), exact(&b.max))).collect();
    let p: SVec<N, D> = point(m, &pts[i]);
    let ep = exact(&p);
    let signed = N::NAME.as_bytes()[0] != b'u';
    let dirs: Vec<SVec<N, D>> = if signed {
        let mut v: Vec<SVec<N, D>> = tuples(2 * r + 1, D).iter().map(|t| SVec(std::array::from_fn(|d| N::of(t[d] - r)))).collect();
        // directions between the points of the grid, where they are in range
        if m == "prime" || m == "unit" {
            for q in &pts {
                v.push(SVec(std::array::from_fn(|d| point::<N, D>(m, q).0[d] - p.0[d])));
            }
        }
        if let Some(z) = N::negative_zero() {
            let given = v.len();
            for mask in 1u32..1 << D.min(6) {
                for k in 0..given {
                    if (0..D.min(6)).all(|d| mask & (1 << d) == 0 || v[k].0[d] == N::of(0)) {
                        v.push(SVec(std::array::from_fn(|d| if d < 6 && mask & (1 << d) != 0 { z } else { v[k].0[d] })));
                    }
                }
            }
        }
        v
    } else {
        tuples(r + 1, D).iter().map(|t| SVec(std::array::from_fn(|d| N::of(t[d])))).collect()
    };
    let (mut ev, mut yes) = (0, 0);
    for n in &dirs {
        let en = exact(n);
        let ray = Ray { origin: p.clone(), n: n.clone() };
        for (b, (lo, hi)) in boxes.iter().zip(&ebox) {
            let want = hits(lo, hi, &ep, &en, false);
            let got = ray.intersects(b);
            ensure!(got == want, "the ray from {p:?} in direction {n:?} intersects {b:?}: {got} instead of {want}");
            let got = Intersects::<Ray<N, D>>::intersects(b, &ray);
            ensure!(got == want, "{b:?} intersects the ray from {p:?} in direction {n:?}: {got} instead of {want}");
            yes += want as u64;
        }
        ev += 2 * boxes.len() as u64;
    }
    EVALS.fetch_add(ev, Relaxed);
    INPUTS.fetch_add((dirs.len() * boxes.len()) as u64, Relaxed);
    HITS.fetch_add(yes, Relaxed);
    Ok(())
}

/// All spheres around one point against all points.
fn spheres<N: Coordinate, const D: usize>(m: &str, n: i64, i: usize, radii: i64) -> Res {
    let pts = tuples(n, D);
    let c: SVec<N, D> = point(m, &pts[i]);
    let ec = exact(&c);
    let (mut ev, mut inputs, mut yes) = (0, 0, 0);
    let mut rs: Vec<N> = (0..radii).map(N::of).collect();
    rs.extend((0..radii).filter_map(|x| N::frac(17 * x)));
    // radii that are exactly, or just not, the distance to a grid point
    if m == "prime" {
        rs.extend([7, 14, 30, 97].map(N::of));
    }
    for r in rs {
        let er = r.exact();
        let s = Sphere { center: c.clone(), radius: r };
        for q in &pts {
            let q: SVec<N, D> = point(m, q);
            let eq = exact(&q);
            let want = (0..D).map(|d| (eq[d] - ec[d]).pow(2)).sum::<i128>() <= er * er;
            let got = s.intersects(&q);
            ensure!(got == want, "the sphere with radius {r:?} around {c:?} intersects {q:?}: {got} instead of {want}");
            let got = Intersects::<Sphere<N, D>>::intersects(&q, &s);
            ensure!(got == want, "{q:?} intersects the sphere with radius {r:?} around {c:?}: {got} instead of {want}");
            ev += 2;
            inputs += 1;
            yes += want as u64;
        }
        // where the box around the sphere has representable coordinates
        if (0..D).all(|d| ec[d] - er >= lowest::<N>() && ec[d] + er <= highest::<N>()) {
            let b: AABB<SVec<N, D>> = s.bounds();
            let (lo, hi) = (exact(&b.min), exact(&b.max));
            ensure!(
                (0..D).all(|d| lo[d] == ec[d] - er && hi[d] == ec[d] + er),
                "the bounds of the sphere with radius {r:?} around {c:?} are {b:?}"
            );
            ev += 1;
        }
    }
    EVALS.fetch_add(ev, Relaxed);
    INPUTS.fetch_add(inputs, Relaxed);
    HITS.fetch_add(yes, Relaxed);
    Ok(())
}
fn lowest<N: Coordinate>() -> i128 {
    let x: f64 = N::min_value().into();
    x.max(-1e15) as i128 * 64
}
fn highest<N: Coordinate>() -> i128 {
    let x: f64 = N::max_value().into();
    x.min(1e15) as i128 * 64
}

fn one(c: &Case, _: Tier) -> Res {
    let (m, n, i) = (c.get("M"), c.num::<i64>("N"), c.num::<usize>("I"));
    macro_rules! go {
        ($t:ty, $d:literal) => {
            match c.get("S") {
                "seg" => segments::<$t, $d>(m, n, i),
                "ray" => rays::<$t, $d>(m, n, i, c.num("R")),
                "sph" => spheres::<$t, $d>(m, n, i, c.num("R")),
                s => panic!("shape {s}"),
            }
        };
    }
    macro_rules! dims {
        ($t:ty) => {
            match c.num::<usize>("D") {
                1 => go!($t, 1),
                2 => go!($t, 2),
                3 => go!($t, 3),
                4 => go!($t, 4),
                5 => go!($t, 5),
                6 => go!($t, 6),
                d => panic!("dimension {d}"),
            }
        };
    }
    macro_rules! many {
        ($t:ty) => {
            match c.num::<usize>("D") {
                7 => go!($t, 7),
                9 => go!($t, 9),
                17 => go!($t, 17),
                33 => go!($t, 33),
                65 => go!($t, 65),
                d => panic!("dimension {d}"),
            }
        };
    }
    if c.num::<usize>("D") >= MANY {
        return match c.get("T") {
            "i32" => many!(i32),
            "N64" => many!(N64),
            t => panic!("type {t}"),
        };
    }
    match c.get("T") {
        "i8" => dims!(i8),
        "i16" => dims!(i16),
        "i32" => dims!(i32),
        "u8" => dims!(u8),
        "u16" => dims!(u16),
        "u32" => dims!(u32),
        "N64" => dims!(N64),
        "N32" => dims!(N32),
        t => panic!("type {t}"),
    }
}

fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    let mut cases = vec![];
    let kinds: [(&str, &[&str]); 8] = [
        ("i32", &["centred", "prime", "wide", "far"]),
        ("u32", &["unit", "prime"]),
        ("N64", &["centred", "prime", "frac", "far", "zeros"]),
        ("N32", &["prime", "frac", "zeros"]),
        ("i8", &["centred", "prime"]),
        ("u8", &["prime"]),
        ("i16", &["prime", "wide"]),
        ("u16", &["unit"]),
    ];
    for (ty, maps) in kinds {
        for (k, m) in maps.iter().enumerate() {
            let first = k == 0;
            // shape, dimension, grid, range of directions or number of radii
            let mut spaces = vec![
                ("seg", 1, 7, 0),
                ("seg", 2, 7, 0),
                ("seg", 3, 4, 0),
                ("seg", 4, 2, 0),
                ("ray", 1, 7, 9),
                ("ray", 2, 7, 5),
                ("ray", 3, 3, 3),
                ("ray", 4, 2, 1),
                ("seg", 5, 2, 0),
                ("ray", 5, 2, 1),
                ("seg", 6, 2, 0),
                ("sph", 1, 7, 20),
                ("sph", 2, 7, 20),
                ("sph", 3, 5, 12),
                ("sph", 4, 3, 8),
                ("sph", 5, 2, 8),
                ("sph", 6, 2, 8),
            ];
            if t && first {
                spaces.extend([("seg", 3, 6, 0), ("ray", 3, 5, 3), ("ray", 2, 7, 11), ("sph", 3, 7, 40), ("seg", 4, 3, 0)]);
            }
            for (s, d, n, r) in spaces {
                let n = if *m == "zeros" { n.min(5) } else { n };
                if s == "sph" && (*m == "wide" || *m == "far") {
                    continue;
                }
                for i in 0..(n as usize).pow(d) {
                    cases.push(format!("S={s} T={ty} M={m} D={d} N={n} R={r} I={i}"));
                }
            }
        }
    }
    for (ty, m) in [("i32", "centred"), ("i32", "prime"), ("N64", "prime"), ("N64", "frac")] {
        for d in [7, 9, 17, 33, 65] {
            for (s, n, r) in [("seg", 2, 0), ("ray", 2, 1), ("sph", if t { 3 } else { 2 }, 12)] {
                for i in 0..tuples(n, d).len() {
                    cases.push(format!("S={s} T={ty} M={m} D={d} N={n} R={r} I={i}"));
                }
            }
        }
    }
    for c in cases.iter().step_by(cases.len() / 9 + 1) {
        ctx.sample(c);
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    ctx.add("evaluations", EVALS.load(Relaxed));
    ctx.add("distinct_nontrivial", INPUTS.load(Relaxed));
    ctx.add("intersecting_inputs", HITS.load(Relaxed));
    ctx.add("shapes_origins", cases.len() as u64);
    ctx.note(
        "rule",
        "evaluations: results of the real code compared with exact rational geometry; distinct_nontrivial: distinct pairs of a segment, ray or sphere \
         and a box or point, for each coordinate type, coordinate map and dimension; all shapes of each grid are enumerated against all boxes or points of the grid",
    );
    ctx.note("assume1", "coordinates are integers or multiples of 1/64 whose differences are below 2^26, for which 64-bit floating point decides exactly");
}

fn main() {
    rtree_mc::main_for("C16", "exploration", run, one)
}
