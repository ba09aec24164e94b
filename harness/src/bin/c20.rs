//! C20: the whole coordinate range is usable.
//!
//! Coordinates come from tables of extreme values. An entry of a table is a
//! coordinate together with its exact value as an integer multiple of the
//! table's unit, so that geometry can be decided exactly with integers.
use noisy_float::types::{n32, n64, N32, N64};
use rtree_mc::geo::{hits, tuples};
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::{BoundedContainsFilter, BoundedIntersectsFilter, ContainsFilter, IntersectsFilter, JoinFilter, SpatialFilter};
use rusty_rtree::geom::{line::Line, ray::Ray, sphere::Sphere};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::vector::SVec;
use std::fmt::Debug;
use std::ops::{Add, Mul, Sub};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static EVALS: AtomicU64 = AtomicU64::new(0);
static INPUTS: AtomicU64 = AtomicU64::new(0);
static ROUNDED: AtomicU64 = AtomicU64::new(0);
static QUERIES: AtomicU64 = AtomicU64::new(0);

/// Entries in increasing order.
struct Table<N> {
    unit: f64,
    v: Vec<(N, i128)>,
    /// the range of the coordinate type, in units
    range: (i128, i128),
    /// the unit is exact, otherwise only the order of the entries means anything
    metric: bool,
}

trait Ext:
    Copy + Ord + Debug + Into<f64> + num_traits::Bounded + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Send + Sync + 'static
{
    const NAME: &'static str;
    const TABLES: &'static [&'static str];
    fn table(name: &str) -> Table<Self>;
    /// an exactly representable number
    fn small(x: i64) -> Self;
    fn signed() -> bool;
    /// reads a printed coordinate
    fn read(x: f64) -> f64 {
        x
    }
}

macro_rules! ints {
    ($($t:ident),*) => {$(
        impl Ext for $t {
            const NAME: &'static str = stringify!($t);
            const TABLES: &'static [&'static str] = &["ends", "mid", "four"];
            fn table(name: &str) -> Table<$t> {
                let (lo, hi) = ($t::MIN as i128, $t::MAX as i128);
                let mut v = match name {
                    "ends" => vec![lo, lo + 1, -1, 0, 1, hi - 1, hi],
                    "mid" => vec![lo, lo / 2, -2, 0, 3, hi / 2, hi / 2 + 1, hi],
                    "four" => vec![lo, 0, 1, hi],
                    _ => panic!("table {name}"),
                };
                v.retain(|x| *x >= lo);
                v.sort();
                v.dedup();
                Table { unit: 1.0, v: v.into_iter().map(|x| (x as $t, x)).collect(), range: (lo, hi), metric: true }
            }
            fn small(x: i64) -> $t {
                x as $t
            }
            fn signed() -> bool {
                $t::MIN != 0
            }
        }
    )*};
}
ints!(i8, i16, i32, u8, u16, u32);

impl Ext for N32 {
    const NAME: &'static str = "N32";
    const TABLES: &'static [&'static str] = &["max", "ones", "tiny", "mixed", "four"];
    fn table(name: &str) -> Table<N32> {
        let ints = |u: f32, xs: &[i64], range: i128| Table {
            unit: u as f64,
            v: xs.iter().map(|x| (n32((*x as f64 * u as f64) as f32), *x as i128)).collect(),
            range: (-range, range),
            metric: true,
        };
        match name {
            "max" => ints(f32::MAX / 2.0, &[-2, -1, 0, 1, 2], 2),
            "four" => ints(f32::MAX, &[-1, 0, 1], 1),
            // the smallest positive numbers, down to subnormal ones
            "tiny" => ints(f32::from_bits(1), &[-4, -1, 0, 1, 2, 5], i128::MAX >> 60),
            // neighbours of one
            "ones" => ints(f32::EPSILON / 2.0, &[-(1 << 24), (1 << 24) - 1, 1 << 24, (1 << 24) + 2, 1 << 25], 1 << 26),
            "mixed" => {
                let xs = [f32::MIN, -1.5, -f32::MIN_POSITIVE, 0.0, f32::from_bits(1), 1.0, 1e20, f32::MAX];
                Table { unit: 0.0, v: xs.iter().enumerate().map(|(i, x)| (n32(*x), i as i128)).collect(), range: (0, 7), metric: false }
            }
            _ => panic!("table {name}"),
        }
    }
    fn small(x: i64) -> N32 {
        n32(x as f32)
    }
    fn signed() -> bool {
        true
    }
    fn read(x: f64) -> f64 {
        x as f32 as f64
    }
}

// ------------------------------------------------------------- predicates

struct Shape<N, const D: usize> {
    b: SAABB<N, D>,
    lo: [i128; D],
    hi: [i128; D],
}

fn pt<N: Ext, const D: usize>(t: &Table<N>, p: &[i64]) -> (SVec<N, D>, [i128; D]) {
    (SVec(std::array::from_fn(|d| t.v[p[d] as usize].0)), std::array::from_fn(|d| t.v[p[d] as usize].1))
}

fn boxes<N: Ext, const D: usize>(t: &Table<N>) -> Vec<Shape<N, D>> {
    rtree_mc::geo::grid_boxes(t.v.len() as i64, D)
        .iter()
        .map(|(a, b)| {
            let ((min, lo), (max, hi)) = (pt(t, a), pt(t, b));
            Shape { b: AABB { min, max }, lo, hi }
        })
        .collect()
}

fn close(got: f64, want: f64) -> bool {
    got == want || (got - want).abs() <= 1e-12 * want.abs()
}

/// One box against all points and boxes: predicates, union, volume, distance.
fn space_box<N: Ext, const D: usize>(m: &str, i: usize) -> Res {
    let t = N::table(m);
    let all = boxes::<N, D>(&t);
    let a = &all[i];
    let mut ev = 0;
    let pts = tuples(t.v.len() as i64, D);
    for p in &pts {
        let (p, e) = pt::<N, D>(&t, p);
        let want = (0..D).all(|d| a.lo[d] <= e[d] && e[d] <= a.hi[d]);
        let got = [Contains::<SVec<N, D>>::contains(&a.b, &p), Intersects::<SVec<N, D>>::intersects(&a.b, &p), Intersects::<SAABB<N, D>>::intersects(&p, &a.b)];
        ensure!(got == [want; 3], "{:?} and the point {p:?}: contains, intersects, intersected are {got:?}, expected {want}", a.b);
        ev += 3;
    }
    for b in &all {
        let want = (0..D).all(|d| a.lo[d] <= b.lo[d] && b.hi[d] <= a.hi[d]);
        let got = Contains::<SAABB<N, D>>::contains(&a.b, &b.b);
        ensure!(got == want, "{:?} contains {:?}: {got}", a.b, b.b);
        let want = (0..D).all(|d| a.lo[d] <= b.hi[d] && b.lo[d] <= a.hi[d]);
        let got = Intersects::<SAABB<N, D>>::intersects(&a.b, &b.b);
        ensure!(got == want, "{:?} intersects {:?}: {got}", a.b, b.b);
        let u = <SAABB<N, D> as Bounds>::union(&a.b, &b.b);
        let w = <SAABB<N, D> as Bounds>::union_all([a.b, b.b]);
        let ok = |u: &SAABB<N, D>| (0..D).all(|d| u.min.0[d] == a.b.min.0[d].min(b.b.min.0[d]) && u.max.0[d] == a.b.max.0[d].max(b.b.max.0[d]));
        ensure!(ok(&u) && ok(&w), "the union of {:?} and {:?} is {u:?} or {w:?}", a.b, b.b);
        ev += 4;
        let got = a.b.sq_dist_to(&b.b).raw();
        if t.metric {
            let mut sq = 0.0f64;
            for d in 0..D {
                let g = (a.lo[d] - b.hi[d]).max(b.lo[d] - a.hi[d]).max(0) as f64 * t.unit;
                sq += g * g;
            }
            ensure!(close(got, sq), "the squared distance between {:?} and {:?} is {got:e} instead of {sq:e}", a.b, b.b);
        } else {
            // zero exactly if the boxes touch; the square of the smallest
            // distances is still representable
            ensure!((got == 0.0) == want && got >= 0.0, "the squared distance between {:?} and {:?} is {got:e}", a.b, b.b);
        }
        ev += 1;
    }
    let e = <SAABB<N, D> as Bounds>::empty();
    ensure!(<SAABB<N, D> as Bounds>::union(&e, &a.b) == a.b && <SAABB<N, D> as Bounds>::union(&a.b, &e) == a.b, "the union of {:?} and the empty box is another box", a.b);
    let got = a.b.volume().raw();
    if t.metric {
        let want: f64 = (0..D).map(|d| (a.hi[d] - a.lo[d]) as f64 * t.unit).product();
        ensure!(close(got, want), "the volume of {:?} is {got:e} instead of {want:e}", a.b);
    } else {
        let flat = (0..D).any(|d| a.lo[d] == a.hi[d]);
        ensure!((got == 0.0) == flat && got >= 0.0, "the volume of {:?} is {got:e}", a.b);
    }
    EVALS.fetch_add(ev + 3, Relaxed);
    INPUTS.fetch_add((pts.len() + all.len()) as u64, Relaxed);
    Ok(())
}

/// Whether a shape misses a box, but by less than 1/64 of a unit.
fn near<N, const D: usize>(b: &Shape<N, D>, o: &[i128; D], n: &[i128; D], seg: bool) -> bool {
    let m = |x: &[i128; D], k: i128, add: i128| -> Vec<i128> { x.iter().map(|v| v * k + add).collect() };
    hits(&m(&b.lo, 64, -1), &m(&b.hi, 64, 1), &m(o, 64, 0), &m(n, 64, 0), seg)
}

/// One origin with all segments and rays against all boxes.
fn space_lines<N: Ext, const D: usize>(m: &str, i: usize) -> Res {
    let t = N::table(m);
    assert!(t.metric);
    let all = boxes::<N, D>(&t);
    let pts = tuples(t.v.len() as i64, D);
    let (p, e) = pt::<N, D>(&t, &pts[i]);
    let (mut ev, mut inputs, mut rounded) = (0u64, 0u64, 0u64);
    for q in &pts {
        let (q, f) = pt::<N, D>(&t, q);
        let delta: [i128; D] = std::array::from_fn(|d| f[d] - e[d]);
        let line = Line(p, q);
        for b in &all {
            let want = hits(&b.lo, &b.hi, &e, &delta, true);
            let got = line.intersects(&b.b);
            let back = Intersects::<Line<SVec<N, D>>>::intersects(&b.b, &line);
            ensure!(got == back, "{line:?} and {:?} intersect: {got}, the other way round {back}", b.b);
            if got != want {
                ensure!(got && near(b, &e, &delta, true), "{line:?} intersects {:?}: {got}", b.b);
                rounded += 1;
            }
        }
        let sq: f64 = delta.iter().map(|d| *d as f64 * t.unit).map(|x| x * x).sum();
        ensure!(close(line.sq_len(), sq), "the squared length of {line:?} is {:e} instead of {sq:e}", line.sq_len());
        ensure!(close(line.len(), sq.sqrt()), "the length of {line:?} is {:e} instead of {:e}", line.len(), sq.sqrt());
        let bounds: SAABB<N, D> = line.bounds();
        ensure!((0..D).all(|d| bounds.min.0[d] == p.0[d].min(q.0[d]) && bounds.max.0[d] == p.0[d].max(q.0[d])), "the bounds of {line:?} are {bounds:?}");
        ev += 2 * all.len() as u64 + 3;
        inputs += all.len() as u64;
        // the same numbers as a direction, and, with every sign, a small one
        let mut dirs = vec![(q, f)];
        if t.unit == 1.0 {
            let s: [i64; D] = std::array::from_fn(|d| (f[d] % 3) as i64);
            if s.iter().all(|x| *x >= 0 || N::signed()) {
                dirs.push((SVec(s.map(N::small)), s.map(|x| x as i128)));
            }
        }
        for (n, en) in dirs {
            let ray = Ray { origin: p, n };
            for b in &all {
                let want = hits(&b.lo, &b.hi, &e, &en, false);
                let got = ray.intersects(&b.b);
                let back = Intersects::<Ray<N, D>>::intersects(&b.b, &ray);
                ensure!(got == back, "the ray from {p:?} towards {n:?} and {:?} intersect: {got}, the other way round {back}", b.b);
                if got != want {
                    ensure!(got && near(b, &e, &en, false), "the ray from {p:?} towards {n:?} intersects {:?}: {got}", b.b);
                    rounded += 1;
                }
            }
            ev += 2 * all.len() as u64;
            inputs += all.len() as u64;
        }
    }
    EVALS.fetch_add(ev, Relaxed);
    INPUTS.fetch_add(inputs, Relaxed);
    ROUNDED.fetch_add(rounded, Relaxed);
    Ok(())
}

/// One centre with spheres of all radii of the table against all points.
fn space_spheres<N: Ext, const D: usize>(m: &str, i: usize) -> Res {
    let t = N::table(m);
    let pts = tuples(t.v.len() as i64, D);
    let (c, e) = pt::<N, D>(&t, &pts[i]);
    let (mut ev, mut inputs, mut rounded) = (0u64, 0u64, 0u64);
    for &(r, er) in t.v.iter().filter(|r| r.0.into() >= 0.0) {
        let s = Sphere { center: c, radius: r };
        for q in &pts {
            let (q, f) = pt::<N, D>(&t, q);
            let got = s.intersects(&q);
            let back = Intersects::<Sphere<N, D>>::intersects(&q, &s);
            ensure!(got == back, "the sphere with radius {r:?} around {c:?} and {q:?} intersect: {got}, the other way round {back}");
            if t.metric {
                let d2: i128 = (0..D).map(|d| (f[d] - e[d]).pow(2)).sum();
                let apart = (0..D).filter(|d| f[*d] != e[*d]).count();
                if got != (d2 <= er * er) {
                    let gap = (d2 - er * er).abs();
                    ensure!(
                        apart > 1 && gap.saturating_mul(1 << 50) <= d2.max(er * er),
                        "the sphere with radius {r:?} around {c:?} intersects {q:?}: {got}"
                    );
                    rounded += 1;
                }
            } else if q == c {
                ensure!(got, "the sphere with radius {r:?} around {c:?} does not intersect {q:?}");
            }
            ev += 2;
            inputs += 1;
        }
        let b: SAABB<N, D> = s.bounds();
        if t.metric {
            for d in 0..D {
                let lo = (e[d] - er).max(t.range.0) as f64 * t.unit;
                let hi = (e[d] + er).min(t.range.1) as f64 * t.unit;
                // f32 may have to round the bounds of neighbours of one
                let exact = |got: f64, want: f64| got == want || (m == "ones" && got == want as f32 as f64);
                ensure!(
                    exact(b.min.0[d].into(), lo) && exact(b.max.0[d].into(), hi),
                    "the bounds of the sphere with radius {r:?} around {c:?} are {b:?} instead of {lo:e} to {hi:e} on axis {d}"
                );
            }
        } else {
            ensure!(Contains::<SVec<N, D>>::contains(&b, &c), "the bounds of the sphere with radius {r:?} around {c:?} are {b:?}");
        }
        ev += 1;
    }
    EVALS.fetch_add(ev, Relaxed);
    INPUTS.fetch_add(inputs, Relaxed);
    ROUNDED.fetch_add(rounded, Relaxed);
    Ok(())
}

// ------------------------------------------------------------------ trees

/// Boxes over a table of extreme coordinates; the model's boxes hold indices
/// into the table.
struct ExtV<N, const D: usize, const T: usize>(std::marker::PhantomData<N>);

const VNAMES: [[[&str; 4]; 3]; 3] = [
    [["", "exti1a", "exti2a", "exti3a"], ["", "exti1b", "exti2b", "exti3b"], ["", "", "", ""]],
    [["", "extu1a", "extu2a", "extu3a"], ["", "extu1b", "extu2b", "extu3b"], ["", "", "", ""]],
    [["", "extf1a", "extf2a", "extf3a"], ["", "extf1b", "extf2b", "extf3b"], ["", "extf1c", "extf2c", "extf3c"]],
];
trait Kind: Ext {
    const KIND: usize;
    const TREES: [&'static str; 3];
}
impl Kind for i32 {
    const KIND: usize = 0;
    const TREES: [&'static str; 3] = ["ends", "mid", ""];
}
impl Kind for u32 {
    const KIND: usize = 1;
    const TREES: [&'static str; 3] = ["ends", "mid", ""];
}
impl Kind for N32 {
    const KIND: usize = 2;
    const TREES: [&'static str; 3] = ["max", "mixed", "tiny"];
}

fn table_of<N: Kind, const T: usize>() -> Vec<N> {
    N::table(N::TREES[T]).v.into_iter().map(|x| x.0).collect()
}
fn ipt<N: Kind, const D: usize, const T: usize>(p: &[i64; 3]) -> SVec<N, D> {
    let t = table_of::<N, T>();
    SVec(std::array::from_fn(|d| t[p[d] as usize]))
}
fn ibox<N: Kind, const D: usize, const T: usize>(b: &MBox) -> SAABB<N, D> {
    AABB { min: ipt::<N, D, T>(&b.lo), max: ipt::<N, D, T>(&b.hi) }
}

impl<N: Kind, const D: usize, const T: usize> Variant for ExtV<N, D, T> {
    type B = SAABB<N, D>;
    type K = SAABB<N, D>;
    const NAME: &'static str = VNAMES[N::KIND][T][D];
    const D: usize = D;
    fn key(_: usize, b: &MBox) -> Self::K {
        ibox::<N, D, T>(b)
    }
    fn mbox(b: &Self::B) -> Option<MBox> {
        let t = table_of::<N, T>();
        let mut m = mb([0; 3], [0; 3]);
        for d in 0..D {
            let at = |x: &N| match t.iter().position(|y| y == x) {
                Some(i) => i as i64,
                None => vpanic(format!("the bounds {b:?} have a coordinate that no key has")),
            };
            m.lo[d] = at(&b.min.0[d]);
            m.hi[d] = at(&b.max.0[d]);
            if m.lo[d] > m.hi[d] {
                return None;
            }
        }
        Some(m)
    }
    fn parse_b(s: &str) -> Option<MBox> {
        let v = numbers(s);
        if v.len() != 2 * D {
            return None;
        }
        let t = table_of::<N, T>();
        let mut m = mb([0; 3], [0; 3]);
        for d in 0..D {
            if v[d] > v[D + d] {
                // no bounds
                return Some(mb([1; 3], [0; 3]));
            }
            let at = |x: f64| t.iter().position(|y| Into::<f64>::into(*y) == N::read(x)).map(|i| i as i64);
            // an unknown coordinate shows as a box that equals no other
            m.lo[d] = at(v[d]).unwrap_or(-9);
            m.hi[d] = at(v[D + d]).unwrap_or(99);
        }
        Some(m)
    }
    /// The extents of the alphabet are ignored: the whole range, points at its
    /// ends and in its middle, then boxes all over the table.
    fn prep(a: Vec<MBox>) -> Vec<MBox> {
        let n = table_of::<N, T>().len() as i64;
        let mut v: Vec<MBox> = vec![];
        let mut i = 0i64;
        while v.len() < a.len() && i < 400 {
            let mut b = mb([0; 3], [0; 3]);
            for d in 0..D as i64 {
                let (lo, hi) = match i {
                    0 => (0, n - 1),
                    1 => (0, 0),
                    2 => (n - 1, n - 1),
                    3 => (n / 2, n / 2),
                    4 => (n / 2, n - 1),
                    5 => (0, n / 2),
                    _ => {
                        let lo = (7 * i + 3 * d * i + d + i / n) % n;
                        let w = [0, 1, n, 2, 0, 3][((i + d) % 6) as usize];
                        (lo, (lo + w).min(n - 1))
                    }
                };
                b.lo[d as usize] = lo;
                b.hi[d as usize] = hi;
            }
            if !v.contains(&b) {
                v.push(b);
            }
            i += 1;
        }
        v
    }
}

#[derive(Clone, Copy)]
struct ByGap<N, const D: usize>(SAABB<N, D>);
impl<N: Ext, const D: usize> Ranking<SAABB<N, D>, SAABB<N, D>> for ByGap<N, D> {
    type Metric = N64;
    fn bounds_min(&self, b: &SAABB<N, D>) -> N64 {
        self.0.sq_dist_to(b)
    }
    fn rank_key(&self, b: &SAABB<N, D>) -> N64 {
        self.0.sq_dist_to(b)
    }
}
#[derive(Clone, Copy)]
struct Touch;
impl<N: Ext, const D: usize> JoinFilter<SAABB<N, D>, SAABB<N, D>, SAABB<N, D>, SAABB<N, D>> for Touch {
    fn test_bounds(&self, a: &SAABB<N, D>, b: &SAABB<N, D>) -> bool {
        Intersects::<SAABB<N, D>>::intersects(a, b)
    }
    fn test_key(&self, a: &SAABB<N, D>, b: &SAABB<N, D>) -> bool {
        Intersects::<SAABB<N, D>>::intersects(a, b)
    }
}

fn ask<V: Variant, F: SpatialFilter<V::B, V::K>>(r: &Run<V>, f: F, want: impl Fn(&MBox) -> bool, what: &dyn Fn() -> String) -> Res {
    let got = capped(r.tree.filter_iter::<V::K, _>(f).map(|e| *e.1), r.model.len(), "query")?;
    let exp = r.model.iter().filter(|e| want(&r.alpha.boxes[e.0 as usize])).map(|e| e.1).collect();
    QUERIES.fetch_add(1, Relaxed);
    same_set(got, exp, &what())
}

fn check<N: Kind, const D: usize, const T: usize>(r: &mut Run<ExtV<N, D, T>>, dump: &Dump, _: Option<Op>) -> Res {
    r.check_contents()?;
    r.check_lookups()?;
    let height = dump.height();
    for (i, n) in dump.nodes.iter().enumerate() {
        let mut below = vec![];
        dump.below(i, &mut below);
        let mut u: Option<MBox> = None;
        for v in below {
            let Some(k) = r.key_of(v) else { viol!("the tree holds the value {v}, which no entry has") };
            let b = r.alpha.boxes[k as usize];
            u = Some(u.map_or(b, |u| u.union(&b)));
        }
        ensure!(n.bounds == u, "node {i} at depth {} has the bounds {:?} instead of {u:?} (indices)", n.depth, n.bounds);
        let c = n.kids.len() + n.ents.len();
        ensure!(c <= r.cfg.0 && (c >= r.cfg.1 || i == 0) && (n.depth == height || !n.kids.is_empty()), "node {i} at depth {} has {c} children, leaves are at {height}", n.depth);
    }
    let n = table_of::<N, T>().len() as i64;
    let stops: Vec<i64> = if D == 1 { (0..n).collect() } else { vec![0, 1, n / 2, n - 1] };
    let mut qs = vec![mb([0; 3], [0; 3])];
    for d in 0..D {
        qs = qs
            .iter()
            .flat_map(|b| {
                let stops = &stops;
                (0..stops.len()).flat_map(move |i| (i..stops.len()).map(move |j| (i, j))).map(move |(i, j)| {
                    let mut b = *b;
                    b.lo[d] = stops[i];
                    b.hi[d] = stops[j];
                    b
                })
            })
            .collect();
    }
    if D == 3 {
        qs = qs.into_iter().step_by(7).collect();
    }
    for (i, b) in qs.iter().enumerate() {
        let q = ibox::<N, D, T>(b);
        ask(r, IntersectsFilter::new(q), |k| k.intersects(b), &|| format!("IntersectsFilter of {q:?}"))?;
        ask(r, ContainsFilter::new(q), |k| b.contains(k), &|| format!("ContainsFilter of {q:?}"))?;
        ask(r, BoundedIntersectsFilter::new_bounded(q), |k| k.intersects(b), &|| format!("BoundedIntersectsFilter of {q:?}"))?;
        ask(r, BoundedContainsFilter::new_bounded(q), |k| b.contains(k), &|| format!("BoundedContainsFilter of {q:?}"))?;
        if b.lo == b.hi {
            ask(r, IntersectsFilter::new(q.min), |k| k.contains(b), &|| format!("IntersectsFilter of the point {:?}", q.min))?;
        }
        if i % 3 == 0 {
            let got = capped(r.tree.iter_asc_by(ByGap(q)).map(|e| (*e.0, *e.1)), r.model.len(), "ranked iteration")?;
            ensure!(got.windows(2).all(|w| q.sq_dist_to(&w[0].0) <= q.sq_dist_to(&w[1].0)), "ranking by distance to {q:?} yields the keys {got:?}");
            same_set(got.iter().map(|e| e.1).collect(), r.model.iter().map(|e| e.1).collect(), "ranked iteration")?;
            QUERIES.fetch_add(1, Relaxed);
        }
    }
    let mut want = vec![];
    for a in &r.model {
        for b in &r.model {
            if r.alpha.boxes[a.0 as usize].intersects(&r.alpha.boxes[b.0 as usize]) {
                want.push((a.1, b.1));
            }
        }
    }
    type K<N, const D: usize> = SAABB<N, D>;
    let got = capped(r.tree.join::<K<N, D>, K<N, D>, u32, K<N, D>, K<N, D>, _>(&r.tree, Touch).map(|(a, b)| (a.1, b.1)), want.len(), "join")?;
    QUERIES.fetch_add(1, Relaxed);
    same_set(got, want, "join with itself by intersection")
}

fn plan(ctx: &Ctx, big: bool) -> Plan {
    let cfgs = if big { vec![(2, 1), (3, 1), (4, 2), (6, 3)] } else { vec![(2, 1), (4, 2)] };
    Plan {
        only_new: true,
        bfs: vec![("grid:6", 6, "ir", ctx.qt(5, 6 + big as usize), 8, cfgs.clone()), ("grid:4", 4, "iur", ctx.qt(5, 8), 8, cfgs.clone())],
        scripts: vec![("grid", ctx.qt(14, 24) + 4 * big as usize, cfgs.clone())],
        around: vec![("grid", 10, vec![6, 10], "ir", ctx.qt(1, 2), cfgs)],
        walks: vec![("grid", 60, 60, ctx.qt(41, 11), vec![(2, 1), (17, 8)])],
    }
}

macro_rules! trees {
    ($m:ident) => {
        $m!(i32, 2, 0, true; i32, 1, 0, false; i32, 1, 1, false; i32, 2, 1, false; i32, 3, 0, false;
            u32, 2, 0, true; u32, 1, 0, false; u32, 2, 1, false; u32, 3, 1, false;
            N32, 2, 0, true; N32, 1, 1, false; N32, 2, 1, true; N32, 3, 0, false; N32, 2, 2, false; N32, 3, 1, false)
    };
}

fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    let mut cases = vec![];
    macro_rules! add {
        ($($t:ty),*) => {$(
            for m in <$t>::TABLES {
                let tab = <$t>::table(m);
                let n = tab.v.len();
                let many = matches!(<$t>::NAME, "i32" | "u32" | "N32");
                for d in 1..=4u32 {
                    let pts = n.pow(d);
                    let bx = (n * (n + 1) / 2).pow(d);
                    let cap = if th { 400_000_000 } else if many { 12_000_000 } else { 3_000_000 };
                    let mut put = |s: &str, k: usize, cost: usize| {
                        if cost <= cap {
                            for i in 0..k {
                                cases.push(format!("S={s} T={} M={m} D={d} I={i}", <$t>::NAME));
                            }
                        }
                    };
                    put("box", bx, bx * bx);
                    put("sph", pts, pts * pts * n);
                    if tab.metric {
                        put("line", pts, 4 * pts * pts * bx);
                    }
                }
            }
        )*};
    }
    add!(i32, u32, N32, i8, u8, i16, u16);
    for c in cases.iter().step_by(cases.len() / 6 + 1) {
        ctx.sample(c);
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    ctx.add("evaluations", EVALS.load(Relaxed));
    ctx.add("distinct_nontrivial", INPUTS.load(Relaxed));
    ctx.add("hits_by_rounding", ROUNDED.load(Relaxed));
    macro_rules! go {
        ($($t:ty, $d:literal, $k:literal, $big:literal);*) => {$(
            explore::<ExtV<$t, $d, $k>>(ctx, &plan(ctx, $big), &check::<$t, $d, $k>);
        )*};
    }
    trees!(go);
    ctx.add("queries", QUERIES.load(Relaxed));
    ctx.note(
        "rule",
        "evaluations: results of predicates, distances, volumes, unions and bounds compared with exact integer geometry; distinct_nontrivial: distinct \
         pairs of shapes over the tables of extreme coordinates; states and transitions: trees over such keys reached by executing the real code, and the \
         operations that led to them; queries: queries on these trees compared with the model",
    );
    ctx.note("assume1", "coordinates between the values of the tables are not covered here");
    ctx.note("assume2", "segments, rays and spheres may be reported to touch what they miss by less than the rounding of 64-bit floating point; hits_by_rounding counts these");
}

fn one(c: &Case, _: Tier) -> Res {
    if c.get("S").is_empty() {
        macro_rules! go {
            ($($t:ty, $d:literal, $k:literal, $big:literal);*) => {$(
                if c.get("V") == <ExtV<$t, $d, $k> as Variant>::NAME {
                    return replay::<ExtV<$t, $d, $k>>(c, &check::<$t, $d, $k>);
                }
            )*};
        }
        trees!(go);
        panic!("unknown case");
    }
    let (m, i) = (c.get("M"), c.num::<usize>("I"));
    macro_rules! go {
        ($t:ty, $d:literal) => {
            match c.get("S") {
                "box" => space_box::<$t, $d>(m, i),
                "line" => space_lines::<$t, $d>(m, i),
                "sph" => space_spheres::<$t, $d>(m, i),
                s => panic!("space {s}"),
            }
        };
    }
    macro_rules! dims {
        ($t:ty) => {
            match c.num::<usize>("D") {
                1 => go!($t, 1),
                2 => go!($t, 2),
                3 => go!($t, 3),
                4 => go!($t, 4),
                d => panic!("dimension {d}"),
            }
        };
    }
    match c.get("T") {
        "i8" => dims!(i8),
        "i16" => dims!(i16),
        "i32" => dims!(i32),
        "u8" => dims!(u8),
        "u16" => dims!(u16),
        "u32" => dims!(u32),
        "N32" => dims!(N32),
        t => panic!("type {t}"),
    }
}

fn main() {
    let _ = n64(0.0);
    rtree_mc::main_for("C20", "exploration", run, one)
}
