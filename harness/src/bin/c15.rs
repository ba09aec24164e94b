//! C15: predicates and unions of boxes and points are geometrically exact.
use noisy_float::types::{n32, n64, N32, N64};
use rtree_mc::geo::{grid_boxes, tuples, MANY};
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::vector::{SVec, Vector};
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static EVALS: AtomicU64 = AtomicU64::new(0);
static INPUTS: AtomicU64 = AtomicU64::new(0);

/// Coordinates by number, increasing; the exact value is `num / 4`.
trait Axis: Copy + PartialEq + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    const MAPS: &'static [&'static str];
    fn at(map: &str, i: i64) -> Self;
    fn quarters(self) -> i128;
}
macro_rules! int_axis {
    ($t:ty, $n:expr, $maps:expr, $ext:expr) => {
        impl Axis for $t {
            const NAME: &'static str = $n;
            const MAPS: &'static [&'static str] = $maps;
            fn at(map: &str, i: i64) -> $t {
                match map {
                    "unit" => i as $t,
                    "centred" => (i - 1) as $t,
                    "steps" => (7 * i * i + 3) as $t,
                    "extreme" => {
                        let e: &[$t] = $ext;
                        e[i as usize]
                    }
                    _ => panic!("map"),
                }
            }
            fn quarters(self) -> i128 {
                self as i128 * 4
            }
        }
    };
}
int_axis!(i32, "i32", &["unit", "centred", "steps", "extreme"], &[i32::MIN, -1, 0, i32::MAX - 1, i32::MAX]);
int_axis!(u32, "u32", &["unit", "steps", "extreme"], &[0, 1, 1 << 31, u32::MAX - 1, u32::MAX]);
int_axis!(i16, "i16", &["centred", "extreme"], &[i16::MIN, -1, 0, 1, i16::MAX]);
int_axis!(i64, "i64", &["centred", "extreme"], &[i64::MIN, -1, 0, i64::MAX - 1, i64::MAX]);
impl Axis for N64 {
    const NAME: &'static str = "N64";
    const MAPS: &'static [&'static str] = &["unit", "quarter"];
    fn at(map: &str, i: i64) -> N64 {
        n64(if map == "unit" { (i - 2) as f64 } else { (i * i - 2) as f64 * 0.25 })
    }
    fn quarters(self) -> i128 {
        (self.raw() * 4.0) as i128
    }
}
impl Axis for N32 {
    const NAME: &'static str = "N32";
    const MAPS: &'static [&'static str] = &["unit", "quarter"];
    fn at(map: &str, i: i64) -> N32 {
        n32(if map == "unit" { (i - 2) as f32 } else { (i * i - 2) as f32 * 0.25 })
    }
    fn quarters(self) -> i128 {
        (self.raw() * 4.0) as i128
    }
}

/// A box given by numbers of coordinates.
type IB<const D: usize> = ([i64; D], [i64; D]);

fn boxes<const D: usize>(n: i64) -> Vec<IB<D>> {
    if D >= MANY {
        return grid_boxes(n, D).into_iter().map(|(a, b)| (a.try_into().unwrap(), b.try_into().unwrap())).collect();
    }
    let mut v: Vec<IB<D>> = vec![([0; D], [0; D])];
    for d in 0..D {
        let mut w = vec![];
        for b in &v {
            for lo in 0..n {
                for hi in lo..n {
                    let mut b = *b;
                    b.0[d] = lo;
                    b.1[d] = hi;
                    w.push(b);
                }
            }
        }
        v = w;
    }
    v
}

fn points<const D: usize>(n: i64) -> Vec<[i64; D]> {
    if D >= MANY {
        return tuples(n, D).into_iter().map(|p| p.try_into().unwrap()).collect();
    }
    boxes::<D>(n).into_iter().filter(|b| b.0 == b.1).map(|b| b.0).collect()
}

fn pt<N: Axis, const D: usize>(m: &str, p: &[i64; D]) -> SVec<N, D> {
    SVec(std::array::from_fn(|d| N::at(m, p[d])))
}
fn bx<N: Axis, const D: usize>(m: &str, b: &IB<D>) -> AABB<SVec<N, D>> {
    AABB { min: pt(m, &b.0), max: pt(m, &b.1) }
}
fn join<const D: usize>(a: &IB<D>, b: &IB<D>) -> IB<D> {
    (std::array::from_fn(|d| a.0[d].min(b.0[d])), std::array::from_fn(|d| a.1[d].max(b.1[d])))
}
fn inside<const D: usize>(a: &IB<D>, b: &IB<D>) -> bool {
    (0..D).all(|d| a.0[d] <= b.0[d] && b.1[d] <= a.1[d])
}
fn meets<const D: usize>(a: &IB<D>, b: &IB<D>) -> bool {
    (0..D).all(|d| a.0[d] <= b.1[d] && b.0[d] <= a.1[d])
}

/// All predicates and unions with one box on the left; `vol` where the volume is
/// defined for the coordinate type.
fn row<N: Axis, const D: usize>(m: &str, n: i64, i: usize, triples: bool, vol: &dyn Fn(&AABB<SVec<N, D>>) -> Option<f64>) -> Res
where
    SVec<N, D>: Vector + Clone + PartialEq + Debug + Intersects<AABB<SVec<N, D>>>,
    AABB<SVec<N, D>>: Bounded<AABB<SVec<N, D>>>,
{
    let all = boxes::<D>(n);
    let ia = &all[i];
    let a = bx::<N, D>(m, ia);
    let mut ev = 0u64;
    macro_rules! eq {
        ($got:expr, $want:expr, $($t:tt)*) => {{
            ev += 1;
            let (got, want) = ($got, $want);
            ensure!(got == want, "{} is {got:?} instead of {want:?}", format!($($t)*));
        }};
    }
    let empty = AABB::<SVec<N, D>>::empty();
    eq!(AABB::union(&a, &empty), a, "the union of {a:?} and the empty box");
    eq!(AABB::union(&empty, &a), a, "the union of the empty box and {a:?}");
    eq!(AABB::union_all([a]), a, "the union of all of [{a:?}]");
    eq!(AABB::union_all([empty, a, empty, a]), a, "the union of all of {a:?}, twice, and empty boxes");
    let none: [AABB<SVec<N, D>>; 0] = [];
    eq!(AABB::union_all(none), empty, "the union of no boxes");
    eq!(Bounded::<AABB<SVec<N, D>>>::bounds(&a), a, "the bounds of {a:?}");
    if let Some(got) = vol(&a) {
        let want: f64 = (0..D).map(|d| (a.max.0[d].quarters() - a.min.0[d].quarters()) as f64 / 4.0).product();
        // far values do not have exact products in f64
        ev += 1;
        ensure!((got - want).abs() <= want.abs() * 1e-12, "the volume of {a:?} is {got} instead of {want}");
    }
    for p in points::<D>(n) {
        let q = pt::<N, D>(m, &p);
        let want = inside(ia, &(p, p));
        eq!(Contains::<SVec<N, D>>::contains(&a, &q), want, "{a:?} contains {q:?}");
        eq!(Intersects::<SVec<N, D>>::intersects(&a, &q), want, "{a:?} intersects {q:?}");
        eq!(Intersects::<AABB<SVec<N, D>>>::intersects(&q, &a), want, "{q:?} intersects {a:?}");
        let pb: AABB<SVec<N, D>> = q.bounds();
        eq!(pb, bx::<N, D>(m, &(p, p)), "the bounds of {q:?}");
        eq!(AABB::union(&a, &pb), bx::<N, D>(m, &join(ia, &(p, p))), "the union of {a:?} and {q:?}");
        INPUTS.fetch_add(1, Relaxed);
    }
    for ib in &all {
        let b = bx::<N, D>(m, ib);
        eq!(Contains::<AABB<SVec<N, D>>>::contains(&a, &b), inside(ia, ib), "{a:?} contains {b:?}");
        eq!(Intersects::<AABB<SVec<N, D>>>::intersects(&a, &b), meets(ia, ib), "{a:?} intersects {b:?}");
        let u = join(ia, ib);
        eq!(AABB::union(&a, &b), bx::<N, D>(m, &u), "the union of {a:?} and {b:?}");
        eq!(AABB::union_all([a, b]), bx::<N, D>(m, &u), "the union of all of {a:?} and {b:?}");
        INPUTS.fetch_add(1, Relaxed);
        if triples {
            for ic in &all {
                let c = bx::<N, D>(m, ic);
                eq!(AABB::union_all(vec![a, b, c]), bx::<N, D>(m, &join(&u, ic)), "the union of all of {a:?}, {b:?}, {c:?}");
                INPUTS.fetch_add(1, Relaxed);
            }
        }
    }
    EVALS.fetch_add(ev, Relaxed);
    Ok(())
}

/// A vector type of a user's own, with components of different types.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Mixed(u8, i64, char);
impl Vector for Mixed {
    fn min_value() -> Self {
        Mixed(u8::MIN, i64::MIN, char::MIN)
    }
    fn max_value() -> Self {
        Mixed(u8::MAX, i64::MAX, char::MAX)
    }
    fn all_le(&self, r: &Self) -> bool {
        self.0 <= r.0 && self.1 <= r.1 && self.2 <= r.2
    }
    fn all_ge(&self, r: &Self) -> bool {
        r.all_le(self)
    }
    fn componentwise_min(&self, r: &Self) -> Self {
        Mixed(self.0.min(r.0), self.1.min(r.1), self.2.min(r.2))
    }
    fn componentwise_max(&self, r: &Self) -> Self {
        Mixed(self.0.max(r.0), self.1.max(r.1), self.2.max(r.2))
    }
}
fn mixed(i: usize, n: i64) -> Res {
    let all = boxes::<3>(n);
    let v = |p: &[i64; 3]| Mixed([0, 3, 255][p[0] as usize], [i64::MIN, 0, i64::MAX][p[1] as usize], ['\0', 'x', char::MAX][p[2] as usize]);
    let b = |b: &IB<3>| AABB { min: v(&b.0), max: v(&b.1) };
    let (ia, a) = (&all[i], b(&all[i]));
    let mut ev = 0;
    for p in points::<3>(n) {
        let q = v(&p);
        ensure!(Contains::<Mixed>::contains(&a, &q) == inside(ia, &(p, p)), "{a:?} contains {q:?}");
        ensure!(Intersects::<Mixed>::intersects(&a, &q) == inside(ia, &(p, p)), "{a:?} intersects {q:?}");
        let pb: AABB<Mixed> = q.bounds();
        ensure!(pb == b(&(p, p)), "the bounds of {q:?}: {pb:?}");
        ev += 3;
    }
    for ib in &all {
        let c = b(ib);
        ensure!(Contains::<AABB<Mixed>>::contains(&a, &c) == inside(ia, ib), "{a:?} contains {c:?}");
        ensure!(Intersects::<AABB<Mixed>>::intersects(&a, &c) == meets(ia, ib), "{a:?} intersects {c:?}");
        ensure!(AABB::union(&a, &c) == b(&join(ia, ib)), "the union of {a:?} and {c:?}");
        ensure!(AABB::union_all([AABB::empty(), a, c]) == b(&join(ia, ib)), "the union of all of {a:?} and {c:?}");
        ev += 4;
        INPUTS.fetch_add(1, Relaxed);
    }
    EVALS.fetch_add(ev, Relaxed);
    Ok(())
}

macro_rules! types {
    ($c:expr, $d:literal, $go:ident) => {
        match $c.get("T") {
            "i32" => $go!(i32, $d, |b: &AABB<SVec<i32, $d>>| Some(b.volume().raw())),
            "u32" => $go!(u32, $d, |b: &AABB<SVec<u32, $d>>| Some(b.volume().raw())),
            "i16" => $go!(i16, $d, |b: &AABB<SVec<i16, $d>>| Some(b.volume().raw())),
            "i64" => $go!(i64, $d, |_: &AABB<SVec<i64, $d>>| None),
            "N64" => $go!(N64, $d, |b: &AABB<SVec<N64, $d>>| Some(b.volume().raw())),
            "N32" => $go!(N32, $d, |b: &AABB<SVec<N32, $d>>| Some(b.volume().raw())),
            t => panic!("type {t}"),
        }
    };
}
macro_rules! two_types {
    ($c:expr, $d:literal, $go:ident) => {
        match $c.get("T") {
            "i32" => $go!(i32, $d, |b: &AABB<SVec<i32, $d>>| Some(b.volume().raw())),
            "N64" => $go!(N64, $d, |b: &AABB<SVec<N64, $d>>| Some(b.volume().raw())),
            t => panic!("type {t}"),
        }
    };
}

fn one(c: &Case, _: Tier) -> Res {
    let (n, i) = (c.num::<i64>("N"), c.num::<usize>("I"));
    if c.get("T") == "mixed" {
        return mixed(i, n);
    }
    macro_rules! go {
        ($t:ty, $d:literal, $v:expr) => {
            row::<$t, $d>(c.get("M"), n, i, c.get("3") == "1", &$v)
        };
    }
    match c.num::<usize>("D") {
        1 => types!(c, 1, go),
        2 => types!(c, 2, go),
        3 => types!(c, 3, go),
        4 => types!(c, 4, go),
        5 => types!(c, 5, go),
        6 => types!(c, 6, go),
        7 => two_types!(c, 7, go),
        9 => two_types!(c, 9, go),
        17 => two_types!(c, 17, go),
        33 => two_types!(c, 33, go),
        65 => two_types!(c, 65, go),
        d => panic!("dimension {d}"),
    }
}

fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    let mut cases = vec![];
    let types: [(&str, &[&str]); 6] =
        [("i32", i32::MAPS), ("u32", u32::MAPS), ("i16", i16::MAPS), ("i64", i64::MAPS), ("N64", N64::MAPS), ("N32", N32::MAPS)];
    for (ty, maps) in types {
        for m in maps {
            // dimension, coordinates, triples
            let mut grid = vec![(1, 5, true), (2, 4, m != &"steps"), (3, 3, false), (4, 2, true), (2, 5, false), (5, 2, false), (6, 2, false)];
            if t {
                grid.extend([(2, 5, true), (3, 4, false), (3, 3, true), (4, 3, false)]);
            }
            for (d, n, three) in grid {
                let count = ((n * (n + 1) / 2) as usize).pow(d);
                for i in 0..count {
                    cases.push(format!("T={ty} M={m} D={d} N={n} 3={} I={i}", three as u8));
                }
            }
        }
    }
    for (ty, m) in [("i32", "centred"), ("N64", "unit"), ("N64", "quarter")] {
        for d in [7, 9, 17, 33, 65] {
            let n = if t && d < 20 { 3 } else { 2 };
            for i in 0..grid_boxes(n, d).len() {
                cases.push(format!("T={ty} M={m} D={d} N={n} 3=0 I={i}"));
            }
        }
    }
    for i in 0..216 {
        cases.push(format!("T=mixed N=3 I={i}"));
    }
    for c in cases.iter().step_by(cases.len() / 8 + 1) {
        ctx.sample(c);
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    ctx.add("evaluations", EVALS.load(Relaxed));
    ctx.add("distinct_nontrivial", INPUTS.load(Relaxed));
    ctx.add("boxes", cases.len() as u64);
    ctx.note(
        "rule",
        "evaluations: results of predicates, unions, bounds and volumes of the real code compared with exact integer geometry; \
         distinct_nontrivial: distinct inputs (box and point, box and box, three boxes) for each coordinate type, coordinate map and dimension; \
         every box, point, pair and triple of each grid is enumerated (in seven and more dimensions, the boxes and points that are uniform up to two dimensions)",
    );
    ctx.note("assume1", "the predicates compare coordinates and use no others than those of their arguments, so that grids with a few coordinates per axis show every order type");
}

fn main() {
    rtree_mc::main_for("C15", "exploration", run, one)
}
