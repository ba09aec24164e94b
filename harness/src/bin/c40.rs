//! C40: coordinates and vectors of the user's own.
//!
//! The checks of single properties are applied to trees whose coordinates are
//! not the usual numbers, and shapes made of them are compared with shapes made
//! of integers.
#![allow(dead_code)]
use noisy_float::types::{n64, N64};
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::*;
use rusty_rtree::geom::{line::Line, ray::Ray, sphere::Sphere};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, PointDistance};
use rusty_rtree::vector::{SVec, Vector};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::ops::{Add, Mul, Sub};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[path = "c03.rs"]
mod filled;
#[path = "c04.rs"]
mod filtered;
#[path = "c06.rs"]
mod ranked;
#[path = "c08.rs"]
mod joined;
#[path = "c09.rs"]
mod left_joined;
#[path = "c13.rs"]
mod first;
#[path = "c14.rs"]
mod mutable;

// ------------------------------------------------------------- coordinates

/// A coordinate type, seen from the model.
trait Own:
    Clone + Ord + Debug + Into<f64> + num_traits::Bounded + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Send + Sync + 'static
{
    const NAMES: [&'static str; 4];
    /// what is added to, and then the range of, the coordinates of keys
    const FIT: (i64, i64, i64) = (0, -900, 900);
    fn of(x: i64) -> Self;
    fn to(&self) -> i64;
}

const ALIVE: u64 = 0xC0_0D_1A_7E_0A_11_5E_ED;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) } }

/// A number that owns memory, has to be cloned, knows whether it is alive and
/// is valid between -1000000 and 1000000 only.
struct Num(Option<Box<i64>>, u64);
const LIMIT: i64 = 1_000_000;
impl Num {
    fn new(x: i64) -> Num {
        if !(-LIMIT..=LIMIT).contains(&x) {
            vpanic(format!("arithmetic leaves the range of the coordinate type: {x}"));
        }
        LIVE.with(|l| l.set(l.get() + 1));
        Num(Some(Box::new(x)), ALIVE)
    }
    fn get(&self) -> i64 {
        match &self.0 {
            Some(x) if self.1 == ALIVE => **x,
            _ => vpanic("something that is not a coordinate is used as one".into()),
        }
    }
}
impl Drop for Num {
    fn drop(&mut self) {
        // what is not alive does not count as dropped, so that the sum is wrong
        LIVE.with(|l| l.set(l.get() - if self.1 == ALIVE { 1 } else { 1 << 40 }));
        self.1 = 0;
    }
}
impl Clone for Num {
    fn clone(&self) -> Num {
        Num::new(self.get())
    }
}
impl Debug for Num {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.get())
    }
}
impl From<Num> for f64 {
    fn from(n: Num) -> f64 {
        n.get() as f64
    }
}
impl num_traits::Bounded for Num {
    fn min_value() -> Num {
        Num::new(-LIMIT)
    }
    fn max_value() -> Num {
        Num::new(LIMIT)
    }
}
macro_rules! ordered {
    ($t:ty, $get:ident) => {
        impl PartialEq for $t {
            fn eq(&self, o: &$t) -> bool {
                self.$get() == o.$get()
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &$t) -> Ordering {
                self.$get().cmp(&o.$get())
            }
        }
    };
}
ordered!(Num, get);
macro_rules! op {
    ($t:ident, $tr:ident, $f:ident, $op:tt) => {
        impl $tr for Num {
            type Output = Num;
            fn $f(self, o: Num) -> Num {
                Num::new(self.get() $op o.get())
            }
        }
    };
}
op!(Num, Add, add, +);
op!(Num, Sub, sub, -);
op!(Num, Mul, mul, *);
impl Own for Num {
    const NAMES: [&'static str; 4] = ["", "num1", "num2", "num3"];
    fn of(x: i64) -> Num {
        Num::new(x)
    }
    fn to(&self) -> i64 {
        self.get()
    }
}

/// A number so large that its conversion to floating point forgets the last
/// digits. Neighbours are different, but their distance is zero.
#[derive(Clone, Copy)]
struct Far(i64);
const FAR: i64 = 1 << 55;
impl Far {
    fn raw(&self) -> i64 {
        self.0
    }
}
ordered!(Far, raw);
impl Debug for Far {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.to())
    }
}
impl From<Far> for f64 {
    fn from(n: Far) -> f64 {
        n.0 as f64
    }
}
impl num_traits::Bounded for Far {
    fn min_value() -> Far {
        Far(0)
    }
    fn max_value() -> Far {
        Far(i64::MAX)
    }
}
macro_rules! wrapping {
    ($tr:ident, $f:ident, $op:ident) => {
        impl $tr for Far {
            type Output = Far;
            fn $f(self, o: Far) -> Far {
                Far(self.0.$op(o.0).unwrap_or_else(|| vpanic("arithmetic leaves the range of the coordinate type".into())))
            }
        }
    };
}
wrapping!(Add, add, checked_add);
wrapping!(Sub, sub, checked_sub);
wrapping!(Mul, mul, checked_mul);
impl Own for Far {
    const NAMES: [&'static str; 4] = ["", "far1", "far2", "far3"];
    fn of(x: i64) -> Far {
        Far(FAR + x)
    }
    fn to(&self) -> i64 {
        self.0 - FAR
    }
}

/// A number that is ordered from high to low, and keeps to that when it is
/// converted.
#[derive(Clone, Copy)]
struct Down(i32);
impl Down {
    fn new(x: i64) -> Down {
        Down(i32::try_from(x).unwrap_or_else(|_| vpanic("arithmetic leaves the range of the coordinate type".into())))
    }
    fn key(&self) -> i64 {
        -(self.0 as i64)
    }
}
ordered!(Down, key);
impl Debug for Down {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.key())
    }
}
impl From<Down> for f64 {
    fn from(n: Down) -> f64 {
        n.key() as f64
    }
}
impl num_traits::Bounded for Down {
    fn min_value() -> Down {
        Down(i32::MAX)
    }
    fn max_value() -> Down {
        Down(i32::MIN)
    }
}
impl Add for Down {
    type Output = Down;
    fn add(self, o: Down) -> Down {
        Down::new(self.0 as i64 + o.0 as i64)
    }
}
impl Sub for Down {
    type Output = Down;
    fn sub(self, o: Down) -> Down {
        Down::new(self.0 as i64 - o.0 as i64)
    }
}
impl Mul for Down {
    type Output = Down;
    fn mul(self, o: Down) -> Down {
        Down::new(-(self.0 as i64 * o.0 as i64))
    }
}
impl Own for Down {
    const NAMES: [&'static str; 4] = ["", "down1", "down2", "down3"];
    fn of(x: i64) -> Down {
        Down(-x as i32)
    }
    fn to(&self) -> i64 {
        self.key()
    }
}

macro_rules! primitive {
    ($t:ty, $n:literal, $fit:expr) => {
        impl Own for $t {
            const NAMES: [&'static str; 4] = ["", concat!($n, "1"), concat!($n, "2"), concat!($n, "3")];
            const FIT: (i64, i64, i64) = $fit;
            fn of(x: i64) -> $t {
                <$t>::try_from(x).expect("within the range")
            }
            fn to(&self) -> i64 {
                *self as i64
            }
        }
    };
}
primitive!(i8, "i8-", (0, -128, 127));
primitive!(u8, "u8-", (60, 0, 255));
primitive!(i16, "i16-", (0, -32768, 32767));
primitive!(u16, "u16-", (65000, 0, 65535));

/// boxes of such coordinates as keys
struct OwnV<N, const D: usize>(std::marker::PhantomData<N>);
fn vec_of<N: Own, const D: usize>(p: &[i64; 3]) -> SVec<N, D> {
    SVec(std::array::from_fn(|d| N::of(p[d])))
}
fn box_of<N: Own, const D: usize>(b: &MBox) -> SAABB<N, D> {
    AABB { min: vec_of(&b.lo), max: vec_of(&b.hi) }
}
fn fit(a: Vec<MBox>, d: usize, f: (i64, i64, i64)) -> Vec<MBox> {
    let mut seen: Vec<MBox> = vec![];
    for mut b in a {
        for i in 0..3 {
            b.lo[i] = if i < d { (b.lo[i] + f.0).clamp(f.1, f.2) } else { 0 };
            b.hi[i] = if i < d { (b.hi[i] + f.0).clamp(f.1, f.2) } else { 0 };
        }
        if !seen.contains(&b) {
            seen.push(b);
        }
    }
    seen
}
impl<N: Own, const D: usize> Variant for OwnV<N, D> {
    type B = SAABB<N, D>;
    type K = SAABB<N, D>;
    const NAME: &'static str = N::NAMES[D];
    const D: usize = D;
    fn key(_: usize, b: &MBox) -> Self::K {
        box_of(b)
    }
    fn mbox(b: &Self::B) -> Option<MBox> {
        let mut m = MBox { lo: [0; 3], hi: [0; 3] };
        for d in 0..D {
            m.lo[d] = b.min.0[d].to();
            m.hi[d] = b.max.0[d].to();
            if m.lo[d] > m.hi[d] {
                return None;
            }
        }
        Some(m)
    }
    fn prep(a: Vec<MBox>) -> Vec<MBox> {
        fit(a, D, N::FIT)
    }
}

// ----------------------------------------------------------------- vectors

/// A vector with components of different types, one of which is no number.
#[derive(Clone, PartialEq)]
struct Mixed(i8, N64, Level);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Level {
    Low,
    Middle,
    High,
    Top,
}
const LEVELS: [Level; 4] = [Level::Low, Level::Middle, Level::High, Level::Top];
impl Debug for Mixed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "({}, {}, {})", self.0, self.1, self.2 as u8)
    }
}
impl Vector for Mixed {
    fn min_value() -> Self {
        Mixed(i8::MIN, n64(f64::MIN), Level::Low)
    }
    fn max_value() -> Self {
        Mixed(i8::MAX, n64(f64::MAX), Level::Top)
    }
    fn all_le(&self, r: &Self) -> bool {
        self.0 <= r.0 && self.1 <= r.1 && self.2 <= r.2
    }
    fn all_ge(&self, r: &Self) -> bool {
        self.0 >= r.0 && self.1 >= r.1 && self.2 >= r.2
    }
    fn componentwise_min(&self, r: &Self) -> Self {
        Mixed(self.0.min(r.0), self.1.min(r.1), self.2.min(r.2))
    }
    fn componentwise_max(&self, r: &Self) -> Self {
        Mixed(self.0.max(r.0), self.1.max(r.1), self.2.max(r.2))
    }
}
/// Volumes of boxes are defined for the vectors of the library only.
#[derive(Clone, PartialEq)]
struct Within(AABB<Mixed>);
impl Debug for Within {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{:?}, {:?}>", self.0.min, self.0.max)
    }
}
impl Contains<Within> for Within {
    fn contains(&self, o: &Within) -> bool {
        self.0.contains(&o.0)
    }
}
impl Intersects<Within> for Within {
    fn intersects(&self, o: &Within) -> bool {
        self.0.intersects(&o.0)
    }
}
impl Bounds for Within {
    fn empty() -> Within {
        Within(AABB::empty())
    }
    fn union(a: &Within, b: &Within) -> Within {
        Within(AABB::union(&a.0, &b.0))
    }
    fn union_all(i: impl IntoIterator<Item = Within>) -> Within {
        Within(AABB::union_all(i.into_iter().map(|b| b.0)))
    }
}
impl Volume for Within {
    fn volume(&self) -> N64 {
        let (a, b) = (&self.0.min, &self.0.max);
        if !a.all_le(b) {
            return n64(0.0);
        }
        n64(b.0 as f64 - a.0 as f64) + (b.1 - a.1) * n64(1.0 + (b.2 as u8 - a.2 as u8) as f64)
    }
}
#[derive(Clone, PartialEq, Debug)]
struct WKey(Mixed, Mixed);
impl Eq for WKey {}
impl Bounded<Within> for WKey {
    fn bounds(&self) -> Within {
        Within(Line(self.0.clone(), self.1.clone()).bounds())
    }
}
struct MixedV;
impl Variant for MixedV {
    type B = Within;
    type K = WKey;
    const NAME: &'static str = "mixed";
    const D: usize = 3;
    fn key(i: usize, b: &MBox) -> WKey {
        let v = |p: &[i64; 3]| Mixed(p[0] as i8, n64(p[1] as f64 / 4.0), LEVELS[p[2] as usize]);
        let (mut a, mut b) = (v(&b.lo), v(&b.hi));
        // segments of all directions
        if i % 2 == 1 {
            std::mem::swap(&mut a.0, &mut b.0);
        }
        if i % 3 == 1 {
            std::mem::swap(&mut a.2, &mut b.2);
        }
        WKey(a, b)
    }
    fn mbox(b: &Within) -> Option<MBox> {
        if !b.0.min.all_le(&b.0.max) {
            return None;
        }
        let v = |p: &Mixed| [p.0 as i64, (p.1.raw() * 4.0) as i64, p.2 as i64];
        Some(MBox { lo: v(&b.0.min), hi: v(&b.0.max) })
    }
    fn prep(a: Vec<MBox>) -> Vec<MBox> {
        let mut a = fit(a, 2, (0, -128, 127));
        for (i, b) in a.iter_mut().enumerate() {
            b.lo[2] = [0, 1, 0, 2, 3][i % 5];
            b.hi[2] = [1, 1, 3, 2, 3][i % 5];
        }
        a
    }
    fn parse_b(s: &str) -> Option<MBox> {
        let v = rtree_mc::variants::numbers(s);
        if v.len() != 6 {
            return None;
        }
        Some(MBox { lo: [v[0] as i64, (v[1] * 4.0) as i64, v[2] as i64], hi: [v[3] as i64, (v[4] * 4.0) as i64, v[5] as i64] })
    }
}

// ------------------------------------------------------------------ checks

fn check<V: Variant>(r: &mut Run<V>, d: &Dump, op: Option<Op>) -> Res {
    r.check_contents()?;
    r.check_lookups()?;
    for (i, n) in d.nodes.iter().enumerate() {
        let mut below = vec![];
        d.below(i, &mut below);
        let mut u: Option<MBox> = None;
        for v in below {
            let Some(k) = r.key_of(v) else { viol!("the tree holds the value {v}, which no entry has") };
            let b = r.alpha.boxes[k as usize];
            u = Some(u.map_or(b, |u| u.union(&b)));
        }
        ensure!(n.bounds == u, "node {i} at depth {} has the bounds {:?} instead of {:?}", n.depth, n.bounds, u);
    }
    filled::check(r, d, op)
}
fn queries<V: Variant>(r: &mut Run<V>, d: &Dump, op: Option<Op>) -> Res {
    check(r, d, op)?;
    filtered::check(r, d, op)?;
    ranked::check(r, d, op)?;
    first::check(r, d, op)?;
    // writes other values, so it comes last
    mutable::check(r, d, op)
}

static PAIRS: AtomicU64 = AtomicU64::new(0);

/// The boxes with corners in a table.
fn table(d: usize, c: &[i64]) -> Vec<MBox> {
    let mut v = vec![MBox { lo: [0; 3], hi: [0; 3] }];
    for i in 0..d {
        v = v
            .into_iter()
            .flat_map(|b| {
                let mut w = vec![];
                for (x, &lo) in c.iter().enumerate() {
                    for &hi in &c[x..] {
                        let mut b = b;
                        b.lo[i] = lo;
                        b.hi[i] = hi;
                        w.push(b);
                    }
                }
                w
            })
            .collect();
    }
    v
}

/// Shapes of the type, against the same shapes of `f64`s or `i32`s. `o` is added to all
/// coordinates of the type.
fn shapes<N: Own, const D: usize>(o: i64, c: &[i64]) -> Res {
    use rtree_mc::variants::{sb, sv};
    let at = |p: &[i64; 3]| -> SVec<N, D> { vec_of(&p.map(|x| x + o)) };
    let bx = |b: &MBox| -> SAABB<N, D> { AABB { min: at(&b.lo), max: at(&b.hi) } };
    let all = table(D, c);
    macro_rules! same {
        ($a:expr, $b:expr, $($what:tt)*) => {{
            let (a, b) = ($a, $b);
            ensure!(a == b, "{}: {a:?} instead of {b:?}", format!($($what)*));
        }};
    }
    for p in &all {
        let (a, ia) = (bx(p), sb::<i32, D>(p));
        same!(a.volume().raw(), ia.volume().raw(), "the volume of {a:?}");
        same!(a.bounds(), a.clone(), "the bounds of {a:?}");
        for q in &all {
            PAIRS.fetch_add(1, Relaxed);
            let (b, ib) = (bx(q), sb::<i32, D>(q));
            same!(Contains::<SAABB<N, D>>::contains(&a, &b), ia.contains(&ib), "{a:?} contains {b:?}");
            same!(Intersects::<SAABB<N, D>>::intersects(&a, &b), ia.intersects(&ib), "{a:?} intersects {b:?}");
            same!(AABB::union(&a, &b), bx(&p.union(q)), "union of {a:?} and {b:?}");
            same!(AABB::union_all([b.clone(), a.clone()]), bx(&p.union(q)), "union of all of {b:?} and {a:?}");
            same!(a.sq_dist_to(&b).raw(), ia.sq_dist_to(&ib).raw(), "squared distance from {a:?} to {b:?}");
            let (s, is) = (at(&q.lo), sv::<i32, D>(&q.lo));
            let t = at(&q.hi);
            let r: [i64; 3] = std::array::from_fn(|d| q.hi[d] - q.lo[d]);
            same!(Contains::<SVec<N, D>>::contains(&a, &s), Contains::<SVec<i32, D>>::contains(&ia, &is), "{a:?} contains {s:?}");
            same!(Intersects::<SAABB<N, D>>::intersects(&s, &a), is.intersects(&ia), "{s:?} intersects {a:?}");
            let (l, il) = (Line(s.clone(), t.clone()), Line(is, sv::<i32, D>(&q.hi)));
            same!(Intersects::<SAABB<N, D>>::intersects(&l, &a), il.intersects(&ia), "{l:?} intersects {a:?}");
            same!(Intersects::<Line<SVec<N, D>>>::intersects(&a, &l), il.intersects(&ia), "{a:?} intersects {l:?}");
            let (m, im) = (Line(t.clone(), s.clone()), Line(sv::<i32, D>(&q.hi), is));
            same!(Intersects::<SAABB<N, D>>::intersects(&m, &a), im.intersects(&ia), "{m:?} intersects {a:?}");
            same!(m.bounds(), b.clone(), "the bounds of {m:?}");
            same!(m.len(), im.len(), "the length of {m:?}");
            if o == 0 {
                let y = Ray { origin: s.clone(), n: vec_of(&r) };
                let iy = Ray { origin: is, n: sv::<i32, D>(&r) };
                same!(Intersects::<SAABB<N, D>>::intersects(&y, &a), iy.intersects(&ia), "the ray from {s:?} to {r:?} intersects {a:?}");
                same!(l.delta(), vec_of(&r), "the delta of {l:?}");
            }
            // radius: the extent of the second box
            let y = Sphere { center: s.clone(), radius: N::of(r[0]) };
            let iy = Sphere { center: is, radius: r[0] as i32 };
            for w in [&p.lo, &p.hi] {
                let (v, iv) = (at(w), sv::<i32, D>(w));
                same!(y.intersects(&v), iy.intersects(&iv), "the sphere around {s:?} with radius {} intersects {v:?}", r[0]);
                same!(Intersects::<Sphere<N, D>>::intersects(&v, &y), iy.intersects(&iv), "{v:?} intersects the sphere around {s:?} with radius {}", r[0]);
                same!(PointDistance::<SVec<N, D>, N>::dist_sq(&v, &s).to(), iv.dist_sq(&is) as i64, "squared distance from {v:?} to {s:?}");
            }
            let e = y.bounds();
            let (lo, hi) = (N::min_value().to(), N::max_value().to());
            for d in 0..D {
                same!(e.min[d].to(), (q.lo[d] + o - r[0]).max(lo), "the bounds of the sphere around {s:?} with radius {}", r[0]);
                same!(e.max[d].to(), (q.lo[d] + o + r[0]).min(hi), "the bounds of the sphere around {s:?} with radius {}", r[0]);
            }
            same!(PointDistance::<SVec<N, D>, N>::dist_sq(&a, &s).to(), ia.dist_sq(&is) as i64, "squared distance from {a:?} to {s:?}");
        }
    }
    Ok(())
}
fn all_shapes(c: &Case) -> Res {
    let th = c.get("Q") == "t";
    let (w, n): (&[i64], &[i64]) = if th { (&[0, 1, 2, 3, 5, 7], &[0, 1, 3]) } else { (&[0, 1, 2, 5], &[0, 3]) };
    macro_rules! go {
        ($t:ty, $o:expr) => {{
            shapes::<$t, 1>($o, w)?;
            shapes::<$t, 2>($o, if th { &[0, 1, 2, 5] } else { &[0, 1, 3] })?;
            shapes::<$t, 3>($o, n)?
        }};
    }
    match c.get("T") {
        "num" => {
            let before = LIVE.with(|l| l.get());
            for o in [0, -3, LIMIT - 7, -LIMIT] {
                go!(Num, o);
            }
            let left = LIVE.with(|l| l.get()) - before;
            ensure!(left == 0, "{left} coordinates are alive although all shapes have been dropped");
        }
        "down" => {
            for o in [0, -3, i32::MIN as i64 + 8, i32::MAX as i64 - 7] {
                go!(Down, o);
            }
        }
        "i8" => {
            for o in [0, -3, -128, 120] {
                shapes::<i8, 1>(o, w)?;
                shapes::<i8, 2>(o, &[0, 2, 7])?;
                shapes::<i8, 3>(o, n)?;
            }
        }
        "u8" => {
            for o in [0, 60, 248] {
                shapes::<u8, 1>(o, w)?;
                shapes::<u8, 2>(o, &[0, 2, 7])?;
                shapes::<u8, 3>(o, n)?;
            }
        }
        "i16" => {
            for o in [0, -3, i16::MIN as i64, i16::MAX as i64 - 7] {
                go!(i16, o);
            }
        }
        _ => {
            for o in [0, 60, u16::MAX as i64 - 7] {
                go!(u16, o);
            }
        }
    }
    Ok(())
}

/// The filters and rankings of the library, against the same shapes of
/// integers on each entry.
fn asked<N: Own, const D: usize>(r: &mut Run<OwnV<N, D>>) -> Res {
    use rtree_mc::variants::{sb, sv};
    type K<N, const D: usize> = SAABB<N, D>;
    let model: Vec<MBox> = r.model.iter().map(|e| r.alpha.boxes[e.0 as usize]).collect();
    let mut probes: Vec<MBox> = r.alpha.boxes.iter().step_by(3).copied().collect();
    if let Some(u) = model.iter().copied().reduce(|a, b| a.union(&b)) {
        probes.push(u);
        probes.push(MBox { lo: u.lo, hi: u.lo });
        probes.push(MBox { lo: u.hi, hi: u.hi });
    }
    let same = |got: Vec<K<N, D>>, want: Vec<MBox>, what: String| -> Res {
        let mut g: Vec<MBox> = got.iter().map(|k| OwnV::<N, D>::mbox(k).expect("key")).collect();
        let mut w = want;
        g.sort();
        w.sort();
        ensure!(g == w, "{what}: {g:?} instead of {w:?}");
        PAIRS.fetch_add(1, Relaxed);
        Ok(())
    };
    for p in &probes {
        let (s, is) = (box_of::<N, D>(p), sb::<i32, D>(p));
        let keep = |f: &dyn Fn(&SAABB<i32, D>) -> bool| -> Vec<MBox> { model.iter().filter(|b| f(&sb::<i32, D>(b))).copied().collect() };
        let meets = keep(&|b| is.intersects(b));
        let holds = keep(&|b| is.contains(b));
        macro_rules! filter {
            ($f:expr, $want:expr, $what:literal) => {
                same(r.tree.filter_iter::<K<N, D>, _>($f).map(|e| e.0.clone()).collect(), $want, format!("{} {s:?}", $what))?;
            };
        }
        filter!(IntersectsFilter::new(s.clone()), meets.clone(), "the keys that intersect");
        filter!(BoundedIntersectsFilter::new_bounded(s.clone()), meets, "the keys that intersect, by bounds,");
        filter!(ContainsFilter::new(s.clone()), holds.clone(), "the keys contained by");
        filter!(BoundedContainsFilter::new_bounded(s.clone()), holds, "the keys contained, by bounds, by");
        let (l, il) = (Line(vec_of::<N, D>(&p.lo), vec_of::<N, D>(&p.hi)), Line(sv::<i32, D>(&p.lo), sv::<i32, D>(&p.hi)));
        filter!(IntersectsFilter::new(l), keep(&|b| il.intersects(b)), "the keys that intersect the diagonal of");
        let ip = sv::<i32, D>(&p.lo);
        let got: Vec<i64> = r
            .tree
            .iter_asc_by(EuclideanDistanceRanking::<SVec<N, D>, N>::new(vec_of(&p.lo)))
            .map(|e| PointDistance::<SVec<i32, D>, i32>::dist_sq(&sb::<i32, D>(&OwnV::<N, D>::mbox(e.0).expect("key")), &ip) as i64)
            .collect();
        let mut want: Vec<i64> = model.iter().map(|b| PointDistance::<SVec<i32, D>, i32>::dist_sq(&sb::<i32, D>(b), &ip) as i64).collect();
        want.sort();
        ensure!(got == want, "the squared distances of keys ascending from {:?}: {got:?} instead of {want:?}", p.lo);
    }
    Ok(())
}

struct All;
impl<N: Own, const D: usize> JoinFilter<SAABB<N, D>, SAABB<N, D>, SAABB<N, D>, SAABB<N, D>> for All {
    fn test_bounds(&self, _: &SAABB<N, D>, _: &SAABB<N, D>) -> bool {
        true
    }
    fn test_key(&self, _: &SAABB<N, D>, _: &SAABB<N, D>) -> bool {
        true
    }
}

/// Coordinates are owned: everything that an operation or a query makes of
/// them ends with it.
fn owned<const D: usize>() -> Res {
    let live = || LIVE.with(|l| l.get());
    let alpha = Alpha::<OwnV<Num, D>>::new("scat:24");
    let base = live();
    for cfg in [(2, 1), (3, 1), (4, 2), (7, 3)] {
        let mut r = Run::new(&alpha, cfg);
        let held = |r: &Run<OwnV<Num, D>>, what: &str| -> Res {
            let d = r.dump()?;
            let want = (d.nodes.len() + r.model.len()) as i64 * 2 * D as i64;
            let got = live() - base;
            ensure!(got == want, "after {what}: {got} coordinates are alive, {want} are in the tree");
            Ok(())
        };
        let mut ops: Vec<Op> = (0..24).map(Op::Ins).collect();
        ops.extend((0..24).step_by(2).map(Op::Uni));
        ops.extend((0..24).map(|i| Op::Rem(i * 7 % 24)));
        for op in ops {
            r.apply(op)?;
            held(&r, &format!("{op:?}"))?;
            asked(&mut r)?;
            held(&r, "queries")?;
            let c = r.tree.clone();
            let n = c.join(&r.tree, All).count();
            ensure!(n == r.model.len() * r.model.len(), "the join of a clone has {n} pairs");
            drop(c);
            held(&r, "a clone")?;
        }
        drop(r);
        ensure!(live() == base, "{} coordinates are alive after the tree has been dropped", live() - base);
    }
    Ok(())
}

// ------------------------------------------------------------------- spaces

fn deep(ctx: &Ctx) -> Plan {
    let small = SMALL.to_vec();
    Plan {
        only_new: false,
        bfs: vec![("mix", 4, "iur", ctx.qt(6, 8), 20, vec![(2, 1), (4, 2)]), ("nest", 3, "ir", ctx.qt(7, 10), 20, vec![(3, 1)])],
        scripts: vec![("scat", ctx.qt(18, 40), small.clone()), ("cross", ctx.qt(12, 30), small.clone()), ("nested", ctx.qt(10, 24), small)],
        around: vec![],
        walks: vec![("scat", 100, 100, ctx.qt(29, 5), vec![(2, 1), (3, 1), (17, 8), (33, 16)])],
    }
}
fn asking(ctx: &Ctx) -> Plan {
    let some = vec![(2, 1), (3, 1), (4, 2)];
    Plan {
        only_new: true,
        bfs: vec![("scat:4", 4, "ir", ctx.qt(4, 6), 8, some.clone())],
        scripts: vec![("scat", ctx.qt(8, 20), some.clone()), ("over", ctx.qt(6, 16), some)],
        around: vec![],
        walks: vec![("scat", 30, 60, ctx.qt(61, 11), vec![(2, 1), (17, 8)])],
    }
}
fn provided(ctx: &Ctx) -> Plan {
    let some = vec![(2, 1), (3, 1), (4, 2)];
    Plan {
        only_new: true,
        bfs: vec![("mix", 4, "ir", ctx.qt(5, 7), 12, some.clone())],
        scripts: vec![("scat", ctx.qt(14, 30), some.clone()), ("cross", ctx.qt(10, 24), some.clone())],
        around: vec![],
        walks: vec![("scat", 60, 100, ctx.qt(29, 7), vec![(2, 1), (17, 8)])],
    }
}

macro_rules! all {
    ($m:ident) => {
        $m!(
            OwnV<Num, 1>, OwnV<Num, 2>, OwnV<Num, 3>, OwnV<Far, 1>, OwnV<Far, 2>, OwnV<Far, 3>, OwnV<Down, 2>, OwnV<i8, 2>, OwnV<u8, 2>, OwnV<i16, 2>,
            OwnV<u16, 3>, MixedV
        )
    };
}
macro_rules! with_shapes {
    ($m:ident) => {
        $m!((Num, 1), (Num, 2), (Num, 3), (i16, 2))
    };
}
macro_rules! pairs {
    ($m:ident) => {
        $m!((OwnV<Num, 2>, OwnV<Num, 2>), (OwnV<Far, 2>, OwnV<Far, 2>), (MixedV, MixedV))
    };
}
const TYPES: [&str; 6] = ["num", "down", "i8", "u8", "i16", "u16"];

fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    let (dp, ap, pp) = (deep(ctx), asking(ctx), provided(ctx));
    let q = if th { "t" } else { "q" };
    ctx.par_cases(&TYPES, |t| format!("S=shapes T={t} Q={q}"), |t| all_shapes(&Case::parse(&format!("S=shapes T={t} Q={q}"))));
    ctx.par_cases(&[1, 2, 3], |d| format!("S=owned D={d}"), |d| own(*d));
    macro_rules! trees {
        ($($t:ty),*) => {$(
            explore::<$t>(ctx, &dp, &check::<$t>);
            explore::<$t>(ctx, &ap, &|r: &mut Run<$t>, d: &Dump, op: Option<Op>| queries::<$t>(r, d, op));
        )*};
    }
    all!(trees);
    macro_rules! provide {
        ($(($n:ty, $d:literal)),*) => {$( explore::<OwnV<$n, $d>>(ctx, &pp, &|r: &mut Run<OwnV<$n, $d>>, _: &Dump, _: Option<Op>| asked::<$n, $d>(r)); )*};
    }
    with_shapes!(provide);
    let sizes: &[usize] = if th { &[1, 2, 3, 5, 7, 9, 12, 16] } else { &[1, 3, 6, 12] };
    macro_rules! joins {
        ($(($l:ty, $r:ty)),*) => {$({
            let a = grown::<$l>(ctx, "scat:16", sizes, &["asc", "step3"], &[(2, 1), (4, 2)]);
            let b = grown::<$r>(ctx, "scat:16", sizes, &["ends"], &[(2, 1), (3, 1)]);
            let ps = all_pairs(&a, &b, "scat:16", "scat:16");
            joined::go::<$l, $r>(ctx, &ps);
            left_joined::go::<$l, $r>(ctx, &ps, 0);
        })*};
    }
    pairs!(joins);
    let q = [&filtered::QUERIES, &ranked::QUERIES, &mutable::QUERIES, &joined::QUERIES, &left_joined::JOINS];
    ctx.add("queries", q.iter().map(|c| c.load(Relaxed)).sum());
    ctx.add("shapes", PAIRS.load(Relaxed));
    std_notes(ctx);
    ctx.note(
        "keys",
        "boxes of numbers that own memory, have to be cloned and check their range; of numbers whose distances vanish in floating point; of numbers ordered \
         from high to low; of 8 and 16 bit integers; segments between vectors with components of different types",
    );
    ctx.note("shapes_note", "pairs of shapes compared with shapes of i32, and queries with provided filters and rankings compared with such shapes for each entry");
}

fn own(d: usize) -> Res {
    match d {
        1 => owned::<1>(),
        2 => owned::<2>(),
        _ => owned::<3>(),
    }
}

fn one(c: &Case, _: Tier) -> Res {
    match c.get("S") {
        "shapes" => return all_shapes(c),
        "owned" => return own(c.num("D")),
        _ => {}
    }
    macro_rules! find {
        ($(($l:ty, $r:ty)),*) => {$(
            if c.get("V") == <$l as Variant>::NAME && c.get("W") == <$r as Variant>::NAME {
                let p = Pair::parse(c);
                if c.get("N").is_empty() {
                    joined::pair::<$l, $r>(&p)?;
                }
                return left_joined::pair::<$l, $r>(&p, 0);
            }
        )*};
    }
    if !c.get("G").is_empty() {
        pairs!(find);
        panic!("unknown pair");
    }
    macro_rules! prov {
        ($(($n:ty, $d:literal)),*) => {$(
            if c.get("V") == <OwnV<$n, $d> as Variant>::NAME {
                replay::<OwnV<$n, $d>>(c, &|r: &mut Run<OwnV<$n, $d>>, _: &Dump, _: Option<Op>| asked::<$n, $d>(r))?;
            }
        )*};
    }
    with_shapes!(prov);
    macro_rules! go {
        ($($t:ty),*) => { pick!(c.get("V"); [$($t),*]; V => replay::<V>(c, &queries::<V>)) };
    }
    all!(go)
}

fn main() {
    rtree_mc::main_for("C40", "model_checking", run, one)
}
