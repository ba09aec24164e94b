//! C19: every query on an empty tree is answered with nothing, without panicking.
use noisy_float::types::{N32, N64};
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{Bounded, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::{BoundedContainsFilter, BoundedIntersectsFilter, ContainsFilter, IntersectsFilter, JoinFilter, NoFilter, SpatialFilter};
use rusty_rtree::geom::{line::Line, ray::Ray, sphere::Sphere};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, PointDistance, Ranking};
use rusty_rtree::vector::SVec;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static QUERIES: AtomicU64 = AtomicU64::new(0);

fn fm<T>(_: T) {
    QUERIES.fetch_add(1, Relaxed);
}

/// Keys whose bounds intersect, or are within a distance; as users write them.
struct Near<N, const D: usize>(f64, std::marker::PhantomData<N>);
impl<N: Coord, const D: usize, K: Bounded<SAABB<N, D>>> JoinFilter<SAABB<N, D>, SAABB<N, D>, K, K> for Near<N, D> {
    fn test_bounds(&self, l: &SAABB<N, D>, r: &SAABB<N, D>) -> bool {
        l.sq_dist_to(r).raw() <= self.0
    }
    fn test_key(&self, l: &K, r: &K) -> bool {
        l.bounds().sq_dist_to(&r.bounds()).raw() <= self.0
    }
}
impl<N: Coord, const D: usize> Clone for Near<N, D> {
    fn clone(&self) -> Self {
        Near(self.0, self.1)
    }
}
#[derive(Clone)]
struct Meet;
impl<N: Coord, const D: usize, K: Bounded<SAABB<N, D>>> JoinFilter<SAABB<N, D>, SAABB<N, D>, K, K> for Meet {
    fn test_bounds(&self, l: &SAABB<N, D>, r: &SAABB<N, D>) -> bool {
        l.intersects(r)
    }
    fn test_key(&self, l: &K, r: &K) -> bool {
        l.bounds().intersects(&r.bounds())
    }
}
#[derive(Clone)]
struct All;
impl<B, K> JoinFilter<B, B, K, K> for All {
    fn test_bounds(&self, _: &B, _: &B) -> bool {
        true
    }
    fn test_key(&self, _: &K, _: &K) -> bool {
        true
    }
}

/// A ranking by the distance between boxes.
struct Dist<N: Coord, const D: usize>(SAABB<N, D>);
impl<N: Coord, const D: usize, K: Bounded<SAABB<N, D>>> Ranking<SAABB<N, D>, K> for Dist<N, D> {
    type Metric = N64;
    fn bounds_min(&self, b: &SAABB<N, D>) -> N64 {
        self.0.sq_dist_to(b)
    }
    fn rank_key(&self, k: &K) -> N64 {
        self.0.sq_dist_to(&k.bounds())
    }
}
/// The same with a limit.
struct Within<N: Coord, const D: usize>(SAABB<N, D>, f64);
impl<N: Coord, const D: usize, K: Bounded<SAABB<N, D>>> Ranking<SAABB<N, D>, K> for Within<N, D> {
    type Metric = Option<N64>;
    fn bounds_min(&self, b: &SAABB<N, D>) -> Option<N64> {
        Some(self.0.sq_dist_to(b)).filter(|d| d.raw() <= self.1)
    }
    fn rank_key(&self, k: &K) -> Option<N64> {
        Some(self.0.sq_dist_to(&k.bounds())).filter(|d| d.raw() <= self.1)
    }
}

fn none<V: Variant, F: SpatialFilter<V::B, V::K>>(t: &mut Tree<V>, make: impl Fn() -> F, what: &str) -> Res {
    ensure!(t.filter_iter::<V::K, _>(make()).next().is_none(), "{what} yields an entry of an empty tree");
    let mut it = t.filter_iter_mut::<V::K, _>(make());
    ensure!(it.next().is_none(), "mutable {what} yields an entry of an empty tree");
    ensure!(it.next().is_none(), "mutable {what} yields an entry of an empty tree");
    fm(());
    Ok(())
}

/// Queries that every key type has.
fn common<V, N, const D: usize>(r: &mut Run<V>) -> Res
where
    N: Coord,
    V: Variant<B = SAABB<N, D>>,
{
    ensure!(r.tree.len() == 0 && r.tree.is_empty(), "len() is {}, is_empty() {}", r.tree.len(), r.tree.is_empty());
    ensure!(r.tree.iter().next().is_none(), "iter yields an entry of an empty tree");
    ensure!(r.tree.iter_mut().next().is_none(), "iter_mut yields an entry of an empty tree");
    ensure!((&r.tree).into_iter().next().is_none(), "iteration yields an entry of an empty tree");
    for k in 0..r.alpha.len() {
        let key = &r.alpha.keys[k];
        ensure!(r.tree.get(key).is_none(), "get finds {key:?} in an empty tree");
        ensure!(r.tree.get_mut(key).is_none(), "get_mut finds {key:?} in an empty tree");
        ensure!(r.tree.remove::<V::K>(key).is_none(), "remove finds {key:?} in an empty tree");
        fm(());
    }
    none::<V, _>(&mut r.tree, || NoFilter, "NoFilter")?;
    let big: Vec<MBox> = r.alpha.boxes.iter().copied().chain([]).collect();
    for b in &big {
        let q: SAABB<N, D> = sb(b);
        macro_rules! ranks {
            ($make:expr, $what:expr) => {{
                ensure!(r.tree.iter_asc_by($make).next().is_none(), "{} yields an entry of an empty tree", $what);
                ensure!(r.tree.iter_asc_by_mut($make).next().is_none(), "{} yields an entry of an empty tree", $what);
                ensure!(r.tree.min_by($make).is_none(), "min_by {} yields an entry of an empty tree", $what);
                ensure!(r.tree.min_by_mut($make).is_none(), "min_by_mut {} yields an entry of an empty tree", $what);
                fm(());
            }};
        }
        ranks!(Dist(q), "a ranking by the distance to a box");
        for limit in [0.0, 5.0, f64::MAX] {
            ensure!(r.tree.filter_iter_asc_by(Within(q, limit)).next().is_none(), "a filtered ranking yields an entry of an empty tree");
            ensure!(r.tree.filter_iter_asc_by_mut(Within(q, limit)).next().is_none(), "a filtered ranking yields an entry of an empty tree");
            ensure!(r.tree.filter_min_by(Within(q, limit)).is_none(), "filter_min_by yields an entry of an empty tree");
            ensure!(r.tree.filter_min_by_mut(Within(q, limit)).is_none(), "filter_min_by_mut yields an entry of an empty tree");
            fm(());
        }
    }
    Ok(())
}

/// Joins with empty trees on either side or both.
fn joins<V, N, const D: usize>(r: &Run<V>, others: &[Run<V>]) -> Res
where
    N: Coord,
    V: Variant<B = SAABB<N, D>>,
{
    for o in others {
        let n = o.model.len();
        macro_rules! both {
            ($f:expr, $what:expr) => {{
                let f = $f;
                ensure!(r.tree.join::<_, _, _, V::K, V::K, _>(&o.tree, f.clone()).next().is_none(), "a join by {} with an empty left side yields a pair", $what);
                ensure!(o.tree.join::<_, _, _, V::K, V::K, _>(&r.tree, f.clone()).next().is_none(), "a join by {} with an empty right side yields a pair", $what);
                ensure!(r.tree.left_join::<_, _, _, V::K, V::K, _>(&o.tree, f.clone()).next().is_none(), "a left join by {} with an empty left side yields an entry", $what);
                let mut got = vec![];
                for ((_, v), mut inner) in o.tree.left_join::<_, _, _, V::K, V::K, _>(&r.tree, f.clone()) {
                    got.push(*v);
                    ensure!(got.len() <= n, "a left join by {} with an empty right side yields more than the {n} left entries", $what);
                    ensure!(inner.next().is_none(), "a left join by {} with an empty right side yields a match", $what);
                }
                got.sort();
                let mut want: Vec<u32> = o.model.iter().map(|e| e.1).collect();
                want.sort();
                ensure!(got == want, "a left join by {} with an empty right side yields the left values {got:?} instead of {want:?}", $what);
                fm(());
            }};
        }
        both!(All, "no condition");
        both!(Meet, "intersection");
        for d in [0.0, 4.0, f64::MAX] {
            both!(Near::<N, D>(d, Default::default()), "distance");
        }
    }
    ensure!(r.tree.join::<_, _, _, V::K, V::K, _>(&r.tree, All).next().is_none(), "a join of an empty tree with itself yields a pair");
    ensure!(r.tree.left_join::<_, _, _, V::K, V::K, _>(&r.tree, All).next().is_none(), "a left join of an empty tree with itself yields an entry");
    Ok(())
}

/// The tree accepts entries as usual.
fn refill<V: Variant>(r: &mut Run<V>) -> Res {
    let d = r.dump()?;
    ensure!(d.height() <= 0, "the empty tree has the height {}", d.height());
    let nk = r.alpha.len() as u8;
    for i in 0..(2 * r.cfg.0 as u8 + 2) {
        r.apply(if i % 3 == 2 { Op::Uni(i % nk) } else { Op::Ins(i % nk) })?;
        r.check_contents()?;
        r.check_lookups()?;
        r.dump()?;
    }
    while let Some(e) = r.model.first().copied() {
        r.apply(Op::Rem(e.0))?;
        r.check_contents()?;
    }
    Ok(())
}

trait Shapes: Variant {
    fn shapes(r: &mut Run<Self>) -> Res;
    fn all(r: &mut Run<Self>, others: &[Run<Self>]) -> Res;
}

fn dist_rank<V: Variant<B = SAABB<N, D>>, N: Coord, const D: usize>(r: &mut Run<V>) -> Res
where
    V::K: PointDistance<SVec<N, D>, N>,
{
    for b in r.alpha.boxes.clone() {
        let p: SVec<N, D> = sv(&b.lo);
        let make = || EuclideanDistanceRanking::<SVec<N, D>, N>::new(p);
        ensure!(r.tree.iter_asc_by(make()).next().is_none(), "a ranking by distance yields an entry of an empty tree");
        ensure!(r.tree.iter_asc_by_mut(make()).next().is_none(), "a ranking by distance yields an entry of an empty tree");
        ensure!(r.tree.min_by(make()).is_none(), "min_by distance yields an entry of an empty tree");
        ensure!(r.tree.min_by_mut(make()).is_none(), "min_by_mut distance yields an entry of an empty tree");
        fm(());
    }
    Ok(())
}

macro_rules! boxes {
    ($n:ty, $d:literal) => {
        impl Shapes for BoxV<$n, $d> {
            fn shapes(r: &mut Run<Self>) -> Res {
                let bs = r.alpha.boxes.clone();
                for b in &bs {
                    let q: SAABB<$n, $d> = sb(b);
                    none::<Self, _>(&mut r.tree, || IntersectsFilter::new(q), "IntersectsFilter of a box")?;
                    none::<Self, _>(&mut r.tree, || BoundedIntersectsFilter::new_bounded(q), "BoundedIntersectsFilter of a box")?;
                    none::<Self, _>(&mut r.tree, || ContainsFilter::new(q), "ContainsFilter of a box")?;
                    none::<Self, _>(&mut r.tree, || BoundedContainsFilter::new_bounded(q), "BoundedContainsFilter of a box")?;
                    let p = q.min;
                    none::<Self, _>(&mut r.tree, || IntersectsFilter::new(p), "IntersectsFilter of a point")?;
                    none::<Self, _>(&mut r.tree, || BoundedIntersectsFilter::new_bounded(p), "BoundedIntersectsFilter of a point")?;
                    for c in &bs {
                        let e: SVec<$n, $d> = sv(&c.hi);
                        none::<Self, _>(&mut r.tree, || IntersectsFilter::new(Line(p, e)), "IntersectsFilter of a line")?;
                        none::<Self, _>(&mut r.tree, || BoundedIntersectsFilter::new_bounded(Line(p, e)), "BoundedIntersectsFilter of a line")?;
                        none::<Self, _>(&mut r.tree, || IntersectsFilter::new(Ray { origin: p, n: e }), "IntersectsFilter of a ray")?;
                    }
                }
                dist_rank::<Self, $n, $d>(r)
            }
            fn all(r: &mut Run<Self>, others: &[Run<Self>]) -> Res {
                common::<Self, $n, $d>(r)?;
                Self::shapes(r)?;
                joins::<Self, $n, $d>(r, others)?;
                refill(r)?;
                common::<Self, $n, $d>(r)
            }
        }
    };
}
boxes!(i32, 1);
boxes!(i32, 2);
boxes!(i32, 3);
boxes!(u32, 2);
boxes!(N64, 2);
boxes!(N32, 2);

impl Shapes for PtV {
    fn shapes(r: &mut Run<Self>) -> Res {
        for b in r.alpha.boxes.clone() {
            let q: SAABB<i32, 2> = sb(&b);
            none::<Self, _>(&mut r.tree, || IntersectsFilter::new(q), "IntersectsFilter of a box")?;
            none::<Self, _>(&mut r.tree, || BoundedIntersectsFilter::new_bounded(q), "BoundedIntersectsFilter of a box")?;
            none::<Self, _>(&mut r.tree, || ContainsFilter::new(q), "ContainsFilter of a box")?;
            none::<Self, _>(&mut r.tree, || BoundedContainsFilter::new_bounded(q), "BoundedContainsFilter of a box")?;
            for radius in [0, 1, 1000] {
                none::<Self, _>(
                    &mut r.tree,
                    || BoundedIntersectsFilter::<SAABB<i32, 2>, _>::new_bounded(Sphere { center: q.min, radius }),
                    "BoundedIntersectsFilter of a sphere",
                )?;
            }
        }
        dist_rank::<Self, i32, 2>(r)
    }
    fn all(r: &mut Run<Self>, others: &[Run<Self>]) -> Res {
        common::<Self, i32, 2>(r)?;
        Self::shapes(r)?;
        joins::<Self, i32, 2>(r, others)?;
        refill(r)?;
        common::<Self, i32, 2>(r)
    }
}
impl Shapes for LnV {
    fn shapes(r: &mut Run<Self>) -> Res {
        for b in r.alpha.boxes.clone() {
            let q: SAABB<i32, 2> = sb(&b);
            none::<Self, _>(&mut r.tree, || IntersectsFilter::new(q), "IntersectsFilter of a box")?;
            none::<Self, _>(&mut r.tree, || BoundedIntersectsFilter::new_bounded(q), "BoundedIntersectsFilter of a box")?;
        }
        Ok(())
    }
    fn all(r: &mut Run<Self>, others: &[Run<Self>]) -> Res {
        common::<Self, i32, 2>(r)?;
        Self::shapes(r)?;
        joins::<Self, i32, 2>(r, others)?;
        refill(r)?;
        common::<Self, i32, 2>(r)
    }
}

const OTHERS: [&str; 9] = ["-", "i0", "i0,r0", "i0,i1,i2", "i0,i1,i2,i3,i0,i1", "i0,i1,i2,i3,r1", "i0,i0,i0,i0,i0", "i3,i2,i1,i0,i3,i2,i1,i0,i3,i2", "i0,i1,r1,r0"];

fn check<V: Shapes>(alpha: &str, cfg: Cfg, h: &[Op]) -> Res
where
    V::B: Contains<V::B>,
{
    let a = Alpha::<V>::new(alpha);
    let mut r = Run::build(&a, cfg, h)?;
    ensure!(r.model.is_empty(), "the history does not end with an empty tree");
    let others: Res<Vec<Run<V>>> = OTHERS.iter().map(|o| Run::build(&a, if h.len() % 2 == 0 { (2, 1) } else { cfg }, &parse_hist(o))).collect();
    let others = others?;
    V::all(&mut r, &others)?;
    let mut c = Run { alpha: &a, cfg, tree: r.tree.clone(), model: vec![], stamp: r.stamp, hist: r.hist.clone() };
    V::all(&mut c, &others[..2])
}

/// All operation sequences that leave the tree empty.
fn emptying(nk: u8, menu: &[Op], len: usize) -> Vec<Vec<Op>> {
    let mut out = vec![vec![]];
    fn go(h: &mut Vec<Op>, count: &mut [i32], menu: &[Op], left: usize, out: &mut Vec<Vec<Op>>) {
        let n: i32 = count.iter().sum();
        if n == 0 && !h.is_empty() {
            out.push(h.clone());
        }
        if n as usize > left || left == 0 {
            return;
        }
        for &op in menu {
            let k = match op {
                Op::Ins(k) | Op::Uni(k) | Op::Rem(k) => k as usize,
                _ => continue,
            };
            let was = count[k];
            match op {
                Op::Ins(_) => count[k] += 1,
                Op::Uni(_) => count[k] = count[k].max(1),
                // removals of what is not there are left to other checks
                _ if count[k] == 0 => continue,
                _ => count[k] -= 1,
            }
            h.push(op);
            go(h, count, menu, left - 1, out);
            h.pop();
            count[k] = was;
        }
    }
    go(&mut vec![], &mut vec![0; nk as usize], menu, len, &mut out);
    out
}

fn one(c: &Case, _: Tier) -> Res {
    let (a, cfg, h) = (c.get("A"), parse_cfg(c.get("C")), parse_hist(c.get("H")));
    pick!(c.get("V"); [Bi2, Bi1, Bi3, Bu2, Bd2, Bf2, PtV, LnV]; V => check::<V>(a, cfg, &h))
}

fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    let mut cases = vec![];
    let mut hs = emptying(3, &op_menu(3, "ir"), ctx.qt(8, 10));
    hs.extend(emptying(2, &op_menu(2, "iur"), ctx.qt(8, 10)));
    let words = hs.len();
    for h in &hs {
        for cfg in if t { &SMALL[..] } else { &[(2, 1), (4, 2)] } {
            cases.push(format!("V=boxi2 A=mix C={} H={}", fmt_cfg(*cfg), fmt_hist(h)));
        }
    }
    // trees with many levels, emptied in many orders
    let mut tall = vec![];
    for n in [5, 9, 14, ctx.qt(20, 40)] {
        for up in scripts(n, n, 'i') {
            for dn in ORDERS {
                tall.push((n, drain(&up, dn, n)));
            }
        }
    }
    for (n, h) in &tall {
        for (i, shape) in ["scat", "cross", "nested"].iter().enumerate() {
            for cfg in SMALL {
                if t || (cfg.0 + i) % 2 == 0 {
                    cases.push(format!("V=boxi2 A={shape}:{n} C={} H={}", fmt_cfg(cfg), fmt_hist(h)));
                }
            }
        }
    }
    // other key types
    let small = emptying(2, &op_menu(2, "ir"), 6);
    for v in ["boxi1", "boxi3", "boxu2", "boxd2", "boxf2", "pti2", "lni2"] {
        for h in small.iter() {
            for cfg in [(2, 1), (3, 1), (4, 2)] {
                cases.push(format!("V={v} A=mix C={} H={}", fmt_cfg(cfg), fmt_hist(h)));
            }
        }
        for (n, h) in tall.iter().step_by(5) {
            cases.push(format!("V={v} A=scat:{n} C=2.1 H={}", fmt_hist(h)));
        }
    }
    // removals need the key in the alphabet of the variant
    let cases: Vec<String> = cases;
    for c in cases.iter().step_by(cases.len() / 9 + 1) {
        ctx.sample(c);
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    let ops: u64 = cases.iter().map(|c| c.rsplit("H=").next().unwrap().split(',').filter(|x| x.len() > 1).count() as u64).sum();
    ctx.add("states", cases.len() as u64);
    ctx.add("transitions", ops);
    ctx.add("traces_validated_against_impl", cases.len() as u64 - 1);
    ctx.add("exhaustive_emptying_sequences", words as u64);
    ctx.add("groups_of_queries", QUERIES.load(Relaxed));
    ctx.note(
        "explanation",
        "states: empty trees, one for each history that ends with an empty tree (they are not merged, because an emptied tree may differ from a new one); \
         transitions: operations executed to reach them; traces: the histories other than the empty one; each group of queries asks shared, mutable, and both sides of joins",
    );
}

fn main() {
    rtree_mc::main_for("C19", "model_checking", run, one)
}
