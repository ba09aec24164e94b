//! C27: vectors and segments act component by component.
use noisy_float::types::{n32, n64, N32, N64};
use rtree_mc::geo::{tuples, MANY};
use rtree_mc::prelude::*;
use rusty_rtree::geom::line::Line;
use rusty_rtree::vector::{SVec, Vector};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::{Add, AddAssign, Mul, Sub};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static EVALS: AtomicU64 = AtomicU64::new(0);
static INPUTS: AtomicU64 = AtomicU64::new(0);

/// A coordinate with its exact value in quarters.
trait Comp:
    Copy + Debug + Ord + Hash + num_traits::Bounded + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + AddAssign + Send + Sync + 'static
{
    const TABLE: &'static [i128];
    fn of(q: i128) -> Self;
    fn q(self) -> i128;
    /// whether a value can be a result without overflow or rounding
    fn fits(q: i128) -> bool;
}

macro_rules! int {
    ($t:ty, $table:expr) => {
        impl Comp for $t {
            const TABLE: &'static [i128] = $table;
            fn of(q: i128) -> $t {
                (q / 4) as $t
            }
            fn q(self) -> i128 {
                self as i128 * 4
            }
            fn fits(q: i128) -> bool {
                q % 4 == 0 && q / 4 >= <$t>::MIN as i128 && q / 4 <= <$t>::MAX as i128
            }
        }
    };
}
int!(i32, &[-12, -4, 0, 8, 28, i32::MIN as i128 * 4, i32::MAX as i128 * 4]);
int!(u32, &[0, 4, 8, 20, u32::MAX as i128 * 4, (u32::MAX as i128 - 1) * 4]);
int!(i8, &[-512, -8, -4, 0, 4, 12, 508]);
int!(i64, &[-12, 0, 4, 40, i64::MIN as i128 * 4, i64::MAX as i128 * 4]);
impl Comp for N64 {
    const TABLE: &'static [i128] = &[-10, -4, 0, 1, 6, 1 << 40];
    fn of(q: i128) -> N64 {
        n64(q as f64 / 4.0)
    }
    fn q(self) -> i128 {
        (self.raw() * 4.0) as i128
    }
    fn fits(q: i128) -> bool {
        q.abs() < 1 << 52
    }
}
impl Comp for N32 {
    const TABLE: &'static [i128] = &[-10, -4, 0, 1, 6, 1 << 18];
    fn of(q: i128) -> N32 {
        n32(q as f32 / 4.0)
    }
    fn q(self) -> i128 {
        (self.raw() as f64 * 4.0) as i128
    }
    fn fits(q: i128) -> bool {
        q.abs() < 1 << 23
    }
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn qs<N: Comp, const D: usize>(v: &SVec<N, D>) -> [i128; D] {
    std::array::from_fn(|i| v.0[i].q())
}

/// All vectors over the first `n` numbers of the table, or the nearly uniform
/// ones in many dimensions.
fn vectors<N: Comp, const D: usize>(n: usize) -> Vec<SVec<N, D>> {
    tuples(n as i64, D).iter().map(|t| SVec(std::array::from_fn(|d| N::of(N::TABLE[t[d] as usize])))).collect()
}

fn check<N: Comp, const D: usize>(n: usize, i: usize) -> Res {
    let all = vectors::<N, D>(n);
    let a = all[i];
    let qa = qs(&a);
    let mut e = 0;
    macro_rules! is {
        ($got:expr, $want:expr, $($t:tt)*) => {{
            let (g, w) = ($got, $want);
            ensure!(g == w, "{} is {g:?} instead of {w:?}", format!($($t)*));
            e += 1;
        }};
    }
    // one vector
    for j in 0..D {
        is!(a[j].q(), qa[j], "component {j} of {a:?}");
        let mut c = a;
        c[j] = N::of(N::TABLE[1]);
        let mut w = qa;
        w[j] = N::TABLE[1];
        is!(qs(&c), w, "{a:?} with another component {j}");
    }
    let mut order = vec![];
    let m = a.into_map(|x| {
        order.push(x.q());
        x.q() + 1
    });
    is!(m.0, qa.map(|x| x + 1), "{a:?} with a function applied");
    is!(order, qa.to_vec(), "the order in which a function is applied to {a:?}");
    let mag: i128 = qa.iter().map(|x| x.checked_mul(*x).unwrap_or(1 << 120)).sum();
    if qa.iter().all(|x| x.abs() < 1 << 50) && qa.iter().all(|x| N::fits(x * x / 4)) && mag % 4 == 0 && N::fits(mag / 4) {
        is!(a.sq_mag().q(), mag / 4, "the squared magnitude of {a:?}");
    }
    let (lo, hi) = (SVec::<N, D>::min_value(), SVec::<N, D>::max_value());
    is!((lo.all_le(&a), a.all_ge(&lo), hi.all_ge(&a), a.all_le(&hi)), (true, true, true, true), "{a:?} between the least and the largest vector");
    is!((0..D).all(|j| lo[j] == N::min_value() && hi[j] == N::max_value()), true, "the least and the largest vector");
    // with each other vector
    for &b in &all {
        let qb = qs(&b);
        let each = |f: &dyn Fn(i128, i128) -> i128| -> [i128; D] { std::array::from_fn(|j| f(qa[j], qb[j])) };
        let sum = each(&|x, y| x + y);
        if sum.iter().all(|x| N::fits(*x)) {
            is!(qs(&(a + b)), sum, "{a:?} + {b:?}");
            let mut c = a;
            c += b;
            is!(qs(&c), sum, "{a:?} += {b:?}");
            is!(qs(&(b + a)), sum, "{b:?} + {a:?}");
        }
        let diff = each(&|x, y| x - y);
        if diff.iter().all(|x| N::fits(*x)) {
            is!(qs(&(a - b)), diff, "{a:?} - {b:?}");
            is!(qs(&Line(b, a).delta()), diff, "the delta of the segment from {b:?} to {a:?}");
        }
        is!(qs(&a.componentwise_min(&b)), each(&|x, y| x.min(y)), "the minimum of {a:?} and {b:?}");
        is!(qs(&a.componentwise_max(&b)), each(&|x, y| x.max(y)), "the maximum of {a:?} and {b:?}");
        is!(a.all_le(&b), (0..D).all(|j| qa[j] <= qb[j]), "{a:?} all_le {b:?}");
        is!(a.all_ge(&b), (0..D).all(|j| qa[j] >= qb[j]), "{a:?} all_ge {b:?}");
        is!(a == b, qa == qb, "{a:?} == {b:?}");
        is!(a.partial_cmp(&b), Some(qa.cmp(&qb)), "the order of {a:?} and {b:?}");
        is!((a < b, a <= b), (qa.cmp(&qb) == Ordering::Less, qa.cmp(&qb) != Ordering::Greater), "the order of {a:?} and {b:?}");
        if qa == qb {
            is!(hash(&a), hash(&b), "the hash of {a:?}");
        }
        let z: Vec<(i128, i128)> = a.zip(&b).map(|(x, y)| (x.q(), y.q())).collect();
        is!(z, (0..D).map(|j| (qa[j], qb[j])).collect::<Vec<_>>(), "{a:?} zipped with {b:?}");
        is!(a.zip(&b).len(), D, "the length of {a:?} zipped with {b:?}");
        is!(Line(a, b) == Line(b, a), qa == qb, "equality of the segments between {a:?} and {b:?}");
    }
    EVALS.fetch_add(e, Relaxed);
    INPUTS.fetch_add(all.len() as u64, Relaxed);
    Ok(())
}

/// Vectors with components that are not ordered, and with both zeros: the
/// order and equality are those of the arrays, as are minimum and maximum.
fn unordered<const D: usize>(i: usize) -> Res {
    const T: [f64; 6] = [f64::NAN, -1.0, -0.0, 0.0, 2.0, f64::INFINITY];
    let arr = |mut i: usize| -> [f64; D] {
        std::array::from_fn(|_| {
            let x = T[i % T.len()];
            i /= T.len();
            x
        })
    };
    let a = arr(i);
    for k in 0..T.len().pow(D as u32) {
        let b = arr(k);
        let (x, y) = (SVec(a), SVec(b));
        // lexicographic order of the components, by definition
        let mut want = Some(Ordering::Equal);
        for j in 0..D {
            want = a[j].partial_cmp(&b[j]);
            if want != Some(Ordering::Equal) {
                break;
            }
        }
        ensure!(x.partial_cmp(&y) == want, "the order of {x:?} and {y:?} is {:?} instead of {want:?}", x.partial_cmp(&y));
        let ops = (x < y, x <= y, x > y, x >= y, x == y);
        let w = (
            want == Some(Ordering::Less),
            matches!(want, Some(Ordering::Less | Ordering::Equal)),
            want == Some(Ordering::Greater),
            matches!(want, Some(Ordering::Greater | Ordering::Equal)),
            want == Some(Ordering::Equal),
        );
        ensure!(ops == w, "the comparisons of {x:?} and {y:?} are {ops:?} instead of {w:?}");
        let sum = (x + y).0;
        let diff = (x - y).0;
        for j in 0..D {
            let same = |p: f64, q: f64| p.to_bits() == q.to_bits() || (p.is_nan() && q.is_nan());
            ensure!(same(sum[j], a[j] + b[j]), "component {j} of {x:?} + {y:?} is {}", sum[j]);
            ensure!(same(diff[j], a[j] - b[j]), "component {j} of {x:?} - {y:?} is {}", diff[j]);
        }
        EVALS.fetch_add(2 + 2 * D as u64, Relaxed);
    }
    INPUTS.fetch_add(T.len().pow(D as u32) as u64, Relaxed);
    Ok(())
}

macro_rules! types {
    ($m:ident) => {
        $m!(i32, "i32");
        $m!(u32, "u32");
        $m!(i8, "i8");
        $m!(i64, "i64");
        $m!(N64, "N64");
        $m!(N32, "N32");
    };
}

fn run(ctx: &Ctx) {
    let mut cases = vec![];
    macro_rules! add {
        ($t:ty, $n:expr) => {
            let len = <$t>::TABLE.len();
            for (d, n) in [(1, len), (2, len), (3, ctx.qt(4, len)), (4, ctx.qt(3, 5)), (5, ctx.qt(2, 3))] {
                for i in 0..n.pow(d) {
                    cases.push(format!("T={} D={d} N={n} I={i}", $n));
                }
            }
        };
    }
    types!(add);
    for (ty, n) in [("i32", ctx.qt(3, 5)), ("N64", ctx.qt(3, 5)), ("i8", 3)] {
        for d in [7, 9, 17, 33, 65] {
            for i in 0..tuples(n, d).len() {
                cases.push(format!("T={ty} D={d} N={n} I={i}"));
            }
        }
    }
    for d in 1..=ctx.qt(3, 4) {
        for i in 0..6usize.pow(d) {
            cases.push(format!("T=f64 D={d} N=6 I={i}"));
        }
    }
    for c in cases.iter().step_by(cases.len() / 8 + 1) {
        ctx.sample(c);
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    ctx.add("evaluations", EVALS.load(Relaxed));
    ctx.add("distinct_nontrivial", INPUTS.load(Relaxed));
    ctx.note(
        "rule",
        "evaluations: results of vector operations of the real code compared with integer arithmetic for each component; distinct_nontrivial: distinct \
         pairs of vectors for each type and dimension; all pairs over a table of coordinates are enumerated, and operations are left out for them only where \
         the result does not fit the coordinate type",
    );
    ctx.note("assume1", "coordinates beyond those of the tables are not covered");
}

fn one(c: &Case, _: Tier) -> Res {
    let (n, i) = (c.num("N"), c.num("I"));
    if c.get("T") == "f64" {
        return match c.num::<usize>("D") {
            1 => unordered::<1>(i),
            2 => unordered::<2>(i),
            3 => unordered::<3>(i),
            _ => unordered::<4>(i),
        };
    }
    macro_rules! many {
        ($t:ty) => {
            match c.num::<usize>("D") {
                7 => check::<$t, 7>(n, i),
                9 => check::<$t, 9>(n, i),
                17 => check::<$t, 17>(n, i),
                33 => check::<$t, 33>(n, i),
                65 => check::<$t, 65>(n, i),
                d => panic!("dimension {d}"),
            }
        };
    }
    if c.num::<usize>("D") >= MANY {
        return match c.get("T") {
            "i32" => many!(i32),
            "N64" => many!(N64),
            "i8" => many!(i8),
            t => panic!("type {t}"),
        };
    }
    macro_rules! go {
        ($t:ty, $n:expr) => {
            if c.get("T") == $n {
                return match c.num::<usize>("D") {
                    1 => check::<$t, 1>(n, i),
                    2 => check::<$t, 2>(n, i),
                    3 => check::<$t, 3>(n, i),
                    4 => check::<$t, 4>(n, i),
                    _ => check::<$t, 5>(n, i),
                };
            }
        };
    }
    types!(go);
    Err(Fail::Engine("no such type".into()))
}

fn main() {
    rtree_mc::main_for("C27", "exploration", run, one)
}
