//! Exact geometry with integers, and coordinate types with maps from numbers to
//! coordinates.

use noisy_float::types::{n32, n64, N32, N64};
use std::fmt::Debug;

/// A coordinate type. Exact values are counted in 1/64.
pub trait Num: Copy + PartialEq + Ord + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn of(x: i64) -> Self;
    /// `x / 64`, for floating point types
    fn frac(x: i64) -> Option<Self>;
    /// for floating point types: the zero with a sign
    fn negative_zero() -> Option<Self> {
        None
    }
    fn exact(self) -> i128;
}
macro_rules! int_num {
    ($($t:ty, $n:expr;)*) => {$(
        impl Num for $t {
            const NAME: &'static str = $n;
            fn of(x: i64) -> $t {
                <$t>::try_from(x).expect("coordinate")
            }
            fn frac(_: i64) -> Option<$t> {
                None
            }
            fn exact(self) -> i128 {
                self as i128 * 64
            }
        }
    )*};
}
int_num!(i8, "i8"; i16, "i16"; i32, "i32"; u8, "u8"; u16, "u16"; u32, "u32";);
impl Num for N64 {
    const NAME: &'static str = "N64";
    fn of(x: i64) -> N64 {
        n64(x as f64)
    }
    fn frac(x: i64) -> Option<N64> {
        Some(n64(x as f64 / 64.0))
    }
    fn negative_zero() -> Option<N64> {
        Some(n64(-0.0))
    }
    fn exact(self) -> i128 {
        (self.raw() * 64.0) as i128
    }
}
impl Num for N32 {
    const NAME: &'static str = "N32";
    fn of(x: i64) -> N32 {
        n32(x as f32)
    }
    fn frac(x: i64) -> Option<N32> {
        Some(n32(x as f32 / 64.0))
    }
    fn negative_zero() -> Option<N32> {
        Some(n32(-0.0))
    }
    fn exact(self) -> i128 {
        (self.raw() * 64.0) as i128
    }
}

/// Whether some t >= 0 (and t <= 1 for segments) has origin + t * delta in the
/// closed box.
pub fn hits(lo: &[i128], hi: &[i128], origin: &[i128], delta: &[i128], segment: bool) -> bool {
    // the interval of t as fractions with positive denominators
    let mut t0 = (0i128, 1i128);
    let mut t1 = if segment { Some((1i128, 1i128)) } else { None };
    let less = |a: (i128, i128), b: (i128, i128)| a.0 * b.1 < b.0 * a.1;
    for d in 0..lo.len() {
        if delta[d] == 0 {
            if origin[d] < lo[d] || origin[d] > hi[d] {
                return false;
            }
            continue;
        }
        let (a, b) = if delta[d] > 0 {
            ((lo[d] - origin[d], delta[d]), (hi[d] - origin[d], delta[d]))
        } else {
            ((origin[d] - hi[d], -delta[d]), (origin[d] - lo[d], -delta[d]))
        };
        if less(t0, a) {
            t0 = a;
        }
        match t1 {
            Some(t) if !less(b, t) => {}
            _ => t1 = Some(b),
        }
    }
    match t1 {
        Some(t1) => !less(t1, t0),
        None => true,
    }
}

/// The dimensions in which vectors of many dimensions differ from uniform ones.
fn special(d: usize) -> Vec<usize> {
    let mut v = vec![0, 1, d / 2, d - 2, d - 1];
    v.dedup();
    v
}

/// All vectors over `v` of `d` components that are uniform up to at most two
/// components at special positions.
fn nearly_uniform<T: Copy + PartialEq>(v: &[T], d: usize) -> Vec<Vec<T>> {
    let mut all = vec![];
    let at = special(d);
    for &u in v {
        let base = vec![u; d];
        all.push(base.clone());
        for (k, &i) in at.iter().enumerate() {
            for &x in v.iter().filter(|x| **x != u) {
                let mut one = base.clone();
                one[i] = x;
                all.push(one.clone());
                for &j in &at[k + 1..] {
                    for &y in v.iter().filter(|y| **y != u) {
                        let mut two = one.clone();
                        two[j] = y;
                        all.push(two);
                    }
                }
            }
        }
    }
    all
}

/// From this number of dimensions, grids are reduced to nearly uniform points
/// and boxes.
pub const MANY: usize = 7;

/// All tuples of `d` numbers below `n`.
pub fn tuples(n: i64, d: usize) -> Vec<Vec<i64>> {
    if d >= MANY {
        return nearly_uniform(&(0..n).collect::<Vec<_>>(), d);
    }
    let mut v: Vec<Vec<i64>> = vec![vec![]];
    for _ in 0..d {
        v = v
            .into_iter()
            .flat_map(|p| {
                (0..n).map(move |x| {
                    let mut p = p.clone();
                    p.push(x);
                    p
                })
            })
            .collect();
    }
    v
}

/// All boxes of the grid: lower and upper corners.
pub fn grid_boxes(n: i64, d: usize) -> Vec<(Vec<i64>, Vec<i64>)> {
    if d >= MANY {
        let sides: Vec<(i64, i64)> = (0..n).flat_map(|lo| (lo..n).map(move |hi| (lo, hi))).collect();
        return nearly_uniform(&sides, d).into_iter().map(|b| b.into_iter().unzip()).collect();
    }
    let t = tuples(n, d);
    let mut v = vec![];
    for a in &t {
        for b in &t {
            if a.iter().zip(b).all(|(x, y)| x <= y) {
                v.push((a.clone(), b.clone()));
            }
        }
    }
    v
}
