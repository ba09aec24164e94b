//! Filters, rankings and join filters over the key indices of an alphabet, and
//! the families of them that are enumerated.

use crate::engine::*;
use crate::model::*;
use crate::runner::*;
use crate::variants::Variant;
use crate::ensure;
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use rusty_rtree::ranking::Ranking;

/// Matches the keys of a set. `mode` is how tight the bounds test is: `t`
/// accepts exactly the bounds that contain a matching key, `i` also those that
/// only intersect one, `a` accepts all bounds.
pub struct Sub<'a, V: Variant> {
    pub alpha: &'a Alpha<V>,
    pub mask: u64,
    pub mode: char,
}

impl<'a, V: Variant> SpatialFilter<V::B, V::K> for Sub<'a, V> {
    fn test_bounds(&self, b: &V::B) -> bool {
        match self.mode {
            'a' => true,
            m => V::mbox(b).map_or(false, |b| {
                self.alpha.boxes.iter().enumerate().any(|(i, k)| {
                    self.mask >> i & 1 == 1 && (b.contains(k) || (m != 't' && b.intersects(k)))
                })
            }),
        }
    }
    fn test_key(&self, k: &V::K) -> bool {
        self.mask >> self.alpha.id(k) & 1 == 1
    }
}

/// Sets of keys: all of them for small alphabets, otherwise a family of
/// singletons, pairs of neighbours, windows, residue classes and complements.
pub fn masks(n: usize, full_up_to: usize) -> Vec<u64> {
    assert!(n <= 60);
    let all = (1u64 << n) - 1;
    if n <= full_up_to {
        return (0..=all).collect();
    }
    let mut v = vec![0, all];
    for i in 0..n {
        v.push(1 << i);
        v.push(all ^ (1 << i));
        for w in [2, 3, n / 3, n / 2] {
            if i + w <= n && w > 0 {
                v.push(((1u64 << w) - 1) << i);
            }
        }
    }
    for m in [2, 3, 5, 7] {
        for r in 0..m {
            v.push((0..n).filter(|i| i % m == r).fold(0, |a, i| a | 1 << i));
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(*x));
    v
}

/// Ranks keys by a table. The bounds metric is the least rank of the keys that
/// the bounds contain (`t`), or the least of all ranks (`a`), or one less than
/// the tight one (`l`).
pub struct Rank<'a, V: Variant> {
    pub alpha: &'a Alpha<V>,
    pub ranks: &'a [Option<u32>],
    pub mode: char,
}

pub const NEVER: u32 = 1000;

impl<'a, V: Variant> Rank<'a, V> {
    pub fn of_box(&self, b: Option<MBox>) -> Option<u32> {
        match self.mode {
            'a' => self.ranks.iter().flatten().min().copied(),
            m => {
                let b = b?;
                let t = (self.alpha.boxes.iter().zip(self.ranks))
                    .filter(|(k, _)| b.contains(k))
                    .filter_map(|(_, r)| *r)
                    .min();
                if m == 'l' {
                    t.map(|x| x.saturating_sub(1))
                } else {
                    t
                }
            }
        }
    }
}

impl<'a, V: Variant> Ranking<V::B, V::K> for Rank<'a, V> {
    type Metric = u32;
    fn bounds_min(&self, b: &V::B) -> u32 {
        self.of_box(V::mbox(b)).unwrap_or(NEVER)
    }
    fn rank_key(&self, k: &V::K) -> u32 {
        self.ranks[self.alpha.id(k)].unwrap_or(NEVER)
    }
}

/// The same with keys that have no rank.
pub struct ORank<'a, V: Variant>(pub Rank<'a, V>);

impl<'a, V: Variant> Ranking<V::B, V::K> for ORank<'a, V> {
    type Metric = Option<u32>;
    fn bounds_min(&self, b: &V::B) -> Option<u32> {
        self.0.of_box(V::mbox(b))
    }
    fn rank_key(&self, k: &V::K) -> Option<u32> {
        self.0.ranks[self.0.alpha.id(k)]
    }
}

/// Tables of ranks: all tables over `levels` ranks for small alphabets,
/// otherwise a family. With `opt`, `None` is one of the ranks.
pub fn rank_tables(n: usize, levels: u32, full_up_to: usize, opt: bool) -> Vec<Vec<Option<u32>>> {
    let mut out: Vec<Vec<Option<u32>>> = vec![];
    let lv = |x: u32| if opt { x.checked_sub(1) } else { Some(x) };
    if n <= full_up_to {
        for mut c in 0..(levels as u64).pow(n as u32) {
            out.push(
                (0..n)
                    .map(|_| {
                        let d = (c % levels as u64) as u32;
                        c /= levels as u64;
                        lv(d)
                    })
                    .collect(),
            );
        }
        return out;
    }
    let mut put = |f: &dyn Fn(usize) -> u32| out.push((0..n).map(|i| lv(f(i))).collect());
    put(&|_| 1);
    put(&|i| i as u32 + 1);
    put(&|i| (n - i) as u32);
    for m in [2, 3, 5] {
        put(&|i| (i % m) as u32);
        put(&|i| (i / m) as u32);
    }
    for c in 0..n {
        put(&|i| (i as i64 - c as i64).unsigned_abs() as u32);
        put(&|i| (i == c) as u32);
        put(&|i| 1 + (i != c) as u32);
        put(&|i| ((7 * i + c) % n) as u32);
    }
    if opt {
        put(&|_| 0);
    }
    out
}

/// Matches the pairs of a relation between the keys of two alphabets, by rows.
/// The bounds test is as tight as possible (`t`), or a test for intersection of
/// the extents of matching keys (`i`), or accepts everything (`a`).
pub struct Rel<'a, L: Variant, R: Variant> {
    pub l: &'a Alpha<L>,
    pub r: &'a Alpha<R>,
    pub rows: &'a [u64],
    pub mode: char,
}

impl<'a, L: Variant, R: Variant> Clone for Rel<'a, L, R> {
    fn clone(&self) -> Self {
        Rel { l: self.l, r: self.r, rows: self.rows, mode: self.mode }
    }
}

impl<'a, L: Variant, R: Variant> Rel<'a, L, R> {
    pub fn has(&self, l: usize, r: usize) -> bool {
        self.rows[l] >> r & 1 == 1
    }
}

impl<'a, L: Variant, R: Variant> JoinFilter<L::B, R::B, L::K, R::K> for Rel<'a, L, R> {
    fn test_bounds(&self, bl: &L::B, br: &R::B) -> bool {
        if self.mode == 'a' {
            return true;
        }
        let (Some(bl), Some(br)) = (L::mbox(bl), R::mbox(br)) else {
            return false;
        };
        let t = self.mode == 't';
        self.l.boxes.iter().zip(self.rows).any(|(kl, row)| {
            *row != 0
                && (bl.contains(kl) || (!t && bl.intersects(kl)))
                && self.r.boxes.iter().enumerate().any(|(j, kr)| {
                    row >> j & 1 == 1 && (br.contains(kr) || (!t && br.intersects(kr)))
                })
        })
    }
    fn test_key(&self, l: &L::K, r: &R::K) -> bool {
        self.has(self.l.id(l), self.r.id(r))
    }
}

/// Relations between `n` and `m` keys: all for tiny alphabets, otherwise a
/// family. `geo` tells whether two keys intersect.
pub fn relations(n: usize, m: usize, full_up_to: usize, geo: &dyn Fn(usize, usize) -> bool) -> Vec<Vec<u64>> {
    let all = (1u64 << m) - 1;
    if n * m <= full_up_to {
        return (0..1u64 << (n * m))
            .map(|c| (0..n).map(|i| c >> (i * m) & all).collect())
            .collect();
    }
    let mut out: Vec<Vec<u64>> = vec![];
    let mut put = |f: &dyn Fn(usize, usize) -> bool| {
        out.push((0..n).map(|i| (0..m).filter(|&j| f(i, j)).fold(0, |a, j| a | 1 << j)).collect())
    };
    put(&|_, _| true);
    put(&|_, _| false);
    put(geo);
    put(&|i, j| !geo(i, j));
    put(&|i, j| i == j);
    put(&|i, j| i != j);
    put(&|i, j| i < j);
    put(&|i, j| i >= j);
    put(&|i, j| (i + j) % 2 == 0);
    put(&|i, j| (i + j) % 3 == 0);
    put(&|i, j| (i * 3 + j) % 5 == 0);
    put(&|i, j| i.abs_diff(j) <= 1);
    let (si, sj) = ((n / 4).max(1), (m / 4).max(1));
    for a in (0..n).step_by(si) {
        put(&|i, _| i == a);
        put(&|i, _| i != a);
        for b in (0..m).step_by(sj) {
            put(&|i, j| i == a && j == b);
            put(&|i, j| i == a || j == b);
        }
    }
    for b in (0..m).step_by(sj) {
        put(&|_, j| j == b);
        put(&|_, j| j != b);
    }
    out
}

/// Checks that two lists have the same elements.
pub fn same_set<T: Ord + std::fmt::Debug>(mut got: Vec<T>, mut want: Vec<T>, what: &str) -> Res {
    got.sort();
    want.sort();
    ensure!(got == want, "{what}: got {got:?} instead of {want:?}");
    Ok(())
}

/// A collection that fails instead of growing without end.
pub fn capped<T>(it: impl Iterator<Item = T>, cap: usize, what: &str) -> Res<Vec<T>> {
    let v: Vec<T> = it.take(cap + 1).collect();
    ensure!(v.len() <= cap, "{what} yields more than {cap} items");
    Ok(v)
}

impl<'a, V: Variant> Clone for Sub<'a, V> {
    fn clone(&self) -> Self {
        Sub { alpha: self.alpha, mask: self.mask, mode: self.mode }
    }
}

impl<'a, V: Variant> Clone for Rank<'a, V> {
    fn clone(&self) -> Self {
        Rank { alpha: self.alpha, ranks: self.ranks, mode: self.mode }
    }
}

impl<'a, V: Variant> Clone for ORank<'a, V> {
    fn clone(&self) -> Self {
        ORank(self.0.clone())
    }
}
