//! The instantiations of the tree that are explored: bounds types, key types,
//! dimensions and coordinate types.

use crate::model::MBox;
use noisy_float::types::{n32, n64, N32, N64};
use rusty_rtree::{
    bounds::{Bounded, Bounds, Volume, AABB, SAABB},
    contains::Contains,
    geom::line::Line,
    intersects::Intersects,
    vector::SVec,
};
use std::fmt::Debug;

pub trait Variant: 'static + Sized {
    type B: Bounds + Volume + Clone + Debug + PartialEq + Send + Sync;
    type K: Bounded<Self::B> + Eq + Clone + Debug + Send + Sync;
    const NAME: &'static str;
    const D: usize;
    /// node bounds are the exact unions
    const EXACT: bool = true;
    /// builds key number `i` of an alphabet
    fn key(i: usize, b: &MBox) -> Self::K;
    /// the exact extent of that key
    fn kbox(_i: usize, b: &MBox) -> MBox {
        *b
    }
    /// the model's view of a bounds object, `None` for empty bounds
    fn mbox(b: &Self::B) -> Option<MBox>;
    /// shifts an alphabet into the domain of the coordinate type
    fn prep(mut a: Vec<MBox>) -> Vec<MBox> {
        for b in a.iter_mut() {
            for d in Self::D..3 {
                b.lo[d] = 0;
                b.hi[d] = 0;
            }
        }
        a.dedup();
        a
    }
    /// reads a bounds object from its debug output: all numbers in order
    fn parse_b(s: &str) -> Option<MBox> {
        parse_box(s, Self::D)
    }
}

/// The numbers in a text. A number follows a character that is not a letter.
pub fn numbers(s: &str) -> Vec<f64> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let start = i;
        let c = b[i];
        if (c == b'-' || c.is_ascii_digit())
            && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_'))
        {
            i += 1;
            while i < b.len()
                && (b[i].is_ascii_digit()
                    || b[i] == b'.'
                    || b[i] == b'e'
                    || b[i] == b'E'
                    || ((b[i] == b'-' || b[i] == b'+') && matches!(b[i - 1], b'e' | b'E')))
            {
                i += 1;
            }
            if let Ok(x) = s[start..i].parse::<f64>() {
                v.push(x);
            }
        } else {
            i += 1;
        }
    }
    v
}

pub fn parse_box(s: &str, d: usize) -> Option<MBox> {
    let v = numbers(s);
    if v.len() != 2 * d {
        return None;
    }
    let mut m = MBox { lo: [0; 3], hi: [0; 3] };
    for i in 0..d {
        m.lo[i] = v[i] as i64;
        m.hi[i] = v[d + i] as i64;
    }
    Some(m)
}

/// Coordinate types
pub trait Coord:
    Copy + Ord + Debug + Into<f64> + num_traits::Bounded + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + Send + Sync + 'static
{
    fn of(x: i64) -> Self;
    fn to(self) -> i64 {
        let f: f64 = self.into();
        f as i64
    }
}
impl Coord for i32 {
    fn of(x: i64) -> i32 {
        x as i32
    }
    fn to(self) -> i64 {
        self as i64
    }
}
impl Coord for u32 {
    fn of(x: i64) -> u32 {
        x as u32
    }
    fn to(self) -> i64 {
        self as i64
    }
}
impl Coord for N64 {
    fn of(x: i64) -> N64 {
        n64(x as f64)
    }
}
impl Coord for N32 {
    fn of(x: i64) -> N32 {
        n32(x as f32)
    }
}

pub fn sv<N: Coord, const D: usize>(p: &[i64; 3]) -> SVec<N, D> {
    SVec(std::array::from_fn(|d| N::of(p[d])))
}

pub fn sb<N: Coord, const D: usize>(b: &MBox) -> SAABB<N, D> {
    AABB { min: sv(&b.lo), max: sv(&b.hi) }
}

pub fn msb<N: Coord, const D: usize>(b: &SAABB<N, D>) -> Option<MBox> {
    let mut m = MBox { lo: [0; 3], hi: [0; 3] };
    for d in 0..D {
        m.lo[d] = b.min.0[d].to();
        m.hi[d] = b.max.0[d].to();
        if m.lo[d] > m.hi[d] {
            return None;
        }
    }
    Some(m)
}

/// boxes as keys
pub struct BoxV<N, const D: usize>(std::marker::PhantomData<N>);

pub trait CName {
    const CN: [&'static str; 4];
    const SHIFT: i64 = 0;
}
impl CName for i32 {
    const CN: [&'static str; 4] = ["", "boxi1", "boxi2", "boxi3"];
}
impl CName for u32 {
    const CN: [&'static str; 4] = ["", "boxu1", "boxu2", "boxu3"];
    const SHIFT: i64 = 2000;
}
impl CName for N64 {
    const CN: [&'static str; 4] = ["", "boxd1", "boxd2", "boxd3"];
}
impl CName for N32 {
    const CN: [&'static str; 4] = ["", "boxf1", "boxf2", "boxf3"];
}

impl<N: Coord + CName, const D: usize> Variant for BoxV<N, D> {
    type B = SAABB<N, D>;
    type K = SAABB<N, D>;
    const NAME: &'static str = N::CN[D];
    const D: usize = D;
    fn key(_: usize, b: &MBox) -> Self::K {
        sb(b)
    }
    fn mbox(b: &Self::B) -> Option<MBox> {
        msb(b)
    }
    fn prep(mut a: Vec<MBox>) -> Vec<MBox> {
        let mut seen = vec![];
        for b in a.iter_mut() {
            for d in 0..3 {
                if d < D {
                    b.lo[d] += N::SHIFT;
                    b.hi[d] += N::SHIFT;
                } else {
                    b.lo[d] = 0;
                    b.hi[d] = 0;
                }
            }
            if !seen.contains(b) {
                seen.push(*b);
            }
        }
        seen
    }
}

/// points as keys
pub struct PtV;
impl Variant for PtV {
    type B = SAABB<i32, 2>;
    type K = SVec<i32, 2>;
    const NAME: &'static str = "pti2";
    const D: usize = 2;
    fn key(_: usize, b: &MBox) -> Self::K {
        sv(&b.lo)
    }
    fn mbox(b: &Self::B) -> Option<MBox> {
        msb(b)
    }
    fn prep(a: Vec<MBox>) -> Vec<MBox> {
        let mut seen: Vec<MBox> = vec![];
        for b in a {
            let p = MBox { lo: [b.lo[0], b.lo[1], 0], hi: [b.lo[0], b.lo[1], 0] };
            if !seen.contains(&p) {
                seen.push(p);
            }
        }
        seen
    }
}

/// line segments as keys, both diagonals: different keys may have equal bounds
pub struct LnV;
impl Variant for LnV {
    type B = SAABB<i32, 2>;
    type K = Line<SVec<i32, 2>>;
    const NAME: &'static str = "lni2";
    const D: usize = 2;
    fn key(i: usize, b: &MBox) -> Self::K {
        if i % 2 == 0 {
            Line(sv(&b.lo), sv(&b.hi))
        } else {
            Line(
                SVec([b.hi[0] as i32, b.lo[1] as i32]),
                SVec([b.lo[0] as i32, b.hi[1] as i32]),
            )
        }
    }
    fn mbox(b: &Self::B) -> Option<MBox> {
        msb(b)
    }
    /// every other key gets the bounds of its predecessor
    fn prep(a: Vec<MBox>) -> Vec<MBox> {
        let mut seen: Vec<MBox> = vec![];
        for mut b in a {
            b.lo[2] = 0;
            b.hi[2] = 0;
            if b.lo[0] == b.hi[0] || b.lo[1] == b.hi[1] {
                b.hi[0] = b.lo[0] + 1;
                b.hi[1] = b.lo[1] + 1;
            }
            if !seen.contains(&b) {
                seen.push(b);
            }
        }
        let n = seen.len();
        (0..n).map(|i| seen[i - i % 2]).collect()
    }
}

/// keys with an identity besides their extent: pairs of different keys have
/// equal bounds
#[derive(Clone, PartialEq, Eq)]
pub struct Tag {
    pub id: u8,
    pub b: SAABB<i32, 2>,
}
impl Debug for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.id)
    }
}
impl Bounded<SAABB<i32, 2>> for Tag {
    fn bounds(&self) -> SAABB<i32, 2> {
        self.b
    }
}
pub struct TagV;
impl Variant for TagV {
    type B = SAABB<i32, 2>;
    type K = Tag;
    const NAME: &'static str = "tagi2";
    const D: usize = 2;
    fn key(i: usize, b: &MBox) -> Tag {
        Tag { id: i as u8, b: sb(b) }
    }
    fn mbox(b: &Self::B) -> Option<MBox> {
        msb(b)
    }
    fn prep(mut a: Vec<MBox>) -> Vec<MBox> {
        for b in a.iter_mut() {
            b.lo[2] = 0;
            b.hi[2] = 0;
        }
        let n = a.len();
        (0..n).map(|i| if i % 3 == 2 { a[i - 1] } else { a[i] }).collect()
    }
}

// ------------------------------------------------------------ lossy bounds

/// A lawful bounds type whose unions may be larger than necessary. `MODE`
/// selects how: 0 rounds outwards to multiples of 8, 1 adds a margin with every
/// union, 2 uses the whole plane once two different bounds are united, 3 grows
/// the first box to all sides alike until it contains the second, so that the
/// result depends on the order; 4 is exact.
#[derive(Clone, PartialEq)]
pub struct Lossy<const MODE: u8> {
    pub lo: [i64; 2],
    pub hi: [i64; 2],
}

impl<const M: u8> Debug for Lossy<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}, {}, {}, {}>", self.lo[0], self.lo[1], self.hi[0], self.hi[1])
    }
}

impl<const M: u8> Lossy<M> {
    pub fn of(b: &MBox) -> Self {
        Lossy { lo: [b.lo[0], b.lo[1]], hi: [b.hi[0], b.hi[1]] }
    }
    pub fn is_empty(&self) -> bool {
        self.lo[0] > self.hi[0] || self.lo[1] > self.hi[1]
    }
}

impl<const M: u8> Contains<Lossy<M>> for Lossy<M> {
    fn contains(&self, o: &Lossy<M>) -> bool {
        o.is_empty() || (0..2).all(|d| self.lo[d] <= o.lo[d] && o.hi[d] <= self.hi[d])
    }
}

impl<const M: u8> Intersects<Lossy<M>> for Lossy<M> {
    fn intersects(&self, o: &Lossy<M>) -> bool {
        (0..2).all(|d| self.lo[d] <= o.hi[d] && o.lo[d] <= self.hi[d])
    }
}

const PLANE: i64 = 1 << 40;

impl<const M: u8> Bounds for Lossy<M> {
    fn empty() -> Self {
        Lossy { lo: [PLANE; 2], hi: [-PLANE; 2] }
    }
    fn union(l: &Self, r: &Self) -> Self {
        if l.is_empty() {
            return r.clone();
        }
        if r.is_empty() {
            return l.clone();
        }
        let mut u = Lossy {
            lo: std::array::from_fn(|d| l.lo[d].min(r.lo[d])),
            hi: std::array::from_fn(|d| l.hi[d].max(r.hi[d])),
        };
        if M == 3 {
            let by = (0..2).map(|d| (l.lo[d] - u.lo[d]).max(u.hi[d] - l.hi[d])).max().unwrap_or(0);
            return Lossy { lo: l.lo.map(|x| x - by), hi: l.hi.map(|x| x + by) };
        }
        for d in 0..2 {
            match M {
                4 => {}
                0 => {
                    u.lo[d] = u.lo[d].div_euclid(8) * 8;
                    u.hi[d] = -((-u.hi[d]).div_euclid(8) * 8);
                }
                1 => {
                    u.lo[d] -= 1;
                    u.hi[d] += 2;
                }
                _ => {
                    if l != r {
                        u.lo[d] = -PLANE;
                        u.hi[d] = PLANE;
                    }
                }
            }
        }
        u
    }
    fn union_all(bounds: impl IntoIterator<Item = Self>) -> Self {
        let mut r = Self::empty();
        for b in bounds {
            r = Self::union(&r, &b);
        }
        r
    }
}

impl<const M: u8> Volume for Lossy<M> {
    fn volume(&self) -> N64 {
        if self.is_empty() {
            return n64(0.0);
        }
        n64((self.hi[0] - self.lo[0]) as f64) * n64((self.hi[1] - self.lo[1]) as f64)
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct LKey<const M: u8> {
    pub id: u8,
    pub b: MBox,
}
impl<const M: u8> Debug for LKey<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.id)
    }
}
impl<const M: u8> Bounded<Lossy<M>> for LKey<M> {
    fn bounds(&self) -> Lossy<M> {
        Lossy::of(&self.b)
    }
}

pub struct LossyV<const M: u8>;
impl<const M: u8> Variant for LossyV<M> {
    type B = Lossy<M>;
    type K = LKey<M>;
    const NAME: &'static str = ["lossy0", "lossy1", "lossy2", "lossy3", "lossy4"][M as usize];
    const D: usize = 2;
    const EXACT: bool = M == 4;
    fn key(i: usize, b: &MBox) -> LKey<M> {
        LKey { id: i as u8, b: *b }
    }
    fn mbox(b: &Lossy<M>) -> Option<MBox> {
        if b.is_empty() {
            None
        } else {
            Some(MBox { lo: [b.lo[0], b.lo[1], 0], hi: [b.hi[0], b.hi[1], 0] })
        }
    }
}

/// Bounds that are sets of labels. The model sees the six possible labels as
/// the six sides of a box: a label that is in the set pushes its side out.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Labels(pub u8);
impl Debug for Labels {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}>", self.0)
    }
}
impl Contains<Labels> for Labels {
    fn contains(&self, o: &Labels) -> bool {
        o.0 & !self.0 == 0
    }
}
impl Intersects<Labels> for Labels {
    fn intersects(&self, o: &Labels) -> bool {
        self.0 & o.0 != 0
    }
}
impl Bounds for Labels {
    fn empty() -> Labels {
        Labels(0)
    }
    fn union(a: &Labels, b: &Labels) -> Labels {
        Labels(a.0 | b.0)
    }
    fn union_all(bounds: impl IntoIterator<Item = Labels>) -> Labels {
        bounds.into_iter().fold(Labels(0), |a, b| Labels(a.0 | b.0))
    }
}
impl Volume for Labels {
    fn volume(&self) -> N64 {
        n64(self.0.count_ones() as f64)
    }
}
fn labels_box(m: u8) -> MBox {
    let out = |i: usize| (m >> i & 1) as i64;
    MBox { lo: std::array::from_fn(|d| -out(d)), hi: std::array::from_fn(|d| out(d + 3)) }
}
#[derive(Clone, PartialEq, Eq)]
pub struct LabelKey(u8, Labels);
impl Debug for LabelKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.0)
    }
}
impl Bounded<Labels> for LabelKey {
    fn bounds(&self) -> Labels {
        self.1
    }
}
fn labels_of(i: usize) -> u8 {
    [1, 2, 6, 32, 63, 9, 16, 18, 4, 36, 3, 21][i % 12]
}
pub struct LabelV;
impl Variant for LabelV {
    type B = Labels;
    type K = LabelKey;
    const NAME: &'static str = "labels";
    const D: usize = 3;
    fn key(i: usize, _: &MBox) -> LabelKey {
        LabelKey(i as u8, Labels(labels_of(i)))
    }
    fn kbox(i: usize, _: &MBox) -> MBox {
        labels_box(labels_of(i))
    }
    fn mbox(b: &Labels) -> Option<MBox> {
        (b.0 != 0).then(|| labels_box(b.0))
    }
    fn parse_b(s: &str) -> Option<MBox> {
        let m = s.trim_matches(['<', '>']).parse::<u8>().ok()?;
        Some(if m == 0 { MBox { lo: [1; 3], hi: [0; 3] } } else { labels_box(m) })
    }
}

/// Bounds that know nothing: all are the same.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Anywhere;
impl Debug for Anywhere {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<>")
    }
}
impl Contains<Anywhere> for Anywhere {
    fn contains(&self, _: &Anywhere) -> bool {
        true
    }
}
impl Intersects<Anywhere> for Anywhere {
    fn intersects(&self, _: &Anywhere) -> bool {
        true
    }
}
impl Bounds for Anywhere {
    fn empty() -> Anywhere {
        Anywhere
    }
    fn union(_: &Anywhere, _: &Anywhere) -> Anywhere {
        Anywhere
    }
    fn union_all(_: impl IntoIterator<Item = Anywhere>) -> Anywhere {
        Anywhere
    }
}
impl Volume for Anywhere {
    fn volume(&self) -> N64 {
        n64(0.0)
    }
}
impl Bounded<Anywhere> for Tag {
    fn bounds(&self) -> Anywhere {
        Anywhere
    }
}
pub struct AnyV;
impl Variant for AnyV {
    type B = Anywhere;
    type K = Tag;
    const NAME: &'static str = "any";
    const D: usize = 2;
    const EXACT: bool = false;
    fn key(i: usize, b: &MBox) -> Tag {
        Tag { id: i as u8, b: sb(b) }
    }
    fn mbox(_: &Anywhere) -> Option<MBox> {
        Some(MBox { lo: [-PLANE; 3], hi: [PLANE; 3] })
    }
    fn parse_b(s: &str) -> Option<MBox> {
        (s == "<>").then_some(MBox { lo: [-PLANE; 3], hi: [PLANE; 3] })
    }
}

// ------------------------------------------------- keys without an extent

/// The model's view of the bounds of nothing: every box contains them and they
/// add nothing to a union.
pub const VOID: MBox = MBox { lo: [PLANE; 3], hi: [-PLANE; 3] };

#[derive(Clone, PartialEq, Eq)]
pub struct VoidKey<B> {
    id: u8,
    b: B,
}
impl<B> Debug for VoidKey<B> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.id)
    }
}
impl<N: Coord, const D: usize> Bounded<SAABB<N, D>> for VoidKey<SAABB<N, D>> {
    fn bounds(&self) -> SAABB<N, D> {
        self.b
    }
}
impl Bounded<Labels> for VoidKey<Labels> {
    fn bounds(&self) -> Labels {
        self.b
    }
}
/// which keys have no extent: every third one, all but each third, or all
fn is_void(mode: u8, i: usize) -> bool {
    [i % 3 == 1, i % 3 != 1, true][mode as usize]
}
/// boxes as keys, some of which are empty
pub struct VoidV<N, const D: usize, const MODE: u8>(std::marker::PhantomData<N>);
impl<N: Coord + CName, const D: usize, const M: u8> Variant for VoidV<N, D, M> {
    type B = SAABB<N, D>;
    type K = VoidKey<SAABB<N, D>>;
    const NAME: &'static str = match (D, N::CN[2].as_bytes()[3], M) {
        (1, b'i', 0) => "voidi1",
        (1, b'd', 0) => "voidd1",
        (2, b'i', 0) => "voidi2",
        (2, b'i', 1) => "voidi2most",
        (2, b'i', 2) => "voidi2all",
        (2, b'u', 0) => "voidu2",
        (2, b'd', 0) => "voidd2",
        (2, b'd', 1) => "voidd2most",
        (2, b'd', 2) => "voidd2all",
        (3, b'i', 0) => "voidi3",
        (3, b'd', 0) => "voidd3",
        (3, b'd', 1) => "voidd3most",
        _ => panic!(),
    };
    const D: usize = D;
    fn key(i: usize, b: &MBox) -> Self::K {
        VoidKey { id: i as u8, b: if *b == VOID { Bounds::empty() } else { sb(b) } }
    }
    fn mbox(b: &Self::B) -> Option<MBox> {
        Some(msb(b).unwrap_or(VOID))
    }
    fn prep(a: Vec<MBox>) -> Vec<MBox> {
        let mut a = BoxV::<N, D>::prep(a);
        a.iter_mut().enumerate().filter(|(i, _)| is_void(M, *i)).for_each(|(_, b)| *b = VOID);
        a
    }
}
/// sets of labels as bounds, some of which are empty
pub struct VoidLabelV;
impl Variant for VoidLabelV {
    type B = Labels;
    type K = VoidKey<Labels>;
    const NAME: &'static str = "voidlabels";
    const D: usize = 3;
    fn key(i: usize, _: &MBox) -> Self::K {
        VoidKey { id: i as u8, b: Labels(if is_void(0, i) { 0 } else { labels_of(i) }) }
    }
    fn kbox(i: usize, _: &MBox) -> MBox {
        if is_void(0, i) { VOID } else { labels_box(labels_of(i)) }
    }
    fn mbox(b: &Labels) -> Option<MBox> {
        Some(if b.0 == 0 { VOID } else { labels_box(b.0) })
    }
    fn parse_b(s: &str) -> Option<MBox> {
        LabelV::parse_b(s)
    }
}

/// Evaluates an expression with `$V` being the variant of the given name.
#[macro_export]
macro_rules! pick {
    ($name:expr; [$($T:ty),* $(,)?]; $V:ident => $e:expr) => {{
        let name: &str = $name;
        $(if name == <$T as $crate::variants::Variant>::NAME { type $V = $T; $e } else)*
        { panic!("unknown variant {name}") }
    }};
}

pub type Bi1 = BoxV<i32, 1>;
pub type Bi2 = BoxV<i32, 2>;
pub type Bi3 = BoxV<i32, 3>;
pub type Bu2 = BoxV<u32, 2>;
pub type Bd2 = BoxV<N64, 2>;
pub type Bf2 = BoxV<N32, 2>;
