//! C22: lookups by a borrowed form of the key match lookups by the key.
use rtree_mc::prelude::*;
use rusty_rtree::bounds::Bounded;
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::{JoinFilter, JoiningFilter, SpatialFilter};
use std::borrow::Borrow;
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static QUERIES: AtomicU64 = AtomicU64::new(0);

/// A key type that can be borrowed as another type.
trait Lent: Variant
where
    Self::K: Borrow<Self::Q>,
    Self::B: Contains<Self::B>,
{
    type Q: ?Sized + Eq + Bounded<Self::B>;
    /// key number `i` in its borrowed form, made without the owned key
    fn lent(i: usize, b: &MBox) -> Box<Self::Q>;
    /// the number of a key
    fn number(a: &[Box<Self::Q>], q: &Self::Q) -> usize {
        match a.iter().position(|x| **x == *q) {
            Some(i) => i,
            None => vpanic("a borrowed key was passed on that is in no entry".into()),
        }
    }
}

type Exact = Lossy<4>;

// -------------------------------------------------------- String as str

fn text(i: usize, b: &MBox) -> String {
    format!("{i}:{},{},{},{}", b.lo[0], b.lo[1], b.hi[0], b.hi[1])
}
fn of_text(s: &str) -> Exact {
    let v: Vec<i64> = s.split_once(':').map_or("", |x| x.1).split(',').map(|x| x.parse().unwrap_or(0)).collect();
    Lossy { lo: [v[0], v[1]], hi: [v[2], v[3]] }
}
impl Bounded<Exact> for Text {
    fn bounds(&self) -> Exact {
        of_text(&self.0)
    }
}
struct StrV;
impl Variant for StrV {
    type B = Exact;
    type K = Text;
    const NAME: &'static str = "string";
    const D: usize = 2;
    fn key(i: usize, b: &MBox) -> Text {
        Text(text(i, b))
    }
    fn mbox(b: &Exact) -> Option<MBox> {
        LossyV::<4>::mbox(b)
    }
}
/// a string, shown without its digits so that they are not read as bounds
#[derive(Clone, PartialEq, Eq)]
struct Text(String);
impl Debug for Text {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.0.split(':').next().unwrap_or(""))
    }
}
impl Borrow<Str> for Text {
    fn borrow(&self) -> &Str {
        Str::of(&self.0)
    }
}
/// an unsized form: a fat pointer
#[repr(transparent)]
#[derive(PartialEq, Eq)]
struct Str(str);
impl Str {
    fn of(s: &str) -> &Str {
        // SAFETY: `Str` is a transparent wrapper of `str`.
        unsafe { &*(s as *const str as *const Str) }
    }
}
impl Bounded<Exact> for Str {
    fn bounds(&self) -> Exact {
        of_text(&self.0)
    }
}
impl Lent for StrV {
    type Q = Str;
    fn lent(i: usize, b: &MBox) -> Box<Str> {
        let s: Box<str> = text(i, b).into();
        // SAFETY: as above.
        unsafe { Box::from_raw(Box::into_raw(s) as *mut Str) }
    }
}

// ------------------------------------------------- a box as its contents

#[derive(Clone, PartialEq, Eq)]
struct Held(Box<LKey<4>>);
impl Debug for Held {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl Bounded<Exact> for Held {
    fn bounds(&self) -> Exact {
        self.0.bounds()
    }
}
impl Borrow<LKey<4>> for Held {
    fn borrow(&self) -> &LKey<4> {
        &self.0
    }
}
struct HeldV;
impl Variant for HeldV {
    type B = Exact;
    type K = Held;
    const NAME: &'static str = "held";
    const D: usize = 2;
    fn key(i: usize, b: &MBox) -> Held {
        Held(Box::new(LKey { id: i as u8, b: *b }))
    }
    fn mbox(b: &Exact) -> Option<MBox> {
        LossyV::<4>::mbox(b)
    }
}
impl Lent for HeldV {
    type Q = LKey<4>;
    fn lent(i: usize, b: &MBox) -> Box<LKey<4>> {
        Box::new(LKey { id: i as u8, b: *b })
    }
}

// ------------------------------------------------- a record as one field

/// The part of a record that decides about equality and extent; pairs of
/// different keys have the same extent.
#[derive(Clone, PartialEq, Eq)]
struct Id(u8, MBox);
impl Bounded<Exact> for Id {
    fn bounds(&self) -> Exact {
        Lossy::of(&self.1)
    }
}
#[derive(Clone)]
struct Record {
    _before: [u64; 3],
    id: Id,
    _note: String,
}
impl PartialEq for Record {
    fn eq(&self, o: &Record) -> bool {
        self.id == o.id
    }
}
impl Eq for Record {}
impl Debug for Record {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.id.0)
    }
}
impl Bounded<Exact> for Record {
    fn bounds(&self) -> Exact {
        self.id.bounds()
    }
}
impl Borrow<Id> for Record {
    fn borrow(&self) -> &Id {
        &self.id
    }
}
struct RecV;
impl Variant for RecV {
    type B = Exact;
    type K = Record;
    const NAME: &'static str = "record";
    const D: usize = 2;
    fn key(i: usize, b: &MBox) -> Record {
        Record { _before: [i as u64; 3], id: Id(i as u8, *b), _note: format!("note {i}") }
    }
    fn mbox(b: &Exact) -> Option<MBox> {
        LossyV::<4>::mbox(b)
    }
    fn prep(mut a: Vec<MBox>) -> Vec<MBox> {
        a = LossyV::<4>::prep(a);
        let n = a.len();
        (0..n).map(|i| a[i - i % 2]).collect()
    }
}
impl Lent for RecV {
    type Q = Id;
    fn lent(i: usize, b: &MBox) -> Box<Id> {
        Box::new(Id(i as u8, *b))
    }
}

// --------------------------------------- a vector as a slice, over-approximate

#[derive(Clone, PartialEq, Eq)]
struct Nums(Vec<i64>);
impl Debug for Nums {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.0[0])
    }
}
#[repr(transparent)]
#[derive(PartialEq, Eq)]
struct Slice([i64]);
impl Bounded<Lossy<1>> for Nums {
    fn bounds(&self) -> Lossy<1> {
        let s: &Slice = self.borrow();
        s.bounds()
    }
}
impl Bounded<Lossy<1>> for Slice {
    fn bounds(&self) -> Lossy<1> {
        Lossy { lo: [self.0[1], self.0[2]], hi: [self.0[3], self.0[4]] }
    }
}
impl Borrow<Slice> for Nums {
    fn borrow(&self) -> &Slice {
        // SAFETY: `Slice` is a transparent wrapper of a slice.
        unsafe { &*(&self.0[..] as *const [i64] as *const Slice) }
    }
}
fn nums(i: usize, b: &MBox) -> Vec<i64> {
    vec![i as i64, b.lo[0], b.lo[1], b.hi[0], b.hi[1]]
}
struct NumV;
impl Variant for NumV {
    type B = Lossy<1>;
    type K = Nums;
    const NAME: &'static str = "slice";
    const D: usize = 2;
    const EXACT: bool = false;
    fn key(i: usize, b: &MBox) -> Nums {
        Nums(nums(i, b))
    }
    fn mbox(b: &Lossy<1>) -> Option<MBox> {
        LossyV::<1>::mbox(b)
    }
}
impl Lent for NumV {
    type Q = Slice;
    fn lent(i: usize, b: &MBox) -> Box<Slice> {
        // SAFETY: as above.
        unsafe { Box::from_raw(Box::into_raw(nums(i, b).into_boxed_slice()) as *mut Slice) }
    }
}

// -------------------------------------- keys that share the memory of others

/// The first numbers of a common buffer, the last five of which describe the
/// key: all keys start at the same address.
#[derive(Clone, PartialEq, Eq)]
struct Shared(&'static [i64]);
impl Debug for Shared {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.0[self.0.len() - 5])
    }
}
#[repr(transparent)]
#[derive(PartialEq, Eq)]
struct Prefix([i64]);
impl Bounded<Exact> for Prefix {
    fn bounds(&self) -> Exact {
        let v = &self.0[self.0.len() - 4..];
        Lossy { lo: [v[0], v[1]], hi: [v[2], v[3]] }
    }
}
impl Bounded<Exact> for Shared {
    fn bounds(&self) -> Exact {
        let p: &Prefix = self.borrow();
        p.bounds()
    }
}
impl Borrow<Prefix> for Shared {
    fn borrow(&self) -> &Prefix {
        // SAFETY: `Prefix` is a transparent wrapper of a slice.
        unsafe { &*(self.0 as *const [i64] as *const Prefix) }
    }
}
fn shared(i: usize, b: &MBox) -> &'static [i64] {
    static BUFFER: std::sync::Mutex<Vec<i64>> = std::sync::Mutex::new(vec![]);
    let mut g = BUFFER.lock().unwrap_or_else(|e| e.into_inner());
    if g.capacity() == 0 {
        g.reserve_exact(5 << 14);
    }
    let five = nums(i, b);
    let n = match g.chunks(5).position(|c| *c == five[..]) {
        Some(n) => n + 1,
        None => {
            // the buffer never moves
            assert!(g.len() + 5 <= g.capacity(), "too many keys");
            g.extend(five);
            g.len() / 5
        }
    };
    // SAFETY: the static buffer is never reallocated and these numbers are not
    // written again.
    unsafe { std::slice::from_raw_parts(g.as_ptr(), 5 * n) }
}
struct ShareV;
impl Variant for ShareV {
    type B = Exact;
    type K = Shared;
    const NAME: &'static str = "prefix";
    const D: usize = 2;
    fn key(i: usize, b: &MBox) -> Shared {
        Shared(shared(i, b))
    }
    fn mbox(b: &Exact) -> Option<MBox> {
        LossyV::<4>::mbox(b)
    }
}
impl Lent for ShareV {
    type Q = Prefix;
    fn lent(i: usize, b: &MBox) -> Box<Prefix> {
        let s: Box<[i64]> = shared(i, b).into();
        // SAFETY: as above.
        unsafe { Box::from_raw(Box::into_raw(s) as *mut Prefix) }
    }
}

// --------------------------------------------------------------- filters

/// A filter for the owned keys, applied to the borrowed ones.
struct QSub<'a, V: Lent>(Sub<'a, V>, &'a [Box<V::Q>])
where
    V::K: Borrow<V::Q>;

impl<'a, V: Lent> SpatialFilter<V::B, V::Q> for QSub<'a, V>
where
    V::K: Borrow<V::Q>,
{
    fn test_bounds(&self, b: &V::B) -> bool {
        self.0.test_bounds(b)
    }
    fn test_key(&self, q: &V::Q) -> bool {
        self.0.mask >> V::number(self.1, q) & 1 == 1
    }
}

struct QRel<'a, L: Lent, R: Lent>(Rel<'a, L, R>, &'a [Box<L::Q>], &'a [Box<R::Q>])
where
    L::K: Borrow<L::Q>,
    R::K: Borrow<R::Q>;

impl<'a, L: Lent, R: Lent> Clone for QRel<'a, L, R>
where
    L::K: Borrow<L::Q>,
    R::K: Borrow<R::Q>,
{
    fn clone(&self) -> Self {
        QRel(self.0.clone(), self.1, self.2)
    }
}

impl<'a, L: Lent, R: Lent> JoinFilter<L::B, R::B, L::Q, R::Q> for QRel<'a, L, R>
where
    L::K: Borrow<L::Q>,
    R::K: Borrow<R::Q>,
{
    fn test_bounds(&self, a: &L::B, b: &R::B) -> bool {
        self.0.test_bounds(a, b)
    }
    fn test_key(&self, a: &L::Q, b: &R::Q) -> bool {
        self.0.has(L::number(self.1, a), R::number(self.2, b))
    }
}

fn lents<V: Lent>(a: &Alpha<V>) -> Vec<Box<V::Q>>
where
    V::K: Borrow<V::Q>,
{
    (0..a.len()).map(|i| V::lent(i, &a.boxes[i])).collect()
}

// ---------------------------------------------------------------- checks

fn check<V: Lent>(r: &mut Run<V>, _: &Dump, _: Option<Op>) -> Res
where
    V::K: Borrow<V::Q>,
{
    r.check_contents()?;
    let alpha = r.alpha;
    let qs = lents::<V>(alpha);
    let mut n = 0;
    // borrowed forms with memory of their own, and as parts of owned keys
    let forms = qs.iter().map(|q| &**q).zip(&alpha.keys).enumerate().flat_map(|(k, (q, own))| [(k, q), (k, own.borrow())]);
    for (k, q) in forms {
        let key = &alpha.keys[k];
        let a = r.tree.get::<V::K>(key).map(|v| v as *const u32);
        let b = r.tree.get::<V::Q>(q).map(|v| v as *const u32);
        let c = r.tree.get_mut::<V::Q>(q).map(|v| v as *const u32);
        let val = r.tree.get::<V::Q>(q).copied();
        let e = r.tree.iter().find(|e| e.0 == key).map(|e| *e.1);
        ensure!(a == b && a == c, "the entries found for the key {k} are at {a:?} by the owned, {b:?} by the borrowed key and {c:?} mutably");
        ensure!(val == e, "the borrowed key {k} is found with the value {val:?}, but its first entry is {e:?}");
        let mut x = r.rebuild()?;
        let mut y = r.rebuild()?;
        let (vx, vy) = (x.tree.remove::<V::K>(key), y.tree.remove::<V::Q>(q));
        ensure!(vx == vy && vy == e, "removal of the key {k}: the owned form gives {vx:?}, the borrowed one {vy:?}, the first entry is {e:?}");
        if let Some(v) = vy {
            x.model.retain(|m| m.1 != v);
            y.model.retain(|m| m.1 != v);
        }
        y.check_contents()?;
        let (dx, dy) = (x.dump()?, y.dump()?);
        ensure!(dx.same(&dy), "removal of the key {k} by the owned and the borrowed form leave different trees");
        n += 4;
    }
    for mask in masks(alpha.len(), 4) {
        for mode in ['t', 'a'] {
            let own: Vec<u32> = r.tree.filter_iter::<V::K, _>(Sub::<V> { alpha, mask, mode }).map(|e| *e.1).collect();
            let f = || QSub::<V>(Sub { alpha, mask, mode }, &qs);
            let got: Vec<u32> = capped(r.tree.filter_iter::<V::Q, _>(f()).map(|e| *e.1), r.model.len(), "filter of borrowed keys")?;
            ensure!(got == own, "filter for the keys {mask:#b}: {got:?} borrowed, {own:?} owned");
            let got: Vec<u32> = capped(r.tree.filter_iter_mut::<V::Q, _>(f()).map(|e| *e.1), r.model.len(), "filter of borrowed keys")?;
            ensure!(got == own, "mutable filter for the keys {mask:#b}: {got:?} borrowed, {own:?} owned");
            let want = r.model.iter().filter(|e| mask >> e.0 & 1 == 1).map(|e| e.1).collect();
            same_set(got, want, &format!("filter for the borrowed keys {mask:#b}"))?;
            n += 2;
        }
    }
    QUERIES.fetch_add(n, Relaxed);
    Ok(())
}

fn pair<L: Lent, R: Lent>(p: &Pair) -> Res
where
    L::K: Borrow<L::Q>,
    R::K: Borrow<R::Q>,
{
    let (al, ar) = (Alpha::<L>::new(p.al), Alpha::<R>::new(p.ar));
    let l = Run::<L>::build(&al, p.l.cfg, &p.l.hist)?;
    let r = Run::<R>::build(&ar, p.r.cfg, &p.r.hist)?;
    let (ql, qr) = (lents::<L>(&al), lents::<R>(&ar));
    let cap = l.model.len() * r.model.len();
    let mut n = 0;
    for rows in rel_family(&l, &r, 4) {
        for mode in ['t', 'a'] {
            let rel = Rel::<L, R> { l: &al, r: &ar, rows: &rows, mode };
            let f = QRel::<L, R>(rel.clone(), &ql, &qr);
            let own: Vec<(u32, u32)> = l.tree.join::<_, _, _, L::K, R::K, _>(&r.tree, rel.clone()).map(|(a, b)| (a.1, b.1)).collect();
            let got: Vec<(u32, u32)> = capped(l.tree.join::<_, _, _, L::Q, R::Q, _>(&r.tree, f.clone()).map(|(a, b)| (a.1, b.1)), cap, "join of borrowed keys")?;
            ensure!(got == own, "join for {rows:?}: {got:?} borrowed, {own:?} owned");
            let mut want = vec![];
            for a in &l.model {
                want.extend(r.model.iter().filter(|b| rel.has(a.0 as usize, b.0 as usize)).map(|b| (a.1, b.1)));
            }
            same_set(got, want, &format!("join of borrowed keys for {rows:?}"))?;
            let own: Vec<(u32, Vec<u32>)> = l.tree.left_join::<_, _, _, L::K, R::K, _>(&r.tree, rel.clone()).map(|(a, i)| (*a.1, i.map(|b| *b.1).collect())).collect();
            let got: Vec<(u32, Vec<u32>)> = l.tree.left_join::<_, _, _, L::Q, R::Q, _>(&r.tree, f.clone()).map(|(a, i)| (*a.1, i.map(|b| *b.1).collect())).collect();
            ensure!(got == own, "left join for {rows:?}: {got:?} borrowed, {own:?} owned");
            same_set(got.iter().map(|x| x.0).collect(), l.model.iter().map(|x| x.1).collect(), "left entries of a left join of borrowed keys")?;
            for (k, q) in ql.iter().enumerate() {
                let it = r.tree.filter_iter::<R::Q, _>(JoiningFilter::<L::B, L::Q, _>::new(q, f.clone()));
                let got = capped(it.map(|e| *e.1), r.model.len(), "joining filter")?;
                let want = r.model.iter().filter(|b| rel.has(k, b.0 as usize)).map(|b| b.1).collect();
                same_set(got, want, &format!("joining filter of the borrowed key {k} for {rows:?}"))?;
            }
            n += 2 + ql.len() as u64;
        }
    }
    QUERIES.fetch_add(n, Relaxed);
    Ok(())
}

fn plan(ctx: &Ctx) -> Plan {
    let some = vec![(2, 1), (3, 1), (4, 2)];
    Plan {
        only_new: true,
        bfs: vec![("mix", 4, "iur", ctx.qt(6, 8), 8, some.clone()), ("nest", 3, "ir", ctx.qt(7, 9), 9, some.clone())],
        scripts: vec![("scat", ctx.qt(16, 32), SMALL.to_vec()), ("over", ctx.qt(12, 24), some.clone())],
        around: vec![("scat", 14, vec![9, 14], "ir", ctx.qt(1, 2), some)],
        walks: vec![("scat", 40, 60, ctx.qt(41, 11), vec![(2, 1), (17, 8)])],
    }
}

macro_rules! pairs {
    ($m:ident) => {
        $m!((StrV, StrV), (StrV, HeldV), (HeldV, NumV), (NumV, RecV), (RecV, StrV), (RecV, RecV), (ShareV, ShareV), (ShareV, RecV))
    };
}

fn run(ctx: &Ctx) {
    let pl = plan(ctx);
    explore::<StrV>(ctx, &pl, &check::<StrV>);
    explore::<HeldV>(ctx, &pl, &check::<HeldV>);
    explore::<RecV>(ctx, &pl, &check::<RecV>);
    explore::<NumV>(ctx, &pl, &check::<NumV>);
    explore::<ShareV>(ctx, &pl, &check::<ShareV>);
    let sizes: &[usize] = if ctx.thorough() { &[1, 2, 3, 5, 7, 9, 12, 16] } else { &[1, 3, 6, 12] };
    macro_rules! go {
        ($(($l:ty, $r:ty)),*) => {$({
            let a = grown::<$l>(ctx, "scat:16", sizes, &["asc", "step3"], &[(2, 1), (4, 2)]);
            let b = grown::<$r>(ctx, "scat:16", sizes, &["ends"], &[(2, 1), (3, 1)]);
            let ps = all_pairs(&a, &b, "scat:16", "scat:16");
            ctx.par_cases(&ps, |p| p.name::<$l, $r>(""), |p| pair::<$l, $r>(p));
            ctx.add("pairs_of_trees", ps.len() as u64);
        })*};
    }
    pairs!(go);
    ctx.add("queries", QUERIES.load(Relaxed));
    std_notes(ctx);
    ctx.note(
        "key_types",
        "string: an owned text as an unsized text; held: a boxed key as its contents; record: a record as the field that decides about equality \
         and extent; slice: a vector as a slice, with bounds that over-approximate; \
         prefix: the first numbers of one buffer, so that all keys start at the same address",
    );
    ctx.note("assume3", "borrowed forms whose equality or bounds differ from the owned key are out of scope");
}

fn one(c: &Case, _: Tier) -> Res {
    if !c.get("G").is_empty() {
        macro_rules! go {
            ($(($l:ty, $r:ty)),*) => {$(
                if c.get("V") == <$l as Variant>::NAME && c.get("W") == <$r as Variant>::NAME {
                    return pair::<$l, $r>(&Pair::parse(c));
                }
            )*};
        }
        pairs!(go);
        panic!("unknown pair");
    }
    pick!(c.get("V"); [StrV, HeldV, RecV, NumV, ShareV]; V => replay::<V>(c, &check::<V>))
}

fn main() {
    rtree_mc::main_for("C22", "model_checking", run, one)
}
