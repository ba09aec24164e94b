//! Bounds, keys, values, filters, metrics that register their creation, use
//! and end, and that can panic in any of their callbacks.

use crate::calloc::untracked;
use crate::engine::{Fail, Injected, Res};
use crate::model::*;
use crate::variants::{sb, Bi2, Variant};
use noisy_float::types::N64;
use rusty_rtree::{
    bounds::{Bounded, Bounds, Volume, SAABB},
    contains::Contains,
    filter::{JoinFilter, SpatialFilter},
    intersects::Intersects,
    ranking::Ranking,
    RTree, RTreeConfig,
};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::Debug;

pub const B: usize = 0;
pub const K: usize = 1;
pub const V: usize = 2;
/// filters, rankings and metrics
pub const X: usize = 3;
const KINDS: [&str; 4] = ["a bounds object", "a key", "a value", "a filter, ranking or metric"];

const MAGIC: u64 = 0x7AC3_0000_0000_0000;

#[derive(Default)]
pub struct World {
    /// kind of each object, or 255 once it has been dropped
    objs: RefCell<Vec<u8>>,
    live: [Cell<i64>; 4],
    shown: [Cell<usize>; 4],
    bad: RefCell<Option<String>>,
    calls: Cell<u64>,
    fuse: Cell<u64>,
    /// whether destructors are callbacks, too
    pub drops: Cell<bool>,
    /// whether answers are taken from the script of lies
    lying: Cell<bool>,
    lies: RefCell<Lies>,
    /// what happens within a callback, and within which: 0 for all of them
    hook: Cell<Option<(*mut (dyn FnMut() + 'static), u64)>>,
    /// what each callback was, when they are recorded
    trace: RefCell<Option<Vec<&'static str>>>,
}

/// Kinds of answers that user code gives.
pub const EQ: usize = 0;
pub const CONTAINS: usize = 1;
pub const BOX: usize = 2;
pub const UNION: usize = 3;
pub const VOLUME: usize = 4;
pub const TEST: usize = 5;
pub const METRIC: usize = 6;
pub const CMP: usize = 7;
/// How many wrong answers of each kind there are.
pub const ALTS: [u8; 8] = [1, 1, 2, 2, 4, 1, 2, 2];

/// Wrong answers. An answer has the number 0 if it is right. For tests and
/// comparisons of keys, 1 is the opposite, 2 is yes and 3 is no; 9 stands for
/// the right answer and 1 by turns.
#[derive(Default)]
pub struct Lies {
    /// for each kind of answer, what is answered to all calls
    pub policy: [u8; 8],
    /// single calls that are answered otherwise
    pub at: Vec<(u32, u8)>,
    /// the kinds of the calls so far
    pub calls: Vec<u8>,
}

thread_local! {
    static WORLD: World = World::default();
}

pub fn world<R>(f: impl FnOnce(&World) -> R) -> R {
    WORLD.with(f)
}

impl World {
    pub fn reset(&self) {
        untracked(|| {
            self.objs.borrow_mut().clear();
            self.objs.borrow_mut().reserve(1 << 14);
            *self.bad.borrow_mut() = None;
            *self.trace.borrow_mut() = None;
            self.live.iter().for_each(|c| c.set(0));
            self.calls.set(0);
            self.fuse.set(0);
            self.drops.set(false);
            self.lying.set(false);
            self.hook.set(None);
        })
    }
    fn born(&self, kind: usize) -> u64 {
        let i = untracked(|| {
            let mut o = self.objs.borrow_mut();
            o.push(kind as u8);
            o.len() - 1
        });
        self.live[kind].set(self.live[kind].get() + 1);
        MAGIC | (kind as u64) << 32 | i as u64
    }
    fn complain(&self, msg: impl FnOnce() -> String) {
        untracked(|| {
            let mut b = self.bad.borrow_mut();
            if b.is_none() {
                *b = Some(msg());
            }
        })
    }
    fn state(&self, kind: usize, id: u64) -> Result<usize, &'static str> {
        if id >> 32 << 32 != MAGIC | (kind as u64) << 32 {
            return Err("that is not an object");
        }
        let i = (id & 0xffff_ffff) as usize;
        match self.objs.borrow().get(i) {
            Some(&k) if k as usize == kind => Ok(i),
            Some(255) => Err("that has been dropped"),
            _ => Err("that is not an object"),
        }
    }
    fn touch(&self, kind: usize, id: u64, how: &str) -> bool {
        match self.state(kind, id) {
            Ok(_) => true,
            Err(e) => {
                self.complain(|| format!("{} {e} was used: {how}", KINDS[kind]));
                false
            }
        }
    }
    fn gone(&self, kind: usize, id: u64) -> bool {
        match self.state(kind, id) {
            Ok(i) => {
                self.objs.borrow_mut()[i] = 255;
                self.live[kind].set(self.live[kind].get() - 1);
                true
            }
            Err(e) => {
                self.complain(|| format!("{} {e} was dropped", KINDS[kind]));
                false
            }
        }
    }
    /// Objects without a size are only counted.
    pub fn zborn(&self, kind: usize) {
        self.live[kind].set(self.live[kind].get() + 1);
    }
    pub fn zgone(&self, kind: usize) {
        let n = self.live[kind].get() - 1;
        self.live[kind].set(n);
        if n < 0 {
            self.complain(|| format!("{} without a size was dropped more often than created", KINDS[kind]));
        }
    }
    pub fn zshow(&self, kind: usize) {
        self.shown[kind].set(self.shown[kind].get() + 1);
    }
    pub fn live(&self) -> [i64; 4] {
        std::array::from_fn(|i| self.live[i].get())
    }
    pub fn created(&self) -> usize {
        self.objs.borrow().len()
    }
    pub fn bad(&self) -> Option<String> {
        self.bad.borrow().clone()
    }
    pub fn check(&self) -> Res {
        match self.bad() {
            Some(m) => Err(Fail::Violation(m)),
            None => Ok(()),
        }
    }
    /// From now on the `n`-th callback panics; 0 for none.
    pub fn arm(&self, n: u64) {
        self.calls.set(0);
        self.fuse.set(n);
    }
    pub fn calls(&self) -> u64 {
        self.calls.get()
    }
    pub fn record(&self) {
        untracked(|| *self.trace.borrow_mut() = Some(vec![]));
    }
    pub fn recorded(&self) -> Vec<&'static str> {
        untracked(|| self.trace.borrow_mut().take().unwrap_or_default())
    }
    fn tick(&self, what: &'static str) {
        let n = self.calls.get() + 1;
        self.calls.set(n);
        if self.trace.borrow().is_some() {
            untracked(|| {
                if let Some(t) = self.trace.borrow_mut().as_mut() {
                    t.push(what)
                }
            });
        }
        if n == self.fuse.get() {
            self.fuse.set(0);
            std::panic::resume_unwind(Box::new(Injected));
        }
        if let Some((f, at)) = self.hook.get() {
            if at == 0 || at == n {
                // callbacks within the callback are left alone
                self.hook.set(None);
                // the closure outlives the call of `within`
                unsafe { (*f)() };
                if at == 0 {
                    self.hook.set(Some((f, at)));
                }
            }
        }
    }
    /// Runs `body`; within its `at`-th callback (all of them if 0) `hook` is run.
    pub fn within<R>(&self, at: u64, hook: &mut dyn FnMut(), body: impl FnOnce() -> R) -> R {
        struct Off<'a>(&'a World);
        impl Drop for Off<'_> {
            fn drop(&mut self) {
                self.0.hook.set(None);
            }
        }
        let off = Off(self);
        self.calls.set(0);
        let f: *mut (dyn FnMut() + '_) = hook;
        self.hook.set(Some((unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(f) }, at)));
        let r = body();
        drop(off);
        r
    }
    pub fn lie(&self, policy: [u8; 8], at: &[(u32, u8)]) {
        untracked(|| *self.lies.borrow_mut() = Lies { policy, at: at.to_vec(), calls: vec![] });
        self.lying.set(true);
    }
    /// Whether lies are told from now on; they can be suspended.
    pub fn lying(&self, on: bool) {
        self.lying.set(on);
    }
    /// The kinds of the answers that were given.
    pub fn answers(&self) -> Vec<u8> {
        untracked(|| self.lies.borrow().calls.clone())
    }
    fn code(&self, kind: usize) -> u8 {
        if !self.lying.get() {
            return 0;
        }
        untracked(|| {
            let mut l = self.lies.borrow_mut();
            let n = l.calls.len() as u32;
            l.calls.push(kind as u8);
            if let Some(x) = l.at.iter().find(|x| x.0 == n) {
                return x.1;
            }
            match l.policy[kind] {
                9 => (n & 1) as u8,
                c => c,
            }
        })
    }
    fn yes(&self, kind: usize, right: bool) -> bool {
        match self.code(kind) {
            0 => right,
            1 => !right,
            2 => true,
            _ => false,
        }
    }
    fn area(&self, kind: usize, right: SAABB<i32, 2>) -> SAABB<i32, 2> {
        match self.code(kind) {
            0 => right,
            1 => SAABB::empty(),
            _ => SAABB { min: rusty_rtree::vector::SVec([100; 2]), max: rusty_rtree::vector::SVec([101, 100]) },
        }
    }
    fn metric(&self, right: Option<u32>) -> Option<u32> {
        match self.code(METRIC) {
            0 => right,
            1 => Some(0),
            2 => Some(1000),
            _ => None,
        }
    }
    /// How many objects of each kind the debug output of a value shows.
    pub fn shown(&self, t: &impl Debug) -> [usize; 4] {
        untracked(|| {
            self.shown.iter().for_each(|c| c.set(0));
            let _ = format!("{t:?}");
            std::array::from_fn(|i| self.shown[i].get())
        })
    }
}

/// Payloads that give the objects different sizes and alignments.
pub trait Pad: Clone + Default + 'static {}
impl Pad for () {}
impl Pad for u8 {}
#[derive(Clone, Default)]
#[repr(align(128))]
pub struct Aligned(pub u8);
impl Pad for Aligned {}
#[derive(Clone)]
pub struct Big(pub [u64; 40]);
impl Default for Big {
    fn default() -> Big {
        Big([7; 40])
    }
}
impl Pad for Big {}

/// The part that all tracked objects have: an identity and a heap block.
pub struct Core<const KIND: usize> {
    id: u64,
    heap: Box<u64>,
}
impl<const KIND: usize> Core<KIND> {
    fn new() -> Self {
        let id = world(|w| w.born(KIND));
        Core { id, heap: Box::new(id) }
    }
    fn touch(&self, how: &str) {
        if world(|w| w.touch(KIND, self.id, how)) && *self.heap != self.id {
            world(|w| w.complain(|| format!("the heap block of {} was overwritten or freed: {how}", KINDS[KIND])));
        }
    }
}
impl<const KIND: usize> Drop for Core<KIND> {
    fn drop(&mut self) {
        if !world(|w| w.gone(KIND, self.id)) {
            // its heap block must not be freed again
            std::mem::forget(std::mem::replace(&mut self.heap, Box::new(0)));
        } else if KIND != X && world(|w| w.drops.get()) && !std::thread::panicking() {
            world(|w| w.tick(["bounds drop", "key drop", "value drop", ""][KIND]));
        }
    }
}

// ---------------------------------------------------------------- bounds

pub struct TB<P: Pad> {
    core: Core<B>,
    pub b: SAABB<i32, 2>,
    _pad: P,
}
impl<P: Pad> TB<P> {
    pub fn of(b: SAABB<i32, 2>) -> Self {
        TB { core: Core::new(), b, _pad: P::default() }
    }
}
impl<P: Pad> Clone for TB<P> {
    fn clone(&self) -> Self {
        self.core.touch("clone");
        world(|w| w.tick("bounds clone"));
        TB::of(self.b)
    }
}
impl<P: Pad> Debug for TB<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.core.touch("debug");
        world(|w| w.shown[B].set(w.shown[B].get() + 1));
        write!(f, "{:?}", self.b)
    }
}
impl<P: Pad> Contains<TB<P>> for TB<P> {
    fn contains(&self, o: &TB<P>) -> bool {
        self.core.touch("contains");
        o.core.touch("contains");
        world(|w| w.tick("contains"));
        world(|w| w.yes(CONTAINS, self.b.contains(&o.b)))
    }
}
impl<P: Pad> Intersects<TB<P>> for TB<P> {
    fn intersects(&self, o: &TB<P>) -> bool {
        self.core.touch("intersects");
        o.core.touch("intersects");
        world(|w| w.tick("intersects"));
        self.b.intersects(&o.b)
    }
}
impl<P: Pad> Bounds for TB<P> {
    fn empty() -> Self {
        world(|w| w.tick("empty"));
        TB::of(SAABB::empty())
    }
    fn union(l: &Self, r: &Self) -> Self {
        l.core.touch("union");
        r.core.touch("union");
        world(|w| w.tick("union"));
        TB::of(world(|w| w.area(UNION, SAABB::union(&l.b, &r.b))))
    }
    fn union_all(bounds: impl IntoIterator<Item = Self>) -> Self {
        world(|w| w.tick("union_all"));
        let mut r = TB::of(SAABB::empty());
        for b in bounds {
            b.core.touch("union_all");
            world(|w| w.tick("union_all step"));
            r = TB::of(SAABB::union(&r.b, &b.b));
        }
        let b = world(|w| w.area(UNION, r.b));
        r.b = b;
        r
    }
}
impl<P: Pad> Volume for TB<P> {
    fn volume(&self) -> N64 {
        self.core.touch("volume");
        world(|w| w.tick("volume"));
        match world(|w| w.code(VOLUME)) {
            0 => self.b.volume(),
            1 => noisy_float::types::n64(0.0),
            2 => noisy_float::types::n64(f64::MAX),
            3 => noisy_float::types::n64(-1.0),
            // differences between infinities are no numbers
            _ => noisy_float::types::n64(f64::INFINITY),
        }
    }
}

// ---------------------------------------------------------------- keys

pub struct TK<P: Pad> {
    core: Core<K>,
    pub k: u8,
    b: SAABB<i32, 2>,
    _pad: P,
}
impl<P: Pad> TK<P> {
    pub fn new(k: u8, b: SAABB<i32, 2>) -> Self {
        TK { core: Core::new(), k, b, _pad: P::default() }
    }
    pub fn look(&self) -> u8 {
        self.core.touch("looked at");
        self.k
    }
}
impl<P: Pad> Clone for TK<P> {
    fn clone(&self) -> Self {
        self.core.touch("clone");
        world(|w| w.tick("key clone"));
        TK { core: Core::new(), k: self.k, b: self.b, _pad: P::default() }
    }
}
impl<P: Pad> PartialEq for TK<P> {
    fn eq(&self, o: &Self) -> bool {
        self.core.touch("eq");
        o.core.touch("eq");
        world(|w| w.tick("key comparison"));
        world(|w| w.yes(EQ, self.k == o.k))
    }
}
impl<P: Pad> Eq for TK<P> {}
impl<P: Pad> Bounded<TB<P>> for TK<P> {
    fn bounds(&self) -> TB<P> {
        self.core.touch("bounds");
        world(|w| w.tick("key bounds"));
        TB::of(world(|w| w.area(BOX, self.b)))
    }
}
impl<P: Pad> Debug for TK<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.core.touch("debug");
        world(|w| w.shown[K].set(w.shown[K].get() + 1));
        write!(f, "#{}", self.k)
    }
}

// ---------------------------------------------------------------- values

pub struct TV<P: Pad> {
    core: Core<V>,
    pub v: u32,
    _pad: P,
}
impl<P: Pad> TV<P> {
    pub fn new(v: u32) -> Self {
        TV { core: Core::new(), v, _pad: P::default() }
    }
    pub fn look(&self) -> u32 {
        self.core.touch("looked at");
        self.v
    }
}
impl<P: Pad> Clone for TV<P> {
    fn clone(&self) -> Self {
        self.core.touch("clone");
        world(|w| w.tick("value clone"));
        TV::new(self.v)
    }
}
impl<P: Pad> Debug for TV<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.core.touch("debug");
        world(|w| w.shown[V].set(w.shown[V].get() + 1));
        write!(f, "{}", self.v)
    }
}

// ---------------------------------------------------------------- filters

/// A filter for keys of a set, a ranking by key number, and a join filter for
/// pairs whose sum is not a multiple of three; an owned object.
pub struct TF {
    core: Core<X>,
    pub mask: u64,
    pub keys: std::rc::Rc<Vec<SAABB<i32, 2>>>,
}
impl TF {
    pub fn new(mask: u64, keys: &std::rc::Rc<Vec<SAABB<i32, 2>>>) -> Self {
        TF { core: Core::new(), mask, keys: keys.clone() }
    }
    fn may(&self, b: &SAABB<i32, 2>) -> bool {
        self.keys.iter().enumerate().any(|(i, k)| self.mask >> i & 1 == 1 && b.contains(k))
    }
}
impl Clone for TF {
    fn clone(&self) -> Self {
        self.core.touch("clone");
        world(|w| w.tick("filter clone"));
        TF { core: Core::new(), mask: self.mask, keys: self.keys.clone() }
    }
}
impl<P: Pad> SpatialFilter<TB<P>, TK<P>> for TF {
    fn test_bounds(&self, b: &TB<P>) -> bool {
        self.core.touch("filter bounds");
        b.core.touch("filter bounds");
        world(|w| w.tick("filter bounds"));
        world(|w| w.yes(TEST, self.may(&b.b)))
    }
    fn test_key(&self, k: &TK<P>) -> bool {
        self.core.touch("filter key");
        world(|w| w.tick("filter key"));
        world(|w| w.yes(TEST, self.mask >> k.look() & 1 == 1))
    }
}
impl<P: Pad> JoinFilter<TB<P>, TB<P>, TK<P>, TK<P>> for TF {
    fn test_bounds(&self, l: &TB<P>, r: &TB<P>) -> bool {
        self.core.touch("join bounds");
        l.core.touch("join bounds");
        r.core.touch("join bounds");
        world(|w| w.tick("join bounds"));
        world(|w| w.yes(TEST, self.may(&l.b) && self.may(&r.b)))
    }
    fn test_key(&self, l: &TK<P>, r: &TK<P>) -> bool {
        self.core.touch("join key");
        world(|w| w.tick("join key"));
        let (a, b) = (l.look(), r.look());
        world(|w| w.yes(TEST, self.mask >> a & 1 == 1 && self.mask >> b & 1 == 1 && (a + b) % 3 != 0))
    }
}

pub struct TM {
    core: Core<X>,
    pub m: u32,
}
impl TM {
    fn new(m: u32) -> TM {
        TM { core: Core::new(), m }
    }
}
impl PartialEq for TM {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for TM {}
impl PartialOrd for TM {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TM {
    fn cmp(&self, o: &Self) -> Ordering {
        self.core.touch("metric comparison");
        o.core.touch("metric comparison");
        world(|w| w.tick("metric comparison"));
        match world(|w| w.code(CMP)) {
            0 => self.m.cmp(&o.m),
            1 => self.m.cmp(&o.m).reverse(),
            2 => Ordering::Equal,
            _ => Ordering::Less,
        }
    }
}

impl TF {
    fn rank(&self, k: usize) -> u32 {
        (k as u32 * 2 + 1) % 5
    }
    fn rank_box(&self, b: &SAABB<i32, 2>) -> Option<u32> {
        self.keys
            .iter()
            .enumerate()
            .filter(|(i, k)| self.mask >> i & 1 == 1 && b.contains(*k))
            .map(|(i, _)| self.rank(i))
            .min()
    }
}

/// ranks all keys of the set
pub struct TR(pub TF);
impl<P: Pad> Ranking<TB<P>, TK<P>> for TR {
    type Metric = TM;
    fn bounds_min(&self, b: &TB<P>) -> TM {
        self.0.core.touch("bounds metric");
        b.core.touch("bounds metric");
        world(|w| w.tick("bounds metric"));
        TM::new(world(|w| w.metric(self.0.rank_box(&b.b))).unwrap_or(1000))
    }
    fn rank_key(&self, k: &TK<P>) -> TM {
        self.0.core.touch("key metric");
        world(|w| w.tick("key metric"));
        TM::new(world(|w| w.metric(Some(self.0.rank(k.look() as usize)))).unwrap_or(1000))
    }
}
/// the same with keys that have no rank
pub struct TO(pub TF);
impl<P: Pad> Ranking<TB<P>, TK<P>> for TO {
    type Metric = Option<TM>;
    fn bounds_min(&self, b: &TB<P>) -> Option<TM> {
        self.0.core.touch("bounds metric");
        b.core.touch("bounds metric");
        world(|w| w.tick("bounds metric"));
        world(|w| w.metric(self.0.rank_box(&b.b))).map(TM::new)
    }
    fn rank_key(&self, k: &TK<P>) -> Option<TM> {
        self.0.core.touch("key metric");
        world(|w| w.tick("key metric"));
        let k = k.look() as usize;
        world(|w| w.metric((self.0.mask >> k & 1 == 1).then(|| self.0.rank(k)))).map(TM::new)
    }
}

// ---------------------------------------------------------------- trees

pub type TTree<P> = RTree<TB<P>, TK<P>, TV<P>>;

pub struct TRun<P: Pad> {
    pub keys: std::rc::Rc<Vec<SAABB<i32, 2>>>,
    pub tree: TTree<P>,
    pub model: Vec<(u8, u32)>,
    pub stamp: u32,
}

pub fn tkeys(alpha: &str) -> Vec<SAABB<i32, 2>> {
    Bi2::prep(alphabet(alpha, 2)).iter().map(sb).collect()
}

impl<P: Pad> TRun<P> {
    pub fn new(keys: &[SAABB<i32, 2>], cfg: Cfg) -> Self {
        TRun {
            keys: std::rc::Rc::new(keys.to_vec()),
            tree: RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 }),
            model: vec![],
            stamp: 0,
        }
    }
    pub fn key(&self, k: u8) -> TK<P> {
        TK::new(k, self.keys[k as usize])
    }
    pub fn filter(&self, mask: u64) -> TF {
        TF::new(mask, &self.keys)
    }
    /// Applies an operation; the model follows. Returns false if the results
    /// contradict the model.
    pub fn apply(&mut self, op: Op) -> Res {
        match op {
            Op::Ins(k) => {
                self.stamp += 1;
                self.tree.insert(self.key(k), TV::new(self.stamp));
                self.model.push((k, self.stamp));
            }
            Op::Uni(k) => {
                self.stamp += 1;
                let r = self.tree.insert_unique(self.key(k), TV::new(self.stamp));
                match r {
                    None => self.model.push((k, self.stamp)),
                    Some(old) => {
                        let old = old.look();
                        match self.model.iter().position(|e| *e == (k, old)) {
                            Some(i) => self.model[i].1 = self.stamp,
                            None => return Err(Fail::Violation(format!("unique insert of key {k} returned the value {old}"))),
                        }
                    }
                }
            }
            Op::Rem(k) => {
                let q = self.key(k);
                if let Some(v) = self.tree.remove::<TK<P>>(&q) {
                    let v = v.look();
                    match self.model.iter().position(|e| *e == (k, v)) {
                        Some(i) => {
                            self.model.swap_remove(i);
                        }
                        None => return Err(Fail::Violation(format!("removal of key {k} returned the value {v}"))),
                    }
                }
            }
            Op::Clo => {
                let c = self.tree.clone();
                self.tree = c;
            }
            Op::Mut => {
                for (k, v) in self.tree.iter_mut() {
                    k.look();
                    let old = v.look();
                    self.stamp += 1;
                    *v = TV::new(self.stamp);
                    if let Some(e) = self.model.iter_mut().find(|e| e.1 == old) {
                        e.1 = self.stamp;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn build(keys: &[SAABB<i32, 2>], cfg: Cfg, h: &[Op]) -> Res<Self> {
        let mut r = TRun::new(keys, cfg);
        for &op in h {
            r.apply(op)?;
        }
        Ok(r)
    }
    /// Exactly the objects that the tree shows are alive, besides `extra`.
    pub fn check_live(&self, extra: [i64; 4], what: &str) -> Res {
        world(|w| {
            w.check().map_err(|e| at(e, what))?;
            if cfg!(miri) {
                // the interpreter is slow, and does not need the counts
                return Ok(());
            }
            let shown = w.shown(&self.tree);
            let live = w.live();
            for k in [B, K, V, X] {
                if live[k] != shown[k] as i64 + extra[k] {
                    return Err(Fail::Violation(format!(
                        "{what}: {} objects of the kind '{}' are alive, but the tree shows {} and {} are elsewhere",
                        live[k], KINDS[k], shown[k], extra[k]
                    )));
                }
            }
            if shown[K] != self.model.len() || shown[V] != self.model.len() {
                return Err(Fail::Violation(format!("{what}: the tree shows {} keys and {} values for {} entries", shown[K], shown[V], self.model.len())));
            }
            w.check().map_err(|e| at(e, what))
        })
    }
}

pub fn at(e: Fail, what: &str) -> Fail {
    match e {
        Fail::Violation(m) => Fail::Violation(format!("{what}: {m}")),
        e => e,
    }
}
