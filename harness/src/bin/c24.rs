//! C24: trees on several threads.
//!
//! Which instances of the types can be sent and shared is enumerated over all
//! combinations of contents that can and cannot. What happens when trees are
//! used on several threads is enumerated as schedules: every callback of a
//! query (filter, ranking, key comparison, bounds predicates) and every item
//! is a point at which another thread can go on.
use noisy_float::types::N64;
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::{JoinFilter, JoiningFilter, SpatialFilter};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::Cell;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static SCHEDULES: AtomicU64 = AtomicU64::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static SEGMENTS: AtomicU64 = AtomicU64::new(0);
static PROBES: AtomicU64 = AtomicU64::new(0);

// ------------------------------------------------------------ auto traits

/// Contents that can be sent (bit 0 of `F`) and shared (bit 1 of `F`).
#[derive(Clone, Debug, PartialEq, Eq)]
struct Fl<const F: u8>(PhantomData<*const ()>);
unsafe impl Send for Fl<1> {}
unsafe impl Send for Fl<3> {}
unsafe impl Sync for Fl<2> {}
unsafe impl Sync for Fl<3> {}

impl<const F: u8> Fl<F> {
    fn new() -> Self {
        Fl(PhantomData)
    }
}
impl<const F: u8> Contains<Fl<F>> for Fl<F> {
    fn contains(&self, _: &Fl<F>) -> bool {
        true
    }
}
impl<const F: u8> Intersects<Fl<F>> for Fl<F> {
    fn intersects(&self, _: &Fl<F>) -> bool {
        true
    }
}
impl<const F: u8> Bounds for Fl<F> {
    fn empty() -> Self {
        Fl::new()
    }
    fn union(_: &Self, _: &Self) -> Self {
        Fl::new()
    }
    fn union_all(_: impl IntoIterator<Item = Self>) -> Self {
        Fl::new()
    }
}
impl<const F: u8> Volume for Fl<F> {
    fn volume(&self) -> N64 {
        noisy_float::types::n64(0.0)
    }
}
impl<const F: u8, const G: u8> Bounded<Fl<G>> for Fl<F> {
    fn bounds(&self) -> Fl<G> {
        Fl::new()
    }
}
#[derive(Clone, Copy)]
struct Any;
impl<B, K> SpatialFilter<B, K> for Any {
    fn test_bounds(&self, _: &B) -> bool {
        true
    }
    fn test_key(&self, _: &K) -> bool {
        true
    }
}
impl<A, B, K, L> JoinFilter<A, B, K, L> for Any {
    fn test_bounds(&self, _: &A, _: &B) -> bool {
        true
    }
    fn test_key(&self, _: &K, _: &L) -> bool {
        true
    }
}
struct Same;
impl<B, K> Ranking<B, K> for Same {
    type Metric = u8;
    fn bounds_min(&self, _: &B) -> u8 {
        0
    }
    fn rank_key(&self, _: &K) -> u8 {
        0
    }
}
struct OSame;
impl<B, K> Ranking<B, K> for OSame {
    type Metric = Option<u8>;
    fn bounds_min(&self, _: &B) -> Option<u8> {
        Some(0)
    }
    fn rank_key(&self, _: &K) -> Option<u8> {
        Some(0)
    }
}

// whether a type has a trait, without requiring that it has
struct Probe<T>(PhantomData<T>);
fn probe<T>(_: &T) -> Probe<T> {
    Probe(PhantomData)
}
trait Yes1 {
    fn send(&self) -> bool;
}
impl<T: Send> Yes1 for Probe<T> {
    fn send(&self) -> bool {
        true
    }
}
trait No1 {
    fn send(&self) -> bool;
}
impl<T> No1 for &Probe<T> {
    fn send(&self) -> bool {
        false
    }
}
trait Yes2 {
    fn sync(&self) -> bool;
}
impl<T: Sync> Yes2 for Probe<T> {
    fn sync(&self) -> bool {
        true
    }
}
trait No2 {
    fn sync(&self) -> bool;
}
impl<T> No2 for &Probe<T> {
    fn sync(&self) -> bool {
        false
    }
}
macro_rules! both {
    ($x:expr) => {{
        let x = $x;
        let p = probe(&x);
        PROBES.fetch_add(2, Relaxed);
        ((&p).send(), (&p).sync())
    }};
}

/// What was found out about one combination of contents.
struct Found {
    f: [u8; 3],
    what: &'static str,
    /// a tree, an iterator over shared or exclusive entries, a left join
    kind: char,
    got: (bool, bool),
}

macro_rules! combo {
    ($out:ident, $b:literal, $k:literal, $v:literal) => {{
        let mut t: RTree<Fl<$b>, Fl<$k>, Fl<$v>> = RTree::new(RTreeConfig { max_children: 4, min_children: 2 });
        // two entries, so that the iterators are not degenerate
        t.insert(Fl::new(), Fl::new());
        t.insert(Fl::new(), Fl::new());
        let o: RTree<Fl<3>, Fl<3>, Fl<3>> = RTree::new(RTreeConfig { max_children: 4, min_children: 2 });
        let f = [$b, $k, $v];
        let mut put = |what, kind, got| $out.push(Found { f, what, kind, got });
        put("RTree", 't', both!(t.clone()));
        put("iter", 'r', both!(t.iter()));
        put("into_iter", 'r', both!((&t).into_iter()));
        put("filter_iter", 'r', both!(t.filter_iter::<Fl<$k>, _>(Any)));
        put("iter_asc_by", 'r', both!(t.iter_asc_by(Same)));
        put("filter_iter_asc_by", 'r', both!(t.filter_iter_asc_by(OSame)));
        put("join on the left", 'r', both!(t.join::<_, _, _, Fl<$k>, Fl<3>, _>(&o, Any)));
        put("join on the right", 'r', both!(o.join::<_, _, _, Fl<3>, Fl<$k>, _>(&t, Any)));
        put("left_join on the left", 'l', both!(t.left_join::<_, _, _, Fl<$k>, Fl<3>, _>(&o, Any)));
        put("left_join on the right", 'l', both!(o.left_join::<_, _, _, Fl<3>, Fl<$k>, _>(&t, Any)));
        let mut j = t.left_join::<_, _, _, Fl<$k>, Fl<$k>, _>(&t, Any);
        if let Some((_, inner)) = j.next() {
            put("an inner iterator of a left_join", 'l', both!(inner));
        }
        drop(j);
        put("iter_mut", 'm', both!(t.iter_mut()));
        put("mutable into_iter", 'm', both!((&mut t).into_iter()));
        put("filter_iter_mut", 'm', both!(t.filter_iter_mut::<Fl<$k>, _>(Any)));
        put("iter_asc_by_mut", 'm', both!(t.iter_asc_by_mut(Same)));
        put("filter_iter_asc_by_mut", 'm', both!(t.filter_iter_asc_by_mut(OSame)));
    }};
}
macro_rules! combos {
    ($out:ident) => { combos!(@b $out; 0 1 2 3) };
    (@b $out:ident; $($b:literal)*) => { $( combos!(@k $out $b; 0 1 2 3); )* };
    (@k $out:ident $b:literal; $($k:literal)*) => { $( combos!(@v $out $b $k; 0 1 2 3); )* };
    (@v $out:ident $b:literal $k:literal; $($v:literal)*) => { $( combo!($out, $b, $k, $v); )* };
}

fn probes() -> Vec<Found> {
    let mut out = vec![];
    combos!(out);
    out
}

fn judge(x: &Found) -> Res {
    let send = |i: usize| x.f[i] & 1 == 1;
    let sync = |i: usize| x.f[i] & 2 == 2;
    let what = |i: usize| match x.f[i] {
        0 => "neither be sent nor shared",
        1 => "be sent, but not shared",
        2 => "be shared, but not sent",
        _ => "be sent and shared",
    };
    let ctx = format!(
        "{} over bounds that can {}, keys that can {} and values that can {}",
        x.what,
        what(0),
        what(1),
        what(2)
    );
    let all = |p: &dyn Fn(usize) -> bool| (0..3).all(p);
    match x.kind {
        't' => {
            ensure!(x.got.0 == all(&send), "{ctx}: Send is {}", x.got.0);
            ensure!(x.got.1 == all(&sync), "{ctx}: Sync is {}", x.got.1);
        }
        'r' => {
            ensure!(!x.got.0 || all(&sync), "{ctx}: the iterator can be sent, and with it references to what cannot be shared");
            ensure!(!x.got.1 || all(&sync), "{ctx}: the iterator can be shared, and with it references to what cannot be shared");
        }
        'm' => {
            ensure!(
                !x.got.0 || (send(2) && (send(0) || sync(0)) && (send(1) || sync(1))),
                "{ctx}: the iterator can be sent, and with it mutable references to what cannot be sent"
            );
            ensure!(!x.got.1 || all(&sync), "{ctx}: the iterator can be shared, and with it references to what cannot be shared");
        }
        _ => {
            ensure!(!x.got.0 && !x.got.1, "{ctx}: can be sent or shared, although its buffer is shared without synchronisation");
        }
    }
    if x.kind != 'l' && x.f == [3, 3, 3] {
        ensure!(x.got == (true, true), "{ctx}: Send is {}, Sync is {}", x.got.0, x.got.1);
    }
    Ok(())
}

// -------------------------------------------------------------- scheduler

/// The holder of the turn runs; at each step it passes the turn on as the word
/// says. The state is one relaxed atomic, so that passing the turn does not
/// order the memory accesses of the threads for a race detector.
struct Sched {
    word: Vec<u8>,
    n: usize,
    /// position in the word << 16 | finished threads << 8 | thread to run
    st: AtomicU64,
}

impl Sched {
    fn new(word: Vec<u8>, n: usize) -> Sched {
        let first = word.first().copied().unwrap_or(0) as u64;
        Sched { word, n, st: AtomicU64::new(first) }
    }
    fn wait(&self, me: usize) {
        let mut spins = 0u32;
        while self.st.load(Relaxed) & 0xff != me as u64 {
            spins += 1;
            if cfg!(miri) || spins > 200 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
    fn pass(&self, me: usize, finished: bool) {
        let st = self.st.load(Relaxed);
        let mut done = st >> 8 & 0xff;
        if finished {
            done |= 1 << me;
        }
        let mut pos = (st >> 16) as usize + 1;
        while pos < self.word.len() && done >> self.word[pos] & 1 == 1 {
            pos += 1;
        }
        let next = match self.word.get(pos) {
            Some(&t) => t as u64,
            // beyond the word, the threads end one after the other
            None if !finished => me as u64,
            None => (0..self.n as u64).find(|t| done >> t & 1 == 0).unwrap_or(0xff),
        };
        self.st.store((pos as u64) << 16 | done << 8 | next, Relaxed);
        if next != me as u64 {
            SWITCHES.fetch_add(1, Relaxed);
            if !finished {
                self.wait(me);
            }
        }
    }
}

thread_local! {
    static CUR: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static SEGS: Cell<u64> = const { Cell::new(0) };
}

/// A point at which another thread can go on.
fn point() {
    SEGS.with(|s| s.set(s.get() + 1));
    let (s, me) = CUR.with(|c| c.get());
    if !s.is_null() {
        // SAFETY: the scheduler outlives the threads that it schedules.
        unsafe { &*s }.pass(me, false);
    }
}

/// Runs the programs under a schedule.
fn scheduled(word: Vec<u8>, progs: &[Box<dyn Fn() -> Vec<u32> + '_>]) -> Vec<Res<Vec<u32>>> {
    struct Force<T>(T);
    // SAFETY: whether trees can be shared is what is being examined.
    unsafe impl<T> Sync for Force<T> {}
    impl<T> Force<T> {
        fn get(&self) -> &T {
            &self.0
        }
    }
    let sched = Sched::new(word, progs.len());
    SCHEDULES.fetch_add(1, Relaxed);
    let body = |me: usize| {
        sched.wait(me);
        CUR.with(|c| c.set((&sched, me)));
        let r = guarded(|| Ok(progs[me]()));
        CUR.with(|c| c.set((std::ptr::null(), 0)));
        sched.pass(me, true);
        r
    };
    let body = Force(&body);
    if cfg!(feature = "plain") {
        return pthreads::run(progs.len(), body.get());
    }
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..progs.len())
            .map(|me| {
                let body = &body;
                sc.spawn(move || body.get()(me))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::Engine("a thread ended".into())))).collect()
    })
}

/// Threads without the standard library, which race detectors do not see into.
mod pthreads {
    use super::*;
    extern "C" {
        fn pthread_create(t: *mut usize, attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32;
        fn pthread_join(t: usize, ret: *mut *mut u8) -> i32;
    }
    type Body<'a> = &'a dyn Fn(usize) -> Res<Vec<u32>>;
    struct Task<'a> {
        body: Body<'a>,
        me: usize,
        out: Res<Vec<u32>>,
    }
    extern "C" fn start(p: *mut u8) -> *mut u8 {
        // SAFETY: the task is not used elsewhere until the thread was joined.
        let t = unsafe { &mut *(p as *mut Task) };
        t.out = (t.body)(t.me);
        p
    }
    pub fn run(n: usize, body: Body) -> Vec<Res<Vec<u32>>> {
        let mut tasks: Vec<Task> = (0..n).map(|me| Task { body, me, out: Err(Fail::Engine("a thread did not run".into())) }).collect();
        let mut ids = vec![0; n];
        for (t, id) in tasks.iter_mut().zip(&mut ids) {
            let c = unsafe { pthread_create(id, std::ptr::null(), start, t as *mut Task as *mut u8) };
            assert!(c == 0, "pthread_create");
        }
        for id in ids {
            unsafe { pthread_join(id, std::ptr::null_mut()) };
        }
        tasks.into_iter().map(|t| t.out).collect()
    }
}

/// All words with the given numbers of steps and at most `sw` switches.
fn words(n: &[usize], sw: usize, out: &mut Vec<Vec<u8>>, cap: usize) {
    fn rec(left: &mut Vec<usize>, w: &mut Vec<u8>, sw: usize, out: &mut Vec<Vec<u8>>, cap: usize) {
        if out.len() > cap {
            return;
        }
        if left.iter().all(|x| *x == 0) {
            out.push(w.clone());
            return;
        }
        for t in 0..left.len() {
            if left[t] == 0 {
                continue;
            }
            let cost = match w.last() {
                Some(&l) if l as usize != t => 1,
                _ => 0,
            };
            if cost > sw {
                continue;
            }
            left[t] -= 1;
            w.push(t as u8);
            rec(left, w, sw - cost, out, cap);
            w.pop();
            left[t] += 1;
        }
    }
    rec(&mut n.to_vec(), &mut vec![], sw, out, cap);
}

/// The words with as many switches as fit, and that number (`None`: all words).
fn schedules(n: &[usize], cap: usize) -> (Vec<Vec<u8>>, Option<usize>) {
    let total: usize = n.iter().sum();
    let mut best = (vec![], Some(0));
    for sw in n.len() - 1..=total {
        let mut v = vec![];
        words(n, sw, &mut v, cap);
        if v.len() > cap {
            return best;
        }
        let full = sw >= total;
        best = (v, (!full).then_some(sw));
    }
    best
}

// ------------------------------------------------- contents with such points

#[derive(Clone, PartialEq)]
struct YB(Lossy<4>);
impl Debug for YB {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl Contains<YB> for YB {
    fn contains(&self, o: &YB) -> bool {
        point();
        self.0.contains(&o.0)
    }
}
impl Intersects<YB> for YB {
    fn intersects(&self, o: &YB) -> bool {
        point();
        self.0.intersects(&o.0)
    }
}
impl Bounds for YB {
    fn empty() -> YB {
        YB(Bounds::empty())
    }
    fn union(a: &YB, b: &YB) -> YB {
        point();
        YB(Bounds::union(&a.0, &b.0))
    }
    fn union_all(bounds: impl IntoIterator<Item = YB>) -> YB {
        bounds.into_iter().fold(YB(Bounds::empty()), |a, b| YB(Bounds::union(&a.0, &b.0)))
    }
}
impl Volume for YB {
    fn volume(&self) -> N64 {
        self.0.volume()
    }
}
#[derive(Debug)]
struct YK(LKey<4>);
impl Clone for YK {
    fn clone(&self) -> YK {
        point();
        YK(self.0.clone())
    }
}
impl PartialEq for YK {
    fn eq(&self, o: &YK) -> bool {
        point();
        self.0 == o.0
    }
}
impl Eq for YK {}
impl Bounded<YB> for YK {
    fn bounds(&self) -> YB {
        YB(self.0.bounds())
    }
}
struct YV;
impl Variant for YV {
    type B = YB;
    type K = YK;
    const NAME: &'static str = "stepped";
    const D: usize = 2;
    fn key(i: usize, b: &MBox) -> YK {
        YK(LKey { id: i as u8, b: *b })
    }
    fn mbox(b: &YB) -> Option<MBox> {
        LossyV::<4>::mbox(&b.0)
    }
}

/// A filter or ranking that stops at each call. The keys are known by number.
#[derive(Clone)]
struct Y<'a> {
    boxes: &'a [MBox],
    mask: u64,
    ranks: &'a [Option<u32>],
}
impl<'a> Y<'a> {
    fn any(&self, b: &YB, f: impl Fn(usize) -> bool) -> bool {
        YV::mbox(b).map_or(false, |b| self.boxes.iter().enumerate().any(|(i, k)| f(i) && b.contains(k)))
    }
    fn least(&self, b: &YB) -> Option<u32> {
        let b = YV::mbox(b)?;
        self.boxes.iter().zip(self.ranks).filter(|(k, _)| b.contains(k)).filter_map(|x| *x.1).min()
    }
}
impl<'a> SpatialFilter<YB, YK> for Y<'a> {
    fn test_bounds(&self, b: &YB) -> bool {
        point();
        self.any(b, |i| self.mask >> i & 1 == 1)
    }
    fn test_key(&self, k: &YK) -> bool {
        point();
        self.mask >> k.0.id & 1 == 1
    }
}
impl<'a> JoinFilter<YB, YB, YK, YK> for Y<'a> {
    fn test_bounds(&self, a: &YB, b: &YB) -> bool {
        point();
        self.any(a, |_| true) && self.any(b, |_| true)
    }
    fn test_key(&self, a: &YK, b: &YK) -> bool {
        point();
        (a.0.id + b.0.id) % 3 != 1
    }
}
struct YR<'a>(Y<'a>);
impl<'a> Ranking<YB, YK> for YR<'a> {
    type Metric = u32;
    fn bounds_min(&self, b: &YB) -> u32 {
        point();
        self.0.least(b).unwrap_or(NEVER)
    }
    fn rank_key(&self, k: &YK) -> u32 {
        point();
        self.0.ranks[k.0.id as usize].unwrap_or(NEVER)
    }
}
struct YO<'a>(Y<'a>);
impl<'a> Ranking<YB, YK> for YO<'a> {
    type Metric = Option<u32>;
    fn bounds_min(&self, b: &YB) -> Option<u32> {
        point();
        self.0.least(b)
    }
    fn rank_key(&self, k: &YK) -> Option<u32> {
        point();
        self.0.ranks[k.0.id as usize]
    }
}

// ----------------------------------------------------------------- programs

const KINDS: usize = 12;
const KIND_NAMES: [&str; KINDS] = [
    "get", "filter_iter", "iter_asc_by", "filter_iter_asc_by", "join", "left_join", "clone", "iter and len", "min_by and filter_min_by",
    "Debug", "join the other way", "operations on a tree of its own",
];

fn program<'x>(l: &'x Run<YV>, r: &'x Run<YV>, y: &'x Y<'x>, kind: usize, variant: usize) -> Box<dyn Fn() -> Vec<u32> + 'x> {
    fn all<'t>(it: impl Iterator<Item = (&'t YK, &'t u32)>) -> Vec<u32> {
        it.map(|e| {
            point();
            *e.1
        })
        .take(1000)
        .collect()
    }
    let nk = l.alpha.len();
    let y = Y { mask: if variant == 0 { 0b1011_0110_1101 } else { 0b0110_1011_0011 }, ..y.clone() };
    match kind {
        0 => Box::new(move || {
            let k = l.model.get(variant).map_or(0, |e| e.0 as usize);
            let g = |k: usize| l.tree.get(&l.alpha.keys[k]).copied().unwrap_or(u32::MAX);
            vec![g(k), g((k + 1) % nk)]
        }),
        1 => Box::new(move || all(l.tree.filter_iter::<YK, _>(y.clone()))),
        2 => Box::new(move || all(l.tree.iter_asc_by(YR(y.clone())))),
        3 => Box::new(move || all(l.tree.filter_iter_asc_by(YO(y.clone())))),
        4 | 10 => Box::new(move || {
            let (a, b) = if kind == 4 { (l, r) } else { (r, l) };
            let it = a.tree.join::<_, _, _, YK, YK, _>(&b.tree, y.clone());
            it.take(1000).flat_map(|(a, b)| [a.1, b.1]).collect()
        }),
        5 => Box::new(move || {
            let mut v = vec![];
            let mut kept = None;
            for (a, inner) in l.tree.left_join::<_, _, _, YK, YK, _>(&r.tree, y.clone()).take(1000) {
                v.push(*a.1);
                if let Some(k) = kept.replace(inner) {
                    let k: &mut dyn Iterator<Item = (&YK, &u32)> = &mut { k };
                    v.extend(k.map(|b| *b.1));
                }
            }
            if let Some(k) = kept {
                v.extend(k.map(|b| *b.1));
            }
            v
        }),
        6 => Box::new(move || {
            let mut c = l.tree.clone();
            let mut v: Vec<u32> = c.iter().map(|e| *e.1).collect();
            for (_, x) in c.iter_mut() {
                *x += 1000;
            }
            v.extend(c.iter().map(|e| *e.1));
            v
        }),
        7 => Box::new(move || {
            let mut v = vec![l.tree.len() as u32];
            v.extend(all(l.tree.iter()));
            v.push(l.tree.is_empty() as u32);
            v
        }),
        8 => Box::new(move || {
            let a = l.tree.min_by(YR(y.clone())).map_or(u32::MAX, |e| *e.1);
            let b = l.tree.filter_min_by(YO(y.clone())).map_or(u32::MAX, |e| *e.1);
            vec![a, b]
        }),
        9 => Box::new(move || {
            let s = format!("{:?}", l.tree);
            let k = l.model.first().map(|e| &l.alpha.keys[e.0 as usize]);
            let mut v: Vec<u32> = s.bytes().map(|b| b as u32).collect();
            if let Some(k) = k {
                v.extend(all(r.tree.filter_iter::<YK, _>(JoiningFilter::<YB, YK, _>::new(k, y.clone()))));
            }
            v
        }),
        _ => Box::new(move || {
            let mut t = new_tree::<YV>(l.cfg);
            let mut v = vec![];
            for i in 0..3 {
                t.insert(YK(l.alpha.keys[(i + variant) % nk].0.clone()), i as u32);
            }
            v.extend(t.insert_unique(YK(l.alpha.keys[variant].0.clone()), 7));
            v.extend(t.remove(&l.alpha.keys[(variant + 1) % nk]));
            v.extend(t.iter().map(|e| *e.1));
            v.extend(format!("{t:?}").bytes().map(|b| b as u32));
            v
        }),
    }
}

/// All schedules of some programs over a pair of trees.
fn shared(p: &Pair, kinds: &[usize], cap: usize) -> Res<Option<usize>> {
    let (al, ar) = (Alpha::<YV>::new(p.al), Alpha::<YV>::new(p.ar));
    let l = Run::<YV>::build(&al, p.l.cfg, &p.l.hist)?;
    let r = Run::<YV>::build(&ar, p.r.cfg, &p.r.hist)?;
    let (dl, dr) = (l.dump()?, r.dump()?);
    let ranks: Vec<Option<u32>> = (0..al.len()).map(|i| (i % 4 != 3).then_some((i as u32 * 5 + 1) % 7)).collect();
    let y = Y { boxes: &al.boxes, mask: 0, ranks: &ranks };
    let progs: Vec<_> = kinds.iter().enumerate().map(|(i, &k)| program(&l, &r, &y, k, i % 2)).collect();
    let mut alone = vec![];
    let mut segs = vec![];
    for p in &progs {
        SEGS.with(|s| s.set(0));
        alone.push(p());
        // the last segment ends with the program
        segs.push(SEGS.with(|s| s.get()) as usize + 1);
    }
    let (ws, sw) = schedules(&segs, cap);
    for w in ws {
        SEGMENTS.fetch_add(w.len() as u64, Relaxed);
        for (i, got) in scheduled(w.clone(), &progs).into_iter().enumerate() {
            let got = got?;
            ensure!(
                got == alone[i],
                "threads running {:?}, schedule {w:?}: thread {i} gets {got:?}, alone it gets {:?}",
                kinds.iter().map(|k| KIND_NAMES[*k]).collect::<Vec<_>>(),
                alone[i]
            );
        }
    }
    let (el, er) = (l.dump()?, r.dump()?);
    ensure!(el.same(&dl) && er.same(&dr), "queries on several threads have changed a tree");
    Ok(sw)
}

// ------------------------------------------------------------------- moves

/// A history whose operations run on two threads in all ways.
fn moved(alpha: &Alpha<YV>, cfg: Cfg, h: &[Op]) -> Res {
    let want = Run::<YV>::build(alpha, cfg, h)?;
    let dw = want.dump()?;
    struct Force<T>(T);
    // SAFETY: whether trees can be sent is what is being examined.
    unsafe impl<T> Send for Force<T> {}
    impl<T> Force<T> {
        fn get(self) -> T {
            self.0
        }
    }
    for w in 0..1u32 << h.len() {
        let r = Force(Run::<YV>::new(alpha, cfg));
        SCHEDULES.fetch_add(1, Relaxed);
        // the stretches of operations on one thread each
        let r = std::thread::scope(|s| -> Res<Force<Run<YV>>> {
            let mut r = r;
            let mut i = 0;
            while i < h.len() {
                let mut j = i + 1;
                while j < h.len() && w >> j & 1 == w >> i & 1 {
                    j += 1;
                }
                let ops = &h[i..j];
                let x = r;
                let step = move || {
                    guarded(|| {
                        let mut r = x.get();
                        for &op in ops {
                            r.apply(op)?;
                        }
                        Ok(Force(r))
                    })
                };
                r = if w >> i & 1 == 0 { step()? } else { s.spawn(step).join().map_err(|_| Fail::Engine("a thread ended".into()))?? };
                i = j;
            }
            Ok(r)
        })?
        .get();
        let d = r.dump()?;
        ensure!(d.same(&dw), "the operations lead to another tree when they run on two threads by turns ({w:#b})");
        r.check_contents()?;
        // dropped on another thread
        let x = Force(r);
        std::thread::scope(|s| s.spawn(move || drop(x.get())).join()).map_err(|_| Fail::Violation("the tree cannot be dropped on another thread".into()))?;
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    for (i, x) in probes().iter().enumerate() {
        ctx.case(0, i as u64, &format!("P={i}"), || judge(x));
    }
    ctx.add("instances_probed", PROBES.load(Relaxed) / 2);
    if ctx.failed() {
        return;
    }
    let small = std::env::var("MC_LITE").is_ok();
    let cap = if small { 10 } else { ctx.qt(400, 4000) };
    // several threads for each case
    let sizes: &[usize] = if small { &[5, 9] } else if ctx.thorough() { &[0, 1, 3, 5, 7, 9, 12] } else { &[1, 3, 6, 9] };
    let cfgs: &[Cfg] = if small { &[(2, 1), (4, 2)] } else { &[(2, 1), (4, 2)] };
    let g = grown::<YV>(ctx, "scat:12", sizes, &["asc"], cfgs);
    let mut items = vec![];
    for (i, s) in g.iter().enumerate() {
        let o = &g[(i * 5 + 2) % g.len()];
        let p = Pair { l: s.clone(), r: o.clone(), al: "scat:12", ar: "scat:12" };
        for a in 0..KINDS {
            for b in a..KINDS {
                items.push((p.clone(), vec![a, b]));
            }
        }
        for t in [[0, 0, 0], [1, 2, 4], [2, 3, 8], [5, 5, 5], [0, 6, 11], [11, 11, 2], [4, 10, 5]] {
            items.push((p.clone(), t.to_vec()));
        }
    }
    let full = AtomicU64::new(0);
    let fewest = AtomicU64::new(u64::MAX);
    ctx.par_cases(
        &items,
        |(p, k)| p.name::<YV, YV>(&format!("T={} N={cap}", k.iter().map(|k| k.to_string()).collect::<Vec<_>>().join("."))),
        |(p, k)| {
            match shared(p, k, cap)? {
                None => full.fetch_add(1, Relaxed),
                Some(n) => fewest.fetch_min(n as u64, Relaxed),
            };
            Ok(())
        },
    );
    ctx.add("sets_of_programs", items.len() as u64);
    ctx.add("sets_with_all_schedules", full.load(Relaxed));
    ctx.add("least_bound_of_switches", fewest.load(Relaxed));
    if let Some((p, k)) = items.last() {
        ctx.sample(p.name::<YV, YV>(&format!("T={} N={cap}", k.iter().map(|k| k.to_string()).collect::<Vec<_>>().join("."))));
    }
    // histories on two threads
    if !small {
        let alpha = Alpha::<YV>::new("mix");
        for cfg in [(2, 1), (4, 2)] {
            let mut s = Search::new(ctx, &alpha, cfg);
            s.bfs(&[vec![]], &op_menu(3, "iurcm"), ctx.qt(4, 5), 20, &|_, _, _| Ok(()));
            let hs: Vec<Vec<Op>> = s.states.iter().map(|st| st.hist.clone()).collect();
            ctx.par_cases(&hs, |h| case_name(&alpha, cfg, h, "M=1"), |h| moved(&alpha, cfg, h));
            ctx.add("histories_on_two_threads", hs.len() as u64);
        }
    }
    std_notes(ctx);
    ctx.add("schedules", SCHEDULES.load(Relaxed));
    ctx.add("switches", SWITCHES.load(Relaxed));
    ctx.add("transitions", SEGMENTS.load(Relaxed));
    ctx.add("traces_validated_against_impl", SCHEDULES.load(Relaxed));
    ctx.note(
        "explanation",
        "states: distinct trees reached by executing the real code; transitions: operations, and segments of threads between two points at which \
         another thread can go on; schedules: complete executions of the real code on two or three threads, each under a different schedule \
         (all of them for sets_with_all_schedules, otherwise all with up to some number of switches, least_bound_of_switches or more); \
         instances_probed: types over contents that can or cannot be sent and shared, whose Send and Sync were determined",
    );
    ctx.note("assume3", "threads are switched at callbacks into user code and at the items of iterators; the memory model is not explored");
}

fn one(c: &Case, _: Tier) -> Res {
    if !c.get("P").is_empty() {
        return judge(&probes()[c.num::<usize>("P")]);
    }
    if !c.get("M").is_empty() {
        return moved(&Alpha::<YV>::new(c.get("A")), parse_cfg(c.get("C")), &parse_hist(c.get("H")));
    }
    if c.get("G").is_empty() {
        return replay::<YV>(c, &|_, _, _| Ok(()));
    }
    let k: Vec<usize> = c.get("T").split('.').map(|x| x.parse().unwrap_or(0)).collect();
    shared(&Pair::parse(c), &k, c.num("N")).map(|_| ())
}

fn main() {
    rtree_mc::main_for("C24", "model_checking", run, one)
}
