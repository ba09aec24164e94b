//! C11: memory is managed exactly.
use rtree_mc::calloc;
use rtree_mc::prelude::*;
use rtree_mc::tracked::*;
use rusty_rtree::bounds::{Bounded, Bounds, Volume, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::{RTree, RTreeConfig};
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[cfg(not(feature = "plain"))]
#[global_allocator]
static GLOBAL: calloc::Checked = calloc::Checked;

static QUERIES: AtomicU64 = AtomicU64::new(0);
static OPS: AtomicU64 = AtomicU64::new(0);
static OBJECTS: AtomicU64 = AtomicU64::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);

const NONE: [i64; 4] = [0; 4];

/// Runs a body whose objects and memory must all be gone at its end.
fn session(body: impl FnOnce() -> Res) -> Res {
    world(|w| w.reset());
    let a0 = calloc::allocations();
    calloc::start();
    let r = guarded(body);
    let (e, blocks, bytes) = calloc::end();
    OBJECTS.fetch_add(world(|w| w.created()) as u64, Relaxed);
    ALLOCS.fetch_add(calloc::allocations() - a0, Relaxed);
    r?;
    world(|w| w.check())?;
    ensure!(e == 0, "{}", calloc::error_text(e));
    let live = world(|w| w.live());
    ensure!(live == NONE, "after the trees are gone {live:?} bounds, keys, values and others have not been dropped");
    ensure!(blocks == 0 && bytes == 0, "after the trees are gone {blocks} blocks with {bytes} bytes have not been deallocated");
    Ok(())
}

/// Masks for the queries.
fn some_masks(n: usize) -> Vec<u64> {
    let all = (1u64 << n) - 1;
    vec![0, all, all & 0x5555_5555_5555, all & 0b110, 1 << (n - 1)]
}

fn queries<P: Pad>(r: &mut TRun<P>) -> Res {
    let n = r.model.len();
    let mut q = 0;
    // a query that is abandoned after any number of steps
    macro_rules! part {
        ($what:expr, $it:expr) => {
            for stop in 0..=n + 2 {
                {
                    let mut it = $it;
                    for _ in 0..stop {
                        match it.next() {
                            Some((k, v)) => {
                                k.look();
                                v.look();
                            }
                            None => {}
                        }
                    }
                }
                r.check_live(NONE, $what)?;
                q += 1;
            }
        };
    }
    part!("iter", r.tree.iter());
    part!("iter_mut", r.tree.iter_mut());
    for mask in some_masks(r.keys.len()) {
        part!("filter_iter", r.tree.filter_iter::<TK<P>, _>(r.filter(mask)));
        part!("filter_iter_mut", {
            let f = r.filter(mask);
            r.tree.filter_iter_mut::<TK<P>, _>(f)
        });
        part!("iter_asc_by", r.tree.iter_asc_by(TR(r.filter(u64::MAX))));
        part!("iter_asc_by_mut", {
            let f = TR(r.filter(u64::MAX));
            r.tree.iter_asc_by_mut(f)
        });
        part!("filter_iter_asc_by", r.tree.filter_iter_asc_by(TO(r.filter(mask))));
        part!("filter_iter_asc_by_mut", {
            let f = TO(r.filter(mask));
            r.tree.filter_iter_asc_by_mut(f)
        });
    }
    let f = TR(r.filter(u64::MAX));
    r.tree.min_by(f).map(|e| e.0.look());
    let f = TR(r.filter(u64::MAX));
    r.tree.min_by_mut(f).map(|e| e.1.look());
    let f = TO(r.filter(0b10));
    r.tree.filter_min_by(f).map(|e| e.0.look());
    let f = TO(r.filter(0b10));
    r.tree.filter_min_by_mut(f).map(|e| e.1.look());
    r.check_live(NONE, "a minimum query")?;
    for k in 0..r.keys.len().min(6) as u8 {
        let key = r.key(k);
        r.tree.get(&key).map(|v| v.look());
        r.tree.get_mut(&key).map(|v| v.look());
        r.check_live([0, 1, 0, 0], "a lookup")?;
        q += 2;
    }
    QUERIES.fetch_add(q, Relaxed);
    Ok(())
}

/// Ways to treat the inner iterators of a left join.
const WAYS: usize = 6;

fn left_join<P: Pad>(a: &TTree<P>, b: &TTree<P>, f: TF, outer: usize, way: usize) {
    let mut it = a.left_join::<_, _, _, TK<P>, TK<P>, _>(b, f);
    let mut kept = vec![];
    for i in 0..outer {
        let Some(((k, v), mut inner)) = it.next() else { break };
        k.look();
        v.look();
        match way {
            0 => drop(inner),
            1 => inner.for_each(|(k, v)| {
                k.look();
                v.look();
            }),
            2 => {
                inner.next().map(|e| e.0.look());
            }
            3 | 4 => kept.push(inner),
            _ => {
                // every other one is kept, partly consumed
                inner.next().map(|e| e.1.look());
                if i % 2 == 0 {
                    kept.push(inner);
                }
            }
        }
    }
    if way == 4 {
        // in reverse, after the join is gone
        drop(it);
        while let Some(inner) = kept.pop() {
            inner.for_each(|(k, v)| {
                k.look();
                v.look();
            });
        }
    } else {
        for mut inner in kept.drain(..) {
            while let Some((k, v)) = inner.next() {
                k.look();
                v.look();
            }
        }
        it.next().map(|e| e.0 .0.look());
    }
}

fn joins<P: Pad>(a: &TRun<P>, b: &TRun<P>, extra: [i64; 4]) -> Res {
    let mut q = 0;
    let (n, m) = (a.model.len(), b.model.len());
    let stops: Vec<usize> = if n * m <= 9 { (0..=n * m + 1).collect() } else { vec![0, 1, 2, n, n * m / 2, n * m + 1] };
    for mask in [u64::MAX, 0b1011_0110_1011, 0] {
        for &stop in &stops {
            {
                let mut it = a.tree.join::<_, _, _, TK<P>, TK<P>, _>(&b.tree, a.filter(mask));
                for _ in 0..stop {
                    if let Some((x, y)) = it.next() {
                        x.0.look();
                        x.1.look();
                        y.0.look();
                        y.1.look();
                    }
                }
            }
            a.check_live(extra, "join")?;
            q += 1;
        }
        let outs: Vec<usize> = if n <= 6 { (0..=n + 1).collect() } else { vec![0, 1, 2, n / 2, n, n + 1] };
        for outer in outs {
            for way in 0..WAYS {
                left_join(&a.tree, &b.tree, a.filter(mask), outer, way);
                a.check_live(extra, "left join")?;
                q += 1;
            }
        }
    }
    QUERIES.fetch_add(q, Relaxed);
    Ok(())
}

/// Everything in one state.
fn state<P: Pad>(keys: &[SAABB<i32, 2>], cfg: Cfg, h: &[Op], nk: usize, deep: bool) -> Res {
    session(|| {
        let mut r = TRun::<P>::new(keys, cfg);
        r.check_live(NONE, "new tree")?;
        for &op in h {
            r.apply(op)?;
            OPS.fetch_add(1, Relaxed);
        }
        r.check_live(NONE, "after the history")?;
        queries(&mut r)?;
        let shown = world(|w| w.shown(&r.tree));
        let one: [i64; 4] = std::array::from_fn(|i| shown[i] as i64);
        {
            let mut c = TRun { keys: r.keys.clone(), tree: r.tree.clone(), model: r.model.clone(), stamp: r.stamp };
            r.check_live(one, "with a clone")?;
            joins(&r, &c, one)?;
            // the values of the clone are replaced
            c.apply(Op::Mut)?;
            c.check_live(one, "after the values of a clone have been replaced")?;
        }
        r.check_live(NONE, "after a clone has been dropped")?;
        if deep {
            let mut menu = op_menu(nk, "iur");
            menu.push(Op::Mut);
            menu.push(Op::Clo);
            for op in menu {
                let mut c = TRun { keys: r.keys.clone(), tree: r.tree.clone(), model: r.model.clone(), stamp: r.stamp };
                c.apply(op)?;
                OPS.fetch_add(1, Relaxed);
                c.check_live(one, &format!("{op:?} in a clone"))?;
                // the tree lives on in a tuple, a box and a vector
                let moved = Box::new((1u8, vec![c.tree]));
                let shown = world(|w| w.shown(&*moved));
                ensure!(shown[1] == c.model.len(), "{op:?} in a clone: {} of {} keys after a move", shown[1], c.model.len());
            }
            r.check_live(NONE, "after the clones have been dropped")?;
        }
        // the tree is forgotten by replacing it
        r.tree = RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 });
        r.model.clear();
        r.check_live(NONE, "after the tree has been replaced")
    })
}

// ------------------------------------------------------ objects without a size

pub struct Z<const KIND: usize>;
impl<const KIND: usize> Z<KIND> {
    fn new() -> Self {
        world(|w| w.zborn(KIND));
        Z
    }
}
impl<const KIND: usize> Drop for Z<KIND> {
    fn drop(&mut self) {
        world(|w| w.zgone(KIND));
    }
}
impl<const KIND: usize> Clone for Z<KIND> {
    fn clone(&self) -> Self {
        Z::new()
    }
}
impl<const KIND: usize> PartialEq for Z<KIND> {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl<const KIND: usize> Eq for Z<KIND> {}
impl<const KIND: usize> Debug for Z<KIND> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        world(|w| w.zshow(KIND));
        write!(f, "z")
    }
}
impl Contains<Z<B>> for Z<B> {
    fn contains(&self, _: &Z<B>) -> bool {
        true
    }
}
impl Intersects<Z<B>> for Z<B> {
    fn intersects(&self, _: &Z<B>) -> bool {
        true
    }
}
impl Bounds for Z<B> {
    fn empty() -> Self {
        Z::new()
    }
    fn union(_: &Self, _: &Self) -> Self {
        Z::new()
    }
    fn union_all(b: impl IntoIterator<Item = Self>) -> Self {
        b.into_iter().for_each(drop);
        Z::new()
    }
}
impl Volume for Z<B> {
    fn volume(&self) -> noisy_float::types::N64 {
        noisy_float::types::n64(1.0)
    }
}
impl Bounded<Z<B>> for Z<K> {
    fn bounds(&self) -> Z<B> {
        Z::new()
    }
}
impl<P: Pad> Bounded<TB<P>> for Z<K> {
    fn bounds(&self) -> TB<P> {
        TB::of(SAABB { min: rusty_rtree::vector::SVec([0; 2]), max: rusty_rtree::vector::SVec([1; 2]) })
    }
}
impl<P: Pad> Bounded<Z<B>> for TK<P> {
    fn bounds(&self) -> Z<B> {
        Z::new()
    }
}

pub trait Make {
    fn make(i: u32) -> Self;
}
impl<const KIND: usize> Make for Z<KIND> {
    fn make(_: u32) -> Self {
        Z::new()
    }
}
impl<P: Pad> Make for TV<P> {
    fn make(i: u32) -> Self {
        TV::new(i)
    }
}
impl Make for TK<()> {
    fn make(i: u32) -> Self {
        TK::new(0, SAABB { min: rusty_rtree::vector::SVec([0; 2]), max: rusty_rtree::vector::SVec([i as i32 % 3; 2]) })
    }
}

const ZOPS: usize = 5;

/// One history of a tree in which all keys are equal; its model is a number.
fn sizeless<BB, KK, VV>(cfg: Cfg, word: &[u8]) -> Res
where
    BB: Bounds + Volume + Clone + Contains<BB> + Debug,
    KK: Bounded<BB> + Eq + Clone + Make + Debug,
    VV: Clone + Make + Debug,
{
    session(|| {
        let mut t: RTree<BB, KK, VV> = RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 });
        let mut n = 0usize;
        let look = |t: &RTree<BB, KK, VV>, n: usize, what: &str| -> Res {
            world(|w| {
                w.check().map_err(|e| at(e, what))?;
                let shown = w.shown(t);
                let live = w.live();
                for k in [B, K, V] {
                    ensure!(live[k] == shown[k] as i64, "{what}: {} objects of kind {k} are alive, the tree shows {}", live[k], shown[k]);
                }
                ensure!(shown[K] == n && shown[V] == n, "{what}: the tree shows {} keys and {} values instead of {n}", shown[K], shown[V]);
                Ok(())
            })?;
            ensure!(t.len() == n, "{what}: len() is {} instead of {n}", t.len());
            ensure!(t.is_empty() == (n == 0), "{what}: is_empty() is {} with {n} entries", t.is_empty());
            ensure!(t.iter().take(n + 2).count() == n, "{what}: iteration yields {} of {n} entries", t.iter().take(n + 2).count());
            Ok(())
        };
        for &op in word {
            match op {
                0 => {
                    t.insert(KK::make(n as u32), VV::make(n as u32));
                    n += 1;
                }
                1 => {
                    let r = t.remove::<KK>(&KK::make(0));
                    ensure!(r.is_some() == (n > 0), "removal from {n} equal keys: {}", r.is_some());
                    n = n.saturating_sub(1);
                }
                2 => {
                    let r = t.insert_unique(KK::make(0), VV::make(7));
                    ensure!(r.is_some() == (n > 0), "unique insert into {n} equal keys: {}", r.is_some());
                    n = n.max(1);
                }
                3 => t = t.clone(),
                _ => {
                    let c = t.iter_mut().take(n + 2).map(|e| *e.1 = VV::make(9)).count();
                    ensure!(c == n, "iter_mut yields {c} of {n} entries");
                    ensure!(t.get(&KK::make(0)).is_some() == (n > 0), "lookup among {n} equal keys");
                    ensure!(t.get_mut(&KK::make(0)).is_some() == (n > 0), "mutable lookup among {n} equal keys");
                }
            }
            look(&t, n, &format!("after operation {op}"))?;
        }
        OPS.fetch_add(word.len() as u64, Relaxed);
        Ok(())
    })
}

type TP = ();
const COMBOS: [&str; 7] = ["zzz", "bzz", "zkz", "zzv", "bkz", "bzv", "zkv"];

fn combo(name: &str, cfg: Cfg, w: &[u8]) -> Res {
    match name {
        "zzz" => sizeless::<Z<B>, Z<K>, Z<V>>(cfg, w),
        "bzz" => sizeless::<TB<TP>, Z<K>, Z<V>>(cfg, w),
        "zkz" => sizeless::<Z<B>, TK<TP>, Z<V>>(cfg, w),
        "zzv" => sizeless::<Z<B>, Z<K>, TV<TP>>(cfg, w),
        "bkz" => sizeless::<TB<TP>, TK<TP>, Z<V>>(cfg, w),
        "bzv" => sizeless::<TB<TP>, Z<K>, TV<TP>>(cfg, w),
        _ => sizeless::<Z<B>, TK<TP>, TV<TP>>(cfg, w),
    }
}

fn words(ops: usize, len: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let mut all = vec![];
    for _ in 0..len {
        v = v
            .iter()
            .flat_map(|w| {
                (0..ops as u8).map(move |o| {
                    let mut w = w.clone();
                    w.push(o);
                    w
                })
            })
            .collect();
        all.extend(v.clone());
    }
    all
}

// ---------------------------------------------------------------- spaces

const PADS: [&str; 4] = ["plain", "byte", "aligned", "big"];

fn one_state(c: &Case) -> Res {
    let keys = tkeys(c.get("A"));
    let (cfg, h, nk, deep) = (parse_cfg(c.get("C")), parse_hist(c.get("H")), c.num("K"), c.get("D") == "1");
    match c.get("P") {
        "byte" => state::<u8>(&keys, cfg, &h, nk, deep),
        "aligned" => state::<Aligned>(&keys, cfg, &h, nk, deep),
        "big" => state::<Big>(&keys, cfg, &h, nk, deep),
        _ => state::<()>(&keys, cfg, &h, nk, deep),
    }
}

fn go(ctx: &Ctx, pad: &str, alpha: &'static str, nk: usize, deep: bool, specs: &[Spec]) {
    if let Some(s) = specs.iter().max_by_key(|s| (s.height, s.hist.len())) {
        ctx.sample(format!("P={pad} A={alpha} K={nk} D={} C={} H={} height={}", deep as u8, fmt_cfg(s.cfg), fmt_hist(&s.hist), s.height));
    }
    ctx.par_cases(
        specs,
        |s| format!("P={pad} A={alpha} K={nk} D={} C={} H={}", deep as u8, fmt_cfg(s.cfg), fmt_hist(&s.hist)),
        |s| one_state(&Case::parse(&format!("P={pad} A={alpha} K={nk} D={} C={} H={}", deep as u8, fmt_cfg(s.cfg), fmt_hist(&s.hist)))),
    );
    ctx.add("traces_validated_against_impl", specs.len() as u64);
}

fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    let small = SMALL.to_vec();
    let some = [(2, 1), (3, 1), (4, 2)];
    // the sanitizers are slow, and see the same executions
    let lite = std::env::var("MC_LITE").map_or(0, |s| s.parse().unwrap_or(1));
    if lite > 0 {
        if lite > 1 {
            // fixed histories: searches would be repeated in every process
            let mut few = vec![];
            for cfg in [(2, 1), (4, 2)] {
                for up in [1usize, 2, 3, 5, 7] {
                    for down in (0..=up).step_by(2) {
                        let mut hist: Vec<Op> = (0..up as u8).map(Op::Ins).collect();
                        hist.extend((0..down as u8).map(|i| Op::Rem((i * 3) % up as u8)));
                        few.push(Spec { cfg, hist, height: 0, n: 0 });
                    }
                }
            }
            go(ctx, "plain", "scat:8", 1, true, &few);
        } else {
            let v = reachable::<Bi2>(ctx, "mix", 3, "ir", 4, 8, &[(2, 1), (4, 2)]);
            let g = grown::<Bi2>(ctx, "scat:16", &[9, 16], &["asc"], &[(2, 1), (4, 2)]);
            for p in PADS {
                go(ctx, p, "mix", 3, true, &v);
                go(ctx, p, "scat:16", 4, true, &g);
            }
        }
        let w = words(ZOPS, if lite > 1 { 2 } else { 5 });
        for c in COMBOS {
            ctx.par_cases(&w, |w| format!("Z={c} C=2.1 W={}", wtext(w)), |w| combo(c, (2, 1), w));
        }
    } else {
        let v = reachable::<Bi2>(ctx, "mix", 4, "ir", ctx.qt(6, 7), 12, &small);
        go(ctx, "plain", "mix", 4, true, &v);
        let v = reachable::<Bi2>(ctx, "over:3", 3, "iur", ctx.qt(6, 8), 12, &small);
        go(ctx, "byte", "over:3", 3, true, &v);
        let v = reachable::<Bi2>(ctx, "far", 3, "ir", ctx.qt(6, 7), 12, &some);
        go(ctx, "aligned", "far", 3, true, &v);
        go(ctx, "big", "far", 3, true, &v);
        // trees with many levels, growing and shrinking
        for (shape, n) in [("scat:20", 20), ("cross:16", 16), ("over:18", 18)] {
            let a = Alpha::<Bi2>::new(shape);
            let mut hs = vec![];
            for up in scripts(a.len(), n.min(a.len()), 'i').into_iter().take(if t { 6 } else { 3 }) {
                for dn in ["asc", "mid"] {
                    hs.push(drain(&up, dn, a.len()));
                }
            }
            let hs = prefixes(&hs);
            for &cfg in if t { &small[..] } else { &some[..] } {
                let mut s = Search::new(ctx, &a, cfg);
                s.seeds(&hs, &|_, _, _| Ok(()));
                let specs: Vec<Spec> = s.states.iter().map(|s| Spec { cfg, hist: s.hist.clone(), height: s.height, n: s.n }).collect();
                go(ctx, PADS[specs.len() % 4], shape, if t { 8 } else { 3 }, true, &specs);
            }
        }
        let len = ctx.qt(7, 9);
        for c in COMBOS {
            for cfg in [(2, 1), (3, 1), (4, 2), (6, 3)] {
                let w: Vec<Vec<u8>> = if cfg == (2, 1) || t {
                    words(ZOPS, if cfg == (2, 1) { len } else { len - 1 })
                } else {
                    words(3, len + 1)
                };
                let w: Vec<Vec<u8>> = w.into_iter().filter(|x| x.len() + 3 > len).collect();
                ctx.par_cases(&w, |w| format!("Z={c} C={} W={}", fmt_cfg(cfg), wtext(w)), |w| combo(c, cfg, w));
                ctx.add("traces_validated_against_impl", w.len() as u64);
            }
        }
    }
    ctx.sample("Z=zzz C=2.1 W=0002103");
    ctx.add("queries_and_joins", QUERIES.load(Relaxed));
    ctx.add("transitions", OPS.load(Relaxed));
    ctx.add("tracked_objects", OBJECTS.load(Relaxed));
    ctx.add("checked_allocations", ALLOCS.load(Relaxed));
    ctx.note(
        "explanation",
        "states: distinct trees; in each of them all operations, queries, joins and clones are run with registered objects and a checking allocator; \
         transitions: operations executed on the real trees; traces: complete histories from an empty tree to the release of all memory",
    );
    ctx.note("assume1", "reads outside of allocated blocks are seen only where they yield an object that is not registered, or by the sanitizer stages");
}

fn wtext(w: &[u8]) -> String {
    w.iter().map(|x| (b'0' + x) as char).collect()
}

fn one(c: &Case, _: Tier) -> Res {
    if c.get("Z").is_empty() {
        if c.get("P").is_empty() {
            // a state of the search for trees
            return replay::<Bi2>(c, &|_, _, _| Ok(()));
        }
        return one_state(c);
    }
    let w: Vec<u8> = c.get("W").bytes().map(|b| b - b'0').collect();
    combo(c.get("Z"), parse_cfg(c.get("C")), &w)
}

fn main() {
    rtree_mc::main_for("C11", "model_checking", run, one)
}
