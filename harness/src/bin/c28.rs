//! C28: queries are lazy.
use rtree_mc::prelude::*;
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static QUERIES: AtomicU64 = AtomicU64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);

/// What was examined last, and how many keys were.
#[derive(Default)]
struct Log {
    last: Option<(u8, u8)>,
    keys: usize,
}

struct Lazy<'a, F> {
    f: F,
    log: &'a RefCell<Log>,
}
impl<'a, F: Clone> Clone for Lazy<'a, F> {
    fn clone(&self) -> Self {
        Lazy { f: self.f.clone(), log: self.log }
    }
}
impl<'a, 'b, V: Variant> SpatialFilter<V::B, V::K> for Lazy<'a, Sub<'b, V>> {
    fn test_bounds(&self, b: &V::B) -> bool {
        self.log.borrow_mut().last = None;
        self.f.test_bounds(b)
    }
    fn test_key(&self, k: &V::K) -> bool {
        let mut l = self.log.borrow_mut();
        l.last = Some((self.f.alpha.id(k) as u8, 0));
        l.keys += 1;
        self.f.test_key(k)
    }
}
impl<'a, 'b, L: Variant, R: Variant> JoinFilter<L::B, R::B, L::K, R::K> for Lazy<'a, Rel<'b, L, R>> {
    fn test_bounds(&self, l: &L::B, r: &R::B) -> bool {
        self.log.borrow_mut().last = None;
        self.f.test_bounds(l, r)
    }
    fn test_key(&self, l: &L::K, r: &R::K) -> bool {
        let mut g = self.log.borrow_mut();
        g.last = Some((self.f.l.id(l) as u8, self.f.r.id(r) as u8));
        g.keys += 1;
        self.f.test_key(l, r)
    }
}

fn check<V: Variant>(r: &mut Run<V>, _: &Dump, _: Option<Op>) -> Res {
    let alpha = r.alpha;
    let (mut n, mut steps) = (0, 0);
    for mask in masks(alpha.len(), 6) {
        for mode in ['t', 'a'] {
            for mutable in [false, true] {
                let log = RefCell::new(Log::default());
                let f = Lazy { f: Sub { alpha, mask, mode }, log: &log };
                n += 1;
                let mut it: Box<dyn Iterator<Item = u8> + '_> = if mutable {
                    Box::new(r.tree.filter_iter_mut::<V::K, _>(f).map(|e| alpha.id(e.0) as u8))
                } else {
                    Box::new(r.tree.filter_iter::<V::K, _>(f).map(|e| alpha.id(e.0) as u8))
                };
                let what = if mutable { "mutable filtered iteration" } else { "filtered iteration" };
                ensure!(log.borrow().keys == 0, "{what} examines {} keys before it is stepped", log.borrow().keys);
                let mut i = 0;
                while let Some(k) = it.next() {
                    i += 1;
                    steps += 1;
                    ensure!(i <= r.model.len(), "{what} does not end");
                    let l = log.borrow().last;
                    ensure!(l == Some((k, 0)), "when {what} for the keys {mask:#b} (bounds test {mode}) yields key {k} at step {i}, the last thing examined is {l:?}");
                }
            }
        }
    }
    QUERIES.fetch_add(n, Relaxed);
    STEPS.fetch_add(steps, Relaxed);
    Ok(())
}

fn pair<L: Variant, R: Variant>(p: &Pair) -> Res {
    let (al, ar) = (Alpha::<L>::new(p.al), Alpha::<R>::new(p.ar));
    let l = Run::<L>::build(&al, p.l.cfg, &p.l.hist)?;
    let r = Run::<R>::build(&ar, p.r.cfg, &p.r.hist)?;
    let (mut n, mut steps) = (0, 0);
    let cap = l.model.len() * r.model.len();
    for rows in rel_family(&l, &r, 6) {
        for mode in ['t', 'a'] {
            let log = RefCell::new(Log::default());
            let f = || Lazy { f: Rel { l: &al, r: &ar, rows: &rows, mode }, log: &log };
            let mut it = l.tree.join::<_, _, _, L::K, R::K, _>(&r.tree, f());
            ensure!(log.borrow().keys == 0, "a join examines {} pairs of keys before it is stepped", log.borrow().keys);
            let mut i = 0;
            while let Some((a, b)) = it.next() {
                i += 1;
                ensure!(i <= cap, "a join does not end");
                let k = (al.id(&a.0) as u8, ar.id(&b.0) as u8);
                let last = log.borrow().last;
                ensure!(last == Some(k), "when a join for the relation {rows:?} (bounds test {mode}) yields {k:?}, the last thing examined is {last:?}");
            }
            n += 2;
            steps += i;
            // the inner iterators are stepped at once, one step later, or at the end
            for way in 0..3 {
                let log = RefCell::new(Log::default());
                let f = Lazy { f: Rel { l: &al, r: &ar, rows: &rows, mode }, log: &log };
                let mut it = l.tree.left_join::<_, _, _, L::K, R::K, _>(&r.tree, f);
                ensure!(log.borrow().keys == 0, "a left join examines {} pairs of keys before it is stepped", log.borrow().keys);
                let mut kept = vec![];
                let mut i = 0;
                loop {
                    let before = log.borrow().keys;
                    let x = it.next();
                    ensure!(log.borrow().keys == before, "a step of a left join examines {} pairs of keys", log.borrow().keys - before);
                    let more = x.is_some();
                    if let Some((a, inner)) = x {
                        kept.push((al.id(a.0) as u8, inner));
                    }
                    i += 1;
                    ensure!(i <= l.model.len() + 1, "a left join does not end");
                    let ready = match way {
                        0 => kept.len(),
                        1 if more => kept.len().saturating_sub(1),
                        2 if more => 0,
                        _ => kept.len(),
                    };
                    for (a, mut inner) in kept.drain(..ready) {
                        let mut j = 0;
                        while let Some(b) = inner.next() {
                            let k = (a, ar.id(b.0) as u8);
                            let last = log.borrow().last;
                            ensure!(last == Some(k), "when an inner iterator of a left join for the relation {rows:?} (bounds test {mode}) yields {k:?}, the last thing examined is {last:?}");
                            j += 1;
                            steps += 1;
                            ensure!(j <= r.model.len(), "an inner iterator of a left join does not end");
                        }
                    }
                    if !more {
                        break;
                    }
                }
                n += 1;
            }
        }
    }
    QUERIES.fetch_add(n, Relaxed);
    STEPS.fetch_add(steps as u64, Relaxed);
    Ok(())
}

fn go<L: Variant, R: Variant>(ctx: &Ctx, ps: &[Pair]) {
    ctx.par_cases(ps, |p| p.name::<L, R>(""), |p| pair::<L, R>(p));
    ctx.add("pairs_of_trees", ps.len() as u64);
    if let Some(p) = ps.iter().max_by_key(|p| (p.l.height.abs_diff(p.r.height), p.l.n + p.r.n)) {
        ctx.sample(format!("{} heights={},{}", p.name::<L, R>(""), p.l.height, p.r.height));
    }
}

fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    explore_all!(ctx, check; querying(ctx, t as usize) => [Bi2]; querying_side(ctx) => [TagV, PtV, LnV, LossyV<1>]);
    let tiny = reachable::<Bi2>(ctx, "mix", 3, "ir", ctx.qt(4, 5), ctx.qt(4, 5), &[(2, 1), (3, 1)]);
    go::<Bi2, Bi2>(ctx, &all_pairs(&tiny, &tiny, "mix", "mix"));
    let sizes: &[usize] = if t { &[1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 17, 20] } else { &[1, 2, 4, 7, 12, 20] };
    for (name, o) in [("scat:20", &["asc", "step3"][..]), ("nested:18", &["ends"]), ("over:18", &["desc"]), ("cross:16", &["step7"])] {
        let g = grown::<Bi2>(ctx, name, sizes, o, &[(2, 1), (3, 1), (4, 2)]);
        go::<Bi2, Bi2>(ctx, &all_pairs(&g, &g, name, name));
    }
    let gp = grown::<PtV>(ctx, "scat:40", &[3, 40], &["asc"], &[(2, 1), (17, 8)]);
    let gl = grown::<LnV>(ctx, "scat:40", &[3, 40], &["step3"], &[(2, 1), (17, 8)]);
    go::<PtV, LnV>(ctx, &all_pairs(&gp, &gl, "scat:40", "scat:40"));
    ctx.add("queries", QUERIES.load(Relaxed));
    ctx.add("items", STEPS.load(Relaxed));
    std_notes(ctx);
}

fn one(c: &Case, _: Tier) -> Res {
    if c.get("G").is_empty() {
        return pick!(c.get("V"); [Bi2, TagV, PtV, LnV, LossyV<1>]; V => replay::<V>(c, &check::<V>));
    }
    let p = Pair::parse(c);
    match c.get("V") {
        "pti2" => pair::<PtV, LnV>(&p),
        _ => pair::<Bi2, Bi2>(&p),
    }
}

fn main() {
    rtree_mc::main_for("C28", "model_checking", run, one)
}
