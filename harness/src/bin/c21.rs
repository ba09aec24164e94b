//! C21: iterators are independent, resumable and stay finished.
use rtree_mc::prelude::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static SCHEDULES: AtomicU64 = AtomicU64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static WAYS: AtomicU64 = AtomicU64::new(0);

/// The keys of the filters.
const SOME: u64 = 0x6db6_db6d_b6db_6d9b;

type It<'t> = Box<dyn Iterator<Item = (u32, u32)> + 't>;

/// What a shared iterator looks at: its own tree, or a join of two trees.
struct Env<'a, 'x> {
    l: &'x Run<'a, Bi2>,
    r: &'x Run<'a, Bi2>,
    ranks: &'x [Option<u32>],
    rows: &'x [u64],
}

pub const KINDS: usize = 8;

fn make<'x>(e: &Env<'_, 'x>, kind: usize) -> It<'x> {
    let (l, r) = (e.l, e.r);
    match kind {
        0 => Box::new(l.tree.iter().map(|(_, v)| (*v, 0))),
        1 => Box::new(l.tree.filter_iter::<<Bi2 as Variant>::K, _>(Sub::<Bi2> { alpha: l.alpha, mask: SOME, mode: 't' }).map(|(_, v)| (*v, 0))),
        2 => Box::new(l.tree.iter_asc_by(Rank::<Bi2> { alpha: l.alpha, ranks: e.ranks, mode: 't' }).map(|(_, v)| (*v, 0))),
        3 => Box::new(l.tree.filter_iter_asc_by(ORank(Rank::<Bi2> { alpha: l.alpha, ranks: e.ranks, mode: 'l' })).map(|(_, v)| (*v, 0))),
        4 => Box::new(
            l.tree
                .join::<_, _, _, <Bi2 as Variant>::K, <Bi2 as Variant>::K, _>(&r.tree, Rel::<Bi2, Bi2> { l: l.alpha, r: r.alpha, rows: e.rows, mode: 't' })
                .map(|(a, b)| (a.1, b.1)),
        ),
        5 => Box::new(
            l.tree
                .left_join::<_, _, _, <Bi2 as Variant>::K, <Bi2 as Variant>::K, _>(&r.tree, Rel::<Bi2, Bi2> { l: l.alpha, r: r.alpha, rows: e.rows, mode: 't' })
                .map(|(a, inner)| (*a.1, inner.map(|b| *b.1).fold(0u32, |x, y| x.wrapping_mul(31).wrapping_add(y + 1)))),
        ),
        // an inner iterator of a left join whose other iterators are gone
        6 => match l
            .tree
            .left_join::<_, _, _, <Bi2 as Variant>::K, <Bi2 as Variant>::K, _>(&r.tree, Rel::<Bi2, Bi2> { l: l.alpha, r: r.alpha, rows: e.rows, mode: 'a' })
            .last()
        {
            Some((a, inner)) => {
                let v = *a.1;
                Box::new(inner.map(move |b| (v, *b.1)))
            }
            None => Box::new(std::iter::empty()),
        },
        _ => Box::new((&l.tree).into_iter().map(|(_, v)| (*v, 1))),
    }
}

/// Every way to consume an iterator, from every position, gives what stepping
/// gives. The iterators are used as the library returns them, so that all
/// methods that it overrides take part. `key` tells items apart.
fn consume<I: Iterator>(what: &str, cap: usize, make: impl Fn() -> I, key: impl Fn(I::Item) -> u64) -> Res {
    let mut v: Vec<u64> = vec![];
    {
        let mut it = make();
        while let Some(x) = it.next() {
            v.push(key(x));
            ensure!(v.len() <= cap, "{what} does not end");
        }
        for i in 0..3 {
            let x = it.next().map(&key);
            ensure!(x.is_none(), "{what} yields {x:?} at step {i} after its end");
        }
        let (lo, _) = it.size_hint();
        ensure!(lo == 0, "the size hint of {what} promises {lo} items after its end");
        ensure!(it.nth(1).is_none(), "{what} yields an item by nth after its end");
        ensure!(it.count() == 0, "count of {what} after its end is not 0");
    }
    let n = v.len();
    let want = |i: usize| v.get(i).copied();
    // all positions of short sequences, those near the ends and the middle of long ones
    let near = |n: usize| -> Vec<usize> { (0..=n).filter(|i| n <= 9 || *i <= 3 || n - i <= 2 || *i == n / 2).collect() };
    for at in near(n) {
        let rest = &v[at..];
        let start = || {
            let mut it = make();
            for _ in 0..at {
                it.next();
            }
            it
        };
        let mut w = 0u64;
        let (lo, hi) = start().size_hint();
        ensure!(lo <= rest.len() && hi.map_or(true, |h| h >= rest.len()), "the size hint ({lo}, {hi:?}) of {what} after {at} steps does not admit {} items", rest.len());
        w += 1;
        let c = start().count();
        ensure!(c == rest.len(), "count of {what} after {at} steps is {c} instead of {}", rest.len());
        w += 1;
        let x = start().last().map(&key);
        ensure!(x == rest.last().copied(), "last of {what} after {at} steps is {x:?} instead of {:?}", rest.last());
        w += 1;
        let f = start().fold(vec![], |mut a, x| {
            a.push(key(x));
            a
        });
        ensure!(f == rest, "fold of {what} after {at} steps visits {f:?} instead of {rest:?}");
        w += 1;
        let mut f = vec![];
        start().for_each(|x| f.push(key(x)));
        ensure!(f == rest, "for_each of {what} after {at} steps visits {f:?} instead of {rest:?}");
        w += 1;
        let f: Vec<u64> = start().collect::<Vec<_>>().into_iter().map(&key).collect();
        ensure!(f == rest, "{what} collects to {f:?} after {at} steps instead of {rest:?}");
        w += 1;
        for k in near(rest.len()) {
            // nth, find, position, any and all stop at the item and go on after it
            for way in 0..7 {
                let mut it = start();
                let mut i = 0;
                let mut at_k = |_: &I::Item| {
                    i += 1;
                    i > k
                };
                let got = match way {
                    0 => it.nth(k).map(&key),
                    1 => it.find(|x| at_k(x)).map(&key),
                    2 => it.position(|x| at_k(&x)).and_then(|p| want(at + p)),
                    3 => it.any(|x| at_k(&x)).then(|| want(at + k)).flatten(),
                    4 => (!it.all(|x| !at_k(&x))).then(|| want(at + k)).flatten(),
                    5 => it.by_ref().skip(k).next().map(&key),
                    _ => it.find_map(|x| if at_k(&x) { Some(key(x)) } else { None }),
                };
                let name = ["nth", "find", "position", "any", "all", "skip", "find_map"][way];
                ensure!(got == want(at + k), "{name} of {what}, item {k} after {at} steps, is {got:?} instead of {:?}", want(at + k));
                let rest: Vec<u64> = it.map(&key).take(cap).collect();
                let should = v.get(at + k + 1..).unwrap_or(&[]);
                ensure!(rest == should, "after {name} of {k} after {at} steps {what} yields {rest:?} instead of {should:?}");
                w += 1;
            }
            if k > 0 {
                let f: Vec<u64> = start().step_by(k).map(&key).take(cap).collect();
                let should: Vec<u64> = v[at..].iter().copied().step_by(k).collect();
                ensure!(f == should, "steps of {k} of {what} after {at} steps yield {f:?} instead of {should:?}");
                w += 1;
            }
        }
        STEPS.fetch_add(w * rest.len() as u64, Relaxed);
        WAYS.fetch_add(w, Relaxed);
    }
    Ok(())
}

fn e2(x: (u32, u32)) -> u64 {
    (x.0 as u64) << 32 | x.1 as u64
}

/// All ways to consume the iterators of these trees, with filters and rankings
/// that match many keys and tell precisely where they are, and with some that
/// match few or none and accept nodes in which there are none of them.
fn consumed(l: &mut Run<Bi2>, r: &Run<Bi2>, ranks: &[Option<u32>], rows: &[u64]) -> Res {
    let n = l.alpha.len();
    consumed_by(l, r, SOME, ranks, rows, 't')?;
    let few: Vec<Option<u32>> = (0..n).map(|i| if i % 4 == 1 { Some(5 - (i as u32 / 4) % 5) } else { None }).collect();
    let some: Vec<u64> = (0..n).map(|i| if i % 3 == 1 { 0b1001_0010 << (i % 2) } else { 0 }).collect();
    consumed_by(l, r, 0x4444_4444_4444_4444, &few, &some, 'a')?;
    let last: Vec<Option<u32>> = (0..n).map(|i| if i + 1 == n { Some(3) } else { None }).collect();
    let none = vec![0; n];
    consumed_by(l, r, 0, &last, &none, 'a')
}

fn consumed_by(l: &mut Run<Bi2>, r: &Run<Bi2>, mask: u64, ranks: &[Option<u32>], rows: &[u64], mode: char) -> Res {
    type K = <Bi2 as Variant>::K;
    let alpha = l.alpha;
    let cap = 2 + l.model.len() * (r.model.len() + 1);
    let sub = || Sub::<Bi2> { alpha, mask, mode };
    let rank = || Rank::<Bi2> { alpha, ranks, mode };
    let orank = || ORank(Rank::<Bi2> { alpha, ranks, mode: if mode == 't' { 'l' } else { 'a' } });
    let rel = || Rel::<Bi2, Bi2> { l: l.alpha, r: r.alpha, rows, mode };
    {
        let t = &l.tree;
        let one = |x: (&K, &u32)| *x.1 as u64;
        consume("iter", cap, || t.iter(), one)?;
        consume("&tree", cap, || t.into_iter(), one)?;
        consume("filter_iter", cap, || t.filter_iter::<K, _>(sub()), one)?;
        consume("iter_asc_by", cap, || t.iter_asc_by(rank()), one)?;
        consume("filter_iter_asc_by", cap, || t.filter_iter_asc_by(orank()), one)?;
        consume("join", cap, || t.join::<_, _, _, K, K, _>(&r.tree, rel()), |x| e2((x.0.1, x.1.1)))?;
        let lj = || t.left_join::<_, _, _, K, K, _>(&r.tree, rel());
        consume("left_join", cap, lj, |x| e2((*x.0 .1, x.1.fold(0u32, |a, y| a.wrapping_mul(31).wrapping_add(*y.1 + 1)))))?;
        // each of the inner iterators
        for i in 0..l.model.len() {
            let inner = || {
                let mut it = lj();
                (0..i).for_each(|_| {
                    it.next();
                });
                let x = it.next();
                (x.map(|x| x.1), it)
            };
            if inner().0.is_none() {
                viol!("a left join yields only {i} of {} entries", l.model.len());
            }
            consume("an inner iterator of left_join", cap, || inner().0.unwrap(), |y| *y.1 as u64)?;
            // while the outer iterator is there
            let outer = std::cell::RefCell::new(None);
            consume(
                "an inner iterator of left_join with the outer one",
                cap,
                || {
                    let (x, it) = inner();
                    *outer.borrow_mut() = Some(it);
                    x.unwrap()
                },
                |y| *y.1 as u64,
            )?;
        }
    }
    // mutable iterators need the tree for themselves: a cell hands it out again
    let t = std::cell::UnsafeCell::new(&mut l.tree);
    macro_rules! m {
        ($what:expr, $t:ident => $it:expr) => {
            consume(
                $what,
                cap,
                || {
                    // SAFETY: consume has at most one of these iterators at a time
                    let $t = unsafe { &mut **t.get() };
                    $it
                },
                |x: (&K, &mut u32)| *x.1 as u64,
            )?
        };
    }
    m!("iter_mut", t => t.iter_mut());
    m!("&mut tree", t => t.into_iter());
    m!("filter_iter_mut", t => t.filter_iter_mut::<K, _>(sub()));
    m!("iter_asc_by_mut", t => t.iter_asc_by_mut(rank()));
    m!("filter_iter_asc_by_mut", t => t.filter_iter_asc_by_mut(orank()));
    Ok(())
}

/// Steps beyond the end that are tried.
const BEYOND: usize = 2;

/// Runs every interleaving of the steps of the given iterators up to a length;
/// each iterator is created at its first step and dropped after its last one.
fn interleave(e: &Env, kinds: &[usize], seqs: &[Vec<(u32, u32)>], depth: usize) -> Res {
    // counts of steps that remain for each iterator, by schedule
    fn rec(e: &Env, kinds: &[usize], seqs: &[Vec<(u32, u32)>], depth: usize, word: &mut Vec<u8>, n: &mut u64) -> Res {
        let mut end = true;
        if word.len() < depth {
            for i in 0..kinds.len() {
                let c = word.iter().filter(|x| **x == i as u8).count();
                if c < seqs[i].len() + BEYOND {
                    end = false;
                    word.push(i as u8);
                    rec(e, kinds, seqs, depth, word, n)?;
                    word.pop();
                }
            }
        }
        if end {
            *n += 1;
            STEPS.fetch_add(word.len() as u64, Relaxed);
            let mut its: Vec<Option<It>> = kinds.iter().map(|_| None).collect();
            let mut at = vec![0; kinds.len()];
            for (p, &i) in word.iter().enumerate() {
                let i = i as usize;
                if its[i].is_none() {
                    its[i] = Some(make(e, kinds[i]));
                }
                let x = its[i].as_mut().and_then(|it| it.next());
                let w = seqs[i].get(at[i]).copied();
                ensure!(x == w, "iterators of the kinds {kinds:?}, schedule {word:?}: step {} of iterator {i} yields {x:?} instead of {w:?}", at[i]);
                at[i] += 1;
                if !word[p + 1..].contains(&(i as u8)) {
                    its[i] = None;
                }
            }
        }
        Ok(())
    }
    let mut n = 0;
    rec(e, kinds, seqs, depth, &mut vec![], &mut n)?;
    SCHEDULES.fetch_add(n, Relaxed);
    Ok(())
}

fn pair(p: &Pair, depth: usize) -> Res {
    let (al, ar) = (Alpha::<Bi2>::new(p.al), Alpha::<Bi2>::new(p.ar));
    let mut l = Run::<Bi2>::build(&al, p.l.cfg, &p.l.hist)?;
    let r = Run::<Bi2>::build(&ar, p.r.cfg, &p.r.hist)?;
    let (dl, dr) = (l.dump()?, r.dump()?);
    let ranks: Vec<Option<u32>> = (0..al.len()).map(|i| if i % 3 == 2 { Some(0) } else { Some((i as u32 * 2 + 1) % 4) }).collect();
    let rows: Vec<u64> = (0..al.len()).map(|i| if i % 2 == 0 { u64::MAX } else { 0b010110 }).collect();
    {
        let e = Env { l: &l, r: &r, ranks: &ranks, rows: &rows };
        let cap = 1 + l.model.len() * (r.model.len() + 1);
        let mut seqs = vec![];
        for k in 0..KINDS {
            let mut it = make(&e, k);
            let mut v = vec![];
            while let Some(x) = it.next() {
                v.push(x);
                ensure!(v.len() <= cap, "an iterator of the kind {k} does not end");
            }
            // it stays finished
            for i in 0..4 {
                let x = it.next();
                ensure!(x.is_none(), "an iterator of the kind {k} yields {x:?} at step {i} after its end");
            }
            // the same sequence through other ways of stepping
            let again: Vec<_> = make(&e, k).take(cap).collect();
            ensure!(again == v, "an iterator of the kind {k} yields {again:?} at once and {v:?} step by step");
            for skip in 1..=3.min(v.len()) {
                let mut it = make(&e, k);
                let x = it.nth(skip);
                ensure!(x == v.get(skip).copied(), "nth({skip}) of an iterator of the kind {k} is {x:?} instead of {:?}", v.get(skip));
                let rest: Vec<_> = it.take(cap).collect();
                ensure!(rest == v.get(skip + 1..).unwrap_or(&[]), "after nth({skip}) an iterator of the kind {k} yields {rest:?}");
            }
            ensure!(make(&e, k).count() == v.len(), "count() of an iterator of the kind {k} is not {}", v.len());
            ensure!(make(&e, k).last() == v.last().copied(), "last() of an iterator of the kind {k} is not {:?}", v.last());
            let (lo, hi) = make(&e, k).size_hint();
            ensure!(lo <= v.len() && hi.map_or(true, |h| h >= v.len()), "the size hint ({lo}, {hi:?}) of an iterator of the kind {k} does not admit {} items", v.len());
            let folded = make(&e, k).fold(vec![], |mut a, x| {
                a.push(x);
                a
            });
            ensure!(folded == v, "fold of an iterator of the kind {k} visits {folded:?} instead of {v:?}");
            seqs.push(v);
        }
        for a in 0..KINDS {
            // abandoned after any number of steps
            for n in 0..=seqs[a].len() {
                make(&e, a).take(n).for_each(|_| ());
                let d = l.dump()?;
                ensure!(d.same(&dl), "{n} steps of an iterator of the kind {a} have changed the tree");
            }
            for b in a..KINDS {
                interleave(&e, &[a, b], &[seqs[a].clone(), seqs[b].clone()], depth)?;
            }
        }
        if depth > 6 {
            for (a, b, c) in [(0, 2, 4), (4, 4, 5), (5, 5, 6), (6, 6, 6), (2, 3, 2), (1, 1, 0)] {
                interleave(&e, &[a, b, c], &[seqs[a].clone(), seqs[b].clone(), seqs[c].clone()], depth - 1)?;
            }
        }
        let d = r.dump()?;
        ensure!(d.same(&dr), "iterators have changed the right tree");
    }
    mutable(&mut l, &dl, &ranks)?;
    consumed(&mut l, &r, &ranks, &rows)?;
    let d = l.dump()?;
    ensure!(d.same(&dl), "iterators have changed the tree");
    Ok(())
}

/// Mutable iterators cannot be interleaved with others, but they can be
/// abandoned and have to stay finished.
fn mutable(l: &mut Run<Bi2>, d0: &Dump, ranks: &[Option<u32>]) -> Res {
    let alpha = l.alpha;
    let n = l.model.len();
    for kind in 0..4 {
        let mut whole: Option<Vec<u32>> = None;
        for stop in (0..=n + 3).rev() {
            let step = |it: &mut dyn Iterator<Item = u32>| -> Vec<Option<u32>> { (0..stop).map(|_| it.next()).collect() };
            let got = match kind {
                0 => step(&mut l.tree.iter_mut().map(|e| *e.1)),
                1 => step(&mut l.tree.filter_iter_mut::<<Bi2 as Variant>::K, _>(Sub::<Bi2> { alpha, mask: SOME, mode: 't' }).map(|e| *e.1)),
                2 => step(&mut l.tree.iter_asc_by_mut(Rank::<Bi2> { alpha, ranks, mode: 't' }).map(|e| *e.1)),
                _ => step(&mut l.tree.filter_iter_asc_by_mut(ORank(Rank::<Bi2> { alpha, ranks, mode: 'l' })).map(|e| *e.1)),
            };
            STEPS.fetch_add(stop as u64, Relaxed);
            let k = got.iter().position(|x| x.is_none()).unwrap_or(got.len());
            ensure!(got[k..].iter().all(|x| x.is_none()), "a mutable iterator of the kind {kind} yields {got:?}");
            let seq: Vec<u32> = got[..k].iter().flatten().copied().collect();
            match &whole {
                None => whole = Some(seq),
                Some(w) => ensure!(seq == w[..stop.min(w.len())], "a mutable iterator of the kind {kind} yields {seq:?} in {stop} steps and {w:?} in all"),
            }
            let d = l.dump()?;
            ensure!(d.same(d0), "a mutable iterator of the kind {kind} has changed the tree in {stop} steps");
        }
    }
    Ok(())
}

fn go(ctx: &Ctx, ps: &[Pair], depth: usize) {
    ctx.par_cases(ps, |p| p.name::<Bi2, Bi2>(&format!("N={depth}")), |p| pair(p, depth));
    ctx.add("pairs_of_trees", ps.len() as u64);
    if let Some(p) = ps.iter().max_by_key(|p| (p.l.height.abs_diff(p.r.height), p.l.n + p.r.n)) {
        ctx.sample(format!("{} heights={},{}", p.name::<Bi2, Bi2>(&format!("N={depth}")), p.l.height, p.r.height));
    }
}

fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    let few = |name: &'static str, nk: usize, c: &[Cfg], d: usize, per: usize| {
        let mut v = reachable::<Bi2>(ctx, name, nk, "ir", d, d, c);
        let mut seen = std::collections::HashMap::new();
        v.retain(|s| {
            let c = seen.entry((s.n, s.height, s.cfg)).or_insert(0);
            *c += 1;
            *c <= per
        });
        v
    };
    let a = few("far", 3, &[(2, 1), (4, 2)], 4, 1);
    go(ctx, &all_pairs(&a, &a, "far", "far"), if t { 10 } else { 8 });
    let b = few("mix", 3, &[(2, 1), (3, 1), (4, 2)], ctx.qt(4, 5), 2);
    go(ctx, &all_pairs(&b, &b, "mix", "mix"), 6);
    let g = grown::<Bi2>(ctx, "scat:20", &[1, 4, 7, 12, 20], &["asc", "step3"], &[(2, 1), (3, 1), (4, 2)]);
    let h = grown::<Bi2>(ctx, "over:18", &[3, 9, 18], &["desc"], &[(2, 1), (4, 2)]);
    go(ctx, &all_pairs(&g, &g, "scat:20", "scat:20"), if t { 6 } else { 4 });
    go(ctx, &all_pairs(&h, &h, "over:18", "over:18"), if t { 6 } else { 5 });
    let w = grown::<Bi2>(ctx, "scat:50", &[50], &["step3"], &[(2, 1), (17, 8)]);
    go(ctx, &all_pairs(&w, &w, "scat:50", "scat:50"), if t { 4 } else { 3 });
    let g: Vec<Spec> = g.into_iter().filter(|s| s.n < 8).collect();
    let mut far: Vec<Pair> = all_pairs(&w, &g, "scat:50", "scat:20");
    far.extend(all_pairs(&g, &w, "scat:20", "scat:50"));
    go(ctx, &far, if t { 5 } else { 4 });
    ctx.add("schedules", SCHEDULES.load(Relaxed));
    ctx.add("ways_to_consume", WAYS.load(Relaxed));
    ctx.note("assume2", "mutable iterators borrow the tree exclusively, so only their abandonment and end are explored");
    join_notes(ctx, SCHEDULES.load(Relaxed), STEPS.load(Relaxed));
    ctx.note(
        "explanation",
        "states: distinct trees reached by executing the real code plus ordered pairs of them; transitions: operations and iterator steps \
         executed on the real code and compared; traces: complete interleavings of two or three iterators run on the real code; \
         kinds of iterators: 0 iter, 1 filter_iter, 2 iter_asc_by, 3 filter_iter_asc_by, 4 join, 5 left_join, 6 an inner iterator of a left join, 7 &tree",
    );
}

fn one(c: &Case, _: Tier) -> Res {
    if c.get("G").is_empty() {
        return replay::<Bi2>(c, &|_, _, _| Ok(()));
    }
    pair(&Pair::parse(c), c.num("N"))
}

fn main() {
    rtree_mc::main_for("C21", "model_checking", run, one)
}
