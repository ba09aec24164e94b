//! C09: a left join yields every left entry once with exactly its right
//! matches, however the iterators are interleaved, kept or dropped.
use rtree_mc::prelude::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static JOINS: AtomicU64 = AtomicU64::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static SCHEDULES: AtomicU64 = AtomicU64::new(0);

struct T<'a, L: Variant, R: Variant> {
    l: Run<'a, L>,
    r: Run<'a, R>,
    rows: &'a [u64],
    mode: char,
}

macro_rules! left_join {
    ($t:expr) => {
        $t.l.tree.left_join::<_, _, _, L::K, R::K, _>(
            &$t.r.tree,
            Rel::<L, R> { l: $t.l.alpha, r: $t.r.alpha, rows: $t.rows, mode: $t.mode },
        )
    };
}

impl<'a, L: Variant, R: Variant> T<'a, L, R> {
    fn what(&self) -> String {
        format!("left join for the relation {:?}, bounds test {}", self.rows, self.mode)
    }

    /// Consumes every inner iterator at once. Returns the left values in order
    /// with the sequences of their right values, which have been checked.
    fn reference(&self) -> Res<Vec<(u32, Vec<u32>)>> {
        let mut out: Vec<(u32, Vec<u32>)> = vec![];
        let (cl, cr) = (self.l.model.len(), self.r.model.len());
        let what = self.what();
        let mut it = left_join!(self);
        while let Some(((k, v), inner)) = it.next() {
            ensure!(out.len() < cl, "{what} yields more than {cl} left entries");
            ensure!(self.l.key_of(*v) == Some(self.l.alpha.id(k) as u8), "{what} yields the left entry ({k:?}, {v}), which does not exist");
            let mut rv = vec![];
            for (k, v) in inner {
                ensure!(rv.len() < cr, "{what}: an inner iterator yields more than {cr} entries");
                ensure!(self.r.key_of(*v) == Some(self.r.alpha.id(k) as u8), "{what} yields the right entry ({k:?}, {v}), which does not exist");
                rv.push(*v);
            }
            out.push((*v, rv));
        }
        ensure!(it.next().is_none(), "{what} yields another left entry after its end");
        same_set(out.iter().map(|x| x.0).collect(), self.l.model.iter().map(|e| e.1).collect(), &format!("{what}: left values"))?;
        for (v, rv) in &out {
            let row = self.rows[self.l.key_of(*v).unwrap_or(0) as usize];
            let want: Vec<u32> = self.r.model.iter().filter(|e| row >> e.0 & 1 == 1).map(|e| e.1).collect();
            same_set(rv.clone(), want, &format!("{what}: right values for the left value {v}"))?;
        }
        Ok(out)
    }

    /// Fixed ways of consuming the inner iterators, all of which have to give
    /// the same sequences.
    fn patterns(&self, reference: &[(u32, Vec<u32>)]) -> Res {
        let what = self.what();
        let n = reference.len();
        let same = |i: usize, v: &[u32], how: &str| -> Res {
            STEPS.fetch_add(v.len() as u64 + 1, Relaxed);
            ensure!(v == reference[i].1, "{what}: the inner iterator of the left value {}, {how}, yields {v:?} instead of {:?}", reference[i].0, reference[i].1);
            Ok(())
        };
        let cap = self.r.model.len() + 1;
        // kept, the outer iterator dropped, consumed forwards and backwards
        for back in [false, true] {
            let mut inner: Vec<_> = left_join!(self).take(n + 1).map(|x| x.1).collect();
            ensure!(inner.len() == n, "{what} yields {} left entries instead of {n} when the inner iterators are kept", inner.len());
            for j in 0..n {
                let i = if back { n - 1 - j } else { j };
                let v: Vec<u32> = inner[i].by_ref().take(cap).map(|e| *e.1).collect();
                same(i, &v, "kept until the outer iterator was gone")?;
            }
        }
        // in turns, one step each
        {
            let mut inner: Vec<_> = left_join!(self).take(n + 1).map(|x| x.1).collect();
            let mut got = vec![vec![]; n];
            for _ in 0..cap + 1 {
                for (i, it) in inner.iter_mut().enumerate().take(n) {
                    if let Some(e) = it.next() {
                        got[i].push(*e.1);
                    }
                }
            }
            for i in 0..n {
                same(i, &got[i], "stepped in turns with the others")?;
            }
        }
        // dropped at once
        let c = left_join!(self).take(n + 1).map(|x| *x.0 .1).collect::<Vec<_>>();
        ensure!(c == reference.iter().map(|x| x.0).collect::<Vec<_>>(), "{what}: left values {c:?} when the inner iterators are dropped at once");
        // every second one kept, the others stepped once and dropped
        {
            let mut kept = vec![];
            for (i, (_, mut inner)) in left_join!(self).take(n + 1).enumerate() {
                if i % 2 == 0 {
                    kept.push((i, inner));
                } else {
                    let a = inner.next().map(|e| *e.1);
                    ensure!(a == reference[i].1.first().copied(), "{what}: the inner iterator of the left value {} begins with {a:?}", reference[i].0);
                }
            }
            for (i, inner) in kept {
                let v: Vec<u32> = inner.take(cap).map(|e| *e.1).collect();
                same(i, &v, "kept while the next one was stepped once and dropped")?;
            }
        }
        JOINS.fetch_add(5, Relaxed);
        Ok(())
    }

    /// Runs one schedule: 'o' steps the outer iterator, 'x' drops it, a digit
    /// steps an inner iterator, a letter from 'A' on drops one. At the end the
    /// remaining inner iterators are run to their ends.
    fn schedule(&self, word: &[u8], reference: &[(u32, Vec<u32>)]) -> Res {
        let what = || format!("{}, schedule {}", self.what(), String::from_utf8_lossy(word));
        let mut outer = Some(left_join!(self));
        let mut inner = vec![];
        let mut at = vec![];
        for &c in word {
            match c {
                b'o' => {
                    let Some(it) = outer.as_mut() else { continue };
                    let x = it.next();
                    let i = inner.len().min(reference.len());
                    match x {
                        Some(((_, v), it)) if i < reference.len() => {
                            ensure!(*v == reference[i].0, "{}: left value {v} instead of {}", what(), reference[i].0);
                            inner.push(Some(it));
                            at.push(0);
                        }
                        Some(((_, v), _)) => viol!("{}: left value {v} after the end", what()),
                        None => ensure!(i == reference.len(), "{}: ends after {i} left values", what()),
                    }
                }
                b'x' => outer = None,
                b'0'..=b'9' => {
                    let i = (c - b'0') as usize;
                    if let Some(Some(it)) = inner.get_mut(i) {
                        let x = it.next().map(|e| *e.1);
                        let w = reference[i].1.get(at[i]).copied();
                        ensure!(x == w, "{}: step {} of the inner iterator {i} yields {x:?} instead of {w:?}", what(), at[i]);
                        at[i] += 1;
                    }
                }
                c => {
                    if let Some(it) = inner.get_mut((c - b'A') as usize) {
                        *it = None;
                    }
                }
            }
        }
        STEPS.fetch_add(word.len() as u64, Relaxed);
        for i in (0..inner.len()).rev() {
            if let Some(it) = inner[i].as_mut() {
                loop {
                    let x = it.next().map(|e| *e.1);
                    let w = reference[i].1.get(at[i]).copied();
                    ensure!(x == w, "{}: step {} of the inner iterator {i} yields {x:?} instead of {w:?} at the end", what(), at[i]);
                    at[i] += 1;
                    if w.is_none() {
                        break;
                    }
                }
            }
        }
        Ok(())
    }

    /// All schedules up to a length.
    fn schedules(&self, depth: usize, reference: &[(u32, Vec<u32>)]) -> Res<u64> {
        let mut word = vec![];
        let mut n = 0;
        self.extend(depth, &mut word, reference, &mut n)?;
        Ok(n)
    }

    fn extend(&self, depth: usize, word: &mut Vec<u8>, reference: &[(u32, Vec<u32>)], n: &mut u64) -> Res {
        // the moves that this schedule allows next
        let outs = word.iter().filter(|c| **c == b'o').count();
        let dropped = word.contains(&b'x');
        let mut moves = vec![];
        if !dropped && outs < reference.len() + 2 {
            moves.push(b'o');
        }
        if !dropped {
            moves.push(b'x');
        }
        for i in 0..outs.min(reference.len()).min(9) {
            let (s, d) = (b'0' + i as u8, b'A' + i as u8);
            if !word.contains(&d) {
                // beyond the end, two steps suffice
                if word.iter().filter(|c| **c == s).count() < reference[i].1.len() + 2 {
                    moves.push(s);
                }
                moves.push(d);
            }
        }
        if word.len() == depth || moves.is_empty() {
            *n += 1;
            return self.schedule(word, reference);
        }
        for m in moves {
            word.push(m);
            self.extend(depth, word, reference, n)?;
            word.pop();
        }
        Ok(())
    }
}

/// `depth` > 0: all schedules up to that length for a few relations, otherwise
/// the fixed patterns for all relations of the family.
pub fn pair<L: Variant, R: Variant>(p: &Pair, depth: usize) -> Res {
    let (al, ar) = (Alpha::<L>::new(p.al), Alpha::<R>::new(p.ar));
    let l = Run::<L>::build(&al, p.l.cfg, &p.l.hist)?;
    let r = Run::<R>::build(&ar, p.r.cfg, &p.r.hist)?;
    let rels = if depth == 0 {
        rel_family(&l, &r, 9)
    } else {
        let full = vec![u64::MAX; al.len()];
        let half: Vec<u64> = (0..al.len()).map(|i| if i % 2 == 0 { 0b0101 } else { 0b1110 }).collect();
        vec![full, half]
    };
    let mut t = T { l, r, rows: &[], mode: 't' };
    for rows in &rels {
        for mode in ['t', 'i', 'a'] {
            t = T { rows, mode, ..t };
            if depth > 0 && mode == 'i' {
                continue;
            }
            let reference = t.reference()?;
            if depth == 0 {
                t.patterns(&reference)?;
            } else {
                let n = t.schedules(depth, &reference)?;
                SCHEDULES.fetch_add(n, Relaxed);
            }
            JOINS.fetch_add(1, Relaxed);
        }
    }
    Ok(())
}

pub fn go<L: Variant, R: Variant>(ctx: &Ctx, ps: &[Pair], depth: usize) {
    ctx.par_cases(ps, |p| p.name::<L, R>(&format!("N={depth}")), |p| pair::<L, R>(p, depth));
    ctx.add("pairs_of_trees", ps.len() as u64);
    if let Some(p) = ps.iter().max_by_key(|p| (p.l.height.abs_diff(p.r.height), p.l.n + p.r.n)) {
        ctx.sample(format!("{} heights={},{}", p.name::<L, R>(&format!("N={depth}")), p.l.height, p.r.height));
    }
}

fn run(ctx: &Ctx) {
    rtree_mc::giants::run(ctx, &["left"]);
    let t = ctx.thorough();
    // schedules of all iterators of a left join
    let few = |c: &[Cfg], d: usize| {
        let mut v = reachable::<Bi2>(ctx, "far", 3, "i", d, d, c);
        v.retain(|s| s.n > 0);
        // one tree per number of entries, height and configuration, and one
        // more that was reached last
        let mut seen = std::collections::HashMap::new();
        v.retain(|s| {
            let c = seen.entry((s.n, s.height, s.cfg)).or_insert(0);
            *c += 1;
            *c <= 2
        });
        v
    };
    let left = few(&[(2, 1), (4, 2)], 3);
    let right = few(&[(2, 1), (4, 2)], if t { 5 } else { 4 });
    go::<Bi2, Bi2>(ctx, &all_pairs(&left, &right, "far", "far"), if t { 9 } else { 7 });
    // all pairs of small reachable trees, all relations between their keys
    let tiny = reachable::<Bi2>(ctx, "mix", 3, "ir", ctx.qt(4, 5), ctx.qt(4, 5), &[(2, 1), (3, 1)]);
    go::<Bi2, Bi2>(ctx, &all_pairs(&tiny, &tiny, "mix", "mix"), 0);
    let far = reachable::<Bi2>(ctx, "far", 2, "i", ctx.qt(5, 6), 6, &[(2, 1), (4, 2)]);
    go::<Bi2, Bi2>(ctx, &all_pairs(&far, &far, "far", "far"), 0);
    let sizes: &[usize] = if t { &[1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 17, 20] } else { &[1, 2, 3, 4, 5, 7, 9, 12, 16] };
    for (name, o) in [("scat:20", &["asc", "step3"][..]), ("nested:18", &["ends"]), ("over:18", &["desc"]), ("cross:16", &["step7"])] {
        let g = grown::<Bi2>(ctx, name, sizes, o, &[(2, 1), (3, 1), (4, 2)]);
        go::<Bi2, Bi2>(ctx, &all_pairs(&g, &g, name, name), 0);
    }
    // large nodes and tall trees
    let g = grown::<Bi2>(ctx, "scat:40", if t { &[3, 40, 70, 110] } else { &[3, 40, 110] }, &["step3"], if t { &[(2, 1), (5, 1), (8, 4), (17, 8), (33, 16)] } else { &[(2, 1), (8, 4), (33, 16)] });
    go::<Bi2, Bi2>(ctx, &all_pairs(&g, &g, "scat:40", "scat:40"), 0);
    // different key and bounds types on the two sides
    let g3 = grown::<Bi3>(ctx, "scat:12", &[1, 3, 6, 12], &["asc"], &[(2, 1), (4, 2)]);
    let gp = grown::<PtV>(ctx, "scat:12", &[1, 3, 6, 12], &["asc"], &[(3, 1)]);
    let gl = grown::<LnV>(ctx, "scat:12", &[1, 3, 6, 12], &["step3"], &[(2, 1), (4, 2)]);
    go::<Bi3, PtV>(ctx, &all_pairs(&g3, &gp, "scat:12", "scat:12"), 0);
    go::<PtV, LnV>(ctx, &all_pairs(&gp, &gl, "scat:12", "scat:12"), 0);
    ctx.add("schedules", SCHEDULES.load(Relaxed));
    join_notes(ctx, JOINS.load(Relaxed) + SCHEDULES.load(Relaxed), STEPS.load(Relaxed));
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    if c.get("G").is_empty() {
        return pick!(c.get("V"); [Bi2, Bi3, PtV, LnV]; V => replay::<V>(c, &|_, _, _| Ok(())));
    }
    let p = Pair::parse(c);
    let n = c.num("N");
    match (c.get("V"), c.get("W")) {
        ("boxi3", _) => pair::<Bi3, PtV>(&p, n),
        ("pti2", _) => pair::<PtV, LnV>(&p, n),
        _ => pair::<Bi2, Bi2>(&p, n),
    }
}

fn main() {
    rtree_mc::main_for("C09", "model_checking", run, one)
}
