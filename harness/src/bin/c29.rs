//! C29: destructors that panic or never run corrupt nothing.
//!
//! The faults of C12 in destructors, and iterators that are forgotten.
#![allow(dead_code)]
use rtree_mc::calloc;
use rtree_mc::prelude::*;
use rtree_mc::tracked::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[path = "c12.rs"]
mod faults;

static RUNS: AtomicU64 = AtomicU64::new(0);

/// Runs a body in which iterators are forgotten. What they own (stacks, queues
/// and copies of the filter) is lost, but nothing that the trees own.
fn session(body: impl FnOnce() -> Res) -> Res {
    world(|w| w.reset());
    calloc::start();
    let r = guarded(body);
    let (e, _, _) = calloc::end();
    r?;
    world(|w| w.check())?;
    ensure!(e == 0, "{}", calloc::error_text(e));
    let live = world(|w| w.live());
    // an iterator may hold bounds of its own
    ensure!(live[K] == 0 && live[V] == 0 && live[B] >= 0, "after the trees are gone {live:?} bounds, keys, values and others have not been dropped");
    RUNS.fetch_add(1, Relaxed);
    Ok(())
}

fn look<'a, P: Pad>(e: Option<(&'a TK<P>, &'a TV<P>)>) -> Option<(u8, u32)> {
    e.map(|(k, v)| (k.look(), v.look()))
}

/// Every query is forgotten after every number of steps, and the tree goes on.
fn queries<P: Pad>(keys: &[rusty_rtree::bounds::SAABB<i32, 2>], cfg: Cfg, h: &[Op]) -> Res {
    session(|| {
        let mut r = TRun::<P>::build(keys, cfg, h)?;
        let n = r.model.len();
        let before = format!("{:?}", r.tree);
        macro_rules! forget {
            ($it:expr) => {
                for stop in 0..=n + 1 {
                    let mut it = $it;
                    for _ in 0..stop {
                        it.next().map(|(k, v)| (k.look(), v.look()));
                    }
                    std::mem::forget(it);
                    world(|w| w.check())?;
                }
            };
        }
        forget!(r.tree.iter());
        forget!(r.tree.iter_mut());
        for mask in [u64::MAX, 0b10110] {
            forget!(r.tree.filter_iter::<TK<P>, _>(r.filter(mask)));
            forget!({
                let f = r.filter(mask);
                r.tree.filter_iter_mut::<TK<P>, _>(f)
            });
            forget!(r.tree.iter_asc_by(TR(r.filter(mask))));
            forget!({
                let f = TR(r.filter(mask));
                r.tree.iter_asc_by_mut(f)
            });
            forget!(r.tree.filter_iter_asc_by(TO(r.filter(mask))));
            forget!({
                let f = TO(r.filter(mask));
                r.tree.filter_iter_asc_by_mut(f)
            });
            for stop in 0..=2 * n + 1 {
                let mut it = r.tree.join::<_, _, _, TK<P>, TK<P>, _>(&r.tree, r.filter(mask));
                for _ in 0..stop {
                    it.next().map(|(a, b)| (a.0.look(), a.1.look(), b.0.look(), b.1.look()));
                }
                std::mem::forget(it);
            }
        }
        let after = format!("{:?}", r.tree);
        ensure!(before == after, "forgetting iterators has changed the tree from\n{before}\nto\n{after}");
        // the tree goes on
        for k in 0..keys.len().min(4) as u8 {
            r.apply(Op::Ins(k))?;
            r.apply(Op::Rem(k))?;
        }
        let got = r.tree.iter().take(n + 2).map(|(k, v)| (k.look(), v.look())).collect();
        same_set(got, r.model.clone(), "entries at the end")
    })
}

/// One schedule of a left join: 'o' steps the outer iterator, 'x' drops and 'y'
/// forgets it, digits step, capitals drop and small letters from 'a' on forget
/// the inner ones. What is left at the end is stepped to its end and dropped.
fn schedule<P: Pad>(keys: &[rusty_rtree::bounds::SAABB<i32, 2>], p: &Pair, word: &[u8]) -> Res {
    session(|| {
        let l = TRun::<P>::build(keys, p.l.cfg, &p.l.hist)?;
        let r = TRun::<P>::build(keys, p.r.cfg, &p.r.hist)?;
        let f = || l.filter(u64::MAX);
        let want: Vec<((u8, u32), Vec<(u8, u32)>)> = l
            .tree
            .left_join::<_, _, _, TK<P>, TK<P>, _>(&r.tree, f())
            .take(20)
            .map(|((k, v), i)| ((k.look(), v.look()), i.take(50).map(|(k, v)| (k.look(), v.look())).collect()))
            .collect();
        let mut outer = Some(l.tree.left_join::<_, _, _, TK<P>, TK<P>, _>(&r.tree, f()));
        let mut inner = vec![];
        let mut at = vec![];
        let mut step = |it: &mut dyn Iterator<Item = (u8, u32)>, i: usize, at: &mut Vec<usize>| -> Res<bool> {
            let x = it.next();
            let w = want[i].1.get(at[i]).copied();
            ensure!(x == w, "step {} of the inner iterator {i} yields {x:?} instead of {w:?}", at[i]);
            at[i] += 1;
            Ok(x.is_some())
        };
        for &c in word {
            match c {
                b'o' => {
                    if let Some(o) = outer.as_mut() {
                        let x = o.next();
                        let w = want.get(inner.len()).map(|x| x.0);
                        ensure!(x.as_ref().map(|x| (x.0 .0.look(), x.0 .1.look())) == w, "the outer iterator does not yield {w:?}");
                        if let Some((_, i)) = x {
                            inner.push(Some(i));
                            at.push(0);
                        }
                    }
                }
                b'x' => outer = None,
                b'y' => std::mem::forget(outer.take()),
                b'0'..=b'9' => {
                    let i = (c - b'0') as usize;
                    if let Some(Some(it)) = inner.get_mut(i) {
                        step(&mut it.map(|(k, v)| (k.look(), v.look())), i, &mut at)?;
                    }
                }
                b'A'..=b'Z' => {
                    if let Some(it) = inner.get_mut((c - b'A') as usize) {
                        *it = None;
                    }
                }
                c => {
                    if let Some(it) = inner.get_mut((c - b'a') as usize) {
                        std::mem::forget(it.take());
                    }
                }
            }
            world(|w| w.check())?;
        }
        for i in (0..inner.len()).rev() {
            if let Some(it) = inner[i].as_mut() {
                let mut it = it.map(|(k, v)| (k.look(), v.look()));
                while step(&mut it, i, &mut at)? {}
            }
            inner[i] = None;
        }
        Ok(())
    })
}

fn schedules<P: Pad>(keys: &[rusty_rtree::bounds::SAABB<i32, 2>], p: &Pair, depth: usize, n: usize) -> Res {
    fn go<P: Pad>(keys: &[rusty_rtree::bounds::SAABB<i32, 2>], p: &Pair, depth: usize, n: usize, word: &mut Vec<u8>) -> Res {
        if word.len() == depth {
            return schedule::<P>(keys, p, word);
        }
        let outs = word.iter().filter(|c| **c == b'o').count();
        let gone = word.contains(&b'x') || word.contains(&b'y');
        let mut moves = vec![];
        if !gone {
            moves.extend(if outs <= n { &b"oxy"[..] } else { b"xy" });
        }
        for i in 0..outs.min(n).min(3) as u8 {
            let (d, f) = (b'A' + i, b'a' + i);
            if !word.contains(&d) && !word.contains(&f) {
                moves.extend([b'0' + i, d, f]);
            }
        }
        if moves.is_empty() {
            return schedule::<P>(keys, p, word);
        }
        for m in moves {
            word.push(m);
            go::<P>(keys, p, depth, n, word)?;
            word.pop();
        }
        Ok(())
    }
    go::<P>(keys, p, depth, n, &mut vec![])
}

fn run(ctx: &Ctx) {
    faults::DROPS.store(true, Relaxed);
    faults::run(ctx);
    // forgotten queries
    let mut cases = vec![];
    for (a, nk, menu, d) in [("mix", 3, "ir", ctx.qt(5, 6)), ("over:3", 3, "iur", ctx.qt(5, 6))] {
        for s in reachable::<Bi2>(ctx, a, nk, menu, d, 8, &[(2, 1), (3, 1), (4, 2)]) {
            cases.push(format!("Q=1 A={a} C={} H={}", fmt_cfg(s.cfg), fmt_hist(&s.hist)));
        }
    }
    for s in grown::<Bi2>(ctx, "scat:12", &[6, 9, 12], &["asc", "ends"], &[(2, 1), (4, 2)]) {
        cases.push(format!("Q=1 A=scat:12 C={} H={}", fmt_cfg(s.cfg), fmt_hist(&s.hist)));
    }
    // all schedules of a left join with forgotten iterators
    let ls = grown::<Bi2>(ctx, "far", &[1, 2, 3], &["asc"], &[(2, 1)]);
    let rs = grown::<Bi2>(ctx, "far", &[1, 2, 3, 5], &["asc"], &[(2, 1), (4, 2)]);
    for p in all_pairs(&ls, &rs, "far", "far") {
        cases.push(p.name::<Bi2, Bi2>(&format!("S={} M={}", ctx.qt(6, 8), p.l.n)));
    }
    for c in cases.iter().step_by(cases.len() / 4 + 1) {
        ctx.sample(c);
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    ctx.add("histories_and_schedules_with_forgotten_iterators", RUNS.load(Relaxed));
    ctx.add("evaluations", RUNS.load(Relaxed));
    ctx.add("distinct_nontrivial", RUNS.load(Relaxed));
    ctx.note(
        "rule",
        "evaluations: executions of an operation on a tree rebuilt for it, one of them without a fault and one for each destructor of a bounds, key or value that \
         the operation runs, and executions in which iterators are forgotten; distinct_nontrivial: those in which a destructor panicked, each with a different \
         tree, operation or destructor, and those in which an iterator was forgotten, each with a different tree or schedule",
    );
    ctx.note("assume1", "one destructor panics per operation; memory may be leaked");
}

fn one(c: &Case, t: Tier) -> Res {
    if !c.get("Q").is_empty() {
        return queries::<()>(&tkeys(c.get("A")), parse_cfg(c.get("C")), &parse_hist(c.get("H")));
    }
    if !c.get("S").is_empty() {
        return schedules::<()>(&tkeys(c.get("A")), &Pair::parse(c), c.num("S"), c.num("M"));
    }
    faults::DROPS.store(true, Relaxed);
    faults::one(c, t)
}

fn main() {
    rtree_mc::main_for("C29", "fault_enumeration", run, one)
}
