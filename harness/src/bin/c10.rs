//! C10: a clone is an equal tree and the two never affect each other.
use rtree_mc::prelude::*;
use rusty_rtree::contains::Contains;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// The largest number of entries of trees for which pairs of operations on clones are run.
static PAIRS: AtomicU64 = AtomicU64::new(5);
static STEPS: AtomicU64 = AtomicU64::new(0);

/// A tree and a clone of it, with the models of both.
fn split<'a, V: Variant>(r: &Run<'a, V>) -> Res<(Run<'a, V>, Run<'a, V>)> {
    let a = r.rebuild()?;
    let b = Run { alpha: a.alpha, cfg: a.cfg, tree: a.tree.clone(), model: a.model.clone(), stamp: a.stamp, hist: a.hist.clone() };
    Ok((a, b))
}

fn context<T>(r: Res<T>, what: impl Fn() -> String) -> Res<T> {
    r.map_err(|e| match e {
        Fail::Violation(m) => Fail::Violation(format!("{}: {m}", what())),
        e => e,
    })
}

fn check<V: Variant>(r: &mut Run<V>, d0: &Dump, _: Option<Op>) -> Res
where
    V::B: Contains<V::B>,
{
    let nk = r.alpha.len();
    let mut steps = 0;
    // the clone is the same tree
    {
        let (mut a, mut b) = split(r)?;
        let (da, db) = (a.dump()?, b.dump()?);
        ensure!(da.same(d0), "cloning has changed the original");
        ensure!(db.same(&da), "the clone has another structure, other bounds or other entries than the original");
        ensure!(b.entries()? == a.entries()?, "the clone yields {:?}, the original yields {:?}", b.entries(), a.entries());
        b.check_contents()?;
        b.check_lookups()?;
        // written values stay where they are written
        context(a.apply(Op::Mut), || "in the original".into())?;
        let d = b.dump()?;
        ensure!(d.same(&db), "writing the values of the original has changed the clone");
        for k in 0..nk {
            let key = a.alpha.keys[k].clone();
            let before = a.dump()?;
            if let Some(v) = b.tree.get_mut(&key) {
                let old = *v;
                b.stamp += 1;
                *v = b.stamp + 100_000;
                let new = *v;
                if let Some(e) = b.model.iter_mut().find(|e| e.1 == old) {
                    e.1 = new;
                }
            }
            let d = a.dump()?;
            ensure!(d.same(&before), "writing the value of key {k} in the clone has changed the original");
            b.check_contents()?;
        }
        // either is dropped first
        let db = b.dump()?;
        drop(a);
        let d = b.dump()?;
        ensure!(d.same(&db), "dropping the original has changed the clone");
        b.check_contents()?;
        let (a, b) = split(r)?;
        drop(b);
        let d = a.dump()?;
        ensure!(d.same(&da), "dropping the clone has changed the original");
        a.check_contents()?;
        steps += 4;
    }
    // operations on either side
    let menu = op_menu(nk, if nk <= 6 { "iur" } else { "ir" });
    for &op in &menu {
        let (mut a, mut b) = split(r)?;
        context(a.apply(op), || format!("{op:?} in the original"))?;
        let d = b.dump()?;
        ensure!(d.same(d0), "{op:?} in the original has changed the clone");
        b.check_contents()?;
        // the clone then behaves as the original did
        context(b.apply(op), || format!("{op:?} in the clone after the original"))?;
        let (da, db) = (a.dump()?, b.dump()?);
        ensure!(db.same(&da), "{op:?} leads to different trees in the original and in the clone");
        let (mut a2, mut b2) = split(r)?;
        context(b2.apply(op), || format!("{op:?} in the clone"))?;
        let d = a2.dump()?;
        ensure!(d.same(d0), "{op:?} in the clone has changed the original");
        let d = b2.dump()?;
        ensure!(d.same(&da), "{op:?} leads to different trees in a clone and in the original");
        // a clone of a clone, and both sides going separate ways
        let c = b2.tree.clone();
        drop(b2);
        let c = Run { alpha: a.alpha, cfg: a.cfg, tree: c, model: a.model.clone(), stamp: a.stamp, hist: vec![] };
        let d = c.dump()?;
        ensure!(d.same(&da), "the clone of a clone after {op:?} differs from the original after {op:?}");
        steps += 5;
        if nk <= 4 && r.model.len() <= PAIRS.load(Relaxed) as usize {
            for &op2 in &menu {
                context(a2.apply(op2), || format!("{op2:?} in the original after {op:?} in the clone"))?;
                let d2 = a2.dump()?;
                let mut f = split(r)?.1;
                context(f.apply(op2), || format!("{op2:?} in a clone"))?;
                let d = f.dump()?;
                ensure!(d.same(&d2), "{op2:?} in the original after {op:?} in the clone differs from {op2:?} in a fresh clone");
                let d = b.dump()?;
                ensure!(d.same(&db), "operations on other clones have changed a clone");
                a2 = r.rebuild()?;
                steps += 2;
            }
        }
    }
    STEPS.fetch_add(steps, Relaxed);
    Ok(())
}

fn run(ctx: &Ctx) {
    PAIRS.store(ctx.qt(4, 5) as u64, Relaxed);
    rtree_mc::giants::run(ctx, &["clone"]);
    explore_all!(ctx, check; plan(ctx) => [Bi2]; querying_side(ctx) => [Bi1, Bi3, Bd2, PtV, TagV, LossyV<1>]);
    ctx.add("operations_on_clones", STEPS.load(Relaxed));
    std_notes(ctx);
}

fn plan(ctx: &Ctx) -> Plan {
    let mut p = querying(ctx, 0);
    if !ctx.thorough() {
        p.bfs[0].3 = 6;
        p.scripts[0].1 = 16;
        p.scripts[0].2.truncate(4);
    }
    p.bfs.push(("mix", 3, "iurcm", ctx.qt(5, 6), 8, vec![(2, 1), (4, 2)]));
    p.around.push(("scat", 32, vec![20, 32], "r", ctx.qt(0, 1), vec![(2, 1), (4, 2)]));
    p
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    pick!(c.get("V"); [Bi2, Bi1, Bi3, Bd2, PtV, TagV, LossyV<1>]; V => replay::<V>(c, &check::<V>))
}

fn main() {
    rtree_mc::main_for("C10", "model_checking", run, one)
}
