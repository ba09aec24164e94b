//! C02: the bounds of every node are exactly the union of what lies below it.
use rtree_mc::prelude::*;

/// Bounds that an accepting filter is shown, and whether they are in order.
fn shown<V: Variant>(r: &Run<V>) -> Vec<Option<MBox>> {
    let log = std::cell::RefCell::new(vec![]);
    r.tree.filter_iter::<V::K, _>(Probe { log: &log }).take(r.model.len() + 1).for_each(|_| ());
    log.into_inner().into_iter().filter_map(|e| if let Ev::B(b) = e { Some(V::mbox(&b)) } else { None }).collect()
}

fn check<V: Variant>(r: &mut Run<V>, d: &Dump, _: Option<Op>) -> Res {
    let mut want = vec![];
    for (i, n) in d.nodes.iter().enumerate() {
        let mut below = vec![];
        d.below(i, &mut below);
        let mut u: Option<MBox> = None;
        for v in below {
            let Some(k) = r.key_of(v) else { viol!("the tree holds the value {v}, which no entry has") };
            let b = r.alpha.boxes[k as usize];
            u = Some(u.map_or(b, |u| u.union(&b)));
        }
        ensure!(n.bounds == u, "node {i} at depth {} has the bounds {:?} instead of {:?}", n.depth, n.bounds, u);
        want.push(u);
    }
    if !r.model.is_empty() {
        same_set(shown(r), want, "the bounds shown to a filter that accepts everything")?;
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    rtree_mc::giants::run(ctx, &["bounds"]);
    explore_all!(ctx, check; structural(ctx) => [Bi2]; side(ctx) => [Bi3, Bi1, Bu2, Bd2, Bf2, PtV, LnV, TagV]);
    std_notes(ctx);
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    pick!(c.get("V"); [Bi2, Bi3, Bi1, Bu2, Bd2, Bf2, PtV, LnV, TagV]; V => replay::<V>(c, &check::<V>))
}

fn main() {
    rtree_mc::main_for("C02", "model_checking", run, one)
}
