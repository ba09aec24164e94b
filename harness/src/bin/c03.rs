//! C03: fill of the nodes and equal depth of the leaves.
use rtree_mc::prelude::*;

pub fn check<V: Variant>(r: &mut Run<V>, d: &Dump, _: Option<Op>) -> Res {
    let (max, min) = r.cfg;
    let height = d.height();
    for (i, n) in d.nodes.iter().enumerate() {
        let c = n.kids.len() + n.ents.len();
        ensure!(c <= max, "node {i} at depth {} has {c} children, more than {max}", n.depth);
        if n.parent.is_some() {
            ensure!(c >= min, "node {i} at depth {} has {c} children, less than {min}", n.depth);
        } else if !n.kids.is_empty() {
            ensure!(c >= 2, "the root has a single child node");
        }
        if n.kids.is_empty() {
            ensure!(n.depth == height, "leaf {i} is at depth {}, others at {height}", n.depth);
        } else {
            ensure!(n.ents.is_empty(), "node {i} has child nodes and entries");
        }
        ensure!(c > 0 || d.nodes.len() == 1, "node {i} at depth {} of a tree with {} nodes is empty", n.depth, d.nodes.len());
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    rtree_mc::giants::run(ctx, &["fill"]);
    explore_all!(ctx, check; structural(ctx) => [Bi2, PtV]; side(ctx) => [TagV, Bi3, Bd2]);
    std_notes(ctx);
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    pick!(c.get("V"); [Bi2, PtV, TagV, Bi3, Bd2]; V => replay::<V>(c, &check::<V>))
}

fn main() {
    rtree_mc::main_for("C03", "model_checking", run, one)
}
