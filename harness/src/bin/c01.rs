//! C01: the tree behaves as a multimap.
use rtree_mc::prelude::*;
use rusty_rtree::contains::Contains;

fn check<V: Variant>(r: &mut Run<V>, _: &Dump, _: Option<Op>) -> Res
where
    V::B: Contains<V::B>,
{
    r.check_contents()?;
    r.check_lookups()
}

fn run(ctx: &Ctx) {
    rtree_mc::giants::run(ctx, &["contents"]);
    explore_all!(ctx, check; structural(ctx) => [Bi2, TagV]; side(ctx) => [Bi3, Bi1, Bu2, Bd2, Bf2, PtV, LnV]);
    std_notes(ctx);
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    pick!(c.get("V"); [Bi2, TagV, Bi3, Bi1, Bu2, Bd2, Bf2, PtV, LnV]; V => replay::<V>(c, &check::<V>))
}

fn main() {
    rtree_mc::main_for("C01", "model_checking", run, one)
}
