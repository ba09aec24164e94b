//! C08: a join yields exactly the matching pairs, each once.
use rtree_mc::prelude::*;
use rusty_rtree::filter::JoiningFilter;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static QUERIES: AtomicU64 = AtomicU64::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);

pub fn pair<L: Variant, R: Variant>(p: &Pair) -> Res {
    let (al, ar) = (Alpha::<L>::new(p.al), Alpha::<R>::new(p.ar));
    let l = Run::<L>::build(&al, p.l.cfg, &p.l.hist)?;
    let r = Run::<R>::build(&ar, p.r.cfg, &p.r.hist)?;
    let cap = l.model.len() * r.model.len();
    let (mut n, mut steps) = (0, 0);
    for (at, rows) in rel_family(&l, &r, 9).into_iter().enumerate() {
        let mut want = vec![];
        for a in &l.model {
            for b in &r.model {
                if rows[a.0 as usize] >> b.0 & 1 == 1 {
                    want.push((a.1, b.1));
                }
            }
        }
        want.sort();
        for mode in ['t', 'i', 'a'] {
            let f = Rel::<L, R> { l: &al, r: &ar, rows: &rows, mode };
            let it = l.tree.join::<_, _, _, L::K, R::K, _>(&r.tree, f.clone());
            let got = capped(it.map(|(a, b)| (al.id(&a.0) as u8, a.1, ar.id(&b.0) as u8, b.1)), cap, "join")?;
            for g in &got {
                ensure!(l.key_of(g.1) == Some(g.0) && r.key_of(g.3) == Some(g.2), "a join yields {g:?}, which are not entries of the two trees");
            }
            same_set(
                got.iter().map(|g| (g.1, g.3)).collect(),
                want.clone(),
                &format!("join (left value, right value) for the relation {rows:?}, bounds test {mode}"),
            )?;
            n += 1;
            steps += got.len() as u64 + 1;
            // the partners of each left key, by the provided filter
            for (k, key) in al.keys.iter().enumerate().filter(|_| mode == 't' && at % 16 == 0) {
                let it = r.tree.filter_iter::<R::K, _>(JoiningFilter::<L::B, L::K, _>::new(key, f.clone()));
                let got = capped(it.map(|e| *e.1), r.model.len(), "joining filter")?;
                let want = r.model.iter().filter(|b| rows[k] >> b.0 & 1 == 1).map(|b| b.1).collect();
                same_set(got, want, &format!("joining filter of the key {k} for the relation {rows:?}, bounds test {mode}"))?;
            }
        }
    }
    QUERIES.fetch_add(n, Relaxed);
    STEPS.fetch_add(steps, Relaxed);
    Ok(())
}

pub fn go<L: Variant, R: Variant>(ctx: &Ctx, ps: &[Pair]) {
    ctx.par_cases(ps, |p| p.name::<L, R>(""), |p| pair::<L, R>(p));
    ctx.add("pairs_of_trees", ps.len() as u64);
    if let Some(p) = ps.iter().max_by_key(|p| (p.l.height.abs_diff(p.r.height), p.l.n + p.r.n)) {
        ctx.sample(format!("{} heights={},{}", p.name::<L, R>(""), p.l.height, p.r.height));
    }
}

fn run(ctx: &Ctx) {
    rtree_mc::giants::run(ctx, &["join"]);
    let t = ctx.thorough();
    // all pairs of small reachable trees, all relations between their keys
    let tiny = reachable::<Bi2>(ctx, "mix", 3, "ir", ctx.qt(5, 6), ctx.qt(5, 6), &[(2, 1), (3, 1)]);
    go::<Bi2, Bi2>(ctx, &all_pairs(&tiny, &tiny, "mix", "mix"));
    let far = reachable::<Bi2>(ctx, "far", 2, "i", ctx.qt(6, 7), 7, &[(2, 1), (4, 2)]);
    go::<Bi2, Bi2>(ctx, &all_pairs(&far, &far, "far", "far"));
    // taller trees of all combinations of heights
    let sizes: &[usize] = if t { &[1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 17, 20] } else { &[1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 20] };
    for (name, o) in [("scat:20", &["asc", "step3"][..]), ("nested:18", &["ends"]), ("over:18", &["desc"]), ("cross:16", &["step7"])] {
        let g = grown::<Bi2>(ctx, name, sizes, o, &[(2, 1), (3, 1), (4, 2)]);
        go::<Bi2, Bi2>(ctx, &all_pairs(&g, &g, name, name));
    }
    // large nodes and tall trees
    let g = grown::<Bi2>(ctx, "scat:40", if t { &[3, 40, 70, 110] } else { &[3, 40, 110] }, &["step3"], if t { &[(2, 1), (5, 1), (8, 4), (17, 8), (33, 16)] } else { &[(2, 1), (8, 4), (33, 16)] });
    go::<Bi2, Bi2>(ctx, &all_pairs(&g, &g, "scat:40", "scat:40"));
    // different key and bounds types on the two sides
    let g3 = grown::<Bi3>(ctx, "scat:12", &[1, 3, 6, 12], &["asc"], &[(2, 1), (4, 2)]);
    let gp = grown::<PtV>(ctx, "scat:12", &[1, 3, 6, 12], &["asc"], &[(3, 1)]);
    let gl = grown::<LnV>(ctx, "scat:12", &[1, 3, 6, 12], &["step3"], &[(2, 1), (4, 2)]);
    go::<Bi3, PtV>(ctx, &all_pairs(&g3, &gp, "scat:12", "scat:12"));
    go::<PtV, LnV>(ctx, &all_pairs(&gp, &gl, "scat:12", "scat:12"));
    join_notes(ctx, QUERIES.load(Relaxed), STEPS.load(Relaxed));
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    if c.get("G").is_empty() {
        // a failure while the trees were being enumerated
        return pick!(c.get("V"); [Bi2, Bi3, PtV, LnV]; V => replay::<V>(c, &|_, _, _| Ok(())));
    }
    let p = Pair::parse(c);
    match (c.get("V"), c.get("W")) {
        ("boxi3", _) => pair::<Bi3, PtV>(&p),
        ("pti2", _) => pair::<PtV, LnV>(&p),
        _ => pair::<Bi2, Bi2>(&p),
    }
}

fn main() {
    rtree_mc::main_for("C08", "model_checking", run, one)
}
