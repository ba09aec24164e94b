//! The spaces of histories that the structural checks explore.

use crate::dump::Dump;
use crate::engine::*;
use crate::model::*;
use crate::runner::*;
use crate::variants::Variant;

/// How much of each space a check explores.
#[derive(Clone, Default)]
pub struct Plan {
    /// check each state once instead of every transition
    pub only_new: bool,
    /// exhaustive search from the empty tree: alphabet, keys, menu, depth, entries
    pub bfs: Vec<(&'static str, usize, &'static str, usize, usize, Vec<Cfg>)>,
    /// growing and draining scripts: shapes, keys, configurations
    pub scripts: Vec<(&'static str, usize, Vec<Cfg>)>,
    /// all operation sequences of some depth around script states:
    /// shape, keys, entries, menu, depth, configurations
    pub around: Vec<(&'static str, usize, Vec<usize>, &'static str, usize, Vec<Cfg>)>,
    /// long histories, of which every `stride`-th prefix is checked, for large
    /// nodes and tall trees: shape, keys, most entries, stride, configurations
    pub walks: Vec<(&'static str, usize, usize, usize, Vec<Cfg>)>,
}

/// Long histories: trees of `n` entries over `nk` keys grow and are drained,
/// move along a window, and grow and shrink by turns.
pub fn walks(nk: usize, n: usize) -> Vec<Vec<Op>> {
    let mut out = vec![];
    for (up, dn) in [("asc", "mid"), ("step7", "asc"), ("ends", "step3"), ("mid", "desc")] {
        let o = order(up, nk);
        let mut h: Vec<Op> = (0..n).map(|i| if i % 5 == 4 && i < nk { Op::Uni(o[i]) } else { Op::Ins(o[i % nk]) }).collect();
        let o = order(dn, nk);
        h.extend((0..n).map(|i| Op::Rem(o[i % nk])));
        out.push(h);
    }
    // a window of n/2 entries that moves on
    let o = order("step7", nk);
    let w = n / 2;
    let mut h: Vec<Op> = (0..w).map(|i| Op::Ins(o[i % nk])).collect();
    for i in w..n + w {
        h.push(Op::Rem(o[(i - w) % nk]));
        h.push(Op::Ins(o[i % nk]));
    }
    out.push(h);
    // three steps up, one down, then three down, one up
    let o = order("ends", nk);
    let (mut h, mut i, mut j) = (vec![], 0, 0);
    while i - j < n {
        for _ in 0..3 {
            h.push(Op::Ins(o[i % nk]));
            i += 1;
        }
        h.push(Op::Rem(o[j % nk]));
        j += 1;
    }
    while i - j > 4 {
        for _ in 0..3 {
            h.push(Op::Rem(o[j % nk]));
            j += 1;
        }
        h.push(Op::Ins(o[i % nk]));
        i += 1;
    }
    out.push(h);
    out
}

/// Configurations with large nodes.
pub const LARGE: [Cfg; 6] = [(9, 3), (12, 6), (17, 8), (32, 4), (33, 16), (64, 32)];
/// Configurations for tall trees.
pub const TALL: [Cfg; 4] = [(2, 1), (3, 1), (4, 2), (5, 2)];

pub fn explore<V: Variant>(
    ctx: &Ctx,
    plan: &Plan,
    check: &(impl Fn(&mut Run<V>, &Dump, Option<Op>) -> Res + Sync),
) {
    for (name, nk, menu, depth, maxn, cfgs) in &plan.bfs {
        let alpha = Alpha::<V>::new(name);
        let menu = op_menu((*nk).min(alpha.len()), menu);
        for &cfg in cfgs {
            if ctx.failed() {
                return;
            }
            let mut s = Search::new(ctx, &alpha, cfg);
            s.only_new = plan.only_new;
            s.bfs(&[vec![]], &menu, *depth, *maxn, check);
            sample_states(ctx, &s);
            if std::env::var("MC_VERBOSE").is_ok() {
                println!("bfs {} {name} {cfg:?} depth {depth}: {} states, t={:.1}", V::NAME, s.states.len(), ctx.t0.elapsed().as_secs_f64());
            }
        }
    }
    for (shape, n, cfgs) in &plan.scripts {
        let alpha = Alpha::<V>::new(&format!("{shape}:{n}"));
        let nk = alpha.len();
        let mut hs = vec![];
        for up in scripts(nk, nk, 'i').into_iter().chain(scripts(nk, nk, 'u').into_iter().take(2)) {
            for dn in ["asc", "desc", "mid", "step3"] {
                hs.push(drain(&up, dn, nk));
            }
        }
        // three entries per key
        let dups: Vec<Op> = (0..nk).map(|i| Op::Ins((i % 3.min(nk)) as u8)).collect();
        hs.push(drain(&dups, "asc", nk));
        hs.push(drain(&dups, "desc", nk));
        let hs = prefixes(&hs);
        for &cfg in cfgs {
            if ctx.failed() {
                return;
            }
            let mut s = Search::new(ctx, &alpha, cfg);
            s.only_new = plan.only_new;
            s.seeds(&hs, check);
            ctx.add("transitions", hs.len() as u64);
            ctx.add("traces_validated_against_impl", hs.iter().filter(|h| h.len() >= 2 * nk).count() as u64);
            sample_states(ctx, &s);
            if std::env::var("MC_VERBOSE").is_ok() {
                println!("scripts {} {shape}:{n} {cfg:?}: {} histories, {} states, max height {}, t={:.1}", V::NAME, hs.len(), s.states.len(), s.states.iter().map(|s| s.height).max().unwrap_or(0), ctx.t0.elapsed().as_secs_f64());
            }
        }
    }
    for (shape, nkeys, sizes, menu, depth, cfgs) in &plan.around {
        let alpha = Alpha::<V>::new(&format!("{shape}:{nkeys}"));
        let nk = alpha.len();
        let menu = op_menu(nk, menu);
        let mut start = vec![];
        for up in scripts(nk, nk, 'i') {
            for &n in sizes {
                if n <= up.len() {
                    start.push(up[..n].to_vec());
                }
            }
        }
        let start: Vec<Vec<Op>> = {
            let mut seen = std::collections::HashSet::new();
            start.into_iter().filter(|h| seen.insert(fmt_hist(h))).collect()
        };
        for &cfg in cfgs {
            if ctx.failed() {
                return;
            }
            let mut s = Search::new(ctx, &alpha, cfg);
            s.only_new = plan.only_new;
            s.bfs(&start, &menu, *depth, 1000, check);
            sample_states(ctx, &s);
            if std::env::var("MC_VERBOSE").is_ok() {
                println!("around {} {shape}:{nkeys} {cfg:?} depth {depth}: {} states, max height {}, t={:.1}", V::NAME, s.states.len(), s.states.iter().map(|s| s.height).max().unwrap_or(0), ctx.t0.elapsed().as_secs_f64());
            }
        }
    }
    explore_walks(ctx, plan, check);
}

fn explore_walks<V: Variant>(
    ctx: &Ctx,
    plan: &Plan,
    check: &(impl Fn(&mut Run<V>, &Dump, Option<Op>) -> Res + Sync),
) {
    for (shape, nk, n, stride, cfgs) in &plan.walks {
        let alpha = Alpha::<V>::new(&format!("{shape}:{nk}"));
        let hs = walks(alpha.len(), *n);
        let mut cut = vec![];
        for (j, h) in hs.iter().enumerate() {
            cut.extend((1..=h.len()).filter(|i| (i + j) % stride == 0 || *i == h.len()).map(|i| h[..i].to_vec()));
        }
        for &cfg in cfgs {
            if ctx.failed() {
                return;
            }
            let mut s = Search::new(ctx, &alpha, cfg);
            s.only_new = plan.only_new;
            s.seeds(&cut, check);
            ctx.add("transitions", cut.len() as u64);
            ctx.add("traces_validated_against_impl", hs.len() as u64);
            sample_states(ctx, &s);
            if std::env::var("MC_VERBOSE").is_ok() {
                println!("walks {} {shape}:{nk} {cfg:?}: {} histories, {} states, max height {}, t={:.1}", V::NAME, cut.len(), s.states.len(), s.states.iter().map(|s| s.height).max().unwrap_or(0), ctx.t0.elapsed().as_secs_f64());
            }
        }
    }
}

fn sample_states<V: Variant>(ctx: &Ctx, s: &Search<V>) {
    if let Some(st) = s.states.iter().max_by_key(|s| (s.height, s.hist.len())) {
        ctx.sample(format!("{} height={} entries={}", case_name(s.alpha, s.cfg, &st.hist, ""), st.height, st.n));
    }
}

/// Replays a case of one of these spaces.
pub fn replay<V: Variant>(
    c: &Case,
    check: &(impl Fn(&mut Run<V>, &Dump, Option<Op>) -> Res + Sync),
) -> Res {
    let alpha = Alpha::<V>::new(c.get("A"));
    let cfg = parse_cfg(c.get("C"));
    let h = parse_hist(c.get("H"));
    let mut r = Run::build(&alpha, cfg, &h[..h.len().saturating_sub(1)])?;
    if let Some(&op) = h.last() {
        r.apply(op)?;
    }
    let d = r.dump()?;
    check(&mut r, &d, h.last().copied())
}

pub const SMALL: [Cfg; 6] = [(2, 1), (3, 1), (4, 1), (4, 2), (5, 2), (6, 3)];

/// Configurations for the scripts.
pub fn wide(thorough: bool) -> Vec<Cfg> {
    let mut v = SMALL.to_vec();
    if thorough {
        v.extend([(5, 1), (6, 1), (6, 2), (7, 3), (8, 2), (8, 4), (10, 5), (16, 4)]);
    } else {
        v.extend([(7, 2), (8, 4)]);
    }
    v
}

pub fn std_notes(ctx: &Ctx) {
    ctx.note(
        "explanation",
        "states: distinct trees (structure, keys and bounds) reached by executing the real code; \
         transitions: operations executed on the real tree and compared with the reference model; \
         traces_validated_against_impl: complete operation histories run on the real code in lockstep with the model",
    );
    ctx.note("assume1", "histories longer, alphabets larger and configurations other than the enumerated ones are not covered");
    ctx.note("assume2", "histories that lead to trees with the same structure, keys and bounds are merged; values do not influence any operation");
}

/// The histories for checks of single operations and of the structure.
pub fn structural(ctx: &Ctx) -> Plan {
    let t = ctx.thorough();
    let small = SMALL.to_vec();
    let some = vec![(2, 1), (3, 1), (4, 2)];
    let n = ctx.qt(28, 56);
    Plan {
        only_new: false,
        bfs: vec![
            ("mix", 4, "ir", ctx.qt(8, 10), 20, small.clone()),
            ("mix", 3, "iur", ctx.qt(8, 10), 20, small.clone()),
            ("mix", 6, "ur", ctx.qt(7, 9), 20, some.clone()),
            ("nest", 3, "ir", ctx.qt(9, 12), 20, small.clone()),
            ("far", 5, "ir", ctx.qt(7, 9), 20, some.clone()),
            ("mix", 2, "ircm", ctx.qt(7, 9), 20, small.clone()),
            ("mix", 1, "iur", 24, 24, small.clone()),
            ("nest", 2, "ir", ctx.qt(13, 16), 20, some.clone()),
        ],
        scripts: SHAPES.iter().map(|s| (*s, n, wide(t))).collect(),
        around: vec![
            ("scat", 20, vec![5, 7, 9, 11, 13, 16, 20], "iur", 2, small.clone()),
            ("grid", 16, vec![6, 9, 12, 16], "ir", ctx.qt(2, 3), small.clone()),
            ("cross", 12, vec![6, 9, 12], "ir", 3, vec![(2, 1), (4, 2)]),
            ("over", 12, vec![6, 9, 12], "iur", ctx.qt(2, 3), small.clone()),
            ("nested", 10, vec![6, 8, 10], "ir", 3, vec![(2, 1), (4, 1)]),
            ("scat", 32, vec![24, 32], "ir", ctx.qt(1, 2), small.clone()),
        ],
        walks: vec![
            ("scat", 200, 200, ctx.qt(11, 1), LARGE.to_vec()),
            ("over", 120, 240, ctx.qt(17, 2), TALL.to_vec()),
            ("grid", 256, 600, ctx.qt(131, 17), vec![(2, 1), (200, 2), (300, 100)]),
        ],
    }
}

/// Fewer histories, for further instantiations.
pub fn side(ctx: &Ctx) -> Plan {
    Plan {
        only_new: false,
        bfs: vec![("mix", 4, "iur", ctx.qt(6, 7), 20, vec![(2, 1), (3, 1), (4, 2)])],
        scripts: vec![("scat", ctx.qt(20, 36), vec![(2, 1), (4, 2)]), ("cross", ctx.qt(14, 30), vec![(3, 1)])],
        around: vec![("over", 10, vec![5, 8, 10], "ir", ctx.qt(2, 3), vec![(2, 1), (4, 2)])],
        walks: vec![("scat", 120, 120, ctx.qt(37, 5), vec![(2, 1), (17, 8)])],
    }
}

/// Applies a check to the main instantiation with the full plan and to the
/// others with the small one.
#[macro_export]
macro_rules! explore_all {
    ($ctx:expr, $check:ident; $plan:expr => [$($A:ty),*]; $side:expr => [$($T:ty),* $(,)?]) => {{
        let (plan, side) = ($plan, $side);
        $( $crate::spaces::explore::<$A>($ctx, &plan, &$check::<$A>); )*
        $( $crate::spaces::explore::<$T>($ctx, &side, &$check::<$T>); )*
    }};
}

/// Trees for checks of queries: each state is checked once.
pub fn querying(ctx: &Ctx, boost: usize) -> Plan {
    let small = SMALL.to_vec();
    let some = vec![(2, 1), (3, 1), (4, 2)];
    Plan {
        only_new: true,
        bfs: vec![
            ("mix", 4, "ir", ctx.qt(7, 8) + boost, 8 + boost, small.clone()),
            ("mix", 6, "ir", ctx.qt(5, 6) + boost, 8 + boost, some.clone()),
            ("nest", 4, "ir", ctx.qt(6, 7) + boost, 8 + boost, some.clone()),
            ("far", 5, "ir", ctx.qt(5, 6) + boost, 8 + boost, some.clone()),
        ],
        scripts: vec![
            ("scat", ctx.qt(22, 36) + 8 * boost, wide(ctx.thorough())),
            ("nested", ctx.qt(14, 24), small.clone()),
            ("cross", ctx.qt(16, 26), small.clone()),
            ("over", ctx.qt(18, 30), small.clone()),
            ("line", ctx.qt(20, 30), some.clone()),
        ],
        around: vec![("scat", 16, vec![9, 16], "ir", ctx.qt(1, 2) + boost, some.clone())],
        walks: vec![
            ("scat", 48, 96, ctx.qt(23, 3), vec![(2, 1), (3, 1), (17, 8), (32, 4)]),
            ("over", 40, 160, ctx.qt(61, 7), vec![(2, 1), (4, 2), (33, 16)]),
            ("grid", 60, 400, ctx.qt(311, 71), vec![(2, 1), (130, 60)]),
        ],
    }
}

pub fn querying_side(ctx: &Ctx) -> Plan {
    Plan {
        only_new: true,
        bfs: vec![("mix", 4, "ir", ctx.qt(5, 6), 8, vec![(2, 1), (4, 2)])],
        scripts: vec![("scat", ctx.qt(12, 24), vec![(2, 1), (3, 1)])],
        around: vec![],
        walks: vec![("scat", 40, 60, ctx.qt(41, 11), vec![(2, 1), (17, 8)])],
    }
}

/// Trees for checks of ranked queries; the alphabets of the searches have four
/// keys, so that all tables of ranks are enumerated.
pub fn ranking(ctx: &Ctx) -> Plan {
    let small = SMALL.to_vec();
    let some = vec![(2, 1), (3, 1), (4, 2)];
    Plan {
        only_new: true,
        bfs: vec![
            ("scat:4", 4, "ir", ctx.qt(6, 8), 8, small.clone()),
            ("nested:4", 4, "ir", ctx.qt(5, 8), 8, some.clone()),
            ("over:3", 3, "ir", ctx.qt(7, 9), 8, small.clone()),
        ],
        scripts: vec![
            ("scat", ctx.qt(20, 36), wide(ctx.thorough())),
            ("nested", ctx.qt(12, 24), small.clone()),
            ("over", ctx.qt(14, 30), some.clone()),
            ("line", ctx.qt(14, 30), some.clone()),
        ],
        around: vec![("scat", 14, vec![7, 10, 14], "ir", ctx.qt(1, 2), some.clone())],
        walks: vec![
            ("scat", 40, 80, ctx.qt(37, 7), vec![(2, 1), (3, 1), (17, 8), (32, 4)]),
            ("over", 32, 128, ctx.qt(89, 13), vec![(2, 1), (33, 16)]),
            ("grid", 60, 400, ctx.qt(311, 71), vec![(2, 1), (130, 60)]),
        ],
    }
}
