//! Families of trees whose ordered pairs are joined.

use crate::engine::*;
use crate::model::*;
use crate::runner::*;
use crate::spaces::SMALL;
use crate::variants::Variant;

#[derive(Clone)]
pub struct Spec {
    pub cfg: Cfg,
    pub hist: Vec<Op>,
    pub height: usize,
    pub n: usize,
}

/// One case: a pair of trees over the alphabets of two variants.
#[derive(Clone)]
pub struct Pair {
    pub l: Spec,
    pub r: Spec,
    pub al: &'static str,
    pub ar: &'static str,
}

impl Pair {
    pub fn name<L: Variant, R: Variant>(&self, extra: &str) -> String {
        format!(
            "V={} W={} A={} B={} C={} D={} H={} G={} {extra}",
            L::NAME,
            R::NAME,
            self.al,
            self.ar,
            fmt_cfg(self.l.cfg),
            fmt_cfg(self.r.cfg),
            fmt_hist(&self.l.hist),
            fmt_hist(&self.r.hist)
        )
    }
    pub fn parse(c: &Case) -> Pair {
        let s = |cfg: &str, h: &str| Spec { cfg: parse_cfg(c.get(cfg)), hist: parse_hist(c.get(h)), height: 0, n: 0 };
        Pair {
            l: s("C", "H"),
            r: s("D", "G"),
            al: Box::leak(c.get("A").to_string().into_boxed_str()),
            ar: Box::leak(c.get("B").to_string().into_boxed_str()),
        }
    }
}

/// All trees that operation sequences up to a depth reach.
pub fn reachable<V: Variant>(ctx: &Ctx, alpha: &str, nk: usize, menu: &str, depth: usize, maxn: usize, cfgs: &[Cfg]) -> Vec<Spec> {
    let a = Alpha::<V>::new(alpha);
    let menu = op_menu(nk.min(a.len()), menu);
    let mut out = vec![];
    for &cfg in cfgs {
        let mut s = Search::new(ctx, &a, cfg);
        s.bfs(&[vec![]], &menu, depth, maxn, &|_, _, _| Ok(()));
        out.extend(s.states.iter().map(|st| Spec { cfg, hist: st.hist.clone(), height: st.height, n: st.n }));
    }
    out
}

/// Trees of several sizes and heights, grown in several orders, some of them
/// after removals.
pub fn grown<V: Variant>(ctx: &Ctx, alpha: &str, sizes: &[usize], orders: &[&str], cfgs: &[Cfg]) -> Vec<Spec> {
    let a = Alpha::<V>::new(alpha);
    let nk = a.len();
    let mut hs: Vec<Vec<Op>> = vec![];
    for o in orders {
        for &n in sizes {
            let up: Vec<Op> = order(o, nk).into_iter().cycle().take(n).map(Op::Ins).collect();
            hs.push(up.clone());
            // every third entry is removed again
            let mut h = up;
            for k in order(o, nk).into_iter().cycle().take(n).step_by(3) {
                h.push(Op::Rem(k));
            }
            hs.push(h);
        }
    }
    // duplicates
    hs.push((0..6).map(|i| Op::Ins(i % 2)).collect());
    let mut out = vec![];
    for &cfg in cfgs {
        let mut s = Search::new(ctx, &a, cfg);
        s.seeds(&hs, &|_, _, _| Ok(()));
        out.extend(s.states.iter().map(|st| Spec { cfg, hist: st.hist.clone(), height: st.height, n: st.n }));
    }
    out
}

pub fn all_pairs(ls: &[Spec], rs: &[Spec], al: &'static str, ar: &'static str) -> Vec<Pair> {
    let mut v = vec![];
    for l in ls {
        for r in rs {
            v.push(Pair { l: l.clone(), r: r.clone(), al, ar });
        }
    }
    v
}

pub fn small_cfgs() -> Vec<Cfg> {
    SMALL.to_vec()
}

/// Relations between the keys that occur in two trees: all for few keys.
pub fn rel_family<L: Variant, R: Variant>(l: &Run<L>, r: &Run<R>, full_bits: usize) -> Vec<Vec<u64>> {
    let present = |m: &[(u8, u32)]| {
        let mut v: Vec<usize> = m.iter().map(|e| e.0 as usize).collect();
        v.sort();
        v.dedup();
        v
    };
    let (pl, pr) = (present(&l.model), present(&r.model));
    let geo = |i: usize, j: usize| l.alpha.boxes[pl[i]].intersects(&r.alpha.boxes[pr[j]]);
    if pl.is_empty() || pr.is_empty() {
        return vec![vec![u64::MAX; l.alpha.len()], vec![0; l.alpha.len()]];
    }
    crate::queries::relations(pl.len(), pr.len(), full_bits, &geo)
        .into_iter()
        .map(|rows| {
            let mut full = vec![0u64; l.alpha.len()];
            for (i, row) in rows.iter().enumerate() {
                for (j, k) in pr.iter().enumerate() {
                    if row >> j & 1 == 1 {
                        full[pl[i]] |= 1 << k;
                    }
                }
            }
            full
        })
        .collect()
}

pub fn join_notes(ctx: &Ctx, queries: u64, steps: u64) {
    ctx.add("states", ctx.count("pairs_of_trees"));
    ctx.add("transitions", steps);
    ctx.add("traces_validated_against_impl", queries);
    ctx.note(
        "explanation",
        "states: distinct trees reached by executing the real code plus ordered pairs of them that are joined; \
         transitions: operations executed on the real trees and steps of the joins' iterators, each compared with the model; \
         traces: joins (pair of trees, relation, bounds test, way of consuming the iterators) run on the real code and compared with the model",
    );
    ctx.note("assume1", "pairs of trees and relations other than the enumerated ones are not covered");
}
