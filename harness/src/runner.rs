//! A real tree next to its reference model, and the enumeration of histories.

use crate::dump::{dump, Dump};
use crate::engine::*;
use crate::model::*;
use crate::variants::Variant;
use crate::{ensure, viol};
use rusty_rtree::{contains::Contains, RTree, RTreeConfig};
use std::collections::{HashMap, HashSet};

pub struct Alpha<V: Variant> {
    pub name: String,
    pub keys: Vec<V::K>,
    /// exact extents of the keys
    pub boxes: Vec<MBox>,
}

impl<V: Variant> Alpha<V> {
    pub fn new(name: &str) -> Alpha<V> {
        let raw = V::prep(alphabet(name, V::D));
        let mut keys: Vec<V::K> = vec![];
        let mut boxes = vec![];
        for (i, b) in raw.iter().enumerate() {
            let k = V::key(i, b);
            if !keys.contains(&k) {
                keys.push(k);
                boxes.push(V::kbox(i, b));
            }
        }
        Alpha { name: name.to_string(), keys, boxes }
    }
    pub fn len(&self) -> usize {
        self.keys.len()
    }
    pub fn id(&self, k: &V::K) -> usize {
        match self.keys.iter().position(|x| x == k) {
            Some(i) => i,
            None => vpanic(format!("a key {k:?} was passed on that is in no entry")),
        }
    }
}

pub type Tree<V> = RTree<<V as Variant>::B, <V as Variant>::K, u32>;

pub struct Run<'a, V: Variant> {
    pub alpha: &'a Alpha<V>,
    pub cfg: Cfg,
    pub tree: Tree<V>,
    /// the reference model: key index and value of every entry
    pub model: Vec<(u8, u32)>,
    pub stamp: u32,
    /// the operations applied so far
    pub hist: Vec<Op>,
}

pub fn new_tree<V: Variant>(cfg: Cfg) -> Tree<V> {
    RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 })
}

impl<'a, V: Variant> Run<'a, V> {
    pub fn new(alpha: &'a Alpha<V>, cfg: Cfg) -> Self {
        Run { alpha, cfg, tree: new_tree::<V>(cfg), model: vec![], stamp: 0, hist: vec![] }
    }

    pub fn build(alpha: &'a Alpha<V>, cfg: Cfg, h: &[Op]) -> Res<Self> {
        let mut r = Run::new(alpha, cfg);
        for &op in h {
            r.apply(op)?;
        }
        Ok(r)
    }

    /// The same tree, built again by the same operations.
    pub fn rebuild(&self) -> Res<Run<'a, V>> {
        Run::build(self.alpha, self.cfg, &self.hist)
    }

    pub fn has(&self, k: u8) -> bool {
        self.model.iter().any(|e| e.0 == k)
    }

    /// Applies an operation to the tree and the model and compares the results.
    pub fn apply(&mut self, op: Op) -> Res {
        self.hist.push(op);
        match op {
            Op::Ins(k) => {
                self.stamp += 1;
                self.tree.insert(self.alpha.keys[k as usize].clone(), self.stamp);
                self.model.push((k, self.stamp));
            }
            Op::Uni(k) => {
                self.stamp += 1;
                let r = self.tree.insert_unique(self.alpha.keys[k as usize].clone(), self.stamp);
                match r {
                    None => {
                        ensure!(!self.has(k), "unique insert of key {k} reports no entry with that key, but there is one");
                        self.model.push((k, self.stamp));
                    }
                    Some(old) => match self.model.iter().position(|e| *e == (k, old)) {
                        Some(i) => self.model[i].1 = self.stamp,
                        None => viol!("unique insert of key {k} returned the value {old}, which no entry with that key has"),
                    },
                }
            }
            Op::Rem(k) => match self.tree.remove::<V::K>(&self.alpha.keys[k as usize]) {
                None => ensure!(!self.has(k), "removal of key {k} found nothing, but there is an entry with that key"),
                Some(v) => match self.model.iter().position(|e| *e == (k, v)) {
                    Some(i) => {
                        self.model.swap_remove(i);
                    }
                    None => viol!("removal of key {k} returned the value {v}, which no entry with that key has"),
                },
            },
            Op::Clo => {
                let c = self.tree.clone();
                self.tree = c;
            }
            Op::Mut => {
                let mut n = 0;
                let limit = self.model.len();
                for (_, v) in self.tree.iter_mut() {
                    n += 1;
                    ensure!(n <= limit, "mutable iteration yields more than the {limit} entries");
                    let Some(i) = self.model.iter().position(|e| e.1 == *v) else {
                        viol!("mutable iteration yields the value {v}, which no entry has");
                    };
                    self.stamp += 1;
                    *v = self.stamp;
                    self.model[i].1 = self.stamp;
                }
                ensure!(n == limit, "mutable iteration yields {n} of {limit} entries");
            }
        }
        Ok(())
    }

    pub fn dump(&self) -> Res<Dump> {
        dump::<V>(&self.tree, self.model.len())
    }

    pub fn key_of(&self, val: u32) -> Option<u8> {
        self.model.iter().find(|e| e.1 == val).map(|e| e.0)
    }

    /// The entries in iteration order, at most `cap` of them.
    pub fn entries(&self) -> Res<Vec<(u8, u32)>> {
        let mut v = vec![];
        for (k, x) in self.tree.iter().take(self.model.len() + 2) {
            let Some(id) = self.key_of(*x) else {
                viol!("iteration yields the value {x} with key {k:?}, which is in no entry");
            };
            ensure!(
                self.alpha.keys[id as usize] == *k,
                "iteration yields the value {x} with key {k:?} instead of {:?}",
                self.alpha.keys[id as usize]
            );
            v.push((id, *x));
        }
        Ok(v)
    }

    /// The tree shows exactly the entries of the model.
    pub fn check_contents(&self) -> Res {
        let mut got = self.entries()?;
        let mut want = self.model.clone();
        got.sort();
        want.sort();
        ensure!(got == want, "iteration yields the entries {got:?} instead of {want:?} (key, value)");
        ensure!(self.tree.len() == want.len(), "len() is {} for {} entries", self.tree.len(), want.len());
        ensure!(self.tree.is_empty() == want.is_empty(), "is_empty() is {} for {} entries", self.tree.is_empty(), want.len());
        Ok(())
    }

    /// Lookups of all keys of the alphabet.
    pub fn check_lookups(&mut self) -> Res
    where
        V::B: Contains<V::B>,
    {
        for k in 0..self.alpha.len() {
            let key = &self.alpha.keys[k];
            let g = self.tree.get(key).copied();
            let m = self.tree.get_mut(key).map(|v| *v);
            match g {
                None => ensure!(!self.has(k as u8), "get of key {k} finds nothing, but there is an entry with that key"),
                Some(v) => ensure!(self.model.contains(&(k as u8, v)), "get of key {k} shows the value {v}, which no entry with that key has"),
            }
            match m {
                None => ensure!(!self.has(k as u8), "get_mut of key {k} finds nothing, but there is an entry with that key"),
                Some(v) => ensure!(self.model.contains(&(k as u8, v)), "get_mut of key {k} shows the value {v}, which no entry with that key has"),
            }
        }
        Ok(())
    }
}

/// Which operations a search uses.
pub fn op_menu(nkeys: usize, with: &str) -> Vec<Op> {
    let mut v = vec![];
    for c in with.chars() {
        match c {
            'i' => v.extend((0..nkeys).map(|k| Op::Ins(k as u8))),
            'u' => v.extend((0..nkeys).map(|k| Op::Uni(k as u8))),
            'r' => v.extend((0..nkeys).map(|k| Op::Rem(k as u8))),
            'c' => v.push(Op::Clo),
            'm' => v.push(Op::Mut),
            _ => panic!(),
        }
    }
    v
}

pub fn case_name<V: Variant>(a: &Alpha<V>, cfg: Cfg, h: &[Op], extra: &str) -> String {
    format!("V={} C={} A={} H={} {extra}", V::NAME, fmt_cfg(cfg), a.name, fmt_hist(h))
}

#[derive(Clone)]
pub struct State {
    pub hist: Vec<Op>,
    pub canon: u128,
    pub n: usize,
    pub height: usize,
}

/// Breadth-first search over operation sequences from a set of histories. Two
/// histories that lead to trees with the same structure, keys and bounds are
/// merged: no operation looks at values or at anything else in the tree, so the
/// trees have the same futures up to the names of the values. `check` is called
/// with the tree after the last operation, once for every transition; the
/// second argument tells whether the reached state is one that `seen` lacks.
pub struct Search<'c, 'a, V: Variant> {
    pub ctx: &'c Ctx,
    pub alpha: &'a Alpha<V>,
    pub cfg: Cfg,
    pub seen: HashSet<u128>,
    pub states: Vec<State>,
    /// check only states that earlier layers lack, not every transition
    pub only_new: bool,
}

impl<'c, 'a, V: Variant> Search<'c, 'a, V> {
    pub fn new(ctx: &'c Ctx, alpha: &'a Alpha<V>, cfg: Cfg) -> Self {
        Search { ctx, alpha, cfg, seen: HashSet::new(), states: vec![], only_new: false }
    }

    /// Runs a list of histories, checking only the state each ends in, and
    /// returns the ones that reach new states.
    pub fn seeds(
        &mut self,
        hists: &[Vec<Op>],
        check: &(impl Fn(&mut Run<V>, &Dump, Option<Op>) -> Res + Sync),
    ) -> Vec<State> {
        let (alpha, cfg, ctx) = (self.alpha, self.cfg, self.ctx);
        let (seen, only_new) = (&self.seen, self.only_new);
        let res = ctx.par_map(hists, |tid, ord, h| {
            let mut out = None;
            ctx.case(tid, ord, &case_name(alpha, cfg, h, ""), || {
                let mut r = Run::build(alpha, cfg, &h[..h.len().saturating_sub(1)])?;
                if let Some(&op) = h.last() {
                    r.apply(op)?;
                }
                let d = r.dump()?;
                if !only_new || !seen.contains(&d.canon) {
                    check(&mut r, &d, h.last().copied())?;
                }
                out = Some(State { hist: h.clone(), canon: d.canon, n: r.model.len(), height: d.height() });
                Ok(())
            });
            out
        });
        let mut fresh = vec![];
        for s in res.into_iter().flatten() {
            if self.seen.insert(s.canon) {
                fresh.push(s);
            }
        }
        self.states.extend(fresh.iter().cloned());
        ctx.add("states", fresh.len() as u64);
        fresh
    }

    /// One layer of the search: every operation of the menu in every state.
    pub fn expand(
        &mut self,
        frontier: &[State],
        menu: &[Op],
        max_entries: usize,
        check: &(impl Fn(&mut Run<V>, &Dump, Option<Op>) -> Res + Sync),
    ) -> Vec<State> {
        let (alpha, cfg, ctx) = (self.alpha, self.cfg, self.ctx);
        let (seen, only_new) = (&self.seen, self.only_new);
        let res = ctx.par_map(frontier, |tid, ord, s| {
            let mut out: Vec<State> = vec![];
            let mut hist = s.hist.clone();
            let mut edges = 0u64;
            for &op in menu {
                if s.n >= max_entries && matches!(op, Op::Ins(_) | Op::Uni(_)) {
                    continue;
                }
                hist.push(op);
                let ok = ctx.case(tid, ord, &case_name(alpha, cfg, &hist, ""), || {
                    let mut r = Run::build(alpha, cfg, &hist[..hist.len() - 1])?;
                    r.apply(op)?;
                    let d = r.dump()?;
                    if !only_new || (!seen.contains(&d.canon) && !out.iter().any(|o| o.canon == d.canon)) {
                        check(&mut r, &d, Some(op))?;
                    }
                    edges += 1;
                    if !out.iter().any(|o| o.canon == d.canon) {
                        out.push(State { hist: hist.clone(), canon: d.canon, n: r.model.len(), height: d.height() });
                    }
                    Ok(())
                });
                hist.pop();
                if !ok {
                    break;
                }
            }
            (out, edges)
        });
        let mut fresh = vec![];
        let mut edges = 0;
        for (v, e) in res {
            edges += e;
            for s in v {
                if self.seen.insert(s.canon) {
                    fresh.push(s);
                }
            }
        }
        self.states.extend(fresh.iter().cloned());
        ctx.add("transitions", edges);
        ctx.add("states", fresh.len() as u64);
        // every transition that led to a new state is extended in the next
        // layer; the others are complete traces
        ctx.add("traces_validated_against_impl", edges - fresh.len() as u64);
        fresh
    }

    /// All operation sequences up to `depth` from the given histories.
    pub fn bfs(
        &mut self,
        start: &[Vec<Op>],
        menu: &[Op],
        depth: usize,
        max_entries: usize,
        check: &(impl Fn(&mut Run<V>, &Dump, Option<Op>) -> Res + Sync),
    ) {
        let mut frontier = self.seeds(start, check);
        for _ in 0..depth {
            if self.ctx.failed() {
                return;
            }
            frontier = self.expand(&frontier, menu, max_entries, check);
        }
        self.ctx.add("traces_validated_against_impl", frontier.len() as u64);
    }
}

/// Deterministic histories that build trees of `n` entries and take them down
/// again in different orders; all their prefixes are states of interest.
pub fn scripts(nkeys: usize, n: usize, kind: char) -> Vec<Vec<Op>> {
    let mut out = vec![];
    for ins in ORDERS {
        let up: Vec<Op> = (0..n)
            .map(|i| {
                let k = order(ins, nkeys)[i % nkeys];
                if kind == 'u' {
                    Op::Uni(k)
                } else {
                    Op::Ins(k)
                }
            })
            .collect();
        out.push(up);
    }
    out
}

/// A history that removes everything `h` leaves, in the given order of keys.
pub fn drain(h: &[Op], ord: &str, nkeys: usize) -> Vec<Op> {
    let mut count: HashMap<u8, usize> = HashMap::new();
    for o in h {
        match o {
            Op::Ins(k) => *count.entry(*k).or_insert(0) += 1,
            Op::Uni(k) => {
                let c = count.entry(*k).or_insert(0);
                *c = (*c).max(1);
            }
            Op::Rem(k) => {
                let c = count.entry(*k).or_insert(0);
                *c = c.saturating_sub(1);
            }
            _ => {}
        }
    }
    let mut v = h.to_vec();
    loop {
        let mut any = false;
        for k in order(ord, nkeys) {
            let c = count.entry(k).or_insert(0);
            if *c > 0 {
                *c -= 1;
                any = true;
                v.push(Op::Rem(k));
            }
        }
        if !any {
            return v;
        }
    }
}

/// All prefixes of the histories, without repetitions.
pub fn prefixes(hs: &[Vec<Op>]) -> Vec<Vec<Op>> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    for h in hs {
        for n in 0..=h.len() {
            let p = h[..n].to_vec();
            if seen.insert(p.iter().map(|o| format!("{o:?}")).collect::<String>()) {
                out.push(p);
            }
        }
    }
    out
}
