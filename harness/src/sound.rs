//! Trees that are used in ways in which results may be wrong and operations
//! may panic, but memory has to stay sound and entries have to be conserved.

use crate::calloc;
use crate::engine::*;
use crate::model::*;
use crate::tracked::*;
use crate::{ensure, viol};
use rusty_rtree::{bounds::SAABB, RTree, RTreeConfig};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Runs a part of the library that may panic, in which case nothing is returned.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Res<Option<R>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(Some(r)),
        Err(p) => {
            if let Some(v) = p.downcast_ref::<Verdict>() {
                viol!("{}", v.0);
            }
            match panic_fail() {
                Fail::Violation(_) => Ok(None),
                e => Err(e),
            }
        }
    }
}

/// Operations on such trees.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sop {
    Ins(u8),
    Uni(u8),
    Rem(u8),
    Clo,
    /// all queries and joins
    Ask,
}

pub fn fmt_word(w: &[Sop]) -> String {
    w.iter()
        .map(|o| match o {
            Sop::Ins(k) => format!("i{k}"),
            Sop::Uni(k) => format!("u{k}"),
            Sop::Rem(k) => format!("r{k}"),
            Sop::Clo => "c".into(),
            Sop::Ask => "q".into(),
        })
        .collect::<Vec<_>>()
        .join(",")
}

pub fn parse_word(s: &str) -> Vec<Sop> {
    s.split(',')
        .filter(|s| !s.is_empty())
        .map(|s| {
            let k = || s[1..].parse().expect("key");
            match &s[..1] {
                "i" => Sop::Ins(k()),
                "u" => Sop::Uni(k()),
                "r" => Sop::Rem(k()),
                "c" => Sop::Clo,
                _ => Sop::Ask,
            }
        })
        .collect()
}

#[derive(Default, Debug)]
pub struct Seen {
    pub ops: u64,
    /// panics of the library
    pub panics: u64,
    pub rejected: bool,
    /// kinds of the answers that user code gave
    pub answers: Vec<u8>,
}

/// Whether answers are right, and if not, which are wrong.
#[derive(Clone, Default)]
pub struct Script {
    pub policy: [u8; 8],
    pub at: Vec<(u32, u8)>,
    pub lies: bool,
}

/// One history. As long as nothing has panicked the entries are exactly those
/// that were inserted and not returned; `exact`: results agree with the model of
/// a multimap, too.
pub fn history<P: Pad>(keys: &[SAABB<i32, 2>], cfg: Cfg, word: &[Sop], script: &Script, exact: bool) -> Res<Seen> {
    world(|w| w.reset());
    calloc::start();
    let mut seen = Seen::default();
    let r = guarded(|| body::<P>(keys, cfg, word, script, exact, &mut seen));
    world(|w| w.lying(false));
    let (e, blocks, bytes) = calloc::end();
    r?;
    world(|w| w.check())?;
    ensure!(e == 0, "{}", calloc::error_text(e));
    if seen.panics == 0 && !seen.rejected {
        let live = world(|w| w.live());
        ensure!(live == [0; 4], "after the trees are gone {live:?} bounds, keys, values and others have not been dropped");
        ensure!(blocks == 0 && bytes == 0, "after the trees are gone {blocks} blocks with {bytes} bytes have not been deallocated");
    }
    Ok(seen)
}

fn body<P: Pad>(keys: &[SAABB<i32, 2>], cfg: Cfg, word: &[Sop], script: &Script, exact: bool, seen: &mut Seen) -> Res {
    let Some(tree) = attempt(|| RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 }))? else {
        seen.rejected = true;
        return Ok(());
    };
    let mut r = TRun::<P> { keys: std::rc::Rc::new(keys.to_vec()), tree, model: vec![], stamp: 0 };
    if script.lies {
        world(|w| w.lie(script.policy, &script.at));
    }
    for (i, &op) in word.iter().enumerate() {
        let what = format!("operation {i}, {op:?}");
        let res = one(&mut r, op, exact, seen, &what);
        world(|w| w.lying(false));
        res?;
        world(|w| w.check()).map_err(|e| at(e, &what))?;
        seen.ops += 1;
        // what is in the tree
        let got = attempt(|| r.tree.iter().take(r.model.len() + 2).map(|(k, v)| (k.look(), v.look())).collect::<Vec<_>>())?;
        match got {
            Some(got) => {
                let set: BTreeSet<_> = got.iter().copied().collect();
                ensure!(set.len() == got.len(), "{what}: an entry is yielded twice: {got:?}");
                for e in &got {
                    ensure!(r.model.contains(e), "{what}: yields {e:?}, but the entries can be {:?} only", r.model);
                }
                if seen.panics == 0 {
                    ensure!(got.len() == r.model.len(), "{what}: the entries {:?} are there, but only {got:?} are yielded", r.model);
                    ensure!(r.tree.len() == got.len(), "{what}: len() is {} for {} entries", r.tree.len(), got.len());
                    r.check_live([0; 4], &what)?;
                }
            }
            None => {
                ensure!(seen.panics > 0, "{what}: iteration panics");
            }
        }
        world(|w| w.check()).map_err(|e| at(e, &what))?;
        if script.lies {
            world(|w| w.lying(true));
        }
    }
    if script.lies {
        seen.answers = world(|w| w.answers());
    }
    Ok(())
}

fn one<P: Pad>(r: &mut TRun<P>, op: Sop, exact: bool, seen: &mut Seen, what: &str) -> Res {
    // wrong answers are not given while the model is compared
    let first = |m: &[(u8, u32)], k: u8| m.iter().any(|e| e.0 == k);
    match op {
        Sop::Ins(k) => {
            r.stamp += 1;
            let (key, v, s) = (r.key(k), TV::new(r.stamp), r.stamp);
            if attempt(|| r.tree.insert(key, v))?.is_none() {
                seen.panics += 1;
            }
            // after a panic it may be there
            r.model.push((k, s));
        }
        Sop::Uni(k) => {
            r.stamp += 1;
            let (key, v, s) = (r.key(k), TV::new(r.stamp), r.stamp);
            let had = first(&r.model, k);
            match attempt(|| r.tree.insert_unique(key, v))? {
                None => {
                    seen.panics += 1;
                    r.model.push((k, s));
                    // or it replaces the value of any entry
                    let keys: BTreeSet<u8> = r.model.iter().map(|e| e.0).collect();
                    r.model.extend(keys.into_iter().filter(|x| *x != k).map(|x| (x, s)));
                }
                Some(None) => {
                    ensure!(!exact || !had || seen.panics > 0, "{what}: there is an entry with the key, but none is replaced");
                    r.model.push((k, s));
                }
                Some(Some(old)) => {
                    let old = old.look();
                    let Some(e) = r.model.iter_mut().find(|e| e.1 == old) else { viol!("{what}: returns the value {old}, which was not in the tree") };
                    ensure!(!exact || e.0 == k, "{what}: replaces the value of the key {}", e.0);
                    e.1 = s;
                }
            }
        }
        Sop::Rem(k) => {
            let key = r.key(k);
            let had = first(&r.model, k);
            let res = attempt(|| r.tree.remove::<TK<P>>(&key))?;
            match res {
                None => seen.panics += 1,
                Some(None) => ensure!(!exact || !had || seen.panics > 0, "{what}: there is an entry with the key, but none is removed"),
                Some(Some(v)) => {
                    let v = v.look();
                    let Some(i) = r.model.iter().position(|e| e.1 == v) else { viol!("{what}: returns the value {v}, which was not in the tree") };
                    ensure!(!exact || r.model[i].0 == k, "{what}: removes an entry with the key {}", r.model[i].0);
                    r.model.swap_remove(i);
                }
            }
        }
        Sop::Clo => match attempt(|| r.tree.clone())? {
            Some(c) => r.tree = c,
            None => seen.panics += 1,
        },
        Sop::Ask => ask(r, exact, seen, what)?,
    }
    Ok(())
}

/// All queries. Each yields entries of the tree only, each at most once, and
/// with right answers exactly what it has to.
fn ask<P: Pad>(r: &mut TRun<P>, exact: bool, seen: &mut Seen, what: &str) -> Res {
    let n = r.model.len();
    let exact = exact && seen.panics == 0;
    let model = r.model.clone();
    let masks: &[u64] = &[u64::MAX, 0b101];
    macro_rules! query {
        ($name:expr, $mask:expr, $it:expr) => {{
            let got = attempt(|| $it.take(n + 2).map(|(k, v)| (k.look(), v.look())).collect::<Vec<_>>())?;
            match got {
                None => seen.panics += 1,
                Some(got) => {
                    let set: BTreeSet<_> = got.iter().copied().collect();
                    ensure!(set.len() == got.len(), "{what}: {} yields an entry twice: {got:?}", $name);
                    for e in &got {
                        ensure!(model.contains(e), "{what}: {} yields {e:?}, but the entries can be {model:?} only", $name);
                    }
                    if exact {
                        let want = model.iter().filter(|e| $mask >> e.0 & 1 == 1).count();
                        ensure!(got.len() == want && got.iter().all(|e| $mask >> e.0 & 1 == 1), "{what}: {} yields {got:?} of {model:?}", $name);
                    }
                }
            }
        }};
    }
    for &m in masks {
        let f = r.filter(m);
        query!("filter_iter", m, r.tree.filter_iter::<TK<P>, _>(f));
        let f = r.filter(m);
        query!("filter_iter_mut", m, r.tree.filter_iter_mut::<TK<P>, _>(f));
        let f = TO(r.filter(m));
        query!("filter_iter_asc_by", m, r.tree.filter_iter_asc_by(f));
        let f = TO(r.filter(m));
        query!("filter_iter_asc_by_mut", m, r.tree.filter_iter_asc_by_mut(f));
    }
    let f = TR(r.filter(u64::MAX));
    query!("iter_asc_by", u64::MAX, r.tree.iter_asc_by(f));
    let f = TR(r.filter(u64::MAX));
    query!("iter_asc_by_mut", u64::MAX, r.tree.iter_asc_by_mut(f));
    query!("iter_mut", u64::MAX, r.tree.iter_mut());
    for k in 0..r.keys.len().min(2) as u8 {
        let key = r.key(k);
        let g = attempt(|| r.tree.get(&key).map(|v| v.look()))?;
        let h = attempt(|| r.tree.get_mut(&key).map(|v| v.look()))?;
        for g in [g, h] {
            match g {
                None => seen.panics += 1,
                Some(Some(v)) => ensure!(model.iter().any(|e| e.1 == v && (!exact || e.0 == k)), "{what}: a lookup shows the value {v}"),
                Some(None) => ensure!(!exact || !model.iter().any(|e| e.0 == k), "{what}: a lookup does not find the key {k}"),
            }
        }
    }
    // joins with itself
    let f = r.filter(u64::MAX);
    let pairs = attempt(|| {
        r.tree
            .join::<_, _, _, TK<P>, TK<P>, _>(&r.tree, f)
            .take(n * n + 1)
            .map(|(a, b)| (a.0.look(), a.1.look(), b.0.look(), b.1.look()))
            .collect::<Vec<_>>()
    })?;
    match pairs {
        None => seen.panics += 1,
        Some(p) => {
            let set: BTreeSet<_> = p.iter().copied().collect();
            ensure!(set.len() == p.len(), "{what}: a join yields a pair twice: {p:?}");
            for e in &p {
                ensure!(model.contains(&(e.0, e.1)) && model.contains(&(e.2, e.3)), "{what}: a join yields {e:?}");
            }
        }
    }
    let f = r.filter(u64::MAX);
    let left = attempt(|| {
        // inner iterators are kept, every other one is begun before
        let mut kept = vec![];
        for (i, ((k, v), mut inner)) in r.tree.left_join::<_, _, _, TK<P>, TK<P>, _>(&r.tree, f).take(n + 1).enumerate() {
            let first = if i % 2 == 0 { inner.next().map(|(k, v)| (k.look(), v.look())) } else { None };
            kept.push(((k.look(), v.look()), first, inner));
        }
        kept.into_iter()
            .rev()
            .map(|(l, first, inner)| (l, first.into_iter().chain(inner.take(n + 1).map(|(k, v)| (k.look(), v.look()))).collect::<Vec<_>>()))
            .collect::<Vec<_>>()
    })?;
    match left {
        None => seen.panics += 1,
        Some(l) => {
            let set: BTreeSet<_> = l.iter().map(|x| x.0).collect();
            ensure!(set.len() == l.len(), "{what}: a left join yields an entry twice");
            ensure!(seen.panics > 0 || l.len() == n, "{what}: a left join yields {} of {n} entries", l.len());
            for (a, bs) in &l {
                let set: BTreeSet<_> = bs.iter().collect();
                ensure!(set.len() == bs.len(), "{what}: a left join yields a right entry twice: {bs:?}");
                ensure!(model.contains(a) && bs.iter().all(|b| model.contains(b)), "{what}: a left join yields {a:?} with {bs:?}");
            }
        }
    }
    Ok(())
}
