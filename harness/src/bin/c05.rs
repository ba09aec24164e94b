//! C05: nothing below rejected bounds is examined, and nothing twice.
use rtree_mc::prelude::*;
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static QUERIES: AtomicU64 = AtomicU64::new(0);

// ---------------------------------------------------------------- filters

/// Rejects the bounds of a list and notes every call.
struct Rec<'a, V: Variant> {
    alpha: &'a Alpha<V>,
    reject: &'a [MBox],
    keys: u64,
    bounds: &'a RefCell<Vec<MBox>>,
    asked: &'a RefCell<Vec<u8>>,
}

impl<'a, V: Variant> SpatialFilter<V::B, V::K> for Rec<'a, V> {
    fn test_bounds(&self, b: &V::B) -> bool {
        let Some(b) = V::mbox(b) else { vpanic("a filter was asked about empty bounds".into()) };
        self.bounds.borrow_mut().push(b);
        !self.reject.contains(&b)
    }
    fn test_key(&self, k: &V::K) -> bool {
        let id = self.alpha.id(k) as u8;
        self.asked.borrow_mut().push(id);
        self.keys >> id & 1 == 1
    }
}

fn multiset<T: std::hash::Hash + Eq + Copy>(v: &[T]) -> HashMap<T, usize> {
    let mut m = HashMap::new();
    for x in v {
        *m.entry(*x).or_insert(0) += 1;
    }
    m
}

fn within<T: std::hash::Hash + Eq + Copy + std::fmt::Debug>(got: &[T], most: &[T], what: &str) -> Res {
    let (g, m) = (multiset(got), multiset(most));
    for (x, n) in g {
        let lim = *m.get(&x).unwrap_or(&0);
        ensure!(n <= lim, "{what}: {x:?} is examined {n} times instead of at most {lim} times");
    }
    Ok(())
}

/// Values that sets of rejected bounds are made of.
fn reject_sets(d: &Dump, limit: usize) -> Vec<Vec<MBox>> {
    let mut vals: Vec<MBox> = vec![];
    for n in &d.nodes {
        if let Some(b) = n.bounds {
            if !vals.contains(&b) {
                vals.push(b);
            }
        }
    }
    let mut out = vec![];
    if vals.len() <= limit {
        for m in 0u32..1 << vals.len() {
            out.push((0..vals.len()).filter(|i| m >> i & 1 == 1).map(|i| vals[i]).collect());
        }
    } else {
        out.push(vec![]);
        for i in 0..vals.len() {
            out.push(vec![vals[i]]);
            for j in 1..i {
                if (i + j) % (1 + vals.len() / 8) == 0 {
                    out.push(vec![vals[i], vals[j]]);
                }
            }
        }
        // everything below the root, and every second value
        out.push(vals[1..].to_vec());
        out.push(vals.iter().step_by(2).skip(1).copied().collect());
        out.push(vals.iter().skip(1).step_by(2).copied().collect());
    }
    out
}

/// What a filter that rejects these bounds may be asked.
fn allowed<V: Variant>(r: &Run<V>, d: &Dump, reject: &[MBox]) -> (Vec<MBox>, Vec<u8>) {
    let (mut bs, mut ks) = (vec![], vec![]);
    let mut stack = vec![0];
    while let Some(i) = stack.pop() {
        let Some(b) = d.nodes[i].bounds else { continue };
        bs.push(b);
        if !reject.contains(&b) {
            stack.extend(&d.nodes[i].kids);
            ks.extend(d.nodes[i].ents.iter().filter_map(|v| r.key_of(*v)));
        }
    }
    (bs, ks)
}

pub fn filters<V: Variant>(r: &mut Run<V>, d: &Dump) -> Res {
    let cap = r.model.len();
    let alpha = r.alpha;
    let mut n = 0;
    for reject in reject_sets(d, 8) {
        let (bs, ks) = allowed(r, d, &reject);
        for keys in [u64::MAX, 0, 0x5555_5555_5555_5555] {
            for mutable in [false, true] {
                let (bounds, asked) = (RefCell::new(vec![]), RefCell::new(vec![]));
                let f = Rec { alpha, reject: &reject, keys, bounds: &bounds, asked: &asked };
                let got = if mutable {
                    capped(r.tree.filter_iter_mut::<V::K, _>(f).map(|x| *x.1), cap, "filtered mutable iteration")?
                } else {
                    capped(r.tree.filter_iter::<V::K, _>(f).map(|x| *x.1), cap, "filtered iteration")?
                };
                let what = format!("query (mutable: {mutable}) rejecting the bounds {reject:?}");
                within(&bounds.borrow(), &bs, &what)?;
                within(&asked.borrow(), &ks, &what)?;
                let mut keep = ks.clone();
                keep.retain(|k| keys >> k & 1 == 1);
                let got: Vec<u8> = got.iter().filter_map(|v| r.key_of(*v)).collect();
                within(&got, &keep, &what)?;
                n += 1;
            }
        }
    }
    QUERIES.fetch_add(n, Relaxed);
    Ok(())
}

// ---------------------------------------------------------------- lookups

thread_local! {
    static COMPARED: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}

/// A box key whose comparisons are noted.
#[derive(Clone, Debug)]
pub struct EqKey(u8, rusty_rtree::bounds::SAABB<i32, 2>);
impl PartialEq for EqKey {
    fn eq(&self, o: &EqKey) -> bool {
        COMPARED.with(|c| {
            if let Some(v) = &mut *c.borrow_mut() {
                v.push(self.0);
                v.push(o.0);
            }
        });
        self.0 == o.0
    }
}
impl Eq for EqKey {}
impl rusty_rtree::bounds::Bounded<rusty_rtree::bounds::SAABB<i32, 2>> for EqKey {
    fn bounds(&self) -> rusty_rtree::bounds::SAABB<i32, 2> {
        self.1
    }
}
pub struct EqV;
impl Variant for EqV {
    type B = rusty_rtree::bounds::SAABB<i32, 2>;
    type K = EqKey;
    const NAME: &'static str = "eqi2";
    const D: usize = 2;
    fn key(i: usize, b: &MBox) -> EqKey {
        EqKey(i as u8, sb(b))
    }
    fn mbox(b: &Self::B) -> Option<MBox> {
        msb(b)
    }
}

/// Runs a lookup and returns which keys of the tree were compared with key `k`.
fn recorded<R>(k: u8, f: impl FnOnce() -> R) -> (R, Vec<u8>) {
    COMPARED.with(|c| *c.borrow_mut() = Some(vec![]));
    let r = f();
    let log = COMPARED.with(|c| c.borrow_mut().take()).unwrap_or_default();
    // each comparison has noted both sides
    let other = log.chunks(2).map(|p| if p[0] == k { p[1] } else { p[0] }).collect();
    (r, other)
}

fn lookups(r: &mut Run<EqV>, d: &Dump) -> Res
where
    <EqV as Variant>::B: Contains<<EqV as Variant>::B>,
{
    // entries that may be compared: those in leaves that the lookup may open
    for k in 0..r.alpha.len() as u8 {
        let kb = r.alpha.boxes[k as usize];
        let mut may = vec![];
        let mut stack = vec![0];
        while let Some(i) = stack.pop() {
            let n = &d.nodes[i];
            may.extend(n.ents.iter().filter_map(|v| r.key_of(*v)));
            stack.extend(n.kids.iter().copied().filter(|&c| d.nodes[c].bounds.map_or(false, |b| b.contains(&kb))));
        }
        let key = r.alpha.keys[k as usize].clone();
        let (_, g) = recorded(k, || r.tree.get(&key).copied());
        within(&g, &may, &format!("lookup of key {k}"))?;
        let (_, g) = recorded(k, || r.tree.get_mut(&key).is_some());
        within(&g, &may, &format!("mutable lookup of key {k}"))?;
        let mut other = r.rebuild()?;
        let (_, g) = recorded(k, || other.tree.insert_unique(key.clone(), 9999));
        within(&g, &may, &format!("unique insert of key {k}"))?;
    }
    QUERIES.fetch_add(3 * r.alpha.len() as u64, Relaxed);
    Ok(())
}

// ---------------------------------------------------------------- joins

type Obj = MBox;

/// Rejects the pairs of a list and notes every call.
#[derive(Clone)]
struct JRec<'a> {
    alpha: &'a Alpha<Bi2>,
    reject: &'a HashSet<(Obj, Obj)>,
    bounds: &'a RefCell<Vec<(Obj, Obj)>>,
    asked: &'a RefCell<Vec<(u8, u8)>>,
}

impl<'a> JoinFilter<<Bi2 as Variant>::B, <Bi2 as Variant>::B, <Bi2 as Variant>::K, <Bi2 as Variant>::K> for JRec<'a> {
    fn test_bounds(&self, l: &<Bi2 as Variant>::B, r: &<Bi2 as Variant>::B) -> bool {
        let (Some(l), Some(r)) = (msb(l), msb(r)) else { vpanic("a join filter was asked about empty bounds".into()) };
        self.bounds.borrow_mut().push((l, r));
        !self.reject.contains(&(l, r))
    }
    fn test_key(&self, l: &<Bi2 as Variant>::K, r: &<Bi2 as Variant>::K) -> bool {
        self.asked.borrow_mut().push((self.alpha.id(l) as u8, self.alpha.id(r) as u8));
        true
    }
}

/// A tree for joins: its nodes and entries with their ancestors.
struct Side {
    /// bounds and chain of ancestors (itself included) of each node
    nodes: Vec<(Obj, Vec<usize>)>,
    /// key and chain of ancestors of each entry
    ents: Vec<(u8, Vec<usize>)>,
}

fn side_of(r: &Run<Bi2>, d: &Dump) -> Side {
    let mut s = Side { nodes: vec![], ents: vec![] };
    for (i, n) in d.nodes.iter().enumerate() {
        let mut chain = vec![i];
        let mut p = n.parent;
        while let Some(q) = p {
            chain.push(q);
            p = d.nodes[q].parent;
        }
        s.nodes.push((n.bounds.unwrap_or(b2(0, 0, 0, 0)), chain.clone()));
        s.ents.extend(n.ents.iter().filter_map(|v| r.key_of(*v)).map(|k| (k, chain.clone())));
    }
    s
}

struct JCase {
    name: String,
    cfg: (Cfg, Cfg),
    hl: Vec<Op>,
    hr: Vec<Op>,
    alpha: String,
}

fn join_pair(c: &JCase, pairs: usize) -> Res {
    let alpha = Alpha::<Bi2>::new(&c.alpha);
    let l = Run::<Bi2>::build(&alpha, c.cfg.0, &c.hl)?;
    let r = Run::<Bi2>::build(&alpha, c.cfg.1, &c.hr)?;
    let (dl, dr) = (l.dump()?, r.dump()?);
    let (sl, sr) = (side_of(&l, &dl), side_of(&r, &dr));
    let cap = l.model.len() * r.model.len();
    let mut n = 0;
    for left in [false, true] {
        let run = |reject: &HashSet<(Obj, Obj)>| -> Res<(Vec<(Obj, Obj)>, Vec<(u8, u8)>)> {
            let (bounds, asked) = (RefCell::new(vec![]), RefCell::new(vec![]));
            let f = JRec { alpha: &alpha, reject, bounds: &bounds, asked: &asked };
            if left {
                let mut pairs = 0;
                let it = l.tree.left_join::<_, _, _, <Bi2 as Variant>::K, <Bi2 as Variant>::K, _>(&r.tree, f);
                for (_, inner) in capped(it, l.model.len(), "left join")? {
                    pairs += capped(inner, r.model.len(), "inner iterator of a left join")?.len();
                }
                ensure!(pairs <= cap, "left join yields more than {cap} pairs");
            } else {
                let it = l.tree.join::<_, _, _, <Bi2 as Variant>::K, <Bi2 as Variant>::K, _>(&r.tree, f);
                capped(it, cap, "join")?;
            }
            Ok((bounds.into_inner(), asked.into_inner()))
        };
        let (calls, _) = run(&HashSet::new())?;
        let distinct: Vec<(Obj, Obj)> = {
            let mut s = HashSet::new();
            calls.iter().copied().filter(|x| s.insert(*x)).collect()
        };
        let mut sets: Vec<HashSet<(Obj, Obj)>> = vec![HashSet::new()];
        if distinct.len() <= 5 {
            for m in 1u32..1 << distinct.len() {
                sets.push((0..distinct.len()).filter(|i| m >> i & 1 == 1).map(|i| distinct[i]).collect());
            }
        } else {
            for (i, x) in distinct.iter().enumerate() {
                sets.push([*x].into());
                if i < pairs {
                    for y in distinct.iter().take(i) {
                        sets.push([*x, *y].into());
                    }
                }
            }
            sets.push(distinct.iter().skip(1).copied().collect());
            sets.push(distinct.iter().step_by(2).skip(1).copied().collect());
            sets.push(distinct.iter().step_by(3).skip(1).copied().collect());
        }
        for reject in &sets {
            n += 1;
            let (calls, asked) = run(reject)?;
            check_join(&sl, &sr, &calls, &asked, reject, left, &alpha)
                .map_err(|e| match e {
                    Fail::Violation(m) => Fail::Violation(format!(
                        "{}, rejecting {reject:?}: {m}", if left { "left join" } else { "join" })),
                    e => e,
                })?;
        }
    }
    QUERIES.fetch_add(n, Relaxed);
    Ok(())
}

/// Left objects of a left join are nodes and entries (by the bounds of their
/// keys); a rejection counts if the two values identify the objects, or if
/// both objects' values were asked about as often as there are such pairs.
fn check_join(
    sl: &Side,
    sr: &Side,
    calls: &[(Obj, Obj)],
    asked: &[(u8, u8)],
    reject: &HashSet<(Obj, Obj)>,
    left: bool,
    alpha: &Alpha<Bi2>,
) -> Res {
    // objects with a value: (is an entry, index)
    let mut lobj: HashMap<Obj, Vec<(bool, usize)>> = HashMap::new();
    let mut robj: HashMap<Obj, Vec<usize>> = HashMap::new();
    for (i, n) in sl.nodes.iter().enumerate() {
        lobj.entry(n.0).or_default().push((false, i));
    }
    if left {
        for (i, e) in sl.ents.iter().enumerate() {
            lobj.entry(alpha.boxes[e.0 as usize]).or_default().push((true, i));
        }
    }
    for (i, n) in sr.nodes.iter().enumerate() {
        robj.entry(n.0).or_default().push(i);
    }
    let count = multiset(calls);
    // pairs of objects that have certainly been rejected
    let mut dead: HashSet<((bool, usize), usize)> = HashSet::new();
    for (x, n) in &count {
        let (Some(lo), Some(ro)) = (lobj.get(&x.0), robj.get(&x.1)) else {
            viol!("the filter was asked about the pair {x:?}, which are not the bounds of any two nodes");
        };
        let most = lo.len() * ro.len();
        ensure!(*n <= most, "the pair of bounds {x:?} is examined {n} times instead of at most {most} times");
        if reject.contains(x) && *n == most {
            for a in lo {
                for b in ro {
                    dead.insert((*a, *b));
                }
            }
        }
    }
    // is an object pair strictly below a rejected one?
    let below = |a: (bool, usize), b: Option<usize>, rchain: &[usize]| -> bool {
        let mut up: Vec<(bool, usize)> = vec![];
        if a.0 {
            up.push(a);
            up.extend(sl.ents[a.1].1.iter().map(|i| (false, *i)));
        } else {
            up.extend(sl.nodes[a.1].1.iter().map(|i| (false, *i)));
        }
        up.iter().any(|x| rchain.iter().any(|y| (*x, Some(*y)) != (a, b) && dead.contains(&(*x, *y))))
    };
    for (x, n) in &count {
        let mut ok = 0;
        for a in &lobj[&x.0] {
            for b in &robj[&x.1] {
                if !below(*a, Some(*b), &sr.nodes[*b].1) {
                    ok += 1;
                }
            }
        }
        ensure!(*n <= ok, "the pair of bounds {x:?} is examined {n} times, but only {ok} such pairs are not below a rejected pair");
    }
    opened_after_accepting(sl, sr, calls, asked, reject, left, alpha)?;
    for (x, n) in multiset(asked) {
        let mut ok = 0;
        for (i, e) in sl.ents.iter().enumerate().filter(|e| e.1 .0 == x.0) {
            let _ = e;
            for f in sr.ents.iter().filter(|f| f.0 == x.1) {
                if !below((true, i), None, &f.1) {
                    ok += 1;
                }
            }
        }
        ensure!(n <= ok, "the keys {x:?} are combined {n} times, but only {ok} such pairs of entries are not below a rejected pair");
    }
    Ok(())
}

/// A right node is examined only if its parent was accepted before, together
/// with the left object or one that it lies in; in a join, which examines pairs
/// of nodes, the same holds for the left side. Keys are combined only if the
/// leaves were accepted in that way.
fn opened_after_accepting(
    sl: &Side,
    sr: &Side,
    calls: &[(Obj, Obj)],
    asked: &[(u8, u8)],
    reject: &HashSet<(Obj, Obj)>,
    left: bool,
    alpha: &Alpha<Bi2>,
) -> Res {
    // values of the left objects that objects with this value lie in, themselves included
    let mut lup: HashMap<Obj, HashSet<Obj>> = HashMap::new();
    let mut leaf_up: HashMap<u8, HashSet<Obj>> = HashMap::new();
    let mut lroot = None;
    for n in &sl.nodes {
        lup.entry(n.0).or_default().extend(n.1.iter().map(|i| sl.nodes[*i].0));
        if n.1.len() == 1 {
            lroot = Some(n.0);
        }
    }
    for e in &sl.ents {
        let up: HashSet<Obj> = e.1.iter().map(|i| sl.nodes[*i].0).collect();
        let b = alpha.boxes[e.0 as usize];
        if left {
            let s = lup.entry(b).or_default();
            s.insert(b);
            s.extend(&up);
        }
        let s = leaf_up.entry(e.0).or_default();
        if left {
            s.insert(b);
        }
        s.extend(&up);
    }
    let mut rpar: HashMap<Obj, HashSet<Option<Obj>>> = HashMap::new();
    let mut rself: HashMap<u8, HashSet<Obj>> = HashMap::new();
    for n in &sr.nodes {
        rpar.entry(n.0).or_default().insert(n.1.get(1).map(|i| sr.nodes[*i].0));
    }
    for e in &sr.ents {
        rself.entry(e.0).or_default().insert(sr.nodes[e.1[0]].0);
    }
    let mut accepted: HashMap<Obj, HashSet<Obj>> = HashMap::new();
    for (a, b) in calls {
        let parents = &rpar[b];
        // the root of the right tree has no parent; a left node below the root
        // is then combined with the root because its parent was
        let fine = parents.iter().any(|p| match p {
            None => left || Some(*a) == lroot || accepted.get(b).is_some_and(|s| s.iter().any(|x| lup[a].contains(x))),
            Some(p) => {
                accepted.get(p).is_some_and(|s| s.iter().any(|x| lup[a].contains(x)))
                    || !left && accepted.get(b).is_some_and(|s| s.iter().any(|x| lup[a].contains(x)))
            }
        });
        ensure!(fine, "the pair of bounds {:?} is examined although no pair that it lies in has been accepted", (a, b));
        if !reject.contains(&(*a, *b)) {
            accepted.entry(*b).or_default().insert(*a);
        }
    }
    for (l, r) in asked {
        let fine = rself[r].iter().any(|b| accepted.get(b).is_some_and(|s| s.iter().any(|x| leaf_up[l].contains(x))));
        ensure!(fine, "the keys {:?} are combined although their leaves have not been accepted", (l, r));
    }
    Ok(())
}

fn join_cases(t: bool) -> Vec<JCase> {
    let mut hs: Vec<(Cfg, Vec<Op>)> = vec![];
    let cfgs: &[Cfg] = if t { &[(2, 1), (3, 1), (4, 2), (6, 3)] } else { &[(2, 1), (4, 2)] };
    for &cfg in cfgs {
        for n in if t { vec![1, 2, 3, 4, 5, 6, 8, 10, 13, 17] } else { vec![1, 2, 3, 5, 8, 12] } {
            for o in ["asc", "step3", "ends"] {
                let h: Vec<Op> = order(o, 18).into_iter().take(n).map(Op::Ins).collect();
                hs.push((cfg, h));
            }
        }
        // duplicates
        hs.push((cfg, vec![Op::Ins(0), Op::Ins(0), Op::Ins(1), Op::Ins(1), Op::Ins(2)]));
    }
    let mut out = vec![];
    for a in ["scat:18", "nested:18", "over:18"] {
        for l in &hs {
            for r in &hs {
                let c = JCase { name: String::new(), cfg: (l.0, r.0), hl: l.1.clone(), hr: r.1.clone(), alpha: a.into() };
                out.push(JCase {
                    name: format!("J=1 A={a} C={} D={} H={} G={}", fmt_cfg(l.0), fmt_cfg(r.0), fmt_hist(&l.1), fmt_hist(&r.1)),
                    ..c
                });
            }
        }
    }
    out
}

fn check_b<V: Variant>(r: &mut Run<V>, d: &Dump, _: Option<Op>) -> Res {
    filters(r, d)
}
fn check_e(r: &mut Run<EqV>, d: &Dump, _: Option<Op>) -> Res {
    lookups(r, d)
}

fn run(ctx: &Ctx) {
    rtree_mc::giants::run(ctx, &["visits"]);
    explore_all!(ctx, check_b; querying(ctx, 0) => [Bi2]; querying_side(ctx) => [TagV, PtV]);
    explore::<EqV>(ctx, &querying(ctx, 0), &check_e);
    let cases = join_cases(ctx.thorough());
    let pairs = ctx.qt(6, 20);
    ctx.par_cases(&cases, |c| c.name.clone(), |c| join_pair(c, pairs));
    ctx.add("pairs_of_trees", cases.len() as u64);
    ctx.add("queries", QUERIES.load(Relaxed));
    std_notes(ctx);
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    if c.get("J") == "1" {
        return join_pair(
            &JCase {
                name: String::new(),
                cfg: (parse_cfg(c.get("C")), parse_cfg(c.get("D"))),
                hl: parse_hist(c.get("H")),
                hr: parse_hist(c.get("G")),
                alpha: c.get("A").into(),
            },
            20,
        );
    }
    if c.get("V") == "eqi2" {
        return replay::<EqV>(c, &check_e);
    }
    pick!(c.get("V"); [Bi2, TagV, PtV]; V => replay::<V>(c, &check_b::<V>))
}

fn main() {
    rtree_mc::main_for("C05", "model_checking", run, one)
}
