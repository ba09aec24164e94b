//! C30: no configuration makes the tree unsound, and none with at least two
//! children per node makes it wrong.
use rtree_mc::calloc;
use rtree_mc::prelude::*;
use rtree_mc::sound::*;
use rtree_mc::tracked::*;
use rusty_rtree::contains::Contains;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[global_allocator]
static GLOBAL: calloc::Checked = calloc::Checked;

static OPS: AtomicU64 = AtomicU64::new(0);
static PANICS: AtomicU64 = AtomicU64::new(0);
static REJECTED: AtomicU64 = AtomicU64::new(0);

/// A history with tracked entries.
fn tracked<P: Pad>(c: &Case) -> Res {
    let keys = tkeys(c.get("A"));
    let cfg = parse_cfg(c.get("C"));
    let s = history::<P>(&keys, cfg, &parse_word(c.get("W")), &Script::default(), true)?;
    ensure!(s.panics == 0 && !s.rejected || cfg.0 < 2 || cfg.0 > 1 << 40, "panics {} times", s.panics);
    OPS.fetch_add(s.ops, Relaxed);
    PANICS.fetch_add((s.panics > 0) as u64, Relaxed);
    REJECTED.fetch_add(s.rejected as u64, Relaxed);
    Ok(())
}

/// The tree shows the entries of the model, no node is too large, with a minimum
/// of at least one none but
/// an empty root is empty, and all leaves are at the same depth.
fn check<V: Variant>(r: &mut Run<V>, d: &Dump, _: Option<Op>) -> Res
where
    V::B: Contains<V::B>,
{
    let height = d.height();
    for (i, n) in d.nodes.iter().enumerate() {
        let c = n.kids.len() + n.ents.len();
        ensure!(c <= r.cfg.0, "node {i} at depth {} has {c} children, more than {}", n.depth, r.cfg.0);
        ensure!(c > 0 || d.nodes.len() == 1, "node {i} at depth {} is empty", n.depth);
        ensure!(n.parent.is_some() || n.kids.is_empty() || c >= 2, "the root has a single child node");
        ensure!(!n.kids.is_empty() || n.depth == height, "leaf {i} is at depth {}, others at {height}", n.depth);
    }
    r.check_contents()?;
    r.check_lookups()
}

/// A tall tree: with two children per node, the height can be as much as the
/// number of entries.
fn tall(n: usize, cfg: Cfg, mode: usize) -> Res {
    use rusty_rtree::{bounds::SAABB, filter::IntersectsFilter, vector::SVec, RTree, RTreeConfig};
    type K = SAABB<i32, 2>;
    let body = move || -> Res {
        let key = |i: usize| -> K {
            let i = i as i32;
            match mode {
                0 => SAABB { min: SVec([0, 0]), max: SVec([1, 1]) },
                1 => SAABB { min: SVec([3 * i, 0]), max: SVec([3 * i + 1, 1]) },
                2 => SAABB { min: SVec([-i, -i]), max: SVec([i, i]) },
                _ => SAABB { min: SVec([i % 7, i % 5]), max: SVec([i % 7, i % 5]) },
            }
        };
        let mut t: RTree<K, K, usize> = RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 });
        let all = |t: &RTree<K, K, usize>, m: usize, what: &str| -> Res {
            let mut v: Vec<usize> = t.iter().map(|e| *e.1).collect();
            v.sort();
            ensure!(t.len() == v.len() && v.len() == m, "{what}: {} entries are yielded and counted as {} instead of {m}", v.len(), t.len());
            ensure!(v.windows(2).all(|w| w[0] < w[1]), "{what}: an entry is yielded twice");
            Ok(())
        };
        for i in 0..n {
            t.insert(key(i), i);
            if i % 500 == 499 {
                all(&t, i + 1, "grown")?;
            }
        }
        let everything = SAABB { min: SVec([i32::MIN / 4; 2]), max: SVec([i32::MAX / 4; 2]) };
        let c = t.filter_iter::<K, _>(IntersectsFilter::new(everything)).count();
        ensure!(c == n, "a query yields {c} of {n} entries");
        let mut copy = t.clone();
        all(&copy, n, "clone")?;
        for i in 0..n {
            // those that were inserted first, last, first ...
            let k = key(if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 });
            let first = t.get(&k).copied();
            let got = t.remove(&k);
            ensure!(got.is_some() && got == first, "removal {i} returned {got:?}, and the lookup {first:?}");
            if i % 500 == 499 {
                all(&t, n - i - 1, "drained")?;
            }
        }
        ensure!(t.is_empty(), "the drained tree is not empty");
        ensure!(copy.insert_unique(key(n + 5), n).is_none() || mode == 0 || mode == 3, "a new key was there already");
        drop(copy);
        Ok(())
    };
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || guarded(body)).expect("thread");
    h.join().expect("thread")
}

fn one(c: &Case, _: Tier) -> Res {
    if rtree_mc::giants::is(c) {
        return rtree_mc::giants::one(c);
    }
    match c.get("P") {
        "tall" => tall(c.num("N"), parse_cfg(c.get("C")), c.num("M")),
        "plain" => tracked::<()>(c),
        "aligned" => tracked::<Aligned>(c),
        _ => pick!(c.get("V"); [Bi2, PtV]; V => replay::<V>(c, &check::<V>)),
    }
}

fn words(menu: &[Sop], depth: usize) -> Vec<Vec<Sop>> {
    let mut v: Vec<Vec<Sop>> = vec![vec![]];
    for _ in 0..depth {
        v = v.into_iter().flat_map(|h| menu.iter().map(move |&o| h.iter().copied().chain([o]).collect())).collect();
    }
    v
}

fn run(ctx: &Ctx) {
    rtree_mc::giants::run(ctx, &["contents", "fill", "left", "clone"]);
    let mut cases = vec![];
    let mins = || (0..=ctx.qt(7, 9)).chain([usize::MAX / 2, usize::MAX]);
    let menu = [Sop::Ins(0), Sop::Ins(1), Sop::Rem(0), Sop::Rem(1), Sop::Uni(2), Sop::Ask];
    for w in &words(&menu, ctx.qt(5, 6)) {
        for max in 0..=ctx.qt(5, 6) {
            for min in mins() {
                cases.push(format!("P=plain A=mix C={max}.{min} W={}", fmt_word(w)));
            }
        }
    }
    let n = cases.len();
    // capacities whose size in bytes is out of range, also modulo the range
    let huge = (1..=std::mem::size_of::<(TK<()>, TV<()>)>()).map(|i| (usize::MAX / i).saturating_add(1));
    for w in ["i0,i1,i2,q,r0", "u0,u1,c,q", "q,r0,c,i0"] {
        for max in huge.clone() {
            for d in [0, 1, 2] {
                for p in ["plain", "aligned"] {
                    cases.push(format!("P={p} A=mix C={}.1 W={w}", max.saturating_add(d)));
                }
            }
        }
    }
    // growing and draining
    for n in ctx.qt(vec![9u8, 14], vec![9, 14, 30]) {
        for a in ["scat", "over", "nested"] {
            for (x, y) in [(1, 1), (1, n as usize - 1), (5, 1), (n as usize - 1, 5)] {
                let k = |i: usize, s: usize| (i * s % n as usize) as u8;
                let mut w: Vec<Sop> = (0..n as usize).map(|i| if i % 4 == 3 { Sop::Uni(k(i, x)) } else { Sop::Ins(k(i, x)) }).collect();
                w.extend([Sop::Ask, Sop::Clo]);
                for i in 0..n as usize {
                    w.push(Sop::Rem(k(i, y)));
                    if i % 3 == 2 {
                        w.push(Sop::Ask);
                    }
                }
                for max in 0..=ctx.qt(8, 12) {
                    for min in mins() {
                        for p in ["plain", "aligned"] {
                            cases.push(format!("P={p} A={a}:{n} C={max}.{min} W={}", fmt_word(&w)));
                        }
                    }
                }
            }
        }
    }
    for cfg in [(2, 1), (2, 0), (2, 2), (2, 9), (3, 1), (3, 2), (3, 0), (4, 2), (6, 3), (9, 1)] {
        for mode in 0..4 {
            cases.insert(0, format!("P=tall N={} C={} M={mode}", ctx.qt(600, 1500), fmt_cfg(cfg)));
        }
    }
    for i in [0, n / 2, n, cases.len() - 1] {
        ctx.sample(&cases[i]);
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    ctx.add("tracked_histories", cases.len() as u64);
    // larger trees, and all states of small ones
    let odd: Vec<Cfg> = (2..=ctx.qt(5, 7)).flat_map(|max| (0..=max + 2).map(move |min| (max, min))).collect();
    let plan = Plan {
        only_new: true,
        bfs: vec![("mix", 4, "iru", ctx.qt(6, 7), 8, odd.clone())],
        scripts: vec![("scat", ctx.qt(14, 26), odd.clone()), ("nested", ctx.qt(10, 18), odd.clone())],
        around: vec![],
        walks: vec![("scat", 40, ctx.qt(80, 160), ctx.qt(7, 1), vec![(2, 0), (2, 2), (2, 9), (3, 0), (3, 3), (6, 5), (9, 0), (9, 8), (17, 0), (17, 16), (33, 30)])],
    };
    explore::<Bi2>(ctx, &plan, &check::<Bi2>);
    explore::<PtV>(ctx, &Plan { bfs: vec![("mix", 4, "ir", ctx.qt(5, 6), 8, odd)], ..plan.clone() }, &check::<PtV>);
    std_notes(ctx);
    ctx.add("evaluations", OPS.load(Relaxed) + ctx.count("transitions"));
    ctx.add("distinct_nontrivial", cases.len() as u64);
    ctx.add("histories_with_panics", PANICS.load(Relaxed));
    ctx.add("configurations_rejected", REJECTED.load(Relaxed));
    ctx.note(
        "rule",
        "all sequences of operations up to a length, and growing and draining histories, with every configuration in a range \
         (also those that are outside of what is documented) and with capacities whose size in bytes overflows; entries, bounds and \
         memory blocks are counted. For two children per node or more, results have to be those of the reference model; for less, and \
         for capacities that do not fit in memory, operations may panic, but nothing may be dropped twice or used after it is dropped",
    );
}

fn main() {
    rtree_mc::main_for("C30", "model_checking", run, one)
}
