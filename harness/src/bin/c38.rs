//! C38: the results do not depend on how the crate is built.
//!
//! The same behaviours are recorded by two builds of this program and of the
//! crate: one with debug assertions and overflow checks, one without them and
//! with full optimisation. Each case is a list of lines; the first line that
//! differs is reported.
use noisy_float::types::{n32, n64, N32, N64};
use rtree_mc::prelude::*;
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::{IntersectsFilter, BoundedIntersectsFilter, ContainsFilter, JoinFilter, NoFilter, SpatialFilter};
use rusty_rtree::geom::{line::Line, ray::Ray, sphere::Sphere};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, Ranking};
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::RefCell;
use std::fmt::{Debug, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// A record of behaviour: a digest, and the lines where they are wanted.
struct Rec {
    h: u64,
    n: u64,
    lines: Option<Vec<String>>,
    buf: String,
}
impl Rec {
    fn new(keep: bool) -> Rec {
        Rec { h: 0xcbf29ce484222325, n: 0, lines: keep.then(Vec::new), buf: String::new() }
    }
    fn put(&mut self, a: std::fmt::Arguments) {
        self.buf.clear();
        let _ = self.buf.write_fmt(a);
        for b in self.buf.bytes().chain([10]) {
            self.h = (self.h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.n += 1;
        if let Some(l) = &mut self.lines {
            l.push(self.buf.clone());
        }
    }
}
macro_rules! rec {
    ($r:expr, $($t:tt)*) => { $r.put(format_args!($($t)*)) };
}

type K = SAABB<i32, 2>;
type T = RTree<K, K, u32>;

/// Records what it is asked.
struct Ask<'a> {
    mask: u64,
    keys: &'a [K],
    log: &'a RefCell<Vec<i32>>,
}
impl Ask<'_> {
    fn note(&self, k: &K) {
        self.log.borrow_mut().extend([k.min.0[0], k.min.0[1], k.max.0[0], k.max.0[1]]);
    }
    fn wants(&self, k: &K) -> bool {
        self.keys.iter().position(|x| x == k).is_some_and(|i| self.mask >> i & 1 == 1)
    }
}
impl SpatialFilter<K, K> for Ask<'_> {
    fn test_bounds(&self, b: &K) -> bool {
        self.note(b);
        self.keys.iter().enumerate().any(|(i, k)| self.mask >> i & 1 == 1 && Contains::<K>::contains(b, k))
    }
    fn test_key(&self, k: &K) -> bool {
        self.note(k);
        self.wants(k)
    }
}
impl Ranking<K, K> for Ask<'_> {
    type Metric = i32;
    fn bounds_min(&self, b: &K) -> i32 {
        self.note(b);
        b.min.0[0] + b.min.0[1]
    }
    fn rank_key(&self, k: &K) -> i32 {
        self.note(k);
        k.max.0[0] + k.max.0[1] * (self.mask & 1) as i32 + if self.mask & 1 == 0 { k.min.0[1] } else { 0 }
    }
}
struct Asked<'a, 'b>(&'a Ask<'b>);
impl Ranking<K, K> for Asked<'_, '_> {
    type Metric = Option<i32>;
    fn bounds_min(&self, b: &K) -> Option<i32> {
        Some(self.0.bounds_min(b))
    }
    fn rank_key(&self, k: &K) -> Option<i32> {
        let r = self.0.rank_key(k);
        self.0.wants(k).then_some(r)
    }
}
#[derive(Clone)]
struct Rel<'a> {
    mode: u8,
    log: &'a RefCell<Vec<i32>>,
}
impl JoinFilter<K, K, K, K> for Rel<'_> {
    fn test_bounds(&self, a: &K, b: &K) -> bool {
        self.log.borrow_mut().extend([-1, a.min.0[0], a.max.0[0], b.min.0[0], b.max.0[0]]);
        self.mode == 0 || a.intersects(b)
    }
    fn test_key(&self, a: &K, b: &K) -> bool {
        self.log.borrow_mut().extend([-2, a.min.0[0], a.max.0[0], b.min.0[0], b.max.0[0]]);
        if self.mode == 0 { a.min.0[0] != b.min.0[0] } else { a.intersects(b) }
    }
}

fn apply(t: &mut T, keys: &[K], op: Op, i: u32) -> Option<u32> {
    match op {
        Op::Ins(k) => {
            t.insert(keys[k as usize], i);
            None
        }
        Op::Uni(k) => t.insert_unique(keys[k as usize], i),
        Op::Rem(k) => t.remove(&keys[k as usize]),
        Op::Clo => {
            let c = t.clone();
            *t = c;
            None
        }
        Op::Mut => {
            t.iter_mut().for_each(|e| *e.1 += 1);
            None
        }
    }
}
fn build(cfg: Cfg, keys: &[K], h: &[Op], mut each: impl FnMut(usize, Option<u32>)) -> T {
    let mut t: T = RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 });
    for (i, &op) in h.iter().enumerate() {
        let r = apply(&mut t, keys, op, i as u32 + 1);
        each(i, r);
    }
    t
}

/// The operations on a tree and all kinds of queries.
fn tree(r: &mut Rec, c: &Case) {
    let (cfg, h) = (parse_cfg(c.get("C")), parse_hist(c.get("H")));
    let keys = Alpha::<Bi2>::new(c.get("A")).keys;
    let mut results = vec![];
    let mut t = build(cfg, &keys, &h, |_, r| results.push(r));
    rec!(r, "results {results:?}");
    rec!(r, "tree {t:?}");
    rec!(r, "len {} empty {}", t.len(), t.is_empty());
    let n = keys.len().min(6);
    for op in op_menu(n, "iurcm") {
        let mut t = build(cfg, &keys, &h, |_, _| ());
        let x = apply(&mut t, &keys, op, 1000);
        rec!(r, "{op:?} -> {x:?} {t:?}");
    }
    rec!(r, "iter {:?}", t.iter().map(|e| *e.1).collect::<Vec<_>>());
    rec!(r, "iter_mut {:?}", t.iter_mut().map(|e| *e.1).collect::<Vec<_>>());
    rec!(r, "no filter {:?}", t.filter_iter::<K, _>(NoFilter).map(|e| *e.1).collect::<Vec<_>>());
    for k in &keys {
        let a = t.get(k).copied();
        rec!(r, "get {a:?} {:?}", t.get_mut(k));
    }
    let log = RefCell::new(vec![]);
    let ms = if keys.len() <= 4 { masks(keys.len(), 4) } else { masks(keys.len(), 0).into_iter().step_by(5).collect() };
    for mask in ms {
        let ask = || Ask { mask, keys: &keys, log: &log };
        log.borrow_mut().clear();
        let v: Vec<u32> = t.filter_iter::<K, _>(ask()).map(|e| *e.1).collect();
        let w: Vec<u32> = t.filter_iter_mut::<K, _>(ask()).map(|e| *e.1).collect();
        rec!(r, "filter {mask} {v:?} {w:?} {:?}", log.borrow());
        log.borrow_mut().clear();
        let v: Vec<u32> = t.iter_asc_by(ask()).map(|e| *e.1).collect();
        let w: Vec<u32> = t.iter_asc_by_mut(ask()).map(|e| *e.1).collect();
        let a = ask();
        let x: Vec<u32> = t.filter_iter_asc_by(Asked(&a)).map(|e| *e.1).collect();
        let y: Vec<u32> = t.filter_iter_asc_by_mut(Asked(&a)).map(|e| *e.1).collect();
        let m = (t.min_by(ask()).map(|e| *e.1), t.min_by_mut(ask()).map(|e| *e.1), t.filter_min_by(Asked(&a)).map(|e| *e.1));
        let z = t.filter_min_by_mut(Asked(&a)).map(|e| *e.1);
        rec!(r, "ranked {mask} {v:?} {w:?} {x:?} {y:?} {m:?} {z:?} {:?}", log.borrow());
    }
    for p in [SVec([0, 0]), SVec([2, 1]), SVec([-50, 7])] {
        rec!(r, "nearest {p:?} {:?}", t.iter_asc_by(EuclideanDistanceRanking::<SVec<i32, 2>, i32>::new(p)).map(|e| *e.1).collect::<Vec<_>>());
    }
    for b in keys.iter().take(5) {
        let l = Line(b.min, SVec([b.max.0[0] + 2, b.max.0[1] - 1]));
        let s = Sphere { center: b.min, radius: 3 };
        rec!(
            r,
            "provided {:?} {:?} {:?} {:?}",
            t.filter_iter::<K, _>(IntersectsFilter::new(*b)).map(|e| *e.1).collect::<Vec<_>>(),
            t.filter_iter::<K, _>(ContainsFilter::new(*b)).map(|e| *e.1).collect::<Vec<_>>(),
            t.filter_iter::<K, _>(BoundedIntersectsFilter::<K, _>::new_bounded(l)).map(|e| *e.1).collect::<Vec<_>>(),
            AABB::<SVec<i32, 2>>::union(&s.bounds(), b)
        );
    }
    let o = build((3, 1), &keys, &h.iter().rev().filter(|o| matches!(o, Op::Ins(_))).copied().collect::<Vec<_>>(), |_, _| ());
    for mode in 0..2 {
        for (x, y) in [(&t, &o), (&o, &t), (&t, &t)] {
            log.borrow_mut().clear();
            let f = Rel { mode, log: &log };
            let v: Vec<(u32, u32)> = x.join(y, f.clone()).map(|e| (e.0 .1, e.1 .1)).collect();
            rec!(r, "join {mode} {v:?} {:?}", log.borrow());
            log.borrow_mut().clear();
            let mut v = vec![];
            for (i, (l, p)) in x.left_join(y, f.clone()).enumerate() {
                v.push((*l.1, 0));
                if i % 3 != 2 {
                    v.extend(p.map(|e| (*l.1, *e.1)));
                }
            }
            let late: Vec<_> = x.left_join(y, f.clone()).collect();
            for (l, p) in late.into_iter().rev() {
                v.extend(p.map(|e| (*l.1, *e.1)));
            }
            rec!(r, "left join {mode} {v:?} {:?}", log.borrow());
        }
    }
    // iterators beyond their ends, and abandoned ones
    let mut it = t.iter();
    for _ in 0..h.len() + 1 {
        it.next();
    }
    rec!(r, "after the end {:?} {:?}", it.next().is_none(), it.next().is_none());
    let mut it = t.iter_asc_by(Ask { mask: 1, keys: &keys, log: &log });
    rec!(r, "first {:?} {:?}", it.next().map(|e| *e.1), it.size_hint());
}

/// Shapes over a table of coordinates.
fn shapes<N, const D: usize>(r: &mut Rec, v: &[N], part: usize, parts: usize)
where
    N: Copy + Ord + Debug + Into<f64> + std::ops::Sub<Output = N> + std::ops::Add<Output = N> + std::ops::Mul<Output = N> + num_traits::Bounded + 'static,
    SAABB<N, D>: Volume,
    SVec<N, D>: Bounded<SAABB<N, D>>,
{
    let mut boxes = rtree_mc::geo::grid_boxes(v.len() as i64, D);
    let of = |p: &[i64]| -> SVec<N, D> { SVec(std::array::from_fn(|d| v[p[d] as usize])) };
    let step = boxes.len() / 90 + 1;
    let mine: Vec<_> = boxes.iter().skip(part).step_by(parts).cloned().collect();
    boxes = boxes.into_iter().step_by(step).collect();
    for (lo, hi) in &mine {
        let a: SAABB<N, D> = SAABB { min: of(lo), max: of(hi) };
        rec!(r, "{a:?} volume {:?}", a.volume());
        rec!(r, "{:?}", SAABB::<N, D>::union(&a, &SAABB::empty()));
        for (lo2, hi2) in &boxes {
            let b: SAABB<N, D> = SAABB { min: of(lo2), max: of(hi2) };
            rec!(
                r,
                "{b:?} {} {} {:?} {:?} {} {}",
                Intersects::<SAABB<N, D>>::intersects(&a, &b),
                Contains::<SAABB<N, D>>::contains(&a, &b),
                SAABB::<N, D>::union(&a, &b),
                a.sq_dist_to(&b),
                Contains::<SVec<N, D>>::contains(&a, &b.min),
                Intersects::<SVec<N, D>>::intersects(&a, &b.max)
            );
            for (p, q) in [(b.min, b.max), (b.max, b.min)] {
                let l = Line(p, q);
                rec!(r, "line {p:?} {q:?} {} {:?} {:?}", l.intersects(&a), Bounded::<SAABB<N, D>>::bounds(&l), l.sq_len());
            }
        }
    }
}
/// Rays, spheres and distances: coordinates and their sums have to be representable.
fn near<N, const D: usize>(r: &mut Rec, v: &[N], part: usize, parts: usize)
where
    N: Copy + Ord + Debug + Into<f64> + std::ops::Sub<Output = N> + std::ops::Add<Output = N> + std::ops::Mul<Output = N> + std::iter::Sum + num_traits::Bounded + 'static,
    SAABB<N, D>: Volume,
{
    let boxes = rtree_mc::geo::grid_boxes(v.len() as i64, D);
    let of = |p: &[i64]| -> SVec<N, D> { SVec(std::array::from_fn(|d| v[p[d] as usize])) };
    let step = boxes.len() / 90 + 1;
    for (lo, hi) in boxes.iter().skip(part).step_by(parts) {
        let a: SAABB<N, D> = SAABB { min: of(lo), max: of(hi) };
        for (lo2, hi2) in boxes.iter().step_by(step) {
            let (p, q) = (of(lo2), of(hi2));
            let ray = Ray { origin: p, n: q - p };
            let s = Sphere { center: p, radius: q.0[0] };
            rec!(r, "{a:?} {p:?} {q:?} {} {}", ray.intersects(&a), Intersects::<Ray<N, D>>::intersects(&a, &ray));
            if q.0[0].into() >= 0.0 {
                rec!(r, "{} {:?}", Intersects::<SVec<N, D>>::intersects(&s, &a.min), Bounded::<SAABB<N, D>>::bounds(&s));
            }
            rec!(r, "{:?}", p + (q - p));
        }
    }
}

const PARTS: usize = 16;
fn geometry(r: &mut Rec, c: &Case) {
    let i = c.num("I");
    match c.get("G") {
        "i32" => shapes::<i32, 2>(r, &[i32::MIN, -7, -1, 0, 1, 12, i32::MAX], i, PARTS),
        "u32" => shapes::<u32, 2>(r, &[0, 1, 7, 1 << 31, u32::MAX - 1, u32::MAX], i, PARTS),
        "i8" => shapes::<i8, 3>(r, &[i8::MIN, 0, 5, i8::MAX], i, PARTS),
        "u8" => shapes::<u8, 3>(r, &[0, 1, 200, 255], i, PARTS),
        "N64" => shapes::<N64, 2>(r, &[-1e9, -0.5, 0.0, 0.1, 3.0, 1e9].map(n64), i, PARTS),
        "N32" => shapes::<N32, 2>(r, &[-1e9, -0.5, 0.0, 0.1, 3.0, 1e9].map(n32), i, PARTS),
        "near-i32" => near::<i32, 2>(r, &[-20, -3, 0, 1, 2, 9, 30], i, PARTS),
        "near-i16" => near::<i16, 3>(r, &[-3, 0, 2, 9], i, PARTS),
        "near-N64" => near::<N64, 2>(r, &[-20.5, -0.5, 0.0, 0.1, 3.0, 7.25].map(n64), i, PARTS),
        "near-N32" => near::<N32, 3>(r, &[-0.5, 0.0, 0.1, 3.0].map(n32), i, PARTS),
        g => panic!("geometry {g}"),
    }
}
const GEOMETRY: [&str; 10] = ["i32", "u32", "i8", "u8", "N64", "N32", "near-i32", "near-i16", "near-N64", "near-N32"];

fn record(case: &str, keep: bool) -> Rec {
    let c = Case::parse(case);
    let mut r = Rec::new(keep);
    let end = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if c.get("G").is_empty() { tree(&mut r, &c) } else { geometry(&mut r, &c) }));
    if end.is_err() {
        rec!(r, "panics");
    }
    r
}

fn harness() -> PathBuf {
    let exe = std::env::current_exe().unwrap();
    exe.ancestors().find(|p| p.join("Cargo.toml").exists()).map_or_else(|| Path::new(env!("CARGO_MANIFEST_DIR")).to_path_buf(), |p| p.to_path_buf())
}
/// Builds this program without checks.
fn bare() -> Res<PathBuf> {
    let root = harness();
    let out = Command::new("cargo")
        .args(["build", "--offline", "--profile", "bare", "--bin", "c38"])
        .current_dir(&root)
        .env("CARGO_TERM_COLOR", "never")
        .output()
        .map_err(|e| Fail::Engine(format!("cargo: {e}")))?;
    if !out.status.success() {
        let log = String::from_utf8_lossy(&out.stderr).to_string();
        return Err(Fail::Engine(format!("the build without checks fails: {}", &log[log.len().saturating_sub(1500)..])));
    }
    Ok(root.join("target/bare/c38"))
}
/// The other build's lines about one case.
fn other_lines(exe: &Path, case: &str) -> Res<Vec<String>> {
    let out = Command::new(exe).args(["lines", case]).stderr(Stdio::null()).output().map_err(|e| Fail::Engine(format!("{e}")))?;
    let mut v: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect();
    if !out.status.success() {
        v.push(format!("ends with {}", out.status));
    }
    Ok(v)
}
fn compare(exe: &Path, case: &str) -> Res {
    let mine = record(case, true).lines.unwrap();
    let theirs = other_lines(exe, case)?;
    for i in 0..mine.len().max(theirs.len()) {
        let (a, b) = (mine.get(i), theirs.get(i));
        ensure!(a == b, "with checks: {a:?}, without checks: {b:?}");
    }
    Ok(())
}

fn one(c: &Case, _: Tier) -> Res {
    let text: Vec<String> = c.0.iter().map(|(k, v)| format!("{k}={v}")).collect();
    compare(&bare()?, &text.join(" "))
}

fn cases(ctx: &Ctx) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for g in GEOMETRY {
        v.extend((0..PARTS).map(|i| format!("G={g} I={i}")));
    }
    let mut put = |alpha: &str, s: &[(Cfg, Vec<Op>)]| v.extend(s.iter().map(|(cfg, h)| format!("C={} A={alpha} H={}", fmt_cfg(*cfg), fmt_hist(h))));
    for (name, nk, menu, depth) in [("mix", 4, "ir", ctx.qt(5, 6)), ("mix", 3, "iu", ctx.qt(5, 7)), ("nest", 3, "ir", ctx.qt(6, 7)), ("over:4", 4, "ir", ctx.qt(5, 6))] {
        let s: Vec<(Cfg, Vec<Op>)> = joins_reachable(ctx, name, nk, menu, depth);
        put(name, &s);
    }
    // configurations with which operations may panic
    for cfg in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 2), (3, 3), (2, usize::MAX)] {
        let menu = op_menu(3, "ir");
        let mut hs: Vec<Vec<Op>> = vec![vec![]];
        for _ in 0..ctx.qt(4, 5) {
            hs = hs.iter().flat_map(|h| menu.iter().map(move |&o| h.iter().copied().chain([o]).collect())).collect();
            put("mix", &hs.iter().map(|h| (cfg, h.clone())).collect::<Vec<_>>());
        }
    }
    for (shape, n) in [("scat", ctx.qt(18, 30)), ("nested", 14), ("line", 14), ("cross", 14)] {
        for cfg in [(2, 1), (3, 1), (4, 2), (6, 3), (9, 3)] {
            let mut hs = vec![];
            for up in scripts(n, n, 'i').into_iter().take(ctx.qt(3, 8)) {
                for dn in ["asc", "mid"] {
                    hs.push(drain(&up, dn, n));
                }
            }
            let s: Vec<(Cfg, Vec<Op>)> = prefixes(&hs).into_iter().step_by(ctx.qt(3, 1)).map(|h| (cfg, h)).collect();
            put(&format!("{shape}:{n}"), &s);
        }
    }
    v
}
fn joins_reachable(ctx: &Ctx, name: &str, nk: usize, menu: &str, depth: usize) -> Vec<(Cfg, Vec<Op>)> {
    reachable::<Bi2>(ctx, name, nk, menu, depth, 8, &SMALL).into_iter().map(|s| (s.cfg, s.hist)).collect()
}

fn run(ctx: &Ctx) {
    let exe = match bare() {
        Ok(e) => e,
        Err(e) => {
            ctx.case(0, 0, "whole=1", || Err(e));
            return;
        }
    };
    let all = cases(ctx);
    // the other build works on all cases at the same time
    let chunks: Vec<Vec<String>> = all.chunks(all.len().div_ceil(64)).map(|c| c.to_vec()).collect();
    let dir = exe.parent().unwrap().join(format!("c38-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let numbered: Vec<(usize, Vec<String>)> = chunks.into_iter().enumerate().collect();
    let lines = std::sync::atomic::AtomicU64::new(0);
    let seen = std::sync::Mutex::new(std::collections::HashSet::new());
    ctx.par_map(&numbered, |tid, ord, (i, chunk)| {
        let list = dir.join(format!("{i}"));
        std::fs::write(&list, chunk.join("\n")).expect("list");
        let child = Command::new(&exe).arg("digests").arg(&list).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
        let mine: Vec<Rec> = chunk.iter().map(|c| { slot_write(tid, c); record(c, false) }).collect();
        slot_clear(tid);
        let out = child.and_then(|c| c.wait_with_output()).map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
        let theirs: Vec<&str> = out.lines().collect();
        for (j, c) in chunk.iter().enumerate() {
            seen.lock().unwrap().insert(mine[j].h);
            lines.fetch_add(mine[j].n, std::sync::atomic::Ordering::Relaxed);
            if theirs.get(j) != Some(&format!("{:016x}", mine[j].h).as_str()) {
                if !ctx.case(tid, ord, c, || compare(&exe, c)) {
                    break;
                }
            }
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    for c in all.iter().step_by(all.len() / 9 + 1) {
        ctx.sample(c);
    }
    ctx.add("cases", all.len() as u64);
    ctx.add("evaluations", lines.load(std::sync::atomic::Ordering::Relaxed));
    ctx.add("distinct_nontrivial", seen.lock().unwrap().len() as u64);
    ctx.note(
        "rule",
        "evaluations: records of behaviour (result of an operation, debug output, sequence of a query with the calls it makes, row of geometry) compared between \
         two builds; distinct_nontrivial: different records, each of a tree and all that is done with it, or of a block of shapes; states are those that all operation sequences to a depth reach, and prefixes of scripts",
    );
    ctx.note("assume1", "the two builds are those with and without debug assertions and overflow checks, at two levels of optimisation, by the stable compiler on this machine");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("digests") => {
            std::panic::set_hook(Box::new(|_| ()));
            for c in std::fs::read_to_string(&args[2]).expect("list").lines() {
                println!("{:016x}", record(c, false).h);
            }
        }
        Some("lines") => {
            std::panic::set_hook(Box::new(|_| ()));
            for l in record(&args[2], true).lines.unwrap() {
                println!("{l}");
            }
        }
        _ => rtree_mc::main_for("C38", "model_checking", run, one),
    }
}
