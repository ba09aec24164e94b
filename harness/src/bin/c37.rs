//! C37: trees are borrowed by what queries hand out, for as long as it is used
//! and no longer.
//!
//! Small client programs are enumerated; a model of borrows tells which of them
//! are correct, the compiler tells which of them it takes.
use rtree_mc::prelude::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;

const PRELUDE: &str = r##"#![allow(warnings)]
pub use rusty_rtree::{bounds::SAABB, vector::SVec, RTree, RTreeConfig, filter::*, ranking::*};
pub type K = SAABB<i32, 2>;
pub type T = RTree<K, K, String>;
pub fn k() -> K { SAABB { min: SVec([0, 0]), max: SVec([1, 1]) } }
pub fn new() -> T { RTree::new(RTreeConfig { max_children: 4, min_children: 2 }) }
pub fn touch<X: ?Sized>(_: &X) {}
/// a filter and ranking that borrows
#[derive(Clone, Copy)]
pub struct F<'x>(pub &'x String);
impl SpatialFilter<K, K> for F<'_> { fn test_bounds(&self, _: &K) -> bool { true } fn test_key(&self, _: &K) -> bool { true } }
impl Ranking<K, K> for F<'_> { type Metric = i32; fn bounds_min(&self, _: &K) -> i32 { 0 } fn rank_key(&self, _: &K) -> i32 { 0 } }
impl JoinFilter<K, K, K, K> for F<'_> { fn test_bounds(&self, _: &K, _: &K) -> bool { true } fn test_key(&self, _: &K, _: &K) -> bool { true } }
#[derive(Clone, Copy)]
pub struct O<'x>(pub &'x String);
impl Ranking<K, K> for O<'_> { type Metric = Option<i32>; fn bounds_min(&self, _: &K) -> Option<i32> { None } fn rank_key(&self, _: &K) -> Option<i32> { None } }
"##;

/// What is borrowed: the tree, another tree, something that the filter refers to.
const RES: [char; 3] = ['t', 'u', 'f'];
/// A kind of query: name, expression, what its iterator borrows, whether it
/// borrows the tree mutably, and its family.
struct Kind {
    name: &'static str,
    expr: &'static str,
    holds: &'static str,
    muta: bool,
    fam: Fam,
}
#[derive(Clone, Copy, PartialEq)]
enum Fam {
    Iter,
    Item,
    Join,
    Left,
}
use Fam::*;
const fn kind(name: &'static str, fam: Fam, muta: bool, holds: &'static str, expr: &'static str) -> Kind {
    Kind { name, expr, holds, muta, fam }
}
const KINDS: [Kind; 25] = [
    kind("iter", Iter, false, "t", "t.iter()"),
    kind("into_iter", Iter, false, "t", "(&t).into_iter()"),
    kind("filter_iter", Iter, false, "tf", "t.filter_iter::<K, _>(F(&f))"),
    kind("iter_asc_by", Iter, false, "tf", "t.iter_asc_by(F(&f))"),
    kind("filter_iter_asc_by", Iter, false, "tf", "t.filter_iter_asc_by(O(&f))"),
    kind("iter_mut", Iter, true, "t", "t.iter_mut()"),
    kind("into_iter_mut", Iter, true, "t", "(&mut t).into_iter()"),
    kind("filter_iter_mut", Iter, true, "tf", "t.filter_iter_mut::<K, _>(F(&f))"),
    kind("iter_asc_by_mut", Iter, true, "tf", "t.iter_asc_by_mut(F(&f))"),
    kind("filter_iter_asc_by_mut", Iter, true, "tf", "t.filter_iter_asc_by_mut(O(&f))"),
    kind("min_by", Item, false, "t", "t.min_by(F(&f))"),
    kind("filter_min_by", Item, false, "t", "t.filter_min_by(O(&f))"),
    kind("get", Item, false, "t", "{ touch(&f); t.get(&k()) }"),
    kind("min_by_mut", Item, true, "t", "t.min_by_mut(F(&f))"),
    kind("filter_min_by_mut", Item, true, "t", "t.filter_min_by_mut(O(&f))"),
    kind("get_mut", Item, true, "t", "{ touch(&f); t.get_mut(&k()) }"),
    kind("clone", Item, false, "", "t.clone()"),
    kind("remove", Item, false, "", "t.remove(&k())"),
    kind("insert_unique", Item, false, "", "t.insert_unique(k(), f.clone())"),
    kind("join", Join, false, "tuf", "t.join::<K, K, String, K, K, _>(&u, F(&f))"),
    kind("self_join", Join, false, "tf", "t.join::<K, K, String, K, K, _>(&t, F(&f))"),
    kind("back_join", Join, false, "utf", "u.join::<K, K, String, K, K, _>(&t, F(&f))"),
    kind("left_join", Left, false, "tuf", "t.left_join::<K, K, String, K, K, _>(&u, F(&f))"),
    kind("self_left_join", Left, false, "tf", "t.left_join::<K, K, String, K, K, _>(&t, F(&f))"),
    kind("back_left_join", Left, false, "utf", "u.left_join::<K, K, String, K, K, _>(&t, F(&f))"),
];

/// Uses of what was handed out, by letter; actions on resources follow them.
/// `N` steps the iterator, `I` and `J` keep an item, `U` and `V` use it, `D`
/// drops the iterator; for left joins `I` keeps a left item `a` and its inner
/// iterator `p`, which `n` steps, `i` takes an item `b` from, and `d` drops.
fn alphabet_of(f: Fam) -> &'static str {
    match f {
        Iter => "NIJUVD",
        Item => "U",
        Join => "NIUVD",
        Left => "NIUVDnid",
    }
}
/// Actions: `len` and a query read, `insert`, writing all and replacing change,
/// `drop` moves.
const ACTS: [(char, &str, bool, bool); 6] = [
    // letter, text, reads only, moves
    ('r', "touch(&$.len());", true, false),
    ('s', "touch(&$.iter().count());", true, false),
    ('w', "$.insert(k(), String::new());", false, false),
    ('m', "for e in $.iter_mut() { e.1.clear() }", false, false),
    ('a', "$ = new();", false, false),
    ('x', "drop($);", false, true),
];
const FACTS: [(char, &str, bool, bool); 3] =
    [('r', "touch(&f.len());", true, false), ('w', "f.push('x');", false, false), ('x', "drop(f);", false, true)];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    Use(char),
    /// resource and action
    Act(char, char),
}
fn act(r: char, a: char) -> (&'static str, bool, bool) {
    let t: &[(char, &str, bool, bool)] = if r == 'f' { &FACTS } else { &ACTS };
    let x = t.iter().find(|x| x.0 == a).unwrap();
    (x.1, x.2, x.3)
}

/// The holders that exist and what they borrow: resource and whether mutably.
fn holds(k: &Kind, holder: char) -> Vec<(char, bool)> {
    let h: Vec<char> = k.holds.chars().collect();
    let m = |c: char| (c, k.muta && c == 't');
    match (k.fam, holder) {
        (_, 'q') => h.iter().map(|c| m(*c)).collect(),
        (Iter, _) => vec![m('t')],
        // a: left item, b: right item, p: inner iterator
        (_, 'a') => vec![m(h[0])],
        (_, 'b') => vec![m(if h.len() == 3 { h[1] } else { h[0] })],
        (_, 'p') => h.iter().map(|c| m(*c)).collect(),
        _ => vec![],
    }
}
/// Which holders a step uses and which it creates.
fn uses(k: &Kind, c: char) -> (&'static str, &'static str) {
    match (k.fam, c) {
        (Iter, 'N') | (Join, 'N') | (Left, 'N') => ("q", ""),
        (Iter, 'I') => ("q", "a"),
        (Iter, 'J') => ("q", "b"),
        (Join, 'I') => ("q", "ab"),
        (Left, 'I') => ("q", "ap"),
        (Item, 'U') => ("q", ""),
        (_, 'U') => ("a", ""),
        (_, 'V') => ("b", ""),
        (_, 'D') => ("q", ""),
        (Left, 'n') => ("p", ""),
        (Left, 'i') => ("p", "b"),
        (Left, 'd') => ("p", ""),
        _ => panic!("step {c}"),
    }
}
fn text(k: &Kind, s: Step) -> String {
    match s {
        Step::Act(r, a) => act(r, a).0.replace('$', &r.to_string()),
        Step::Use(c) => match (k.fam, c) {
            (_, 'N') => "touch(&q.next().is_none());",
            (Iter, 'I') => "let a = q.next();",
            (Iter, 'J') => "let b = q.next();",
            (Join, 'I') => "let (a, b) = q.next().unwrap();",
            (Left, 'I') => "let (a, mut p) = q.next().unwrap();",
            (Item, 'U') => "touch(&q);",
            (_, 'U') => "touch(&a);",
            (_, 'V') => "touch(&b);",
            (_, 'D') => "drop(q);",
            (_, 'n') => "touch(&p.next().is_none());",
            (_, 'i') => "let b = p.next();",
            (_, 'd') => "drop(p);",
            _ => panic!(),
        }
        .to_string(),
    }
}

/// Programs in which nothing is used before it exists or after it was dropped.
/// What has a destructor is dropped explicitly at the end.
fn complete(k: &Kind, w: &[Step]) -> Option<Vec<Step>> {
    let mut w = w.to_vec();
    let has = |w: &[Step], c: char| w.contains(&Step::Use(c));
    if k.fam == Left && has(&w, 'I') && !has(&w, 'd') {
        w.push(Step::Use('d'));
    }
    if k.fam != Item && !has(&w, 'D') {
        w.push(Step::Use('D'));
    }
    let (mut alive, mut once, mut moved): (String, String, String) = ("q".into(), String::new(), String::new());
    for s in &w {
        match *s {
            Step::Use(c) => {
                let (u, n) = uses(k, c);
                if u.chars().any(|h| !alive.contains(h)) || n.chars().any(|h| alive.contains(h)) {
                    return None;
                }
                if c == 'D' {
                    alive.retain(|h| h != 'q');
                }
                if c == 'd' {
                    alive.retain(|h| h != 'p');
                }
                if "IJid".contains(c) {
                    if once.contains(c) {
                        return None;
                    }
                    once.push(c);
                }
                alive.push_str(n);
            }
            Step::Act(r, a) => {
                if moved.contains(r) {
                    return None;
                }
                if act(r, a).2 {
                    moved.push(r);
                }
            }
        }
    }
    Some(w)
}

/// Whether the model of borrows takes a program: no action conflicts with what
/// is used afterwards.
fn correct(k: &Kind, w: &[Step]) -> bool {
    let made = |h: char| if h == 'q' { Some(-1) } else { w.iter().position(|s| matches!(s, Step::Use(c) if uses(k, *c).1.contains(h))).map(|i| i as i64) };
    let last = |h: char| w.iter().rposition(|s| matches!(s, Step::Use(c) if uses(k, *c).0.contains(h))).map(|i| i as i64);
    w.iter().enumerate().all(|(i, s)| match *s {
        Step::Use(_) => true,
        Step::Act(r, a) => "qabp".chars().all(|h| {
            let (Some(m), Some(l)) = (made(h), last(h)) else { return true };
            !(m < i as i64 && (i as i64) < l) || holds(k, h).iter().all(|(x, muta)| *x != r || (act(r, a).1 && !muta))
        }),
    })
}

fn word(w: &[Step]) -> String {
    w.iter()
        .map(|s| match s {
            Step::Use(c) => c.to_string(),
            Step::Act(r, a) => format!("({r}{a})"),
        })
        .collect()
}
fn parse(s: &str) -> Vec<Step> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < c.len() {
        if c[i] == '(' {
            v.push(Step::Act(c[i + 1], c[i + 2]));
            i += 4;
        } else {
            v.push(Step::Use(c[i]));
            i += 1;
        }
    }
    v
}
fn program(name: &str, k: &Kind, w: &[Step]) -> String {
    let body: Vec<String> = w.iter().map(|s| text(k, *s)).collect();
    format!("pub fn {name}(mut t: T, mut u: T, mut f: String) {{ let mut q = {}; {} }}", k.expr, body.join(" "))
}

/// All words of uses up to a length with up to `acts` actions anywhere.
fn words(k: &Kind, len: usize, acts: usize) -> Vec<Vec<Step>> {
    let mut skel: Vec<Vec<Step>> = vec![vec![]];
    let mut layer = skel.clone();
    for _ in 0..len {
        let mut next = vec![];
        for w in &layer {
            for c in alphabet_of(k.fam).chars() {
                let mut x = w.clone();
                x.push(Step::Use(c));
                if complete(k, &x).is_some() {
                    next.push(x);
                }
            }
        }
        skel.extend(next.iter().cloned());
        layer = next;
    }
    let mut menu = vec![];
    for r in RES {
        let of = if r == 'f' { &FACTS[..] } else { &ACTS[..] };
        menu.extend(of.iter().map(|a| Step::Act(r, a.0)));
    }
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut layer: Vec<Vec<Step>> = skel.iter().filter_map(|w| complete(k, w)).filter(|w| seen.insert(word(w))).collect();
    out.extend(layer.iter().cloned());
    for _ in 0..acts {
        let mut next = vec![];
        for w in &layer {
            for i in 0..=w.len() {
                for a in &menu {
                    let mut x = w.clone();
                    x.insert(i, *a);
                    if complete(k, &x).as_ref() == Some(&x) && seen.insert(word(&x)) {
                        next.push(x);
                    }
                }
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}

/// Programs about what trees contain: name, text, whether it is correct.
fn contents() -> Vec<(String, String, bool)> {
    let mut v = vec![];
    let mut put = |n: String, body: String, ok: bool| v.push((n, body, ok));
    // a value written through a mutable query has to live as long as the tree
    for (n, write) in [
        ("iter_mut", "for e in t.iter_mut() { *e.1 = &s; }"),
        ("into_iter_mut", "for e in &mut t { *e.1 = &s; }"),
        ("filter_iter_mut", "for e in t.filter_iter_mut::<K, _>(NoFilter) { *e.1 = &s; }"),
        ("iter_asc_by_mut", "for e in t.iter_asc_by_mut(F(&f)) { *e.1 = &s; }"),
        ("filter_iter_asc_by_mut", "for e in t.filter_iter_asc_by_mut(O(&f)) { *e.1 = &s; }"),
        ("min_by_mut", "if let Some(e) = t.min_by_mut(F(&f)) { *e.1 = &s; }"),
        ("filter_min_by_mut", "if let Some(e) = t.filter_min_by_mut(O(&f)) { *e.1 = &s; }"),
        ("get_mut", "if let Some(e) = t.get_mut(&k()) { *e = &s; }"),
        ("insert", "t.insert(k(), &s);"),
        ("insert_unique", "t.insert_unique(k(), &s);"),
        ("clone", "let mut c = t.clone(); c.insert(k(), &s); t = c;"),
    ] {
        let tree = "let f = String::new(); let s = String::new(); let mut t: RTree<K, K, &str> = RTree::new(RTreeConfig { max_children: 4, min_children: 2 });";
        put(format!("write_{n}_then_use"), format!("{tree} {write} touch(&t.len()); drop(t); drop(s);"), true);
        put(format!("write_{n}_then_drop_value"), format!("{tree} {write} drop(s); touch(&t.len()); drop(t);"), false);
        put(format!("write_{n}_then_drop_value_then_drop"), format!("{tree} {write} drop(s); drop(t);"), false);
        let tree = tree.replace("&str", "&'static str");
        put(format!("write_{n}_static"), format!("{tree} {write} drop(t); drop(s);"), false);
    }
    // values and keys copied out of a tree are not tied to it
    for (n, read) in [
        ("iter", "t.iter().next().map(|e| *e.1)"),
        ("filter_iter", "t.filter_iter::<K, _>(NoFilter).next().map(|e| *e.1)"),
        ("iter_asc_by", "t.iter_asc_by(F(&f)).next().map(|e| *e.1)"),
        ("min_by", "t.min_by(F(&f)).map(|e| *e.1)"),
        ("get", "t.get(&k()).copied()"),
        ("iter_mut", "t.iter_mut().next().map(|e| *e.1)"),
        ("filter_iter_asc_by_mut", "t.filter_iter_asc_by_mut(O(&f)).next().map(|e| *e.1)"),
        ("join", "t.join::<K, K, &str, K, K, _>(&t, F(&f)).next().map(|e| { let (_, (_, v)) = e; *v })"),
        ("left_join", "t.left_join::<K, K, &str, K, K, _>(&t, F(&f)).next().and_then(|mut e| e.1.next().map(|e| *e.1))"),
        ("remove", "t.remove(&k())"),
        ("insert_unique", "t.insert_unique(k(), &s)"),
    ] {
        let tree = "let f = String::new(); let s = String::new(); let mut t: RTree<K, K, &str> = RTree::new(RTreeConfig { max_children: 4, min_children: 2 }); t.insert(k(), &s);";
        put(format!("copy_{n}_then_drop_tree"), format!("{tree} let r: Option<&str> = {read}; drop(t); drop(f); touch(&r); drop(s);"), true);
        put(format!("copy_{n}_then_drop_value"), format!("{tree} let r: Option<&str> = {read}; drop(t); drop(s); touch(&r);"), false);
    }
    // a tree of short-lived values is not one of long-lived ones, the other way around it is
    put("shorten".into(), "fn go<'s>(t: RTree<K, K, &'static str>) -> RTree<K, K, &'s str> { t }".into(), true);
    put("shorten_ref".into(), "fn go<'s>(t: &'s RTree<K, K, &'static str>) -> &'s RTree<K, K, &'s str> { t }".into(), true);
    put("lengthen".into(), "fn go<'s>(t: RTree<K, K, &'s str>) -> RTree<K, K, &'static str> { t }".into(), false);
    put("shorten_mut".into(), "fn go<'x, 's>(t: &'x mut RTree<K, K, &'static str>) -> &'x mut RTree<K, K, &'s str> { t }".into(), false);
    put("scope".into(), "let mut t = new(); { let q = t.iter(); touch(&q.count()); } t.insert(k(), String::new()); touch(&t.len());".into(), true);
    put("escape".into(), "let mut t = new(); let r = { let t2 = t.clone(); t2.get(&k()).map(|s| s.len()) }; touch(&r); t.insert(k(), String::new());".into(), true);
    put("escape_ref".into(), "let t = new(); let r = { let t2 = t.clone(); t2.get(&k()) }; touch(&r);".into(), false);
    put("escape_iter".into(), "let t = new(); let mut r = { let t2 = t.clone(); t2.iter() }; touch(&r.next());".into(), false);
    put("escape_fn".into(), "fn go<'x>(t: &'x T, u: &T) -> Option<&'x String> { u.get(&k()) }".into(), false);
    put("escape_fn_ok".into(), "fn go<'x>(t: &'x T, u: &T) -> Option<&'x String> { t.get(&k()) }".into(), true);
    put("escape_fn_key".into(), "fn go<'x>(t: &'x T, key: &K) -> Option<&'x String> { t.get(key) }".into(), true);
    put("escape_fn_key_mut".into(), "fn go<'x>(t: &'x mut T, key: &K) -> Option<&'x mut String> { t.get_mut(key) }".into(), true);
    put("left_items".into(), "fn go<'x>(t: &'x T, u: &T, f: String) -> Vec<(&'x K, &'x String)> { t.left_join::<K, K, String, K, K, _>(u, F(&f)).map(|e| e.0).collect() }".into(), true);
    put("right_items".into(), "fn go<'x>(t: &T, u: &'x T, f: String) -> Vec<(&'x K, &'x String)> { t.left_join::<K, K, String, K, K, _>(u, F(&f)).flat_map(|e| e.1).collect() }".into(), true);
    put("left_items_wrong".into(), "fn go<'x>(t: &T, u: &'x T, f: String) -> Vec<(&'x K, &'x String)> { t.left_join::<K, K, String, K, K, _>(u, F(&f)).map(|e| e.0).collect() }".into(), false);
    put("right_items_wrong".into(), "fn go<'x>(t: &'x T, u: &T, f: String) -> Vec<(&'x K, &'x String)> { t.left_join::<K, K, String, K, K, _>(u, F(&f)).flat_map(|e| e.1).collect() }".into(), false);
    put("join_items".into(), "fn go<'x, 'y>(t: &'x T, u: &'y T, f: String) -> Vec<(&'x String, &'y String)> { t.join::<K, K, String, K, K, _>(u, F(&f)).map(|e| (&e.0.1, &e.1.1)).collect() }".into(), true);
    put("join_items_wrong".into(), "fn go<'x, 'y>(t: &'x T, u: &'y T, f: String) -> Vec<(&'y String, &'x String)> { t.join::<K, K, String, K, K, _>(u, F(&f)).map(|e| (&e.0.1, &e.1.1)).collect() }".into(), false);
    for (n, q) in [("iter", "iter()"), ("iter_asc_by", "iter_asc_by(F(f))"), ("filter_iter", "filter_iter::<K, _>(F(f))"), ("filter_iter_asc_by", "filter_iter_asc_by(O(f))")] {
        put(format!("all_{n}"), format!("fn go<'x>(t: &'x T, f: &String) -> Vec<(&'x K, &'x String)> {{ t.{q}.collect() }}"), true);
        put(format!("iterator_{n}"), format!("fn go<'x>(t: &'x T, f: &'x String) -> impl Iterator<Item = (&'x K, &'x String)> + 'x {{ t.{q} }}"), true);
        if q.contains('f') && n != "iter" {
            put(format!("iterator_{n}_wrong"), format!("fn go<'x, 'y>(t: &'x T, f: &'y String) -> Box<dyn Iterator<Item = (&'x K, &'x String)> + 'x> {{ Box::new(t.{q}) }}"), false);
        }
    }
    for (n, q) in [("iter_mut", "iter_mut()"), ("iter_asc_by_mut", "iter_asc_by_mut(F(f))"), ("filter_iter_mut", "filter_iter_mut::<K, _>(F(f))"), ("filter_iter_asc_by_mut", "filter_iter_asc_by_mut(O(f))")] {
        put(format!("all_{n}"), format!("fn go<'x>(t: &'x mut T, f: &String) -> Vec<(&'x K, &'x mut String)> {{ t.{q}.collect() }}"), true);
        put(format!("iterator_{n}"), format!("fn go<'x>(t: &'x mut T, f: &'x String) -> impl Iterator<Item = (&'x K, &'x mut String)> + 'x {{ t.{q} }}"), true);
        put(format!("key_{n}_not_mutable"), format!("fn go<'x, 'y>(t: &'x mut T, f: &'y String) -> Box<dyn Iterator<Item = (&'x K, &'x mut String)> + 'static> {{ Box::new(t.{q}) }}"), false);
    }
    v
}

const BORROW: [&str; 13] =
    ["E0499", "E0502", "E0505", "E0506", "E0597", "E0716", "E0713", "E0521", "E0515", "E0503", "E0621", "E0310", "E0491"];

fn scratch() -> PathBuf {
    let exe = std::env::current_exe().unwrap();
    exe.parent().unwrap().join(format!("../borrows-{}", std::process::id()))
}
fn project() -> (String, PathBuf) {
    // the harness's own manifest tells where the crate is
    let manifest = Path::new(env!("CARGO_MANIFEST_DIR")).to_path_buf();
    let exe = std::env::current_exe().unwrap();
    let root = exe.ancestors().find(|p| p.join("Cargo.toml").exists()).map_or(manifest, |p| p.to_path_buf());
    let text = std::fs::read_to_string(root.join("Cargo.toml")).expect("Cargo.toml");
    let dep = text.lines().find(|l| l.starts_with("rusty-rtree")).expect("rusty-rtree in Cargo.toml").to_string();
    (dep, root)
}

/// Compiles programs; the verdict on each, with the compiler's message.
fn compile(progs: &[String], parts: usize) -> Res<HashMap<usize, String>> {
    let engine = |m: String| Fail::Engine(m);
    let dir = scratch();
    let (dep, root) = project();
    let e = |x: std::io::Error| engine(format!("scratch crate: {x}"));
    std::fs::create_dir_all(dir.join("src/bin")).map_err(e)?;
    std::fs::write(dir.join("Cargo.toml"), format!("[package]\nname = \"borrows\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\n{dep}\n")).map_err(e)?;
    std::fs::copy(root.join("Cargo.lock"), dir.join("Cargo.lock")).map_err(e)?;
    std::fs::write(dir.join("src/lib.rs"), PRELUDE).map_err(e)?;
    let per = progs.len().div_ceil(parts).max(1);
    for (p, chunk) in progs.chunks(per).enumerate() {
        let text = format!("#![allow(warnings)] use borrows::*; fn main() {{}}\n{}\n", chunk.join("\n"));
        std::fs::write(dir.join(format!("src/bin/p{p}.rs")), text).map_err(e)?;
    }
    let out = Command::new("cargo")
        .args(["check", "--offline", "--bins", "--keep-going", "--message-format", "short"])
        .current_dir(&dir)
        .env("CARGO_TERM_COLOR", "never")
        .env_remove("RUSTFLAGS")
        .env("CARGO_TARGET_DIR", dir.join("target"))
        .output()
        .map_err(e)?;
    let log = String::from_utf8_lossy(&out.stderr).to_string();
    let res = (|| {
        let mut bad: HashMap<usize, String> = HashMap::new();
        for l in log.lines() {
            let Some(rest) = l.strip_prefix("src/bin/p") else {
                if l.starts_with("src/") && l.contains(": error") || l.starts_with("/") && l.contains(": error") {
                    return Err(engine(format!("the compiler says {l}")));
                }
                continue;
            };
            if !rest.contains(": error") {
                continue;
            }
            let mut it = rest.split(':');
            let (Some(p), Some(line)) = (it.next().and_then(|p| p.strip_suffix(".rs")).and_then(|p| p.parse::<usize>().ok()), it.next().and_then(|x| x.parse::<usize>().ok())) else {
                return Err(engine(format!("the compiler says {l}")));
            };
            if line < 2 {
                return Err(engine(format!("the compiler says {l}")));
            }
            let i = p * per + line - 2;
            let ok = BORROW.iter().any(|c| l.contains(c)) || l.contains(": error: lifetime may not live long enough");
            if !ok {
                return Err(engine(format!("the compiler says {l} about {}", progs.get(i).map_or("?", |s| s))));
            }
            bad.entry(i).or_insert_with(|| rest.split_once(": ").map_or(String::new(), |x| x.1.to_string()));
        }
        if bad.is_empty() && !out.status.success() || !log.contains("Finished") && !log.contains("could not compile") {
            return Err(engine(format!("the compiler ends with {}: {}", out.status, &log[log.len().saturating_sub(1500)..])));
        }
        Ok(bad)
    })();
    if std::env::var("MC_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    res
}

fn judge(text: &str, good: bool, verdict: Option<&String>) -> Res {
    match verdict {
        Some(m) if good => viol!("the compiler rejects a correct program: {text}: {m}"),
        None if !good => viol!("the compiler takes a program that uses what is borrowed: {text}"),
        _ => Ok(()),
    }
}

fn one(c: &Case, _: Tier) -> Res {
    let (text, good) = if let Some(n) = Some(c.get("X")).filter(|n| !n.is_empty()) {
        let (_, body, good) = contents().into_iter().find(|x| x.0 == n).expect("program");
        (format!("pub fn p() {{ {body} }}"), good)
    } else {
        let k = KINDS.iter().find(|k| k.name == c.get("Q")).expect("kind");
        let w = parse(c.get("W"));
        (program("p", k, &w), correct(k, &w))
    };
    let bad = compile(&[text.clone()], 1)?;
    judge(&text, good, bad.get(&0))
}

fn run(ctx: &Ctx) {
    let t = ctx.thorough();
    let (mut progs, mut good, mut cases) = (vec![], vec![], vec![]);
    for k in &KINDS {
        let mut all = match k.fam {
            Iter => words(k, if t { 4 } else { 3 }, 1),
            Item => words(k, 2, 2),
            Join => words(k, if t { 4 } else { 3 }, 1),
            Left => words(k, if t { 5 } else { 4 }, 1),
        };
        if t && k.fam != Item {
            all.extend(words(k, 2, 2));
            let mut seen = std::collections::HashSet::new();
            all.retain(|w| seen.insert(word(w)));
        }
        for w in all {
            good.push(correct(k, &w));
            cases.push(format!("Q={} W={}", k.name, word(&w)));
            progs.push(program(&format!("p{}", progs.len()), k, &w));
        }
    }
    for (n, body, ok) in contents() {
        good.push(ok);
        cases.push(format!("X={n}"));
        progs.push(format!("pub fn p{}() {{ {body} }}", progs.len()));
    }
    let rejected = std::sync::atomic::AtomicU64::new(0);
    match compile(&progs, 16) {
        Err(e) => {
            ctx.case(0, 0, "whole=1", || Err(e));
        }
        Ok(bad) => {
            rejected.store(bad.len() as u64, std::sync::atomic::Ordering::Relaxed);
            for i in 0..progs.len() {
                if !ctx.case(0, i as u64, &cases[i], || judge(&progs[i], good[i], bad.get(&i))) {
                    break;
                }
            }
        }
    }
    for c in cases.iter().step_by(cases.len() / 9 + 1) {
        ctx.sample(c);
    }
    ctx.add("evaluations", progs.len() as u64);
    ctx.add("distinct_nontrivial", progs.len() as u64);
    ctx.add("programs_rejected", rejected.load(std::sync::atomic::Ordering::Relaxed));
    ctx.add("programs_wrong_in_the_model", good.iter().filter(|g| !**g).count() as u64);
    ctx.note(
        "rule",
        "evaluations: client programs whose verdict by the compiler was compared with the model of borrows; distinct_nontrivial: the same, all of them are \
         different; for each form of query all words of uses up to a length with one or two actions on a tree or the filter's data at every position",
    );
    ctx.note("assume1", "the compiler's borrow checker is taken as it is: what is judged is whether the crate's signatures and types tell it enough");
}

fn main() {
    rtree_mc::main_for("C37", "exploration", run, one)
}
