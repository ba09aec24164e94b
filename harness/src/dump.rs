//! The structure of a tree, read from its debug output, or, should that be of
//! an unknown form, from the bounds and keys that a filter is shown.

use crate::engine::{Fail, Res};
use crate::model::MBox;
use crate::variants::Variant;
use rusty_rtree::{filter::SpatialFilter, RTree};
use std::cell::RefCell;

/// Nodes in preorder.
#[derive(Clone, Debug, Default)]
pub struct Dump {
    pub nodes: Vec<DNode>,
    /// identifies the structure, keys and bounds, but not the values
    pub canon: u128,
}

#[derive(Clone, Debug)]
pub struct DNode {
    pub parent: Option<usize>,
    pub depth: usize,
    pub bounds: Option<MBox>,
    pub kids: Vec<usize>,
    /// values of the entries
    pub ents: Vec<u32>,
}

impl Dump {
    pub fn height(&self) -> usize {
        self.nodes.iter().map(|n| n.depth).max().unwrap_or(0)
    }
    pub fn is_leaf(&self, i: usize) -> bool {
        self.nodes[i].kids.is_empty()
    }
    /// values of all entries below a node, in iteration order
    pub fn below(&self, i: usize, out: &mut Vec<u32>) {
        out.extend(&self.nodes[i].ents);
        for &k in &self.nodes[i].kids {
            self.below(k, out);
        }
    }
    pub fn values(&self) -> Vec<u32> {
        let mut v = vec![];
        self.below(0, &mut v);
        v
    }
    /// the same nodes with the same bounds and values in the same order
    pub fn same(&self, o: &Dump) -> bool {
        self.canon == o.canon
            && self.nodes.len() == o.nodes.len()
            && self
                .nodes
                .iter()
                .zip(&o.nodes)
                .all(|(a, b)| a.parent == b.parent && a.ents == b.ents && a.bounds == b.bounds)
    }
}

// FNV-1a over 128 bits
struct H(u128);
impl H {
    fn new() -> H {
        H(0x6c62272e07bb014262b821756295c58d)
    }
    fn put(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u128).wrapping_mul(0x0000000001000000000000000000013b);
        }
    }
}

// ------------------------------------------------------- generic debug parser

#[derive(Debug)]
enum Dv<'a> {
    Struct(&'a str, Vec<(&'a str, Dv<'a>, &'a str)>),
    Tuple(&'a str, Vec<(Dv<'a>, &'a str)>),
    List(Vec<(Dv<'a>, &'a str)>),
    Atom(&'a str),
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.s.as_bytes().get(self.i).map_or(false, |c| c.is_ascii_whitespace()) {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.s.as_bytes().get(self.i).copied()
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.peek()? == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn value(&mut self) -> Option<(Dv<'a>, &'a str)> {
        self.ws();
        let start = self.i;
        let v = match self.peek()? {
            b'[' | b'(' => {
                let list = self.s.as_bytes()[self.i] == b'[';
                let items = self.items(if list { b']' } else { b')' })?;
                if list {
                    Dv::List(items)
                } else {
                    Dv::Tuple("", items)
                }
            }
            b'"' => {
                self.i += 1;
                let b = self.s.as_bytes();
                while *b.get(self.i)? != b'"' {
                    if b[self.i] == b'\\' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                self.i += 1;
                Dv::Atom(&self.s[start..self.i])
            }
            b'<' => {
                while *self.s.as_bytes().get(self.i)? != b'>' {
                    self.i += 1;
                }
                self.i += 1;
                Dv::Atom(&self.s[start..self.i])
            }
            _ => {
                let b = self.s.as_bytes();
                while self.i < b.len() && !b" ,[](){}:\n\t".contains(&b[self.i]) {
                    self.i += 1;
                }
                let name = &self.s[start..self.i];
                if name.is_empty() {
                    return None;
                }
                match self.peek() {
                    Some(b'{') => {
                        self.i += 1;
                        let mut f = vec![];
                        loop {
                            if self.peek()? == b'}' {
                                self.i += 1;
                                break;
                            }
                            self.ws();
                            let fs = self.i;
                            let b = self.s.as_bytes();
                            while self.i < b.len() && b[self.i] != b':' {
                                self.i += 1;
                            }
                            let fname = self.s[fs..self.i].trim();
                            self.eat(b':')?;
                            let (v, t) = self.value()?;
                            f.push((fname, v, t));
                            if self.peek()? == b',' {
                                self.i += 1;
                            }
                        }
                        Dv::Struct(name, f)
                    }
                    Some(b'(') => Dv::Tuple(name, self.items(b')')?),
                    _ => {
                        // an atom must not swallow the blank that follows it
                        Dv::Atom(name)
                    }
                }
            }
        };
        Some((v, self.s[start..self.i].trim_end()))
    }
    fn items(&mut self, close: u8) -> Option<Vec<(Dv<'a>, &'a str)>> {
        self.i += 1;
        let mut v = vec![];
        loop {
            if self.peek()? == close {
                self.i += 1;
                return Some(v);
            }
            v.push(self.value()?);
            if self.peek()? == b',' {
                self.i += 1;
            }
        }
    }
}

/// A node is a structure with two fields, one of them a list of nodes or of
/// key-value pairs.
fn as_node<'a, 'b>(v: &'b Dv<'a>) -> Option<(&'a str, &'b Vec<(Dv<'a>, &'a str)>)> {
    if let Dv::Struct("Node", f) = v {
        if f.len() == 2 {
            for (i, x) in f.iter().enumerate() {
                if let Dv::List(l) = &x.1 {
                    return Some((f[1 - i].2, l));
                }
            }
        }
    }
    None
}

fn find_node<'a, 'b>(v: &'b Dv<'a>) -> Option<&'b Dv<'a>> {
    if as_node(v).is_some() {
        return Some(v);
    }
    match v {
        Dv::Struct(_, f) => f.iter().find_map(|x| find_node(&x.1)),
        Dv::Tuple(_, f) => f.iter().find_map(|x| find_node(&x.0)),
        _ => None,
    }
}

fn build<V: Variant>(
    v: &Dv,
    parent: Option<usize>,
    depth: usize,
    d: &mut Dump,
    h: &mut H,
) -> Option<usize> {
    let (bounds, list) = as_node(v)?;
    let me = d.nodes.len();
    h.put(b"(");
    h.put(bounds.as_bytes());
    d.nodes.push(DNode {
        parent,
        depth,
        bounds: V::parse_b(bounds).filter(|b| (0..3).all(|i| b.lo[i] <= b.hi[i])),
        kids: vec![],
        ents: vec![],
    });
    for (c, _) in list {
        match c {
            Dv::Tuple("", kv) if kv.len() == 2 => {
                let val = match &kv[1].0 {
                    Dv::Atom(a) => a.parse().ok()?,
                    _ => return None,
                };
                h.put(kv[0].1.as_bytes());
                h.put(b";");
                d.nodes[me].ents.push(val);
            }
            c => {
                let k = build::<V>(c, Some(me), depth + 1, d, h)?;
                d.nodes[me].kids.push(k);
            }
        }
    }
    if !d.nodes[me].kids.is_empty() && !d.nodes[me].ents.is_empty() {
        return None;
    }
    h.put(b")");
    Some(me)
}

pub fn parse_debug<V: Variant>(s: &str) -> Option<Dump> {
    let mut p = P { s, i: 0 };
    let (v, _) = p.value()?;
    let n = find_node(&v)?;
    let mut d = Dump::default();
    let mut h = H::new();
    build::<V>(n, None, 0, &mut d, &mut h)?;
    d.canon = h.0;
    Some(d)
}

// ------------------------------------------------------- probing by a filter

pub enum Ev<B> {
    B(B),
    K,
}

pub struct Probe<'a, B> {
    pub log: &'a RefCell<Vec<Ev<B>>>,
}

impl<'a, B: Clone, K> SpatialFilter<B, K> for Probe<'a, B> {
    fn test_bounds(&self, b: &B) -> bool {
        self.log.borrow_mut().push(Ev::B(b.clone()));
        true
    }
    fn test_key(&self, _: &K) -> bool {
        self.log.borrow_mut().push(Ev::K);
        true
    }
}

/// Reconstructs the structure from what an accepting filter is shown in a
/// depth-first traversal in which all leaves have the same depth.
pub fn probe<V: Variant>(t: &RTree<V::B, V::K, u32>, cap: usize) -> Option<Dump> {
    let log = RefCell::new(vec![]);
    let mut vals = vec![];
    for (k, v) in t.filter_iter::<V::K, _>(Probe { log: &log }).take(cap) {
        vals.push((format!("{k:?}"), *v));
    }
    let mut d = Dump::default();
    let mut h = H::new();
    let log = log.into_inner();
    let mut path: Vec<usize> = vec![];
    let (mut i, mut nv) = (0, 0);
    let mut height = None;
    while i < log.len() {
        let mut run = vec![];
        while let Some(Ev::B(b)) = log.get(i) {
            run.push(b.clone());
            i += 1;
        }
        let hh = *height.get_or_insert(run.len());
        if run.is_empty() || run.len() > hh {
            return None;
        }
        path.truncate(hh - run.len());
        for b in run {
            let me = d.nodes.len();
            let parent = path.last().copied();
            if let Some(p) = parent {
                d.nodes[p].kids.push(me);
            }
            h.put(format!("({}:{b:?}", path.len()).as_bytes());
            d.nodes.push(DNode {
                parent,
                depth: path.len(),
                bounds: V::mbox(&b),
                kids: vec![],
                ents: vec![],
            });
            path.push(me);
        }
        while let Some(Ev::K) = log.get(i) {
            let (k, v) = vals.get(nv)?;
            h.put(k.as_bytes());
            h.put(b";");
            d.nodes[*path.last()?].ents.push(*v);
            nv += 1;
            i += 1;
        }
    }
    if d.nodes.is_empty() {
        d.nodes.push(DNode { parent: None, depth: 0, bounds: None, kids: vec![], ents: vec![] });
    }
    d.canon = h.0;
    (nv == vals.len()).then_some(d)
}

pub fn dump<V: Variant>(t: &RTree<V::B, V::K, u32>, n: usize) -> Res<Dump> {
    let text = format!("{t:?}");
    if let Some(d) = parse_debug::<V>(&text) {
        return Ok(d);
    }
    probe::<V>(t, n + 8)
        .ok_or_else(|| Fail::Engine(format!("cannot determine the structure of {text}")))
}
