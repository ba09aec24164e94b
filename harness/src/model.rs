//! The reference model's geometry, the key alphabets and the operation scripts.

/// A closed box in up to three dimensions; unused dimensions are zero.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct MBox {
    pub lo: [i64; 3],
    pub hi: [i64; 3],
}

pub const fn mb(lo: [i64; 3], hi: [i64; 3]) -> MBox {
    MBox { lo, hi }
}

pub fn b2(x0: i64, y0: i64, x1: i64, y1: i64) -> MBox {
    mb([x0, y0, 0], [x1, y1, 0])
}

impl MBox {
    pub fn contains(&self, o: &MBox) -> bool {
        (0..3).all(|d| self.lo[d] <= o.lo[d] && o.hi[d] <= self.hi[d])
    }
    pub fn intersects(&self, o: &MBox) -> bool {
        (0..3).all(|d| self.lo[d] <= o.hi[d] && o.lo[d] <= self.hi[d])
    }
    pub fn union(&self, o: &MBox) -> MBox {
        MBox {
            lo: std::array::from_fn(|d| self.lo[d].min(o.lo[d])),
            hi: std::array::from_fn(|d| self.hi[d].max(o.hi[d])),
        }
    }
    pub fn union_all<'a>(it: impl IntoIterator<Item = &'a MBox>) -> Option<MBox> {
        it.into_iter().fold(None, |a: Option<MBox>, b| Some(a.map_or(*b, |a| a.union(b))))
    }
    /// squared distance to a point
    pub fn dist_sq_pt(&self, p: [i64; 3]) -> i64 {
        (0..3)
            .map(|d| {
                let g = (self.lo[d] - p[d]).max(p[d] - self.hi[d]).max(0);
                g * g
            })
            .sum()
    }
}

/// Named key alphabets. Key `i` of an alphabet is built from box `i`; variants
/// with fewer dimensions use the first ones, point keys use the lower corner.
pub fn alphabet(name: &str, dims: usize) -> Vec<MBox> {
    let mut v: Vec<MBox> = vec![];
    let (base, n) = name.split_once(':').map_or((name, 0usize), |(a, b)| (a, b.parse().unwrap()));
    let n = n as i64;
    match base {
        // overlapping, nested, touching, far, negative and equal extents
        "mix" => {
            v = vec![
                b2(0, 0, 2, 2),
                b2(1, 1, 3, 3),
                b2(5, 0, 6, 1),
                b2(-3, -2, -1, 0),
                b2(1, 1, 1, 1),
                b2(2, 2, 4, 4),
            ];
        }
        // all on one point, or around it
        "nest" => {
            for i in 0..6 {
                v.push(b2(-i, -i, i, i));
            }
        }
        "far" => {
            v = vec![
                b2(0, 0, 0, 0),
                b2(100, 0, 100, 0),
                b2(0, 100, 0, 100),
                b2(100, 100, 100, 100),
                b2(50, 50, 50, 50),
                b2(1, 1, 1, 1),
            ];
        }
        "line" => (0..n).for_each(|i| v.push(b2(3 * i, 0, 3 * i + 1, 1))),
        "over" => (0..n).for_each(|i| v.push(b2(i, 0, i + 3, i % 2))),
        "diag" => (0..n).for_each(|i| v.push(b2(2 * i, 2 * i, 2 * i + 1, 2 * i + 1))),
        "nested" => (0..n).for_each(|i| v.push(b2(-i, -i, i, i))),
        "grid" => (0..n).for_each(|i| {
            let w = 5;
            let (x, y) = (i % w, i / w);
            v.push(b2(4 * x, 4 * y, 4 * x + 2, 4 * y + 2));
        }),
        // two clusters, alternating
        "clus" => (0..n).for_each(|i| {
            let (c, j) = (i % 2, i / 2);
            v.push(b2(1000 * c + 2 * j, j % 3, 1000 * c + 2 * j + 1, j % 3 + 1));
        }),
        // boxes in a row, in groups of groups with ever wider gaps
        "row" => (0..n).for_each(|i| {
            let x: i64 = (0..8).filter(|b| i >> b & 1 == 1).map(|b| 4i64.pow(b + 1)).sum();
            v.push(b2(x, 0, x + 1, 1));
        }),
        // long and flat boxes in both orientations
        "cross" => (0..n).for_each(|i| {
            if i % 2 == 0 {
                v.push(b2(-50, 2 * i, 50, 2 * i))
            } else {
                v.push(b2(2 * i, -50, 2 * i, 50))
            }
        }),
        // negative coordinates only
        "neg" => (0..n).for_each(|i| v.push(b2(-5 * i - 3, -(i % 4) - 2, -5 * i - 1, -(i % 4) - 1))),
        // points on a small torus, scattered by a multiplicative step
        "scat" => (0..n).for_each(|i| {
            let (x, y) = ((7 * i) % 23, (11 * i) % 19);
            v.push(b2(x, y, x + i % 3, y + i % 2));
        }),
        _ => panic!("unknown alphabet {name}"),
    }
    for (i, b) in v.iter_mut().enumerate() {
        if dims == 3 {
            // a third coordinate that varies independently of the other two
            let z = (i as i64 * 5) % 7;
            b.lo[2] = z;
            b.hi[2] = z + (i as i64 % 2);
        }
        if dims == 1 {
            b.lo[1] = 0;
            b.hi[1] = 0;
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Ins(u8),
    Uni(u8),
    Rem(u8),
    /// replaces the tree by its clone
    Clo,
    /// overwrites all values through `iter_mut`
    Mut,
}

pub fn fmt_hist(h: &[Op]) -> String {
    if h.is_empty() {
        return "-".into();
    }
    let mut s = String::new();
    for o in h {
        if !s.is_empty() {
            s.push(',');
        }
        match o {
            Op::Ins(k) => s.push_str(&format!("i{k}")),
            Op::Uni(k) => s.push_str(&format!("u{k}")),
            Op::Rem(k) => s.push_str(&format!("r{k}")),
            Op::Clo => s.push('c'),
            Op::Mut => s.push('m'),
        }
    }
    s
}

pub fn parse_hist(s: &str) -> Vec<Op> {
    if s == "-" {
        return vec![];
    }
    s.split(',')
        .map(|w| {
            let n = w[1..].parse().unwrap_or(0);
            match &w[..1] {
                "i" => Op::Ins(n),
                "u" => Op::Uni(n),
                "r" => Op::Rem(n),
                "c" => Op::Clo,
                "m" => Op::Mut,
                _ => panic!("bad history {s}"),
            }
        })
        .collect()
}

/// (max_children, min_children)
pub type Cfg = (usize, usize);

pub fn parse_cfg(s: &str) -> Cfg {
    let (a, b) = s.split_once('.').expect("cfg");
    (a.parse().unwrap(), b.parse().unwrap())
}

pub fn fmt_cfg(c: Cfg) -> String {
    format!("{}.{}", c.0, c.1)
}

/// Orders in which `n` keys are visited.
pub fn order(name: &str, n: usize) -> Vec<u8> {
    let mut v: Vec<usize> = (0..n).collect();
    match name {
        "asc" => {}
        "desc" => v.reverse(),
        "ends" => v = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        "mid" => {
            v = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
            v.reverse();
        }
        "step3" => {
            v = vec![];
            for r in 0..3 {
                v.extend((0..n).filter(|i| i % 3 == r));
            }
        }
        "step7" => {
            v = vec![];
            for r in 0..7 {
                v.extend((0..n).filter(|i| i % 7 == r));
            }
        }
        _ => panic!("unknown order {name}"),
    }
    v.into_iter().map(|x| x as u8).collect()
}

pub const ORDERS: [&str; 6] = ["asc", "desc", "ends", "mid", "step3", "step7"];
pub const SHAPES: [&str; 9] =
    ["line", "over", "diag", "nested", "grid", "clus", "cross", "neg", "scat"];
