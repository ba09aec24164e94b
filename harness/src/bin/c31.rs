//! C31: user code that breaks its contracts never makes the tree unsound.
//!
//! Every answer that user code gives is a choice; histories are run for all
//! combinations of constantly wrong kinds of answers, and for all ways of giving
//! a few single wrong answers.
use rtree_mc::calloc;
use rtree_mc::prelude::*;
use rtree_mc::sound::*;
use rtree_mc::tracked::*;
use rusty_rtree::bounds::SAABB;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[global_allocator]
static GLOBAL: calloc::Checked = calloc::Checked;

static RUNS: AtomicU64 = AtomicU64::new(0);
static OPS: AtomicU64 = AtomicU64::new(0);
static ANSWERS: AtomicU64 = AtomicU64::new(0);
static PANICS: AtomicU64 = AtomicU64::new(0);

fn history1(pad: &str, keys: &[SAABB<i32, 2>], cfg: Cfg, w: &[Sop], s: &Script) -> Res<Seen> {
    let r = match pad {
        "aligned" => history::<Aligned>(keys, cfg, w, s, false),
        _ => history::<()>(keys, cfg, w, s, false),
    };
    let tell = |e| match e {
        Fail::Violation(m) => Fail::Violation(format!("answers {}: {m}", fmt_script(s))),
        e => e,
    };
    let r = r.map_err(tell)?;
    RUNS.fetch_add(1, Relaxed);
    OPS.fetch_add(r.ops, Relaxed);
    ANSWERS.fetch_add(r.answers.len() as u64, Relaxed);
    PANICS.fetch_add((r.panics > 0) as u64, Relaxed);
    Ok(r)
}

fn fmt_script(s: &Script) -> String {
    let p: String = s.policy.iter().map(|x| (b'0' + x) as char).collect();
    p + &s.at.iter().map(|(i, a)| format!("+{i}:{a}")).collect::<String>()
}

/// All scripts that have up to `depth` more single wrong answers, all of them
/// after those that the script has.
fn vary(pad: &str, keys: &[SAABB<i32, 2>], cfg: Cfg, w: &[Sop], s: &mut Script, depth: usize) -> Res {
    let r = history1(pad, keys, cfg, w, s)?;
    if depth == 0 {
        return Ok(());
    }
    let from = s.at.last().map_or(0, |x| x.0 + 1);
    for i in from..r.answers.len() as u32 {
        for alt in 1..=ALTS[r.answers[i as usize] as usize] {
            s.at.push((i, alt));
            vary(pad, keys, cfg, w, s, depth - 1)?;
            s.at.pop();
        }
    }
    Ok(())
}

fn one(c: &Case, _: Tier) -> Res {
    let keys = tkeys(c.get("A"));
    let (cfg, w) = (parse_cfg(c.get("C")), parse_word(c.get("W")));
    let mut s = Script { lies: true, ..Default::default() };
    for (i, b) in c.get("L").bytes().enumerate() {
        s.policy[i] = b - b'0';
    }
    vary(c.get("P"), &keys, cfg, &w, &mut s, c.num("D"))
}

fn words(menu: &[Sop], depth: usize) -> Vec<Vec<Sop>> {
    let mut v: Vec<Vec<Sop>> = vec![vec![]];
    for _ in 0..depth {
        v = v.into_iter().flat_map(|h| menu.iter().map(move |&o| h.iter().copied().chain([o]).collect())).collect();
    }
    v
}

fn run(ctx: &Ctx) {
    let mut cases = vec![];
    let put = |cases: &mut Vec<String>, p: &str, a: &str, cfg: Cfg, w: &[Sop], l: &str, d: usize| {
        cases.push(format!("P={p} A={a} C={} W={} L={l} D={d}", fmt_cfg(cfg), fmt_word(w)));
    };
    // single wrong answers in all short histories
    let menu = [Sop::Ins(0), Sop::Ins(1), Sop::Uni(0), Sop::Uni(2), Sop::Rem(0), Sop::Rem(1)];
    for w in words(&menu, ctx.qt(4, 5)) {
        for cfg in [(2, 1), (3, 1)] {
            put(&mut cases, "plain", "mix", cfg, &w, "00000000", 2);
        }
    }
    for c in cases.iter().step_by(cases.len() / 8 + 1) {
        ctx.sample(c);
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    cases.clear();
    // growing and draining, with one or two wrong answers
    let mut long: Vec<Vec<Sop>> = vec![];
    for n in [5u8, 9, 12] {
        let mut w: Vec<Sop> = (0..n).map(|i| if i % 4 == 3 { Sop::Uni(i) } else { Sop::Ins(i) }).collect();
        w.push(Sop::Ask);
        long.push(w.clone());
        w.push(Sop::Clo);
        w.extend((0..n).map(|i| Sop::Rem((i * 5 + 2) % n)));
        long.push(w);
    }
    for a in ["scat:12", "over:12"] {
        for w in &long {
            for cfg in [(2, 1), (3, 1), (4, 2)] {
                put(&mut cases, "plain", a, cfg, w, "00000000", 1);
            }
        }
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    cases.clear();
    // constantly wrong answers
    let opts: [&[u8]; 8] = [&[0, 1, 2, 3, 9], &[0, 1, 2, 3, 9], &[0, 1, 2, 9], &[0, 1, 2, 9], &[0, 1, 2, 3, 9], &[0, 1, 2, 3, 9], &[0, 1, 2, 3], &[0, 1, 2, 3, 9]];
    for w in &long[..ctx.qt(4, 6)] {
        for cfg in [(2, 1), (4, 2)] {
            // structure and keys
            for mut i in 0..opts[..5].iter().map(|o| o.len()).product::<usize>() {
                let mut l = String::new();
                for o in &opts[..5] {
                    l.push((b'0' + o[i % o.len()]) as char);
                    i /= o.len();
                }
                put(&mut cases, "aligned", "scat:12", cfg, w, &(l + "000"), 0);
            }
            // filters and metrics
            for mut i in 0..opts[5..].iter().map(|o| o.len()).product::<usize>() {
                let mut l = String::new();
                for o in &opts[5..] {
                    l.push((b'0' + o[i % o.len()]) as char);
                    i /= o.len();
                }
                for s in ["00000", "00200", "10100", "93333"] {
                    put(&mut cases, "plain", "scat:12", cfg, w, &(s.to_string() + &l), 0);
                }
            }
        }
    }
    ctx.par_cases(&cases, |c| c.clone(), |c| one(&Case::parse(c), Tier::Quick));
    ctx.add("evaluations", RUNS.load(Relaxed));
    ctx.add("distinct_nontrivial", RUNS.load(Relaxed));
    ctx.add("operations", OPS.load(Relaxed));
    ctx.add("answers", ANSWERS.load(Relaxed));
    ctx.add("histories_with_panics", PANICS.load(Relaxed));
    ctx.note("rule", "x");
}

fn main() {
    rtree_mc::main_for("C31", "model_checking", run, one)
}
