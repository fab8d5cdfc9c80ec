//! Words and numbers that stand in the code under observation, used as names, texts, amounts,
//! dates and sizes in some of the cases. They steer the workload; no verdict depends on them.
use crate::rng::Rng;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::OnceLock;

#[derive(Default)]
struct Dict {
    /// (those that are new, all of them)
    words: [Vec<String>; 2],
    numbers: [Vec<String>; 2],
}

static DICT: OnceLock<Dict> = OnceLock::new();
static ON: AtomicBool = AtomicBool::new(false);

/// Lines `w0 text`, `w1 text`, `n0 number`, `n1 number`.
pub fn load(path: &str) {
    let mut d = Dict::default();
    for l in std::fs::read_to_string(path).expect("generator: dictionary").lines() {
        let Some((k, t)) = l.split_once(' ') else { continue };
        match k {
            "w0" => d.words[0].push(t.to_string()),
            "w1" => d.words[1].push(t.to_string()),
            "n0" => d.numbers[0].push(t.to_string()),
            "n1" => d.numbers[1].push(t.to_string()),
            _ => {}
        }
    }
    let _ = DICT.set(d);
}

/// Decides for the case whether the dictionary is used.
pub fn begin(rng: &mut Rng) -> bool {
    let on = match DICT.get() {
        None => false,
        Some(d) => rng.chance(if d.words[0].len() + d.numbers[0].len() > 0 { 35 } else { 12 }),
    };
    ON.store(on, Ordering::Relaxed);
    on
}

fn from(rng: &mut Rng, v: impl Fn(&'static Dict) -> &'static [Vec<String>; 2], often: usize) -> Option<&'static str> {
    if !ON.load(Ordering::Relaxed) {
        return None;
    }
    let v = v(DICT.get()?);
    if !rng.chance(often) {
        return None;
    }
    let v = if !v[0].is_empty() && rng.chance(75) { &v[0] } else { &v[1] };
    if v.is_empty() {
        return None;
    }
    Some(rng.pick(v).as_str())
}

/// A word, now and then.
pub fn word(rng: &mut Rng, fits: impl Fn(&str) -> bool) -> Option<&'static str> {
    let w = from(rng, |d| &d.words, 25)?;
    if fits(w) {
        return Some(w);
    }
    // a part of it may fit
    let parts: Vec<&'static str> = w.split(|c: char| !c.is_alphanumeric()).filter(|p| !p.is_empty()).collect();
    if parts.is_empty() {
        return None;
    }
    let p = parts[rng.below(parts.len())];
    if fits(p) {
        Some(p)
    } else {
        None
    }
}

/// A number as it is written, now and then.
pub fn number(rng: &mut Rng, often: usize) -> Option<&'static str> {
    from(rng, |d| &d.numbers, often)
}

/// A size around a number of the code, of at most `most`.
pub fn size(rng: &mut Rng, most: usize, often: usize) -> Option<usize> {
    let n: usize = number(rng, often)?.parse().ok()?;
    let n = match rng.below(8) {
        0 => n + 1,
        1 => n.saturating_sub(1),
        2 => n.saturating_mul(2),
        3 => n + 2,
        _ => n,
    };
    if n > most {
        None
    } else {
        Some(n)
    }
}
