//! A dictionary of literals taken from the code under test, used to seed workloads (sizes and
//! texts that the code treats specially are worth trying). Never used to judge anything.

use crate::rng::Rng;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub strs: Vec<String>,
    pub ints: Vec<u64>,
}

pub fn repo() -> String {
    std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into())
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut strs = BTreeSet::new();
        let mut ints = BTreeSet::new();
        walk(std::path::Path::new(&format!("{}/src", repo())), &mut strs, &mut ints);
        let mut d = Dict { strs: strs.into_iter().collect(), ints: ints.into_iter().collect() };
        if d.strs.is_empty() {
            d.strs.push("x".into());
        }
        if d.ints.is_empty() {
            d.ints.push(64);
        }
        d
    })
}

fn walk(p: &std::path::Path, strs: &mut BTreeSet<String>, ints: &mut BTreeSet<u64>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for e in es {
        if e.is_dir() {
            walk(&e, strs, ints);
        } else if e.extension().is_some_and(|x| x == "rs") {
            if let Ok(t) = std::fs::read_to_string(&e) {
                let t = t.split("mod tests {").next().unwrap_or("");
                for l in t.lines().filter(|l| !l.trim_start().starts_with("//")) {
                    line(l, strs, ints);
                }
            }
        }
    }
}

fn line(l: &str, strs: &mut BTreeSet<String>, ints: &mut BTreeSet<u64>) {
    let c: Vec<char> = l.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '"' || (c[i] == '\'' && i + 2 < c.len() && (c[i + 2] == '\'' || (c[i + 1] == '\\' && c[i + 2..].contains(&'\'')))) {
            let q = c[i];
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != q {
                if c[i] == '\\' && i + 1 < c.len() {
                    i += 1;
                    s.push(match c[i] {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        '0' => '\0',
                        x => x,
                    });
                } else {
                    s.push(c[i]);
                }
                i += 1;
            }
            if !s.is_empty() && s.len() <= 40 {
                strs.insert(s);
            }
        } else if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let mut t = String::new();
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                t.push(c[i]);
                i += 1;
            }
            let t = t.replace('_', "");
            let n = match t.strip_prefix("0x") {
                Some(h) => u64::from_str_radix(h, 16).ok(),
                None => t.trim_end_matches(|c: char| !c.is_ascii_digit()).parse().ok(),
            };
            if let Some(n) = n {
                ints.insert(n);
            }
            continue;
        }
        i += 1;
    }
}

pub fn word(r: &mut Rng) -> String {
    r.pick(&get().strs).clone()
}

const EDGES: &[usize] = &[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025];

/// A size worth trying, at most `max`.
pub fn size(r: &mut Rng, max: usize) -> usize {
    for _ in 0..20 {
        let n = match r.below(4) {
            0 => {
                let d = get();
                (*r.pick(&d.ints) as usize).saturating_add(r.below(3)).saturating_sub(1)
            }
            1 | 2 => *r.pick(EDGES),
            _ => r.below(max + 1),
        };
        if n <= max {
            return n;
        }
    }
    max
}
