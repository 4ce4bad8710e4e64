//! What a property check looks like to the driver.

use crate::json::J;
use crate::rng::{hash_str, mix, Rng};
use std::collections::BTreeMap;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> Result<(), String>,
    /// Counters that must reach a minimum in a quick run (otherwise the check gives no answer).
    pub mins: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

pub struct Ctx {
    pub idx: u64,
    pub rng: Rng,
    pub thorough: bool,
    pub st: Stats,
    /// Print details.
    pub verbose: bool,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub samples: Vec<String>,
}

impl Ctx {
    pub fn rng_for(seed: u64, id: &str, idx: u64) -> Rng {
        Rng::new(mix(seed ^ hash_str(id)).wrapping_add(mix(idx)))
    }

    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }

    pub fn add(&mut self, k: &str, n: u64) {
        match self.st.counts.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.st.counts.insert(k.to_string(), n);
            }
        }
    }

    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.st.maxima.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }

    /// Records one evaluated case.
    pub fn case(&mut self, text: &str, nontrivial: bool) {
        self.st.evaluations += 1;
        if nontrivial {
            self.st.hashes.push(hash_str(text));
            if self.st.samples.len() < 3 && self.rng.one_in(5) {
                let mut t = text.to_string();
                if t.len() > 700 {
                    let mut k = 700;
                    while !t.is_char_boundary(k) {
                        k -= 1;
                    }
                    t.truncate(k);
                    t.push_str("...");
                }
                self.st.samples.push(t);
            }
        }
    }

    pub fn feats(&mut self, fs: &[&'static str]) {
        for f in fs {
            self.count(&format!("construct: {f}"));
        }
    }
}

impl Stats {
    pub fn save(&self, path: &str) {
        use std::io::Write;
        let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
        writeln!(f, "E {}", self.evaluations).unwrap();
        for (k, v) in &self.counts {
            writeln!(f, "C {v} {k}").unwrap();
        }
        for (k, v) in &self.maxima {
            writeln!(f, "X {v} {k}").unwrap();
        }
        for s in &self.samples {
            writeln!(f, "S {}", s.escape_default()).unwrap();
        }
        let mut h = self.hashes.clone();
        h.sort_unstable();
        h.dedup();
        for x in h {
            writeln!(f, "H {x:x}").unwrap();
        }
    }

    /// Merges a saved file.
    pub fn load(&mut self, path: &str) -> std::io::Result<()> {
        let t = std::fs::read_to_string(path)?;
        for l in t.lines() {
            let (tag, rest) = l.split_once(' ').unwrap_or((l, ""));
            match tag {
                "E" => self.evaluations += rest.parse::<u64>().unwrap_or(0),
                "C" | "X" => {
                    if let Some((v, k)) = rest.split_once(' ') {
                        let v: u64 = v.parse().unwrap_or(0);
                        if tag == "C" {
                            *self.counts.entry(k.into()).or_insert(0) += v;
                        } else {
                            let e = self.maxima.entry(k.into()).or_insert(0);
                            *e = (*e).max(v);
                        }
                    }
                }
                "S" => self.samples.push(rest.to_string()),
                "H" => self.hashes.push(u64::from_str_radix(rest, 16).unwrap_or(0)),
                _ => {}
            }
        }
        Ok(())
    }

    pub fn distinct(&mut self) -> u64 {
        self.hashes.sort_unstable();
        self.hashes.dedup();
        self.hashes.len() as u64
    }
}

pub fn evidence(p: &Prop, tier: &str, seed: u64, st: &mut Stats, wall: f64, violations: i64, extra: Vec<(String, J)>) -> String {
    let distinct = st.distinct();
    let obj = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect());
    let mut cov = vec![
        ("evaluations".to_string(), J::Int(st.evaluations as i64)),
        ("distinct_nontrivial".to_string(), J::Int(distinct as i64)),
        ("rule".to_string(), J::s(p.rule)),
        ("samples".to_string(), J::strs(&st.samples.iter().take(6).collect::<Vec<_>>())),
        ("observed".to_string(), obj(&st.counts)),
        ("maxima".to_string(), obj(&st.maxima)),
    ];
    cov.extend(extra);
    J::obj([
        ("property", J::s(p.id)),
        ("tier", J::s(tier)),
        ("seed", J::Int(seed as i64)),
        ("level", J::s(p.level)),
        ("coverage", J::Obj(cov)),
        ("assumptions", J::strs(p.assumptions)),
        ("wall_s", J::Num(wall)),
        ("violations", J::Int(violations)),
    ])
    .to_string()
}
