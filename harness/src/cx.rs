//! One case of one monitor: its random source, its counters, its verdict.

use dfcore::gen::*;
use dfcore::rng::{hash_bytes, Rng};
use std::collections::{BTreeMap, HashSet};

pub struct Fam {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: Box<dyn Fn(&mut Cx)>,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub fams: Vec<Fam>,
    /// counters that must be non-zero for the run to count as an observation
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub fn fam(name: &'static str, quick: u64, thorough: u64, run: impl Fn(&mut Cx) + 'static) -> Fam {
    Fam { name, quick, thorough, run: Box::new(run) }
}

#[derive(Default)]
pub struct Stats {
    pub events: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
}

pub struct Cx<'a> {
    pub prop: &'static str,
    pub fam: &'static str,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub r: Rng,
    pub dict: &'a Dict,
    pub stats: &'a mut Stats,
    pub fail: Option<(String, String)>,
    pub verbose: bool,
}

impl<'a> Cx<'a> {
    pub fn g(&mut self) -> G<'a> {
        let seed = self.r.next();
        G::new(Rng::new(seed), self.dict)
    }

    pub fn ev(&mut self, k: &str, n: u64) {
        if n > 0 {
            match self.stats.events.get_mut(k) {
                Some(v) => *v += n,
                None => {
                    self.stats.events.insert(k.to_string(), n);
                }
            }
        }
    }

    /// the case is non-trivial by the property's rule; `key` identifies it
    pub fn seen(&mut self, key: &str) {
        let h = hash_bytes(7, key.as_bytes());
        if self.stats.distinct.len() < 3_000_000 {
            self.stats.distinct.insert(h);
        }
        if self.stats.samples.len() < 3 && self.r.chance(1, 5) && key.len() < 400 {
            self.stats.samples.push(key.to_string());
        }
    }

    /// records a violation (the first one of the case counts)
    pub fn bad(&mut self, input: &str, msg: String) {
        if self.fail.is_none() {
            self.fail = Some((msg, input.to_string()));
        }
    }

    pub fn failed(&self) -> bool {
        self.fail.is_some()
    }

    pub fn note(&self, input: &str) {
        if self.verbose {
            eprintln!("input ({} bytes): {:?}", input.len(), dfcore::rec::clip(input, 4000));
        }
    }
}
