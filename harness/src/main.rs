//! Runtime monitors for the Dockerfile parser in /repo.
//!
//! `dfmon run ID` drives one property's workload in worker processes and judges
//! what they observed; `dfmon replay FILE` runs one recorded case again.

mod cx;
mod interpose;
mod props;
mod real;
mod sup;

use cx::*;
use dfcore::gen::Dict;
use dfcore::rec::*;
use dfcore::rng::Rng;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;

static PANIC: Mutex<Option<(bool, String)>> = Mutex::new(None);

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let target = real::IN_TARGET.with(|c| c.get());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            if p.is_none() {
                *p = Some((target, format!("panicked at {}: {}", loc, clip(&msg, 300))));
            }
        }
    }));
}

pub enum CaseEnd {
    Ok,
    Bad(String, String),
    Harness(String),
}

fn run_case(p: &Prop, f: usize, idx: u64, seed: u64, thorough: bool, dict: &Dict, st: &mut Stats, verbose: bool) -> CaseEnd {
    let fam = &p.fams[f];
    let mut cx = Cx {
        prop: p.id,
        fam: fam.name,
        idx,
        seed,
        thorough,
        r: Rng::for_case(seed, p.id, fam.name, idx),
        dict,
        stats: st,
        fail: None,
        verbose,
    };
    *PANIC.lock().unwrap() = None;
    real::IN_TARGET.with(|c| c.set(false));
    let run = &fam.run;
    let r = catch_unwind(AssertUnwindSafe(|| run(&mut cx)));
    let fail = cx.fail.take();
    cx.stats.evals += 1;
    match r {
        Ok(()) => match fail {
            Some((m, i)) => CaseEnd::Bad(m, i),
            None => CaseEnd::Ok,
        },
        Err(_) => {
            let p = PANIC.lock().unwrap().take();
            match (p, fail) {
                (Some((true, m)), _) => CaseEnd::Bad(format!("the code under test {}", m), String::new()),
                (_, Some((m, i))) => CaseEnd::Bad(m, i),
                (Some((false, m)), None) => CaseEnd::Harness(m),
                (None, None) => CaseEnd::Harness("unknown panic".into()),
            }
        }
    }
}

pub fn dict() -> Dict {
    let d = std::env::var("DF_REPO").unwrap_or_else(|_| "/repo".into());
    let d = dfcore::hostile::harvest(&PathBuf::from(d).join("src"));
    let _ = dfcore::gen::WORDS.set(d.words.clone());
    d
}

fn counts(f: &Fam, thorough: bool) -> u64 {
    let enumerated = ["exhaustive", "small", "arrangements"].iter().any(|p| f.name.starts_with(p));
    // the quick figures are for seconds; an ordinary change can wait a little longer
    let k = if !enumerated && f.thorough >= f.quick * 10 { 3 } else { 1 };
    let n = if thorough { f.thorough } else { f.quick * k };
    match std::env::var("DF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
        Some(k) => ((n as f64 * k) as u64).max(1),
        None => n,
    }
}

/// Runs this worker's share of the cases. Writes its results to `dir`.
fn worker(id: &str, thorough: bool, seed: u64, w: u64, n: u64, dir: &str, skip: &str, deadline: u64) {
    hook();
    let p = props::get(id).expect("no such property");
    let dict = dict();
    let jf = std::fs::OpenOptions::new().create(true).write(true).open(format!("{}/j{}", dir, w)).unwrap();
    let mut st = Stats::default();
    let mut bad: Vec<(usize, u64, String, String)> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut per: BTreeMap<String, u64> = BTreeMap::new();
    let start = std::time::Instant::now();
    let skip: std::collections::HashSet<(usize, u64)> = skip
        .split(',')
        .filter_map(|s| {
            let (a, b) = s.split_once(':')?;
            Some((a.parse().ok()?, b.parse().ok()?))
        })
        .collect();
    let mut timed_out = false;
    // the families take turns, so that a run that is cut short has seen some of each
    const TURNS: u64 = 20;
    let turns = (0..TURNS).flat_map(|t| p.fams.iter().enumerate().map(move |(f, fam)| (t, f, fam)));
    'all: for (turn, f, fam) in turns {
        let total = counts(fam, thorough);
        let mine = total.saturating_sub(w).div_ceil(n);
        for k in mine * turn / TURNS..mine * (turn + 1) / TURNS {
            let i = w + k * n;
            if skip.contains(&(f, i)) {
                continue;
            }
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(f as u64 + 1).to_le_bytes());
            b[8..].copy_from_slice(&i.to_le_bytes());
            let _ = jf.write_at(&b, 0);
            match run_case(&p, f, i, seed, thorough, &dict, &mut st, false) {
                CaseEnd::Ok => {}
                CaseEnd::Bad(m, inp) => {
                    bad.push((f, i, m, inp));
                    if bad.len() >= 3 {
                        break 'all;
                    }
                }
                CaseEnd::Harness(m) => {
                    harness.push(format!("family {} case {}: {}", fam.name, i, m));
                    if harness.len() >= 20 {
                        break 'all;
                    }
                }
            }
            *per.entry(fam.name.to_string()).or_default() += 1;
            if start.elapsed().as_secs() > deadline {
                timed_out = true;
                break 'all;
            }
        }
    }
    let _ = jf.write_at(&[0u8; 16], 0);
    let mut o = String::new();
    o.push_str(&format!("evals\t{}\n", st.evals));
    for (k, v) in &st.events {
        o.push_str(&format!("ev\t{}\t{}\n", esc(k), v));
    }
    for (k, v) in &per {
        o.push_str(&format!("fam\t{}\t{}\n", k, v));
    }
    for s in &st.samples {
        o.push_str(&format!("sample\t{}\n", esc(s)));
    }
    for (f, i, m, inp) in &bad {
        o.push_str(&format!("bad\t{}\t{}\t{}\t{}\n", f, i, esc(m), esc(inp)));
    }
    for h in &harness {
        o.push_str(&format!("harness\t{}\n", esc(h)));
    }
    if timed_out {
        o.push_str("timeout\n");
    }
    o.push_str("end\n");
    let mut hb = Vec::with_capacity(st.distinct.len() * 8);
    for h in &st.distinct {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}/h{}", dir, w), hb).unwrap();
    std::fs::write(format!("{}/r{}", dir, w), o).unwrap();
}

fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("cannot read the replay file");
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for l in s.lines() {
        if let Some((k, v)) = l.split_once('\t') {
            m.entry(k.to_string()).or_insert_with(|| unesc(v));
        }
    }
    let p = props::get(&m["property"]).expect("no such property");
    let f = p.fams.iter().position(|f| f.name == m["family"]).expect("no such family");
    hook();
    let mut st = Stats::default();
    match run_case(&p, f, m["case"].parse().unwrap(), m["seed"].parse().unwrap(), m["tier"] == "thorough", &dict(), &mut st, true) {
        CaseEnd::Ok => {
            println!("the case passes");
            0
        }
        CaseEnd::Bad(msg, inp) => {
            println!("{}\ninput: {:?}", msg, inp);
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
        CaseEnd::Harness(m) => {
            println!("harness error: {}", m);
            2
        }
    }
}

/// Cases of every family in turn, in this process, until the time is up (for
/// interpreters and tools under which worker processes make no sense).
fn solo(id: &str, seconds: u64, leave: &str) -> i32 {
    let p = props::get(id).expect("no such property");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let leave: Vec<&str> = leave.split(',').collect();
    hook();
    let d = Dict::default();
    let mut st = Stats::default();
    let start = std::time::Instant::now();
    let mut n = 0;
    'all: for i in 0u64.. {
        for (f, fam) in p.fams.iter().enumerate() {
            let total = counts(fam, false);
            if leave.contains(&fam.name) || i >= total {
                continue;
            }
            if start.elapsed().as_secs() >= seconds {
                break 'all;
            }
            // (spread over the enumerated families, too)
            let idx = i.wrapping_mul(2_654_435_761) % total;
            match run_case(&p, f, idx, seed, false, &d, &mut st, false) {
                CaseEnd::Ok => n += 1,
                CaseEnd::Bad(m, inp) => {
                    println!("solo family {} case {}: {}\ninput: {:?}", fam.name, idx, m, inp);
                    return 1;
                }
                CaseEnd::Harness(m) => {
                    println!("harness error: {}", m);
                    return 2;
                }
            }
        }
    }
    println!("solo {} cases {} distinct {} s", n, st.distinct.len(), start.elapsed().as_secs());
    if st.distinct.is_empty() { 2 } else { 0 }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| a.get(i).cloned().unwrap_or_default();
    let code = match get(1).as_str() {
        "run" => sup::run(&get(2)),
        "worker" => {
            // a generous but bounded stack, as a user's main thread has
            let (id, th, seed, w, n, dir, skip, dl) = (
                get(2),
                get(3) == "thorough",
                get(4).parse().unwrap(),
                get(5).parse().unwrap(),
                get(6).parse().unwrap(),
                get(7),
                get(8),
                get(9).parse().unwrap(),
            );
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || worker(&id, th, seed, w, n, &dir, &skip, dl))
                .unwrap()
                .join()
                .unwrap();
            0
        }
        "solo" => solo(&get(2), get(3).parse().unwrap(), &get(4)),
        "replay" => {
            let f = get(2);
            std::thread::Builder::new().stack_size(8 << 20).spawn(move || replay(&f)).unwrap().join().unwrap()
        }
        "oneshot" => {
            let v = a[2..].to_vec();
            std::thread::Builder::new().stack_size(8 << 20).spawn(move || props::hist::oneshot(&v, &dict())).unwrap().join().map_or(101, |c| c)
        }
        "list" => {
            for p in props::ids() {
                println!("{}", p);
            }
            0
        }
        // what core/src/baseline.txt holds
        "baseline" => {
            let d = dfcore::hostile::literals(&PathBuf::from("/repo/src"));
            d.words.iter().for_each(|w| println!("w{}", esc(w)));
            d.sizes.iter().for_each(|n| println!("n{}", n));
            0
        }
        "dict" => {
            println!("{:?}", dict());
            0
        }
        "spec" => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            println!("{:#?}", dfcore::spec::parse(&s));
            0
        }
        _ => {
            eprintln!("usage: dfmon run ID | replay FILE | list");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
