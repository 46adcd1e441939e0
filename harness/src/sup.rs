//! Supervises the workers of one check and gives the verdict.

use crate::props;
use dfcore::rec::*;
use std::collections::{BTreeMap, HashSet};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// processor seconds one case may take before it counts as not returning
const CASE_CPU_S: f64 = 60.0;

fn cpu(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let t = &s[s.rfind(')')? + 2..];
    let v: Vec<&str> = t.split(' ').collect();
    Some((v.get(11)?.parse::<f64>().ok()? + v.get(12)?.parse::<f64>().ok()?) / 100.0)
}

fn journal(dir: &str, w: u64) -> (u64, u64) {
    match std::fs::read(format!("{}/j{}", dir, w)) {
        Ok(b) if b.len() >= 16 => {
            (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..16].try_into().unwrap()))
        }
        _ => (0, 0),
    }
}

struct W {
    child: Child,
    w: u64,
    last: (u64, u64),
    since: f64,
    done: bool,
    skip: Vec<(u64, u64)>,
}

pub fn run(id: &str) -> i32 {
    let Some(p) = props::get(id) else {
        eprintln!("no such property: {}", id);
        return 2;
    };
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let root = std::env::var("DF_VERIF").unwrap_or_else(|_| "/verif".into());
    let dir = format!("{}/.build/run/{}-{}", root, id, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let deadline = if tier == "quick" { 240 } else { 6000 };
    let exe = std::env::current_exe().unwrap();
    // address-space limit per worker, so that unbounded growth ends the case
    // and not the machine (a sanitizer build reserves shadow memory instead)
    let limit = if std::env::var("DF_NOLIMIT").is_ok() { String::new() } else { "ulimit -v 3200000; ".to_string() };
    let slow: f64 = std::env::var("DF_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let spawn = |w: u64, skip: &[(u64, u64)]| -> Child {
        let sk: Vec<String> = skip.iter().map(|(a, b)| format!("{}:{}", a - 1, b)).collect();
        Command::new("bash")
            .arg("-c")
            .arg(format!("ulimit -c 0; {}exec \"$@\"", limit))
            .arg("bash")
            .arg(&exe)
            .args(["worker", id, tier, &seed.to_string(), &w.to_string(), &WORKERS.to_string(), &dir, &sk.join(","), &deadline.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(format!("{}/e{}", dir, w)).unwrap())
            .spawn()
            .unwrap()
    };
    let mut ws: Vec<W> = (0..WORKERS)
        .map(|w| W { child: spawn(w, &[]), w, last: (0, 0), since: 0.0, done: false, skip: vec![] })
        .collect();
    // (family name, case, message, input)
    let mut bad: Vec<(String, u64, String, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let fam_name = |f: u64| p.fams.get((f as usize).wrapping_sub(1)).map_or("?", |x| x.name).to_string();
            match w.child.try_wait().unwrap() {
                Some(st) if st.success() => w.done = true,
                Some(st) => {
                    let j = journal(&dir, w.w);
                    let err = std::fs::read_to_string(format!("{}/e{}", dir, w.w)).unwrap_or_default();
                    use std::os::unix::process::ExitStatusExt;
                    if j.0 > 0 && (st.signal().is_some() || st.code() != Some(101)) {
                        bad.push((
                            fam_name(j.0),
                            j.1,
                            format!("the process running the case died ({}): {}", st, clip(err.trim(), 1500)),
                            String::new(),
                        ));
                        w.skip.push(j);
                        if w.skip.len() < 3 {
                            w.child = spawn(w.w, &w.skip);
                            w.last = (0, 0);
                            w.since = 0.0;
                            continue;
                        }
                        w.done = true;
                    } else {
                        errors.push(format!("worker {} failed ({}): {}", w.w, st, clip(err.trim(), 1500)));
                        w.done = true;
                    }
                }
                None => {
                    let j = journal(&dir, w.w);
                    let c = cpu(w.child.id()).unwrap_or(0.0);
                    if j != w.last {
                        w.last = j;
                        w.since = c;
                    } else if j.0 > 0 && c - w.since > CASE_CPU_S * slow {
                        bad.push((
                            fam_name(j.0),
                            j.1,
                            format!("the case did not return within {} s of processor time", CASE_CPU_S),
                            String::new(),
                        ));
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                    }
                    if t0.elapsed().as_secs() > deadline + 240 {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        errors.push(format!("worker {} did not finish in time", w.w));
                        w.done = true;
                    }
                }
            }
        }
    }
    // collect
    let mut evals = 0u64;
    let mut events: BTreeMap<String, u64> = BTreeMap::new();
    let mut fams: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut timed_out = false;
    for w in 0..WORKERS {
        let Ok(s) = std::fs::read_to_string(format!("{}/r{}", dir, w)) else { continue };
        for l in s.lines() {
            let v: Vec<&str> = l.split('\t').collect();
            match v[0] {
                "evals" => evals += v[1].parse::<u64>().unwrap_or(0),
                "ev" => *events.entry(unesc(v[1])).or_default() += v[2].parse::<u64>().unwrap_or(0),
                "fam" => *fams.entry(v[1].to_string()).or_default() += v[2].parse::<u64>().unwrap_or(0),
                "sample" => samples.push(unesc(v[1])),
                "bad" => {
                    let f: usize = v[1].parse().unwrap();
                    bad.push((p.fams[f].name.to_string(), v[2].parse().unwrap(), unesc(v[3]), unesc(v[4])));
                }
                "harness" => errors.push(unesc(v[1])),
                "timeout" => timed_out = true,
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(format!("{}/h{}", dir, w)) {
            for c in b.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    samples.sort_by_key(|s| (s.len() < 20, s.len()));
    samples.truncate(6);
    if bad.is_empty() && errors.is_empty() {
        for n in p.need {
            if events.get(*n).copied().unwrap_or(0) == 0 {
                errors.push(format!("nothing observed for `{}`: the run says nothing about the property", n));
            }
        }
        if evals == 0 || distinct.is_empty() {
            errors.push("no non-trivial case was run".into());
        }
    }
    // evidence
    let mut cov = String::new();
    cov.push_str(&format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", evals, distinct.len()));
    cov.push_str(&format!("    \"rule\": {},\n", jstr(p.rule)));
    let sv: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    cov.push_str(&format!("    \"samples\": [{}],\n", sv.join(", ")));
    let fv: Vec<String> = fams.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    cov.push_str(&format!("    \"cases_by_family\": {{{}}},\n", fv.join(", ")));
    let ev: Vec<String> = events.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    cov.push_str(&format!("    \"observed_events\": {{{}}},\n", ev.join(", ")));
    cov.push_str(&format!("    \"stopped_by_time_limit\": {},\n    \"exhaustive\": false", timed_out));
    let av: Vec<String> = p.assumptions.iter().map(|s| jstr(s)).collect();
    let e = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n{}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        jstr(id),
        jstr(tier),
        seed,
        jstr(props::level(id)),
        cov,
        av.join(", "),
        t0.elapsed().as_secs_f64(),
        bad.len()
    );
    let suffix = std::env::var("DF_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{}.json", root, id));
    if let Some(d) = std::path::Path::new(&suffix).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if std::fs::write(&suffix, e).is_err() {
        errors.push("cannot write the evidence file".into());
    }
    println!(
        "{} {} seed={}: {} cases, {} distinct non-trivial, {:.1} s",
        id,
        tier,
        seed,
        evals,
        distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    if !bad.is_empty() {
        let rdir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&rdir);
        bad.sort_by_key(|b| b.3.len() + b.2.len());
        for (k, (fam, case, msg, inp)) in bad.iter().take(3).enumerate() {
            let path = format!("{}/{}-{}-{}-{}.txt", rdir, id, seed, fam, case);
            let body = format!(
                "property\t{}\nfamily\t{}\ncase\t{}\nseed\t{}\ntier\t{}\nmessage\t{}\ninput\t{}\n",
                id,
                fam,
                case,
                seed,
                tier,
                esc(msg),
                esc(inp)
            );
            let _ = std::fs::write(&path, body);
            println!("family {} case {}: {}", fam, case, clip(msg, 1200));
            if !inp.is_empty() {
                println!("  input: {:?}", clip(inp, 600));
            }
            if k == 0 {
                println!("VIOLATION property={} replay={}", id, path);
            }
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(5) {
            println!("error: {}", e);
        }
        return 2;
    }
    0
}
