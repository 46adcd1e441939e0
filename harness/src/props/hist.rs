//! C24: results depend on nothing but the arguments. Operations are recorded as
//! fingerprints; the same operations are run again in other orders, after other
//! operations, on other threads, in fresh processes and in reused memory.

use super::*;
use dfcore::rec::{clip, esc};
use dfcore::rng::{hash_bytes, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Parse(String),
    Read(String, usize),
    Stages(String),
    Resolve(String),
    /// an image reference in a document it does not come from
    ResolveIn(String, String),
    Subst(String, BTreeMap<String, String>, u8),
    Splice(String, Vec<(Sp, String)>),
    Image(String),
    Locate(String),
}

fn show_parse(o: &mut String, r: &Result<dp::Dockerfile, dp::Error>) {
    let _ = match r {
        Ok(d) => write!(o, "{:?}", d),
        Err(e) => write!(o, "{:?} / {}", e, e),
    };
}

fn show_stages(o: &mut String, d: &dp::Dockerfile) {
    let st = d.stages();
    for s in st.iter() {
        let _ = write!(o, "{} {:?} {:?} {:?} {:?} {:?};", s.index, s.name, s.parent, s.root, s.instructions, s.arg_index("a"));
    }
    for n in ["0", "1", "2", "a", "b", "base", "build", "A", ""] {
        let _ = write!(o, "{:?} {:?};", st.get(n).map(|s| s.index), st.get_by_name(n).map(|s| s.index));
        let _ = write!(o, "{:?};", d.get_global_arg(n));
    }
    for s in d.iter_stages() {
        let _ = write!(o, "{},", s.index);
    }
}

fn show_resolved(o: &mut String, r: Option<(dp::ImageRef, HashSet<String>)>, p: Option<dp::ImageRef>) {
    let r = r.map(|(i, u)| (i.to_string(), i, u.into_iter().collect::<BTreeSet<_>>()));
    let _ = write!(o, "{:?} {:?};", r, p);
}

/// The result of the operation in a world with another environment and time
fn run_op_in(cx: &mut Cx, world: u8, op: &Op) -> String {
    let (f, asked) = crate::interpose::within(world, || run_op(op));
    if world > 0 {
        cx.ev("calls repeated with another environment and clock", 1);
        cx.ev("questions to the environment or clock seen", asked);
    }
    f
}

/// The result of the operation, as text.
pub fn run_op(op: &Op) -> String {
    let mut o = String::new();
    real::t(|| match op {
        Op::Parse(s) => show_parse(&mut o, &dp::Dockerfile::parse(s)),
        Op::Read(s, n) => show_parse(&mut o, &dp::Dockerfile::from_reader(std::io::BufReader::with_capacity(*n, s.as_bytes()))),
        Op::Stages(s) => match dp::Dockerfile::parse(s) {
            Ok(d) => show_stages(&mut o, &d),
            Err(_) => o.push_str("rejected"),
        },
        Op::Resolve(s) => match dp::Dockerfile::parse(s) {
            Ok(d) => {
                for i in &d.instructions {
                    if let dp::Instruction::From(f) = i {
                        show_resolved(&mut o, f.image_parsed.resolve_vars_with_context(&d), f.image_parsed.resolve_vars(&d));
                    }
                }
            }
            Err(_) => o.push_str("rejected"),
        },
        Op::ResolveIn(i, s) => match dp::Dockerfile::parse(s) {
            Ok(d) => {
                let i = dp::ImageRef::parse(i);
                show_resolved(&mut o, i.resolve_vars_with_context(&d), i.resolve_vars(&d));
            }
            Err(_) => o.push_str("rejected"),
        },
        Op::Subst(s, m, d) => {
            let m: HashMap<&str, &str> = m.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let mut u = HashSet::new();
            let r = dp::substitute(s, &m, &mut u, *d);
            let ok = r.is_some();
            let _ = write!(o, "{:?}", r);
            if ok {
                let _ = write!(o, " {:?}", u.into_iter().collect::<BTreeSet<_>>());
            }
        }
        Op::Splice(s, v) => match dp::Dockerfile::parse(s) {
            Ok(d) => {
                let mut sp = d.splicer();
                for (x, t) in v {
                    sp.splice(&dp::Span::new(x.0, x.1), t);
                    let _ = write!(o, "{:?};", sp.content);
                }
            }
            Err(_) => o.push_str("rejected"),
        },
        Op::Image(s) => {
            let i = dp::ImageRef::parse(s);
            let _ = write!(o, "{:?} {}", i, i);
        }
        Op::Locate(s) => match dp::Dockerfile::parse(s) {
            Ok(d) => {
                for i in &d.instructions {
                    let _ = write!(o, "{:?};", i.span().relative_span(&d));
                }
            }
            Err(_) => o.push_str("rejected"),
        },
    });
    o
}

const NAMES: &[&str] = &["a", "b", "c", "base", "tag", "HOME", "PATH", "x1"];

/// a text that differs little from s, often of the same length
fn near(r: &mut Rng, s: &str, dict: &Dict) -> String {
    match r.below(6) {
        0 => hostile::mutate(s, r, dict),
        1 => format!("{}\n", s),
        2 => format!("# c\n{}", s),
        _ => {
            let mut b: Vec<char> = s.chars().collect();
            for _ in 0..r.range(1, 2) {
                let c: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_lowercase() || b[*i].is_ascii_digit()).collect();
                if !c.is_empty() {
                    let k = c[if r.coin() { c.len() - 1 - r.below(c.len().min(8)) } else { r.below(c.len()) }];
                    b[k] = if b[k].is_ascii_digit() { (b'0' + r.below(10) as u8) as char } else { (b'a' + r.below(26) as u8) as char };
                }
            }
            b.into_iter().collect()
        }
    }
}

/// a chain of variables, each naming the one before
fn chain_doc(r: &mut Rng) -> String {
    let n = r.range(2, 24);
    let mut s = String::new();
    let mut k: Vec<usize> = (0..n).collect();
    if r.coin() {
        r.shuffle(&mut k);
    }
    for i in k {
        let _ = if i == 0 { write!(s, "ARG c0=x{}\n", r.below(10)) } else { write!(s, "ARG c{}=${{c{}}}\n", i, i - 1) };
    }
    for _ in 0..r.range(1, 3) {
        let _ = write!(s, "FROM a:$c{}\n", r.below(n));
    }
    s
}

/// many instructions of a kind
fn long_doc(r: &mut Rng) -> String {
    let mut s = String::new();
    let line = r.below(5);
    for k in 0..r.range(10, 60) {
        let _ = match line {
            0 => write!(s, "ARG a{}={}\n", k, r.below(10)),
            1 => write!(s, "FROM x AS s{}\n", k),
            2 => write!(s, "FROM s{}\n", r.below(k + 1)),
            3 => write!(s, "RUN [\"x{}\"]\n", r.below(10)),
            _ => write!(s, "ENV a={} b=\"{}\"\n", k, r.below(10)),
        };
    }
    s.push_str("FROM $a1");
    s
}

fn var_doc(r: &mut Rng) -> String {
    match r.below(10) {
        0 | 1 => return chain_doc(r),
        2 => return long_doc(r),
        _ => {}
    }
    let mut s = String::new();
    for _ in 0..r.range(0, 5) {
        let v = match r.below(5) {
            0 => format!("${}", r.pick(NAMES)),
            1 => format!("${{{}}}", r.pick(NAMES)),
            2 => format!("p{}.io/x", r.below(10)),
            _ => format!("{}", r.below(10)),
        };
        let _ = if r.chance(1, 8) { write!(s, "ARG {}\n", r.pick(NAMES)) } else { write!(s, "ARG {}={}\n", r.pick(NAMES), v) };
    }
    for k in 0..r.range(1, 3) {
        let _ = write!(s, "FROM {}", r.pick(&["alpine:$a", "$base", "${b}:${tag}", "x$c", "img:3", "a", "b", "r.io/$a@$b", "${HOME}", "$PATH"]));
        if r.coin() {
            let _ = write!(s, " AS {}", r.pick(&["a", "b", "base", "build", "A"]));
        }
        s.push('\n');
        if r.coin() {
            let _ = write!(s, "ARG {}={}\nRUN x{}\n", r.pick(NAMES), r.below(10), k);
        }
    }
    s
}

fn text(r: &mut Rng, dict: &Dict) -> String {
    match r.below(6) {
        0 => hostile::soup(r, dict),
        1 | 2 => var_doc(r),
        _ => {
            let seed = r.next();
            let mut g = G::new(Rng::new(seed), dict);
            g.cap = 5;
            let n = g.r.range(1, 6);
            let gis = g.doc(n);
            let f = Fmt::random(r);
            let d = render(&gis, r, &f);
            if r.chance(1, 5) {
                hostile::mutate(&d.content, r, dict)
            } else {
                d.content
            }
        }
    }
}

fn too_big(op: &Op) -> bool {
    let docs = |s: &str, img: Option<&str>| {
        let mut m: HashMap<String, String> = HashMap::new();
        let mut imgs: Vec<String> = img.iter().map(|s| s.to_string()).collect();
        if let Ok(d) = real::parse(s) {
            for a in &d.global_args {
                if let Some(v) = &a.value {
                    m.insert(a.name.content.clone(), v.content.clone());
                }
            }
            imgs.extend(d.instructions.iter().filter_map(|i| i.as_from()).map(|f| f.image.content.clone()));
        }
        imgs.iter().any(|t| matches!(spec::substitute(t, &m, 16, 50_000), spec::Subst::TooBig))
    };
    match op {
        Op::Resolve(s) => docs(s, None),
        Op::ResolveIn(i, s) => docs(s, Some(i)),
        Op::Subst(s, m, d) => {
            let m = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
            matches!(spec::substitute(s, &m, *d as usize, 50_000), spec::Subst::TooBig)
        }
        _ => false,
    }
}

/// Operations with much in common: the same text used in different ways, texts
/// that differ by a character, one string with different variables and depths.
pub fn gen_ops(r: &mut Rng, dict: &Dict, n: usize) -> Vec<Op> {
    let mut texts: Vec<String> = vec![];
    for _ in 0..r.range(1, 3) {
        let t = text(r, dict);
        let t: String = t.chars().take(1500).collect();
        for _ in 0..r.range(0, 2) {
            texts.push(near(r, &t, dict));
        }
        texts.push(t);
    }
    let strs = ["$a", "${a}-$b", "x$base:$tag", "$c$c", "$nope", "plain", "é$a中"];
    let mut v: Vec<Op> = vec![];
    let mut guard = 0;
    while v.len() < n && guard < 10 * n {
        guard += 1;
        let t = r.pick(&texts).clone();
        let op = match r.below(12) {
            0 | 1 | 2 => Op::Parse(t),
            3 => Op::Read(t, *r.pick(&[1usize, 7, 64, 8192])),
            4 | 5 => Op::Stages(t),
            6 => Op::Resolve(t),
            7 => Op::ResolveIn(r.pick(&strs).to_string(), t),
            8 => {
                let mut m = BTreeMap::new();
                for k in NAMES {
                    if r.chance(2, 3) {
                        let val = match r.below(5) {
                            0 => format!("${}", r.pick(NAMES)),
                            1 => String::new(),
                            _ => format!("v{}", r.below(5)),
                        };
                        m.insert(k.to_string(), val);
                    }
                }
                if r.chance(1, 4) {
                    // a chain
                    let n = r.range(1, NAMES.len());
                    m = (0..n).map(|k| (NAMES[k].to_string(), if k + 1 < n { format!("${}", NAMES[k + 1]) } else { "end".into() })).collect();
                }
                Op::Subst(r.pick(&strs).to_string(), m, *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 255]))
            }
            9 => {
                let mut sp: Vec<(Sp, String)> = vec![];
                if let Ok(d) = spec::parse(&t).res {
                    let mut last = 0;
                    for (k, i) in d.ins.iter().enumerate() {
                        for x in nodes(i, k) {
                            if !x.role.container() && x.sp.0 >= last && x.sp.0 < x.sp.1 && r.chance(1, 3) {
                                last = x.sp.1;
                                sp.push((x.sp, r.pick(&["", "new", "longer text é", "x"]).to_string()));
                            }
                        }
                    }
                    r.shuffle(&mut sp);
                }
                Op::Splice(t, sp)
            }
            10 => Op::Image(r.pick(&["alpine:3", "a.b/c@d", "localhost/x:1", "localhost:5/x", "a/b:c", "alpine:4", "$a/b"]).to_string()),
            _ => Op::Locate(t),
        };
        if !too_big(&op) {
            v.push(op);
        }
    }
    v
}

/// Single operations that press a limit or fill a table, for the first call of a process.
fn first_ops(r: &mut Rng, dict: &Dict, n: usize) -> Vec<Op> {
    let mut v = vec![];
    while v.len() < n {
        let op = match r.below(10) {
            0 | 1 => Op::Resolve(chain_doc(r)),
            2 => Op::ResolveIn(format!("x:$c{}", r.range(8, 18)), chain_doc(r)),
            3 => {
                let k = r.range(1, 18);
                let m = (0..k).map(|i| (format!("v{}", i), if i + 1 < k { format!("$v{}", i + 1) } else { "end".into() })).collect();
                Op::Subst("$v0".into(), m, (k + r.below(3)).saturating_sub(1) as u8)
            }
            4 => Op::Stages(long_doc(r)),
            5 => Op::Locate(long_doc(r)),
            6 => Op::Read(long_doc(r), *r.pick(&[1usize, 7, 64, 8192])),
            7 => Op::Parse(long_doc(r)),
            8 => Op::Image(r.pick(&["alpine:3", "a.b/c@d", "localhost:5/x", "a/b:c", "${a:-x}/b:$c@$d"]).to_string()),
            _ => {
                let k = r.range(1, 3);
                v.extend(gen_ops(r, dict, k).into_iter().take(k));
                continue;
            }
        };
        if !too_big(&op) {
            v.push(op);
        }
    }
    v.truncate(n);
    v
}

fn differ(cx: &mut Cx, op: &Op, want: &str, got: &str, how: &str) {
    let k = want.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
    let tail = |s: &str| {
        let mut a = k.saturating_sub(60);
        while !s.is_char_boundary(a) {
            a -= 1
        }
        clip(&s[a..], 300)
    };
    cx.bad(
        &format!("{:?}", op),
        format!("{}: the result was ...{} and is ...{}", how, tail(want), tail(got)),
    );
}

/// one long sequence of operations with repetitions, in one thread
fn family_history(cx: &mut Cx) {
    let n = cx.r.range(3, 12);
    let ops = gen_ops(&mut cx.r, cx.dict, n);
    let mut first: Vec<Option<String>> = vec![None; ops.len()];
    let steps = ops.len() * 3;
    let mut trace = vec![];
    for _ in 0..steps {
        let k = cx.r.below(ops.len());
        let world = if first[k].is_some() && cx.r.coin() { cx.r.range(1, crate::interpose::WORLDS as usize) as u8 } else { 0 };
        let f = run_op_in(cx, world, &ops[k]);
        trace.push(k);
        match &first[k] {
            None => first[k] = Some(f),
            Some(w) if *w != f => {
                let w = w.clone();
                differ(cx, &ops[k], &w, &f, &format!("repeated after the calls {:?}{}", trace, if world > 0 { format!(", with other environment variables and at another time (world {})", world) } else { String::new() }));
                return;
            }
            _ => cx.ev("repeated calls compared", 1),
        }
    }
    cx.seen(&format!("{:?} {:?}", trace, ops));
}

/// runs operations in a fresh process; returns the fingerprint hash of each
fn fresh(cx: &Cx, n: usize, mode: &str, order: &[usize], env: &[(String, String)]) -> Result<Vec<(usize, u64, String)>, String> {
    let exe = std::env::current_exe().unwrap();
    let list: Vec<String> = order.iter().map(|k| k.to_string()).collect();
    let mut c = Command::new(exe);
    c.args(["oneshot", cx.fam, &cx.seed.to_string(), &cx.idx.to_string(), &n.to_string(), mode, &list.join(",")]);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).current_dir("/");
    for (k, v) in env {
        c.env(k, v);
    }
    let o = c.output().map_err(|e| format!("harness: {}", e))?;
    let s = String::from_utf8_lossy(&o.stdout);
    let mut v = vec![];
    for l in s.lines() {
        let mut p = l.splitn(3, '\t');
        if let (Some(k), Some(h), Some(t)) = (p.next(), p.next(), p.next()) {
            if let (Ok(k), Ok(h)) = (k.parse(), h.parse()) {
                v.push((k, h, dfcore::rec::unesc(t)));
            }
        }
    }
    if !o.status.success() || v.is_empty() {
        return Err(format!("the fresh process ended with {}: {}", o.status, clip(&String::from_utf8_lossy(&o.stderr), 600)));
    }
    Ok(v)
}

/// what the fresh process does
pub fn oneshot(a: &[String], dict: &Dict) -> i32 {
    let fam: &'static str = match a[0].as_str() {
        "fresh" => "fresh",
        "first" => "first",
        _ => "fresh-long",
    };
    let mut r = Rng::for_case(a[1].parse().unwrap(), "C24", fam, a[2].parse().unwrap());
    let n = a[3].parse().unwrap();
    let ops = if fam == "first" { first_ops(&mut r, dict, n) } else { gen_ops(&mut r, dict, n) };
    let order: Vec<usize> = a[5].split(',').filter_map(|s| s.parse().ok()).collect();
    let line = |k: usize| {
        let f = run_op(&ops[k]);
        format!("{}\t{}\t{}", k, hash_bytes(1, f.as_bytes()), esc(&clip(&f, 1500)))
    };
    if a[4] == "threads" {
        // the very first calls of the process, all at once
        let bar = Barrier::new(order.len());
        let out: Vec<String> = std::thread::scope(|s| {
            let hs: Vec<_> = order
                .iter()
                .map(|k| {
                    let (bar, line) = (&bar, &line);
                    s.spawn(move || {
                        bar.wait();
                        line(*k)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("a thread panicked")).collect()
        });
        println!("{}", out.join("\n"));
    } else {
        for k in order {
            println!("{}", line(k));
        }
    }
    0
}

fn random_env(r: &mut Rng, dict: &Dict) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    // names that the sources mention, should they ever consult the environment
    let all = r.coin();
    for w in &dict.words {
        let name = w.len() > 1 && w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !w.as_bytes()[0].is_ascii_digit();
        if name && w != "PATH" && !w.starts_with("LD_") && !w.starts_with("DF_") && (all || r.chance(1, 8)) {
            let x = if r.coin() { r.pick(&dict.words).replace('\0', "") } else { r.pick(&["1", "0", "true", "", "2", "64"]).to_string() };
            v.push((w.clone(), x));
        }
    }
    for n in NAMES.iter().chain(&["DOCKER_BUILDKIT", "LANG", "LC_ALL", "TZ", "RUST_LOG", "RUST_BACKTRACE", "nope", "TERM", "NO_COLOR"]) {
        // PATH is not needed to start ourselves
        if r.coin() {
            v.push((n.to_string(), r.pick(&["1", "C", "tr_TR.UTF-8", "full", "from-env", ""]).to_string()));
        }
    }
    v
}

/// the same calls first in a fresh process, alone and in other orders
fn family_fresh(cx: &mut Cx) {
    let n = 6;
    let ops = if cx.fam == "first" { first_ops(&mut cx.r, cx.dict, n) } else { gen_ops(&mut cx.r, cx.dict, n) };
    let all: Vec<usize> = (0..ops.len()).collect();
    let mut order = all.clone();
    cx.r.shuffle(&mut order);
    let here: Vec<String> = {
        let mut v = vec![String::new(); ops.len()];
        for k in &order {
            v[*k] = run_op(&ops[*k]);
        }
        v
    };
    let mut runs: Vec<(&str, Vec<usize>)> = vec![];
    for k in &all {
        runs.push(("seq", vec![*k]));
    }
    order.reverse();
    runs.push(("seq", order.clone()));
    let mut twice = order.clone();
    twice.extend(all.iter());
    runs.push(("threads", twice));
    for (mode, o) in runs {
        let env = random_env(&mut cx.r, cx.dict);
        match fresh(cx, n, mode, &o, &env) {
            Err(e) if e.starts_with("harness: ") => panic!("{}", e),
            Err(e) => {
                cx.bad(&format!("{:?}", o.iter().map(|k| &ops[*k]).collect::<Vec<_>>()), e);
                return;
            }
            Ok(v) => {
                if v.len() != o.len() {
                    cx.bad(&format!("{:?}", ops), format!("the fresh process answered {} of {} calls", v.len(), o.len()));
                }
                cx.ev(if mode == "seq" { "calls compared with a fresh process" } else { "first calls made by threads at once in a fresh process" }, v.len() as u64);
                for (k, h, t) in v {
                    if h != hash_bytes(1, here[k].as_bytes()) {
                        differ(cx, &ops[k], &t, &here[k], &format!("a fresh process ({} {:?}, environment {:?}) and this process disagree", mode, o, env));
                        return;
                    }
                }
            }
        }
    }
    cx.seen(&format!("{:?}", ops));
}

/// thousands of other calls in between
fn family_fresh_long(cx: &mut Cx) {
    let n = 10;
    let ops = gen_ops(&mut cx.r, cx.dict, n);
    let all: Vec<usize> = (0..ops.len()).collect();
    let before: Vec<String> = ops.iter().map(run_op).collect();
    let calls = if cx.thorough { 40_000 } else { 3000 };
    let mut k = 0;
    while k < calls {
        let n = cx.r.range(5, 20);
        for o in gen_ops(&mut cx.r, cx.dict, n) {
            run_op(&o);
            k += 1;
        }
        if cx.r.chance(1, 20) {
            let j = cx.r.below(ops.len());
            let f = run_op(&ops[j]);
            if f != before[j] {
                differ(cx, &ops[j], &before[j], &f, &format!("after {} calls", k));
                return;
            }
            cx.ev("repeated calls compared", 1);
        }
    }
    cx.ev("calls between repetitions", k as u64);
    match fresh(cx, n, "seq", &all, &[]) {
        Err(e) if e.starts_with("harness: ") => panic!("{}", e),
        Err(e) => cx.bad(&format!("{:?}", ops), e),
        Ok(v) => {
            for (k, h, t) in v {
                let f = run_op(&ops[k]);
                cx.ev("calls compared with a fresh process", 1);
                if h != hash_bytes(1, f.as_bytes()) || f != before[k] {
                    differ(cx, &ops[k], &t, &f, "after thousands of calls this process disagrees with a fresh one");
                    return;
                }
            }
        }
    }
    cx.seen(&format!("{:?}", ops));
}

/// texts and documents that occupy the same memory one after the other
fn family_memory(cx: &mut Cx) {
    let r = &mut cx.r;
    let base = text(r, cx.dict);
    let base: String = base.chars().take(2000).collect();
    let mut texts = vec![base.clone()];
    for _ in 0..6 {
        let t = near(r, &base, cx.dict);
        texts.push(t);
    }
    // results from buffers of their own
    let want: Vec<(String, String)> = texts
        .iter()
        .map(|t| {
            let own = t.clone();
            (run_op(&Op::Parse(own.clone())), run_op(&Op::Stages(own)))
        })
        .collect();
    let cap = texts.iter().map(|t| t.len()).max().unwrap() + 8;
    let mut buf = String::with_capacity(cap);
    let at = buf.as_ptr();
    let mut moved = 0u64;
    for _ in 0..14 {
        let k = cx.r.below(texts.len());
        buf.clear();
        buf.push_str(&texts[k]);
        assert!(std::ptr::eq(at, buf.as_ptr()));
        let mut o = String::new();
        let p = real::parse(&buf);
        real::t(|| show_parse(&mut o, &p));
        moved += 1;
        if o != want[k].0 {
            differ(cx, &Op::Parse(texts[k].clone()), &want[k].0, &o, "parsed from a reused buffer");
            return;
        }
    }
    // documents changed in place
    let Some(mut d) = texts.iter().find_map(|t| real::parse(t).ok()) else {
        cx.ev("calls on reused memory compared", moved);
        return;
    };
    for _ in 0..8 {
        let k = cx.r.below(texts.len());
        let Ok(n) = real::parse(&texts[k]) else { continue };
        match cx.r.below(3) {
            0 => d = n,
            1 => {
                d.content.clear();
                d.content.push_str(&n.content);
                d.instructions.clear();
                d.instructions.extend(n.instructions);
                d.global_args.clear();
                d.global_args.extend(n.global_args);
            }
            _ => {
                std::mem::swap(&mut d, &mut n.clone());
            }
        }
        let mut o = String::new();
        real::t(|| show_stages(&mut o, &d));
        moved += 1;
        if o != want[k].1 {
            differ(cx, &Op::Stages(texts[k].clone()), &want[k].1, &o, "stages of a document changed in place");
            return;
        }
        let own = run_op(&Op::Resolve(texts[k].clone()));
        let mut o = String::new();
        real::t(|| {
            for i in &d.instructions {
                if let dp::Instruction::From(f) = i {
                    show_resolved(&mut o, f.image_parsed.resolve_vars_with_context(&d), f.image_parsed.resolve_vars(&d));
                }
            }
        });
        if o != own {
            differ(cx, &Op::Resolve(texts[k].clone()), &own, &o, "references of a document changed in place");
            return;
        }
        let own = run_op(&Op::Locate(texts[k].clone()));
        let mut o = String::new();
        real::t(|| {
            for i in &d.instructions {
                let _ = write!(o, "{:?};", i.span().relative_span(&d));
            }
        });
        if o != own {
            differ(cx, &Op::Locate(texts[k].clone()), &own, &o, "positions in a document changed in place");
            return;
        }
        // another document whose global arguments only differ
        let mut e = d.clone();
        for a in &mut e.global_args {
            if let Some(v) = &mut a.value {
                v.content = format!("{}z", v.content.replace('$', ""));
            }
        }
        let vars: HashMap<String, String> =
            e.global_args.iter().filter_map(|a| a.value.as_ref().map(|v| (a.name.content.clone(), v.content.clone()))).collect();
        for i in &e.instructions {
            if let dp::Instruction::From(f) = i {
                let t = real::t(|| f.image_parsed.to_string());
                let w = match spec::substitute(&t, &vars, 16, 50_000) {
                    spec::Subst::Text(t, _) => Some(t),
                    spec::Subst::None => None,
                    spec::Subst::TooBig => continue,
                };
                let g = real::t(|| f.image_parsed.resolve_vars(&e).map(|i| i.to_string()));
                if g != w {
                    cx.bad(&texts[k], format!("after the global arguments were changed {:?} resolves to {:?}, expected {:?}", t, g, w));
                    return;
                }
                moved += 1;
            }
        }
    }
    cx.ev("calls on reused memory compared", moved);
    cx.seen(&texts.join("\u{1}"));
}

fn spin(r: &mut Rng) {
    match r.below(6) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(2000) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}

/// many threads on shared documents and texts
fn family_threads(cx: &mut Cx) {
    let n = cx.r.range(3, 8);
    let ops = gen_ops(&mut cx.r, cx.dict, n);
    let threads = cx.r.range(2, 6);
    let steps = cx.r.range(6, 20);
    // documents shared by all threads
    let docs: Vec<dp::Dockerfile> = ops
        .iter()
        .filter_map(|o| match o {
            Op::Parse(s) | Op::Stages(s) | Op::Resolve(s) => real::parse(s).ok(),
            _ => None,
        })
        .filter(|d| !too_big(&Op::Resolve(d.content.clone())))
        .collect();
    let on_doc = |d: &dp::Dockerfile, w: usize| -> String {
        let mut o = String::new();
        real::t(|| match w {
            0 => show_stages(&mut o, d),
            1 => {
                for i in &d.instructions {
                    if let dp::Instruction::From(f) = i {
                        show_resolved(&mut o, f.image_parsed.resolve_vars_with_context(d), f.image_parsed.resolve_vars(d));
                    }
                    let _ = write!(o, "{:?}", i.span().relative_span(d));
                }
            }
            _ => {
                let mut s = d.splicer();
                for i in d.instructions.iter().rev() {
                    s.splice(&i.span(), "X é");
                    let _ = write!(o, "{:?};", s.content);
                }
            }
        });
        o
    };
    let want: Vec<String> = ops.iter().map(run_op).collect();
    let want_docs: Vec<Vec<String>> = docs.iter().map(|d| (0..3).map(|w| on_doc(d, w)).collect()).collect();
    let before: Vec<String> = docs.iter().map(|d| format!("{:?}", d)).collect();
    let clock = AtomicUsize::new(0);
    let bar = Barrier::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| cx.r.next()).collect();
    type Log = Vec<(usize, usize, usize, usize)>;
    let res: Vec<std::thread::Result<(Log, Option<(String, String, String)>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (ops, docs, want, want_docs, clock, bar, on_doc) = (&ops, &docs, &want, &want_docs, &clock, &bar, &on_doc);
                let mut r = Rng::new(seeds[t]);
                s.spawn(move || {
                    let mut log: Log = vec![];
                    bar.wait();
                    for _ in 0..steps {
                        spin(&mut r);
                        let a = clock.fetch_add(1, Ordering::SeqCst);
                        let (k, bad) = if !docs.is_empty() && r.coin() {
                            let k = r.below(docs.len());
                            let w = r.below(3);
                            let f = on_doc(&docs[k], w);
                            (1000 + 3 * k + w, (f != want_docs[k][w]).then(|| (format!("shared document {:?}", docs[k].content), want_docs[k][w].clone(), f)))
                        } else {
                            let k = r.below(ops.len());
                            let f = run_op(&ops[k]);
                            (k, (f != want[k]).then(|| (format!("{:?}", ops[k]), want[k].clone(), f)))
                        };
                        let z = clock.fetch_add(1, Ordering::SeqCst);
                        log.push((t, k, a, z));
                        if bad.is_some() {
                            return (log, bad);
                        }
                    }
                    (log, None)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    let mut all: Log = vec![];
    for r in res {
        match r {
            Err(p) => std::panic::resume_unwind(p),
            Ok((log, bad)) => {
                all.extend(log);
                if let Some((what, w, g)) = bad {
                    cx.bad(&what, format!("in one of {} threads the result is {} but alone it is {}", threads, clip(&g, 500), clip(&w, 500)));
                    return;
                }
            }
        }
    }
    // what was observed: how calls of different threads overlapped
    all.sort_by_key(|x| x.2);
    let mut over = 0u64;
    for (i, x) in all.iter().enumerate() {
        for y in &all[i + 1..] {
            if y.2 > x.3 {
                break;
            }
            if y.0 != x.0 {
                over += 1;
            }
        }
    }
    cx.ev("calls made by concurrent threads", all.len() as u64);
    cx.ev("pairs of calls that overlapped in time", over);
    let after: Vec<String> = docs.iter().map(|d| format!("{:?}", d)).collect();
    if after != before {
        cx.bad("", "a shared document changed".into());
    }
    let order: Vec<(usize, usize)> = {
        let mut e: Vec<(usize, usize, usize)> = all.iter().flat_map(|x| [(x.2, x.0, x.1), (x.3, x.0, x.1)]).collect();
        e.sort();
        e.into_iter().map(|x| (x.1, x.2)).collect()
    };
    cx.seen(&format!("{:?} {:?}", order, ops));
}

/// operations on documents and splicers never affect one another
fn family_independent(cx: &mut Cx) {
    let a = text(&mut cx.r, cx.dict);
    let a: String = a.chars().take(1500).collect();
    let b = near(&mut cx.r, &a, cx.dict);
    let (Ok(x), Ok(y)) = (real::parse(&a), real::parse(&b)) else {
        cx.ev("rejected texts", 1);
        return;
    };
    if too_big(&Op::Resolve(a.clone())) || too_big(&Op::Resolve(b.clone())) {
        return;
    }
    cx.note(&a);
    let (fx, fy) = (format!("{:?}", x), format!("{:?}", y));
    let spans = |d: &dp::Dockerfile| -> Vec<Sp> {
        let mut last = 0;
        let mut v = vec![];
        for (k, i) in real::snap(d).ins.iter().enumerate() {
            for n in nodes(i, k) {
                if !n.role.container() && n.sp.0 >= last && n.sp.0 < n.sp.1 {
                    last = n.sp.1;
                    v.push(n.sp);
                }
            }
        }
        v
    };
    // several splicers at once, over the same and over another document; each
    // is a plan of its own, and all plans are carried out in one mixed order
    let docs = [&x, &x, &y];
    let plans: Vec<Vec<(Sp, String)>> = docs
        .iter()
        .map(|d| {
            let mut v: Vec<(Sp, String)> = vec![];
            for s in spans(d) {
                if cx.r.coin() {
                    v.push((s, cx.r.pick(&["", "N", "é longer than before", "zz"]).to_string()));
                }
            }
            cx.r.shuffle(&mut v);
            v.truncate(8);
            v
        })
        .collect();
    let alone: Vec<String> = docs
        .iter()
        .zip(&plans)
        .map(|(d, p)| {
            real::t(|| {
                let mut s = d.splicer();
                for (x, t) in p {
                    s.splice(&dp::Span::new(x.0, x.1), t);
                }
                s.content
            })
        })
        .collect();
    let mut live: Vec<dp::Splicer> = real::t(|| docs.iter().map(|d| d.splicer()).collect());
    let mut at = vec![0usize; 3];
    let mut steps = 0u64;
    while (0..3).any(|k| at[k] < plans[k].len()) {
        let k = cx.r.below(3);
        if at[k] < plans[k].len() {
            let (s, t) = &plans[k][at[k]];
            real::t(|| live[k].splice(&dp::Span::new(s.0, s.1), t));
            at[k] += 1;
            steps += 1;
        }
        // reads in between
        real::t(|| match cx.r.below(5) {
            0 => drop(x.stages()),
            1 => {
                for i in &y.instructions {
                    if let Some(f) = i.as_from() {
                        drop(f.image_parsed.resolve_vars(&y));
                    }
                }
            }
            2 => drop(dp::Dockerfile::parse(&a)),
            3 => {
                let mut s = x.splicer();
                if let Some(i) = x.instructions.first() {
                    s.splice(&i.span(), "gone");
                }
            }
            _ => drop(x.get_global_arg("a")),
        });
        if live.iter().zip(&at).zip(&docs).any(|((s, n), d)| *n == 0 && s.content != d.content) {
            cx.bad(&a, "a splicer that was not used has changed".into());
        }
    }
    for k in 0..3 {
        if live[k].content != alone[k] {
            cx.bad(
                &docs[k].content,
                format!("one of three interleaved splicers gives {:?} but alone it gives {:?}", clip(&live[k].content, 400), clip(&alone[k], 400)),
            );
        }
    }
    if format!("{:?}", x) != fx || format!("{:?}", y) != fy {
        cx.bad(&a, "a document changed although it was only read".into());
    }
    cx.ev("splices by interleaved splicers", steps);
    cx.seen(&format!("{}\u{1}{}", a, b));
}

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C24" => Prop {
            id: "C24",
            rule: "sequences of calls that share texts, near-equal texts of the same length, variable names and image strings; the fingerprint of each call (everything it returns) is compared with that of the same call earlier or later in the process, in fresh processes with other environments and working directories (alone, in another order, and as the process's first calls from several threads at once), from 2 to 6 threads on shared documents with random delays, on reused buffers and on documents changed in place; every thread case records a total order of call starts and ends; non-trivial: distinct operation lists, or distinct recorded interleavings",
            need: &[
                "repeated calls compared",
                "calls compared with a fresh process",
                "first calls made by threads at once in a fresh process",
                "calls on reused memory compared",
                "pairs of calls that overlapped in time",
                "splices by interleaved splicers",
            ],
            assumptions: &[
                "texts nested so deeply that the parser's stack limit ends the parse are excluded: there the result depends on the stack left",
                "thread schedules are those the machine produced (recorded), not all possible ones",
            ],
            fams: vec![
                fam("history", 14_000, 300_000, family_history),
                fam("memory", 6000, 150_000, family_memory),
                fam("independent", 10_000, 300_000, family_independent),
                fam("threads", 2600, 60_000, family_threads),
                fam("fresh", 96, 2500, family_fresh),
                fam("first", 160, 4000, family_fresh),
                fam("fresh-long", 8, 200, family_fresh_long),
            ],
        },
        _ => return None,
    })
}
