//! C01: every call returns. The monitor is the process itself (panics, aborts,
//! stack overflow, memory, processor time), plus a clock for small inputs.

use super::*;
use std::collections::{HashMap, HashSet};
use std::time::Instant;

fn splices(r: &mut dfcore::rng::Rng, d: &dp::Dockerfile, all: &[Node], cap: usize) -> u64 {
    let mut leaves: Vec<Sp> = all.iter().filter(|n| !n.role.container() && n.sp.0 < n.sp.1).map(|n| n.sp).collect();
    leaves.sort();
    leaves.dedup();
    // keep a disjoint set
    let mut last = 0;
    leaves.retain(|s| {
        let ok = s.0 >= last;
        if ok {
            last = s.1;
        }
        ok
    });
    match r.below(3) {
        0 => leaves.reverse(),
        1 => r.shuffle(&mut leaves),
        _ => {}
    }
    leaves.truncate(cap);
    let mut n = 0;
    real::t(|| {
        let mut sp = d.splicer();
        for s in leaves.iter() {
            sp.splice(&dp::Span::new(s.0, s.1), *r.pick(&["", "x", "é", "a longer replacement text", "\n", "$"]));
            n += 1;
        }
        // then whole instructions, over the values inside them
        for i in d.instructions.iter().rev().take(cap) {
            sp.splice(&i.span(), *r.pick(&["", "RUN x", "é"]));
            n += 1;
        }
        let _ = dp::Dockerfile::parse(&sp.content);
    });
    n
}

/// Does everything that can be done with a text; says what was done.
pub fn exercise(r: &mut dfcore::rng::Rng, s: &str, cap: usize) -> Vec<(&'static str, u64)> {
    let mut ev = vec![];
    match real::parse(s) {
        Err(e) => {
            real::t(|| {
                let _ = (format!("{}", e), format!("{:?}", e), format!("{:#?}", e));
                let mut c: Option<&dyn std::error::Error> = Some(&e);
                while let Some(x) = c {
                    let _ = x.to_string();
                    c = x.source();
                }
            });
            ev.push(("texts rejected with an error that can be shown", 1));
        }
        Ok(d) => {
            ev.push(("texts accepted", 1));
            let snap = real::snap(&d);
            let mut all = vec![];
            for (k, i) in snap.ins.iter().enumerate() {
                all.extend(nodes(i, k));
            }
            let vars: HashMap<String, String> = snap
                .globals
                .iter()
                .filter_map(|i| match &i.k {
                    K::Arg { name, value: Some(v) } => Some((name.s.clone(), v.s.clone())),
                    _ => None,
                })
                .collect();
            let (mut nr, mut ns, mut nl) = (0, 0, 0);
            real::t(|| {
                let _ = format!("{:?}", d);
                if s.len() < 20_000 {
                    let _ = format!("{:#?}", d);
                    let c = d.clone();
                    assert!(c == d, "a clone differs from its original");
                }
                let st = d.stages();
                for (k, x) in d.iter_stages().enumerate().take(cap) {
                    let _ = (x.arg_index("a"), x.arg_index(""), format!("{}", x.parent), format!("{}", x.root));
                    let _ = st.get(&k.to_string());
                    let _ = st[k].index;
                    if let Some(n) = &x.name {
                        let _ = st.get(n);
                        let _ = st.get_by_name(n);
                    }
                    ns += 1;
                }
                for n in ["", "0", "-1", "+0", "00", "18446744073709551615", "18446744073709551616", "é", " ", "\u{130}"] {
                    let _ = (st.get(n), st.get_by_name(n), d.get_global_arg(n));
                    nl += 1;
                }
                if s.len() < 20_000 {
                    let _ = format!("{:?}", st);
                }
                for n in st.iter().rev().take(3) {
                    let _ = n.cmp(&st[0]);
                }
            });
            for i in d.instructions.iter().take(cap) {
                if let dp::Instruction::From(f) = i {
                    let t = real::t(|| f.image_parsed.to_string());
                    // skip expansions of exponential size
                    if !matches!(spec::substitute(&t, &vars, 16, 100_000), spec::Subst::TooBig) {
                        real::t(|| {
                            let _ = f.image_parsed.resolve_vars(&d);
                            let _ = f.image_parsed.resolve_vars_with_context(&d);
                        });
                        nr += 1;
                    }
                }
                if let Some(e) = real::real_expr(i) {
                    real::t(|| match e {
                        dp::ShellOrExecExpr::Shell(b) => {
                            let _ = (b.to_string(), format!("{:?}", b));
                        }
                        dp::ShellOrExecExpr::Exec(a) => {
                            let _ = a.as_str_vec();
                        }
                    })
                }
                if let dp::Instruction::Misc(m) = i {
                    real::t(|| m.arguments.to_string());
                }
                if let dp::Instruction::Env(e) = i {
                    real::t(|| e.vars.iter().for_each(|v| drop(v.value.to_string())));
                }
            }
            let step = (all.len() / cap).max(1);
            let mut np = 0;
            for n in all.iter().step_by(step) {
                real::t(|| dp::Span::new(n.sp.0, n.sp.1).relative_span(&d));
                np += 1;
            }
            // any span of the document may be located, not only the reported ones
            let len = d.content.len();
            let feeds: Vec<usize> = d.content.bytes().enumerate().filter(|(_, c)| *c == b'\n' || *c == b'\r').map(|(i, _)| i).collect();
            let some = if len > 100_000 { 4 } else { 24 };
            for k in 0..some {
                let a = if k % 2 == 0 && !feeds.is_empty() { (*r.pick(&feeds) + r.below(2)).min(len) } else { r.below(len + 1) };
                let z = match r.below(3) {
                    0 => a,
                    1 => len,
                    _ => a + r.below(len - a + 1),
                };
                real::t(|| dp::Span::new(a, z).relative_span(&d));
                np += 1;
            }
            ev.push(("image references resolved", nr));
            ev.push(("stages visited", ns));
            ev.push(("stage lookups", nl));
            ev.push(("spans located by line", np));
            ev.push(("splices", splices(r, &d, &all, cap)));
        }
    }
    ev
}

/// A small text must not take seconds, however contrived it is.
fn timed(cx: &mut Cx, s: &str, f: &mut dyn FnMut(&mut Cx)) {
    // (slower under sanitizers and interpreters)
    let limit = 4.0 * std::env::var("DF_SLOW").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let mut best = f64::MAX;
    for _ in 0..3 {
        let t = Instant::now();
        f(cx);
        best = best.min(t.elapsed().as_secs_f64());
        if best < limit {
            return;
        }
    }
    cx.bad(s, format!("{:.1} s were needed for a text of {} bytes, three times in a row", best, s.len()));
}

fn doc(cx: &mut Cx, s: &str) {
    cx.note(s);
    cx.seen(s);
    timed(cx, s, &mut |cx| {
        let mut r = cx.g().r;
        for (k, n) in exercise(&mut r, s, 200) {
            cx.ev(k, n);
        }
    });
}

fn hostile_family(cx: &mut Cx) {
    let s = match cx.r.below(8) {
        0 => {
            // any characters at all
            let n = cx.r.heavy(0, 300);
            (0..n)
                .map(|_| match cx.r.below(6) {
                    0 => char::from_u32(cx.r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
                    1 => char::from(cx.r.below(0x20) as u8),
                    _ => char::from(cx.r.below(0x7f) as u8),
                })
                .collect()
        }
        1 => {
            // cut short
            let (_, d) = gen_doc(cx, None);
            let mut k = cx.r.below(d.content.len() + 1);
            while !d.content.is_char_boundary(k) {
                k -= 1;
            }
            d.content[..k].to_string()
        }
        2 => {
            let s = hostile_doc(cx, None);
            hostile::mutate(&s, &mut cx.r, cx.dict)
        }
        3 => {
            // a repeated fragment
            let f = hostile_doc(cx, None);
            let mut k = f.len().min(30);
            while !f.is_char_boundary(k) {
                k -= 1;
            }
            let n = cx.r.heavy(1, 120);
            format!("{} {}", cx.r.pick(&["RUN", "FROM", "ENV", "LABEL", "COPY", "ARG", "x", ""]), f[..k].repeat(n))
        }
        _ => hostile_doc(cx, None),
    };
    doc(cx, &s);
    // the text as an image reference, a string with variables, a map value
    strings(cx, &s);
}

fn strings(cx: &mut Cx, s: &str) {
    real::t(|| {
        let i = dp::ImageRef::parse(s);
        let _ = (i.to_string(), format!("{:?}", i), i == i.clone());
    });
    let names = ["a", "b", "foo", "x", "A", "_", "0"];
    let mut own: HashMap<String, String> = HashMap::new();
    for n in names {
        if cx.r.coin() {
            let v = match cx.r.below(4) {
                0 => String::new(),
                1 => format!("${}", cx.r.pick(&names)),
                2 => format!("é${{{}}}中", cx.r.pick(&names)),
                _ => s.chars().take(20).collect(),
            };
            own.insert(n.to_string(), v);
        }
    }
    let depth = *cx.r.pick(&[0usize, 1, 2, 16, 17, 255]);
    if matches!(spec::substitute(s, &own, depth, 100_000), spec::Subst::TooBig) {
        cx.ev("expansions too large to try", 1);
        return;
    }
    let m: HashMap<&str, &str> = own.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let mut used = HashSet::new();
    real::t(|| dp::substitute(s, &m, &mut used, depth as u8));
    cx.ev("strings parsed as references and substituted", 1);
}

fn strings_family(cx: &mut Cx) {
    const T: &[&str] = &[
        "$", "${", "}", "{", "a", "b", "foo", "/", ":", "@", ".", "localhost", "sha256:", "é", "\u{1f600}", "$a", "${a}", "${b", " ", "\n", "\u{0}", "0", "_", "$$",
        "/:", "@@", "::", "//", "\u{301}", "\u{10ffff}",
    ];
    let n = cx.r.heavy(0, 30);
    let s: String = (0..n).map(|_| *cx.r.pick(T)).collect();
    cx.note(&s);
    cx.seen(&s);
    let c = &mut *cx;
    let copy = s.clone();
    timed(c, &copy, &mut |cx| strings(cx, &s));
}

/// Long chains of variables with few references: as many steps as levels.
fn chains_family(cx: &mut Cx) {
    let n = cx.r.range(2, 254);
    let fan = cx.r.chance(1, 4);
    let mut own: Vec<(String, String)> = (0..n)
        .map(|i| {
            let v = match cx.r.below(4) {
                0 => format!("$v{}", i + 1),
                1 => format!("${{v{}}}", i + 1),
                2 => format!("a$v{}-b", i + 1),
                _ => format!("$$ ${{v{}}}-", i + 1),
            };
            (format!("v{}", i), if fan && i + 8 > n { format!("{v}{v}") } else { v })
        })
        .collect();
    match cx.r.below(4) {
        0 => own.push((format!("v{}", n), "$v0".into())),
        1 => {}
        _ => own.push((format!("v{}", n), "end".into())),
    }
    let limit = *cx.r.pick(&[16usize, 17, 64, n - 1, n, n + 1, 255]).min(&255);
    let map: HashMap<String, String> = own.iter().cloned().collect();
    let t = format!("{}$v0", cx.r.pick(&["", "x", "é", "$v3"]));
    if matches!(spec::substitute(&t, &map, limit, 100_000), spec::Subst::TooBig) {
        return;
    }
    let what = format!("{:?} with {:?}, limit {}", t, own, limit);
    cx.note(&what);
    cx.seen(&what);
    timed(cx, &what, &mut |cx| {
        let m: HashMap<&str, &str> = own.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        let mut used = HashSet::new();
        real::t(|| dp::substitute(&t, &m, &mut used, limit as u8));
        cx.ev("chains of variables followed", 1);
    });
}

fn small_family(cx: &mut Cx, kws: &[&str], len: u32) {
    if let Some(s) = small_doc(cx, kws, &hostile::ALPHA, len) {
        doc(cx, &s);
    }
}

// ---------------------------------------------------------------------------
// long and deep texts, on stacks of several sizes

const STACKS: &[usize] = &[512 << 10, 2 << 20, 8 << 20, 64 << 20];

pub const SHAPES: &[&str] = &[
    "continued shell text",
    "comments in a continuation",
    "continued arguments",
    "blank lines in a continuation",
    "escapes in a quoted string",
    "escapes in an array element",
    "continuations in a quoted string",
    "many env pairs",
    "many labels",
    "many sources",
    "many array elements",
    "many flags",
    "many stages",
    "many chained stages",
    "many args",
    "many misc lines",
    "many blank lines",
    "many comment lines",
    "long word",
    "long value",
    "long comment",
    "long path",
    "long command",
    "long blanks",
    "unclosed string",
    "unclosed array",
    "open brackets",
    "backslashes",
    "backslash lines",
    "quotes",
    "equals signs",
    "dollars in an image",
    "slashes in an image",
    "blanks after backslashes",
    "carriage returns",
    "hashes",
    "multi-byte text",
    "continued env value",
    "continued misc text",
    "continued array",
    "digits of a digest",
    "chained args",
    "array then text",
    "nested quotes in labels",
    "unclosed continuations in flags",
];

pub fn shape(name: &str, n: usize) -> String {
    let rep = |s: &str| s.repeat(n);
    match name {
        "continued shell text" => format!("RUN a \\\n{}b", rep("cc \\\n")),
        "comments in a continuation" => format!("RUN a \\\n{}b", rep("  # c\n")),
        "continued arguments" => format!("COPY \\\n{}b", rep("a \\\n")),
        "blank lines in a continuation" => format!("COPY a \\\n{}b", rep("\n")),
        "escapes in a quoted string" => format!("ENV a=\"{}\"", rep("\\n")),
        "escapes in an array element" => format!("CMD [\"{}\"]", rep("\\\\x")),
        "continuations in a quoted string" => format!("LABEL a='{}'", rep("b\\\n")),
        "many env pairs" => format!("ENV{}", rep(" a=b")),
        "many labels" => format!("LABEL{}", rep(" a=\"b\"")),
        "many sources" => format!("COPY{} d", rep(" a")),
        "many array elements" => format!("RUN [\"a\"{}]", rep(", \"b\"")),
        "many flags" => format!("FROM{} x", rep(" --a=b")),
        "many stages" => rep("FROM x as y\n"),
        "many chained stages" => (0..n).map(|i| if i == 0 { "FROM x as s0\n".to_string() } else { format!("FROM s{} as s{}\n", i - 1, i) }).collect(),
        "many args" => format!("{}FROM $a", rep("ARG a=b\n")),
        "many misc lines" => rep("USER x\n"),
        "many blank lines" => format!("{}FROM x", rep("\n")),
        "many comment lines" => format!("{}FROM x", rep("# c\n")),
        "long word" => format!("{} x", rep("x")),
        "long value" => format!("ARG a={}", rep("v")),
        "long comment" => format!("#{}\nFROM x", rep("c")),
        "long path" => format!("COPY {} {}", rep("p"), rep("q")),
        "long command" => format!("RUN {}", rep("c ")),
        "long blanks" => format!("RUN{}x{}\n{}FROM y", rep(" "), rep("\t"), rep(" ")),
        "unclosed string" => format!("RUN [\"{}", rep("a")),
        "unclosed array" => format!("CMD [{}", rep("\"a\",")),
        "open brackets" => format!("ENTRYPOINT {}", rep("[")),
        "backslashes" => format!("RUN {}", rep("\\")),
        "backslash lines" => rep("\\\n"),
        "quotes" => format!("LABEL {}", rep("\"")),
        "equals signs" => format!("ENV a{}", rep("=")),
        "dollars in an image" => format!("ARG a=x\nFROM {}", rep("${a}")),
        "slashes in an image" => format!("FROM a{}b:c@d", rep("/:")),
        "blanks after backslashes" => format!("RUN {}", rep("\\  ")),
        "carriage returns" => format!("RUN x{}", rep("\r")),
        "hashes" => format!("RUN {}", rep("#")),
        "multi-byte text" => format!("ENV a {}\nLABEL b=\"{}\"", rep("é中😀"), rep("é中😀")),
        "continued env value" => format!("ENV a b\\\n{}c", rep("x\\\n# c\n")),
        "continued misc text" => format!("USER a\\\n{}c", rep(" x\\\n")),
        "continued array" => format!("RUN [\"a\", \\\n{}\"b\"]", rep("# c\n")),
        "digits of a digest" => format!("FROM a@sha256:{}", rep("0")),
        "chained args" => {
            let mut s: String = (0..n).map(|i| format!("ARG v{}=$v{}\n", i, i + 1)).collect();
            s.push_str("FROM $v0");
            s
        }
        "array then text" => format!("RUN [\"a\"{}] && x", rep(",\"b\"")),
        "nested quotes in labels" => format!("LABEL a{}=b", rep("\"'")),
        "unclosed continuations in flags" => format!("COPY --from=a{} b", rep("\\\n")),
        _ => unreachable!("{}", name),
    }
}

const SIZES_Q: &[usize] = &[3, 50, 300, 700, 1000, 3000, 20_000];
const SIZES_T: &[usize] =
    &[3, 17, 50, 100, 200, 300, 450, 600, 700, 800, 850, 900, 950, 1000, 1200, 1500, 2000, 3000, 4000, 6000, 8000, 12_000, 20_000, 65_000, 65_540, 200_000, 1_000_000];

fn long_total(thorough: bool) -> u64 {
    let s = if thorough { SIZES_T } else { SIZES_Q };
    (SHAPES.len() * s.len() * STACKS.len()) as u64
}

fn long_family(cx: &mut Cx) {
    let sizes = if cx.thorough { SIZES_T } else { SIZES_Q };
    let i = cx.idx as usize;
    let sh = SHAPES[i % SHAPES.len()];
    let stack = STACKS[(i / SHAPES.len()) % STACKS.len()];
    let mut n = sizes[(i / SHAPES.len() / STACKS.len()) % sizes.len()];
    // splitting into stages compares each stage with all earlier ones
    if sh.contains("stages") {
        n = n.min(3000);
    }
    if sh == "dollars in an image" {
        n = n.min(5000);
    }
    let s = shape(sh, n);
    cx.note(&s);
    let what = format!("{} x {} on a stack of {} kB", sh, n, stack >> 10);
    cx.seen(&what);
    if cx.verbose {
        eprintln!("{}", what);
    }
    let seed = cx.r.next();
    let h = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            let mut r = dfcore::rng::Rng::new(seed);
            exercise(&mut r, &s, 40)
        })
        .unwrap();
    match h.join() {
        Ok(v) => {
            cx.ev("long or deep texts", 1);
            for (k, n) in v {
                cx.ev(k, n);
            }
        }
        Err(p) => std::panic::resume_unwind(p),
    }
}

pub fn get(id: &str) -> Option<Prop> {
    let kw: &'static [&'static str] = &["", "RUN ", "FROM a", "ENV ", "LABEL ", "COPY ", "ARG ", "CMD [", "x", "ENV a=\"", "LABEL a="];
    Some(match id {
        "C01" => Prop {
            id: "C01",
            rule: "arbitrary Unicode strings, token soup, cut, mutated and repeated documents, every short text over 13 significant characters after 11 beginnings, arbitrary strings as image references and substitution texts, and 45 shapes of long or deep text in sizes from 3 to 20,000 (thorough: 1,000,000) repetitions on stacks of 512 kB to 64 MB; each text is parsed and everything the interface offers is done with the result; a panic, a signal, an exit, more than 3.2 GB of memory, more than 4 s three times in a row for a text of some kB, or more than 60 s of processor time is a violation; non-trivial: every text, distinct by content",
            need: &["texts accepted", "texts rejected with an error that can be shown", "long or deep texts", "splices", "image references resolved", "chains of variables followed"],
            assumptions: &["stacks below 512 kB are not tried", "substitution whose result grows beyond 100 kB or 200,000 references (nested repetition) is not tried"],
            fams: vec![
                fam("long", long_total(false), long_total(true), long_family),
                fam("hostile", 90_000, 6_000_000, hostile_family),
                fam("strings", 150_000, 5_000_000, strings_family),
                fam("chains", 4_000, 200_000, chains_family),
                fam("small3", small_total(kw.len(), 13, 3), small_total(kw.len(), 13, 3), move |cx| small_family(cx, kw, 3)),
                fam("small4", 0, small_total(kw.len(), 13, 4), move |cx| small_family(cx, kw, 4)),
                fam("small5", 0, small_total(kw.len(), 13, 5), move |cx| small_family(cx, kw, 5)),
            ],
        },
        _ => return None,
    })
}
