//! C14 to C17: digests, image references, substitution, resolution.

use super::*;
use dfcore::rec::clip;
use dfcore::spec::{self, Subst};
use std::collections::{BTreeSet, HashMap, HashSet};

// ---------------------------------------------------------------------------
// C14

fn wrap_from(cx: &mut Cx, image: &str) -> (String, usize) {
    let mut g = cx.g();
    g.cap = 4;
    let mut v = vec![];
    for _ in 0..g.r.heavy(0, 3) {
        let k = g.any_kind();
        v.push(g.ins(k));
    }
    let at = v.len();
    let flags = g.flags(&["platform"]);
    let alias = if g.r.coin() { Some(g.text(Class::Alias)) } else { None };
    v.push(GI::From { flags, image: image.to_string(), alias });
    for _ in 0..g.r.heavy(0, 2) {
        let k = g.any_kind();
        v.push(g.ins(k));
    }
    let f = Fmt::random(&mut cx.r);
    let d = render(&v, &mut cx.r, &f);
    let ok = spec::image_ref(image).hash.map_or(true, |h| spec::digest_ok(&h));
    if ok && !agree(cx, &d) {
        return wrap_from(cx, image);
    }
    (d.content, at)
}

fn c14_judge(cx: &mut Cx, image: &str, doc: &str, at: usize) {
    cx.note(doc);
    let h = spec::image_ref(image).hash;
    let ok = h.as_ref().map_or(true, |h| spec::digest_ok(h));
    let key = match (&h, ok) {
        (None, _) => "references without a digest",
        (_, true) => "well-formed digests",
        _ => "malformed digests",
    };
    cx.ev(key, 1);
    cx.seen(doc);
    match real::parse(doc) {
        Err(e) if ok => cx.bad(doc, format!("the reference {:?} was rejected: {}", image, clip(&format!("{}", e), 300))),
        Err(_) => {}
        Ok(_) if !ok => cx.bad(doc, format!("the malformed digest in {:?} was accepted", image)),
        Ok(d) => match d.instructions.get(at) {
            Some(dp::Instruction::From(f)) => {
                if f.image_parsed.hash != h || f.image.content != image {
                    cx.bad(doc, format!("the digest of {:?} is reported as {:?}", image, f.image_parsed.hash));
                }
            }
            x => cx.bad(doc, format!("the FROM for {:?} is reported as {:?}", image, x.map(|i| clip(&format!("{:?}", i), 200)))),
        },
    }
}

const IMG_CHARS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.:/${}@";

fn c14_random(cx: &mut Cx) {
    let mut g = cx.g();
    let base = match g.r.below(6) {
        0 => "alpine".to_string(),
        1 => "localhost:5000/a/b".to_string(),
        2 => "a.b/c:tag".to_string(),
        3 => String::new(),
        _ => {
            let i = g.image();
            match i.find('@') {
                Some(p) => i[..p].to_string(),
                None => i,
            }
        }
    };
    let mut dig = format!("sha256:{}", g.hex(64));
    match g.r.below(14) {
        0..=3 => {}
        4 => {
            let k = g.r.below(64) + 7;
            let c = *g.r.pick(IMG_CHARS) as char;
            dig.replace_range(k..k + 1, &c.to_string());
        }
        5 => {
            let n = *g.r.pick(&[0usize, 1, 31, 32, 40, 62, 63, 65, 66, 96, 128, 256]);
            dig = format!("sha256:{}", g.hex(n));
        }
        6 => {
            let pre = *g.r.pick(&[
                "sha256", "SHA256:", "Sha256:", "sha512:", "sha256::", "sha25:", "sha2566:", "md5:", "", ":", "sha256@", "sha256-", "xsha256:",
                "sha1:", "sha384:", "sha256.",
            ]);
            let n = *g.r.pick(&[64usize, 64, 64, 40, 128, 63]);
            dig = format!("{}{}", pre, g.hex(n));
        }
        7 => {
            let s = g.text(Class::Image);
            dig.push_str(&s);
        }
        8 => {
            let s = *g.r.pick(&["@", "@sha256:", "sha256:", ":", "/", "-", "."]);
            dig.push_str(s);
            if g.r.coin() {
                let h = g.hex(64);
                dig.push_str(&h);
            }
        }
        9 => {
            let s = *g.r.pick(&["@", "-", "_", "x", "/", "."]);
            dig.insert_str(0, s)
        }
        10 => {
            let k = g.r.below(dig.len());
            dig.truncate(k);
        }
        11 => {
            // a line of neighbours of the hexadecimal digits
            let k = g.r.below(64) + 7;
            let c = *g.r.pick(&["g", "G", "/", ":", "@", "$", "{", "}", "-", "_", ".", "z", "Z"]);
            dig.replace_range(k..k + 1, c);
        }
        12 => {
            let k = g.r.below(dig.len());
            dig.remove(k);
        }
        _ => {
            let k = g.r.below(dig.len() + 1);
            let c = *g.r.pick(IMG_CHARS) as char;
            dig.insert(k, c);
        }
    }
    let mut image = if g.r.chance(1, 12) { format!("{}{}", base, dig) } else { format!("{}@{}", base, dig) };
    if g.r.chance(1, 12) {
        image = format!("{}/{}", g.r.pick(&["a@b", "a.b@c", "a:1@x", "@", "@."]), image);
    }
    if image.is_empty() {
        image.push('a');
    }
    let (doc, at) = wrap_from(cx, &image);
    c14_judge(cx, &image, &doc, at);
}

// ---------------------------------------------------------------------------
// C15

fn c15_one(cx: &mut Cx, s: &str) {
    cx.note(s);
    let (r, shown) = real::t(|| {
        let r = dp::ImageRef::parse(s);
        let t = r.to_string();
        (r, t)
    });
    let want = spec::image_ref(s);
    let got = real::img(&r);
    if want.registry.is_some() {
        cx.ev("references with a registry", 1);
    }
    if want.tag.is_some() {
        cx.ev("references with a tag", 1);
    }
    if want.hash.is_some() {
        cx.ev("references with a hash", 1);
    }
    if s.contains('/') || s.contains(':') || s.contains('@') {
        cx.seen(s);
    }
    if got != want {
        cx.bad(s, format!("{:?} parses to {:?}, expected {:?}", s, got, want));
    }
    if shown != s {
        cx.bad(s, format!("{:?} prints back as {:?}", s, shown));
    }
}

fn image_like(cx: &mut Cx) -> String {
    let mut g = cx.g();
    match g.r.below(5) {
        0 => g.image(),
        1 => {
            let i = g.image();
            hostile::mutate(&i, &mut cx.r, cx.dict)
        }
        2 => g.text(Class::Any),
        _ => {
            let n = g.count(0, 14);
            let mut o = String::new();
            for _ in 0..n {
                match g.r.below(8) {
                    0 => o.push('/'),
                    1 => o.push(':'),
                    2 => o.push('@'),
                    3 => o.push('.'),
                    4 => o.push_str(*g.r.pick(&[
                        "localhost", "Localhost", "localhost:5000", "docker.io", "index.docker.io", "library", "latest", "sha256:", "scratch", "[::1]",
                        "registry", "é.x", "${a}", "$b", " ", "\n", "127.0.0.1", "gcr.io", "host:443",
                    ])),
                    5 => {
                        let t = g.text(Class::Image);
                        o.push_str(&t)
                    }
                    6 => {
                        let c = g.ch(Class::Any);
                        o.push(c)
                    }
                    _ => o.push('a'),
                }
            }
            o
        }
    }
}

// ---------------------------------------------------------------------------
// C16

struct Vars {
    own: HashMap<String, String>,
}

fn ref_text(g: &mut G, names: &[String], refs: usize) -> String {
    let mut o = String::new();
    let bits = |g: &mut G, o: &mut String| {
        for _ in 0..g.r.heavy(0, 4) {
            match g.r.below(6) {
                0 => o.push_str(*g.r.pick(&[
                    "$", "${", "}", "${}", "$-", "$$", "${a-b}", "${ a}", "$é", "${é}", "$ ", "${a:-b}", "$\n", "{", "\\$", "${a", "$٣", "$.", "%",
                ])),
                1 => {
                    let t = g.text(Class::Any);
                    o.push_str(&t)
                }
                2 => o.push_str(*g.r.pick(&["é", "中", ":", "/", "-", ".", " ", "😀"])),
                _ => o.push_str(*g.r.pick(&["x", "3.11", "alpine", "_", "A"])),
            }
        }
    };
    bits(g, &mut o);
    for _ in 0..refs {
        let n = g.r.pick(names).clone();
        match g.r.below(5) {
            0 => {
                o.push('$');
                o.push_str(&n);
                // glued or separated
                if g.r.coin() {
                    o.push_str(*g.r.pick(&["-", ".", ":", "/", "é", "$", "{", "}", " ", "x", "_", "0"]));
                }
            }
            1 => {
                o.push('$');
                o.push_str(&n);
                o.push('-');
            }
            _ => {
                o.push_str("${");
                o.push_str(&n);
                o.push('}');
            }
        }
        bits(g, &mut o);
    }
    o
}

fn var_name(g: &mut G) -> String {
    match g.r.below(4) {
        0 => g.r.pick(&["a", "b", "A", "ab", "a_b", "_", "__", "0", "1a", "x1", "VERSION", "tag", "n9"]).to_string(),
        1 => g.text(Class::EnvKey),
        _ => ((b'a' + g.r.below(6) as u8) as char).to_string(),
    }
}

fn c16_one(cx: &mut Cx, s: &str, vars: &Vars, depth: u8, pre: &[String]) {
    let key = || {
        let mut v: Vec<_> = vars.own.iter().collect();
        v.sort();
        format!("{:?} with {:?} to depth {}", clip(s, 300), v.iter().map(|(k, v)| (k.as_str(), clip(v, 60))).collect::<Vec<_>>(), depth)
    };
    let want = spec::substitute(s, &vars.own, depth as usize, 100_000);
    let m: HashMap<&str, &str> = vars.own.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let mut used: HashSet<String> = pre.iter().cloned().collect();
    if let Subst::TooBig = want {
        cx.ev("expansions too large to be fair (skipped)", 1);
        return;
    }
    if cx.verbose {
        eprintln!("{}", key());
    }
    let got = real::t(|| dp::substitute(s, &m, &mut used, depth));
    match want {
        Subst::Text(t, names) => {
            cx.ev("substitutions that gave a text", 1);
            if !names.is_empty() {
                cx.ev("variables substituted", names.len() as u64);
                cx.seen(&key());
            }
            if got.as_deref() != Some(&t) {
                cx.bad(s, format!("substituting {} gave {:?}, expected {:?}", key(), got.map(|x| clip(&x, 300)), clip(&t, 300)));
            }
            let mut w: BTreeSet<String> = names;
            w.extend(pre.iter().cloned());
            let u: BTreeSet<String> = used.into_iter().collect();
            if u != w {
                cx.bad(s, format!("substituting {} reports the variables {:?}, expected {:?}", key(), u, w));
            }
        }
        Subst::None => {
            cx.ev("substitutions that gave nothing", 1);
            cx.seen(&key());
            if let Some(g) = got {
                cx.bad(s, format!("substituting {} gave {:?}, expected nothing", key(), clip(&g, 300)));
            }
        }
        Subst::TooBig => {}
    }
}

fn c16_random(cx: &mut Cx) {
    let mut g = cx.g();
    let branchy = g.r.chance(1, 2);
    let nv = if branchy { g.r.heavy(0, 6) } else { g.r.heavy(0, 30) };
    let mut names: Vec<String> = (0..nv).map(|_| var_name(&mut g)).collect();
    names.push(var_name(&mut g));
    names.sort();
    names.dedup();
    let acyclic = g.r.chance(2, 3);
    let mut own = HashMap::new();
    for (k, n) in names.iter().enumerate() {
        if g.r.chance(1, 10) {
            continue;
        }
        let pool: &[String] = if acyclic { &names[..k] } else { &names };
        let refs = if pool.is_empty() { 0 } else if branchy { g.r.heavy(0, 3) } else { g.r.below(2) };
        let v = if g.r.chance(1, 12) { String::new() } else { ref_text(&mut g, pool, refs) };
        own.insert(n.clone(), v);
    }
    if g.r.chance(1, 6) {
        own.insert("é".into(), "no name can reach this".into());
        own.insert(String::new(), "nor this".into());
        own.insert("a-b".into(), "nor this".into());
    }
    let depth = if branchy { g.r.below(9) as u8 } else { *g.r.pick(&[0u8, 1, 2, 3, 8, 15, 16, 17, 30, 31, 100, 254, 255]) };
    let refs = g.r.heavy(0, 4);
    let s = ref_text(&mut g, &names, refs);
    let pre: Vec<String> = if g.r.chance(1, 3) { vec![var_name(&mut g), "other".into()] } else { vec![] };
    c16_one(cx, &s, &Vars { own }, depth, &pre)
}

/// a chain of n variables, each naming the next; limit around n
fn c16_chain(cx: &mut Cx) {
    let mut g = cx.g();
    let n = g.r.range(1, 256).min(g.r.range(1, 400));
    let mut own = HashMap::new();
    let end = g.r.below(6);
    for k in 0..n {
        let v = if k + 1 < n {
            let pre = if g.r.chance(1, 4) { g.text(Class::Alpha) } else { String::new() };
            format!("{}${{v{}}}{}", pre, k + 1, if g.r.chance(1, 6) { "." } else { "" })
        } else {
            match end {
                0 => format!("${{v{}}}", g.r.below(n)),
                1 => "$nope".into(),
                2 => String::new(),
                3 => "$".into(),
                _ => "end".into(),
            }
        };
        own.insert(format!("v{}", k), v);
    }
    let d = match g.r.below(4) {
        0 => n,
        1 => n.saturating_sub(1),
        2 => n + 1,
        _ => g.r.below(256),
    }
    .min(255) as u8;
    let start = if g.r.chance(1, 4) { g.r.below(n) } else { 0 };
    c16_one(cx, &format!("a${{v{}}}b", start), &Vars { own }, d, &[])
}

// ---------------------------------------------------------------------------
// C17

pub fn globals_of(d: &Doc) -> HashMap<String, String> {
    let mut m = HashMap::new();
    for i in &d.ins {
        match &i.k {
            K::From { .. } => break,
            K::Arg { name, value: Some(v) } => {
                m.insert(name.s.clone(), v.s.clone());
            }
            _ => {}
        }
    }
    m
}

pub fn c17_ref(cx: &mut Cx, doc: &dp::Dockerfile, s: &str, i: &dp::ImageRef, vars: &HashMap<String, String>) {
    let text = spec::image_text(&real::img(i));
    let want = spec::substitute(&text, vars, 16, 50_000);
    if let Subst::TooBig = want {
        return;
    }
    let (got, plain) = real::t(|| (i.resolve_vars_with_context(doc), i.resolve_vars(doc)));
    if got.as_ref().map(|x| &x.0) != plain.as_ref() {
        cx.bad(s, format!("{:?} resolves to {:?} with and {:?} without the variables", text, got, plain));
    }
    match want {
        Subst::Text(t, names) => {
            let w = spec::image_ref(&t);
            if !names.is_empty() {
                cx.ev("references resolved through variables", 1);
                cx.seen(&format!("{}\u{1}{}", text, s));
            }
            match got {
                None => cx.bad(s, format!("{:?} resolves to nothing, expected {:?}", text, w)),
                Some((g, u)) => {
                    let u: BTreeSet<String> = u.into_iter().collect();
                    if real::img(&g) != w || u != names {
                        cx.bad(s, format!("{:?} resolves to {:?} using {:?}, expected {:?} using {:?}", text, g, u, w, names));
                    }
                }
            }
        }
        _ => {
            cx.ev("references that do not resolve", 1);
            if let Some(g) = got {
                cx.bad(s, format!("{:?} resolves to {:?}, expected nothing", text, g));
            }
        }
    }
}

fn c17(cx: &mut Cx) {
    let mut g = cx.g();
    g.cap = 3;
    let mut v = vec![];
    let chain = g.r.chance(1, 3);
    let n = if chain {
        g.r.range(1, 22)
    } else if g.r.chance(1, 80) {
        g.r.range(20, 300)
    } else {
        g.r.heavy(0, 12)
    };
    let names: Vec<String> = if chain {
        (0..n).map(|k| format!("v{}", k)).collect()
    } else {
        (0..n.max(1)).map(|_| fix(Class::Ident, &var_name(&mut g), 'v')).collect()
    };
    let val = |g: &mut G, k: usize| -> Option<Val> {
        if chain {
            let text = if k + 1 < n {
                format!("${{v{}}}", k + 1)
            } else {
                g.r.pick(&["end", "a.b/c:1", "$v0", "${nope}", "$", "localhost:5/x@y"]).to_string()
            };
            return Some(Val { text, q: if g.r.coin() { Some('"') } else { None } });
        }
        if g.r.chance(1, 6) {
            return None;
        }
        let refs = g.r.heavy(0, 2);
        let t = match g.r.below(4) {
            0 => g.image(),
            _ => ref_text(g, &names, refs),
        };
        if g.r.coin() {
            let t = fix(Class::Token, &t, 'v');
            Some(Val { text: t, q: None })
        } else {
            Some(Val { text: t, q: Some(*g.r.pick(&['"', '\''])) })
        }
    };
    let mut order: Vec<usize> = (0..n).collect();
    if g.r.coin() {
        g.r.shuffle(&mut order);
    }
    let img = |g: &mut G| -> String {
        let t = match g.r.below(3) {
            0 => g.image(),
            1 => {
                let k = g.r.below(names.len());
                let k = if chain { n.saturating_sub(g.r.range(13, 19)).min(k) } else { k };
                format!("{}${{{}}}{}", g.r.pick(&["", "a", "a.b/", "a:", "a@sha256:"]), names[k], g.r.pick(&["", "x", ":1", "/b"]))
            }
            _ => {
                let r = g.r.heavy(1, 2);
                ref_text(g, &names, r)
            }
        };
        let t: String = t.chars().filter(|c| c.is_ascii_alphanumeric() || "_-.:/${}".contains(*c)).collect();
        if t.is_empty() { "a".into() } else { t }
    };
    for k in order {
        if g.r.chance(1, 8) {
            let kd = *g.r.pick(&[Kind::Misc, Kind::Env, Kind::Label, Kind::Run]);
            v.push(g.ins(kd));
        }
        if g.r.chance(1, 10) {
            let d = val(&mut g, k);
            v.push(GI::Arg { name: names[k].clone(), value: d });
        }
        if !chain && g.r.chance(1, 12) {
            let image = img(&mut g);
            v.push(GI::From { flags: vec![], image, alias: None });
        }
        let d = val(&mut g, k);
        v.push(GI::Arg { name: names[k].clone(), value: d });
    }
    for _ in 0..g.r.heavy(1, 3) {
        let image = img(&mut g);
        v.push(GI::From { flags: vec![], image, alias: None });
        // arguments in a stage are not global
        for _ in 0..g.r.heavy(0, 3) {
            let name = if g.r.coin() { g.r.pick(&names).clone() } else { g.text(Class::Ident) };
            v.push(GI::Arg { name, value: Some(Val { text: "local".into(), q: None }) });
        }
    }
    let f = Fmt::random(&mut cx.r);
    let d = render(&v, &mut cx.r, &f);
    cx.note(&d.content);
    if !agree(cx, &d) {
        return;
    }
    let Ok(doc) = real::parse(&d.content) else {
        // C11, C13 and C14 judge acceptance
        cx.ev("rejected documents", 1);
        return;
    };
    let vars = globals_of(&d);
    cx.ev("documents", 1);
    for i in &doc.instructions {
        if let dp::Instruction::From(f) = i {
            c17_ref(cx, &doc, &d.content, &f.image_parsed, &vars);
        }
    }
    for _ in 0..3 {
        let t = match g.r.below(3) {
            0 => g.image(),
            1 => g.text(Class::Any),
            _ => {
                let r = g.r.heavy(1, 3);
                ref_text(&mut g, &names, r)
            }
        };
        let i = real::t(|| dp::ImageRef::parse(&t));
        if spec::image_text(&real::img(&i)) != t {
            continue;
        }
        c17_ref(cx, &doc, &d.content, &i, &vars);
    }
    // references of another document
    if g.r.chance(1, 4) {
        let other = dp::ImageRef {
            registry: if g.r.coin() { Some("r.io".into()) } else { None },
            image: format!("${{{}}}", g.r.pick(&names)),
            tag: if g.r.coin() { Some(format!("${}", g.r.pick(&names))) } else { None },
            hash: None,
        };
        c17_ref(cx, &doc, &d.content, &other, &vars);
    }
}

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C14" => Prop {
            id: "C14",
            rule: "FROM instructions in generated documents with well-formed digests, every kind of small damage to one, every allowed character at every one of the 64 positions, every length from 0 to 200, and texts judged by the reference parser; non-trivial: every document, distinct by text",
            need: &["references without a digest", "well-formed digests", "malformed digests"],
            assumptions: &[],
            fams: vec![
                fam("generated", 250_000, 8_000_000, c14_random),
                fam("each-position", (IMG_CHARS.len() * 64) as u64, (IMG_CHARS.len() * 64) as u64, |cx| {
                    let p = (cx.idx % 64) as usize;
                    let c = IMG_CHARS[(cx.idx / 64) as usize];
                    let h = cx.g().hex(64);
                    let mut b = h.into_bytes();
                    b[p] = c;
                    let image = format!("a@sha256:{}", String::from_utf8(b).unwrap());
                    c14_judge(cx, &image, &format!("FROM {}\n", image), 0);
                }),
                fam("each-length", 402, 402, |cx| {
                    let n = (cx.idx / 2) as usize;
                    let h = cx.g().hex(n);
                    let image = format!("x{}@sha256:{}", if cx.idx % 2 == 0 { "" } else { ":t" }, h);
                    c14_judge(cx, &image, &format!("FROM {} AS b", image), 0);
                }),
                fam("images", 80_000, 3_000_000, |cx| {
                    let t: String = image_like(cx).chars().filter(|c| IMG_CHARS.contains(&(*c as u32).min(255).try_into().unwrap_or(0)) && c.is_ascii()).collect();
                    let t = if t.is_empty() { "a".to_string() } else { t };
                    let (doc, at) = wrap_from(cx, &t);
                    c14_judge(cx, &t, &doc, at);
                }),
            ],
        },
        "C15" => Prop {
            id: "C15",
            rule: "image-like and arbitrary strings and every string of up to 7 (thorough: 9) symbols over {a / : @ . localhost é}; non-trivial: the string contains a separator, distinct by text",
            need: &["references with a registry", "references with a tag", "references with a hash"],
            assumptions: &[],
            fams: vec![
                fam("generated", 800_000, 30_000_000, |cx| {
                    let s = image_like(cx);
                    c15_one(cx, &s)
                }),
                fam("exhaustive", (0..=7).map(|n| 7u64.pow(n)).sum(), (0..=9).map(|n| 7u64.pow(n)).sum(), |cx| {
                    let al = ["a", "/", ":", "@", ".", "localhost", "é"];
                    let mut i = cx.idx;
                    let mut n = 0;
                    while i >= 7u64.pow(n) {
                        i -= 7u64.pow(n);
                        n += 1;
                    }
                    let s = hostile::nth_string(&al, n, i);
                    c15_one(cx, &s)
                }),
                fam("long", 300, 20_000, |cx| {
                    let mut g = cx.g();
                    let n = g.r.range(1000, 40000);
                    let unit = *g.r.pick(&["a", "/", ":", "@", ".", "a/", "é", "a:b@c/", "localhost/"]);
                    let mut s = unit.repeat(n / unit.len());
                    let t = g.image();
                    if g.r.coin() {
                        s.push_str(&t)
                    } else {
                        s = format!("{}{}", t, s)
                    }
                    c15_one(cx, &s)
                }),
            ],
        },
        "C16" => Prop {
            id: "C16",
            rule: "random texts, variable maps (chained, branching, cyclic, empty, Unicode values, unreachable names) and depth limits, chains of 1 to 256 variables with the limit at, just below and just above their length, and every short text over {$ { } a b _ x}; expansions beyond 100 kB or 200,000 references are left out; non-trivial: a variable was substituted or the result is nothing, distinct by text, map and depth",
            need: &["substitutions that gave a text", "substitutions that gave nothing", "variables substituted"],
            assumptions: &["texts whose full expansion is exponentially large are not run"],
            fams: vec![
                fam("generated", 400_000, 15_000_000, c16_random),
                fam("chains", 15_000, 600_000, c16_chain),
                fam("exhaustive", 8u64.pow(6) + 8u64.pow(5), 8u64.pow(6) + 8u64.pow(5) + 8u64.pow(7), |cx| {
                    let al = ["$", "{", "}", "a", "b", "_", "-", "é"];
                    let (n, i) = if cx.idx < 8u64.pow(5) {
                        (5, cx.idx)
                    } else if cx.idx < 8u64.pow(5) + 8u64.pow(6) {
                        (6, cx.idx - 8u64.pow(5))
                    } else {
                        (7, cx.idx - 8u64.pow(5) - 8u64.pow(6))
                    };
                    let s = hostile::nth_string(&al, n, i);
                    let mut own = HashMap::new();
                    own.insert("a".to_string(), "${b}$b-é".to_string());
                    own.insert("b".to_string(), "$".to_string());
                    own.insert("ab".to_string(), "".to_string());
                    own.insert("_".to_string(), "{$a}".to_string());
                    own.insert("ba".to_string(), "$ba".to_string());
                    let d = *cx.r.pick(&[0u8, 1, 2, 3, 3, 9]);
                    c16_one(cx, &s, &Vars { own }, d, &[])
                }),
            ],
        },
        "C17" => Prop {
            id: "C17",
            rule: "generated documents with ARGs (valued or not, repeated, quoted, chained up to 22 deep, before and after FROM) and every image reference in them plus arbitrary ones; non-trivial: the reference resolves through at least one variable, distinct by reference and text",
            need: &["references resolved through variables", "references that do not resolve"],
            assumptions: &["expansions beyond 50 kB are not run"],
            fams: vec![fam("generated", 300_000, 10_000_000, c17)],
        },
        _ => return None,
    })
}
