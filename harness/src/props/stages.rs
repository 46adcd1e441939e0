//! C18 and C19: stages and their lookup.

use super::*;
use dfcore::rec::clip;
use dfcore::spec::{self, Parent, StageM};

pub fn stage_doc(cx: &mut Cx) -> String {
    let mut g = cx.g();
    g.cap = 3;
    let mut v = vec![];
    let n = g.count(0, 24);
    let dense = g.r.coin();
    let mut aliases: Vec<String> = vec![];
    for k in 0..n {
        if k == 0 && g.r.coin() {
            for _ in 0..g.r.heavy(0, 3) {
                let kd = *g.r.pick(&[Kind::Arg, Kind::Misc, Kind::Run, Kind::Copy]);
                v.push(g.ins(kd));
            }
        }
        let image = match g.r.below(12) {
            0 => g.r.pick(&["scratch", "SCRATCH", "Scratch", "scratch:1", "scratchx", "/scratch", "$scratch"]).to_string(),
            1..=6 if !aliases.is_empty() => {
                let a = g.r.pick(&aliases).clone();
                match g.r.below(9) {
                    0 => a.to_ascii_uppercase(),
                    1 => a.to_ascii_lowercase(),
                    2 => format!("{}:latest", a),
                    3 => format!("{}x", a),
                    4 => a[1..].to_string() + "y",
                    5 => format!("library/{}", a),
                    6 => format!("${{{}}}", a),
                    _ => a,
                }
            }
            7 => g.r.range(0, 4).to_string(),
            8 => ((b'a' + g.r.below(5) as u8) as char).to_string(),
            _ => g.image(),
        };
        let alias = match g.r.below(8) {
            0 | 1 => None,
            2 if !aliases.is_empty() => {
                let a = g.r.pick(&aliases).clone();
                Some(if g.r.coin() { a.to_ascii_uppercase() } else { a })
            }
            3 => Some(g.r.pick(&["scratch", "Scratch", "0", "1", "2", "00", "-", "-1", "_", "alpine", "AS", "18446744073709551616"]).to_string()),
            4 => Some(image.clone()).filter(|i| i.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_')),
            5 => Some(g.text(Class::Alias)),
            _ => Some(((if g.r.coin() { b'a' } else { b'A' } + g.r.below(5) as u8) as char).to_string()),
        };
        if let Some(a) = &alias {
            aliases.push(a.clone());
        }
        let image = fix_image(&image);
        let image = if image.is_empty() { "a".into() } else { image };
        v.push(GI::From { flags: vec![], image, alias });
        for _ in 0..if dense { g.r.heavy(0, 2) } else { g.r.heavy(0, 8) } {
            let kd = *g.r.pick(&[Kind::Arg, Kind::Arg, Kind::Misc, Kind::Run, Kind::Copy, Kind::Env, Kind::Label, Kind::Cmd]);
            v.push(g.ins(kd));
        }
    }
    let f = if g.r.coin() { Fmt::plain() } else { Fmt::random(&mut cx.r) };
    let d = render(&v, &mut cx.r, &f);
    if !agree(cx, &d) {
        return stage_doc(cx);
    }
    d.content
}

fn parent_text(p: &Parent) -> String {
    match p {
        Parent::Image(i) => spec::image_text(i),
        Parent::Stage(n) => n.to_string(),
        Parent::Scratch => "scratch".into(),
    }
}

fn check_stage(doc: &dp::Dockerfile, st: &dp::Stage, w: &StageM) -> Result<(), String> {
    if st.index != w.index {
        return Err(format!("stage {} has index {}", w.index, st.index));
    }
    if st.name != w.name {
        return Err(format!("stage {} has name {:?}, expected {:?}", w.index, st.name, w.name));
    }
    let got: Vec<Option<usize>> = st.instructions.iter().map(|i| doc.instructions.iter().position(|x| std::ptr::eq(x, *i))).collect();
    let want: Vec<Option<usize>> = w.ins.iter().map(|i| Some(*i)).collect();
    if got != want {
        // not the very instructions of the document: perhaps equal ones
        let eq = st.instructions.len() == w.ins.len() && st.instructions.iter().zip(&w.ins).all(|(a, b)| **a == doc.instructions[*b]);
        if !eq {
            return Err(format!("stage {} contains the instructions {:?}, expected {:?}", w.index, got, w.ins));
        }
    }
    let (p, r) = (real::parent(&st.parent), real::parent(&st.root));
    if p != w.parent {
        return Err(format!("stage {} has parent {:?}, expected {:?}", w.index, p, w.parent));
    }
    if r != w.root {
        return Err(format!("stage {} has root {:?}, expected {:?}", w.index, r, w.root));
    }
    let (ps, rs) = real::t(|| (st.parent.to_string(), st.root.to_string()));
    if ps != parent_text(&w.parent) || rs != parent_text(&w.root) {
        return Err(format!("stage {}: parent and root are displayed as {:?} and {:?}", w.index, ps, rs));
    }
    Ok(())
}

fn c18(cx: &mut Cx, s: &str) {
    cx.note(s);
    let Ok(doc) = real::parse(s) else {
        cx.ev("rejected texts", 1);
        return;
    };
    c18_doc(cx, &doc, s)
}

pub fn c18_doc(cx: &mut Cx, doc: &dp::Dockerfile, s: &str) {
    let d = real::snap(doc);
    let want = spec::stages(&d);
    let stages = real::t(|| doc.stages());
    cx.ev("documents", 1);
    cx.ev("stages checked", want.len() as u64);
    for w in &want {
        match w.parent {
            Parent::Stage(_) => cx.ev("stages built on a stage", 1),
            Parent::Scratch => cx.ev("stages built on scratch", 1),
            _ => {}
        }
    }
    if !want.is_empty() {
        cx.seen(s);
    }
    if stages.stages.len() != want.len() {
        cx.bad(s, format!("there are {} stages, expected {}", stages.stages.len(), want.len()));
        return;
    }
    for (st, w) in stages.stages.iter().zip(&want) {
        if let Err(m) = check_stage(doc, st, w) {
            cx.bad(s, m);
            return;
        }
    }
    let it: Vec<dp::Stage> = real::t(|| doc.iter_stages().collect());
    if it.len() != want.len() {
        cx.bad(s, format!("iterating gives {} stages, expected {}", it.len(), want.len()));
        return;
    }
    for (st, w) in it.iter().zip(&want) {
        if let Err(m) = check_stage(doc, st, w) {
            cx.bad(s, format!("iterating: {}", m));
            return;
        }
    }
}

// ---------------------------------------------------------------------------
// C19

/// What looking `s` up must find: Some(None) is nothing, None is unconstrained.
fn lookup(want: &[StageM], s: &str) -> Option<Option<usize>> {
    let by_name = || want.iter().find(|w| w.name.as_ref().map_or(false, |n| n.eq_ignore_ascii_case(s))).map(|w| w.index);
    if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) {
        let t = s.trim_start_matches('0');
        if t.len() > 15 {
            // no such stage; an alias spelled like that may or may not be found
            return if by_name().is_some() { None } else { Some(None) };
        }
        let n: usize = if t.is_empty() { 0 } else { t.parse().unwrap() };
        return Some(if n < want.len() { Some(n) } else { None });
    }
    if s.starts_with('+') {
        return None;
    }
    Some(by_name())
}

fn chop(s: &str) -> String {
    let mut t = s.to_string();
    t.pop();
    t
}

fn flip(s: &str, r: &mut dfcore::rng::Rng) -> String {
    s.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

fn c19(cx: &mut Cx, s: &str) {
    cx.note(s);
    let Ok(doc) = real::parse(s) else { return };
    c19_doc(cx, &doc, s)
}

pub fn c19_doc(cx: &mut Cx, doc: &dp::Dockerfile, s: &str) {
    let d = real::snap(doc);
    let want = spec::stages(&d);
    let stages = real::t(|| doc.stages());
    if stages.stages.len() != want.len() {
        cx.ev("documents left to C18", 1);
        return;
    }
    let mut q: Vec<String> = vec!["".into(), " ".into(), "0".into(), "-1".into(), "1e0".into(), "0x0".into(), "٣".into(), "０".into(), "99999999999999999999".into()];
    for n in 0..want.len() + 2 {
        q.push(n.to_string());
    }
    q.push(format!("00{}", want.len().saturating_sub(1)));
    q.push(format!(" {}", want.len().saturating_sub(1)));
    q.push(format!("{} ", want.len().saturating_sub(1)));
    q.push(format!("-{}", want.len().saturating_sub(1)));
    // numbers that only a narrower type would take for an index
    let k = cx.r.below(want.len() + 1) as u128;
    for w in [8, 16, 31, 32, 63, 64, 127] {
        q.push((k + (1 << w)).to_string());
    }
    q.push(format!("-{}", (1u128 << 64) - k));
    q.push(format!("{}{}", 1, "0".repeat(cx.r.range(15, 60))));
    for w in &want {
        if let Some(n) = &w.name {
            q.push(n.clone());
            q.push(n.to_ascii_uppercase());
            q.push(flip(n, &mut cx.r));
            q.push(format!("{}x", n));
            q.push(chop(n));
            q.push(format!(" {}", n));
            q.push(disguised(n, &mut cx.r));
            q.push(n.replace('k', "\u{212a}").replace('s', "ſ"));
        }
        if let K::From { image, alias, .. } = &d.ins[w.ins[0]].k {
            q.push(image.s.clone());
            if let Some(a) = alias {
                q.push(a.s.clone());
            }
        }
    }
    let mut g = cx.g();
    q.push(g.text(Class::Any));
    q.push(g.text(Class::Alias));
    q.push(g.r.next().to_string());
    q.sort();
    q.dedup();
    if q.len() > 90 {
        cx.r.shuffle(&mut q);
        q.truncate(90);
    }
    for x in &q {
        let (a, b) = real::t(|| (stages.get(x).map(|s| s as *const dp::Stage), stages.get_by_name(x).map(|s| s as *const dp::Stage)));
        let at = |p: Option<*const dp::Stage>| p.map(|p| stages.stages.iter().position(|s| std::ptr::eq(s, p)));
        let (a, b) = (at(a), at(b));
        let wn = want.iter().find(|w| w.name.as_ref().map_or(false, |n| n.eq_ignore_ascii_case(x))).map(|w| Some(w.index));
        if b != wn {
            cx.bad(s, format!("looking up the name {:?} found {:?}, expected {:?}", x, b, wn));
            return;
        }
        if let Some(w) = lookup(&want, x) {
            if a != w.map(Some) {
                cx.bad(s, format!("looking up {:?} found {:?}, expected {:?}", x, a, w));
                return;
            }
            cx.ev("lookups", 1);
            if w.is_some() {
                cx.ev("lookups that found a stage", 1);
            }
        }
    }
    if !want.is_empty() {
        cx.seen(s);
    }
    // indexing, iteration and order
    let r: Result<(), String> = real::t(|| {
        for n in 0..want.len() {
            if !std::ptr::eq(&stages[n], &stages.stages[n]) || stages[n].index != n {
                return Err(format!("indexing with {} gives stage {}", n, stages[n].index));
            }
        }
        let v: Vec<usize> = stages.iter().map(|s| s.index).collect();
        if v != (0..want.len()).collect::<Vec<_>>() {
            return Err(format!("iteration gives the indices {:?}", v));
        }
        for a in stages.iter().take(12) {
            for b in stages.iter().take(12) {
                if a.cmp(b) != a.index.cmp(&b.index)
                    || a.partial_cmp(b) != Some(a.index.cmp(&b.index))
                    || (a == b) != (a.index == b.index)
                    || (a < b) != (a.index < b.index)
                    || (a >= b) != (a.index >= b.index)
                {
                    return Err(format!("comparing stages {} and {} disagrees with their indices", a.index, b.index));
                }
            }
        }
        Ok(())
    });
    if let Err(m) = r {
        cx.bad(s, m);
        return;
    }
    // stages of another document compare by index too
    let other = s.replace(" AS ", " as x").replace("FROM ", "RUN x\nFROM ");
    if let Ok(o) = real::parse(&other) {
        let os = real::t(|| o.stages());
        let r: Result<u64, String> = real::t(|| {
            let mut n = 0;
            for a in stages.iter().take(8) {
                for b in os.iter().take(8) {
                    n += 1;
                    let c = a.index.cmp(&b.index);
                    if a.cmp(b) != c || a.partial_cmp(b) != Some(c) || (a == b) != c.is_eq() || (a != b) == c.is_eq() || (a > b) != c.is_gt() || (a <= b) == c.is_gt() {
                        return Err(format!("comparing stage {} with stage {} of another document disagrees with their indices", a.index, b.index));
                    }
                }
            }
            Ok(n)
        });
        match r {
            Ok(n) => cx.ev("stages of different documents compared", n),
            Err(m) => {
                cx.bad(s, m);
                return;
            }
        }
    }
    // position of an argument within its stage
    for (w, st) in want.iter().zip(stages.iter()) {
        let mut names: Vec<String> = vec!["".into(), "a".into(), "nope".into()];
        for i in &w.ins {
            if let K::Arg { name, .. } = &d.ins[*i].k {
                let n = &name.s;
                names.extend([n.clone(), n.to_ascii_uppercase(), n.to_ascii_lowercase(), format!("{}x", n), chop(n), format!(" {}", n), disguised(n, &mut cx.r)]);
            }
        }
        names.sort();
        names.dedup();
        for n in names.iter().take(40) {
            let e = w.ins.iter().position(|i| matches!(&d.ins[*i].k, K::Arg { name, .. } if name.s == *n));
            let g = real::t(|| st.arg_index(n));
            if e != g {
                cx.bad(s, format!("the argument {:?} of stage {} is at {:?}, expected {:?}", n, w.index, g, e));
                return;
            }
            cx.ev("argument lookups", 1);
            if e.is_some() {
                cx.ev("argument lookups that found one", 1);
            }
        }
    }
    let v: Vec<usize> = real::t(|| stages.into_iter().map(|s| s.index).collect());
    let w: Vec<usize> = real::t(|| doc.iter_stages().map(|s| s.index).collect());
    if v != (0..want.len()).collect::<Vec<_>>() || v != w {
        cx.bad(s, format!("consuming iteration gives the indices {:?} and {:?}", v, w));
    }
}

/// every arrangement of a few FROMs over a few names
fn tiny(cx: &Cx, n: u32) -> Option<String> {
    let al = ["FROM a", "FROM a as b", "FROM b AS a", "FROM B as B", "FROM scratch as scratch", "FROM 0 as 1", "ARG a", "FROM Scratch"];
    let per = (al.len() as u64).pow(n);
    if cx.idx >= per {
        return None;
    }
    let mut i = cx.idx;
    let mut o = String::new();
    for _ in 0..n {
        o.push_str(al[(i % al.len() as u64) as usize]);
        o.push('\n');
        i /= al.len() as u64;
    }
    Some(clip(&o, 1000))
}

pub fn get(id: &str) -> Option<Prop> {
    let run: fn(&mut Cx, &str) = match id {
        "C18" => c18,
        "C19" => c19,
        _ => return None,
    };
    let fams = vec![
        fam("generated", 120_000, 4_000_000, move |cx| {
            let s = stage_doc(cx);
            run(cx, &s)
        }),
        fam("hostile", 80_000, 4_000_000, move |cx| {
            let f = if cx.r.coin() { Some(Kind::From) } else { None };
            let s = hostile_doc(cx, f);
            run(cx, &s)
        }),
        fam("arrangements", 8u64.pow(4) + 8u64.pow(5), 8u64.pow(4) + 8u64.pow(5) + 8u64.pow(6), move |cx| {
            let n = if cx.idx < 8u64.pow(4) { 4 } else if cx.idx < 8u64.pow(4) + 8u64.pow(5) { 5 } else { 6 };
            let mut c = cx.idx;
            if n == 5 {
                c -= 8u64.pow(4)
            } else if n == 6 {
                c -= 8u64.pow(4) + 8u64.pow(5)
            }
            let keep = cx.idx;
            cx.idx = c;
            let s = tiny(cx, n);
            cx.idx = keep;
            if let Some(s) = s {
                run(cx, &s)
            }
        }),
        fam("many", 60, 3_000, move |cx| {
            // many stages, in one long chain or all on the first
            let n = cx.r.range(50, 600);
            let mode = cx.r.below(3);
            let mut s = String::from("FROM base AS s0\n");
            for k in 1..n {
                let p = match mode {
                    0 => k - 1,
                    1 => 0,
                    _ => cx.r.below(k),
                };
                s.push_str(&format!("FROM {} AS s{}\n", if cx.r.chance(1, 9) { format!("S{}", p) } else { format!("s{}", p) }, k));
                if cx.r.chance(1, 6) {
                    s.push_str("ARG x\nRUN y\n");
                }
            }
            run(cx, &s)
        }),
    ];
    Some(match id {
        "C18" => Prop {
            id: "C18",
            rule: "generated documents rich in FROMs (aliases repeated, re-cased, numeric, equal to images, forward and self references), hostile texts, all arrangements of up to 5 (thorough 6) out of 8 lines, and chains of up to 600 stages, compared with an independent model over the reported instructions; non-trivial: the document has a stage, distinct by text",
            need: &["stages built on a stage", "stages built on scratch"],
            assumptions: &["the reported instructions are taken as given (C04, C13 judge them)"],
            fams,
        },
        _ => Prop {
            id: "C19",
            rule: "the same documents; lookups of every index, every alias and image as written, re-cased, extended and cut, padded and over-long numbers, random texts; non-trivial: the document has a stage, distinct by text",
            need: &["lookups that found a stage", "argument lookups that found one"],
            assumptions: &["integers written with '+' and integers beyond 15 digits that are also an alias are left open"],
            fams,
        },
    })
}
