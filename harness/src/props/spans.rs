//! C02, C03, C04 and C22: what spans say, and what lies between them.

use super::*;
use dfcore::rec::clip;
use dfcore::spec::{cont_at, nl_at, skip_blanks};

// ---------------------------------------------------------------------------
// C02

/// Structural invariants of every span in a reported document.
pub fn structure(d: &Doc) -> Result<u64, String> {
    let s = &d.content;
    let n = s.len();
    let mut count = 0;
    let mut prev_end = 0;
    for (k, i) in d.ins.iter().enumerate() {
        let v = nodes(i, k);
        for x in &v {
            count += 1;
            let (a, z) = x.sp;
            if a > z {
                return Err(format!("instruction {}: the span {:?} of {:?} ends before it starts", k, x.sp, x.role));
            }
            if z > n {
                return Err(format!("instruction {}: the span {:?} of {:?} reaches past the content ({} bytes)", k, x.sp, x.role, n));
            }
            if !s.is_char_boundary(a) || !s.is_char_boundary(z) {
                return Err(format!("instruction {}: the span {:?} of {:?} cuts a character", k, x.sp, x.role));
            }
            let p = &v[x.parent];
            if a < p.sp.0 || z > p.sp.1 {
                return Err(format!("instruction {}: the span {:?} of {:?} is not inside the span {:?} of its {:?}", k, x.sp, x.role, p.sp, p.role));
            }
        }
        // parts of one parent, in the order listed, are disjoint and increasing
        for (a, x) in v.iter().enumerate().skip(1) {
            for y in v.iter().skip(a + 1) {
                if x.parent == y.parent {
                    if y.sp.0 < x.sp.1 {
                        return Err(format!("instruction {}: {:?} at {:?} overlaps or precedes {:?} at {:?}", k, y.role, y.sp, x.role, x.sp));
                    }
                    break;
                }
            }
        }
        if i.sp.0 < prev_end {
            return Err(format!("instruction {} at {:?} overlaps the one before it, which ends at {}", k, i.sp, prev_end));
        }
        prev_end = i.sp.1;
        // starts exactly at its keyword
        let w = match &i.k {
            K::Misc { ins, .. } => ins.s.clone(),
            k => k.kind().word().to_string(),
        };
        match s.get(i.sp.0..i.sp.0 + w.len()) {
            Some(t) if t.eq_ignore_ascii_case(&w) => {}
            t => return Err(format!("instruction {} at {:?} does not start at its keyword {:?} but at {:?}", k, i.sp, w, t)),
        }
        let line = s[..i.sp.0].rfind(['\n', '\r']).map_or(0, |p| p + 1);
        if !s[line..i.sp.0].bytes().all(|c| c == b' ' || c == b'\t') {
            // (only a raw line end inside a previous quoted string could fool this)
            return Err(format!("instruction {} at {:?} does not start its line", k, i.sp));
        }
    }
    for (k, g) in d.globals.iter().enumerate() {
        let at = d.ins.iter().find(|i| i.sp == g.sp);
        if at.map_or(true, |i| i.k != g.k) {
            return Err(format!("global argument {} at {:?} is not one of the document's instructions", k, g.sp));
        }
    }
    Ok(count)
}

fn c02_text(cx: &mut Cx, s: &str) {
    cx.note(s);
    let Ok(r) = real::parse(s) else {
        cx.ev("rejected texts", 1);
        return;
    };
    let d = real::snap(&r);
    cx.ev("documents checked", 1);
    if !d.ins.is_empty() {
        cx.seen(s);
    }
    match structure(&d) {
        Ok(n) => cx.ev("spans checked", n),
        Err(m) => cx.bad(s, m),
    }
}

// ---------------------------------------------------------------------------
// C03

fn is_quote(c: u8) -> bool {
    c == b'"' || c == b'\'' || c == b'`'
}

/// Text under each leaf span against the value reported for it.
pub fn faithful(d: &Doc) -> Result<(u64, u64), String> {
    let s = &d.content;
    let (mut plain, mut quoted) = (0, 0);
    for (k, i) in d.ins.iter().enumerate() {
        for x in nodes(i, k) {
            let Some(v) = &x.text else { continue };
            let Some(t) = s.get(x.sp.0..x.sp.1) else {
                return Err(format!("instruction {}: the span {:?} of {:?} selects no text", k, x.sp, x.role));
            };
            if t == v {
                plain += 1;
                continue;
            }
            let may_quote = matches!(
                x.role,
                Role::ArgValue | Role::LabelName | Role::LabelValue | Role::ExecElem | Role::EnvPiece | Role::Path | Role::FlagValue
            );
            if may_quote && t.len() >= 2 && is_quote(t.as_bytes()[0]) {
                if t.as_bytes()[0] == b'`' {
                    continue;
                }
                if t.contains(['\0', '\u{1f}']) {
                    // such characters are never part of a quoted string: the text is a
                    // plain token that happens to start with a quote
                    continue;
                }
                if spec::string_at(t.as_bytes(), 0) != Some(t.len()) {
                    return Err(format!("instruction {}: the text {:?} of {:?} is not one complete quoted string", k, clip(t, 200), x.role));
                }
                match spec::decode(t) {
                    spec::Dec::Ok(w) if w == *v => quoted += 1,
                    spec::Dec::Ok(w) => {
                        return Err(format!(
                            "instruction {}: {:?} is reported as {:?} but its text {:?} decodes to {:?}",
                            k,
                            x.role,
                            clip(v, 200),
                            clip(t, 200),
                            clip(&w, 200)
                        ))
                    }
                    spec::Dec::Odd(_) => {}
                    spec::Dec::Bad(_) => return Err(format!("instruction {}: the text {:?} of {:?} does not decode at all", k, clip(t, 200), x.role)),
                }
                continue;
            }
            return Err(format!("instruction {}: {:?} is reported as {:?} but the text at {:?} is {:?}", k, x.role, clip(v, 200), x.sp, clip(t, 200)));
        }
    }
    Ok((plain, quoted))
}

/// Each instruction's own text, parsed alone, gives the same instruction.
fn reparse(cx: &mut Cx, d: &Doc) {
    for (k, i) in d.ins.iter().enumerate() {
        if k >= 8 && !cx.r.chance(1, 4) {
            continue;
        }
        if !stands_alone(d, i) {
            continue;
        }
        let Some(t) = d.content.get(i.sp.0..i.sp.1) else { continue };
        let mut want = shift(i, -(i.sp.0 as isize));
        if let K::From { index, .. } = &mut want.k {
            *index = 0
        }
        match real::parse(t) {
            Err(e) => {
                cx.bad(&d.content, format!("the text of instruction {} alone, {:?}, is rejected: {}", k, clip(t, 300), clip_err(&e)));
                return;
            }
            Ok(r) => {
                let g = real::snap(&r);
                cx.ev("instructions parsed again on their own", 1);
                if g.ins.len() != 1 || canon(&g.ins[0]) != canon(&want) {
                    cx.bad(
                        &d.content,
                        format!("the text of instruction {} alone, {:?}, parses to {} instead of {}", k, clip(t, 300), clip(&format!("{:?}", g.ins), 500), clip(&format!("{:?}", want), 500)),
                    );
                    return;
                }
            }
        }
    }
}

/// Does the slice of an instruction stand alone? Not when what follows it in
/// the document decides how it reads: a line continuation after it, or a last
/// line of its own that is only blanks or a comment (a dangling continuation).
fn stands_alone(d: &Doc, i: &Ins) -> bool {
    let b = d.content.as_bytes();
    if i.sp.1 < b.len() && b[i.sp.1] == b'\\' {
        return false;
    }
    let Some(t) = d.content.get(i.sp.0..i.sp.1) else { return false };
    match t.rfind(['\n', '\r']) {
        None => true,
        Some(p) => {
            let last = t[p + 1..].trim_start_matches([' ', '\t']);
            !last.is_empty() && !last.starts_with('#')
        }
    }
}

fn c03_text(cx: &mut Cx, s: &str) {
    cx.note(s);
    let Ok(r) = real::parse(s) else {
        cx.ev("rejected texts", 1);
        return;
    };
    let d = real::snap(&r);
    if d.content != s {
        cx.bad(s, "the document's content is not the text that was parsed".into());
        return;
    }
    if !d.ins.is_empty() {
        cx.seen(s);
    }
    cx.ev("documents checked", 1);
    match faithful(&d) {
        Ok((p, q)) => {
            cx.ev("verbatim values compared with their text", p);
            cx.ev("quoted values decoded from their text", q);
        }
        Err(m) => cx.bad(s, m),
    }
    reparse(cx, &d);
}

fn all(d: &Doc) -> Vec<Ins> {
    canon_all(&d.ins)
}

// ---------------------------------------------------------------------------
// C04

/// Between instructions there are only blank and comment lines.
fn between(d: &Doc) -> Result<u64, String> {
    let s = &d.content;
    let b = s.as_bytes();
    let mut pieces = 0;
    let mut pos = 0;
    let mut bounds: Vec<(usize, usize)> = d.ins.iter().map(|i| i.sp).collect();
    bounds.push((b.len(), b.len()));
    for (k, (a, z)) in bounds.iter().enumerate() {
        let mut p = pos;
        while p < *a {
            p = skip_blanks(b, p).min(*a);
            if p >= *a {
                break;
            }
            if b[p] == b'#' {
                while p < *a && b[p] != b'\n' && b[p] != b'\r' {
                    p += 1
                }
                pieces += 1;
            } else if let Some(e) = nl_at(b, p) {
                p = e;
            } else {
                return Err(format!("text before instruction {} belongs to none: {:?}", k, clip(&s[pos..*a], 200)));
            }
        }
        // a comment must not run on into an instruction
        let line = s[..*a].rfind(['\n', '\r']).map_or(0, |p| p + 1);
        if *a < b.len() && line >= pos && s[line..*a].contains('#') {
            return Err(format!("instruction {} at {:?} is inside a comment", k, (a, z)));
        }
        pos = *z;
    }
    Ok(pieces)
}

/// Are the instructions' own spans usable?
fn sane(d: &Doc) -> bool {
    let mut prev = 0;
    d.ins.iter().all(|i| {
        let (a, z) = i.sp;
        let ok = prev <= a && a <= z && z <= d.content.len() && d.content.is_char_boundary(a) && d.content.is_char_boundary(z);
        prev = z;
        ok
    })
}

/// What lies outside the reported instructions and parts.
pub fn conserved(d: &Doc) -> Result<u64, String> {
    let s = &d.content;
    let b = s.as_bytes();
    let mut pieces = between(d)?;
    // inside an instruction: keyword, separators, continuations, comments
    for (k, i) in d.ins.iter().enumerate() {
        let w = match &i.k {
            K::Misc { .. } => 0,
            kd => kd.kind().word().len(),
        };
        let toks: &[&str] = match &i.k {
            K::From { .. } => &["--", "=", "as", "AS", "As", "aS"],
            K::Copy { .. } => &["--", "="],
            K::Arg { .. } | K::Label(_) | K::Env(_) => &["="],
            K::Run(Expr::Exec(..)) | K::Cmd(Expr::Exec(..)) | K::Entrypoint(Expr::Exec(..)) => &["[", "]", ","],
            _ => &[],
        };
        let mut leaves: Vec<(usize, usize, bool)> =
            nodes(i, k).into_iter().filter(|x| !x.role.container()).map(|x| (x.sp.0, x.sp.1, x.role.comment())).collect();
        leaves.push((i.sp.1, i.sp.1, false));
        let mut p = i.sp.0 + w;
        let mut after_comment = false;
        let mut budget: Vec<(&str, usize)> = toks.iter().map(|t| (*t, 0)).collect();
        for (a, z, com) in leaves {
            // the stretch p..a
            let st = p;
            while p < a {
                if b[p] == b' ' || b[p] == b'\t' {
                    p += 1;
                    continue;
                }
                if after_comment {
                    if let Some(e) = nl_at(b, p) {
                        p = e;
                        after_comment = false;
                        continue;
                    }
                }
                if let Some(mut e) = cont_at(b, p) {
                    // comment lines and blank lines may follow
                    loop {
                        let q = skip_blanks(b, e);
                        if q < a && b[q] == b'#' {
                            let mut c = q;
                            while c < b.len() && b[c] != b'\n' && b[c] != b'\r' {
                                c += 1
                            }
                            pieces += 1;
                            e = nl_at(b, c).unwrap_or(c);
                        } else if let Some(x) = nl_at(b, q) {
                            if q >= a {
                                break;
                            }
                            e = x;
                        } else {
                            break;
                        }
                    }
                    if e > a {
                        return Err(format!("instruction {}: a part at {:?} starts inside a comment or line end", k, (a, z)));
                    }
                    p = e;
                    after_comment = false;
                    continue;
                }
                if let Some(t) = budget.iter_mut().find(|t| s[p..].starts_with(t.0) && p + t.0.len() <= a) {
                    t.1 += 1;
                    p += t.0.len();
                    continue;
                }
                return Err(format!("instruction {}: {:?} is inside it but in none of its parts: {:?}", k, clip(&s[st..a], 200), clip(&s[i.sp.0..i.sp.1], 300)));
            }
            if z < p {
                return Err(format!("instruction {}: parts overlap at {:?}", k, (a, z)));
            }
            p = z;
            after_comment = com;
            pieces += 1;
        }
        // separators are as many as the parts call for
        let n = |t: &str| budget.iter().filter(|x| x.0.eq_ignore_ascii_case(t)).map(|x| x.1).sum::<usize>();
        let ok = match &i.k {
            K::From { flags, alias, .. } => n("--") == flags.len() && n("=") == flags.len() && n("as") == alias.is_some() as usize,
            K::Copy { flags, .. } => n("--") == flags.len() && n("=") == flags.len(),
            K::Arg { value, .. } => n("=") == value.is_some() as usize,
            K::Label(v) => n("=") == v.len() || (v.len() == 1 && n("=") == 0),
            K::Env(v) => n("=") == v.len() || (v.len() == 1 && n("=") == 0),
            K::Run(Expr::Exec(_, v)) | K::Cmd(Expr::Exec(_, v)) | K::Entrypoint(Expr::Exec(_, v)) => {
                n("[") == 1 && n("]") == 1 && (n(",") + 1 == v.len() || n(",") == v.len())
            }
            _ => true,
        };
        if !ok {
            return Err(format!("instruction {}: its separators do not match its parts: {:?}", k, clip(&s[i.sp.0..i.sp.1], 300)));
        }
    }
    Ok(pieces)
}

fn outline(d: &Doc) -> Vec<(usize, Kind, String)> {
    d.ins
        .iter()
        .map(|i| {
            let w = if let K::Misc { ins, .. } = &i.k { ins.s.clone() } else { String::new() };
            (i.sp.0, i.k.kind(), w)
        })
        .collect()
}

fn c04_judge(cx: &mut Cx, s: &str, want: Option<&Doc>) {
    cx.note(s);
    let r = match real::parse(s) {
        Err(e) => {
            if want.map_or(false, |w| !w.ins.is_empty()) {
                cx.bad(s, format!("a well-formed document was rejected: {}", clip_err(&e)));
            }
            return;
        }
        Ok(r) => r,
    };
    let d = real::snap(&r);
    if !d.ins.is_empty() {
        cx.seen(s);
    }
    cx.ev("documents checked", 1);
    cx.ev("instructions accounted for", d.ins.len() as u64);
    if let Some(w) = want {
        if let Some(m) = diff(&outline(w), &outline(&d)) {
            cx.bad(s, format!("instructions (start, kind, word) differ: {}", m));
            return;
        }
    }
    // raw line ends in quoted strings make "its line" ambiguous, nothing else
    if structure(&d).is_ok() {
        match conserved(&d) {
            Ok(n) => cx.ev("stretches of text accounted for", n),
            Err(m) => cx.bad(s, m),
        }
    } else if sane(&d) {
        // parts that cannot be trusted are no reason to lose text between the instructions
        if let Err(m) = between(&d) {
            cx.bad(s, m)
        }
    }
}

fn c04_gen(cx: &mut Cx) {
    let (_, d) = gen_doc(cx, None);
    c04_judge(cx, &d.content, Some(&d))
}

fn c04_text(cx: &mut Cx, s: &str) {
    let o = spec::parse(s);
    match (o.exotic, o.res) {
        (None, Ok(d)) => c04_judge(cx, s, Some(&d)),
        _ => c04_judge(cx, s, None),
    }
}

// ---------------------------------------------------------------------------
// C22

pub fn rel_one(cx: &mut Cx, r: &dp::Dockerfile, s: &str, a: usize, z: usize) -> bool {
    let b = s.as_bytes();
    let line = b[..a].iter().filter(|c| **c == b'\n').count();
    let start = b[..a].iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
    let (l, rel) = real::t(|| dp::Span::new(a, z).relative_span(r));
    if l != line || rel.start != a - start || rel.end != a - start + (z - a) {
        cx.bad(
            s,
            format!("the span {:?} is at line {} columns {}..{}, reported as line {} columns {}..{}", (a, z), line, a - start, z - start, l, rel.start, rel.end),
        );
        return false;
    }
    let lt = s.split('\n').nth(line).unwrap_or("");
    if !b[a..z].contains(&b'\n') && lt.as_bytes().get(rel.start..rel.end) != Some(&b[a..z]) {
        cx.bad(s, format!("line {} columns {:?} does not select the text of {:?}", l, rel, (a, z)));
        return false;
    }
    cx.ev("spans located", 1);
    if line > 0 {
        cx.ev("spans located beyond the first line", 1);
    }
    true
}

fn c22(cx: &mut Cx, s: &str) {
    cx.note(s);
    let Ok(r) = real::parse(s) else { return };
    let d = real::snap(&r);
    cx.seen(s);
    let mut sps: Vec<Sp> = d.ins.iter().enumerate().flat_map(|(k, i)| nodes(i, k).into_iter().map(|n| n.sp)).collect();
    sps.retain(|x| x.0 <= x.1 && x.1 <= s.len());
    if sps.len() > 60 {
        cx.r.shuffle(&mut sps);
        sps.truncate(60);
    }
    for _ in 0..12 {
        let a = cx.r.below(s.len() + 1);
        let z = a + cx.r.below(s.len() - a + 1);
        sps.push((a, z));
    }
    sps.push((0, 0));
    sps.push((s.len(), s.len()));
    sps.push((0, s.len()));
    for (a, z) in sps {
        if !rel_one(cx, &r, s, a, z) {
            return;
        }
    }
}

pub fn get(id: &str) -> Option<Prop> {
    let small: &'static [&'static str] = &["FROM a", "RUN ", "LABEL ", "ENV a", "COPY a", "CMD [", "USER", "ARG a", ""];
    let n4 = small_total(small.len(), 13, 4);
    Some(match id {
        "C02" => Prop {
            id: "C02",
            rule: "every accepted text among generated, mutated, random and exhaustive short ones; non-trivial: it has an instruction, distinct by text",
            need: &["documents checked", "spans checked"],
            assumptions: &[],
            fams: vec![
                fam("generated", 120_000, 5_000_000, |cx| {
                    let (_, d) = gen_doc(cx, None);
                    c02_text(cx, &d.content)
                }),
                fam("generated-exact", 120_000, 5_000_000, |cx| judge_gen(cx, None, all, no_extra)),
                fam("hostile", 250_000, 15_000_000, |cx| {
                    let s = hostile_doc(cx, None);
                    c02_text(cx, &s)
                }),
                fam("big", 1_500, 60_000, |cx| {
                    let d = big_doc(cx, None);
                    c02_text(cx, &d.content)
                }),
                fam("exhaustive-4", n4, n4, move |cx| {
                    if let Some(s) = small_doc(cx, small, &hostile::ALPHA, 4) {
                        c02_text(cx, &s)
                    }
                }),
            ],
        },
        "C03" => Prop {
            id: "C03",
            rule: "every accepted text among generated, mutated, random and exhaustive short ones; each value is compared with the text under its span and each instruction is parsed again on its own; non-trivial: it has an instruction, distinct by text",
            need: &["documents checked", "verbatim values compared with their text", "quoted values decoded from their text", "instructions parsed again on their own"],
            assumptions: &[],
            fams: vec![
                fam("generated", 70_000, 3_000_000, |cx| {
                    let (_, d) = gen_doc(cx, None);
                    c03_text(cx, &d.content)
                }),
                fam("generated-exact", 100_000, 4_000_000, |cx| judge_gen(cx, None, all, no_extra)),
                fam("hostile", 150_000, 10_000_000, |cx| {
                    let s = hostile_doc(cx, None);
                    c03_text(cx, &s)
                }),
                fam("big", 800, 40_000, |cx| {
                    let d = big_doc(cx, None);
                    c03_text(cx, &d.content)
                }),
                fam("exhaustive-4", n4, n4, move |cx| {
                    if let Some(s) = small_doc(cx, small, &hostile::ALPHA, 4) {
                        c03_text(cx, &s)
                    }
                }),
            ],
        },
        "C04" => Prop {
            id: "C04",
            rule: "generated documents with known instructions, mutated and random texts judged by the reference parser, exhaustive short tails after several instructions; every byte outside reported parts is accounted for; non-trivial: it has an instruction, distinct by text",
            need: &["documents checked", "instructions accounted for", "stretches of text accounted for"],
            assumptions: &[],
            fams: vec![
                fam("generated", 200_000, 6_000_000, c04_gen),
                fam("hostile", 250_000, 12_000_000, |cx| {
                    let s = hostile_doc(cx, None);
                    c04_text(cx, &s)
                }),
                fam("big", 1_500, 60_000, |cx| {
                    let d = big_doc(cx, None);
                    c04_judge(cx, &d.content, Some(&d))
                }),
                fam("exhaustive-4", n4, n4, move |cx| {
                    if let Some(s) = small_doc(cx, small, &hostile::ALPHA, 4) {
                        c04_text(cx, &format!("{}\nFROM x", s))
                    }
                }),
                // whole small documents over line ends, continuations and comments
                fam("exhaustive-lines", small_total(5, 8, 6), small_total(5, 8, 8), |cx| {
                    let al = ["a", " ", "\n", "\\", "#", "RUN ", "FROM ", "\r"];
                    let len = if cx.thorough { 8 } else { 6 };
                    if let Some(s) = small_doc(cx, &["RUN ", "", "ENV a ", "COPY a ", "USER x"], &al, len) {
                        c04_text(cx, &s)
                    }
                }),
            ],
        },
        "C22" => Prop {
            id: "C22",
            rule: "all spans of generated, hostile and large accepted documents, plus random in-bounds spans, the empty span at the end and the whole document; non-trivial: the document was accepted, distinct by text",
            need: &["spans located beyond the first line"],
            assumptions: &[],
            fams: vec![
                fam("generated", 60_000, 3_000_000, |cx| {
                    let (_, d) = gen_doc(cx, None);
                    c22(cx, &d.content)
                }),
                fam("hostile", 80_000, 5_000_000, |cx| {
                    let s = hostile_doc(cx, None);
                    c22(cx, &s)
                }),
                fam("big", 1_000, 40_000, |cx| {
                    let d = big_doc(cx, None);
                    c22(cx, &d.content)
                }),
                fam("trivia", 40_000, 2_000_000, |cx| {
                    // comment-only documents: any text can be made one
                    let mut g = cx.g();
                    let mut o = String::new();
                    for _ in 0..g.count(1, 60) {
                        if g.r.coin() {
                            o.push('#');
                            o.push_str(&g.text(Class::Line));
                        }
                        o.push_str(*g.r.pick(&["\n", "\n", "\n", "\r\n", "\r", "\n\n"]));
                    }
                    if g.r.coin() {
                        o.push_str("FROM x");
                    }
                    c22(cx, &o)
                }),
            ],
        },
        _ => return None,
    })
}
