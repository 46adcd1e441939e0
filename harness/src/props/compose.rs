//! C05, C06 and C29: relations between the results for related documents.

use super::*;
use dfcore::rec::clip;

fn same_err(e: &dp::Error) -> String {
    clip_err(e)
}

// ---------------------------------------------------------------------------
// C29

/// May anything follow this accepted text? Not if its end continues a line.
fn closed(s: &str, d: &Doc) -> bool {
    let t = s.trim_end_matches([' ', '\t']);
    if t.ends_with('\\') {
        return false;
    }
    // a continuation before trailing blank or comment lines
    d.ins.last().is_none_or(ends_complete)
}

/// Is the end of the instruction not a comment line inside it?
fn ends_complete(i: &Ins) -> bool {
    let b = match &i.k {
        K::Run(Expr::Shell(b)) | K::Cmd(Expr::Shell(b)) | K::Entrypoint(Expr::Shell(b)) | K::Misc { args: b, .. } => Some(b),
        K::Env(v) => v.last().map(|v| &v.2),
        _ => None,
    };
    !b.is_some_and(|b| matches!(b.comps.last(), Some(Comp::C(_))))
}

fn joined(parts: &[(String, Doc)], eols: &[&str]) -> (String, Vec<Ins>, Vec<Ins>) {
    let mut o = String::new();
    let mut ins = vec![];
    let mut globals = vec![];
    let mut froms = 0;
    for (k, (s, d)) in parts.iter().enumerate() {
        let at = o.len() as isize;
        if froms == 0 {
            globals.extend(d.globals.iter().map(|i| canon(&shift(i, at))));
        }
        let base = froms;
        for i in &d.ins {
            let mut j = canon(&shift(i, at));
            if let K::From { index, .. } = &mut j.k {
                *index += base;
                froms += 1;
            }
            ins.push(j);
        }
        o.push_str(s);
        if k + 1 < parts.len() {
            o.push_str(eols[k]);
        }
    }
    (o, ins, globals)
}

fn c29_parts(cx: &mut Cx, texts: Vec<String>) {
    let mut parts = vec![];
    let n = texts.len();
    for (k, s) in texts.into_iter().enumerate() {
        cx.note(&s);
        let o = spec::parse(&s);
        if o.exotic.is_some() {
            cx.ev("documents outside certain ground", 1);
            return;
        }
        // what follows could turn the shell text into an array
        let open = k + 1 < n && o.open_array;
        let Ok(d) = real::parse(&s) else {
            cx.ev("rejected documents", 1);
            return;
        };
        let d = real::snap(&d);
        if open || k + 1 < n && !closed(&s, &d) {
            return;
        }
        parts.push((s, d));
    }
    let eols: Vec<&str> = (0..n).map(|_| *cx.r.pick(&["\n", "\n", "\r\n", "\n\n"])).collect();
    let (s, want, globals) = joined(&parts, &eols);
    let from1 = parts[0].1.ins.iter().any(|i| matches!(i.k, K::From { .. }));
    cx.ev("concatenations", 1);
    cx.ev(if from1 { "with a FROM in the first" } else { "without a FROM in the first" }, 1);
    if want.len() > 1 {
        cx.seen(&s);
    }
    match real::parse(&s) {
        Err(e) => cx.bad(&s, format!("{} accepted documents joined are rejected: {}", n, same_err(&e))),
        Ok(r) => {
            let g = real::snap(&r);
            if let Some(m) = diff(&want, &canon_all(&g.ins)) {
                cx.bad(&s, format!("joining {} documents changes an instruction: {}", n, m));
            }
            if let Some(m) = diff(&globals, &canon_all(&g.globals)) {
                cx.bad(&s, format!("joining {} documents changes the global arguments: {}", n, m));
            }
        }
    }
}

fn small_part(cx: &mut Cx) -> String {
    let mut g = cx.g();
    g.cap = 4;
    match g.r.below(8) {
        0 => String::new(),
        1 => {
            let mut o = String::new();
            for _ in 0..g.r.below(4) {
                if g.r.coin() {
                    o.push_str(&g.comment());
                }
                o.push('\n');
            }
            if g.r.coin() {
                o.push_str(&g.comment());
            }
            o
        }
        2 => hostile_doc(cx, None),
        _ => {
            let n = g.r.heavy(1, 5);
            let gis = if g.r.coin() {
                let kinds = [Kind::Arg, Kind::Misc, Kind::Run, Kind::Label, Kind::Env, Kind::From];
                (0..n)
                    .map(|_| {
                        let k = *g.r.pick(&kinds);
                        g.ins(k)
                    })
                    .collect()
            } else {
                g.doc(n)
            };
            let f = Fmt::random(&mut cx.r);
            render(&gis, &mut cx.r, &f).content
        }
    }
}

fn c29(cx: &mut Cx) {
    let n = *cx.r.pick(&[2usize, 2, 2, 3, 6]);
    let texts = (0..n).map(|_| small_part(cx)).collect();
    c29_parts(cx, texts)
}

/// many documents, few different ones
fn c29_many(cx: &mut Cx) {
    let few: Vec<String> = (0..cx.r.range(1, 4))
        .map(|k| if k == 0 && cx.r.coin() { format!("FROM {}", cx.g().image()) } else { small_part(cx) })
        .collect();
    let n = *cx.r.pick(&[12usize, 40, 80, 160, 320]);
    let texts: Vec<String> = (0..n).map(|_| cx.r.pick(&few).clone()).collect();
    if texts.iter().map(|t| t.len()).sum::<usize>() > 60_000 {
        return;
    }
    c29_parts(cx, texts)
}

// ---------------------------------------------------------------------------
// C05

fn blanks(r: &mut dfcore::rng::Rng, lo: usize, hi: usize) -> String {
    (0..r.range(lo, hi)).map(|_| if r.chance(1, 4) { '\t' } else { ' ' }).collect()
}

struct Inert {
    trivia: usize,
    indent: usize,
    trail: usize,
    case: usize,
    crlf: bool,
    last: bool,
}

fn trivia(o: &mut String, r: &mut dfcore::rng::Rng, t: &Inert) {
    while r.below(100) < t.trivia {
        if r.coin() {
            o.push_str(&blanks(r, 0, 4));
        }
        if r.chance(2, 3) {
            o.push_str(*r.pick(&[
                "#", "# c", "# FROM x", "#\\", "# ends \\", "# \"", "#'", "## é中😀", "#\t", "#RUN y", "# [\"a\"", "# \\ ", "# syntax=docker/dockerfile:1",
                "# escape=`", "# a=b \\", "#!shebang",
            ]));
        }
        o.push('\n');
    }
}

fn recase(s: &str, r: &mut dfcore::rng::Rng) -> String {
    let m = r.below(3);
    s.chars()
        .map(|c| match m {
            0 => c.to_ascii_lowercase(),
            1 => c.to_ascii_uppercase(),
            _ if r.coin() => c.to_ascii_lowercase(),
            _ => c.to_ascii_uppercase(),
        })
        .collect()
}

/// Writes the document of the given instructions again, with other trivia.
fn rewrite(d: &Doc, r: &mut dfcore::rng::Rng, t: &Inert) -> String {
    let mut o = String::new();
    for (k, i) in d.ins.iter().enumerate() {
        let i = canon(i);
        trivia(&mut o, r, t);
        if r.below(100) < t.indent {
            o.push_str(&blanks(r, 1, 5));
        }
        let mut text = d.content[i.sp.0..i.sp.1].to_string();
        let kw = match &i.k {
            // the word of an unknown instruction is reported as written
            K::Misc { .. } => 0,
            k => k.kind().word().len(),
        };
        if r.below(100) < t.case {
            if let K::From { image, alias: Some(a), .. } = &i.k {
                // AS stands between the image and the alias, comments aside
                let (x, y) = (image.sp.1 - i.sp.0, a.sp.0 - i.sp.0);
                let gap = text[x..y].to_string();
                let mut p = 0;
                while p < gap.len() {
                    let l = gap[p..].find('\n').map_or(gap.len(), |q| p + q + 1);
                    let line = &gap[p..l];
                    if !line.trim_start_matches([' ', '\t']).starts_with('#') {
                        if let Some(q) = line.to_ascii_lowercase().find("as") {
                            let w = recase(&line[q..q + 2], r);
                            text.replace_range(x + p + q..x + p + q + 2, &w);
                            break;
                        }
                    }
                    p = l;
                }
            }
            let w = recase(&text[..kw], r);
            text.replace_range(..kw, &w);
        }
        o.push_str(&text);
        let shellish = match &i.k {
            K::Misc { .. } => true,
            K::Env(v) => v.len() == 1 && d.content[v[0].1.sp.1..v[0].2.sp.0] != *"=" && !d.content[v[0].2.sp.0..].starts_with(['"', '\'']),
            k => matches!(k.expr(), Some(Expr::Shell(_))),
        };
        if !shellish && r.below(100) < t.trail {
            o.push_str(&blanks(r, 1, 4));
        }
        if k + 1 < d.ins.len() || t.last {
            o.push('\n');
        }
    }
    if t.last || d.ins.is_empty() {
        trivia(&mut o, r, t);
        if r.below(100) < t.trivia {
            o.push_str("# the end");
        }
    }
    if t.crlf {
        o = o.replace('\n', "\r\n");
    }
    o
}

fn inert(r: &mut dfcore::rng::Rng) -> Inert {
    let mut p = || *r.pick(&[0usize, 0, 20, 50, 80]);
    Inert { trivia: p(), indent: p(), trail: p(), case: p(), crlf: r.chance(1, 3), last: r.coin() }
}

fn c05_pair(cx: &mut Cx, base: &str, ins: &[Ins], globals: &[Ins], s: &str) {
    cx.ev("rewritten documents compared", 1);
    cx.seen(s);
    match real::parse(s) {
        Err(e) => cx.bad(s, format!("the document {:?} is accepted, but this rewriting of it is rejected: {}", clip(base, 600), same_err(&e))),
        Ok(r) => {
            let g = real::snap(&r);
            if let Some(m) = diff(ins, &unspan_all(&g.ins)) {
                cx.bad(s, format!("rewriting {:?} changes what is parsed: {}", clip(base, 600), m));
            }
            if let Some(m) = diff(globals, &unspan_all(&g.globals)) {
                cx.bad(s, format!("rewriting {:?} changes the global arguments: {}", clip(base, 600), m));
            }
        }
    }
}

/// `d` says where the instructions of the accepted text are
fn c05_doc(cx: &mut Cx, d: &Doc) {
    let s = &d.content;
    cx.note(s);
    let Ok(r) = real::parse(s) else {
        cx.ev("rejected documents", 1);
        return;
    };
    let r = real::snap(&r);
    let (ins, globals) = (unspan_all(&r.ins), unspan_all(&r.globals));
    for _ in 0..2 {
        let t = inert(&mut cx.r);
        let mut rr = cx.g().r;
        let x = rewrite(d, &mut rr, &t);
        if t.crlf {
            cx.ev("rewritten with CRLF line ends", 1);
        }
        if cx.verbose {
            eprintln!("rewritten: {:?}", x);
        }
        c05_pair(cx, s, &ins, &globals, &x);
    }
}

fn quiet_doc(cx: &mut Cx) -> Doc {
    let mut g = cx.g();
    g.cap = 5;
    let n = g.count(1, 12);
    let gis = g.doc(n);
    let mut f = Fmt::random(&mut cx.r);
    f.eol = Eol::Lf;
    f.raw_nl = false;
    let d = render(&gis, &mut cx.r, &f);
    if agree(cx, &d) {
        d
    } else {
        quiet_doc(cx)
    }
}

fn has_raw_line_end(d: &Doc) -> bool {
    // a line end in the source of a value that no continuation escapes
    d.ins.iter().enumerate().any(|(k, i)| {
        nodes(i, k).iter().any(|n| {
            !n.role.container() && {
                let b = d.content.as_bytes();
                let mut p = n.sp.0;
                let mut found = false;
                while p < n.sp.1 {
                    if let Some(e) = spec::cont_at(b, p) {
                        p = e;
                        continue;
                    }
                    if b[p] == b'\n' || b[p] == b'\r' {
                        found = true;
                        break;
                    }
                    p += 1;
                }
                found
            }
        })
    })
}

fn c05_hostile(cx: &mut Cx) {
    let s = hostile_doc(cx, None);
    let s = s.replace('\r', "");
    c05_text(cx, &s)
}

fn c05_text(cx: &mut Cx, s: &str) {
    cx.note(s);
    let o = spec::parse(s);
    let accepted = real::parse(s);
    // edits that need no knowledge of the instructions
    if o.exotic.is_none() {
        let end = s.trim_end_matches([' ', '\t']);
        let mut vs = vec![
            (format!("# c\n{}", s), "a comment line before"),
            (format!("  \n\n\t# FROM \\\n{}", s), "blank and comment lines before"),
            (format!("\t {}", s), "indentation"),
        ];
        let open = match &accepted {
            Ok(d) => !closed(s, &real::snap(d)),
            Err(_) => s.contains("\\"),
        };
        if !end.ends_with('\\') && !open {
            vs.push((format!("{}\n", s), "a final line end"));
            vs.push((format!("{}\n\n# c", s), "a comment line after"));
        }
        for (v, what) in vs {
            let r = real::parse(&v);
            cx.ev("edits of any text compared", 1);
            match (&accepted, &r) {
                (Ok(a), Ok(b)) => {
                    let (a, b) = (real::snap(a), real::snap(b));
                    if let Some(m) = diff(&unspan_all(&a.ins), &unspan_all(&b.ins)).or(diff(&unspan_all(&a.globals), &unspan_all(&b.globals))) {
                        cx.bad(s, format!("{} changes what is parsed: {}", what, m));
                    }
                }
                (Err(_), Err(_)) => {}
                (Ok(_), Err(e)) => cx.bad(s, format!("{} makes the document unacceptable: {}", what, same_err(e))),
                (Err(_), Ok(_)) => cx.bad(s, format!("{} makes the document acceptable", what)),
            }
        }
    }
    if let (None, Ok(d), Ok(_)) = (o.exotic, &o.res, &accepted) {
        if closed(s, d) && d.ins.iter().all(ends_complete) && !has_raw_line_end(d) && !s.contains('\r') {
            c05_doc(cx, d)
        }
    }
}

// ---------------------------------------------------------------------------
// C06

fn meanings(d: &Doc) -> Vec<Ins> {
    d.ins.iter().map(meaning).collect()
}

fn c06_compare(cx: &mut Cx, a: &str, b: &str) {
    cx.note(a);
    cx.note(b);
    cx.ev("continued documents compared", 1);
    cx.seen(b);
    match (real::parse(a), real::parse(b)) {
        (Ok(x), Ok(y)) => {
            if let Some(m) = diff(&meanings(&real::snap(&x)), &meanings(&real::snap(&y))) {
                cx.bad(b, format!("means something else than {:?}: {}", clip(a, 600), m));
            }
        }
        (Err(_), Err(_)) => cx.ev("both rejected", 1),
        (Ok(_), Err(e)) => cx.bad(b, format!("is rejected ({}) although {:?} is accepted", same_err(&e), clip(a, 600))),
        (Err(e), Ok(_)) => cx.bad(b, format!("is accepted although {:?} is rejected ({})", clip(a, 600), same_err(&e))),
    }
}

fn c06_gen(cx: &mut Cx) {
    let mut g = cx.g();
    g.cap = 6;
    let n = g.count(1, 6);
    let gis: Vec<GI> = (0..n)
        .map(|_| {
            let k = g.any_kind();
            g.ins(k)
        })
        .collect();
    let mut f = Fmt::plain();
    f.escape = 0;
    // the plain rendering joins all pieces of shell text
    let flat: Vec<GI> = gis.iter().map(|i| resplit(i, &mut cx.r, 0)).collect();
    let p = render(&flat, &mut cx.r, &f);
    if !agree(cx, &p) {
        return;
    }
    let p = p.content;
    for _ in 0..2 {
        let mut f = Fmt::random(&mut cx.r);
        f.escape = 0;
        f.raw_nl = false;
        f.kwcase = 0;
        f.indent = 0;
        f.trail = 0;
        f.trivia = 0;
        f.cont = *cx.r.pick(&[20usize, 60, 100]);
        f.qbreak = *cx.r.pick(&[0usize, 2, 20]);
        if f.eol == Eol::Cr {
            f.eol = Eol::Crlf;
        }
        let cut = *cx.r.pick(&[0usize, 3, 20]);
        let split: Vec<GI> = flat.iter().map(|i| resplit(i, &mut cx.r, cut)).collect();
        let mut x = Render::new(&mut cx.r, f);
        x.doc(&split);
        let (c, m, b) = (x.conts as u64, x.comments as u64, x.breaks as u64);
        let t = x.finish();
        if !agree(cx, &t) {
            continue;
        }
        let t = t.content;
        cx.ev("continuations written", c);
        cx.ev("comments between pieces written", m);
        cx.ev("breaks inside quoted strings written", b);
        c06_compare(cx, &p, &t);
        if cx.failed() {
            return;
        }
    }
}

/// lists of words after a keyword, well formed or not: the same lists with
/// their gaps continued must be accepted alike
fn c06_words(cx: &mut Cx) {
    let mut g = cx.g();
    let kw = *g.r.pick(&["FROM", "ARG", "COPY", "LABEL", "ENV", "CMD", "from", "Copy"]);
    let n = g.r.heavy(1, 6);
    let words: Vec<String> = (0..n)
        .map(|_| match g.r.below(7) {
            0 => format!("--{}={}", g.text(Class::Alpha), plain_tok(&mut g)),
            1 => g.r.pick(&["as", "AS", "--", "--x", "=", "a=", "=a", "a=b=c", "--x=", "a:b@c"]).to_string(),
            2 | 3 => format!("{}={}", plain_tok(&mut g), plain_tok(&mut g)),
            4 => format!("{}=\"{}\"", plain_tok(&mut g), plain_tok(&mut g)),
            5 => format!("\"{}\"", plain_tok(&mut g)),
            _ => plain_tok(&mut g),
        })
        .collect();
    let a = format!("{} {}\n", kw, words.join(" "));
    let mut b = kw.to_string();
    for w in &words {
        match g.r.below(5) {
            0 => b.push(' '),
            1 => b.push_str(" \\\n"),
            2 => b.push_str(" \\\n# c\n"),
            3 => b.push_str(" \\ \r\n"),
            _ => b.push_str("\\\n "),
        }
        b.push_str(w);
    }
    b.push('\n');
    cx.note(&a);
    cx.note(&b);
    let kinds = |s: &str| real::parse(s).ok().map(|d| d.instructions.iter().map(|i| real::ins(i).k.kind()).collect::<Vec<_>>());
    let (x, y) = (kinds(&a), kinds(&b));
    cx.ev("word lists compared", 1);
    cx.seen(&b);
    if spec::parse(&a).exotic.is_some() || spec::parse(&b).exotic.is_some() {
        return;
    }
    if x != y {
        cx.bad(&b, format!("is parsed as {:?}, but on one line ({:?}) as {:?}", y, a, x));
    }
}

fn plain_tok(g: &mut G) -> String {
    let t = g.text(Class::Token);
    let t: String = t.chars().filter(|c| c.is_ascii_alphanumeric() || "_-.:/${}".contains(*c)).collect();
    let t = t.trim_start_matches('-').to_string();
    if t.is_empty() { "w".into() } else { t }
}

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C05" => Prop {
            id: "C05",
            rule: "accepted generated and hostile documents written again from their instructions with other comment lines, blank lines, indentation, trailing blanks, keyword case, line ends and final line end; and simple edits (lines before and after, indentation) of any text, which must not change acceptance; non-trivial: every rewriting, distinct by text",
            need: &["rewritten documents compared", "rewritten with CRLF line ends", "edits of any text compared"],
            assumptions: &[],
            fams: vec![
                fam("generated", 100_000, 4_000_000, |cx| {
                    let d = quiet_doc(cx);
                    c05_doc(cx, &d)
                }),
                fam("hostile", 120_000, 6_000_000, c05_hostile),
                fam("exhaustive-3", small_total(10, 13, 3), small_total(10, 13, 4), |cx| {
                    let len = if cx.thorough { 4 } else { 3 };
                    let kw = ["FROM a", "RUN ", "LABEL a=", "ENV a", "COPY a ", "CMD [", "USER", "ARG a", "", "from a a"];
                    if let Some(s) = small_doc(cx, &kw, &hostile::ALPHA, len) {
                        c05_text(cx, &s)
                    }
                }),
            ],
        },
        "C06" => Prop {
            id: "C06",
            rule: "instructions of every kind rendered on one line and again with continuations (with and without blanks, comments and blank lines) between arguments, inside quoted strings and inside shell text, under LF and CRLF; lists of words, well formed or not, with plain and continued gaps; non-trivial: every continued rendering, distinct by text",
            need: &["continued documents compared", "continuations written", "comments between pieces written", "breaks inside quoted strings written", "word lists compared"],
            assumptions: &[],
            fams: vec![fam("generated", 150_000, 6_000_000, c06_gen), fam("word-lists", 150_000, 6_000_000, c06_words)],
        },
        "C29" => Prop {
            id: "C29",
            rule: "2 to 6 accepted texts (empty, comment-only, generated, hostile) joined by LF, CRLF or a blank line, and all pairs of short texts; non-trivial: at least two instructions in all, distinct by text",
            need: &["concatenations", "with a FROM in the first", "without a FROM in the first"],
            assumptions: &[],
            fams: vec![
                fam("generated", 150_000, 6_000_000, c29),
                fam("many", 4_000, 100_000, c29_many),
                fam("pairs", 40 * 40, 40 * 40, |cx| {
                    const T: [&str; 40] = [
                        "", "\n", "#", "# c\n", " ", "\r\n", "FROM a", "FROM a\n", "FROM a AS b", "FROM a@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef",
                        "ARG a", "ARG a=b", "ARG a=\"b\"", "ARG a='b' ", "RUN x", "RUN x ", "RUN [\"a\"]", "RUN [] ", "RUN [x]", "RUN x \\\n y", "RUN x \\\n# c\ny", "CMD [\"a\",]",
                        "CMD a", "ENTRYPOINT b", "ENTRYPOINT [\"b\"]\t", "COPY a b", "COPY --from=a b c ", "COPY a \\\n b", "ENV a=b", "ENV a=b c=\"d\" ", "ENV a b", "ENV a \"b\"",
                        "LABEL a=b", "LABEL a=b c=d ", "LABEL a b", "LABEL \"a\" 'b' ", "USER x", "x y \\\nz", "FROM a AS b\nFROM b\nARG c", "ARG x\nUSER y\nARG z\nFROM a\nARG w\n",
                    ];
                    let t = vec![T[(cx.idx % 40) as usize].to_string(), T[(cx.idx / 40) as usize].to_string()];
                    c29_parts(cx, t)
                }),
            ],
        },
        _ => return None,
    })
}
