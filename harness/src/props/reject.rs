//! C25: what is not well formed is rejected, and the error can be shown.

use super::*;
use dfcore::rec::clip;
use std::error::Error as _;

/// What an error says must be presentable and about this document.
fn judge_error(cx: &mut Cx, s: &str, e: &dp::Error) {
    let shown = real::t(|| {
        let _ = (format!("{:?}", e), format!("{:#?}", e), e.source().map(|x| x.to_string()));
        e.to_string()
    });
    if shown.trim().is_empty() {
        cx.bad(s, "the error shows no text".into());
    }
    match e {
        dp::Error::ParseError { source } => {
            use pest::error::{InputLocation, LineColLocation};
            let ps = match source.location {
                InputLocation::Pos(p) => vec![p],
                InputLocation::Span((a, z)) => vec![a, z],
            };
            let lc = match source.line_col {
                LineColLocation::Pos(p) => vec![p],
                LineColLocation::Span(a, z) => vec![a, z],
            };
            cx.ev("syntax errors with their position judged", 1);
            for p in &ps {
                if *p > s.len() || !s.is_char_boundary(*p) {
                    cx.bad(s, format!("the error is at byte {} of a document of {} bytes", p, s.len()));
                    return;
                }
            }
            // the line and column are those of the position
            let (line, col) = lc[0];
            let before = &s[..ps[0]];
            let want = before.matches('\n').count() + 1;
            if line != want {
                cx.bad(s, format!("the error at byte {} is said to be on line {}, but that is line {}", ps[0], line, want));
            }
            let c = before[before.rfind('\n').map_or(0, |k| k + 1)..].chars().count() + 1;
            if col != c {
                cx.bad(s, format!("the error at byte {} is said to be in column {}, but that is column {}", ps[0], col, c));
            }
            if !shown.contains(&line.to_string()) {
                cx.bad(s, format!("the error on line {} is shown without it: {:?}", line, clip(&shown, 300)));
            }
        }
        dp::Error::GenericParseError { .. } => cx.ev("errors without a position judged", 1),
        dp::Error::UnescapeError { .. } => cx.ev("escape errors judged", 1),
        o => {
            let m = format!("parsing a text gives the error {:?}", o);
            cx.bad(s, m)
        }
    }
}

/// Judges any text: what the reference parser is certain to be malformed must
/// be rejected.
fn judge(cx: &mut Cx, s: &str) -> bool {
    cx.note(s);
    let o = spec::parse(s);
    let r = real::parse(s);
    if let Err(e) = &r {
        judge_error(cx, s, e);
        cx.ev("rejected texts", 1);
    }
    if o.misfit {
        // rejected, or kept as miscellaneous, and never taken for what it is not
        cx.ev("texts with a known keyword whose arguments do not match judged", 1);
        cx.seen(s);
        match (&o.res, &r) {
            (_, Err(_)) => cx.ev("misfits rejected", 1),
            (Err(why), Ok(d)) => cx.bad(
                s,
                format!("a malformed document ({}) was accepted as {}", why, clip(&format!("{:?}", real::snap(d).ins), 600)),
            ),
            (Ok(w), Ok(d)) => {
                let d = real::snap(d);
                let k = |d: &dfcore::model::Doc| d.ins.iter().map(|i| i.k.kind()).collect::<Vec<_>>();
                if k(w) != k(&d) {
                    cx.bad(
                        s,
                        format!(
                            "a known keyword whose arguments do not match its syntax was taken for that instruction: {:?} where it may only be {:?}, in {}",
                            k(&d), k(w), clip(&format!("{:?}", d.ins), 600)
                        ),
                    )
                } else {
                    cx.ev("misfits kept as miscellaneous", 1)
                }
            }
        }
        return false;
    }
    if o.exotic.is_some() {
        cx.ev("texts outside certain ground (only their errors judged)", 1);
        return false;
    }
    match o.res {
        Ok(_) => {
            cx.ev("well-formed texts", 1);
            false
        }
        Err(why) => {
            cx.ev("malformed texts judged", 1);
            cx.ev(&format!("malformed: {}", why), 1);
            cx.seen(s);
            if let Ok(d) = r {
                cx.bad(
                    s,
                    format!("a malformed document ({}) was accepted as {}", why, clip(&format!("{:?}", real::snap(&d).ins), 600)),
                );
            }
            true
        }
    }
}

fn hostile_family(cx: &mut Cx) {
    let s = hostile_doc(cx, None);
    judge(cx, &s);
}

fn small_family(cx: &mut Cx, kws: &[&str], alpha: &[&str], len: u32) {
    if let Some(s) = small_doc(cx, kws, alpha, len) {
        judge(cx, &s);
    }
}

fn sp(r: &mut dfcore::rng::Rng) -> String {
    match r.below(6) {
        0 => "\t".into(),
        1 => "   ".into(),
        2 => " \\\n".into(),
        3 => " \\\r\n  # c\r\n ".into(),
        4 => "\\\n \\\n\n ".into(),
        _ => " ".into(),
    }
}

fn kw(r: &mut dfcore::rng::Rng, w: &str) -> String {
    match r.below(3) {
        0 => w.to_ascii_lowercase(),
        1 => w.to_string(),
        _ => w.chars().map(|c| if r.coin() { c.to_ascii_lowercase() } else { c }).collect(),
    }
}

/// One line (possibly continued) which is not an instruction.
fn faulty(cx: &mut Cx) -> (String, &'static str, bool) {
    let mut g = cx.g();
    g.cap = 4;
    let r = &mut cx.r;
    let one = |g: &mut G, r: &mut dfcore::rng::Rng, k: Kind| -> String {
        let mut i = g.ins(k);
        if let GI::From { alias, .. } = &mut i {
            if r.coin() {
                *alias = None;
            }
        }
        let mut f = Fmt::random(r);
        f.trivia = 0;
        f.indent = 0;
        f.trail = 0;
        let c = render(&[i], r, &f).content;
        c.trim_matches([' ', '\t', '\n', '\r']).to_string()
    };
    let junk = g.r.pick(&["b", "x y", "\"q\"", "=", "a=b", "AS", "é", "#c", "&&", "[", "]", ",", "\\", "--from=x", "$a", "as x y", "-", "'"]).to_string();
    let name = g.name(Class::EnvKey);
    let q = *g.r.pick(&['"', '\'']);
    let (a, b, c) = (sp(r), sp(r), sp(r));
    let el = *r.pick(&["ENV", "LABEL"]);
    let ela = *r.pick(&["ENV", "LABEL", "ARG"]);
    let k13 = *r.pick(&[Kind::From, Kind::Arg, Kind::Run, Kind::Copy, Kind::Label]);
    match r.below(18) {
        0 => (format!("{}{}{}", one(&mut g, r, Kind::From), a, junk), "text after a complete FROM", false),
        1 => (format!("{}{}{}", one(&mut g, r, Kind::Arg), a, junk), "text after a complete ARG", false),
        2 => (format!("{}{}{}", one(&mut g, r, Kind::Env), a, junk), "text after a complete ENV", false),
        3 => (format!("{}{}{}", one(&mut g, r, Kind::Label), a, junk), "text after a complete LABEL", false),
        4 => {
            let img = fix_image(&g.image());
            (format!("{}{}{}{}{}{}", kw(r, "FROM"), a, img, b, kw(r, "AS"), if r.coin() { c } else { String::new() }), "FROM without alias after AS", false)
        }
        5 => {
            let (i, tail) = match r.below(5) {
                0 => (one(&mut g, r, Kind::From), " \\\n"),
                1 => (one(&mut g, r, Kind::Copy), " \\"),
                2 => (one(&mut g, r, Kind::Run), " \\\n"),
                3 => (one(&mut g, r, Kind::Arg), "\\  \r\n"),
                _ => (one(&mut g, r, Kind::Misc), " \\\t\n"),
            };
            (format!("{}{}", i, tail), "a dangling continuation", true)
        }
        6 => {
            let w = *r.pick(&["ARG", "ENV", "LABEL"]);
            let t = r.pick(&["x", "\"", "'y'", "=", "é", "\"z\"", "#"]).to_string();
            (format!("{}{}k={}v{}{}", kw(r, w), a, q, q, t), "text directly after a quoted value", false)
        }
        7 => {
            let w = *r.pick(&["ENV", "LABEL"]);
            (format!("{}{}k{}{}v{}{}", kw(r, w), a, b, q, q, r.pick(&["x", " x", "\"", " = "])), "text after a quoted value", false)
        }
        8 => {
            let e = *r.pick(&["\\q", "\\w", "\\ z", "\\#", "\\$", "\\-", "\\é", "\\N", "\\T", "\\=", "\\/", "\\ud800", "\\uDFFF", "\\ud83d\\ude00", "\\U00110000", "\\UFFFFFFFF", "\\U0000d900"]);
            let v = format!("{}{}{}{}{}", q, g.r.pick(&["", "v", "é"]), e, g.r.pick(&["", "v", "中"]), q);
            let s = match r.below(7) {
                0 => format!("ENV k={}", v),
                1 => format!("ENV k {}", v),
                2 => format!("LABEL k={}", v),
                3 => format!("LABEL {}=v", v),
                4 => format!("LABEL k{}{}", a, v),
                5 => format!("ARG k={}", v),
                _ => format!("{} [{}\"a\", {}{}]", r.pick(&["RUN", "CMD", "ENTRYPOINT"]), a, v, if r.coin() { ", 'b'" } else { "" }),
            };
            (s, "an undecodable escape", false)
        }
        9 => (format!("{}{}{}=", kw(r, ela), a, name), "a key without value", false),
        10 => (format!("{}{}k=v{}{}={}", kw(r, el), a, b, name, r.pick(&["", " x=y", " # c"])), "a later key without value", false),
        11 => (format!("{}{}k=v{}{}{}", kw(r, el), a, b, name, r.pick(&["", " x=y"])), "a later key alone", false),
        12 => (format!("{}{}", r.pick(&["\"x\"", "=", "1", "1a", "é", "-", "[", "]", "$x", "&&", "|", "_", "_x", "😀", ",", "'", "`", ".", "/bin/sh", "%", "\u{feff}FROM", "\u{a0}", "\u{2003}RUN", "\u{0}"]), r.pick(&["", " x", "=y", " a b"])), "a line that does not start with a word", false),
        13 => (one(&mut g, r, k13) + "\u{b}\n=", "a line that does not start with a word", false),
        14 => (format!("{}{}", r.pick(&["USER", "RUN", "x", "FROM", "ENV", "MAINTAINER", "COPY", "arg", "Label"]), ""), "a word without arguments", false),
        15 => (format!("FROM a@{}", g.r.pick(&["", "sha256", "sha256:", "sha256:0", "md5:0"])), "a malformed digest", false),
        16 => (format!("FROM{}x{}{}{}y{}z", a, b, kw(r, "AS"), c, sp(r)), "text after the alias", false),
        _ => (format!("{}{}k={}v{}{}k2={}w", kw(r, el), a, q, q, if r.coin() { " " } else { "" }, q), "an unclosed quoted string", false),
    }
}

fn doc_text(cx: &mut Cx, hi: usize) -> String {
    let mut g = cx.g();
    g.cap = 4;
    let n = cx.r.range(0, hi);
    if n == 0 {
        return String::new();
    }
    let gis = g.doc(n);
    let f = Fmt::random(&mut cx.r);
    let mut s = render(&gis, &mut cx.r, &f).content;
    if !s.ends_with('\n') {
        s.push('\n');
    }
    s
}

/// exactly one fault (sometimes more) among well-formed instructions
fn family_faults(cx: &mut Cx) {
    let n = *cx.r.pick(&[1usize, 1, 1, 2, 3]);
    let mut s = String::new();
    let mut whats = vec![];
    for _ in 0..n {
        s.push_str(&doc_text(cx, 4));
        let (f, what, last) = faulty(cx);
        s.push_str(&f);
        whats.push(what);
        if last {
            break;
        }
        s.push_str(*cx.r.pick(&["\n", "\n", "\r\n", "\n\n"]));
    }
    if !whats.contains(&"a dangling continuation") {
        s.push_str(&doc_text(cx, 4));
    }
    // the fault must not have been absorbed by its surroundings
    if judge(cx, &s) {
        for w in whats {
            cx.ev(&format!("fault: {}", w), 1);
        }
    } else {
        cx.ev("faults that turned out not to be certain ones", 1);
    }
}

/// one well-formed instruction, then something after it on the same line
fn family_leftover(cx: &mut Cx) {
    let mut g = cx.g();
    g.cap = 6;
    let k = *cx.r.pick(&[Kind::From, Kind::Arg, Kind::Env, Kind::Label, Kind::From, Kind::Copy, Kind::Cmd]);
    let i = g.ins(k);
    let mut f = Fmt::random(&mut cx.r);
    f.trail = 0;
    f.trivia = 0;
    let s = render(&[i], &mut cx.r, &f).content;
    let s = s.trim_end_matches([' ', '\t', '\n', '\r']).to_string();
    let mut j = String::new();
    if cx.r.chance(2, 3) {
        j.push_str(&sp(&mut cx.r));
    }
    j.push_str(&g.text(Class::Any));
    let t = if cx.r.coin() { doc_text(cx, 2) } else { String::new() };
    let nl = if cx.r.coin() { "\n" } else { "" };
    judge(cx, &format!("{}{}{}{}", s, j, nl, t));
}

/// known keywords whose arguments do not match their syntax from the start
fn family_misfits(cx: &mut Cx) {
    let n = *cx.r.pick(&[1usize, 1, 1, 2]);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&doc_text(cx, 3));
        let mut g = cx.g();
        let t = g.text(Class::Any);
        let name = g.name(Class::EnvKey);
        let r = &mut cx.r;
        let a = sp(r);
        let bad = *r.pick(&["1", "_", "-", "é", "$", "\"", "'", "=", ".", "0x", "[", "]", ",", "(", "#", "*", "&", "|", "%", "\u{a0}", "~", "--", "{", "@", "+", "\\", "9"]);
        let rest = match r.below(5) {
            0 => name,
            1 => format!("{}={}", name, r.pick(&["v", "\"v\"", "'v'", "é", "1"])),
            2 => t,
            3 => r.pick(&["a", "a b", "a=b", "a AS b", "\"a\", \"b\"]", "=b", "", "1", "a=b c=d"]).to_string(),
            _ => format!("{} {}", name, r.pick(&["v", "=", "x y", "AS z"])),
        };
        let w = *r.pick(&["ARG", "ARG", "FROM", "FROM", "ENV", "LABEL", "COPY", "COPY", "RUN", "CMD", "ENTRYPOINT"]);
        let w = kw(r, w);
        s.push_str(&match r.below(6) {
            0 => format!("{}{}--{}{}", w, a, r.pick(&["", "x", "from", "x-y=z", "1=2", "from=", "=a", "é=b", "a_b=c", "a1=b"]), rest),
            1 => format!("{}{}--{} {}", w, a, r.pick(&["", "x", "from", "x-y=z", "1=2", "from=", "=a", "é=b", "a_b=c", "a1=b", "chown=x"]), rest),
            2 => format!("{}{}{}", w, a, rest),
            _ => format!("{}{}{}{}", w, a, bad, rest),
        });
        s.push_str(*r.pick(&["\n", "\n", "\r\n", "\n\n"]));
    }
    s.push_str(&doc_text(cx, 3));
    judge(cx, &s);
}

/// syntax of other Dockerfile dialects and other files, which this one has not
fn family_foreign(cx: &mut Cx) {
    let r = &mut cx.r;
    let mark = if r.coin() { r.pick(&["EOF", "EOT", "eof", "END", "A", "SH", "x"]).to_string() } else { (0..r.range(1, 6)).map(|_| (b'A' + r.below(26) as u8) as char).collect() };
    let q = *r.pick(&["", "", "\"", "'"]);
    let dash = *r.pick(&["", "", "-", "~", "<"]);
    let word = *r.pick(&["RUN", "run", "COPY", "CMD", "ENTRYPOINT", "ADD", "SHELL", "ENV", "LABEL", "ARG"]);
    let blank = *r.pick(&["", "", " ", "\t"]);
    let line = |r: &mut dfcore::rng::Rng| r.pick(&["abc", "echo a", "RUN b", "FROM a", "a b \\", "# c", "", " x", "$a", "FROM", "\"q\"", "a=b", "{", "}", "fi", "done", "exit", "END"]).to_string();
    let mut body = vec![];
    for _ in 0..r.heavy(0, 6) {
        body.push(line(r));
    }
    let body = body.iter().map(|l| format!("{}\n", l)).collect::<String>();
    let what;
    let t = match r.below(16) {
        0..=4 => {
            what = "a here-document";
            let cmd = *r.pick(&["", "", "cat ", "cat > /f ", "sh ", "--mount=type=cache ", "a && "]);
            let dest = *r.pick(&["", "", "", " /x", " > /f", " | sh", " && b"]);
            let two = if r.chance(1, 6) { format!(" <<{}2", mark) } else { String::new() };
            let end2 = if two.is_empty() { String::new() } else { format!("{}{}2\n", body, mark) };
            format!("{} {}<<{}{}{}{}{}{}{}\n{}{}{}\n{}", word, cmd, dash, blank, q, mark, q, two, dest, body, if r.chance(1, 4) { "\t" } else { "" }, mark, end2)
        }
        5 => {
            what = "continuation by another character";
            let c = *r.pick(&["`", "^", "&&", "|", ",", "\\ x", "\\\\ \\ y", "_", "..."]);
            format!("{}# escape={}\n{} a {}\n  {}", if r.coin() { "" } else { "#" }, c, word, c, r.pick(&["b", "&& b", "-c d", "\"x\"", "b"]))
        }
        6 => {
            what = "a block";
            let (a, z) = *r.pick(&[("{", "}"), ("(", ")"), ("if x; then", "fi"), ("[", "]"), ("\"\"\"", "\"\"\""), ("|", ""), ("'''", "'''"), ("do", "done"), ("```", "```"), ("(", "EOF)")]);
            format!("{} {}\n{}{}", word, a, body, z)
        }
        7 => {
            what = "another kind of comment";
            let (a, z) = *r.pick(&[("//", ""), ("; ", ""), ("/*", "*/"), ("-- ", ""), ("<!--", "-->"), ("%", ""), ("REM", ""), ("\"", ""), ("=begin", "=end"), ("'", "")]);
            format!("{} {}{}{}", a, r.pick(&["", "c", "a comment"]), if z.is_empty() { "" } else { "\n" }, z)
        }
        8 => {
            what = "a comment after an instruction";
            format!("{}{}# {}", r.pick(&["FROM a", "FROM a AS b", "ARG a", "ARG a=b", "ENV a=b", "LABEL a=b", "ENV a=\"b\"", "ENV a \"b\"", "FROM --platform=x a"]), r.pick(&[" ", "\t", "  ", " \\\n x "]), r.pick(&["c", "a=b", "", "x"]))
        }
        9 => {
            what = "several names or images";
            r.pick(&["ARG a b", "ARG a=1 b=2", "ARG a=1 b", "ARG a, b", "FROM a b", "FROM a b c", "FROM a AS b c", "FROM a, b", "FROM a AS b AS c", "FROM a IN b", "FROM a as b, c", "FROM --platform x a b", "ARG a=\"1\" b=\"2\"", "FROM a USING b"]).to_string()
        }
        10 => {
            what = "a line of another language";
            r.pick(&["---", "key: value", "- item", "[section]", "export A=b", "#!", "@echo off", "{}", "{\"a\": 1}", "%YAML 1.2", "$ echo a", "> quote", "* b", "\u{feff}", "<a>b</a>", "A=b", "a := b", "version: '3'", "&&", "END", "EOF", "fi", ");", "\\", "\\ ", "!include x", "+ a", "a(b)", "a.b c", "apt-get update", "x86 a", "a_b c", "FROM\u{a0}a", "FROM:a", "FROM=a", "RUN:", "RUN"]).to_string()
        }
        11 => {
            what = "pairs with blanks or other separators";
            format!("{} {}{}{}", r.pick(&["ENV", "LABEL"]), r.pick(&["a=b c", "a=b, c=d", "a= b", "a=b;c =d", "a = ", "a=b c = d", "\"a\" = ", "a=b c:", "a=b =", "a=\"b\",c=d", "a='b';", "a=\"b\"+\"c\"", "a=\"b\"\"c\"", "a='b' 'c'"]), blank, r.pick(&["", "", " "]))
        }
        12 => {
            what = "a string over several lines";
            format!("{} a{}\"b\nc\"{}", r.pick(&["ENV", "LABEL", "ARG"]), r.pick(&["=", "=", " "]), r.pick(&["x", "\"", " c", " d=", "=e"]))
        }
        13 => {
            what = "JSON that is no array of strings";
            format!("{} [\"a\", {}]{}", word, r.pick(&["1", "true", "null", "[\"b\"]", "{\"a\": \"b\"}", "b", "\"c", "\"\\x\"", "\"\\/\"", "\"\\u12\""]), r.pick(&["", "\n]", "\n,"]))
        }
        14 => {
            what = "a keyword without its arguments";
            format!("{}{}{}", word, blank, r.pick(&["", "\n", "\\", "\\\n", "\\\n# c\n", "#c"]))
        }
        _ => {
            what = "a macro or include";
            r.pick(&["INCLUDE", "#include <a>\ninclude", "{{ x }}", "{% if a %}\nRUN b\n{% endif %}", "${a}", "$(a)", "`a`", ". ./a", "source", "m4_include(`a')", "<%= a %>", "@FROM a", "%FROM a", "\\FROM a", "?FROM a", "-RUN a", "+RUN a", "1. RUN a"]).to_string()
        }
    };
    let t = if r.chance(1, 5) { t.replace('\n', "\r\n") } else { t };
    let mut s = String::new();
    if cx.r.coin() {
        s.push_str(&doc_text(cx, 2));
    }
    s.push_str(&t);
    if cx.r.chance(3, 4) {
        s.push('\n');
        s.push_str(&doc_text(cx, 2));
    }
    if judge(cx, &s) {
        cx.ev(&format!("foreign: {}", what), 1);
    }
}

pub fn get(id: &str) -> Option<Prop> {
    let kws: &'static [&'static str] = &["", "FROM a", "FROM a as", "ENV a=b", "ENV a \"b\"", "LABEL a=b", "ARG a", "RUN [\"a\"", "x", "ENV a=\"", "LABEL a=", "ARG a='b'", "CMD a\\", "COPY a b\\"];
    let alpha: &'static [&'static str] = &["a", " ", "\n", "\\", "\"", "=", "#", "[", ",", "'"];
    Some(match id {
        "C25" => Prop {
            id: "C25",
            rule: "documents with one to three faults (18 kinds: leftover text, missing alias, dangling continuation, text after quoted values, undecodable escapes, keys without values, lines not starting with a word, words without arguments, malformed digests, unclosed strings) among generated instructions, well-formed instructions followed by arbitrary text, syntax of other Dockerfile dialects and file formats (here-documents, other continuation characters, blocks, other comments), token soup, mutated documents, and every short text over 10 significant characters after 14 beginnings; the reference parser decides which are certainly malformed, and these must be rejected; every error is displayed and its position compared with the document; non-trivial: certainly malformed texts, distinct by content",
            need: &[
                "malformed texts judged",
                "syntax errors with their position judged",
                "escape errors judged",
                "fault: text after a complete FROM",
                "fault: text after a complete ARG",
                "fault: text after a complete ENV",
                "fault: text after a complete LABEL",
                "fault: FROM without alias after AS",
                "fault: a dangling continuation",
                "fault: text directly after a quoted value",
                "fault: an undecodable escape",
                "fault: a key without value",
                "fault: a line that does not start with a word",
                "fault: a word without arguments",
                "texts with a known keyword whose arguments do not match judged",
                "foreign: a here-document",
                "foreign: a block",
                "foreign: several names or images",
            ],
            assumptions: &[
                "known keywords whose arguments do not match their syntax may be kept as miscellaneous instructions or rejected; not judged: LABEL and ENV without any pair, a dangling continuation after ENV or LABEL pairs, unquoted values starting with a quote, escapes no document describes",
            ],
            fams: vec![
                fam("faults", 60_000, 4_000_000, family_faults),
                fam("leftover", 60_000, 4_000_000, family_leftover),
                fam("foreign", 40_000, 2_000_000, family_foreign),
                fam("misfits", 60_000, 4_000_000, family_misfits),
                fam("hostile", 120_000, 8_000_000, hostile_family),
                fam("small4", small_total(kws.len(), 10, 4), small_total(kws.len(), 10, 4), move |cx| small_family(cx, kws, alpha, 4)),
                fam("small3", small_total(kws.len(), 13, 3), small_total(kws.len(), 13, 3), move |cx| small_family(cx, kws, &hostile::ALPHA, 3)),
                fam("small6", 0, small_total(kws.len(), 10, 6), move |cx| small_family(cx, kws, alpha, 6)),
            ],
        },
        _ => return None,
    })
}
