//! C28: quoted strings.

use super::*;
use dfcore::rec::clip;
use dfcore::spec::{decode, string_at, Dec};

const PLACES: usize = 12;

/// the document with quoted string q at place p
fn doc_at(p: usize, q: &str) -> String {
    match p {
        0 => format!("RUN [{}]", q),
        1 => format!("CMD [\"x\", {} ]", q),
        2 => format!("ENTRYPOINT [{},\"x\",]", q),
        3 => format!("ENV a={}", q),
        4 => format!("ENV x=y a={} z=\"\"", q),
        5 => format!("ENV a {}", q),
        6 => format!("LABEL a={}", q),
        7 => format!("LABEL {}=a", q),
        8 => format!("LABEL a {}", q),
        9 => format!("LABEL {} a", q),
        10 => format!("LABEL x=y {}={} z=a", q, q),
        _ => format!("ARG a={}", q),
    }
}

/// what the document reports there
fn value_at(p: usize, i: &Ins) -> Option<String> {
    match (p, &i.k) {
        (0, K::Run(Expr::Exec(_, e))) if e.len() == 1 => Some(e[0].s.clone()),
        (1, K::Cmd(Expr::Exec(_, e))) if e.len() == 2 => Some(e[1].s.clone()),
        (2, K::Entrypoint(Expr::Exec(_, e))) if e.len() == 2 => Some(e[0].s.clone()),
        (3, K::Env(v)) | (5, K::Env(v)) if v.len() == 1 => Some(v[0].2.text()),
        (4, K::Env(v)) if v.len() == 3 => Some(v[1].2.text()),
        (6, K::Label(v)) | (8, K::Label(v)) if v.len() == 1 => Some(v[0].2.s.clone()),
        (7, K::Label(v)) | (9, K::Label(v)) if v.len() == 1 => Some(v[0].1.s.clone()),
        (10, K::Label(v)) if v.len() == 3 && v[1].1.s == v[1].2.s => Some(v[1].1.s.clone()),
        (11, K::Arg { value: Some(v), .. }) => Some(v.s.clone()),
        _ => None,
    }
}

/// q must decode to `want` (or, if there is none, be rejected) at place p
fn place(cx: &mut Cx, p: usize, q: &str, want: Option<&str>) {
    let s = doc_at(p, q);
    cx.note(&s);
    match (real::parse(&s), want) {
        (Err(_), None) => cx.ev("undecodable strings rejected", 1),
        (Ok(d), None) => cx.bad(&s, format!("the undecodable string {:?} was accepted: {}", clip(q, 200), clip(&format!("{:?}", d.instructions), 300))),
        (Err(e), Some(w)) => cx.bad(&s, format!("the string {:?} for {:?} was rejected: {}", clip(q, 200), clip(w, 200), clip_err(&e))),
        (Ok(d), Some(w)) => {
            cx.ev("strings decoded", 1);
            let got = if d.instructions.len() == 1 { value_at(p, &real::ins(&d.instructions[0])) } else { None };
            if got.as_deref() != Some(w) {
                cx.bad(&s, format!("the string {:?} is reported as {:?}, expected {:?}", clip(q, 200), got.map(|g| clip(&g, 300)), clip(w, 300)));
            }
        }
    }
}

fn fmt_q(cx: &mut Cx) -> Fmt {
    let mut f = Fmt::plain();
    f.escape = *cx.r.pick(&[0usize, 10, 50, 100]);
    f.qbreak = *cx.r.pick(&[0usize, 0, 5, 40]);
    f.eol = *cx.r.pick(&[Eol::Lf, Eol::Crlf, Eol::Cr, Eol::Mixed]);
    f.raw_nl = f.eol == Eol::Lf && cx.r.coin();
    f
}

fn random(cx: &mut Cx) {
    let mut g = cx.g();
    let text = g.quoted().text;
    // several encodings of one text; every place must decode each alike
    for _ in 0..2 {
        let f = fmt_q(cx);
        let q = *cx.r.pick(&['"', '\'']);
        let mut r = cx.g().r;
        let mut x = Render::new(&mut r, f);
        x.encode(&text, q);
        let o = x.o;
        if !matches!(decode(&o), Dec::Ok(ref t) if *t == text) || string_at(o.as_bytes(), 0) != Some(o.len()) {
            if let Dec::Odd(_) = decode(&o) {
                continue;
            }
            panic!("encoder and decoder disagree on {:?}", o);
        }
        cx.seen(&o);
        for p in 0..PLACES {
            place(cx, p, &o, Some(&text));
        }
    }
}

/// an escape that names no character
fn undecodable(g: &mut G) -> String {
    match g.r.below(5) {
        0 => format!("\\u{}{}", g.r.pick(&["d", "D"]), {
            let k = g.r.below(8);
            let h = g.hex(2);
            format!("{}{}", ["8", "9", "a", "b", "c", "d", "e", "f"][k], h)
        }),
        1 => {
            let hi = g.r.range(0x11, 0xffff);
            let lo = g.r.below(0x10000);
            format!("\\U{:04x}{:04X}", hi, lo)
        }
        2 => format!("\\U0000d{}{}", g.r.pick(&["8", "9", "a", "B", "f"]), g.hex(2)),
        3 => {
            let c = *g.r.pick(&['é', '中', 'ß', 'Ω', 'ж']);
            format!("\\{}", c)
        }
        _ => {
            let l: Vec<char> = ('a'..='z').chain('A'..='Z').filter(|c| !"bfnrtuUavx".contains(*c)).collect();
            format!("\\{}", g.r.pick(&l))
        }
    }
}

/// the two halves of a surrogate pair, together or not
fn surrogates(g: &mut G) -> String {
    let one = |g: &mut G, hi: bool| {
        let k = (if hi { 0xd800 } else { 0xdc00 }) + g.r.below(0x400);
        match g.r.below(4) {
            0 => format!("\\U{:08x}", k),
            1 => format!("\\u{:04X}", k),
            _ => format!("\\u{:04x}", k),
        }
    };
    let mut o = String::new();
    for _ in 0..g.r.range(1, 3) {
        o.push_str(&one(g, true));
        if g.r.chance(1, 8) {
            o.push_str(g.r.pick(&[" ", "x", "\\n", "\\\\"]));
        }
        o.push_str(&one(g, false));
    }
    o
}

fn bad_escape(cx: &mut Cx) {
    let mut g = cx.g();
    let e: String = match g.r.below(6) {
        0 => surrogates(&mut g),
        1 => {
            // several of one kind
            let e = undecodable(&mut g);
            let n = g.r.range(2, 4);
            e.repeat(n)
        }
        2 => (0..g.r.range(2, 4)).map(|_| undecodable(&mut g)).collect(),
        _ => undecodable(&mut g),
    };
    let f = Fmt { qbreak: 0, raw_nl: false, ..fmt_q(cx) };
    let q = *cx.r.pick(&['"', '\'']);
    let (a, b) = (g.quoted().text, g.quoted().text);
    let mut r = cx.g().r;
    let mut x = Render::new(&mut r, f.clone());
    x.encode(&a, q);
    let l = x.o[..x.o.len() - 1].to_string();
    let mut x = Render::new(&mut r, f);
    x.encode(&b, q);
    let s = format!("{}{}{}", l, e, &x.o[1..]);
    if !matches!(decode(&s), Dec::Bad(_)) || string_at(s.as_bytes(), 0) != Some(s.len()) {
        return;
    }
    cx.seen(&s);
    for p in 0..PLACES {
        place(cx, p, &s, None);
    }
}

/// a block of 128 code points, each written raw, as \u and as \U
fn block(cx: &mut Cx) {
    let lo = cx.idx as u32 * 128;
    let q = if cx.idx % 2 == 0 { '"' } else { '\'' };
    let mut o = String::from(q);
    let mut want = String::new();
    for x in lo..lo + 128 {
        let Some(c) = char::from_u32(x) else { continue };
        if !(c == q || matches!(c, '\\' | '\0' | '\u{1f}')) {
            o.push(c);
            want.push(c);
        }
        if x <= 0xffff {
            o.push_str(&format!("\\u{:04x}", x));
            want.push(c);
        }
        o.push_str(&format!("\\U{:08X}", x));
        want.push(c);
        cx.ev("code points written in every way", 1);
    }
    o.push(q);
    cx.seen(&o);
    for p in 0..PLACES {
        place(cx, p, &o, Some(&want));
    }
}

fn small(cx: &mut Cx, n: u32) {
    let al = ["\\", "\"", "'", "a", "n", "u", "b", "\n", " ", "q", "4", "\r"];
    let per = (al.len() as u64).pow(n);
    let q = if cx.idx / per == 0 { "\"" } else { "'" };
    let s = format!("{}{}{}", q, hostile::nth_string(&al, n, cx.idx % per), q);
    if string_at(s.as_bytes(), 0) != Some(s.len()) {
        return;
    }
    match decode(&s) {
        Dec::Ok(w) => {
            cx.seen(&s);
            for p in 0..PLACES {
                place(cx, p, &s, Some(&w));
            }
        }
        Dec::Bad(_) => {
            cx.seen(&s);
            for p in 0..PLACES {
                place(cx, p, &s, None);
            }
        }
        Dec::Odd(_) => {}
    }
}

pub fn get(id: &str) -> Option<Prop> {
    if id != "C28" {
        return None;
    }
    Some(Prop {
        id: "C28",
        rule: "texts in several random encodings (both quote styles, every escape, breaks), each read at 12 places of 6 instructions; every code point raw, as \\u and as \\U; every string of 4 (thorough 5) characters over a 12-letter alphabet between quotes; strings with one or more unknown escapes or invalid code points (surrogate pairs among them), which must be rejected at every place; non-trivial: every string, distinct by encoding",
        need: &["strings decoded", "undecodable strings rejected", "code points written in every way"],
        assumptions: &["escapes the statement does not name (\\a, \\v, \\x, octal, \\u with too few digits) and an escaped backslash before a line end are left open"],
        fams: vec![
            fam("generated", 25_000, 1_500_000, random),
            fam("bad-escapes", 30_000, 1_500_000, bad_escape),
            fam("code-points", 0x110000 / 128, 0x110000 / 128, block),
            fam("exhaustive-4", 2 * 12u64.pow(4), 2 * 12u64.pow(4), |cx| small(cx, 4)),
            fam("exhaustive-5", 0, 2 * 12u64.pow(5), |cx| small(cx, 5)),
        ],
    })
}
