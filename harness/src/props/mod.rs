//! The monitors, one module per property (or per group of like properties).

use crate::cx::*;
use crate::real;
use dfcore::gen::*;
use dockerfile_parser as dp;
use dfcore::hostile;
use dfcore::model::*;
use dfcore::spec;

pub mod access;
pub mod built;
pub mod compose;
pub mod enc;
pub mod hist;
pub mod image;
pub mod kinds;
pub mod read;
pub mod reject;
pub mod spans;
pub mod splice;
pub mod stages;
pub mod total;
pub mod work;

pub fn ids() -> Vec<&'static str> {
    vec!["C32","C30","C31","C25","C24","C23","C01","C05","C06","C29","C26","C28","C20","C21","C18","C19","C14","C15","C16","C17","C02","C03","C04","C22","C07","C08","C09","C10","C11","C12","C13","C27"]
}

pub fn level(id: &str) -> &'static str {
    if id == "C23" {
        return "fault_enumeration";
    }
    "exploration"
}

pub fn get(id: &str) -> Option<Prop> {
    kinds::get(id).or_else(|| spans::get(id)).or_else(|| image::get(id)).or_else(|| stages::get(id)).or_else(|| splice::get(id)).or_else(|| access::get(id)).or_else(|| enc::get(id)).or_else(|| compose::get(id)).or_else(|| total::get(id)).or_else(|| read::get(id)).or_else(|| hist::get(id)).or_else(|| reject::get(id)).or_else(|| built::get(id)).or_else(|| work::get(id))
}

// ---------------------------------------------------------------------------
// workloads shared by the monitors

pub type Slice = fn(&Doc) -> Vec<Ins>;

/// a rendered document of known intent
pub fn gen_doc(cx: &mut Cx, focus: Option<Kind>) -> (Vec<GI>, Doc) {
    for _ in 0..20 {
        if let Some(x) = gen_doc_once(cx, focus) {
            return x;
        }
    }
    panic!("oracle disagreement: 20 generated documents in a row")
}

fn gen_doc_once(cx: &mut Cx, focus: Option<Kind>) -> Option<(Vec<GI>, Doc)> {
    let mut g = cx.g();
    if cx.r.chance(1, 12) {
        g.cap = 120;
    }
    let hi = if cx.r.chance(1, 60) { 80 } else { 14 };
    let n = g.count(1, hi).min(120);
    let gis = match focus {
        Some(k) => g.doc_of(k, n),
        None => g.doc(n),
    };
    let f = Fmt::random(&mut cx.r);
    let d = render(&gis, &mut cx.r, &f);
    agree(cx, &d).then_some((gis, d))
}

/// The two oracles (generator and reference parser) must agree on what a
/// document says. About one generated document in half a million does not mean
/// what it was rendered from (a shell text such as `[ "a` can become an array
/// when a later instruction happens to close the quote); such a document is
/// dropped, whatever the code under test does with it.
pub fn agree(cx: &mut Cx, d: &Doc) -> bool {
    let o = spec::parse(&d.content);
    if o.exotic.is_some() {
        cx.ev("generated documents dropped: outside the reference parser's certain ground", 1);
        return false;
    }
    let m = match o.res {
        Err(e) => Some(format!("reference parser rejects ({})", e)),
        Ok(s) => diff(&canon_all(&d.ins), &canon_all(&s.ins)),
    };
    match m {
        None => true,
        Some(m) => {
            if cx.verbose {
                eprintln!("dropped: {}\n{:?}", m, d.content);
            }
            cx.ev("generated documents dropped: their text means something else", 1);
            false
        }
    }
}

/// a document that may well be malformed
pub fn hostile_doc(cx: &mut Cx, focus: Option<Kind>) -> String {
    let mut s = match cx.r.below(4) {
        0 => hostile::soup(&mut cx.r, cx.dict),
        1 => {
            let s = hostile::soup(&mut cx.r, cx.dict);
            match focus {
                Some(k) => format!("{} {}", if k == Kind::Misc { "USER" } else { k.word() }, s),
                None => s,
            }
        }
        _ => {
            let mut g = cx.g();
            g.cap = 6;
            let n = g.r.heavy(1, 6);
            let gis = match focus {
                Some(k) => g.doc_of(k, n),
                None => g.doc(n),
            };
            let f = Fmt::random(&mut cx.r);
            let d = render(&gis, &mut cx.r, &f);
            hostile::mutate(&d.content, &mut cx.r, cx.dict)
        }
    };
    // keep well below the depth at which the parser gives up
    if s.len() > 8000 {
        let mut k = 8000;
        while !s.is_char_boundary(k) {
            k -= 1
        }
        s.truncate(k);
    }
    s
}

/// exhaustive small documents: keyword, then every string over a small alphabet
pub fn small_doc(cx: &mut Cx, kws: &[&str], alpha: &[&str], len: u32) -> Option<String> {
    let per = hostile::count_strings(alpha.len(), len);
    let k = (cx.idx / per) as usize;
    if k >= kws.len() {
        return None;
    }
    Some(format!("{}{}", kws[k], hostile::nth_string(alpha, len, cx.idx % per)))
}

pub fn canon_all(v: &[Ins]) -> Vec<Ins> {
    v.iter().map(canon).collect()
}

pub fn unspan_all(v: &[Ins]) -> Vec<Ins> {
    v.iter().map(unspan).collect()
}

pub fn diff<T: PartialEq + std::fmt::Debug>(want: &[T], got: &[T]) -> Option<String> {
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        if a != b {
            return Some(format!(
                "item {}: expected {} but got {}",
                i,
                dfcore::rec::clip(&format!("{:?}", a), 700),
                dfcore::rec::clip(&format!("{:?}", b), 700)
            ));
        }
    }
    if want.len() != got.len() {
        let x = if want.len() > got.len() { &want[got.len()] } else { &got[want.len()] };
        return Some(format!(
            "expected {} items but got {}; first unmatched: {}",
            want.len(),
            got.len(),
            dfcore::rec::clip(&format!("{:?}", x), 500)
        ));
    }
    None
}


pub type Extra = fn(&mut Cx, &dp::Dockerfile, &str);

pub fn no_extra(_: &mut Cx, _: &dp::Dockerfile, _: &str) {}

fn clip_err(e: &dp::Error) -> String {
    dfcore::rec::clip(&real::t(|| format!("{}", e)), 500)
}

/// Judges the code on a generated document: what `slice` selects must be as intended.
pub fn judge_gen(cx: &mut Cx, focus: Option<Kind>, slice: Slice, extra: Extra) {
    let (_, d) = gen_doc(cx, focus);
    judge_doc(cx, &d, slice, extra)
}

pub fn judge_doc(cx: &mut Cx, d: &Doc, slice: Slice, extra: Extra) {
    cx.note(&d.content);
    let want = slice(d);
    if want.is_empty() {
        return;
    }
    cx.ev("generated documents judged", 1);
    cx.ev("generated instructions judged", want.len() as u64);
    cx.seen(&d.content);
    match real::parse(&d.content) {
        Err(e) => cx.bad(&d.content, format!("a well-formed document was rejected: {}", clip_err(&e))),
        Ok(r) => {
            let got = slice(&real::snap(&r));
            if let Some(m) = diff(&want, &got) {
                cx.bad(&d.content, m);
            }
            extra(cx, &r, &d.content);
        }
    }
}

/// Judges the code on any text, against the reference parser.
pub fn judge_text(cx: &mut Cx, s: &str, slice: Slice, extra: Extra) {
    cx.note(s);
    let o = spec::parse(s);
    if o.exotic.is_some() {
        cx.ev("texts outside certain ground (not judged)", 1);
        return;
    }
    match o.res {
        Err(_) => {
            cx.ev("malformed texts (left to C25)", 1);
        }
        Ok(d) => {
            let want = slice(&d);
            match real::parse(s) {
                Err(e) => {
                    if !want.is_empty() {
                        cx.bad(s, format!("a well-formed document was rejected: {}", clip_err(&e)))
                    }
                }
                Ok(r) => {
                    if !want.is_empty() {
                        cx.ev("accepted hostile texts judged", 1);
                        cx.ev("hostile instructions judged", want.len() as u64);
                        cx.seen(s);
                    }
                    let got = slice(&real::snap(&r));
                    if let Some(m) = diff(&want, &got) {
                        cx.bad(s, m);
                    }
                    extra(cx, &r, s);
                }
            }
        }
    }
}

/// a document with unusually many or unusually long parts
pub fn big_doc(cx: &mut Cx, focus: Option<Kind>) -> Doc {
    for _ in 0..20 {
        let d = big_doc_once(cx, focus);
        if agree(cx, &d) {
            return d;
        }
    }
    panic!("oracle disagreement: 20 generated documents in a row")
}

fn big_doc_once(cx: &mut Cx, focus: Option<Kind>) -> Doc {
    let mut g = cx.g();
    let mut v: Vec<GI> = vec![];
    let kinds: Vec<Kind> = match focus {
        Some(k) => vec![k],
        None => KINDS.to_vec(),
    };
    match cx.r.below(4) {
        0 => {
            // many parts in one instruction
            g.cap = *cx.r.pick(&[64usize, 130, 260, 600]);
            let near: Vec<usize> = cx.dict.sizes.iter().copied().filter(|s| *s > 20 && *s < 2000).collect();
            let want = if !near.is_empty() && cx.r.chance(1, 3) { *cx.r.pick(&near) } else { cx.r.range(g.cap / 2, g.cap) };
            let k = *cx.r.pick(&kinds);
            v.push(many(&mut g, k, want));
        }
        1 => {
            // many instructions
            let n = match cx.r.below(60) {
                0 => 5_000,
                1 => 1_030,
                2..=12 => cx.dict.sizes.iter().copied().filter(|s| *s > 20 && *s < 3000).nth(cx.idx as usize % cx.dict.sizes.len().max(1)).unwrap_or(100),
                _ => *cx.r.pick(&[50usize, 100, 257, 300]),
            };
            for _ in 0..n {
                let k = *g.r.pick(&kinds);
                g.cap = 4;
                v.push(g.ins(k));
            }
        }
        2 => {
            // long texts
            let k = *cx.r.pick(&kinds);
            let mut i = g.ins(k);
            lengthen(&mut g, &mut i);
            v.push(i);
            let k = g.any_kind();
            v.push(g.ins(k));
        }
        _ => {
            // a preamble of comments and blank lines pushes positions far out
            let n = g.r.range(1, 5);
            for _ in 0..n {
                let k = *g.r.pick(&kinds);
                v.push(g.ins(k));
            }
        }
    }
    let mut f = Fmt::random(&mut cx.r);
    f.escape = f.escape.min(5);
    let mut x = Render::new(&mut cx.r, f);
    if v.len() < 6 {
        match x.r.below(40) {
            // far out: past every 16-bit position or line number
            0 => {
                let n = x.r.range(65_530, 65_560);
                for _ in 0..n {
                    x.eol();
                }
            }
            1 => {
                let n = *x.r.pick(&[65_520usize, 131_060, 400_000]) + x.r.below(30);
                x.o.push('#');
                while x.o.len() < n {
                    x.o.push_str("é.");
                }
                x.eol();
            }
            _ => {
                let n = x.r.below(400);
                for _ in 0..n {
                    x.o.push_str("# filler é");
                    x.eol();
                }
            }
        }
    }
    x.doc(&v);
    x.finish()
}

/// one instruction of kind k with `want` parts
fn many(g: &mut G, k: Kind, want: usize) -> GI {
    match k {
        Kind::Label => GI::Labels(
            (0..want)
                .map(|i| (Val { text: format!("{}{}", g.text(Class::Ident), i), q: None }, g.val(Class::Token)))
                .collect(),
        ),
        Kind::Env => GI::Envs((0..want).map(|_| (g.name(Class::EnvKey), g.val(Class::Token))).collect()),
        Kind::Copy => {
            let mut f = g.flags(&["from", "chown"]);
            if g.r.chance(1, 4) {
                f = (0..want).map(|_| (g.text(Class::Alpha), g.text(Class::Token))).collect();
            }
            GI::Copy { flags: f, paths: (0..want.max(2)).map(|i| format!("p{}{}", i, g.text(Class::Token))).collect() }
        }
        Kind::Run | Kind::Cmd | Kind::Entrypoint => {
            if g.r.coin() {
                GI::Exec(k, (0..want).map(|_| g.quoted()).collect(), false)
            } else {
                let n = want.min(200);
                let mut v = vec![];
                for i in 0..n {
                    v.push(Piece::Text(format!("c{} ", i)));
                    if g.r.chance(1, 6) && i + 1 < n {
                        for _ in 0..if g.r.chance(1, 30) { g.r.range(20, 120) } else { 1 } {
                            v.push(Piece::Comment(format!("# {}", i)));
                        }
                    }
                }
                GI::Shell(k, v)
            }
        }
        Kind::From => {
            let mut i = g.ins(k);
            if let GI::From { flags, .. } = &mut i {
                *flags = (0..want).map(|_| (g.text(Class::Alpha), g.text(Class::Token))).collect();
            }
            i
        }
        Kind::Arg => {
            let mut i = g.ins(k);
            lengthen(g, &mut i);
            i
        }
        Kind::Misc => {
            let n = want.min(200);
            let w = g.misc_word();
            GI::Misc(w, (0..n).map(|i| Piece::Text(format!(" m{}", i))).collect())
        }
    }
}

/// makes some text of the instruction long
fn lengthen(g: &mut G, i: &mut GI) {
    let near: Vec<usize> = g.dict.sizes.iter().copied().filter(|s| *s > 40).collect();
    let n = match g.r.below(25) {
        0 => *g.r.pick(&[32_766usize, 65_534, 131_070]) + g.r.below(5),
        1..=9 if !near.is_empty() => *g.r.pick(&near),
        _ => *g.r.pick(&[100usize, 126, 250, 256, 510, 1000, 1022, 2046, 4096, 8190, 9000, 20000]) + g.r.below(5),
    };
    let long: String = (0..n).map(|k| if k % 61 == 60 { 'é' } else { (b'a' + (k % 26) as u8) as char }).collect();
    let ascii: String = long.replace('é', "e");
    // short of letters: digits, punctuation, several scripts
    let long = match g.r.below(4) {
        0 => (0..n).map(|k| ['x', '-', '/', '.', '7', '_', '%', '+'][k % 8]).collect(),
        1 => (0..n / 3).map(|k| ['中', 'é', '😀', 'z'][k % 4]).collect(),
        _ => long,
    };
    let q = |g: &mut G| *g.r.pick(&[None, Some('"'), Some('\'')]);
    let pieces = |g: &mut G, p: &mut Vec<Piece>| {
        let k = g.r.below(p.len());
        match &mut p[k] {
            Piece::Text(t) => t.push_str(&long),
            Piece::Comment(t) => t.push_str(&long),
        }
    };
    match i {
        GI::From { flags, alias, image } => match g.r.below(4) {
            0 => *alias = Some(ascii),
            1 => *image = ascii,
            2 => flags.push((ascii.replace(|c: char| !c.is_ascii_alphabetic(), "e"), "v".into())),
            _ => flags.push(("platform".into(), long)),
        },
        GI::Arg { name, value } => {
            if g.r.coin() {
                *name = ascii
            } else {
                *value = Some(Val { text: long, q: q(g) })
            }
        }
        GI::Labels(v) => {
            let k = g.r.below(v.len());
            let x = Val { text: long, q: q(g) };
            if g.r.chance(1, 3) {
                v[k].0 = x
            } else {
                v[k].1 = x
            }
        }
        GI::LabelOne(n, v) => {
            let x = Val { text: long, q: q(g) };
            if g.r.coin() {
                *n = x
            } else {
                *v = x
            }
        }
        GI::Misc(w, p) => {
            if g.r.chance(1, 4) {
                *w = ascii.replace(|c: char| !c.is_ascii_alphabetic(), "e")
            } else {
                pieces(g, p)
            }
        }
        GI::Shell(_, p) | GI::EnvOne(_, p) => pieces(g, p),
        GI::Exec(_, v, _) => {
            let k = g.r.below(v.len() + 1);
            v.insert(k, Val { text: long, q: Some('"') })
        }
        GI::Copy { flags, paths } => match g.r.below(4) {
            0 => flags.push(("from".into(), long)),
            1 => flags.push((ascii.replace(|c: char| !c.is_ascii_alphabetic(), "e"), "v".into())),
            _ => {
                let k = g.r.below(paths.len() + 1);
                paths.insert(k, long)
            }
        },
        GI::Envs(v) => {
            let k = g.r.below(v.len());
            if g.r.chance(1, 3) {
                v[k].0 = ascii
            } else {
                v[k].1 = Val { text: long, q: q(g) }
            }
        }
        GI::EnvOneQ(n, v) => {
            if g.r.chance(1, 3) {
                *n = ascii
            } else {
                v.text = long
            }
        }
    }
}

pub fn small_total(kws: usize, alpha: usize, len: u32) -> u64 {
    kws as u64 * hostile::count_strings(alpha, len)
}

/// A string that is not `n` but that a lenient lookup might take for it.
pub fn disguised(n: &str, r: &mut dfcore::rng::Rng) -> String {
    match r.below(22) {
        0 => format!("{}\n", n),
        1 => format!("{} ", n),
        2 => format!("\t{}", n),
        3 => format!("{}=", n),
        4 => format!("{}=1", n),
        5 => format!("${}", n),
        6 => format!("${{{}}}", n),
        7 => format!("\"{}\"", n),
        8 => format!("'{}'", n),
        9 => format!("{}:latest", n),
        10 => format!("{}@", n),
        11 => format!("/{}", n),
        12 => format!("{}/", n),
        13 => format!("{}\0", n),
        14 => format!("{}.", n),
        15 => format!("-{}", n),
        16 => format!("--{}", n),
        17 => n.replace('_', "-"),
        18 => n.replace('-', "_"),
        19 => format!("{0}{0}", n),
        20 => n.replace('k', "\u{212a}").replace('s', "ſ"),
        _ => format!("{}\u{301}", n),
    }
}
