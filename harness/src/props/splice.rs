//! C20 and C21: splicing.

use super::*;
use dfcore::rec::clip;
use std::collections::HashMap;

// ---------------------------------------------------------------------------
// C20

/// Independent model: the original text and the replacements now in force.
struct Model<'a> {
    s: &'a str,
    live: Vec<(Sp, String)>,
    /// spans replaced at some time
    done: Vec<Sp>,
}

fn inside(a: Sp, b: Sp) -> bool {
    a != b && b.0 <= a.0 && a.1 <= b.1
}

impl<'a> Model<'a> {
    fn new(s: &'a str) -> Model<'a> {
        Model { s, live: vec![], done: vec![] }
    }

    fn allowed(&self, x: Sp) -> bool {
        !self.done.iter().any(|d| inside(x, *d))
    }

    fn splice(&mut self, x: Sp, t: &str) {
        self.live.retain(|l| l.0 != x && !inside(l.0, x));
        self.live.push((x, t.to_string()));
        self.done.push(x);
    }

    fn content(&self) -> String {
        let mut v: Vec<&(Sp, String)> = self.live.iter().collect();
        v.sort();
        let mut o = String::new();
        let mut p = 0;
        for ((a, z), t) in v {
            o.push_str(&self.s[p..*a]);
            o.push_str(t);
            p = *z;
        }
        o.push_str(&self.s[p..]);
        o
    }
}

/// disjoint or nested, and unambiguous where an empty span is concerned
fn compatible(a: Sp, b: Sp) -> bool {
    if a == b {
        return true;
    }
    if a.0 == a.1 || b.0 == b.1 {
        // an insertion point touching another span's edge could be read either way
        let (e, o) = if a.0 == a.1 { (a.0, b) } else { (b.0, a) };
        return e != o.0 && e != o.1;
    }
    a.1 <= b.0 || b.1 <= a.0 || inside(a, b) || inside(b, a)
}

fn pick_spans(cx: &mut Cx, s: &str, pool: &[Sp], n: usize) -> Vec<Sp> {
    let mut v: Vec<Sp> = vec![];
    let mut bounds: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
    if bounds.len() > 4000 {
        bounds.truncate(4000)
    }
    for _ in 0..n * 2 {
        if v.len() >= n {
            break;
        }
        let x = if !pool.is_empty() && cx.r.chance(3, 5) {
            *cx.r.pick(pool)
        } else {
            let k = cx.r.below(bounds.len());
            let w = cx.r.heavy(0, 30);
            // sometimes next to a chosen span
            let k = if !v.is_empty() && cx.r.chance(1, 3) {
                let e = cx.r.pick(&v);
                let e = if cx.r.coin() { e.1 } else { e.0 };
                bounds.binary_search(&e).unwrap_or(k)
            } else {
                k
            };
            if cx.r.coin() {
                (bounds[k], bounds[(k + w).min(bounds.len() - 1)])
            } else {
                (bounds[k.saturating_sub(w)], bounds[k])
            }
        };
        if v.iter().all(|y| compatible(x, *y)) && !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

fn replacement(cx: &mut Cx, old: &str) -> String {
    match cx.r.below(8) {
        0 => String::new(),
        1 => old.to_string(),
        2 => "x".repeat(old.len()),
        3 => {
            let mut g = cx.g();
            format!("{}{}", old, g.text(Class::Any))
        }
        4 => cx.r.pick(&["é", "中", "😀", "\n", "x", "\\\n", "\u{301}"]).to_string(),
        _ => {
            let mut g = cx.g();
            g.text(Class::Any)
        }
    }
}

fn c20_doc(cx: &mut Cx, s: &str) {
    let Ok(doc) = real::parse(s) else {
        cx.ev("rejected texts", 1);
        return;
    };
    let d = real::snap(&doc);
    let mut pool: Vec<Sp> = d.ins.iter().enumerate().flat_map(|(k, i)| nodes(i, k).into_iter().map(|n| n.sp)).collect();
    pool.retain(|x| s.get(x.0..x.1).is_some());
    pool.push((0, s.len()));
    let n = *cx.r.pick(&[1usize, 2, 3, 5, 8, 13, 30]);
    let spans = pick_spans(cx, s, &pool, n);
    let again = cx.r.heavy(0, 8);
    c20_run(cx, s, &doc, &d, spans, again)
}

/// Hundreds of splices of one document.
fn c20_long(cx: &mut Cx) {
    let mut s = String::new();
    let goal = cx.r.range(300, 2500);
    while s.len() < goal {
        s.push_str(&comment_doc(cx));
    }
    let Ok(doc) = real::parse(&s) else { return };
    let d = real::snap(&doc);
    let cut = cx.r.range(2, 9);
    let mut spans: Vec<Sp> = vec![];
    let mut at = 0;
    let mut group = 0;
    for i in 1..=s.len() {
        if !s.is_char_boundary(i) || (i < s.len() && !cx.r.chance(1, cut)) {
            continue;
        }
        if !cx.r.chance(1, 6) {
            spans.push((at, i));
        }
        at = i;
        if cx.r.chance(1, 25) {
            if cx.r.coin() && group < i && !spans.contains(&(group, i)) {
                spans.push((group, i));
            }
            group = i;
        }
    }
    let again = cx.r.below(60);
    let n = spans.len();
    c20_run(cx, &s, &doc, &d, spans, again);
    if n > 130 {
        cx.ev("splicers with more than a hundred splices", 1);
    }
}

fn c20_run(cx: &mut Cx, s: &str, doc: &dp::Dockerfile, d: &Doc, mut spans: Vec<Sp>, again: usize) {
    match cx.r.below(4) {
        0 => spans.sort(),
        1 => {
            spans.sort();
            spans.reverse()
        }
        _ => cx.r.shuffle(&mut spans),
    }
    let mut m = Model::new(s);
    let mut log: Vec<(Sp, String)> = vec![];
    let mut sp = real::t(|| doc.splicer());
    if sp.content != s {
        cx.bad(s, format!("a fresh splicer holds {:?}", clip(&sp.content, 300)));
        return;
    }
    let mut k = 0;
    let steps = spans.len() + again;
    for step in 0..steps {
        let x = if step >= spans.len() || (step > 0 && cx.r.chance(1, 8)) {
            // again
            match log.last() {
                Some(_) => log[cx.r.below(log.len())].0,
                None => break,
            }
        } else {
            k += 1;
            spans[k - 1]
        };
        if !m.allowed(x) {
            cx.ev("splices left out (inside a replaced span)", 1);
            continue;
        }
        if x.0 == x.1 && m.done.contains(&x) {
            // replacing an insertion again could be read either way
            continue;
        }
        if m.done.contains(&x) {
            cx.ev("splices of a span already replaced", 1);
        }
        if m.done.iter().any(|y| inside(*y, x)) {
            cx.ev("splices of a span containing replaced ones", 1);
        }
        let t = replacement(cx, &s[x.0..x.1]);
        m.splice(x, &t);
        log.push((x, t.clone()));
        real::t(|| sp.splice(&dp::Span::new(x.0, x.1), &t));
        cx.ev("splices checked", 1);
        let want = m.content();
        if sp.content != want {
            cx.bad(
                s,
                format!("after the splices {} the content is {:?}, expected {:?}", clip(&format!("{:?}", log), 900), clip(&sp.content, 400), clip(&want, 400)),
            );
            return;
        }
    }
    if log.len() > 1 {
        cx.seen(&format!("{:?}{:?}", log, s));
    }
    if doc.content != s || real::snap(doc) != *d {
        cx.bad(s, "splicing changed the document".into());
    }
}

fn comment_doc(cx: &mut Cx) -> String {
    let mut g = cx.g();
    let mut o = String::new();
    for _ in 0..g.count(1, 12) {
        o.push('#');
        o.push_str(&g.text(Class::Line));
        o.push('\n');
    }
    o
}

/// all spans over a short text, all short sequences of splices
fn c20_small(cx: &mut Cx) {
    let s = "#éab\n";
    let b: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
    let mut all = vec![];
    for x in 0..b.len() {
        for y in x + 1..b.len() {
            all.push((b[x], b[y]));
        }
    }
    let reps = ["", "Z", "12345", "中"];
    let per = (all.len() * reps.len()) as u64;
    let mut i = cx.idx;
    let doc = real::parse(s).unwrap();
    let mut sp = real::t(|| doc.splicer());
    let mut m = Model::new(s);
    let mut log: Vec<(Sp, &str)> = vec![];
    for _ in 0..3 {
        let k = (i % per) as usize;
        i /= per;
        let x = all[k / reps.len()];
        let t = reps[k % reps.len()];
        if !m.allowed(x) || !log.iter().all(|l| compatible(l.0, x)) {
            return;
        }
        m.splice(x, t);
        log.push((x, t));
        real::t(|| sp.splice(&dp::Span::new(x.0, x.1), t));
        cx.ev("splices checked", 1);
        if sp.content != m.content() {
            cx.bad(s, format!("after the splices {:?} the content is {:?}, expected {:?}", log, sp.content, m.content()));
            return;
        }
    }
    cx.seen(&format!("{:?}", log));
}

// ---------------------------------------------------------------------------
// C21

fn plain(g: &mut G, c: Class) -> String {
    let t = g.text(c);
    let t = t.trim_matches(|c: char| !c.is_ascii_alphanumeric());
    let t = t.trim_start_matches(|c: char| !c.is_ascii_alphabetic());
    if t.is_empty() { ((b'a' + g.r.below(26) as u8) as char).to_string() } else { t.to_string() }
}

fn encoded(g: &mut G, text: &str) -> String {
    let mut f = Fmt::plain();
    f.escape = *g.r.pick(&[0usize, 20, 90]);
    f.qbreak = *g.r.pick(&[0usize, 0, 0, 20]);
    let q = *g.r.pick(&['"', '\'']);
    let mut r = g.r.clone();
    g.r.next();
    let mut x = Render::new(&mut r, f);
    x.encode(text, q);
    x.o
}

/// a replacement for the value at a node: (source text, value), if it may be replaced
fn new_value(g: &mut G, d: &Doc, n: &Node) -> Option<(String, String)> {
    let src = d.content.get(n.sp.0..n.sp.1)?;
    if src.is_empty() {
        return None;
    }
    let quoted = src.starts_with(['"', '\'', '`']);
    let val = |g: &mut G, c: Class| -> (String, String) {
        if quoted || matches!(n.role, Role::ExecElem) {
            let t = g.quoted().text;
            (encoded(g, &t), t)
        } else {
            let t = plain(g, c);
            (t.clone(), t)
        }
    };
    let same = |t: String| Some((t.clone(), t));
    match n.role {
        Role::Image => {
            let t = g.image();
            // (an image that reads as something else is not "valid in that place")
            let t = if t.eq_ignore_ascii_case("as") { "asx".into() } else { t };
            same(t)
        }
        Role::Alias => same(g.text(Class::Alias)),
        Role::FlagValue | Role::Path => {
            if quoted {
                return None;
            }
            same(plain(g, Class::Token))
        }
        Role::ArgName => same(g.name(Class::Ident)),
        Role::EnvKey => same(g.name(Class::EnvKey)),
        Role::ArgValue | Role::LabelValue => Some(val(g, Class::Token)),
        Role::LabelName => Some(val(g, Class::NameTok)),
        Role::ExecElem => Some(val(g, Class::Any)),
        Role::EnvPiece => {
            let K::Env(vs) = &d.ins[n.ins].k else { return None };
            // pair or one-variable form?
            let v = vs.iter().find(|v| v.2.sp.0 <= n.sp.0 && n.sp.1 <= v.2.sp.1)?;
            let pair = d.content.get(v.1.sp.1..v.2.sp.0) == Some("=");
            if pair {
                Some(val(g, Class::Token))
            } else if quoted && v.2.comps.len() == 1 && v.2.sp == n.sp {
                Some(val(g, Class::Any))
            } else {
                let t = plain(g, Class::Line);
                same(t)
            }
        }
        Role::ShellPiece => {
            let e = d.ins[n.ins].k.expr()?;
            if let Expr::Shell(b) = e {
                if b.text().starts_with('[') {
                    return None;
                }
            }
            same(plain(g, Class::Line))
        }
        _ => None,
    }
}

fn c21_doc(cx: &mut Cx, s: &str) {
    cx.note(s);
    let o = spec::parse(s);
    if o.exotic.is_some() {
        return;
    }
    let Ok(doc) = real::parse(s) else {
        cx.ev("rejected texts", 1);
        return;
    };
    let d = real::snap(&doc);
    let mut g = cx.g();
    g.cap = 3;
    let leaves = |ins: &[Ins]| -> Vec<Node> { ins.iter().enumerate().flat_map(|(k, i)| nodes(i, k)).filter(|n| !n.role.container() && !n.role.comment()).collect() };
    let ns = leaves(&d.ins);
    // where the values really are, by the reference parser
    let truth: Vec<Sp> = match &o.res {
        Ok(w) => {
            let w = leaves(&w.ins);
            if w.len() == ns.len() && w.iter().zip(&ns).all(|(a, b)| a.role == b.role && a.ins == b.ins) {
                w.iter().map(|n| n.sp).collect()
            } else {
                vec![]
            }
        }
        Err(_) => vec![],
    };
    let mut ns: Vec<(Node, Sp)> = ns.into_iter().enumerate().map(|(k, n)| { let sp = truth.get(k).copied().unwrap_or(n.sp); (n, sp) }).collect();
    if !truth.is_empty() {
        cx.ev("documents whose values were located independently", 1);
    }
    g.r.shuffle(&mut ns);
    let n = *g.r.pick(&[1usize, 1, 2, 4, 9, 25]);
    let mut sp = real::t(|| doc.splicer());
    let mut m = Model::new(s);
    let mut vals: HashMap<(usize, Sp), String> = HashMap::new();
    let mut log = vec![];
    for (x, place) in ns.iter() {
        if log.len() >= n {
            break;
        }
        if vals.contains_key(&(x.ins, x.sp)) {
            continue;
        }
        let times = if g.r.chance(1, 8) { 2 } else { 1 };
        for _ in 0..times {
            if let Some((src, v)) = new_value(&mut g, &d, x) {
                real::t(|| sp.splice(&dp::Span::new(x.sp.0, x.sp.1), &src));
                m.splice(*place, &src);
                log.push((x.role, x.sp, src));
                vals.insert((x.ins, x.sp), v);
                cx.ev(&format!("replaced {:?}", x.role), 1);
            }
        }
    }
    if log.is_empty() {
        return;
    }
    let t = sp.content.clone();
    let l = clip(&format!("{:?}", log), 900);
    if t != m.content() {
        cx.bad(s, format!("splicing {} gives {:?}, expected {:?}", l, clip(&t, 500), clip(&m.content(), 500)));
        return;
    }
    cx.seen(&t);
    let mut want = unspan_changed(&d, &vals);
    match real::parse(&t) {
        Err(e) => cx.bad(s, format!("after splicing {} the document {:?} is rejected: {}", l, clip(&t, 600), clip_err(&e))),
        Ok(r) => {
            let got = real::snap(&r);
            cx.ev("spliced documents parsed again", 1);
            if let Some(x) = diff(&want, &unspan_all(&got.ins)) {
                cx.bad(s, format!("after splicing {} the document {:?} parses differently: {}", l, clip(&t, 600), x));
            }
            let first = want.iter().position(|i| matches!(i.k, K::From { .. })).unwrap_or(want.len());
            want.truncate(first);
            want.retain(|i| matches!(i.k, K::Arg { .. }));
            if let Some(x) = diff(&want, &unspan_all(&got.globals)) {
                cx.bad(s, format!("after splicing {} the global arguments differ: {}", l, x));
            }
        }
    }
}

fn unspan_changed(d: &Doc, vals: &HashMap<(usize, Sp), String>) -> Vec<Ins> {
    d.ins
        .iter()
        .enumerate()
        .map(|(k, i)| {
            let mut j = i.clone();
            map_ss(&mut j, &mut |s| {
                if let Some(v) = vals.get(&(k, s.sp)) {
                    s.s = v.clone();
                }
            });
            if let K::From { image, img, .. } = &mut j.k {
                if vals.contains_key(&(k, image.sp)) {
                    *img = spec::image_ref(&image.s);
                }
            }
            unspan(&j)
        })
        .collect()
}

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C20" => Prop {
            id: "C20",
            rule: "sequences of 1 to 38 splices on disjoint or nested spans (reported ones and others) of accepted documents of any text, in source order, reverse or shuffled, with repetitions; the content is compared with an independent model after every splice; all triples of splices over a 5-character text; non-trivial: at least two splices, distinct by sequence and text",
            need: &["splices checked", "splices of a span already replaced", "splices of a span containing replaced ones"],
            assumptions: &["empty spans that touch another chosen span, or are spliced twice, are left out: the statement does not fix their order"],
            fams: vec![
                fam("generated", 100_000, 4_000_000, |cx| {
                    let (_, d) = gen_doc(cx, None);
                    c20_doc(cx, &d.content)
                }),
                fam("hostile", 80_000, 4_000_000, |cx| {
                    let s = hostile_doc(cx, None);
                    c20_doc(cx, &s)
                }),
                fam("any-text", 120_000, 5_000_000, |cx| {
                    let s = comment_doc(cx);
                    c20_doc(cx, &s)
                }),
                fam("big", 600, 30_000, |cx| {
                    let d = big_doc(cx, None);
                    c20_doc(cx, &d.content)
                }),
                fam("long", 800, 60_000, c20_long),
                fam("triples", 60u64.pow(3), 60u64.pow(3), c20_small),
            ],
        },
        "C21" => Prop {
            id: "C21",
            rule: "accepted generated and hostile documents with 1 to 25 of their values replaced through a splicer in random order (quoted ones by re-encoded texts), parsed again and compared with the first result with exactly these values changed; non-trivial: something was replaced, distinct by resulting text",
            need: &[
                "documents whose values were located independently", "spliced documents parsed again", "replaced Image", "replaced Alias", "replaced FlagValue", "replaced ArgName", "replaced ArgValue", "replaced EnvKey",
                "replaced EnvPiece", "replaced LabelName", "replaced LabelValue", "replaced Path", "replaced ExecElem", "replaced ShellPiece",
            ],
            assumptions: &["shell texts that start with '[' and unquoted values that start with a quote are not replaced"],
            fams: vec![
                fam("generated", 150_000, 6_000_000, |cx| {
                    let (_, d) = gen_doc(cx, None);
                    c21_doc(cx, &d.content)
                }),
                fam("hostile", 120_000, 5_000_000, |cx| {
                    let s = hostile_doc(cx, None);
                    c21_doc(cx, &s)
                }),
                fam("big", 800, 30_000, |cx| {
                    let d = big_doc(cx, None);
                    c21_doc(cx, &d.content)
                }),
            ],
        },
        _ => return None,
    })
}
