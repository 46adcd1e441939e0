//! C30 and C31: values edited or built in memory; comparison and cloning.

use super::*;
use dfcore::rec::clip;
use dp::*;
use std::cmp::Ordering;

fn pick_doc(cx: &mut Cx) -> Option<Dockerfile> {
    let s = match cx.r.below(5) {
        0 => hostile_doc(cx, None),
        1 => gen_doc(cx, None).1.content,
        _ => stages::stage_doc(cx),
    };
    real::parse(&s).ok()
}

/// What parsing guarantees, restored after instructions were edited.
fn settle(d: &mut Dockerfile) {
    let mut n = 0;
    d.global_args.clear();
    for i in &mut d.instructions {
        match i {
            Instruction::From(f) => {
                f.index = n;
                f.image_parsed = real::t(|| ImageRef::parse(&f.image.content));
                n += 1;
            }
            Instruction::Arg(a) if n == 0 => d.global_args.push(a.clone()),
            _ => {}
        }
    }
}

fn ascii(g: &mut G, c: Class) -> String {
    let t: String = g.text(c).chars().filter(char::is_ascii).collect();
    if t.is_empty() {
        "a".into()
    } else {
        t
    }
}

fn edit(cx: &mut Cx, d: &mut Dockerfile, other: &Dockerfile) -> &'static str {
    let mut g = cx.g();
    let n = d.instructions.len();
    match g.r.below(12) {
        0 if n > 0 => {
            d.instructions.remove(g.r.below(n));
            "removed"
        }
        1 if n > 0 => {
            let i = d.instructions[g.r.below(n)].clone();
            d.instructions.insert(g.r.below(n + 1), i);
            "repeated"
        }
        2 if n > 1 => {
            let i = d.instructions.remove(g.r.below(n));
            d.instructions.insert(g.r.below(n), i);
            "moved"
        }
        3 if n > 1 => {
            let (a, b) = (g.r.below(n), g.r.below(n));
            d.instructions.swap(a, b);
            "swapped"
        }
        4 if n > 0 => {
            d.instructions.truncate(g.r.below(n));
            "cut off"
        }
        5 => {
            d.instructions.extend(other.instructions.iter().take(4).cloned());
            "added"
        }
        6 | 7 if n > 0 => {
            // positions are those of some text, or of none
            let how = g.r.below(5);
            let all = g.r.chance(1, 3);
            let at = g.r.below(n);
            let r = &mut g.r;
            let base = if how == 4 { r.below(1 << 40) } else { r.below(200) };
            for (k, i) in d.instructions.iter_mut().enumerate() {
                if all || k == at {
                    Walk {
                        f: &mut |l| {
                            if let Leaf::Num(x) = l {
                                *x = match how {
                                    0 => 0,
                                    1 => base,
                                    2 => r.below(300),
                                    3 => usize::MAX,
                                    _ => x.wrapping_add(base),
                                }
                            }
                        },
                    }
                    .ins(i)
                }
            }
            "given other positions"
        }
        k => {
            // change a value
            let k = k.saturating_sub(2);
            let pool: Vec<String> = d
                .instructions
                .iter()
                .chain(&other.instructions)
                .filter_map(|i| match i {
                    Instruction::From(f) => Some(f.alias.as_ref().map_or(f.image.content.clone(), |a| a.content.clone())),
                    Instruction::Arg(a) => Some(a.name.content.clone()),
                    _ => None,
                })
                .collect();
            let at: Vec<usize> = (0..n).filter(|i| matches!(d.instructions[*i], Instruction::From(_) | Instruction::Arg(_))).collect();
            if at.is_empty() {
                let text = ascii(&mut g, Class::Image);
                let i = Instruction::from(FromInstruction {
                    span: Span::new(0, 0),
                    flags: vec![],
                    image: SpannedString { span: Span::new(0, 0), content: text.clone() },
                    image_parsed: real::t(|| ImageRef::parse(&text)),
                    index: 0,
                    alias: None,
                });
                d.instructions.push(i);
                return "added";
            }
            let word = |g: &mut G| {
                let w = if g.r.chance(2, 3) && !pool.is_empty() { g.r.pick(&pool).clone() } else { ascii(g, Class::Image) };
                match g.r.below(6) {
                    0 => w.to_ascii_uppercase(),
                    1 => format!("${{{}}}", w.trim_matches(['$', '{', '}'])),
                    2 => "scratch".into(),
                    _ => w,
                }
            };
            let p = *g.r.pick(&at);
            let w = word(&mut g);
            match &mut d.instructions[p] {
                Instruction::From(f) => match k {
                    6 => f.image.content = w,
                    7 => f.alias = None,
                    _ => f.alias = Some(SpannedString { span: Span::new(1, 2), content: w }),
                },
                Instruction::Arg(a) => match k {
                    6 => a.name.content = w,
                    7 => a.value = None,
                    _ => a.value = Some(SpannedString { span: Span::new(3, 4), content: w }),
                },
                _ => {}
            }
            "changed"
        }
    }
}

fn c30_edited(cx: &mut Cx) {
    let (Some(mut d), Some(other)) = (pick_doc(cx), pick_doc(cx)) else { return };
    // use the document before editing it, so that whatever it might remember is there
    if cx.r.coin() {
        real::t(|| {
            let s = d.stages();
            let _ = (s.stages.len(), d.get_global_arg("a").is_some());
        });
    }
    for _ in 0..cx.r.heavy(1, 6) {
        let what = edit(cx, &mut d, &other);
        cx.ev(&format!("instructions {}", what), 1);
        settle(&mut d);
        if cx.r.chance(1, 4) && !use_edited(cx, &d) {
            return;
        }
    }
    use_edited(cx, &d);
}

fn use_edited(cx: &mut Cx, d: &Dockerfile) -> bool {
    let label = format!("edited document {:?}", d);
    cx.note(&label);
    cx.seen(&label);
    cx.ev("edited documents used", 1);
    stages::c18_doc(cx, d, &label);
    stages::c19_doc(cx, d, &label);
    let m = real::snap(d);
    let vars = image::globals_of(&m);
    for i in &d.instructions {
        let own = match i {
            Instruction::From(x) => x.span,
            Instruction::Arg(x) => x.span,
            Instruction::Label(x) => x.span,
            Instruction::Run(x) => x.span,
            Instruction::Entrypoint(x) => x.span,
            Instruction::Cmd(x) => x.span,
            Instruction::Copy(x) => x.span,
            Instruction::Env(x) => x.span,
            Instruction::Misc(x) => x.span,
        };
        if real::t(|| i.span()) != own {
            cx.bad(&label, format!("{:?} says that its span is {:?}", i, real::t(|| i.span())));
        }
        if let Instruction::From(f) = i {
            image::c17_ref(cx, d, &label, &f.image_parsed, &vars);
        }
    }
    let mut names: Vec<String> = vec!["a".into(), "nope".into()];
    for i in &d.instructions {
        if let Instruction::Arg(a) = i {
            names.push(a.name.content.clone());
            names.push(disguised(&a.name.content, &mut cx.r));
        }
    }
    for n in &names {
        let want = d.global_args.iter().find(|a| a.name.content == *n);
        let got = real::t(|| d.get_global_arg(n));
        if got != want {
            cx.bad(&label, format!("the global argument {:?} is {:?}, expected {:?}", n, got, want));
        }
    }
    !cx.failed()
}

fn c30_content(cx: &mut Cx) {
    let (Some(mut d), Some(other)) = (pick_doc(cx), pick_doc(cx)) else { return };
    let mut g = cx.g();
    if g.r.coin() {
        real::t(|| {
            let mut s = d.splicer();
            s.splice(&Span::new(0, 0), "x");
        });
    }
    let text = match g.r.below(4) {
        0 => other.content.clone(),
        1 => g.text(Class::Any),
        2 => format!("{}\n{}", g.text(Class::Any), d.content),
        _ => {
            let t = d.content.clone();
            let mut k = t.len() / 2;
            while !t.is_char_boundary(k) {
                k -= 1
            }
            t[..k].to_string()
        }
    };
    d.content = text.clone();
    cx.note(&text);
    cx.seen(&text);
    let cuts: Vec<usize> = (0..=text.len()).filter(|k| text.is_char_boundary(*k)).collect();
    for _ in 0..4 {
        let (a, b) = (*g.r.pick(&cuts), *g.r.pick(&cuts));
        let (a, b) = (a.min(b), a.max(b));
        if !spans::rel_one(cx, &d, &text, a, b) {
            return;
        }
        let new = g.text(Class::Any);
        let got = real::t(|| {
            let mut s = d.splicer();
            if s.content != text {
                return s.content;
            }
            s.splice(&Span::new(a, b), &new);
            s.content
        });
        let want = format!("{}{}{}", &text[..a], new, &text[b..]);
        if got != want {
            cx.bad(&text, format!("a splicer of the document with this content gives {:?} for {:?} at {:?}", clip(&got, 300), new, (a, b)));
        }
        cx.ev("splices of edited contents", 1);
    }
    if d.content != text {
        cx.bad(&text, "splicing changed the document".into());
    }
}

fn c30_built(cx: &mut Cx) {
    let mut g = cx.g();
    // texts built piece by piece
    let span = |g: &mut G| Span::new(g.r.below(9), g.r.below(99));
    let sp = span(&mut g);
    let mut want = String::new();
    let mut comps: Vec<(bool, Span, String)> = vec![];
    let mut b = match g.r.below(4) {
        0 => {
            let t = g.text(Class::Any);
            want.push_str(&t);
            comps.push((true, sp, t.clone()));
            real::t(|| BreakableString::from(((sp.start, sp.end), t.as_str())))
        }
        1 => real::t(|| BreakableString::new((sp.start, sp.end))),
        _ => real::t(|| BreakableString::new(sp)),
    };
    for _ in 0..g.r.heavy(0, 12) {
        let s = span(&mut g);
        let t = if g.r.chance(1, 8) { String::new() } else { g.text(Class::Any) };
        let tt = t.clone();
        let string = g.r.chance(2, 3);
        let way = g.r.below(3);
        b = real::t(|| match (string, way) {
            (true, 0) => b.add_string(s, tt),
            (true, 1) => b.add(SpannedString { span: s, content: tt }),
            (true, _) => b.add(((s.start, s.end), tt.as_str())),
            (false, 0) => b.add_comment((s.start, s.end), tt),
            (false, _) => b.add(SpannedComment { span: s, content: tt }),
        });
        if string {
            want.push_str(&t);
        }
        comps.push((string, s, t));
    }
    let label = format!("built text {:?}", comps);
    cx.note(&label);
    cx.seen(&label);
    cx.ev("texts built piece by piece", 1);
    let got: Vec<(bool, Span, String)> = b
        .iter_components()
        .map(|c| match c {
            BreakableStringComponent::String(s) => (true, s.span, s.content.clone()),
            BreakableStringComponent::Comment(s) => (false, s.span, s.content.clone()),
        })
        .collect();
    let inner = real::brk(&b);
    if got != comps || inner.comps.len() != comps.len() || b.span != sp {
        cx.bad(&label, format!("the text has the pieces {:?} and the span {:?}, expected {:?}", got, b.span, sp));
    }
    let shown = real::t(|| b.to_string());
    if shown != want {
        cx.bad(&label, format!("is displayed as {:?}, expected {:?}", shown, want));
    }
    // within a variable, a label, an array
    let s = SpannedString { span: sp, content: g.text(Class::Any) };
    let r: bool = real::t(|| s.to_string() == s.content && s.as_ref() == s.content.as_str());
    if !r {
        cx.bad(&label, format!("the string {:?} is displayed as {:?}", s.content, s.to_string()));
    }
    let v = real::t(|| EnvVar::new(sp, s.clone(), b.clone()));
    if v.span != sp || v.key != s || v.value != b {
        cx.bad(&label, format!("a variable made from it is {:?}", v));
    }
    let l = real::t(|| Label::new(sp, s.clone(), SpannedString { span: sp, content: want.clone() }));
    if l.span != sp || l.name != s || l.value.content != want {
        cx.bad(&label, format!("a label made from it is {:?}", l));
    }
    let els: Vec<SpannedString> = (0..g.r.heavy(0, 9)).map(|_| SpannedString { span: span(&mut g), content: g.text(Class::Any) }).collect();
    let a = StringArray { span: sp, elements: els.clone() };
    let v: Vec<String> = real::t(|| a.as_str_vec().into_iter().map(String::from).collect());
    if v != els.iter().map(|e| e.content.clone()).collect::<Vec<_>>() {
        cx.bad(&label, format!("the array {:?} lists as {:?}", els, v));
    }
    // references
    let part = |g: &mut G| if g.r.chance(1, 8) { String::new() } else { g.text(Class::Any) };
    let i = ImageRef {
        registry: if g.r.coin() { Some(part(&mut g)) } else { None },
        image: part(&mut g),
        tag: None,
        hash: None,
    };
    let tail = part(&mut g);
    let (i, suffix) = match g.r.below(3) {
        0 => (i, String::new()),
        1 => (ImageRef { tag: Some(tail.clone()), ..i }, format!(":{}", tail)),
        _ => (ImageRef { hash: Some(tail.clone()), ..i }, format!("@{}", tail)),
    };
    let want = format!("{}{}{}", i.registry.as_ref().map_or(String::new(), |r| format!("{}/", r)), i.image, suffix);
    let got = real::t(|| i.to_string());
    if got != want {
        cx.bad(&format!("{:?}", i), format!("is displayed as {:?}, expected {:?}", got, want));
    }
    let k = g.r.below(1000);
    let shown = real::t(|| (StageParent::Image(&i).to_string(), StageParent::Stage(k).to_string(), StageParent::Scratch.to_string()));
    if shown != (want, k.to_string(), "scratch".to_string()) {
        cx.bad(&format!("{:?}", i), format!("parents are displayed as {:?}", shown));
    }
    cx.ev("references built and displayed", 1);
    let t = (g.r.below(1 << 40), g.r.next() as usize);
    let s = real::t(|| (Span::from(t), Span::new(t.0, t.1)));
    if s.0 != s.1 || (s.0.start, s.0.end) != t {
        cx.bad(&format!("{:?}", t), format!("the spans made from it are {:?}", s));
    }
}

// ---------------------------------------------------------------------------
// C31

enum Leaf<'a> {
    Num(&'a mut usize),
    Text(&'a mut String),
    Opt(&'a mut Option<String>),
    Drop(Box<dyn FnOnce() + 'a>),
}

struct Walk<'f> {
    f: &'f mut dyn FnMut(Leaf),
}

impl<'f> Walk<'f> {
    fn span(&mut self, s: &mut Span) {
        (self.f)(Leaf::Num(&mut s.start));
        (self.f)(Leaf::Num(&mut s.end));
    }
    fn ss(&mut self, s: &mut SpannedString) {
        self.span(&mut s.span);
        (self.f)(Leaf::Text(&mut s.content));
    }
    fn brk(&mut self, b: &mut BreakableString) {
        self.span(&mut b.span);
        for c in &mut b.components {
            match c {
                BreakableStringComponent::String(s) => self.ss(s),
                BreakableStringComponent::Comment(s) => {
                    self.span(&mut s.span);
                    (self.f)(Leaf::Text(&mut s.content));
                }
            }
        }
        if !b.components.is_empty() {
            (self.f)(Leaf::Drop(Box::new(|| {
                b.components.pop();
            })));
        }
    }
    fn list<T: Clone>(&mut self, v: &mut Vec<T>) {
        if !v.is_empty() {
            (self.f)(Leaf::Drop(Box::new(|| {
                v.pop();
            })));
            (self.f)(Leaf::Drop(Box::new(|| {
                let x = v[0].clone();
                v.push(x);
            })));
        }
    }
    fn expr(&mut self, e: &mut ShellOrExecExpr) {
        match e {
            ShellOrExecExpr::Shell(b) => self.brk(b),
            ShellOrExecExpr::Exec(a) => {
                self.span(&mut a.span);
                for x in &mut a.elements {
                    self.ss(x);
                }
                self.list(&mut a.elements);
            }
        }
    }
    fn image(&mut self, i: &mut ImageRef) {
        (self.f)(Leaf::Opt(&mut i.registry));
        (self.f)(Leaf::Text(&mut i.image));
        (self.f)(Leaf::Opt(&mut i.tag));
        (self.f)(Leaf::Opt(&mut i.hash));
    }
    fn arg(&mut self, a: &mut ArgInstruction) {
        self.span(&mut a.span);
        self.ss(&mut a.name);
        if let Some(v) = &mut a.value {
            self.ss(v);
        }
        if a.value.is_some() {
            (self.f)(Leaf::Drop(Box::new(|| a.value = None)));
        }
    }
    fn ins(&mut self, i: &mut Instruction) {
        match i {
            Instruction::From(f) => {
                self.span(&mut f.span);
                for x in &mut f.flags {
                    self.span(&mut x.span);
                    self.ss(&mut x.name);
                    self.ss(&mut x.value);
                }
                self.list(&mut f.flags);
                self.ss(&mut f.image);
                self.image(&mut f.image_parsed);
                (self.f)(Leaf::Num(&mut f.index));
                if let Some(a) = &mut f.alias {
                    self.ss(a);
                }
                if f.alias.is_some() {
                    (self.f)(Leaf::Drop(Box::new(|| f.alias = None)));
                }
            }
            Instruction::Arg(a) => self.arg(a),
            Instruction::Label(l) => {
                self.span(&mut l.span);
                for x in &mut l.labels {
                    self.span(&mut x.span);
                    self.ss(&mut x.name);
                    self.ss(&mut x.value);
                }
                self.list(&mut l.labels);
            }
            Instruction::Run(x) => {
                self.span(&mut x.span);
                self.expr(&mut x.expr)
            }
            Instruction::Cmd(x) => {
                self.span(&mut x.span);
                self.expr(&mut x.expr)
            }
            Instruction::Entrypoint(x) => {
                self.span(&mut x.span);
                self.expr(&mut x.expr)
            }
            Instruction::Copy(c) => {
                self.span(&mut c.span);
                for x in &mut c.flags {
                    self.span(&mut x.span);
                    self.ss(&mut x.name);
                    self.ss(&mut x.value);
                }
                self.list(&mut c.flags);
                for x in &mut c.sources {
                    self.ss(x);
                }
                self.list(&mut c.sources);
                self.ss(&mut c.destination);
            }
            Instruction::Env(e) => {
                self.span(&mut e.span);
                for x in &mut e.vars {
                    self.span(&mut x.span);
                    self.ss(&mut x.key);
                    self.brk(&mut x.value);
                }
                self.list(&mut e.vars);
            }
            Instruction::Misc(m) => {
                self.span(&mut m.span);
                self.ss(&mut m.instruction);
                self.brk(&mut m.arguments);
            }
        }
    }
    fn doc(&mut self, d: &mut Dockerfile) {
        (self.f)(Leaf::Text(&mut d.content));
        for a in &mut d.global_args {
            self.arg(a);
        }
        self.list(&mut d.global_args);
        for i in &mut d.instructions {
            self.ins(i);
        }
        self.list(&mut d.instructions);
    }
}

fn other_text(t: &str, r: &mut dfcore::rng::Rng) -> String {
    let swap = |t: &str| -> String { t.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
    match r.below(7) {
        0 => format!("{} ", t),
        1 => format!(" {}", t),
        2 if swap(t) != t => swap(t),
        3 if !t.is_empty() => {
            let mut t = t.to_string();
            t.pop();
            t
        }
        4 => format!("{}\n", t),
        5 if t.len() > 1 && t.chars().rev().collect::<String>() != t => t.chars().rev().collect(),
        _ => format!("{}x", t),
    }
}

/// changes the k-th leaf
fn change(l: Leaf, r: &mut dfcore::rng::Rng) -> &'static str {
    match l {
        Leaf::Num(n) => {
            *n = match r.below(4) {
                0 => n.wrapping_add(1 << 32),
                1 if *n > 0 => *n - 1,
                _ => *n + 1,
            };
            "positions and numbers"
        }
        Leaf::Text(t) => {
            *t = other_text(t, r);
            "texts"
        }
        Leaf::Opt(o) => {
            *o = match o.take() {
                Some(t) if r.coin() => Some(other_text(&t, r)),
                Some(_) => None,
                None => Some(if r.coin() { String::new() } else { "latest".into() }),
            };
            "optional parts"
        }
        Leaf::Drop(f) => {
            f();
            "lists"
        }
    }
}

fn changed(d: &Dockerfile, r: &mut dfcore::rng::Rng) -> (Dockerfile, &'static str) {
    let mut n = 0;
    let mut c = d.clone();
    Walk { f: &mut |_| n += 1 }.doc(&mut c);
    let mut c = d.clone();
    let k = r.below(n);
    let mut at = 0;
    let mut what = "";
    Walk {
        f: &mut |l| {
            if at == k {
                what = change(l, r);
            }
            at += 1;
        },
    }
    .doc(&mut c);
    (c, what)
}

#[allow(clippy::nonminimal_bool)]
fn eq_ok<T: PartialEq>(a: &T, b: &T, want: bool) -> bool {
    (a == b) == want && (b == a) == want && (a != b) != want && (b != a) != want
}

fn c31_doc(cx: &mut Cx) {
    let Some(d) = pick_doc(cx) else { return };
    cx.note(&d.content);
    cx.seen(&d.content);
    let m = real::snap(&d);
    let c = real::t(|| d.clone());
    if real::snap(&c) != m || !eq_ok(&d, &c, true) {
        cx.bad(&d.content, format!("a clone of the document differs: {:?}", c));
        return;
    }
    cx.ev("clones compared", 1);
    let again = real::parse(&d.content).ok();
    if let Some(a) = again {
        if real::snap(&a) == m && !eq_ok(&d, &a, true) {
            cx.bad(&d.content, "two equal results compare as different".into());
        }
    }
    for _ in 0..6 {
        let (x, what) = changed(&d, &mut cx.r);
        let mx = real::snap(&x);
        if mx == m {
            continue;
        }
        cx.ev(&format!("documents that differ in {} compared", what), 1);
        if !real::t(|| eq_ok(&d, &x, false)) {
            cx.bad(&d.content, format!("documents that differ compare as equal: {}", diff(&m.ins, &mx.ins).unwrap_or_else(|| "content or global arguments".into())));
            return;
        }
        // the parts compare like the whole
        for (k, (a, b)) in d.instructions.iter().zip(&x.instructions).enumerate() {
            let want = m.ins[k] == mx.ins[k];
            if !real::t(|| eq_ok(a, b, want)) {
                cx.bad(&d.content, format!("the instructions {:?} and {:?} compare as {}", a, b, if want { "different" } else { "equal" }));
                return;
            }
            if let (Instruction::From(p), Instruction::From(q)) = (a, b) {
                let want = real::img(&p.image_parsed) == real::img(&q.image_parsed);
                if !real::t(|| eq_ok(&p.image_parsed, &q.image_parsed, want)) {
                    cx.bad(&d.content, format!("the references {:?} and {:?} compare as {}", p.image_parsed, q.image_parsed, if want { "different" } else { "equal" }));
                }
            }
        }
        // a clone is not affected by changes to the other
        if real::snap(&d) != m {
            cx.bad(&d.content, "changing a clone changed the original".into());
            return;
        }
    }
    // instructions of one document against one another
    for _ in 0..6 {
        if m.ins.len() < 2 {
            break;
        }
        let (a, b) = (cx.r.below(m.ins.len()), cx.r.below(m.ins.len()));
        if !real::t(|| eq_ok(&d.instructions[a], &d.instructions[b], m.ins[a] == m.ins[b])) {
            cx.bad(&d.content, format!("instructions {} and {} compare wrongly", a, b));
        }
        cx.ev("pairs of instructions compared", 1);
    }
}

/// comparison is a total order that agrees with equality
fn order<T: Ord + std::fmt::Debug>(cx: &mut Cx, v: &[T], what: &str) {
    let r: Result<u64, String> = real::t(|| {
        let mut n = 0;
        for a in v {
            for b in v {
                let c = a.cmp(b);
                n += 1;
                if a.partial_cmp(b) != Some(c)
                    || b.cmp(a) != c.reverse()
                    || (a == b) != (c == Ordering::Equal)
                    || (a < b) != (c == Ordering::Less)
                    || (a <= b) != (c != Ordering::Greater)
                    || (a > b) != (c == Ordering::Greater)
                    || (a >= b) != (c != Ordering::Less)
                {
                    return Err(format!("comparing {:?} and {:?} is not consistent", a, b));
                }
                for x in v {
                    if c != Ordering::Greater && b.cmp(x) != Ordering::Greater && a.cmp(x) == Ordering::Greater {
                        return Err(format!("{:?}, {:?} and {:?} are not in order", a, b, x));
                    }
                }
            }
        }
        Ok(n)
    });
    match r {
        Ok(n) => cx.ev(&format!("pairs of {} compared", what), n),
        Err(m) => cx.bad(&format!("{:?}", v), m),
    }
}

fn c31_order(cx: &mut Cx) {
    let mut g = cx.g();
    let num = |g: &mut G| match g.r.below(6) {
        0 => *g.r.pick(&[0usize, 1, 255, 256, 65_535, 65_536, 1 << 31, 1 << 32, 1 << 40, usize::MAX]),
        1 => g.r.next() as usize,
        _ => g.r.below(6),
    };
    let span = |g: &mut G| Span::new(num(g), num(g));
    let spans: Vec<Span> = (0..7).map(|_| span(&mut g)).collect();
    cx.seen(&format!("{:?}", spans));
    for a in &spans {
        for b in &spans {
            let want = (a.start, a.end).cmp(&(b.start, b.end));
            if real::t(|| a.cmp(b)) != want || !eq_ok(a, b, want == Ordering::Equal) {
                cx.bad(&format!("{:?}", spans), format!("the spans {:?} and {:?} compare as {:?}", a, b, a.cmp(b)));
            }
            let (c, d) = (*a, real::t(|| Clone::clone(a)));
            if (c.start, c.end, d.start, d.end) != (a.start, a.end, a.start, a.end) {
                cx.bad(&format!("{:?}", spans), format!("a copy of {:?} differs", a));
            }
        }
        let shown = real::t(|| format!("{:?}", a));
        let nums: Vec<String> = shown.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(String::from).collect();
        if nums != [a.start.to_string(), a.end.to_string()] {
            cx.bad(&format!("{:?}", (a.start, a.end)), format!("the span is printed as {:?}", shown));
        }
    }
    order(cx, &spans, "spans");
    let texts: Vec<String> = vec!["a".into(), "A".into(), "".into(), "ab".into(), "a ".into(), "é".into(), g.text(Class::Any), g.text(Class::Any)];
    let base = spans.clone();
    let few = |g: &mut G| if g.r.coin() { base[0] } else { *g.r.pick(&base) };
    let mut eqs: Vec<(bool, bool, String)> = vec![];
    let strings: Vec<SpannedString> = (0..6).map(|_| SpannedString { span: few(&mut g), content: g.r.pick(&texts).clone() }).collect();
    let comments: Vec<SpannedComment> = strings.iter().map(|s| SpannedComment { span: s.span, content: s.content.clone() }).collect();
    for a in &strings {
        for b in &strings {
            let want = (a.span.start, a.span.end, &a.content) == (b.span.start, b.span.end, &b.content);
            eqs.push((want, eq_ok(a, b, want), format!("{:?} and {:?}", a, b)));
        }
    }
    let comps: Vec<BreakableStringComponent> = (0..5).map(|k| if g.r.coin() { strings[k].clone().into() } else { comments[k].clone().into() }).collect();
    for a in &comps {
        for b in &comps {
            let want = match (a, b) {
                (BreakableStringComponent::String(a), BreakableStringComponent::String(b)) => (a.span.start, a.span.end, &a.content) == (b.span.start, b.span.end, &b.content),
                (BreakableStringComponent::Comment(a), BreakableStringComponent::Comment(b)) => (a.span.start, a.span.end, &a.content) == (b.span.start, b.span.end, &b.content),
                _ => false,
            };
            eqs.push((want, eq_ok(a, b, want), format!("{:?} and {:?}", a, b)));
        }
    }
    let brks: Vec<BreakableString> = (0..5)
        .map(|_| {
            let mut b = BreakableString::new(few(&mut g));
            let mut at = g.r.below(5);
            for _ in 0..g.r.below(5) {
                let mut c = g.r.pick(&comps).clone();
                if g.r.coin() {
                    // one after the other without a gap
                    let n = at + g.r.below(3);
                    match &mut c {
                        BreakableStringComponent::String(s) => s.span = Span::new(at, n),
                        BreakableStringComponent::Comment(s) => s.span = Span::new(at, n),
                    }
                    at = n;
                }
                b.components.push(c);
            }
            b
        })
        .collect();
    for a in &brks {
        for b in &brks {
            let want = real::brk(a) == real::brk(b);
            eqs.push((want, eq_ok(a, b, want), format!("{:?} and {:?}", a, b)));
        }
    }
    let arrays: Vec<StringArray> = (0..5)
        .map(|_| {
            let n = g.r.below(3);
            StringArray { span: few(&mut g), elements: (0..n).map(|_| g.r.pick(&strings).clone()).collect() }
        })
        .collect();
    for a in &arrays {
        for b in &arrays {
            let v = |x: &StringArray| (real::sp(x.span), x.elements.iter().map(real::ss).collect::<Vec<_>>());
            let want = v(a) == v(b);
            eqs.push((want, eq_ok(a, b, want), format!("{:?} and {:?}", a, b)));
        }
    }
    // clones, also as parts of instructions
    for b in &brks {
        let m = real::brk(b);
        let key = strings[0].clone();
        let r = real::t(|| {
            let v = EnvVar::new(b.span, key, b.clone());
            let e = ShellOrExecExpr::Shell(b.clone());
            let i = Instruction::from(MiscInstruction { span: b.span, instruction: v.key.clone(), arguments: b.clone() });
            (v.clone(), e.clone(), i.clone(), v, e, i)
        });
        let same = real::brk(&b.clone()) == m
            && real::brk(&r.0.value) == m
            && real::brk(r.1.as_shell().unwrap()) == m
            && real::brk(&r.2.as_misc().unwrap().arguments) == m;
        if !same || !eq_ok(&r.0, &r.3, true) || !eq_ok(&r.1, &r.4, true) || !eq_ok(&r.2, &r.5, true) {
            cx.bad(&format!("{:?}", b), format!("a clone differs: {:?} or {:?}", b.clone(), r.0));
        }
        cx.ev("clones of built values compared", 1);
    }
    for a in &arrays {
        let r = real::t(|| (a.clone(), ShellOrExecExpr::Exec(a.clone()).clone()));
        let v = |x: &StringArray| (real::sp(x.span), x.elements.iter().map(real::ss).collect::<Vec<_>>());
        if v(&r.0) != v(a) || v(r.1.as_exec().unwrap()) != v(a) {
            cx.bad(&format!("{:?}", a), format!("a clone differs: {:?}", r));
        }
    }
    for c in comps.iter() {
        let d = real::t(|| c.clone());
        if format!("{:?}", d) != format!("{:?}", c) || !eq_ok(c, &d, true) {
            cx.bad(&format!("{:?}", c), format!("a clone differs: {:?}", d));
        }
    }
    for (want, ok, what) in eqs {
        if !ok {
            cx.bad(&what, format!("compare as {}", if want { "different" } else { "equal" }));
        }
    }
    order(cx, &strings, "strings");
    order(cx, &comments, "comments");
    order(cx, &comps, "pieces");
    order(cx, &brks, "broken texts");
    order(cx, &arrays, "arrays");
}

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C30" => Prop {
            id: "C30",
            rule: "accepted documents whose instructions are removed, repeated, moved, swapped, cut off, added or changed in memory (with global arguments, ordinals and parsed images kept in step), and whose content is replaced, used through stages, lookups, resolution, global arguments, splicers and relative positions; texts, variables, labels, arrays, references and spans built by hand; non-trivial: each, distinct by its contents",
            need: &["edited documents used", "instructions removed", "instructions moved", "instructions added", "instructions changed", "instructions given other positions", "splices of edited contents", "texts built piece by piece", "stages built on a stage"],
            assumptions: &["edited documents are consistent: global_args are the ARGs before the first FROM, index counts FROMs, image_parsed is the parsed image"],
            fams: vec![
                fam("edited", 60_000, 3_000_000, c30_edited),
                fam("content", 40_000, 2_000_000, c30_content),
                fam("built", 100_000, 5_000_000, c30_built),
            ],
        },
        "C31" => Prop {
            id: "C31",
            rule: "accepted documents compared with their clones and with copies changed in one place (a number, a text, an optional part, a list), their instructions and image references with one another; spans, strings, comments, pieces, texts and arrays built by hand, all pairs and triples compared; non-trivial: each, distinct by contents",
            need: &["clones compared", "documents that differ in texts compared", "documents that differ in positions and numbers compared", "documents that differ in lists compared", "documents that differ in optional parts compared", "pairs of spans compared"],
            assumptions: &[],
            fams: vec![fam("documents", 60_000, 3_000_000, c31_doc), fam("order", 20_000, 1_000_000, c31_order)],
        },
        _ => return None,
    })
}
