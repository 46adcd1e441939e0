//! C07-C13 and C27: what each kind of instruction is parsed to.

use super::*;
use dfcore::rec::clip;

fn shells(d: &Doc) -> Vec<Ins> {
    d.ins.iter().filter(|i| matches!(i.k.expr(), Some(Expr::Shell(_)) | Some(Expr::Unknown))).map(unspan).collect()
}
fn execs(d: &Doc) -> Vec<Ins> {
    d.ins.iter().filter(|i| matches!(i.k.expr(), Some(Expr::Exec(..)) | Some(Expr::Unknown))).map(unspan).collect()
}
fn of(d: &Doc, k: Kind) -> Vec<Ins> {
    d.ins.iter().filter(|i| i.k.kind() == k).map(unspan).collect()
}
fn envs(d: &Doc) -> Vec<Ins> {
    d.ins.iter().filter(|i| i.k.kind() == Kind::Env).map(meaning).collect()
}
fn labels(d: &Doc) -> Vec<Ins> {
    of(d, Kind::Label)
}
fn copies(d: &Doc) -> Vec<Ins> {
    of(d, Kind::Copy)
}
fn froms(d: &Doc) -> Vec<Ins> {
    of(d, Kind::From)
}
fn args(d: &Doc) -> Vec<Ins> {
    // the global arguments count as well, set apart by a marker
    let mut v = of(d, Kind::Arg);
    if !v.is_empty() {
        v.push(Ins { sp: (0, 0), k: K::Env(vec![]) });
        v.extend(d.globals.iter().map(unspan));
    }
    v
}
fn miscs(d: &Doc) -> Vec<Ins> {
    d.ins.iter().filter(|i| i.k.kind() == Kind::Misc).map(meaning).collect()
}

fn shell_extra(cx: &mut Cx, d: &dp::Dockerfile, s: &str) {
    for i in &d.instructions {
        if let Some(dp::ShellOrExecExpr::Shell(b)) = real::real_expr(i) {
            let want = real::brk(b).text();
            let got = real::t(|| format!("{}", b));
            if want != got {
                cx.bad(s, format!("the command is displayed as {:?} but its pieces are {:?}", clip(&got, 300), clip(&want, 300)));
            }
            let n = real::t(|| b.iter_components().count());
            if n != b.components.len() || !real::t(|| b.iter_components().zip(&b.components).all(|(a, b)| a == b)) {
                cx.bad(s, "iterating over the components differs from the list of components".into());
            }
            cx.ev("commands displayed", 1);
        }
    }
}

fn exec_extra(cx: &mut Cx, d: &dp::Dockerfile, s: &str) {
    for i in &d.instructions {
        if let Some(dp::ShellOrExecExpr::Exec(a)) = real::real_expr(i) {
            let v: Vec<String> = real::t(|| a.as_str_vec().iter().map(|x| x.to_string()).collect());
            let w: Vec<String> = a.elements.iter().map(|e| e.content.clone()).collect();
            if v != w {
                cx.bad(s, format!("the list of element texts {:?} differs from the elements {:?}", v, w));
            }
            cx.ev("arrays listed", 1);
        }
    }
}

fn env_extra(cx: &mut Cx, d: &dp::Dockerfile, s: &str) {
    for i in &d.instructions {
        if let dp::Instruction::Env(e) = i {
            for v in &e.vars {
                let want = real::brk(&v.value).text();
                let got = real::t(|| v.value.to_string());
                if want != got {
                    cx.bad(s, format!("the value of {:?} is displayed as {:?}, not {:?}", v.key.content, got, want));
                }
                cx.ev("variables displayed", 1);
            }
        }
    }
}

fn misc_extra(cx: &mut Cx, d: &dp::Dockerfile, s: &str) {
    for i in &d.instructions {
        if let dp::Instruction::Misc(m) = i {
            let want = real::brk(&m.arguments).text();
            let got = real::t(|| m.arguments.to_string());
            if want != got {
                cx.bad(s, format!("the arguments are displayed as {:?}, not {:?}", got, want));
            }
        }
    }
}

fn arg_extra(cx: &mut Cx, d: &dp::Dockerfile, s: &str) {
    // expected from the instructions themselves
    let mut want: Vec<&dp::ArgInstruction> = vec![];
    for i in &d.instructions {
        match i {
            dp::Instruction::From(_) => break,
            dp::Instruction::Arg(a) => want.push(a),
            _ => {}
        }
    }
    let mut names: Vec<String> = vec![String::new(), "A".into(), "a".into(), "_".into()];
    for i in &d.instructions {
        if let dp::Instruction::Arg(a) = i {
            let n = &a.name.content;
            names.push(n.clone());
            names.push(n.to_ascii_uppercase());
            names.push(n.to_ascii_lowercase());
            names.push(format!("{}x", n));
            names.push(n[..n.len().saturating_sub(1)].to_string());
            names.push(format!(" {}", n));
            names.push(disguised(n, &mut cx.r));
        }
    }
    names.sort();
    names.dedup();
    for n in &names {
        let w = want.iter().find(|a| a.name.content == *n).map(|a| real::arg(a));
        let g = real::t(|| d.get_global_arg(n)).map(real::arg);
        if w != g {
            cx.bad(s, format!("looking up the global argument {:?} gave {:?}, expected {:?}", n, g, w));
        }
        cx.ev("global argument lookups", 1);
        if w.is_some() {
            cx.ev("global argument lookups that found one", 1);
        }
    }
}

fn from_extra(cx: &mut Cx, d: &dp::Dockerfile, s: &str) {
    let mut n = 0;
    for i in &d.instructions {
        if let dp::Instruction::From(f) = i {
            if f.index != n {
                cx.bad(s, format!("FROM number {} has index {}", n, f.index));
            }
            n += 1;
            let alone = real::t(|| dp::ImageRef::parse(&f.image.content));
            if alone != f.image_parsed {
                cx.bad(s, format!("parsed image {:?} differs from parsing {:?} on its own", f.image_parsed, f.image.content));
            }
        }
    }
    cx.ev("FROM ordinals checked", n as u64);
}

struct KindProp {
    id: &'static str,
    kinds: &'static [Kind],
    slice: Slice,
    extra: Extra,
    small: &'static [&'static str],
    rule: &'static str,
}

fn build(k: KindProp) -> Prop {
    let KindProp { id, kinds, slice, extra, small, rule } = k;
    let fk = move |cx: &mut Cx| -> Option<Kind> { Some(*cx.r.pick(kinds)) };
    Prop {
        id,
        rule,
        need: &["generated documents judged", "accepted hostile texts judged"],
        assumptions: &["the reference parser and the generator agree with each other on every generated document (checked in every case)"],
        fams: vec![
            fam("generated", 200_000, 6_000_000, move |cx| {
                let f = fk(cx);
                judge_gen(cx, f, slice, extra)
            }),
            fam("hostile", 250_000, 10_000_000, move |cx| {
                let f = fk(cx);
                let s = hostile_doc(cx, f);
                judge_text(cx, &s, slice, extra)
            }),
            fam("big", 1_500, 60_000, move |cx| {
                let f = fk(cx);
                let d = big_doc(cx, f);
                judge_doc(cx, &d, slice, extra)
            }),
            fam("exhaustive-4", small_total(small.len(), 13, 4), small_total(small.len(), 13, 4), move |cx| {
                if let Some(s) = small_doc(cx, small, &hostile::ALPHA, 4) {
                    judge_text(cx, &s, slice, extra)
                }
            }),
            fam("exhaustive-6", 0, small_total(small.len().min(3), 13, 6), move |cx| {
                if let Some(s) = small_doc(cx, small, &hostile::ALPHA, 6) {
                    judge_text(cx, &s, slice, extra)
                }
            }),
        ],
    }
}

pub fn get(id: &str) -> Option<Prop> {
    let p = match id {
        "C07" => KindProp {
            id: "C07",
            kinds: &[Kind::Run, Kind::Cmd, Kind::Entrypoint],
            slice: shells,
            extra: shell_extra,
            small: &["RUN ", "CMD [", "ENTRYPOINT a\\\n", "RUN a\\\n#", "run [\"a\"", "RUN"],
            rule: "documents rendered from known shell commands (pieces, comments, continuations, all line ends), mutated and random texts judged by the reference parser, and every string of 4 characters over a 13-letter alphabet after a keyword; non-trivial: the document has a shell-form instruction, distinct by text",
        },
        "C08" => KindProp {
            id: "C08",
            kinds: &[Kind::Run, Kind::Cmd, Kind::Entrypoint],
            slice: execs,
            extra: exec_extra,
            small: &["RUN [", "CMD [\"a\"", "ENTRYPOINT [\"", "RUN [\"a\",", "cmd ['"],
            rule: "documents rendered from known arrays (0 to 600 elements, both quote styles, every escape, gaps with continuations and comments), hostile texts judged by the reference parser, exhaustive short tails; non-trivial: the document has an exec-form instruction, distinct by text",
        },
        "C09" => KindProp {
            id: "C09",
            kinds: &[Kind::Env],
            slice: envs,
            extra: env_extra,
            small: &["ENV ", "ENV a=", "ENV a ", "env a=\"", "ENV a=b"],
            rule: "documents rendered from known variables (pairs and single form), hostile texts judged by the reference parser, exhaustive short tails; non-trivial: the document has an ENV, distinct by text",
        },
        "C10" => KindProp {
            id: "C10",
            kinds: &[Kind::Label],
            slice: labels,
            extra: no_extra,
            small: &["LABEL ", "LABEL a=", "LABEL a ", "label \"", "LABEL a=b"],
            rule: "documents rendered from known labels (quoted or not, repeated names, single form), hostile texts judged by the reference parser, exhaustive short tails; non-trivial: the document has a LABEL, distinct by text",
        },
        "C11" => KindProp {
            id: "C11",
            kinds: &[Kind::Arg],
            slice: args,
            extra: arg_extra,
            small: &["ARG ", "ARG a=", "ARG a", "arg a=\"", "USER x\nARG a"],
            rule: "documents rendered from known ARGs before and after FROMs, hostile texts judged by the reference parser, lookups of present, absent, re-cased and extended names; non-trivial: the document has an ARG, distinct by text",
        },
        "C12" => KindProp {
            id: "C12",
            kinds: &[Kind::Copy],
            slice: copies,
            extra: no_extra,
            small: &["COPY ", "COPY a ", "COPY --x=", "copy a b", "COPY --"],
            rule: "documents rendered from known flags and paths, hostile texts judged by the reference parser, exhaustive short tails; non-trivial: the document has a COPY, distinct by text",
        },
        "C13" => KindProp {
            id: "C13",
            kinds: &[Kind::From],
            slice: froms,
            extra: from_extra,
            small: &["FROM ", "FROM a", "FROM a as ", "from --x=", "FROM a a"],
            rule: "documents rendered from known flags, images and aliases, hostile texts judged by the reference parser, exhaustive short tails; non-trivial: the document has a FROM, distinct by text",
        },
        "C27" => KindProp {
            id: "C27",
            kinds: &[Kind::Misc],
            slice: miscs,
            extra: misc_extra,
            small: &["USER ", "ADD", "x ", "FROMX ", "RU n\\\n"],
            rule: "documents rendered from unknown instruction words (including ones that extend or cut a known keyword) with verbatim arguments, hostile texts judged by the reference parser; non-trivial: the document has such an instruction, distinct by text",
        },
        _ => return None,
    };
    let mut p = build(p);
    match id {
        "C11" => p.fams.push(fam("preambles", 60_000, 3_000_000, |cx| {
            // many arguments around the first FROM
            let mut g = cx.g();
            let mut v = vec![];
            for _ in 0..g.r.heavy(0, 12) {
                let k = *g.r.pick(&[Kind::Arg, Kind::Arg, Kind::Arg, Kind::Misc, Kind::Env, Kind::Label, Kind::Run, Kind::Copy, Kind::Cmd]);
                v.push(g.ins(k));
            }
            if g.r.chance(1, 12) {
                // long runs of one kind ahead of an argument
                let ks = [Kind::Arg, Kind::Misc, Kind::Env, Kind::Label, Kind::Run, Kind::Copy, Kind::Cmd, Kind::Entrypoint];
                let (mut k, mixed) = (*g.r.pick(&ks), g.r.chance(1, 4));
                for _ in 0..g.r.range(10, 150) {
                    if mixed {
                        k = *g.r.pick(&ks);
                    }
                    v.push(g.ins(k));
                }
                for _ in 0..g.r.range(1, 4) {
                    v.push(g.ins(Kind::Arg));
                }
            }
            if g.r.chance(5, 6) {
                v.push(g.ins(Kind::From));
            }
            for _ in 0..g.r.heavy(0, 8) {
                let k = *g.r.pick(&[Kind::Arg, Kind::Arg, Kind::From, Kind::Misc]);
                v.push(g.ins(k));
            }
            let f = Fmt::random(&mut cx.r);
            let d = render(&v, &mut cx.r, &f);
            if !agree(cx, &d) {
                return;
            }
            judge_doc(cx, &d, args, arg_extra)
        })),
        "C27" => {
            // a well-formed known keyword must never come out as miscellaneous
            p.fams.push(fam("known-keywords", 120_000, 4_000_000, |cx| {
                fn bare(d: &Doc) -> Vec<Ins> {
                    d.ins.iter().map(|i| Ins { sp: (0, 0), k: if let K::Misc { .. } = i.k { meaning(i).k } else { K::Label(vec![]) } }).collect()
                }
                judge_gen(cx, None, bare, misc_extra)
            }));
        }
        _ => {}
    }
    Some(p)
}
