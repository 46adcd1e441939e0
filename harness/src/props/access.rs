//! C26: typed access to instructions.

use super::*;
use dfcore::rec::clip;
use dp::*;
use std::convert::{TryFrom, TryInto};

/// Compares one typed view with the instruction it came from.
macro_rules! check {
    ($out:expr, $what:expr, $is:expr, $got:expr, $want:expr) => {
        match ($is, $got) {
            (true, Some(g)) => {
                if g != $want {
                    $out.push(format!("{} gives {:?}", $what, g));
                }
            }
            (false, None) => {}
            (true, None) => $out.push(format!("{} gives nothing", $what)),
            (false, Some(g)) => $out.push(format!("{} gives {:?}", $what, g)),
        }
    };
}

fn conv<T, E: std::fmt::Display>(out: &mut Vec<String>, what: &str, is: bool, r: Result<T, dp::Error>, view: impl Fn(&T) -> Ins, want: &Ins) -> Option<E> {
    match r {
        Ok(t) => {
            let g = view(&t);
            if !is || g != *want {
                out.push(format!("{} gives {:?}", what, g));
            }
        }
        Err(e) => {
            if is {
                out.push(format!("{} fails: {}", what, e));
            } else if !matches!(e, dp::Error::ConversionError { .. }) {
                out.push(format!("{} gives another error than a conversion error: {}", what, e));
            } else if e.to_string().is_empty() {
                out.push(format!("{}: the error displays as nothing", what));
            }
        }
    }
    None
}

fn exprs(out: &mut Vec<String>, who: &str, e: &Expr, s: Option<Brk>, x: Option<Expr>) {
    match e {
        Expr::Shell(b) => {
            if s.as_ref() != Some(b) || x.is_some() {
                out.push(format!("{}: shell form, but shell access gives {:?} and exec access {:?}", who, s, x));
            }
        }
        e => {
            if s.is_some() || x.as_ref() != Some(e) {
                out.push(format!("{}: exec form, but shell access gives {:?} and exec access {:?}", who, s, x));
            }
        }
    }
}

fn arr(a: &StringArray) -> Expr {
    Expr::Exec(real::sp(a.span), a.elements.iter().map(real::ss).collect())
}

/// Everything that is wrong with the typed views of `i`.
pub fn views(i: &Instruction) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let want = real::ins(i);
    let k = want.k.kind();
    macro_rules! kind {
        ($k:expr, $as:ident, $into:ident, $view:path) => {{
            let is = k == $k;
            check!(o, stringify!($as), is, i.$as().map(|x| $view(x)), want);
            check!(o, stringify!($into), is, i.clone().$into().map(|x| $view(&x)), want);
            if let Some(x) = i.clone().$into() {
                let back: Instruction = x.clone().into();
                if back != *i || real::ins(&back) != want {
                    o.push(format!("converting the result of {} back gives {:?}", stringify!($into), back));
                }
                if back.span() != i.span() || x.span != i.span() {
                    o.push(format!("the span of {} differs: {:?}", stringify!($into), x.span));
                }
            }
        }};
    }
    kind!(Kind::From, as_from, into_from, real::from);
    kind!(Kind::Arg, as_arg, into_arg, real::arg);
    kind!(Kind::Label, as_label, into_label, real::label);
    kind!(Kind::Run, as_run, into_run, real::run);
    kind!(Kind::Entrypoint, as_entrypoint, into_entrypoint, real::entrypoint);
    kind!(Kind::Cmd, as_cmd, into_cmd, real::cmd);
    kind!(Kind::Copy, as_copy, into_copy, real::copy);
    kind!(Kind::Env, as_env, into_env, real::env);
    kind!(Kind::Misc, as_misc, into_misc, real::misc);
    macro_rules! tf {
        ($k:expr, $t:ty, $view:path) => {{
            let r: Result<&$t, dp::Error> = i.try_into();
            conv::<&$t, String>(&mut o, concat!("conversion to &", stringify!($t)), k == $k, r, |x| $view(x), &want);
        }};
    }
    tf!(Kind::From, FromInstruction, real::from);
    tf!(Kind::Arg, ArgInstruction, real::arg);
    tf!(Kind::Label, LabelInstruction, real::label);
    tf!(Kind::Run, RunInstruction, real::run);
    tf!(Kind::Cmd, CmdInstruction, real::cmd);
    tf!(Kind::Copy, CopyInstruction, real::copy);
    tf!(Kind::Env, EnvInstruction, real::env);
    tf!(Kind::Misc, MiscInstruction, real::misc);
    let r = EntrypointInstruction::try_from(i.clone());
    conv::<EntrypointInstruction, String>(&mut o, "conversion to EntrypointInstruction", k == Kind::Entrypoint, r, real::entrypoint, &want);
    if real::sp(i.span()) != want.sp {
        o.push(format!("span() is {:?}", i.span()));
    }
    if let Some(e) = want.k.expr() {
        macro_rules! se {
            ($x:expr) => {{
                let x = $x;
                let who = k.word();
                exprs(&mut o, who, e, x.as_shell().map(real::brk), x.as_exec().map(arr));
                exprs(&mut o, who, e, x.clone().into_shell().map(|b| real::brk(&b)), x.clone().into_exec().map(|b| arr(&b)));
                let y = &x.expr;
                exprs(&mut o, who, e, y.as_shell().map(real::brk), y.as_exec().map(arr));
                exprs(&mut o, who, e, y.clone().into_shell().map(|b| real::brk(&b)), y.clone().into_exec().map(|b| arr(&b)));
            }};
        }
        match i {
            Instruction::Run(x) => se!(x),
            Instruction::Cmd(x) => se!(x),
            Instruction::Entrypoint(x) => se!(x),
            _ => {}
        }
    }
    o
}

fn judge(cx: &mut Cx, i: &Instruction, input: &str) {
    let v = real::t(|| views(i));
    let k = real::ins(i).k;
    let form = match k.expr() {
        Some(Expr::Shell(_)) => " in shell form",
        Some(_) => " in exec form",
        None => "",
    };
    cx.ev(&format!("{}{} instructions tried with every accessor", k.kind().word(), form), 1);
    if !v.is_empty() {
        cx.bad(input, format!("for {}: {}", clip(&format!("{:?}", i), 500), clip(&v.join("; "), 900)));
    }
}

fn text(cx: &mut Cx, s: &str) {
    cx.note(s);
    let Ok(d) = real::parse(s) else { return };
    if !d.instructions.is_empty() {
        cx.seen(s);
    }
    for i in &d.instructions {
        judge(cx, i, s);
    }
}

/// instructions made by hand, with contents no text would give
fn built(cx: &mut Cx) {
    let mut g = cx.g();
    let span = |g: &mut G| Span::new(g.r.below(50), g.r.below(1000));
    let string = |g: &mut G| SpannedString { span: span(g), content: if g.r.chance(1, 6) { String::new() } else { g.text(Class::Any) } };
    let brk = |g: &mut G| {
        let mut b = BreakableString::new((g.r.below(9), g.r.below(99)));
        for _ in 0..g.r.heavy(0, 5) {
            let s = g.text(Class::Any);
            b = if g.r.chance(1, 4) { b.add_comment((1, 2), s) } else { b.add_string((3, 4), s) };
        }
        b
    };
    let expr = |g: &mut G| {
        if g.r.coin() {
            ShellOrExecExpr::Shell(brk(g))
        } else {
            ShellOrExecExpr::Exec(StringArray { span: span(g), elements: (0..g.r.heavy(0, 5)).map(|_| string(g)).collect() })
        }
    };
    let sp = span(&mut g);
    let i: Instruction = match g.r.below(9) {
        0 => {
            let t = g.text(Class::Any);
            FromInstruction {
                span: sp,
                flags: vec![],
                image: string(&mut g),
                image_parsed: ImageRef::parse(&t),
                index: g.r.below(9),
                alias: if g.r.coin() { Some(string(&mut g)) } else { None },
            }
            .into()
        }
        1 => ArgInstruction { span: sp, name: string(&mut g), value: if g.r.coin() { Some(string(&mut g)) } else { None } }.into(),
        2 => LabelInstruction { span: sp, labels: (0..g.r.heavy(0, 4)).map(|_| Label::new(span(&mut g), string(&mut g), string(&mut g))).collect() }.into(),
        3 => RunInstruction { span: sp, expr: expr(&mut g) }.into(),
        4 => CmdInstruction { span: sp, expr: expr(&mut g) }.into(),
        5 => EntrypointInstruction { span: sp, expr: expr(&mut g) }.into(),
        6 => CopyInstruction { span: sp, flags: vec![], sources: (0..g.r.heavy(0, 4)).map(|_| string(&mut g)).collect(), destination: string(&mut g) }.into(),
        7 => EnvInstruction { span: sp, vars: (0..g.r.heavy(0, 4)).map(|_| EnvVar::new(span(&mut g), string(&mut g), brk(&mut g))).collect() }.into(),
        _ => MiscInstruction { span: sp, instruction: string(&mut g), arguments: brk(&mut g) }.into(),
    };
    let s = format!("{:?}", i);
    cx.seen(&s);
    judge(cx, &i, &s);
}

pub fn get(id: &str) -> Option<Prop> {
    if id != "C26" {
        return None;
    }
    Some(Prop {
        id: "C26",
        rule: "every instruction of generated and hostile accepted documents, and instructions built by hand, each tried with all 18 accessors, all 9 fallible conversions, the conversion back, and (for RUN, CMD, ENTRYPOINT) the shell and exec accessors; non-trivial: the document has an instruction, distinct by text",
        need: &[
            "FROM instructions tried with every accessor", "ARG instructions tried with every accessor", "LABEL instructions tried with every accessor",
            "RUN in shell form instructions tried with every accessor", "RUN in exec form instructions tried with every accessor",
            "CMD in shell form instructions tried with every accessor", "CMD in exec form instructions tried with every accessor",
            "ENTRYPOINT in shell form instructions tried with every accessor", "ENTRYPOINT in exec form instructions tried with every accessor",
            "COPY instructions tried with every accessor", "ENV instructions tried with every accessor", "MISC instructions tried with every accessor",
        ],
        assumptions: &[],
        fams: vec![
            fam("generated", 40_000, 1_500_000, |cx| {
                let (_, d) = gen_doc(cx, None);
                text(cx, &d.content)
            }),
            fam("hostile", 50_000, 2_500_000, |cx| {
                let s = hostile_doc(cx, None);
                text(cx, &s)
            }),
            fam("built", 60_000, 3_000_000, built),
        ],
    })
}
