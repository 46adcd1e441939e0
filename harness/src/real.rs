//! The crate under test, seen through its public interface. Every call goes
//! through `t`, which marks that a panic comes from the code under test.

use dfcore::model::*;
use dockerfile_parser as dp;
use std::cell::Cell;

thread_local! {
    pub static IN_TARGET: Cell<bool> = const { Cell::new(false) };
}

pub fn t<T>(f: impl FnOnce() -> T) -> T {
    let old = IN_TARGET.with(|c| c.replace(true));
    let r = f();
    IN_TARGET.with(|c| c.set(old));
    r
}

pub fn parse(s: &str) -> Result<dp::Dockerfile, dp::Error> {
    t(|| dp::Dockerfile::parse(s))
}

pub fn sp(s: dp::Span) -> Sp {
    (s.start, s.end)
}

pub fn ss(s: &dp::SpannedString) -> SS {
    SS { sp: sp(s.span), s: s.content.clone() }
}

pub fn brk(b: &dp::BreakableString) -> Brk {
    Brk {
        sp: sp(b.span),
        comps: b
            .components
            .iter()
            .map(|c| match c {
                dp::BreakableStringComponent::String(s) => Comp::S(ss(s)),
                dp::BreakableStringComponent::Comment(s) => Comp::C(SS { sp: sp(s.span), s: s.content.clone() }),
            })
            .collect(),
    }
}

pub fn expr(e: &dp::ShellOrExecExpr) -> Expr {
    match e {
        dp::ShellOrExecExpr::Shell(b) => Expr::Shell(brk(b)),
        dp::ShellOrExecExpr::Exec(a) => Expr::Exec(sp(a.span), a.elements.iter().map(ss).collect()),
    }
}

pub fn img(i: &dp::ImageRef) -> Img {
    Img { registry: i.registry.clone(), image: i.image.clone(), tag: i.tag.clone(), hash: i.hash.clone() }
}

pub fn from(f: &dp::FromInstruction) -> Ins {
    Ins {
        sp: sp(f.span),
        k: K::From {
            flags: f.flags.iter().map(|x| Flag { sp: sp(x.span), name: ss(&x.name), value: ss(&x.value) }).collect(),
            image: ss(&f.image),
            img: img(&f.image_parsed),
            index: f.index,
            alias: f.alias.as_ref().map(ss),
        },
    }
}

pub fn arg(a: &dp::ArgInstruction) -> Ins {
    Ins { sp: sp(a.span), k: K::Arg { name: ss(&a.name), value: a.value.as_ref().map(ss) } }
}
pub fn label(l: &dp::LabelInstruction) -> Ins {
    Ins { sp: sp(l.span), k: K::Label(l.labels.iter().map(|x| (sp(x.span), ss(&x.name), ss(&x.value))).collect()) }
}
pub fn run(x: &dp::RunInstruction) -> Ins {
    Ins { sp: sp(x.span), k: K::Run(expr(&x.expr)) }
}
pub fn cmd(x: &dp::CmdInstruction) -> Ins {
    Ins { sp: sp(x.span), k: K::Cmd(expr(&x.expr)) }
}
pub fn entrypoint(x: &dp::EntrypointInstruction) -> Ins {
    Ins { sp: sp(x.span), k: K::Entrypoint(expr(&x.expr)) }
}
pub fn copy(c: &dp::CopyInstruction) -> Ins {
    Ins {
        sp: sp(c.span),
        k: K::Copy {
            flags: c.flags.iter().map(|x| Flag { sp: sp(x.span), name: ss(&x.name), value: ss(&x.value) }).collect(),
            sources: c.sources.iter().map(ss).collect(),
            dest: ss(&c.destination),
        },
    }
}
pub fn env(e: &dp::EnvInstruction) -> Ins {
    Ins { sp: sp(e.span), k: K::Env(e.vars.iter().map(|v| (sp(v.span), ss(&v.key), brk(&v.value))).collect()) }
}
pub fn misc(m: &dp::MiscInstruction) -> Ins {
    Ins { sp: sp(m.span), k: K::Misc { ins: ss(&m.instruction), args: brk(&m.arguments) } }
}

pub fn ins(i: &dp::Instruction) -> Ins {
    use dp::Instruction as I;
    match i {
        I::From(f) => from(f),
        I::Arg(a) => arg(a),
        I::Label(l) => label(l),
        I::Run(r) => run(r),
        I::Entrypoint(e) => entrypoint(e),
        I::Cmd(c) => cmd(c),
        I::Copy(c) => copy(c),
        I::Env(e) => env(e),
        I::Misc(m) => misc(m),
    }
}

/// A value snapshot of everything the document reports.
pub fn snap(d: &dp::Dockerfile) -> Doc {
    Doc {
        content: d.content.clone(),
        globals: d.global_args.iter().map(arg).collect(),
        ins: d.instructions.iter().map(ins).collect(),
    }
}

pub fn real_expr(i: &dp::Instruction) -> Option<&dp::ShellOrExecExpr> {
    use dp::Instruction as I;
    match i {
        I::Run(r) => Some(&r.expr),
        I::Entrypoint(r) => Some(&r.expr),
        I::Cmd(r) => Some(&r.expr),
        _ => None,
    }
}

pub fn parent(p: &dp::StageParent) -> dfcore::spec::Parent {
    use dfcore::spec::Parent as M;
    match p {
        dp::StageParent::Image(i) => M::Image(img(i)),
        dp::StageParent::Stage(n) => M::Stage(*n),
        dp::StageParent::Scratch => M::Scratch,
    }
}
