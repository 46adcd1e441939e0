//! Plain data model of a parse result, used for snapshots of what the crate
//! reported and for what the oracles expect.

pub type Sp = (usize, usize);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SS {
    pub sp: Sp,
    pub s: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Comp {
    S(SS),
    C(SS),
}

impl Comp {
    pub fn ss(&self) -> &SS {
        match self {
            Comp::S(s) | Comp::C(s) => s,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Brk {
    pub sp: Sp,
    pub comps: Vec<Comp>,
}

impl Brk {
    /// the text the engine would see: string components only
    pub fn text(&self) -> String {
        let mut o = String::new();
        for c in &self.comps {
            if let Comp::S(s) = c {
                o.push_str(&s.s)
            }
        }
        o
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Expr {
    Shell(Brk),
    Exec(Sp, Vec<SS>),
    Unknown,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Flag {
    pub sp: Sp,
    pub name: SS,
    pub value: SS,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Img {
    pub registry: Option<String>,
    pub image: String,
    pub tag: Option<String>,
    pub hash: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    From,
    Arg,
    Label,
    Run,
    Entrypoint,
    Cmd,
    Copy,
    Env,
    Misc,
}

pub const KINDS: [Kind; 9] = [
    Kind::From, Kind::Arg, Kind::Label, Kind::Run, Kind::Entrypoint, Kind::Cmd, Kind::Copy,
    Kind::Env, Kind::Misc,
];

impl Kind {
    pub fn word(self) -> &'static str {
        match self {
            Kind::From => "FROM",
            Kind::Arg => "ARG",
            Kind::Label => "LABEL",
            Kind::Run => "RUN",
            Kind::Entrypoint => "ENTRYPOINT",
            Kind::Cmd => "CMD",
            Kind::Copy => "COPY",
            Kind::Env => "ENV",
            Kind::Misc => "MISC",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum K {
    From { flags: Vec<Flag>, image: SS, img: Img, index: usize, alias: Option<SS> },
    Arg { name: SS, value: Option<SS> },
    /// (span, name, value)
    Label(Vec<(Sp, SS, SS)>),
    Run(Expr),
    Entrypoint(Expr),
    Cmd(Expr),
    Copy { flags: Vec<Flag>, sources: Vec<SS>, dest: SS },
    Env(Vec<(Sp, SS, Brk)>),
    Misc { ins: SS, args: Brk },
}

impl K {
    pub fn kind(&self) -> Kind {
        match self {
            K::From { .. } => Kind::From,
            K::Arg { .. } => Kind::Arg,
            K::Label(..) => Kind::Label,
            K::Run(..) => Kind::Run,
            K::Entrypoint(..) => Kind::Entrypoint,
            K::Cmd(..) => Kind::Cmd,
            K::Copy { .. } => Kind::Copy,
            K::Env(..) => Kind::Env,
            K::Misc { .. } => Kind::Misc,
        }
    }

    pub fn expr(&self) -> Option<&Expr> {
        match self {
            K::Run(e) | K::Entrypoint(e) | K::Cmd(e) => Some(e),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ins {
    pub sp: Sp,
    pub k: K,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Doc {
    pub content: String,
    pub globals: Vec<Ins>,
    pub ins: Vec<Ins>,
}

/// What a span annotates; used to walk all spans of a document uniformly.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role {
    Ins,
    Flag,
    FlagName,
    FlagValue,
    Image,
    Alias,
    ArgName,
    ArgValue,
    LabelPair,
    LabelName,
    LabelValue,
    Shell,
    ShellPiece,
    ShellComment,
    Exec,
    ExecElem,
    Path,
    EnvVar,
    EnvKey,
    EnvValue,
    EnvPiece,
    EnvComment,
    MiscWord,
    MiscArgs,
    MiscPiece,
    MiscComment,
}

impl Role {
    /// leaves carry text; containers only delimit
    pub fn container(self) -> bool {
        matches!(
            self,
            Role::Ins | Role::Flag | Role::LabelPair | Role::Shell | Role::Exec | Role::EnvVar | Role::EnvValue | Role::MiscArgs
        )
    }
    pub fn comment(self) -> bool {
        matches!(self, Role::ShellComment | Role::EnvComment | Role::MiscComment)
    }
}

#[derive(Clone, Debug)]
pub struct Node {
    pub role: Role,
    pub sp: Sp,
    pub text: Option<String>,
    /// index of the parent node in the vector (self for the instruction)
    pub parent: usize,
    pub ins: usize,
}

fn push(v: &mut Vec<Node>, role: Role, sp: Sp, text: Option<&str>, parent: usize, ins: usize) -> usize {
    v.push(Node { role, sp, text: text.map(|s| s.to_string()), parent, ins });
    v.len() - 1
}

fn push_brk(v: &mut Vec<Node>, b: &Brk, outer: Role, piece: Role, com: Role, parent: usize, ins: usize) {
    let p = push(v, outer, b.sp, None, parent, ins);
    for c in &b.comps {
        match c {
            Comp::S(s) => push(v, piece, s.sp, Some(&s.s), p, ins),
            Comp::C(s) => push(v, com, s.sp, Some(&s.s), p, ins),
        };
    }
}

/// All spans of one instruction, parents before children, in source order.
pub fn nodes(i: &Ins, ins: usize) -> Vec<Node> {
    let mut v = vec![];
    let root = push(&mut v, Role::Ins, i.sp, None, 0, ins);
    let flag = |v: &mut Vec<Node>, f: &Flag| {
        let p = push(v, Role::Flag, f.sp, None, root, ins);
        push(v, Role::FlagName, f.name.sp, Some(&f.name.s), p, ins);
        push(v, Role::FlagValue, f.value.sp, Some(&f.value.s), p, ins);
    };
    match &i.k {
        K::From { flags, image, alias, .. } => {
            for f in flags {
                flag(&mut v, f);
            }
            push(&mut v, Role::Image, image.sp, Some(&image.s), root, ins);
            if let Some(a) = alias {
                push(&mut v, Role::Alias, a.sp, Some(&a.s), root, ins);
            }
        }
        K::Arg { name, value } => {
            push(&mut v, Role::ArgName, name.sp, Some(&name.s), root, ins);
            if let Some(a) = value {
                push(&mut v, Role::ArgValue, a.sp, Some(&a.s), root, ins);
            }
        }
        K::Label(ls) => {
            for (sp, n, val) in ls {
                let p = push(&mut v, Role::LabelPair, *sp, None, root, ins);
                push(&mut v, Role::LabelName, n.sp, Some(&n.s), p, ins);
                push(&mut v, Role::LabelValue, val.sp, Some(&val.s), p, ins);
            }
        }
        K::Run(e) | K::Entrypoint(e) | K::Cmd(e) => match e {
            Expr::Shell(b) => push_brk(&mut v, b, Role::Shell, Role::ShellPiece, Role::ShellComment, root, ins),
            Expr::Exec(sp, el) => {
                let p = push(&mut v, Role::Exec, *sp, None, root, ins);
                for e in el {
                    push(&mut v, Role::ExecElem, e.sp, Some(&e.s), p, ins);
                }
            }
            Expr::Unknown => {}
        },
        K::Copy { flags, sources, dest } => {
            for f in flags {
                flag(&mut v, f);
            }
            for s in sources {
                push(&mut v, Role::Path, s.sp, Some(&s.s), root, ins);
            }
            push(&mut v, Role::Path, dest.sp, Some(&dest.s), root, ins);
        }
        K::Env(vars) => {
            for (sp, k, b) in vars {
                let p = push(&mut v, Role::EnvVar, *sp, None, root, ins);
                push(&mut v, Role::EnvKey, k.sp, Some(&k.s), p, ins);
                push_brk(&mut v, b, Role::EnvValue, Role::EnvPiece, Role::EnvComment, p, ins);
            }
        }
        K::Misc { ins: w, args } => {
            push(&mut v, Role::MiscWord, w.sp, Some(&w.s), root, ins);
            push_brk(&mut v, args, Role::MiscArgs, Role::MiscPiece, Role::MiscComment, root, ins);
        }
    }
    v
}

/// Applies `f` to every span of an instruction.
pub fn map_spans(i: &mut Ins, f: &mut dyn FnMut(Sp) -> Sp) {
    i.sp = f(i.sp);
    fn ss(s: &mut SS, f: &mut dyn FnMut(Sp) -> Sp) {
        s.sp = f(s.sp);
    }
    fn brk(b: &mut Brk, f: &mut dyn FnMut(Sp) -> Sp) {
        b.sp = f(b.sp);
        for c in &mut b.comps {
            match c {
                Comp::S(s) | Comp::C(s) => s.sp = f(s.sp),
            }
        }
    }
    fn flags(fl: &mut [Flag], f: &mut dyn FnMut(Sp) -> Sp) {
        for x in fl {
            x.sp = f(x.sp);
            ss(&mut x.name, f);
            ss(&mut x.value, f);
        }
    }
    match &mut i.k {
        K::From { flags: fl, image, alias, .. } => {
            flags(fl, f);
            ss(image, f);
            if let Some(a) = alias {
                ss(a, f)
            }
        }
        K::Arg { name, value } => {
            ss(name, f);
            if let Some(a) = value {
                ss(a, f)
            }
        }
        K::Label(ls) => {
            for (sp, n, v) in ls {
                *sp = f(*sp);
                ss(n, f);
                ss(v, f);
            }
        }
        K::Run(e) | K::Entrypoint(e) | K::Cmd(e) => match e {
            Expr::Shell(b) => brk(b, f),
            Expr::Exec(sp, el) => {
                *sp = f(*sp);
                for e in el {
                    ss(e, f)
                }
            }
            Expr::Unknown => {}
        },
        K::Copy { flags: fl, sources, dest } => {
            flags(fl, f);
            for s in sources {
                ss(s, f)
            }
            ss(dest, f)
        }
        K::Env(vs) => {
            for (sp, k, b) in vs {
                *sp = f(*sp);
                ss(k, f);
                brk(b, f);
            }
        }
        K::Misc { ins, args } => {
            ss(ins, f);
            brk(args, f);
        }
    }
}

/// Applies `f` to every text of an instruction.
pub fn map_ss(i: &mut Ins, f: &mut dyn FnMut(&mut SS)) {
    fn brk(b: &mut Brk, f: &mut dyn FnMut(&mut SS)) {
        for c in &mut b.comps {
            match c {
                Comp::S(s) | Comp::C(s) => f(s),
            }
        }
    }
    fn flags(fl: &mut [Flag], f: &mut dyn FnMut(&mut SS)) {
        for x in fl {
            f(&mut x.name);
            f(&mut x.value);
        }
    }
    match &mut i.k {
        K::From { flags: fl, image, alias, .. } => {
            flags(fl, f);
            f(image);
            if let Some(a) = alias {
                f(a)
            }
        }
        K::Arg { name, value } => {
            f(name);
            if let Some(a) = value {
                f(a)
            }
        }
        K::Label(ls) => {
            for (_, n, v) in ls {
                f(n);
                f(v);
            }
        }
        K::Run(e) | K::Entrypoint(e) | K::Cmd(e) => match e {
            Expr::Shell(b) => brk(b, f),
            Expr::Exec(_, el) => {
                for e in el {
                    f(e)
                }
            }
            Expr::Unknown => {}
        },
        K::Copy { flags: fl, sources, dest } => {
            flags(fl, f);
            for s in sources {
                f(s)
            }
            f(dest)
        }
        K::Env(vs) => {
            for (_, k, b) in vs {
                f(k);
                brk(b, f);
            }
        }
        K::Misc { ins, args } => {
            f(ins);
            brk(args, f);
        }
    }
}

pub fn shift(i: &Ins, by: isize) -> Ins {
    let mut j = i.clone();
    map_spans(&mut j, &mut |(a, b)| ((a as isize + by) as usize, (b as isize + by) as usize));
    j
}

pub fn unspan(i: &Ins) -> Ins {
    let mut j = i.clone();
    map_spans(&mut j, &mut |_| (0, 0));
    j
}

/// The instruction's meaning only: no spans, no comments, pieces joined.
pub fn meaning(i: &Ins) -> Ins {
    let mut j = unspan(i);
    fn join(b: &mut Brk) {
        let t = b.text();
        b.comps = vec![Comp::S(SS { sp: (0, 0), s: t })];
    }
    match &mut j.k {
        K::Run(e) | K::Entrypoint(e) | K::Cmd(e) => {
            if let Expr::Shell(b) = e {
                join(b)
            }
        }
        K::Env(v) => {
            for (_, _, b) in v {
                join(b)
            }
        }
        K::Misc { args, .. } => join(args),
        _ => {}
    }
    j
}

/// Spans whose exact extent the properties leave open are put in a canonical
/// form: trailing blanks and gaps an ENV or LABEL instruction may include, and
/// the separator a single LABEL pair's span starts with.
pub fn canon(i: &Ins) -> Ins {
    let mut j = i.clone();
    match &mut j.k {
        K::Label(ls) => {
            for (sp, n, v) in ls.iter_mut() {
                *sp = (n.sp.0, v.sp.1);
            }
            if let Some(l) = ls.last() {
                j.sp.1 = l.0 .1;
            }
        }
        K::Env(vs) => {
            for (sp, _, b) in vs.iter_mut() {
                if let Some(Comp::C(c)) = b.comps.last() {
                    b.sp.1 = c.sp.1;
                    sp.1 = c.sp.1;
                }
            }
            if let Some(l) = vs.last() {
                j.sp.1 = l.0 .1;
            }
        }
        K::Run(Expr::Shell(b)) | K::Cmd(Expr::Shell(b)) | K::Entrypoint(Expr::Shell(b)) | K::Misc { args: b, .. } => {
            // a comment as the very last piece: whether its line end still
            // belongs to the span is left open
            if let Some(Comp::C(c)) = b.comps.last() {
                b.sp.1 = c.sp.1;
                j.sp.1 = c.sp.1;
            }
        }
        _ => {}
    }
    j
}
