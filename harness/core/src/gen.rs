//! Constructive generator: makes instructions with known intent and renders
//! them in many layouts, recording as it writes what a correct parse reports,
//! spans included. It does not use the reference parser.

use crate::model::*;
use crate::rng::Rng;
use crate::spec::image_ref;

#[derive(Clone, Debug, Default)]
pub struct Dict {
    /// string and character literals found in the tree under test
    pub words: Vec<String>,
    /// integer literals found there, with their neighbours
    pub sizes: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Val {
    pub text: String,
    pub q: Option<char>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Piece {
    Text(String),
    /// with its leading '#'
    Comment(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum GI {
    From { flags: Vec<(String, String)>, image: String, alias: Option<String> },
    Arg { name: String, value: Option<Val> },
    Labels(Vec<(Val, Val)>),
    LabelOne(Val, Val),
    Shell(Kind, Vec<Piece>),
    Exec(Kind, Vec<Val>, bool),
    Copy { flags: Vec<(String, String)>, paths: Vec<String> },
    Envs(Vec<(String, Val)>),
    EnvOneQ(String, Val),
    EnvOne(String, Vec<Piece>),
    Misc(String, Vec<Piece>),
}

impl GI {
    pub fn kind(&self) -> Kind {
        match self {
            GI::From { .. } => Kind::From,
            GI::Arg { .. } => Kind::Arg,
            GI::Labels(..) | GI::LabelOne(..) => Kind::Label,
            GI::Shell(k, _) | GI::Exec(k, _, _) => *k,
            GI::Copy { .. } => Kind::Copy,
            GI::Envs(..) | GI::EnvOneQ(..) | GI::EnvOne(..) => Kind::Env,
            GI::Misc(..) => Kind::Misc,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Eol {
    Lf,
    Crlf,
    Cr,
    Mixed,
}

#[derive(Clone, Debug)]
pub struct Fmt {
    pub eol: Eol,
    /// 0 upper, 1 lower, 2 random per letter
    pub kwcase: u8,
    /// probabilities in percent
    pub indent: usize,
    pub trail: usize,
    pub trivia: usize,
    pub cont: usize,
    pub gap_comment: usize,
    pub wide: usize,
    pub qbreak: usize,
    pub escape: usize,
    pub raw_nl: bool,
    pub final_eol: bool,
}

impl Fmt {
    pub fn plain() -> Fmt {
        Fmt {
            eol: Eol::Lf, kwcase: 0, indent: 0, trail: 0, trivia: 0, cont: 0, gap_comment: 0, wide: 0,
            qbreak: 0, escape: 5, raw_nl: false, final_eol: true,
        }
    }

    pub fn random(r: &mut Rng) -> Fmt {
        let p = |r: &mut Rng| *r.pick(&[0usize, 0, 10, 30, 60]);
        let eol = match r.below(10) {
            0..=4 => Eol::Lf,
            5..=7 => Eol::Crlf,
            8 => Eol::Mixed,
            _ => Eol::Cr,
        };
        Fmt {
            eol,
            kwcase: r.below(3) as u8,
            indent: p(r), trail: p(r), trivia: p(r), cont: p(r), gap_comment: p(r), wide: p(r),
            qbreak: *r.pick(&[0usize, 0, 0, 3, 15]),
            escape: *r.pick(&[0usize, 5, 30, 90]),
            raw_nl: eol == Eol::Lf && r.chance(1, 5),
            final_eol: !r.chance(1, 3),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    /// anything but line ends
    Line,
    /// no blanks, no line ends, no leading quote, no trailing backslash
    Token,
    /// as Token without '='
    NameTok,
    /// anything at all
    Any,
    Ident,
    EnvKey,
    Alias,
    Alpha,
    Image,
}

const UNI: &[char] = &[
    'é', 'ß', 'Ω', 'ж', 'İ', 'ı', 'ſ', 'K', '中', '文', 'あ', '\u{301}', '\u{200b}', '\u{2028}', '\u{85}', '\u{a0}', '\u{feff}',
    '😀', '🐳', '𝔘', '\u{10ffff}', '\u{fffd}', '\u{7f}', '٣', '０', 'Ａ', '\u{202e}', '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{ffff}',
];
const PUNCT: &[char] = &[
    '!', '"', '#', '$', '%', '&', '\'', '(', ')', '*', '+', ',', '-', '.', '/', ':', ';', '<', '=', '>', '?', '@', '[',
    '\\', ']', '^', '_', '`', '{', '|', '}', '~',
];
const CTRL: &[char] = &['\u{1}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{1b}', '\u{1e}', '\u{1f}', '\0'];

pub struct G<'a> {
    pub r: Rng,
    pub dict: &'a Dict,
    /// names already used, so that repeats and references occur
    pub names: Vec<String>,
    pub aliases: Vec<String>,
    /// upper bound for sizes and counts
    pub cap: usize,
}

pub fn ok_char(c: Class, ch: char) -> bool {
    match c {
        Class::Any => true,
        Class::Line => ch != '\n' && ch != '\r',
        Class::Token => !matches!(ch, '\n' | '\r' | ' ' | '\t'),
        Class::NameTok => !matches!(ch, '\n' | '\r' | ' ' | '\t' | '='),
        Class::Ident | Class::EnvKey => ch.is_ascii_alphanumeric() || ch == '_',
        Class::Alias => ch.is_ascii_alphanumeric() || ch == '_' || ch == '-',
        Class::Alpha => ch.is_ascii_alphabetic(),
        Class::Image => ch.is_ascii_alphanumeric() || "_-.:/${}".contains(ch),
    }
}

/// Makes a text fit for its class (nonempty).
pub fn fix(c: Class, s: &str, fill: char) -> String {
    let mut o: String = s.chars().filter(|x| ok_char(c, *x)).collect();
    match c {
        Class::Token | Class::NameTok => {
            while o.ends_with('\\') {
                o.pop();
            }
            while o.starts_with(['"', '\'', '`']) {
                o.remove(0);
            }
        }
        Class::Ident => {
            while !o.is_empty() && !o.as_bytes()[0].is_ascii_alphabetic() {
                o.remove(0);
            }
        }
        _ => {}
    }
    if o.is_empty() {
        o.push(fill);
    }
    o
}

/// literals of the tree under test, for comments
pub static WORDS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

impl<'a> G<'a> {
    pub fn new(r: Rng, dict: &'a Dict) -> G<'a> {
        G { r, dict, names: vec![], aliases: vec![], cap: 40 }
    }

    /// a count: small mostly, now and then next to a size the code mentions
    pub fn count(&mut self, lo: usize, hi: usize) -> usize {
        if self.r.chance(1, 40) && !self.dict.sizes.is_empty() {
            let s = *self.r.pick(&self.dict.sizes);
            if s >= lo && s <= hi.max(70) {
                return s;
            }
        }
        self.r.heavy(lo, hi)
    }

    pub fn ch(&mut self, c: Class) -> char {
        loop {
            let k = match self.r.below(20) {
                0..=9 => (b'a' + self.r.below(26) as u8) as char,
                10 => (b'A' + self.r.below(26) as u8) as char,
                11 => (b'0' + self.r.below(10) as u8) as char,
                12..=14 => *self.r.pick(PUNCT),
                15..=16 => *self.r.pick(&[' ', ' ', '\t']),
                17 => *self.r.pick(UNI),
                18 => {
                    if self.r.chance(1, 6) {
                        *self.r.pick(CTRL)
                    } else if c == Class::Any && self.r.chance(1, 3) {
                        *self.r.pick(&['\n', '\r'])
                    } else {
                        '_'
                    }
                }
                _ => {
                    if self.r.chance(1, 8) {
                        loop {
                            if let Some(c) = char::from_u32(self.r.below(0x110000) as u32) {
                                break c;
                            }
                        }
                    } else {
                        '-'
                    }
                }
            };
            if ok_char(c, k) {
                return k;
            }
        }
    }

    pub fn text(&mut self, c: Class) -> String {
        let mut o = String::new();
        let style = self.r.below(12);
        if style == 0 && !self.dict.words.is_empty() {
            // literals from the tree, alone or glued
            for _ in 0..self.r.range(1, 3) {
                o.push_str(self.r.pick(&self.dict.words));
                if self.r.chance(1, 3) {
                    o.push(self.ch(c));
                }
            }
            if o.len() > 400 {
                let mut k = 400;
                while !o.is_char_boundary(k) {
                    k -= 1
                }
                o.truncate(k);
            }
        } else if style == 1 {
            for _ in 0..self.r.range(1, 4) {
                o.push_str(*self.r.pick(&[
                    "FROM", "from", "as", "AS", "RUN", "run ", "ARG", "--from=", "--platform=", "scratch", "localhost", "sha256:",
                    "$", "${", "}", "$a", "${b}", "a", "b", "\\", "\\\\", "\\n", "\\\"", "#", " # ", " #x", "[", "]", "[\"", "\",", "=",
                    "==", "a=b", "\"a\"", "'", "--", "&&", "||", "COPY a b", "ENV x=y", "\\u0041", "0", "1", "-", "_", "\\t", "\\ ",
                ]));
            }
        } else if style == 2 {
            // one character class, long
            let n = self.count(1, 300);
            let k = self.ch(c);
            for _ in 0..n {
                o.push(k);
            }
        } else if style <= 6 {
            let n = self.r.range(1, 10);
            for _ in 0..n {
                o.push((b'a' + self.r.below(26) as u8) as char);
            }
        } else {
            let n = self.count(1, 60);
            for _ in 0..n {
                let k = self.ch(c);
                o.push(k);
            }
        }
        let fill = (b'a' + self.r.below(26) as u8) as char;
        fix(c, &o, fill)
    }

    /// a name from a small pool, so names repeat, differ in case, or extend one another
    pub fn name(&mut self, c: Class) -> String {
        if !self.names.is_empty() && self.r.chance(2, 5) {
            let mut n = self.r.pick(&self.names).clone();
            match self.r.below(8) {
                0 => n = n.to_ascii_uppercase(),
                1 => n = n.to_ascii_lowercase(),
                2 => n.push('x'),
                3 => {
                    n.pop();
                }
                _ => {}
            }
            return fix(c, &n, 'n');
        }
        let n = match self.r.below(5) {
            4 if !self.dict.words.is_empty() => {
                let w = self.r.pick(&self.dict.words).clone();
                fix(c, &w, 'n')
            }
            0 => fix(c, *self.r.pick(&["a", "b", "A", "ab", "a_b", "VERSION", "version", "x1", "from", "as", "run", "arg"]), 'a'),
            _ => self.text(c),
        };
        if self.names.len() < 30 {
            self.names.push(n.clone());
        }
        n
    }

    pub fn quoted(&mut self) -> Val {
        let text = match self.r.below(10) {
            0 => String::new(),
            1 => self.text(Class::Line),
            _ => self.text(Class::Any),
        };
        Val { text, q: Some(*self.r.pick(&['"', '"', '\''])) }
    }

    pub fn val(&mut self, c: Class) -> Val {
        if self.r.chance(2, 5) {
            self.quoted()
        } else {
            Val { text: self.text(c), q: None }
        }
    }

    pub fn hex(&mut self, n: usize) -> String {
        let m = self.r.below(3);
        (0..n)
            .map(|_| {
                let s: &[u8] = match m {
                    0 => b"0123456789abcdef",
                    1 => b"0123456789ABCDEF",
                    _ => b"0123456789abcdefABCDEF",
                };
                *self.r.pick(s) as char
            })
            .collect()
    }

    pub fn img_word(&mut self) -> String {
        match self.r.below(8) {
            0 => self.text(Class::Alias),
            1 => format!("${{{}}}", self.name(Class::EnvKey)),
            2 => format!("${}", self.name(Class::EnvKey)),
            3 => self.text(Class::Image).replace(['/', ':', '@'], "."),
            _ => self.r.pick(&["alpine", "ubuntu", "node", "a", "b", "lib", "x_y", "foo-bar", "scratch", "localhost", "golang"]).to_string(),
        }
    }

    pub fn image(&mut self) -> String {
        if self.r.chance(1, 10) {
            return self.r.pick(&["scratch", "SCRATCH", "Scratch", "scratch:latest", "scratchy", "docker.io/scratch", "scratc"]).to_string();
        }
        if !self.aliases.is_empty() && self.r.chance(2, 5) {
            let a = self.r.pick(&self.aliases).clone();
            return match self.r.below(6) {
                0 => a.to_ascii_uppercase(),
                1 => a.to_ascii_lowercase(),
                2 => format!("{}:1", a),
                3 => format!("{}x", a),
                _ => a,
            };
        }
        let mut o = String::new();
        if self.r.chance(1, 3) {
            o.push_str(*self.r.pick(&[
                "localhost", "localhost:5000", "quay.io", "gcr.io:443", "LOCALHOST", "localhos", "localhost1", "registry", "a.b",
                "host:1", "10.0.0.1", "a:b", ".", ":", "",
            ]));
            o.push('/');
        }
        for k in 0..self.r.heavy(1, 4) {
            if k > 0 {
                o.push('/');
            }
            let w = self.img_word();
            o.push_str(&w);
        }
        match self.r.below(6) {
            0 | 1 => {
                o.push(':');
                let t = match self.r.below(4) {
                    0 => "3.11".to_string(),
                    1 => "latest".into(),
                    2 => self.img_word(),
                    _ => self.text(Class::Image),
                };
                o.push_str(&t);
            }
            2 => {
                if self.r.chance(1, 4) {
                    o.push_str(":tag");
                }
                o.push_str("@sha256:");
                let h = self.hex(64);
                o.push_str(&h);
            }
            _ => {}
        }
        let o = fix_image(&o);
        if o.is_empty() { "alpine".into() } else { o }
    }

    pub fn flags(&mut self, names: &[&str]) -> Vec<(String, String)> {
        let n = if self.r.chance(1, 2) { 0 } else { self.count(0, 6) };
        (0..n)
            .map(|_| {
                let n = if self.r.chance(2, 3) { self.r.pick(names).to_string() } else { self.text(Class::Alpha) };
                (n, self.text(Class::Token))
            })
            .collect()
    }

    pub fn comment(&mut self) -> String {
        let t = match self.r.below(8) {
            0 => String::new(),
            1 => " FROM x as y".into(),
            2 => " ends in a backslash \\".into(),
            3 => "\\".into(),
            4 => "# double".into(),
            5 => " \"quote 'and".into(),
            _ => self.text(Class::Line),
        };
        format!("#{}", t)
    }

    /// pieces of a shell-like text. `first_free`: the first piece may start with anything
    pub fn pieces(&mut self, misc: bool, env: bool) -> Vec<Piece> {
        let n = self.count(1, 25);
        let mut v: Vec<Piece> = vec![];
        for k in 0..n {
            if k > 0 {
                while self.r.chance(1, 5) {
                    let c = self.comment();
                    v.push(Piece::Comment(c));
                }
            }
            let mut t = if self.r.chance(1, 12) && k == 0 && !misc && !env {
                self.r.pick(&[
                    "[ -f x ]", "[ \"$a\" = b ] && c", "[\"a\"] && b", "[a, b]", "[\"a\" \"b\"]", "[\"a\",,\"b\"]", "[\"a\", b]", "[",
                    "[]x", "[ ] y", "[\"a\"", "[[ x ]]", "[\"a\", \"b\"] c", "['a'] | d", "[\"a\" , ]", "[\"a\";]", "]", "[1]", "[,]", "[\"a\\\"]",
                ])
                .to_string()
            } else {
                self.text(Class::Line)
            };
            if k > 0 {
                if self.r.chance(1, 3) {
                    t.insert_str(0, *self.r.pick(&[" ", "  ", "\t", "    "]));
                }
                // must not read as a comment, nor be blank
                let body = t.trim_start_matches([' ', '\t']);
                if body.starts_with('#') || body.is_empty() {
                    t = format!("x{}", t);
                }
            } else {
                if misc {
                    let b = *self.r.pick(&[" ", " ", " ", "  ", "\t", " \t "]);
                    t = format!("{}{}", b, t.trim_start_matches([' ', '\t']));
                    if t.trim_matches([' ', '\t']).is_empty() {
                        t.push('x');
                    }
                } else {
                    t = t.trim_start_matches([' ', '\t']).to_string();
                    if env {
                        t = t.trim_start_matches(['"', '\'']).trim_start_matches([' ', '\t']).to_string();
                        while t.starts_with(['"', '\'', ' ', '\t']) {
                            t.remove(0);
                        }
                    }
                    if t.is_empty() {
                        t.push('x');
                    }
                }
            }
            if self.r.chance(1, 3) && k + 1 < n {
                t.push_str(*self.r.pick(&[" ", "  ", "\t", " &&", " ; "]));
            }
            v.push(Piece::Text(t));
        }
        if let Some(Piece::Text(t)) = v.last_mut() {
            // the last piece must not itself end in something that reads as a continuation
            while t.trim_end_matches([' ', '\t']).ends_with('\\') {
                let l = t.trim_end_matches([' ', '\t']).len() - 1;
                t.truncate(l);
            }
            if t.trim_matches([' ', '\t']).is_empty() {
                t.push('z');
            }
        }
        if !misc && !env {
            let joined: String = v.iter().map(|p| if let Piece::Text(t) = p { t.as_str() } else { "" }).collect();
            if looks_exec(&joined) {
                if let Piece::Text(t) = &mut v[0] {
                    t.insert(0, 'e');
                }
            } else if joined.starts_with('[') {
                // a quote in a comment could complete an array's string
                for p in &mut v {
                    if let Piece::Comment(c) = p {
                        *c = c.replace(['"', '\''], "q");
                    }
                }
            }
        }
        v
    }

    pub fn misc_word(&mut self) -> String {
        loop {
            let w = match self.r.below(4) {
                0 => self.text(Class::Alpha),
                1 => {
                    let k = self.r.pick(&KINDS).word().to_string();
                    match self.r.below(5) {
                        0 => format!("{}S", k),
                        1 => k[..k.len() - 1].to_string(),
                        2 => format!("X{}", k),
                        3 => k[1..].to_string(),
                        _ => format!("{}{}", k, k),
                    }
                }
                _ => self
                    .r
                    .pick(&[
                        "MAINTAINER", "EXPOSE", "VOLUME", "USER", "WORKDIR", "ONBUILD", "STOPSIGNAL", "HEALTHCHECK", "SHELL", "ADD",
                        "add", "Workdir", "RUNS", "FROMM", "AR", "ENTRY", "COPYY", "ENVV", "LABELS", "CM",
                    ])
                    .to_string(),
            };
            if !KINDS.iter().any(|k| *k != Kind::Misc && k.word().eq_ignore_ascii_case(&w)) {
                return w;
            }
        }
    }

    pub fn ins(&mut self, k: Kind) -> GI {
        match k {
            Kind::From => {
                let flags = self.flags(&["platform", "p"]);
                let image = self.image();
                let alias = if self.r.chance(1, 2) {
                    let a = if self.r.chance(1, 6) {
                        self.r.pick(&["0", "1", "2", "AS", "as", "007", "-", "_", "scratch", "-1", "18446744073709551615"]).to_string()
                    } else if self.r.chance(1, 3) && !self.aliases.is_empty() {
                        self.r.pick(&self.aliases).clone()
                    } else {
                        self.name(Class::Alias)
                    };
                    if self.aliases.len() < 20 {
                        self.aliases.push(a.clone());
                    }
                    Some(a)
                } else {
                    None
                };
                GI::From { flags, image, alias }
            }
            Kind::Arg => {
                let name = self.name(Class::Ident);
                let value = if self.r.chance(1, 4) { None } else { Some(self.val(Class::Token)) };
                GI::Arg { name, value }
            }
            Kind::Label => {
                let c = |g: &mut Self, name: bool| -> Val {
                    let mut v = if g.r.chance(1, 3) {
                        g.quoted()
                    } else if name {
                        Val { text: g.name(Class::NameTok), q: None }
                    } else {
                        Val { text: g.text(Class::Token), q: None }
                    };
                    if v.q.is_none() {
                        v.text = fix(if name { Class::NameTok } else { Class::Token }, &v.text, 'l');
                    }
                    v
                };
                if self.r.chance(1, 4) {
                    let n = c(self, true);
                    let mut v = c(self, false);
                    if v.q.is_none() && v.text.starts_with('=') {
                        v.text.insert(0, 'v');
                    }
                    GI::LabelOne(n, v)
                } else {
                    let n = self.count(1, self.cap);
                    GI::Labels((0..n).map(|_| (c(self, true), c(self, false))).collect())
                }
            }
            Kind::Run | Kind::Entrypoint | Kind::Cmd => {
                if self.r.chance(2, 5) {
                    let n = self.count(0, self.cap);
                    GI::Exec(k, (0..n).map(|_| self.quoted()).collect(), n > 0 && self.r.chance(1, 5))
                } else {
                    let p = self.pieces(false, false);
                    GI::Shell(k, p)
                }
            }
            Kind::Copy => {
                let flags = self.flags(&["from", "chown", "chmod"]);
                let n = self.count(2, self.cap);
                let paths = (0..n)
                    .map(|i| {
                        let mut p = self.text(Class::Token);
                        if i > 0 && self.r.chance(1, 8) {
                            p = format!("--from={}", p);
                        }
                        if i == 0 {
                            while p.starts_with("--") {
                                p.remove(0);
                            }
                        }
                        p
                    })
                    .collect();
                GI::Copy { flags, paths }
            }
            Kind::Env => match self.r.below(5) {
                0 => {
                    let p = self.pieces(false, true);
                    GI::EnvOne(self.name(Class::EnvKey), p)
                }
                1 => GI::EnvOneQ(self.name(Class::EnvKey), self.quoted()),
                _ => {
                    let n = self.count(1, self.cap);
                    GI::Envs((0..n).map(|_| (self.name(Class::EnvKey), self.val(Class::Token))).collect())
                }
            },
            Kind::Misc => {
                let w = self.misc_word();
                GI::Misc(w, self.pieces(true, false))
            }
        }
    }

    pub fn any_kind(&mut self) -> Kind {
        *self.r.pick(&KINDS)
    }

    /// a document of n instructions, with a preamble before the first FROM
    pub fn doc(&mut self, n: usize) -> Vec<GI> {
        let pre = if self.r.coin() { self.r.heavy(0, 6) } else { 0 };
        let mut v = vec![];
        for i in 0..n {
            let k = if i < pre {
                *self.r.pick(&[Kind::Arg, Kind::Arg, Kind::Arg, Kind::Misc, Kind::Env, Kind::Label])
            } else if i == pre {
                Kind::From
            } else if self.r.chance(1, 4) {
                Kind::From
            } else {
                self.any_kind()
            };
            v.push(self.ins(k));
        }
        v
    }

    /// a document in which instructions of kind k are common
    pub fn doc_of(&mut self, k: Kind, n: usize) -> Vec<GI> {
        (0..n)
            .map(|_| {
                let k = if self.r.chance(2, 3) { k } else { self.any_kind() };
                self.ins(k)
            })
            .collect()
    }
}

/// Only the characters an image may contain, and a valid digest if it has one.
pub fn fix_image(s: &str) -> String {
    let mut o: String = s.chars().filter(|c| ok_char(Class::Image, *c) || *c == '@').collect();
    while o.starts_with("--") {
        o.remove(0);
    }
    let i = image_ref(&o);
    if let Some(h) = &i.hash {
        if !crate::spec::digest_ok(h) {
            o = o.replace('@', "");
        }
    }
    o
}

/// Could this text be an exec-form array? (over-approximation)
pub fn looks_exec(s: &str) -> bool {
    let t = s.trim_matches([' ', '\t']);
    if !(t.starts_with('[') && t.ends_with(']')) {
        return false;
    }
    let inner = t[1..t.len() - 1].trim_matches([' ', '\t', ',']);
    inner.is_empty() || (inner.starts_with(['"', '\'']) && inner.ends_with(['"', '\'']))
}

// ---------------------------------------------------------------------------
// rendering

pub struct Render<'r> {
    pub o: String,
    pub r: &'r mut Rng,
    pub f: Fmt,
    pub ins: Vec<Ins>,
    /// statistics on what the layout exercised
    pub conts: usize,
    pub comments: usize,
    pub breaks: usize,
}

impl<'r> Render<'r> {
    pub fn new(r: &'r mut Rng, f: Fmt) -> Render<'r> {
        Render { o: String::new(), r, f, ins: vec![], conts: 0, comments: 0, breaks: 0 }
    }

    fn pc(&mut self, p: usize) -> bool {
        p > 0 && self.r.below(100) < p
    }

    pub fn eol(&mut self) {
        let e = match self.f.eol {
            Eol::Lf => "\n",
            Eol::Crlf => "\r\n",
            Eol::Cr => "\r",
            Eol::Mixed => *self.r.pick(&["\n", "\r\n", "\r\n", "\r"]),
        };
        self.o.push_str(e);
    }

    fn blanks(&mut self, lo: usize, hi: usize) {
        for _ in 0..self.r.range(lo, hi) {
            let c = if self.r.chance(1, 5) { '\t' } else { ' ' };
            self.o.push(c);
        }
    }

    pub fn comment_text(&mut self) -> String {
        if self.r.chance(3, 4) {
            let t = *self.r.pick(&[
                "#", "# c", "# FROM x", "#\\", "# ends \\", "# \"q", "#'", "## x", "# é中😀", "#\t", "#RUN y", "# a=b", "# [\"a\"]", "# \\ ",
                "# syntax=docker/dockerfile:1", "# escape=`", "# check=skip=all", "#!shebang", "# \u{feff}", "# $a ${b}", "#,", "#]",
            ]);
            return t.to_string();
        }
        let mut t = String::from("#");
        let words = WORDS.get();
        let n = if self.r.chance(1, 60) { self.r.range(100, 700) } else { self.r.heavy(1, 12) };
        for _ in 0..n {
            match (self.r.below(5), words) {
                (0, Some(w)) if !w.is_empty() => t.push_str(self.r.pick(w)),
                (1, _) => t.push(*self.r.pick(UNI)),
                (2, _) => t.push(*self.r.pick(PUNCT)),
                (3, _) => t.push(' '),
                _ => t.push((b'a' + self.r.below(26) as u8) as char),
            }
        }
        t.retain(|c| !matches!(c, '\n' | '\r'));
        t
    }

    /// comment lines and blank lines after a continuation
    fn gap_trivia(&mut self) {
        // now and then very many of them
        let mut more = if self.f.gap_comment > 0 && self.r.chance(1, 1500) { self.r.range(30, 150) } else { 0 };
        while more > 0 || self.pc(self.f.gap_comment) {
            more = usize::saturating_sub(more, 1);
            self.blanks(0, 3);
            if self.r.chance(2, 3) {
                let c = self.comment_text();
                self.o.push_str(&c);
                self.comments += 1;
            }
            self.eol();
        }
    }

    /// separator between arguments; hash: the next token starts with '#'
    pub fn gap(&mut self, hash: bool) {
        if hash || !self.pc(self.f.cont) {
            if self.pc(self.f.wide) {
                let hi = if self.r.chance(1, 400) { 300 } else { 6 };
                self.blanks(1, hi);
            } else {
                self.o.push(' ');
            }
            return;
        }
        let lead = self.r.chance(3, 4);
        if lead {
            self.blanks(1, 3);
        }
        self.one_cont();
        while self.r.chance(1, 4) {
            self.blanks(0, 3);
            self.one_cont();
        }
        if lead {
            self.blanks(0, 4);
        } else {
            self.blanks(1, 4);
        }
    }

    fn one_cont(&mut self) {
        self.conts += 1;
        self.o.push('\\');
        if self.r.chance(1, 4) {
            self.blanks(1, 2);
        }
        self.eol();
        self.gap_trivia();
    }

    /// as `gap`, after a name that only a blank ends
    fn gap_blank_first(&mut self, hash: bool) {
        let n = self.o.len();
        self.gap(hash);
        let b = self.o.as_bytes()[n];
        if b != b' ' && b != b'\t' {
            self.o.insert(n, ' ');
        }
    }

    /// optional separator inside an array
    fn gap0(&mut self) {
        match self.r.below(3) {
            0 => {}
            1 if self.f.cont == 0 && self.f.wide == 0 => {}
            _ => self.gap(false),
        }
    }

    fn kw(&mut self, w: &str) {
        let t: String = match self.f.kwcase {
            0 => w.to_string(),
            1 => w.to_ascii_lowercase(),
            _ => w
                .chars()
                .map(|c| if self.r.coin() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
                .collect(),
        };
        self.o.push_str(&t);
    }

    fn raw(&mut self, s: &str) -> SS {
        let a = self.o.len();
        self.o.push_str(s);
        SS { sp: (a, self.o.len()), s: s.to_string() }
    }

    /// writes v, encoded if quoted
    pub fn val(&mut self, v: &Val) -> SS {
        match v.q {
            None => self.raw(&v.text),
            Some(q) => {
                let a = self.o.len();
                self.encode(&v.text, q);
                SS { sp: (a, self.o.len()), s: v.text.clone() }
            }
        }
    }

    fn uni(&mut self, c: char) {
        let x = c as u32;
        let up = self.r.coin();
        let t = if x <= 0xffff && self.r.chance(2, 3) {
            if up { format!("\\u{:04X}", x) } else { format!("\\u{:04x}", x) }
        } else if up {
            format!("\\U{:08X}", x)
        } else {
            format!("\\U{:08x}", x)
        };
        self.o.push_str(&t);
    }

    pub fn encode(&mut self, s: &str, q: char) {
        self.o.push(q);
        for c in s.chars() {
            if self.pc(self.f.qbreak) {
                self.breaks += 1;
                self.o.push('\\');
                if self.r.chance(1, 4) {
                    self.blanks(1, 2);
                }
                self.eol();
            }
            let esc = self.pc(self.f.escape);
            if esc && self.r.chance(1, 3) {
                self.uni(c);
                continue;
            }
            match c {
                '\\' => self.o.push_str("\\\\"),
                '"' | '\'' => {
                    if c == q || esc {
                        self.o.push('\\');
                    }
                    self.o.push(c);
                }
                '\n' => {
                    // a raw line end must not follow what reads as a backslash
                    let safe = self.f.raw_nl && !self.o.trim_end_matches([' ', '\t']).ends_with('\\');
                    if safe && self.r.coin() {
                        self.o.push('\n');
                    } else {
                        self.o.push_str("\\n");
                    }
                }
                '\r' => self.o.push_str("\\r"),
                '\t' if esc => self.o.push_str("\\t"),
                '\u{8}' if esc => self.o.push_str("\\b"),
                '\u{c}' if esc => self.o.push_str("\\f"),
                '\0' | '\u{1f}' => self.uni(c),
                _ => self.o.push(c),
            }
        }
        if self.pc(self.f.qbreak) {
            self.breaks += 1;
            self.o.push('\\');
            self.eol();
        }
        self.o.push(q);
    }

    fn pieces(&mut self, p: &[Piece]) -> Brk {
        let a = self.o.len();
        let mut comps = vec![];
        let mut k = 0;
        let mut in_comments = false;
        while k < p.len() {
            match &p[k] {
                Piece::Text(t) => {
                    if k > 0 && !in_comments {
                        self.conts += 1;
                        self.o.push('\\');
                        if self.r.chance(1, 5) {
                            self.blanks(1, 2);
                        }
                        self.eol();
                    }
                    in_comments = false;
                    comps.push(Comp::S(self.raw(t)));
                }
                Piece::Comment(t) => {
                    if !in_comments {
                        self.conts += 1;
                        self.o.push('\\');
                        self.eol();
                    }
                    in_comments = true;
                    self.comments += 1;
                    if self.r.chance(1, 2) {
                        self.blanks(1, 3);
                    }
                    comps.push(Comp::C(self.raw(t)));
                    self.eol();
                }
            }
            k += 1;
        }
        Brk { sp: (a, self.o.len()), comps }
    }

    fn flags(&mut self, fl: &[(String, String)]) -> Vec<Flag> {
        let mut v = vec![];
        for (n, x) in fl {
            self.gap(false);
            let a = self.o.len();
            self.o.push_str("--");
            let name = self.raw(n);
            self.o.push('=');
            let value = self.raw(x);
            v.push(Flag { sp: (a, self.o.len()), name, value });
        }
        v
    }

    /// blanks after an instruction where they carry no meaning
    fn trail(&mut self) {
        if self.pc(self.f.trail) {
            self.blanks(1, 4);
        }
    }

    pub fn trivia(&mut self) {
        while self.pc(self.f.trivia) {
            if self.pc(self.f.indent.max(20)) {
                self.blanks(0, 4);
            }
            if self.r.coin() {
                let c = self.comment_text();
                self.o.push_str(&c);
            }
            self.eol();
        }
    }

    pub fn ins(&mut self, g: &GI) {
        let hash = |s: &str| s.starts_with('#');
        let vhash = |v: &Val| v.q.is_none() && v.text.starts_with('#');
        if self.pc(self.f.indent) {
            self.blanks(1, 6);
        }
        let st = self.o.len();
        let (k, end) = match g {
            GI::From { flags, image, alias } => {
                self.kw("FROM");
                let flags = self.flags(flags);
                self.gap(false);
                let img = image_ref(image);
                let image = self.raw(image);
                let alias = alias.as_ref().map(|a| {
                    self.gap(false);
                    self.kw("AS");
                    self.gap(false);
                    self.raw(a)
                });
                let e = self.o.len();
                self.trail();
                (K::From { flags, image, img, index: 0, alias }, e)
            }
            GI::Arg { name, value } => {
                self.kw("ARG");
                self.gap(false);
                let name = self.raw(name);
                let value = value.as_ref().map(|v| {
                    self.o.push('=');
                    self.val(v)
                });
                let e = self.o.len();
                self.trail();
                (K::Arg { name, value }, e)
            }
            GI::Labels(ls) => {
                self.kw("LABEL");
                let mut v = vec![];
                for (n, x) in ls {
                    self.gap(vhash(n));
                    let a = self.o.len();
                    let n = self.val(n);
                    self.o.push('=');
                    let x = self.val(x);
                    v.push(((a, self.o.len()), n, x));
                }
                let e = self.o.len();
                self.trail();
                (K::Label(v), e)
            }
            GI::LabelOne(n, x) => {
                self.kw("LABEL");
                self.gap(vhash(n));
                let a = self.o.len();
                let n = self.val(n);
                self.gap_blank_first(vhash(x));
                let x = self.val(x);
                let e = self.o.len();
                self.trail();
                (K::Label(vec![((a, e), n, x)]), e)
            }
            GI::Shell(kind, p) => {
                self.kw(kind.word());
                self.gap(matches!(&p[0], Piece::Text(t) if hash(t)));
                let b = self.pieces(p);
                let e = b.sp.1;
                let x = Expr::Shell(b);
                (wrap(*kind, x), e)
            }
            GI::Exec(kind, el, trailing) => {
                self.kw(kind.word());
                self.gap(false);
                let a = self.o.len();
                self.o.push('[');
                let mut v = vec![];
                for (i, x) in el.iter().enumerate() {
                    if i > 0 {
                        self.gap0();
                        self.o.push(',');
                    }
                    self.gap0();
                    v.push(self.val(x));
                }
                if *trailing && !el.is_empty() {
                    self.o.push(',');
                }
                self.gap0();
                self.o.push(']');
                let e = self.o.len();
                self.trail();
                (wrap(*kind, Expr::Exec((a, e), v)), e)
            }
            GI::Copy { flags, paths } => {
                self.kw("COPY");
                let flags = self.flags(flags);
                let mut v = vec![];
                for p in paths {
                    self.gap(hash(p));
                    v.push(self.raw(p));
                }
                let e = self.o.len();
                self.trail();
                let dest = v.pop().unwrap();
                (K::Copy { flags, sources: v, dest }, e)
            }
            GI::Envs(vs) => {
                self.kw("ENV");
                let mut v = vec![];
                for (n, x) in vs {
                    self.gap(false);
                    let a = self.o.len();
                    let n = self.raw(n);
                    self.o.push('=');
                    let x = self.val(x);
                    v.push(((a, self.o.len()), n, Brk { sp: x.sp, comps: vec![Comp::S(x)] }));
                }
                let e = self.o.len();
                self.trail();
                (K::Env(v), e)
            }
            GI::EnvOneQ(n, x) => {
                self.kw("ENV");
                self.gap(false);
                let a = self.o.len();
                let n = self.raw(n);
                self.gap(false);
                let x = self.val(x);
                let e = self.o.len();
                self.trail();
                (K::Env(vec![((a, e), n, Brk { sp: x.sp, comps: vec![Comp::S(x)] })]), e)
            }
            GI::EnvOne(n, p) => {
                self.kw("ENV");
                self.gap(false);
                let a = self.o.len();
                let n = self.raw(n);
                self.gap(matches!(&p[0], Piece::Text(t) if hash(t)));
                let b = self.pieces(p);
                let e = b.sp.1;
                (K::Env(vec![((a, e), n, b)]), e)
            }
            GI::Misc(w, p) => {
                let ins = self.raw(w);
                let args = self.pieces(p);
                let e = args.sp.1;
                (K::Misc { ins, args }, e)
            }
        };
        self.ins.push(Ins { sp: (st, end), k });
    }

    pub fn doc(&mut self, v: &[GI]) {
        self.trivia();
        for (i, g) in v.iter().enumerate() {
            self.ins(g);
            if i + 1 < v.len() {
                self.eol();
                self.trivia();
            }
        }
        if self.f.final_eol {
            self.eol();
            self.trivia();
            if self.pc(self.f.indent) {
                self.blanks(1, 3);
            }
        }
    }

    /// the document written and what a correct parse of it reports
    pub fn finish(self) -> Doc {
        let mut n = 0;
        let mut globals = vec![];
        let mut ins = self.ins;
        for i in &mut ins {
            match &mut i.k {
                K::From { index, .. } => {
                    *index = n;
                    n += 1;
                }
                K::Arg { .. } if n == 0 => globals.push(i.clone()),
                _ => {}
            }
        }
        Doc { content: self.o, globals, ins }
    }
}

fn wrap(k: Kind, e: Expr) -> K {
    match k {
        Kind::Run => K::Run(e),
        Kind::Entrypoint => K::Entrypoint(e),
        _ => K::Cmd(e),
    }
}

pub fn render(v: &[GI], r: &mut Rng, f: &Fmt) -> Doc {
    let mut x = Render::new(r, f.clone());
    x.doc(v);
    x.finish()
}

/// Cuts the texts of shell-like instructions at other places, with other
/// comments in between; the joined text stays the same.
pub fn resplit(g: &GI, r: &mut Rng, p: usize) -> GI {
    let cut = |v: &[Piece], r: &mut Rng| -> Vec<Piece> {
        let all: String = v.iter().map(|x| if let Piece::Text(t) = x { t.as_str() } else { "" }).collect();
        let ch: Vec<char> = all.chars().collect();
        let mut out = vec![];
        let mut cur = String::new();
        let mut pieces = 0;
        for (i, c) in ch.iter().enumerate() {
            if i > 0 && pieces < 60 && r.below(100) < p {
                // what follows must be a legal continued piece, and the cut-off
                // piece non-blank
                let rest: String = ch[i..].iter().collect();
                let body = rest.trim_start_matches([' ', '\t']);
                // a later cut must not leave a blank piece: require a
                // non-blank, non-'#' character next
                let next_ok = !body.is_empty() && body.len() == rest.len() && !body.starts_with('#');
                let cur_ok = !cur.trim_matches([' ', '\t']).is_empty();
                if next_ok && cur_ok {
                    out.push(Piece::Text(std::mem::take(&mut cur)));
                    pieces += 1;
                    while r.chance(1, 5) {
                        let c = *r.pick(&["#", "# c", "# x \\", "#\"", "# FROM y"]);
                        out.push(Piece::Comment(if all.starts_with('[') { "# c".into() } else { c.into() }));
                    }
                }
            }
            cur.push(*c);
        }
        out.push(Piece::Text(cur));
        out
    };
    match g {
        GI::Shell(k, v) => GI::Shell(*k, cut(v, r)),
        GI::EnvOne(n, v) => GI::EnvOne(n.clone(), cut(v, r)),
        GI::Misc(w, v) => GI::Misc(w.clone(), cut(v, r)),
        g => g.clone(),
    }
}
