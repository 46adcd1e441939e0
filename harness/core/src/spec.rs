//! Reference parser: an independent, iterative reading of the supported
//! Dockerfile syntax. It shares no code with the crate under test.
//!
//! Inputs whose treatment no property fixes (undocumented escapes, known
//! keywords whose arguments do not match their syntax, ...) are marked
//! `exotic`; monitors that compare against this parser skip those.

use crate::model::*;

#[derive(Clone, Debug)]
pub struct Out {
    pub res: Result<Doc, &'static str>,
    /// why the outcome is outside what the properties fix, if it is
    pub exotic: Option<&'static str>,
    /// the only thing uncertain is whether a known keyword with arguments that
    /// do not match its syntax is kept as a miscellaneous instruction (as here)
    /// or rejected
    pub misfit: bool,
    /// shell text starts like an array whose quoted string is never closed: text
    /// added after the document could close it
    pub open_array: bool,
}

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    exotic: Option<&'static str>,
    misfit: bool,
    other: bool,
    comments_in_gaps: usize,
    open_array: bool,
}

#[derive(Debug)]
enum Fail {
    /// this alternative does not match
    No,
    /// the document is in error whatever follows
    Hard(&'static str),
}

type R<T> = Result<T, Fail>;

fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t'
}

pub fn nl_at(b: &[u8], i: usize) -> Option<usize> {
    match b.get(i) {
        Some(b'\n') => Some(i + 1),
        Some(b'\r') => Some(if b.get(i + 1) == Some(&b'\n') { i + 2 } else { i + 1 }),
        _ => None,
    }
}

pub fn skip_blanks(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && blank(b[i]) {
        i += 1
    }
    i
}

/// a line continuation starting at i: end position
pub fn cont_at(b: &[u8], i: usize) -> Option<usize> {
    if b.get(i) != Some(&b'\\') {
        return None;
    }
    nl_at(b, skip_blanks(b, i + 1))
}

fn char_len(b: &[u8], i: usize) -> usize {
    match b[i] {
        0..=0x7f => 1,
        0xc0..=0xdf => 2,
        0xe0..=0xef => 3,
        _ => 4,
    }
}

/// a comment (possibly indented) starting at i: (comment start, comment end, after its line end)
fn comment_line(b: &[u8], i: usize) -> Option<(usize, usize, usize)> {
    let st = skip_blanks(b, i);
    if b.get(st) != Some(&b'#') {
        return None;
    }
    let mut e = st;
    while e < b.len() && b[e] != b'\n' && b[e] != b'\r' {
        e += 1;
    }
    Some((st, e, nl_at(b, e).unwrap_or(e)))
}

/// Where a quoted string starting at i ends, if there is one.
pub fn string_at(b: &[u8], i: usize) -> Option<usize> {
    let q = *b.get(i)?;
    if q != b'"' && q != b'\'' {
        return None;
    }
    let mut j = i + 1;
    while j < b.len() {
        let c = b[j];
        if c == q {
            return Some(j + 1);
        }
        if c == 0 || c == 0x1f {
            return None;
        }
        if c == b'\\' {
            j += 1;
            if j < b.len() && matches!(b[j], b'"' | b'\'' | b'\\') {
                j += 1;
            }
            continue;
        }
        j += 1;
    }
    None
}

pub enum Dec {
    Ok(String),
    /// an escape no property fixes; the value is what is known to be done today
    Odd(Option<String>),
    Bad(&'static str),
}

/// Decodes a complete quoted string (quotes included).
pub fn decode(q: &str) -> Dec {
    let b = q.as_bytes();
    let quote = b[0];
    // first drop escaped line ends
    let mut t: Vec<u8> = Vec::with_capacity(b.len());
    let mut i = 0;
    let mut odd = false;
    let mut prev_bs = false;
    while i < b.len() {
        if let Some(e) = cont_at(b, i) {
            if prev_bs {
                // an escaped backslash followed by a line end
                odd = true;
            }
            i = e;
            prev_bs = false;
            continue;
        }
        if b[i] == b'\\' {
            prev_bs = !prev_bs;
        } else {
            prev_bs = false;
        }
        t.push(b[i]);
        i += 1;
    }
    let t = String::from_utf8(t).unwrap();
    if t.len() < 2 || *t.as_bytes().last().unwrap() != quote {
        return if odd { Dec::Odd(None) } else { Dec::Bad("unterminated") };
    }
    let body: Vec<char> = t[1..t.len() - 1].chars().collect();
    let mut o = String::new();
    let mut k = 0;
    while k < body.len() {
        let c = body[k];
        k += 1;
        if c as u32 == quote as u32 {
            return if odd { Dec::Odd(None) } else { Dec::Bad("quote") };
        }
        if c != '\\' {
            o.push(c);
            continue;
        }
        let Some(&e) = body.get(k) else {
            return if odd { Dec::Odd(None) } else { Dec::Bad("dangling escape") };
        };
        k += 1;
        let uni = |n: usize, k: &mut usize| -> Result<char, bool> {
            let h: String = body[*k..(*k + n).min(body.len())].iter().collect();
            *k = (*k + n).min(body.len());
            if h.len() != n || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
                // too few digits, or something else in their place
                return Err(true);
            }
            char::from_u32(u32::from_str_radix(&h, 16).unwrap()).ok_or(false)
        };
        match e {
            '\\' | '"' | '\'' => o.push(e),
            'b' => o.push('\u{8}'),
            'f' => o.push('\u{c}'),
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            'u' | 'U' => match uni(if e == 'u' { 4 } else { 8 }, &mut k) {
                Ok(c) => o.push(c),
                Err(true) => return Dec::Odd(None),
                Err(false) => return if odd { Dec::Odd(None) } else { Dec::Bad("code point") },
            },
            'a' | 'v' | 'x' | '`' | '0'..='9' => return Dec::Odd(None),
            _ => return if odd { Dec::Odd(None) } else { Dec::Bad("unknown escape") },
        }
    }
    if odd {
        Dec::Odd(Some(o))
    } else {
        Dec::Ok(o)
    }
}

const MISFIT: &str = "known keyword with arguments that do not match its syntax";

impl<'a> P<'a> {
    fn odd(&mut self, why: &'static str) {
        match why {
            MISFIT => self.misfit = true,
            _ => self.other = true,
        }
        if self.exotic.is_none() {
            self.exotic = Some(why)
        }
    }

    fn at_nl(&self, i: usize) -> bool {
        i < self.b.len() && (self.b[i] == b'\n' || self.b[i] == b'\r')
    }

    /// optional separator between arguments
    fn gap0(&mut self, mut i: usize) -> usize {
        loop {
            let j = skip_blanks(self.b, i);
            if let Some(mut k) = cont_at(self.b, j) {
                loop {
                    if let Some((_, _, e)) = comment_line(self.b, k) {
                        self.comments_in_gaps += 1;
                        k = e;
                        continue;
                    }
                    let t = skip_blanks(self.b, k);
                    if let Some(e) = nl_at(self.b, t) {
                        k = e;
                        continue;
                    }
                    break;
                }
                i = k;
                continue;
            }
            return j;
        }
    }

    /// mandatory separator
    fn gap(&mut self, i: usize) -> R<usize> {
        let j = self.gap0(i);
        if j == i {
            Err(Fail::No)
        } else {
            Ok(j)
        }
    }

    fn kw(&self, i: usize, w: &str) -> R<usize> {
        let e = i + w.len();
        if e <= self.b.len() && self.b[i..e].eq_ignore_ascii_case(w.as_bytes()) {
            Ok(e)
        } else {
            Err(Fail::No)
        }
    }

    /// run of bytes satisfying f, at least one
    fn run1(&self, i: usize, f: impl Fn(u8) -> bool) -> R<usize> {
        let mut j = i;
        while j < self.b.len() && f(self.b[j]) {
            j += 1
        }
        if j == i {
            Err(Fail::No)
        } else {
            Ok(j)
        }
    }

    /// everything up to a blank, a line end or a continuation, at least one char
    fn word(&self, i: usize) -> R<usize> {
        let mut j = i;
        while j < self.b.len() && !blank(self.b[j]) && !self.at_nl(j) && cont_at(self.b, j).is_none() {
            j += char_len(self.b, j);
        }
        if j == i {
            Err(Fail::No)
        } else {
            Ok(j)
        }
    }

    fn ss(&self, a: usize, z: usize) -> SS {
        SS { sp: (a, z), s: self.s[a..z].to_string() }
    }

    /// an unquoted value that is nevertheless unquoted if it starts with a quote
    fn plain(&mut self, a: usize, z: usize) -> R<SS> {
        match self.b[a] {
            b'"' | b'\'' | b'`' => {
                self.odd("unquoted value starting with a quote");
                let t = &self.s[a..z];
                if t.len() >= 2 && t.as_bytes()[t.len() - 1] == self.b[a] && self.b[a] != b'`' {
                    if let Dec::Ok(s) = decode(t) {
                        return Ok(SS { sp: (a, z), s });
                    }
                }
                Err(Fail::Hard("unquoted value starting with a quote"))
            }
            _ => Ok(self.ss(a, z)),
        }
    }

    fn quoted(&mut self, a: usize, z: usize) -> R<SS> {
        match decode(&self.s[a..z]) {
            Dec::Ok(s) => Ok(SS { sp: (a, z), s }),
            Dec::Odd(s) => {
                self.odd("undocumented escape");
                match s {
                    Some(s) => Ok(SS { sp: (a, z), s }),
                    None => Err(Fail::Hard("undocumented escape")),
                }
            }
            Dec::Bad(_) => Err(Fail::Hard("undecodable escape")),
        }
    }

    /// quote character present but no complete string
    fn stray_quote(&mut self, i: usize) {
        if i < self.b.len() && (self.b[i] == b'"' || self.b[i] == b'\'') && string_at(self.b, i).is_none() {
            self.odd("incomplete quoted string")
        }
    }

    fn breakable(&mut self, i: usize) -> R<(Brk, usize)> {
        let mut comps = vec![];
        let mut pos = i;
        loop {
            // one piece of text
            let mut j = pos;
            while j < self.b.len() && !self.at_nl(j) && cont_at(self.b, j).is_none() {
                j += char_len(self.b, j);
            }
            if j == pos {
                if comps.is_empty() {
                    return Err(Fail::No);
                }
                // nothing after a continuation or comment: handled below
            } else {
                comps.push(Comp::S(self.ss(pos, j)));
                pos = j;
            }
            let Some(mut k) = cont_at(self.b, pos) else { break };
            let mut cs = vec![];
            while let Some((a, z, e)) = comment_line(self.b, k) {
                cs.push(Comp::C(self.ss(a, z)));
                k = e;
            }
            // is there a further piece?
            let more = k < self.b.len() && !self.at_nl(k) && cont_at(self.b, k).is_none();
            if more {
                comps.extend(cs);
                pos = k;
            } else if !cs.is_empty() {
                comps.extend(cs);
                pos = k;
                break;
            } else {
                break;
            }
        }
        Ok((Brk { sp: (i, pos), comps }, pos))
    }

    fn flags(&mut self, mut i: usize, v: &mut Vec<Flag>) -> usize {
        loop {
            let step = (|| -> R<(usize, usize, usize, usize)> {
                let a = self.gap(i)?;
                if !self.s.as_bytes()[a..].starts_with(b"--") {
                    return Err(Fail::No);
                }
                let n = self.run1(a + 2, |c| c.is_ascii_alphabetic())?;
                if self.b.get(n) != Some(&b'=') {
                    return Err(Fail::No);
                }
                let z = self.word(n + 1)?;
                Ok((a, a + 2, n, z))
            })();
            match step {
                Ok((a, n0, n1, z)) => {
                    v.push(Flag { sp: (a, z), name: self.ss(n0, n1), value: self.ss(n1 + 1, z) });
                    i = z;
                }
                _ => return i,
            }
        }
    }

    fn fix_flags(&mut self, v: &mut [Flag]) -> R<()> {
        for f in v {
            f.value = self.plain(f.value.sp.0, f.value.sp.1)?;
        }
        Ok(())
    }

    fn from(&mut self, i: usize) -> R<(Ins, usize)> {
        let e = self.kw(i, "from")?;
        let mut flags = vec![];
        let p = self.flags(e, &mut flags);
        let a = self.gap(p)?;
        let z = self.run1(a, |c| c.is_ascii_alphanumeric() || b"_-.:/${}@".contains(&c))?;
        let mut end = z;
        let mut alias = None;
        if let Ok(g) = self.gap(z) {
            if let Ok(w) = self.kw(g, "as") {
                if let Ok(g2) = self.gap(w) {
                    if let Ok(q) = self.run1(g2, |c| c.is_ascii_alphanumeric() || c == b'_' || c == b'-') {
                        alias = Some(self.ss(g2, q));
                        end = q;
                    }
                }
            }
        }
        self.fix_flags(&mut flags)?;
        let image = self.ss(a, z);
        let img = image_ref(&image.s);
        if let Some(h) = &img.hash {
            if !digest_ok(h) {
                return Err(Fail::Hard("digest"));
            }
        }
        Ok((Ins { sp: (i, end), k: K::From { flags, image, img, index: 0, alias } }, end))
    }

    fn arg(&mut self, i: usize) -> R<(Ins, usize)> {
        let e = self.kw(i, "arg")?;
        let a = self.gap(e)?;
        let f = self.run1(a, |c| c.is_ascii_alphabetic())?;
        let z = self.run1(a, |c| c.is_ascii_alphanumeric() || c == b'_').unwrap_or(f);
        let mut end = z;
        let mut value = None;
        if self.b.get(z) == Some(&b'=') {
            if let Some(q) = string_at(self.b, z + 1) {
                value = Some(self.quoted(z + 1, q)?);
                end = q;
            } else if let Ok(q) = self.word(z + 1) {
                self.stray_quote(z + 1);
                value = Some(self.plain(z + 1, q)?);
                end = q;
            }
        }
        Ok((Ins { sp: (i, end), k: K::Arg { name: self.ss(a, z), value } }, end))
    }

    fn equals(&self, i: usize) -> R<usize> {
        let mut j = i;
        while j < self.b.len() && !blank(self.b[j]) && !self.at_nl(j) && self.b[j] != b'=' {
            j += char_len(self.b, j);
        }
        if j == i {
            Err(Fail::No)
        } else {
            Ok(j)
        }
    }

    fn label(&mut self, i: usize) -> R<(Ins, usize)> {
        let e = self.kw(i, "label")?;
        // name and value separated by a gap
        let single = (|| -> R<(usize, usize, bool, usize, usize, bool)> {
            let a = self.gap(e)?;
            let (z, nq) = match string_at(self.b, a) {
                Some(z) => (z, true),
                None => (self.equals(a)?, false),
            };
            let v = self.gap(z)?;
            let (w, vq) = match string_at(self.b, v) {
                Some(w) => (w, true),
                None => (self.word(v)?, false),
            };
            Ok((a, z, nq, v, w, vq))
        })();
        if let Ok((a, z, nq, v, w, vq)) = single {
            let n = self.qp(a, z, nq)?;
            let val = self.qp(v, w, vq)?;
            if !nq && n.s.ends_with('\\') {
                self.odd("label name ending in a backslash");
            }
            return Ok((Ins { sp: (i, w), k: K::Label(vec![((e, w), n, val)]) }, w));
        }
        let mut pos = e;
        let mut raw = vec![];
        while let Ok(a) = self.gap(pos) {
            pos = a;
            let pair = (|| -> R<(usize, usize, bool, usize, usize, bool)> {
                let (z, nq) = match string_at(self.b, a) {
                    Some(z) => (z, true),
                    None => (self.equals(a)?, false),
                };
                if self.b.get(z) != Some(&b'=') {
                    return Err(Fail::No);
                }
                let v = z + 1;
                let (w, vq) = match string_at(self.b, v) {
                    Some(w) => (w, true),
                    None => (self.word(v)?, false),
                };
                Ok((a, z, nq, v, w, vq))
            })();
            if let Ok(t) = pair {
                pos = t.4;
                raw.push(t);
            } else {
                break;
            }
        }
        if pos == e {
            return Err(Fail::No);
        }
        let mut ls = vec![];
        for (a, z, nq, v, w, vq) in raw {
            let n = self.qp(a, z, nq)?;
            let val = self.qp(v, w, vq)?;
            ls.push(((a, w), n, val));
        }
        if ls.is_empty() {
            self.odd("LABEL without labels");
        }
        self.trailing_gap(ls.last().map(|l| l.0 .1), pos);
        Ok((Ins { sp: (i, pos), k: K::Label(ls) }, pos))
    }

    /// a continuation after the last pair, with nothing following
    fn trailing_gap(&mut self, last: Option<usize>, pos: usize) {
        if let Some(l) = last {
            if self.s[l..pos].contains('\\') {
                self.odd("dangling continuation after pairs");
            }
        }
    }

    fn qp(&mut self, a: usize, z: usize, q: bool) -> R<SS> {
        if q {
            self.quoted(a, z)
        } else {
            self.stray_quote(a);
            self.plain(a, z)
        }
    }

    fn string_array(&mut self, i: usize) -> R<(Vec<(usize, usize)>, usize)> {
        if self.b.get(i) != Some(&b'[') {
            return Err(Fail::No);
        }
        let mut v = vec![];
        let a = self.gap0(i + 1);
        if let Some(z) = string_at(self.b, a) {
            v.push((a, z));
            let mut p = z;
            loop {
                let c = self.gap0(p);
                if self.b.get(c) != Some(&b',') {
                    break;
                }
                let a = self.gap0(c + 1);
                let Some(z) = string_at(self.b, a) else {
                    self.open_array |= matches!(self.b.get(a), Some(b'"' | b'\''));
                    break;
                };
                v.push((a, z));
                p = z;
            }
            if self.b.get(p) == Some(&b',') {
                p += 1;
            }
            let p = self.gap0(p);
            if self.b.get(p) == Some(&b']') {
                return Ok((v, p + 1));
            }
            return Err(Fail::No);
        }
        if self.b.get(a) == Some(&b']') {
            return Ok((vec![], a + 1));
        }
        self.open_array |= matches!(self.b.get(a), Some(b'"' | b'\''));
        Err(Fail::No)
    }

    fn shell_or_exec(&mut self, i: usize, w: &str) -> R<(Expr, usize)> {
        let e = self.kw(i, w)?;
        let a = self.gap(e)?;
        if let Ok((el, z)) = self.string_array(a) {
            let g = self.gap0(z);
            if g >= self.b.len() || self.at_nl(g) {
                let mut v = vec![];
                for (x, y) in el {
                    v.push(self.quoted(x, y)?);
                }
                return Ok((Expr::Exec((a, z), v), z));
            }
        }
        let (b, z) = self.breakable(a)?;
        Ok((Expr::Shell(b), z))
    }

    fn copy(&mut self, i: usize) -> R<(Ins, usize)> {
        let e = self.kw(i, "copy")?;
        let mut flags = vec![];
        let mut pos = self.flags(e, &mut flags);
        let mut paths = vec![];
        loop {
            let Ok(a) = self.gap(pos) else { break };
            let Ok(z) = self.word(a) else { break };
            paths.push((a, z));
            pos = z;
        }
        if paths.len() < 2 {
            return Err(Fail::No);
        }
        self.fix_flags(&mut flags)?;
        let mut ss = vec![];
        for (a, z) in paths {
            ss.push(self.plain(a, z)?);
        }
        let dest = ss.pop().unwrap();
        Ok((Ins { sp: (i, pos), k: K::Copy { flags, sources: ss, dest } }, pos))
    }

    fn env(&mut self, i: usize) -> R<(Ins, usize)> {
        let e = self.kw(i, "env")?;
        let name = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        // key and value separated by a gap
        let single = (|| -> R<(usize, usize, usize)> {
            let a = self.gap(e)?;
            let z = self.run1(a, name)?;
            let v = self.gap(z)?;
            Ok((a, z, v))
        })();
        if let Ok((a, z, v)) = single {
            if let Some(w) = string_at(self.b, v) {
                let val = self.quoted(v, w)?;
                let b = Brk { sp: (v, w), comps: vec![Comp::S(val)] };
                return Ok((Ins { sp: (i, w), k: K::Env(vec![((a, w), self.ss(a, z), b)]) }, w));
            }
            if let Ok((b, w)) = self.breakable(v) {
                self.stray_quote(v);
                return Ok((Ins { sp: (i, w), k: K::Env(vec![((a, w), self.ss(a, z), b)]) }, w));
            }
        }
        let mut pos = e;
        let mut vars = vec![];
        while let Ok(a) = self.gap(pos) {
            pos = a;
            let pair = (|| -> R<(usize, usize, usize, bool)> {
                let z = self.run1(a, name)?;
                if self.b.get(z) != Some(&b'=') {
                    return Err(Fail::No);
                }
                match string_at(self.b, z + 1) {
                    Some(w) => Ok((a, z, w, true)),
                    None => Ok((a, z, self.word(z + 1)?, false)),
                }
            })();
            let Ok((a, z, w, q)) = pair else { break };
            let v = z + 1;
            let val = if q {
                self.quoted(v, w)?
            } else {
                self.stray_quote(v);
                self.ss(v, w)
            };
            vars.push(((a, w), self.ss(a, z), Brk { sp: (v, w), comps: vec![Comp::S(val)] }));
            pos = w;
        }
        if pos == e {
            return Err(Fail::No);
        }
        if vars.is_empty() {
            self.odd("ENV without variables");
        }
        self.trailing_gap(vars.last().map(|l| l.0 .1), pos);
        Ok((Ins { sp: (i, pos), k: K::Env(vars) }, pos))
    }

    fn misc(&mut self, i: usize) -> R<(Ins, usize)> {
        let z = self.run1(i, |c| c.is_ascii_alphabetic())?;
        let (args, e) = self.breakable(z)?;
        let w = self.ss(i, z);
        if KINDS.iter().any(|k| *k != Kind::Misc && k.word().eq_ignore_ascii_case(&w.s)) {
            self.odd(MISFIT);
        }
        if !blank(self.b[z]) {
            self.odd("word directly followed by other text");
        } else if args.text().trim_matches(|c| c == ' ' || c == '\t').is_empty() {
            self.odd("word without arguments");
        }
        Ok((Ins { sp: (i, e), k: K::Misc { ins: w, args } }, e))
    }

    fn step(&mut self, i: usize) -> R<(Ins, usize)> {
        macro_rules! alt {
            ($e:expr) => {
                match $e {
                    Err(Fail::No) => {}
                    r => return r,
                }
            };
        }
        alt!(self.from(i));
        alt!(self.shell_or_exec(i, "run").map(|(x, e)| (Ins { sp: (i, e), k: K::Run(x) }, e)));
        alt!(self.arg(i));
        alt!(self.label(i));
        alt!(self.copy(i));
        alt!(self.shell_or_exec(i, "entrypoint").map(|(x, e)| (Ins { sp: (i, e), k: K::Entrypoint(x) }, e)));
        alt!(self.shell_or_exec(i, "cmd").map(|(x, e)| (Ins { sp: (i, e), k: K::Cmd(x) }, e)));
        alt!(self.env(i));
        self.misc(i)
    }
}

/// Parses a whole document.
pub fn parse(s: &str) -> Out {
    let mut p = P { s, b: s.as_bytes(), exotic: None, misfit: false, other: false, comments_in_gaps: 0, open_array: false };
    let b = s.as_bytes();
    let mut ins: Vec<Ins> = vec![];
    let mut pos = 0;
    // a value error only surfaces if the whole document matches the syntax, so
    // either way the document is rejected
    let res = loop {
        pos = skip_blanks(b, pos);
        if let Some((_, e, _)) = comment_line(b, pos) {
            pos = e;
        } else if pos < b.len() && !p.at_nl(pos) {
            match p.step(pos) {
                Ok((i, e)) => {
                    ins.push(i);
                    pos = e;
                }
                Err(Fail::Hard(w)) => break Err(w),
                Err(Fail::No) => break Err("syntax"),
            }
        }
        pos = skip_blanks(b, pos);
        if pos >= b.len() {
            break Ok(());
        }
        match nl_at(b, pos) {
            Some(e) => pos = e,
            None => break Err("text after a complete instruction"),
        }
    };
    let exotic = p.exotic;
    let misfit = p.misfit && !p.other;
    let open_array = p.open_array;
    let res = res.map(|_| {
        let mut n = 0;
        let mut globals = vec![];
        for i in &mut ins {
            match &mut i.k {
                K::From { index, .. } => {
                    *index = n;
                    n += 1;
                }
                K::Arg { .. } if n == 0 => globals.push(i.clone()),
                _ => {}
            }
        }
        Doc { content: s.to_string(), globals, ins }
    });
    Out { res, exotic, misfit, open_array }
}

// ---------------------------------------------------------------------------
// values

pub fn digest_ok(h: &str) -> bool {
    match h.strip_prefix("sha256:") {
        Some(x) => x.len() == 64 && x.bytes().all(|c| c.is_ascii_hexdigit()),
        None => false,
    }
}

/// Docker's decomposition of an image reference.
pub fn image_ref(s: &str) -> Img {
    let mut rest = s;
    let mut registry = None;
    if let Some(p) = s.bytes().position(|c| c == b'/') {
        let head = &s[..p];
        if head == "localhost" || head.bytes().any(|c| c == b'.' || c == b':') {
            registry = Some(head.to_string());
            rest = &s[p + 1..];
        }
    }
    if let Some(p) = rest.bytes().position(|c| c == b'@') {
        return Img { registry, image: rest[..p].into(), tag: None, hash: Some(rest[p + 1..].into()) };
    }
    if let Some(p) = rest.bytes().position(|c| c == b':') {
        return Img { registry, image: rest[..p].into(), tag: Some(rest[p + 1..].into()), hash: None };
    }
    Img { registry, image: rest.into(), tag: None, hash: None }
}

pub fn image_text(i: &Img) -> String {
    let mut o = String::new();
    if let Some(r) = &i.registry {
        o.push_str(r);
        o.push('/');
    }
    o.push_str(&i.image);
    if let Some(t) = &i.tag {
        o.push(':');
        o.push_str(t);
    } else if let Some(h) = &i.hash {
        o.push('@');
        o.push_str(h);
    }
    o
}

/// References in a text: (start, end, name).
pub fn var_refs(s: &str) -> Vec<(usize, usize, String)> {
    let b = s.as_bytes();
    let nm = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'$' {
            let mut j = i + 1;
            if j < b.len() && b[j] == b'{' {
                let n0 = j + 1;
                let mut k = n0;
                while k < b.len() && nm(b[k]) {
                    k += 1
                }
                if k > n0 && k < b.len() && b[k] == b'}' {
                    v.push((i, k + 1, s[n0..k].to_string()));
                    i = k + 1;
                    continue;
                }
            } else {
                while j < b.len() && nm(b[j]) {
                    j += 1
                }
                if j > i + 1 {
                    v.push((i, j, s[i + 1..j].to_string()));
                    i = j;
                    continue;
                }
            }
        }
        i += 1;
    }
    v
}

pub enum Subst {
    Text(String, std::collections::BTreeSet<String>),
    None,
    /// the result would be too large to be a fair workload
    TooBig,
}

pub fn substitute(s: &str, vars: &std::collections::HashMap<String, String>, depth: usize, cap: usize) -> Subst {
    let mut used = std::collections::BTreeSet::new();
    let mut budget = 200_000usize;
    fn go(
        s: &str,
        vars: &std::collections::HashMap<String, String>,
        depth: usize,
        used: &mut std::collections::BTreeSet<String>,
        budget: &mut usize,
        cap: usize,
    ) -> Result<String, bool> {
        let mut o = String::new();
        let mut last = 0;
        for (a, z, n) in var_refs(s) {
            if *budget == 0 {
                return Err(true);
            }
            *budget -= 1;
            if depth == 0 {
                return Err(false);
            }
            let Some(v) = vars.get(&n) else { return Err(false) };
            let t = go(v, vars, depth - 1, used, budget, cap)?;
            used.insert(n);
            o.push_str(&s[last..a]);
            o.push_str(&t);
            last = z;
            if o.len() > cap {
                return Err(true);
            }
        }
        o.push_str(&s[last..]);
        Ok(o)
    }
    match go(s, vars, depth, &mut used, &mut budget, cap) {
        Ok(t) => Subst::Text(t, used),
        Err(false) => Subst::None,
        Err(true) => Subst::TooBig,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Parent {
    Image(Img),
    Stage(usize),
    Scratch,
}

#[derive(Clone, Debug)]
pub struct StageM {
    pub index: usize,
    pub name: Option<String>,
    /// indices into the document's instructions
    pub ins: Vec<usize>,
    pub parent: Parent,
    pub root: Parent,
}

pub fn stages(d: &Doc) -> Vec<StageM> {
    let mut v: Vec<StageM> = vec![];
    let mut by_name: std::collections::HashMap<String, usize> = Default::default();
    for (n, i) in d.ins.iter().enumerate() {
        if let K::From { image, img, alias, .. } = &i.k {
            let low = image.s.to_ascii_lowercase();
            let parent = if low == "scratch" {
                Parent::Scratch
            } else if let Some(&p) = by_name.get(&low) {
                Parent::Stage(p)
            } else {
                Parent::Image(img.clone())
            };
            let root = match &parent {
                Parent::Stage(p) => v[*p].root.clone(),
                p => p.clone(),
            };
            let name = alias.as_ref().map(|a| a.s.to_ascii_lowercase());
            let index = v.len();
            if let Some(nm) = &name {
                by_name.entry(nm.clone()).or_insert(index);
            }
            v.push(StageM { index, name, ins: vec![n], parent, root });
        } else if let Some(s) = v.last_mut() {
            s.ins.push(n);
        }
    }
    v
}
