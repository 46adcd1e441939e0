//! Hostile inputs: token soup, mutated documents, exhaustive small strings,
//! and a dictionary of the literals in the tree under test.

use crate::gen::*;
use crate::rng::Rng;
use std::path::Path;

const SOUP: &[&str] = &[
    " ", " ", " ", "  ", "\t", "\n", "\n", "\n", "\r\n", "\r", "\\\n", " \\\n", "\\ \n", "\\\r\n", "\\\t\r", "\\", "\\\\", "\"", "'", "`", "#", "# c", "# c\n",
    "\n# c\n", "\\\n# c\n", "\\\n\n", "=", "=", ",", "[", "]", "[\"", "\"]", "\"a\"", "'b'", "\"\\n\"", "\"\\u0041\"", "\"\\q\"",
    "a", "b", "foo", "bar=baz", "a=b", "a=\"b c\"", "x='y'", "--from=a", "--platform=b", "--x", "--", "-", "_", "$", "${a}", "$a", "as", "AS", "As",
    ":", "/", "@", "@sha256:", "alpine:3", "scratch", "localhost/x", "é", "中", "😀", "\u{0}", "\u{1f}", "\u{2028}", "\u{feff}", "1", "0",
    "\\\"", "\\'", "\\n", "\\u", "\\u12", "\\U0010FFFF", "\\ud800", "\\x41", "\\101", "\\a", "&& ", "| ", "; ",
];
const KW: &[&str] = &[
    "FROM", "RUN", "ARG", "LABEL", "COPY", "ENTRYPOINT", "CMD", "ENV", "USER", "from", "run", "arg", "label", "copy", "entrypoint", "cmd", "env",
    "MAINTAINER", "x", "FroM", "eNv",
];

pub fn soup(r: &mut Rng, dict: &Dict) -> String {
    let mut o = String::new();
    let lines = r.heavy(1, 8);
    for l in 0..lines {
        if l > 0 {
            o.push_str(*r.pick(&["\n", "\n", "\n", "\r\n", "\r", "\n\n"]));
        }
        if !r.chance(1, 12) {
            o.push_str(*r.pick(KW));
            if !r.chance(1, 12) {
                o.push(' ');
            }
        }
        for _ in 0..r.heavy(0, 24) {
            if r.chance(1, 30) && !dict.words.is_empty() {
                o.push_str(r.pick(&dict.words));
            } else {
                o.push_str(*r.pick(SOUP));
            }
        }
    }
    o
}

fn bound(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1
    }
    i
}

/// a few local edits to a text
pub fn mutate(s: &str, r: &mut Rng, dict: &Dict) -> String {
    let mut o = s.to_string();
    for _ in 0..r.heavy(1, 6) {
        let a = bound(&o, r.below(o.len() + 1));
        let z = bound(&o, (a + r.heavy(0, 20)).min(o.len())).max(a);
        match r.below(7) {
            0 => o.replace_range(a..z, ""),
            1 => {
                let t = o[a..z].to_string();
                o.insert_str(a, &t);
            }
            2 | 3 => o.insert_str(a, *r.pick(SOUP)),
            4 => {
                let t = if r.chance(1, 4) && !dict.words.is_empty() { r.pick(&dict.words).clone() } else { r.pick(SOUP).to_string() };
                o.replace_range(a..z, &t);
            }
            5 => {
                let e = o[a..].chars().next().map_or(0, |c| c.len_utf8());
                let t = *r.pick(&["\n", " ", "\\", "\"", "'", "#", "=", "\r"]);
                o.replace_range(a..a + e, t);
            }
            _ => {
                if r.chance(1, 3) {
                    o.truncate(a)
                } else {
                    o.insert_str(a, *r.pick(KW));
                }
            }
        }
        if o.len() > 6000 {
            let k = bound(&o, 6000);
            o.truncate(k);
        }
    }
    o
}

pub const ALPHA: [&str; 13] = ["a", " ", "\n", "\\", "\"", "=", "#", "[", "]", ",", "'", "$", "\t"];

/// number of strings over `a` of length exactly n
pub fn count_strings(a: usize, n: u32) -> u64 {
    (a as u64).pow(n)
}

pub fn nth_string(alpha: &[&str], n: u32, mut i: u64) -> String {
    let mut o = String::new();
    for _ in 0..n {
        o.push_str(alpha[(i % alpha.len() as u64) as usize]);
        i /= alpha.len() as u64;
    }
    o
}

/// Names and words that Docker or its users give a meaning to.
const DOMAIN: &[&str] = &[
    "HTTP_PROXY", "http_proxy", "HTTPS_PROXY", "https_proxy", "FTP_PROXY", "ftp_proxy", "NO_PROXY", "no_proxy", "ALL_PROXY", "TARGETPLATFORM",
    "TARGETOS", "TARGETARCH", "TARGETVARIANT", "BUILDPLATFORM", "BUILDOS", "BUILDARCH", "BUILDVARIANT", "HOME", "PATH", "HOSTNAME", "USER",
    "PWD", "TERM", "SHELL", "UID", "VERSION", "latest", "docker.io", "index.docker.io", "registry-1.docker.io", "library", "library/scratch",
    "scratch", "localhost", "127.0.0.1", "[::1]", "::1", "ghcr.io", "gcr.io", "mcr.microsoft.com", "sha256", "sha512", "SHA256", "syntax", "escape",
    "check", "platform", "from", "chown", "chmod", "link", "parents", "exclude", "mount", "network", "security", "type", "cache", "linux/amd64",
    "$BUILDPLATFORM", "$TARGETARCH", "<<EOF", "<<-EOF", "<<\"EOF\"", "EOF", "ADD", "MAINTAINER", "ONBUILD", "EXPOSE", "VOLUME", "WORKDIR", "USER",
    "SHELL", "HEALTHCHECK", "STOPSIGNAL", "NONE", "CMD", "INCLUDE", "CROSS_BUILD", "/bin/sh", "sh", "-c", "-ec", "bash", "cmd", "powershell",
    "/dev/null", "*", "**", "?", ".", "..", "./", "/", "//", "C:\\", "\\\\", "http://", "https://", "git@", ".git", ":-", ":+", ":?", "%", "%%", "null",
    "true", "false", "default", "root", "0", "1", "org.opencontainers.image.version", "maintainer", "version", "description", "com.", "@", "@sha256:",
];

/// Words and numbers of the tree the monitors were written for; others are new
/// there and worth more attention.
fn baseline() -> (Vec<String>, Vec<usize>) {
    let mut w = vec![];
    let mut n = vec![];
    for l in include_str!("baseline.txt").lines() {
        match l.split_at(1) {
            ("w", t) => w.push(crate::rec::unesc(t)),
            (_, t) => n.extend(t.parse::<usize>().ok()),
        }
    }
    (w, n)
}

/// copies of the items that are new, so that they come up in a third of all draws
fn more_of<T: Clone + PartialEq>(all: &mut Vec<T>, known: &[T]) {
    let new: Vec<T> = all.iter().filter(|x| !known.contains(x)).cloned().collect();
    if !new.is_empty() {
        let old = all.len() - new.len();
        for _ in 0..(old / 2 / new.len()).min(60) {
            all.extend(new.iter().cloned());
        }
    }
}

/// Literals in the sources of the tree under test, so that special cases in the
/// code are tried whatever they are, and what is special in Dockerfiles.
pub fn harvest(dir: &Path) -> Dict {
    let mut d = literals(dir);
    let (w, n) = baseline();
    d.words.extend(DOMAIN.iter().map(|s| s.to_string()));
    d.words.sort();
    d.words.dedup();
    let known: Vec<String> = w.into_iter().chain(DOMAIN.iter().map(|s| s.to_string())).collect();
    more_of(&mut d.words, &known);
    more_of(&mut d.sizes, &n);
    d
}

/// `u{..}` or `x..` at position j: the character and the position after it
fn coded(b: &[char], j: usize) -> Option<(char, usize)> {
    let (hex, e): (String, usize) = match (b.get(j)?, b.get(j + 1)?) {
        ('u', '{') => {
            let n = b[j + 2..].iter().position(|c| *c == '}')?;
            (b[j + 2..j + 2 + n].iter().filter(|c| **c != '_').collect(), j + 3 + n)
        }
        ('x', _) => (b.get(j + 1..j + 3)?.iter().collect(), j + 3),
        _ => return None,
    };
    Some((char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?, e))
}

pub fn literals(dir: &Path) -> Dict {
    let mut d = Dict::default();
    let mut files = vec![];
    fn walk(p: &Path, v: &mut Vec<std::path::PathBuf>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            let mut e: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            e.sort();
            for x in e {
                if x.is_dir() {
                    walk(&x, v)
                } else if x.extension().map_or(false, |e| e == "rs" || e == "pest") {
                    v.push(x)
                }
            }
        }
    }
    walk(dir, &mut files);
    for f in files {
        let Ok(s) = std::fs::read_to_string(&f) else { continue };
        // tests at the end of a file are examples, not behaviour
        let s = match s.find("#[cfg(test)]") {
            Some(p) if !f.ends_with("lib.rs") => s[..p].to_string(),
            _ => s,
        };
        let code: String = s.lines().filter(|l| !l.trim_start().starts_with("//")).collect::<Vec<_>>().join("\n");
        let b: Vec<char> = code.chars().collect();
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            if c == '"' {
                let mut t = String::new();
                let mut j = i + 1;
                while j < b.len() && b[j] != '"' {
                    if b[j] == '\\' && j + 1 < b.len() {
                        j += 1;
                        if let Some((c, e)) = coded(&b, j) {
                            t.push(c);
                            j = e;
                            continue;
                        }
                        t.push(match b[j] {
                            'n' => '\n',
                            't' => '\t',
                            'r' => '\r',
                            '0' => '\0',
                            c => c,
                        });
                    } else {
                        t.push(b[j]);
                    }
                    j += 1;
                }
                if !t.is_empty() && t.len() <= 60 {
                    d.words.push(t);
                }
                i = j + 1;
                continue;
            }
            if c == '\'' && i + 2 < b.len() && b[i + 2] == '\'' && b[i + 1] != '\\' {
                d.words.push(b[i + 1].to_string());
                i += 3;
                continue;
            }
            if c == '\'' && i + 2 < b.len() && b[i + 1] == '\\' {
                if let Some((c, e)) = coded(&b, i + 2) {
                    d.words.push(c.to_string());
                    i = e + 1;
                } else {
                    i += 4;
                }
                continue;
            }
            // limits written as types
            for (w, n) in [("u8", 256usize), ("i8", 128), ("u16", 65536), ("i16", 32768)] {
                let at = i > 0 && !(b[i - 1].is_alphanumeric() || b[i - 1] == '_');
                let w: Vec<char> = w.chars().collect();
                if at && b[i..].starts_with(&w) && !b.get(i + w.len()).map_or(false, |c| c.is_alphanumeric() || *c == '_') {
                    d.sizes.extend([n - 1, n, n + 1]);
                }
            }
            if c == '0' && b.get(i + 1) == Some(&'x') && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
                let mut j = i + 2;
                let mut n = 0usize;
                while j < b.len() && (b[j].is_ascii_hexdigit() || b[j] == '_') {
                    if let Some(x) = b[j].to_digit(16) {
                        n = n.saturating_mul(16).saturating_add(x as usize);
                    }
                    j += 1;
                }
                if n > 2 && n < 100_000 {
                    d.sizes.extend([n - 1, n, n + 1]);
                }
                if let Some(c) = char::from_u32(n as u32).filter(|c| !c.is_ascii_control() && n < 0x110000) {
                    d.words.push(c.to_string());
                }
                i = j;
                continue;
            }
            if c == '<' && b.get(i + 1) == Some(&'<') {
                // 1 << 12
                let t: String = b[i + 2..].iter().take(8).collect();
                let t: String = t.trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(k) = t.parse::<u32>() {
                    if (2..17).contains(&k) {
                        let n = 1usize << k;
                        d.sizes.extend([n - 1, n, n + 1]);
                    }
                }
            }
            if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
                let mut t = String::new();
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_digit() || b[j] == '_') {
                    if b[j] != '_' {
                        t.push(b[j]);
                    }
                    j += 1;
                }
                if let Ok(n) = t.parse::<usize>() {
                    for k in [n.saturating_sub(1), n, n + 1] {
                        if k > 1 && k < 100_000 {
                            d.sizes.push(k);
                        }
                    }
                }
                i = j.max(i + 1);
                continue;
            }
            i += 1;
        }
    }
    d.words.sort();
    d.words.dedup();
    d.sizes.sort();
    d.sizes.dedup();
    d
}
