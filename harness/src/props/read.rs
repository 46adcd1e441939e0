//! C23: reading from a reader.

use super::*;
use dfcore::rec::clip;
use std::io::{self, ErrorKind, Read};

const KINDS: &[ErrorKind] = &[
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
    ErrorKind::IsADirectory,
    ErrorKind::StorageFull,
    ErrorKind::HostUnreachable,
    ErrorKind::StaleNetworkFileHandle,
];

#[derive(Clone, Debug)]
enum Split {
    /// as many bytes as the caller has room for
    Full,
    /// at most so many each time
    Fixed(usize),
    /// at most these many, in turn
    Cycle(Vec<usize>),
    /// up to each of these positions
    At(Vec<usize>),
}

#[derive(Clone, Debug)]
enum Fault {
    Custom(ErrorKind, String),
    Simple(ErrorKind),
    Os(i32),
}

impl Fault {
    fn make(&self) -> io::Error {
        match self {
            Fault::Custom(k, m) => io::Error::new(*k, m.clone()),
            Fault::Simple(k) => io::Error::from(*k),
            Fault::Os(n) => io::Error::from_raw_os_error(*n),
        }
    }
}

/// A scripted reader which records what it was asked for.
struct Script<'a> {
    data: &'a [u8],
    pos: usize,
    split: Split,
    turn: usize,
    /// interrupt every n-th call (0: never)
    every: usize,
    calls: usize,
    fault: Option<(usize, Fault)>,
    failed: bool,
    pub reads: u64,
    pub interrupts: u64,
}

impl<'a> Script<'a> {
    fn new(data: &'a [u8], split: Split, every: usize) -> Script<'a> {
        Script { data, pos: 0, split, turn: 0, every, calls: 0, fault: None, failed: false, reads: 0, interrupts: 0 }
    }
}

impl Read for Script<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        // no retrying caller asks for more than this
        if self.calls > 40 * (self.data.len() + 20) {
            panic!("the reader was called {} times for {} bytes", self.calls, self.data.len());
        }
        if self.every > 0 && self.calls % self.every == 0 {
            self.interrupts += 1;
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = self.data.len() - self.pos;
        if let Some((at, f)) = &self.fault {
            if self.pos >= *at {
                self.failed = true;
                return Err(f.make());
            }
            n = n.min(at - self.pos);
        }
        n = n.min(match &self.split {
            Split::Full => usize::MAX,
            Split::Fixed(k) => *k,
            Split::Cycle(v) => v[self.turn % v.len()],
            Split::At(v) => v.iter().find(|p| **p > self.pos).map_or(usize::MAX, |p| p - self.pos),
        });
        n = n.min(buf.len());
        self.turn += 1;
        self.reads += 1;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn show(r: &Result<dp::Dockerfile, dp::Error>) -> String {
    match r {
        Ok(d) => format!("{:?}", d),
        Err(e) => format!("{:?} / {}", e, e),
    }
}

/// `got` must be what parsing `s` gives.
fn same(cx: &mut Cx, s: &str, want: &Result<dp::Dockerfile, dp::Error>, got: &Result<dp::Dockerfile, dp::Error>, how: &str) {
    let ok = match (want, got) {
        (Ok(a), Ok(b)) => a == b && b.content == s && real::snap(a) == real::snap(b),
        (Err(a), Err(b)) => format!("{:?}", a) == format!("{:?}", b) && a.to_string() == b.to_string(),
        _ => false,
    };
    cx.ev(if want.is_ok() { "accepted texts compared" } else { "rejected texts compared" }, 1);
    if !ok {
        let m = real::t(|| format!("{} gives {} but parsing the text gives {}", how, clip(&show(got), 600), clip(&show(want), 600)));
        cx.bad(s, m);
    }
}

fn splits(cx: &mut Cx, len: usize) -> Split {
    match cx.r.below(7) {
        0 => Split::Full,
        1 => Split::Fixed(1),
        2 => Split::Fixed(cx.r.range(2, 9)),
        3 => Split::Fixed(*cx.r.pick(&[16, 31, 32, 33, 64, 1000, 4096, 8191, 8192, 8193])),
        4 => {
            let n = cx.r.range(1, 12);
            Split::Cycle((0..n).map(|_| cx.r.heavy(1, 50)).collect())
        }
        5 => {
            let n = cx.r.range(1, 5);
            let mut v: Vec<usize> = (0..n).map(|_| cx.r.below(len + 1)).collect();
            v.sort();
            Split::At(v)
        }
        _ => {
            let n = cx.r.range(1, 6);
            Split::Cycle((0..n).map(|_| *cx.r.pick(&[1usize, 2, 3, 100, 8192])).collect())
        }
    }
}

fn any_text(cx: &mut Cx) -> String {
    match cx.r.below(10) {
        0 => {
            let d = big_doc(cx, None);
            d.content
        }
        1 | 2 => hostile_doc(cx, None),
        3 => {
            // odd beginnings and ends
            let (_, d) = gen_doc(cx, None);
            let p = *cx.r.pick(&["\u{feff}", "\u{0}", "\r\n", "\n", "", " ", "#é\n"]);
            let q = *cx.r.pick(&["\u{feff}", "\u{0}", "\r\n", "\n\n", "", "\r", "\u{1a}", " \\"]);
            format!("{}{}{}", p, d.content, q)
        }
        _ => gen_doc(cx, None).1.content,
    }
}

fn read_case(cx: &mut Cx, s: &str, split: Split, every: usize) {
    let want = real::parse(s);
    let mut r = Script::new(s.as_bytes(), split.clone(), every);
    let got = real::t(|| dp::Dockerfile::from_reader(&mut r));
    let inside = {
        // did a read end inside a character?
        match &split {
            Split::Fixed(k) => (1..).map(|i| i * k).take_while(|p| *p < s.len()).any(|p| !s.is_char_boundary(p)),
            Split::At(v) => v.iter().any(|p| *p < s.len() && !s.is_char_boundary(*p)),
            _ => false,
        }
    };
    cx.ev("reads served", r.reads);
    cx.ev("reads interrupted", r.interrupts);
    if inside {
        cx.ev("texts split inside a character", 1);
    }
    same(cx, s, &want, &got, &format!("reading in the pattern {:?} with every {}th call interrupted", split, every));
}

fn family_splits(cx: &mut Cx) {
    let s = any_text(cx);
    cx.note(&s);
    cx.seen(&s);
    let want = real::parse(&s);
    let got = real::t(|| s.parse::<dp::Dockerfile>());
    same(cx, &s, &want, &got, "string conversion");
    let got = real::t(|| dp::Dockerfile::from_reader(s.as_bytes()));
    same(cx, &s, &want, &got, "reading the bytes at once");
    for _ in 0..3 {
        let p = splits(cx, s.len());
        let e = *cx.r.pick(&[0usize, 0, 2, 3, 7]);
        read_case(cx, &s, p, e);
        if cx.failed() {
            return;
        }
    }
}

/// every split of a short text into two reads, and single bytes
fn family_every_split(cx: &mut Cx) {
    let mut g = cx.g();
    g.cap = 3;
    let gis = g.doc(2);
    let f = Fmt::random(&mut cx.r);
    let d = render(&gis, &mut cx.r, &f);
    let s = if cx.r.chance(1, 3) { hostile::mutate(&d.content, &mut cx.r, cx.dict) } else { d.content };
    if s.len() > 300 {
        return;
    }
    cx.note(&s);
    cx.seen(&s);
    for p in 0..=s.len() {
        read_case(cx, &s, Split::At(vec![p]), 0);
        if cx.failed() {
            return;
        }
    }
    for e in [0, 2, 3] {
        read_case(cx, &s, Split::Fixed(1), e);
    }
}

fn small_text(cx: &mut Cx) -> String {
    for _ in 0..20 {
        let s = match cx.r.below(4) {
            0 => hostile_doc(cx, None),
            _ => {
                let mut g = cx.g();
                g.cap = 3;
                let n = g.r.range(1, 4);
                let gis = g.doc(n);
                let f = Fmt::random(&mut cx.r);
                render(&gis, &mut cx.r, &f).content
            }
        };
        if s.len() <= 250 {
            return s;
        }
    }
    "FROM alpine:3 AS a\nRUN é\n".into()
}

fn fault(cx: &mut Cx) -> Fault {
    match cx.r.below(5) {
        0 => Fault::Simple(*cx.r.pick(KINDS)),
        1 => Fault::Os(*cx.r.pick(&[1, 2, 5, 9, 11, 12, 13, 21, 22, 28, 32, 104, 110, 111, 116])),
        _ => Fault::Custom(*cx.r.pick(KINDS), format!("planted failure é {}", cx.r.below(1_000_000))),
    }
}

fn failing(cx: &mut Cx, data: &[u8], valid: bool, at: usize, split: Split, every: usize, f: Fault) {
    let text = String::from_utf8_lossy(data).to_string();
    let mut r = Script::new(data, split.clone(), every);
    r.fault = Some((at, f.clone()));
    let got = real::t(|| dp::Dockerfile::from_reader(&mut r));
    let asked = r.failed;
    cx.ev("reads served", r.reads);
    cx.ev("reads interrupted", r.interrupts);
    if !asked {
        // the reader was never asked for more than came before the failure: then
        // the end cannot have been seen
        if let Ok(d) = &got {
            cx.bad(&text, format!("a document of {} bytes was made although the reader never reached its end (failure set at byte {})", d.content.len(), at));
        }
        cx.ev("failures never reached", 1);
        return;
    }
    cx.ev("reader failures injected", 1);
    let e = f.make();
    match &got {
        Err(dp::Error::ReadError { source }) => {
            let shown = real::t(|| got.as_ref().err().map(|e| e.to_string()).unwrap_or_default());
            let same = source.kind() == e.kind() && source.to_string().contains(&e.to_string()) && shown.contains(&e.to_string());
            if !same && valid {
                cx.bad(
                    &text,
                    format!("the reader failed at byte {} with {:?} but the read error carries {:?} and is shown as {:?}", at, e, source, shown),
                );
            }
            let chained = real::t(|| got.as_ref().err().and_then(|e| std::error::Error::source(e)).map(|s| s.to_string()));
            if valid && !chained.is_some_and(|c| c.contains(&e.to_string())) {
                cx.bad(&text, format!("the read error does not name its cause {:?}", e));
            }
        }
        o => {
            let m = real::t(|| clip(&show(o), 500));
            cx.bad(&text, format!("the reader failed at byte {} of {} with {:?} (pattern {:?}) but the result is {}", at, data.len(), e, split, m))
        }
    }
}

fn family_faults(cx: &mut Cx) {
    let s = small_text(cx);
    cx.note(&s);
    cx.seen(&s);
    for at in 0..=s.len() {
        let f = fault(cx);
        let p = splits(cx, s.len());
        let e = *cx.r.pick(&[0usize, 0, 0, 2, 5]);
        failing(cx, s.as_bytes(), true, at, p, e, f);
        if cx.failed() {
            return;
        }
    }
    cx.ev("texts with a failure at every byte", 1);
}

/// every kind of error, at the beginning, inside and at the very end
fn family_kinds(cx: &mut Cx) {
    let s = small_text(cx);
    cx.note(&s);
    cx.seen(&s);
    let mid = cx.r.below(s.len() + 1);
    for k in KINDS {
        for at in [0, mid, s.len()] {
            for f in [Fault::Simple(*k), Fault::Custom(*k, format!("planted {:?}", k))] {
                let p = splits(cx, s.len());
                failing(cx, s.as_bytes(), true, at, p, 0, f);
                if cx.failed() {
                    return;
                }
            }
        }
    }
}

const BAD: &[&[u8]] = &[
    b"\xff",
    b"\xfe",
    b"\x80",
    b"\xbf",
    b"\xc0\x80",
    b"\xc1\xbf",
    b"\xc3",
    b"\xe4\xb8",
    b"\xe0\x80\x80",
    b"\xed\xa0\x80",
    b"\xed\xbf\xbf",
    b"\xf0\x9f\x98",
    b"\xf0\x80\x80\x80",
    b"\xf4\x90\x80\x80",
    b"\xf8\x88\x80\x80\x80",
    b"\xc3\x28",
    b"\xff\xfe",
];

fn invalid_at(cx: &mut Cx, bytes: &[u8]) {
    if std::str::from_utf8(bytes).is_ok() {
        return;
    }
    let text = String::from_utf8_lossy(bytes).to_string();
    let split = splits(cx, bytes.len());
    let mut r = Script::new(bytes, split.clone(), *cx.r.pick(&[0usize, 0, 3]));
    let got = real::t(|| dp::Dockerfile::from_reader(&mut r));
    cx.ev("texts with invalid UTF-8", 1);
    match &got {
        Err(dp::Error::ReadError { source }) if source.kind() == ErrorKind::InvalidData => {
            let _ = real::t(|| format!("{:?}", got));
        }
        o => {
            let m = real::t(|| clip(&show(o), 500));
            cx.bad(&text, format!("invalid UTF-8 ({:x?}, pattern {:?}) gives {}", clip(&format!("{:x?}", bytes), 300), split, m))
        }
    }
}

fn family_invalid(cx: &mut Cx) {
    let s = small_text(cx);
    cx.note(&s);
    cx.seen(&s);
    let b = s.as_bytes();
    for at in 0..=b.len() {
        let bad = *cx.r.pick(BAD);
        let mut v = b[..at].to_vec();
        v.extend_from_slice(bad);
        match cx.r.below(4) {
            // cut there
            0 => {}
            // in place of what is there
            1 => v.extend_from_slice(&b[(at + bad.len()).min(b.len())..]),
            _ => v.extend_from_slice(&b[at..]),
        }
        invalid_at(cx, &v);
        // a text cut inside a character
        if at < b.len() && !s.is_char_boundary(at) {
            invalid_at(cx, &b[..at]);
            let mut w = b.to_vec();
            w.remove(at);
            invalid_at(cx, &w);
        }
        if cx.failed() {
            return;
        }
    }
    // invalid bytes and then a failing reader: a read error of either kind
    let mut v = b.to_vec();
    v.extend_from_slice(b"\xff");
    let (p, f) = (splits(cx, v.len()), fault(cx));
    failing(cx, &v, false, v.len(), p, 0, f);
}

/// long texts, so that every internal buffer fills up at every alignment
fn family_edges(cx: &mut Cx) {
    let mut sizes = vec![31usize, 32, 33, 64, 512, 1024, 4096, 8192, 16384, 32768, 65536, 131072];
    sizes.extend(cx.dict.sizes.iter().filter(|s| **s >= 16 && **s < 100_000));
    let n = *cx.r.pick(&sizes);
    let target = (n + cx.r.below(9)).saturating_sub(4).max(12);
    let ch = *cx.r.pick(&["é", "中", "😀", "x"]);
    let mut s = String::from(*cx.r.pick(&["RUN ", "#", "ENV a ", "USER  ", "ARG a='"]));
    for _ in 0..cx.r.below(4) {
        s.push('-');
    }
    while s.len() < target {
        s.push_str(ch);
    }
    if s.starts_with("ARG") {
        s.push('\'');
    }
    let tail = *cx.r.pick(&["", "\n", "\nFROM x", "\nFROM a@b", "\r\nRUN y\r\n", "\nÜ x"]);
    s.push_str(tail);
    cx.seen(&format!("{} bytes of {} then {:?}", target, ch, tail));
    cx.note(&s);
    let near: Vec<usize> = vec![target.saturating_sub(1), target, target + 1];
    let split = match cx.r.below(5) {
        0 => Split::Full,
        1 => Split::At(near),
        2 => Split::Fixed(*cx.r.pick(&[1usize, 3, 5, 7, 4096, 8191, 8192, 8193, 16384])),
        _ => splits(cx, s.len()),
    };
    let every = *cx.r.pick(&[0usize, 0, 2, 4]);
    read_case(cx, &s, split.clone(), every);
    if cx.failed() {
        return;
    }
    // a failure around the edge
    let at = (n + cx.r.below(5)).saturating_sub(2).min(s.len());
    let f = fault(cx);
    failing(cx, s.as_bytes(), true, at, split, every, f);
    // invalid bytes around the edge
    let mut v = s.clone().into_bytes();
    let bad = *cx.r.pick(BAD);
    for (k, c) in bad.iter().enumerate() {
        v.insert((at + k).min(v.len()), *c);
    }
    invalid_at(cx, &v);
    cx.ev("texts about the size of a buffer", 1);
}

/// texts of megabytes, whose last line must still count
fn family_huge(cx: &mut Cx) {
    let mut sizes: Vec<usize> = vec![1 << 17, 1 << 18, 1 << 19, 1_000_000, 1 << 20, 1 << 21, 3_000_000, 1 << 22, 5_000_000, 1 << 23, 10_000_000, 1 << 24];
    if cx.thorough {
        sizes.extend([20_000_000usize, 1 << 25, 50_000_000, 1 << 26, 100_000_000, 1 << 27]);
    }
    let n = sizes[cx.idx as usize % sizes.len()];
    let target = (n + cx.r.below(7)).saturating_sub(3);
    let line = *cx.r.pick(&["# a comment line of some length, é, repeated over and over\n", "#ab\n", "RUN one command of the many in this document\n"]);
    let mut s = String::with_capacity(target + 100);
    if cx.r.coin() {
        // one long comment
        s.push('#');
        while s.len() < target {
            s.push_str("comment é ");
        }
        s.push('\n');
    } else {
        let line = if n > 3_000_000 { "# a long comment line, a long comment line, a long comment line, a long comment line, a long comment line\n" } else { line };
        while s.len() < target {
            s.push_str(line);
        }
    }
    s.push_str(*cx.r.pick(&["FROM last\n", "FROM a b c", "CMD x"]));
    cx.seen(&format!("{} bytes ending in {:?}", s.len(), &s[s.len() - 5..]));
    let every = *cx.r.pick(&[0usize, 0, 3]);
    let split = if cx.r.coin() { Split::Full } else { Split::Cycle(vec![65_537, 8192, 1 << 20, 1]) };
    let want = real::parse(&s);
    let mut r = Script::new(s.as_bytes(), split.clone(), every);
    let got = real::t(|| dp::Dockerfile::from_reader(&mut r));
    let ok = match (&want, &got) {
        (Ok(a), Ok(b)) => a == b && b.content == s,
        (Err(a), Err(b)) => a.to_string() == b.to_string(),
        _ => false,
    };
    cx.ev("texts of a hundred kilobytes to many megabytes", 1);
    if !ok {
        let part = |r: &Result<dp::Dockerfile, dp::Error>| match r {
            Ok(d) => format!("a document of {} bytes with {} instructions", d.content.len(), d.instructions.len()),
            Err(e) => clip(&e.to_string(), 300),
        };
        let m = real::t(|| format!("reading {} bytes ({:?}) gives {} but parsing them gives {}", s.len(), split, part(&got), part(&want)));
        cx.bad(&clip(&s, 300), m);
        return;
    }
    drop((want, got));
    // a failure after all of it
    let at = s.len();
    let mut r = Script::new(s.as_bytes(), split, every);
    r.fault = Some((at, Fault::Simple(ErrorKind::Other)));
    let got = real::t(|| dp::Dockerfile::from_reader(&mut r));
    if !matches!(got, Err(dp::Error::ReadError { .. })) {
        cx.bad(&clip(&s, 300), format!("the reader failed after {} bytes but the result is no read error", at));
    }
}

/// the readers people use
fn family_readers(cx: &mut Cx) {
    let s = any_text(cx);
    cx.note(&s);
    cx.seen(&s);
    let want = real::parse(&s);
    let b = s.as_bytes().to_vec();
    let k = cx.r.below(b.len() + 1);
    let got = real::t(|| dp::Dockerfile::from_reader(io::Cursor::new(b.clone())));
    same(cx, &s, &want, &got, "a cursor");
    let got = real::t(|| dp::Dockerfile::from_reader((&b[..k]).chain(&b[k..])));
    same(cx, &s, &want, &got, "two chained readers");
    let cap = *cx.r.pick(&[1usize, 2, 5, 16, 8192]);
    let got = real::t(|| dp::Dockerfile::from_reader(io::BufReader::with_capacity(cap, &b[..])));
    same(cx, &s, &want, &got, "a buffered reader");
    let mut dynr: Box<dyn Read> = Box::new(&b[..]);
    let got = real::t(|| dp::Dockerfile::from_reader(&mut dynr));
    same(cx, &s, &want, &got, "a boxed reader");
    let got = real::t(|| dp::Dockerfile::from_reader((&b[..]).take(u64::MAX)));
    same(cx, &s, &want, &got, "a limited reader");
    if s.is_char_boundary(k) {
        let part = &s[..k];
        let w = real::parse(part);
        let got = real::t(|| dp::Dockerfile::from_reader((&b[..]).take(k as u64)));
        same(cx, part, &w, &got, "a reader limited to a part");
    }
    if cx.idx % 8 == 0 {
        // a pipe written by another thread, in pieces
        let (r, mut w) = io::pipe().expect("cannot make a pipe");
        let copy = b.clone();
        let mut rr = cx.g().r;
        let h = std::thread::spawn(move || {
            use std::io::Write;
            let mut p = 0;
            while p < copy.len() {
                let n = rr.heavy(1, 3000).min(copy.len() - p);
                if w.write_all(&copy[p..p + n]).is_err() {
                    break;
                }
                p += n;
                if rr.chance(1, 3) {
                    std::thread::yield_now();
                }
            }
        });
        let got = real::t(|| dp::Dockerfile::from_reader(r));
        let _ = h.join();
        same(cx, &s, &want, &got, "a pipe");
        cx.ev("texts read from a pipe", 1);
        // a file
        let path = std::env::temp_dir().join(format!("dfmon-{}-{}", std::process::id(), cx.idx));
        std::fs::write(&path, &b).expect("cannot write a scratch file");
        let f = std::fs::File::open(&path);
        let got = f.map(|f| real::t(|| dp::Dockerfile::from_reader(f)));
        let _ = std::fs::remove_file(&path);
        same(cx, &s, &want, &got.expect("cannot read a scratch file"), "a file");
        cx.ev("texts read from a file", 1);
        // reading a directory fails
        if let Ok(f) = std::fs::File::open("/dev") {
            let got = real::t(|| dp::Dockerfile::from_reader(f));
            if !matches!(got, Err(dp::Error::ReadError { .. })) {
                cx.bad(&s, format!("reading a directory gives {}", clip(&show(&got), 300)));
            }
        }
    }
}

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C23" => Prop {
            id: "C23",
            rule: "texts (generated, hostile, large, empty, with byte-order marks and NULs) delivered by scripted readers in random, single-byte, every two-way and buffer-sized splits with interrupted calls, by slices, cursors, chains, files and pipes from another thread; readers that fail at every byte of a text (and at its very end) with every error kind; invalid UTF-8 of every class at every byte; texts and failures at and around 32 B to 128 kB, and of up to 16 MB (thorough: 128 MB). The recorded calls of the reader say what was delivered; non-trivial: each text, distinct by content",
            need: &[
                "reader failures injected",
                "texts with invalid UTF-8",
                "texts split inside a character",
                "reads interrupted",
                "accepted texts compared",
                "rejected texts compared",
                "texts with a failure at every byte",
                "texts read from a pipe",
                "texts about the size of a buffer",
                "texts of a hundred kilobytes to many megabytes",
            ],
            assumptions: &[
                "a reader that has signalled its end is not expected to be read again",
                "for bytes that are both invalid and followed by a failure, either read error is right",
            ],
            fams: vec![
                fam("splits", 12_000, 600_000, family_splits),
                fam("every-split", 1200, 60_000, family_every_split),
                fam("faults", 2500, 120_000, family_faults),
                fam("kinds", 250, 10_000, family_kinds),
                fam("invalid", 2500, 120_000, family_invalid),
                fam("edges", 2500, 100_000, family_edges),
                fam("huge", 24, 180, family_huge),
                fam("readers", 4000, 200_000, family_readers),
            ],
        },
        _ => return None,
    })
}
