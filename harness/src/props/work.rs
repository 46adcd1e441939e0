//! C32: work and memory grow in proportion to the text.
//!
//! Executed edges are counted by sanitizer coverage and allocated bytes by the
//! allocator, so the figures are (nearly) the same in every run, whatever else
//! the machine does. Without the `work` feature nothing is counted and the
//! monitor reports that it observed nothing.

use super::*;
use dfcore::rec::clip;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static EDGES: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);

#[cfg(feature = "work")]
mod count {
    use super::*;
    use std::alloc::{GlobalAlloc, Layout, System};

    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
        // (only one thread at a time runs what is counted)
        EDGES.store(EDGES.load(Relaxed) + 1, Relaxed);
    }
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

    struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            BYTES.fetch_add(l.size() as u64, Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            BYTES.fetch_add(n as u64, Relaxed);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static ALLOC: A = A;
}

#[derive(Clone, Copy, Debug)]
struct Cost {
    edges: u64,
    bytes: u64,
    len: u64,
}

fn cost<T>(len: usize, f: impl FnOnce() -> T) -> (Cost, T) {
    let (e, b) = (EDGES.load(Relaxed), BYTES.load(Relaxed));
    let r = real::t(f);
    let c = Cost { edges: EDGES.load(Relaxed) - e, bytes: BYTES.load(Relaxed) - b, len: len as u64 };
    (c, r)
}

/// what is done with a text; the second figure is the power of the length that
/// the work may grow with
const OPS: &[(&str, u32)] = &[
    ("parse", 1),
    ("read", 1),
    ("clone, compare and print", 1),
    ("display", 1),
    ("locate the last instruction", 1),
    ("splice once", 1),
    ("splice everything", 2),
    ("stages", 2),
    ("global argument", 1),
    ("resolve one reference", 1),
    ("decompose as a reference", 1),
    ("substitute", 2),
];

fn measure(op: usize, s: &str) -> Option<Cost> {
    let doc = || real::parse(s).ok();
    let n = s.len();
    Some(match OPS[op].0 {
        "parse" => cost(n, || dp::Dockerfile::parse(s)).0,
        "read" => cost(n, || dp::Dockerfile::from_reader(s.as_bytes())).0,
        "clone, compare and print" => {
            let d = doc()?;
            cost(n, || {
                let c = d.clone();
                (c == d, format!("{:?}", c).len())
            })
            .0
        }
        "display" => {
            let d = doc()?;
            cost(n, || {
                let mut n = 0;
                for i in &d.instructions {
                    n += match i {
                        dp::Instruction::Run(r) => r.as_shell().map_or(0, |x| x.to_string().len()) + r.as_exec().map_or(0, |x| x.as_str_vec().len()),
                        dp::Instruction::Env(e) => e.vars.iter().map(|v| v.value.to_string().len()).sum(),
                        dp::Instruction::Misc(m) => m.arguments.to_string().len(),
                        dp::Instruction::From(f) => f.image_parsed.to_string().len(),
                        _ => 0,
                    };
                }
                n
            })
            .0
        }
        "locate the last instruction" => {
            let d = doc()?;
            let sp = d.instructions.last()?.span();
            cost(n, || sp.relative_span(&d)).0
        }
        "splice once" => {
            let d = doc()?;
            let sp = d.instructions.first()?.span();
            cost(n, || {
                let mut x = d.splicer();
                x.splice(&sp, "new");
                x.content.len()
            })
            .0
        }
        "splice everything" => {
            let d = doc()?;
            cost(n, || {
                let mut x = d.splicer();
                for i in &d.instructions {
                    x.splice(&i.span(), "new");
                }
                x.content.len()
            })
            .0
        }
        "stages" => {
            let d = doc()?;
            cost(n, || {
                let st = d.stages();
                (st.get("0").is_some(), st.get_by_name("x").is_some(), st.stages.len())
            })
            .0
        }
        "global argument" => {
            let d = doc()?;
            cost(n, || d.get_global_arg("nope").is_some()).0
        }
        "resolve one reference" => {
            let d = doc()?;
            cost(n, || dp::ImageRef::parse("a:1").resolve_vars(&d).is_some()).0
        }
        "decompose as a reference" => cost(n, || dp::ImageRef::parse(s).to_string().len()).0,
        _ => {
            let vars: std::collections::HashMap<&str, &str> = [("a", "b"), ("foo", "")].into_iter().collect();
            let mut u = std::collections::HashSet::new();
            cost(n, || dp::substitute(s, &vars, &mut u, 3).map(|s| s.len())).0
        }
    })
}

/// four times the length, how much more than four times the work?
fn excess(a: Cost, b: Cost, c: Cost, pow: u32) -> Option<String> {
    let (d1, d2) = (b.edges.saturating_sub(a.edges), c.edges.saturating_sub(b.edges));
    let lim = 4u64.pow(pow) * 3 / 2;
    if d1 > 1000 && d2 > lim * d1 {
        return Some(format!("executed edges grow from {} over {} to {}", a.edges, b.edges, c.edges));
    }
    if d1 <= 1000 && c.edges > 1_000_000 && c.edges > c.len * 2_000 {
        return Some(format!("executed edges grow from {} over {} to {}", a.edges, b.edges, c.edges));
    }
    if c.bytes > 64 * 16u64.pow(pow - 1) * (a.bytes + 4 * a.len) + 1_000_000 {
        return Some(format!("allocated bytes grow from {} over {} to {}", a.bytes, b.bytes, c.bytes));
    }
    None
}

fn grows(cx: &mut Cx, op: usize, n: usize, text: &dyn Fn(usize) -> String) {
    let (what, pow) = OPS[op];
    let mut v = vec![];
    for k in [n, 4 * n, 16 * n] {
        let s = text(k);
        match measure(op, &s) {
            Some(c) => v.push(c),
            None => return,
        }
    }
    if v[0].edges == 0 && v[2].edges == 0 && v[2].bytes == 0 {
        cx.ev("operations without any work", 1);
        return;
    }
    cx.ev("executed edges counted, in thousands", v.iter().map(|c| c.edges).sum::<u64>() / 1000);
    cx.ev("allocated kB counted", v.iter().map(|c| c.bytes).sum::<u64>() / 1024);
    cx.ev(&format!("growth of `{}` measured", what), 1);
    let Some(m) = excess(v[0], v[1], v[2], pow) else { return };
    // once more, and further out
    let w: Vec<Cost> = [4 * n, 16 * n, 64 * n].iter().filter_map(|k| measure(op, &text(*k))).collect();
    if w.len() == 3 && excess(w[0], w[1], w[2], pow).is_none() {
        cx.ev("uneven growth that evens out further on", 1);
        return;
    }
    cx.bad(
        &clip(&text(8), 600),
        format!("work of `{}` is out of proportion: for lengths of {}, {} and {} bytes {}", what, v[0].len, v[1].len, v[2].len, m),
    );
}

/// operations on one text of a stack that is large enough for what is long
fn on_stack(f: impl FnOnce() + Send) {
    std::thread::scope(|s| {
        if let Err(p) = std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, f).unwrap().join() {
            std::panic::resume_unwind(p)
        }
    });
}

fn warm() {
    for s in ["FROM a@b", "ARG a=\"b\"\nFROM a:$a AS x\nCMD [\"a\"]\nENV a=\"b\" c=d\nLABEL a='b'\nRUN a\\\n b", "x"] {
        for op in 0..OPS.len() {
            measure(op, s);
        }
    }
}

fn shape_family(cx: &mut Cx) {
    let i = cx.idx as usize;
    let sh = total::SHAPES[i % total::SHAPES.len()];
    let op = i / total::SHAPES.len() % OPS.len();
    let base = if cx.thorough { 1500 } else { 400 };
    let base = if OPS[op].1 == 2 || sh.contains("stages") { base / 4 } else { base };
    cx.note(sh);
    cx.seen(&format!("{} of {}", OPS[op].0, sh));
    on_stack(|| {
        warm();
        grows(cx, op, base, &|n| {
            let t = total::shape(sh, n);
            // (the names of the shapes with names have as many digits in all sizes)
            if sh == "many chained stages" {
                return (0..n).map(|i| format!("FROM s{:06} as s{:06}\n", i, i + 1)).collect();
            }
            if sh == "chained args" {
                return (0..n).map(|i| format!("ARG v{:06}=$v{:06}\n", i, i + 1)).collect::<String>() + "FROM $v000000";
            }
            t
        })
    });
}

fn unit(cx: &mut Cx) -> String {
    let mut g = cx.g();
    g.cap = 3;
    let s = match g.r.below(5) {
        0 => {
            let n = g.r.heavy(1, 3);
            let gis = g.doc(n);
            let f = Fmt::random(&mut cx.r);
            format!("{}\n", render(&gis, &mut cx.r, &f).content)
        }
        1 => {
            let mut s = hostile_doc(cx, None);
            s.push('\n');
            s
        }
        2 => g.text(Class::Any),
        _ => {
            // part of a line
            let s = hostile::soup(&mut cx.r, cx.dict);
            let l = s.lines().map(String::from).collect::<Vec<_>>();
            if l.is_empty() { "a".into() } else { cx.r.pick(&l).clone() }
        }
    };
    let s: String = s.chars().take(120).collect();
    if s.is_empty() {
        return "a".into();
    }
    s
}

fn random_family(cx: &mut Cx) {
    let pre = match cx.r.below(3) {
        0 => String::new(),
        1 => cx.r.pick(&["RUN ", "RUN [", "CMD [\"", "ENV ", "ENV a=\"", "ENV a ", "LABEL ", "LABEL a='", "COPY ", "FROM ", "FROM a ", "ARG a=", "FOO ", "#", "ENTRYPOINT [\"a\""]).to_string(),
        _ => unit(cx),
    };
    let u = unit(cx);
    let post = match cx.r.below(3) {
        0 => String::new(),
        1 => cx.r.pick(&["\"", "'", "]", "\"]", "\n", "a", " b", "=", "\\", "\nFROM a"]).to_string(),
        _ => unit(cx),
    };
    let cuts: Vec<usize> = (0..=u.len()).filter(|k| u.is_char_boundary(*k)).collect();
    let at = if cx.r.coin() { Some(*cx.r.pick(&cuts)) } else { None };
    let text = |n: usize| -> String {
        let mut s = pre.clone();
        match at {
            None => s.push_str(&u.repeat(n)),
            Some(k) => {
                for i in 0..n {
                    s.push_str(&u[..k]);
                    s.push_str(&format!("{:06}", i));
                    s.push_str(&u[k..]);
                }
            }
        }
        s.push_str(&post);
        s
    };
    let sample = text(2);
    cx.note(&sample);
    cx.seen(&sample);
    let base = (3000 / (u.len() + 6)).clamp(12, 100);
    let ops: Vec<usize> = if cx.r.coin() { vec![0] } else { vec![0, cx.r.below(OPS.len())] };
    on_stack(|| {
        warm();
        for op in ops {
            let base = if OPS[op].1 == 2 { base.min(25) } else { base };
            grows(cx, op, base, &text);
        }
    });
}

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C32" => Prop {
            id: "C32",
            rule: "a part repeated n, 4n and 16n times between a beginning and an end: 45 fixed shapes with every operation, and random parts (generated instructions, cut hostile text, arbitrary text, also with a number that differs each time); executed edges (sanitizer coverage of the crate and everything it is built from) and allocated bytes are counted; growth by more than one and a half times the allowed power of the length at every scale is a violation; non-trivial: every shape and operation, distinct by text",
            need: &["executed edges counted, in thousands", "allocated kB counted", "growth of `parse` measured", "growth of `stages` measured", "growth of `splice everything` measured"],
            assumptions: &["work inside the standard library (copying and comparing bytes, hashing) is not counted, except that allocated bytes are"],
            fams: vec![
                fam("shapes", (total::SHAPES.len() * OPS.len()) as u64, (total::SHAPES.len() * OPS.len()) as u64, shape_family),
                fam("random", 4_000, 150_000, random_family),
            ],
        },
        _ => return None,
    })
}
