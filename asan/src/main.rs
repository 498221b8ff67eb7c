//! The parser's use of libclang, watched: ffi ffi <quick|thorough> <seed> <seconds> <scratch> <corpus>
#[path = "../../harness/src/mon/parse.rs"]
#[allow(dead_code)]
mod parse;
#[path = "../../harness/src/mon/rt.rs"]
#[allow(dead_code)]
mod rt;
#[path = "../../harness/src/mon/texts.rs"]
#[allow(dead_code)]
mod texts;
use decy_parser::parser::CParser;
use std::ffi::{c_char, c_int, c_long, c_void, CStr, CString};

extern "C" {
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
}

/// The interface monitor preloaded into this process.
struct Mon {
    live: extern "C" fn(*mut c_long) -> c_int,
    totals: extern "C" fn(*mut c_long),
    error: extern "C" fn(c_int) -> *const c_char,
    kind: extern "C" fn(c_int) -> *const c_char,
    forget: extern "C" fn(),
}

fn sym(n: &str) -> *mut c_void {
    let c = CString::new(n).unwrap();
    let p = unsafe { dlsym(std::ptr::null_mut(), c.as_ptr()) };
    assert!(!p.is_null(), "clangmon is not loaded");
    p
}
fn text(p: *const c_char) -> String {
    unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()
}

impl Mon {
    fn get() -> Self {
        unsafe {
            Mon {
                live: std::mem::transmute(sym("clangmon_live")),
                totals: std::mem::transmute(sym("clangmon_totals")),
                error: std::mem::transmute(sym("clangmon_error")),
                kind: std::mem::transmute(sym("clangmon_kind")),
                forget: std::mem::transmute(sym("clangmon_forget")),
            }
        }
    }
    /// What is wrong now, with this many parsers alive.
    fn wrong(&self, parsers: i64) -> Option<String> {
        let mut n = [0 as c_long; 5];
        let errs = (self.live)(n.as_mut_ptr());
        let mut out = vec![];
        for i in 0..errs.min(4) {
            out.push(text((self.error)(i)));
        }
        for k in 0..5 {
            let want = if k == 0 { parsers } else { 0 };
            if n[k] != want {
                out.push(format!("{} {} still held ({want} expected)", n[k], text((self.kind)(k as c_int))));
            }
        }
        (!out.is_empty()).then(|| { (self.forget)(); out.join("; ") })
    }
}

/// The answer as text; errors by kind only.
fn ask(p: &CParser, src: &str, file: Option<&std::path::Path>) -> String {
    match file {
        Some(f) => { std::fs::write(f, src).unwrap(); p.parse_file(f) }
        None => p.parse(src),
    }.map(|a| { let t = format!("{a:?}"); match file { Some(f) => t.replace(&*f.parent().unwrap().to_string_lossy(), ""), None => t } }).unwrap_or_else(|e| { let _ = format!("{e} {e:?} {e:#}"); "<error>".into() })
}

/// The sanitizer makes frames larger; deep texts need a large stack.
fn main() {
    std::thread::Builder::new().stack_size(256 << 20).spawn(watch).unwrap().join().unwrap();
}

fn watch() {
    let a: Vec<String> = std::env::args().collect();
    let mut rep = rt::Report::new(a[2] == "quick", a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]);
    let mon = Mon::get();
    let corpus = texts::corpus(a[6].as_ref());
    let mut r = rep.rng(13);
    let mut i = 0;
    while rep.more(i, u64::MAX) {
        i += 1;
        let batch: Vec<(String, Option<String>)> = (0..8).map(|k| {
            let s = texts::any(&mut r, &corpus);
            let ext = *r.pick(&["c", "c", "cpp", "cu", "h"]);
            (s, r.chance(0.4).then(|| format!("f{k}.{ext}")))
        }).collect();
        // one after the other, on one parser or each on its own
        let shared = r.chance(0.5);
        let one = CParser::new().unwrap();
        let mut answers = vec![];
        for (src, name) in &batch {
            let f = name.as_ref().map(|n| rep.scratch.join(n));
            std::fs::write(rep.scratch.join("last.c"), src).unwrap();
            let ans = if shared { ask(&one, src, f.as_deref()) } else { ask(&CParser::new().unwrap(), src, f.as_deref()) };
            rep.saw(src);
            rep.count(if ans.starts_with('<') { "rejected" } else { "parsed" });
            if let Some(w) = mon.wrong(1) {
                rep.violation(format!("after reading one text: {w}"), &[(name.as_deref().unwrap_or("p.c"), src.clone())]);
                break;
            }
            answers.push(ans);
        }
        drop(one);
        if let Some(w) = mon.wrong(0) {
            rep.violation(format!("after the parser is dropped: {w}"), &[("p.c", batch[0].0.clone())]);
        }
        if answers.len() < batch.len() { continue }
        // the same texts on threads of their own
        if i % 3 == 0 {
            let got: Vec<(usize, String)> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..3).map(|t| {
                    let (batch, dir) = (&batch, rep.scratch.join(format!("t{t}")));
                    std::fs::create_dir_all(&dir).unwrap();
                    std::thread::Builder::new().stack_size(128 << 20).spawn_scoped(s, move || {
                        let p = CParser::new().unwrap();
                        (t..batch.len()).chain(0..t).map(|k| (k, ask(&p, &batch[k].0, batch[k].1.as_ref().map(|n| dir.join(n)).as_deref()))).collect::<Vec<_>>()
                    }).unwrap()
                }).collect();
                hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
            });
            rep.add("concurrent_parses", got.len() as u64);
            for (k, g) in got {
                if g != answers[k] {
                    rep.violation("a text reads differently on another thread", &[("p.c", batch[k].0.clone()), ("one.txt", answers[k].clone()), ("other.txt", g)]);
                }
            }
            if let Some(w) = mon.wrong(0) {
                rep.violation(format!("after reading texts on several threads: {w}"), &[("p.c", batch[0].0.clone())]);
            }
        }
        if i % 50 == 1 { rep.sample(batch[0].0.clone()) }
    }
    let mut n = [0 as c_long; 6];
    (mon.totals)(n.as_mut_ptr());
    for (k, v) in ["index", "unit", "diagnostic", "token_array", "string"].iter().zip(n) {
        rep.add(&format!("{k}_pairs"), v as u64);
    }
    rep.add("watched_uses", n[5] as u64);
    rep.print();
}
