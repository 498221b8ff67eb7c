//! The compile verdict: what rustc says, for any text, any number of callers, leaving nothing behind.
use crate::rt::{guard, Report, Rng};
use std::path::Path;
use std::process::Command;

/// Whole items that compile; @ is a number.
const GOOD: &[&str] = &[
    "fn add@(a: i32, b: i32) -> i32 { a.wrapping_add(b) }",
    "#[derive(Debug, Clone, Copy, Default)] pub struct P@ { pub x: i32, pub y: i32 }",
    "pub enum E@ { A, B(i32), C { v: u8 } }",
    "static mut G@: i32 = 0; fn set@(v: i32) { unsafe { G@ = v; } }",
    "const TEXT@: &str = \"error[E0999]: not one\\nwarning: neither\";",
    "fn vecs@() -> Vec<i32> { let mut v = Vec::new(); v.push(1); v }",
    "// error[E0001]: a comment\nfn after@() {}",
    "mod m@ { pub fn inner() -> u8 { 7 } } fn use@() -> u8 { m@::inner() }",
    "fn unused@() { let x = 1; }",
    "fn opt@(o: Option<Box<i32>>) -> i32 { match o { Some(b) => *b, None => 0 } }",
    "fn raw@() -> &'static str { r#\"\nerror: looks like one\nerror[E0308]: so does this\n\"# }",
    "fn été@() -> &'static str { \"日本\" }",
    "#[allow(dead_code)] fn warn@() { let mut y = 2; let _ = y; }",
];
/// Whole items that do not.
const BAD: &[&str] = &[
    "fn bad@() -> i32 { \"text\" }", "fn bad@() -> i32 { missing@ }", "fn bad@() { let v = vec![1]; let w = v; println!(\"{:?} {:?}\", v, w); }",
    "fn bad@() { let mut v = 1; let a = &mut v; let b = &mut v; *a = 2; *b = 3; }", "fn bad@() { let x = 1; x = 2; println!(\"{}\", x); }", "fn bad@(a: &i32, b: &i32) -> &i32 { a }",
    "fn bad@(s: Strng@) {}", "fn bad@() { 1i32.nothing@(); }", "fn two@(a: i32) {} fn bad@() { two@(); }", "fn bad@() { let p: *const i32 = 0 as *const i32; let _ = *p; }",
    "fn bad@(o: Option<i32>) -> i32 { match o { Some(v) => v } }", "struct D@; struct D@;", "fn bad@() { use nowhere@::thing; }", "fn bad@( { }", "fn bad@() { let x = ; }", "let top@ = 1;",
    "compile_error!(\"stop\nerror[E0004]: inside\");", "fn bad@() { break; }", "static mut N@: i32 = 0; fn bad@() -> i32 { N@ }", "fn bad@() -> u8 { 300 }", "fn bad@() { for i in 5 {} }", "fn bad@() { let s = String::new(); let t = s + 1; }",
    "fn bad@() { unsafe { undefined@(); } }", "impl Missing@ { fn f() {} }", "fn bad@() { let a: [i32; 2] = [1, 2, 3]; }", "fn 'bad@() {}", "fn bad@() { \"unfinished }",
];

pub struct Said { pub ok: bool, pub codes: Vec<String>, pub errors: usize, pub warnings: usize }

/// rustc itself, its messages read as JSON.
pub fn rustc(src: &str, dir: &Path) -> Said {
    std::fs::create_dir_all(dir).unwrap();
    let f = dir.join("oracle.rs");
    std::fs::write(&f, src).unwrap();
    let o = Command::new("rustc").args(["--emit=metadata", "--edition=2021", "--error-format=json", "-o"]).arg(dir.join("oracle.rmeta")).arg(&f).output().unwrap();
    let (mut codes, mut errors, mut warnings) = (vec![], 0, 0);
    for l in String::from_utf8_lossy(&o.stderr).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        match v["level"].as_str() {
            Some("error") => { if let Some(c) = v["code"]["code"].as_str() { if c.len() == 5 && c.starts_with('E') && c[1..].bytes().all(|b| b.is_ascii_digit()) { codes.push(c.to_string()) } } if !v["message"].as_str().unwrap_or("").starts_with("aborting due") { errors += 1 } }
            Some("warning") => warnings += 1,
            _ => {}
        }
    }
    let _ = std::fs::remove_dir_all(dir);
    Said { ok: o.status.success(), codes, errors, warnings }
}

fn program(r: &mut Rng) -> String {
    let bad = match r.below(5) { 0..=1 => 0, 2 => 1, 3 => 2, _ => r.below(5) };
    let mut items: Vec<String> = (0..r.below(6)).map(|k| r.pick(GOOD).replace('@', &k.to_string())).collect();
    for k in 0..bad { items.push(r.pick(BAD).replace('@', &format!("_{k}"))) }
    r.shuffle(&mut items);
    if !r.chance(0.08) { items.push("fn main() { println!(\"{}\", 1); }".into()) }
    if r.chance(0.05) { items.clear() }
    items.join(*r.pick(&["\n", "\n\n", "\r\n"])) + *r.pick(&["", "\n"])
}

fn check(src: &str, said: &Said) -> Vec<String> {
    let mut bad = vec![];
    match guard(|| decy_verify::verify_compilation(src)) {
        Err(p) => bad.push(format!("panics: {p}")),
        Ok(Err(e)) => bad.push(format!("no verdict: {e:#}")),
        Ok(Ok(g)) => {
            if g.success != said.ok { bad.push(format!("says {}, rustc says {}", g.success, said.ok)) }
            if g.success && !g.errors.is_empty() { bad.push("a success with errors".into()) }
            if g.success && g.warnings.is_empty() != (said.warnings == 0) { bad.push(format!("{} lines of warnings, rustc warns {} times", g.warnings.len(), said.warnings)) }
            if !g.success {
                let codes: Vec<String> = g.errors.iter().filter_map(|e| e.code.clone()).collect();
                if codes != said.codes { bad.push(format!("error codes {codes:?}, rustc's are {:?}", said.codes)) }
                let real = g.errors.iter().filter(|e| !e.message.contains("aborting due") && !e.message.contains("could not compile")).count();
                if g.errors.is_empty() || real != said.errors { bad.push(format!("{real} errors, rustc reports {}", said.errors)) }
                for e in &g.errors { if let Some(c) = &e.code { if !e.message.contains(c.as_str()) { bad.push(format!("error {c} with the message {:?}", e.message)) } } }
            }
        }
    }
    bad
}

fn left(dir: &Path) -> Vec<String> { std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect() }

pub fn run(rep: &mut Report, corpus: &Path, decy: &str) {
    let corpus = crate::texts::corpus(corpus);
    let mut r = rep.rng(23);
    // everything verify_compilation may leave lands here
    let (tmp, cwd, orc) = (rep.scratch.join("tmp"), rep.scratch.join("cwd"), rep.scratch.join("oracle"));
    for d in [&tmp, &cwd, &orc] { std::fs::create_dir_all(d).unwrap() }
    std::env::set_var("TMPDIR", &tmp);
    std::env::set_current_dir(&cwd).unwrap();
    let mut i = 0;
    while rep.more(i, u64::MAX) {
        i += 1;
        let batch: Vec<String> = (0..6).map(|_| program(&mut r)).collect();
        // verdicts at the same time
        let all: Vec<(usize, Vec<String>)> = std::thread::scope(|s| {
            let hs: Vec<_> = batch.iter().enumerate().map(|(k, src)| { let orc = orc.join(format!("{k}")); s.spawn(move || { let said = rustc(src, &orc); (k, said.ok, check(src, &said)) }) }).collect();
            hs.into_iter().map(|h| { let (k, ok, b) = h.join().unwrap(); rep.count(if ok { "accepted" } else { "refused" }); (k, b) }).collect()
        });
        rep.count("concurrent_batches");
        for (k, bad) in all {
            rep.saw(&batch[k]);
            for b in bad { rep.violation(format!("verdict: {b}"), &[("p.rs", batch[k].clone())]) }
        }
        for d in [&tmp, &cwd] { let l = left(d); if !l.is_empty() { rep.violation(format!("left behind: {l:?}"), &[("p.rs", batch.join("\n// ----\n"))]); for f in l { let _ = std::fs::remove_dir_all(d.join(&f)); let _ = std::fs::remove_file(d.join(f)); } } }
        // the command line: what is written has been accepted
        let mut src = if r.chance(0.5) { r.pick(&corpus).clone() } else { crate::parse::random_source(&mut r) };
        if !src.contains("main(") && r.chance(0.8) { src += "\nint main(void) { return 0; }\n" }
        let c = orc.join("p.c");
        let out = orc.join("p.rs");
        std::fs::write(&c, &src).unwrap();
        let _ = std::fs::remove_file(&out);
        let plain = Command::new(decy).arg("transpile").arg(&c).output().unwrap();
        if plain.status.success() {
            let rs = String::from_utf8_lossy(&plain.stdout).into_owned();
            let said = rustc(&rs, &orc.join("o"));
            let v = Command::new(decy).args(["transpile", "--verify"]).arg(&c).arg("-o").arg(&out).output().unwrap();
            rep.count(if said.ok { "command_lines_accepted" } else { "command_lines_refused" });
            let files = [("p.c", src.clone()), ("p.rs", rs.clone()), ("stderr.txt", String::from_utf8_lossy(&v.stderr).into_owned())];
            if v.status.success() != said.ok { rep.violation(format!("transpile --verify succeeds: {}, rustc accepts the output: {}", v.status.success(), said.ok), &files) }
            match std::fs::read_to_string(&out) {
                Ok(w) if !said.ok => rep.violation(format!("output of {} bytes written although it was refused", w.len()), &files),
                Ok(w) if w != rs => rep.violation("with --verify another translation is written", &files),
                Err(_) if said.ok => rep.violation("no output written although it was accepted", &files),
                _ => {}
            }
            let l = left(&tmp);
            if !l.is_empty() { rep.violation(format!("transpile --verify left behind: {l:?}"), &files); for f in l { let _ = std::fs::remove_dir_all(tmp.join(&f)); } }
        }
        if i % 10 == 1 { rep.sample(batch[0].clone()) }
    }
}
