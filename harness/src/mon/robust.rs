//! Any text at all: a translation or an error, never a panic, a crash or a hang.
use crate::rt::{guard, Report, Rng};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn run(rep: &mut Report, dir: &Path, decy: &str) {
    let corpus = crate::texts::corpus(dir);
    let mut r = rep.rng(12);
    let mut i = 0;
    while rep.more(i, u64::MAX) {
        i += 1;
        let src = crate::texts::any(&mut r, &corpus);
        let t0 = Instant::now();
        let way = r.below(4);
        // the file survives an abort of this process
        std::fs::write(rep.scratch.join("last.c"), &src).unwrap();
        let got = guard(|| match way {
            0 => decy_core::transpile(&src).map(|s| s.len()),
            1 => decy_core::transpile_with_trace(&src).map(|s| s.0.len()),
            2 => decy_core::transpile_with_includes(&src, Some(dir)).map(|s| s.len()),
            _ => decy_core::transpile_with_box_transform(&src).map(|s| s.len()),
        });
        rep.saw(&src);
        match &got {
            Ok(Ok(_)) => rep.count("translated"),
            Ok(Err(_)) => rep.count("rejected"),
            Err(p) => rep.violation(format!("transpiling panics: {p}"), &[("p.c", src.clone())]),
        }
        if t0.elapsed() > Duration::from_secs(60) {
            rep.violation(format!("transpiling {} bytes takes {} s", src.len(), t0.elapsed().as_secs()), &[("p.c", src.clone())]);
        }
        if i % 6 == 0 {
            cli(rep, &mut r, decy, &src);
        }
        if i % 400 == 1 {
            rep.sample(src);
        }
    }
}

/// The command line on the same text.
fn cli(rep: &mut Report, r: &mut Rng, decy: &str, src: &str) {
    let d = rep.scratch.join("cli");
    std::fs::create_dir_all(&d).unwrap();
    let (c, o) = (d.join("p.c"), d.join("p.rs"));
    let raw = r.chance(0.1);
    let mut bytes = src.as_bytes().to_vec();
    if raw { let k = r.below(bytes.len() + 1); bytes.insert(k, 0xff) }
    std::fs::write(&c, &bytes).unwrap();
    let old = r.chance(0.5);
    if old { std::fs::write(&o, "// earlier output\n").unwrap() } else { let _ = std::fs::remove_file(&o); }
    let to_file = r.chance(0.7);
    let mut cmd = Command::new(decy);
    cmd.arg("transpile").arg(&c).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if to_file { cmd.arg("-o").arg(&o); }
    if r.chance(0.2) { cmd.arg("--trace"); }
    let mut ch = cmd.spawn().unwrap();
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let a = std::thread::spawn(move || { let mut v = vec![]; let _ = std::io::Read::read_to_end(&mut so, &mut v); v });
    let b = std::thread::spawn(move || { let mut v = vec![]; let _ = std::io::Read::read_to_end(&mut se, &mut v); v });
    let end = Instant::now() + Duration::from_secs(90);
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() { break Some(s) }
        if Instant::now() > end { let _ = ch.kill(); let _ = ch.wait(); break None }
        std::thread::sleep(Duration::from_millis(2));
    };
    let (out, err) = (a.join().unwrap(), b.join().unwrap());
    let files = [("p.c", String::from_utf8_lossy(&bytes).into_owned()), ("stderr.txt", String::from_utf8_lossy(&err).into_owned())];
    rep.count("command_lines");
    let left = std::fs::read_to_string(&o).ok();
    match st.and_then(|s| s.code()) {
        None => rep.violation(format!("decy transpile ends with {st:?}"), &files),
        Some(0) => {
            rep.count("command_lines_ok");
            if raw && String::from_utf8(bytes.clone()).is_err() { rep.violation("a file that is not text is accepted", &files) }
            if to_file && (left.is_none() || left.as_deref() == Some("// earlier output\n") || !out.is_empty()) { rep.violation("success, but the output file was not written (or something else was printed)", &files) }
            if !to_file && left != old.then(|| "// earlier output\n".to_string()) { rep.violation("a file was written although none was asked for", &files) }
        }
        Some(1) => {
            rep.count("command_lines_refused");
            if err.is_empty() { rep.violation("an error without any message", &files) }
            if !out.is_empty() { rep.violation("an error, but a translation was printed", &files) }
            if left != old.then(|| "// earlier output\n".to_string()) { rep.violation("an error, but the output file was touched", &files) }
        }
        Some(n) => rep.violation(format!("decy transpile exits with {n}"), &files),
    }
}
