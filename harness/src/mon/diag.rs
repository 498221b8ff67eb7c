//! Diagnostics of the parser against those of the clang program on the same text.
use crate::rt::{guard, Report, Rng};
use decy_parser::diagnostic::{Diagnostic, DiagnosticError, Severity};
use decy_parser::parser::CParser;
use std::path::Path;
use std::process::Command;

type D = (Severity, u32, u32, String);

/// What clang says, as (severity, line, column, message); None when it gives up or cannot be read.
fn clang(dir: &Path, src: &str) -> Option<Vec<D>> {
    let f = dir.join("input.c");
    std::fs::write(&f, src).unwrap();
    let o = Command::new("clang")
        .args(["-fsyntax-only", "-fno-color-diagnostics", "-fno-caret-diagnostics", "-fno-diagnostics-show-option", "-ferror-limit=0", "-fno-spell-checking", "-x", "c", "-DEOF=-1", "-DNULL=0", "-DBUFSIZ=8192"])
        .arg(&f).output().ok()?;
    let text = String::from_utf8(o.stderr).ok()?;
    let mut out = vec![];
    let name = f.to_string_lossy().into_owned();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix(&format!("{name}:")) else { continue };
        let mut p = rest.splitn(3, ':');
        let (Some(a), Some(b), Some(m)) = (p.next(), p.next(), p.next()) else { return None };
        let (Ok(a), Ok(b)) = (a.parse(), b.parse()) else { return None };
        let m = m.trim_start();
        let (sev, msg) = if let Some(x) = m.strip_prefix("error: ") { (Severity::Error, x) }
            else if let Some(x) = m.strip_prefix("fatal error: ") { (Severity::Fatal, x) }
            else if let Some(x) = m.strip_prefix("warning: ") { (Severity::Warning, x) }
            else { continue };
        out.push((sev, a, b, msg.to_string()));
    }
    // beyond twenty errors the parser's clang stops
    if !o.status.success() && out.is_empty() || out.iter().filter(|d| d.0 >= Severity::Error).count() > 18 { return None }
    Some(out)
}

/// Damages a valid text the way people do.
fn damage(r: &mut Rng, src: &str) -> String {
    let mut s = src.to_string();
    for _ in 0..1 + r.below(3) {
        let spots = |s: &str, set: &[char]| -> Vec<usize> { s.char_indices().filter(|(_, c)| set.contains(c)).map(|(i, _)| i).collect() };
        match r.below(11) {
            0 | 1 => { let p = spots(&s, &[';']); if !p.is_empty() { s.remove(*r.pick(&p)); } }
            2 => { let p = spots(&s, &['(', ')']); if !p.is_empty() { s.remove(*r.pick(&p)); } }
            3 => { let p = spots(&s, &['{', '}', '[', ']']); if !p.is_empty() { s.remove(*r.pick(&p)); } }
            4 => { let p = spots(&s, &['=', '+', '<', ',']); if !p.is_empty() { let i = *r.pick(&p); s.insert_str(i + 1, *r.pick(&[" nowhere_declared ", " + * ", " ) ", " ; ", " @ ", " \"text\" "])); } }
            5 => { let p = spots(&s, &['\n']); if !p.is_empty() { let i = *r.pick(&p); s.insert_str(i + 1, *r.pick(&["int twice; double twice;\n", "#error stop here\n", "#include \"no_such_file.h\"\n", "int f0(int, int, int, int, int);\n", "struct gone *g = missing;\n", "@\n", "return 1;\n", "int bad_init = \"text\";\n", "'unterminated\n", "\"open\n"])); } }
            6 => { let p: Vec<usize> = s.match_indices("int").map(|x| x.0).collect(); if !p.is_empty() { let i = *r.pick(&p); s.replace_range(i..i + 3, *r.pick(&["imt", "", "int int", "struct nothing"])); } }
            7 => { let n = s.len(); let mut i = r.below(n + 1); while !s.is_char_boundary(i) { i += 1 } s.truncate(i); }
            8 => { let p: Vec<usize> = s.match_indices("return").map(|x| x.0).collect(); if !p.is_empty() { let i = *r.pick(&p); s.insert_str(i + 6, " undeclared_name + "); } }
            9 => { let p = spots(&s, &['\n']); if !p.is_empty() { let i = *r.pick(&p); s.insert_str(i, *r.pick(&["  // é comment", "\t/* x */", "   "])); } }
            _ => { s.push_str(*r.pick(&["}\n", "int tail(void) { return tail(1); }\n", "/* open", "int z = ;\n", "#if 1\n"])); }
        }
    }
    s
}

fn rows(s: &str) -> Vec<(Option<usize>, String)> {
    s.lines().map(|l| { let (g, t) = l.split_once('|').unwrap_or(("?", l)); (g.trim().parse().ok(), t.strip_prefix("    ").unwrap_or(t).to_string()) }).collect()
}

/// The three lines around a place, and a caret under it.
fn snippet_ok(src: &str, line: u32, col: Option<u32>, got: Option<&str>) -> Result<(), String> {
    let lines: Vec<&str> = src.lines().collect();
    let l = line as usize;
    if l == 0 || l > lines.len() {
        return if got.is_none() { Ok(()) } else { Err(format!("there is no line {l}, but a snippet {got:?}")) };
    }
    let Some(got) = got else { return Err(format!("no snippet for line {l}")) };
    let mut want: Vec<(Option<usize>, String)> = vec![];
    if l > 1 { want.push((Some(l - 1), lines[l - 2].into())) }
    want.push((Some(l), lines[l - 1].into()));
    if let Some(c) = col { want.push((None, format!("{}^", " ".repeat((c as usize).saturating_sub(1))))) }
    if l < lines.len() { want.push((Some(l + 1), lines[l].into())) }
    let have = rows(got);
    if have != want { Err(format!("snippet {have:?}, the text around {line}:{col:?} is {want:?}")) } else { Ok(()) }
}

pub fn run(rep: &mut Report) {
    std::env::set_var("NO_COLOR", "1");
    let dir = rep.scratch.clone();
    let mut done = 0;
    let cap = if rep.quick { 6000 } else { 400_000 };
    while rep.more(done, cap) {
        done += 1;
        let mut r = rep.rng(done);
        let src = crate::parse::random_source(&mut r);
        let src = if r.chance(0.12) { src } else { damage(&mut r, &src) };
        if src.contains('\0') { continue }
        let Some(want) = clang(&dir, &src) else { rep.count("texts_clang_gives_up_on"); continue };
        let refused = want.iter().any(|d| d.0 >= Severity::Error);
        let file = r.chance(0.3);
        let path = dir.join("named.c");
        if file { std::fs::write(&path, &src).unwrap() }
        let got = guard(|| { let p = CParser::new()?; if file { p.parse_file(&path) } else { p.parse(&src) } });
        let files = [("input.c", src.clone()), ("clang.txt", format!("{want:#?}"))];
        let err = match got {
            Err(e) => { rep.violation(format!("parsing panics: {e}"), &files); continue }
            Ok(Ok(_)) => {
                if refused { rep.violation(format!("clang reports {:?}, the text is accepted", want.iter().find(|d| d.0 >= Severity::Error)), &files) }
                rep.count("accepted_texts");
                rep.saw(&src);
                continue;
            }
            Ok(Err(e)) => e,
        };
        let Some(de) = err.downcast_ref::<DiagnosticError>() else { rep.violation(format!("the error carries no diagnostics: {err:#}"), &files); continue };
        if !refused { rep.violation(format!("clang accepts the text, the parser reports {:?}", de.diagnostics.first()), &files); continue }
        let have: Vec<D> = de.diagnostics.iter().filter(|d| d.severity != Severity::Note).map(|d| (d.severity, d.line.unwrap_or(0), d.column.unwrap_or(0), d.message.clone())).collect();
        // the order among them is clang's business
        let (mut have, mut want) = (have, want);
        have.sort();
        want.sort();
        if have != want {
            let i = have.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(have.len().min(want.len()));
            rep.violation(format!("diagnostic {i}: clang reports {:?}, the parser {:?}", want.get(i), have.get(i)), &files);
            continue;
        }
        let shown = format!("{de}");
        let errors = have.iter().filter(|d| d.0 >= Severity::Error).count();
        if !shown.contains(&format!("aborting due to {errors} previous error{}", if errors == 1 { "" } else { "s" })) {
            rep.violation(format!("{errors} errors; shown as {:?}", shown.lines().last()), &files);
        }
        for d in &de.diagnostics { one(rep, d, &src, file.then(|| path.to_string_lossy().into_owned()), &files) }
        rep.add("diagnostics_compared", have.len() as u64);
        rep.count("refused_texts");
        for d in &have { rep.saw(&(d.3.as_str(), d.1, d.2)) }
        rep.sample(format!("{:?}", have.first()));
        snippets(rep, &mut r, &src);
    }
}

fn one(rep: &mut Report, d: &Diagnostic, src: &str, file: Option<String>, files: &[(&str, String)]) {
    if let Some(l) = d.line {
        if let Err(e) = snippet_ok(src, l, d.column, d.snippet.as_deref()) { rep.violation(e, files) }
    }
    let name = file.unwrap_or_else(|| "input.c".into());
    if d.file.as_deref() != Some(&name) { rep.violation(format!("the file is {name:?}, reported as {:?}", d.file), files) }
    let text = format!("{d}");
    let head = text.lines().next().unwrap_or("");
    if !head.starts_with(d.severity.tag()) || !text.contains(&d.message) { rep.violation(format!("{:?} {:?} is shown as {head:?}", d.severity, d.message), files) }
    if let (Some(l), Some(c)) = (d.line, d.column) {
        if !text.contains(&format!("--> {name}:{l}:{c}")) { rep.violation(format!("the place {name}:{l}:{c} is not shown in {text:?}"), files) }
        if let Some(line) = src.lines().nth(l as usize - 1) {
            if !text.contains(line) { rep.violation(format!("line {l} is not shown in {text:?}"), files) }
        }
    }
    for (m, w) in [("expected ')'", "parenthesis"), ("expected ';' after expression", "semicolon"), ("expected ';' at end of declaration", "semicolon"), ("expected '}'", "brace"), ("expected expression", "expected a value")] {
        if d.message == m {
            rep.count("explained_diagnostics");
            if !d.note.as_deref().unwrap_or("").contains(w) || d.help.is_none() || !text.contains(d.note.as_deref().unwrap_or("?")) { rep.violation(format!("{m} is explained as {:?}, {:?}", d.note, d.help), files) }
        }
    }
    if d.message.starts_with("use of undeclared identifier") {
        rep.count("explained_diagnostics");
        if !d.note.as_deref().unwrap_or("").contains("declared") || d.help.is_none() { rep.violation(format!("{} is explained as {:?}, {:?}", d.message, d.note, d.help), files) }
    }
}

/// Any place, in and beyond the text.
fn snippets(rep: &mut Report, r: &mut Rng, src: &str) {
    let n = src.lines().count() as i64;
    for _ in 0..4 {
        let l = r.range(0, n + 2) as u32;
        let c = if r.chance(0.2) { None } else { Some(r.range(0, 90) as u32) };
        match guard(|| Diagnostic::build_snippet(src, l, c)) {
            Err(e) => rep.violation(format!("build_snippet({l}, {c:?}) panics: {e}"), &[("input.c", src.into())]),
            Ok(s) => if let Err(e) = snippet_ok(src, l, c, s.as_deref()) { rep.violation(e, &[("input.c", src.into())]) },
        }
        rep.count("snippets_compared");
    }
}
