//! A program cut into headers translates as the program in one file.
use crate::rt::{guard, Report, Rng};
use std::path::{Path, PathBuf};

/// Lines of a text, in pieces that may stand in different files: never inside a comment, a continued line or a conditional.
fn pieces(src: &str) -> Vec<String> {
    let (mut out, mut cur, mut comment, mut depth) = (vec![], String::new(), false, 0i32);
    for l in src.lines() {
        cur.push_str(l);
        cur.push('\n');
        let t = l.trim_start();
        if !comment && t.starts_with('#') {
            let d = t[1..].trim_start();
            if d.starts_with("if") { depth += 1 } else if d.starts_with("endif") { depth -= 1 }
        }
        let b: Vec<char> = l.chars().collect();
        let (mut i, mut quote) = (0, None);
        while i < b.len() {
            let two = (b[i], *b.get(i + 1).unwrap_or(&' '));
            if comment {
                if two == ('*', '/') { comment = false; i += 1 }
            } else if let Some(q) = quote {
                if b[i] == '\\' { i += 1 } else if b[i] == q { quote = None }
            } else if b[i] == '"' || b[i] == '\'' {
                quote = Some(b[i]);
            } else if two == ('/', '*') {
                comment = true;
                i += 1;
            } else if two == ('/', '/') {
                break;
            }
            i += 1;
        }
        let e = l.trim_end();
        if !comment && depth == 0 && !e.contains("//") && (e.is_empty() || e.ends_with(';') || e.ends_with('{') || e.ends_with('}') || t.starts_with('#')) && !e.ends_with('\\') {
            out.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() { out.push(cur) }
    out
}

struct Tree { root: PathBuf, files: Vec<(PathBuf, bool)>, n: usize, links: bool, headers: Vec<PathBuf>, text: Vec<(String, String)>, order_free: Vec<&'static str> }

const DIRS: [&str; 5] = ["src", "src/sub", "src/sub/deep", "inc", "src/with blank"];

/// Another way to write the path from one directory to a file.
fn spell(r: &mut Rng, t: &Tree, from: &str, to: &str) -> String {
    let up: Vec<&str> = from.split('/').collect();
    let mut s = "../".repeat(up.len()) + to;
    // the shortest form when it is below
    if let Some(x) = to.strip_prefix(&format!("{from}/")) {
        if r.chance(0.7) { s = x.into() }
    }
    if r.chance(0.2) { s = format!("./{s}") }
    if r.chance(0.1) { s = s.replacen('/', "//", 1) }
    if t.links && r.chance(0.3) && to.starts_with("inc/") { s = "../".repeat(up.len()) + &to.replacen("inc/", "link/", 1) }
    s
}

fn line(r: &mut Rng, path: &str) -> String {
    let pre = *r.pick(&["#", "#", "#", "  #", "\t#", "# "]);
    let mid = *r.pick(&[" ", " ", " ", "", "  ", "\t"]);
    let post = *r.pick(&["", "", "", "   ", " // why", " /* <why> */", " // was \"old.h\"", "\r"]);
    format!("{pre}include{mid}\"{path}\"{post}\n")
}

/// Writes `ps` as a file of the tree, moving runs of pieces into headers; returns the text.
fn build(r: &mut Rng, t: &mut Tree, dir: &str, ps: &[String], level: usize) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < ps.len() {
        let rest = ps.len() - i;
        if level < 4 && r.chance(if rest > 4 { 0.12 } else { 0.04 }) {
            let k = 1 + r.below(rest.min(30));
            let d = *r.pick(&DIRS);
            t.n += 1;
            let name = if r.chance(0.25) { format!("h{}.{}", t.n, r.pick(&["inc", "c", "hh", "h.in"])) } else { format!("h{}.h", t.n) };
            let pooled = format!("{d}/{}", r.pick(&["config.h", "util.h", "types.h", "defs.inc"]));
            let rel = if r.chance(0.5) && !t.headers.contains(&PathBuf::from(&pooled)) { pooled } else { format!("{d}/{name}") };
            let guarded = r.below(4);
            t.headers.push(rel.clone().into());
            let id = t.n;
            let mut body = build(r, t, d, &ps[i..i + k], level + 1);
            match guarded {
                0 | 1 => {
                    body = format!("#ifndef H{0}_GUARD\n#define H{0}_GUARD\n{body}#endif\n", id);
                    t.files.push((rel.clone().into(), true));
                }
                2 => {
                    body = format!("#pragma once\n{body}");
                    t.files.push((rel.clone().into(), true));
                }
                _ => t.files.push((rel.clone().into(), false)),
            }
            if r.chance(0.15) && body.ends_with('\n') && !body.ends_with("\r\n") { body.pop(); }
            std::fs::write(t.root.join(&rel), &body).unwrap();
            t.text.push((rel.clone(), body));
            let p = spell(r, t, dir, &rel);
            s += &line(r, &p);
            i += k;
        } else {
            s += &ps[i];
            i += 1;
        }
        // a guarded header again: nothing
        if r.chance(0.04) {
            let g: Vec<PathBuf> = t.files.iter().filter(|f| f.1).map(|f| f.0.clone()).collect();
            if !g.is_empty() {
                let to = r.pick(&g).to_str().unwrap().to_string();
                let p = spell(r, t, dir, &to);
                s += &line(r, &p);
            }
        }
        if r.chance(0.02) && !t.order_free.is_empty() {
            s += &format!("#include <{}>\n", r.pick(&t.order_free));
        }
    }
    s
}

fn text<E: std::fmt::Display>(x: Result<Result<String, E>, String>) -> Result<String, String> {
    match x {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(format!("<panic> {p}")),
    }
}

fn ask(way: usize, main: &Path, src: &str, decy: &str) -> Result<String, String> {
    match way {
        0 => text(guard(|| decy_core::transpile_with_includes(src, main.parent()))),
        1 => text(guard(|| decy_core::transpile_with_includes_and_trace(src, main.parent()).map(|x| x.0))),
        2 => text(guard(|| decy_core::transpile_file(main, &decy_core::ProjectContext::new()).map(|x| x.rust_code))),
        _ => {
            let out = main.with_extension("rs");
            let _ = std::fs::remove_file(&out);
            let mut c = std::process::Command::new(decy);
            let o = if way == 3 { c.arg("transpile").arg(main).output() } else { c.current_dir(main.parent().unwrap()).args(["transpile", "main.c", "-o", "main.rs"]).output() }.unwrap();
            if !o.status.success() {
                return Err(String::from_utf8_lossy(&o.stderr).into_owned());
            }
            if way == 3 { Ok(String::from_utf8_lossy(&o.stdout).into_owned()) } else { std::fs::read_to_string(out).map_err(|e| e.to_string()) }
        }
    }
}

pub fn run(rep: &mut Report, dir: &Path, decy: &str) {
    let mut corpus: Vec<String> = std::fs::read_dir(dir).unwrap().filter_map(|e| std::fs::read_to_string(e.unwrap().path()).ok())
        .filter(|s| !s.contains("#include \"")).collect();
    corpus.sort();
    let mut r = rep.rng(61);
    let mut i = 0;
    while rep.more(i, u64::MAX) {
        i += 1;
        if i == 1 { standard(rep, (rep.seed % 8) as usize, 8) }
        for _ in 0..2 { order(rep, &mut r) }
        let mut src = if r.chance(0.6) { r.pick(&corpus).clone() } else { crate::parse::random_source(&mut r) };
        if r.chance(0.3) {
            // standard headers a second time, and others
            let h = *r.pick(&["stdlib.h", "string.h", "stdio.h", "math.h", "stddef.h"]);
            if src.contains(&format!("<{h}>")) { src = format!("#include <{h}>\n{src}") }
        }
        let Ok(want) = text(guard(|| decy_core::transpile_with_includes(&src, None))).and_then(|s| if s.contains("(unnamed at") { Err(s) } else { Ok(s) }) else { rep.count("refused"); continue };
        let root = rep.scratch.join(format!("t{i}"));
        for d in DIRS { std::fs::create_dir_all(root.join(d)).unwrap() }
        let links = std::os::unix::fs::symlink(root.join("inc"), root.join("link")).is_ok();
        let order_free: Vec<&'static str> = ["stdio.h", "stdlib.h", "string.h", "math.h"].into_iter().filter(|h| src.lines().next().is_some_and(|l| l.contains(h))).collect();
        let mut t = Tree { root: root.clone(), files: vec![], n: 0, links, headers: vec![], text: vec![], order_free };
        let ps = pieces(&src);
        let main_text = build(&mut r, &mut t, "src", &ps, 0);
        let main = root.join("src/main.c");
        // files of the same names elsewhere, which nothing includes
        let taken: Vec<_> = t.headers.clone();
        for h in &taken {
            if !r.chance(0.4) { continue }
            let decoy = Path::new(*r.pick(&DIRS)).join(h.file_name().unwrap());
            if !root.join(&decoy).exists() {
                std::fs::write(root.join(&decoy), "#error not this one\nint decoy(void) { return 1; }\n").unwrap();
                rep.count("decoy_headers");
            }
        }
        std::fs::write(&main, &main_text).unwrap();
        rep.add("headers", t.headers.len() as u64);
        rep.add("repeated_includes", main_text.matches("#include").count() as u64);
        let way = if r.chance(0.15) { 3 + r.below(2) } else { r.below(3) };
        let got = ask(way, &main, &main_text, decy);
        let mut files = vec![("flat.c".to_string(), src.clone()), ("main.c".into(), main_text.clone()), ("want.rs".into(), want.clone())];
        files.extend(t.text.iter().map(|(p, x)| (p.replace('/', "_"), x.clone())));
        if !t.headers.is_empty() {
            rep.saw(&main_text);
            rep.count(["split_programs_text", "split_programs_traced", "split_programs_file", "split_programs_stdout", "split_programs_output"][way]);
            rep.count("split_programs");
        }
        let bad = match &got {
            Ok(g) if *g == want => None,
            Ok(g) => {
                files.push(("got.rs".into(), g.clone()));
                let (mut a, mut b) = (want.lines(), g.lines());
                Some(loop {
                    match (a.next(), b.next()) {
                        (x, y) if x != y => break format!("cut into {} headers, it translates differently: {:?} became {:?}", t.headers.len(), x, y),
                        (None, None) => break "different line ends".into(),
                        _ => {}
                    }
                })
            }
            Err(e) => Some(format!("cut into {} headers, it is refused: {}", t.headers.len(), e.chars().take(300).collect::<String>())),
        };
        if let Some(b) = bad {
            let f: Vec<(&str, String)> = files.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
            rep.violation(format!("{b} (entry point {way})"), &f);
        } else if !t.headers.is_empty() {
            rep.sample(main_text.lines().filter(|l| l.contains("#include")).collect::<Vec<_>>().join(" "));
            // a header that is missing is an error that names it
            let h = r.pick(&t.headers).clone();
            std::fs::remove_file(root.join(&h)).unwrap();
            let way = if r.chance(0.15) { 3 + r.below(2) } else { r.below(3) };
            rep.count("missing_headers");
            match ask(way, &main, &main_text, decy) {
                Ok(_) => rep.violation(format!("translated without {} (entry point {way})", h.display()), &[("main.c", main_text.clone())]),
                Err(e) if e.starts_with("<panic>") || !e.contains(h.file_name().unwrap().to_str().unwrap()) => {
                    rep.violation(format!("without {}: {}", h.display(), e.chars().take(300).collect::<String>()), &[("main.c", main_text.clone())])
                }
                Err(_) => {}
            }
            if root.join("src/main.rs").exists() && way == 4 {
                rep.violation("an output file is written for a program with a missing header", &[("main.c", main_text)]);
            }
        }
        let _ = std::fs::remove_dir_all(&root);
    }
}

const STD: [&str; 24] = ["assert.h", "ctype.h", "errno.h", "float.h", "limits.h", "locale.h", "math.h", "setjmp.h", "signal.h", "stdarg.h", "stdbool.h", "stddef.h",
    "stdint.h", "stdio.h", "stdlib.h", "string.h", "time.h", "unistd.h", "fcntl.h", "dirent.h", "sys/types.h", "sys/stat.h", "sys/mman.h", "wchar.h"];

/// What the built-in text of a header says against the C library's header, as C that compiles exactly if they agree.
fn against_libc(h: &str, inj: &str) -> (String, u64) {
    let mut s = format!("#define _GNU_SOURCE\n#include <{h}>\n#include <stddef.h>\n#include <sys/types.h>\n");
    let mut n = 0;
    for l in inj.lines().map(str::trim) {
        if let Some(d) = l.strip_prefix("#define ") {
            let (name, val) = d.split_once(' ').unwrap_or((d, ""));
            // LOCK_*: sys/file.h, which has no built-in text
            if name.contains('(') || ["NAN", "MAP_FAILED", "NULL"].contains(&name) || name.starts_with("LOCK_") { continue }
            s += &format!("_Static_assert(({name}) == ({val}), \"{name}\");\n");
            n += 1;
        } else if let Some(d) = l.strip_prefix("typedef ") {
            let d = d.trim_end_matches(';');
            let Some((ty, name)) = d.rsplit_once(' ') else { continue };
            if ["va_list", "FILE", "DIR", "wint_t"].contains(&name) || d.contains('(') { continue }
            s += &format!("typedef {ty} inj_{name};\n_Static_assert(sizeof(inj_{name}) == sizeof({name}) && ((inj_{name})-1 < 0) == (({name})-1 < 0), \"{name}\");\n");
            n += 1;
        } else if !l.starts_with("//") && !l.starts_with("struct") && !l.starts_with("extern") && l.contains('(') {
            let name: String = l.split('(').next().unwrap().trim().rsplit([' ', '*']).next().unwrap().into();
            s += &format!("#undef {name}\nvoid *use_{name}(void) {{ return (void *)&{name}; }}\n{l}\n");
            n += 1;
        }
    }
    (s, n)
}

/// The functions of the program itself in a translation.
fn own(code: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur: Option<String> = None;
    for l in code.lines() {
        if cur.is_none() && (l.starts_with("fn fun") || l.starts_with("fn main(")) { cur = Some(String::new()) }
        if let Some(c) = &mut cur {
            c.push_str(l);
            c.push('\n');
            if l == "}" { v.push(cur.take().unwrap()) }
        }
    }
    v
}

pub fn standard(rep: &mut Report, k: usize, n: usize) {
    let protos = decy_stdlib::StdlibPrototypes::new();
    for (i, h) in STD.iter().enumerate().filter(|(i, _)| i % n == k) {
        let Some(header) = decy_stdlib::StdHeader::from_filename(h) else {
            rep.violation(format!("<{h}> is not known"), &[]);
            continue;
        };
        let (c, items) = against_libc(h, &protos.inject_prototypes_for_header(header));
        let f = rep.scratch.join(format!("std{i}.c"));
        std::fs::write(&f, &c).unwrap();
        let o = std::process::Command::new("clang").args(["-std=gnu17", "-fsyntax-only", "-w"]).arg(&f).output().unwrap();
        rep.add("declarations_against_the_c_library", items);
        if !o.status.success() {
            let e = String::from_utf8_lossy(&o.stderr).lines().filter(|l| l.contains("error")).take(4).map(|l| l.split("error: ").last().unwrap().to_string()).collect::<Vec<_>>().join("; ");
            rep.violation(format!("the built-in declarations of <{h}> are not the C library's: {e}"), &[("check.c", c)]);
        }
    }
}

/// Standard headers in any number and order do not change the program's own functions.
pub fn order(rep: &mut Report, r: &mut Rng) {
    let src = crate::parse::random_source(r);
    let Ok(want) = text(guard(|| decy_core::transpile(&src))) else { return };
    let mut hs: Vec<&str> = (0..1 + r.below(7)).map(|_| *r.pick(&STD)).collect();
    if r.chance(0.3) { hs.push("pthread.h") }
    let mut text_of = |hs: &[&str]| hs.iter().map(|h| format!("{}include{}<{h}>{}\n", r.pick(&["#", " #", "# "]), r.pick(&[" ", "", "\t"]), r.pick(&["", " // lib", " /* \"x\" */"]))).collect::<String>();
    let a = format!("{}{src}", text_of(&hs));
    let mut hs2 = hs.clone();
    hs2.reverse();
    hs2.push(hs[0]);
    let b = format!("{}{src}", text_of(&hs2));
    rep.count("header_sequences");
    rep.saw(&hs.join(" "));
    for t in [a, b] {
        match text(guard(|| decy_core::transpile(&t))) {
            Ok(g) if own(&g) == own(&want) => rep.add("own_functions_compared", own(&want).len() as u64),
            Ok(g) => rep.violation(format!("standard headers ({}) change the translation of the program's functions", hs.join(" ")), &[("p.c", t), ("with.rs", g), ("without.rs", want.clone())]),
            Err(e) => rep.violation(format!("standard headers ({}) make it refused: {}", hs.join(" "), e.chars().take(300).collect::<String>()), &[("p.c", t)]),
        }
    }
}
