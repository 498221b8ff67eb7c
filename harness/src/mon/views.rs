//! The debugger's views of a file against the file and the tree it was printed from.
use crate::parse;
use crate::rt::*;
use decy_debugger::Debugger;
use decy_parser::{Expression as E, Parameter, Statement as S, Type as T};
use std::path::Path;

type F = (String, T, Vec<Parameter>, Vec<S>);

fn expr(e: &E) -> String {
    match e {
        E::IntLiteral(n) => n.to_string(),
        E::Variable(v) => v.clone(),
        E::BinaryOp { left, op, right } => format!("({} {op:?} {})", expr(left), expr(right)),
        E::FunctionCall { function, arguments } => format!("{function}({})", arguments.iter().map(expr).collect::<Vec<_>>().join(", ")),
        other => format!("{other:?}"),
    }
}

fn stmt(s: &S) -> String {
    match s {
        S::Return(Some(e)) => format!("Return: {}", expr(e)),
        S::Return(None) => "Return (void)".into(),
        S::Assignment { target, value } => format!("Assignment: {target} = {}", expr(value)),
        S::If { condition, then_block, else_block } => match else_block {
            Some(b) => format!("If: {} (then: {} stmts, else: {} stmts)", expr(condition), then_block.len(), b.len()),
            None => format!("If: {} (then: {} stmts)", expr(condition), then_block.len()),
        },
        S::While { condition, body } => format!("While: {} ({} stmts)", expr(condition), body.len()),
        S::For { init, condition, increment, body } => format!("For: init={init:?}, cond={condition:?}, inc={increment:?} ({} stmts)", body.len()),
        S::VariableDeclaration { name, var_type, initializer } => match initializer {
            Some(i) => format!("VarDecl: {var_type:?} {name} = {}", expr(i)),
            None => format!("VarDecl: {var_type:?} {name}"),
        },
        other => format!("{other:?}"),
    }
}

fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d == 'm' { break }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// The text with the layout of the lines left out.
fn lines(s: &str) -> Vec<String> {
    s.lines().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).filter(|l| !l.is_empty()).collect()
}

fn after(view: &[String], label: &str) -> Option<String> {
    view.iter().find_map(|l| l.strip_prefix(label).map(|x| x.trim().to_string()))
}

fn ast_view(view: &str, path: &Path, src: &str, fns: &[F]) -> Result<u64, String> {
    let v = lines(view);
    let mut seen = 0;
    if after(&v, "File:").as_deref() != Some(&path.display().to_string()) {
        return Err("the file is not named".into());
    }
    if after(&v, "Size:") != Some(format!("{} lines", src.lines().count())) {
        return Err(format!("size {:?} of {} lines", after(&v, "Size:"), src.lines().count()));
    }
    // the source, every line with its number
    let from = view.lines().position(|l| l.contains("Source Code")).ok_or("no source section")?;
    let shown: Vec<&str> = view.lines().skip(from + 1).collect();
    for (i, want) in src.lines().enumerate() {
        let got = shown.get(i).ok_or("the source is cut short")?;
        let (n, text) = got.split_once('│').ok_or_else(|| format!("no source line {}: {got:?}", i + 1))?;
        if n.trim() != (i + 1).to_string() || text.strip_prefix(' ') != Some(want) {
            return Err(format!("source line {} {want:?} is shown as {got:?}", i + 1));
        }
        seen += 1;
    }
    // the tree
    let from = v.iter().position(|l| l.contains("Abstract Syntax Tree")).ok_or("no tree section")?;
    let to = v.iter().rposition(|l| l.contains("Statistics")).ok_or("no statistics")?;
    let mut want = vec![];
    for (name, ret, params, body) in fns {
        want.push(format!("├─ Function: {name} → {ret:?}"));
        if !params.is_empty() {
            want.push(format!("Parameters: {}", params.iter().map(|p| format!("{}: {:?}", p.name, p.param_type)).collect::<Vec<_>>().join(", ")));
        }
        if !body.is_empty() {
            want.push("Body:".into());
            want.extend(body.iter().map(|s| format!("├─ {}", stmt(s))));
        }
    }
    let want: Vec<String> = want.iter().flat_map(|l| lines(l)).collect();
    let got = &v[from + 1..to];
    for (i, w) in want.iter().enumerate() {
        if got.get(i) != Some(w) {
            return Err(format!("the tree shows {:?} where the file has {w:?}", got.get(i)));
        }
        seen += 1;
    }
    if got.len() != want.len() {
        return Err(format!("the tree shows {:?}, which the file has not", got.get(want.len())));
    }
    let stats = &v[to + 1..];
    let total: usize = fns.iter().map(|f| f.3.len()).sum();
    if after(stats, "Functions:") != Some(fns.len().to_string()) || after(stats, "Total statements:") != Some(total.to_string()) {
        return Err(format!("statistics {stats:?} of {} functions with {total} statements", fns.len()));
    }
    Ok(seen)
}

fn hir_view(view: &str, path: &Path, fns: &[F]) -> Result<u64, String> {
    let v = lines(view);
    if after(&v, "File:").as_deref() != Some(&path.display().to_string()) {
        return Err("the file is not named".into());
    }
    if after(&v, "HIR Functions:") != Some(fns.len().to_string()) {
        return Err(format!("{:?} functions of {}", after(&v, "HIR Functions:"), fns.len()));
    }
    let from = v.iter().position(|l| l.starts_with("HIR Functions:")).unwrap();
    let mut want = vec![];
    for (name, ret, params, body) in fns {
        want.push(format!("{name}:"));
        want.push(format!("Return type: {ret:?}"));
        want.push(format!("Parameters: {}", params.len()));
        want.extend(params.iter().map(|p| format!("- {} : {:?}", p.name, p.param_type)));
        want.push(format!("Body statements: {}", body.len()));
    }
    let got = &v[from + 1..];
    if let Some(i) = (0..want.len().max(got.len())).find(|&i| got.get(i) != want.get(i)) {
        return Err(format!("the view shows {:?} where the file has {:?}", got.get(i), want.get(i)));
    }
    Ok(want.len() as u64)
}

fn ownership_view(view: &str, path: &Path, fns: &[F]) -> Result<u64, String> {
    let v = lines(view);
    if after(&v, "File:").as_deref() != Some(&path.display().to_string()) || after(&v, "Functions analyzed:") != Some(fns.len().to_string()) {
        return Err(format!("heading {:?}", &v[..v.len().min(4)]));
    }
    let got: Vec<String> = v.iter().filter(|l| l.starts_with("Function: ") || l.starts_with("Parameters: ")).cloned().collect();
    let want: Vec<String> = fns.iter().flat_map(|f| [format!("Function: {}", f.0), format!("Parameters: {}", f.2.len())]).collect();
    if got != want {
        return Err(format!("functions {got:?} of {want:?}"));
    }
    Ok(want.len() as u64)
}

pub fn run(rep: &mut Report) {
    std::env::set_var("CLICOLOR_FORCE", "1");
    let cap = if rep.quick { 1_500 } else { 60_000 };
    let mut r = rep.rng(26);
    let dir = rep.scratch.join("views");
    std::fs::create_dir_all(&dir).unwrap();
    let (colored, mono) = (Debugger { verbose: r.chance(0.5), colored: true }, Debugger { verbose: false, colored: false });
    let mut i = 0;
    while rep.more(i, cap) {
        i += 1;
        let (fns, mut src) = parse::random_functions(&mut r);
        if r.chance(0.3) {
            src.push_str(r.pick(&["\n", "\n\n", "\n// end", "\n\t/* Ü */\n"]));
        }
        let path = dir.join(r.pick(&["a.c", "with blank.c", "dot.name.h.c", "ünï.c", "{}.c"]));
        std::fs::write(&path, &src).unwrap();
        let files = |view: &str| vec![("p.c", src.clone()), ("view.txt", view.to_string())];
        for (name, kind) in [("tree", 0), ("HIR", 1), ("ownership", 2)] {
            let show = |d: &Debugger| guard(|| match kind { 0 => d.visualize_c_ast(&path), 1 => d.visualize_hir(&path), _ => d.visualize_ownership(&path) });
            let one = match show(&mono) {
                Ok(Ok(v)) => v,
                other => { rep.violation(format!("no {name} view of a valid file: {other:?}"), &files("")); continue }
            };
            if one.contains('\u{1b}') {
                rep.violation(format!("escape codes in the {name} view without colours"), &files(&one));
            }
            let verdict = match kind { 0 => ast_view(&one, &path, &src, &fns), 1 => hir_view(&one, &path, &fns), _ => ownership_view(&one, &path, &fns) };
            match verdict {
                Ok(n) => rep.add(["tree_lines", "hir_lines", "ownership_lines"][kind], n),
                Err(e) => rep.violation(format!("{name} view: {e}"), &files(&one)),
            }
            match show(&colored) {
                Ok(Ok(v)) => {
                    if lines(&plain(&v)) != lines(&one) {
                        rep.violation(format!("the {name} view says something else in colour"), &files(&v));
                    }
                    if v.contains('\u{1b}') {
                        rep.count("colour_views");
                    }
                }
                other => rep.violation(format!("no {name} view in colour: {other:?}"), &files("")),
            }
        }
        if std::fs::read_to_string(&path).ok().as_deref() != Some(&src) {
            rep.violation("a view changes the file", &files(""));
        }
        rep.saw(&src);
        rep.add("functions", fns.len() as u64);
        // what cannot be shown
        if i % 5 == 0 {
            let bad = dir.join("bad.c");
            let _ = std::fs::remove_file(&bad);
            let what = match r.below(4) {
                0 => "a file that is not there",
                1 => { std::fs::write(&bad, [b'i', b'n', b't', 0xff, 0xfe]).unwrap(); "a file that is not text" }
                _ => {
                    let mut cut = src.clone();
                    let at = cut.rfind('}').unwrap_or(0);
                    cut.replace_range(at..at + 1, r.pick(&["", "} }", "return 1 +; }"]));
                    std::fs::write(&bad, &cut).unwrap();
                    if super::parse::is_valid(&dir, &cut) { continue }
                    "a file with a syntax error"
                }
            };
            for kind in 0..3 {
                match guard(|| match kind { 0 => mono.visualize_c_ast(&bad), 1 => mono.visualize_hir(&bad), _ => mono.visualize_ownership(&bad) }) {
                    Ok(Err(_)) => rep.count("refusals"),
                    other => rep.violation(format!("view {kind} of {what}: {}", match other { Ok(Ok(_)) => "shown without an error".to_string(), Err(e) => e, _ => String::new() }), &[("bad.c", std::fs::read(&bad).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default())]),
                }
            }
        }
        if i % 500 == 1 {
            rep.sample(format!("{} functions, {} lines", fns.len(), src.lines().count()));
        }
    }
}
