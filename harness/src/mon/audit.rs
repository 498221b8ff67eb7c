//! The unsafe audit against the generator's own count and an independent scan of the tokens.
use crate::rt::{guard, Report, Rng};
use decy_verify::{audit_rust_code, UnsafeAuditor};
use proc_macro2::{Delimiter, TokenStream, TokenTree};

struct Gen<'a> {
    r: &'a mut Rng,
    n: usize,
    blocks: usize,
    fns: usize,
    safe: bool, // no unsafe at all
}

impl Gen<'_> {
    fn id(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }
    fn unsafe_block(&mut self, d: usize) -> String {
        if self.safe {
            return "{ 1 }".into();
        }
        self.blocks += 1;
        let gap = *self.r.pick(&[" ", "\n    ", " /* unsafe { */ ", ""]);
        let inner = match self.r.below(9) {
            0 => "*ptr".to_string(),
            1 => "std::mem::transmute::<u32, i32>(7)".into(),
            2 => "COUNTER".into(),
            3 => "COUNTER += 1; COUNTER".into(),
            4 => String::new(),
            5 => "std::ptr::null_mut::<i32>(); 2".into(),
            6 if d > 0 => format!("let w = {}; w", self.unsafe_block(d - 1)),
            7 => { let a = self.stmts(1, d.saturating_sub(1)); format!("{a}3") }
            _ => "call(1)".into(),
        };
        format!("unsafe{gap}{{ {inner} }}")
    }
    fn expr(&mut self, d: usize) -> String {
        if d == 0 {
            return self.r.pick(&["1", "x", "\"unsafe { }\".len()", "'u'", "b\"unsafe fn\".len()", "r#\"unsafe { \"x\" }\"#.len()", "is_unsafe", "unsafe_name(2)"]).to_string();
        }
        match self.r.below(16) {
            0..=4 => self.unsafe_block(d - 1),
            5 => format!("({} + {})", self.expr(d - 1), self.expr(d - 1)),
            6 => format!("if {} > 0 {{ {} }} else {{ {} }}", self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)),
            7 => format!("match {} {{ 0 => {}, _ => {} }}", self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)),
            8 => format!("(|z: i32| {})(1)", self.expr(d - 1)),
            9 => format!("[{}, {}][0]", self.expr(d - 1), self.expr(d - 1)),
            10 => format!("vec![{}; 2].len()", self.expr(d - 1)),
            11 => format!("format!(\"{{}} unsafe {{{{ }}}}\", {}).len()", self.expr(d - 1)),
            12 => format!("loop {{ break {}; }}", self.expr(d - 1)),
            13 => format!("Some({}).unwrap()", self.expr(d - 1)),
            14 => format!("call({}, &{})", self.expr(d - 1), self.expr(d - 1)),
            _ => format!("(({}) as i64)", self.expr(d - 1)),
        }
    }
    fn stmts(&mut self, n: usize, d: usize) -> String {
        (0..n).map(|_| self.stmt(d)).collect()
    }
    fn stmt(&mut self, d: usize) -> String {
        match self.r.below(14) {
            0..=2 => { let v = self.id("v"); format!("let {v} = {};\n", self.expr(d)) }
            3 => format!("{};\n", self.expr(d)),
            4 => format!("{};\n", self.unsafe_block(d)),
            5 => format!("println!(\"{{}}\", {});\n", self.expr(d)),
            6 => format!("assert_eq!({}, {}, \"unsafe {{}}\");\n", self.expr(d), self.expr(d)),
            7 => "// unsafe { in a comment }\n".into(),
            8 => "/* unsafe fn x() { unsafe { } } */\n\n".into(),
            9 if d > 0 => format!("for _i in 0..{} {{\n{}}}\n", self.expr(d - 1), self.stmts(1, d - 1)),
            10 if d > 0 => format!("while {} > 0 {{\n{}}}\n", self.expr(d - 1), self.stmts(2, d - 1)),
            11 if d > 0 => format!("{}", self.func(d - 1, false)),
            12 => "let s = \"\nunsafe { over lines }\n\";\n".into(),
            _ => { let v = self.id("c"); format!("const {v}: i32 = {};\n", self.expr(1)) }
        }
    }
    fn func(&mut self, d: usize, method: bool) -> String {
        let un = !self.safe && self.r.chance(0.3);
        if un {
            self.fns += 1;
        }
        let stem = if self.r.chance(0.2) { "unsafe_f" } else { "f" };
        let name = self.id(stem);
        let q = if un { *self.r.pick(&["unsafe ", "pub unsafe ", "pub(crate) unsafe ", "unsafe extern \"C\" ", "const unsafe ", "async unsafe "]) } else { *self.r.pick(&["", "pub ", "extern \"C\" ", "const ", "async "]) };
        let q = if method && self.r.chance(0.5) { q.replace("pub(crate) ", "").replace("pub ", "") } else { q.to_string() };
        let me = if method { "&self, " } else { "" };
        let n = self.r.below(5);
        let b = self.stmts(n, d);
        format!("{q}fn {name}({me}x: i32) {{\n{b}}}\n")
    }
    fn item(&mut self, d: usize) -> String {
        match self.r.below(12) {
            0..=5 => self.func(d, false),
            6 => { let n = 1 + self.r.below(3); let b: String = (0..n).map(|_| self.func(d, true)).collect(); let t = self.id("S"); format!("struct {t};\nimpl {t} {{\n{b}}}\n") }
            7 => {
                let n = 1 + self.r.below(2);
                let b: String = (0..n).map(|_| self.func(d, true).replace("pub(crate) ", "").replace("pub ", "")).collect();
                let t = self.id("T");
                format!("trait {t} {{\n{b}}}\n")
            }
            8 if d > 0 => { let n = 1 + self.r.below(3); let b: String = (0..n).map(|_| self.item(d - 1)).collect(); let m = self.id("m"); format!("mod {m} {{\n{b}}}\n") }
            9 => format!("static mut {}: i32 = 0;\n", self.id("COUNTER")),
            10 => format!("const {}: i32 = {};\n", self.id("K"), self.expr(2)),
            _ => format!("/// unsafe {{ docs }}\nstruct {} {{ r#unsafe: i32 }}\n", self.id("D")),
        }
    }
}

/// `unsafe` before a brace, and `unsafe … fn` with a body, anywhere among the tokens.
fn scan(ts: TokenStream) -> (usize, usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let (mut b, mut f) = (0, 0);
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Ident(w) if w == "unsafe" => match v.get(i + 1) {
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => b += 1,
                _ => f += 1,
            },
            TokenTree::Group(g) => {
                let (x, y) = scan(g.stream());
                b += x;
                f += y;
            }
            _ => {}
        }
    }
    (b, f)
}

pub fn run(rep: &mut Report) {
    let cap = if rep.quick { 12_000 } else { 300_000 };
    let mut r = rep.rng(5);
    let mut reused = UnsafeAuditor::new();
    let mut i = 0;
    while rep.more(i, cap) {
        i += 1;
        let safe = r.chance(0.15);
        let d = 1 + r.below(3);
        let most = if r.chance(0.1) { 25 } else { 6 };
        let n = r.below(most);
        let mut g = Gen { r: &mut r, n: 0, blocks: 0, fns: 0, safe };
        let mut src: String = (0..n).map(|_| g.item(d)).collect();
        let (blocks, fns) = (g.blocks, g.fns);
        if r.chance(0.5) {
            let pad = r.below(300);
            src.push_str(&"// filler\n\n".repeat(pad));
        }
        if r.chance(0.1) {
            src = src.trim_end().to_string();
        }
        let Ok(ts) = src.parse::<TokenStream>() else { rep.count("generator_lex_errors"); continue };
        if syn::parse_file(&src).is_err() {
            rep.count("generator_parse_errors");
            if rep.counts["generator_parse_errors"] < 2 { rep.sample(src.clone()); }
            continue;
        }
        if scan(ts) != (blocks, fns) {
            rep.count("oracles_disagree");
            if rep.counts["oracles_disagree"] < 3 { rep.sample(src.clone()); }
            continue;
        }
        let rp = match guard(|| audit_rust_code(&src)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => { rep.violation(format!("the audit rejects valid Rust: {e:#}"), &[("src.rs", src.clone())]); continue; }
            Err(e) => { rep.violation(format!("the audit panics: {e}"), &[("src.rs", src.clone())]); continue; }
        };
        rep.saw(&(blocks, fns, hash(&src)));
        rep.add("unsafe_blocks", blocks as u64);
        rep.add("unsafe_functions", fns as u64);
        if safe { rep.count("files_without_unsafe"); }
        let total = src.lines().count();
        let mut bad = vec![];
        if rp.unsafe_blocks.len() != blocks + fns {
            bad.push(format!("{blocks} unsafe blocks and {fns} unsafe functions, reported {}", rp.unsafe_blocks.len()));
        }
        if rp.total_lines != total {
            bad.push(format!("{total} lines, reported {}", rp.total_lines));
        }
        if (rp.unsafe_lines > 0) != (blocks + fns > 0) || rp.unsafe_lines < blocks + fns {
            bad.push(format!("{} unsafe lines with {} unsafe places", rp.unsafe_lines, blocks + fns));
        }
        let dens = if total > 0 { rp.unsafe_lines as f64 / total as f64 * 100.0 } else { 0.0 };
        if (dens - rp.unsafe_density_percent).abs() > 1e-9 || rp.meets_density_target() != (dens < 5.0) {
            bad.push(format!("density {} and target {}, {} of {total} lines", rp.unsafe_density_percent, rp.meets_density_target(), rp.unsafe_lines));
        }
        rep.count(if dens < 5.0 { "below_target" } else { "above_target" });
        let conf: Vec<f64> = rp.unsafe_blocks.iter().map(|b| b.confidence as f64).collect();
        let mean = if conf.is_empty() { 0.0 } else { conf.iter().sum::<f64>() / conf.len() as f64 };
        if (mean - rp.average_confidence).abs() > 1e-9 || conf.iter().any(|c| *c > 100.0) || rp.high_confidence_blocks().len() != conf.iter().filter(|c| **c >= 70.0).count() {
            bad.push(format!("confidence {conf:?}, average {}, high {}", rp.average_confidence, rp.high_confidence_blocks().len()));
        }
        if rp.unsafe_blocks.iter().any(|b| b.suggestion.trim().is_empty()) {
            bad.push("an unsafe place without a suggestion".into());
        }
        match guard(|| reused.audit(&src)) {
            Ok(Ok(q)) if format!("{q:?}") == format!("{rp:?}") => {}
            Ok(Ok(q)) => bad.push(format!("a reused auditor reports {} unsafe places and {} lines, a new one {} and {}", q.unsafe_blocks.len(), q.unsafe_lines, rp.unsafe_blocks.len(), rp.unsafe_lines)),
            _ => bad.push("a reused auditor fails".into()),
        }
        if r.chance(0.1) {
            // broken text is an error, and leaves nothing behind in the auditor
            let cut: String = { let k = r.below(src.len() + 1); let mut s: String = src.chars().take(k).collect(); s.push_str(r.pick(&["{", "unsafe", "fn", "\"", ")", "unsafe { ("])); s };
            let valid = syn::parse_file(&cut).is_ok();
            match guard(|| reused.audit(&cut)) {
                Err(e) => bad.push(format!("the audit panics on broken text: {e}")),
                Ok(x) if x.is_ok() != valid => bad.push(format!("broken text accepted: {}", x.is_ok())),
                _ => rep.count("malformed_files"),
            }
        }
        for b in bad {
            rep.violation(b, &[("src.rs", src.clone())]);
        }
        if i % 4000 == 1 {
            rep.sample(src.clone());
        }
    }
}

fn hash(s: &str) -> u64 {
    crate::rt::hash_of(&s)
}
