//! Prompts, responses, retries and metrics of the LLM loop against models of them.
use crate::rt::*;
use decy_llm::*;
use std::collections::{BTreeMap, HashMap};

fn word(r: &mut Rng) -> String {
    r.pick(&["p", "buf", "lock", "head", "n", "data", "ünï", "a b", "x\"y", "l\\n", "```", "{", "weird\tname", "", "p2", "cond"]).to_string()
}

fn text(r: &mut Rng, fences: bool) -> String {
    let n = r.below(4);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(&["int f(int *p) { return *p; }", "# heading", "Here is the code.", "line with \"quotes\" and \\", "{ \"code\": 1 }", "/* ü */", "  indented", "100% {}", "rust", "a ` b"]));
        s.push_str(r.pick(&["\n", "\n\n", " ", "\r\n"]));
    }
    if fences && r.chance(0.3) {
        s.push_str("```text\nnot code\n```\n");
    }
    s
}

/// Rust text as a model writes it; doc comments may have fences of their own.
fn code(r: &mut Rng) -> String {
    let mut s = String::new();
    for i in 0..1 + r.below(4) {
        s.push_str(&match r.below(7) {
            0 => format!("fn f{i}(a: i32) -> i32 {{ a + {i} }}\n"),
            1 => format!("/// Adds.\n///\n/// ```\n/// assert_eq!(f{i}(1), 2);\n/// ```\nfn f{i}(a: i32) -> i32 {{\n    a + 1\n}}\n"),
            2 => format!("//! ```rust\n//! let x = {i};\n//! ```\n"),
            3 => format!("struct S{i} {{\n    v: Vec<i32>,\n}}\n\n"),
            4 => format!("// `inline` {i}\nconst C{i}: &str = \"a`b\";\n"),
            5 => format!("#[test]\nfn t{i}() {{\n    assert!(true);\n}}\n"),
            _ => format!("impl Drop for S{i} {{\n    fn drop(&mut self) {{ println!(\"{{}}\", {i}); }}\n}}\n"),
        });
    }
    s.trim().to_string()
}

type Own = HashMap<String, (String, f64, String)>;
struct Fun { name: String, sig: String, own: Own, life: Vec<(String, usize, bool)>, locks: HashMap<String, Vec<String>> }

fn same(ctx: &AnalysisContext, m: &[Fun]) -> Result<(), String> {
    if ctx.functions.len() != m.len() {
        return Err(format!("{} functions, {} added", ctx.functions.len(), m.len()));
    }
    for (f, w) in ctx.functions.iter().zip(m) {
        let own: Own = f.ownership.iter().map(|(k, v)| (k.clone(), (v.kind.clone(), v.confidence, v.reason.clone()))).collect();
        let life: Vec<_> = f.lifetimes.iter().map(|l| (l.variable.clone(), l.scope_depth, l.escapes)).collect();
        let close = own.len() == w.own.len() && w.own.iter().all(|(k, a)| own.get(k).is_some_and(|b| a.0 == b.0 && a.2 == b.2 && (a.1 - b.1).abs() <= 1e-12));
        if f.name != w.name || f.c_signature != w.sig || !close || life != w.life || f.lock_mappings != w.locks || f.lifetimes.iter().any(|l| !l.depends_on.is_empty()) {
            return Err(format!("function {:?}: {f:?}\nadded: {:?} {:?} {:?} {:?}", w.name, w.sig, w.own, w.life, w.locks));
        }
    }
    Ok(())
}

fn context(r: &mut Rng, rep: &mut Report) -> (AnalysisContext, Vec<Fun>) {
    let mut b = ContextBuilder::new();
    let mut m: Vec<Fun> = vec![];
    for _ in 0..r.below(25) {
        let name = if m.is_empty() || r.chance(0.2) { word(r) } else { r.pick(&m).name.clone() };
        match r.below(4) {
            0 => {
                let (n, s) = (word(r), text(r, false));
                b.add_function(&n, &s);
                m.push(Fun { name: n, sig: s, own: HashMap::new(), life: vec![], locks: HashMap::new() });
            }
            1 => {
                let (v, k, c, why) = (word(r), word(r), (r.below(101) as f64) / 100.0, text(r, false));
                b.add_ownership(&name, &v, &k, c, &why);
                if let Some(f) = m.iter_mut().find(|f| f.name == name) { f.own.insert(v, (k, c, why)); }
            }
            2 => {
                let (v, d, e) = (word(r), r.below(9), r.chance(0.5));
                b.add_lifetime(&name, &v, d, e);
                if let Some(f) = m.iter_mut().find(|f| f.name == name) { f.life.push((v, d, e)); }
            }
            _ => {
                let l = word(r);
                let data: Vec<String> = (0..r.below(4)).map(|_| word(r)).collect();
                b.add_lock_mapping(&name, &l, data.clone());
                if let Some(f) = m.iter_mut().find(|f| f.name == name) { f.locks.insert(l, data); }
            }
        }
        rep.count("context_steps");
        if r.chance(0.3) {
            if let Err(e) = same(&b.build(), &m) { rep.violation(format!("context: {e}"), &[]); }
        }
    }
    match b.to_json().map_err(|e| e.to_string()).and_then(|j| serde_json::from_str::<AnalysisContext>(&j).map_err(|e| e.to_string())) {
        Ok(c) => if let Err(e) = same(&c, &m) { rep.violation(format!("context as JSON: {e}"), &[]) },
        Err(e) => rep.violation(format!("the context is no JSON: {e}"), &[]),
    }
    (b.build(), m)
}

fn prompt(r: &mut Rng, rep: &mut Report) {
    let (ctx, m) = context(r, rep);
    let (src, ins) = (text(r, false), if r.chance(0.5) { text(r, false) } else { String::new() });
    let mut p = CodegenPrompt::new(&src, ctx);
    if !ins.is_empty() {
        p = p.with_instructions(&ins);
    }
    let out = p.render();
    let files = [("prompt.txt", out.clone()), ("c.txt", src.clone())];
    let Some(at) = out.find(&format!("```c\n{src}\n```\n")) else { return rep.violation("the prompt has not the C source", &files) };
    let rest = &out[at + src.len() + 10..];
    let json = rest.find("```json\n").map(|i| &rest[i + 8..]);
    let mut left = rest;
    match json.map(|j| { let mut s = serde_json::Deserializer::from_str(j).into_iter::<AnalysisContext>(); let c = s.next(); (c, s.byte_offset()) }) {
        Some((Some(Ok(c)), used)) => {
            left = &json.unwrap()[used..];
            if let Err(e) = same(&c, &m) { rep.violation(format!("the prompt's context: {e}"), &files); }
        }
        other => rep.violation(format!("the prompt has no context: {:?}", other.is_some()), &files),
    }
    // the summary: one line per variable with ownership, under its function, in the order of the functions
    let mut pos = 0;
    for f in m.iter().filter(|f| !f.own.is_empty()) {
        let head = format!("### Function: {}\n", f.name);
        let Some(i) = left[pos..].find(&head) else { return rep.violation(format!("no summary of function {:?}", f.name), &files) };
        pos += i + head.len();
        let body = &left[pos..];
        let end = body.find("\n\n").unwrap_or(body.len());
        let mut got: Vec<&str> = body[..end].lines().filter(|l| l.starts_with("- `")).collect();
        let mut want: Vec<String> = f.own.iter().map(|(v, (k, c, _))| format!("- `{v}`: {k} (confidence: {:.0}%)", c * 100.0)).collect();
        got.sort_unstable();
        want.sort_unstable();
        if got != want {
            rep.violation(format!("summary of {:?}: {got:?}, ownership {want:?}", f.name), &files);
        }
        rep.add("summary_lines", want.len() as u64);
    }
    if left.matches("### Function: ").count() != m.iter().filter(|f| !f.own.is_empty()).count() {
        rep.violation("the summary has functions without ownership", &files);
    }
    if !ins.is_empty() && !left[pos..].contains(&ins) {
        rep.violation("the prompt has not the instructions", &files);
    }
    if ins.is_empty() && left.contains("Additional Instructions") {
        rep.violation("instructions that were not given", &files);
    }
    rep.saw(&out);
    rep.count("prompts");
}

fn response(r: &mut Rng, rep: &mut Report) {
    let g = LlmCodegen::new("m");
    let c = code(r);
    let (resp, want): (String, Option<(String, Option<f64>, Option<String>, Vec<String>)>) = match r.below(7) {
        0 | 1 | 2 => {
            let pre = text(r, true);
            let post = text(r, false);
            let nl = if r.chance(0.8) { "\n" } else { "\r\n" };
            let why = if post.trim().is_empty() { None } else { Some(post.trim().to_string()) };
            (format!("{pre}{}```rust{}{nl}{c}{nl}```{nl}{post}", if pre.is_empty() || pre.ends_with('\n') { "" } else { "\n" }, r.pick(&["", "", " ", ",no_run"])), Some((c.clone(), None, why, vec![])))
        }
        3 if c.contains("```rust") => (text(r, false), None),
        3 => (format!("{}```\n{c}\n```\n", if r.chance(0.5) { "Code:\n" } else { "" }), Some((c.clone(), None, None, vec![]))),
        4 => {
            let conf = r.below(101) as f64 / 100.0;
            let why = text(r, true);
            let warn: Vec<String> = (0..r.below(3)).map(|_| word(r)).collect();
            let j = serde_json::json!({"code": c, "confidence": conf, "reasoning": why, "warnings": warn});
            let j = if r.chance(0.5) { j.to_string() } else { serde_json::to_string_pretty(&j).unwrap() };
            (format!("{}{j}{}", r.pick(&["", "\n", "  "]), r.pick(&["", "\n\n"])), Some((c.clone(), Some(conf), Some(why), warn)))
        }
        5 => (text(r, false).replace('`', ""), None),
        _ => (format!("{}```rust\n{}", text(r, false), c.replace("```", "")), None),
    };
    let files = [("response.txt", resp.clone())];
    match (guard(|| g.parse_response(&resp)), want) {
        (Err(e), _) => rep.violation(format!("a response makes it panic: {e}"), &files),
        (Ok(Err(e)), None) => { rep.count("responses_without_code"); if e.to_string().is_empty() { rep.violation("an error without text", &files) } }
        (Ok(Ok(got)), None) => rep.violation(format!("code from a response without: {:?}", got.code), &files),
        (Ok(Err(e)), Some(_)) => rep.violation(format!("the code is not found: {e}"), &files),
        (Ok(Ok(got)), Some((c, conf, why, warn))) => {
            rep.count("responses_with_code");
            if got.code.replace("\r\n", "\n") != c {
                rep.violation(format!("code {:?}, in the response {c:?}", got.code), &files);
            }
            if conf.is_some_and(|x| (x - got.confidence).abs() > 1e-12) || !(0.0..=1.0).contains(&got.confidence) {
                rep.violation(format!("confidence {} of {conf:?}", got.confidence), &files);
            }
            if why.is_some_and(|w| w != got.reasoning) || got.warnings != warn {
                rep.violation(format!("reasoning {:?}, warnings {:?}", got.reasoning, got.warnings), &files);
            }
        }
    }
    rep.saw(&resp);
    // checks of the code: what is balanced passes, what is not does not
    let mut c = c;
    let n = c.len();
    let broken = match r.below(4) {
        0 => { c = r.pick(&["", " ", "\n\t "]).to_string(); true }
        1 => { let at = c[..r.below(n)].rfind('\n').map_or(0, |i| i + 1); c.insert_str(at, r.pick(&["{", "}", "} }", "{ {"])); true }
        _ => false,
    };
    let v = CodeVerifier::new();
    let gen = GeneratedCode { code: c.clone(), confidence: 0.5, reasoning: String::new(), warnings: vec![] };
    let res = v.verify(&gen).unwrap();
    let ok = [g.validate_code(&c).is_ok(), v.compile(&c).is_ok(), res.success && res.compiles];
    if ok != [!broken; 3] {
        rep.violation(format!("verdicts {ok:?} on {} code", if broken { "unbalanced or empty" } else { "balanced" }), &[("code.rs", c.clone())]);
    }
    if broken && (res.compile_errors.is_empty() || VerificationLoop::new(3).is_success(&res)) {
        rep.violation("a refusal without errors, or counted as success", &[("code.rs", c)]);
    } else if !broken && !VerificationLoop::new(3).is_success(&res) {
        rep.violation("a success not counted as one", &[("code.rs", c)]);
    }
    // the lint count: the kinds of panicking calls in the code
    let mut l = gen.code.clone();
    for s in ["\nlet a = x.unwrap();", "\nlet b = y.expect(\"y\");", "\npanic!(\"no\");", "\nlet b = z.expect(\"z\");"] {
        if r.chance(0.4) {
            l.push_str(s);
        }
    }
    let kinds = ["unwrap()", "expect(", "panic!"].iter().filter(|k| l.contains(**k)).count();
    if v.lint(&l).ok() != Some(kinds) {
        rep.violation(format!("lint {:?}, {kinds} kinds of panicking calls", v.lint(&l).ok()), &[("code.rs", l)]);
    }
    let mut p = gen.code.clone();
    p.push('(');
    if !broken && g.validate_code(&p).is_ok() {
        rep.violation("unbalanced parentheses pass", &[("code.rs", p)]);
    }
    rep.count("verdicts");
}

fn retries(r: &mut Rng, rep: &mut Report) {
    let max = r.below(6);
    let mut c = IterationContext::new(max);
    let mut failures: Vec<(String, Vec<String>)> = vec![];
    let lp = VerificationLoop::new(max);
    if lp.max_iterations() != max {
        rep.violation(format!("{} iterations of {max}", lp.max_iterations()), &[]);
    }
    loop {
        let left = failures.len() < max;
        if c.can_retry() != left || c.iteration != failures.len() + 1 {
            return rep.violation(format!("after {} failures of at most {max}: retry {}, iteration {}", failures.len(), c.can_retry(), c.iteration), &[]);
        }
        let fb = c.get_feedback();
        let all: Vec<String> = failures.iter().enumerate().flat_map(|(i, f)| f.1.iter().map(move |e| format!("Iteration {}: {e}", i + 1))).collect();
        if c.feedback != all {
            return rep.violation(format!("history {:?} of {all:?}", c.feedback), &[]);
        }
        if let Some((code, errs)) = failures.last() {
            let listed: Vec<&str> = fb[..fb.find("## Previous Code").unwrap_or(0)].lines().filter_map(|l| l.strip_prefix("- ")).collect();
            if listed != errs.iter().map(String::as_str).collect::<Vec<_>>() || !fb.contains(&format!("```rust\n{code}\n```")) || c.previous_code.as_deref() != Some(code) || &c.previous_errors != errs {
                return rep.violation("the feedback is not about the last failure", &[("feedback.txt", fb), ("code.rs", code.clone()), ("errors.txt", errs.join("\n"))]);
            }
        } else if c.previous_code.is_some() || fb.contains("## Previous Code") {
            return rep.violation("feedback about code before the first failure", &[("feedback.txt", fb)]);
        }
        rep.count("retry_states");
        if !left && r.chance(0.7) || failures.len() > 12 {
            break;
        }
        let errs: Vec<String> = (0..r.below(4)).map(|k| format!("error[E{:04}]: {} {k}", r.below(1000), r.pick(&["mismatched types", "ü not found", "borrow of `x`"]))).collect();
        let code = code(r);
        c.record_failure(&code, errs.clone());
        failures.push((code, errs));
        if r.chance(0.2) {
            c = serde_json::from_str(&serde_json::to_string(&c).unwrap()).unwrap();
        }
    }
    // feedback of a verdict
    let list = |r: &mut Rng, p: &str| (0..r.below(4)).map(|i| format!("{p} {i} {}", r.below(100))).collect::<Vec<_>>();
    let (ce, tf) = (list(r, "compile"), list(r, "test"));
    let which = r.below(3);
    let mut res = match which { 0 => VerificationResult::success(), 1 => VerificationResult::compile_failure(ce.clone()), _ => VerificationResult::test_failure(tf.clone()) };
    let kind = (res.success, res.compiles, res.tests_pass);
    if lp.is_success(&res) != (kind == (true, true, true)) || res.success != (res.compile_errors.is_empty() && res.test_failures.is_empty() && res.compiles && res.tests_pass) && !(ce.is_empty() || tf.is_empty()) {
        rep.violation(format!("verdict {kind:?} counted as success {}", lp.is_success(&res)), &[]);
    }
    let want = [(true, true, true), (false, false, false), (false, true, false)][which];
    let held = [(true, true), (res.compile_errors == ce, res.test_failures.is_empty()), (res.compile_errors.is_empty(), res.test_failures == tf)][which];
    if kind != want || held != (true, true) || res.clippy_warnings != 0 {
        rep.violation(format!("verdict {kind:?} of {which}: {res:?}"), &[]);
    }
    if r.chance(0.5) {
        res.compile_errors = ce;
        res.test_failures = tf;
        res.clippy_warnings = r.below(4);
    }
    let fb = lp.format_feedback(&res);
    let got: Vec<&str> = fb.lines().filter_map(|l| l.strip_prefix("- ")).collect();
    let want: Vec<&str> = res.compile_errors.iter().chain(&res.test_failures).map(String::as_str).collect();
    if got != want || fb.contains("## Compilation Errors") == res.compile_errors.is_empty() || fb.contains("## Test Failures") == res.test_failures.is_empty()
        || fb.contains(&format!("## Clippy Warnings: {}\n", res.clippy_warnings)) == (res.clippy_warnings == 0)
    {
        rep.violation(format!("feedback lists {got:?} of {want:?}"), &[("feedback.txt", fb)]);
    }
    for (s, c, t) in [(false, true, true), (true, false, true), (true, true, false)] {
        (res.success, res.compiles, res.tests_pass) = (s, c, t);
        if lp.is_success(&res) {
            rep.violation(format!("success {s}, compiles {c}, tests pass {t} counts as success"), &[]);
        }
    }
}

fn metrics(r: &mut Rng, rep: &mut Report) {
    let mut m = CompilationMetrics::new();
    let (mut n, mut first, mut its) = (0u64, 0u64, 0u64);
    let mut hist: BTreeMap<usize, u64> = BTreeMap::new();
    for _ in 0..r.below(60) {
        match r.below(20) {
            0 => { m.reset(); n = 0; first = 0; its = 0; hist.clear(); }
            1 => m = serde_json::from_str(&serde_json::to_string(&m).unwrap()).unwrap(),
            _ => {
                let (ok, k) = (r.chance(0.6), *r.pick(&[0, 1, 1, 1, 2, 3, 5, 40]));
                m.record_attempt(ok, k);
                n += 1;
                its += k as u64;
                first += (ok && k == 1) as u64;
                *hist.entry(k).or_default() += 1;
            }
        }
        let rate = if n == 0 { 0.0 } else { first as f64 / n as f64 };
        let avg = if n == 0 { 0.0 } else { its as f64 / n as f64 };
        let h: BTreeMap<usize, u64> = m.iteration_histogram().iter().map(|(a, b)| (*a, *b)).collect();
        if m.total_attempts() != n || m.first_try_successes() != first || (m.first_try_rate() - rate).abs() > 1e-12 || (m.average_iterations() - avg).abs() > 1e-12 || h != hist {
            return rep.violation(format!("metrics {m:?} after {n} attempts, {first} on the first try, {its} iterations, {hist:?}"), &[]);
        }
        for t in [0.0, 0.5, CompilationMetrics::TARGET_RATE, 1.0, rate + 1e-6, rate - 1e-6] {
            if m.meets_target(t) != (rate >= t) {
                return rep.violation(format!("rate {rate} meets {t}: {}", m.meets_target(t)), &[]);
            }
        }
        rep.count("metric_steps");
    }
}

pub fn run(rep: &mut Report) {
    let cap = if rep.quick { 20_000 } else { 2_000_000 };
    let mut r = rep.rng(27);
    let mut i = 0;
    while rep.more(i, cap) {
        i += 1;
        prompt(&mut r, rep);
        response(&mut r, rep);
        retries(&mut r, rep);
        metrics(&mut r, rep);
    }
}
