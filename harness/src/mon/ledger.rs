//! Metrics, convergence reports and decision traces account for exactly what was recorded.
use crate::rt::{guard, Report, Rng};
use decy_core::metrics::{CompileMetrics, ConvergenceReport, EquivalenceDivergence, EquivalenceMetrics, TierMetrics, TranspilationResult};
use decy_core::trace::{DecisionType, PipelineStage, TraceCollector, TraceEntry};
use std::collections::BTreeMap;
use std::path::Path;

/// The first E followed by four digits, if any.
fn code(m: &str) -> String {
    let b = m.as_bytes();
    (0..b.len()).find(|&i| b[i] == b'E' && b.len() >= i + 5 && b[i + 1..i + 5].iter().all(u8::is_ascii_digit)).map(|i| m[i..i + 5].to_string()).unwrap_or_else(|| "UNKNOWN".into())
}

fn message(r: &mut Rng) -> String {
    let c = format!("E{:04}", *r.pick(&[308, 502, 425, 499, 1, 9999, 382]));
    match r.below(12) {
        0 => format!("{c}: mismatched types"),
        1 | 2 => format!("error[{c}]: cannot borrow `x`"),
        3 => "some failure without a code".into(),
        4 => String::new(),
        5 => format!("Expected a type, error[{c}]: found none"),
        6 => format!("Ein Fehler é: error[{c}]"),
        7 => "Eéé unbekannt".into(),
        8 => format!("ERROR {c} in 日本"),
        9 => "E03".into(),
        10 => format!("error[{c}]: one\nerror[E0277]: two"),
        _ => "E12a4 nearly; EEEE E".into(),
    }
}

fn compile_metrics(rep: &mut Report, r: &mut Rng) {
    let mut m = CompileMetrics::new();
    let (mut ok, mut codes, mut log) = (0u64, BTreeMap::<String, u64>::new(), String::new());
    let mut failures = 0u64;
    for _ in 0..r.below(25) {
        match r.below(20) {
            0..=8 => { m.record_success(); ok += 1; log += "success\n" }
            9..=18 => { let t = message(r); log += &format!("failure {t:?}\n"); *codes.entry(code(&t)).or_default() += 1; failures += 1; m.record_failure(&t) }
            _ => { m.reset(); ok = 0; failures = 0; codes.clear(); log += "reset\n" }
        }
        let rate = if ok + failures == 0 { 0.0 } else { ok as f64 / (ok + failures) as f64 };
        let hist: BTreeMap<String, u64> = m.error_histogram().iter().map(|(a, b)| (a.clone(), *b)).collect();
        let target = *r.pick(&[0.8, rate, 0.5, 1.0]);
        let mut bad = vec![];
        if (m.total_attempts(), m.successes(), m.failures()) != (ok + failures, ok, failures) { bad.push(format!("{} attempts, {} successes, {} failures", m.total_attempts(), m.successes(), m.failures())) }
        if m.success_rate() != rate || m.meets_target(target) != (rate >= target) { bad.push(format!("rate {} for {ok} of {}", m.success_rate(), ok + failures)) }
        if hist != codes { bad.push(format!("error codes {hist:?}, expected {codes:?}")) }
        match serde_json::from_str::<CompileMetrics>(&m.to_json()) { Ok(x) if (x.total_attempts(), x.successes(), x.failures()) == (ok + failures, ok, failures) && x.error_histogram() == m.error_histogram() => {}
            _ => bad.push("the JSON does not read back as the same metrics".into()) }
        let md = m.to_markdown();
        for want in [format!("| Total Attempts | {} |", ok + failures), format!("| Successes | {ok} |"), format!("| Failures | {failures} |"), format!("| Success Rate | {:.1}% |", rate * 100.0)] { if !md.contains(&want) { bad.push(format!("the report lacks {want}")) } }
        if md.contains("PASS") != (rate >= 0.8) || md.contains("FAIL") == (rate >= 0.8) { bad.push("the report's verdict on the 80% target is wrong".into()) }
        for (c, n) in &codes { if md.matches(&format!("| {c} | {n} |")).count() != 1 { bad.push(format!("the report lacks {c}: {n}")) } }
        rep.count("metric_steps");
        if !bad.is_empty() { for b in bad { rep.violation(format!("compile metrics: {b}"), &[("history.txt", log.clone())]) } return }
    }
    rep.saw(&log);
}

fn convergence(rep: &mut Report, r: &mut Rng) {
    let mut c = ConvergenceReport::new();
    let mut t = vec![];
    for k in 0..r.below(6) {
        let n = r.below(40) as u64;
        let a = r.below(n as usize + 1) as u64;
        let b = r.below(a as usize + 1) as u64;
        let mut m = TierMetrics::new(&format!("tier-{k}"));
        m.total_files = n; m.transpile_success = a; m.compile_success = b; m.transpile_failures = n - a; m.compile_failures = a - b;
        let rate = |x: u64| if n == 0 { 0.0 } else { x as f64 / n as f64 };
        if m.transpile_rate() != rate(a) || m.compile_rate() != rate(b) { rep.violation(format!("tier rates {} {} of {n}, {a}, {b}", m.transpile_rate(), m.compile_rate()), &[]) }
        t.push((n, a, b));
        c.add_tier(m);
    }
    let (n, a, b) = t.iter().fold((0, 0, 0), |s, x| (s.0 + x.0, s.1 + x.1, s.2 + x.2));
    let rate = |x: u64| if n == 0 { 0.0 } else { x as f64 / n as f64 };
    let md = c.to_markdown();
    if c.overall_transpile_rate() != rate(a) || c.overall_compile_rate() != rate(b) || !md.contains(&format!("| **Total** | **{n}** | **{a}** | **{b}** | **{:.1}%** | **{:.1}%** |", rate(a) * 100.0, rate(b) * 100.0)) {
        rep.violation(format!("overall rates {} {} for tiers {t:?}", c.overall_transpile_rate(), c.overall_compile_rate()), &[("report.md", md.clone())]);
    }
    for (k, x) in t.iter().enumerate() { if !md.contains(&format!("| tier-{k} | {} | {} | {} |", x.0, x.1, x.2)) { rep.violation(format!("the report lacks tier {k}"), &[("report.md", md.clone())]) } }
    if serde_json::from_str::<ConvergenceReport>(&serde_json::to_string(&c).unwrap()).map(|x| x.to_markdown()).ok() != Some(md) { rep.violation("a convergence report does not read back", &[]) }
    let mut e = EquivalenceMetrics::new();
    e.equivalent = r.below(30) as u64; e.divergent = r.below(4) as u64; e.errors = r.below(4) as u64; e.total_files = e.equivalent + e.divergent + e.errors;
    for k in 0..e.divergent { e.divergences.push(EquivalenceDivergence { file: format!("d{k}.c"), expected_stdout: "a".into(), actual_stdout: if k % 2 == 0 { "a".into() } else { "b".into() }, expected_exit: k as i32, actual_exit: 1 }) }
    let rate = if e.total_files == 0 { 0.0 } else { e.equivalent as f64 / e.total_files as f64 };
    let md = e.to_markdown();
    if e.equivalence_rate() != rate || !md.contains(&format!("| Equivalence Rate | {:.1}% |", rate * 100.0)) || (0..e.divergent).any(|k| !md.contains(&format!("- **d{k}.c**: exit {k} vs 1 | stdout differs: {}", k % 2 == 1))) {
        rep.violation(format!("equivalence report of {} in {}", e.equivalent, e.total_files), &[("report.md", md)]);
    }
    rep.count("reports");
}

fn entry(r: &mut Rng) -> TraceEntry {
    TraceEntry {
        stage: r.pick(&[PipelineStage::Parsing, PipelineStage::HirConversion, PipelineStage::OwnershipInference, PipelineStage::LifetimeAnalysis, PipelineStage::CodeGeneration]).clone(),
        source_location: r.chance(0.5).then(|| format!("line {}", r.below(99))),
        decision_type: r.pick(&[DecisionType::PointerClassification, DecisionType::TypeMapping, DecisionType::SafetyTransformation, DecisionType::LifetimeAnnotation, DecisionType::PatternDetection, DecisionType::SignatureTransformation]).clone(),
        chosen: r.pick(&["Box<i32>", "", "\"quoted\"\n", "日本", "&'a mut T"]).to_string(),
        alternatives: (0..r.below(4)).map(|k| format!("alt {k}")).collect(),
        confidence: r.below(1001) as f64 / 1000.0,
        reason: format!("because {}", r.below(99)),
    }
}
fn show(e: &TraceEntry) -> String { format!("{e:?}") }

fn trace(rep: &mut Report, r: &mut Rng) {
    let mut c = TraceCollector::new();
    let es: Vec<TraceEntry> = (0..r.below(20)).map(|_| entry(r)).collect();
    for e in &es { c.record(e.clone()) }
    let mut bad = vec![];
    if c.entries().iter().map(show).ne(es.iter().map(show)) || c.len() != es.len() || c.is_empty() != es.is_empty() { bad.push("the entries kept are not those recorded, in order".to_string()) }
    match serde_json::from_str::<Vec<TraceEntry>>(&c.to_json()) { Ok(v) if v.iter().map(show).eq(es.iter().map(show)) => {} Ok(_) => bad.push("the JSON reads back as other entries".into()), Err(e) => bad.push(format!("the JSON does not read back: {e}")) }
    let s = c.summary();
    let mut by: BTreeMap<String, u64> = BTreeMap::new();
    for e in &es { *by.entry(serde_json::to_value(&e.stage).unwrap().as_str().unwrap().to_string()).or_default() += 1 }
    let avg = if es.is_empty() { 0.0 } else { es.iter().map(|e| e.confidence).sum::<f64>() / es.len() as f64 };
    if s.total_decisions != es.len() || (s.avg_confidence - avg).abs() > 1e-9 || s.decisions_by_stage.into_iter().collect::<BTreeMap<_, _>>() != by { bad.push(format!("summary of {} entries: {} with average {}", es.len(), s.total_decisions, s.avg_confidence)) }
    for st in [PipelineStage::Parsing, PipelineStage::HirConversion, PipelineStage::OwnershipInference, PipelineStage::LifetimeAnalysis, PipelineStage::CodeGeneration] {
        if c.entries_for_stage(&st).into_iter().map(show).ne(es.iter().filter(|e| e.stage == st).map(show)) { bad.push(format!("the entries of {st} are not the recorded ones")) }
    }
    rep.count("traces");
    rep.saw(&c.to_json());
    for b in bad { rep.violation(format!("decision trace: {b}"), &[("trace.json", c.to_json())]) }
}

/// The trace of a real translation.
fn translation(rep: &mut Report, r: &mut Rng, corpus: &[String]) {
    let src = if r.chance(0.5) { r.pick(corpus).clone() } else { crate::parse::random_source(r) };
    let plain = guard(|| decy_core::transpile(&src));
    let traced = guard(|| decy_core::transpile_with_trace(&src));
    let result = guard(|| decy_core::transpile_with_verification(&src));
    let (Ok(plain), Ok(traced), Ok(result)) = (plain, traced, result) else { return };   // panics are P05's
    rep.count("traced_translations");
    let mut bad = vec![];
    match (&plain, &traced) {
        (Ok(p), Ok((t, c))) => {
            if p != t { bad.push("tracing changes the translation".to_string()) }
            let es = c.entries();
            if es.first().map(|e| &e.stage) != Some(&PipelineStage::Parsing) || es.last().map(|e| &e.stage) != Some(&PipelineStage::CodeGeneration) { bad.push("the trace does not go from parsing to code generation".into()) }
            if !es.last().is_some_and(|e| e.reason.split_whitespace().any(|w| w == p.lines().count().to_string())) { bad.push(format!("the trace does not say that {} lines were produced", p.lines().count())) }
            if es.iter().any(|e| !(0.0..=1.0).contains(&e.confidence)) { bad.push("a confidence outside 0 to 1".into()) }
            if serde_json::from_str::<serde_json::Value>(&c.to_json()).is_err() { bad.push("the trace is not JSON".into()) }
        }
        (Err(_), Err(_)) => {}
        _ => bad.push("tracing changes whether the text is accepted".into()),
    }
    match (&plain, &result) {
        (Ok(p), Ok(TranspilationResult { rust_code, compiles: true, errors, .. })) if p == rust_code && errors.is_empty() => {}
        (Err(_), Ok(TranspilationResult { rust_code, compiles: false, errors, .. })) if rust_code.is_empty() && !errors.is_empty() => {}
        (_, x) => bad.push(format!("the transpilation result does not agree with the translation: {:?}", x.as_ref().map(|x| (x.compiles, x.errors.len(), x.rust_code.len())).map_err(|e| e.to_string()))),
    }
    for b in bad { rep.violation(format!("traced translation: {b}"), &[("p.c", src.clone())]) }
}

pub fn run(rep: &mut Report, dir: &Path) {
    let corpus = crate::texts::corpus(dir);
    let mut r = rep.rng(24);
    let mut i = 0;
    while rep.more(i, if rep.quick { 6_000 } else { u64::MAX }) {
        i += 1;
        for f in [compile_metrics, convergence, trace] {
            let mut q = r.clone();
            r.next();
            if let Err(p) = guard(|| f(rep, &mut q)) { rep.violation(format!("panics: {p}"), &[]) }
        }
        if i % 60 == 0 { translation(rep, &mut r, &corpus) }
    }
}
