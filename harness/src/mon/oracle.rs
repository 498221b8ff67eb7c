//! Training data, experiments, baselines and promotion decisions against models of them.
use crate::rt::{guard, Report, Rng};
use decy_oracle::baseline::{aggregate_measurements, wilson_score_interval, FileMeasurement};
use decy_oracle::dataset::{DatasetExporter, TrainingExample};
use decy_oracle::diversity::{compare_histograms, ErrorHistogram};
use decy_oracle::golden_trace::{GoldenTrace, GoldenTraceDataset, SafetyTransformation, TraceTier, TransformationKind};
use decy_oracle::metrics::{CIReport, CIThresholds, OracleMetrics};
use decy_oracle::retirement::{run_retirement_sweep, PatternRetirementPolicy, PatternStats, RetirementConfig, RetirementDecision, RetirementReason};
use decy_oracle::verification::{VerificationResult, VerificationStats};
use decy_ownership::ab_testing::{ABTestRunner, AssignmentStrategy, TestVariant};
use decy_ownership::classifier::{ClassifierEvaluator, ClassifierPrediction, OwnershipClassifier};
use decy_ownership::hybrid_classifier::{ClassificationMethod, HybridResult};
use decy_ownership::ml_features::{InferredOwnership as O, OwnershipFeatures};
use decy_ownership::model_versioning::{ModelVersionManager, QualityThresholds};
use decy_ownership::retraining_pipeline::{DataSplit, NullTrainer, RetrainingConfig, RetrainingPipeline, RetrainingResult, TrainingSample};
use decy_ownership::training_data::{DataSource, LabeledSample, TrainingDataset};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::time::Duration;

const KINDS: [O; 8] = [O::Owned, O::Borrowed, O::BorrowedMut, O::Shared, O::RawPointer, O::Vec, O::Slice, O::SliceMut];
const CODES: [&str; 9] = ["E0308", "E0382", "E0499", "E0502", "E0506", "E0597", "E0515", "E0277", "E9999"];

fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-9 || (a.is_nan() && b.is_nan()) }
fn near32(a: f32, b: f64) -> bool { (a as f64 - b).abs() < 1e-5 }
fn sorted<K: ToString, V: Copy>(m: &HashMap<K, V>) -> BTreeMap<String, V> { m.iter().map(|(k, v)| (k.to_string(), *v)).collect() }

/// Text with everything an export has to keep.
fn text(r: &mut Rng) -> String {
    let n = r.below(4);
    (0..=n).map(|_| *r.pick(&["int x = 5;", "let x: i32 = 5;", "\"quoted\"", "back\\slash", "\n", "\t", "日本語", "<|im_end|>", "{}", "```", "\u{0}", "'", "- let a;", "+ let b;", " "])).collect::<Vec<_>>().join(if r.chance(0.5) { "\n" } else { "" })
}

fn traces(rep: &mut Report, r: &mut Rng) {
    let mut d = GoldenTraceDataset::new();
    let n = r.below(9);
    let (mut tiers, mut kinds) = (BTreeMap::<String, usize>::new(), BTreeMap::<String, usize>::new());
    let mut all = vec![];
    for k in 0..n {
        let tier = *r.pick(&[TraceTier::P0, TraceTier::P1, TraceTier::P2]);
        let mut t = GoldenTrace::new(text(r), text(r), tier, &format!("f{k}.c"));
        *tiers.entry(tier.to_string()).or_default() += 1;
        for _ in 0..r.below(3) {
            let kind = match r.below(4) { 0 => TransformationKind::MallocToBox, 1 => TransformationKind::NullToOption, 2 => TransformationKind::Other(text(r)), _ => TransformationKind::ArrayParamToSlice };
            *kinds.entry(format!("{kind:?}")).or_default() += 1;
            t.add_transformation(SafetyTransformation { kind, c_pattern: text(r), rust_pattern: text(r) });
        }
        if r.chance(0.5) { t.set_explanation(text(r)) } else { t.generate_explanation() }
        all.push(t.clone());
        d.add_trace(t);
    }
    let mut bad = vec![];
    let avg = |f: &dyn Fn(&GoldenTrace) -> usize| if n == 0 { 0.0 } else { all.iter().map(f).sum::<usize>() as f64 / n as f64 };
    if d.stats.total_traces != n || d.traces.len() != n || sorted(&d.stats.traces_by_tier) != tiers || sorted(&d.stats.traces_by_transformation) != kinds || !near(d.stats.avg_c_length, avg(&|t| t.c_snippet.len())) || !near(d.stats.avg_rust_length, avg(&|t| t.rust_snippet.len())) {
        bad.push(format!("statistics {:?} of {n} traces, expected {tiers:?} {kinds:?}", d.stats));
    }
    let ids: std::collections::BTreeSet<_> = all.iter().map(|t| t.metadata.trace_id.clone()).collect();
    if ids.len() != n { bad.push("two traces have the same identity".into()) }
    let f = rep.scratch.join("t.jsonl");
    let show = |t: &GoldenTrace| serde_json::to_string(&serde_json::to_value(t).unwrap()).unwrap();
    d.export_jsonl(&f).unwrap();
    let got = std::fs::read_to_string(&f).unwrap();
    if got.lines().count() != n || got.lines().zip(&all).any(|(l, t)| serde_json::from_str::<GoldenTrace>(l).map(|x| show(&x) != show(t)).unwrap_or(true)) { bad.push("the JSONL export does not read back as the traces, one per line".into()) }
    d.export_alpaca(&f).unwrap();
    match serde_json::from_str::<Vec<serde_json::Value>>(&std::fs::read_to_string(&f).unwrap()) {
        Ok(v) if v.len() == n && v.iter().zip(&all).all(|(v, t)| v["input"] == t.c_snippet && v["output"].as_str().is_some_and(|o| o.contains(&t.rust_snippet) && o.contains(&t.safety_explanation)) && v["metadata"]["tier"] == t.metadata.tier.to_string() && v["metadata"]["transformations"] == t.metadata.transformations.len()) => {}
        _ => bad.push("the Alpaca export does not hold the traces".into()),
    }
    d.export_chatml(&f).unwrap();
    let got = std::fs::read_to_string(&f).unwrap();
    let want: String = all.iter().map(|t| format!("{}\n\n", t.to_chatml())).collect();
    if got != want || all.iter().any(|t| { let c = t.to_chatml(); !c.contains(t.c_snippet.trim()) || !c.contains(t.rust_snippet.trim()) || !c.contains(t.safety_explanation.trim()) }) { bad.push("the ChatML export does not hold the traces".into()) }
    let card = d.generate_card();
    for (k, v) in &kinds { if !card.contains(&format!("- **{k}**: {v}")) { bad.push(format!("the card lacks {k}: {v}")) } }
    if !card.contains(&format!("**Total Traces**: {n}\n")) || ["P0 (Simple)", "P1 (I/O)", "P2 (Complex)"].iter().any(|p| !card.contains(&format!("- **{p}**: {}\n", tiers.get(&p[..2]).unwrap_or(&0)))) { bad.push("the card's counts are wrong".into()) }
    rep.count("trace_datasets");
    rep.saw(&got);
    for b in bad { rep.violation(format!("golden traces: {b}"), &[("traces.txt", format!("{all:#?}"))]) }
}

fn examples(rep: &mut Report, r: &mut Rng) {
    let mut d = if r.chance(0.1) { DatasetExporter::new() } else { DatasetExporter::empty() };
    for _ in 0..r.below(9) {
        d.add_example(TrainingExample { error_code: r.pick(&CODES).to_string(), decision: r.pick(&["type_coercion", "borrow", "clone"]).to_string(), fix_diff: text(r), description: text(r), source: r.pick(&["bootstrap", "training", "imported"]).to_string(),
            verified: r.chance(0.5), success_count: r.below(99) as u32, failure_count: r.below(99) as u32 });
    }
    let es = d.examples().to_vec();
    let f = rep.scratch.join("e.jsonl");
    let mut bad = vec![];
    let show = |e: &TrainingExample| format!("{e:?}");
    if d.export_jsonl(&f).ok() != Some(es.len()) || std::fs::read_to_string(&f).unwrap().lines().map(|l| serde_json::from_str::<TrainingExample>(l).map(|e| show(&e)).unwrap_or_default()).ne(es.iter().map(show)) { bad.push("the JSONL export does not read back as the examples") }
    let part = |e: &TrainingExample, c: char| e.fix_diff.lines().filter(|l| l.starts_with(c)).map(str::to_string).collect::<Vec<_>>();
    let lines = |f: &Path| std::fs::read_to_string(f).unwrap().lines().map(|l| serde_json::from_str::<serde_json::Value>(l).unwrap_or_default()).collect::<Vec<_>>();
    if d.export_alpaca(&f).ok() != Some(es.len()) || lines(&f).len() != es.len() || lines(&f).iter().zip(&es).any(|(v, e)| {
        let strip = |c: char| part(e, c).iter().map(|l| l.trim_start_matches(c).trim().to_string()).collect::<Vec<_>>().join("\n");
        v["input"] != strip('-') || v["output"] != strip('+') || !v["instruction"].as_str().unwrap_or("").contains(&e.error_code)
    }) { bad.push("the Alpaca export does not hold the removed and added lines") }
    if d.export_chatml(&f).ok() != Some(es.len()) || lines(&f).len() != es.len() || lines(&f).iter().zip(&es).any(|(v, e)| {
        let m = |k: usize| v["messages"][k]["content"].as_str().unwrap_or("").to_string();
        !m(0).contains(&e.error_code) || !m(0).ends_with(&part(e, '-').join("\n")) || !m(1).ends_with(&part(e, '+').join("\n")) || v["messages"][0]["role"] != "user" || v["messages"][1]["role"] != "assistant"
    }) { bad.push("the ChatML export does not hold the removed and added lines") }
    let s = d.stats();
    let by = |g: &dyn Fn(&TrainingExample) -> String| { let mut m = BTreeMap::new(); for e in &es { *m.entry(g(e)).or_insert(0usize) += 1 } m };
    if s.total != es.len() || s.verified != es.iter().filter(|e| e.verified).count() || sorted(&s.by_error_code) != by(&|e| e.error_code.clone()) || sorted(&s.by_decision) != by(&|e| e.decision.clone()) || sorted(&s.by_source) != by(&|e| e.source.clone()) { bad.push("the statistics are not those of the examples") }
    let md = s.to_markdown();
    for (k, v) in s.by_error_code.iter().chain(&s.by_decision).chain(&s.by_source) { if !md.contains(&format!("| {k} | {v} |")) { bad.push("the report lacks a count") } }
    rep.count("example_datasets");
    for b in bad { rep.violation(format!("training examples: {b}"), &[("examples.txt", format!("{es:#?}"))]) }
}

fn metrics(rep: &mut Report, r: &mut Rng) {
    let mut m = OracleMetrics::default();
    let mut w: BTreeMap<String, [u64; 4]> = BTreeMap::new();
    let (mut hits, mut miss, mut app, mut ver, mut cap, mut log) = (0u64, 0u64, 0u64, 0u64, 0u64, String::new());
    for _ in 0..r.below(40) {
        let c = *r.pick(&CODES);
        let op = r.below(5);
        log += &format!("{op} {c}\n");
        match op {
            0 => { m.record_hit(c); hits += 1; let e = w.entry(c.into()).or_default(); e[0] += 1; e[1] += 1 }
            1 => { m.record_miss(c); miss += 1; w.entry(c.into()).or_default()[0] += 1 }
            2 => { m.record_fix_applied(c); app += 1; w.entry(c.into()).or_default()[2] += 1 }
            3 => { m.record_fix_verified(c); ver += 1; w.entry(c.into()).or_default()[3] += 1 }
            _ => { m.record_pattern_captured(); cap += 1 }
        }
    }
    let got: BTreeMap<String, [u64; 4]> = m.by_error_code.iter().map(|(k, e)| (k.clone(), [e.queries, e.hits, e.fixes_applied, e.fixes_verified])).collect();
    let rate = |a: u64, b: u64| if b == 0 { 0.0 } else { a as f64 / b as f64 };
    let (hr, fr) = (rate(hits, hits + miss), rate(ver, app));
    let t = CIThresholds { min_hit_rate: if r.chance(0.3) { hr } else { r.below(101) as f64 / 100.0 }, min_fix_rate: if r.chance(0.3) { fr } else { r.below(101) as f64 / 100.0 } };
    let want = hits + miss == 0 || (hr >= t.min_hit_rate && (app == 0 || fr >= t.min_fix_rate));
    let c = CIReport::from_metrics(m.clone(), t.clone());
    let md = c.to_markdown();
    let prom = m.to_prometheus();
    let mut bad = vec![];
    if (m.queries, m.hits, m.misses, m.fixes_applied, m.fixes_verified, m.patterns_captured) != (hits + miss, hits, miss, app, ver, cap) || got != w { bad.push(format!("{m:?}")) }
    if !near(m.hit_rate(), hr) || !near(m.fix_success_rate(), fr) || !near(c.hit_rate_pct, hr * 100.0) || !near(c.fix_success_rate_pct, fr * 100.0) { bad.push("rates".into()) }
    if c.passed != want || md.contains("PASSED") != want { bad.push(format!("passed: {}, expected {want} with {hr} {fr} against {t:?}", c.passed)) }
    for l in [format!("| Queries | {} |", hits + miss), format!("| Hits | {hits} |"), format!("| Misses | {miss} |"), format!("| Fixes Applied | {app} |"), format!("| Fixes Verified | {ver} |"), format!("| Patterns Captured | {cap} |")] { if !md.contains(&l) { bad.push(format!("the report lacks {l}")) } }
    for l in [format!("decy_oracle_queries_total {}\n", hits + miss), format!("decy_oracle_hits_total {hits}\n"), format!("decy_oracle_fixes_applied_total {app}\n"), format!("decy_oracle_fixes_verified_total {ver}\n")] { if !prom.contains(&l) { bad.push(format!("the exposition lacks {l}")) } }
    match serde_json::from_str::<OracleMetrics>(&m.to_json()) { Ok(x) if (x.queries, x.hits, x.misses) == (m.queries, m.hits, m.misses) => {} _ => bad.push("the JSON does not read back".into()) }
    rep.count("metric_histories");
    rep.saw(&log);
    for b in bad { rep.violation(format!("oracle metrics: {b}"), &[("history.txt", log.clone())]) }
}

fn baseline(rep: &mut Report, r: &mut Rng) {
    let n = *r.pick(&[0usize, 1, 2, 5, 30, 200]);
    let ok = r.unit();
    let ms: Vec<FileMeasurement> = (0..n).map(|k| { let it = 1 + r.below(4) as u32; if r.chance(ok) { if r.chance(0.6) { FileMeasurement::first_try_success(format!("f{k}")) } else { FileMeasurement::success_after(format!("f{k}"), it, vec!["E0308".into()]) } } else { FileMeasurement::failure(format!("f{k}"), it, vec![]) } }).collect();
    let first = ms.iter().filter(|m| m.eventual_success && m.iterations == 1).count() as u64;
    let even = ms.iter().filter(|m| m.eventual_success).count() as u64;
    let its: u64 = ms.iter().filter(|m| m.eventual_success).map(|m| m.iterations as u64).sum();
    let b = aggregate_measurements(&ms);
    let p = if n == 0 { 0.0 } else { first as f64 / n as f64 };
    let mut bad = vec![];
    if (b.corpus_size(), b.first_try_successes(), b.eventual_successes()) != (n as u64, first, even) || !near(b.first_try_rate(), p) || !near(b.average_iterations(), if even == 0 { 0.0 } else { its as f64 / even as f64 }) { bad.push(format!("{b:?} of {n} files, {first} at once, {even} in the end after {its} tries")) }
    // both ends solve |q - p| = z sqrt(q (1 - q) / n), the interval holds the rate
    for (c, z) in [(0.90, 1.645), (0.95, 1.96), (0.99, 2.576)] {
        let (lo, hi) = wilson_score_interval(first, n as u64, c);
        if n == 0 { if (lo, hi) != (0.0, 1.0) { bad.push(format!("interval {lo} {hi} without files")) } continue }
        let off = |q: f64| (q - p).abs() - z * (q * (1.0 - q) / n as f64).sqrt();
        if !(0.0..=1.0).contains(&lo) || !(0.0..=1.0).contains(&hi) || lo > p + 1e-12 || hi < p - 1e-12 || off(lo).abs() > 1e-6 || off(hi).abs() > 1e-6 { bad.push(format!("{first} of {n} at {c}: interval {lo} to {hi}")) }
    }
    let (lo, hi) = b.confidence_interval();
    if b.meets_target() != (p >= 0.85) || b.significantly_below_target() != (hi < 0.85) || b.includes_target() != (lo <= 0.85 && hi >= 0.85) || (n > 0 && (lo, hi) != wilson_score_interval(first, n as u64, 0.95)) { bad.push("the verdict on the target does not follow from the rate".into()) }
    let md = b.to_markdown();
    if md.contains("PASSED") != (p >= 0.85) || md.contains("FAILED") != (p < 0.85 && hi < 0.85) || md.contains("PENDING") != (p < 0.85 && hi >= 0.85) { bad.push("the report's status is wrong".into()) }
    rep.count("baselines");
    for x in bad { rep.violation(format!("baseline: {x}"), &[]) }
}

fn retirement(rep: &mut Report, r: &mut Rng) {
    let c = RetirementConfig { min_usage_threshold: r.below(8), min_success_rate: r.below(11) as f32 / 10.0, evaluation_window_days: 30, supersede_improvement_threshold: 0.1, archive_instead_of_delete: r.chance(0.5) };
    let policy = PatternRetirementPolicy::with_config(c.clone());
    let mut all = vec![];
    let mut want = vec![];
    for k in 0..r.below(12) {
        let mut s = PatternStats::new(format!("p{k}"), *r.pick(&CODES));
        let (mut win, mut good, mut wrong, mut sup) = (0, 0, 0, false);
        for _ in 0..r.below(14) {
            match r.below(12) {
                0 => { s.reset_window(); win = 0 }
                1 => { s.mark_superseded("better"); sup = true }
                x => { let g = x % 2 == 0; s.record_use(g); win += 1; if g { good += 1 } else { wrong += 1 } }
            }
        }
        let rate = if good + wrong == 0 { 0.0 } else { good as f32 / (good + wrong) as f32 };
        // 0 kept, 1 little used, 2 failing, 3 superseded
        want.push(if win < c.min_usage_threshold { 1 } else if rate < c.min_success_rate && good + wrong >= 5 { 2 } else if sup { 3 } else { 0 });
        if (s.total_uses, s.uses_in_window, s.successes, s.failures) != (good + wrong, win, good, wrong) || (s.success_rate() - rate).abs() > 1e-6 { rep.violation(format!("retirement: {s:?}, expected {good} successes, {wrong} failures, {win} in the window"), &[]) }
        all.push(s);
    }
    let mut bad = vec![];
    for (s, w) in all.iter().zip(&want) {
        let d = policy.evaluate(s);
        let (kind, arch) = match &d { RetirementDecision::Keep => (0, false), RetirementDecision::Retire(x) => (why(x), false), RetirementDecision::Archive(x) => (why(x), true) };
        if kind != *w || (kind != 0 && arch != (c.archive_instead_of_delete || kind == 3)) { bad.push(format!("{s:?}: {d:?}")) }
    }
    let n = |k: i32| want.iter().filter(|w| **w == k).count();
    let s = run_retirement_sweep(&all, &policy);
    let out: Vec<String> = all.iter().zip(&want).filter(|(_, w)| **w != 0).map(|(s, _)| s.pattern_id.clone()).collect();
    let archived = if c.archive_instead_of_delete { out.len() } else { n(3) };
    if (s.total_evaluated, s.kept, s.retired_low_usage, s.retired_high_failure, s.retired_superseded, s.archived) != (all.len(), n(0), n(1), n(2), n(3), archived) || s.retired_ids != out || s.total_retired() != out.len() || !near32(s.retirement_rate(), if all.is_empty() { 0.0 } else { out.len() as f64 / all.len() as f64 }) { bad.push(format!("sweep {s:?}, expected {want:?}")) }
    if policy.find_retireable(&all).iter().map(|s| s.pattern_id.clone()).ne(out.iter().cloned()) { bad.push("the retireable patterns are not those retired".into()) }
    rep.count("sweeps");
    rep.saw(&format!("{want:?}{c:?}"));
    for b in bad { rep.violation(format!("retirement: {b}"), &[("config.txt", format!("{c:?}"))]) }
}
fn why(r: &RetirementReason) -> i32 { match r { RetirementReason::LowUsage { .. } => 1, RetirementReason::HighFailureRate { .. } => 2, RetirementReason::Superseded { .. } => 3, _ => 9 } }

fn promotion(rep: &mut Report, r: &mut Rng) {
    let mut s = VerificationStats::new();
    let mut n = [0usize; 4];
    for _ in 0..r.below(20) {
        let k = r.below(4);
        n[k] += 1;
        let v = match k { 0 => VerificationResult::FullyVerified, 1 => VerificationResult::CompilesOnly, 2 => VerificationResult::BehaviorChanged(vec![text(r)]), _ => VerificationResult::CompileFailed(text(r)) };
        if v.allows_promotion() != (k < 2) || v.is_compile_failure() != (k == 3) || v.has_behavior_change() != (k == 2) || (v.confidence_weight() > 0.0) != (k < 2) { rep.violation(format!("promotion of {v:?}"), &[]) }
        s.record(&v);
    }
    let t = n.iter().sum::<usize>();
    let rate = |x: f64| if t == 0 { 0.0 } else { x / t as f64 };
    if [s.fully_verified, s.compiles_only, s.behavior_changed, s.compile_failed] != n || s.total_evaluated != t || !near32(s.promotion_rate(), rate((n[0] + n[1]) as f64)) || !near32(s.full_verification_rate(), rate(n[0] as f64)) || !near32(s.average_confidence(), rate(n[0] as f64 + 0.6 * n[1] as f64)) {
        rep.violation(format!("promotion statistics {s:?}, expected {n:?}"), &[]);
    }
    // error histograms
    let (mut a, mut b) = (ErrorHistogram::new(), ErrorHistogram::new());
    let (mut pa, mut pb) = (BTreeMap::<&str, f64>::new(), BTreeMap::<&str, f64>::new());
    for _ in 0..r.below(15) { let c = *r.pick(&CODES); a.record_error(c); *pa.entry(c).or_default() += 1.0 }
    for _ in 0..r.below(15) { let c = *r.pick(&CODES); b.record_error(c); *pb.entry(c).or_default() += 1.0 }
    let (na, nb) = (pa.values().sum::<f64>(), pb.values().sum::<f64>());
    let both = pa.keys().filter(|k| pb.contains_key(*k)).count();
    let all: std::collections::BTreeSet<&str> = pa.keys().chain(pb.keys()).copied().collect();
    let js: f64 = if na == 0.0 || nb == 0.0 { f64::NAN } else { all.iter().map(|k| { let (p, q) = (pa.get(k).unwrap_or(&0.0) / na, pb.get(k).unwrap_or(&0.0) / nb); let m = (p + q) / 2.0; let t = |x: f64| if x > 0.0 { x * (x / m).ln() } else { 0.0 }; (t(p) + t(q)) / 2.0 }).sum() };
    let d = compare_histograms(&a, &b);
    let cov = if all.is_empty() { 1.0 } else { both as f64 / all.len() as f64 };
    if (d.primary_unique_errors, d.comparison_unique_errors, d.shared_error_codes) != (pa.len(), pb.len(), both) || !near(d.coverage_ratio, cov) || (!js.is_nan() && (d.js_divergence - js).abs() > 1e-6) || a.total_errors() as f64 != na || a.by_category.values().sum::<usize>() as f64 != na || d.passes_threshold != (d.js_divergence < 0.15 && d.coverage_ratio > 0.6) {
        rep.violation(format!("{d:?} of {pa:?} and {pb:?}, expected divergence {js}, coverage {cov}"), &[]);
    }
    if !near(compare_histograms(&b, &a).js_divergence, d.js_divergence) && na > 0.0 && nb > 0.0 { rep.violation("the divergence of two corpora depends on their order", &[]) }
    rep.count("promotions");
}

fn result(r: &mut Rng, k: usize) -> HybridResult {
    HybridResult { variable: format!("v{k}"), ownership: *r.pick(&KINDS), confidence: r.below(101) as f64 / 100.0, method: *r.pick(&[ClassificationMethod::RuleBased, ClassificationMethod::MachineLearning, ClassificationMethod::Fallback, ClassificationMethod::Hybrid]), rule_result: None, ml_result: None, reasoning: String::new() }
}

fn experiment(rep: &mut Report, r: &mut Rng) {
    let st = *r.pick(&[AssignmentStrategy::RoundRobin, AssignmentStrategy::Random, AssignmentStrategy::AllControl, AssignmentStrategy::AllTreatment]);
    let seed = r.next();
    let mut x = ABTestRunner::new("t", "d", st).with_seed(seed);
    let mut twin = ABTestRunner::new("t", "d", st).with_seed(seed);
    // per arm: seen, judged, right, confidence, microseconds
    let mut w = [[0.0f64; 5]; 2];
    let n = *r.pick(&[0usize, 7, 40, 90, 200]);
    let skew = [r.unit(), r.unit()];
    let mut bad = vec![];
    let mut dist: [BTreeMap<String, u64>; 2] = Default::default();
    for k in 0..n {
        let v = x.assign();
        let arm = (v == TestVariant::Treatment) as usize;
        if twin.assign() != v { bad.push("the same seed assigns otherwise".to_string()) }
        match st { AssignmentStrategy::RoundRobin if arm != k % 2 => bad.push("round robin does not alternate".into()), AssignmentStrategy::AllControl if arm != 0 => bad.push("a treatment among all control".into()), AssignmentStrategy::AllTreatment if arm != 1 => bad.push("a control among all treatment".into()), _ => {} }
        let h = result(r, k);
        let truth = r.chance(0.9).then(|| if r.chance(skew[arm]) { h.ownership } else { *r.pick(&KINDS) });
        let us = r.below(500) as u64;
        w[arm][0] += 1.0;
        if let Some(t) = truth { w[arm][1] += 1.0; if t == h.ownership { w[arm][2] += 1.0 } }
        w[arm][3] += h.confidence;
        w[arm][4] += us as f64;
        *dist[arm].entry(format!("{:?}", h.ownership)).or_default() += 1;
        x.record(v, &h, truth, Duration::from_micros(us));
    }
    let e = x.experiment();
    let q = |a: f64, b: f64| if b == 0.0 { 0.0 } else { a / b };
    for (m, (w, d)) in [&e.control, &e.treatment].into_iter().zip(w.iter().zip(&dist)) {
        if [m.count as f64, m.with_ground_truth as f64, m.correct as f64] != [w[0], w[1], w[2]] || !near(m.accuracy(), q(w[2], w[1])) || (m.avg_confidence() - q(w[3], w[0])).abs() > 1e-9 || !near(m.avg_latency_us(), q(w[4], w[0])) || &sorted(&m.by_ownership) != d || m.by_method.values().sum::<u64>() as f64 != w[0] { bad.push(format!("{m:?}, expected {w:?}")) }
    }
    let acc = [q(w[0][2], w[0][1]), q(w[1][2], w[1][1])];
    if !near(e.accuracy_lift(), acc[1] - acc[0]) || e.total_observations() != n as u64 { bad.push("the lift or the number of observations is wrong".into()) }
    let (better, p) = e.is_treatment_better();
    if w[0][1] >= 30.0 && w[1][1] >= 30.0 {
        // the two-by-two chi-squared statistic in its product form
        let (a, b, c, d) = (w[0][2], w[0][1] - w[0][2], w[1][2], w[1][1] - w[1][2]);
        let den = (a + b) * (c + d) * (a + c) * (b + d);
        let chi = if den == 0.0 { 0.0 } else { (a + b + c + d) * (a * d - b * c).powi(2) / den };
        let want = if chi > 6.63 { 0.01 } else if chi > 3.84 { 0.05 } else { 0.5 };
        let edge = (chi - 6.63).abs() < 1e-6 || (chi - 3.84).abs() < 1e-6;
        if !edge && (p != want || better != (want < 0.05 && acc[1] > acc[0])) { bad.push(format!("better: {better} at {p}, expected {want} for a statistic of {chi}")) }
    } else if better { bad.push("a verdict without enough data".into()) }
    let ended = x.finish();
    if ended.contains("ADOPT TREATMENT") != better || !ended.contains("COMPLETED") { bad.push("the report does not follow from the experiment".into()) }
    rep.count("experiments");
    for b in bad { rep.violation(format!("experiment: {b}"), &[]) }
}

fn sample(k: usize, l: O) -> TrainingSample { TrainingSample::new(OwnershipFeatures::default(), l, &format!("f{k}.c"), k as u32) }

fn training(rep: &mut Report, r: &mut Rng) {
    let n = r.below(60);
    let labels: Vec<O> = (0..n).map(|_| *r.pick(&KINDS)).collect();
    let all: Vec<TrainingSample> = labels.iter().enumerate().map(|(k, l)| sample(k, *l)).collect();
    let (a, b) = if r.chance(0.4) { (0.7, 0.15) } else { (r.below(11) as f64 / 10.0, r.below(11) as f64 / 10.0) };
    let mut bad = vec![];
    match guard(|| DataSplit::new(all.clone(), a, b)) {
        Err(p) => bad.push(format!("splitting {n} samples by {a} and {b} panics: {p}")),
        Ok(s) => {
            let got: Vec<u32> = s.train.iter().chain(&s.validation).chain(&s.test).map(|x| x.line_number).collect();
            if got.len() != n || s.total_count() != n || { let mut g = got.clone(); g.sort(); g != (0..n as u32).collect::<Vec<_>>() } { bad.push(format!("splitting {n} samples by {a} and {b} does not give each exactly once")) }
            if s.train.len() != ((n as f64 * a) as usize).min(n) || s.validation.len() != ((n as f64 * a) as usize + (n as f64 * b) as usize).min(n) - s.train.len() { bad.push(format!("{n} samples by {a} and {b}: {} {} {}", s.train.len(), s.validation.len(), s.test.len())) }
        }
    }
    // datasets
    let mut d = TrainingDataset::new("n", "1");
    let confs: Vec<f64> = (0..n).map(|_| r.below(101) as f64 / 100.0).collect();
    let srcs: Vec<usize> = (0..n).map(|_| r.below(4)).collect();
    for k in 0..n {
        let src = match srcs[k] { 0 => DataSource::RustPort { project: "p".into() }, 1 => DataSource::CompilerFeedback { error_code: "E0308".into() }, 2 => DataSource::Synthetic { template: "t".into() }, _ => DataSource::HumanAnnotated { annotator: "a".into() } };
        d.add(LabeledSample::new(all[k].clone(), src, "c", "r").with_confidence(confs[k]));
    }
    let s = d.stats();
    let count = |m: Vec<String>| { let mut o = BTreeMap::new(); for x in m { *o.entry(x).or_insert(0usize) += 1 } o };
    let ld = count(labels.iter().map(|l| format!("{l:?}")).collect());
    let sd = count(srcs.iter().map(|s| ["RustPort", "CompilerFeedback", "Synthetic", "HumanAnnotated"][*s].to_string()).collect());
    let avg = if n == 0 { 0.0 } else { confs.iter().sum::<f64>() / n as f64 };
    if s.total_samples != n || sorted(&s.label_distribution) != ld || sorted(&s.source_distribution) != sd || !near(s.avg_confidence, avg) || (n > 0 && (s.min_confidence, s.max_confidence) != (confs.iter().cloned().fold(1.0, f64::min), confs.iter().cloned().fold(0.0, f64::max))) { bad.push(format!("statistics {s:?}")) }
    if s.is_balanced() != (ld.is_empty() || ld.values().max().unwrap() <= &(ld.values().min().unwrap() * 3)) || s.dominant_label().map(|l| ld[&l]) != ld.values().max().copied() { bad.push("balance or dominant label".into()) }
    let cut = if n > 0 && r.chance(0.5) { *r.pick(&confs) } else { r.unit() };
    if d.filter_by_confidence(cut).samples().iter().map(|s| s.sample.line_number as usize).ne((0..n).filter(|&k| confs[k] >= cut)) { bad.push(format!("filtering at {cut}")) }
    let l = *r.pick(&KINDS);
    if d.samples_by_label(l).iter().map(|s| s.sample.line_number as usize).ne((0..n).filter(|&k| labels[k] == l)) { bad.push("samples of one label".into()) }
    // evaluation
    struct By(Vec<O>);
    impl OwnershipClassifier for By { fn classify(&self, f: &OwnershipFeatures) -> ClassifierPrediction { ClassifierPrediction::new(self.0[f.read_count as usize], 0.5) } fn name(&self) -> &str { "by" } fn is_trained(&self) -> bool { true } }
    let said: Vec<O> = labels.iter().map(|l| if r.chance(0.5) { *l } else { *r.pick(&KINDS) }).collect();
    let ss: Vec<TrainingSample> = (0..n).map(|k| { let mut s = sample(k, labels[k]); s.features.read_count = k as u32; s }).collect();
    let m = ClassifierEvaluator::new(ss).evaluate(&By(said.clone()));
    let right = (0..n).filter(|&k| said[k] == labels[k]).count();
    if m.total_samples != n || m.correct != right || !near(m.accuracy(), if n == 0 { 0.0 } else { right as f64 / n as f64 }) { bad.push(format!("evaluation: {} of {}", m.correct, m.total_samples)) }
    for c in KINDS {
        let tp = (0..n).filter(|&k| said[k] == c && labels[k] == c).count() as f64;
        let (sa, la) = (said.iter().filter(|x| **x == c).count() as f64, labels.iter().filter(|x| **x == c).count() as f64);
        let name = format!("{c:?}");
        let (p, rc) = (if sa == 0.0 { 0.0 } else { tp / sa }, if la == 0.0 { 0.0 } else { tp / la });
        let f1 = if p + rc == 0.0 { 0.0 } else { 2.0 * p * rc / (p + rc) };
        if !near(m.precision(&name), p) || !near(m.recall(&name), rc) || !near(m.f1_score(&name), f1) { bad.push(format!("{name}: precision {} recall {} f1 {}, expected {p} {rc} {f1}", m.precision(&name), m.recall(&name), m.f1_score(&name))) }
    }
    rep.count("training_sets");
    rep.saw(&format!("{labels:?}{srcs:?}{a}{b}"));
    for b in bad { rep.violation(format!("training data: {b}"), &[("labels.txt", format!("{labels:?}\n{said:?}\n{confs:?}"))]) }
}

fn pipeline(rep: &mut Report, r: &mut Rng) {
    let c = RetrainingConfig { min_precision: r.below(11) as f64 / 10.0, min_recall: r.below(11) as f64 / 10.0, max_degradation: *r.pick(&[0.0, 0.02, 0.1]), cv_folds: 2, min_train_samples: r.below(8), min_validation_samples: r.below(3), min_test_samples: r.below(3), train_ratio: 0.7, validation_ratio: 0.15 };
    let (p, q) = (r.below(11) as f64 / 10.0, r.below(11) as f64 / 10.0);
    let f1 = if p + q > 0.0 { 2.0 * p * q / (p + q) } else { 0.0 };
    let mgr = ModelVersionManager::with_thresholds(QualityThresholds { min_accuracy: 0.0, min_precision: 0.0, min_recall: 0.0, min_f1: 0.0 });
    let mut x = RetrainingPipeline::new(NullTrainer::new(p, q), mgr, c.clone());
    let mut won = 0;
    let runs = 1 + r.below(5);
    for k in 0..runs {
        let n = r.below(20);
        let before = x.current_version().map(|e| (e.version.clone(), e.metrics.f1_score));
        let res = x.execute((0..n).map(|i| sample(i, O::Owned)).collect());
        let (a, b) = ((n as f64 * 0.7) as usize, (n as f64 * 0.15) as usize);
        let enough = n >= c.min_train_samples + c.min_validation_samples + c.min_test_samples && a >= c.min_train_samples && b >= c.min_validation_samples && n - a - b >= c.min_test_samples;
        let want = if !enough { 0 } else if p < c.min_precision || q < c.min_recall { 1 } else if before.as_ref().is_some_and(|(_, f)| f - f1 > c.max_degradation) { 2 } else { 3 };
        let got = match &res { RetrainingResult::InsufficientData { .. } => 0, RetrainingResult::QualityGateFailed { .. } => 1, RetrainingResult::Degraded { .. } => 2, RetrainingResult::Promoted { .. } => 3, RetrainingResult::TrainingError { .. } => 4 };
        won += (got == 3) as usize;
        let after = x.current_version().map(|e| (e.version.clone(), e.metrics.f1_score));
        if got != want || res.is_success() != (want == 3) || (want != 3 && after != before) || (want == 3 && before.is_none() && after.is_none()) || x.history().len() != k + 1 || x.history()[k].sample_count != n || !near(x.success_rate(), won as f64 / (k + 1) as f64) {
            rep.violation(format!("retraining with {n} samples at precision {p}, recall {q} says {res:?} ({want} expected), success rate {} after {won} of {}", x.success_rate(), k + 1), &[("config.txt", format!("{c:?}"))]);
        }
    }
    rep.count("retrainings");
}

/// Compile verdicts of the oracle, several at a time, by both of its checkers.
fn verdicts(rep: &mut Report, r: &mut Rng) {
    use decy_oracle::trace_verifier::{TraceVerifier, VerifierConfig};
    use decy_oracle::verification::{check_rust_compilation, VerificationConfig};
    let good = ["let x = 5; println!(\"{}\", x);", "fn f(a: i32) -> i32 { a + 1 } let _ = f(2);", "struct P { x: i32 } let p = P { x: 1 }; assert_eq!(p.x, 1);", "let v: Vec<i32> = (0..3).collect(); drop(v);"];
    let bad = ["let x: i32 = \"no\";", "let v = vec![1]; let w = v; println!(\"{:?}\", v);", "missing();", "let x = ;"];
    let batch: Vec<(bool, bool, String)> = (0..6).map(|k| { let ok = r.chance(0.5); let s = if ok { *r.pick(&good) } else { *r.pick(&bad) }; (ok, k % 2 == 0, format!("{s} // {}", r.next())) }).collect();
    let before: std::collections::BTreeSet<_> = ls(&std::env::temp_dir());
    let got: Vec<Option<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = batch.iter().map(|(ok, trace, src)| s.spawn(move || {
            let said = if *trace {
                let mut v = TraceVerifier::with_config(VerifierConfig::default());
                let res = v.verify_trace(&GoldenTrace::new("int x;".into(), src.clone(), TraceTier::P0, "f.c"));
                if (v.stats().total_verified, v.stats().passed, v.stats().failed) != (1, res.passed as usize, !res.passed as usize) || res.passed != res.errors.is_empty() { return Some("the verifier's counts do not follow from its answer".to_string()) }
                res.passed
            } else { check_rust_compilation(&format!("pub fn all() {{\n{src}\n}}"), &VerificationConfig::default()).is_ok() };
            (said != *ok).then(|| format!("{src:?} {}, the {} says {}", if *ok { "compiles" } else { "does not compile" }, if *trace { "trace verifier" } else { "fix verifier" }, if said { "yes" } else { "no" }))
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for g in got.into_iter().flatten() { rep.violation(format!("verdict: {g}"), &[("batch.txt", format!("{batch:#?}"))]) }
    let after = ls(&std::env::temp_dir());
    if after != before { rep.violation(format!("verification leaves behind {:?}", after.difference(&before).collect::<Vec<_>>()), &[]) }
    // the gate against unsafe code
    for (src, n) in [("let x = 1;", 0), ("let x = unsafe { 1 };", 1), ("unsafe { } unsafe{ }", 2)] {
        let v = TraceVerifier::new();
        if v.count_unsafe_blocks(src) != n || v.verify_safety(src).is_ok() != (n == 0) { rep.violation(format!("{src:?}: {} unsafe blocks", v.count_unsafe_blocks(src)), &[]) }
    }
    rep.count("verdict_batches");
}
fn ls(d: &Path) -> std::collections::BTreeSet<String> { std::fs::read_dir(d).map(|x| x.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).filter(|n| n.contains("decy")).collect()).unwrap_or_default() }

pub fn run(rep: &mut Report) {
    std::env::set_var("TMPDIR", &rep.scratch);
    let mut r = rep.rng(25);
    let mut i = 0;
    while rep.more(i, if rep.quick { 3_000 } else { u64::MAX }) {
        i += 1;
        let mut fs: Vec<fn(&mut Report, &mut Rng)> = vec![traces, examples, metrics, baseline, retirement, promotion, experiment, training, pipeline];
        if i % 60 == 1 { fs.push(verdicts) }
        for f in fs {
            let mut q = r.clone();
            r.next();
            if let Err(p) = guard(|| f(rep, &mut q)) { rep.violation(format!("panics: {p}"), &[]) }
        }
    }
}
