//! The labelling queue, the error tracker, the threshold tuner and the hybrid classifier against models of them.
use crate::rt::{guard, Report, Rng};
use decy_ownership::active_learning::{ActiveLearner, SampleQueue, SelectionStrategy, UncertainSample};
use decy_ownership::error_tracking::{ErrorTracker, InferenceError};
use decy_ownership::hybrid_classifier::{ClassificationMethod, HybridClassifier, HybridMetrics, OwnershipModel};
use decy_ownership::inference::{OwnershipInference, OwnershipKind};
use decy_ownership::ml_features::{InferredOwnership as O, OwnershipDefect as D, OwnershipFeatures, OwnershipPrediction};
use decy_ownership::threshold_tuning::{SelectionCriteria, ThresholdTuner, ValidationSample};
use std::collections::BTreeMap;

const KINDS: [O; 8] = [O::Owned, O::Borrowed, O::BorrowedMut, O::Shared, O::RawPointer, O::Vec, O::Slice, O::SliceMut];
const DEFECTS: [D; 8] = [D::PointerMisclassification, D::LifetimeInferenceGap, D::DanglingPointerRisk, D::AliasViolation, D::UnsafeMinimizationFailure, D::ArraySliceMismatch, D::ResourceLeakPattern, D::MutabilityMismatch];

/// Confidences with ties and edges.
fn conf(r: &mut Rng) -> f64 { match r.below(5) { 0 => *r.pick(&[0.0, 1.0, 0.5, 0.65, 0.35]), 1 | 2 => r.below(11) as f64 / 10.0, _ => r.below(1001) as f64 / 1000.0 } }
fn predict(r: &mut Rng) -> OwnershipPrediction { OwnershipPrediction { kind: *r.pick(&KINDS), confidence: conf(r) as f32, fallback: r.chance(0.4).then(|| *r.pick(&KINDS)) } }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-9 }

fn queue(rep: &mut Report, r: &mut Rng) {
    let max = *r.pick(&[0, 1, 2, 3, 5, 8, 1000]);
    let mut q = SampleQueue::new(SelectionStrategy::UncertaintySampling).with_max_pending(max);
    let mut pend: Vec<(f64, u64)> = vec![];                 // most uncertain first, oldest first among equals
    let mut lab: Vec<(u64, bool)> = vec![];
    let mut out: Vec<UncertainSample> = vec![];
    let (mut next, mut log, mut shape) = (1, format!("room for {max}\n"), vec![]);
    for _ in 0..4 + r.below(30) {
        let op = r.below(14);
        shape.push(op);
        let mut bad: Option<String> = None;
        match op {
            0..=6 => {
                let u = conf(r);
                let p = predict(r);
                let id = q.enqueue(UncertainSample::new(777, format!("v{next}"), OwnershipFeatures::default(), p, u, SelectionStrategy::UncertaintySampling));
                if id != next { bad = Some(format!("a sample gets number {id}, expected {next}")) }
                let at = pend.iter().position(|x| x.0 < u).unwrap_or(pend.len());
                pend.insert(at, (u, next));
                pend.truncate(max);
                log += &format!("queue {u} -> {id}\n");
                next += 1;
            }
            7 | 8 => {
                if let (Some(x), got) = (pend.first().copied(), q.peek_next().map(|s| s.id)) { if got != Some(x.1) { bad = Some(format!("the next sample is {got:?}, expected {}", x.1)) } }
                let got = q.next_for_labeling();
                let want = (!pend.is_empty()).then(|| pend.remove(0));
                if got.as_ref().map(|s| s.id) != want.map(|x| x.1) || got.as_ref().map(|s| s.uncertainty_score) != want.map(|x| x.0) { bad = Some(format!("the next sample is {:?}, expected {want:?}", got.as_ref().map(|s| s.id))) }
                log += &format!("next -> {want:?}\n");
                out.extend(got);
            }
            9 => {
                let n = r.below(5);
                let got = q.batch_for_labeling(n);
                let want: Vec<u64> = pend.drain(..n.min(pend.len())).map(|x| x.1).collect();
                if got.iter().map(|s| s.id).collect::<Vec<_>>() != want { bad = Some(format!("a batch of {n} is {:?}, expected {want:?}", got.iter().map(|s| s.id).collect::<Vec<_>>())) }
                log += &format!("batch {n} -> {want:?}\n");
                out.extend(got);
            }
            10..=12 => if let Some(mut s) = out.pop() {
                if r.chance(0.8) {
                    let l = if r.chance(0.5) { s.prediction.kind } else { *r.pick(&KINDS) };
                    s.apply_label(l);
                    lab.push((s.id, l == s.prediction.kind));
                }
                log += &format!("submit {} labelled: {}\n", s.id, s.is_labeled());
                q.submit_labeled(s);
            }
            _ => if r.chance(0.3) {
                let got = q.take_labeled_samples();
                if got.iter().map(|s| s.id).ne(lab.iter().map(|x| x.0)) { bad = Some("the labelled samples taken out are not those submitted".into()) }
                lab.clear();
                log += "take labelled\n";
            } else {
                let js = serde_json::to_string(&q).unwrap();
                match serde_json::from_str(&js) { Ok(x) => q = x, Err(e) => bad = Some(format!("a stored queue does not read back: {e}")) }
            }
        }
        let st = q.stats();
        let acc = if lab.is_empty() { 0.0 } else { lab.iter().filter(|x| x.1).count() as f64 / lab.len() as f64 };
        let avg = if pend.is_empty() { 0.0 } else { pend.iter().map(|x| x.0).sum::<f64>() / pend.len() as f64 };
        if (st.pending, st.labeled, st.total_processed) != (pend.len(), lab.len(), next - 1) || !near(st.prediction_accuracy, acc) || !near(st.avg_uncertainty, avg) || q.pending_count() != pend.len() || q.labeled_count() != lab.len() || q.total_processed() != next - 1 {
            bad = bad.or(Some(format!("statistics {st:?}, expected {} pending (average {avg}), {} labelled (accuracy {acc}), {} in all", pend.len(), lab.len(), next - 1)));
        }
        if q.get_labeled_samples().iter().map(|s| s.id).ne(lab.iter().map(|x| x.0)) { bad = bad.or(Some("the labelled samples are not those submitted, in order".into())) }
        rep.count("queue_steps");
        if let Some(b) = bad { rep.violation(format!("labelling queue: {b}"), &[("history.txt", log)]); return }
    }
    rep.saw(&(max, shape));
}

fn learner(rep: &mut Report, r: &mut Rng) {
    let strategy = *r.pick(&[SelectionStrategy::UncertaintySampling, SelectionStrategy::EntropySampling, SelectionStrategy::MarginSampling]);
    let (min, thr) = (conf(r), conf(r));
    let mut a = ActiveLearner::with_strategy(strategy).with_min_uncertainty(min).with_confidence_threshold(thr);
    let mut want_pending = 0;
    for k in 0..12 {
        let p = predict(r);
        let c = p.confidence as f64;
        let want = match strategy {
            SelectionStrategy::EntropySampling => if c <= 0.0 || c >= 1.0 { 0.0 } else { -c * c.log2() - (1.0 - c) * (1.0 - c).log2() },
            SelectionStrategy::MarginSampling if p.fallback.is_some() => 1.0 - (c - c * 0.8),
            _ => 1.0 - c,
        };
        let un = a.is_uncertain(&p);
        let (u, queued) = a.process_prediction(format!("v{k}"), OwnershipFeatures::default(), p);
        want_pending += (u >= min) as usize;
        rep.count("predictions_processed");
        if !near(u, want.clamp(0.0, 1.0)) || queued != (u >= min) || un != (c < thr) || a.stats().pending != want_pending {
            rep.violation(format!("a prediction of confidence {c} ({strategy}) scores {u} (expected {want}), queued {queued} (least {min}), uncertain {un} (threshold {thr}), {} pending", a.stats().pending), &[]);
        }
    }
    let all = a.batch_for_labeling(99);
    if all.windows(2).any(|w| w[0].uncertainty_score < w[1].uncertainty_score) || all.len() != want_pending { rep.violation("the batch is not ordered by uncertainty, or not complete", &[]) }
}

fn tracker(rep: &mut Report, r: &mut Rng) {
    let mut t = ErrorTracker::new();
    let names: Vec<String> = (0..1 + r.below(6)).map(|k| format!("feature_{k}")).collect();
    let mut fail: BTreeMap<String, u64> = BTreeMap::new();
    let mut pass: BTreeMap<String, u64> = BTreeMap::new();
    let mut by_defect: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    let mut by_feature: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    let (mut nf, mut ns, mut log) = (0u64, 0u64, String::new());
    for _ in 0..r.below(40) {
        let fs: Vec<String> = names.iter().filter(|_| r.chance(0.4)).cloned().collect();
        if r.chance(0.5) {
            nf += 1;
            let k = r.below(8);
            let d = DEFECTS[r.below(k + 1)];
            log += &format!("error {nf} {d:?} {fs:?}\n");
            by_defect.entry(format!("{d:?}")).or_default().push(nf);
            for f in &fs { *fail.entry(f.clone()).or_default() += 1; by_feature.entry(f.clone()).or_default().push(nf) }
            t.record_error(InferenceError::new("v", "f.c", nf as u32, *r.pick(&KINDS), *r.pick(&KINDS), conf(r), d).with_features(fs));
        } else {
            ns += 1;
            log += &format!("success {fs:?}\n");
            for f in &fs { *pass.entry(f.clone()).or_default() += 1 }
            t.record_success(&fs);
        }
    }
    let mut bad = vec![];
    if t.error_count() as u64 != nf || t.success_count() != ns || t.errors().len() as u64 != nf { bad.push(format!("{} errors and {} successes, expected {nf} and {ns}", t.error_count(), t.success_count())) }
    if t.errors().iter().enumerate().any(|(k, e)| e.id != k as u64 + 1 || e.source_line as u64 != e.id) { bad.push("the errors are not numbered in order".into()) }
    let dist: BTreeMap<String, u64> = t.defect_distribution().into_iter().collect();
    if dist != by_defect.iter().map(|(k, v)| (k.clone(), v.len() as u64)).collect() { bad.push(format!("defects {dist:?}")) }
    let fd: BTreeMap<String, u64> = t.feature_distribution().into_iter().collect();
    if fd != fail { bad.push(format!("features of errors {fd:?}, expected {fail:?}")) }
    for d in DEFECTS { let got: Vec<u64> = t.errors_by_defect(&d).iter().map(|e| e.id).collect(); if got != by_defect.get(&format!("{d:?}")).cloned().unwrap_or_default() { bad.push(format!("errors of {d:?}: {got:?}")) } }
    for f in &names { let got: Vec<u64> = t.errors_by_feature(f).iter().map(|e| e.id).collect(); if got != by_feature.get(f).cloned().unwrap_or_default() { bad.push(format!("errors with {f}: {got:?}")) } }
    let s = t.calculate_suspiciousness();
    let n = r.below(8);
    let top = t.top_suspicious(n);
    let known: std::collections::BTreeSet<&String> = fail.keys().chain(pass.keys()).collect();
    if s.len() != known.len() || s.iter().any(|x| !known.contains(&x.feature)) { bad.push("the suspicious features are not those seen".into()) }
    for x in &s {
        let (a, b) = (fail.get(&x.feature).copied().unwrap_or(0), pass.get(&x.feature).copied().unwrap_or(0));
        let (fa, pa) = (a as f64 / nf.max(1) as f64, b as f64 / ns.max(1) as f64);
        let want = if fa + pa > 0.0 { fa / (fa + pa) } else { 0.0 };
        if (x.failure_count, x.success_count, x.total_count) != (a, b, a + b) || !near(x.score, want) { bad.push(format!("{x:?}: expected {a} failures, {b} successes, score {want}")) }
    }
    if s.windows(2).any(|w| w[0].score < w[1].score) { bad.push("suspicious features are not in order".into()) }
    if top.len() != n.min(s.len()) || top.iter().zip(&s).any(|(a, b)| !near(a.score, b.score)) { bad.push(format!("the top {n} are not the {n} most suspicious")) }
    for (f, d, c) in t.feature_defect_correlation() {
        let want = by_feature.get(&f).map(|v| v.iter().filter(|i| by_defect.get(&d).is_some_and(|w| w.contains(i))).count()).unwrap_or(0) as u64;
        if c != want { bad.push(format!("{f} with {d}: {c}, expected {want}")) }
    }
    rep.count("error_logs");
    rep.saw(&log);
    for b in bad { rep.violation(format!("error tracker: {b}"), &[("history.txt", log.clone())]) }
}

fn tuner(rep: &mut Report, r: &mut Rng) {
    let n = 1 + r.below(25);
    let few = 2 + r.below(7);
    let raw: Vec<(O, O, O, f64)> = (0..n).map(|_| (KINDS[r.below(few)], KINDS[r.below(few)], KINDS[r.below(few)], conf(r))).collect();
    let s: Vec<ValidationSample> = raw.iter().map(|x| ValidationSample::new(x.0, x.1, x.2, x.3)).collect();
    let crit = *r.pick(&[SelectionCriteria::MaxAccuracy, SelectionCriteria::MaxF1, SelectionCriteria::BalancedAccuracyFallback, SelectionCriteria::MinFallbackAboveBaseline]);
    let cands: Vec<f64> = if r.chance(0.3) { vec![0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.65, 0.7, 0.8, 0.9] } else { (0..1 + r.below(6)).map(|_| conf(r)).collect() };
    let t = ThresholdTuner::with_candidates(cands.clone()).with_criteria(crit).tune(&s);
    let acc = |th: f64| raw.iter().filter(|x| if x.3 >= th { x.2 == x.0 } else { x.1 == x.0 }).count() as f64 / n as f64;
    let ml = |th: f64| raw.iter().filter(|x| x.3 >= th).count() as f64 / n as f64;
    let base = raw.iter().filter(|x| x.1 == x.0).count() as f64 / n as f64;
    let only = raw.iter().filter(|x| x.2 == x.0).count() as f64 / n as f64;
    let mut bad = vec![];
    if t.all_thresholds.iter().map(|m| m.threshold).ne(cands.iter().copied()) { bad.push("not every candidate was tried".to_string()) }
    for m in &t.all_thresholds {
        if m.sample_count != n || !near(m.accuracy, acc(m.threshold)) || !near(m.ml_usage_rate, ml(m.threshold)) || !near(m.fallback_rate + m.ml_usage_rate, 1.0) || m.f1_score < -1e-9 || m.f1_score > 1.0 + 1e-9 { bad.push(format!("{m:?}: expected accuracy {} and usage {}", acc(m.threshold), ml(m.threshold))) }
        if !near(m.precision, m.accuracy) || !near(m.recall, m.accuracy) || !near(m.f1_score, m.accuracy) { bad.push(format!("{m:?}: with one label per sample these four are equal")) }
    }
    if !near(t.baseline_accuracy, base) || !near(t.ml_only_accuracy, only) || !near(t.improvement_over_baseline, t.optimal_metrics.accuracy - base) { bad.push("the baselines are wrong".into()) }
    let best = t.optimal_metrics.threshold;
    if t.optimal_threshold != best || !cands.contains(&best) { bad.push("the chosen threshold is not a candidate".into()) }
    let max = |f: &dyn Fn(f64) -> f64| cands.iter().map(|&c| f(c)).fold(f64::MIN, f64::max);
    let ok = match crit {
        SelectionCriteria::MaxAccuracy | SelectionCriteria::MaxF1 => near(acc(best), max(&acc)),
        SelectionCriteria::BalancedAccuracyFallback => near(0.7 * acc(best) + 0.3 * ml(best), max(&|c| 0.7 * acc(c) + 0.3 * ml(c))),
        SelectionCriteria::MinFallbackAboveBaseline => {
            let above: Vec<f64> = cands.iter().copied().filter(|&c| acc(c) >= base).collect();
            if above.is_empty() { near(acc(best), max(&acc)) } else { acc(best) >= base && near(ml(best), above.iter().map(|&c| ml(c)).fold(f64::MIN, f64::max)) }
        }
    };
    if !ok { bad.push(format!("{best} is not the best candidate by {crit}")) }
    rep.count("tunings");
    rep.saw(&format!("{raw:?}{cands:?}{crit}"));
    for b in bad { rep.violation(format!("threshold tuner: {b}"), &[("samples.txt", format!("{raw:?}\n{cands:?}\n{crit}"))]) }
}

struct Fixed(OwnershipPrediction);
impl OwnershipModel for Fixed { fn predict(&self, _: &OwnershipFeatures) -> OwnershipPrediction { self.0.clone() } }

fn hybrid(rep: &mut Report, r: &mut Rng) {
    let mut h = HybridClassifier::with_threshold(conf(r));
    let mut stats = HybridMetrics::new();
    let mut want = [0u64; 7];
    for k in 0..12 {
        match r.below(6) { 0 => h.enable_ml(), 1 => h.disable_ml(), 2 => h.set_threshold(conf(r)), _ => {} }
        let (kind, rule) = match r.below(4) { 0 => (OwnershipKind::Owning, O::Owned), 1 => (OwnershipKind::ImmutableBorrow, O::Borrowed), 2 => (OwnershipKind::MutableBorrow, O::BorrowedMut), _ => (OwnershipKind::Unknown, O::RawPointer) };
        let inf = OwnershipInference { variable: format!("v{k}"), kind, confidence: conf(r) as f32, reason: "because".into() };
        let mut p = predict(r);
        if r.chance(0.3) { p.kind = rule }
        if r.chance(0.2) { p.confidence = h.confidence_threshold() as f32 }
        let (rc, mc) = (inf.confidence as f64, p.confidence as f64);
        let ensemble = r.chance(0.4);
        let got = if ensemble { h.classify_ensemble(&inf, &OwnershipFeatures::default(), &Fixed(p.clone())) } else { h.classify_hybrid(&inf, &OwnershipFeatures::default(), &Fixed(p.clone())) };
        let exp = if ensemble {
            if rule == p.kind { (rule, ((rc + mc) / 2.0 * 1.1).min(1.0), ClassificationMethod::Hybrid) } else if mc > rc { (p.kind, mc, ClassificationMethod::MachineLearning) } else { (rule, rc, ClassificationMethod::RuleBased) }
        } else if !h.ml_enabled() { (rule, rc, ClassificationMethod::RuleBased) }
        else if mc >= h.confidence_threshold() { (p.kind, mc, ClassificationMethod::MachineLearning) } else { (rule, rc, ClassificationMethod::Fallback) };
        stats.record(&got);
        want[0] += 1;
        want[match exp.2 { ClassificationMethod::RuleBased => 1, ClassificationMethod::MachineLearning => 2, ClassificationMethod::Fallback => 3, ClassificationMethod::Hybrid => 4 }] += 1;
        if ensemble || h.ml_enabled() { want[if rule == p.kind { 5 } else { 6 }] += 1 }
        rep.count("classifications");
        if got.ownership != exp.0 || !near(got.confidence, exp.1) || got.method != exp.2 || got.variable != inf.variable || got.rule_result != Some(rule) || got.used_fallback() != (exp.2 == ClassificationMethod::Fallback) {
            rep.violation(format!("rules say {rule:?} ({rc}), the model {:?} ({mc}), threshold {}, ensemble {ensemble}, enabled {}: {got:?}, expected {exp:?}", p.kind, h.confidence_threshold(), h.ml_enabled()), &[]);
        }
    }
    if [stats.total, stats.rule_based, stats.ml_used, stats.fallback, stats.hybrid, stats.agreements, stats.disagreements] != want || !near(stats.fallback_rate(), want[3] as f64 / 12.0) || !near(stats.ml_usage_rate(), want[2] as f64 / 12.0) {
        rep.violation(format!("{stats:?}, expected {want:?}"), &[]);
    }
}

pub fn run(rep: &mut Report) {
    let mut r = rep.rng(22);
    let mut i = 0;
    while rep.more(i, if rep.quick { 40_000 } else { u64::MAX }) {
        i += 1;
        for f in [queue, learner, tracker, tuner, hybrid] {
            let mut q = r.clone();
            r.next();
            if let Err(p) = guard(|| f(rep, &mut q)) { rep.violation(format!("panics: {p}"), &[]) }
        }
    }
}
