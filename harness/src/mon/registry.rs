//! Histories of the model registry against a model of it.
use crate::rt::{guard, Report, Rng};
use decy_ownership::model_versioning::{ModelEntry, ModelQualityMetrics, ModelVersion, ModelVersionManager, QualityThresholds};

#[derive(Clone, Debug)]
struct Entry { version: (u32, u32, u32), m: [f64; 4], art: String, rolled: bool, reason: Option<String> }

#[derive(Clone)]
struct Model { entries: Vec<Entry>, active: Option<usize>, min: [f64; 4], max: usize, backs: Vec<((u32, u32, u32), (u32, u32, u32), String)> }

impl Model {
    fn good(&self, m: &[f64; 4]) -> bool { (0..4).all(|i| m[i] >= self.min[i]) }
    fn better(a: &[f64; 4], b: &[f64; 4]) -> bool { if (a[0] - b[0]).abs() > 0.01 { a[0] > b[0] } else { a[3] > b[3] } }
    fn register(&mut self, e: Entry) -> Option<bool> {
        if self.entries.last().is_some_and(|l| e.version <= l.version) { return None }
        let on = self.good(&e.m) && self.active.is_none_or(|a| Self::better(&e.m, &self.entries[a].m));
        self.entries.push(e);
        if on { self.active = Some(self.entries.len() - 1) }
        while self.entries.len() > self.max && self.active != Some(0) {
            self.entries.remove(0);
            self.active = self.active.map(|a| a - 1);
        }
        Some(on)
    }
    fn go(&mut self, to: usize, reason: String) {
        let a = self.active.unwrap();
        self.entries[a].rolled = true;
        self.entries[a].reason = Some(reason.clone());
        self.backs.push((self.entries[a].version, self.entries[to].version, reason));
        self.active = Some(to);
    }
    fn rollback(&mut self, reason: String) -> bool {
        let Some(a) = self.active else { return false };
        let Some(p) = (0..a).rev().find(|&i| !self.entries[i].rolled) else { return false };
        self.go(p, reason);
        true
    }
}

fn v3(v: &ModelVersion) -> (u32, u32, u32) { (v.major, v.minor, v.patch) }

fn same(m: &Model, real: &ModelVersionManager) -> Result<(), String> {
    let got: Vec<_> = real.versions().collect();
    if got.len() != m.entries.len() || real.version_count() != got.len() { return Err(format!("{} versions kept, {} expected", got.len(), m.entries.len())) }
    for (i, (g, e)) in got.iter().zip(&m.entries).enumerate() {
        if v3(&g.version) != e.version || g.artifact_path != e.art { return Err(format!("version {i} is {} with {}, expected {:?} with {}", g.version, g.artifact_path, e.version, e.art)) }
        if [g.metrics.accuracy, g.metrics.precision, g.metrics.recall, g.metrics.f1_score] != e.m { return Err(format!("{}: quality changed", g.version)) }
        if g.is_active != (m.active == Some(i)) { return Err(format!("{}: marked active: {}", g.version, g.is_active)) }
        // whether a version that is active again still says it was rolled back once is not specified
        if m.active != Some(i) && g.rolled_back != e.rolled { return Err(format!("{}: marked rolled back: {}", g.version, g.rolled_back)) }
        if m.active != Some(i) && e.rolled && g.rollback_reason != e.reason { return Err(format!("{}: rolled back because of {:?}, expected {:?}", g.version, g.rollback_reason, e.reason)) }
    }
    if real.active_version().map(|a| v3(&a.version)) != m.active.map(|a| m.entries[a].version) { return Err(format!("active is {:?}, expected {:?}", real.active_version().map(|a| a.version.to_string()), m.active.map(|a| m.entries[a].version))) }
    let h: Vec<_> = real.rollback_history().iter().map(|r| (v3(&r.from_version), v3(&r.to_version), r.reason.clone())).collect();
    if h != m.backs { return Err(format!("rollback history {h:?}, expected {:?}", m.backs)) }
    let md = real.to_markdown();
    if md.matches("✅ Active").count() != m.active.is_some() as usize { return Err("the report does not show exactly the active version as active".into()) }
    Ok(())
}

fn quality(r: &mut Rng, min: &[f64; 4]) -> [f64; 4] {
    let mut q = [0.0; 4];
    for i in 0..4 { q[i] = match r.below(8) { 0 => min[i], 1 => (min[i] - 0.001).max(0.0), 2 => 1.0, 3 => r.unit(), _ => (min[i] + r.unit() * (1.0 - min[i])).min(1.0) } }
    for x in &mut q { *x = (*x * 1000.0).round() / 1000.0 }
    if r.chance(0.2) { q[0] = ((min[0] * 100.0).round() / 100.0 + 0.01 * r.below(8) as f64).min(1.0); q[0] = (q[0] * 1000.0).round() / 1000.0 }
    q
}
fn metrics(q: &[f64; 4], r: &mut Rng) -> ModelQualityMetrics { ModelQualityMetrics::new(q[0], q[1], q[2], q[3], 0.5, 0.25, r.below(999) as u64) }

pub fn run(rep: &mut Report) {
    let mut r = rep.rng(21);
    let mut i = 0;
    while rep.more(i, if rep.quick { 60_000 } else { u64::MAX }) {
        i += 1;
        let min = if r.chance(0.5) { [0.85, 0.80, 0.80, 0.80] } else { [0; 4].map(|_| r.below(950) as f64 / 1000.0) };
        let max = *r.pick(&[0, 1, 2, 3, 4, 10]);
        let mut real = ModelVersionManager::with_thresholds(QualityThresholds { min_accuracy: min[0], min_precision: min[1], min_recall: min[2], min_f1: min[3] }).with_max_history(max);
        let mut m = Model { entries: vec![], active: None, min, max: max.max(2), backs: vec![] };
        let mut log = format!("thresholds {min:?}, history {max}\n");
        let mut next = (1, 0, 0);
        let n = 3 + r.below(25);
        let mut shape = vec![];
        for step in 0..n {
            let op = r.below(12);
            let before = real.clone();
            let bad: Option<String> = match op {
                0..=5 => {
                    let version = match r.below(8) { 0 => (next.0, next.1.max(1) - 1, next.2), 1 => { next = (next.0 + 1, 0, 0); next } 2 => { next.2 += 1; next } 3 if step > 0 => next, _ => { next = (next.0, next.1 + 1, 0); next } };
                    let q = if r.chance(0.25) && m.active.is_some() { m.entries[m.active.unwrap()].m } else { quality(&mut r, &min) };
                    let art = format!("models/{step}.bin");
                    let want = m.register(Entry { version, m: q, art: art.clone(), rolled: false, reason: None });
                    log += &format!("register {version:?} {q:?} -> {want:?}\n");
                    let got = guard(|| real.register_version(ModelEntry::new(ModelVersion::new(version.0, version.1, version.2), metrics(&q, &mut r), "d", art)));
                    match got {
                        Err(p) => Some(format!("registering panics: {p}")),
                        Ok(g) => { shape.push((0, g.clone().ok())); (g.clone().ok() != want).then(|| format!("registering says {g:?}, expected {want:?}")) }
                    }
                }
                6..=8 => {
                    let auto = r.chance(0.4);
                    let q = quality(&mut r, &min);
                    let why = format!("reason {step}");
                    let (want, got) = if auto {
                        let low = !m.good(&q) || m.active.is_some_and(|a| q[0] < m.entries[a].m[0] - 0.05);
                        let mut t = m.clone();
                        let want = low && t.rollback("?".into());
                        let qm = metrics(&q, &mut r);
                        if real.check_quality(&qm).is_some() != low { rep.violation(format!("the quality check of {q:?} says {:?}", real.check_quality(&qm)), &[("history.txt", log.clone())]) }
                        let got = guard(|| real.auto_rollback_if_needed(&qm));
                        if want { m.rollback(got.as_ref().ok().and_then(|g| g.as_ref()).map(|g| g.reason.clone()).unwrap_or_default()); }
                        (want, got.map(|g| g.is_some()))
                    } else {
                        let want = m.rollback(why.clone());
                        (want, guard(|| real.rollback(why).is_ok()))
                    };
                    log += &format!("rollback auto={auto} {q:?} -> {want}\n");
                    shape.push((1, Some(want)));
                    match got { Err(p) => Some(format!("rollback panics: {p}")), Ok(g) if g != want => Some(format!("rollback says {g}, expected {want}")), _ => None }
                }
                9 | 10 => {
                    let t = if m.entries.is_empty() || r.chance(0.15) { (9, 9, 9) } else { r.pick(&m.entries).version };
                    let to = m.entries.iter().position(|e| e.version == t);
                    let want = to.is_some() && m.active.is_some() && to != m.active;
                    if want { m.go(to.unwrap(), "back to".into()); m.entries[to.unwrap()].rolled = false }
                    log += &format!("rollback to {t:?} -> {want}\n");
                    shape.push((2, Some(want)));
                    match guard(|| real.rollback_to(&ModelVersion::new(t.0, t.1, t.2), "back to").is_ok()) { Err(p) => Some(format!("rollback_to panics: {p}")), Ok(g) if g != want => Some(format!("rollback to {t:?} says {g}, expected {want}")), _ => None }
                }
                _ => {
                    let js = serde_json::to_string(&real).unwrap();
                    match serde_json::from_str(&js) { Ok(x) => { real = x; log += "stored and read back\n"; None } Err(e) => Some(format!("the stored registry does not read back: {e}")) }
                }
            };
            let bad = bad.or_else(|| same(&m, &real).err());
            rep.count(["registrations", "rollbacks", "rollbacks_to", "reloads"][match op { 0..=5 => 0, 6..=8 => 1, 9 | 10 => 2, _ => 3 }]);
            if let Some(b) = bad {
                rep.violation(b, &[("history.txt", log.clone()), ("before.txt", format!("{before:#?}"))]);
                break;
            }
        }
        // versions as text
        let v = ModelVersion::new(r.below(30) as u32, r.below(30) as u32, r.below(30) as u32);
        if ModelVersion::parse(&v.to_string()).as_ref() != Some(&v) || v.bump_major() <= v || v.bump_minor() <= v || v.bump_patch() <= v || v.bump_patch() > v.bump_minor() || v.bump_minor() > v.bump_major() {
            rep.violation(format!("{v}: reading back or ordering of the next versions is wrong"), &[]);
        }
        rep.saw(&(max, shape));
        if i % 4000 == 1 { rep.sample(log) }
    }
}
