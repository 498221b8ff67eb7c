//! Histories of the transpilation cache against a model of what it may answer.
use crate::rt::{guard, Report};
use decy_core::{TranspilationCache, TranspiledFile};
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
struct Entry {
    content: Vec<u8>,
    result: String,
    deps: Vec<(PathBuf, Option<Vec<u8>>)>,
}

fn read(p: &Path) -> Option<Vec<u8>> {
    std::fs::read(p).ok()
}

pub fn run(rep: &mut Report) {
    let cap = if rep.quick { 4_000 } else { 60_000 };
    let mut r = rep.rng(3);
    let mut i = 0;
    let mut serial = 0u64;
    while rep.more(i, cap) {
        i += 1;
        let dir = rep.scratch.join(format!("c{i}"));
        std::fs::create_dir_all(&dir).unwrap();
        let store = dir.join("deep/store");
        let files: Vec<PathBuf> = (0..4).map(|k| dir.join(format!("f{k}.c"))).collect();
        let heads: Vec<PathBuf> = (0..3).map(|k| dir.join(format!("h{k}.h"))).collect();
        let mut all = files.clone();
        all.extend(heads.clone());
        // few contents, so that files return to what they were; some differ only at the end or in length
        let pool: Vec<Vec<u8>> = vec![b"int a;\n".to_vec(), b"int b;\n".to_vec(), b"int a;\n\n".to_vec(), b"".to_vec(), b"int a; \n".to_vec(), vec![0xff, 0, 1], vec![b'x'; 70_000], { let mut v = vec![b'x'; 70_000]; v[69_999] = b'y'; v }];
        for p in &all {
            std::fs::write(p, r.pick(&pool)).unwrap();
        }
        let mut cache = TranspilationCache::with_directory(&store);
        let mut model: BTreeMap<PathBuf, Entry> = BTreeMap::new();
        let mut saved: Option<BTreeMap<PathBuf, Entry>> = None;
        let (mut hits, mut must_miss, mut lookups) = (0usize, 0usize, 0usize);
        let mut log: Vec<String> = vec![];
        let steps = 10 + r.below(50);
        for _ in 0..steps {
            let op = r.below(20);
            let short = |p: &Path| p.file_name().unwrap().to_string_lossy().to_string();
            let bad: Option<String> = match op {
                0..=3 => {
                    let p = r.pick(&all).clone();
                    let c = r.below(pool.len());
                    std::fs::write(&p, &pool[c]).unwrap();
                    log.push(format!("write {} content{c}", short(&p)));
                    None
                }
                4 => {
                    let p = r.pick(&all).clone();
                    let _ = std::fs::remove_file(&p);
                    log.push(format!("remove {}", short(&p)));
                    None
                }
                5..=9 => {
                    let p = r.pick(&files).clone();
                    let mut deps: Vec<PathBuf> = heads.iter().filter(|_| r.chance(0.45)).cloned().collect();
                    r.shuffle(&mut deps);
                    serial += 1;
                    let t = TranspiledFile::new(p.clone(), format!("fn r{serial}() {{}}\n// é \"quoted\" \\ {serial}"), deps.clone(), vec![format!("r{serial}")], format!("extern {serial}"));
                    log.push(format!("insert {} r{serial} deps {:?}", short(&p), deps.iter().map(|d| short(d)).collect::<Vec<_>>()));
                    cache.insert(&p, &t);
                    if let Some(content) = read(&p) {
                        model.insert(p, Entry { content, result: format!("{t:?}"), deps: deps.into_iter().map(|d| { let c = read(&d); (d, c) }).collect() });
                    }
                    None
                }
                10..=15 => {
                    let p = r.pick(&files).clone();
                    lookups += 1;
                    let now = read(&p);
                    let want = model.get(&p).filter(|e| now.as_ref() == Some(&e.content) && e.deps.iter().all(|(d, c)| &read(d) == c)).map(|e| e.result.clone());
                    let got = cache.get(&p).map(|t| format!("{t:?}"));
                    log.push(format!("get {} -> {}", short(&p), if got.is_some() { "hit" } else { "none" }));
                    rep.count(match (&want, model.contains_key(&p)) { (Some(_), _) => "lookups_fresh", (None, true) => "lookups_stale", _ => "lookups_absent" });
                    if want.is_some() {
                        hits += 1;
                    } else if model.contains_key(&p) && now.is_some() {
                        must_miss += 1;
                    }
                    if got != want {
                        Some(format!("lookup of {} answered {got:?}, the files ask for {want:?}", short(&p)))
                    } else { None }
                }
                16 => {
                    log.push("save".into());
                    match cache.save() {
                        Ok(()) => { saved = Some(model.clone()); None }
                        Err(e) => Some(format!("save failed: {e:#}")),
                    }
                }
                17 => {
                    log.push("load".into());
                    match TranspilationCache::load(&store) {
                        Ok(c) => {
                            cache = c;
                            model = saved.clone().unwrap_or_default();
                            (hits, must_miss, lookups) = (0, 0, 0);
                            None
                        }
                        Err(e) => Some(format!("load failed: {e:#}")),
                    }
                }
                18 if r.chance(0.3) => {
                    log.push("clear".into());
                    cache.clear();
                    model.clear();
                    (hits, must_miss, lookups) = (0, 0, 0);
                    None
                }
                _ => {
                    let p = r.pick(&all).clone();
                    let want = read(&p).map(|c| Sha256::digest(&c).iter().map(|b| format!("{b:02x}")).collect::<String>());
                    let got = cache.compute_hash(&p).ok();
                    if got != want { Some(format!("hash of {} is {got:?}, SHA-256 is {want:?}", short(&p))) } else { None }
                }
            };
            let s = cache.statistics();
            let bad = bad.or_else(|| {
                if s.hits != hits || s.total_files != model.len() || s.misses < must_miss || s.misses > lookups - hits {
                    Some(format!("statistics {s:?}; {hits} of {lookups} lookups answered, {must_miss} rejected as stale, {} entries", model.len()))
                } else { None }
            });
            if let Some(b) = bad {
                rep.violation(b, &[("history.txt", log.join("\n"))]);
                break;
            }
        }
        rep.saw(&log);
        if i % 200 == 1 {
            rep.sample(log.join("; "));
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    crash(rep);
}

/// A save that ends at any byte leaves a cache that loads and answers as before or as after.
fn crash(rep: &mut Report) {
    let cap = if rep.quick { 200 } else { 1_500 };
    let mut r = rep.rng(4);
    let exe = std::env::current_exe().unwrap();
    let mut i = 0;
    while rep.more(i, cap) {
        i += 1;
        let dir = rep.scratch.join(format!("k{i}"));
        std::fs::create_dir_all(&dir).unwrap();
        let limit = if r.chance(0.2) { r.below(8) } else { r.below(16_000) };
        let before = r.below(4);
        for k in 0..8 {
            std::fs::write(dir.join(format!("f{k}.c")), format!("int v{k};\n")).unwrap();
        }
        if before > 0 {
            child(&dir, before, 1);
        }
        let st = std::process::Command::new("prlimit").arg(format!("--fsize={limit}")).arg("--core=0").arg(&exe).arg("save-child").arg(&dir).arg("8").arg("2").output();
        let st = match st {
            Ok(o) => o.status,
            Err(_) => { rep.count("crash_runs_without_prlimit"); return; }
        };
        rep.count(if st.success() { "saves_completed" } else { "saves_interrupted" });
        rep.saw(&("crash", before, limit));
        let res = guard(|| {
            let mut c = TranspilationCache::load(&dir.join("store")).map_err(|e| format!("after a save cut off at byte {limit} the cache does not load: {e:#}"))?;
            let got: Vec<Option<String>> = (0..8).map(|k| c.get(&dir.join(format!("f{k}.c"))).map(|t| t.rust_code.clone())).collect();
            let old: Vec<Option<String>> = (0..8).map(|k| if k < before { Some(format!("gen1 {k}")) } else { None }).collect();
            let new: Vec<Option<String>> = (0..8).map(|k| Some(format!("gen2 {k}"))).collect();
            let cut = |v: &[Option<String>]| v.iter().map(|o| o.as_ref().map(|s| s.lines().next().unwrap().to_string())).collect::<Vec<_>>();
            let got = cut(&got);
            if got != old && got != new {
                return Err(format!("after a save cut off at byte {limit} the cache answers neither the old nor the new results: {got:?}"));
            }
            if st.success() && got != new {
                return Err("a completed save is not what loads".to_string());
            }
            Ok(())
        });
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => rep.violation(e, &[("crash.txt", format!("limit {limit} bytes, {before} entries before"))]),
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
}

pub fn child(dir: &Path, n: usize, gen: usize) {
    let store = dir.join("store");
    let mut c = TranspilationCache::load(&store).unwrap();
    for k in 0..n {
        let p = dir.join(format!("f{k}.c"));
        c.insert(&p, &TranspiledFile::new(p.clone(), format!("gen{gen} {k}\n{}", "// filler\n".repeat(100)), vec![], vec![], String::new()));
    }
    c.save().unwrap();
}
