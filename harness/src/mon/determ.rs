//! The same text gives the same translation: repeated, reordered, on many threads, traced or not.
use crate::rt::{guard, Report};
use std::collections::HashMap;
use std::path::Path;

fn load(dir: &Path) -> Vec<(String, String)> {
    let mut v: Vec<_> = std::fs::read_dir(dir).unwrap().filter_map(|e| {
        let p = e.unwrap().path();
        Some((p.file_name()?.to_str()?.to_string(), std::fs::read_to_string(&p).ok()?))
    }).collect();
    v.sort();
    v
}

/// Text of the answer; an error is an answer too, as long as it is always the same kind.
fn ask(src: &str, way: usize) -> String {
    let r = guard(|| match way {
        0 => decy_core::transpile(src),
        1 => decy_core::transpile_with_trace(src).map(|x| x.0),
        2 => decy_core::transpile_with_includes(src, None),
        3 => decy_core::transpile_with_verification(src).map(|r| if r.errors.is_empty() { r.rust_code } else { "<error>".into() }),
        _ => decy_core::transpile_with_box_transform(src),
    });
    match r {
        Ok(Ok(s)) => s,
        Ok(Err(_)) => "<error>".into(),
        Err(p) => format!("<panic {p}>"),
    }
}

/// Ways that must agree with each other share a class.
fn class(way: usize) -> usize {
    match way { 0..=3 => 0, _ => 4 }
}

pub fn run(rep: &mut Report, dir: &Path, decy: &str) {
    let corpus = load(dir);
    let mut r = rep.rng(11);
    let mut i = 0;
    while rep.more(i, u64::MAX) {
        i += 1;
        // a batch of files, some from the corpus, some generated
        let mut batch: Vec<(String, String)> = (0..10).map(|_| r.pick(&corpus).clone()).collect();
        for k in 0..6 {
            batch.push((format!("generated{k}.c"), crate::parse::random_source(&mut r)));
        }
        for k in 0..batch.len() {
            if r.chance(0.5) {
                batch[k].1 = crate::texts::decorate(&mut r, &batch[k].1);
                rep.count("renamed_or_decorated");
            }
        }
        let mut base: HashMap<(usize, usize), String> = HashMap::new();
        for (k, (_, src)) in batch.iter().enumerate() {
            for c in [0, 4] {
                base.insert((k, c), ask(src, c));
            }
            rep.saw(&src);
            if base[&(k, 0)].starts_with("<error") { rep.count("rejected") } else { rep.count("translated") }
        }
        let jobs: Vec<Vec<(usize, usize)>> = (0..8).map(|_| {
            let mut v: Vec<(usize, usize)> = (0..batch.len()).flat_map(|k| [(k, r.below(5)), (k, 0)]).collect();
            r.shuffle(&mut v);
            v.truncate(20);
            v
        }).collect();
        let bad: Vec<(usize, usize, String)> = std::thread::scope(|s| {
            let hs: Vec<_> = jobs.iter().map(|j| {
                let (batch, base) = (&batch, &base);
                s.spawn(move || j.iter().filter_map(|&(k, way)| {
                    let got = ask(&batch[k].1, way);
                    (got != base[&(k, class(way))]).then_some((k, way, got))
                }).collect::<Vec<_>>())
            }).collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        rep.add("concurrent_translations", jobs.iter().map(|j| j.len() as u64).sum());
        // a fresh process, elsewhere and in another environment, says the same
        let mut bad = bad;
        for _ in 0..4 {
            let k = r.below(batch.len());
            let here = rep.scratch.join(*r.pick(&["one", "two words", "three/deep"]));
            std::fs::create_dir_all(&here).unwrap();
            let name = *r.pick(&["p.c", "other.c", "main.c"]);
            std::fs::write(here.join(name), &batch[k].1).unwrap();
            let o = std::process::Command::new(decy).args(["transpile", name]).current_dir(&here).env("LANG", *r.pick(&["C", "de_DE.UTF-8"])).env("HOME", &here)
                .env("RUST_LOG", *r.pick(&["debug", "off"])).env(*r.pick(&["COLUMNS", "TERM", "DECY_DEBUG"]), "1").output().unwrap();
            let got = if o.status.success() { String::from_utf8_lossy(&o.stdout).into_owned() } else { "<error>".into() };
            rep.count("fresh_processes");
            if got != base[&(k, 0)] && !batch[k].1.contains("#include \"") {
                bad.push((k, 9, got));
            }
        }
        for (k, way, got) in bad.into_iter().take(3) {
            let (a, b) = (&base[&(k, if way == 9 { 0 } else { class(way) })], &got);
            let at = a.lines().zip(b.lines()).find(|(x, y)| x != y).map(|(x, y)| format!("{x:?} / {y:?}")).unwrap_or_default();
            rep.violation(format!("{} translates differently the second time (entry point {way}): {at}", batch[k].0), &[("p.c", batch[k].1.clone()), ("first.rs", a.clone()), ("second.rs", b.clone())]);
        }
    }
}
