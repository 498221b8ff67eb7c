//! Dependency graph: edges, build order, cycles; graphs built from files on disk.
use crate::rt::{guard, Report, Rng};
use decy_core::DependencyGraph;
use std::collections::{BTreeSet, HashMap};
use std::path::{Path, PathBuf};

fn cyclic(n: usize, edges: &BTreeSet<(usize, usize)>) -> bool {
    // Kahn, on our own copy of the edges
    let mut deg = vec![0; n];
    for (f, _) in edges {
        deg[*f] += 1;
    }
    let mut q: Vec<usize> = (0..n).filter(|i| deg[*i] == 0).collect();
    let mut seen = 0;
    while let Some(x) = q.pop() {
        seen += 1;
        for (f, t) in edges {
            if *t == x {
                deg[*f] -= 1;
                if deg[*f] == 0 {
                    q.push(*f);
                }
            }
        }
    }
    seen < n
}

fn check_order(g: &DependencyGraph, paths: &[PathBuf], edges: &BTreeSet<(usize, usize)>) -> Result<(), String> {
    let n = paths.len();
    if g.file_count() != n || g.is_empty() != (n == 0) {
        return Err(format!("{} files in the graph, {n} were added", g.file_count()));
    }
    for (i, p) in paths.iter().enumerate() {
        if !g.contains_file(p) {
            return Err(format!("file {} is missing", p.display()));
        }
        for (j, q) in paths.iter().enumerate() {
            if g.has_dependency(p, q) != edges.contains(&(i, j)) {
                return Err(format!("dependency {} -> {} reported as {}", p.display(), q.display(), g.has_dependency(p, q)));
            }
        }
    }
    match (g.topological_sort(), cyclic(n, edges)) {
        (Ok(_), true) => Err("a build order although the dependencies are circular".into()),
        (Err(e), false) => Err(format!("no build order although nothing is circular: {e}")),
        (Err(_), true) => Ok(()),
        (Ok(o), false) => {
            let pos: HashMap<&Path, usize> = o.iter().enumerate().map(|(i, p)| (p.as_path(), i)).collect();
            if o.len() != n || pos.len() != n || paths.iter().any(|p| !pos.contains_key(p.as_path())) {
                return Err(format!("the build order lists {} of {n} files ({} different)", o.len(), pos.len()));
            }
            for (f, t) in edges {
                if pos[paths[*t].as_path()] >= pos[paths[*f].as_path()] {
                    return Err(format!("{} is built before {} which it depends on", paths[*f].display(), paths[*t].display()));
                }
            }
            Ok(())
        }
    }
}

fn random_edges(r: &mut Rng, n: usize) -> BTreeSet<(usize, usize)> {
    let mut e = BTreeSet::new();
    if n == 0 {
        return e;
    }
    let m = r.below(2 * n + 1);
    let dag = r.chance(0.6);
    for _ in 0..m {
        let (a, b) = (r.below(n), r.below(n));
        if dag {
            if a != b {
                e.insert((a.max(b), a.min(b)));
            }
        } else {
            e.insert((a, b));
        }
    }
    e
}

pub fn run(rep: &mut Report) {
    let mut r = rep.rng(2);
    // in memory
    let cap = if rep.quick { 60_000 } else { 1_000_000 };
    let mut i = 0;
    while rep.more(i, cap) {
        i += 1;
        let n = if r.chance(0.05) { 20 + r.below(60) } else { r.below(9) };
        let mut ids: Vec<usize> = (0..n).collect();
        r.shuffle(&mut ids);
        let paths: Vec<PathBuf> = ids.iter().map(|k| PathBuf::from(if k % 3 == 0 { format!("d{}/f{k}.c", k % 2) } else { format!("f{k}.c") })).collect();
        let edges = random_edges(&mut r, n);
        let mut g = DependencyGraph::new();
        for p in &paths {
            g.add_file(p);
            if r.chance(0.2) {
                g.add_file(p);
            }
        }
        let mut order: Vec<_> = edges.iter().copied().collect();
        r.shuffle(&mut order);
        for (f, t) in order {
            g.add_dependency(&paths[f], &paths[t]);
            if r.chance(0.15) {
                g.add_dependency(&paths[f], &paths[t]);
                g.add_file(&paths[f]);
            }
        }
        rep.count(if cyclic(n, &edges) { "graphs_circular" } else { "graphs_acyclic" });
        rep.saw(&(n, &edges));
        match guard(|| check_order(&g, &paths, &edges)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => rep.violation(e, &[("edges.txt", format!("{paths:?}\n{edges:?}"))]),
        }
    }
    // from files on disk
    let cap = if rep.quick { 3_000 } else { 60_000 };
    let mut i = 0;
    while rep.more(i, cap) {
        i += 1;
        let dir = rep.scratch.join(format!("g{i}"));
        let n = 1 + r.below(7);
        let names: Vec<String> = (0..n).map(|k| match k % 4 { 0 => format!("m{k}.c"), 1 => format!("h{k}.h"), 2 => format!("sub/n{k}.h"), _ => format!("dät{k}.h") }).collect();
        let edges = random_edges(&mut r, n);
        let mut text = String::new();
        let mut listed: Vec<(usize, Vec<String>)> = vec![];
        for (k, name) in names.iter().enumerate() {
            let mut src = String::new();
            let mut incs = vec![];
            if r.chance(0.4) {
                let open = *r.pick(&["#ifndef G", "#ifndef G", "#if !defined G", "  #ifndef  G"]);
                src.push_str(&format!("{open}{k}\n#define G{k}\n"));
            }
            let mut deps: Vec<usize> = edges.iter().filter(|e| e.0 == k).map(|e| e.1).collect();
            r.shuffle(&mut deps);
            for t in deps {
                let from_sub = name.starts_with("sub/");
                let rel = match (from_sub, names[t].strip_prefix("sub/")) {
                    (true, Some(x)) => x.to_string(),
                    (true, None) => format!("../{}", names[t]),
                    (false, Some(x)) => if r.chance(0.8) { format!("sub/{x}") } else { format!("./sub/{x}") },
                    (false, None) => if r.chance(0.8) { names[t].clone() } else { format!("sub/../{}", names[t]) },
                };
                let pad = *r.pick(&["#", "  #", "\t#", "# ", " #\t"]);
                let gap = *r.pick(&[" ", "", "  "]);
                let tail = *r.pick(&["", " // see <other.h>", " /* the \"old\" one */", "  ", " // für <x>"]);
                src.push_str(&format!("{pad}include{gap}\"{rel}\"{tail}\n"));
                incs.push(rel);
                if r.chance(0.3) {
                    let sys = *r.pick(&["stdio.h", "stdlib.h", "sys/types.h"]);
                    src.push_str(&format!("#include <{sys}>{}\n", r.pick(&["", " // not \"local.h\"", " /* été \" */"])));
                    incs.push(sys.to_string());
                }
                if r.chance(0.3) {
                    src.push_str(r.pick(&["int x; // #include \"no.h\"\n", "// #include \"none.h\"\n", "const char *s = \"#include\";\n", "#define include_it 1\n", "#include\n", "#include \"broken\n"]));
                }
            }
            if r.chance(0.4) {
                src.push_str("int v;\n#endif\n");
            }
            let p = dir.join(name);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, &src).unwrap();
            text.push_str(&format!("--- {name}\n{src}"));
            let got = guard(|| DependencyGraph::parse_include_directives(&src));
            if got.as_ref().ok() != Some(&incs) {
                rep.violation(format!("includes of {name} are {incs:?}, reported {got:?}"), &[("src.txt", src.clone())]);
            }
            let guarded = src.lines().any(|l| l.trim().starts_with("#if")) && src.lines().any(|l| l.starts_with("#endif"));
            match DependencyGraph::has_header_guard(&p) {
                Ok(b) if b == guarded => {}
                other => rep.violation(format!("header guard of {name}: {guarded}, reported {other:?}"), &[("src.txt", src.clone())]),
            }
            listed.push((k, incs));
        }
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        // sometimes only a part of the files is listed
        if r.chance(0.3) {
            order.truncate(1 + r.below(n));
        }
        let paths: Vec<PathBuf> = order.iter().map(|k| dir.join(&names[*k])).collect();
        let at: HashMap<usize, usize> = order.iter().enumerate().map(|(i, k)| (*k, i)).collect();
        let sub: BTreeSet<(usize, usize)> = edges.iter().filter_map(|(a, b)| Some((*at.get(a)?, *at.get(b)?))).collect();
        rep.saw(&("files", &names, &sub));
        rep.count("graphs_from_files");
        rep.add("include_lines", listed.iter().map(|l| l.1.len() as u64).sum());
        let res = guard(|| DependencyGraph::from_files(&paths).map_err(|e| e.to_string()).and_then(|g| check_order(&g, &paths, &sub)));
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => rep.violation(e, &[("files.txt", text.clone())]),
        }
        if i % 200 == 1 {
            rep.sample(text.clone());
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
}
