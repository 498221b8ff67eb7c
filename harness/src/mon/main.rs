//! In-process monitors.  mon <monitor> <quick|thorough> <seed> <seconds> <scratch dir> -> JSON on stdout.
mod audit;
mod cache;
mod derive;
mod determ;
mod diag;
mod difft;
mod hirgen;
mod graph;
mod idiom;
mod incl;
mod learn;
mod ledger;
mod llm;
mod locks;
mod opt;
mod own;
mod oracle;
mod parse;
mod registry;
mod robust;
mod texts;
mod rt;
mod verify;
mod views;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "save-child" {
        cache::child(a[2].as_ref(), a[3].parse().unwrap(), a[4].parse().unwrap());
        return;
    }
    let mut r = rt::Report::new(a[2] == "quick", a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]);
    // A panic of the code under test is caught and reported by the monitor that provoked it.
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "robust" => robust::run(&mut r, a[6].as_ref(), &a[7]),
        "determ" => determ::run(&mut r, a[6].as_ref(), &a[7]),
        "registry" => registry::run(&mut r),
        "learn" => learn::run(&mut r),
        "ledger" => ledger::run(&mut r, a[6].as_ref()),
        "verify" => verify::run(&mut r, a[6].as_ref(), &a[7]),
        "parse" => parse::run(&mut r),
        "oracle" => oracle::run(&mut r),
        "opt" => opt::run(&mut r),
        "own" => own::run(&mut r),
        "diag" => diag::run(&mut r),
        "difft" => difft::run(&mut r),
        "incl" => incl::run(&mut r, a[6].as_ref(), &a[7]),
        "idiom" => idiom::run(&mut r),
        "graph" => graph::run(&mut r),
        "cache" => cache::run(&mut r),
        "audit" => audit::run(&mut r),
        "views" => views::run(&mut r),
        "llm" => llm::run(&mut r),
        "derive" => derive::run(&mut r),
        "locks" => locks::run(&mut r),
        m => panic!("unknown monitor {m}"),
    }
    r.print();
}
