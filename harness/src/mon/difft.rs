//! The differential-test verdict against programs whose output and status are known.
//! Most pairs are "compiled" by stand-in compilers (the source is a shell script, copied as the program), which makes
//! thousands of verdicts affordable; a share goes through gcc and rustc.
use crate::rt::{guard, Report, Rng};
use decy_verify::diff_test::{diff_test, run_binary, DiffTestConfig, DiffTestResult};
use std::os::unix::fs::PermissionsExt;
use std::path::Path;

#[derive(Clone, Debug, PartialEq, Hash)]
struct Prog {
    out: String,
    err: String,
    code: i32,
    /// the text is one its compiler refuses
    broken: bool,
}

fn text(r: &mut Rng) -> String {
    let words = ["0", "-1", "42", "ok", "Ok", "a b", " ", "\t", "\n", "\r\n", "é", "日本", "%d", "\\n", "{}", "\"q\"", "x=1", "", "error: ", "E0308", "0.5"];
    (0..r.below(6)).map(|_| *r.pick(&words)).collect()
}

fn change(r: &mut Rng, s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    match r.below(7) {
        0 => format!("{s}\n"),
        1 => format!("{s} "),
        2 => format!(" {s}"),
        3 if !cs.is_empty() => cs[..cs.len() - 1].iter().collect(),
        4 if !cs.is_empty() => { let i = r.below(cs.len()); let mut c = cs.clone(); c[i] = if c[i] == 'x' { 'y' } else { 'x' }; c.iter().collect() }
        5 => s.to_uppercase(),
        _ => format!("{s}{}", r.pick(&["x", "\t", "\r", "0"])),
    }
}

fn quote_sh(s: &str) -> String {
    format!("'{}'", s.replace('\'', "'\\''"))
}
fn quote_c(s: &str) -> String {
    s.bytes().map(|b| format!("\\{b:03o}")).collect()
}

fn script(p: &Prog) -> String {
    if p.broken {
        return "#!/bin/sh\nREFUSE\n".into();
    }
    format!("#!/bin/sh\nprintf '%s' {}\nprintf '%s' {} >&2\nexit {}\n", quote_sh(&p.out), quote_sh(&p.err), p.code)
}
fn c_source(p: &Prog) -> String {
    if p.broken {
        return "int main(void) { return undeclared_thing; }\n".into();
    }
    format!("#include <stdio.h>\nint main(void) {{ fputs(\"{}\", stdout); fputs(\"{}\", stderr); return {}; }}\n", quote_c(&p.out), quote_c(&p.err), p.code)
}
fn rust_source(p: &Prog) -> String {
    if p.broken {
        return "fn main() { let x: i32 = \"text\"; }\n".into();
    }
    format!("fn main() {{ print!(\"{{}}\", {:?}); eprint!(\"{{}}\", {:?}); std::process::exit({}); }}\n", p.out, p.err, p.code)
}

fn left_behind(d: &Path) -> Vec<String> {
    std::fs::read_dir(d).map(|x| x.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default()
}

fn judge(rep: &mut Report, a: &Prog, b: &Prog, cfg: &DiffTestConfig, real: bool, got: Result<anyhow::Result<DiffTestResult>, String>) {
    let files = [("pair.txt", format!("{a:#?}\n{b:#?}\ncompare_stderr {} real compilers {real}\n", cfg.compare_stderr)), ("answer.txt", format!("{got:#?}"))];
    let res = match got {
        Err(e) => return rep.violation(format!("the differential test panics: {e}"), &files),
        Ok(x) => x,
    };
    rep.saw(&(a, b, real));
    rep.count(if real { "pairs_with_real_compilers" } else { "pairs_with_stand_ins" });
    if a.broken || b.broken {
        rep.count("refused_pairs");
        if res.is_ok() {
            rep.violation("a program that does not compile gets a verdict", &files);
        }
        return;
    }
    let r = match res {
        Err(e) => return rep.violation(format!("two programs that compile and run get no verdict: {e:#}"), &files),
        Ok(r) => r,
    };
    for (who, p, o) in [("C", a, &r.c_output), ("Rust", b, &r.rust_output)] {
        if o.stdout != p.out || o.stderr != p.err || o.exit_code != p.code & 255 {
            rep.violation(format!("the {who} program prints {:?} / {:?} and exits {}; reported as {o:?}", p.out, p.err, p.code & 255), &files);
        }
    }
    let (so, ec) = (a.out == b.out, a.code & 255 == b.code & 255);
    if r.stdout_matches != so || r.exit_code_matches != ec || r.passed() != (so && ec) {
        rep.violation(format!("same output {so}, same status {ec}; reported {} {} and passed {}", r.stdout_matches, r.exit_code_matches, r.passed()), &files);
    }
    let want = !so as usize + !ec as usize + (cfg.compare_stderr && a.err != b.err) as usize;
    if r.divergences.len() != want {
        rep.violation(format!("{want} differences; listed: {:?}", r.divergences), &files);
    }
    for (differs, word) in [(!so, "stdout"), (!ec, "exit code"), (cfg.compare_stderr && a.err != b.err, "stderr")] {
        if differs != r.divergences.iter().any(|d| d.starts_with(word)) {
            rep.violation(format!("{word} differs: {differs}; listed: {:?}", r.divergences), &files);
        }
    }
    rep.count(if so && ec { "passing_pairs" } else { "failing_pairs" });
}

pub fn run(rep: &mut Report) {
    let dir = rep.scratch.clone();
    let tmp = dir.join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    std::env::set_var("TMPDIR", &tmp);
    // stand-in compiler: finds -o, takes the last argument that is a file as the source
    let tool = dir.join("standin");
    std::fs::write(&tool, "#!/bin/sh\nout=\nsrc=\nwhile [ $# -gt 0 ]; do case \"$1\" in -o) out=$2; shift;; *) [ -f \"$1\" ] && src=$1;; esac; shift; done\ngrep -q '^REFUSE' \"$src\" && { echo 'error: refused' >&2; exit 1; }\ncp \"$src\" \"$out\" && chmod 755 \"$out\"\n").unwrap();
    std::fs::set_permissions(&tool, std::fs::Permissions::from_mode(0o755)).unwrap();
    let tool = tool.to_string_lossy().into_owned();
    let mut done = 0;
    let cap = if rep.quick { 4000 } else { 200_000 };
    while rep.more(done, cap) {
        done += 1;
        let mut r = rep.rng(done);
        let real = done % 40 == 1;
        let many = if !real && r.chance(0.15) { 4 } else { 1 };
        let mut pairs = vec![];
        for _ in 0..many {
            let a = Prog { out: text(&mut r), err: if r.chance(0.4) { text(&mut r) } else { String::new() }, code: if r.chance(0.5) { 0 } else { *r.pick(&[1, 2, 7, 42, 127, 128, 254, 255]) }, broken: r.chance(0.06) };
            let mut b = Prog { broken: r.chance(0.06), ..a.clone() };
            if r.chance(0.35) { b.out = change(&mut r, &a.out) }
            if r.chance(0.3) { b.err = change(&mut r, &a.err) }
            if r.chance(0.3) { b.code = *r.pick(&[0, 1, 2, 128, 255]) }
            let cfg = DiffTestConfig { timeout_secs: 5, compare_stderr: r.chance(0.4), ..if real { DiffTestConfig::default() } else { DiffTestConfig { gcc_path: tool.clone(), rustc_path: tool.clone(), ..Default::default() } } };
            let (c, s) = if real { (c_source(&a), rust_source(&b)) } else { (script(&a), script(&b)) };
            pairs.push((a, b, cfg, c, s));
        }
        let got: Vec<_> = std::thread::scope(|sc| {
            let hs: Vec<_> = pairs.iter().map(|(_, _, cfg, c, s)| sc.spawn(move || guard(|| diff_test(c, s, cfg)))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        if many > 1 { rep.count("rounds_of_four_at_once") }
        for ((a, b, cfg, ..), g) in pairs.iter().zip(got) {
            // a program file just written by one thread can be held open by a process another thread is starting
            let busy = many > 1 && matches!(&g, Ok(Err(e)) if format!("{e:#}").contains("Text file busy"));
            if busy { rep.count("busy_programs"); continue }
            judge(rep, a, b, cfg, real, g);
        }
        let left = left_behind(&tmp);
        if !left.is_empty() {
            rep.violation(format!("files left in the temporary directory: {left:?}"), &[]);
            for f in left { let _ = std::fs::remove_dir_all(tmp.join(f)); }
        }
        if done % 50 == 0 {
            let p = Prog { out: text(&mut r), err: text(&mut r), code: r.below(256) as i32, broken: false };
            let f = dir.join("prog");
            std::fs::write(&f, script(&p)).unwrap();
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
            match guard(|| run_binary(&f)) {
                Ok(Ok(o)) if o.stdout == p.out && o.stderr == p.err && o.exit_code == p.code => rep.count("programs_run_alone"),
                x => rep.violation(format!("a program that prints {:?} / {:?} and exits {} is reported as {x:?}", p.out, p.err, p.code), &[]),
            }
            if matches!(guard(|| run_binary(&dir.join("no such program"))), Ok(Ok(_))) {
                rep.violation("a program that does not exist has an output", &[]);
            }
        }
    }
}
