//! The optimiser changes nothing that a run of the function can show.
use crate::hirgen::{End, Gen, Interp};
use crate::rt::{guard, Report};
use decy_core::optimize::optimize_function;
use decy_hir::{HirFunction, HirParameter, HirType};

pub fn run(rep: &mut Report) {
    let cap = if rep.quick { 60_000 } else { 2_000_000 };
    let mut r = rep.rng(1);
    let mut i = 0;
    while rep.more(i, cap) {
        i += 1;
        let params = ["a", "b"];
        let body = {
            let lits = r.chance(0.25);
            let n = 1 + r.below(8);
            let d = 1 + r.below(3);
            let mut g = Gen { r: &mut r, vars: params.iter().map(|s| s.to_string()).collect(), n: 0, lits };
            g.stmts(n, d, false)
        };
        let f = HirFunction::new_with_body("f".into(), HirType::Int,
            params.iter().map(|p| HirParameter::new(p.to_string(), HirType::Int)).collect(), body);
        let text = format!("{:#?}", f.body());
        let o = match guard(|| optimize_function(&f)) {
            Ok(o) => o,
            Err(e) => {
                rep.violation(format!("the optimiser panics: {e}"), &[("body.txt", text)]);
                continue;
            }
        };
        if o.name() != f.name() || o.return_type() != f.return_type() || o.parameters() != f.parameters() || o.cuda_qualifier() != f.cuda_qualifier() {
            rep.violation("the optimised function has another signature", &[("body.txt", text)]);
            continue;
        }
        if o.body() != f.body() {
            rep.count("bodies_changed_by_the_optimiser");
        }
        for _ in 0..3 {
            let args = [("a", r.range(-20, 20) as i32), ("b", *r.pick(&[0, 1, -1, 7, i32::MAX, i32::MIN, 100]))];
            let mut x = Interp::new(&args);
            let ex = x.run(f.body());
            let defined = matches!(ex, End::Ret(_));
            rep.count(match ex { End::Ret(_) => "runs_defined", End::Undefined(_) => "runs_undefined", End::Fuel => "runs_out_of_fuel" });
            if !defined {
                continue;
            }
            let mut y = Interp::new(&args);
            y.fuel = 100_000;
            let ey = y.run(o.body());
            rep.saw(&(&x.events, format!("{ex:?}"), text.len()));
            rep.add("events_compared", x.events.len() as u64);
            let mem = |m: &Interp| { let mut v: Vec<(String, i32)> = m.env.iter().filter(|(k, _)| k.contains(['[', '.', '*'])).map(|(k, v)| (k.clone(), *v)).collect(); v.sort(); v };
            if ex != ey || x.events != y.events || mem(&x) != mem(&y) {
                rep.violation(format!("with {args:?} the function ends {ex:?} after {} events, its optimised form {ey:?} after {}", x.events.len(), y.events.len()),
                    &[("body.txt", text.clone()), ("optimised.txt", format!("{:#?}", o.body())), ("events.txt", format!("{:?}\n{:?}", x.events, y.events))]);
                break;
            }
        }
        if i % 5000 == 1 {
            rep.sample(format!("{:?}", f.body()));
        }
    }
}
