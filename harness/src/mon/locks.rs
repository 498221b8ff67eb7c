//! Lock analysis against a plain reading of where locks are held and which variables a statement names.
use crate::rt::{guard, Report, Rng};
use decy_analyzer::lock_analysis::LockAnalyzer;
use decy_hir::{BinaryOperator as B, HirExpression as E, HirFunction, HirStatement as S, HirType as T, SwitchCase, UnaryOperator as U};
use decy_verify::lock_verify::LockDisciplineChecker;
use std::collections::{BTreeMap, BTreeSet};

type Vars = BTreeSet<String>;

struct Gen<'a> {
    r: &'a mut Rng,
    shared: Vec<String>,
    n: usize,
}

impl Gen<'_> {
    fn var(&mut self, seen: &mut Vars) -> String {
        let v = self.r.pick(&self.shared).clone();
        seen.insert(v.clone());
        v
    }
    fn expr(&mut self, d: usize, seen: &mut Vars) -> E {
        if d == 0 || self.r.chance(0.25) {
            return match self.r.below(4) {
                0 => E::IntLiteral(self.r.range(0, 9) as i32),
                1 => E::StringLiteral("s0 s1 text".into()),
                _ => E::Variable(self.var(seen)),
            };
        }
        let mut b = |g: &mut Self| Box::new(g.expr(d - 1, seen));
        match self.r.below(13) {
            0 | 1 => { let l = b(self); let r = b(self); E::BinaryOp { op: *self.r.pick(&[B::Add, B::LessThan, B::LogicalAnd, B::Multiply]), left: l, right: r } }
            2 => E::UnaryOp { op: *self.r.pick(&[U::Minus, U::LogicalNot]), operand: b(self) },
            3 => { let n = self.r.below(3); let mut a = vec![]; for _ in 0..n { a.push(*b(self)); } E::FunctionCall { function: self.r.pick(&["work", "s0", "printf", "pthread_self"]).to_string(), arguments: a } }
            4 => E::Dereference(b(self)),
            5 => { let a = b(self); let i = b(self); E::ArrayIndex { array: a, index: i } }
            6 => E::FieldAccess { object: b(self), field: "s1".into() },
            7 => E::PointerFieldAccess { pointer: b(self), field: "s0".into() },
            8 => { let o = b(self); match self.r.below(4) { 0 => E::PostIncrement { operand: o }, 1 => E::PreIncrement { operand: o }, 2 => E::PostDecrement { operand: o }, _ => E::PreDecrement { operand: o } } }
            9 => { let c = b(self); let t = b(self); let e = b(self); E::Ternary { condition: c, then_expr: t, else_expr: e } }
            10 => E::Cast { target_type: T::Int, expr: b(self) },
            11 => E::AddressOf(b(self)),
            _ => E::Variable(self.var(seen)),
        }
    }
    fn block(&mut self, d: usize, seen: &mut Vars) -> Vec<S> {
        (0..1 + self.r.below(2)).map(|_| self.stmt(d, seen)).collect()
    }
    fn stmt(&mut self, d: usize, seen: &mut Vars) -> S {
        match self.r.below(if d == 0 { 8 } else { 13 }) {
            0 | 1 => { let target = self.var(seen); S::Assignment { target, value: self.expr(2, seen) } }
            2 => { self.n += 1; S::VariableDeclaration { name: format!("local{}", self.n), var_type: T::Int, initializer: if self.r.chance(0.7) { Some(self.expr(2, seen)) } else { None } } }
            3 => S::Expression(self.expr(2, seen)),
            4 => { let t = self.expr(1, seen); S::DerefAssignment { target: t, value: self.expr(1, seen) } }
            5 => { let a = E::Variable(self.var(seen)); let i = self.expr(1, seen); S::ArrayIndexAssignment { array: Box::new(a), index: Box::new(i), value: self.expr(1, seen) } }
            6 => { let o = E::Variable(self.var(seen)); S::FieldAssignment { object: o, field: "s2".into(), value: self.expr(1, seen) } }
            7 => if self.r.chance(0.5) { S::Free { pointer: self.expr(1, seen) } } else { S::Return(if self.r.chance(0.8) { Some(self.expr(2, seen)) } else { None }) },
            8 => { let c = self.expr(1, seen); let t = self.block(d - 1, seen); let e = if self.r.chance(0.5) { Some(self.block(d - 1, seen)) } else { None }; S::If { condition: c, then_block: t, else_block: e } }
            9 => { let c = self.expr(1, seen); S::While { condition: c, body: self.block(d - 1, seen) } }
            10 => {
                let v = self.var(seen);
                let init = vec![S::Assignment { target: v.clone(), value: E::IntLiteral(0) }];
                let c = if self.r.chance(0.8) { Some(self.expr(1, seen)) } else { None };
                let w = self.var(seen);
                let inc = vec![S::Assignment { target: w, value: self.expr(1, seen) }];
                S::For { init, condition: c, increment: inc, body: self.block(d - 1, seen) }
            }
            11 => {
                let c = self.expr(1, seen);
                let cases = (0..1 + self.r.below(2)).map(|k| SwitchCase { value: Some(E::IntLiteral(k as i32)), body: { let mut b = self.block(d - 1, seen); b.push(S::Break); b } }).collect();
                S::Switch { condition: c, cases, default_case: if self.r.chance(0.5) { Some(self.block(d - 1, seen)) } else { None } }
            }
            _ => S::Expression(self.expr(3, seen)),
        }
    }
}

fn call(f: &str, m: &str) -> S {
    S::Expression(E::FunctionCall { function: f.into(), arguments: vec![E::AddressOf(Box::new(E::Variable(m.into())))] })
}

/// The message names the variable and the statement as words of their own.
fn words(m: &str) -> BTreeSet<String> {
    m.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).map(str::to_string).collect()
}

pub fn run(rep: &mut Report) {
    let cap = if rep.quick { 120_000 } else { 3_000_000 };
    let mut r = rep.rng(6);
    let an = LockAnalyzer::new();
    let ck = LockDisciplineChecker::new(&an);
    let mut i = 0;
    while rep.more(i, cap) {
        i += 1;
        // one function: ordinary statements, lock and unlock calls, sometimes unmatched
        let locks: Vec<String> = (0..1 + r.below(3)).map(|k| format!("mtx{k}")).collect();
        let sloppy = r.chance(0.3);
        let n = 1 + r.below(14);
        let mut body = vec![];
        let mut vars: Vec<Vars> = vec![];
        let mut held: BTreeMap<String, usize> = BTreeMap::new();
        let mut regions: Vec<(String, usize, usize)> = vec![];
        let (mut loose_unlock, mut log) = (vec![], String::new());
        let mut g = Gen { r: &mut r, shared: (0..5).map(|k| format!("s{k}")).collect(), n: 0 };
        for _ in 0..n {
            let idx = body.len();
            let mut seen = Vars::new();
            let k = g.r.below(10);
            if k < 2 {
                let m = g.r.pick(&locks).clone();
                if held.contains_key(&m) {
                    continue;
                }
                held.insert(m.clone(), idx);
                body.push(call("pthread_mutex_lock", &m));
            } else if k < 5 && (!held.is_empty() || sloppy) {
                let m = if sloppy && g.r.chance(0.3) { g.r.pick(&locks).clone() } else if held.is_empty() { continue } else { held.keys().nth(g.r.below(held.len())).unwrap().clone() };
                match held.remove(&m) {
                    Some(s) => regions.push((m.clone(), s, idx)),
                    None => loose_unlock.push((m.clone(), idx)),
                }
                body.push(call("pthread_mutex_unlock", &m));
            } else {
                body.push(g.stmt(2, &mut seen));
            }
            vars.push(seen);
        }
        if !sloppy {
            for (m, s) in std::mem::take(&mut held) {
                regions.push((m.clone(), s, body.len()));
                body.push(call("pthread_mutex_unlock", &m));
                vars.push(Vars::new());
            }
        }
        let f = HirFunction::new_with_body("f".into(), T::Void, vec![], body.clone());
        log.push_str(&format!("{:#?}", f.body()));
        let inside = |k: usize| regions.iter().any(|(_, a, b)| k > *a && k < *b);
        let mut data: BTreeMap<&str, Vars> = BTreeMap::new();
        for (m, a, b) in &regions {
            let e = data.entry(m).or_default();
            for v in &vars[a + 1..*b] {
                e.extend(v.iter().cloned());
            }
        }
        data.retain(|_, v| !v.is_empty());
        let protected: Vars = data.values().flatten().cloned().collect();
        let want: BTreeSet<(String, usize)> = (0..body.len()).filter(|k| !inside(*k)).flat_map(|k| vars[k].iter().filter(|v| protected.contains(*v)).map(move |v| (v.clone(), k)).collect::<Vec<_>>()).collect();
        let discipline = held.len() + loose_unlock.len();
        rep.saw(&(&regions, &want, discipline));
        rep.add("lock_regions", regions.len() as u64);
        rep.add("unprotected_accesses", want.len() as u64);
        rep.add("unmatched_locks", discipline as u64);
        let res = guard(|| -> Result<(), String> {
            let mut got: Vec<(String, usize, usize)> = an.find_lock_regions(&f).into_iter().map(|x| (x.lock_name, x.start_index, x.end_index)).collect();
            got.sort();
            let mut exp = regions.clone();
            exp.sort();
            if got != exp {
                return Err(format!("locked regions {exp:?}, reported {got:?}"));
            }
            let map = an.analyze_lock_data_mapping(&f);
            for m in &locks {
                let got: Vars = map.get_protected_data(m).into_iter().collect();
                let exp = data.get(m.as_str()).cloned().unwrap_or_default();
                if got != exp {
                    return Err(format!("{m} guards {exp:?}, reported {got:?}"));
                }
                for v in exp.iter().chain(["s9".to_string(), "s0".to_string(), "local1".to_string()].iter()) {
                    if map.is_protected_by(v, m) != exp.contains(v) {
                        return Err(format!("{v} guarded by {m}: reported {}", map.is_protected_by(v, m)));
                    }
                }
            }
            let un = ck.check_unprotected_access(&f);
            let mut hit: BTreeSet<(String, usize)> = BTreeSet::new();
            for m in &un {
                let w = words(m);
                match want.iter().find(|(v, k)| w.contains(v) && w.contains(&k.to_string())) {
                    Some(x) => { hit.insert(x.clone()); }
                    None => return Err(format!("reported although nothing of the kind happens: {m}")),
                }
            }
            if let Some(x) = want.iter().find(|x| !hit.contains(x)) {
                return Err(format!("the access to {} in statement {} outside every locked region is not reported", x.0, x.1));
            }
            let di = an.check_lock_discipline(&f);
            if di.len() != discipline {
                return Err(format!("{} locks never released and {} releases without a lock, reported {di:?}", held.len(), loose_unlock.len()));
            }
            for (m, k) in held.iter().map(|(m, k)| (m, k)).chain(loose_unlock.iter().map(|(m, k)| (m, k))) {
                if !di.iter().any(|x| { let w = words(x); w.contains(m) && w.contains(&k.to_string()) }) {
                    return Err(format!("the unmatched call on {m} in statement {k} is not reported in {di:?}"));
                }
            }
            let all = ck.check_all(&f);
            if all.unprotected_accesses != un.len() || all.lock_violations != di.len() || all.is_clean() != (want.is_empty() && discipline == 0) {
                return Err(format!("summary {all:?} of {} accesses and {} unmatched calls, clean {}", un.len(), di.len(), all.is_clean()));
            }
            Ok(())
        });
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => rep.violation(e, &[("function.txt", log.clone())]),
        }
        // several functions nesting locks in some order
        let nf = r.below(5);
        let nl = 2 + r.below(4);
        let consistent = r.chance(0.4);
        let mut orders: Vec<Vec<usize>> = vec![];
        let mut fs = vec![];
        for k in 0..nf {
            let mut o: Vec<usize> = (0..nl).filter(|_| r.chance(0.6)).collect();
            if !consistent {
                r.shuffle(&mut o);
            }
            let mut b = vec![];
            for l in &o {
                if r.chance(0.4) {
                    b.push(S::Assignment { target: "s0".into(), value: E::IntLiteral(1) });
                }
                b.push(call("pthread_mutex_lock", &format!("m{l}")));
            }
            for l in o.iter().rev() {
                b.push(call("pthread_mutex_unlock", &format!("m{l}")));
            }
            fs.push(HirFunction::new_with_body(format!("g{k}"), T::Void, vec![], b));
            orders.push(o);
        }
        let conflict = |a: &[usize], b: &[usize]| a.iter().enumerate().any(|(i, x)| a[i + 1..].iter().any(|y| matches!((b.iter().position(|z| z == x), b.iter().position(|z| z == y)), (Some(p), Some(q)) if q < p)));
        let pairs: Vec<(usize, usize)> = (0..nf).flat_map(|a| (a + 1..nf).map(move |b| (a, b))).filter(|(a, b)| conflict(&orders[*a], &orders[*b])).collect();
        rep.saw(&("orders", &orders));
        rep.count(if pairs.is_empty() { "orders_consistent" } else { "orders_conflicting" });
        match guard(|| ck.check_deadlock_risk(&fs)) {
            Ok(w) if w.is_empty() == pairs.is_empty() => {
                // each warning names two locks that two of the functions take in opposite order
                for m in &w {
                    let ws = words(m);
                    let ok = pairs.iter().any(|(a, b)| (0..nl).any(|x| (0..nl).any(|y| x != y && ws.contains(&format!("m{x}")) && ws.contains(&format!("m{y}"))
                        && { let p = |o: &Vec<usize>, l: usize| o.iter().position(|z| *z == l);
                             matches!((p(&orders[*a], x), p(&orders[*a], y), p(&orders[*b], x), p(&orders[*b], y)), (Some(i), Some(j), Some(k), Some(l)) if i < j && k > l) })));
                    if !ok {
                        rep.violation(format!("a warning about locks that are not in conflict: {m}"), &[("orders.txt", format!("{orders:?}"))]);
                    }
                }
            }
            Ok(w) => rep.violation(format!("lock orders {orders:?}: {} pairs of functions in conflict, warnings {w:?}", pairs.len()), &[("orders.txt", format!("{orders:?}"))]),
            Err(e) => rep.violation(e, &[("orders.txt", format!("{orders:?}"))]),
        }
        if i % 10_000 == 1 {
            rep.sample(log.chars().filter(|c| !c.is_whitespace()).collect::<String>());
        }
    }
}
