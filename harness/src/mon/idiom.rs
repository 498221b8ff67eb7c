//! Idiom detectors (output parameters, void pointers, tagged unions, subprocesses, scopes) against generated bodies
//! whose idioms are known.
use crate::rt::{guard, Report, Rng};
use decy_analyzer::output_params::{OutputParamDetector, ParameterKind};
use decy_analyzer::subprocess_analysis::SubprocessDetector;
use decy_analyzer::tagged_union_analysis::TaggedUnionAnalyzer;
use decy_analyzer::void_ptr_analysis::{TypeConstraint, VoidPtrAnalyzer, VoidPtrPattern};
use decy_hir::{BinaryOperator as B, HirExpression as E, HirFunction, HirParameter, HirStatement as S, HirStruct, HirStructField, HirType as T, SwitchCase, UnaryOperator as U};
use decy_ownership::lifetime::LifetimeAnalyzer;
use std::collections::{BTreeMap, BTreeSet};

pub fn run(rep: &mut Report) {
    let mut done = 0;
    let cap = if rep.quick { 100_000 } else { 4_000_000 };
    while rep.more(done, cap) {
        done += 1;
        let mut rng = rep.rng(done);
        match done % 5 {
            0 => unions(rep, &mut rng),
            1 => subprocess(rep, &mut rng),
            2 => void_ptr(rep, &mut rng),
            3 => scopes(rep, &mut rng),
            _ => outputs(rep, &mut rng),
        }
    }
}

fn var(s: &str) -> E {
    E::Variable(s.into())
}
fn bx(e: E) -> Box<E> {
    Box::new(e)
}

/// A plain int expression that names no pointer, around `core` if given, at a random depth and position.
pub fn wrap(r: &mut Rng, core: Option<E>, d: usize) -> E {
    let Some(c) = core else {
        return match r.below(3) { 0 => E::IntLiteral(r.range(0, 9) as i32), 1 => var("x"), _ => E::BinaryOp { op: B::Add, left: bx(var("x")), right: bx(E::IntLiteral(2)) } };
    };
    if d == 0 {
        return c;
    }
    let other = wrap(r, None, 0);
    let inner = wrap(r, Some(c), d - 1);
    match r.below(10) {
        0 => E::BinaryOp { op: *r.pick(&[B::Add, B::LessThan, B::Multiply, B::LogicalAnd]), left: bx(inner), right: bx(other) },
        1 => E::BinaryOp { op: *r.pick(&[B::Subtract, B::Equal, B::LogicalOr]), left: bx(other), right: bx(inner) },
        2 => E::UnaryOp { op: *r.pick(&[U::Minus, U::LogicalNot]), operand: bx(inner) },
        3 => E::FunctionCall { function: "f".into(), arguments: if r.chance(0.5) { vec![inner, other] } else { vec![other, inner] } },
        4 => E::ArrayIndex { array: bx(var("table")), index: bx(inner) },
        5 => E::Cast { target_type: T::Int, expr: bx(inner) },
        6 => E::Ternary { condition: bx(inner), then_expr: bx(other.clone()), else_expr: bx(other) },
        7 => E::Ternary { condition: bx(other.clone()), then_expr: bx(other), else_expr: bx(inner) },
        8 => E::Ternary { condition: bx(other.clone()), then_expr: bx(inner), else_expr: bx(other) },
        _ => inner,
    }
}

/// Puts a statement at a random depth of nested control flow.
pub fn nest(r: &mut Rng, s: Vec<S>, d: usize) -> Vec<S> {
    if d == 0 {
        return s;
    }
    let inner = nest(r, s, d - 1);
    let pad = |r: &mut Rng| S::Assignment { target: "x".into(), value: wrap(r, None, 0) };
    let mut block = vec![];
    if r.chance(0.4) { block.push(pad(r)) }
    block.extend(inner);
    if r.chance(0.4) { block.push(pad(r)) }
    let c = wrap(r, None, 0);
    vec![match r.below(6) {
        0 => S::If { condition: c, then_block: block, else_block: None },
        1 => S::If { condition: c, then_block: vec![pad(r)], else_block: Some(block) },
        2 => S::While { condition: c, body: block },
        3 => S::For { init: vec![pad(r)], condition: Some(c), increment: vec![pad(r)], body: block },
        4 => S::Switch { condition: c, cases: vec![SwitchCase { value: Some(E::IntLiteral(0)), body: vec![pad(r), S::Break] }, SwitchCase { value: Some(E::IntLiteral(1)), body: { block.push(S::Break); block } }], default_case: None },
        _ => S::Switch { condition: c, cases: vec![SwitchCase { value: Some(E::IntLiteral(0)), body: vec![S::Break] }], default_case: Some(block) },
    }]
}

fn outputs(rep: &mut Report, r: &mut Rng) {
    let names = ["a", "result", "out", "size", "p", "q"];
    let mut params = vec![HirParameter::new("x".into(), T::Int)];
    let mut want = vec![];
    let ret = r.pick(&[T::Int, T::Void, T::Double, T::UnsignedInt]).clone();
    let mut body: Vec<S> = vec![];
    let mut parts: Vec<Vec<S>> = vec![];
    for n in names.iter().take(1 + r.below(4)) {
        let pointer = r.chance(0.85);
        let inner = r.pick(&[T::Int, T::Double, T::Char, T::Struct("S".into())]).clone();
        params.insert(r.below(params.len() + 1), HirParameter::new(n.to_string(), if pointer { T::Pointer(Box::new(inner)) } else { T::Int }));
        let writes = r.below(3);
        let reads = if r.chance(0.5) { 0 } else { 1 + r.below(2) };
        let mut mine: Vec<Vec<S>> = vec![];
        for _ in 0..writes {
            let v = wrap(r, None, 0);
            let d = r.below(4);
            mine.push(nest(r, vec![S::DerefAssignment { target: var(n), value: v }], d));
        }
        for _ in 0..reads {
            let core = E::Dereference(bx(var(n)));
            let d = r.below(4);
            let e = wrap(r, Some(core), d);
            let s = match r.below(13) {
                0 => S::VariableDeclaration { name: "t".into(), var_type: T::Int, initializer: Some(e) },
                1 => S::Assignment { target: "x".into(), value: e },
                2 => S::Return(Some(e)),
                3 => S::If { condition: e, then_block: vec![], else_block: None },
                4 => S::While { condition: e, body: vec![S::Break] },
                5 => S::For { init: vec![S::Assignment { target: "x".into(), value: e }], condition: None, increment: vec![], body: vec![S::Break] },
                6 => S::For { init: vec![], condition: Some(e), increment: vec![], body: vec![] },
                7 => S::For { init: vec![], condition: None, increment: vec![S::Assignment { target: "x".into(), value: e }], body: vec![S::Break] },
                8 => S::Switch { condition: e, cases: vec![], default_case: None },
                9 => S::Expression(E::FunctionCall { function: "f".into(), arguments: vec![e] }),
                10 => S::ArrayIndexAssignment { array: bx(var("table")), index: bx(E::IntLiteral(0)), value: e },
                11 => S::FieldAssignment { object: var("rec"), field: "f".into(), value: e },
                _ => S::DerefAssignment { target: var(n), value: e },
            };
            let d = r.below(3);
            mine.push(nest(r, vec![s], d));
        }
        if r.chance(0.1) {
            mine.push(vec![S::Expression(E::FunctionCall { function: "g".into(), arguments: vec![var("x")] })]);
        }
        // a write through the same name hidden under a read statement counts as both
        if pointer && writes > 0 && reads == 0 {
            want.push(n.to_string());
        }
        r.shuffle(&mut mine);
        parts.extend(mine);
    }
    r.shuffle(&mut parts);
    for p in parts { body.extend(p) }
    let order: Vec<String> = params.iter().map(|p| p.name().to_string()).filter(|n| want.contains(n)).collect();
    let fallible = ret == T::Int;
    let f = HirFunction::new_with_body("get".into(), ret, params, body);
    let show = format!("{f:#?}");
    match guard(|| OutputParamDetector::new().detect(&f)) {
        Err(e) => rep.violation(format!("output parameter detection panics: {e}"), &[("function.txt", show)]),
        Ok(got) => {
            let g: Vec<String> = got.iter().map(|o| o.name.clone()).collect();
            if g != order {
                rep.violation(format!("written and never read through: {order:?}; reported as output parameters: {g:?}"), &[("function.txt", show.clone())]);
            }
            if got.iter().any(|o| o.kind != ParameterKind::Output || o.is_fallible != fallible) {
                rep.violation(format!("kinds of the output parameters: {got:?}, the function returns int: {fallible}"), &[("function.txt", show.clone())]);
            }
            rep.add("output_parameters", g.len() as u64);
            rep.saw(&show);
        }
    }
}

fn void_ptr(rep: &mut Report, r: &mut Rng) {
    #[derive(Default, Debug)]
    struct W { types: Vec<T>, cons: BTreeSet<String> }
    let mut pool = vec!["a", "b", "dest", "src", "ctx"];
    r.shuffle(&mut pool);
    let k = r.below(4);
    let ps: Vec<&str> = pool[..k].to_vec();
    let mut params: Vec<HirParameter> = ps.iter().map(|n| HirParameter::new(n.to_string(), T::Pointer(Box::new(T::Void)))).collect();
    let has_size = r.chance(0.4);
    if has_size {
        params.push(HirParameter::new(r.pick(&["size", "n", "len", "elem_size"]).to_string(), T::Int));
    }
    if r.chance(0.3) {
        params.insert(r.below(params.len() + 1), HirParameter::new("plain".into(), T::Pointer(Box::new(T::Int))));
    }
    let name = r.pick(&["swap", "compare", "cmp_items", "copy_it", "visit", "swapper"]).to_string();
    let ret = r.pick(&[T::Int, T::Void]).clone();
    let mut want: BTreeMap<String, W> = ps.iter().map(|n| (n.to_string(), W::default())).collect();
    let mut body = vec![];
    for n in &ps {
        for _ in 0..r.below(4) {
            let t = r.pick(&[T::Int, T::Char, T::Double, T::Struct("P".into()), T::Pointer(Box::new(T::Int))]).clone();
            let cast = E::Cast { target_type: T::Pointer(Box::new(t.clone())), expr: bx(var(n)) };
            let w = want.get_mut(*n).unwrap();
            if !w.types.contains(&t) { w.types.push(t.clone()) }
            let s = match r.below(10) {
                6 => S::Assignment { target: "t".into(), value: cast },
                7 => S::For { init: vec![S::Assignment { target: "t".into(), value: cast }], condition: None, increment: vec![], body: vec![S::Break] },
                8 => S::For { init: vec![], condition: Some(E::Dereference(bx(cast))), increment: vec![], body: vec![] },
                9 => S::Switch { condition: E::Dereference(bx(cast)), cases: vec![], default_case: None },
                0 => S::VariableDeclaration { name: "t".into(), var_type: T::Pointer(Box::new(t)), initializer: Some(cast) },
                1 => { w.cons.insert("Mutable".into()); S::DerefAssignment { target: cast, value: E::IntLiteral(1) } }
                2 => { w.cons.insert("PartialOrd".into()); S::Return(Some(E::BinaryOp { op: *r.pick(&[B::LessThan, B::GreaterThan, B::LessEqual, B::GreaterEqual]), left: bx(E::Dereference(bx(cast))), right: bx(E::IntLiteral(0)) })) }
                3 => { w.cons.insert("PartialEq".into()); S::If { condition: E::BinaryOp { op: *r.pick(&[B::Equal, B::NotEqual]), left: bx(E::IntLiteral(0)), right: bx(E::Dereference(bx(cast))) }, then_block: vec![], else_block: None } }
                4 => S::Expression(E::FunctionCall { function: "f".into(), arguments: vec![E::IntLiteral(0), E::Dereference(bx(cast))] }),
                _ => S::While { condition: E::BinaryOp { op: B::Multiply, left: bx(E::Dereference(bx(cast))), right: bx(E::IntLiteral(0)) }, body: vec![S::Break] },
            };
            let d = r.below(3);
            body.extend(nest(r, vec![s], d));
        }
    }
    let pattern = if ps.len() == 2 && has_size && name == "swap" { VoidPtrPattern::Swap }
        else if ps.len() == 2 && ret == T::Int && (name == "compare" || name.contains("cmp")) { VoidPtrPattern::Compare }
        else if ps.len() == 2 && has_size && (ps.contains(&"dest") || ps.contains(&"src") || name.contains("copy")) { VoidPtrPattern::Copy }
        else { VoidPtrPattern::Generic };
    let f = HirFunction::new_with_body(name, ret, params, body);
    let show = format!("{f:#?}");
    match guard(|| VoidPtrAnalyzer::new().analyze(&f)) {
        Err(e) => rep.violation(format!("void pointer analysis panics: {e}"), &[("function.txt", show)]),
        Ok(got) => {
            let names: Vec<&str> = got.iter().map(|i| i.param_name.as_str()).collect();
            if names != ps {
                rep.violation(format!("void pointer parameters: {ps:?}; reported: {names:?}"), &[("function.txt", show.clone())]);
            }
            for i in &got {
                let Some(w) = want.get(&i.param_name) else { continue };
                let cons: BTreeSet<String> = i.constraints.iter().filter(|c| **c != TypeConstraint::Clone).map(|c| format!("{c:?}")).collect();
                if i.inferred_types != w.types || cons != w.cons || i.pattern != pattern {
                    rep.violation(format!("{}: cast to {:?}, used with {:?}, pattern {pattern:?}; reported: {i:?}", i.param_name, w.types, w.cons), &[("function.txt", show.clone())]);
                }
                rep.add("void_pointer_types", w.types.len() as u64);
            }
            rep.saw(&show);
        }
    }
}

fn unions(rep: &mut Report, r: &mut Rng) {
    let mut fields = vec![];
    let (mut tag, mut data) = (None, None);
    for i in 0..r.below(6) {
        let n = format!("f{i}");
        let t = match r.below(5) {
            0 => { if tag.is_none() { tag = Some(n.clone()) } T::Enum("Kind".into()) }
            1 => {
                let v: Vec<(String, T)> = (0..r.below(4)).map(|k| (format!("v{k}"), r.pick(&[T::Int, T::Double, T::Pointer(Box::new(T::Char)), T::Struct("P".into())]).clone())).collect();
                if data.is_none() { data = Some((n.clone(), v.clone())) }
                T::Union(v)
            }
            _ => r.pick(&[T::Int, T::Double, T::Struct("Kind".into()), T::Pointer(Box::new(T::Enum("Kind".into()))), T::TypeAlias("Kind".into())]).clone(),
        };
        fields.push(HirStructField::new(n, t));
    }
    let s = HirStruct::new("Value".into(), fields);
    let show = format!("{s:#?}");
    let want = match (&tag, &data) { (Some(t), Some((d, v))) if !v.is_empty() => Some((t.clone(), d.clone(), v.clone())), _ => None };
    match guard(|| TaggedUnionAnalyzer::new().analyze_struct(&s)) {
        Err(e) => rep.violation(format!("tagged union analysis panics: {e}"), &[("struct.txt", show)]),
        Ok(got) => {
            let g = got.map(|i| {
                if i.struct_name != "Value" { rep.violation(format!("the struct Value is reported as {}", i.struct_name), &[("struct.txt", show.clone())]) }
                (i.tag_field_name, i.union_field_name, i.variants.into_iter().map(|v| (v.name, v.payload_type)).collect::<Vec<_>>())
            });
            if g != want {
                rep.violation(format!("tag, data and variants: {want:?}; reported: {g:?}"), &[("struct.txt", show.clone())]);
            }
            if want.is_some() { rep.count("tagged_unions") }
            rep.saw(&show);
        }
    }
}

fn subprocess(rep: &mut Report, r: &mut Rng) {
    let exec = ["execl", "execlp", "execle", "execv", "execvp", "execve", "execvpe"];
    let wait = ["wait", "waitpid", "wait3", "wait4"];
    let (fork, ex, wa) = (r.chance(0.6), r.chance(0.6), r.chance(0.6));
    let mut parts: Vec<Vec<S>> = vec![];
    let call = |f: &str, a: Vec<E>| E::FunctionCall { function: f.into(), arguments: a };
    let mut pid = None;
    if fork {
        parts.push(vec![if r.chance(0.3) {
            pid = Some("child".to_string());
            S::Assignment { target: "child".into(), value: call("fork", vec![]) }
        } else if r.chance(0.6) {
            pid = Some("child".to_string());
            S::VariableDeclaration { name: "child".into(), var_type: T::Int, initializer: Some(call("fork", vec![])) }
        } else {
            S::Expression(call("fork", vec![]))
        }]);
    }
    let (mut cmd, mut args) = (None, vec![]);
    if ex {
        let c = format!("/bin/{}", r.pick(&["ls", "cat", "a b", "echo"]));
        let mut a = vec![E::StringLiteral(c.clone())];
        cmd = Some(c);
        for i in 0..r.below(4) {
            if r.chance(0.3) {
                a.push(var("x"));
            } else {
                a.push(E::StringLiteral(format!("arg{i}")));
                args.push(format!("arg{i}"));
            }
        }
        a.push(E::NullLiteral);
        parts.push(vec![S::Expression(call(*r.pick(&exec), a))]);
    }
    if wa {
        parts.push(vec![S::Expression(call(*r.pick(&wait), vec![E::NullLiteral]))]);
    }
    for _ in 0..r.below(3) {
        parts.push(vec![S::Expression(call(*r.pick(&["printf", "forkful", "exec_plan", "waiter", "await_all"]), vec![E::StringLiteral("fork".into())]))]);
    }
    r.shuffle(&mut parts);
    let mut body = vec![];
    for p in parts {
        let d = r.below(4);
        body.extend(nest(r, p, d));
    }
    let f = HirFunction::new_with_body("run".into(), T::Int, vec![], body);
    let show = format!("{f:#?}");
    match guard(|| SubprocessDetector::new().detect(&f)) {
        Err(e) => rep.violation(format!("subprocess detection panics: {e}"), &[("function.txt", show)]),
        Ok(got) => {
            let any = fork || ex || wa;
            let ok = match got.as_slice() {
                [] => !any,
                [p] => any && (p.has_fork, p.has_exec, p.has_wait) == (fork, ex, wa) && p.command == cmd && p.args == args && p.pid_var == pid,
                _ => false,
            };
            if !ok {
                rep.violation(format!("fork {fork} into {pid:?}, exec {ex} {cmd:?} {args:?}, wait {wa}; reported: {got:?}"), &[("function.txt", show.clone())]);
            }
            if any { rep.count("subprocess_patterns") }
            rep.saw(&show);
        }
    }
}

/// Blocks: which variables each holds, and how they nest.
fn scopes(rep: &mut Report, r: &mut Rng) {
    #[derive(Default, Debug)]
    struct Node { parent: Option<usize>, vars: Vec<String> }
    fn block(r: &mut Rng, nodes: &mut Vec<Node>, at: usize, n: &mut usize, d: usize, live: &mut Vec<String>) -> Vec<S> {
        let mut out = vec![];
        let outer = live.len();
        for _ in 0..1 + r.below(3) {
            match r.below(if d == 0 { 3 } else { 7 }) {
                0 | 1 => {
                    *n += 1;
                    let v = format!("v{n}");
                    nodes[at].vars.push(v.clone());
                    live.push(v.clone());
                    out.push(S::VariableDeclaration { name: v, var_type: T::Int, initializer: None });
                }
                2 => out.push(S::Assignment { target: "g".into(), value: E::IntLiteral(1) }),
                3 => {
                    nodes.push(Node { parent: Some(at), vars: vec![] });
                    let k = nodes.len() - 1;
                    let t = block(r, nodes, k, n, d - 1, live);
                    let e = if r.chance(0.5) {
                        nodes.push(Node { parent: Some(at), vars: vec![] });
                        let k = nodes.len() - 1;
                        Some(block(r, nodes, k, n, d - 1, live))
                    } else { None };
                    out.push(S::If { condition: var("g"), then_block: t, else_block: e });
                }
                5 => {
                    nodes.push(Node { parent: Some(at), vars: vec![] });
                    let k = nodes.len() - 1;
                    let init = if r.chance(0.5) {
                        *n += 1;
                        let v = format!("v{n}");
                        nodes[k].vars.push(v.clone());
                        vec![S::VariableDeclaration { name: v, var_type: T::Int, initializer: Some(E::IntLiteral(0)) }]
                    } else { vec![] };
                    out.push(S::For { init, condition: Some(var("g")), increment: vec![], body: block(r, nodes, k, n, d - 1, live) });
                }
                6 => {
                    nodes.push(Node { parent: Some(at), vars: vec![] });
                    let k = nodes.len() - 1;
                    let cases = (0..r.below(3)).map(|i| SwitchCase { value: Some(E::IntLiteral(i as i32)), body: block(r, nodes, k, n, d - 1, live) }).collect();
                    let default_case = if r.chance(0.5) { Some(block(r, nodes, k, n, d - 1, live)) } else { None };
                    out.push(S::Switch { condition: var("g"), cases, default_case });
                }
                _ => {
                    nodes.push(Node { parent: Some(at), vars: vec![] });
                    let k = nodes.len() - 1;
                    out.push(S::While { condition: var("g"), body: block(r, nodes, k, n, d - 1, live) });
                }
            }
        }
        live.truncate(outer);
        out
    }
    let mut nodes = vec![Node::default()];
    let mut live = vec![];
    let mut n = 0;
    let mut body = block(r, &mut nodes, 0, &mut n, 3, &mut live);
    let all: Vec<String> = nodes[0].vars.clone();
    // what the last statement returns, at some depth of an expression
    let returned = if all.is_empty() { None } else { Some(r.pick(&all).clone()) };
    let d = r.below(3);
    let e = wrap(r, returned.as_ref().map(|v| var(v)), d);
    body.push(S::Return(Some(e)));
    let f = HirFunction::new_with_body("f".into(), T::Int, vec![], body);
    let show = format!("{f:#?}");
    let got = guard(|| {
        let a = LifetimeAnalyzer::new();
        let t = a.build_scope_tree(&f);
        let l = a.track_lifetimes(&f, &t);
        let dangling = a.detect_dangling_pointers(&l);
        let rel = a.infer_lifetime_relationships(&l, &t);
        (t, l, dangling, rel)
    });
    let (tree, life, dangling, rel) = match got {
        Ok(x) => x,
        Err(e) => return rep.violation(format!("scope analysis panics: {e}"), &[("function.txt", show)]),
    };
    let have: Vec<(Option<usize>, Vec<String>)> = tree.scopes().iter().map(|s| (s.parent, s.variables.clone())).collect();
    let want: Vec<(Option<usize>, Vec<String>)> = nodes.iter().map(|s| (s.parent, s.vars.clone())).collect();
    // ids are given in the order in which the blocks open
    if have != want {
        rep.violation(format!("blocks and their variables: {want:?}; reported: {have:?}"), &[("function.txt", show.clone())]);
        return;
    }
    let up = |mut a: usize, b: usize| loop { if a == b { return true } match nodes[a].parent { Some(p) => a = p, None => return false } };
    for a in 0..nodes.len() {
        for b in 0..nodes.len() {
            if tree.is_nested_in(a, b) != up(a, b) {
                rep.violation(format!("block {a} is inside block {b}: {}; reported: {}", up(a, b), tree.is_nested_in(a, b)), &[("function.txt", show.clone())]);
            }
        }
    }
    if life.len() != n {
        rep.violation(format!("{n} variables, {} lifetimes", life.len()), &[("function.txt", show.clone())]);
    }
    for (k, s) in nodes.iter().enumerate() {
        for v in &s.vars {
            let esc = returned.as_ref() == Some(v);
            match life.get(v) {
                Some(l) if l.name == *v && l.declared_in_scope == k && l.escapes == esc => {}
                x => rep.violation(format!("{v} lives in block {k}, is returned: {esc}; reported: {x:?}"), &[("function.txt", show.clone())]),
            }
        }
    }
    if !dangling.is_empty() {
        rep.violation(format!("nothing declared in an inner block is returned; reported as dangling: {dangling:?}"), &[("function.txt", show.clone())]);
    }
    use decy_ownership::lifetime::LifetimeRelation as R;
    if rel.len() != n * n.saturating_sub(1) / 2 {
        rep.violation(format!("{n} variables, {} relations", rel.len()), &[("function.txt", show.clone())]);
    }
    let at = |v: &String| nodes.iter().position(|s| s.vars.contains(v)).unwrap();
    for ((a, b), got) in &rel {
        let (x, y) = (at(a), at(b));
        let want = if x == y { R::Equal } else if up(x, y) { R::OutlivedBy } else if up(y, x) { R::Outlives } else { R::Independent };
        if *got != want {
            rep.violation(format!("{a} (block {x}) and {b} (block {y}): {want:?}; reported: {got:?}"), &[("function.txt", show.clone())]);
        }
        rep.count(&format!("lifetimes_{want:?}"));
    }
    rep.saw(&show);
}
