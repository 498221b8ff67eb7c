//! Pointer classification (dataflow graph, ownership inference, Box/Vec candidates) against a model of the body.
use crate::rt::{guard, Report, Rng};
use decy_analyzer::patterns::PatternDetector;
use decy_hir::{BinaryOperator as B, HirExpression as E, HirFunction, HirParameter, HirStatement as S, HirType as T, SwitchCase};
use decy_ownership::dataflow::{DataflowAnalyzer, NodeKind};
use decy_ownership::inference::{OwnershipInferencer, OwnershipKind};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
enum Origin {
    Param,
    Owner,
    Array { size: Option<usize>, elem: T },
    Copy(String),
    Deref,
    Other,
}

#[derive(Default)]
struct Model {
    origin: BTreeMap<String, (usize, Origin)>,
    base: BTreeMap<String, String>,
    written: BTreeSet<String>,
    element_written: BTreeSet<String>,
    stepped: BTreeSet<String>,
    boxes: Vec<(String, usize)>,
    vecs: Vec<(String, usize, E)>,
}

struct Gen<'a> {
    r: &'a mut Rng,
    m: Model,
    ptrs: Vec<String>,
    n: usize,
    top: usize,
    deep: usize,
}

fn var(s: &str) -> E {
    E::Variable(s.into())
}

impl Gen<'_> {
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("{}{}", self.r.pick(&["v", "ptr_", "loc", "arr", "node", "data_"]), self.n)
    }
    fn int(&mut self, d: usize) -> E {
        match self.r.below(if d == 0 { 2 } else { 8 }) {
            0 => E::IntLiteral(self.r.range(0, 64) as i32),
            1 => var("x"),
            2 => E::BinaryOp { op: *self.r.pick(&[B::Multiply, B::LessThan, B::BitwiseAnd]), left: Box::new(self.int(d - 1)), right: Box::new(self.int(d - 1)) },
            3 if !self.ptrs.is_empty() => { let p = self.r.pick(&self.ptrs).clone(); E::ArrayIndex { array: Box::new(var(&p)), index: Box::new(self.int(d - 1)) } }
            4 if !self.ptrs.is_empty() => { let p = self.r.pick(&self.ptrs).clone(); E::Dereference(Box::new(var(&p))) }
            5 if !self.ptrs.is_empty() => { let p = self.r.pick(&self.ptrs).clone(); E::FunctionCall { function: "use".into(), arguments: vec![var(&p), self.int(d - 1)] } }
            6 => E::Ternary { condition: Box::new(self.int(d - 1)), then_expr: Box::new(self.int(d - 1)), else_expr: Box::new(self.int(d - 1)) },
            _ => E::Cast { target_type: T::Int, expr: Box::new(self.int(d - 1)) },
        }
    }
    fn ty(&mut self) -> T {
        self.r.pick(&[T::Int, T::Char, T::Double, T::Float, T::UnsignedInt, T::Struct("Node".into()), T::Bool, T::SignedChar]).clone()
    }
    /// The size of an allocation; Some(elem) when it is written as a count times sizeof.
    fn size(&mut self) -> (E, Option<T>) {
        match self.r.below(5) {
            0 => (E::Sizeof { type_name: "int".into() }, None),
            1 => (self.int(1), None),
            2 => {
                let k = self.int(1);
                (E::BinaryOp { op: B::Add, left: Box::new(k), right: Box::new(E::Sizeof { type_name: "int".into() }) }, None)
            }
            _ => {
                let (n, t) = self.r.pick(&[("int", T::Int), ("char", T::Char), ("double", T::Double), ("float", T::Float), ("signed char", T::SignedChar), ("_Bool", T::Bool)]).clone();
                let count = self.int(1);
                (E::BinaryOp { op: B::Multiply, left: Box::new(count), right: Box::new(E::Sizeof { type_name: n.into() }) }, Some(t))
            }
        }
    }
    fn decl(&mut self, depth: usize) -> S {
        let name = self.fresh();
        if self.r.chance(0.25) {
            let elem = self.ty();
            let size = if self.r.chance(0.85) { Some(1 + self.r.below(64)) } else { None };
            let init = if self.r.chance(0.3) { Some(E::CompoundLiteral { literal_type: T::Array { element_type: Box::new(elem.clone()), size }, initializers: vec![E::IntLiteral(1)] }) } else { None };
            self.m.origin.insert(name.clone(), (self.top, Origin::Array { size, elem: elem.clone() }));
            self.ptrs.push(name.clone());
            return S::VariableDeclaration { name, var_type: T::Array { element_type: Box::new(elem), size }, initializer: init };
        }
        if self.r.chance(0.12) {
            // not a pointer: never classified
            let init = if self.r.chance(0.6) { Some(self.int(2)) } else { None };
            return S::VariableDeclaration { name, var_type: self.r.pick(&[T::Int, T::Double, T::Char, T::Struct("Node".into())]).clone(), initializer: init };
        }
        let elem = self.ty();
        let var_type = if self.r.chance(0.12) { T::Box(Box::new(elem)) } else { T::Pointer(Box::new(elem)) };
        if self.r.chance(0.06) {
            return S::VariableDeclaration { name, var_type, initializer: None };
        }
        let (init, origin) = match self.r.below(9) {
            0 | 1 | 2 => {
                let (size, arr) = self.size();
                let call = self.r.chance(0.8);
                if call {
                    if depth == 0 {
                        self.m.boxes.push((name.clone(), self.top));
                        if let E::BinaryOp { op: B::Multiply, left, .. } = &size {
                            self.m.vecs.push((name.clone(), self.top, (**left).clone()));
                        }
                    }
                    let o = arr.map_or(Origin::Owner, |elem| Origin::Array { size: None, elem });
                    (E::FunctionCall { function: "malloc".into(), arguments: vec![size] }, o)
                } else {
                    (E::Malloc { size: Box::new(size) }, Origin::Owner)
                }
            }
            3 | 4 | 5 if !self.ptrs.is_empty() => {
                let src = self.r.pick(&self.ptrs).clone();
                if matches!(self.m.origin.get(&src), Some((_, Origin::Array { .. }))) {
                    self.m.base.insert(name.clone(), src.clone());
                }
                (var(&src), Origin::Copy(src))
            }
            6 if !self.ptrs.is_empty() => {
                let p = self.r.pick(&self.ptrs).clone();
                (E::Dereference(Box::new(var(&p))), Origin::Deref)
            }
            7 if !self.ptrs.is_empty() => {
                // int *q = p + 1
                let p = self.r.pick(&self.ptrs).clone();
                self.m.stepped.insert(p.clone());
                (E::BinaryOp { op: *self.r.pick(&[B::Add, B::Subtract]), left: Box::new(var(&p)), right: Box::new(self.int(0)) }, Origin::Other)
            }
            _ => (match self.r.below(4) {
                0 => E::NullLiteral,
                1 => E::AddressOf(Box::new(var("x"))),
                2 => E::FunctionCall { function: self.r.pick(&["make", "my_malloc", "strdup", "mallocator"]).to_string(), arguments: vec![self.int(1)] },
                _ => E::Calloc { count: Box::new(self.int(1)), element_type: Box::new(T::Int) },
            }, Origin::Other),
        };
        self.m.origin.insert(name.clone(), (self.top, origin));
        self.ptrs.push(name.clone());
        S::VariableDeclaration { name, var_type, initializer: Some(init) }
    }
    fn simple(&mut self, depth: usize) -> S {
        let p = if self.ptrs.is_empty() { None } else { Some(self.r.pick(&self.ptrs).clone()) };
        match (self.r.below(10), p) {
            (0 | 1 | 2, _) => self.decl(depth),
            (3, Some(p)) => { self.m.written.insert(p.clone()); S::DerefAssignment { target: var(&p), value: self.int(2) } }
            (4, Some(p)) => {
                self.m.written.insert(p.clone());
                self.m.element_written.insert(p.clone());
                S::ArrayIndexAssignment { array: Box::new(var(&p)), index: Box::new(self.int(1)), value: self.int(2) }
            }
            (5, Some(p)) => {
                self.m.stepped.insert(p.clone());
                S::Assignment { target: p.clone(), value: E::BinaryOp { op: *self.r.pick(&[B::Add, B::Subtract]), left: Box::new(var(&p)), right: Box::new(self.int(0)) } }
            }
            (6, Some(p)) => {
                if self.r.chance(0.3) {
                    let (size, _) = self.size();
                    if depth == 0 {
                        self.m.boxes.push((p.clone(), self.top));
                        if let E::BinaryOp { op: B::Multiply, left, .. } = &size {
                            self.m.vecs.push((p.clone(), self.top, (**left).clone()));
                        }
                    }
                    S::Assignment { target: p, value: E::FunctionCall { function: "malloc".into(), arguments: vec![size] } }
                } else {
                    S::FieldAssignment { object: E::Dereference(Box::new(var(&p))), field: "f".into(), value: self.int(1) }
                }
            }
            (7, Some(p)) => if self.r.chance(0.5) { S::Free { pointer: var(&p) } } else { S::Expression(E::FunctionCall { function: self.r.pick(&["free", "use", "printf"]).to_string(), arguments: vec![var(&p)] }) },
            (8, Some(p)) => S::Return(Some(if self.r.chance(0.5) { var(&p) } else { self.int(2) })),
            _ => S::Assignment { target: "x".into(), value: self.int(2) },
        }
    }
    fn block(&mut self, depth: usize) -> Vec<S> {
        (0..1 + self.r.below(3)).map(|_| self.stmt(depth)).collect()
    }
    fn stmt(&mut self, depth: usize) -> S {
        self.deep = self.deep.max(depth);
        if depth >= 3 || self.r.chance(0.62) {
            return self.simple(depth);
        }
        let c = self.int(1);
        match self.r.below(4) {
            0 => { let t = self.block(depth + 1); let e = if self.r.chance(0.5) { Some(self.block(depth + 1)) } else { None }; S::If { condition: c, then_block: t, else_block: e } }
            1 => S::While { condition: c, body: self.block(depth + 1) },
            2 => {
                let init = if self.r.chance(0.5) { vec![self.decl(depth + 1)] } else { vec![S::Assignment { target: "x".into(), value: E::IntLiteral(0) }] };
                let body = self.block(depth + 1);
                let inc = if self.r.chance(0.4) { vec![self.simple(depth + 1)] } else { vec![S::Assignment { target: "x".into(), value: E::BinaryOp { op: B::Add, left: Box::new(var("x")), right: Box::new(E::IntLiteral(1)) } }] };
                S::For { init, condition: if self.r.chance(0.9) { Some(c) } else { None }, increment: inc, body }
            }
            _ => {
                let cases = (0..1 + self.r.below(3)).map(|k| SwitchCase { value: Some(E::IntLiteral(k as i32)), body: { let mut b = self.block(depth + 1); b.push(S::Break); b } }).collect();
                S::Switch { condition: c, cases, default_case: if self.r.chance(0.5) { Some(self.block(depth + 1)) } else { None } }
            }
        }
    }
}

/// Whether the evidence makes a pointer parameter an array, and the length that goes with it.
fn array_param(params: &[(String, T)], i: usize, m: &Model) -> (bool, Option<String>) {
    let (name, ty) = &params[i];
    let T::Pointer(inner) = ty else { return (false, None) };
    if matches!(**inner, T::Struct(_)) {
        return (false, None);
    }
    let (mut weight, mut signals) = (0i32, 0);
    let mut see = |w: i32| { weight += w; signals += 1; };
    let lengthy = |s: &str| ["len", "size", "count", "num"].iter().any(|w| s.to_lowercase().contains(w));
    let l = name.to_lowercase();
    if let Some((_, T::Int)) = params.get(i + 1) { see(3) }
    if l.contains("arr") || l.contains("buf") || l == "data" || l == "items" { see(2) }
    if params.get(i + 1).map_or(false, |(n, _)| lengthy(n)) { see(2) }
    if m.element_written.contains(name) { see(3) }
    if m.stepped.contains(name) { see(-2) }
    let yes = signals >= 2 && weight >= 3;
    let len = match params.get(i + 1) {
        Some((n, T::Int)) if lengthy(n) || n.to_lowercase() == "n" => Some(n.clone()),
        _ => None,
    };
    (yes, if yes { len } else { None })
}

pub fn run(rep: &mut Report) {
    let mut done = 0;
    let cap = if rep.quick { 60_000 } else { 3_000_000 };
    while rep.more(done, cap) {
        done += 1;
        let mut rng = rep.rng(done);
        one(rep, &mut rng);
    }
}

fn one(rep: &mut Report, rng: &mut Rng) {
    let mut names: Vec<&str> = vec!["arr", "buffer", "data", "DATA", "items", "src", "p", "q", "out", "sparrow", "database", "item"];
    let mut lens: Vec<&str> = vec!["len", "size", "count", "n", "N", "num_rows", "k", "BufLen", "width", "maximum"];
    rng.shuffle(&mut names);
    rng.shuffle(&mut lens);
    let mut params: Vec<(String, T)> = vec![];
    for _ in 0..rng.below(5) {
        if rng.chance(0.55) {
            let inner = rng.pick(&[T::Int, T::Char, T::Double, T::Void, T::Struct("Node".into()), T::Pointer(Box::new(T::Int))]).clone();
            let n = names.pop().unwrap().to_string();
            params.push((n, if rng.chance(0.1) { T::Box(Box::new(inner)) } else { T::Pointer(Box::new(inner)) }));
        } else {
            params.push((lens.pop().unwrap().to_string(), rng.pick(&[T::Int, T::Int, T::Int, T::UnsignedInt, T::Double]).clone()));
        }
    }
    let mut g = Gen { r: rng, m: Model::default(), ptrs: vec![], n: 0, top: 0, deep: 0 };
    for (n, t) in &params {
        if matches!(t, T::Pointer(_) | T::Box(_)) {
            g.m.origin.insert(n.clone(), (0, Origin::Param));
            g.ptrs.push(n.clone());
        }
    }
    let body: Vec<S> = (0..g.r.below(8)).map(|i| { g.top = i; g.stmt(0) }).collect();
    let deep = g.deep;
    let m = g.m;
    let f = HirFunction::new_with_body("f".into(), T::Int, params.iter().map(|(n, t)| HirParameter::new(n.clone(), t.clone())).collect(), body);
    let show = format!("{f:#?}");
    let got = guard(|| {
        let g = DataflowAnalyzer::new().analyze(&f);
        let i = OwnershipInferencer::new().infer(&g);
        (g, i, PatternDetector::new().find_box_candidates(&f), PatternDetector::new().find_vec_candidates(&f))
    });
    let (graph, inf, boxes, vecs) = match got {
        Ok(x) => x,
        Err(e) => return rep.violation(format!("the pointer analysis panics: {e}"), &[("function.txt", show)]),
    };
    let mut bad = |what: String| rep.violation(what, &[("function.txt", show.clone())]);

    let want: BTreeSet<&String> = m.origin.keys().collect();
    let have: BTreeSet<&String> = graph.variables().into_iter().collect();
    if want != have {
        bad(format!("pointers of the function: {want:?}, analysed: {have:?}"));
    }
    let inferred: BTreeSet<&String> = inf.keys().collect();
    if want != inferred {
        bad(format!("pointers of the function: {want:?}, classified: {inferred:?}"));
    }
    for (name, (at, origin)) in &m.origin {
        let kind = match origin {
            Origin::Param => NodeKind::Parameter,
            Origin::Owner => NodeKind::Allocation,
            Origin::Array { size, elem } => NodeKind::ArrayAllocation { size: *size, element_type: elem.clone() },
            Origin::Copy(s) => NodeKind::Assignment { source: s.clone() },
            Origin::Deref => NodeKind::Dereference,
            Origin::Other => NodeKind::Assignment { source: "unknown".into() },
        };
        match graph.nodes_for(name).map(|v| v.as_slice()) {
            Some([n]) if n.name == *name && n.def_index == *at && n.kind == kind => {}
            x => bad(format!("{name} is created once, at statement {at}, as {kind:?}; analysed as {x:?}")),
        }
        if let Origin::Copy(s) = origin {
            if graph.dependencies_for(name).map_or(true, |d| d.len() != 1 || !d.contains(s)) {
                bad(format!("{name} is a copy of {s}; its dependencies are {:?}", graph.dependencies_for(name)));
            }
        } else if !matches!(origin, Origin::Other) && graph.dependencies_for(name).map_or(false, |d| !d.is_empty()) {
            bad(format!("{name} depends on nothing; its dependencies are {:?}", graph.dependencies_for(name)));
        }
        if graph.array_base_for(name) != m.base.get(name).map(|s| s.as_str()) {
            bad(format!("the array behind {name} is {:?}; analysed as {:?}", m.base.get(name), graph.array_base_for(name)));
        }
        let Some(i) = inf.get(name) else { continue };
        if i.variable != *name || !(i.confidence > 0.0 && i.confidence <= 1.0) || !i.reason.contains(name.as_str()) {
            bad(format!("the classification of {name} names {} with confidence {} because {:?}", i.variable, i.confidence, i.reason));
        }
        let borrow = matches!(i.kind, OwnershipKind::ImmutableBorrow | OwnershipKind::MutableBorrow);
        let array = |b: &str, e: &T| matches!(&i.kind, OwnershipKind::ArrayPointer { base_array, element_type, base_index: Some(0) } if base_array == b && element_type == e);
        let ok = match origin {
            Origin::Owner => i.kind == OwnershipKind::Owning,
            Origin::Array { elem, .. } => array(name, elem),
            Origin::Copy(s) => match m.base.get(name) {
                Some(b) => { let Some((_, Origin::Array { elem, .. })) = m.origin.get(b) else { unreachable!() }; b == s && array(b, elem) }
                None => borrow,
            },
            Origin::Deref | Origin::Other => borrow,
            Origin::Param => {
                let k = params.iter().position(|p| p.0 == *name).unwrap();
                if array_param(&params, k, &m).0 { matches!(&i.kind, OwnershipKind::ArrayPointer { base_array, base_index: Some(0), .. } if base_array == name) } else { borrow }
            }
        };
        if !ok {
            bad(format!("{name} ({origin:?}, base {:?}) is classified as {:?}", m.base.get(name), i.kind));
        }
    }
    let mut pairs = vec![];
    for (k, (n, t)) in params.iter().enumerate() {
        let (yes, len) = array_param(&params, k, &m);
        if graph.is_array_parameter(n) != Some(yes) {
            bad(format!("parameter {n} is an array parameter: {yes}; analysed: {:?}", graph.is_array_parameter(n)));
        }
        if yes {
            pairs.push((n.clone(), len));
        }
        if matches!(t, T::Pointer(_)) && graph.is_modified(n) != m.written.contains(n) {
            bad(format!("parameter {n} is written through: {}; analysed: {}", m.written.contains(n), graph.is_modified(n)));
        }
    }
    if graph.get_array_parameters() != pairs {
        bad(format!("array parameters with their lengths: {pairs:?}; analysed: {:?}", graph.get_array_parameters()));
    }
    if graph.is_array_parameter("no_such_name").is_some() || graph.nodes_for("no_such_name").is_some() {
        bad("a name that does not exist is analysed".into());
    }
    let b: Vec<(String, usize)> = boxes.into_iter().map(|c| (c.variable, c.malloc_index)).collect();
    if b != m.boxes {
        bad(format!("allocations of the body: {:?}; Box candidates: {b:?}", m.boxes));
    }
    let v: Vec<(String, usize, E)> = vecs.into_iter().filter_map(|c| c.capacity_expr.map(|e| (c.variable, c.malloc_index, e))).collect();
    if v != m.vecs {
        bad(format!("array allocations of the body: {:?}; Vec candidates: {v:?}", m.vecs));
    }
    rep.saw(&show);
    rep.add("pointers_classified", m.origin.len() as u64);
    for (_, o) in m.origin.values() {
        rep.count(match o { Origin::Param => "parameters", Origin::Owner => "owners", Origin::Array { .. } => "arrays", Origin::Copy(_) => "copies", Origin::Deref => "dereferences", Origin::Other => "others" });
    }
    rep.add("array_copies", m.base.len() as u64);
    rep.add("array_parameters", pairs.len() as u64);
    rep.add("written_pointers", m.written.len() as u64);
    if deep >= 3 { rep.count("functions_nested_three_deep"); }
    rep.sample(format!("{:?} array parameters {pairs:?}, written {:?}", m.origin, m.written));
}
