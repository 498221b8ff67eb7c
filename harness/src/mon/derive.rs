//! What is derived from a function or struct: pointer features, lifetime annotations, lock regions, enums and the
//! library of error patterns, each against the generator's knowledge.
use crate::idiom::{nest, wrap};
use crate::rt::{guard, Report, Rng};
use decy_analyzer::tagged_union_analysis::{TaggedUnionInfo, VariantInfo};
use decy_codegen::concurrency_transform as conc;
use decy_codegen::enum_gen::EnumGenerator;
use decy_hir::{BinaryOperator as B, HirExpression as E, HirFunction, HirParameter, HirStatement as S, HirType as T};
use decy_ownership::lifetime_gen::{AnnotatedSignature, AnnotatedType, LifetimeAnnotator, LifetimeParam};
use decy_ownership::ml_features::*;
use decy_ownership::struct_lifetime::StructLifetimeAnnotator;
use std::collections::BTreeMap;

pub fn run(rep: &mut Report) {
    let mut done = 0;
    let cap = if rep.quick { 60_000 } else { 4_000_000 };
    let mut enums: Vec<String> = vec![];
    while rep.more(done, cap) {
        done += 1;
        let mut rng = rep.rng(done);
        let r = &mut rng;
        match done % 6 {
            0 => features(rep, r),
            1 => signature(rep, r),
            2 => record(rep, r),
            3 => enum_type(rep, r, &mut enums),
            4 => regions(rep, r),
            _ => library(rep, r),
        }
        if enums.len() >= 400 {
            compile(rep, &enums);
            enums.clear();
        }
    }
    if !enums.is_empty() {
        compile(rep, &enums);
    }
}

fn var(s: &str) -> E {
    E::Variable(s.into())
}
fn bx<X>(e: X) -> Box<X> {
    Box::new(e)
}

fn null_check(r: &mut Rng, v: &str) -> E {
    let op = *r.pick(&[B::Equal, B::NotEqual]);
    match r.below(3) {
        0 => E::IsNotNull(bx(var(v))),
        1 => E::BinaryOp { op, left: bx(var(v)), right: bx(E::NullLiteral) },
        _ => E::BinaryOp { op, left: bx(E::NullLiteral), right: bx(var(v)) },
    }
}

fn features(rep: &mut Report, r: &mut Rng) {
    // parameters: pointers of several depths, counts, other values
    let mut params: Vec<(String, T)> = vec![];
    for i in 0..1 + r.below(5) {
        match r.below(5) {
            0 | 1 => {
                let mut t = r.pick(&[T::Int, T::Char, T::Struct("S".into()), T::Void]).clone();
                for _ in 0..1 + r.below(3) {
                    t = T::Pointer(bx(t));
                }
                params.push((format!("p{i}"), t));
            }
            2 => params.push((format!("q{i}"), T::Reference { inner: bx(T::Int), mutable: r.chance(0.5) })),
            3 => {
                let n = r.pick(&["len", "buf_size", "itemCount", "NUM", "n", "number", "total", "width", "sz", "nn"]).to_string();
                let n = if params.iter().any(|p| p.0 == n) { format!("v{i}") } else { n };
                params.push((n, r.pick(&[T::Int, T::UnsignedInt, T::Double, T::Char]).clone()));
            }
            _ => params.push((format!("v{i}"), T::Int)),
        }
    }
    // locals: declared anywhere
    let mut locals: Vec<(String, AllocationKind, E)> = vec![];
    for i in 0..r.below(4) {
        let size = E::Sizeof { type_name: "int".into() };
        let n = format!("l{i}");
        let call = |f: &str, args: Vec<E>| E::FunctionCall { function: f.into(), arguments: args };
        let (k, e) = match r.below(8) {
            0 => (AllocationKind::Malloc, E::Malloc { size: bx(size) }),
            1 => (AllocationKind::Calloc, E::Calloc { count: bx(var("x")), element_type: bx(T::Int) }),
            2 => (AllocationKind::Malloc, call("malloc", vec![size])),
            3 => (AllocationKind::Calloc, call("calloc", vec![E::IntLiteral(3), size])),
            4 => (AllocationKind::Realloc, call("realloc", vec![var("old"), size])),
            5 => (AllocationKind::Realloc, E::Realloc { pointer: bx(var("old")), new_size: bx(size) }),
            6 => (AllocationKind::Unknown, call("make", vec![])),
            _ => (AllocationKind::Unknown, var("old")),
        };
        locals.push((n, k, e));
    }
    let mut body: Vec<S> = vec![];
    for (n, _, e) in &locals {
        let d = r.below(4);
        let s = nest(r, vec![S::VariableDeclaration { name: n.clone(), var_type: T::Pointer(bx(T::Int)), initializer: Some(e.clone()) }], d);
        body.extend(s);
    }
    // what is done with each pointer
    let pointers: Vec<String> = params.iter().filter(|p| !matches!(p.1, T::Int | T::UnsignedInt | T::Double | T::Char)).map(|p| p.0.clone()).chain(locals.iter().map(|l| l.0.clone())).collect();
    let mut want: BTreeMap<String, (u32, u32, bool)> = pointers.iter().map(|p| (p.clone(), (0, 0, false))).collect();
    for _ in 0..r.below(7) {
        if pointers.is_empty() { break }
        let p = r.pick(&pointers).clone();
        let w = want.get_mut(&p).unwrap();
        let d = r.below(4);
        let pad = S::Assignment { target: "x".into(), value: wrap(r, None, 0) };
        let s = match r.below(6) {
            0 | 1 => { w.0 += 1; S::Free { pointer: var(&p) } }
            2 => { w.1 += 1; S::If { condition: null_check(r, &p), then_block: vec![pad], else_block: None } }
            3 => { w.1 += 1; S::While { condition: null_check(r, &p), body: vec![pad, S::Break] } }
            4 => { w.1 += 1; S::For { init: vec![], condition: Some(null_check(r, &p)), increment: vec![], body: vec![pad] } }
            _ => { w.2 = true; S::Return(Some(if r.chance(0.5) { var(&p) } else { E::BinaryOp { op: B::Add, left: bx(var(&p)), right: bx(E::IntLiteral(1)) } })) }
        };
        let s = nest(r, vec![s], d);
        body.extend(s);
    }
    let f = HirFunction::new_with_body("f".into(), T::Int, params.iter().map(|(n, t)| HirParameter::new(n.clone(), t.clone())).collect(), body);
    let show = format!("{f:#?}");
    rep.saw(&show);
    let x = FeatureExtractor::new();
    let all = match guard(|| x.extract_all(&f)) { Ok(a) => a, Err(e) => return rep.violation(format!("features panic: {e}"), &[("function.txt", show)]) };
    let names: Vec<&String> = all.iter().map(|a| &a.0).collect();
    let wanted: Vec<&String> = params.iter().map(|p| &p.0).filter(|p| want.contains_key(*p)).collect();
    if names != wanted {
        rep.violation(format!("pointer parameters {wanted:?}; features of {names:?}"), &[("function.txt", show.clone())]);
        return;
    }
    for (i, (n, t)) in params.iter().enumerate() {
        let got = x.extract_for_parameter(&f, n);
        if format!("{got:?}") != format!("{:?}", all.iter().find(|a| a.0 == *n).map(|a| &a.1)) {
            rep.violation(format!("features of {n} differ between one and all parameters: {got:?}"), &[("function.txt", show.clone())]);
        }
        let Some(g) = got else { continue };
        rep.count("feature_sets");
        let mut depth = 0u8;
        let mut u = t;
        while let T::Pointer(i) | T::Reference { inner: i, .. } = u { depth += 1; u = i }
        let sized = matches!(t, T::Pointer(_)) && params.get(i + 1).is_some_and(|(m, mt)| {
            let m = m.to_lowercase();
            matches!(mt, T::Int | T::UnsignedInt) && (["len", "size", "count", "num"].iter().any(|s| m.contains(s)) || m == "n")
        });
        let con = matches!(t, T::Reference { mutable: false, .. });
        check(rep, n, &g, (depth, con, sized, AllocationKind::Parameter), want[n], &show);
    }
    for (n, k, _) in &locals {
        match x.extract_for_variable(&f, n) {
            None => rep.violation(format!("no features of the local {n}"), &[("function.txt", show.clone())]),
            Some(g) => check(rep, n, &g, (1, false, false, *k), want[n], &show),
        }
        rep.count("feature_sets");
    }
    if x.extract_for_variable(&f, "nothing").is_some() || x.extract_for_parameter(&f, "nothing").is_some() {
        rep.violation("features of a name the function does not have", &[("function.txt", show)]);
    }
    // the classifier's answer below and above the threshold
    let p = OwnershipPrediction { kind: *r.pick(&[InferredOwnership::Owned, InferredOwnership::Vec, InferredOwnership::SliceMut]), confidence: (r.below(1001) as f32) / 1000.0, fallback: if r.chance(0.5) { Some(InferredOwnership::Borrowed) } else { None } };
    let sure = p.confidence >= OwnershipPrediction::CONFIDENCE_THRESHOLD;
    let eff = if sure { p.kind } else { p.fallback.unwrap_or(InferredOwnership::RawPointer) };
    if p.is_confident() != sure || p.effective_ownership() != eff {
        rep.violation(format!("{p:?} counts as {:?}", p.effective_ownership()), &[]);
    }
}

fn check(rep: &mut Report, n: &str, g: &OwnershipFeatures, shape: (u8, bool, bool, AllocationKind), use_: (u32, u32, bool), show: &str) {
    let got = (g.pointer_depth, g.is_const, g.has_size_param, g.allocation_site);
    let uses = (u32::from(g.deallocation_count), u32::from(g.null_checks), g.escape_scope);
    if got != shape || g.is_array_decay != shape.2 {
        rep.violation(format!("{n}: depth, const, sized, origin {shape:?}; reported {got:?}, decay {}", g.is_array_decay), &[("function.txt", show.to_string())]);
    }
    if uses != use_ {
        rep.violation(format!("{n}: frees, null checks, returned {use_:?}; reported {uses:?}"), &[("function.txt", show.to_string())]);
    }
    let v = g.to_vector();
    let kind = match g.allocation_site { AllocationKind::Unknown => 0.0, AllocationKind::Malloc => 1.0, AllocationKind::Calloc => 2.0, AllocationKind::Realloc => 3.0, AllocationKind::Stack => 4.0, AllocationKind::Static => 5.0, AllocationKind::Parameter => 6.0 };
    let bit = |b: bool| if b { 1.0f32 } else { 0.0 };
    let head = [g.pointer_depth as f32, bit(g.is_const), bit(g.is_array_decay), bit(g.has_size_param), kind, g.deallocation_count as f32, g.alias_count as f32, bit(g.escape_scope), g.read_count as f32, g.write_count as f32, g.arithmetic_ops as f32, g.null_checks as f32];
    if v.len() != OwnershipFeatures::DIMENSION || v[..12] != head || v[12..].iter().any(|x| *x != 0.0) {
        rep.violation(format!("vector {:?} of {g:?}", &v[..12.min(v.len())]), &[]);
    }
}

fn ref_type(r: &mut Rng, pointers: bool) -> T {
    let base = r.pick(&[T::Int, T::Double, T::Struct("S".into()), T::Vec(bx(T::Int)), T::Array { element_type: bx(T::Char), size: Some(4) }, T::Box(bx(T::Int))]).clone();
    match r.below(if pointers { 5 } else { 4 }) {
        0 | 1 => base,
        2 => T::Reference { inner: bx(base), mutable: r.chance(0.5) },
        3 => T::Reference { inner: bx(T::Reference { inner: bx(base), mutable: r.chance(0.5) }), mutable: r.chance(0.5) },
        _ => T::Pointer(bx(if r.chance(0.3) { T::Pointer(bx(base)) } else { base })),
    }
}

/// The type without its lifetimes, and the lifetimes of its references from the outside in.
fn bare(t: &AnnotatedType, lives: &mut Vec<Option<String>>) -> T {
    match t {
        AnnotatedType::Simple(t) => t.clone(),
        AnnotatedType::Reference { inner, mutable, lifetime } => {
            lives.push(lifetime.as_ref().map(|l| l.name.clone()));
            T::Reference { inner: bx(bare(inner, lives)), mutable: *mutable }
        }
    }
}

fn syntax(names: &[LifetimeParam]) -> String {
    if names.is_empty() { String::new() } else { format!("<{}>", names.iter().map(|l| l.name.clone()).collect::<Vec<_>>().join(", ")) }
}

fn signature(rep: &mut Report, r: &mut Rng) {
    let params: Vec<(String, T)> = (0..r.below(5)).map(|i| (format!("a{i}"), ref_type(r, true))).collect();
    let ret = if params.iter().any(|p| matches!(p.1, T::Reference { .. })) { ref_type(r, true) } else { r.pick(&[T::Int, T::Void, T::Pointer(bx(T::Int))]).clone() };
    let f = HirFunction::new_with_body(r.pick(&["f", "get_item", "g2"]).to_string(), ret.clone(), params.iter().map(|(n, t)| HirParameter::new(n.clone(), t.clone())).collect(), vec![]);
    let a = LifetimeAnnotator::new();
    let s = match guard(|| a.annotate_function(&f)) { Ok(s) => s, Err(e) => return rep.violation(format!("annotation panics: {e}"), &[("function.txt", format!("{f:#?}"))]) };
    let files = [("function.txt", format!("{f:#?}")), ("signature.txt", format!("{s:#?}"))];
    rep.saw(&files[0].1);
    rep.count("signatures");
    let mut lives = vec![];
    let got: Vec<(String, T)> = s.parameters.iter().map(|p| (p.name.clone(), bare(&p.param_type, &mut lives))).collect();
    let in_params = lives.clone();
    let got_ret = bare(&s.return_type, &mut lives);
    if s.name != f.name() || got != params || got_ret != ret {
        rep.violation("the annotated signature is another one", &files);
    }
    let declared: Vec<String> = s.lifetimes.iter().map(|l| l.name.clone()).collect();
    if lives.iter().any(|l| l.as_ref().map_or(true, |l| !declared.contains(l))) || declared.iter().any(|d| !lives.contains(&Some(d.clone()))) {
        rep.violation(format!("lifetimes {declared:?} declared, {lives:?} used"), &files);
    }
    // what is returned lives as long as some parameter
    if lives[in_params.len()..].iter().any(|l| !in_params.contains(l)) {
        rep.violation("a returned reference with a lifetime of no parameter", &files);
    }
    if a.generate_lifetime_syntax(&s.lifetimes) != syntax(&s.lifetimes) {
        rep.violation(format!("syntax {:?}", a.generate_lifetime_syntax(&s.lifetimes)), &files);
    }
    if let Err(e) = a.validate_constraints(&s) {
        rep.violation(format!("its own signature is refused: {e}"), &files);
    }
    if let AnnotatedType::Reference { inner, mutable, .. } = &s.return_type {
        let other = AnnotatedSignature { return_type: AnnotatedType::Reference { inner: inner.clone(), mutable: *mutable, lifetime: Some(LifetimeParam::new("'z".into())) }, ..s.clone() };
        if a.validate_constraints(&other).is_ok() {
            rep.violation("a returned lifetime that is declared nowhere passes", &files);
        }
        rep.count("refused_signatures");
    }
}

fn record(rep: &mut Report, r: &mut Rng) {
    let fields: Vec<(String, T)> = (0..r.below(6)).map(|i| (format!("f{i}"), ref_type(r, true))).collect();
    let input: Vec<(&str, T)> = fields.iter().map(|f| (f.0.as_str(), f.1.clone())).collect();
    let a = StructLifetimeAnnotator::new();
    let (s, refs) = match guard(|| (a.annotate_struct("S", &input), a.detect_reference_fields(&input))) { Ok(s) => s, Err(e) => return rep.violation(format!("annotation panics: {e}"), &[]) };
    let files = [("fields.txt", format!("{fields:#?}")), ("struct.txt", format!("{s:#?}"))];
    rep.saw(&files[0].1);
    rep.count("structs");
    fn reference(t: &T) -> T {
        match t {
            T::Pointer(i) => T::Reference { inner: bx(reference(i)), mutable: false },
            T::Reference { inner, mutable } => T::Reference { inner: bx(reference(inner)), mutable: *mutable },
            t => t.clone(),
        }
    }
    let mut lives = vec![];
    let got: Vec<(String, T)> = s.fields.iter().map(|p| (p.name.clone(), bare(&p.field_type, &mut lives))).collect();
    let want: Vec<(String, T)> = fields.iter().map(|(n, t)| (n.clone(), reference(t))).collect();
    let want_refs: Vec<String> = fields.iter().filter(|f| matches!(f.1, T::Pointer(_) | T::Reference { .. })).map(|f| f.0.clone()).collect();
    if s.name != "S" || got != want || refs != want_refs {
        rep.violation(format!("fields {got:?}, references {refs:?}"), &files);
    }
    let declared: Vec<String> = s.lifetimes.iter().map(|l| l.name.clone()).collect();
    if lives.iter().any(|l| l.as_ref().map_or(true, |l| !declared.contains(l))) || declared.iter().any(|d| !lives.contains(&Some(d.clone()))) || declared.is_empty() != want_refs.is_empty() {
        rep.violation(format!("lifetimes {declared:?} declared, {lives:?} used"), &files);
    }
    if a.generate_struct_lifetime_syntax(&s.lifetimes) != syntax(&s.lifetimes) {
        rep.violation("syntax of a struct's lifetimes", &files);
    }
}

/// A payload type and its Rust text.
fn payload(r: &mut Rng, d: usize) -> (T, String) {
    match r.below(if d == 0 { 9 } else { 14 }) {
        0 | 1 => (T::Int, "i32".into()),
        2 => (T::UnsignedInt, "u32".into()),
        3 => (T::Float, "f32".into()),
        4 => (T::Double, "f64".into()),
        5 => (T::Char, "u8".into()),
        6 => (T::Bool, "bool".into()),
        7 => (T::Struct("Pair".into()), "Pair".into()),
        8 => (T::SignedChar, "i8".into()),
        9 => (T::Pointer(bx(T::Char)), "String".into()),
        10 => (T::Pointer(bx(T::Void)), "*mut ()".into()),
        11 => { let (t, s) = payload(r, 0); if t == T::Char { (T::Pointer(bx(T::Char)), "String".into()) } else { (T::Pointer(bx(t)), format!("*mut {s}")) } }
        12 => { let (t, s) = payload(r, d - 1); let n = 1 + r.below(9); (T::Array { element_type: bx(t), size: Some(n) }, format!("[{s}; {n}]")) }
        _ => {
            let ((t, s), (u, v)) = (payload(r, 0), payload(r, 0));
            let (u, v) = if r.chance(0.3) { (T::Void, String::new()) } else { (u, format!(" -> {v}")) };
            (T::FunctionPointer { param_types: vec![t], return_type: bx(u) }, format!("fn({s}){v}"))
        }
    }
}

fn enum_type(rep: &mut Report, r: &mut Rng, enums: &mut Vec<String>) {
    let mut variants = vec![];
    let mut want: Vec<Option<String>> = vec![];
    let mut names: Vec<String> = vec![];
    for i in 0..1 + r.below(6) {
        let n = match r.below(4) {
            0 => ["i", "j", "f", "d", "ch", "k", "p", "ok"][r.below(8)].to_string(),
            1 => format!("{}_{}", r.pick(&["int", "as", "str", "sub_item"]), r.pick(&["val", "value", "b", "x1"])),
            2 => r.pick(&["int_value", "int__value", "intValue", "pair", "none_", "text"]).to_string(),
            _ => format!("field_{i}"),
        };
        if names.contains(&n) { continue }
        names.push(n.clone());
        let (t, s) = payload(r, 2);
        let (t, s) = if r.chance(0.1) { (T::Void, None) } else { (t, Some(s)) };
        want.push(s);
        variants.push(VariantInfo { name: n, payload_type: t });
    }
    let name = r.pick(&["Value", "Item", "Msg"]).to_string();
    let info = TaggedUnionInfo { struct_name: name.clone(), tag_field_name: "tag".into(), union_field_name: "data".into(), variants: variants.clone() };
    let code = match guard(|| EnumGenerator::new().generate_enum(&info)) { Ok(c) => c, Err(e) => return rep.violation(format!("enum panics: {e}"), &[("union.txt", format!("{variants:#?}"))]) };
    let files = [("union.txt", format!("{variants:#?}")), ("enum.rs", code.clone())];
    rep.saw(&code);
    rep.count("enums");
    let item: syn::ItemEnum = match syn::parse_str(&code) { Ok(i) => i, Err(e) => return rep.violation(format!("the enum is not Rust: {e}"), &files) };
    use std::str::FromStr;
    let text = |s: &str| proc_macro2::TokenStream::from_str(s).unwrap().to_string();
    let got: Vec<Option<String>> = item.variants.iter().map(|v| match &v.fields {
        syn::Fields::Unit => None,
        syn::Fields::Unnamed(u) if u.unnamed.len() == 1 => { let t = &u.unnamed[0].ty; Some(ty_text(t)) }
        _ => Some("?".into()),
    }).collect();
    let want: Vec<Option<String>> = want.iter().map(|w| w.as_ref().map(|s| text(s))).collect();
    if item.ident != name || got != want {
        rep.violation(format!("payloads {want:?}; the enum has {got:?}"), &files);
    }
    let mut ids: Vec<String> = item.variants.iter().map(|v| v.ident.to_string()).collect();
    ids.sort();
    ids.dedup();
    if ids.len() != variants.len() {
        rep.violation(format!("{} members, {} different variants", variants.len(), ids.len()), &files);
    }
    enums.push(code);
}

/// The tokens of a type, as printed from its text.
fn ty_text(t: &syn::Type) -> String {
    fn go(t: &syn::Type) -> String {
        match t {
            syn::Type::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"),
            syn::Type::Ptr(p) => format!("*{} {}", if p.mutability.is_some() { "mut" } else { "const" }, go(&p.elem)),
            syn::Type::Array(a) => { let n = if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) = &a.len { i.to_string() } else { "?".into() }; format!("[{}; {n}]", go(&a.elem)) }
            syn::Type::Tuple(u) if u.elems.is_empty() => "()".into(),
            syn::Type::BareFn(f) => {
                let a: Vec<String> = f.inputs.iter().map(|i| go(&i.ty)).collect();
                match &f.output { syn::ReturnType::Default => format!("fn({})", a.join(", ")), syn::ReturnType::Type(_, t) => format!("fn({}) -> {}", a.join(", "), go(t)) }
            }
            _ => "?".into(),
        }
    }
    use std::str::FromStr;
    proc_macro2::TokenStream::from_str(&go(t)).map(|t| t.to_string()).unwrap_or_default()
}

fn compile(rep: &mut Report, enums: &[String]) {
    let mut t = String::from("#![allow(dead_code, unpredictable_function_pointer_comparisons)]\n#[derive(Debug, Clone, PartialEq)]\npub struct Pair { pub a: i32, pub b: i32 }\n");
    for (i, e) in enums.iter().enumerate() {
        t.push_str(&format!("pub mod m{i} {{\nuse super::Pair;\n{e}\n}}\n"));
    }
    let f = format!("{}/enums.rs", rep.scratch.display());
    std::fs::write(&f, &t).unwrap();
    let o = std::process::Command::new("rustc").args(["--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--cap-lints", "allow", "-o"]).arg(format!("{}/enums.rmeta", rep.scratch.display())).arg(&f).output().expect("rustc");
    rep.add("enums_compiled", enums.len() as u64);
    if !o.status.success() {
        rep.violation(format!("the enums do not compile: {}", String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>()), &[("enums.rs", t)]);
    }
}

fn regions(rep: &mut Report, r: &mut Rng) {
    let locks = ["m", "lock", "guard"];
    let mut held: BTreeMap<String, usize> = BTreeMap::new();
    let mut want = vec![];
    let mut body: Vec<S> = vec![];
    let mut any = false;
    for i in 0..r.below(14) {
        let n = r.pick(&locks).to_string();
        let place = |r: &mut Rng, n: &str| match r.below(3) {
            0 => E::FieldAccess { object: bx(var("s")), field: n.into() },
            1 => E::PointerFieldAccess { pointer: bx(var("p")), field: n.into() },
            _ => var(n),
        };
        let call = |f: &str, e: E| S::Expression(E::FunctionCall { function: f.into(), arguments: vec![E::AddressOf(bx(e))] });
        match r.below(4) {
            0 if !held.contains_key(&n) => { held.insert(n.clone(), i); any = true; let e = place(r, &n); body.push(call("pthread_mutex_lock", e)) }
            1 | 2 if held.contains_key(&n) || r.chance(0.2) => {
                if let Some(at) = held.remove(&n) { want.push((n.clone(), at, i)) }
                any = true;
                let e = place(r, &n);
                body.push(call("pthread_mutex_unlock", e))
            }
            _ => body.push(match r.below(3) {
                0 => S::Assignment { target: "x".into(), value: E::IntLiteral(i as i32) },
                1 => call(r.pick(&["pthread_mutex_init", "pthread_mutex_destroy", "use_mutex"]), var(&n)),
                _ => S::Expression(E::FunctionCall { function: "work".into(), arguments: vec![] }),
            }),
        }
    }
    let f = HirFunction::new_with_body("f".into(), T::Void, vec![], body);
    rep.count("lock_histories");
    rep.saw(&format!("{f:?}"));
    let got = match guard(|| (conc::identify_lock_regions(&f), conc::has_pthread_mutex_calls(&f))) { Ok(g) => g, Err(e) => return rep.violation(format!("regions panic: {e}"), &[]) };
    if got != (want.clone(), any) {
        rep.violation(format!("regions {want:?}, calls {any}; reported {got:?}"), &[("function.txt", format!("{f:#?}"))]);
    }
}

fn library(rep: &mut Report, r: &mut Rng) {
    use OwnershipErrorKind as K;
    let kinds = [K::PointerMisclassification, K::LifetimeInferenceGap, K::DanglingPointerRisk, K::AliasViolation, K::UnsafeMinimizationFailure, K::ArraySliceMismatch, K::ResourceLeakPattern, K::MutabilityMismatch];
    let mut lib = PatternLibrary::new();
    let mut model: BTreeMap<String, (K, Option<String>, u8, u64)> = BTreeMap::new();
    for _ in 0..1 + r.below(25) {
        let id = format!("P{}", r.below(10));
        match r.below(5) {
            0 | 1 | 2 => {
                let k = *r.pick(&kinds);
                let level = 1 + r.below(6) as u8;
                let e = if r.chance(0.7) { Some(format!("E0{}", r.pick(&["382", "499", "502", "505", "50"]))) } else { None };
                let mut p = ErrorPattern::new(id.clone(), k, "d").with_curriculum_level(level);
                if let Some(e) = &e { p = p.with_rust_error(e.clone()) }
                lib.add(p);
                model.insert(id, (k, e, level, 0));
            }
            3 => {
                if let Some(p) = lib.get_mut(&id) { p.record_occurrence() }
                if let Some(m) = model.get_mut(&id) { m.3 += 1 }
            }
            _ => lib = serde_json::from_str(&serde_json::to_string(&lib).unwrap()).unwrap(),
        }
        let state: BTreeMap<String, (K, Option<String>, u8, u64)> = lib.iter().map(|p| (p.id().to_string(), (p.error_kind(), p.rust_error().map(String::from), p.curriculum_level(), p.occurrence_count()))).collect();
        let levels: Vec<u8> = lib.curriculum_ordered().iter().map(|p| p.curriculum_level()).collect();
        let mut sorted: Vec<u8> = model.values().map(|m| m.2).collect();
        sorted.sort();
        let (k, msg) = (*r.pick(&kinds), format!("error[E0{}]: text", r.pick(&["382", "499", "502", "505", "503"])));
        let set = |v: Vec<&ErrorPattern>| { let mut v: Vec<String> = v.iter().map(|p| p.id().to_string()).collect(); v.sort(); v };
        let by_kind: Vec<String> = model.iter().filter(|m| m.1 .0 == k).map(|m| m.0.clone()).collect();
        let by_text: Vec<String> = model.iter().filter(|m| m.1 .1.as_ref().is_some_and(|e| msg.contains(e.as_str()))).map(|m| m.0.clone()).collect();
        if state != model || lib.len() != model.len() || lib.is_empty() != model.is_empty() || levels != sorted || set(lib.get_by_error_kind(k)) != by_kind || set(lib.match_rust_error(&msg)) != by_text || (0..10).any(|i| { let id = format!("P{i}"); lib.get(&id).map(|p| p.id()) != model.get_key_value(&id).map(|m| m.0.as_str()) }) {
            return rep.violation(format!("library {state:?} of {model:?}, levels {levels:?}, {k:?}: {by_kind:?}, {msg}: {by_text:?}"), &[]);
        }
        rep.count("library_states");
    }
    let k = *r.pick(&kinds);
    let d = k.to_defect();
    if OwnershipDefect::from_code(d.code()) != Some(d) || format!("{d:?}") != format!("{k:?}") || !d.to_string().contains(d.code()) {
        rep.violation(format!("{k:?} is the defect {d}"), &[]);
    }
}
