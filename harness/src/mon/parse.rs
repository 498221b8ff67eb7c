//! Generates syntax trees, prints them as C in many spellings, and compares what the parser reads.
use crate::rt::{guard, Report, Rng};
use decy_parser::parser::{BinaryOperator as B, CParser, Expression as E, Parameter, Statement as S, SwitchCase, Type as T, UnaryOperator as U};

/// C text as tokens; the printer chooses what stands between them.
type Toks = Vec<String>;

fn t(s: &str) -> Toks {
    s.split_whitespace().map(str::to_string).collect()
}

pub struct Env {
    ints: Vec<String>,
    arrays: Vec<(String, i64)>,
    ptrs: Vec<String>,          // int *
    structs: Vec<String>,       // variables of struct type 0
    sptrs: Vec<String>,         // pointers to struct type 0
    nested: Vec<String>,        // variables of struct SN { struct S0 in; struct S0 *lk; int w[3]; }
    sarrs: Vec<String>,         // arrays of struct type 0
    grids: Vec<String>,         // int [2][3]
    fns: Vec<(String, usize)>,  // int functions of n ints
    loops: bool,
    n: usize,
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub plain: bool, // plain spelling: single spaces, no comments, no extra parentheses
}

fn prec(op: B) -> u8 {
    use B::*;
    match op {
        Comma => 1,
        Assign => 2,
        LogicalOr => 4,
        LogicalAnd => 5,
        BitwiseOr => 6,
        BitwiseXor => 7,
        BitwiseAnd => 8,
        Equal | NotEqual => 9,
        LessThan | GreaterThan | LessEqual | GreaterEqual => 10,
        LeftShift | RightShift => 11,
        Add | Subtract => 12,
        Multiply | Divide | Modulo => 13,
    }
}

fn sym(op: B) -> &'static str {
    use B::*;
    match op {
        Comma => ",", Assign => "=", LogicalOr => "||", LogicalAnd => "&&", BitwiseOr => "|", BitwiseXor => "^", BitwiseAnd => "&",
        Equal => "==", NotEqual => "!=", LessThan => "<", GreaterThan => ">", LessEqual => "<=", GreaterEqual => ">=",
        LeftShift => "<<", RightShift => ">>", Add => "+", Subtract => "-", Multiply => "*", Divide => "/", Modulo => "%",
    }
}

impl Gen<'_> {
    fn expr(&mut self, v: &Env, d: usize) -> E {
        if d == 0 || self.r.chance(0.2) {
            return match self.r.below(8) {
                0 | 1 => E::IntLiteral(*self.r.pick(&[0, 1, 2, 7, 10, 255, 4096, 65535, i32::MAX])),
                2 => E::CharLiteral(*self.r.pick(&[b'a', b'Z', b'0', b' ', b'+', b'=', b'(', b'\'', b'"', b'\\', b'\n', b'\t', 0, b'\r', b'/', b'*', b'<']) as i8),
                _ => E::Variable(self.r.pick(&v.ints).clone()),
            };
        }
        let bx = |e| Box::new(e);
        match self.r.below(26) {
            22 if !v.nested.is_empty() => {
                let n = bx(E::Variable(self.r.pick(&v.nested).clone()));
                match self.r.below(3) {
                    0 => E::FieldAccess { object: bx(E::FieldAccess { object: n, field: "in".into() }), field: self.r.pick(&["fx", "fy"]).to_string() },
                    1 => E::PointerFieldAccess { pointer: bx(E::FieldAccess { object: n, field: "lk".into() }), field: self.r.pick(&["fx", "fy"]).to_string() },
                    _ => E::ArrayIndex { array: bx(E::FieldAccess { object: n, field: "w".into() }), index: bx(self.expr(v, d - 1)) },
                }
            }
            23 if !v.sarrs.is_empty() => { let a = self.r.pick(&v.sarrs).clone(); let i = self.expr(v, d - 1); E::FieldAccess { object: bx(E::ArrayIndex { array: bx(E::Variable(a)), index: bx(i) }), field: "fy".into() } }
            24 if !v.grids.is_empty() => { let a = self.r.pick(&v.grids).clone(); let i = self.expr(v, d - 1); E::ArrayIndex { array: bx(E::ArrayIndex { array: bx(E::Variable(a)), index: bx(i) }), index: bx(self.expr(v, d - 1)) } }
            25 if !v.ptrs.is_empty() => {
                let p = E::Variable(self.r.pick(&v.ptrs).clone());
                let i = bx(self.expr(v, d - 1));
                if self.r.chance(0.5) { E::ArrayIndex { array: bx(p), index: i } } else { E::Dereference(bx(E::BinaryOp { op: B::Add, left: bx(p), right: i })) }
            }
            0..=8 => {
                let op = *self.r.pick(&[B::Add, B::Subtract, B::Multiply, B::Divide, B::Modulo, B::LeftShift, B::RightShift, B::BitwiseAnd, B::BitwiseOr,
                                        B::BitwiseXor, B::Equal, B::NotEqual, B::LessThan, B::GreaterThan, B::LessEqual, B::GreaterEqual, B::LogicalAnd, B::LogicalOr]);
                let l = self.expr(v, d - 1);
                E::BinaryOp { op, left: bx(l), right: bx(self.expr(v, d - 1)) }
            }
            9 | 10 => E::UnaryOp { op: *self.r.pick(&[U::Minus, U::LogicalNot, U::BitwiseNot]), operand: bx(self.expr(v, d - 1)) },
            11 if !v.arrays.is_empty() => { let a = self.r.pick(&v.arrays).0.clone(); E::ArrayIndex { array: bx(E::Variable(a)), index: bx(self.expr(v, d - 1)) } }
            12 if !v.ptrs.is_empty() => E::Dereference(bx(E::Variable(self.r.pick(&v.ptrs).clone()))),
            13 if !v.structs.is_empty() => E::FieldAccess { object: bx(E::Variable(self.r.pick(&v.structs).clone())), field: self.r.pick(&["fx", "fy"]).to_string() },
            14 if !v.sptrs.is_empty() => E::PointerFieldAccess { pointer: bx(E::Variable(self.r.pick(&v.sptrs).clone())), field: self.r.pick(&["fx", "fy"]).to_string() },
            16 if self.r.chance(0.3) => E::FunctionCall { function: "sink".into(), arguments: vec![E::StringLiteral(self.r.pick(&["", "a", "a b", "x = y;", "// no comment", "/* nor this */", "sizeof(int)", "(){}[];,", "a == b && c", r"%d\n", r#"quote \" inside"#, r"tab\t", r"back\\slash"]).to_string())] },
            15 | 16 if !v.fns.is_empty() => {
                let (f, n) = self.r.pick(&v.fns).clone();
                E::FunctionCall { function: f, arguments: (0..n).map(|_| self.expr(v, d - 1)).collect() }
            }
            17 => { let c = self.expr(v, d - 1); let a = self.expr(v, d - 1); E::Ternary { condition: bx(c), then_expr: bx(a), else_expr: bx(self.expr(v, d - 1)) } }
            18 => E::Cast { target_type: self.r.pick(&[T::Int, T::UnsignedInt, T::Char]).clone(), expr: bx(self.expr(v, d - 1)) },
            19 => { let o = bx(E::Variable(self.r.pick(&v.ints).clone())); match self.r.below(4) { 0 => E::PostIncrement { operand: o }, 1 => E::PreIncrement { operand: o }, 2 => E::PostDecrement { operand: o }, _ => E::PreDecrement { operand: o } } }
            20 => E::Sizeof { type_name: self.r.pick(&["int", "char", "double"]).to_string() },
            _ => E::Variable(self.r.pick(&v.ints).clone()),
        }
    }
    fn lit(&mut self, v: i32) -> String {
        if self.plain || v == 0 {
            return v.to_string();
        }
        match self.r.below(6) {
            0 => format!("0x{v:x}"),
            1 => format!("0X{v:X}"),
            2 => format!("0{v:o}"),
            _ => v.to_string(),
        }
    }
    /// Tokens of an expression standing where a precedence of at least `min` binds.
    fn pe(&mut self, e: &E, min: u8, o: &mut Toks) {
        let p = match e {
            E::BinaryOp { op, .. } => prec(*op),
            E::Ternary { .. } => 3,
            E::UnaryOp { .. } | E::Cast { .. } | E::Dereference(_) | E::PreIncrement { .. } | E::PreDecrement { .. } | E::Sizeof { .. } => 14,
            _ => 15,
        };
        let paren = p < min || (!self.plain && self.r.chance(0.12));
        if paren {
            o.push("(".into());
        }
        match e {
            E::IntLiteral(v) => o.push(self.lit(*v)),
            E::FloatLiteral(s) => o.push(s.clone()),
            E::CharLiteral(c) => o.push(match *c as u8 { b'\'' => r"'\''".into(), b'\\' => r"'\\'".into(), b'\n' => r"'\n'".into(), b'\t' => r"'\t'".into(), b'\r' => r"'\r'".into(), 0 => r"'\0'".into(), c => format!("'{}'", c as char) }),
            E::StringLiteral(s) => o.push(format!("\"{s}\"")) /* kept as spelled, escapes included */,
            E::Variable(n) => o.push(n.clone()),
            E::BinaryOp { op, left, right } => {
                // the left operand may stand at the same level, the right one must bind tighter
                if *op == B::Assign { self.pe(left, 14, o) } else { self.pe(left, prec(*op), o) }
                o.push(sym(*op).into());
                if *op == B::Assign { self.pe(right, 2, o) } else { self.pe(right, prec(*op) + 1, o) }
            }
            E::UnaryOp { op, operand } => {
                o.push(match op { U::Minus => "-", U::LogicalNot => "!", U::BitwiseNot => "~", U::AddressOf => "&" }.into());
                self.pe(operand, 14, o);
            }
            E::Dereference(x) => { o.push("*".into()); self.pe(x, 14, o) }
            E::ArrayIndex { array, index } => { self.pe(array, 15, o); o.push("[".into()); self.pe(index, 1, o); o.push("]".into()) }
            E::FieldAccess { object, field } => { self.pe(object, 15, o); o.push(".".into()); o.push(field.clone()) }
            E::PointerFieldAccess { pointer, field } => { self.pe(pointer, 15, o); o.push("->".into()); o.push(field.clone()) }
            E::FunctionCall { function, arguments } => {
                o.push(function.clone());
                o.push("(".into());
                for (i, a) in arguments.iter().enumerate() {
                    if i > 0 { o.push(",".into()) }
                    self.pe(a, 2, o);
                }
                o.push(")".into());
            }
            E::Ternary { condition, then_expr, else_expr } => { self.pe(condition, 4, o); o.push("?".into()); self.pe(then_expr, 2, o); o.push(":".into()); self.pe(else_expr, 3, o) }
            E::Cast { target_type, expr } => { o.push("(".into()); o.extend(self.decl(target_type, "")); o.push(")".into()); self.pe(expr, 14, o) }
            E::PostIncrement { operand } => { self.pe(operand, 15, o); o.push("++".into()) }
            E::PostDecrement { operand } => { self.pe(operand, 15, o); o.push("--".into()) }
            E::PreIncrement { operand } => { o.push("++".into()); self.pe(operand, 14, o) }
            E::PreDecrement { operand } => { o.push("--".into()); self.pe(operand, 14, o) }
            E::Sizeof { type_name } => { o.extend(["sizeof".to_string(), "(".into()]); o.extend(t(type_name)); o.push(")".into()) }
            E::CompoundLiteral { initializers, .. } => {
                o.push("{".into());
                for (i, a) in initializers.iter().enumerate() {
                    if i > 0 { o.push(",".into()) }
                    self.pe(a, 2, o);
                }
                if !self.plain && self.r.chance(0.2) { o.push(",".into()) }
                o.push("}".into());
            }
            other => panic!("generator: {other:?}"),
        }
        if paren {
            o.push(")".into());
        }
    }
    /// A declaration of `name` with this type.
    fn decl(&mut self, ty: &T, name: &str) -> Toks {
        let mut o = vec![];
        let mut tail = vec![];
        let mut stars = 0;
        let mut ty = ty.clone();
        loop {
            match ty {
                T::Pointer(x) => { stars += 1; ty = *x }
                T::Array { element_type, size } => { tail.push(size); ty = *element_type }
                T::FunctionPointer { ref param_types, ref return_type } => {
                    let r = (**return_type).clone();
                    let mut o = self.decl(&r, "");
                    o.extend(["(".to_string(), "*".into(), name.to_string(), ")".into(), "(".into()]);
                    for (i, p) in param_types.clone().iter().enumerate() {
                        if i > 0 { o.push(",".into()) }
                        o.extend(self.decl(p, ""));
                    }
                    if param_types.is_empty() { o.push("void".into()) }
                    o.push(")".into());
                    return o;
                }
                _ => break,
            }
        }
        o.extend(match &ty {
            T::Void => t("void"),
            T::Int => if self.plain { t("int") } else { t(*self.r.pick(&["int", "int", "int", "signed int", "signed"])) },
            T::UnsignedInt => if self.plain { t("unsigned int") } else { t(*self.r.pick(&["unsigned int", "unsigned", "int unsigned"])) },
            T::Float => t("float"),
            T::Double => t("double"),
            T::Char => t(if self.plain { "char" } else { *self.r.pick(&["char", "char", "unsigned char"]) }),
            T::SignedChar => t("signed char"),
            T::Struct(n) => vec!["struct".into(), n.clone()],
            T::TypeAlias(n) => vec![n.clone()],
            T::Bool => t("_Bool"),
            other => panic!("generator: {other:?}"),
        });
        for _ in 0..stars { o.push("*".into()) }
        if !name.is_empty() { o.push(name.to_string()) }
        for s in tail { o.push("[".into()); if let Some(n) = s { o.push(self.lit(n as i32)) } o.push("]".into()) }
        o
    }
    fn block(&mut self, v: &mut Env, n: usize, d: usize) -> Vec<S> {
        let keep = (v.ints.len(), v.arrays.len(), v.ptrs.len(), v.structs.len(), v.sptrs.len());
        let keep2 = (v.nested.len(), v.sarrs.len(), v.grids.len());
        let out = (0..n).map(|_| self.stmt(v, d)).collect();
        v.nested.truncate(keep2.0);
        v.sarrs.truncate(keep2.1);
        v.grids.truncate(keep2.2);
        v.ints.truncate(keep.0);
        v.arrays.truncate(keep.1);
        v.ptrs.truncate(keep.2);
        v.structs.truncate(keep.3);
        v.sptrs.truncate(keep.4);
        out
    }
    fn simple(&mut self, v: &Env) -> S {
        let x = self.r.pick(&v.ints).clone();
        match self.r.below(8) {
            0 => S::PostIncrement { target: x },
            1 => S::PreIncrement { target: x },
            2 => S::PostDecrement { target: x },
            3 => S::PreDecrement { target: x },
            4 => S::CompoundAssignment { target: x, op: *self.r.pick(&[B::Add, B::Subtract, B::Multiply, B::Divide, B::Modulo, B::BitwiseAnd, B::BitwiseOr, B::BitwiseXor, B::LeftShift, B::RightShift]), value: self.expr(v, 2) },
            _ => S::Assignment { target: x, value: self.expr(v, 3) },
        }
    }
    fn stmt(&mut self, v: &mut Env, d: usize) -> S {
        let k = self.r.below(if d == 0 { 13 } else { 22 });
        match k {
            0 | 1 => {
                v.n += 1;
                let name = format!("{}{}", self.r.pick(&["v", "n", "value_", "i"]), v.n);
                let init = if self.r.chance(0.7) { Some(self.expr(v, 3)) } else { None };
                v.ints.push(name.clone());
                S::VariableDeclaration { name, var_type: T::Int, initializer: init }
            }
            2 => {
                v.n += 1;
                match self.r.below(8) {
                    5 => { let name = format!("ne{}", v.n); v.nested.push(name.clone()); S::VariableDeclaration { name, var_type: T::Struct("SN".into()), initializer: None } }
                    6 => { let name = format!("sa{}", v.n); v.sarrs.push(name.clone()); S::VariableDeclaration { name, var_type: T::Array { element_type: Box::new(T::Struct("S0".into())), size: Some(self.r.range(1, 5)) }, initializer: None } }
                    7 => { let name = format!("gr{}", v.n); v.grids.push(name.clone()); S::VariableDeclaration { name, var_type: T::Array { element_type: Box::new(T::Array { element_type: Box::new(T::Int), size: Some(3) }), size: Some(2) }, initializer: None } }
                    0 => { let name = format!("arr{}", v.n); let n = self.r.range(1, 5); v.arrays.push((name.clone(), n)); S::VariableDeclaration { name, var_type: T::Array { element_type: Box::new(T::Int), size: Some(n) }, initializer: None } }
                    1 => { let name = format!("p{}", v.n); let x = self.r.pick(&v.ints).clone(); v.ptrs.push(name.clone()); S::VariableDeclaration { name, var_type: T::Pointer(Box::new(T::Int)), initializer: Some(E::UnaryOp { op: U::AddressOf, operand: Box::new(E::Variable(x)) }) } }
                    2 => { let name = format!("st{}", v.n); v.structs.push(name.clone()); S::VariableDeclaration { name, var_type: T::Struct("S0".into()), initializer: None } }
                    3 => { let name = format!("u{}", v.n); v.ints.push(name.clone()); S::VariableDeclaration { name, var_type: self.r.pick(&[T::UnsignedInt, T::Char]).clone(), initializer: Some(self.expr(v, 1)) } }
                    _ => { let name = format!("d{}", v.n); S::VariableDeclaration { name, var_type: self.r.pick(&[T::Double, T::Float]).clone(), initializer: Some(E::FloatLiteral(self.r.pick(&["0.5", "1.0", "3.25", "100.125"]).to_string())) } }
                }
            }
            3 if self.r.chance(0.5) && (!v.nested.is_empty() || !v.sarrs.is_empty() || !v.grids.is_empty()) => {
                let bx = |e| Box::new(e);
                let value = self.expr(v, 2);
                let i = self.expr(v, 1);
                if let (Some(n), true) = (v.nested.last(), self.r.chance(0.6)) {
                    let n = bx(E::Variable(n.clone()));
                    return match self.r.below(3) {
                        0 => S::FieldAssignment { object: E::FieldAccess { object: n, field: "in".into() }, field: "fx".into(), value },
                        1 => S::FieldAssignment { object: E::FieldAccess { object: n, field: "lk".into() }, field: "fy".into(), value },
                        _ => S::ArrayIndexAssignment { array: bx(E::FieldAccess { object: n, field: "w".into() }), index: bx(i), value },
                    };
                }
                if let (Some(a), true) = (v.sarrs.last(), self.r.chance(0.6)) {
                    return S::FieldAssignment { object: E::ArrayIndex { array: bx(E::Variable(a.clone())), index: bx(i) }, field: "fx".into(), value };
                }
                if let Some(a) = v.grids.last() {
                    let a = a.clone();
                    let j = self.expr(v, 1);
                    return S::ArrayIndexAssignment { array: bx(E::ArrayIndex { array: bx(E::Variable(a)), index: bx(i) }), index: bx(j), value };
                }
                self.simple(v)
            }
            3..=6 => self.simple(v),
            7 if !v.arrays.is_empty() => { let a = self.r.pick(&v.arrays).0.clone(); let i = self.expr(v, 1); S::ArrayIndexAssignment { array: Box::new(E::Variable(a)), index: Box::new(i), value: self.expr(v, 2) } }
            8 if !v.ptrs.is_empty() => { let p = self.r.pick(&v.ptrs).clone(); S::DerefAssignment { target: E::Variable(p), value: self.expr(v, 2) } }
            9 if !v.structs.is_empty() => { let p = self.r.pick(&v.structs).clone(); S::FieldAssignment { object: E::Variable(p), field: "fx".into(), value: self.expr(v, 2) } }
            10 if !v.sptrs.is_empty() => { let p = self.r.pick(&v.sptrs).clone(); S::FieldAssignment { object: E::Variable(p), field: "fy".into(), value: self.expr(v, 2) } }
            11 | 12 if !v.fns.is_empty() => { let (f, n) = self.r.pick(&v.fns).clone(); S::FunctionCall { function: f, arguments: (0..n).map(|_| self.expr(v, 2)).collect() } }
            13..=15 => {
                let c = self.expr(v, 2);
                let n = 1 + self.r.below(2);
                let a = self.block(v, n, d - 1);
                let e = if self.r.chance(0.5) { let n = 1 + self.r.below(2); Some(self.block(v, n, d - 1)) } else { None };
                S::If { condition: c, then_block: a, else_block: e }
            }
            16 | 17 => { let c = self.expr(v, 2); let keep = std::mem::replace(&mut v.loops, true); let n = 1 + self.r.below(3); let b = self.block(v, n, d - 1); v.loops = keep; S::While { condition: c, body: b } }
            18 if self.r.chance(0.3) => {
                let c = self.expr(v, 2);
                let kl = std::mem::replace(&mut v.loops, true);
                let n = 1 + self.r.below(3);
                let b = self.block(v, n, d - 1);
                v.loops = kl;
                // the form in which the parser keeps do { } while (c)
                let leave = S::If { condition: E::UnaryOp { op: U::LogicalNot, operand: Box::new(c) }, then_block: vec![S::Break], else_block: None };
                S::For { init: vec![], condition: None, increment: vec![leave], body: b }
            }
            18 | 19 => {
                v.n += 1;
                let keep = v.ints.len();
                let init = match self.r.below(4) {
                    0 => vec![],
                    1 => (0..1 + self.r.below(2)).map(|_| S::Assignment { target: self.r.pick(&v.ints).clone(), value: self.expr(v, 1) }).collect(),
                    _ => { let name = format!("k{}", v.n); let e = self.expr(v, 1); v.ints.push(name.clone()); vec![S::VariableDeclaration { name, var_type: T::Int, initializer: Some(e) }] }
                };
                let c = if self.r.chance(0.85) { Some(self.expr(v, 2)) } else { None };
                let inc = (0..*self.r.pick(&[1, 1, 1, 1, 2, 0])).map(|_| self.simple(v)).collect();
                let kl = std::mem::replace(&mut v.loops, true);
                let n = 1 + self.r.below(3);
                let b = self.block(v, n, d - 1);
                v.loops = kl;
                v.ints.truncate(keep);
                S::For { init, condition: c, increment: inc, body: b }
            }
            20 => {
                let c = self.expr(v, 2);
                let m = 1 + self.r.below(3);
                let keep = std::mem::replace(&mut v.loops, false);
                let mut cases: Vec<SwitchCase> = (0..m).map(|i| { let n = 1 + self.r.below(2); let mut b = self.flat(v, n, d - 1); b.push(S::Break); SwitchCase { value: Some(E::IntLiteral(i as i32 * 3)), body: b } }).collect();
                let def = if self.r.chance(0.6) { let mut b = self.flat(v, 1, d - 1); b.push(S::Break); Some(b) } else { None };
                v.loops = keep;
                if m > 1 && self.r.chance(0.3) {
                    let k = self.r.below(m - 1);
                    cases[k].body = cases[k + 1].body.clone(); // printed as stacked labels
                }
                S::Switch { condition: c, cases, default_case: def }
            }
            21 if v.loops => if self.r.chance(0.5) { S::Break } else { S::Continue },
            _ => S::Return(Some(self.expr(v, 3))),
        }
    }
    /// Statements that may follow a case label directly: no declarations.
    fn flat(&mut self, v: &mut Env, n: usize, d: usize) -> Vec<S> {
        (0..n).map(|_| loop {
            let keep = (v.ints.len(), v.arrays.len(), v.ptrs.len(), v.structs.len());
            let keep2 = (v.nested.len(), v.sarrs.len(), v.grids.len());
            let s = self.stmt(v, d);
            if matches!(s, S::VariableDeclaration { .. }) {
                v.nested.truncate(keep2.0);
                v.sarrs.truncate(keep2.1);
                v.grids.truncate(keep2.2);
                v.ints.truncate(keep.0);
                v.arrays.truncate(keep.1);
                v.ptrs.truncate(keep.2);
                v.structs.truncate(keep.3);
                continue;
            }
            break s;
        }).collect()
    }
    fn body(&mut self, b: &[S], o: &mut Toks) {
        // a single statement may stand without braces
        let bare = !self.plain && b.len() == 1 && !matches!(b[0], S::VariableDeclaration { .. } | S::If { .. }) && self.r.chance(0.3);
        if bare {
            self.ps(&b[0], o);
        } else {
            o.push("{".into());
            self.pss(b, o);
            o.push("}".into());
        }
    }
    /// Statements in a row; some stand as operands of a comma, some share a declaration.
    fn pss(&mut self, b: &[S], o: &mut Toks) {
        let commas = |s: &S| matches!(s, S::Assignment { .. } | S::CompoundAssignment { .. } | S::PostIncrement { .. } | S::PreIncrement { .. } | S::PostDecrement { .. } | S::PreDecrement { .. } | S::FunctionCall { .. } | S::DerefAssignment { .. } | S::ArrayIndexAssignment { .. } | S::FieldAssignment { .. });
        fn base(t: &T) -> Option<(usize, Option<i64>)> {
            match t { T::Int => Some((0, None)), T::Pointer(x) if **x == T::Int => Some((1, None)), T::Array { element_type, size } if **element_type == T::Int => Some((0, *size)), _ => None }
        }
        let mut i = 0;
        while i < b.len() {
            let join = !self.plain && i + 1 < b.len() && self.r.chance(0.25);
            if join && commas(&b[i]) && commas(&b[i + 1]) {
                self.head(&b[i], o);
                o.push(",".into());
                self.head(&b[i + 1], o);
                o.push(";".into());
                i += 2;
                continue;
            }
            if let (true, S::VariableDeclaration { var_type: a, .. }, Some(S::VariableDeclaration { var_type: c, name, initializer })) = (join, &b[i], b.get(i + 1)) {
                if let (Some(_), Some((stars, size))) = (base(a), base(c)) {
                    self.head(&b[i], o);
                    o.push(",".into());
                    for _ in 0..stars { o.push("*".into()) }
                    o.push(name.clone());
                    if let Some(n) = size { o.extend(["[".to_string(), n.to_string(), "]".into()]) }
                    if let Some(e) = initializer { o.push("=".into()); self.pe(e, 2, o) }
                    o.push(";".into());
                    i += 2;
                    continue;
                }
            }
            self.ps(&b[i], o);
            i += 1;
        }
    }
    /// A statement without its semicolon where a for header takes one.
    fn head(&mut self, s: &S, o: &mut Toks) {
        match s {
            S::VariableDeclaration { name, var_type, initializer } => {
                o.extend(self.decl(var_type, name));
                if let Some(e) = initializer {
                    o.push("=".into());
                    self.pe(e, 2, o);
                }
            }
            S::Assignment { target, value } => { o.extend([target.clone(), "=".into()]); self.pe(value, 2, o) }
            S::CompoundAssignment { target, op, value } => { o.extend([target.clone(), format!("{}=", sym(*op))]); self.pe(value, 2, o) }
            S::PostIncrement { target } => o.extend([target.clone(), "++".into()]),
            S::PostDecrement { target } => o.extend([target.clone(), "--".into()]),
            S::PreIncrement { target } => o.extend(["++".into(), target.clone()]),
            S::PreDecrement { target } => o.extend(["--".into(), target.clone()]),
            S::DerefAssignment { target, value } => { o.push("*".into()); self.pe(target, 14, o); o.push("=".into()); self.pe(value, 2, o) }
            S::ArrayIndexAssignment { array, index, value } => { self.pe(array, 15, o); o.push("[".into()); self.pe(index, 1, o); o.extend(["]".to_string(), "=".into()]); self.pe(value, 2, o) }
            S::FunctionCall { function, arguments } => self.pe(&E::FunctionCall { function: function.clone(), arguments: arguments.clone() }, 15, o),
            S::Return(Some(e)) => { o.push("return".into()); self.pe(e, 1, o) }
            S::Return(None) => o.push("return".into()),
            S::Break => o.push("break".into()),
            S::Continue => o.push("continue".into()),
            S::FieldAssignment { object, field, value } => {
                self.pe(object, 15, o);
                let arrow = matches!(object, E::Variable(n) if n.starts_with("sp")) || matches!(object, E::FieldAccess { field, .. } if field == "lk");
                o.push(if arrow { "->" } else { "." }.into());
                o.extend([field.clone(), "=".into()]);
                self.pe(value, 2, o);
            }
            other => panic!("generator: {other:?}"),
        }
    }
    fn ps(&mut self, s: &S, o: &mut Toks) {
        match s {
            S::If { condition, then_block, else_block } => {
                o.extend(["if".to_string(), "(".into()]);
                self.pe(condition, 1, o);
                o.push(")".into());
                self.body(then_block, o);
                if let Some(e) = else_block {
                    o.push("else".into());
                    if e.len() == 1 && matches!(e[0], S::If { .. }) && self.r.chance(0.6) { self.ps(&e[0], o) } else { self.body(e, o) }
                }
            }
            S::While { condition, body } => { o.extend(["while".to_string(), "(".into()]); self.pe(condition, 1, o); o.push(")".into()); self.body(body, o) }
            S::For { increment, body, .. } if matches!(increment.first(), Some(S::If { .. })) => {
                let Some(S::If { condition: E::UnaryOp { operand, .. }, .. }) = increment.first() else { unreachable!() };
                o.push("do".into());
                self.body(body, o);
                o.extend(["while".to_string(), "(".into()]);
                self.pe(operand, 1, o);
                o.extend([")".to_string(), ";".into()]);
            }
            S::For { init, condition, increment, body } => {
                o.extend(["for".to_string(), "(".into()]);
                for (i, s) in init.iter().enumerate() { if i > 0 { o.push(",".into()) } self.head(s, o) }
                o.push(";".into());
                if let Some(c) = condition { self.pe(c, 1, o) }
                o.push(";".into());
                for (i, s) in increment.iter().enumerate() { if i > 0 { o.push(",".into()) } self.head(s, o) }
                o.push(")".into());
                self.body(body, o);
            }
            S::Switch { condition, cases, default_case } => {
                o.extend(["switch".to_string(), "(".into()]);
                self.pe(condition, 1, o);
                o.extend([")".to_string(), "{".into()]);
                for (i, c) in cases.iter().enumerate() {
                    o.push("case".into());
                    self.pe(c.value.as_ref().unwrap(), 3, o);
                    o.push(":".into());
                    if cases.get(i + 1).is_some_and(|n| n.body == c.body) { continue }
                    self.pss(&c.body, o);
                }
                if let Some(b) = default_case {
                    o.extend(["default".to_string(), ":".into()]);
                    self.pss(b, o);
                }
                o.push("}".into());
            }
            s => { self.head(s, o); o.push(";".into()) }
        }
    }
    /// Joins tokens with blanks, newlines and comments.
    fn join(&mut self, toks: &Toks) -> String {
        let mut s = String::new();
        let solid = |c: char| "(){};,[]?:~".contains(c);
        for (i, t) in toks.iter().enumerate() {
            if i > 0 {
                let (a, b) = (s.chars().last().unwrap(), t.chars().next().unwrap());
                let can = solid(a) || solid(b) || (a.is_alphanumeric() && "+-*/%<>=!&|^.".contains(b) && b != '.') || ("+-*/%<>=!&|^".contains(a) && b.is_alphanumeric());
                if self.plain {
                    s.push(if t == "}" || toks[i - 1] == "}" || toks[i - 1] == ";" || toks[i - 1] == "{" { '\n' } else { ' ' });
                } else {
                    match self.r.below(24) {
                        0 => s.push_str("  "),
                        1 => s.push('\t'),
                        2 => s.push_str("\n  "),
                        3 => s.push_str(*self.r.pick(&[" /* c */ ", " /* a = b + c; */ ", " /* ) && ( */ ", " /* x++ -> y */ ", " /* \" ' */ ", " /**/ ", " /* == != <= */ ", " /* é */ "])),
                        4 => s.push_str(*self.r.pick(&[" // line: a - b;\n", " // \"\n", " // if (x) { y = 1; }\n"])),
                        5..=11 if can => {}
                        _ => s.push(' '),
                    }
                }
            }
            s.push_str(t);
        }
        s.push('\n');
        s
    }
}

#[derive(Default)]
struct Want {
    structs: Vec<(String, Vec<(String, T)>)>,
    enums: Vec<(String, Vec<(String, i64)>)>,
    vars: Vec<(String, T, Option<E>, bool, bool, bool)>,
    typedefs: Vec<String>,
    fns: Vec<(String, T, Vec<Parameter>, Vec<S>)>,
}

/// A random file: what is in it, its tokens, and one spelling.
fn generate(r: &mut Rng) -> (Want, Toks, String) {
    let plain = r.chance(0.1);
    let mut g = Gen { r, plain };
    let mut w = Want::default();
    let mut toks: Toks = vec![];
    // declarations
    w.structs.push(("S0".into(), vec![("fx".into(), T::Int), ("fy".into(), T::Int)]));
    toks.extend(t("struct S0 { int fx ; int fy ; } ;"));
    w.structs.push(("SN".into(), vec![("in".into(), T::Struct("S0".into())), ("lk".into(), T::Pointer(Box::new(T::Struct("S0".into())))), ("w".into(), T::Array { element_type: Box::new(T::Int), size: Some(3) })]));
    toks.extend(t("struct SN { struct S0 in ; struct S0 * lk ; int w [ 3 ] ; } ;"));
    toks.extend(t("int sink ( char * text ) { return 0 ; }"));
    w.fns.push(("sink".into(), T::Int, vec![Parameter::new("text".into(), T::Pointer(Box::new(T::Char)))], vec![S::Return(Some(E::IntLiteral(0)))]));
    for k in 1..1 + g.r.below(3) {
        let n = 1 + g.r.below(5);
        let name = format!("S{k}");
        if g.r.chance(0.3) {
            toks.extend(["struct".into(), name.clone(), ";".into()]);
        }
        let fields: Vec<(String, T)> = (0..n).map(|j| (format!("f{j}"), match g.r.below(10) {
            0 => T::UnsignedInt, 1 => T::Char, 2 => T::Double, 3 => T::Float, 4 => T::Pointer(Box::new(T::Int)), 5 => T::Pointer(Box::new(T::Struct(name.clone()))),
            6 => T::Array { element_type: Box::new(T::Int), size: Some(g.r.range(1, 40)) }, 7 => T::Struct("S0".into()),
            8 => T::FunctionPointer { param_types: vec![T::Int, T::Int], return_type: Box::new(T::Int) }, _ => T::Int })).collect();
        toks.extend(["struct".into(), name.clone(), "{".into()]);
        for (f, ty) in &fields {
            toks.extend(g.decl(ty, f));
            toks.push(";".into());
        }
        toks.extend(t("} ;"));
        w.structs.push((name, fields));
    }
    for k in 0..g.r.below(3) {
        let name = format!("E{k}");
        let mut next = 0;
        let mut vs = vec![];
        toks.extend(["enum".into(), name.clone(), "{".into()]);
        for j in 0..1 + g.r.below(5) {
            let cn = format!("E{k}_{j}");
            if j > 0 { toks.push(",".into()) }
            toks.push(cn.clone());
            if g.r.chance(0.4) {
                next = g.r.range(-20, 1000);
                toks.push("=".into());
                if next < 0 { toks.push("-".into()) }
                toks.push(next.abs().to_string());
            }
            vs.push((cn, next));
            next += 1;
        }
        toks.extend(t("} ;"));
        w.enums.push((name, vs));
    }
    let mut env = Env { ints: vec![], arrays: vec![], ptrs: vec![], structs: vec![], sptrs: vec![], nested: vec![], sarrs: vec![], grids: vec![], fns: vec![], loops: false, n: 0 };
    for k in 0..g.r.below(5) {
        let name = format!("g{k}");
        let (st, ex, co) = match g.r.below(5) { 0 => (true, false, false), 1 => (false, true, false), 2 => (false, false, true), 3 => (true, false, true), _ => (false, false, false) };
        let ty = match g.r.below(6) { 0 => T::UnsignedInt, 1 => T::Double, 2 => T::Array { element_type: Box::new(T::Int), size: Some(4) }, _ => T::Int };
        let init = if ex || matches!(ty, T::Array { .. }) || g.r.chance(0.4) { None } else if ty == T::Double { Some(E::FloatLiteral("2.5".into())) } else { Some(E::IntLiteral(g.r.range(0, 99) as i32)) };
        if st { toks.push("static".into()) }
        if ex { toks.push("extern".into()) }
        if co { toks.push("const".into()) }
        toks.extend(g.decl(&ty, &name));
        if let Some(e) = &init {
            toks.push("=".into());
            g.pe(e, 2, &mut toks);
        }
        toks.push(";".into());
        if ty == T::Int && !co { env.ints.push(name.clone()) }
        w.vars.push((name, ty, init, st, ex, co));
    }
    for k in 0..g.r.below(3) {
        let name = format!("alias{k}");
        let ty = match g.r.below(4) { 0 => T::UnsignedInt, 1 => T::Pointer(Box::new(T::Int)), 2 => T::Struct("S0".into()), _ => T::Int };
        toks.push("typedef".into());
        toks.extend(g.decl(&ty, &name));
        toks.push(";".into());
        w.typedefs.push(name);
    }
    // functions
    let nf = 1 + g.r.below(4);
    let globals = env.ints.len();
    for k in 0..nf {
        let name = format!("fun{k}");
        let np = g.r.below(4);
        let mut params = vec![];
        env.ints.truncate(globals);
        (env.arrays, env.ptrs, env.structs, env.sptrs) = (vec![], vec![], vec![], vec![]);
        (env.nested, env.sarrs, env.grids) = (vec![], vec![], vec![]);
        let mut allint = true;
        for j in 0..np {
            let (pn, ty) = match g.r.below(8) {
                0 => (format!("ptr{j}"), T::Pointer(Box::new(T::Int))),
                1 => (format!("sp{j}"), T::Pointer(Box::new(T::Struct("S0".into())))),
                2 => (format!("ch{j}"), T::Char),
                3 => (format!("sv{j}"), T::Struct("S0".into())),
                _ => (format!("a{j}"), T::Int),
            };
            match &ty {
                T::Int => env.ints.push(pn.clone()),
                T::Char => { allint = false; env.ints.push(pn.clone()) }
                T::Struct(_) => { allint = false; env.structs.push(pn.clone()) }
                T::Pointer(x) if **x == T::Int => { allint = false; env.ptrs.push(pn.clone()) }
                _ => { allint = false; env.sptrs.push(pn.clone()) }
            }
            params.push(Parameter::new(pn, ty));
        }
        if env.ints.is_empty() {
            env.n += 1;
        }
        let mut body = vec![];
        if env.ints.len() == globals {
            // something to compute with
            env.n += 1;
            let n0 = format!("v{}", env.n);
            body.push(S::VariableDeclaration { name: n0.clone(), var_type: T::Int, initializer: Some(E::IntLiteral(1)) });
            env.ints.push(n0);
        }
        let sig = |g: &mut Gen, o: &mut Toks| {
            let ps: Vec<Parameter> = params.clone();
            o.extend(g.decl(&T::Int, &name));
            o.push("(".into());
            for (j, p) in ps.iter().enumerate() {
                if j > 0 { o.push(",".into()) }
                o.extend(g.decl(&p.param_type, &p.name));
            }
            if ps.is_empty() { o.push("void".into()) }
            o.push(")".into());
        };
        for _ in 0..1 + g.r.below(6) {
            let d = g.r.below(3);
            body.push(g.stmt(&mut env, d));
        }
        body.push(S::Return(Some(g.expr(&env, 2))));
        sig(&mut g, &mut toks);
        toks.push("{".into());
        g.pss(&body, &mut toks);
        toks.push("}".into());
        if allint {
            env.fns.push((name.clone(), np));
        }
        w.fns.push((name, T::Int, params, body));
    }
    let src = g.join(&toks);
    (w, toks, src)
}

/// Functions (name, result, parameters, body) of a random file, and the file.
pub fn random_functions(r: &mut Rng) -> (Vec<(String, T, Vec<Parameter>, Vec<S>)>, String) {
    let (w, _, src) = generate(r);
    (w.fns, src)
}

pub fn random_source(r: &mut Rng) -> String {
    generate(r).2
}

pub fn run(rep: &mut Report) {
    let cap = if rep.quick { 4_000 } else { 200_000 };
    let mut r = rep.rng(7);
    let parser = CParser::new().unwrap();
    let mut i = 0;
    while rep.more(i, cap) {
        i += 1;
        let (w, toks, src) = generate(&mut r);
        let ast = match guard(|| parser.parse(&src)) {
            Ok(Ok(a)) => a,
            Ok(Err(e)) => {
                rep.count("rejected");
                if !valid(&rep.scratch, &src) { rep.count("generator_invalid"); if rep.counts["generator_invalid"] < 3 { rep.sample(format!("{e:#}\n{src}")); } continue; }
                rep.violation(format!("valid C is rejected: {e:#}"), &[("p.c", src)]);
                continue;
            }
            Err(e) => { rep.violation(format!("the parser panics: {e}"), &[("p.c", src)]); continue }
        };
        rep.saw(&src);
        rep.add("statements", toks.iter().filter(|t| *t == ";").count() as u64);
        rep.add("functions", w.fns.len() as u64 - 1);
        if let Err(e) = compare(&w, &ast) {
            rep.violation(e, &[("p.c", src.clone()), ("ast.txt", format!("{ast:#?}"))]);
        }
        // another spelling of the same tokens gives the same tree
        if r.chance(0.3) {
            let src2 = Gen { r: &mut r, plain: false }.join(&toks);
            match guard(|| parser.parse(&src2)) {
                Ok(Ok(b)) => { rep.count("respelled"); if format!("{b:?}") != format!("{ast:?}") { rep.violation("the same tokens with other blanks and comments give another tree", &[("p.c", src.clone()), ("q.c", src2)]) } }
                _ => rep.violation("the same tokens with other blanks and comments are rejected", &[("p.c", src.clone()), ("q.c", src2)]),
            }
        }
        if i % 1500 == 1 {
            rep.sample(src);
        }
    }
}

pub fn is_valid(dir: &std::path::Path, src: &str) -> bool {
    valid(dir, src)
}

fn valid(dir: &std::path::Path, src: &str) -> bool {
    let p = dir.join("v.c");
    std::fs::write(&p, src).unwrap();
    std::process::Command::new("clang").args(["-fsyntax-only", "-w"]).arg(&p).output().map(|o| o.status.success()).unwrap_or(false)
}

fn compare(w: &Want, a: &decy_parser::parser::Ast) -> Result<(), String> {
    if a.structs().len() != w.structs.len() {
        return Err(format!("{} structs, {} read", w.structs.len(), a.structs().len()));
    }
    for (n, fields) in &w.structs {
        let s = a.structs().iter().find(|s| s.name() == n).ok_or(format!("struct {n} is missing"))?;
        let got: Vec<(String, T)> = s.fields().iter().map(|f| (f.name().to_string(), f.field_type.clone())).collect();
        if &got != fields {
            return Err(format!("struct {n} has {fields:?}, read {got:?}"));
        }
    }
    if a.enums().len() != w.enums.len() {
        return Err(format!("{} enums, {} read", w.enums.len(), a.enums().len()));
    }
    for ((n, vs), e) in w.enums.iter().zip(a.enums()) {
        let got: Vec<(String, Option<i64>)> = e.variants.iter().map(|v| (v.name.clone(), v.value)).collect();
        if &e.name != n || got.len() != vs.len() || got.iter().zip(vs).any(|(g, v)| g.0 != v.0 || g.1 != Some(v.1)) {
            return Err(format!("enum {n} has {vs:?}, read {} {got:?}", e.name));
        }
    }
    if a.variables().len() != w.vars.len() {
        return Err(format!("{} globals, {} read", w.vars.len(), a.variables().len()));
    }
    for ((n, ty, init, st, ex, co), v) in w.vars.iter().zip(a.variables()) {
        // an array without initializer carries its size there, and the const of its elements is not kept
        let array = matches!(ty, T::Array { .. });
        let same_init = v.initializer() == init.as_ref() || (array && init.is_none() && matches!(v.initializer(), Some(E::IntLiteral(_))));
        if v.name() != n || v.var_type() != ty || !same_init || v.is_static() != *st || v.is_extern() != *ex || (v.is_const() != *co && !array) {
            return Err(format!("global {n} {ty:?} = {init:?} static {st} extern {ex} const {co}, read {v:?}"));
        }
    }
    let got: Vec<&str> = a.typedefs().iter().map(|t| t.name()).collect();
    if got != w.typedefs.iter().map(String::as_str).collect::<Vec<_>>() {
        return Err(format!("typedefs {:?}, read {got:?}", w.typedefs));
    }
    if a.functions().len() != w.fns.len() {
        return Err(format!("{} functions, {} read", w.fns.len(), a.functions().len()));
    }
    for ((n, ret, params, body), f) in w.fns.iter().zip(a.functions()) {
        if &f.name != n || &f.return_type != ret || &f.parameters != params {
            return Err(format!("function {n}{params:?} -> {ret:?}, read {}{:?} -> {:?}", f.name, f.parameters, f.return_type));
        }
        if let Some((x, y)) = diff_block(body, &f.body) {
            return Err(format!("in {n}: written {x}\nread {y}"));
        }
    }
    Ok(())
}

/// The innermost statement that differs.
fn diff_block(a: &[S], b: &[S]) -> Option<(String, String)> {
    for (x, y) in a.iter().zip(b) {
        if x == y {
            continue;
        }
        let inner = match (x, y) {
            (S::If { condition: c, then_block: p, else_block: q }, S::If { condition: c2, then_block: p2, else_block: q2 }) if c == c2 =>
                diff_block(p, p2).or_else(|| match (q, q2) { (Some(q), Some(q2)) => diff_block(q, q2), _ => None }),
            (S::While { condition: c, body: p }, S::While { condition: c2, body: p2 }) if c == c2 => diff_block(p, p2),
            (S::For { init: i, condition: c, increment: n, body: p }, S::For { init: i2, condition: c2, increment: n2, body: p2 }) if c == c2 && i == i2 && n == n2 => diff_block(p, p2),
            _ => None,
        };
        return Some(inner.unwrap_or_else(|| (format!("{x:?}"), format!("{y:?}"))));
    }
    if a.len() != b.len() {
        return Some((format!("{} statements {:?}", a.len(), a.get(b.len())), format!("{} statements {:?}", b.len(), b.get(a.len()))));
    }
    None
}
