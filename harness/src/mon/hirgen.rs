//! Random HIR function bodies and an interpreter of them with C semantics.
use crate::rt::Rng;
use decy_hir::{BinaryOperator as B, HirExpression as E, HirStatement as S, HirType as T, SwitchCase, UnaryOperator as U};
use std::collections::HashMap;

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub vars: Vec<String>,
    pub n: usize,
    pub lits: bool, // mostly literals
}

pub const ARR: usize = 4;

impl Gen<'_> {
    pub fn lit(&mut self) -> i32 {
        let r = &mut self.r;
        match r.below(12) {
            0 => *r.pick(&[i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 1 << 30, -(1 << 30), 65536, 46341]),
            1 => r.range(-1000, 1000) as i32,
            2 => 0,
            3 => 1,
            4 => -1,
            5 => *r.pick(&[31, 32, 33, 30, 7, 255]),
            _ => r.range(-9, 12) as i32,
        }
    }
    pub fn expr(&mut self, d: usize) -> E {
        let k = self.r.below(if d == 0 { 5 } else { 26 });
        let lits = self.lits;
        match k {
            0 | 1 => E::IntLiteral(self.lit()),
            2 => if lits || self.vars.is_empty() { E::IntLiteral(self.lit()) } else { E::Variable(self.r.pick(&self.vars).clone()) },
            3 => if lits { E::IntLiteral(self.lit()) } else { E::FieldAccess { object: Box::new(E::Variable("s".into())), field: self.r.pick(&["x", "y"]).to_string() } },
            4 => if lits { E::IntLiteral(self.lit()) } else { E::Dereference(Box::new(E::Variable("p".into()))) },
            5..=15 => {
                let op = *self.r.pick(&[B::Add, B::Subtract, B::Multiply, B::Divide, B::Modulo, B::LeftShift, B::RightShift, B::BitwiseAnd, B::BitwiseOr,
                                        B::BitwiseXor, B::Equal, B::NotEqual, B::LessThan, B::GreaterThan, B::LessEqual, B::GreaterEqual, B::LogicalAnd, B::LogicalOr, B::Comma]);
                let l = self.expr(d - 1);
                let r = if matches!(op, B::LeftShift | B::RightShift) && self.r.chance(0.8) { E::IntLiteral(self.r.range(0, 8) as i32) } else { self.expr(d - 1) };
                E::BinaryOp { op, left: Box::new(l), right: Box::new(r) }
            }
            16..=18 => E::UnaryOp { op: *self.r.pick(&[U::Minus, U::LogicalNot, U::BitwiseNot]), operand: Box::new(self.expr(d - 1)) },
            19 => E::FunctionCall { function: "trace".into(), arguments: (0..1 + self.r.below(2)).map(|_| self.expr(d - 1)).collect() },
            20 => E::Ternary { condition: Box::new(self.expr(d - 1)), then_expr: Box::new(self.expr(d - 1)), else_expr: Box::new(self.expr(d - 1)) },
            21 => E::Cast { target_type: T::Int, expr: Box::new(self.expr(d - 1)) },
            22 if !self.vars.is_empty() => {
                let o = Box::new(E::Variable(self.r.pick(&self.vars).clone()));
                match self.r.below(4) {
                    0 => E::PostIncrement { operand: o },
                    1 => E::PreIncrement { operand: o },
                    2 => E::PostDecrement { operand: o },
                    _ => E::PreDecrement { operand: o },
                }
            }
            23 => E::ArrayIndex { array: Box::new(E::Variable("arr".into())), index: Box::new(E::IntLiteral(self.r.below(ARR) as i32)) },
            24 => E::CharLiteral(self.r.range(-3, 100) as i8),
            _ => E::IntLiteral(self.lit()),
        }
    }
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("v{}", self.n)
    }
    pub fn block(&mut self, n: usize, d: usize, in_loop: bool) -> Vec<S> {
        let keep = self.vars.len();
        let out = self.stmts(n, d, in_loop);
        self.vars.truncate(keep);
        out
    }
    pub fn stmts(&mut self, n: usize, d: usize, in_loop: bool) -> Vec<S> {
        let mut out = vec![];
        for _ in 0..n {
            self.stmt(d, in_loop, &mut out);
        }
        out
    }
    fn cond(&mut self) -> E {
        if self.r.chance(0.35) {
            // what the passes look for: constant conditions, also after folding
            let keep = std::mem::replace(&mut self.lits, true);
            let d = self.r.below(3);
            let e = self.expr(d);
            self.lits = keep;
            e
        } else {
            self.expr(2)
        }
    }
    fn stmt(&mut self, d: usize, in_loop: bool, out: &mut Vec<S>) {
        let k = self.r.below(if d == 0 { 12 } else { 24 });
        match k {
            0..=2 => {
                let init = if self.r.chance(0.85) { Some(self.expr(3)) } else { None };
                let name = self.fresh();
                let decl = S::VariableDeclaration { name: name.clone(), var_type: T::Int, initializer: init.clone() };
                out.push(decl);
                if init.is_none() {
                    let value = self.expr(1);
                    out.push(S::Assignment { target: name.clone(), value });
                }
                self.vars.push(name.clone());
                if self.r.chance(0.15) {
                    let again = self.r.chance(0.3);
                    out.push(S::Return(Some(E::Variable(name.clone()))));
                    if again {
                        out.push(S::Expression(E::FunctionCall { function: "trace".into(), arguments: vec![E::Variable(name)] }));
                    }
                }
            }
            3 | 4 if !self.vars.is_empty() => {
                let target = self.r.pick(&self.vars).clone();
                let value = self.expr(3);
                out.push(S::Assignment { target, value });
            }
            5 | 6 => {
                let arguments = vec![self.expr(2)];
                out.push(S::Expression(E::FunctionCall { function: "trace".into(), arguments }));
            }
            7 => {
                let value = self.expr(2);
                out.push(S::DerefAssignment { target: E::Variable("p".into()), value });
            }
            8 => {
                let value = self.expr(2);
                let index = Box::new(E::IntLiteral(self.r.below(ARR) as i32));
                out.push(S::ArrayIndexAssignment { array: Box::new(E::Variable("arr".into())), index, value });
            }
            9 => {
                let value = self.expr(2);
                let field = self.r.pick(&["x", "y"]).to_string();
                out.push(S::FieldAssignment { object: E::Variable("s".into()), field, value });
            }
            10 if self.r.chance(0.4) => {
                let e = self.expr(3);
                out.push(S::Return(Some(e)));
            }
            11 => {
                let e = self.expr(3);
                out.push(S::Expression(e));
            }
            12..=16 => {
                let condition = self.cond();
                let (a, b) = (1 + self.r.below(3), 1 + self.r.below(2));
                let then_block = self.block(a, d - 1, in_loop);
                let else_block = if self.r.chance(0.5) { Some(self.block(b, d - 1, in_loop)) } else { None };
                out.push(S::If { condition, then_block, else_block });
            }
            17 | 18 => {
                // bounded by a counter of its own
                let c = self.fresh();
                out.push(S::VariableDeclaration { name: c.clone(), var_type: T::Int, initializer: Some(E::IntLiteral(0)) });
                let lim = self.r.range(1, 4) as i32;
                let bound = E::BinaryOp { op: B::LessThan, left: Box::new(E::Variable(c.clone())), right: Box::new(E::IntLiteral(lim)) };
                let condition = match self.r.below(4) {
                    0 => self.cond(),
                    1 => E::BinaryOp { op: B::LogicalAnd, left: Box::new(bound.clone()), right: Box::new(self.cond()) },
                    _ => bound.clone(),
                };
                let mut body = vec![S::Assignment { target: c.clone(), value: E::BinaryOp { op: B::Add, left: Box::new(E::Variable(c.clone())), right: Box::new(E::IntLiteral(1)) } }];
                body.push(S::If { condition: E::BinaryOp { op: B::GreaterThan, left: Box::new(E::Variable(c)), right: Box::new(E::IntLiteral(6)) }, then_block: vec![S::Break], else_block: None });
                let n = 1 + self.r.below(3);
                body.extend(self.block(n, d - 1, true));
                out.push(S::While { condition, body });
            }
            19 | 20 => {
                let c = self.fresh();
                let lim = self.r.range(0, 4) as i32;
                let init = vec![S::VariableDeclaration { name: c.clone(), var_type: T::Int, initializer: Some(self.expr_lits()) }];
                let condition = Some(E::BinaryOp { op: B::LessThan, left: Box::new(E::Variable(c.clone())), right: Box::new(E::IntLiteral(lim)) });
                let increment = vec![if self.r.chance(0.5) {
                    S::Assignment { target: c.clone(), value: E::BinaryOp { op: B::Add, left: Box::new(E::Variable(c)), right: Box::new(E::IntLiteral(1)) } }
                } else {
                    S::Expression(E::PostIncrement { operand: Box::new(E::Variable(c)) })
                }];
                let n = 1 + self.r.below(3);
                let body = self.block(n, d - 1, true);
                out.push(S::For { init, condition, increment, body });
            }
            21 => {
                let condition = self.expr(2);
                let mut cases = vec![];
                for v in 0..1 + self.r.below(3) as i32 {
                    let n = 1 + self.r.below(2);
                    let mut body = self.block(n, 0, false);
                    if self.r.chance(0.8) {
                        body.push(S::Break);
                    }
                    cases.push(SwitchCase { value: Some(E::IntLiteral(v)), body });
                }
                let default_case = if self.r.chance(0.6) { Some(self.block(1, 0, false)) } else { None };
                out.push(S::Switch { condition, cases, default_case });
            }
            22 if in_loop => out.push(if self.r.chance(0.5) { S::Break } else { S::Continue }),
            _ => {
                let c = self.expr(1);
                out.push(S::Expression(E::FunctionCall { function: "trace".into(), arguments: vec![c] }));
            }
        }
    }
    fn expr_lits(&mut self) -> E {
        let keep = std::mem::replace(&mut self.lits, true);
        let d = self.r.below(2);
        let e = self.expr(d);
        self.lits = keep;
        e
    }
}

/// How a run ended.
#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Ret(Option<i32>),
    Undefined(&'static str),
    Fuel,
}

enum Flow { Next, Break, Continue, Ret(Option<i32>) }

pub struct Interp {
    pub env: HashMap<String, i32>,
    pub events: Vec<Vec<i32>>,
    pub fuel: u64,
}

type R<X> = Result<X, End>;

impl Interp {
    pub fn new(params: &[(&str, i32)]) -> Self {
        let mut env: HashMap<String, i32> = params.iter().map(|(n, v)| (n.to_string(), *v)).collect();
        for i in 0..ARR {
            env.insert(format!("arr[{i}]"), i as i32 * 3);
        }
        env.insert("s.x".into(), 5);
        env.insert("s.y".into(), -2);
        env.insert("*p".into(), 9);
        Interp { env, events: vec![], fuel: 20_000 }
    }
    pub fn run(&mut self, body: &[S]) -> End {
        match self.block(body) {
            Ok(Flow::Ret(v)) => End::Ret(v),
            Ok(_) => End::Ret(None),
            Err(e) => e,
        }
    }
    fn block(&mut self, b: &[S]) -> R<Flow> {
        for s in b {
            match self.stmt(s)? {
                Flow::Next => {}
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }
    fn tick(&mut self) -> R<()> {
        if self.fuel == 0 {
            return Err(End::Fuel);
        }
        self.fuel -= 1;
        Ok(())
    }
    fn stmt(&mut self, s: &S) -> R<Flow> {
        self.tick()?;
        match s {
            S::VariableDeclaration { name, initializer, .. } => {
                match initializer {
                    Some(e) => {
                        let v = self.expr(e)?;
                        self.env.insert(name.clone(), v);
                    }
                    None => {
                        self.env.remove(name);
                    }
                }
            }
            S::Return(e) => return Ok(Flow::Ret(match e { Some(e) => Some(self.expr(e)?), None => None })),
            S::If { condition, then_block, else_block } => {
                return if self.expr(condition)? != 0 { self.block(then_block) } else if let Some(b) = else_block { self.block(b) } else { Ok(Flow::Next) };
            }
            S::While { condition, body } => {
                while self.expr(condition)? != 0 {
                    self.tick()?;
                    match self.block(body)? {
                        Flow::Break => break,
                        Flow::Ret(v) => return Ok(Flow::Ret(v)),
                        _ => {}
                    }
                }
            }
            S::For { init, condition, increment, body } => {
                for i in init {
                    self.stmt(i)?;
                }
                loop {
                    self.tick()?;
                    if let Some(c) = condition {
                        if self.expr(c)? == 0 {
                            break;
                        }
                    }
                    match self.block(body)? {
                        Flow::Break => break,
                        Flow::Ret(v) => return Ok(Flow::Ret(v)),
                        _ => {}
                    }
                    for i in increment {
                        self.stmt(i)?;
                    }
                }
            }
            S::Switch { condition, cases, default_case } => {
                let v = self.expr(condition)?;
                let mut hit = None;
                for (i, c) in cases.iter().enumerate() {
                    if let Some(e) = &c.value {
                        if self.expr(e)? == v {
                            hit = Some(i);
                            break;
                        }
                    }
                }
                let bodies: Vec<&[S]> = match hit {
                    Some(i) => cases[i..].iter().map(|c| c.body.as_slice()).chain(default_case.iter().map(|d| d.as_slice())).collect(),
                    None => default_case.iter().map(|d| d.as_slice()).collect(),
                };
                for b in bodies {
                    match self.block(b)? {
                        Flow::Break => return Ok(Flow::Next),
                        Flow::Next => {}
                        f => return Ok(f),
                    }
                }
            }
            S::Break => return Ok(Flow::Break),
            S::Continue => return Ok(Flow::Continue),
            S::Assignment { target, value } => {
                let v = self.expr(value)?;
                self.env.insert(target.clone(), v);
            }
            S::DerefAssignment { value, .. } => {
                let v = self.expr(value)?;
                self.env.insert("*p".into(), v);
            }
            S::ArrayIndexAssignment { index, value, .. } => {
                let i = self.expr(index)?;
                let v = self.expr(value)?;
                self.env.insert(format!("arr[{i}]"), v);
            }
            S::FieldAssignment { field, value, .. } => {
                let v = self.expr(value)?;
                self.env.insert(format!("s.{field}"), v);
            }
            S::Expression(e) => {
                self.expr(e)?;
            }
            _ => return Err(End::Undefined("statement outside the model")),
        }
        Ok(Flow::Next)
    }
    fn get(&self, k: &str) -> R<i32> {
        self.env.get(k).copied().ok_or(End::Undefined("unset"))
    }
    fn expr(&mut self, e: &E) -> R<i32> {
        self.tick()?;
        let chk = |o: Option<i32>| o.ok_or(End::Undefined("arithmetic"));
        Ok(match e {
            E::IntLiteral(v) => *v,
            E::CharLiteral(c) => *c as i32,
            E::Variable(n) => self.get(n)?,
            E::FieldAccess { field, .. } => self.get(&format!("s.{field}"))?,
            E::Dereference(_) => self.get("*p")?,
            E::ArrayIndex { index, .. } => {
                let i = self.expr(index)?;
                self.get(&format!("arr[{i}]"))?
            }
            E::Cast { expr, .. } => self.expr(expr)?,
            E::UnaryOp { op, operand } => {
                let v = self.expr(operand)?;
                match op {
                    U::Minus => chk(v.checked_neg())?,
                    U::LogicalNot => (v == 0) as i32,
                    U::BitwiseNot => !v,
                    _ => return Err(End::Undefined("operator outside the model")),
                }
            }
            E::Ternary { condition, then_expr, else_expr } => if self.expr(condition)? != 0 { self.expr(then_expr)? } else { self.expr(else_expr)? },
            E::PostIncrement { operand } | E::PreIncrement { operand } | E::PostDecrement { operand } | E::PreDecrement { operand } => {
                let E::Variable(n) = operand.as_ref() else { return Err(End::Undefined("operand outside the model")) };
                let old = self.get(n)?;
                let up = matches!(e, E::PostIncrement { .. } | E::PreIncrement { .. });
                let new = chk(if up { old.checked_add(1) } else { old.checked_sub(1) })?;
                self.env.insert(n.clone(), new);
                if matches!(e, E::PostIncrement { .. } | E::PostDecrement { .. }) { old } else { new }
            }
            E::FunctionCall { arguments, .. } => {
                let mut vs = vec![];
                for a in arguments {
                    vs.push(self.expr(a)?);
                }
                let r = vs.iter().fold(1i32, |a, v| a.wrapping_mul(31).wrapping_add(*v)) & 0xff;
                self.events.push(vs);
                r
            }
            E::BinaryOp { op, left, right } => {
                let l = self.expr(left)?;
                match op {
                    B::LogicalAnd => return Ok(if l == 0 { 0 } else { (self.expr(right)? != 0) as i32 }),
                    B::LogicalOr => return Ok(if l != 0 { 1 } else { (self.expr(right)? != 0) as i32 }),
                    _ => {}
                }
                let r = self.expr(right)?;
                match op {
                    B::Add => chk(l.checked_add(r))?,
                    B::Subtract => chk(l.checked_sub(r))?,
                    B::Multiply => chk(l.checked_mul(r))?,
                    B::Divide => chk(if r == 0 { None } else { l.checked_div(r) })?,
                    B::Modulo => chk(if r == 0 { None } else { l.checked_rem(r) })?,
                    B::LeftShift => chk(if (0..32).contains(&r) && l >= 0 && ((l as i64) << r) <= i32::MAX as i64 { Some(l << r) } else { None })?,
                    B::RightShift => chk(if (0..32).contains(&r) { Some(l >> r) } else { None })?,
                    B::BitwiseAnd => l & r,
                    B::BitwiseOr => l | r,
                    B::BitwiseXor => l ^ r,
                    B::Equal => (l == r) as i32,
                    B::NotEqual => (l != r) as i32,
                    B::LessThan => (l < r) as i32,
                    B::GreaterThan => (l > r) as i32,
                    B::LessEqual => (l <= r) as i32,
                    B::GreaterEqual => (l >= r) as i32,
                    B::Comma => r,
                    _ => return Err(End::Undefined("operator outside the model")),
                }
            }
            _ => return Err(End::Undefined("expression outside the model")),
        })
    }
}
