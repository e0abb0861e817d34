//! Arithmetic expressions as written by pytket: an own parser with the usual (Python's) rules and an evaluator.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Num(f64),
    Var(String),
    Neg(Box<E>),
    Bin(char, Box<E>, Box<E>),
    /// `2x`, binds more strongly than any operator
    Impl(Box<E>, Box<E>),
    Fun(String, Vec<E>),
}
pub type Env = HashMap<String, f64>;

struct P<'a> {
    s: &'a [u8],
    i: usize,
    depth: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            return true;
        }
        false
    }
    fn sum(&mut self) -> Option<E> {
        self.depth += 1;
        if self.depth > 500 {
            return None;
        }
        let mut a = self.product()?;
        loop {
            let c = self.peek();
            if c != b'+' && c != b'-' {
                self.depth -= 1;
                return Some(a);
            }
            self.i += 1;
            let b = self.product()?;
            a = E::Bin(c as char, a.into(), b.into());
        }
    }
    fn product(&mut self) -> Option<E> {
        let mut a = self.unary()?;
        loop {
            let c = self.peek();
            if c == b'*' && self.s.get(self.i + 1) == Some(&b'*') || c != b'*' && c != b'/' {
                return Some(a);
            }
            self.i += 1;
            let b = self.unary()?;
            a = E::Bin(c as char, a.into(), b.into());
        }
    }
    fn unary(&mut self) -> Option<E> {
        if self.peek() == b'+' {
            self.depth += 1;
            if self.depth > 500 {
                return None;
            }
            self.i += 1;
            let e = self.unary()?;
            self.depth -= 1;
            return Some(e);
        }
        if self.eat("-") {
            self.depth += 1;
            if self.depth > 500 {
                return None;
            }
            let e = self.unary()?;
            self.depth -= 1;
            return Some(E::Neg(e.into()));
        }
        let a = self.atom()?;
        if self.eat("**") {
            let b = self.unary()?;
            return Some(E::Bin('^', a.into(), b.into()));
        }
        Some(a)
    }
    fn ident(&mut self) -> String {
        let j = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[j..self.i]).into_owned()
    }
    fn atom(&mut self) -> Option<E> {
        let c = self.peek();
        if c == b'(' {
            self.i += 1;
            let e = self.sum()?;
            return self.eat(")").then_some(e);
        }
        if c.is_ascii_alphabetic() {
            let name = self.ident();
            if self.peek() == b'(' {
                self.i += 1;
                let mut args = vec![];
                while self.peek() != b')' {
                    args.push(self.sum()?);
                    if !self.eat(",") {
                        break;
                    }
                }
                return self.eat(")").then_some(E::Fun(name, args));
            }
            return Some(E::Var(name));
        }
        if c.is_ascii_digit() || c == b'.' && self.s.get(self.i + 1).is_some_and(|c| c.is_ascii_digit()) {
            let j = self.i;
            while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b'.' {
                self.i += 1;
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
            }
            if self.i < self.s.len() && self.s[self.i].eq_ignore_ascii_case(&b'e') {
                let mut k = self.i + 1;
                if k < self.s.len() && (self.s[k] == b'+' || self.s[k] == b'-') {
                    k += 1;
                }
                if k < self.s.len() && self.s[k].is_ascii_digit() {
                    while k < self.s.len() && self.s[k].is_ascii_digit() {
                        k += 1;
                    }
                    self.i = k;
                }
            }
            let v: f64 = std::str::from_utf8(&self.s[j..self.i]).ok()?.parse().ok()?;
            let c = self.peek();
            if c == b'(' || c.is_ascii_alphabetic() {
                let b = self.atom()?;
                return Some(E::Impl(E::Num(v).into(), b.into()));
            }
            return Some(E::Num(v));
        }
        None
    }
}
pub fn parse(s: &str) -> Option<E> {
    let mut p = P { s: s.as_bytes(), i: 0, depth: 0 };
    let e = p.sum()?;
    (p.peek() == 0 && p.i == s.len()).then_some(e)
}
/// The value; `fuzz` moves every constant by a relative amount, to find ill-conditioned expressions.
pub fn eval(e: &E, env: &Env, fuzz: f64) -> Option<f64> {
    let mut k = 0;
    eval_in(e, env, fuzz, &mut k)
}
fn eval_in(e: &E, env: &Env, fuzz: f64, k: &mut usize) -> Option<f64> {
    // deviations are not all in the same direction
    let mut dev = |x: f64| {
        *k += 1;
        if x.fract() == 0.0 && x.abs() < 16.0 { x } else { x * (1.0 + fuzz * [1.0, -0.7, 0.4, -0.9][*k % 4]) + fuzz * [0.3, -0.8, 1.0][*k % 3] }
    };
    let v = match e {
        E::Num(x) => dev(*x),
        E::Var(n) => match env.get(n) {
            Some(x) => dev(*x),
            None if n == "pi" => dev(std::f64::consts::PI),
            None => return None,
        },
        E::Neg(a) => -eval_in(a, env, fuzz, k)?,
        E::Impl(a, b) => eval_in(a, env, fuzz, k)? * eval_in(b, env, fuzz, k)?,
        E::Bin(o, a, b) => {
            let (a, b) = (eval_in(a, env, fuzz, k)?, eval_in(b, env, fuzz, k)?);
            match o {
                '+' => a + b,
                '-' => a - b,
                '*' => a * b,
                '/' => a / b,
                _ => a.powf(b),
            }
        }
        E::Fun(n, args) => {
            let v: Option<Vec<f64>> = args.iter().map(|a| eval_in(a, env, fuzz, k)).collect();
            let v = v?;
            match (n.as_str(), &v[..]) {
                ("max", [a, b]) => a.max(*b),
                ("min", [a, b]) => a.min(*b),
                ("max", _) if !v.is_empty() => v.iter().copied().fold(f64::NEG_INFINITY, f64::max),
                ("min", _) if !v.is_empty() => v.iter().copied().fold(f64::INFINITY, f64::min),
                ("abs", [a]) => a.abs(),
                ("floor", [a]) => a.floor(),
                ("ceil" | "ceiling", [a]) => a.ceil(),
                ("round", [a]) if (a.abs().fract() - 0.5).abs() < 1e-9 => return None,
                ("round", [a]) => a.round(),
                ("sin", [a]) => a.sin(),
                ("cos", [a]) => a.cos(),
                ("sqrt", [a]) => a.sqrt(),
                ("exp", [a]) => a.exp(),
                _ => return None,
            }
        }
    };
    v.is_finite().then_some(v)
}
pub fn eval_str(s: &str, env: &Env) -> Option<f64> {
    eval(&parse(s)?, env, 0.0)
}
/// Variables in order of appearance.
pub fn vars(e: &E, out: &mut Vec<String>) {
    match e {
        E::Num(_) => {}
        E::Var(n) => {
            if n != "pi" && !out.contains(n) {
                out.push(n.clone());
            }
        }
        E::Neg(a) => vars(a, out),
        E::Bin(_, a, b) | E::Impl(a, b) => {
            vars(a, out);
            vars(b, out);
        }
        E::Fun(_, a) => a.iter().for_each(|x| vars(x, out)),
    }
}
