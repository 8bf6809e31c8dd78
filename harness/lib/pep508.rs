// A second reading of requirements and markers (PEP 508 as posy documents it: no direct
// references, no '===', chained operators group to the right, legacy variable names).
#![allow(dead_code)]
use crate::prelude::*;
use crate::vocab::marker::*;
use crate::vocab::*;

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
    pub extra: bool, // is the variable 'extra' allowed?
}
fn word(b: u8) -> bool {
    b.is_ascii_alphanumeric()
}
const VARS: &[(&str, &str)] = &[
    ("python_version", ""),
    ("python_full_version", ""),
    ("os_name", ""),
    ("sys_platform", ""),
    ("platform_release", ""),
    ("platform_system", ""),
    ("platform_version", ""),
    ("platform_machine", ""),
    ("platform_python_implementation", ""),
    ("implementation_name", ""),
    ("implementation_version", ""),
    ("os.name", "os_name"),
    ("sys.platform", "sys_platform"),
    ("platform.version", "platform_version"),
    ("platform.machine", "platform_machine"),
    ("platform.python_implementation", "platform_python_implementation"),
    ("python_implementation", "platform_python_implementation"),
];
pub const OPS: &[(&str, CompareOp)] = &[
    ("<=", CompareOp::LessThanEqual),
    ("<", CompareOp::StrictlyLessThan),
    ("!=", CompareOp::NotEqual),
    ("==", CompareOp::Equal),
    (">=", CompareOp::GreaterThanEqual),
    (">", CompareOp::StrictlyGreaterThan),
    ("~=", CompareOp::Compatible),
];
impl<'a> P<'a> {
    pub fn new(s: &'a str, extra: bool) -> P<'a> {
        P { s: s.as_bytes(), i: 0, extra }
    }
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(b' ') | Some(b'\t')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, t: &str) -> Option<()> {
        let t = t.as_bytes();
        if self.s.len() - self.i < t.len() {
            return None;
        }
        for k in 0..t.len() {
            if self.s[self.i + k] != t[k] {
                return None;
            }
        }
        self.i += t.len();
        Some(())
    }
    fn text(&self, from: usize) -> String {
        String::from_utf8(self.s[from..self.i].to_vec()).unwrap()
    }
    /// try something, going back where we were if it does not work
    fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> Option<T>) -> Option<T> {
        let i = self.i;
        let r = f(self);
        if r.is_none() {
            self.i = i;
        }
        r
    }
    fn identifier(&mut self) -> Option<String> {
        let from = self.i;
        if !word(self.peek()?) {
            return None;
        }
        let mut last = 0;
        while let Some(b) = self.peek() {
            if word(b) || b == b'-' || b == b'_' || b == b'.' {
                last = b;
                self.i += 1;
            } else {
                break;
            }
        }
        if word(last) {
            Some(self.text(from))
        } else {
            None
        }
    }
    fn op(&mut self) -> Option<CompareOp> {
        for (t, o) in OPS {
            if self.opt(|p| p.eat(t)).is_some() {
                return Some(*o);
            }
        }
        None
    }
    fn spec(&mut self) -> Option<Specifier> {
        self.ws();
        let op = self.op()?;
        self.ws();
        let from = self.i;
        while let Some(b) = self.peek() {
            if word(b) || matches!(b, b'-' | b'_' | b'.' | b'*' | b'+' | b'!') {
                self.i += 1;
            } else {
                break;
            }
        }
        if self.i == from {
            return None;
        }
        Some(Specifier { op, value: self.text(from) })
    }
    fn specs(&mut self) -> Option<Specifiers> {
        let mut v = vec![self.spec()?];
        while let Some(s) = self.opt(|p| {
            p.ws();
            p.eat(",")?;
            p.spec()
        }) {
            v.push(s);
        }
        Some(Specifiers(v))
    }
    pub fn versionspec(&mut self) -> Option<Specifiers> {
        if let Some(v) = self.opt(|p| {
            p.eat("(")?;
            let v = p.specs()?;
            p.eat(")")?;
            Some(v)
        }) {
            return Some(v);
        }
        self.specs()
    }
    fn extras(&mut self) -> Option<Vec<Extra>> {
        self.eat("[")?;
        self.ws();
        let mut v = vec![];
        if let Some(e) = self.opt(|p| p.identifier()) {
            v.push(Extra::try_from(&*e).ok()?);
            while let Some(e) = self.opt(|p| {
                p.ws();
                p.eat(",")?;
                p.ws();
                p.identifier()
            }) {
                v.push(Extra::try_from(&*e).ok()?);
            }
        }
        self.ws();
        self.eat("]")?;
        Some(v)
    }
    fn value(&mut self) -> Option<Value> {
        self.ws();
        for (t, u) in VARS {
            if self.opt(|p| p.eat(t)).is_some() {
                return Some(Value::Variable(if u.is_empty() { t } else { u }.to_string()));
            }
        }
        if self.extra && self.opt(|p| p.eat("extra")).is_some() {
            return Some(Value::Variable("extra".to_string()));
        }
        let q = self.peek()?;
        if q != b'\'' && q != b'"' {
            return None;
        }
        self.i += 1;
        let from = self.i;
        while let Some(b) = self.peek() {
            if b == q {
                let t = self.text(from);
                self.i += 1;
                return Some(Value::Literal(t));
            }
            // printable and tab, but no backslash
            if b != b'\t' && (b < 32 || b > 126 || b == b'\\') {
                return None;
            }
            self.i += 1;
        }
        None
    }
    fn comparison(&mut self) -> Option<EnvMarkerExpr> {
        let lhs = self.value()?;
        self.ws();
        let op = match self.op() {
            Some(o) => Op::Compare(o),
            None => {
                if self.opt(|p| p.eat("in")).is_some() {
                    Op::In
                } else {
                    self.eat("not")?;
                    let from = self.i;
                    self.ws();
                    if self.i == from {
                        return None;
                    }
                    self.eat("in")?;
                    Op::NotIn
                }
            }
        };
        let rhs = self.value()?;
        Some(EnvMarkerExpr::Operator { op, lhs, rhs })
    }
    fn term(&mut self) -> Option<EnvMarkerExpr> {
        if let Some(m) = self.opt(|p| {
            p.ws();
            p.eat("(")?;
            let m = p.marker()?;
            p.ws();
            p.eat(")")?;
            Some(m)
        }) {
            return Some(m);
        }
        self.comparison()
    }
    fn and(&mut self) -> Option<EnvMarkerExpr> {
        let l = self.term()?;
        match self.opt(|p| {
            p.ws();
            p.eat("and")?;
            p.ws();
            p.and()
        }) {
            Some(r) => Some(EnvMarkerExpr::And(Box::new(l), Box::new(r))),
            None => Some(l),
        }
    }
    pub fn marker(&mut self) -> Option<EnvMarkerExpr> {
        let l = self.and()?;
        match self.opt(|p| {
            p.ws();
            p.eat("or")?;
            p.ws();
            p.marker()
        }) {
            Some(r) => Some(EnvMarkerExpr::Or(Box::new(l), Box::new(r))),
            None => Some(l),
        }
    }
    pub fn requirement(&mut self) -> Option<Requirement> {
        self.ws();
        let name: PackageName = self.identifier()?.try_into().ok()?;
        self.ws();
        let extras = self.opt(|p| p.extras()).unwrap_or_default();
        self.ws();
        let specifiers = self.opt(|p| p.versionspec()).unwrap_or_default();
        self.ws();
        let env_marker_expr = self.opt(|p| {
            p.eat(";")?;
            p.ws();
            p.marker()
        });
        self.ws();
        if self.i != self.s.len() {
            return None;
        }
        Some(Requirement { name, extras, specifiers, env_marker_expr })
    }
}
pub fn requirement(s: &str, extra: bool) -> Option<Requirement> {
    P::new(s, extra).requirement()
}
pub fn marker_text(s: &str) -> Option<EnvMarkerExpr> {
    let mut p = P::new(s, false);
    let m = p.marker()?;
    if p.i == p.s.len() {
        Some(m)
    } else {
        None
    }
}
pub fn specifiers(s: &str) -> Option<Specifiers> {
    // blank: no restriction
    if s.bytes().all(|b| b == b' ' || (9..=13).contains(&b)) {
        return Some(Specifiers::default());
    }
    let mut p = P::new(s, false);
    let m = p.versionspec()?;
    if p.i == p.s.len() {
        Some(m)
    } else {
        None
    }
}
// comparisons without early exits inside strings
use super::sym::same_str;
fn same_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Variable(a), Value::Variable(b)) => same_str(a, b),
        (Value::Literal(a), Value::Literal(b)) => same_str(a, b),
        _ => false,
    }
}
pub fn same_marker(a: &EnvMarkerExpr, b: &EnvMarkerExpr) -> bool {
    use EnvMarkerExpr::*;
    match (a, b) {
        (And(a, b), And(c, d)) | (Or(a, b), Or(c, d)) => same_marker(a, c) && same_marker(b, d),
        (Operator { op, lhs, rhs }, Operator { op: o, lhs: l, rhs: r }) => op == o && same_value(lhs, l) && same_value(rhs, r),
        _ => false,
    }
}
pub fn same_specs(a: &Specifiers, b: &Specifiers) -> bool {
    a.0.len() == b.0.len() && a.0.iter().zip(&b.0).all(|(a, b)| a.op == b.op && same_str(&a.value, &b.value))
}
/// the same down to the spelling of names
pub fn same_req(a: &Requirement, b: &Requirement) -> bool {
    same_str(a.name.as_given(), b.name.as_given())
        && a.extras.len() == b.extras.len()
        && a.extras.iter().zip(&b.extras).all(|(a, b)| same_str(a.as_given(), b.as_given()))
        && same_specs(&a.specifiers, &b.specifiers)
        && match (&a.env_marker_expr, &b.env_marker_expr) {
            (None, None) => true,
            (Some(a), Some(b)) => same_marker(a, b),
            _ => false,
        }
}
