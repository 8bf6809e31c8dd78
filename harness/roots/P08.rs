#[path = "/verif/harness/sym.rs"]
mod sym;
use crate::prelude::*;
use crate::vocab::marker::*;
use crate::vocab::*;
use std::cmp::Ordering;
use sym::*;

const OPS: [CompareOp; 7] = [
    CompareOp::Equal,
    CompareOp::NotEqual,
    CompareOp::LessThanEqual,
    CompareOp::GreaterThanEqual,
    CompareOp::StrictlyLessThan,
    CompareOp::StrictlyGreaterThan,
    CompareOp::Compatible,
];
struct World {
    var: String,
    value: String,
}
impl Env for World {
    fn get_marker_var(&self, var: &str) -> Option<&str> {
        if var == self.var {
            Some(&self.value)
        } else {
            None
        }
    }
}
fn by_order(op: CompareOp, o: Ordering) -> Option<bool> {
    Some(match op {
        CompareOp::Equal => o == Ordering::Equal,
        CompareOp::NotEqual => o != Ordering::Equal,
        CompareOp::LessThanEqual => o != Ordering::Greater,
        CompareOp::GreaterThanEqual => o != Ordering::Less,
        CompareOp::StrictlyLessThan => o == Ordering::Less,
        CompareOp::StrictlyGreaterThan => o == Ordering::Greater,
        CompareOp::Compatible => return None,
    })
}
fn contains(hay: &str, needle: &str) -> bool {
    let (h, n) = (hay.as_bytes(), needle.as_bytes());
    let mut found = n.is_empty();
    let mut i = 0;
    while i + n.len() <= h.len() {
        found |= same_bytes(&h[i..i + n.len()], n);
        i += 1;
    }
    found
}
fn judge(expr: &EnvMarkerExpr, env: &World, want: Option<bool>) {
    match (expr.eval(env), want) {
        (Ok(got), Some(w)) => check(got == w, "a marker evaluates to the wrong value"),
        (Err(_), None) => reach("refused"),
        (Ok(_), None) => check(false, "a meaningless marker has a value"),
        (Err(_), Some(_)) => check(false, "a meaningful marker is refused"),
    }
}
/// any operator between any two texts, either of which may come from a variable
#[no_mangle]
pub extern "C" fn h_p08_compare() {
    let (a, b) = [("", ""), ("3.", ""), ("1", ""), ("3.", ".*"), ("1.0", "dev1")][param("around", 0) as usize];
    let n = param("n", 2) as usize;
    let l = if param("left", 0) == 1 { format!("{a}{}", ascii_n("lhs", n)) } else { ["1.0", "3.10", "linux", "1.0.dev0", ""][choice("lhs", 5)].to_string() };
    let r = if param("left", 0) == 1 { ["1.0", "3.1", "linux", "1.*", "1.0.dev0", ""][choice("rhs", 6)].to_string() } else { format!("{a}{}{b}", ascii_n("rhs", n)) };
    let op = choice("op", 9);
    let (value, lhs, rhs) = match choice("variable", 3) {
        0 => (l.clone(), Value::Variable("os_name".into()), Value::Literal(r.clone())),
        1 => (r.clone(), Value::Literal(l.clone()), Value::Variable("os_name".into())),
        _ => (String::new(), Value::Literal(l.clone()), Value::Literal(r.clone())),
    };
    let env = World { var: "os_name".into(), value };
    let (mop, want) = match op {
        7 => (Op::In, Some(contains(&r, &l))),
        8 => (Op::NotIn, Some(!contains(&r, &l))),
        i => {
            let op = OPS[i];
            let versions = match (Version::try_from(&*l), (Specifier { op, value: r.clone() }).to_ranges()) {
                (Ok(v), Ok(_)) => Some(Specifier { op, value: r.clone() }.satisfied_by(&v).unwrap()),
                _ => None,
            };
            reach(if versions.is_some() { "versions" } else { "strings" });
            (Op::Compare(op), versions.or_else(|| by_order(op, l.as_bytes().cmp(r.as_bytes()))))
        }
    };
    judge(&EnvMarkerExpr::Operator { op: mop, lhs, rhs }, &env, want)
}
/// numbers, against a comparison made here
#[no_mangle]
pub extern "C" fn h_p08_numbers() {
    let digit = |n: &str| {
        let b = byte(n);
        assume((b >= b'0') & (b <= b'9'));
        b
    };
    let (a, b, c, d) = (digit("a"), digit("b"), digit("c"), digit("d"));
    let two = flag("two");
    let star = !two && flag("star");
    let l = format!("{}.{}", a as char, b as char);
    let r = if two { format!("{}.1{}", c as char, d as char) } else { format!("{}.{}", c as char, d as char) };
    let d = if two { 10 + (d - b'0') } else { d - b'0' };
    let (a, b, c) = (a - b'0', b - b'0', c - b'0');
    let i = choice("op", 7);
    let op = OPS[i];
    let ord = if a < c || (a == c && b < d) { Ordering::Less } else if a == c && b == d { Ordering::Equal } else { Ordering::Greater };
    let want = match op {
        CompareOp::Compatible => Some(a == c && b >= d),
        _ => by_order(op, ord),
    };
    let (r, want) = match star {
        // only == and != know wildcards; otherwise texts are compared
        true => {
            let r = format!("{r}.*");
            let w = match op {
                CompareOp::Equal | CompareOp::NotEqual => want,
                _ => by_order(op, l.as_bytes().cmp(r.as_bytes())),
            };
            (r, w)
        }
        false => (r, want),
    };
    reach(if star { "wildcard" } else { "numbers" });
    let env = World { var: "python_version".into(), value: l };
    judge(&EnvMarkerExpr::Operator { op: Op::Compare(op), lhs: Value::Variable("python_version".into()), rhs: Value::Literal(r) }, &env, want)
}
/// the normalized spelling of an extra, None when it is none
fn normal(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let edge = |c: u8| c.is_ascii_alphanumeric();
    if b.is_empty() || !edge(b[0]) || !edge(b[b.len() - 1]) {
        return None;
    }
    let mut t = String::new();
    let mut sep = false;
    for &c in b {
        if edge(c) {
            if sep {
                t.push('-');
            }
            sep = false;
            t.push(c.to_ascii_lowercase() as char);
        } else if c == b'-' || c == b'_' || c == b'.' {
            sep = true;
        } else {
            return None;
        }
    }
    Some(t)
}
/// comparisons with an extra are comparisons of normalized names
#[no_mangle]
pub extern "C" fn h_p08_extra() {
    let (a, b) = [("", ""), ("a", "b"), ("1", "")][param("around", 0) as usize];
    let lit = format!("{a}{}{b}", ascii_n("literal", param("n", 2) as usize));
    let given = ["ab", "a-b", "A_b", "1", "1.0", "0", "v1", "a.B"][choice("extra", 8)];
    let env = World { var: "extra".into(), value: given.to_string() };
    let left = flag("left");
    let i = choice("op", 2);
    let (lhs, rhs) = (Value::Variable("extra".into()), Value::Literal(lit.clone()));
    let (lhs, rhs) = if left { (lhs, rhs) } else { (rhs, lhs) };
    let e = EnvMarkerExpr::Operator { op: Op::Compare(OPS[i]), lhs, rhs };
    let n = normal(&lit);
    let equal = match &n {
        Some(t) => same_str(t, &normal(given).unwrap()),
        None => false,
    };
    reach(if n.is_none() { "no extra" } else if equal { "equal" } else { "different" });
    judge(&e, &env, Some(equal == (i == 0)))
}
/// 'and', 'or' and missing variables
fn tree(depth: u64, vals: &mut Vec<u8>) -> EnvMarkerExpr {
    let k = if depth == 0 { 0 } else { choice("shape", 3) };
    if k > 0 {
        let (a, b) = (Box::new(tree(depth - 1, vals)), Box::new(tree(depth - 1, vals)));
        return if k == 1 { EnvMarkerExpr::And(a, b) } else { EnvMarkerExpr::Or(a, b) };
    }
    let v = choice("leaf", 3) as u8;
    vals.push(v);
    EnvMarkerExpr::Operator { op: Op::Compare(CompareOp::Equal), lhs: Value::Variable(["os_name", "os_name", "unknown"][v as usize].into()), rhs: Value::Literal(["no", "yes", "yes"][v as usize].into()) }
}
/// Some(value) when every part has one; None when parts are meaningless
fn value(e: &EnvMarkerExpr) -> Option<bool> {
    match e {
        EnvMarkerExpr::And(a, b) => match (value(a), value(b)) {
            (Some(a), Some(b)) => Some(a & b),
            _ => None,
        },
        EnvMarkerExpr::Or(a, b) => match (value(a), value(b)) {
            (Some(a), Some(b)) => Some(a | b),
            _ => None,
        },
        EnvMarkerExpr::Operator { lhs: Value::Variable(v), rhs: Value::Literal(r), .. } => {
            if v == "unknown" {
                None
            } else {
                Some(r == "yes")
            }
        }
        _ => None,
    }
}
/// what three-valued logic allows: the unknown parts could be either
fn possible(e: &EnvMarkerExpr, unknown: bool) -> bool {
    match e {
        EnvMarkerExpr::And(a, b) => possible(a, unknown) & possible(b, unknown),
        EnvMarkerExpr::Or(a, b) => possible(a, unknown) | possible(b, unknown),
        EnvMarkerExpr::Operator { lhs: Value::Variable(v), rhs: Value::Literal(r), .. } => {
            if v == "unknown" {
                unknown
            } else {
                r == "yes"
            }
        }
        _ => unknown,
    }
}
#[no_mangle]
pub extern "C" fn h_p08_logic() {
    let e = tree(param("depth", 2), &mut vec![]);
    let env = World { var: "os_name".into(), value: "yes".into() };
    match (e.eval(&env), value(&e)) {
        (Ok(got), Some(w)) => {
            check(got == w, "and/or evaluate wrongly");
            reach(if got { "true" } else { "false" });
        }
        (Err(_), Some(_)) => check(false, "a meaningful marker is refused"),
        (Err(_), None) => reach("refused"),
        (Ok(got), None) => {
            // only when the meaningless parts make no difference
            check(possible(&e, false) == got && possible(&e, true) == got, "a marker that depends on an unknown variable has a value");
            reach("short cut");
        }
    }
}
