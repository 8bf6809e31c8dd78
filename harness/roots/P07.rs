#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/pep508.rs"]
mod pep508;
use crate::prelude::*;
use crate::vocab::marker::*;
use crate::vocab::*;
use pep508::*;
use sym::*;

/// one text in every context
fn text(t: &str) {
    let (pw, uw) = (requirement(t, true), requirement(t, false));
    let p = PackageRequirement::try_from(t);
    let u = UserRequirement::try_from(t);
    let y = PythonRequirement::try_from(t);
    check(p.is_ok() == pw.is_some(), "a package requirement is judged wrongly");
    check(u.is_ok() == uw.is_some(), "a user requirement is judged wrongly");
    let plain = uw.as_ref().map_or(false, |r| r.extras.is_empty() && r.env_marker_expr.is_none());
    check(y.is_ok() == plain, "a python requirement is judged wrongly");
    if let (Ok(p), Some(w)) = (&p, &pw) {
        check(same_req(p, w), "a requirement is misread");
        let s = p.to_string();
        let q = PackageRequirement::try_from(&*s);
        check(q.is_ok(), "a printed requirement does not parse");
        check(same_req(p, &q.unwrap()), "printing changes a requirement");
        let j = serde_json::to_string(p).unwrap();
        let q: Result<PackageRequirement, _> = serde_json::from_str(&j);
        check(q.is_ok() && same_req(p, &q.unwrap()), "storing changes a requirement");
        reach(if w.env_marker_expr.is_some() { "marker" } else if !w.specifiers.0.is_empty() { "specifiers" } else { "package" });
    } else {
        reach("refused");
    }
    if let (Ok(u), Some(w)) = (&u, &uw) {
        check(same_req(u, w), "a user requirement is misread");
        let q = UserRequirement::try_from(&*u.to_string());
        check(q.is_ok() && same_req(u, &q.unwrap()), "printing changes a user requirement");
        let j = serde_json::to_string(u).unwrap();
        let q: Result<UserRequirement, _> = serde_json::from_str(&j);
        check(q.is_ok() && same_req(u, &q.unwrap()), "storing changes a user requirement");
        reach("user");
    } else if p.is_ok() {
        reach("extra outside package metadata");
    }
    if let Ok(y) = &y {
        check(same_req(y, uw.as_ref().unwrap()), "a python requirement is misread");
        let q = PythonRequirement::try_from(&*y.to_string());
        check(q.is_ok() && same_req(y, &q.unwrap()), "printing changes a python requirement");
        let j = serde_json::to_string(y).unwrap();
        let q: Result<PythonRequirement, _> = serde_json::from_str(&j);
        check(q.is_ok() && same_req(y, &q.unwrap()), "storing changes a python requirement");
        reach("python");
    }
}
const AROUND: &[(&str, &str)] = &[
    ("", ""),
    ("foo", ""),
    ("foo[a", "]"),
    ("foo >= 1", ""),
    ("foo (>1", ")"),
    ("foo; os_name", "'a'"),
    ("foo; os_name == ", ""),
    ("foo; os_name == '", "'"),
    ("foo; os_name == \"", "\""),
    ("foo; 'a' == os_name", " or 'c' in os.name"),
    ("foo; (extra == 'a'", ""),
    ("foo; (os_name ~= '1'", ") and 'a' not in extra"),
];
#[no_mangle]
pub extern "C" fn h_p07_text() {
    let (a, b) = AROUND[param("around", 0) as usize];
    text(&format!("{a}{}{b}", ascii_n("text", param("n", 2) as usize)))
}
/// words that mean something
const WORDS: &[&str] = &["foo", "[", "]", "a", ",", "(", ")", ">=", "==", "===", "~=", "1.*", ";", "os_name", "extra", "'b'", "in", "not", "and", "or", "@", " ", "python_version", "python_implementation"];
#[no_mangle]
pub extern "C" fn h_p07_words() {
    let (a, b) = [("foo ", ""), ("foo;os_name", ""), ("foo;os_name=='1' ", ""), ("foo; (", "=='a')"), ("foo[a] >1 ", "1;extra=='a'")][param("around", 0) as usize];
    let mut t = String::from(a);
    for _ in 0..param("k", 2) {
        t.push_str(pick("word", WORDS));
    }
    t.push_str(b);
    text(&t)
}
#[no_mangle]
pub extern "C" fn h_p07_vars() {
    let v = pick("var", &["python_version", "python_full_version", "os_name", "sys_platform", "platform_release", "platform_system", "platform_version", "platform_machine", "platform_python_implementation", "implementation_name", "implementation_version", "extra", "os.name", "sys.platform", "platform.version", "platform.machine", "platform.python_implementation", "python_implementation", "os_nam", "platform.release", "python.version"]);
    let o = pick("op", &["<=", "<", "!=", "==", ">=", ">", "~=", "===", "in", "not in", "not", " not  in "]);
    let sp = pick("space", &["", " "]);
    let l = pick("literal", &["'x'", "\"x\"", "extra", "'"]);
    text(&if flag("left") { format!("f;{v}{sp}{o}{sp}{l}") } else { format!("f;{l}{sp}{o}{sp}{v}") })
}
fn value(side: &str, extra: bool) -> Value {
    if flag(&format!("{side}var")) {
        let mut names = vec!["os_name", "python_version", "platform_python_implementation"];
        if extra {
            names.push("extra");
        }
        Value::Variable(pick(&format!("{side}name"), &names).to_string())
    } else {
        let mut s = String::new();
        let t = ascii_n(side, param("n", 1) as usize);
        let (mut single, mut double) = (false, false);
        for b in t.bytes() {
            assume(b == b'\t' || (b >= 32 && b < 127 && b != b'\\'));
            single |= b == b'\'';
            double |= b == b'"';
        }
        // no text has both: there is no way to write it
        assume(!(single & double));
        s.push_str(&t);
        Value::Literal(s)
    }
}
fn expr(depth: u64, extra: bool) -> EnvMarkerExpr {
    if depth > 0 {
        match choice("shape", 3) {
            0 => (),
            1 => return EnvMarkerExpr::And(Box::new(expr(depth - 1, extra)), Box::new(expr(depth - 1, extra))),
            _ => return EnvMarkerExpr::Or(Box::new(expr(depth - 1, extra)), Box::new(expr(depth - 1, extra))),
        }
    }
    if param("depth", 1) > 1 || param("k", 0) > 0 {
        // only the structure matters
        let c = choice("leaf", 2);
        return EnvMarkerExpr::Operator { op: Op::In, lhs: Value::Literal(["or", "(and"][c].to_string()), rhs: Value::Variable("os_name".to_string()) };
    }
    let op = match choice("op", 9) {
        7 => Op::In,
        8 => Op::NotIn,
        i => Op::Compare(OPS[i].1),
    };
    EnvMarkerExpr::Operator { op, lhs: value("lhs", extra), rhs: value("rhs", extra) }
}
/// markers as the program makes them (the resolver rewrites them), printed and read again
#[no_mangle]
pub extern "C" fn h_p07_marker() {
    let m = StandaloneMarkerExpr(expr(param("depth", 0), false));
    let s = m.to_string();
    let back = StandaloneMarkerExpr::try_from(&*s);
    check(back.is_ok(), "a printed marker does not parse");
    check(same_marker(&m.0, &back.unwrap().0), "printing changes a marker");
    let j = serde_json::to_string(&m).unwrap();
    let q: Result<StandaloneMarkerExpr, _> = serde_json::from_str(&j);
    check(q.is_ok() && same_marker(&m.0, &q.unwrap().0), "storing changes a marker");
    reach("marker");
}
#[no_mangle]
pub extern "C" fn h_p07_standalone() {
    let (a, b) = [("", ""), ("os_name", "'a'"), ("'a' < os_name", ""), ("(os_name == 'a'", "os.name > 'b')")][param("around", 0) as usize];
    let t = format!("{a}{}{b}", ascii_n("text", param("n", 2) as usize));
    let want = marker_text(&t);
    let got = StandaloneMarkerExpr::try_from(&*t);
    check(got.is_ok() == want.is_some(), "a marker is judged wrongly");
    if let (Ok(g), Some(w)) = (&got, &want) {
        check(same_marker(&g.0, w), "a marker is misread");
        let q = StandaloneMarkerExpr::try_from(&*g.to_string());
        check(q.is_ok() && same_marker(&g.0, &q.unwrap().0), "printing changes a marker");
        reach("marker");
    } else {
        reach("refused");
    }
}
#[no_mangle]
pub extern "C" fn h_p07_specifiers() {
    let (a, b) = [("", ""), (">=1", ""), ("(", ")"), ("(<1", ",!=2.*)"), ("~=1,", "2")][param("around", 0) as usize];
    let t = format!("{a}{}{b}", ascii_n("text", param("n", 2) as usize));
    let want = specifiers(&t);
    let got = Specifiers::try_from(&*t);
    check(got.is_ok() == want.is_some(), "specifiers are judged wrongly");
    if let (Ok(g), Some(w)) = (&got, &want) {
        check(same_specs(g, w), "specifiers are misread");
        let q = Specifiers::try_from(&*g.to_string());
        check(q.is_ok() && same_specs(g, &q.unwrap()), "printing changes specifiers");
        reach("specifiers");
    } else {
        reach("refused");
    }
}
/// reading deep nesting must not take time exponential in its depth
#[no_mangle]
pub extern "C" fn h_p07_nested() {
    let k = param("k", 3) as usize;
    let (open, op, close) = (["(", "(extra == 'a' and ("][choice("open", 2)], pick("op", &["==", "not in", "~="]), ascii_n("close", 1));
    let n = if open.len() > 1 { 2 * k } else { k };
    let t = format!("foo; {}os_name {op} 'a'{}{close}", open.repeat(k), ")".repeat(n - 1));
    let t0 = std::time::Instant::now();
    let got = PackageRequirement::try_from(&*t);
    let took = t0.elapsed().as_micros();
    check(took < 1000, "reading a nested marker takes time exponential in its depth");
    check(got.is_ok() == (close == ")"), "a nested marker is judged wrongly");
    reach(if got.is_ok() { "nested" } else { "refused" });
}
