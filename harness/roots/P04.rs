#[path = "/verif/harness/sym.rs"]
mod sym;
use crate::prelude::*;
use std::hash::{Hash, Hasher};
use sym::*;

fn alnum(b: u8) -> bool {
    let l = b | 0x20;
    ((b >= b'0') & (b <= b'9')) | ((l >= b'a') & (l <= b'z'))
}
fn sep(b: u8) -> bool {
    (b == b'-') | (b == b'_') | (b == b'.')
}
/// PEP 508 identifier
fn valid(s: &[u8]) -> bool {
    if s.is_empty() {
        return false;
    }
    let mut ok = alnum(s[0]) & alnum(s[s.len() - 1]);
    for b in s {
        ok &= alnum(*b) | sep(*b);
    }
    ok
}
/// PEP 503
fn normal(s: &[u8]) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    for b in s {
        if sep(*b) {
            if out.last() != Some(&b'-') {
                out.push(b'-');
            }
        } else {
            let up = ((*b >= b'A') & (*b <= b'Z')) as u8;
            out.push(*b | (up << 5));
        }
    }
    out
}
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn fed<T: Hash>(t: &T) -> Vec<u8> {
    let mut h = Rec(Vec::new());
    t.hash(&mut h);
    h.0
}

fn one(s: &str, got: Result<PackageName>) {
    let ok = valid(s.as_bytes());
    match got {
        Err(_) => {
            check(!ok, "valid name refused");
            reach("refused");
        }
        Ok(p) => {
            check(ok, "invalid name accepted");
            check(same_str(p.as_given(), s), "spelling as given is lost");
            check(same_bytes(p.normalized().as_bytes(), &normal(s.as_bytes())), "normalized form is not the PEP 503 one");
            log_str("normalized", p.normalized());
            reach("accepted");
            let again = PackageName::try_from(p.normalized());
            match again {
                Err(_) => check(false, "normalized form is not a valid name"),
                Ok(q) => {
                    check(q == p, "a name differs from its normalized form");
                    check(q.normalized() == p.normalized(), "normalization is not idempotent");
                }
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn h_p04_name() {
    let s = ascii_n("name", param("n", 3) as usize);
    one(&s, PackageName::try_from(s.as_str()));
}

/// names over letters and separators, longer
#[no_mangle]
pub extern "C" fn h_p04_seps() {
    let s = over_n("name", param("n", 5) as usize, "aZ0-_.");
    one(&s, PackageName::try_from(s.as_str()));
}

/// the same through FromStr / String / serde, and for extras
#[no_mangle]
pub extern "C" fn h_p04_routes() {
    let s = over_n("name", param("n", 3) as usize, "aZ9-_. +\"\\/");
    match choice("route", 5) {
        0 => one(&s, s.parse::<PackageName>()),
        1 => one(&s, PackageName::try_from(s.clone())),
        2 => {
            // JSON text, quoted by hand
            let mut j = String::from("\"");
            for c in s.chars() {
                if c == '"' || c == '\\' {
                    j.push('\\');
                }
                j.push(c);
            }
            j.push('"');
            let r: serde_json::Result<PackageName> = serde_json::from_str(&j);
            if let Ok(p) = &r {
                match serde_json::to_string(p) {
                    Ok(t) => check(same_str(&t, &j), "serialised form is not the spelling given"),
                    Err(_) => check(false, "name does not serialise"),
                }
            }
            one(&s, r.map_err(|e| e.into()));
        }
        3 => {
            let e = Extra::try_from(s.as_str());
            let ok = valid(s.as_bytes());
            check(e.is_ok() == ok, "extra accepted differently from a name");
            if let Ok(e) = e {
                check(same_str(e.as_given(), &s), "extra loses its spelling");
                check(same_bytes(e.normalized().as_bytes(), &normal(s.as_bytes())), "extra is not normalized like a name");
                reach("extra");
            }
        }
        _ => {
            let e: Result<Extra> = s.parse();
            check(e.is_ok() == valid(s.as_bytes()), "extra accepted differently from a name");
            if let Ok(e) = e {
                match serde_json::to_string(&e) {
                    Ok(t) => {
                        let r: serde_json::Result<Extra> = serde_json::from_str(&t);
                        check(r.is_ok() && r.unwrap() == e, "extra does not survive serialisation");
                    }
                    Err(_) => check(false, "extra does not serialise"),
                }
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn h_p04_pair() {
    let a = over_n("a", param("n", 3) as usize, "abAB-_.");
    let b = over_n("b", param("m", 3) as usize, "abAB-_.");
    let (p, q) = match (PackageName::try_from(a.as_str()), PackageName::try_from(b.as_str())) {
        (Ok(p), Ok(q)) => (p, q),
        _ => return,
    };
    let same = normal(a.as_bytes()) == normal(b.as_bytes());
    check((p == q) == same, "equality is not equality of normalized forms");
    check((p != q) != same, "inequality is not inequality of normalized forms");
    use std::cmp::Ordering::*;
    check((p.cmp(&q) == Equal) == same, "ordering disagrees with equality");
    check(p.partial_cmp(&q) == Some(p.cmp(&q)), "partial order disagrees with order");
    check(p.cmp(&q) == q.cmp(&p).reverse(), "ordering is not antisymmetric");
    check(p.cmp(&q) == normal(a.as_bytes()).cmp(&normal(b.as_bytes())), "ordering is not that of the normalized forms");
    if same {
        check(fed(&p) == fed(&q), "equal names hash differently");
        reach("equal");
    } else {
        reach("different");
    }
    let (x, y) = (Extra::try_from(a.as_str()), Extra::try_from(b.as_str()));
    if let (Ok(x), Ok(y)) = (x, y) {
        check((x == y) == same, "extras: equality is not equality of normalized forms");
        if same {
            check(fed(&x) == fed(&y), "equal extras hash differently");
        }
    }
}

/// any Unicode text
#[no_mangle]
pub extern "C" fn h_p04_unicode() {
    let s = chars("name", param("n", 2) as usize);
    one(&s, PackageName::try_from(s.as_str()));
}
