#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/ver.rs"]
mod ver;
use crate::prelude::*;
use crate::vocab::*;
use pep440::{LocalVersion, PreRelease};
use sym::*;
use ver::*;

const OPS: [CompareOp; 7] = [
    CompareOp::Equal,
    CompareOp::NotEqual,
    CompareOp::LessThanEqual,
    CompareOp::GreaterThanEqual,
    CompareOp::StrictlyLessThan,
    CompareOp::StrictlyGreaterThan,
    CompareOp::Compatible,
];
const TEXT: [&str; 7] = ["==", "!=", "<=", ">=", "<", ">", "~="];

fn digit(name: &str, t: &mut String) -> u32 {
    let b = byte(name);
    assume((b >= b'0') & (b <= b'9'));
    t.push(b as char);
    (b - b'0') as u32
}
/// The value of a specifier, as text and as what PEP 440 says the text means
fn value(rel: usize, locals: bool) -> (String, Version) {
    let mut t = String::new();
    let mut v = pep440::Version { epoch: 0, release: vec![], pre: None, post: None, dev: None, local: vec![] };
    if flag("v.epoch") {
        v.epoch = digit("v.e", &mut t);
        t.push('!');
    }
    for i in 0..1 + choice("v.nrel", rel) {
        if i > 0 {
            t.push('.');
        }
        v.release.push(digit("v.r", &mut t));
    }
    match choice("v.pre", 4) {
        0 => {}
        1 => {
            t.push('a');
            v.pre = Some(PreRelease::A(digit("v.p", &mut t)));
        }
        2 => {
            t.push('b');
            v.pre = Some(PreRelease::B(digit("v.p", &mut t)));
        }
        _ => {
            t.push_str("rc");
            v.pre = Some(PreRelease::RC(digit("v.p", &mut t)));
        }
    }
    if flag("v.post") {
        t.push_str(".post");
        v.post = Some(digit("v.o", &mut t));
    }
    if flag("v.dev") {
        t.push_str(".dev");
        v.dev = Some(digit("v.d", &mut t));
    }
    if locals && flag("v.local") {
        t.push('+');
        match flag("v.num") {
            true => {
                let n = digit("v.l", &mut t);
                v.local.push(LocalVersion::NumericComponent(n));
            }
            false => {
                let s = over_n("v.s", 1, "ab");
                t.push_str(&s);
                v.local.push(LocalVersion::StringComponent(s));
            }
        }
    }
    (t, Version(v))
}
fn candidate(rel: usize, local: usize) -> Version {
    version("c", &Shape { epoch: true, rel, pre: true, post: true, dev: true, local, max: false })
}
fn opt_c(a: Option<u32>, b: Option<u32>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a == b,
        _ => false,
    }
}
fn same_pre(a: &Version, b: &Version) -> bool {
    match (&a.0.pre, &b.0.pre) {
        (None, None) => true,
        (Some(PreRelease::A(x)), Some(PreRelease::A(y))) => x == y,
        (Some(PreRelease::B(x)), Some(PreRelease::B(y))) => x == y,
        (Some(PreRelease::RC(x)), Some(PreRelease::RC(y))) => x == y,
        _ => false,
    }
}
fn starts(c: &Version, prefix: &[u32]) -> bool {
    let mut ok = true;
    for (i, p) in prefix.iter().enumerate() {
        let x = if i < c.0.release.len() { c.0.release[i] } else { 0 };
        ok &= x == *p;
    }
    ok
}
fn same_base(a: &Version, b: &Version) -> bool {
    epoch_c(a, b).eq() & release_c(&a.0.release, &b.0.release).eq()
}
enum Want {
    Error,
    Is(bool),
    Unclear,
}
use Want::*;
/// What PEP 440 says; where its text and the reference implementation differ, nothing is demanded
fn oracle(op: usize, v: &Version, wild: bool, c: &Version) -> Want {
    if wild {
        if op > 1 || v.0.dev.is_some() || !v.0.local.is_empty() {
            return Error;
        }
        let mut m = epoch_c(c, v).eq();
        if v.0.post.is_some() {
            m &= same_base(c, v) & same_pre(c, v) & opt_c(c.0.post, v.0.post);
        } else if v.0.pre.is_some() {
            m &= same_base(c, v) & same_pre(c, v);
        } else {
            m &= starts(c, &v.0.release);
        }
        return Is(m == (op == 0));
    }
    if op > 1 && !v.0.local.is_empty() {
        return Error;
    }
    let eq = if v.0.local.is_empty() { public_c(c, v).eq() } else { version_c(c, v).eq() };
    let pre = |x: &Version| x.0.pre.is_some() | x.0.dev.is_some();
    match op {
        0 => Is(eq),
        1 => Is(!eq),
        2 => Is(public_c(c, v).le()),
        3 => Is(!public_c(c, v).lt()),
        4 => {
            let below = public_c(c, v).lt();
            let of_it = match v.0.post {
                None => pre(c) & same_base(c, v),
                Some(_) => same_base(c, v) & c.0.pre.is_none() & same_pre(c, v) & opt_c(c.0.post, v.0.post) & c.0.dev.is_some(),
            };
            let by_text = below & !(!pre(v) & of_it);
            let by_reference = below & !(!pre(v) & pre(c) & same_base(c, v));
            if by_text != by_reference {
                Unclear
            } else {
                Is(by_text)
            }
        }
        5 => {
            let above = !public_c(c, v).le();
            let post_of_it = c.0.post.is_some() & v.0.dev.is_none() & v.0.post.is_none() & same_base(c, v) & same_pre(c, v);
            let by_text = above & !post_of_it;
            let by_reference = above
                & !(v.0.post.is_none() & c.0.post.is_some() & same_base(c, v))
                & !(!c.0.local.is_empty() & same_base(c, v));
            if by_text != by_reference {
                Unclear
            } else {
                Is(by_text)
            }
        }
        _ => {
            let n = v.0.release.len();
            if n < 2 {
                return Error;
            }
            Is(epoch_c(c, v).eq() & !public_c(c, v).lt() & starts(c, &v.0.release[..n - 1]))
        }
    }
}
fn judge(op: usize, v: &Version, wild: bool, c: &Version, got: Result<bool>) {
    log("op", op as u64);
    match got {
        Err(_) => {
            check(matches!(oracle(op, v, wild, c), Error), "a valid specifier is refused");
            reach("error");
        }
        Ok(got) => {
            log("got", got as u64);
            match oracle(op, v, wild, c) {
                Error => check(false, "an invalid specifier is accepted"),
                Unclear => reach("unclear"),
                Is(want) => {
                    check(got == want, "the specifier selects other versions than PEP 440 says");
                    if got {
                        reach("selected")
                    } else {
                        reach("not selected")
                    }
                }
            }
        }
    }
}
fn one(op: usize, rel_v: usize, rel_c: usize, locals: bool) {
    let _ = Version::try_from("1");
    let (mut t, v) = value(rel_v, locals);
    let c = candidate(rel_c, locals as usize);
    let wild = flag("wild");
    if wild {
        t.push_str(".*");
    }
    let s = Specifier { op: OPS[op], value: t };
    judge(op, &v, wild, &c, s.satisfied_by(&c));
}
#[no_mangle]
pub extern "C" fn h_p06_op() {
    one(param("op", 0) as usize, param("rv", 2) as usize, param("rc", 2) as usize, param("local", 0) == 1);
}

/// two specifiers in one text are a conjunction; white space does not matter
#[no_mangle]
pub extern "C" fn h_p06_list() {
    let _ = Version::try_from("1");
    let _ = Specifiers::try_from(">1");
    let mut t = String::new();
    let mut parts = Vec::new();
    for i in 0..2 {
        let op = choice("op", 7);
        if i > 0 {
            t.push_str(pick("comma", &[",", " ,", ", "]));
        }
        t.push_str(TEXT[op]);
        if flag("space") {
            t.push(' ');
        }
        let mut v = pep440::Version { epoch: 0, release: vec![], pre: None, post: None, dev: None, local: vec![] };
        v.release.push(digit("v", &mut t));
        t.push('.');
        v.release.push(digit("v", &mut t));
        parts.push((op, Version(v)));
    }
    let c = version("c", &Shape { epoch: false, rel: 3, pre: false, post: false, dev: false, local: 0, max: false });
    match Specifiers::try_from(t.as_str()) {
        Err(_) => check(false, "a valid list of specifiers is refused"),
        Ok(s) => {
            check(s.0.len() == 2, "specifiers were lost or invented");
            let got = s.satisfied_by(&c);
            let mut want = true;
            for (op, v) in &parts {
                match oracle(*op, v, false, &c) {
                    Is(w) => want &= w,
                    Unclear => return,
                    Error => check(false, "harness"),
                }
            }
            match got {
                Err(_) => check(false, "a valid list of specifiers is refused"),
                Ok(got) => {
                    log("got", got as u64);
                    check(got == want, "a list of specifiers is not the conjunction");
                    reach("list");
                }
            }
        }
    }
}

/// any text as value: an error or an answer, and != is the complement of ==
#[no_mangle]
pub extern "C" fn h_p06_text() {
    let _ = Version::try_from("1");
    let t = over_n("value", param("n", 4) as usize, "019.*!+a-_pr d");
    let c = version("c", &Shape { epoch: false, rel: 1, pre: false, post: false, dev: false, local: 0, max: false });
    let go = |op: CompareOp| {
        let r = Specifier { op, value: t.clone() }.satisfied_by(&c);
        log("r", r.as_ref().map_or(2, |b| *b as u64));
        r.ok()
    };
    let (eq, ne) = (go(CompareOp::Equal), go(CompareOp::NotEqual));
    let (core, wild) = match t.strip_suffix(".*") {
        Some(core) => (core, true),
        None => (t.as_str(), false),
    };
    let valid = match Version::try_from(core) {
        Ok(v) => !wild | (v.0.dev.is_none() & v.0.local.is_empty()),
        Err(_) => false,
    };
    check(valid == eq.is_some(), "a value is accepted that is not a version or a version with one wildcard, or the other way around");
    match (eq, ne) {
        (Some(a), Some(b)) => {
            check(a != b, "!= is not the complement of ==");
            reach("accepted");
        }
        (None, None) => reach("refused"),
        _ => check(false, "== and != do not accept the same values"),
    }
}

/// numbers at the limit of what is representable: an answer that is right, or an error
#[no_mangle]
pub extern "C" fn h_p06_limit() {
    let _ = Version::try_from("1");
    let op = choice("op", 7);
    let mut t = String::new();
    let mut big = |t: &mut String, name: &str| {
        if flag(name) {
            t.push_str("4294967295");
            u32::MAX
        } else {
            t.push('1');
            1
        }
    };
    let mut v = pep440::Version { epoch: 0, release: vec![], pre: None, post: None, dev: None, local: vec![] };
    v.release.push(big(&mut t, "r"));
    t.push('.');
    v.release.push(big(&mut t, "r"));
    if flag("pre") {
        t.push_str("rc");
        v.pre = Some(PreRelease::RC(big(&mut t, "p")));
    }
    if flag("post") {
        t.push_str(".post");
        v.post = Some(big(&mut t, "o"));
    }
    if flag("dev") {
        t.push_str(".dev");
        v.dev = Some(big(&mut t, "d"));
    }
    let v = Version(v);
    let c = version("c", &Shape { epoch: false, rel: 2, pre: true, post: true, dev: true, local: 0, max: false });
    let wild = flag("wild");
    if wild {
        t.push_str(".*");
    }
    let got = Specifier { op: OPS[op], value: t }.satisfied_by(&c);
    if let Ok(got) = got {
        log("got", got as u64);
        match oracle(op, &v, wild, &c) {
            Error => check(false, "an invalid specifier is accepted"),
            Unclear => {}
            Is(want) => check(got == want, "the specifier selects other versions than PEP 440 says"),
        }
        reach("answered");
    } else {
        reach("refused");
    }
}
