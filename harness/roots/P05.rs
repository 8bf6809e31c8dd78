#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/ver.rs"]
mod ver;
use crate::prelude::*;
use std::hash::{Hash, Hasher};
use sym::*;
use ver::*;

struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn fed<T: Hash>(t: &T) -> Vec<u8> {
    let mut h = Rec(Vec::new());
    t.hash(&mut h);
    h.0
}

fn full(rel: usize, local: usize) -> Shape {
    Shape { epoch: true, rel, pre: true, post: true, dev: true, local, max: true }
}

fn pair(a: &Version, b: &Version) {
    let want = version_c(a, b);
    let o = a.cmp(b);
    check(is(o, want), "order is not the PEP 440 order");
    check((a == b) == want.eq(), "equality disagrees with the PEP 440 order");
    check((a < b) == want.0, "operator < disagrees with the PEP 440 order");
    check(is(b.cmp(a), C(want.1, want.0)), "order is not antisymmetric");
    log("cmp", o as i8 as u8 as u64);
    if a == b {
        check(same_bytes(&fed(a), &fed(b)), "equal versions hash differently");
        reach("equal");
    } else {
        reach("different");
    }
}
#[no_mangle]
pub extern "C" fn h_p05_order() {
    let a = version("a", &full(2, 0));
    let b = version("b", &full(2, 0));
    pair(&a, &b);
}
/// release lengths and zero padding
#[no_mangle]
pub extern "C" fn h_p05_release() {
    let s = Shape { epoch: false, rel: param("n", 4) as usize, pre: false, post: true, dev: true, local: 0, max: true };
    let a = version("a", &s);
    let b = version("b", &s);
    pair(&a, &b);
}
#[no_mangle]
pub extern "C" fn h_p05_local() {
    let s = Shape { epoch: false, rel: 1, pre: false, post: false, dev: true, local: param("n", 2) as usize, max: true };
    let a = version("a", &s);
    let b = version("b", &s);
    pair(&a, &b);
}

/// nothing fits between a version and its successor
fn next(v: &Version, w: &Version) {
    let n = v.next();
    let n2 = <Version as pubgrub::version::Version>::bump(v);
    check(n == n2, "bump and next disagree");
    check(n > *v, "the successor is not larger");
    check(!((v < w) & (w < &n)), "a version lies between a version and its successor");
    log_version("next", &n);
    reach("next");
}
#[no_mangle]
pub extern "C" fn h_p05_next() {
    let v = version("v", &full(2, 0));
    let w = version("w", &full(2, 0));
    next(&v, &w);
}
#[no_mangle]
pub extern "C" fn h_p05_next_local() {
    let s = Shape { epoch: false, rel: 1, pre: false, post: true, dev: true, local: 2, max: true };
    let v = version("v", &s);
    let w = version("w", &Shape { rel: 2, pre: true, local: 0, ..s });
    next(&v, &w);
}
#[no_mangle]
pub extern "C" fn h_p05_lowest() {
    let v = version("v", &full(3, 1));
    check(<Version as pubgrub::version::Version>::lowest() <= v, "a version below the minimum");
    check(*VERSION_ZERO <= v, "a version below the minimum");
    check(v.is_prerelease() == (v.0.pre.is_some() | v.0.dev.is_some()), "pre-release is misjudged");
    reach("lowest");
}

/// compiles the regular expressions before the paths split
fn warm() {
    let _ = Version::try_from("1");
}
fn small(name: &str, max: u32) -> u32 {
    let v = byte(name) as u32;
    assume(v < max);
    v
}
/// a version printed and parsed again is the same; numbers below 2^7 or at the u32 limit
#[no_mangle]
pub extern "C" fn h_p05_print() {
    warm();
    let m = param("m", 12) as u32;
    let n = |name: &str| {
        if flag(name) {
            u32::MAX - 1 + (bit(name) as u32)
        } else {
            small(name, m)
        }
    };
    let rel = 1 + choice("nrel", 2);
    let release: Vec<u32> = (0..rel).map(|i| if i == 0 { n("rel") } else { small("rel", m) }).collect();
    use pep440::{LocalVersion::*, PreRelease::*};
    let mut v = pep440::Version { epoch: 0, release, pre: None, post: None, dev: None, local: vec![] };
    v.epoch = small("epoch", 3);
    v.pre = match choice("pre", 4) {
        0 => None,
        1 => Some(A(small("pren", m))),
        2 => Some(B(small("pren", m))),
        _ => Some(RC(small("pren", m))),
    };
    if flag("post") {
        v.post = Some(small("postn", m))
    }
    if flag("dev") {
        v.dev = Some(small("devn", m))
    }
    match choice("local", 3) {
        0 => {}
        1 => v.local.push(NumericComponent(small("loc", m))),
        _ => {
            let mut s = over_n("seg", 1, "az");
            s.push_str(&over("seg2", 0, 1, "09z"));
            v.local.push(StringComponent(s));
            v.local.push(NumericComponent(small("loc", m)));
        }
    }
    let v = Version(v);
    let text = v.to_string();
    log_str("text", &text);
    match Version::try_from(text.as_str()) {
        Err(_) => check(false, "a printed version does not parse"),
        Ok(w) => {
            check(version_c(&v, &w).eq(), "a printed version parses to a different one");
            check(v == w, "a printed version parses to a different one (by ==)");
            reach("printed");
        }
    }
}

/// spelled versions: every alternative spelling PEP 440 normalises, symbolic digits
#[no_mangle]
pub extern "C" fn h_p05_parse() {
    let digit = |name: &str| {
        let b = byte(name);
        assume((b >= b'0') & (b <= b'9'));
        b
    };
    let mut t = String::new();
    let d = |t: &mut String, name: &str| {
        let b = digit(name);
        t.push(b as char);
        (b - b'0') as u32
    };
    use pep440::PreRelease::*;
    let mut want = pep440::Version { epoch: 0, release: vec![], pre: None, post: None, dev: None, local: vec![] };
    warm();
    // which of the parts are spelled in every way (the others in one way)
    let part = param("part", 0);
    let pk = |on: bool, name: &str, o: &[&'static str]| -> &'static str { if on { o[choice(name, o.len())] } else { o[0] } };
    t.push_str(pk(part == 0, "v", &["", "v", "V"]));
    if part == 0 && flag("epoch") {
        want.epoch = d(&mut t, "e");
        t.push('!');
    }
    want.release.push(d(&mut t, "r"));
    if part == 0 && flag("two") {
        let x = d(&mut t, "r1");
        let y = d(&mut t, "r2");
        *want.release.last_mut().unwrap() = want.release[0] * 100 + x * 10 + y;
        t.push('.');
        want.release.push(d(&mut t, "r3"));
    }
    let k = if part == 1 { choice("pre", 12) } else { choice("pre", 2) };
    let mut bare = false;
    if k > 0 {
        let l = ["a", "b", "c", "rc", "alpha", "beta", "pre", "preview", "A", "RC", "Beta"][k - 1];
        t.push_str(pk(part == 1, "presep", &["", ".", "-", "_"]));
        t.push_str(l);
        let n = match choice("pren", 3) {
            0 => 0,
            1 => d(&mut t, "pn"),
            _ => {
                t.push_str(pk(part == 1, "presep2", &[".", "-", "_"]));
                d(&mut t, "pn")
            }
        };
        bare = !t.ends_with(|c: char| c.is_ascii_digit());
        want.pre = Some(match l.as_bytes()[0] | 0x20 {
            b'a' => A(n),
            b'b' => B(n),
            _ => RC(n),
        });
    }
    match choice("post", 4) {
        0 => {}
        // after a bare "1.0a", "-1" is the number of the pre-release
        1 => {
            if bare {
                return;
            }
            t.push('-');
            want.post = Some(d(&mut t, "on"));
        }
        2 => {
            t.push_str(pk(part == 2, "postsep", &["", ".", "-", "_"]));
            t.push_str(pk(part == 2, "postl", &["post", "rev", "r", "Post"]));
            want.post = Some(0);
        }
        _ => {
            t.push_str(pk(part == 2, "postsep", &["", ".", "-", "_"]));
            t.push_str(pk(part == 2, "postl", &["post", "rev", "r"]));
            want.post = Some(d(&mut t, "on"));
        }
    }
    if flag("dev") {
        t.push_str(pk(part == 2, "devsep", &["", ".", "-", "_"]));
        t.push_str(pk(part == 2, "devl", &["dev", "DEV"]));
        want.dev = Some(if flag("devn") { d(&mut t, "dn") } else { 0 });
    }
    let want = Version(want);
    log_str("text", &t);
    match Version::try_from(t.as_str()) {
        Err(_) => check(false, "a valid version is refused"),
        Ok(got) => {
            check(version_c(&want, &got).eq(), "a version is parsed to another one");
            reach("parsed");
        }
    }
}

/// arbitrary short text: no panic, and what is accepted survives printing
#[no_mangle]
pub extern "C" fn h_p05_text() {
    warm();
    let s = over_n("text", param("n", 4) as usize, "019.ab!+-_rvRcdepost ");
    match Version::try_from(s.as_str()) {
        Err(_) => reach("refused"),
        Ok(v) => {
            let t = v.to_string();
            log_str("printed", &t);
            let back = Version::try_from(t.as_str());
            check(back.is_ok() && back.unwrap() == v, "an accepted version does not survive printing");
            match serde_json::to_string(&v) {
                Err(_) => check(false, "a version does not serialise"),
                Ok(j) => {
                    let r: serde_json::Result<Version> = serde_json::from_str(&j);
                    check(r.is_ok() && r.unwrap() == v, "a version does not survive serialisation");
                }
            }
            reach("accepted");
        }
    }
}
