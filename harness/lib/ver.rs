// Symbolic PEP 440 versions and an independent comparison.
#![allow(dead_code)]
use super::sym::*;
use crate::prelude::*;
use pep440::{LocalVersion, PreRelease};
use std::cmp::Ordering;

/// a symbolic number strictly below u32::MAX
pub fn num(name: &str) -> u32 {
    let v = u32v(name);
    assume(v != u32::MAX);
    v
}
pub struct Shape {
    pub epoch: bool,
    pub rel: usize,  // 1..=rel segments
    pub pre: bool,
    pub post: bool,
    pub dev: bool,
    pub local: usize, // up to that many segments
    pub max: bool,    // numbers may be u32::MAX
}
fn n(s: &Shape, name: &str) -> u32 {
    if s.max {
        u32v(name)
    } else {
        num(name)
    }
}
pub fn version(tag: &str, s: &Shape) -> Version {
    let nm = |x: &str| {
        let mut t = String::from(tag);
        t.push('.');
        t.push_str(x);
        t
    };
    let epoch = if s.epoch { n(s, &nm("epoch")) } else { 0 };
    let rel = 1 + choice(&nm("nrel"), s.rel);
    let mut release = Vec::new();
    for _ in 0..rel {
        release.push(n(s, &nm("rel")));
    }
    let pre = match if s.pre { choice(&nm("haspre"), 4) } else { 0 } {
        0 => None,
        1 => Some(PreRelease::A(n(s, &nm("pre")))),
        2 => Some(PreRelease::B(n(s, &nm("pre")))),
        _ => Some(PreRelease::RC(n(s, &nm("pre")))),
    };
    let post = if s.post && flag(&nm("haspost")) { Some(n(s, &nm("post"))) } else { None };
    let dev = if s.dev && flag(&nm("hasdev")) { Some(n(s, &nm("dev"))) } else { None };
    let mut local = Vec::new();
    for _ in 0..choice(&nm("nlocal"), s.local + 1) {
        local.push(match flag(&nm("numeric")) {
            true => LocalVersion::NumericComponent(n(s, &nm("local"))),
            false => {
                // a segment with a letter in it
                let mut v = over_n(&nm("seg"), 1, "abz");
                v.push_str(&over(&nm("seg"), 0, 1, "09az"));
                LocalVersion::StringComponent(v)
            }
        });
    }
    Version(pep440::Version { epoch, release, pre, post, dev, local })
}
pub fn log_version(tag: &str, v: &Version) {
    let v = &v.0;
    log(tag, v.epoch as u64);
    for r in &v.release {
        log(tag, *r as u64);
    }
    log(tag, match &v.pre {
        None => 0,
        Some(PreRelease::A(n)) => 1 << 40 | *n as u64,
        Some(PreRelease::B(n)) => 2 << 40 | *n as u64,
        Some(PreRelease::RC(n)) => 3 << 40 | *n as u64,
    });
    log(tag, v.post.map_or(u64::MAX, |x| x as u64));
    log(tag, v.dev.map_or(u64::MAX, |x| x as u64));
    for l in &v.local {
        match l {
            LocalVersion::NumericComponent(n) => log(tag, *n as u64),
            LocalVersion::StringComponent(s) => log_str(tag, s),
        }
    }
}

/// Three-way result kept as (less, greater) so that lexicographic combination does not branch.
#[derive(Clone, Copy)]
pub struct C(pub bool, pub bool);
impl C {
    pub const EQ: C = C(false, false);
    pub fn then(self, o: C) -> C {
        let e = !(self.0 | self.1);
        C(self.0 | (e & o.0), self.1 | (e & o.1))
    }
    pub fn lt(self) -> bool {
        self.0
    }
    pub fn eq(self) -> bool {
        !(self.0 | self.1)
    }
    pub fn le(self) -> bool {
        !self.1
    }
}
pub fn c64(a: u64, b: u64) -> C {
    C(a < b, a > b)
}
pub fn epoch_c(a: &Version, b: &Version) -> C {
    c64(a.0.epoch as u64, b.0.epoch as u64)
}
/// release segments, zero padded
pub fn release_c(a: &[u32], b: &[u32]) -> C {
    let mut c = C::EQ;
    for i in 0..a.len().max(b.len()) {
        let x = if i < a.len() { a[i] } else { 0 };
        let y = if i < b.len() { b[i] } else { 0 };
        c = c.then(c64(x as u64, y as u64));
    }
    c
}
/// phase of a release: dev-only < aN < bN < rcN < final
pub fn phase(v: &Version) -> (u64, u64) {
    match &v.0.pre {
        Some(PreRelease::A(n)) => (1, *n as u64),
        Some(PreRelease::B(n)) => (2, *n as u64),
        Some(PreRelease::RC(n)) => (3, *n as u64),
        None => {
            if v.0.post.is_none() && v.0.dev.is_some() {
                (0, 0)
            } else {
                (4, 0)
            }
        }
    }
}
pub fn public_c(a: &Version, b: &Version) -> C {
    let (pa, pb) = (phase(a), phase(b));
    let po = |v: &Version| v.0.post.map_or(0, |x| x as u64 + 1);
    let de = |v: &Version| v.0.dev.map_or(u64::MAX, |x| x as u64);
    epoch_c(a, b)
        .then(release_c(&a.0.release, &b.0.release))
        .then(c64(pa.0, pb.0))
        .then(c64(pa.1, pb.1))
        .then(c64(po(a), po(b)))
        .then(c64(de(a), de(b)))
}
pub fn str_c(a: &[u8], b: &[u8]) -> C {
    let mut c = C::EQ;
    for i in 0..a.len().min(b.len()) {
        c = c.then(c64(a[i] as u64, b[i] as u64));
    }
    c.then(c64(a.len() as u64, b.len() as u64))
}
/// no local < any local; text < number; a longer one with the same start is larger
pub fn local_c(a: &[LocalVersion], b: &[LocalVersion]) -> C {
    use LocalVersion::*;
    let mut c = C::EQ;
    for i in 0..a.len().min(b.len()) {
        c = c.then(match (&a[i], &b[i]) {
            (NumericComponent(x), NumericComponent(y)) => c64(*x as u64, *y as u64),
            (StringComponent(x), StringComponent(y)) => str_c(x.as_bytes(), y.as_bytes()),
            (StringComponent(_), NumericComponent(_)) => C(true, false),
            (NumericComponent(_), StringComponent(_)) => C(false, true),
        });
    }
    c.then(c64(a.len() as u64, b.len() as u64))
}
pub fn version_c(a: &Version, b: &Version) -> C {
    public_c(a, b).then(local_c(&a.0.local, &b.0.local))
}
pub fn is(o: Ordering, c: C) -> bool {
    match o {
        Ordering::Less => c.0 & !c.1,
        Ordering::Greater => c.1 & !c.0,
        Ordering::Equal => c.eq(),
    }
}
