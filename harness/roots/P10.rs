#[path = "/verif/harness/sym.rs"]
mod sym;
use crate::kvstore::PathKey;
use crate::prelude::*;
use crate::vocab::ArtifactHash;
use std::io::{self, Write};
use std::path::Component;
use sym::*;

fn parse(s: &str, route: usize) -> Option<ArtifactHash> {
    match route {
        0 => ArtifactHash::try_from(s).ok(),
        1 => s.parse().ok(),
        2 => ArtifactHash::try_from(s.to_string()).ok(),
        _ => s.split_once('=').and_then(|(m, h)| ArtifactHash::from_hex(m, h).ok()),
    }
}
/// the storage key names a place inside the store, below the algorithm and apart from every lock
fn check_key(h: &ArtifactHash) {
    let k = h.key();
    let mut n = 0;
    for c in k.components() {
        match c {
            Component::Normal(c) => {
                n += 1;
                let c = c.to_str();
                check(c.is_some(), "key is not text");
                let c = c.unwrap();
                check(!c.is_empty(), "empty component in a key");
                for b in c.bytes() {
                    check(b > 32 && b != b'.' && b < 127 && b != b'\\' && b != b':' && b != b'/', "unsafe character in a key");
                }
            }
            _ => check(false, "a key leaves the store"),
        }
    }
    check(n >= 2, "a key is too shallow");
    let t = k.to_str().unwrap();
    check(!t.ends_with('/'), "a key ends in a separator");
    check(k.is_relative(), "a key is absolute");
}
fn hexval(b: u8) -> u8 {
    if b <= b'9' {
        b.wrapping_sub(b'0')
    } else {
        (b | 32).wrapping_sub(b'a' - 10)
    }
}
fn is_hex(b: u8) -> bool {
    ((b >= b'0') & (b <= b'9')) | (((b | 32) >= b'a') & ((b | 32) <= b'f'))
}
fn one(s: &str, route: usize) {
    let h = match parse(s, route) {
        Some(h) => h,
        None => {
            reach("refused");
            return;
        }
    };
    reach("accepted");
    log_str("text", s);
    let t = h.to_string();
    log_str("printed", &t);
    match ArtifactHash::try_from(&*t) {
        Ok(g) => {
            check(same_bytes(&g.raw_data, &h.raw_data) & same_str(&g.mode, &h.mode), "printing changes the hash");
            check(g == h, "a printed hash is not equal");
        }
        Err(_) => check(false, "a printed hash does not parse"),
    }
    // strict: algorithm, '=', and exactly the digits of the digest
    let b = s.as_bytes();
    let m = h.mode.len();
    check(b.len() == m + 1 + 2 * h.raw_data.len(), "characters of the text are ignored");
    check(same_bytes(&b[..m], h.mode.as_bytes()) && b[m] == b'=', "the algorithm is changed");
    let mut ok = true;
    for i in 0..h.raw_data.len() {
        let (x, y) = (b[m + 1 + 2 * i], b[m + 2 + 2 * i]);
        ok &= is_hex(x) & is_hex(y) & (h.raw_data[i] == (hexval(x) << 4 | hexval(y)));
    }
    check(ok, "the digest is changed");
    check_key(&h);
    // only a supported algorithm is accepted for checking
    let c = h.checker(io::sink()).is_ok();
    check(c == (h.mode == "sha256"), "checker accepts exactly the supported algorithm");
}
#[no_mangle]
pub extern "C" fn h_p10_text() {
    let s = ascii_n("s", param("n", 5) as usize);
    one(&s, 0)
}
#[no_mangle]
pub extern "C" fn h_p10_mode() {
    // any text before the first '=', then digits
    let n = param("n", 3) as usize;
    let mut s = ascii_n("mode", n);
    s.push('=');
    s.push_str(pick("hex", &["", "00", "0001", "012345", "00fF09aB", "0123456789abcdef0123456789ABCDEF", "zz", "0"]));
    one(&s, choice("route", 4))
}
#[no_mangle]
pub extern "C" fn h_p10_hex() {
    let mut s = String::from("sha256=");
    let h = ascii_n("hex", param("n", 4) as usize);
    s.push_str(&h);
    s.push_str(pick("rest", &["", "0123456789abcdef"]));
    one(&s, 0)
}
/// every 32-byte digest is accepted in its text form
#[no_mangle]
pub extern "C" fn h_p10_full() {
    let d = bytes("digest", 32);
    let up = flag("upper");
    let mut s = String::from("sha256=");
    for b in &d {
        for x in [b >> 4, b & 15] {
            // two's complement arithmetic instead of a branch per digit
            let l = if up { 7u8 } else { 39 };
            s.push((b'0' + x + (((9u8.wrapping_sub(x)) >> 7) * l)) as char);
        }
    }
    match parse(&s, choice("route", 4)) {
        Some(h) => {
            check(same_bytes(&h.raw_data, &d), "the digest is changed");
            check_key_shape(&h);
            reach("accepted");
        }
        None => check(false, "a well-formed hash is refused"),
    }
}
fn check_key_shape(h: &ArtifactHash) {
    check(h.mode == "sha256", "the algorithm is changed");
    check(h.checker(io::sink()).is_ok(), "sha256 is not supported");
}
/// a writer that may take fewer bytes than offered, or fail
struct Slow {
    got: Vec<u8>,
    fails: bool,
}
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let k = choice("take", if b.len() > 1 { 3 } else { 2 });
        match k {
            0 => {
                self.got.extend_from_slice(b);
                Ok(b.len())
            }
            1 => {
                self.fails = true;
                Err(io::ErrorKind::Other.into())
            }
            _ => {
                self.got.push(b[0]);
                Ok(1)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
#[no_mangle]
pub extern "C" fn h_p10_check() {
    let n = param("n", 4) as usize;
    let data = bytes("data", n);
    let want = bytes("want", param("len", 32) as usize);
    let h = ArtifactHash { mode: "sha256".into(), raw_data: want.clone() };
    let mut c = match h.checker(Slow { got: vec![], fails: false }) {
        Ok(c) => c,
        Err(_) => return check(false, "sha256 is not supported"),
    };
    let mut at = 0;
    let mut failed = false;
    let mut parts = 0;
    while at < n && !failed && parts < param("parts", 3) {
        let k = 1 + choice("cut", n - at);
        parts += 1;
        match choice("how", 2) {
            0 => match c.write_all(&data[at..at + k]) {
                Ok(()) => at += k,
                Err(_) => failed = true,
            },
            _ => match c.write(&data[at..at + k]) {
                Ok(m) => {
                    check(m <= k, "writes more than it was given");
                    at += m
                }
                Err(_) => failed = true,
            },
        }
        if flag("flush") {
            check(c.flush().is_ok(), "flush fails");
        }
    }
    if failed {
        // the bytes that did arrive are what counts
        reach("write failed");
    }
    let real = |b: &[u8]| ring::digest::digest(&ring::digest::SHA256, b).as_ref().to_vec();
    match c.finish() {
        Ok(w) => {
            reach("match");
            check(same_bytes(&real(&w.got), &want), "content with another digest is accepted");
            if !failed {
                check(same_bytes(&w.got, &data[..at]), "content is changed");
            }
        }
        Err(_) => {
            reach("mismatch");
            if !failed {
                check(!same_bytes(&real(&data[..at]), &want), "content with the right digest is refused");
            }
        }
    }
}
