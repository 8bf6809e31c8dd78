#[path = "/verif/harness/sym.rs"]
mod sym;
use crate::kvstore::*;
use crate::prelude::*;
use crate::vocab::ArtifactHash;
use std::path::{Path, PathBuf};
use sym::*;
static mut VALS: Vec<Vec<u8>> = Vec::new();
static mut ROOT: Option<PathBuf> = None;
fn vals() -> &'static Vec<Vec<u8>> {
    unsafe { &VALS }
}
fn base() -> &'static Path {
    unsafe { ROOT.as_ref().unwrap() }
}
const ERR: u64 = 1;
const NOTHING: u64 = 2;
const PARTIAL: u64 = 3;
const DONE: u64 = 4;
const VALUE: u64 = 5;
const RAN: u64 = 16; // the producer ran to its end
const OVERLAP: u64 = 32; // another producer of the same key was at work
const STARTED: u64 = 64;
// op codes: what + 16 * (who) + 64 * (key)
fn key(op: u64) -> &'static [u8] {
    if op & 64 != 0 {
        b"another key"
    } else {
        b"some key"
    }
}
fn classify(v: &[u8]) -> u64 {
    for (i, w) in vals().iter().enumerate() {
        if v.len() == w.len() && same_bytes(v, w) {
            return VALUE + i as u64;
        }
    }
    PARTIAL
}
fn read_all(r: &mut dyn ReadPlusSeek) -> u64 {
    let mut v = Vec::new();
    match r.read_to_end(&mut v) {
        Ok(_) => classify(&v),
        Err(_) => ERR,
    }
}
/// the producers announce themselves, so that two at a time are noticed
fn alone(op: u64, f: &mut dyn FnMut() -> Result<()>) -> (Result<()>, u64) {
    let mark = base().join(if op & 64 != 0 { "busy2" } else { "busy1" });
    let first = std::fs::OpenOptions::new().write(true).create_new(true).open(&mark).is_ok();
    let r = f();
    let mut flags = STARTED;
    if r.is_ok() {
        flags |= RAN;
    }
    if first {
        // the mark of a process that was killed stays; the checks below allow for it
        let _ = std::fs::remove_file(&mark);
    } else {
        flags |= OVERLAP;
    }
    (r, flags)
}
extern "C" fn file_op(op: u64) -> u64 {
    let store = match KVFileStore::new(&base().join("files")) {
        Ok(s) => s,
        Err(_) => return ERR,
    };
    let v = &vals()[(op >> 4 & 3) as usize];
    let k = key(op);
    let mut flags = 0;
    let r = match op & 15 {
        0 | 1 => match store.get_or_set(&k, |w| {
            let (r, f) = alone(op, &mut || {
                w.write_all(&v[..1])?;
                if op & 15 == 1 {
                    bail!("producer failed");
                }
                w.write_all(&v[1..])?;
                Ok(())
            });
            flags |= f;
            r
        }) {
            Ok(mut r) => read_all(&mut r),
            Err(_) => ERR,
        },
        2 => match store.get(&k) {
            Some(mut r) => read_all(&mut r),
            None => NOTHING,
        },
        3 => {
            let mut put = || -> Result<u64> {
                let lock = store.lock(&k)?;
                let mut w = lock.begin()?;
                let (r, f) = alone(op, &mut || {
                    w.write_all(&v[..1])?;
                    w.write_all(&v[1..])?;
                    Ok(())
                });
                flags |= f;
                r?;
                let mut f = w.commit()?.detach_unlocked();
                Ok(read_all(&mut f))
            };
            put().unwrap_or(ERR)
        }
        _ => match store.lock(&k).and_then(|l| l.remove()) {
            Ok(()) => DONE,
            Err(_) => ERR,
        },
    };
    r + flags
}
fn look(p: &Path) -> u64 {
    let mut v = match std::fs::read(p.join("one")) {
        Ok(v) => v,
        Err(_) => return PARTIAL,
    };
    match std::fs::read(p.join("two")) {
        Ok(w) => v.extend(w),
        Err(_) => return PARTIAL,
    }
    classify(&v)
}
extern "C" fn dir_op(op: u64) -> u64 {
    let store = match KVDirStore::new(&base().join("dirs")) {
        Ok(s) => s,
        Err(_) => return ERR,
    };
    let v = &vals()[(op >> 4 & 3) as usize];
    let k = key(op);
    let mut flags = 0;
    let r = match op & 15 {
        0 | 1 => match store.get_or_set(&k, |p| {
            let (r, f) = alone(op, &mut || {
                std::fs::write(p.join("one"), &v[..1])?;
                if op & 15 == 1 {
                    bail!("producer failed");
                }
                std::fs::write(p.join("two"), &v[1..])?;
                Ok(())
            });
            flags |= f;
            r
        }) {
            Ok(p) => look(&p),
            Err(_) => ERR,
        },
        _ => match store.lock(&k) {
            Ok(l) => {
                if l.exists() {
                    look(&l)
                } else {
                    NOTHING
                }
            }
            Err(_) => ERR,
        },
    };
    r + flags
}
fn val(r: u64) -> u64 {
    if r == CRASHED {
        CRASHED
    } else {
        r & 15
    }
}
fn has(r: u64, f: u64) -> bool {
    r != CRASHED && r & f != 0
}
fn setup(n: usize) {
    unsafe {
        VALS = (0..n).map(|i| bytes("value", i + 1)).collect();
        ROOT = Some(root());
    }
    if param("pre", 0) == 1 {
        // the directories exist already
        let _ = KVFileStore::new(&base().join("files"));
        let _ = KVDirStore::new(&base().join("dirs"));
    }
}
/// two processes (three with procs=3), the same key, every interleaving of their file-system calls with a bounded number of preemptions
fn race(run: extern "C" fn(u64) -> u64, nops: usize) {
    let n = param("procs", 2) as usize;
    setup(n + 1);
    let crash = param("crash", 0);
    budget(crash, 0, param("switch", 2));
    let mut ops = vec![];
    for i in 0..n {
        // without symmetric duplicates: the first process always is a get-or-set
        let what = if i == 0 { choice("op", 2) } else { choice("op", nops) } as u64;
        log("op", what);
        ops.push((run, what + 16 * i as u64));
    }
    let rs = processes(&ops, MAY_CRASH);
    let crashed = rs.iter().any(|r| *r == CRASHED);
    let mut done = 0;
    let mut seen = u64::MAX;
    for (i, r) in rs.iter().enumerate() {
        log("result", *r);
        let what = ops[i].1 & 15;
        check(val(*r) != PARTIAL, "a partial value is visible");
        if crash == 0 {
            check(!has(*r, OVERLAP), "two producers of one key at a time");
        }
        if what == 0 && has(*r, RAN) {
            done += 1;
        }
        if what == 0 && *r != CRASHED {
            check(val(*r) >= VALUE, "a get-or-set fails although its producer works");
        }
        if what == 1 && has(*r, STARTED) {
            check(val(*r) == ERR, "a failing producer yields a value");
        }
        if *r != CRASHED && val(*r) >= VALUE && what < 3 {
            if seen == u64::MAX {
                seen = val(*r);
            }
        }
    }
    let others = ops.iter().any(|o| o.1 & 15 > 2);
    if !others {
        // replacing and removing aside, everybody sees one value, made once
        check(done <= 1 || crashed, "two producers ran to completion");
        for (i, r) in rs.iter().enumerate() {
            if *r != CRASHED && val(*r) >= VALUE && ops[i].1 & 15 < 3 {
                check(val(*r) == seen, "callers disagree about the value");
            }
        }
        if done == 1 {
            reach("once");
        }
    } else {
        reach("replaced");
    }
    if crashed {
        reach("crashed");
    }
    // everything works afterwards, and what is stored is what was agreed on
    budget(0, 0, 0);
    let after = process(run, 2, 0);
    check(val(after) != PARTIAL && val(after) != ERR, "a partial value is visible afterwards");
    if !others && seen != u64::MAX {
        check(val(after) == seen, "the stored value is not the one the callers got");
    }
    let again = process(run, 16 * n as u64, 0);
    if val(after) == NOTHING {
        check(val(again) == VALUE + n as u64, "the store is unusable afterwards");
    } else {
        check(val(again) == val(after) && !has(again, STARTED), "the stored value does not stay");
    }
}
#[no_mangle]
pub extern "C" fn h_p12_files() {
    race(file_op, 5)
}
#[no_mangle]
pub extern "C" fn h_p12_dirs() {
    race(dir_op, 3)
}
/// different keys do not wait for or disturb each other
fn apart(run: extern "C" fn(u64) -> u64) {
    setup(2);
    budget(0, 0, param("switch", 2));
    let rs = processes(&[(run, 0), (run, 16 + 64)], 0);
    check(val(rs[0]) == VALUE && has(rs[0], RAN), "first key");
    check(val(rs[1]) == VALUE + 1 && has(rs[1], RAN), "second key");
    check(val(process(run, 2, 0)) == VALUE && val(process(run, 2 + 64, 0)) == VALUE + 1, "keys are mixed up");
    reach("apart");
}
#[no_mangle]
pub extern "C" fn h_p12_apart_files() {
    apart(file_op)
}
#[no_mangle]
pub extern "C" fn h_p12_apart_dirs() {
    apart(dir_op)
}
/// keys: different keys have different places, none inside or beside the other's lock
fn text(k: &Path) -> Vec<u8> {
    use std::os::unix::ffi::OsStrExt;
    k.as_os_str().as_bytes().to_vec()
}
/// a is b, or lies on the way to b
fn clash(a: &[u8], b: &[u8]) -> bool {
    a.len() <= b.len() && (a.len() == b.len() || b[a.len()] == b'/') && same_bytes(a, &b[..a.len()])
}
fn either(a: &[u8], b: &[u8]) -> bool {
    clash(a, b) || clash(b, a)
}
fn lock_of(a: &[u8]) -> Vec<u8> {
    let mut l = a.to_vec();
    l.extend_from_slice(b".lock");
    l
}
fn distinct(a: &Path, b: &Path) {
    let (x, y) = (text(a), text(b));
    check(!either(&x, &y), "two keys share a place");
    check(!either(&lock_of(&x), &y), "a key's place is another key's lock");
    check(!either(&lock_of(&y), &x), "a key's place is another key's lock");
    check(!either(&lock_of(&x), &lock_of(&y)), "two keys share a lock");
}
#[no_mangle]
pub extern "C" fn h_p12_hash_keys() {
    // digests of equal or different lengths, one or two algorithm names
    let modes = ["sha256", "sha512", "md5", "sha25", "tmp"];
    let (m1, m2) = (pick("mode", &modes[..1]), pick("mode", &modes));
    let (n, m) = (param("n", 4) as usize, param("m", 4) as usize);
    let (a, b) = (bytes("a", n), bytes("b", m));
    assume(m1 != m2 || n != m || !same_bytes(&a, &b));
    let (a, b) = (ArtifactHash { mode: m1.into(), raw_data: a }, ArtifactHash { mode: m2.into(), raw_data: b });
    distinct(&a.key(), &b.key());
    reach("keys");
}
#[no_mangle]
pub extern "C" fn h_p12_blob_keys() {
    let (n, m) = (param("n", 2) as usize, param("m", 2) as usize);
    let (a, b) = (bytes("a", n), bytes("b", m));
    assume(n != m || !same_bytes(&a, &b));
    distinct(&a.as_slice().key(), &b.as_slice().key());
    let h = ArtifactHash { mode: "sha256".into(), raw_data: bytes("h", 4) };
    distinct(&a.as_slice().key(), &h.key());
    reach("keys");
}
