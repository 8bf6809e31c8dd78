#[path = "/verif/harness/sym.rs"]
mod sym;
use crate::kvstore::*;
use crate::prelude::*;
use std::path::Path;
use sym::*;
// values handed to the stores; every process inherits them
static mut VALS: Vec<Vec<u8>> = Vec::new();
static mut ROOT: Option<std::path::PathBuf> = None;
fn vals() -> &'static Vec<Vec<u8>> {
    unsafe { &VALS }
}
fn base() -> &'static Path {
    unsafe { ROOT.as_ref().unwrap() }
}
const KEY: &[u8] = b"some key";
// result of a process: status + 16 * (producer ran)
const ERR: u64 = 1;
const NOTHING: u64 = 2;
const PARTIAL: u64 = 3;
const DONE: u64 = 4;
const VALUE: u64 = 5; // VALUE + index
const RAN: u64 = 16;
fn classify(v: &[u8]) -> u64 {
    for (i, w) in vals().iter().enumerate() {
        if v.len() == w.len() && same_bytes(v, w) {
            return VALUE + i as u64;
        }
    }
    PARTIAL
}
fn read_all(r: &mut dyn ReadPlusSeek) -> u64 {
    let mut v = Vec::new();
    match r.read_to_end(&mut v) {
        Ok(_) => classify(&v),
        Err(_) => ERR,
    }
}
fn produce(w: &mut dyn std::io::Write, v: &[u8]) -> Result<()> {
    let (a, b) = v.split_at(1);
    w.write_all(a)?;
    w.write_all(b)?;
    Ok(())
}
// operations: 0/1 get_or_set value 0/1, 2 get, 3/4 replace by value 0/1, 5 get_or_set whose producer fails half way, 6 remove
extern "C" fn file_op(op: u64) -> u64 {
    let store = match KVFileStore::new(&base().join("files")) {
        Ok(s) => s,
        Err(_) => return ERR,
    };
    let mut ran = 0;
    let r = match op {
        0 | 1 | 5 => {
            let i = if op == 1 { 1 } else { 0 };
            match store.get_or_set(&KEY, |w| {
                ran = RAN;
                if op == 5 {
                    w.write_all(&vals()[i][..1])?;
                    bail!("producer failed");
                }
                produce(w, &vals()[i])
            }) {
                Ok(mut r) => read_all(&mut r),
                Err(_) => ERR,
            }
        }
        2 => match store.get(&KEY) {
            Some(mut r) => read_all(&mut r),
            None => NOTHING,
        },
        3 | 4 => {
            let put = || -> Result<u64> {
                let lock = store.lock(&KEY)?;
                let mut w = lock.begin()?;
                produce(&mut w, &vals()[op as usize - 3])?;
                let r = w.commit()?;
                let mut f = r.detach_unlocked();
                Ok(read_all(&mut f))
            };
            put().unwrap_or(ERR)
        }
        _ => match store.lock(&KEY).and_then(|l| l.remove()) {
            Ok(()) => DONE,
            Err(_) => ERR,
        },
    };
    r + ran
}
extern "C" fn dir_op(op: u64) -> u64 {
    let store = match KVDirStore::new(&base().join("dirs")) {
        Ok(s) => s,
        Err(_) => return ERR,
    };
    let mut ran = 0;
    let look = |p: &Path| -> u64 {
        let mut v = match std::fs::read(p.join("one")) {
            Ok(v) => v,
            Err(e) if e.kind() == std::io::ErrorKind::NotFound => return PARTIAL,
            Err(_) => return ERR,
        };
        match std::fs::read(p.join("sub").join("two")) {
            Ok(w) => v.extend(w),
            Err(e) if e.kind() == std::io::ErrorKind::NotFound => return PARTIAL,
            Err(_) => return ERR,
        }
        classify(&v)
    };
    let r = match op {
        0 | 1 | 5 => {
            let i = if op == 1 { 1 } else { 0 };
            match store.get_or_set(&KEY, |p| {
                ran = RAN;
                std::fs::write(p.join("one"), &vals()[i][..1])?;
                if op == 5 {
                    bail!("producer failed");
                }
                std::fs::create_dir(p.join("sub"))?;
                std::fs::write(p.join("sub").join("two"), &vals()[i][1..])?;
                Ok(())
            }) {
                Ok(p) => look(&p),
                Err(_) => ERR,
            }
        }
        2 => match store.lock(&KEY) {
            Ok(l) => {
                if l.exists() {
                    look(&l)
                } else {
                    NOTHING
                }
            }
            Err(_) => ERR,
        },
        _ => {
            // the long form that callers use: lock, look, fill a temporary directory, rename it into place
            let i = op as usize - 3;
            let mut put = || -> Result<u64> {
                let lock = store.lock(&KEY)?;
                if !lock.exists() {
                    ran = RAN;
                    let t = lock.tempdir()?;
                    std::fs::write(t.path().join("one"), &vals()[i][..1])?;
                    std::fs::create_dir(t.path().join("sub"))?;
                    std::fs::write(t.path().join("sub").join("two"), &vals()[i][1..])?;
                    std::fs::rename(t.into_path(), &*lock)?;
                }
                Ok(look(&lock))
            };
            put().unwrap_or(ERR)
        }
    };
    r + ran
}
fn history(run: extern "C" fn(u64) -> u64, nops: usize, files: bool) {
    unsafe {
        VALS = vec![bytes("value0", 3), bytes("value1", 2)];
        ROOT = Some(root());
    }
    let n = param("ops", 2) as usize;
    budget(param("crash", 1), param("fault", 0), 0);
    // possible contents of the store: bit 0 = nothing, bit 1 + i = value i
    let mut may = 1u64;
    for _ in 0..n {
        let op = choice("op", nops) as u64;
        log("op", op);
        let before = crashes_left() + faults_left();
        let r = process(run, op, MAY_CRASH | MAY_FAIL);
        log("result", r);
        let clean = crashes_left() + faults_left() == before;
        let ran = r != CRASHED && r & RAN != 0;
        let v = if r == CRASHED { CRASHED } else { r & 15 };
        let new = match op {
            0 | 1 => 2u64 << op,
            3 | 4 => 2u64 << (op - 3),
            _ => 1,
        };
        let writes = op != 2 && op != 5;
        check(v != PARTIAL, "a partial value is visible");
        if clean {
            check(v != CRASHED, "died without a crash");
            match op {
                2 => {
                    if v == NOTHING {
                        check(may & 1 != 0, "a committed value is gone");
                        may &= 1;
                        reach("nothing");
                    } else {
                        check(v >= VALUE && may & (2 << (v - VALUE)) != 0, "a lookup invents a value");
                        may &= 2 << (v - VALUE);
                        reach("found");
                    }
                }
                6 => {
                    if v == DONE {
                        may = 1;
                    } else {
                        check(may & 1 != 0, "a value cannot be removed");
                        may &= 1;
                    }
                }
                3 | 4 if files => {
                    check(v >= VALUE && 2 << (v - VALUE) == new, "replacing does not return the new value");
                    may = new;
                    reach("replaced");
                }
                _ => {
                    // some get-or-set
                    if ran {
                        check(may & 1 != 0, "the producer ran although a value was committed");
                        if op == 5 {
                            check(v == ERR, "a failing producer yields a value");
                            may &= 1;
                            reach("failed");
                        } else {
                            check(v >= VALUE && 2 << (v - VALUE) == new, "get-or-set does not return what was produced");
                            may = new;
                            reach("produced");
                        }
                    } else {
                        check(v >= VALUE && may & (2 << (v - VALUE)) != 0, "get-or-set returns something never committed, or fails");
                        may &= 2 << (v - VALUE);
                        reach("kept");
                    }
                }
            }
        } else {
            reach(if v == CRASHED { "crashed" } else { "fault" });
            // the operation took effect or it did not
            if v != CRASHED && v >= VALUE {
                check((may | new) & (2 << (v - VALUE)) != 0, "an interrupted operation returns a value never produced");
                if writes {
                    may |= 2 << (v - VALUE);
                }
            } else if writes {
                may |= new;
            }
        }
    }
    // afterwards, everything works again
    budget(0, 0, 0);
    let v = process(run, 2, 0);
    log("after", v);
    check(v != PARTIAL, "a partial value is visible afterwards");
    if v == NOTHING {
        check(may & 1 != 0, "a committed value is lost");
    } else {
        check(v >= VALUE && v < 9 && may & (2 << (v - VALUE)) != 0, "the store holds a value never committed");
    }
    let w = process(run, 1, 0);
    log("again", w);
    if v == NOTHING {
        check(w == VALUE + 1 + RAN, "get-or-set after trouble does not work");
    } else {
        check(w == v, "the committed value does not stay");
    }
    check(process(run, 2, 0) == w & 15, "a later lookup disagrees");
}
#[no_mangle]
pub extern "C" fn h_p11_file() {
    history(file_op, 7, true)
}
#[no_mangle]
pub extern "C" fn h_p11_dir() {
    history(dir_op, 6, false)
}
