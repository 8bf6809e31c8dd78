#[path = "/verif/harness/sym.rs"]
mod sym;
use crate::seek_slice::SeekSlice;
use std::io::{self, Read, Seek, SeekFrom};
use sym::*;

/// An endless stream: the byte at position p is low(p) ^ key. Reads may be short.
struct Tape {
    pos: u64,
    key: u8,
    /// where the last read started and how much it asked for
    read_at: u64,
    asked: u64,
    reads: u32,
    limit: u64,
    beyond: bool,
}
fn at(p: u64, key: u8) -> u8 {
    (p as u8) ^ key
}
impl Read for Tape {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.read_at = self.pos;
        self.asked = b.len() as u64;
        self.reads += 1;
        let n = if b.len() > 1 && flag("short") { 1 } else { b.len() };
        for i in 0..n {
            self.beyond |= self.pos >= self.limit;
            b[i] = at(self.pos, self.key);
            self.pos = self.pos.wrapping_add(1);
        }
        Ok(n)
    }
}
impl Seek for Tape {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        match s {
            SeekFrom::Start(p) => self.pos = p,
            SeekFrom::Current(d) => self.pos = self.pos.wrapping_add(d as u64),
            SeekFrom::End(_) => return Err(io::ErrorKind::Unsupported.into()),
        }
        Ok(self.pos)
    }
}

fn step(s: &mut SeekSlice<&mut Tape>, t: *const Tape, start: u64, len: u64, key: u8, at_: &mut u64, only_seek: bool) {
    let tape = || unsafe { &*t };
    let k = choice("op", if only_seek { 3 } else { 5 });
    match k {
        0 | 1 | 2 => {
            // whole 64-bit range, or 12 bits (either sign) to keep several steps decidable
            let v = if param("wide", 0) == 1 { u64v("by") } else { if param("wide", 0) == 2 { byte("by") as i8 as i64 as u64 } else { (u16v("by") as i16 >> 4) as i64 as u64 } };
            let (pos, goal) = match k {
                0 => (SeekFrom::Start(v), v as i128),
                1 => (SeekFrom::End(v as i64), len as i128 + (v as i64) as i128),
                _ => (SeekFrom::Current(v as i64), *at_ as i128 + (v as i64) as i128),
            };
            let ok = (goal >= 0) & (goal <= len as i128);
            match s.seek(pos) {
                Ok(p) => {
                    check(ok, "a seek outside the window succeeds");
                    check(p as i128 == goal, "a seek reports a wrong position");
                    *at_ = goal as u64;
                    reach("seek");
                    log("pos", p);
                }
                Err(_) => {
                    check(!ok, "a seek within the window fails");
                    reach("refused");
                }
            }
        }
        3 => {
            let n = choice("n", 4);
            let mut b = [0xEEu8; 3];
            match s.read(&mut b[..n]) {
                Err(_) => check(false, "a read fails"),
                Ok(got) => {
                    let left = len - *at_;
                    check(got <= n, "a read returns more than was asked for");
                    check(got as u64 <= left, "a read goes beyond the window");
                    if got == 0 {
                        check((left == 0) | (n == 0), "end of file is reported too early");
                        reach("eof");
                    } else {
                        check(tape().read_at == start.wrapping_add(*at_), "a read comes from another place");
                        for i in 0..got {
                            check(b[i] == at(start.wrapping_add(*at_).wrapping_add(i as u64), key), "a read returns other bytes");
                        }
                        reach("read");
                    }
                    for i in got..3 {
                        check(b[i] == 0xEE, "a read changes bytes it does not report");
                    }
                    *at_ += got as u64;
                    log("read", got as u64);
                }
            }
        }
        _ => match s.stream_position() {
            Ok(p) => check(p == *at_, "the position reported is wrong"),
            Err(_) => check(false, "asking for the position fails"),
        },
    }
    check(!tape().beyond, "bytes behind the window are touched");
}

fn run(start: u64, len: u64, ops: usize, only_seek: bool) {
    let key = byte("key");
    let end = start + len;
    let mut tape = Tape { pos: u16v("pos") as u64, key, read_at: 0, asked: 0, reads: 0, limit: end, beyond: false };
    let p: *const Tape = &tape;
    let mut s = match SeekSlice::new(&mut tape, start, end) {
        Ok(s) => s,
        Err(_) => {
            check(false, "a window cannot be made");
            return;
        }
    };
    let mut at_ = 0;
    for i in 0..ops {
        step(&mut s, p, start, len, key, &mut at_, only_seek && i + 1 < ops);
    }
}
/// any window in a stream of any size, any seeks, then anything
#[no_mangle]
pub extern "C" fn h_p13_any() {
    let wide = param("wide", 0) == 1;
    let start = if wide { u64v("start") } else { u16v("start") as u64 };
    let len = if wide { u64v("len") } else { (u16v("len") & 0xfff) as u64 };
    assume(start.checked_add(len).is_some());
    run(start, len, param("n", 2) as usize, false);
}
/// small windows, more operations
#[no_mangle]
pub extern "C" fn h_p13_small() {
    let start = 7 * choice("start", 2) as u64;
    let len = choice("len", 4) as u64;
    run(start, len, param("n", 3) as usize, false);
}
/// reading to the end, whatever came before
#[no_mangle]
pub extern "C" fn h_p13_drain() {
    let start = 7 * choice("start", 2) as u64;
    let len = choice("len", 4) as u64;
    let key = byte("key");
    let mut tape = Tape { pos: 0, key, read_at: 0, asked: 0, reads: 0, limit: start + len, beyond: false };
    let p: *const Tape = &tape;
    let mut s = SeekSlice::new(&mut tape, start, start + len).unwrap();
    let mut at_ = 0;
    for _ in 0..param("n", 1) {
        step(&mut s, p, start, len, key, &mut at_, false);
    }
    let mut v = Vec::new();
    match s.read_to_end(&mut v) {
        Err(_) => check(false, "reading to the end fails"),
        Ok(n) => {
            check(n == v.len() && n as u64 == len - at_, "reading to the end returns another amount");
            for i in 0..v.len() {
                check(v[i] == at(start + at_ + i as u64, key), "a read returns other bytes");
            }
            check(s.seek(SeekFrom::Start(0)).is_ok(), "a window cannot be rewound");
            reach("drained");
        }
    }
}
