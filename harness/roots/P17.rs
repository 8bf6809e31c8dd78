#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/world.rs"]
mod world;
use crate::prelude::*;
use std::cell::RefCell;
use std::io::{Cursor, SeekFrom};
use sym::*;
use world::*;

const URL: &str = "https://files.example/foo-1-py3-none-any.whl";
/// a server that honours range requests
fn honest(file: Rc<Vec<u8>>) {
    serve(move |seen| {
        let len = file.len() as u64;
        match range(&seen) {
            None => answer(200, &[], file.to_vec()),
            Some((a, b)) => {
                if a >= len || a > b {
                    return answer(416, &[("Content-Range", &format!("bytes */{len}"))], vec![]);
                }
                let b = b.min(len - 1);
                answer(206, &[("Content-Range", &format!("bytes {a}-{b}/{len}"))], file[a as usize..=b as usize].to_vec())
            }
        }
    });
}
fn seek_both(f: &mut dyn ReadPlusSeek, c: &mut Cursor<&[u8]>, to: SeekFrom) {
    match (f.seek(to), c.seek(to)) {
        (Ok(a), Ok(b)) => check(a == b, "a seek ends at another position"),
        (Err(_), Err(_)) => reach("bad seek"),
        _ => check(false, "a seek is accepted for one file and refused for the other"),
    }
    check(f.stream_position().ok() == c.stream_position().ok(), "the position differs after a seek");
}
/// a read may return less than asked for, but never nothing before the end, and always the right bytes
fn read_both(f: &mut dyn ReadPlusSeek, c: &mut Cursor<&[u8]>, n: usize) {
    let all: &[u8] = c.get_ref();
    let pos = c.position();
    let at = pos.min(all.len() as u64) as usize;
    let rest = &all[at..];
    let mut buf = vec![0x5a; n];
    match f.read(&mut buf) {
        Err(_) => check(false, "a read from a server that honours ranges fails"),
        Ok(k) => {
            check(k <= n && k <= rest.len() && (k > 0 || n == 0 || rest.is_empty()), "a read returns a wrong number of bytes");
            check(same_bytes(&buf[..k], &rest[..k]), "a read returns wrong bytes");
            let mut tail = 0u8;
            for b in &buf[k..] {
                tail |= b ^ 0x5a;
            }
            check(tail == 0, "a read writes beyond what it returns");
            reach(if k == 0 { "end of file" } else if k < n { "short read" } else { "full read" });
            c.set_position(pos + k as u64);
            check(f.stream_position().ok() == Some(c.position()), "the position differs after a read");
        }
    }
}
/// any seeks at all, compared with the standard library's in-memory file
#[no_mangle]
pub extern "C" fn h_p17_seek() {
    let file = Rc::new(bytes("file", param("n", 2) as usize));
    honest(file.clone());
    let ops = param("ops", 2);
    let ok = remotely(URL, None, move |f| {
        let mut c = Cursor::new(&file[..]);
        for _ in 0..ops {
            let to = match choice("whence", 3) {
                0 => SeekFrom::Start(u64v("offset")),
                1 => SeekFrom::End(u64v("offset") as i64),
                _ => SeekFrom::Current(u64v("offset") as i64),
            };
            seek_both(f, &mut c, to);
        }
        read_both(f, &mut c, 2);
    });
    check(ok, "a file on a server that honours ranges cannot be opened");
}
/// seeks and reads in a file of a few bytes
#[no_mangle]
pub extern "C" fn h_p17_small() {
    let n = param("n", 3) as usize;
    let file = Rc::new(bytes("file", n));
    honest(file.clone());
    let ops = param("ops", 2);
    let ok = remotely(URL, None, move |f| {
        let mut c = Cursor::new(&file[..]);
        for _ in 0..ops {
            if flag("seek") {
                let p = byte("to");
                assume(p as usize <= n + 1);
                seek_both(f, &mut c, SeekFrom::Start(p as u64));
            }
            read_both(f, &mut c, [1, n, n + 2, 0][choice("length", 4)]);
        }
    });
    check(ok, "a file on a server that honours ranges cannot be opened");
}
/// seeks and reads around the borders of what is fetched at a time
#[no_mangle]
pub extern "C" fn h_p17_large() {
    let sizes = [25_000usize, 10_000, 9_999, 10_001, 20_001];
    let n = sizes[param("size", 0) as usize];
    // bytes are symbolic around the borders
    let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    for m in [0, 4_999, 9_999, 10_000, 14_999, 15_000, n - 1] {
        if m < n {
            v[m] = byte("file");
        }
    }
    let file = Rc::new(v);
    honest(file.clone());
    let ops = param("ops", 2);
    let ok = remotely(URL, None, move |f| {
        let mut c = Cursor::new(&file[..]);
        for _ in 0..ops {
            let base = [0i64, 5_000, 10_000, 15_000, n as i64 - 10_000, n as i64][choice("base", 6)];
            let d = choice("delta", 3) as i64 - 1;
            assume(base + d >= 0);
            seek_both(f, &mut c, SeekFrom::Start((base + d) as u64));
            read_both(f, &mut c, [1, 3, 12_000][choice("length", 3)]);
        }
    });
    check(ok, "a file on a server that honours ranges cannot be opened");
}
/// a server that sends whatever it likes
#[no_mangle]
pub extern "C" fn h_p17_hostile() {
    let ops = param("ops", 2);
    let most = param("n", 3) as usize;
    let sent: Rc<RefCell<Vec<(u64, Vec<u8>)>>> = Default::default();
    let asked = Rc::new(RefCell::new(0u64));
    let total = [0u64, 1, 4, 20_000, u64::MAX][choice("total", 5)];
    let (sent2, asked2) = (sent.clone(), asked.clone());
    serve(move |seen| {
        *asked2.borrow_mut() += 1;
        if seen.method == "HEAD" {
            let (status, form) = [(206, 0), (416, 1), (206, 1), (206, 2)][choice("head", 4)];
            let r = match form {
                0 => format!("bytes 0-1/{total}"),
                1 => format!("bytes */{total}"),
                _ => return answer(status, &[], vec![]),
            };
            return answer(status, &[("Content-Range", &r)], vec![]);
        }
        let (a, _) = range(&seen).unwrap_or((0, 0));
        let kind = choice("answer", 5);
        if kind >= 2 {
            return match kind {
                2 => answer(206, &[("Content-Range", "bytes 99999999999999999999-5/7")], vec![b'x']),
                3 => answer(200, &[], vec![b'x']),
                _ => answer(416, &[("Content-Range", "bytes */2")], vec![]),
            };
        }
        let offset = match choice("offset", 6) {
            0 => a,
            1 => a.saturating_sub(1),
            2 => a.saturating_add(1),
            3 => 0,
            4 => 2,
            _ => u64::MAX - 1,
        };
        let body = bytes("body", choice("length", most + 1));
        match kind {
            0 => {
                sent2.borrow_mut().push((offset, body.clone()));
                answer(206, &[("Content-Range", &format!("bytes {offset}-{}/{total}", offset.saturating_add(1)))], body)
            }
            _ => {
                sent2.borrow_mut().push((offset, body.clone()));
                Answer::Response { status: 206, headers: vec![("Content-Range".into(), format!("bytes {offset}-{offset}/7"))], body, broken: true }
            }
        }
    });
    let ok = remotely(URL, None, move |f| {
        for _ in 0..ops {
            if flag("seek") {
                let to = [0, 2, total.wrapping_sub(1), total.wrapping_sub(2)][choice("to", 4)];
                let _ = f.seek(SeekFrom::Start(to));
            }
            let pos = f.stream_position().unwrap();
            let before = *asked.borrow();
            let mut buf = vec![0; 2];
            let r = f.read(&mut buf);
            check(*asked.borrow() - before <= 2, "one read asks the server again and again");
            match r {
                Err(_) => {
                    reach("error");
                    check(f.stream_position().unwrap() == pos, "a failed read moves");
                }
                Ok(0) => check(pos >= total, "a read ends before the end of the file"),
                Ok(k) => {
                    reach("bytes");
                    for i in 0..k {
                        let p = pos.saturating_add(i as u64);
                        let mut right = false;
                        for (o, b) in sent.borrow().iter() {
                            if p >= *o && p - o < b.len() as u64 {
                                right |= b[(p - o) as usize] == buf[i];
                            }
                        }
                        check(right, "a read returns bytes that the server never sent for that position");
                    }
                    check(f.stream_position().unwrap() == pos.saturating_add(k as u64), "the position differs after a read");
                }
            }
        }
    });
    reach(if ok { "opened" } else { "not opened" });
}
/// servers that do not know about ranges
#[no_mangle]
pub extern "C" fn h_p17_fallback() {
    let n = param("n", 3) as usize;
    let file = Rc::new(bytes("file", n));
    let sent = file.clone();
    let (head, get) = (choice("head", 4), choice("get", 2));
    let hash = match choice("hash", 3) {
        0 => None,
        1 => Some(sha256(&file)),
        _ => Some(sha256(b"something else")),
    };
    let bad = matches!(&hash, Some(h) if h.raw_data == sha256(b"something else").raw_data);
    if hash.is_some() {
        // the digest ends up in a path
        for b in file.iter() {
            assume(*b == b'x');
        }
    }
    serve(move |seen| {
        if seen.method == "HEAD" {
            return match head {
                0 | 1 => answer(200, &[], vec![]),
                2 => answer(404, &[], vec![]),
                _ => Answer::Fail(ErrorKind::BadHeader),
            };
        }
        match get {
            0 => answer(200, &[("Cache-Control", "max-age=100")], sent.to_vec()),
            _ => Answer::Fail(ErrorKind::BadHeader),
        }
    });
    let ran = Rc::new(RefCell::new(false));
    let ran2 = ran.clone();
    let ok = remotely(URL, hash, move |f| {
        *ran2.borrow_mut() = true;
        let mut c = Cursor::new(&file[..]);
        read_both(f, &mut c, 1);
        seek_both(f, &mut c, SeekFrom::End(-1));
        read_both(f, &mut c, 5);
        seek_both(f, &mut c, SeekFrom::Start(0));
        read_both(f, &mut c, 5);
    });
    let want = head < 2 && get == 0 && !bad;
    check(ok == want, "falling back to the whole file fails, or happens when it should not");
    check(*ran.borrow() == want, "the file is read although it could not be fetched");
    reach(if want { "whole file" } else { "refused" });
}
