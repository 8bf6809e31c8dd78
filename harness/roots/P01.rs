#[path = "/verif/harness/sym.rs"]
mod sym;
use crate::tree::NicePathBuf;
use std::path::Path;
use sym::*;
use typed_path::unix::UnixPath;

// ---- reference: what an archive member path means
// None: must be refused.  Some(v): components after lexical normalisation.
fn reference(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    if b.is_empty() || b[0] == b'/' {
        return None;
    }
    let mut out: Vec<Vec<u8>> = Vec::new();
    let mut i = 0;
    loop {
        let mut j = i;
        while j < b.len() && b[j] != b'/' {
            j += 1;
        }
        let c = &b[i..j];
        if c.len() == 0 || (c.len() == 1 && c[0] == b'.') {
        } else if c.len() == 2 && c[0] == b'.' && c[1] == b'.' {
            out.pop()?;
        } else {
            for x in c {
                let x = *x;
                let bad = (x < 32) | (x == b'<') | (x == b'>') | (x == b':') | (x == b'"') | (x == b'|') | (x == b'?') | (x == b'*') | (x == b'\\');
                if bad {
                    return None;
                }
            }
            let l = c[c.len() - 1];
            if l == b'.' || l == b' ' {
                return None;
            }
            out.push(c.to_vec());
        }
        if j >= b.len() {
            break;
        }
        i = j + 1;
    }
    Some(out)
}

fn has_control_or_illegal(s: &[u8]) -> bool {
    let mut bad = s.is_empty();
    for x in s {
        let x = *x;
        bad |= (x < 32) | (x == 127) | (x == b'<') | (x == b'>') | (x == b':') | (x == b'"') | (x == b'|') | (x == b'?') | (x == b'*') | (x == b'\\') | (x == b'/');
    }
    bad
}

fn judge(b: &[u8], got: Result<NicePathBuf, ()>) {
    let valid_utf8 = std::str::from_utf8(b).is_ok();
    let want = if valid_utf8 { reference(b) } else { None };
    match got {
        Err(()) => {
            // a path that stays inside and is portable is accepted (the empty path may be refused)
            if !b.is_empty() {
                match want {
                    None => reach("refused"),
                    Some(v) => {
                        // DEL is a control character as well
                        let mut del = false;
                        for x in b {
                            del |= *x == 127;
                        }
                        let _ = v;
                        check(del, "portable path refused");
                    }
                }
            }
        }
        Ok(p) => {
            reach("accepted");
            check(b.is_empty() || b[0] != b'/', "absolute path accepted");
            check(valid_utf8, "path that is not UTF-8 accepted");
            for piece in p.pieces() {
                let c = piece.as_bytes();
                check(!has_control_or_illegal(c), "non-portable component accepted");
                if !c.is_empty() {
                    let l = c[c.len() - 1];
                    check((l != b'.') & (l != b' '), "component with trailing dot or space accepted");
                }
            }
            if !b.is_empty() {
                match want {
                    None => check(false, "escaping or non-portable path accepted"),
                    Some(w) => {
                        let same_len = p.pieces().len() == w.len();
                        check(same_len, "accepted path is not the lexical normalisation");
                        if same_len {
                            for (x, y) in p.pieces().iter().zip(w.iter()) {
                                check(same_bytes(x.as_bytes(), y), "accepted path is not the lexical normalisation");
                            }
                        }
                        log("pieces", p.pieces().len() as u64);
                    }
                }
            } else {
                check(p.pieces().is_empty(), "empty path accepted as something else");
            }
            // text and native forms
            let text = p.to_string();
            log_str("text", &text);
            match NicePathBuf::try_from(text.as_str()) {
                Err(_) => check(false, "text form does not parse back"),
                Ok(q) => check(q == p, "text form parses back to another path"),
            }
            let native = p.to_native();
            let mut depth = 0usize;
            for c in native.components() {
                match c {
                    std::path::Component::Normal(_) => depth += 1,
                    std::path::Component::CurDir => (),
                    _ => check(false, "native form is not a plain relative path"),
                }
            }
            check(depth == p.pieces().len(), "native form has other components");
            check(p.len() == p.pieces().len(), "len differs");
        }
    }
}

/// exactly n ASCII bytes
#[no_mangle]
pub extern "C" fn h_p01_ascii() {
    let s = ascii_n("path", param("n", 3) as usize);
    judge(s.as_bytes(), NicePathBuf::try_from(s.as_str()).map_err(|_| ()));
}

/// exactly n arbitrary bytes, through each conversion
#[no_mangle]
pub extern "C" fn h_p01_bytes() {
    let b = bytes("path", param("n", 2) as usize);
    let r: Result<NicePathBuf, ()> = if flag("via unix path") {
        NicePathBuf::try_from(UnixPath::new(b.as_slice())).map_err(|_| ())
    } else {
        NicePathBuf::try_from(b.as_slice()).map_err(|_| ())
    };
    judge(&b, r);
}

/// longer paths over the characters that matter
#[no_mangle]
pub extern "C" fn h_p01_dots() {
    let s = over_n("path", param("n", 6) as usize, "./a");
    judge(s.as_bytes(), NicePathBuf::try_from(s.as_str()).map_err(|_| ()));
}

/// join/contains agree with the text
#[no_mangle]
pub extern "C" fn h_p01_join() {
    let a = over_n("a", param("n", 3) as usize, "/ab");
    let b = over_n("b", param("m", 3) as usize, "/ab");
    let (p, q) = match (NicePathBuf::try_from(a.as_str()), NicePathBuf::try_from(b.as_str())) {
        (Ok(p), Ok(q)) => (p, q),
        _ => return,
    };
    let j = p.join(&q);
    let want = format!("{}/{}", a, b);
    match NicePathBuf::try_from(want.as_str()) {
        Ok(w) => check(w == j, "join differs from the joined text"),
        Err(_) => check(false, "joined text refused"),
    }
    check(p.contains(&j), "join is not contained");
    let prefix = q.pieces().len() >= p.pieces().len() && p.pieces().iter().zip(q.pieces()).all(|(x, y)| x == y);
    check(p.contains(&q) == prefix, "containment is not the component prefix relation");
    reach("joined");
}
