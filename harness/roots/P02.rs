#[path = "/verif/harness/sym.rs"]
mod sym;
use crate::tree::{NicePathBuf, NiceSymlinkPaths};
use sym::*;

/// Lexical walk from `depth` directories below the root.  None: leaves the root, absolute, or not portable.
/// Some((ups, names)): net effect of the walk.
fn walk(target: &[u8], depth: usize) -> Option<(usize, Vec<Vec<u8>>)> {
    if !target.is_empty() && target[0] == b'/' {
        return None;
    }
    let mut ups = 0usize;
    let mut names: Vec<Vec<u8>> = Vec::new();
    let mut i = 0;
    while i <= target.len() {
        let mut j = i;
        while j < target.len() && target[j] != b'/' {
            j += 1;
        }
        let c = &target[i..j];
        if c.len() == 0 || (c.len() == 1 && c[0] == b'.') {
        } else if c.len() == 2 && c[0] == b'.' && c[1] == b'.' {
            if names.pop().is_none() {
                ups += 1;
                if ups > depth {
                    return None;
                }
            }
        } else {
            let mut bad = false;
            for x in c {
                let x = *x;
                bad |= (x < 32) | (x == 127) | (x == b'<') | (x == b'>') | (x == b':') | (x == b'"') | (x == b'|') | (x == b'?') | (x == b'*') | (x == b'\\');
            }
            let l = c[c.len() - 1];
            if bad | (l == b'.') | (l == b' ') {
                return None;
            }
            names.push(c.to_vec());
        }
        i = j + 1;
    }
    Some((ups, names))
}

fn judge(source: &NicePathBuf, target: &[u8]) {
    let got = NiceSymlinkPaths::new(source, target);
    let n = source.pieces().len();
    if n == 0 {
        check(got.is_err(), "link in place of the destination itself");
        reach("root");
        return;
    }
    let want = if std::str::from_utf8(target).is_ok() { walk(target, n - 1) } else { None };
    match got {
        Err(_) => {
            check(want.is_none() || target.is_empty(), "link that stays inside refused");
            reach("refused");
        }
        Ok(l) => {
            reach("accepted");
            check(l.source == *source, "link location changed");
            log_str("target", &l.target);
            match (want, walk(l.target.as_bytes(), n - 1)) {
                (None, _) => check(false, "link that escapes or is not portable accepted"),
                (_, None) => check(false, "written target escapes"),
                (Some((u1, n1)), Some((u2, n2))) => {
                    check(u1 == u2 && n1.len() == n2.len(), "written target denotes another place");
                    for (a, b) in n1.iter().zip(n2.iter()) {
                        check(same_bytes(a, b), "written target denotes another place");
                    }
                }
            }
            check(!l.target.is_empty() && !l.target.starts_with('/'), "written target is absolute or empty");
        }
    }
}

fn source() -> Option<NicePathBuf> {
    let depth = choice("depth", param("depth", 3) as usize + 1);
    let s = ["", "a", "a/b", "a/b/c", "a/b/c/d", "a/b/c/d/e"][depth];
    NicePathBuf::try_from(s).ok()
}

#[no_mangle]
pub extern "C" fn h_p02_any() {
    let s = match source() {
        Some(s) => s,
        None => return,
    };
    let t = bytes("target", param("n", 3) as usize);
    judge(&s, &t);
}

#[no_mangle]
pub extern "C" fn h_p02_dots() {
    let s = match source() {
        Some(s) => s,
        None => return,
    };
    let t = over_n("target", param("n", 5) as usize, "./a");
    judge(&s, t.as_bytes());
}
