#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/pep508.rs"]
mod pep508;
use crate::prelude::*;
use crate::vocab::*;
use pep508::*;
use sym::*;

fn eol(b: u8) -> bool {
    b == b'\r' || b == b'\n'
}
/// A second reading: header lines up to an empty line; None if it is malformed.
/// Line ends are CRLF, CR or LF; a line starting with a blank continues the previous one
/// and keeps its line end; blanks directly after the colon are dropped.
fn headers(t: &str) -> Option<Vec<(String, String)>> {
    let b = t.as_bytes();
    let mut out: Vec<(String, String)> = Vec::new();
    let mut i = 0;
    // no header at all: only what may follow the headers
    let nothing = |i: usize| -> bool {
        let skip = |i: usize| if i < b.len() && b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' { i + 2 } else { i + 1 };
        // end, one line end and the end, or an empty line and the body
        if i == b.len() {
            return true;
        }
        if !eol(b[i]) {
            return false;
        }
        let j = skip(i);
        j == b.len() || eol(b[j])
    };
    let mut after = 0; // where the last complete header ended
    loop {
        let s = i;
        while i < b.len() && b[i] > 0x20 && b[i] < 0x7f && b[i] != b':' {
            i += 1;
        }
        if i == s || i == b.len() || b[i] != b':' {
            break;
        }
        let name = t[s..i].to_ascii_lowercase();
        i += 1;
        while i < b.len() && (b[i] == b' ' || b[i] == b'\t') {
            i += 1;
        }
        let v = i;
        loop {
            while i < b.len() && !eol(b[i]) {
                i += 1;
            }
            if i == b.len() {
                break;
            }
            let j = if b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' { i + 2 } else { i + 1 };
            if j < b.len() && (b[j] == b' ' || b[j] == b'\t') {
                i = j + 1;
            } else {
                break;
            }
        }
        out.push((name, t[v..i].to_string()));
        after = i;
        if i == b.len() {
            return Some(out);
        }
        i += if b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' { 2 } else { 1 };
    }
    if nothing(after) {
        Some(out)
    } else {
        None
    }
}
fn all<'a>(h: &'a [(String, String)], k: &str) -> Vec<&'a String> {
    h.iter().filter(|x| same_str(&x.0, k)).map(|x| &x.1).collect()
}
fn the<'a>(h: &'a [(String, String)], k: &str) -> Option<&'a String> {
    match &all(h, k)[..] {
        [v] => Some(v),
        _ => None,
    }
}
const PYBI: &str = "Metadata-Version: 2.1\nName: cpython\nVersion: 1\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {}\n";
fn pybi(t: &str) {
    let got = PybiCoreMetadata::try_from(t.as_bytes());
    let want = headers(t);
    let ok = want.as_ref().map_or(false, |h| {
        let json = |k| the(h, k).map_or(false, |v: &String| same_str(v, "{}"));
        the(h, "metadata-version").map_or(false, |v| same_str(v, "2.1"))
            && the(h, "name").map_or(false, |v| same_str(v, "cpython"))
            && the(h, "version").map_or(false, |v| same_str(v, "1"))
            && json("pybi-environment-marker-variables")
            && json("pybi-paths")
    });
    match (&got, &want) {
        (Ok(g), Some(h)) => {
            let tags = all(h, "pybi-wheel-tag");
            check(g.tags.len() == tags.len() && g.tags.iter().zip(&tags).all(|(a, b)| same_str(a, b)), "a field is misread");
            check(g.environment_marker_variables.is_empty() && g.paths.is_empty(), "a field is misread");
            if ok {
                check(g.name.as_given() == "cpython" && g.version.to_string() == "1", "a field is misread");
            }
            reach(if tags.len() > 1 { "tags" } else { "tag" });
        }
        (Ok(_), None) => check(false, "malformed metadata is accepted"),
        (Err(_), _) => {
            check(!ok, "valid metadata is refused");
            reach("refused");
        }
    }
}
/// arbitrary characters in every place of a metadata file
#[no_mangle]
pub extern "C" fn h_p19_text() {
    let x = ascii_n("text", param("n", 2) as usize);
    // JSON with blanks added is the same JSON, and versions and names have other spellings:
    // those places are for the other checks
    pybi(&match param("around", 0) {
        0 => format!("{PYBI}{x}"),
        1 => format!("{PYBI}Pybi-Wheel-Tag: a{x}b\npybi-wheel-tag: c\n"),
        2 => format!("{x}{PYBI}"),
        3 => format!("{PYBI}Pybi-Wheel-Tag{x}a\n"),
        4 => format!("{PYBI}Pybi-Wheel-Tag: a\r\n{x}Pybi-Wheel-Tag: b"),
        5 => format!("{PYBI}Pybi-Wheel-Tag:{x}a\r\r"),
        _ => format!("{PYBI}\nPybi-Wheel-Tag: a{x}\n"),
    })
}
/// every byte: no panic, and what is valid UTF-8 stays as it is
#[no_mangle]
pub extern "C" fn h_p19_bytes() {
    let n = param("n", 2) as usize;
    let mut t = PYBI.as_bytes().to_vec();
    t.extend_from_slice(b"Pybi-Wheel-Tag: a");
    t.extend_from_slice(&bytes("bytes", n));
    t.extend_from_slice(b"b\nPybi-Wheel-Tag: c");
    let got = PybiCoreMetadata::try_from(&t[..]);
    match (&got, std::str::from_utf8(&t)) {
        (Ok(g), Ok(s)) => {
            let h = headers(s).unwrap();
            let tags = all(&h, "pybi-wheel-tag");
            check(g.tags.len() == tags.len() && g.tags.iter().zip(&tags).all(|(a, b)| same_str(a, b)), "a field is misread");
            reach("text");
        }
        (Ok(g), Err(_)) => {
            check(!g.tags.is_empty() && g.tags[0].starts_with('a'), "a field is misread");
            reach("garbage");
        }
        (Err(_), Ok(s)) => {
            check(headers(s).map_or(true, |h| h.iter().any(|f| f.0.starts_with("pybi-") && f.0 != "pybi-wheel-tag" && all(&h, &f.0).len() > 1)), "valid metadata is refused");
            reach("refused");
        }
        (Err(_), Err(_)) => reach("refused"),
    }
}
fn key(name: &str, k: &str) -> String {
    match choice(name, 3) {
        0 => k.to_string(),
        1 => k.to_ascii_uppercase(),
        _ => k.to_ascii_lowercase(),
    }
}
/// mandatory and single fields: missing, once or twice
#[no_mangle]
pub extern "C" fn h_p19_fields() {
    let mut t = String::new();
    let mut ok = true;
    let mut first = true;
    let keys = [("Metadata-Version", "2.1"), ("Name", "foo"), ("Version", "1.0"), ("Requires-Python", ">=3")];
    for (i, (k, v)) in keys.iter().enumerate() {
        let times = choice("times", 3);
        ok &= times == 1 || (times == 0 && i == 3);
        for j in 0..times {
            let k = if first && j == 0 { key("case", k) } else { k.to_string() };
            t.push_str(&format!("{k}: {v}\n"));
        }
        first = false;
    }
    let reqs = 2 * choice("reqs", 2);
    let same = reqs > 0 && flag("same");
    let dep = |i: usize| format!("dep{}", if same { 0 } else { i });
    for i in 0..reqs {
        t.push_str(&format!("{}: {}\n", key("case", "Requires-Dist"), dep(i)));
    }
    let extras = if reqs > 0 { 2 * choice("extras", 2) } else { 0 };
    for i in 0..extras {
        t.push_str(&format!("Provides-Extra: e{i}\n"));
    }
    // the body is no header
    if flag("body") {
        t.push_str("\nName: other\nRequires-Dist: hidden\n");
    }
    match WheelCoreMetadata::try_from(t.as_bytes()) {
        Ok(m) => {
            check(ok, "metadata with a missing or repeated field is accepted");
            check(m.name.as_given() == "foo" && m.version.to_string() == "1.0", "a field is misread");
            check(m.requires_dist.len() == reqs && m.requires_dist.iter().enumerate().all(|(i, r)| r.name.as_given() == dep(i)), "requirements are misread");
            check(m.extras.len() == extras && (0..extras).all(|i| m.extras.contains(&format!("e{i}").parse().unwrap())), "extras are misread");
            check(m.requires_python.0.len() == t.to_ascii_lowercase().contains("requires-python") as usize, "the python requirement is misread");
            reach("accepted");
        }
        Err(_) => {
            check(!ok, "valid metadata is refused");
            reach("refused");
        }
    }
}
/// the metadata version decides
#[no_mangle]
pub extern "C" fn h_p19_version() {
    let d = |n: &str| {
        let b = byte(n);
        assume((b >= b'0') & (b <= b'9'));
        b
    };
    let (a, b) = (d("major"), d("minor"));
    let (v, major) = match choice("shape", 6) {
        0 => (format!("{}.{}", a as char, b as char), (a - b'0') as u32),
        1 => (format!("{}", a as char), (a - b'0') as u32),
        2 => (format!("{}{}.0", a as char, b as char), (a - b'0') as u32 * 10 + (b - b'0') as u32),
        3 => (format!("{}.{}.dev1", a as char, b as char), (a - b'0') as u32),
        4 => (format!("{}.0a{}", a as char, b as char), (a - b'0') as u32),
        _ => (format!("{}.dev{}", a as char, b as char), (a - b'0') as u32),
    };
    let t = format!("Metadata-Version: {v}\nName: foo\nVersion: 1\n");
    let got = WheelCoreMetadata::try_from(t.as_bytes());
    check(got.is_ok() == (major <= 2), "the metadata version is not respected");
    let got = PybiCoreMetadata::try_from(&*format!("{t}Pybi-Environment-Marker-Variables: {{}}\nPybi-Paths: {{}}").into_bytes());
    check(got.is_ok() == (major <= 2), "the metadata version is not respected");
    reach(if major <= 2 { "accepted" } else { "refused" });
}
/// requirements, specifiers and extras are carried over
#[no_mangle]
pub extern "C" fn h_p19_values() {
    let x = ascii_n("text", param("n", 2) as usize);
    for b in x.bytes() {
        assume(!eol(b));
    }
    const M: &str = "Metadata-Version: 2.1\nName: foo\nVersion: 1\n";
    let trim = |s: &str| s.trim_start_matches(|c| c == ' ' || c == '\t').to_string();
    let ok = match param("field", 0) {
        0 => {
            let v = trim(&format!("{x}a"));
            let t = format!("{M}Requires-Dist: b; extra == 'c'\nRequires-Dist: {v}\nRequires-Dist: {v}>=2\n");
            let (w1, w2) = (requirement(&v, true), requirement(&format!("{v}>=2"), true));
            match WheelCoreMetadata::try_from(t.as_bytes()) {
                Ok(m) => {
                    check(w1.is_some() && w2.is_some(), "metadata with a malformed requirement is accepted");
                    check(m.requires_dist.len() == 3 && same_req(&m.requires_dist[1], &w1.unwrap()) && same_req(&m.requires_dist[2], &w2.unwrap()), "requirements are misread");
                    true
                }
                Err(_) => {
                    check(w1.is_none() || w2.is_none(), "valid metadata is refused");
                    false
                }
            }
        }
        1 => {
            let v = trim(&format!("{x}1"));
            let w = specifiers(&v);
            match WheelCoreMetadata::try_from(format!("{M}Requires-Python: {v}").as_bytes()) {
                Ok(m) => {
                    check(w.is_some() && same_specs(&m.requires_python, &w.unwrap()), "the python requirement is misread");
                    true
                }
                Err(_) => {
                    check(w.is_none(), "valid metadata is refused");
                    false
                }
            }
        }
        _ => {
            let v = trim(&format!("a{x}"));
            let w = Extra::try_from(&*v);
            match WheelCoreMetadata::try_from(format!("{M}Provides-Extra: {v}\nProvides-Extra: z").as_bytes()) {
                Ok(m) => {
                    check(w.is_ok() && m.extras.contains(&w.unwrap()) && m.extras.contains(&"z".parse().unwrap()) && m.extras.len() == 2, "extras are misread");
                    true
                }
                Err(_) => {
                    check(w.is_err(), "valid metadata is refused");
                    false
                }
            }
        }
    };
    reach(if ok { "accepted" } else { "refused" });
}
/// marker variables and paths
#[no_mangle]
pub extern "C" fn h_p19_json() {
    let n = param("n", 2) as usize;
    let x = ascii_n("text", n);
    for b in x.bytes() {
        assume(b >= 0x20 && b != b'"' && b != b'\\' && b != 0x7f);
    }
    let vars = param("which", 0) == 0;
    let p = if vars { "bin".to_string() } else { x.clone() };
    let v = if vars { x.clone() } else { "posix".to_string() };
    let t = format!("Metadata-Version: 2.1\nName: cpython\nVersion: 1\nPybi-Environment-Marker-Variables: {{\"os_name\": \"{v}\", \"k\\u0041\": \"v\\n\"}}\nPybi-Paths: {{\"scripts\": \"{p}\", \"data\": \".\"}}\n");
    match PybiCoreMetadata::try_from(t.as_bytes()) {
        Ok(m) => {
            let e = &m.environment_marker_variables;
            check(e.len() == 2 && same_str(&e["os_name"], &v) && e["kA"] == "v\n", "marker variables are misread");
            check(m.paths.len() == 2, "paths are misread");
            let want: Result<NicePathBuf> = (&*p).try_into();
            check(want.is_ok() && want.unwrap() == *m.path("scripts").unwrap(), "paths are misread");
            check(m.path("purelib").is_err(), "a missing path is invented");
            reach("accepted");
        }
        Err(_) => {
            check(!vars && NicePathBuf::try_from(&*p).is_err(), "valid metadata is refused");
            reach("refused");
        }
    }
}
