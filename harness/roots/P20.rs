#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/arch.rs"]
mod arch;
#[path = "/verif/harness/lib/rec.rs"]
mod rec;
#[path = "/verif/harness/lib/wheel.rs"]
mod wheel;
use crate::trampolines::*;
use crate::vocab::parse_entry_points;
use rec::*;
use sym::*;

enum Line<'a> {
    Skip,
    Header(&'a [u8]),
    Entry { name: &'a [u8], module: &'a [u8], object: Option<&'a [u8]>, grey: bool },
    Bad,
}
fn ws(b: u8) -> bool {
    b == b' ' || (b >= 9 && b <= 13)
}
fn trim_l(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && ws(s[0]) {
        s = &s[1..]
    }
    s
}
fn trim(s: &[u8]) -> &[u8] {
    let mut s = trim_l(s);
    while !s.is_empty() && ws(s[s.len() - 1]) {
        s = &s[..s.len() - 1]
    }
    s
}
fn start(b: u8) -> bool {
    (b | 32) >= b'a' && (b | 32) <= b'z' || b == b'_'
}
fn cont(b: u8) -> bool {
    start(b) || b == b'.' || (b >= b'0' && b <= b'9')
}
/// an object reference at the start of s: (reference, rest, is it well formed)
fn dotted(s: &[u8]) -> Option<(&[u8], &[u8], bool)> {
    if s.is_empty() || !start(s[0]) {
        return None;
    }
    let mut n = 1;
    let mut well = true;
    while n < s.len() && cont(s[n]) {
        if s[n - 1] == b'.' && !start(s[n]) {
            well = false;
        }
        n += 1;
    }
    if s[n - 1] == b'.' {
        well = false;
    }
    Some((&s[..n], &s[n..], well))
}
/// one line, as the format describes it
fn line(l: &[u8]) -> Line {
    let mut l = l;
    for i in 0..l.len() {
        if l[i] == b'#' || l[i] == b';' {
            l = &l[..i];
            break;
        }
    }
    let t = trim(l);
    if t.is_empty() {
        return Line::Skip;
    }
    if t.len() > 2 && t[0] == b'[' && t[t.len() - 1] == b']' {
        return Line::Header(&t[1..t.len() - 1]);
    }
    let mut eq = 0;
    while eq < t.len() && t[eq] != b'=' {
        eq += 1;
    }
    if eq == t.len() {
        return Line::Bad;
    }
    let name = trim(&t[..eq]);
    if name.is_empty() {
        return Line::Bad;
    }
    let (module, rest, w1) = match dotted(trim_l(&t[eq + 1..])) {
        Some(x) => x,
        None => return Line::Bad,
    };
    let mut rest = trim_l(rest);
    let (mut object, mut w2) = (None, true);
    if !rest.is_empty() && rest[0] == b':' {
        match dotted(trim_l(&rest[1..])) {
            Some((o, r, w)) => {
                object = Some(o);
                w2 = w;
                rest = trim_l(r);
            }
            None => return Line::Bad,
        }
    }
    if !(rest.is_empty() || rest.len() >= 2 && rest[0] == b'[' && rest[rest.len() - 1] == b']') {
        return Line::Bad;
    }
    // references with empty components, and names that start like a section
    Line::Entry { name, module, object, grey: !w1 || !w2 || name[0] == b'[' }
}
fn judge(text: &str) {
    let mut want: Vec<(&[u8], Vec<(&[u8], &[u8], Option<&[u8]>)>)> = vec![];
    let mut at: Option<usize> = None;
    let (mut bad, mut grey) = (false, false);
    for l in text.as_bytes().split(|b| *b == b'\n') {
        match line(l) {
            Line::Skip => (),
            Line::Bad => {
                bad = true;
                break;
            }
            Line::Header(h) => {
                at = want.iter().position(|w| w.0.len() == h.len() && same_bytes(w.0, h));
                if at.is_none() {
                    at = Some(want.len());
                    want.push((h, vec![]));
                }
            }
            Line::Entry { name, module, object, grey: g } => {
                grey |= g;
                match at {
                    None => {
                        bad = true;
                        break;
                    }
                    Some(i) => want[i].1.push((name, module, object)),
                }
            }
        }
    }
    let r = parse_entry_points(text);
    if bad {
        check(r.is_err(), "a malformed line or an entry outside any section is accepted");
        reach("refused");
        return;
    }
    let got = match r {
        Ok(g) => g,
        Err(_) => {
            check(grey, "well-formed entry points are refused");
            return;
        }
    };
    let mut n = 0;
    for (section, es) in &want {
        let mut found = false;
        for (name, g) in &got {
            if name.len() == section.len() && same_bytes(name.as_bytes(), section) {
                found = true;
                check(g.len() == es.len(), "entries of a section are lost or invented");
                for (e, (name, module, object)) in g.iter().zip(es) {
                    check(same_bytes(e.name.as_bytes(), name), "an entry has the wrong name");
                    check(same_bytes(e.module.as_bytes(), module), "an entry has the wrong module");
                    match (&e.object, object) {
                        (None, None) => (),
                        (Some(a), Some(b)) => {
                            check(same_bytes(a.as_bytes(), b), "an entry has the wrong object");
                            reach("object");
                        }
                        _ => check(false, "an object is lost or invented"),
                    }
                }
                n += g.len();
            }
        }
        check(found || es.is_empty(), "a section is lost");
    }
    check(got.values().map(|v| v.len()).sum::<usize>() == n, "entries appear in the wrong section");
    if n > 0 {
        reach("entries");
    }
    if want.len() > 1 {
        reach("sections");
    }
}
/// one arbitrary line in a section
#[no_mangle]
pub extern "C" fn h_p20_line() {
    let mut s = String::from(pick("before", &["[s]\n", "", "[s]\na=b\n"]));
    s.push_str(&ascii_n("line", param("n", 3) as usize));
    s.push_str(pick("after", &["", "\nz=y:x\n"]));
    judge(&s)
}
/// arbitrary text over the significant characters
#[no_mangle]
pub extern "C" fn h_p20_text() {
    let mut s = String::from(pick("before", &["", "[s]\na=b\n"]));
    s.push_str(&over_n("text", param("n", 5) as usize, "[]=:.#a \n"));
    judge(&s)
}
/// an entry with every part, with arbitrary characters in one of them
#[no_mangle]
pub extern "C" fn h_p20_parts() {
    let n = param("n", 2) as usize;
    let which = choice("which", 6);
    let mut s = String::from("[s]\n");
    for (i, part) in ["nm", " = ", "m.n", ":", "o.p", " [x,y] "].iter().enumerate() {
        if i == which {
            s.push_str(&ascii_n("part", n));
        } else {
            s.push_str(part);
        }
    }
    judge(&s)
}
/// the sections a name is used in
#[no_mangle]
pub extern "C" fn h_p20_sections() {
    let mut s = String::new();
    let (few, ends) = (param("entries", 3) as usize, param("ends", 3) as usize);
    for i in 0..param("k", 3) {
        s.push('[');
        s.push_str(&over_n("section", 1, if ends > 1 { "ab " } else { "ab" }));
        s.push_str("]\n");
        for _ in 0..choice("entries", few) {
            s.push((b'e' + i as u8) as char);
            s.push_str(" = m:");
            s.push((b'n' + i as u8) as char);
            s.push_str(pick("eol", &["\n", " ; x\n", "\r\n"][..ends]));
        }
    }
    judge(&s)
}
/// the launcher a console or GUI script gets
#[no_mangle]
pub extern "C" fn h_p20_script() {
    let n = param("n", 1) as usize;
    let ident = |what: &str| {
        let s = ascii_n(what, n);
        for (i, b) in s.bytes().enumerate() {
            assume(if i == 0 { start(b) } else { cont(b) && b != b'.' });
        }
        s
    };
    let name = over_n("name", n, "aZ9_-");
    let (m, o) = (ident("module"), ident("object"));
    let sub = flag("submodule");
    let module = if sub { format!("{m}.sub") } else { m };
    let gui = flag("gui");
    let mut text = String::from(if gui { "[gui_scripts]\n" } else { "[console_scripts]\n" });
    text.push_str(&format!("{name} = {module}:{o}{}\n", pick("extras", &["", " [x]"])));
    // one of the other kind
    let other = flag("other");
    if other {
        text.push_str(if gui { "[console_scripts]\n+ = q:r\n" } else { "[gui_scripts]\n+ = q:r\n" });
    }
    let both = flag("windows");
    let w = wheel::open(&wheel::foo(vec![wheel::member("foo-1.dist-info/entry_points.txt", text.as_bytes())])).unwrap();
    let mut rec = Recorder::default();
    let maker = TrampolineMaker::new(FindPython::FromEnv, if both { ScriptPlatform::Both } else { ScriptPlatform::Unix });
    let r = w.unpack(&wheel::paths(), &maker, &mut rec);
    check(r.is_ok(), "installing fails");
    let scripts: Vec<&Op> = rec.ops.iter().filter(|o| matches!(o, Op::File(p, ..) if p.starts_with("bin/"))).collect();
    check(scripts.len() == (1 + both as usize) * (1 + other as usize), "wrong number of launchers");
    let file = rec.file(&format!("bin/{name}"));
    check(file.is_some() && file.unwrap().1, "no executable launcher");
    let body = std::str::from_utf8(file.unwrap().0);
    check(body.is_ok(), "the launcher is not text");
    let body = body.unwrap();
    calls(body, &module, &o);
    check(body.starts_with("#!/bin/sh\n"), "the launcher has no interpreter");
    // the shell part, up to the line that ends the docstring for python
    let shell = body.split("' '''").next().unwrap();
    check(shell.contains("exec \"${POSY_PYTHONW}\" \"$0\" \"$@\"") == gui && shell.contains("exec \"${POSY_PYTHON}\" \"$0\" \"$@\"") == !gui, "console and GUI launchers are mixed up");
    if both {
        let exe = rec.file(&format!("bin/{name}.exe"));
        check(exe.is_some(), "no windows launcher");
        let exe = exe.unwrap().0;
        let (yes, no): (&[u8], &[u8]) = if gui { (GUI, CONSOLE) } else { (CONSOLE, GUI) };
        check(exe.starts_with(yes) && !exe.starts_with(no), "console and GUI launchers are mixed up");
        let mut z = zip::ZipArchive::new(std::io::Cursor::new(&exe[yes.len()..])).unwrap();
        let mut main = String::new();
        std::io::Read::read_to_string(&mut z.by_name("__main__.py").unwrap(), &mut main).unwrap();
        calls(&main, &module, &o);
        reach("windows");
    }
    reach(if gui { "gui" } else { "console" });
}
static CONSOLE: &[u8] = include_bytes!("/repo/src/trampolines/windows-trampolines/posy-trampoline-console.exe");
static GUI: &[u8] = include_bytes!("/repo/src/trampolines/windows-trampolines/posy-trampoline-gui.exe");
/// somewhere imports the module, and after that calls the object
fn calls(body: &str, module: &str, object: &str) {
    let import = format!("import {module}");
    let call = format!("sys.exit({module}.{object}())");
    let mut state = 0;
    for l in body.split('\n') {
        let t = l.trim();
        if state == 0 && t.len() == import.len() && same_str(t, &import) {
            check(l == t, "the import is not at the top level");
            state = 1;
        } else if state == 1 && t.len() == call.len() && same_str(t, &call) {
            state = 2;
        }
    }
    check(state == 2, "the launcher does not call the object");
}
