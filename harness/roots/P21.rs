#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/arch.rs"]
mod arch;
#[path = "/verif/harness/lib/rec.rs"]
mod rec;
#[path = "/verif/harness/lib/wheel.rs"]
mod wheel;
use crate::prelude::*;
use crate::trampolines::*;
use crate::vocab::{Artifact, BinaryArtifact, PackageName, Version, Wheel, WheelName};
use arch::*;
use rec::*;
use std::io::Cursor;
use sym::*;

fn maker() -> TrampolineMaker {
    TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Unix)
}
fn install(ms: &[Member], rec: &mut Recorder) -> Result<()> {
    wheel::open(ms)?.unpack(&wheel::paths(), &maker(), rec)
}
/// the launcher of a python script: a shell part that starts $POSY_PYTHON or $POSY_PYTHONW, then the script
fn launcher(body: &[u8], script: &[u8], gui: bool) -> bool {
    if body.len() < script.len() {
        return false;
    }
    let (shell, tail) = body.split_at(body.len() - script.len());
    let shell = match std::str::from_utf8(shell) {
        Ok(s) => s,
        Err(_) => return false,
    };
    same_bytes(tail, script) && shell.starts_with("#!/bin/sh\n") && shell.ends_with('\n') && shell.contains("POSY_PYTHONW") == gui && shell.contains("exec \"${POSY_PYTHON")
}
fn base(category: &[u8]) -> Option<&'static str> {
    for (a, b) in [("purelib", "lib/pure/"), ("platlib", "lib/plat/"), ("scripts", "bin/"), ("data", ""), ("include", "inc/"), ("headers", "inc/h/")] {
        if category.len() == a.len() && same_bytes(category, a.as_bytes()) {
            return Some(b);
        }
    }
    None
}
/// where a member goes: Err = refused, Ok(None) = nowhere
fn place(name: &str, pure: bool) -> Result<Option<(String, bool)>, ()> {
    let p = NicePathBuf::try_from(name).map_err(|_| ())?;
    let ps = p.pieces();
    if !ps.is_empty() && same_str(&ps[0], "foo-1.data") {
        if ps.len() == 1 {
            return Ok(None);
        }
        let b = base(ps[1].as_bytes()).ok_or(())?;
        Ok(Some((join(b, &ps[2..]), b == "bin/")))
    } else {
        Ok(Some((join(if pure { "lib/pure/" } else { "lib/plat/" }, ps), false)))
    }
}
fn join(b: &str, ps: &[String]) -> String {
    let mut s = String::from(b);
    s.push_str(&ps.join("/"));
    if s.ends_with('/') {
        s.pop();
    }
    if s.is_empty() {
        s.push('.');
    }
    s
}
fn expect(name: &str, data: &[u8], mode: u32, pure: bool) {
    let mut ms = vec![wheel::member("foo-1.dist-info/METADATA", wheel::META.as_bytes())];
    let vital = wheel::WHEEL.replace("true", if pure { "true" } else { "false" });
    ms.push(wheel::member("foo-1.dist-info/WHEEL", vital.as_bytes()));
    ms.push(Member { name: name.as_bytes().to_vec(), attr: mode << 16, system: 3, flags: 0, data: data.to_vec() });
    ms.push(wheel::member("last.py", b"z"));
    let mut rec = Recorder::default();
    let r = install(&ms, &mut rec);
    let want = place(name, pure);
    let dir = name.ends_with('/') || name.ends_with('\\');
    if mode & 0xf000 == 0xa000 {
        check(r.is_err(), "a link in a wheel is accepted");
        reach("link");
        return;
    }
    let placed = match want {
        Err(()) => {
            check(r.is_err(), "a member of an unknown category is accepted");
            check(rec.ops.len() <= 2, "something is written after a bad member");
            reach("refused");
            return;
        }
        Ok(p) => p,
    };
    // the first line of a script is read as text
    let first = data.split(|b| *b == b'\n').next().unwrap();
    let script = placed.as_ref().map_or(false, |p| p.1) && !dir && data.starts_with(b"#!python");
    if script && r.is_err() && std::str::from_utf8(first).is_err() {
        return;
    }
    check(r.is_ok(), "a good wheel is refused");
    // METADATA and WHEEL, the member, last.py, INSTALLER
    let n = placed.is_some() as usize;
    check(rec.ops.len() == 4 + n, "wrong number of writes");
    let lib = if pure { "lib/pure" } else { "lib/plat" };
    let inst = rec.file(&format!("{lib}/foo-1.dist-info/INSTALLER"));
    check(inst.is_some() && inst.unwrap().0 == b"posy\n", "no installer marker");
    let m = rec.file(&format!("{lib}/foo-1.dist-info/METADATA"));
    check(m.is_some() && m.unwrap().0 == wheel::META.as_bytes(), "the metadata is misplaced or changed");
    if let Some((at, scripts)) = placed {
        match &rec.ops[2] {
            Op::Dir(p) => check(dir && same_str(p, &at), "a directory is misplaced"),
            Op::File(p, v, x) => {
                check(!dir, "a directory becomes a file");
                check(same_str(p, &at), "a member is misplaced");
                if script {
                    check(*x, "a script is not executable");
                    let rest = if first.len() == data.len() { &[][..] } else { &data[first.len() + 1..] };
                    check(launcher(v, rest, data.starts_with(b"#!pythonw")), "a script is not turned into its launcher");
                    reach(if data.starts_with(b"#!pythonw") { "gui script" } else { "script" });
                } else {
                    check(same_bytes(v, data), "a member's bytes are changed");
                    if scripts {
                        check(*x, "a script is not executable");
                        reach("binary script");
                    }
                }
            }
            Op::Link(..) => check(false, "a link is written"),
        }
        reach("placed");
    } else {
        reach("nowhere");
    }
}
/// one member anywhere
#[no_mangle]
pub extern "C" fn h_p21_name() {
    let mut name = String::from(pick("prefix", &["", "foo-1.data/", "foo-1.data/scripts/", "./foo-1.data//"]));
    name.push_str(&ascii_n("name", param("n", 2) as usize));
    if choice("suffix", 2) == 1 {
        name.push_str("/x");
    }
    if name.is_empty() {
        return;
    }
    // a second metadata directory is another story
    expect(&name, &bytes("data", 2), 0o100644, flag("pure"))
}
#[no_mangle]
pub extern "C" fn h_p21_category() {
    let c = pick("category", &["purelib", "platlib", "scripts", "data", "include", "headers", "script", "Scripts", "stdlib", ""]);
    let name = format!("foo-1.data/{c}{}", pick("rest", &["", "/", "/a", "/a/b", "/a/", "/../x", "x", "/../scripts/a"]));
    let m = u16v("mode") as u32;
    expect(&name, &bytes("data", 1), m, flag("pure"))
}
/// contents of a script
#[no_mangle]
pub extern "C" fn h_p21_script() {
    let mut data = pick("start", &["#!python", "#!pythonw", "", "#!"]).as_bytes().to_vec();
    data.extend(bytes("data", param("n", 2) as usize));
    data.extend_from_slice(pick("end", &["", "\n", "\nprint()\n\n"]).as_bytes());
    expect("foo-1.data/scripts/run", &data, 0o100644, true)
}
fn vitals(ms: &[Member]) -> bool {
    let mut rec = Recorder::default();
    let a = wheel::open(ms);
    check(a.is_ok(), "the archive does not open");
    let a = a.unwrap();
    let m = a.metadata();
    let r = a.unpack(&wheel::paths(), &maker(), &mut rec);
    check(m.is_ok() == r.is_ok(), "metadata and installation disagree");
    if r.is_err() {
        check(rec.ops.is_empty(), "a refused wheel is partly installed");
        reach("refused");
    } else {
        reach("accepted");
    }
    r.is_ok()
}
/// NAME-VERSION.suffix, as the format says
fn special(dir: &str, suffix: &str) -> bool {
    let s = match dir.strip_suffix(suffix) {
        Some(s) => s,
        None => return false,
    };
    let (n, v) = match s.rsplit_once('-') {
        Some(x) => x,
        None => return false,
    };
    let n: Result<PackageName> = n.try_into();
    let v: Result<Version> = v.try_into();
    match (n, v) {
        (Ok(n), Ok(v)) => n == "foo".try_into().unwrap() && v == "1".try_into().unwrap(),
        _ => false,
    }
}
/// the name of the metadata directory
#[no_mangle]
pub extern "C" fn h_p21_dist_info() {
    let part = param("part", 0);
    let n = param("n", 2) as usize;
    let dir = match part {
        0 => format!("{}-1.dist-info", over_n("name", n, "foF-_.1")),
        1 => format!("foo-{}.dist-info", over_n("version", n, "01.a-v")),
        2 => format!("foo{}1.dist-info", over_n("sep", n, "-_.1")),
        _ => format!("foo-1{}", over_n("suffix", n, ".-dist")),
    };
    let at = |f: &str| format!("{dir}/{f}");
    let ms = [wheel::member(&at("WHEEL"), wheel::WHEEL.as_bytes()), wheel::member(&at("METADATA"), wheel::META.as_bytes())];
    let good = special(&dir, ".dist-info");
    let ok = vitals(&ms);
    check(ok == good, "the metadata directory is judged wrongly");
}
/// several directories that might be the special ones
#[no_mangle]
pub extern "C" fn h_p21_ambiguous() {
    let extra = pick("extra", &["foo-1.dist-info", "foo-1.0.dist-info", "bar-1.dist-info", "foo-2.dist-info", "foo.dist-info", ".dist-info", "foo-1.data", "Foo-1.data", "foo-2.data", "bar-1.data", ".data", "foo-1.dist-infos", "x"]);
    let second = pick("second", &["", "foo-1.data", "foo-1.0.data", "x"]);
    let mut ms = wheel::foo(vec![]);
    for (d, f) in [(extra, "/f"), (second, "/scripts/g")] {
        if !d.is_empty() {
            ms.push(wheel::member(&format!("{d}{f}"), b"x"));
        }
    }
    let mut dirs = vec!["foo-1.dist-info", extra, second];
    dirs.sort();
    dirs.dedup();
    let count = |s: &str| dirs.iter().filter(|d| d.ends_with(s)).count();
    let datas = count(".data");
    // an unambiguous data directory has to be of this wheel; files in it need a known category
    let mut good = count(".dist-info") == 1 && datas <= 1 && dirs.iter().all(|d| !d.ends_with(".data") || special(d, ".data"));
    let mut rec = Recorder::default();
    let a = wheel::open(&ms).unwrap();
    check(a.metadata().is_ok() == good, "the metadata directory is judged wrongly");
    if extra.ends_with(".data") {
        good = false; // "f" is no category
    }
    let r = a.unpack(&wheel::paths(), &maker(), &mut rec);
    check(r.is_ok() == good, "a wheel is judged wrongly");
    if good && second.ends_with(".data") {
        check(rec.file("bin/g").is_some(), "a script is misplaced");
    }
    reach(if good { "accepted" } else { "refused" });
}
/// the WHEEL and METADATA files
#[no_mangle]
pub extern "C" fn h_p21_vitals() {
    let n = param("n", 3) as usize;
    let which = param("which", 0);
    let (mut w, mut m) = (wheel::WHEEL.to_string(), wheel::META.to_string());
    let good = match which {
        0 => {
            let v = over_n("wheel-version", n, "0123.x");
            w = w.replace("Wheel-Version: 1.0", &format!("Wheel-Version: {v}"));
            v.starts_with("1.")
        }
        1 => {
            let v = pick("purelib", &["true", "false", "True", "", "1", "yes", "false "]);
            w = w.replace("Purelib: true", &format!("Purelib: {v}"));
            v == "true" || v == "false"
        }
        2 => {
            let v = over_n("name", n, "foFO-");
            m = m.replace("Name: foo", &format!("Name: {v}"));
            PackageName::try_from(&*v).map_or(false, |p| p == "foo".try_into().unwrap())
        }
        3 => {
            let v = over_n("version", n, "01.a");
            m = m.replace("\nVersion: 1", &format!("\nVersion: {v}"));
            Version::try_from(&*v).map_or(false, |p| p == "1".try_into().unwrap())
        }
        4 => {
            // one line less, or one twice
            let i = choice("line", 7);
            let twice = flag("twice");
            let text = if i < 4 { &mut w } else { &mut m };
            let mut ls: Vec<String> = text.lines().map(|l| l.to_string()).collect();
            let at = if i < 4 { i } else { i - 4 };
            if twice {
                let l = ls[at].clone();
                ls.push(l);
            } else {
                ls.remove(at);
            }
            *text = ls.join("\n") + "\n";
            // Generator and Tag may be missing or repeated
            i == 1 || i == 3
        }
        _ => {
            // a whole file is missing
            let only = flag("only wheel");
            let ms = if only { [wheel::member("foo-1.dist-info/WHEEL", w.as_bytes())] } else { [wheel::member("foo-1.dist-info/METADATA", m.as_bytes())] };
            check(!vitals(&ms), "a wheel without its vitals is accepted");
            return;
        }
    };
    let ms = [wheel::member("foo-1.dist-info/WHEEL", w.as_bytes()), wheel::member("foo-1.dist-info/METADATA", m.as_bytes())];
    check(vitals(&ms) == good, "the vitals are judged wrongly");
}
/// entry points yield one launcher each, in the scripts directory
#[no_mangle]
pub extern "C" fn h_p21_entry_points() {
    let n = param("n", 2) as usize;
    let name = over_n("name", n, "a./ ");
    let k = choice("more", 3);
    let mut text = format!("[console_scripts]\nx{name}y = m:o\n");
    if n > 0 && flag("alone") {
        text = format!("[gui_scripts]\n{name} = m:o\n");
    }
    for i in 0..k {
        text.push_str(&format!("b{i} = m:o\n"));
    }
    text.push_str("[other]\nz = y\n");
    // scripts of the other kind
    let other = flag("other kind") as usize;
    if other == 1 {
        text.push_str(if text.starts_with("[gui") { "[console_scripts]\nc = m:o\n" } else { "[gui_scripts]\nc = m:o\n" });
    }
    let given = text.lines().nth(1).unwrap().split_once('=').unwrap().0.trim().to_string();
    let mut rec = Recorder::default();
    let r = install(&wheel::foo(vec![wheel::member("foo-1.dist-info/entry_points.txt", text.as_bytes())]), &mut rec);
    let p = NicePathBuf::try_from(&*given).ok();
    let simple = p.as_ref().map_or(false, |p| p.len() == 1) && !given.contains('/') && !given.is_empty();
    if simple {
        check(r.is_ok(), "a good wheel is refused");
        let f = rec.file(&format!("bin/{given}"));
        check(f.is_some() && f.unwrap().1, "no executable launcher");
        reach("launchers");
    }
    if r.is_ok() {
        check(rec.ops.iter().filter(|o| matches!(o, Op::File(p, ..) if p.starts_with("bin/") && !p[4..].contains('/'))).count() == 1 + k + other, "not one launcher each");
        check(other == 0 || rec.file("bin/c").is_some(), "a launcher is missing");
        for i in 0..k {
            check(rec.file(&format!("bin/b{i}")).is_some(), "a launcher is missing");
        }
        check(rec.ops.len() == 4 + 1 + k + other, "something else is written");
    } else {
        reach("refused");
    }
}
