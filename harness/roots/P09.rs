#[path = "/verif/harness/sym.rs"]
mod sym;
use crate::prelude::*;
use crate::vocab::*;
use std::cmp::Ordering;
use sym::*;

fn valid(s: &str) -> bool {
    let mut ok = true;
    for b in s.bytes() {
        ok &= b.is_ascii_alphanumeric() | (b == b'_') | (b == b'.') | (b == b'+') | (b == b'!') | (b == b'-');
    }
    ok
}
/// the parts of a name, by hand; None = not a name
struct Parts {
    dist: PackageName,
    version: Version,
    build: (Option<u32>, String),
    tags: Vec<Vec<String>>,
}
fn binary(text: &str, suffix: &str, sets: usize) -> Option<Parts> {
    if !valid(text) {
        return None;
    }
    let mut ps: Vec<&str> = text.strip_suffix(suffix)?.split('-').collect();
    let mut build = (None, String::new());
    if ps.len() == 3 + sets {
        let b = ps.remove(2);
        if b.is_empty() {
            return None;
        }
        let mut i = 0;
        let mut n = 0u64;
        while i < b.len() && b.as_bytes()[i].is_ascii_digit() {
            n = n * 10 + (b.as_bytes()[i] - b'0') as u64;
            i += 1;
        }
        if i > 0 {
            if n > u32::MAX as u64 {
                return None;
            }
            build.0 = Some(n as u32);
        }
        build.1 = b[i..].to_string();
    }
    if ps.len() != 2 + sets {
        return None;
    }
    let tags = ps[2..].iter().map(|t| t.split('.').map(|x| x.to_string()).collect()).collect();
    Some(Parts { dist: ps[0].try_into().ok()?, version: ps[1].try_into().ok()?, build, tags })
}
fn same_build(a: &(Option<u32>, String), n: Option<u32>, s: &str) -> bool {
    a.0 == n && same_str(&a.1, s)
}
fn same_tags(a: &[String], b: &[String]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_str(x, y))
}
/// parses like the rules say, and its printed form parses to an equal name
fn name(text: &str) -> Option<ArtifactName> {
    let a: Result<ArtifactName> = text.try_into();
    let good = if text.ends_with(".whl") {
        let want = binary(text, ".whl", 3);
        if let (Some(w), Ok(a)) = (&want, &a) {
            let n: &WheelName = match a.inner_as() {
                Some(n) => n,
                None => return check2("a wheel is something else"),
            };
            check(n.distribution == w.dist && same_str(n.distribution.as_given(), w.dist.as_given()) && n.version == w.version, "wrong distribution or version");
            check(same_build(&w.build, n.build_number, &n.build_name), "wrong build tag");
            check(same_tags(&n.py_tags, &w.tags[0]) && same_tags(&n.abi_tags, &w.tags[1]) && same_tags(&n.arch_tags, &w.tags[2]), "wrong tags");
            // the product of the compressed tags
            let all = n.all_tags();
            let mut count = 0;
            let mut seen: Vec<String> = vec![];
            for p in &w.tags[0] {
                for b in &w.tags[1] {
                    for c in &w.tags[2] {
                        let t = format!("{p}-{b}-{c}");
                        check(all.contains(&t), "a tag is missing");
                        if !seen.iter().any(|s| same_str(s, &t)) {
                            count += 1;
                            seen.push(t);
                        }
                    }
                }
            }
            check(all.len() == count, "too many tags");
            reach("wheel");
        }
        want.is_some()
    } else if text.ends_with(".pybi") {
        let want = binary(text, ".pybi", 1);
        if let (Some(w), Ok(a)) = (&want, &a) {
            let n: &PybiName = match a.inner_as() {
                Some(n) => n,
                None => return check2("a pybi is something else"),
            };
            check(n.distribution == w.dist && same_str(n.distribution.as_given(), w.dist.as_given()) && n.version == w.version, "wrong distribution or version");
            check(same_build(&w.build, n.build_number, &n.build_name), "wrong build tag");
            check(same_tags(&n.arch_tags, &w.tags[0]), "wrong tags");
            let all = n.all_tags();
            check(n.arch_tags.iter().all(|t| all.contains(t)) && all.iter().all(|t| n.arch_tags.iter().any(|u| same_str(t, u))), "wrong set of tags");
            reach("pybi");
        }
        want.is_some()
    } else {
        let stem = text.strip_suffix(".zip").or_else(|| text.strip_suffix(".tar.gz"));
        let want: Option<(PackageName, Version)> = stem.and_then(|s| s.rsplit_once('-')).and_then(|(d, v)| Some((d.try_into().ok()?, v.try_into().ok()?)));
        if let (Some(w), Ok(a)) = (&want, &a) {
            check(a.inner_as::<SdistName>().is_some(), "an sdist is something else");
            check(a.distribution() == &w.0 && same_str(a.distribution().as_given(), w.0.as_given()) && a.version() == &w.1, "wrong distribution or version");
            let p = a.to_string();
            check(p.ends_with(".zip") == text.ends_with(".zip") && p.ends_with(".tar.gz") == text.ends_with(".tar.gz"), "wrong format");
            reach("sdist");
        }
        want.is_some()
    };
    check(a.is_ok() == good, "a name is judged wrongly");
    let a = match a {
        Ok(a) => a,
        Err(_) => {
            reach("refused");
            return None;
        }
    };
    let p = a.to_string();
    let b: Result<ArtifactName> = (&*p).try_into();
    check(b.is_ok(), "a printed name does not parse");
    let b = b.unwrap();
    check(a == b && a.cmp(&b) == Ordering::Equal, "printing changes the name");
    check(same_str(a.distribution().as_given(), b.distribution().as_given()), "printing changes the spelling");
    Some(a)
}
fn check2(id: &str) -> Option<ArtifactName> {
    check(false, id);
    None
}
#[no_mangle]
pub extern "C" fn h_p09_text() {
    let n = param("n", 4) as usize;
    let alpha = "a1-._+!";
    let t = match param("kind", 0) {
        0 => format!("{}-1-a-b-c.whl", over_n("text", n, alpha)),
        1 => format!("f-1{}.whl", over_n("text", n, alpha)),
        2 => format!("f-1-{}-c.whl", over_n("text", n, alpha)),
        3 => format!("{}{}", over_n("text", n, alpha), pick("end", &["-1-x.pybi", "-x.pybi"])),
        4 => format!("f-1-{}.pybi", over_n("text", n, alpha)),
        5 => format!("{}{}", over_n("text", n, alpha), pick("end", &[".zip", ".tar.gz", "-1.tar.gz"])),
        _ => format!("{}{}", pick("start", &["f-1-a-b-c.whl", "f-1-x.pybi", "f-1.zip", "f-1-a-b-c", "f-1"]), over_n("text", n, ".whlzipybtarg")),
    };
    name(&t);
}
/// any character anywhere
#[no_mangle]
pub extern "C" fn h_p09_ascii() {
    let n = param("n", 2) as usize;
    let full = pick("name", &["f-1-a-b-c.whl", "f-1-x.pybi", "f-1.tar.gz"]);
    let at = choice("at", full.len() + 1);
    let mut t = full[..at].to_string();
    t.push_str(&ascii_n("text", n));
    t.push_str(&full[at + if at < full.len() { choice("over", 2) } else { 0 }..]);
    name(&t);
}
#[no_mangle]
pub extern "C" fn h_p09_build() {
    let digits = param("digits", 10) as usize;
    // (the limit is 4294967295)
    let start = pick("start", &["", "42949672", "04294967", "99999999999"]);
    let mut d = over_n("digits", digits, "0123456789").into_bytes();
    for b in &mut d {
        *b = concretize(*b as u64) as u8;
    }
    let rest = over_n("rest", if start.is_empty() { param("n", 1) as usize } else { 0 }, "a_.+!");
    let text = format!("{start}{}{rest}", std::str::from_utf8(&d).unwrap());
    let t = if flag("wheel") { format!("foo-1-{text}-py3-none-any.whl") } else { format!("foo-1-{text}-any.pybi") };
    if let Some(a) = name(&t) {
        reach("build tag");
        let _ = a;
    }
}
fn some(tag: &str, kind: usize) -> ArtifactName {
    let f = |x: &str| format!("{tag}.{x}");
    let distribution: PackageName = pick(&f("dist"), &["foo", "F.oo", "f_oo", "bar"]).try_into().unwrap();
    let version: Version = pick(&f("version"), &["1", "1.0", "1a1"]).try_into().unwrap();
    let build_number = if kind != 2 && flag(&f("numbered")) { Some(u32v(&f("number"))) } else { None };
    let build_name = if kind != 2 { over(&f("build"), 0, 1, "ab") } else { String::new() };
    let arch_tags = vec![over_n(&f("tag"), 1, "xyz")];
    match kind {
        0 => ArtifactName::Wheel(WheelName { distribution, version, build_number, build_name, py_tags: vec![over_n(&f("py"), 1, "xyz")], abi_tags: vec!["none".to_string()], arch_tags }),
        1 => ArtifactName::Pybi(PybiName { distribution, version, build_number, build_name, arch_tags }),
        _ => ArtifactName::Sdist(SdistName { distribution, version, format: if flag(&f("zip")) { SdistFormat::Zip } else { SdistFormat::TarGz } }),
    }
}
/// the order of build tags: none, then a text, then numbers
fn rank(a: &ArtifactName) -> (u8, u32, String) {
    let (n, s) = match (a.inner_as::<WheelName>(), a.inner_as::<PybiName>()) {
        (Some(w), _) => (w.build_number, w.build_name.clone()),
        (_, Some(p)) => (p.build_number, p.build_name.clone()),
        _ => (None, String::new()),
    };
    match n {
        None => (0, 0, s),
        Some(n) => (1, n, s),
    }
}
#[no_mangle]
pub extern "C" fn h_p09_order() {
    let (k, l) = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)][choice("kinds", 6)];
    let (a, b) = (some("a", k), some("b", l));
    let o = a.cmp(&b);
    check(b.cmp(&a) == o.reverse(), "the order is not antisymmetric");
    check(a.partial_cmp(&b) == Some(o), "the two orders differ");
    check((o == Ordering::Equal) == (a == b), "order and equality disagree");
    let kind = |x: &ArtifactName| x.inner_as::<WheelName>().is_some() as u8 + 2 * x.inner_as::<PybiName>().is_some() as u8;
    if kind(&a) == kind(&b) && a.distribution() == b.distribution() {
        if a.version() != b.version() {
            check(o == a.version().cmp(b.version()), "a later version does not sort later");
            reach("version decides");
        } else if rank(&a) != rank(&b) {
            check(o == rank(&a).cmp(&rank(&b)), "a later build does not sort later");
            reach("build decides");
        }
    }
    if a == b {
        check(kind(&a) == kind(&b) && a.distribution() == b.distribution() && a.version() == b.version() && rank(&a) == rank(&b), "different names are equal");
        reach("equal");
    }
}
fn few(tag: &str) -> ArtifactName {
    pick(tag, &["foo-1-a-b-c.whl", "foo-1-1-a-b-c.whl", "foo-1-x-a-b-c.whl", "foo-1.0-a-b-c.whl", "foo-1-a.pybi", "foo-1-2-a.pybi", "foo-1.zip", "Foo-1.tar.gz", "bar-2.zip", "bar-2-a-b-c.whl"]).try_into().unwrap()
}
#[no_mangle]
pub extern "C" fn h_p09_transitive() {
    let (a, b, c) = (few("a"), few("b"), few("c"));
    if a <= b && b <= c {
        check(a <= c, "the order is not transitive");
        reach("chain");
    }
}
#[no_mangle]
pub extern "C" fn h_p09_split() {
    let n = param("n", 3) as usize;
    let k = param("k", 2);
    let mut tags = vec![];
    for _ in 0..k {
        tags.push(match choice("tag", 3) {
            0 => pick("known", &["macosx_11_0_universal2", "macosx_11_0_x86_64", "win32", "macosx_universal2", "_universal2", "universal2", "macosx_1_universal2x", "xmacosx_1_universal2", "manylinux_2_17_universal2"]).to_string(),
            1 => format!("macosx_{}_universal2", over_n("middle", n, "1_u")),
            _ => format!("macosx_10{}", over_n("rest", n, "_universal2")),
        });
    }
    let build = pick("build", &["", "-1a"]);
    let text = format!("foo-1{build}-{}.pybi", tags.join("."));
    let a: ArtifactName = (&*text).try_into().unwrap();
    let mut want = vec![];
    for t in &tags {
        if t.starts_with("macosx_") && t.ends_with("_universal2") {
            let p = &t[..t.len() - "universal2".len()];
            want.push(format!("{p}arm64"));
            want.push(format!("{p}x86_64"));
            reach("universal");
        } else {
            want.push(t.clone());
            reach("plain");
        }
    }
    let got = a.split_multiplatform_pybis();
    let mut found = vec![];
    for g in &got {
        let p: &PybiName = g.inner_as().unwrap();
        check(p.arch_tags.len() == 1, "a split name has several platforms");
        check(same_str(&g.to_string(), &format!("foo-1{build}-{}.pybi", p.arch_tags[0])), "splitting changes something else");
        found.push(p.arch_tags[0].clone());
    }
    check(want.iter().all(|w| found.iter().any(|f| same_str(w, f))), "a platform is lost");
    check(found.iter().all(|w| want.iter().any(|f| same_str(w, f))), "a platform is invented");
    check(got.len() <= want.len(), "a platform appears more than once");
    for other in ["foo-1.zip", "foo-1-py3-none-macosx_1_universal2.win32.whl"] {
        let o: ArtifactName = other.try_into().unwrap();
        check(o.split_multiplatform_pybis() == vec![o], "something other than a pybi is split");
    }
}
