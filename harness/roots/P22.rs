#[path = "/verif/harness/sym.rs"]
mod sym;
use crate::platform_tags::*;
use crate::prelude::*;
use crate::vocab::PybiCoreMetadata;
use sym::*;

fn digits(s: &str) -> Option<u32> {
    if s.is_empty() || s.len() > 4 || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut n = 0;
    for b in s.bytes() {
        n = n * 10 + (b - b'0') as u32;
    }
    Some(n)
}
fn version(s: &str) -> Option<(u32, u32, &str)> {
    let (a, s) = s.split_once('_')?;
    let (b, arch) = s.split_once('_')?;
    if !word(arch) {
        return None;
    }
    Some((digits(a)?, digits(b)?, arch))
}
fn word(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_')
}
/// what a machine that supports `tag` supports, best first
fn implied(tag: &str) -> Vec<String> {
    let mut linux = None;
    for (name, minor) in [("manylinux1_", 5), ("manylinux2010_", 12), ("manylinux2014_", 17)] {
        if let Some(arch) = tag.strip_prefix(name) {
            if word(arch) {
                linux = Some(("many", 2, minor, arch));
            }
        }
    }
    for variant in ["many", "musl"] {
        if let Some((a, b, arch)) = tag.strip_prefix(variant).and_then(|t| t.strip_prefix("linux_")).and_then(version) {
            linux = Some((variant, a, b, arch));
        }
    }
    let mut out = vec![];
    if let Some((variant, major, minor, arch)) = linux {
        let mut m = minor as i64;
        while m >= 0 {
            out.push(format!("{variant}linux_{major}_{m}_{arch}"));
            if variant == "many" && major == 2 {
                for (name, minor) in [("1", 5), ("2010", 12), ("2014", 17)] {
                    if m == minor {
                        out.push(format!("manylinux{name}_{arch}"));
                    }
                }
            }
            m -= 1;
        }
        reach("linux");
        return out;
    }
    if let Some((major, minor, arch)) = tag.strip_prefix("macosx_").and_then(version) {
        if major >= 10 {
            let one = [arch];
            let arches: &[&str] = match arch {
                "x86_64" => &["x86_64", "universal2", "intel", "fat64", "fat3", "universal"],
                "arm64" => &["arm64", "universal2"],
                _ => &one,
            };
            let mut vers = vec![];
            for m in (11..=major).rev() {
                vers.push((m, 0));
            }
            for m in (0..=if major == 10 { minor } else { 15 }).rev() {
                vers.push((10, m));
            }
            for (a, b) in vers {
                for arch in arches {
                    out.push(format!("macosx_{a}_{b}_{arch}"));
                }
            }
            reach("macos");
            return out;
        }
    }
    reach("passed through");
    vec![tag.to_string()]
}
/// the platform's tags and scores are those
fn same(p: &impl Platform, want: &[String]) {
    let got: Vec<&String> = p.tags().collect();
    check(got.len() == want.len(), "wrong number of tags");
    let mut last = None;
    for (g, w) in got.iter().zip(want) {
        check(same_str(g, w), "wrong tag or order");
        let c = p.compatibility(g);
        check(c.is_some(), "a tag is not supported");
        if let Some(l) = last {
            check(c.unwrap() < l, "a later tag is not worse");
        }
        last = c;
    }
}
fn expand(tag: &str) {
    let p = PybiPlatform::new(tag);
    let want = implied(tag);
    same(&p, &want);
    check(p.core_tag() == want[0], "the core tag is not the best one");
}
#[no_mangle]
pub extern "C" fn h_p22_text() {
    let n = param("n", 3) as usize;
    let tag = ascii_n("tag", n);
    expand(&tag)
}
#[no_mangle]
pub extern "C" fn h_p22_rest() {
    let n = param("n", 3) as usize;
    let mut rest = ascii_n("rest", n).into_bytes();
    for b in &mut rest {
        if b.is_ascii_digit() {
            fixed(std::slice::from_mut(b));
        }
    }
    let rest = std::str::from_utf8(&rest).unwrap();
    let tag = format!("{}{}{}", pick("start", &["manylinux", "manylinux_2_", "manylinux1", "manylinux2014_", "musllinux_1_", "macosx_10_", "macosx_1", "xmanylinux1_", "win"]), rest, pick("end", &["", "_x86_64", "_1_arm64", "_", ".a"]));
    expand(&tag)
}
/// versions; the number of tags depends on them, so their paths are told apart early
#[no_mangle]
pub extern "C" fn h_p22_linux() {
    let mut b = over_n("minor", param("minor", 2) as usize, "0123456789").into_bytes();
    fixed(&mut b);
    let (a, b) = (over_n("major", param("major", 1) as usize, "0123456789"), std::str::from_utf8(&b).unwrap());
    let variant = pick("variant", &["many", "musl"]);
    expand(&format!("{variant}linux_{a}_{b}_{}", pick("arch", &["x86_64", "", "i686"])))
}
#[no_mangle]
pub extern "C" fn h_p22_macos() {
    let mut a = over_n("tens", 1, "0123").into_bytes();
    a.extend(over_n("ones", 1, "0123456789").into_bytes());
    fixed(&mut a);
    let a = std::str::from_utf8(&a).unwrap();
    let mut b = over_n("minor", param("minor", 2) as usize, "0123456789").into_bytes();
    if a == "10" {
        fixed(&mut b);
    }
    let b = std::str::from_utf8(&b).unwrap();
    expand(&format!("macosx_{a}_{b}_{}", pick("arch", &["x86_64", "arm64", "universal2", "X86_64", "ppc", ""])))
}
/// numbers that are no sensible versions: no panic, and the tag itself comes first
#[no_mangle]
pub extern "C" fn h_p22_huge() {
    let n = param("n", 5) as usize;
    let big = over_n("big", n, "0123456789");
    let (start, end) = [("manylinux_2_", "_x86_64"), ("musllinux_1_", "_x"), ("macosx_10_", "_x"), ("macosx_", "_0_x"), ("manylinux_", "_0_x")][choice("family", 5)];
    assume(big.as_bytes()[0] != b'0');
    let tag = format!("{start}{big}{end}");
    // (implied() knows of at most four digits)
    let p = PybiPlatform::new(&tag);
    check(same_str(p.core_tag(), &tag), "the tag itself is not the best one");
    check(p.tags().len() <= 70000, "an endless expansion");
    reach("huge");
}
const TAGS: &[&str] = &["manylinux_2_6_x", "musllinux_1_0_x", "win32", "macosx_10_1_arm64"];
/// the best tag of several wins
#[no_mangle]
pub extern "C" fn h_p22_best() {
    let core = pick("core", TAGS);
    let p = PybiPlatform::new(core);
    let want = implied(core);
    let mut ts = vec![];
    let mut best = None;
    for _ in 0..param("k", 2) {
        let i = choice("tag", want.len() + 2);
        let t = if i < want.len() { want[i].clone() } else if i == want.len() { "other".to_string() } else { format!("{}x", want[0]) };
        if i < want.len() {
            best = Some(best.map_or(i, |b: usize| b.min(i)));
        }
        ts.push(t);
    }
    let got = p.max_compatibility(ts.iter());
    match best {
        None => check(got.is_none(), "an unsupported tag has a score"),
        Some(b) => {
            check(got == p.compatibility(&want[b]), "not the best tag's score");
            reach("best");
        }
    }
    let more = p.max_compatibility(ts.iter().skip(1));
    check(more <= got, "fewer tags score better");
}
/// a python's wheel tags
#[no_mangle]
pub extern "C" fn h_p22_wheels() {
    let n = param("n", 3) as usize;
    let k = param("k", 2);
    let core = pick("core", &["manylinux_2_1_x", "manylinux1_", "win32"]);
    let mut text = String::from("Metadata-Version: 2.1\nName: cpython\nVersion: 3.11\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {}\n");
    let mut want: Vec<String> = vec![];
    for i in 0..k {
        let t = match choice("template", if n > 0 { 3 } else { 2 }) {
            0 => pick("known", &["cp3-abi3-PLATFORM", "py3-none-any", "cp3-abi3-win32", "PLATFORM", "-PLATFORM", "cp3-PLATFORM-x", "cp3-none-PLATFORM", "cp3-none-platform"]).to_string(),
            1 => "cp3-none-PLATFORM".to_string(),
            _ => format!("cp{}PLATFORM", over_n("middle", n, "-PM3")),
        };
        text.push_str(&format!("Pybi-Wheel-Tag: {t}\n"));
        let mut add = |s: String| {
            if !want.iter().any(|w| same_str(w, &s)) {
                want.push(s);
            }
        };
        if t.ends_with("-PLATFORM") {
            for p in implied(core) {
                add(format!("{}{}", &t[..t.len() - 8], p));
            }
            reach("template");
        } else {
            add(t);
            reach("plain");
        }
        let _ = i;
    }
    let m: Result<PybiCoreMetadata> = text.as_bytes().try_into();
    check(m.is_ok(), "the metadata is refused");
    let w = PybiPlatform::new(core).wheel_platform(&m.unwrap());
    check(w.is_ok(), "no wheel platform");
    let w = w.unwrap();
    same(&w, &want);
    check(w.compatibility("cp3-abi3-other").is_none(), "an unsupported tag has a score");
}
fn fixed(v: &mut [u8]) {
    for b in v {
        *b = concretize(*b as u64) as u8;
    }
}
