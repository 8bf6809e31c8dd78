#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/pep508.rs"]
mod pep508;
use crate::prelude::*;
use crate::resolve::*;
use pep508::*;
use std::collections::{HashMap, HashSet};
use sym::*;

fn some<T: Clone>(tag: &str, what: &[T]) -> T {
    what[choice(tag, what.len())].clone()
}
fn same_allowed(a: &AllowPre, b: &AllowPre) -> bool {
    match (a, b) {
        (AllowPre::All, AllowPre::All) => true,
        (AllowPre::Some(a), AllowPre::Some(b)) => a == b && a.iter().all(|x| b.get(x).unwrap().as_given() == x.as_given()),
        _ => false,
    }
}
fn same_brief(a: &Brief, b: &Brief) -> bool {
    same_req(&a.python, &b.python) && a.requirements.len() == b.requirements.len() && a.requirements.iter().zip(&b.requirements).all(|(a, b)| same_req(a, b)) && same_allowed(&a.allow_pre, &b.allow_pre)
}
/// stored in every way that serde offers for JSON, and loaded again
fn through<T: Serialize + serde::de::DeserializeOwned>(what: &T, same: impl Fn(&T, &T) -> bool) {
    let text = serde_json::to_string(what);
    check(text.is_ok(), "it cannot be stored");
    let text = text.unwrap();
    let ok = |r: std::result::Result<T, serde_json::Error>| r.map_or(false, |r| same(what, &r));
    check(ok(serde_json::from_str(&text)), "it does not come back from text");
    check(ok(serde_json::from_reader(text.as_bytes())), "it does not come back from a file");
    let pretty = serde_json::to_string_pretty(what).unwrap();
    check(ok(serde_json::from_slice(pretty.as_bytes())), "it does not come back from pretty text");
    check(ok(serde_json::to_value(what).and_then(serde_json::from_value)), "it does not come back from a value");
}
fn name(tag: &str) -> PackageName {
    // letters, digits and separators in one place
    let t = format!("a{}B", over(tag, 0, param("n", 1) as usize, "aZ09._-"));
    t.as_str().try_into().unwrap()
}
const USER: &[&str] = &["a", "a.B[x-Y,z] >=1,!=2.*", "a; os_name == 'x\"y' and python_version < \"3\"", "a[x] ==1.0+l.1; (os_name == 'a' or 'b' in platform_version) and implementation_name != ''"];
#[no_mangle]
pub extern "C" fn h_p25_brief() {
    let python = some("python", &["cpython", "cpython_unofficial >= 3, < 3.11", "C.py ==3.*"]);
    let mut requirements = vec![];
    for _ in 0..choice("requirements", param("k", 1) as usize + 1) {
        requirements.push(UserRequirement::try_from(some("requirement", USER)).unwrap());
    }
    let allow_pre = match choice("allowed", 4) {
        0 => AllowPre::All,
        k => AllowPre::Some((1..k).map(|i| name(["", "one", "two"][i])).collect()),
    };
    let b = Brief { python: python.try_into().unwrap(), requirements, allow_pre };
    through(&b, same_brief);
    reach(match &b.allow_pre {
        AllowPre::All => "all",
        AllowPre::Some(s) if s.is_empty() => "none",
        _ => "some",
    });
}
fn same_pin(a: &PinnedPackage, b: &PinnedPackage) -> bool {
    a == b && a.name.as_given() == b.name.as_given() && a.version.to_string() == b.version.to_string()
}
fn same_blueprint(a: &Blueprint, b: &Blueprint) -> bool {
    same_pin(&a.pybi, &b.pybi)
        && a.wheels.len() == b.wheels.len()
        && a.wheels.iter().zip(&b.wheels).all(|(a, b)| same_pin(&a.0, &b.0) && a.1.provenance == b.1.provenance && a.1.inner == b.1.inner)
        && a.marker_expressions == b.marker_expressions
}
fn pin() -> PinnedPackage {
    PinnedPackage {
        name: some("name", &["a", "Foo.bar_baz"]).try_into().unwrap(),
        version: some("version", &["1", "1!2.0rc3.post4.dev5+local.6"]).try_into().unwrap(),
        hashes: (0..choice("hashes", 3)).map(|i| ArtifactHash { mode: ["sha256", "md5"][i].into(), raw_data: vec![i as u8 * 0xf0, 0x0a, 255, 1] }).collect(),
    }
}
#[no_mangle]
pub extern "C" fn h_p25_pins() {
    let b = Blueprint { pybi: pin(), wheels: vec![], marker_expressions: Default::default() };
    through(&b, same_blueprint);
    reach(if b.pybi.hashes.is_empty() { "no hashes" } else { "hashes" });
}
#[no_mangle]
pub extern "C" fn h_p25_wheel() {
    let mut requires_dist = vec![];
    for _ in 0..choice("requirements", param("k", 1) as usize + 1) {
        requires_dist.push(PackageRequirement::try_from(some("requirement", &["a", "a.B[x-Y,z] >=1,!=2.*; extra == 'q'", "a; os_name == \"x'y\" or 'b' not in extra"])).unwrap());
    }
    let requires_python: Specifiers = match choice("python", 4) {
        0 => Specifiers::default(),
        1 => ">=3.6,<4".parse().unwrap(),
        2 => "!=3.1.*".parse().unwrap(),
        _ => "".parse().unwrap_or_default(),
    };
    let extras: HashSet<Extra> = some("extras", &[vec![], vec!["x"], vec!["X-y", "z"]]).into_iter().map(|e| e.try_into().unwrap()).collect();
    let inner = WheelResolveMetadataInner { requires_dist, requires_python, extras };
    let wheels = (0..choice("wheels", param("wheels", 2) as usize + 1)).map(|i| (PinnedPackage { name: ["a", "b"][i].try_into().unwrap(), version: "1".try_into().unwrap(), hashes: vec![] }, WheelResolveMetadata { provenance: over("url", 0, param("n", 1) as usize, "a/\"\\\u{1}"), inner: inner.clone() })).collect();
    let b = Blueprint { pybi: PinnedPackage { name: "py".try_into().unwrap(), version: "3".try_into().unwrap(), hashes: vec![] }, wheels, marker_expressions: Default::default() };
    through(&b, same_blueprint);
    reach(if b.wheels.is_empty() { "no wheels" } else if inner.requires_python.0.is_empty() { "any python" } else { "wheels" });
}
#[no_mangle]
pub extern "C" fn h_p25_literals() {
    // two recorded markers with any literals: different ones must both stay
    let mut marker_expressions: HashMap<StandaloneMarkerExpr, bool> = HashMap::new();
    let mut texts = vec![];
    for who in ["first", "second"] {
        let text = ascii_n(who, param("n", 1) as usize);
        let quote = if flag("quote") { '"' } else { '\'' };
        for b in text.bytes() {
            assume(b != quote as u8);
        }
        let e = StandaloneMarkerExpr::try_from(format!("os_name == {quote}{text}{quote}").as_str());
        if e.is_err() {
            return; // judged by P07
        }
        marker_expressions.insert(e.unwrap(), texts.is_empty());
        texts.push(text);
    }
    let same = same_str(&texts[0], &texts[1]);
    check((marker_expressions.len() == 1) == same, "different markers are taken for the same");
    let b = Blueprint { pybi: PinnedPackage { name: "py".try_into().unwrap(), version: "3".try_into().unwrap(), hashes: vec![] }, wheels: vec![], marker_expressions };
    through(&b, same_blueprint);
    reach(if same { "same" } else { "different" });
}
#[no_mangle]
pub extern "C" fn h_p25_markers() {
    let mut marker_expressions: HashMap<StandaloneMarkerExpr, bool> = HashMap::new();
    for i in 0..param("k", 2) {
        if flag("present") {
            let text = match choice("shape", 3) {
                0 => format!("os_name {} '{}'", pick("op", &["==", "not in", "~="]), pick("literal", &["", "a", "\"", "<&>"])),
                1 => format!("'x' in platform_version {} (python_version >= \"3\" or os_name != 'b{i}')", pick("word", &["and", "or"])),
                _ => format!("(os_name == 'a' {} os_name == 'b') {} os_name == 'c{i}'", pick("word", &["and", "or"]), pick("word", &["and", "or"])),
            };
            let e = StandaloneMarkerExpr::try_from(text.as_str()).unwrap();
            marker_expressions.insert(e, flag("value"));
        }
    }
    let n = marker_expressions.len();
    let b = Blueprint { pybi: PinnedPackage { name: "py".try_into().unwrap(), version: "3".try_into().unwrap(), hashes: vec![] }, wheels: vec![], marker_expressions };
    through(&b, same_blueprint);
    reach(["none", "one", "two"][n.min(2)]);
}
const BRIEF: &str = r#"{"python":"cpython >=3","requirements":["a[x]>1; os_name=='b'"],"allow_pre":["b"]}"#;
const BLUEPRINT: &str = r#"{"pybi":{"name":"py","version":"3","hashes":["sha256=00112233"]},"wheels":[[{"name":"a","version":"1","hashes":[]},{"provenance":"x","requires-dist":["b>1"],"requires-python":">=3","extras":["x"]}]],"marker-expressions":{"os_name == \"a\"":true}}"#;
/// text that was damaged in one place: never a panic, and what still loads is stored again faithfully
#[no_mangle]
pub extern "C" fn h_p25_damage() {
    let which = param("which", 0);
    let mut t = if which == 0 { BRIEF } else { BLUEPRINT }.as_bytes().to_vec();
    let at = choice("at", t.len());
    let n = param("n", 1) as usize;
    let new = bytes("new", n);
    let cut = choice("cut", 2).min(t.len() - at);
    t.splice(at..at + cut, new);
    if which == 0 {
        match serde_json::from_slice::<Brief>(&t) {
            Ok(b) => {
                through(&b, same_brief);
                reach("loaded")
            }
            Err(_) => reach("refused"),
        }
    } else {
        match serde_json::from_slice::<Blueprint>(&t) {
            Ok(b) => {
                through(&b, same_blueprint);
                reach("loaded")
            }
            Err(_) => reach("refused"),
        }
    }
}
/// missing and additional fields, other types
#[no_mangle]
pub extern "C" fn h_p25_fields() {
    let python = pick("python", &["", "\"python\":\"cpython\",", "\"python\":\"cpython[x]\",", "\"python\":1,"]);
    let reqs = pick("requirements", &["", "\"requirements\":[],", "\"requirements\":[\"a\"],", "\"requirements\":\"a\",", "\"requirements\":[\"a; extra == 'x'\"],"]);
    let (allow, valid) = some("allowed", &[("", Some(0)), ("\"allow_pre\":\":all:\",", Some(9)), ("\"allow_pre\":\"\\u003aall:\",", Some(9)), ("\"allow_pre\":\"all\",", None), ("\"allow_pre\":[],", Some(0)), ("\"allow_pre\":[\"a\",\"A\"],", Some(1)), ("\"allow_pre\":[\"-\"],", None), ("\"allow_pre\":null,", None)]);
    let t = format!("{{{}", [python, reqs, allow].concat());
    let t = format!("{}}}", t.trim_end_matches(','));
    let good = python == "\"python\":\"cpython\"," && matches!(reqs, "\"requirements\":[]," | "\"requirements\":[\"a\"],") && valid.is_some();
    for r in [serde_json::from_str::<Brief>(&t), serde_json::from_reader(t.as_bytes())] {
        check(r.is_ok() == good, "a brief is judged wrongly");
        if let Ok(b) = r {
            check(match &b.allow_pre { AllowPre::All => valid == Some(9), AllowPre::Some(s) => Some(s.len()) == valid }, "allowed pre-releases are misread");
            check(b.requirements.len() == (reqs.len() > 18) as usize, "requirements are misread");
            reach("loaded");
        } else {
            reach("refused");
        }
    }
}
