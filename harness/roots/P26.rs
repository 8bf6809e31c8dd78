#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/world.rs"]
mod world;
#[path = "/verif/harness/lib/index.rs"]
mod index;
#[path = "/verif/harness/lib/arch.rs"]
mod arch;
use crate::env::*;
use crate::kvstore::KVDirStore;
use crate::prelude::*;
use crate::resolve::*;
use index::{hash, hex, html, pybi_text, remember, vtext, PYTHON, V};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use sym::*;
use world::*;

const ONE: V = (1, false);
/// a file on an index page; no hash, no fragment
#[derive(Clone, Debug)]
struct File {
    name: String,
    hash: Option<ArtifactHash>,
    listed: bool,
    tag: &'static str,
    v: V,
}
fn links(files: &[File]) -> Vec<u8> {
    files.iter().map(|f| format!("<a href=\"/f/{}{}\">x</a>\n", f.name, f.hash.as_ref().map_or(String::new(), |h| format!("#sha256={}", hex(h))))).collect::<String>().into_bytes()
}
/// project pages; there are no other files
fn pages(projects: Vec<(&'static str, Vec<File>)>) {
    serve(move |seen| {
        let what = seen.url.strip_prefix("https://index.example/simple/").and_then(|u| u.strip_suffix('/'));
        match projects.iter().find(|p| what == Some(p.0)) {
            Some(p) => html(links(&p.1)),
            None => dead(),
        }
    })
}
fn forest() -> &'static EnvForest {
    Box::leak(Box::new(EnvForest::new(&root().join("envs")).unwrap()))
}
/// as if it had been unpacked earlier
fn unpacked(h: &ArtifactHash, files: &[(&str, &str)]) -> PathBuf {
    let store = KVDirStore::new(&root().join("envs")).unwrap();
    store
        .get_or_set(h, |p| {
            for (name, text) in files {
                let p = p.join(name);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, text).unwrap();
            }
            Ok(())
        })
        .unwrap()
}
const TEXT: &str = "Metadata-Version: 2.1\nName: a\nVersion: 1\n";
fn inner(text: &str) -> WheelResolveMetadataInner {
    let m: WheelCoreMetadata = text.as_bytes().try_into().unwrap();
    WheelResolveMetadataInner { requires_dist: m.requires_dist, requires_python: m.requires_python, extras: m.extras }
}
fn pin(name: &str, v: V, hashes: Vec<ArtifactHash>) -> PinnedPackage {
    PinnedPackage { name: name.try_into().unwrap(), version: vtext(v).as_str().try_into().unwrap(), hashes }
}
fn listed(files: &[File], v: V) -> Vec<ArtifactHash> {
    files.iter().filter(|f| f.listed && f.v == v).filter_map(|f| f.hash.clone()).collect()
}
/// where a tag stands in what the platform accepts
fn rank(platform: &str, tag: &str) -> Option<usize> {
    let (family, max) = match platform {
        "manylinux_2_5_x86_64" => ("manylinux_2_", 5),
        "musllinux_1_2_x86_64" => ("musllinux_1_", 2),
        p => return tag.split('.').any(|t| t == p).then_some(0),
    };
    tag.split('.')
        .filter_map(|t| {
            if t == "manylinux1_x86_64" && family == "manylinux_2_" {
                return Some(1);
            }
            let minor: usize = t.strip_prefix(family)?.strip_suffix("_x86_64")?.parse().ok()?;
            (minor <= max).then_some(2 * (max - minor))
        })
        .min()
}
const PYTHON_TAGS: &[&str] = &["cp310-cp310-PLATFORM", "py3-none-PLATFORM", "py3-none-any"];
fn python_text() -> String {
    pybi_text(PYTHON).replace("Pybi-Wheel-Tag: py3-none-any\n", &PYTHON_TAGS.iter().map(|t| format!("Pybi-Wheel-Tag: {t}\n")).collect::<String>())
}
/// how good a wheel is for that Python on a platform, smaller is better
fn wheel_rank(platform: &str, tag: &str) -> Option<usize> {
    let mut parts = tag.split('-');
    let (py, abi, plat) = (parts.next()?, parts.next()?, parts.next()?);
    let mut best = None;
    for p in py.split('.') {
        for a in abi.split('.') {
            for (i, t) in PYTHON_TAGS.iter().enumerate() {
                let r = match t.strip_suffix("-PLATFORM") {
                    Some(start) if start == format!("{p}-{a}") => rank(platform, plat),
                    None if t.strip_suffix("-any") == Some(&format!("{p}-{a}")) => plat.split('.').any(|x| x == "any").then_some(0),
                    _ => None,
                };
                if let Some(r) = r {
                    let r = 100 * i + r;
                    best = Some(best.map_or(r, |b: usize| b.min(r)));
                }
            }
        }
    }
    best
}
fn python_file(tag: &str) -> File {
    File { name: format!("cpython-3-{tag}.pybi"), hash: Some(hash("cpython", PYTHON, 0)), listed: true, tag: "", v: PYTHON }
}
fn python_dir() -> PathBuf {
    unpacked(&hash("cpython", PYTHON, 0), &[("pybi-info/METADATA", &python_text())])
}
const WHEELS: &[&str] = &[
    "cp310-cp310-manylinux_2_3_x86_64",
    "py3-none-any",
    "cp310-cp310-manylinux_2_5_x86_64",
    "py3-none-manylinux_2_1_x86_64",
    "cp39-cp39-manylinux_2_3_x86_64",
    "py2.py3-none-any",
    "py3.cp310-none.cp310-manylinux_2_1_x86_64.manylinux_2_4_x86_64",
    "cp310-cp310-musllinux_1_1_x86_64",
    "cp310-none-any",
];
/// a wheel in the index: listed, unknown to the blueprint, or without a hash; of the version or another
fn draw(i: usize, name: &'static str, kinds: usize, tags: usize, versions: usize) -> File {
    let kind = choice("kind", kinds);
    let v = if choice("version", versions) == 0 { ONE } else { (2, false) };
    let tag = WHEELS[choice("tag", tags)];
    let h = hash(name, v, i as u8);
    File { name: format!("{name}-{}-{i}-{tag}.whl", vtext(v)), hash: (kind < 2).then_some(h), listed: kind == 0, tag, v }
}
/// which wheel is taken
#[no_mangle]
pub extern "C" fn h_p26_wheel() {
    let (n, kinds, tags, versions) = (param("files", 2) as usize, param("kinds", 3) as usize, param("tags", 4) as usize, param("versions", 1) as usize);
    machine();
    let wheels: Vec<File> = (0..n).map(|i| draw(i, "a", kinds, tags, versions)).collect();
    let python = python_dir();
    let dirs: Vec<Option<PathBuf>> = wheels.iter().map(|f| f.hash.as_ref().map(|h| unpacked(h, &[(&format!("lib/a-{}.dist-info/METADATA", vtext(f.v)), &TEXT.replace("Version: 1", &format!("Version: {}", vtext(f.v))))]))).collect();
    let mut hashes = listed(&wheels, ONE);
    if flag("other hashes") {
        // of the other version as well: that does not make it a candidate
        hashes.extend(listed(&wheels, (2, false)));
        hashes.insert(0, hash("z", ONE, 77));
    }
    let b = Blueprint { pybi: pin("cpython", PYTHON, vec![hash("cpython", PYTHON, 0)]), wheels: vec![(pin("a", ONE, hashes), WheelResolveMetadata { provenance: "x".into(), inner: inner(TEXT) })], marker_expressions: Default::default() };
    let linux = PybiPlatform::new("manylinux_2_5_x86_64");
    pages(vec![("cpython", vec![python_file("manylinux_2_1_x86_64")]), ("a", wheels.clone())]);
    let db = database(&["https://index.example/simple/"]).unwrap();
    let got = forest().get_env(&db, &b, &[&linux], &[]);
    let usable = |f: &File| if f.listed && f.v == ONE { wheel_rank("manylinux_2_5_x86_64", f.tag) } else { None };
    let best = wheels.iter().filter_map(usable).min();
    match (got, best) {
        (Ok(e), Some(best)) => {
            check(e.lib_dirs.len() == 1 && e.bin_dirs.len() == 2, "not one directory for each package");
            let i = dirs.iter().position(|d| d.as_ref().map_or(false, |d| e.lib_dirs[0] == d.join("lib")));
            check(i.is_some(), "something else is used");
            let i = i.unwrap();
            check(wheels[i].listed && wheels[i].v == ONE, "an artifact is used that is not pinned");
            check(usable(&wheels[i]) == Some(best), "not the best wheel is used");
            check(e.bin_dirs[0] == python.join("bin") && e.bin_dirs[1] == dirs[i].as_ref().unwrap().join("bin") && e.python == python.join("bin/python"), "the directories for programs are wrong");
            reach("installed");
            if wheels.iter().filter(|f| usable(f).is_some()).count() > 1 {
                reach("one of several");
            }
            if wheels.iter().any(|f| !f.listed && f.v == ONE && wheel_rank("manylinux_2_5_x86_64", f.tag) < Some(best) && wheel_rank("manylinux_2_5_x86_64", f.tag).is_some()) {
                reach("a better one is not pinned");
            }
        }
        (Err(_), None) => reach("nothing"),
        (Ok(_), None) => check(false, "a wheel is used that is not pinned or not compatible"),
        (Err(_), Some(_)) => check(false, "a usable wheel is not used"),
    }
}
const PYTHONS: &[&str] = &["manylinux_2_3_x86_64", "musllinux_1_1_x86_64", "manylinux_2_1_x86_64", "manylinux_2_1_x86_64.musllinux_1_2_x86_64", "any"];
/// which Python is taken
#[no_mangle]
pub extern "C" fn h_p26_python() {
    let (n, kinds, tags) = (param("files", 2) as usize, param("kinds", 3) as usize, param("tags", 4) as usize);
    machine();
    let platforms: &[&str] = [&["manylinux_2_5_x86_64", "musllinux_1_2_x86_64"][..], &["musllinux_1_2_x86_64", "manylinux_2_5_x86_64"], &["manylinux_2_5_x86_64"], &["any", "manylinux_2_5_x86_64"], &[]][choice("platforms", param("platforms", 5) as usize)];
    let files: Vec<File> = (0..n)
        .map(|i| {
            let kind = choice("kind", kinds);
            let v = if choice("version", param("versions", 1) as usize) == 0 { PYTHON } else { (2, false) };
            let tag = PYTHONS[choice("tag", tags)];
            File { name: format!("cpython-{}-{i}-{tag}.pybi", vtext(v)), hash: (kind < 2).then_some(hash("cpython", v, i as u8)), listed: kind == 0, tag, v }
        })
        .collect();
    let dirs: Vec<Option<PathBuf>> = files.iter().map(|f| f.hash.as_ref().map(|h| unpacked(h, &[("pybi-info/METADATA", &python_text().replace("Version: 3\n", &format!("Version: {}\n", vtext(f.v))))]))).collect();
    pages(vec![("cpython", files.clone())]);
    let b = Blueprint { pybi: pin("cpython", PYTHON, listed(&files, PYTHON)), wheels: vec![], marker_expressions: Default::default() };
    let objects: Vec<PybiPlatform> = platforms.iter().map(|p| PybiPlatform::new(p)).collect();
    let refs: Vec<&PybiPlatform> = objects.iter().collect();
    let db = database(&["https://index.example/simple/"]).unwrap();
    let got = forest().get_env(&db, &b, &refs, &[]);
    let place = |f: &File| if f.listed && f.v == PYTHON { platforms.iter().enumerate().find_map(|(k, p)| rank(p, f.tag).map(|r| (k, r))) } else { None };
    let best = files.iter().filter_map(place).min();
    match (got, best) {
        (Ok(e), Some(best)) => {
            let i = dirs.iter().position(|d| d.as_ref().map_or(false, |d| e.python == d.join("bin/python")));
            check(i.is_some(), "another Python is used");
            check(place(&files[i.unwrap()]) == Some(best), "not the best Python for the preferred platform");
            check(e.lib_dirs.is_empty() && e.bin_dirs == vec![dirs[i.unwrap()].as_ref().unwrap().join("bin")], "directories are wrong");
            check(e.platform_core_tag == platforms[best.0], "the wrong platform is recorded");
            reach("installed");
            if best.0 > 0 {
                reach("less preferred platform");
            }
            if files.iter().filter(|f| place(f).is_some()).count() > 1 {
                reach("one of several");
            }
        }
        (Err(_), None) => reach("nothing"),
        (Ok(_), None) => check(false, "a Python is used that is not pinned or not compatible"),
        (Err(_), Some(_)) => check(false, "a usable Python is not used"),
    }
}
/// without a usable wheel: one that was built earlier from the source archive, if that is pinned
#[no_mangle]
pub extern "C" fn h_p26_sdist() {
    let (n, tags) = (param("built", 2) as usize, param("tags", 5) as usize);
    machine();
    python_dir();
    let kind = choice("sdist", 4);
    let h = hash("a", ONE, 50);
    let mut files = vec![];
    if kind < 3 {
        files.push(File { name: "a-1.tar.gz".into(), hash: (kind < 2).then_some(h.clone()), listed: kind == 0, tag: "", v: ONE });
    }
    let h2 = hash("a", ONE, 52);
    if flag("another archive") {
        files.insert(0, File { name: "a-1.zip".into(), hash: Some(h2.clone()), listed: false, tag: "", v: ONE });
        unpacked(&h2, &[("a-1-py3-none-any.whl/lib/a-1.dist-info/METADATA", TEXT)]);
    }
    let wheel = choice("wheel", 3);
    let wh = hash("a", ONE, 51);
    let mut wheel_dir = PathBuf::new();
    if wheel < 2 {
        // unpinned or incompatible
        let tag = ["py3-none-any", "cp39-cp39-any"][wheel];
        files.insert(0, File { name: format!("a-1-{tag}.whl"), hash: Some(wh.clone()), listed: wheel == 1, tag, v: ONE });
        wheel_dir = unpacked(&wh, &[("lib/a-1.dist-info/METADATA", TEXT)]);
    }
    let mut built = vec![];
    let mut content = vec![];
    for i in 0..n {
        if flag("built") {
            let tag = WHEELS[choice("tag", tags)];
            assume(!built.contains(&tag));
            built.push(tag);
            content.push(format!("a-1-{tag}.whl/lib/a-1.dist-info/METADATA"));
        } else if i == 0 && flag("junk") {
            content.push("a-1.tmp/lib/a-1.dist-info/METADATA".into());
        }
    }
    let base = unpacked(&h, &content.iter().map(|c| (c.as_str(), TEXT)).collect::<Vec<_>>());
    pages(vec![("cpython", vec![python_file("manylinux_2_1_x86_64")]), ("a", files.clone())]);
    let linux = PybiPlatform::new("manylinux_2_5_x86_64");
    let b = Blueprint { pybi: pin("cpython", PYTHON, vec![hash("cpython", PYTHON, 0)]), wheels: vec![(pin("a", ONE, listed(&files, ONE)), WheelResolveMetadata { provenance: "x".into(), inner: inner(TEXT) })], marker_expressions: Default::default() };
    let db = database(&["https://index.example/simple/"]).unwrap();
    let got = forest().get_env(&db, &b, &[&linux], &[]);
    let best = built.iter().filter_map(|t| wheel_rank("manylinux_2_5_x86_64", t)).min();
    match got {
        Ok(e) => {
            check(e.lib_dirs.len() == 1 && !(wheel < 2 && e.lib_dirs[0].starts_with(&wheel_dir)), "a wheel is used that is not pinned or not compatible");
            check(kind == 0, "a source archive is used that is not pinned");
            let i = built.iter().position(|t| e.lib_dirs[0] == base.join(format!("a-1-{t}.whl/lib")));
            check(i.is_some(), "something else is used");
            check(best.is_some() && wheel_rank("manylinux_2_5_x86_64", built[i.unwrap()]) == best, "not the best wheel is used");
            check(e.bin_dirs[1] == base.join(format!("a-1-{}.whl/bin", built[i.unwrap()])), "the directories for programs are wrong");
            reach("installed");
            if built.len() > 1 {
                reach("one of several");
            }
        }
        Err(_) => {
            check(kind != 0 || best.is_none(), "a usable wheel is not used");
            reach(if kind == 0 { "would have to be built" } else { "nothing" });
        }
    }
}
const REQUIRES: &[&str] = &["", "Requires-Dist: b\n", "Requires-Dist: b>=1\n", "Requires-Dist: b; os_name == 'x'\n", "Requires-Dist: b[e]\n", "Requires-Dist: b; extra == 'e'\n", "Requires-Dist: b\nRequires-Dist: c\n"];
const PYVERSIONS: &[&str] = &["", "Requires-Python: >=3\n", "Requires-Python: >=3, <4\n", "Requires-Python: >3\n"];
const EXTRAS: &[&str] = &["", "Provides-Extra: e\n", "Provides-Extra: e\nProvides-Extra: f\n", "Provides-Extra: f\nProvides-Extra: e\n", "Provides-Extra: E\n"];
/// what was resolved with has to be what is installed
#[no_mangle]
pub extern "C" fn h_p26_metadata() {
    machine();
    python_dir();
    // every pair of values in one place (or in all of them), common ones elsewhere
    let n = param("n", 0) as usize;
    let place = choice("place", if n == 0 { 3 } else { 1 });
    let mut two = |i: usize, max: usize| {
        if n > 0 {
            (choice("one", n.min(max)), choice("two", n.min(max)))
        } else if place == i {
            (choice("one", max), choice("two", max))
        } else {
            let c = choice("common", 2);
            (c, c)
        }
    };
    let (r1, r2) = two(0, REQUIRES.len());
    let (p1, p2) = two(1, PYVERSIONS.len());
    let (e1, e2) = two(2, EXTRAS.len());
    let text = |r: usize, p: usize, e: usize| format!("{TEXT}{}{}{}", REQUIRES[r], PYVERSIONS[p], EXTRAS[e]);
    let route = choice("route", 2);
    // in the second of two packages, or as something built earlier
    let h = hash("a", ONE, 0);
    let installed = text(r2, p2, e2) + ["", "Summary: other things do not matter\n"][choice("more", 2)];
    let file = if route == 0 {
        unpacked(&h, &[("lib/a-1.dist-info/METADATA", &installed), ("lib/a.py", "")]);
        File { name: "a-1-py3-none-any.whl".into(), hash: Some(h.clone()), listed: true, tag: "", v: ONE }
    } else {
        unpacked(&h, &[("a-1-py3-none-any.whl/lib/a-1.dist-info/METADATA", &installed)]);
        File { name: "a-1.zip".into(), hash: Some(h.clone()), listed: true, tag: "", v: ONE }
    };
    let h2 = hash("d", ONE, 0);
    unpacked(&h2, &[("lib/d-1.dist-info/METADATA", "Metadata-Version: 2.1\nName: d\nVersion: 1\n")]);
    let file2 = File { name: "d-1-py3-none-any.whl".into(), hash: Some(h2.clone()), listed: true, tag: "", v: ONE };
    pages(vec![("cpython", vec![python_file("manylinux_2_1_x86_64")]), ("a", vec![file]), ("d", vec![file2])]);
    let linux = PybiPlatform::new("manylinux_2_5_x86_64");
    let b = Blueprint {
        pybi: pin("cpython", PYTHON, vec![hash("cpython", PYTHON, 0)]),
        wheels: vec![
            (pin("d", ONE, vec![h2]), WheelResolveMetadata { provenance: "y".into(), inner: inner(TEXT) }),
            (pin("a", ONE, vec![h]), WheelResolveMetadata { provenance: "x".into(), inner: inner(&text(r1, p1, e1)) }),
        ],
        marker_expressions: Default::default(),
    };
    let db = database(&["https://index.example/simple/"]).unwrap();
    let got = forest().get_env(&db, &b, &[&linux], &[]);
    let set = |e: usize| [0, 1, 2, 2, 1][e];
    let same = r1 == r2 && p1 == p2 && set(e1) == set(e2);
    check(got.is_ok() == same, if same { "consistent metadata is refused" } else { "other metadata than resolved with is accepted" });
    reach(if same { "consistent" } else { "refused" });
}
/// the order of directories, and the variables for programs that are run in the environment
#[no_mangle]
pub extern "C" fn h_p26_paths() {
    machine();
    let python = python_dir();
    let names = ["a", "d", "e"];
    let mut order: Vec<usize> = vec![];
    for _ in 0..choice("packages", param("packages", 3) as usize + 1) {
        let i = choice("package", 3);
        assume(!order.contains(&i));
        order.push(i);
    }
    let dirs: Vec<PathBuf> = names.iter().map(|n| unpacked(&hash(n, ONE, 0), &[(&format!("lib/{n}-1.dist-info/METADATA"), &TEXT.replace("Name: a", &format!("Name: {n}")))])).collect();
    let mut projects: Vec<(&'static str, Vec<File>)> = names.iter().map(|n| (*n, vec![File { name: format!("{n}-1-py3-none-any.whl"), hash: Some(hash(n, ONE, 0)), listed: true, tag: "", v: ONE }])).collect();
    projects.push(("cpython", vec![python_file("manylinux_2_1_x86_64")]));
    pages(projects);
    let b = Blueprint {
        pybi: pin("cpython", PYTHON, vec![hash("cpython", PYTHON, 0)]),
        wheels: order.iter().map(|i| (pin(names[*i], ONE, vec![hash(names[*i], ONE, 0)]), WheelResolveMetadata { provenance: "x".into(), inner: inner(TEXT) })).collect(),
        marker_expressions: Default::default(),
    };
    let linux = PybiPlatform::new("manylinux_2_5_x86_64");
    let db = database(&["https://index.example/simple/"]).unwrap();
    let e = forest().get_env(&db, &b, &[&linux], &[]);
    check(e.is_ok(), "no environment");
    let e = e.unwrap();
    let lib: Vec<PathBuf> = order.iter().map(|i| dirs[*i].join("lib")).collect();
    let mut bin: Vec<PathBuf> = vec![python.join("bin")];
    bin.extend(order.iter().map(|i| dirs[*i].join("bin")));
    check(e.lib_dirs == lib, "the directories for packages are wrong");
    check(e.bin_dirs == bin, "the directories for programs are wrong");
    let old = pick("path", &["/usr/bin:/bin", "/bin", "", "/a::/b", "/bin:/bin"]);
    std::env::set_var("PATH", old);
    let vars = e.env_vars();
    check(vars.is_ok(), "no variables");
    let vars: Vec<(&str, std::ffi::OsString)> = vars.unwrap().into_iter().collect();
    check(vars.len() == 4 && vars.iter().map(|v| v.0).collect::<HashSet<_>>().len() == 4, "not four variables");
    let var = |n: &str| vars.iter().find(|v| v.0 == n).map(|v| v.1.to_str().unwrap().to_string()).unwrap_or_default();
    let text = |p: &Path| p.to_str().unwrap().to_string();
    let own: Vec<String> = bin.iter().map(|p| text(p)).collect();
    check(var("PATH") == format!("{}:{old}", own.join(":")), "PATH is wrong");
    check(var("POSY_PYTHON") == text(&python.join("bin/python")) && var("POSY_PYTHONW") == text(&python.join("bin/python")), "the Python is wrong");
    check(var("POSY_PYTHON_PACKAGES") == lib.iter().map(|p| text(p)).collect::<Vec<_>>().join(":"), "POSY_PYTHON_PACKAGES is wrong");
    reach(["none", "one", "several", "several"][order.len()]);
}
fn member(name: &str, data: &[u8]) -> arch::Member {
    arch::Member { name: name.as_bytes().to_vec(), attr: 0o100644 << 16, system: 3, flags: 0, data: data.to_vec() }
}
/// a wheel that has to be fetched first; again without the index
#[no_mangle]
pub extern "C" fn h_p26_fetch() {
    machine();
    python_dir();
    let code = pick("code", &["x = 1\n", ""]);
    let other = choice("metadata", 3);
    let meta = [TEXT.to_string(), TEXT.replace("Name: a", "Name: b"), format!("{TEXT}Requires-Dist: c\n")][other].clone();
    let body = arch::zip(&[member("a.py", code.as_bytes()), member("a-1.data/scripts/go", b"#!python\n"), member("a-1.dist-info/WHEEL", b"Wheel-Version: 1.0\nRoot-Is-Purelib: true\n"), member("a-1.dist-info/METADATA", meta.as_bytes()), member("a-1.dist-info/RECORD", b"")]);
    let h = sha256(&body);
    let mut sent = body.clone();
    let bad = choice("damaged", param("damaged", 2) as usize);
    if bad > 0 {
        let at = [0, body.len() / 2, body.len() - 1][choice("at", 3)];
        sent[at] ^= 1;
    }
    let file = File { name: "a-1-py3-none-any.whl".into(), hash: Some(h.clone()), listed: true, tag: "", v: ONE };
    let python = python_file("manylinux_2_1_x86_64");
    let run = |files: Option<Vec<u8>>| {
        let (file, python) = (file.clone(), python.clone());
        serve(move |seen| match seen.url.to_string().as_str() {
            "https://index.example/simple/cpython/" => html(links(&[python.clone()])),
            "https://index.example/simple/a/" => html(links(&[file.clone()])),
            _ => match &files {
                Some(body) => {
                    check(seen.url.starts_with("https://index.example/f/a-1-py3-none-any.whl"), "something else is fetched");
                    answer(200, &[], body.clone())
                }
                None => dead(),
            },
        });
        let linux = PybiPlatform::new("manylinux_2_5_x86_64");
        let b = Blueprint { pybi: pin("cpython", PYTHON, vec![hash("cpython", PYTHON, 0)]), wheels: vec![(pin("a", ONE, vec![h.clone()]), WheelResolveMetadata { provenance: "x".into(), inner: inner(TEXT) })], marker_expressions: Default::default() };
        let db = database(&["https://index.example/simple/"]).unwrap();
        forest().get_env(&db, &b, &[&linux], &[])
    };
    let good = other == 0 && bad == 0;
    let first = run(Some(sent));
    check(first.is_ok() == good, if good { "a good wheel is refused" } else { "a wheel with the wrong content is installed" });
    if let Ok(e) = first {
        let look = |e: &Env| {
            check(std::fs::read(e.lib_dirs[0].join("a.py")).map_or(false, |c| c == code.as_bytes()), "the files of the wheel are not there");
            check(std::fs::read(e.bin_dirs[1].join("go")).is_ok(), "the scripts of the wheel are not there");
        };
        look(&e);
        let again = run(None);
        check(again.is_ok(), "an installed environment needs the network");
        let again = again.unwrap();
        check(again.lib_dirs == e.lib_dirs && again.bin_dirs == e.bin_dirs, "another environment the second time");
        look(&again);
        reach("installed");
    } else {
        check(run(None).is_err(), "a refused wheel is used later");
        reach(if bad > 0 { "damaged" } else { "refused" });
    }
}
