#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/world.rs"]
mod world;
#[path = "/verif/harness/lib/index.rs"]
mod index;
#[path = "/verif/harness/lib/arch.rs"]
mod arch;
#[path = "/verif/harness/lib/build.rs"]
mod build;
use crate::env::*;
use crate::package_db::*;
use crate::prelude::*;
use crate::resolve::*;
use build::*;
use index::{hash, hex, html, remember, V};
use std::path::PathBuf;
use sym::*;
use world::*;

const ONE: V = (1, false);
const PY: V = (3, false);
const PLATFORM: &str = "manylinux_2_5_x86_64";
const TAGS: &[&str] = &["cp310-cp310-PLATFORM", "py3-none-PLATFORM", "py3-none-any"];
fn sdist(name: &str) -> ArtifactHash {
    hash(name, ONE, 1)
}
fn link(file: &str, h: &ArtifactHash) -> String {
    format!("<a href=\"/f/{file}#sha256={}\">x</a>\n", hex(h))
}
fn serve_index(pages: Vec<(String, String)>) {
    serve(move |seen| {
        let what = seen.url.strip_prefix("https://index.example/simple/").and_then(|u| u.strip_suffix('/'));
        if what == Some("cpython") {
            return html(link("cpython-3-manylinux_2_1_x86_64.pybi", &hash("cpython", PY, 0)).into_bytes());
        }
        match pages.iter().find(|p| what == Some(&p.0)) {
            Some(p) => html(p.1.clone().into_bytes()),
            None => {
                if what.is_some() {
                    answer(404, &[], vec![])
                } else {
                    dead()
                }
            }
        }
    })
}
fn platform() -> &'static PybiPlatform {
    Box::leak(Box::new(PybiPlatform::new(PLATFORM)))
}
fn wheel_platform() -> WheelPlatform {
    let text = index::pybi_text(PY).replace("Pybi-Wheel-Tag: py3-none-any\n", &TAGS.iter().map(|t| format!("Pybi-Wheel-Tag: {t}\n")).collect::<String>());
    let m: PybiCoreMetadata = text.as_bytes().try_into().unwrap();
    platform().wheel_platform(&m).unwrap()
}
fn db() -> &'static PackageDB<'static> {
    Box::leak(Box::new(database(&["https://index.example/simple/"]).unwrap()))
}
fn with_builder<T>(stack: &[&PackageName], f: impl FnOnce(&WheelBuilder) -> T) -> T {
    on_platform(PLATFORM, stack, f)
}
fn on_platform<T>(platform: &str, stack: &[&PackageName], f: impl FnOnce(&WheelBuilder) -> T) -> T {
    let (name, version): (PackageName, Version) = ("cpython".try_into().unwrap(), "3".try_into().unwrap());
    let platform = PybiPlatform::new(platform);
    let platforms = [&platform];
    let b = WheelBuilder::new(db(), &name, &version, &platforms, stack).unwrap();
    f(&b)
}
fn archive(name: &str) -> ArtifactInfo {
    artifact(&format!("{name}-1.tar.gz"), &format!("https://index.example/f/{name}-1.tar.gz"), Some(sdist(&name.replace(['.', '_'], "-").to_lowercase())))
}
const NAMES: &[&str] = &["a", "b", "Foo.Bar", "foo_bar", "foo-ba", "A"];
/// direct loops
#[no_mangle]
pub extern "C" fn h_p27_stack() {
    machine();
    install_python(PY, 0, TAGS);
    let n = param("n", 6) as usize;
    let mut stack: Vec<PackageName> = vec![];
    for _ in 0..choice("depth", param("depth", 3) as usize + 1) {
        stack.push(NAMES[choice("waiting", n)].try_into().unwrap());
    }
    let name = NAMES[choice("package", n)];
    let goal = choice("goal", 2);
    serve_index(vec![]);
    let plain = name.replace(['.', '_'], "-").to_lowercase();
    let ready = flag("ready");
    // the metadata or the wheel are built already, or cannot be built
    let dir = source(name, &sdist(&plain), &Source { requires: vec![], dynamic: None, prepare: ready, makes: ready.then(|| "py3-none-any".to_string()) });
    let refs: Vec<&PackageName> = stack.iter().collect();
    let e = with_builder(&refs, |b| if goal == 0 { b.locally_built_metadata(&archive(name)).err() } else { b.locally_built_wheel(&archive(name), &wheel_platform()).err() });
    let same = |a: &str| a.replace(['.', '_'], "-").to_lowercase() == plain;
    if stack.iter().any(|s| same(s.as_given())) {
        check(e.is_some() && runs(&dir).is_empty(), "a build that depends on itself is not refused");
        reach("loop");
    } else {
        check(e.is_none() == ready, if ready { "a build is refused" } else { "a failed build goes unnoticed" });
        reach(if ready { "built" } else { "failed" });
    }
}
fn rank(tag: &str) -> Option<usize> {
    let mut parts = tag.split('-');
    let (py, abi, plat) = (parts.next()?, parts.next()?, parts.next()?);
    let place = |t: &str| {
        let minor: usize = t.strip_prefix("manylinux_2_")?.strip_suffix("_x86_64")?.parse().ok()?;
        (minor <= 5).then(|| 2 * (5 - minor))
    };
    let mut best: Option<usize> = None;
    for p in py.split('.') {
        for t in plat.split('.') {
            let r = match (p, abi, t) {
                ("cp310", "cp310", t) => place(t),
                ("py3", "none", "any") => Some(200),
                ("py3", "none", t) => place(t).map(|r| 100 + r),
                _ => None,
            };
            if let Some(r) = r {
                best = Some(best.map_or(r, |b| b.min(r)));
            }
        }
    }
    best
}
const CACHED: &[&str] = &["py3-none-any", "cp310-cp310-manylinux_2_3_x86_64", "cp39-cp39-manylinux_2_3_x86_64", "cp310-cp310-manylinux_2_5_x86_64", "py3-none-manylinux_2_1_x86_64", "py2.py3-none-any", "cp310-cp310-manylinux_2_17_x86_64", "cp310-cp310-linux_x86_64"];
const MADE: &[&str] = &["py3-none-any", "cp310-cp310-linux_x86_64", "py2.py3-none-any", "py2-none-any", "cp39-cp39-linux_x86_64", "py3-none-any.linux_x86_64", "py3-none-manylinux_2_1_x86_64.manylinux_2_4_x86_64", "cp310-cp310-manylinux_2_3_x86_64"];
/// how a wheel that was built here is called afterwards
fn tagged(made: &str, platform: &str) -> String {
    let (start, plat) = made.rsplit_once('-').unwrap();
    if plat.split('.').all(|t| t == "any") {
        made.to_string()
    } else {
        format!("{start}-{platform}")
    }
}
/// what was built earlier, and what is built now
#[no_mangle]
pub extern "C" fn h_p27_cache() {
    let (n, tags, made) = (param("cached", 2) as usize, param("tags", 4) as usize, param("made", 3) as usize);
    machine();
    install_python(PY, 0, TAGS);
    serve_index(vec![]);
    let mut cached: Vec<&str> = vec![];
    for _ in 0..choice("cached", n + 1) {
        let t = CACHED[choice("tag", tags)];
        assume(!cached.contains(&t));
        cached.push(t);
    }
    let mut files: Vec<(String, Vec<u8>)> = cached.iter().map(|t| (format!("a-1-{t}.whl"), plain_wheel("a"))).collect();
    if flag("junk") {
        files.push(("a-1.whl.tmp".into(), vec![]));
    }
    let cache = root().join("cache/local-wheels");
    let place = put(&cache, &sdist("a"), &files);
    let makes = match choice("made", made + 1) {
        0 => None,
        k => Some(MADE[k - 1]),
    };
    let prepare = flag("prepare");
    let dir = source("a", &sdist("a"), &Source { requires: vec![], dynamic: None, prepare, makes: makes.map(str::to_string) });
    // earlier in this run, the metadata for this platform or another one
    let before = [None, Some(PLATFORM), Some("manylinux_2_17_x86_64")][choice("metadata before", 3)];
    let platform = wheel_platform();
    if let Some(p) = before {
        let r = on_platform(p, &[], |b| b.locally_built_metadata(&archive("a")).is_ok());
        check(r == (prepare || makes.is_some()), "the metadata cannot be built");
    }
    with_builder(&[], |b| {
        let had: Vec<String> = std::fs::read_dir(&place).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
        let had_tags: Vec<&str> = had.iter().filter_map(|f| f.strip_prefix("a-1-")?.strip_suffix(".whl")).collect();
        // building for the metadata leaves the wheel for later
        let left = match (before, makes) {
            (Some(p), Some(m)) if !prepare => Some(tagged(m, p)),
            _ => None,
        };
        check(cached.iter().all(|t| had_tags.contains(t)) && had_tags.iter().all(|h| cached.contains(h) || Some(h.to_string()) == left), "something else is recorded");
        check(left.map_or(true, |l| had_tags.contains(&l.as_str())), "a wheel is lost");
        let ran = runs(&dir).len();
        let best = had_tags.iter().filter_map(|t| rank(t)).min();
        let got = b.locally_built_wheel(&archive("a"), &platform);
        let now: Vec<String> = std::fs::read_dir(&place).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
        let more = runs(&dir);
        match best {
            Some(best) => {
                check(got.is_ok(), "a cached wheel is not used");
                let w = got.unwrap();
                let name = w.name().to_string();
                let tag = name.strip_prefix("a-1-").unwrap().strip_suffix(".whl").unwrap().to_string();
                check(had.contains(&name), "a wheel comes from nowhere");
                check(rank(&tag) == Some(best), "not the most compatible wheel is used");
                check(more.len() == ran && now.len() == had.len(), "a wheel is built although there is one");
                reach("cached");
                if had_tags.iter().filter(|t| rank(t).is_some()).count() > 1 {
                    reach("best of several");
                }
            }
            None => {
                let t = makes.map(|m| tagged(m, PLATFORM));
                let fits = t.as_ref().map_or(false, |t| rank(t).is_some());
                if let Some(t) = t {
                    check(more.len() == ran + 1 && more.last().unwrap().0 == "Wheel" && more.last().unwrap().1 == format!("cp310-cp310-{PLATFORM}"), "it is built in another way");
                    check(got.is_ok() == fits, if fits { "the wheel that was built is not used" } else { "an incompatible wheel is used" });
                    check(now.contains(&format!("a-1-{t}.whl")) && now.iter().all(|f| had.contains(f) || *f == format!("a-1-{t}.whl")), "the wheel is recorded with other tags");
                    if let Ok(w) = got {
                        check(w.name().to_string() == format!("a-1-{t}.whl"), "the wheel has other tags");
                        check(w.metadata().map_or(false, |m| m.0 == plain_metadata("a").as_bytes()), "another wheel");
                        reach(if before.is_some() && !prepare { "built again" } else { "built" });
                    } else {
                        reach("does not fit");
                    }
                } else {
                    check(got.is_err(), "a failed build goes unnoticed");
                    reach("failed");
                }
            }
        }
    })
}
const PACKAGES: [&str; 3] = ["a", "b", "c"];
struct Pkg {
    wheel: bool,
    requires: Vec<usize>,
}
/// can it be had without building something that waits for it?
fn available(g: &[Pkg], p: usize, stack: &mut Vec<usize>) -> bool {
    if g[p].wheel {
        return true;
    }
    if stack.contains(&p) {
        return false;
    }
    stack.push(p);
    let r = g[p].requires.iter().all(|q| available(g, *q, stack));
    stack.pop();
    r
}
/// packages that need each other for being built
#[no_mangle]
pub extern "C" fn h_p27_graph() {
    let n = param("packages", 2) as usize;
    machine();
    let python = install_python(PY, 0, TAGS);
    let wheels = param("wheels", 1) == 1;
    let mut g: Vec<Pkg> = vec![];
    let mut pages = vec![];
    let mut dirs = vec![];
    let edges = param("edges", 1) == 1;
    for (i, name) in PACKAGES[..n].iter().enumerate() {
        // the first is what is asked for, and it has to be built
        let wheel = wheels && i > 0 && flag("wheel");
        let mut requires = vec![];
        if !wheel {
            for q in 0..n {
                if (edges || q != i) && flag("requires") {
                    requires.push(q)
                }
            }
        }
        let mut page = link(&format!("{name}-1.tar.gz"), &sdist(name));
        if wheel {
            page += &link(&format!("{name}-1-py3-none-any.whl"), &hash(name, ONE, 0));
            remember(&hash(name, ONE, 0), &plain_metadata(name));
            put(&forest(), &hash(name, ONE, 0), &[(format!("lib/{name}-1.dist-info/METADATA"), plain_metadata(name).into_bytes())]);
        } else if flag("known") {
            // for example from a wheel for another platform
            remember(&sdist(name), &plain_metadata(name));
        }
        let texts: Vec<String> = requires.iter().map(|q: &usize| PACKAGES[*q].to_string()).collect();
        let dynamic = !texts.is_empty() && param("dynamic", 0) == 1 && flag("dynamic");
        let s = if dynamic { Source { requires: vec![], dynamic: Some(texts), prepare: true, makes: Some("py3-none-any".into()) } } else { Source { requires: texts, dynamic: None, prepare: true, makes: Some("cp310-cp310-linux_x86_64".into()) } };
        dirs.push(source(name, &sdist(name), &s));
        pages.push((name.to_string(), page));
        g.push(Pkg { wheel, requires });
    }
    serve_index(pages);
    let m: WheelCoreMetadata = plain_metadata("a").as_bytes().try_into().unwrap();
    let inner = WheelResolveMetadataInner { requires_dist: m.requires_dist, requires_python: m.requires_python, extras: m.extras };
    let pin = |name: &str, v: &str, h| PinnedPackage { name: name.try_into().unwrap(), version: v.try_into().unwrap(), hashes: vec![h] };
    let b = Blueprint { pybi: pin("cpython", "3", hash("cpython", PY, 0)), wheels: vec![(pin("a", "1", sdist("a")), WheelResolveMetadata { provenance: "x".into(), inner })], marker_expressions: Default::default() };
    let forest = EnvForest::new(&build::forest()).unwrap();
    let platforms = [platform()];
    let want = available(&g, 0, &mut vec![]);
    let got = if param("resolve", 0) == 1 {
        // from the beginning
        let brief = Brief { python: "cpython".try_into().unwrap(), requirements: vec!["a".try_into().unwrap()], allow_pre: Default::default() };
        brief.resolve(db(), &platforms, None, &[]).and_then(|b| forest.get_env(db(), &b, &platforms, &[]))
    } else {
        forest.get_env(db(), &b, &platforms, &[])
    };
    match got {
        Ok(e) => {
            check(want, "something is built that depends on itself");
            check(e.lib_dirs.len() == 1 && e.lib_dirs[0].join("a.py").exists(), "the package is not installed");
            // every build saw what it needs, and nothing else
            for (i, d) in dirs.iter().enumerate() {
                for r in runs(d) {
                    // metadata may be built for whatever runs here, and so may what is needed for that
                    check(i > 0 || r.0 == "WheelMetadata" || r.1 == format!("cp310-cp310-{PLATFORM}"), "the wrong tag is given to a build");
                    let have: Vec<PathBuf> = r.2.split(':').filter(|p| !p.is_empty()).map(PathBuf::from).collect();
                    let has = |q: usize| have.iter().any(|p| p.join(format!("{}-1.dist-info", PACKAGES[q])).exists());
                    check((0..g.len()).all(|q| !has(q) || g[i].requires.contains(&q)), "a build sees packages that it does not require");
                    check(d.join("sdist").join(format!("{}-1", PACKAGES[i])).join("requires.json").exists() || g[i].requires.iter().all(|q| has(*q)), "a build does not see what it requires");
                }
                if let Ok(p) = std::fs::read(d.join("path")) {
                    check(p.starts_with(python.join("bin").to_str().unwrap().as_bytes()) && p.ends_with(b":/usr/bin:/bin\n"), "a build runs in another environment");
                }
            }
            reach("built");
            if dirs.iter().filter(|d| !runs(d).is_empty()).count() > 1 {
                reach("built what it needs");
            }
        }
        Err(_) => {
            check(!want, "a build is refused");
            reach("loop");
        }
    }
}
const VERSIONS: &[&str] = &["3.10.2", "3.10.4", "3.11.0", "3.11.0rc1", "3.9.1"];
/// the parts that count, and whether it is final
fn number(v: &str) -> (Vec<u32>, bool) {
    let (v, last) = match v.strip_suffix("rc1") {
        Some(v) => (v, false),
        None => (v, true),
    };
    (v.split('.').map(|p| p.parse().unwrap()).collect(), last)
}
/// which Python a build runs in
#[no_mangle]
pub extern "C" fn h_p27_python() {
    let (n, targets) = (param("versions", 4) as usize, param("targets", 1) as usize);
    machine();
    // which Pythons there are, and which of them run here
    let mut page = String::new();
    let (mut known, mut here): (Vec<&'static str>, Vec<&'static str>) = (vec![], vec![]);
    let mut places = vec![];
    for (i, v) in VERSIONS[..n].iter().enumerate() {
        let state = choice("python", 3);
        let h = hash("cpython", (i as u8, false), 7);
        if state > 0 {
            known.push(*v);
            page += &link(&format!("cpython-{v}-{}.pybi", if state == 1 { "manylinux_2_1_x86_64" } else { "macosx_10_9_arm64" }), &h);
        }
        if state == 1 {
            here.push(*v);
            let text = index::pybi_text(PY).replace("Version: 3\n", &format!("Version: {v}\n")).replace("Pybi-Wheel-Tag: py3-none-any\n", &TAGS.iter().map(|t| format!("Pybi-Wheel-Tag: {t}\n")).collect::<String>());
            remember(&h, &text);
            places.push((*v, put_python(&h, &text)));
        }
    }
    serve(move |seen| match &*seen.url {
        "https://index.example/simple/cpython/" => html(page.clone().into_bytes()),
        _ => dead(),
    });
    let dir = source("a", &sdist("a"), &Source { requires: vec![], dynamic: None, prepare: true, makes: Some("py3-none-any".into()) });
    for i in 0..targets {
        let target = VERSIONS[choice("target", n)];
        let (release, last) = number(target);
        let mut fit: Vec<&str> = here.iter().copied().filter(|v| number(v).1 || !last || known.iter().all(|v| !number(v).1)).collect();
        fit.sort_by_key(|v| number(v));
        let want = fit.iter().rev().find(|v| **v == target).or_else(|| fit.iter().rev().find(|v| number(v).0[..2] == release[..2])).or(fit.last()).copied();
        let (name, version): (PackageName, Version) = ("cpython".try_into().unwrap(), target.try_into().unwrap());
        let platform = platform();
        let platforms = [platform];
        let b = WheelBuilder::new(db(), &name, &version, &platforms, &[]).unwrap();
        let _ = std::fs::remove_file(dir.join("path"));
        // the metadata, or a wheel; the metadata is not made twice
        let r = if i + 1 < targets || targets == 1 && flag("metadata") { b.locally_built_metadata(&archive("a")).is_ok() } else { b.locally_built_wheel(&archive("a"), &wheel_platform()).is_ok() };
        match want {
            None => {
                check(!r, "there is no Python to build with");
                reach("no python");
            }
            Some(w) => {
                check(r, "a build is refused although there is a Python");
                let p = std::fs::read(dir.join("path")).unwrap();
                let ran = places.iter().find(|x| p.starts_with(x.1.join("bin").to_str().unwrap().as_bytes())).unwrap().0;
                check(ran == w, "a build runs in the wrong Python");
                reach(if w == target {
                    "exactly the target"
                } else if number(w).0[..2] == release[..2] {
                    "like the target"
                } else {
                    "another python"
                });
            }
        }
        if r && i == 0 && targets > 1 {
            reach("another build before");
        }
    }
}
