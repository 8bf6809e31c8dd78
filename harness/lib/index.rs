// A package index whose projects are drawn when they are asked for, their metadata in posy's metadata cache,
// and an independent idea of what a resolution has to look like.
#![allow(dead_code)]
use super::sym::*;
use super::world::*;
use crate::kvstore::KVFileStore;
use crate::package_db::*;
use crate::prelude::*;
use crate::resolve::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// (number, is it a release candidate)
pub type V = (u8, bool);
pub fn vtext(v: V) -> String {
    format!("{}{}", v.0, if v.1 { "rc1" } else { "" })
}
pub fn later(a: V, b: V) -> bool {
    (a.0, !a.1) > (b.0, !b.1)
}
pub fn spec(s: &str, v: V) -> bool {
    s.split(',').all(|s| match s.trim() {
        "" => true,
        ">1" => v.0 > 1,
        "<2" => v.0 < 2,
        "==1" => v == (1, false),
        "!=1" => v != (1, false),
        ">=2" => v.0 > 2 || v == (2, false),
        "<=2" => v.0 <= 2,
        ">2" => v.0 > 2,
        "==2" => v == (2, false),
        "!=2" => v != (2, false),
        "<1" => v.0 < 1,
        "<3" => v.0 < 3,
        "!=3" => v != (3, false),
        _ => panic!("spec"),
    })
}
pub type Extra1 = Option<&'static str>;
#[derive(Clone, Debug)]
pub struct Req {
    pub name: &'static str,
    pub extra: Extra1,
    pub spec: &'static str,
    /// marker
    pub when: &'static str,
}
pub fn r(name: &'static str, extra: Extra1, spec: &'static str, when: &'static str) -> Req {
    Req { name, extra, spec, when }
}
pub fn applies(when: &str, extra: Extra1, posix: bool, py3: bool) -> bool {
    let x = extra == Some("x");
    match when {
        "" => true,
        "extra == 'x'" => x,
        "extra == 'y'" => extra == Some("y"),
        "python_version < '3'" => !py3,
        "python_version >= '3'" => py3,
        "os_name == 'posix'" => posix,
        "os_name != 'posix'" => !posix,
        "os_name == 'posix' and extra == 'x'" => posix && x,
        "os_name == 'posix' or extra == 'x'" => posix || x,
        "os_name != 'posix' or extra == 'x'" => !posix || x,
        "os_name != 'posix' and extra == 'x'" => !posix && x,
        "extra == 'x' and (os_name == 'posix' or python_version < '3')" => x && (posix || !py3),
        "extra != 'x' and python_version >= '3'" => !x && py3,
        _ => panic!("marker"),
    }
}
impl Req {
    pub fn text(&self) -> String {
        let mut t = self.name.to_string();
        if let Some(e) = self.extra {
            t += &format!("[{e}]")
        }
        t += self.spec;
        if !self.when.is_empty() {
            t += &format!("; {}", self.when)
        }
        t
    }
}
#[derive(Clone, Debug)]
pub struct Release {
    pub v: V,
    pub yanked: bool,
    /// what the page says about Python
    pub page_python: Option<&'static str>,
    /// what the metadata says
    pub python: &'static str,
    pub reqs: Vec<Req>,
    pub extras: Vec<&'static str>,
    pub sdist: bool,
}
pub fn release(v: V) -> Release {
    Release { v, yanked: false, page_python: None, python: "", reqs: vec![], extras: vec![], sdist: false }
}
/// posy runs for Python 3.10.2
pub fn python_ok(s: &str) -> bool {
    matches!(s, "" | ">=3" | ">=3.8")
}
pub type Projects = Rc<RefCell<BTreeMap<&'static str, Vec<Release>>>>;

pub fn hash(name: &str, v: V, kind: u8) -> ArtifactHash {
    let mut raw = vec![0u8; 32];
    raw[0] = name.as_bytes()[0];
    raw[1] = v.0 * 2 + v.1 as u8;
    raw[2] = kind;
    ArtifactHash { mode: "sha256".into(), raw_data: raw }
}
pub fn hex(h: &ArtifactHash) -> String {
    h.raw_data.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn metadata_text(name: &str, r: &Release) -> String {
    let mut t = format!("Metadata-Version: 2.1\nName: {name}\nVersion: {}\n", vtext(r.v));
    for q in &r.reqs {
        t += &format!("Requires-Dist: {}\n", q.text());
    }
    for e in &r.extras {
        t += &format!("Provides-Extra: {e}\n");
    }
    if !r.python.is_empty() {
        t += &format!("Requires-Python: {}\n", r.python);
    }
    t
}
pub fn remember(h: &ArtifactHash, text: &str) {
    let store = KVFileStore::new(&root().join("cache").join("metadata")).unwrap();
    store.get_or_set(h, |w| Ok(w.write_all(text.as_bytes())?)).unwrap();
}
pub const PYTHON: V = (3, false);
pub fn pybi_text(v: V) -> String {
    format!(
        "Metadata-Version: 2.1\nName: cpython\nVersion: {}\nPybi-Environment-Marker-Variables: {}\nPybi-Wheel-Tag: py3-none-any\nPybi-Paths: {{\"stdlib\": \"lib\", \"scripts\": \"bin\"}}\n",
        vtext(v),
        "{\"python_full_version\": \"3.10.2\", \"python_version\": \"3.10\", \"os_name\": \"posix\"}"
    )
}
pub fn page(files: &[(String, ArtifactHash, bool, Option<&str>)]) -> Vec<u8> {
    let mut t = String::new();
    for (name, h, yanked, python) in files {
        t += &format!("<a href=\"/f/{name}#sha256={}\"", hex(h));
        if *yanked {
            t += " data-yanked=\"\"";
        }
        if let Some(p) = python {
            t += &format!(" data-requires-python=\"{}\"", p.replace('<', "&lt;").replace('>', "&gt;"));
        }
        t += ">f</a>\n";
    }
    t.into_bytes()
}
pub fn html(body: Vec<u8>) -> Answer {
    answer(200, &[("Content-Type", "text/html")], body)
}
/// serves `cpython` 3 and the projects that `draw` makes
pub fn index(mut draw: impl FnMut(&'static str) -> Vec<Release> + 'static, names: &'static [&'static str]) -> Projects {
    let all: Projects = Default::default();
    let all2 = all.clone();
    remember(&hash("cpython", PYTHON, 0), &pybi_text(PYTHON));
    serve(move |seen| {
        let what = seen.url.strip_prefix("https://index.example/simple/").and_then(|u| u.strip_suffix('/'));
        if what == Some("cpython") {
            return html(page(&[("cpython-3-any.pybi".into(), hash("cpython", PYTHON, 0), false, None)]));
        }
        let name = match names.iter().find(|n| what == Some(**n)) {
            Some(n) => *n,
            None => {
                check(what.is_some(), "something else is asked for");
                return answer(404, &[], vec![]);
            }
        };
        check(!all2.borrow().contains_key(name), "a page is asked for twice");
        let releases = draw(name);
        let mut files = vec![];
        for r in &releases {
            files.push((format!("{name}-{}-py3-none-any.whl", vtext(r.v)), hash(name, r.v, 0), r.yanked, r.page_python));
            if r.sdist {
                files.push((format!("{name}-{}.tar.gz", vtext(r.v)), hash(name, r.v, 1), r.yanked, r.page_python));
            }
            remember(&hash(name, r.v, 0), &metadata_text(name, r));
        }
        all2.borrow_mut().insert(name, releases);
        html(page(&files))
    });
    all
}
pub type Pins = BTreeMap<&'static str, V>;
pub struct Rules {
    pub allow_pre: Vec<&'static str>,
    /// what the previous blueprint pinned
    pub hints: Pins,
}
pub fn offered(rules: &Rules, name: &'static str, all: &[Release], r: &Release) -> bool {
    let pre = rules.allow_pre.contains(&name) || rules.allow_pre.contains(&":all:") || all.iter().all(|r| r.v.1);
    (pre || !r.v.1) && (!r.yanked || rules.hints.get(name) == Some(&r.v)) && r.page_python.map_or(true, python_ok)
}
/// everything `pins` has to contain, or None if they do not fit
pub fn closure(rules: &Rules, projects: &BTreeMap<&'static str, Vec<Release>>, roots: &[Req], pins: &Pins) -> Option<Vec<(&'static str, Extra1)>> {
    let mut todo: Vec<(Req, Extra1)> = roots.iter().map(|r| (r.clone(), None)).collect();
    let mut done: Vec<(&'static str, Extra1)> = vec![];
    while let Some((q, from)) = todo.pop() {
        if !applies(q.when, from, true, true) {
            continue;
        }
        let v = *pins.get(q.name)?;
        let all = projects.get(q.name)?;
        let rel = all.iter().find(|r| r.v == v)?;
        if !spec(q.spec, v) || !offered(rules, q.name, all, rel) || !python_ok(rel.python) {
            return None;
        }
        let mut node = |extra: Extra1| {
            if !done.contains(&(q.name, extra)) {
                done.push((q.name, extra));
                todo.extend(rel.reqs.iter().map(|r| (r.clone(), extra)));
            }
        };
        node(None);
        // "x,y" is two extras
        for e in q.extra.into_iter().flat_map(|e| e.split(',')) {
            if !rel.extras.contains(&e) {
                return None;
            }
            node(Some(e));
        }
    }
    Some(done)
}
/// is there any way to pin the packages?
pub fn possible(rules: &Rules, projects: &BTreeMap<&'static str, Vec<Release>>, roots: &[Req], names: &[&'static str], pins: &mut Pins) -> bool {
    match names.split_first() {
        None => closure(rules, projects, roots, pins).is_some(),
        Some((n, rest)) => {
            for r in projects.get(n).into_iter().flatten() {
                pins.insert(n, r.v);
                if possible(rules, projects, roots, rest, pins) {
                    return true;
                }
            }
            pins.remove(n);
            possible(rules, projects, roots, rest, pins)
        }
    }
}
pub fn brief(roots: &[Req], rules: &Rules) -> Brief {
    Brief {
        python: "cpython".try_into().unwrap(),
        requirements: roots.iter().map(|r| r.text().as_str().try_into().unwrap()).collect(),
        allow_pre: if rules.allow_pre.contains(&":all:") { AllowPre::All } else { AllowPre::Some(rules.allow_pre.iter().map(|n| (*n).try_into().unwrap()).collect()) },
    }
}
/// the pins of a blueprint; complains about anything in it that does not fit the index
pub fn inspect(projects: &BTreeMap<&'static str, Vec<Release>>, b: &Blueprint) -> Pins {
    check(b.pybi.name.normalized() == "cpython" && b.pybi.version.to_string() == "3", "the wrong Python");
    check(b.pybi.hashes == vec![hash("cpython", PYTHON, 0)], "wrong hashes for the Python");
    let mut pins = Pins::new();
    for (p, m) in &b.wheels {
        let (name, all) = match projects.iter().find(|(n, _)| **n == p.name.normalized()) {
            Some((n, a)) => (*n, a),
            None => {
                check(false, "an unknown package is pinned");
                continue;
            }
        };
        check(!pins.contains_key(name), "a package is pinned twice");
        let rel = match all.iter().find(|r| vtext(r.v) == p.version.to_string()) {
            Some(r) => r,
            None => {
                check(false, "an unknown version is pinned");
                continue;
            }
        };
        pins.insert(name, rel.v);
        let mut want = vec![hash(name, rel.v, 0)];
        if rel.sdist {
            want.push(hash(name, rel.v, 1));
        }
        check(p.hashes.len() == want.len() && want.iter().all(|h| p.hashes.contains(h)), "wrong hashes are recorded");
        check(m.provenance.starts_with(&format!("https://index.example/f/{name}-{}-", vtext(rel.v))), "the metadata comes from elsewhere");
        let found: WheelCoreMetadata = metadata_text(name, rel).as_bytes().try_into().unwrap();
        check(m.inner.requires_dist == found.requires_dist && m.inner.requires_python == found.requires_python && m.inner.extras == found.extras, "other metadata is recorded");
    }
    pins
}
pub struct World2<'a>(pub &'a [(&'a str, &'a str)]);
impl<'a> marker::Env for World2<'a> {
    fn get_marker_var(&self, var: &str) -> Option<&str> {
        self.0.iter().find(|p| p.0 == var).map(|p| p.1)
    }
}
/// In every environment that agrees on the recorded markers the same dependencies apply.
pub fn portable(projects: &BTreeMap<&'static str, Vec<Release>>, roots: &[Req], b: &Blueprint, pins: &Pins, nodes: &[(&'static str, Extra1)]) {
    for (k, v) in &b.marker_expressions {
        check(k.0.eval(&World2(&[("os_name", "posix"), ("python_version", "3.10")])).unwrap() == *v, "a marker is recorded with the wrong value");
    }
    for (posix, py3) in [(true, false), (false, true), (false, false)] {
        let vars = [("os_name", if posix { "posix" } else { "nt" }), ("python_version", if py3 { "3.10" } else { "2.7" })];
        let env = World2(&vars);
        if b.marker_expressions.iter().all(|(k, v)| k.0.eval(&env).unwrap() == *v) {
            let same = |r: &Req, e: Extra1| applies(r.when, e, posix, py3) == applies(r.when, e, true, true);
            check(roots.iter().all(|r| same(r, None)), "a marker of the user is not recorded");
            for (n, e) in nodes {
                check(projects[n].iter().find(|r| r.v == pins[n]).unwrap().reqs.iter().all(|r| same(r, *e)), "a marker that mattered is not recorded");
            }
            reach("portable");
        }
    }
}

/// an earlier blueprint
pub fn like(hints: &Pins) -> Option<Blueprint> {
    if hints.is_empty() {
        return None;
    }
    let m: WheelCoreMetadata = "Metadata-Version: 2.1\nName: a\nVersion: 1\n".as_bytes().try_into().unwrap();
    let pin = |n: &str, v: V| PinnedPackage { name: n.try_into().unwrap(), version: vtext(v).as_str().try_into().unwrap(), hashes: vec![hash(n, v, 0)] };
    let meta = WheelResolveMetadata { provenance: "x".into(), inner: WheelResolveMetadataInner { requires_dist: m.requires_dist, requires_python: m.requires_python, extras: m.extras } };
    Some(Blueprint { pybi: pin("cpython", PYTHON), wheels: hints.iter().map(|(n, v)| (pin(n, *v), meta.clone())).collect(), marker_expressions: Default::default() })
}
