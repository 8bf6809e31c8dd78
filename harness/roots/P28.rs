#[path = "/verif/harness/lib/arch.rs"]
mod arch;
#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/wheel.rs"]
mod wheel;
#[path = "/verif/harness/lib/world.rs"]
mod world;
use crate::kvstore::KVFileStore;
use crate::package_db::*;
use crate::prelude::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Cursor;
use sym::*;
use world::*;

/// A wheel whose metadata is all that is in it.
struct Thing {
    name: WheelName,
    body: RefCell<Box<dyn ReadPlusSeek>>,
}
/// what a build of a source archive gives
type Builds = BTreeMap<String, Option<Vec<u8>>>;
impl Artifact for Thing {
    type Name = WheelName;
    fn new(name: WheelName, f: Box<dyn ReadPlusSeek>) -> Result<Self> {
        Ok(Thing { name, body: f.into() })
    }
    fn name(&self) -> &WheelName {
        &self.name
    }
}
impl BinaryArtifact for Thing {
    type Metadata = Vec<u8>;
    type Platform = PybiPlatform;
    type Builder<'a> = Builds;
    fn parse_metadata(b: &[u8]) -> Result<Vec<u8>> {
        Ok(b.to_vec())
    }
    fn metadata(&self) -> Result<(Vec<u8>, Vec<u8>)> {
        let mut v = vec![];
        self.body.borrow_mut().read_to_end(&mut v)?;
        Ok((v.clone(), v))
    }
    fn locally_built_metadata(b: &Builds, ai: &ArtifactInfo) -> Option<Result<(Vec<u8>, Vec<u8>)>> {
        let built = b.get(&ai.url.to_string())?;
        Some(match built {
            Some(v) => Ok((v.clone(), v.clone())),
            None => Err(eyre!("does not build")),
        })
    }
    fn locally_built_binary(_: &Builds, _: &ArtifactInfo, _: &PybiPlatform) -> Option<Result<Self>> {
        None
    }
}

struct File {
    info: ArtifactInfo,
    wheel: bool,
    /// what the server has
    remote: Vec<u8>,
    metadata: Option<Vec<u8>>,
    cached: Option<Vec<u8>>,
}
const DEAD: usize = 0;
const RANGES: usize = 1;
const WHOLE: usize = 2;
const CHANGED: usize = 3;
const LONG: &[(&str, &str)] = &[("Cache-Control", "max-age=1000"), ("Content-Type", "application/zip")];

fn url(i: usize) -> String {
    format!("https://files.example/{i}")
}
fn index_of(u: &str) -> usize {
    (u.as_bytes()[u.len() - 1] - b'0') as usize
}
fn store(dir: &str, h: &ArtifactHash, content: &[u8]) {
    KVFileStore::new(&root().join("cache").join(dir)).unwrap().get_or_set(h, |w| Ok(w.write_all(content)?)).unwrap();
}
fn stored(dir: &str, h: &ArtifactHash) -> Option<Vec<u8>> {
    let mut v = vec![];
    KVFileStore::new(&root().join("cache").join(dir)).unwrap().get(h)?.read_to_end(&mut v).unwrap();
    Some(v)
}
/// the number of values below
fn values(dir: &std::path::Path) -> usize {
    let mut n = 0;
    for e in std::fs::read_dir(dir).into_iter().flatten() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_dir() {
            n += values(&e.path());
        } else if !e.file_name().to_str().unwrap().ends_with(".lock") && !e.file_name().to_str().unwrap().starts_with('.') {
            n += 1;
        }
    }
    n
}
fn lookup(files: &[ArtifactInfo], bodies: &[Vec<u8>], server: usize, builds: Option<&Builds>) -> (Option<(usize, Vec<u8>)>, Vec<usize>) {
    let seen: Rc<RefCell<Vec<usize>>> = Default::default();
    let seen2 = seen.clone();
    let bodies = bodies.to_vec();
    serve(move |q| {
        let i = index_of(&q.url);
        seen2.borrow_mut().push(i);
        let mut body = bodies[i].clone();
        let len = body.len() as u64;
        match server {
            DEAD => dead(),
            RANGES => match range(&q) {
                None => answer(200, &[], body),
                Some((a, _)) if a >= len => answer(416, &[("Content-Range", &format!("bytes */{len}"))], vec![]),
                Some((a, b)) => {
                    let b = b.min(len - 1);
                    answer(206, &[("Content-Range", &format!("bytes {a}-{b}/{len}"))], body[a as usize..=b as usize].to_vec())
                }
            },
            _ => {
                if server == CHANGED {
                    body[1] ^= 1;
                }
                answer(200, &[], body)
            }
        }
    });
    let db = database(&[]).unwrap();
    let r = db.get_metadata::<Thing, ArtifactInfo>(files, builds).ok();
    let r = r.map(|(ai, m)| (files.iter().position(|f| std::ptr::eq(f, ai)).expect("not one of the artifacts"), m));
    let s = seen.borrow().clone();
    (r, s)
}
/// every state of the caches, the server and the builder
#[no_mangle]
pub extern "C" fn h_p28_lookup() {
    let k = param("k", 2) as usize;
    clock(1_700_000_000);
    let mut files: Vec<File> = vec![];
    for i in 0..k {
        let kind = choice("kind", 4);
        let (wheel, hashed) = (kind < 2, kind % 2 == 0);
        let remote = vec![b'A' + i as u8, b'z'];
        let name = if wheel { format!("foo-1-{i}-py3-none-any.whl") } else { format!("foo-1{}", [".tar.gz", ".zip", ".tar.gz"][i]) };
        let info = artifact(&name, &url(i), hashed.then(|| sha256(&remote)));
        let states = if hashed && wheel { 4 } else if hashed || wheel { 2 } else { 1 };
        let state = if states > 1 { choice("state", states) } else { 0 };
        let mut f = File { info, wheel, remote, metadata: None, cached: None };
        if hashed {
            let h = f.info.hash.clone().unwrap();
            if state & 1 == 1 {
                f.metadata = Some(vec![b'a' + i as u8, byte("metadata")]);
                store("metadata", &h, f.metadata.as_ref().unwrap());
            }
            if state & 2 == 2 {
                f.cached = Some(vec![b'k' + i as u8, byte("cached")]);
                store("by-hash", &h, f.cached.as_ref().unwrap());
            }
        } else if wheel && state == 1 {
            f.cached = Some(vec![b'k' + i as u8, byte("cached")]);
            let body = f.cached.clone().unwrap();
            serve(move |_| answer(200, LONG, body.clone()));
            check(database(&[]).unwrap().get_artifact::<Thing>(&f.info).is_ok(), "a file cannot be fetched");
        }
        files.push(f);
    }
    let server = choice("server", 4);
    let mut builds = Builds::default();
    let builder = choice("builder", 3);
    for (i, f) in files.iter().enumerate() {
        if !f.wheel {
            builds.insert(url(i), (builder == 2).then(|| vec![b'0' + i as u8, 7]));
        }
    }
    let infos: Vec<ArtifactInfo> = files.iter().map(|f| f.info.clone()).collect();
    let bodies: Vec<Vec<u8>> = files.iter().map(|f| f.remote.clone()).collect();
    let metadata_dir = root().join("cache").join("metadata");
    let before = values(&metadata_dir);
    check(before == files.iter().filter(|f| f.metadata.is_some()).count(), "metadata is cached without being looked up");
    let (r, seen) = lookup(&infos, &bodies, server, if builder > 0 { Some(&builds) } else { None });

    let local = files.iter().any(|f| f.metadata.is_some() || f.cached.is_some());
    check(!local || seen.is_empty(), "the network is used for something that is there");
    check(!local || r.is_some(), "what is there is not found");
    check(seen.iter().all(|i| files[*i].wheel), "a source archive is fetched for its metadata");
    let mut added = 0;
    match &r {
        Some((i, m)) => {
            let f = &files[*i];
            let is = |v: &Option<Vec<u8>>| v.as_ref().map_or(false, |v| same_bytes(v, m));
            let good = if local {
                is(&f.metadata) || f.metadata.is_none() && is(&f.cached)
            } else if f.wheel {
                let mut sent = f.remote.clone();
                if server == CHANGED {
                    sent[1] ^= 1;
                }
                // without ranges the file is checked against its hash
                (server == RANGES || server == WHOLE || server == CHANGED && f.info.hash.is_none()) && same_bytes(&sent, m)
            } else {
                builder == 2 && same_bytes(&[b'0' + *i as u8, 7], m)
            };
            check(good, "metadata that is not the artifact's is returned");
            match &f.info.hash {
                Some(h) => {
                    check(stored("metadata", h).map_or(false, |s| same_bytes(&s, m)), "the metadata is not cached, or other metadata is");
                    added = f.metadata.is_none() as usize;
                    // and from now on it is there
                    let (again, seen) = lookup(&infos, &bodies, DEAD, None);
                    check(seen.is_empty() && again.map_or(false, |(j, n)| files[j].metadata.is_some() || j == *i && same_bytes(&n, m)), "the second lookup differs");
                }
                None => reach("no hash"),
            }
            reach(if local && f.metadata.is_some() {
                "cached metadata"
            } else if local {
                "cached artifact"
            } else if f.wheel {
                "remote"
            } else {
                "built"
            });
        }
        None => {
            check(server != RANGES && server != WHOLE || files.iter().all(|f| !f.wheel), "a file on the server is not found");
            check(builder != 2 || files.iter().any(|f| f.wheel) || files.is_empty(), "a source archive is not built");
            reach("nothing");
        }
    }
    check(values(&metadata_dir) == before + added, "metadata is cached for something else");
    for (i, f) in files.iter().enumerate() {
        if let (Some(h), Some(old)) = (&f.info.hash, &f.metadata) {
            check(stored("metadata", h).map_or(false, |s| same_bytes(&s, old)), "cached metadata is changed");
        }
        if let (Some(h), false) = (&f.info.hash, r.as_ref().map_or(false, |r| r.0 == i)) {
            check(stored("metadata", h).is_some() == f.metadata.is_some(), "metadata is cached under another artifact's hash");
        }
    }
}
const PYBI: &str = "Pybi-Version: 1.0\nGenerator: x\nTag: any\n";
const META: &str = "Metadata-Version: 2.1\nName: foo\nVersion: 1\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {}\n";
fn pybi(ms: &[arch::Member]) -> Option<(Vec<u8>, PybiCoreMetadata)> {
    let name: PybiName = "foo-1-any.pybi".try_into().unwrap();
    Pybi::new(name, Box::new(Cursor::new(arch::zip(ms)))).unwrap().metadata().ok()
}
/// a Python whose inside contradicts its file name, or of a format that is not known
#[no_mangle]
pub extern "C" fn h_p28_python() {
    let n = param("n", 2) as usize;
    let which = param("which", 0);
    let (mut w, mut m) = (PYBI.to_string(), META.to_string());
    let good = match which {
        0 => {
            let v = over_n("pybi-version", n, "012.x");
            w = w.replace("Pybi-Version: 1.0", &format!("Pybi-Version: {v}"));
            v.starts_with("1.")
        }
        1 => {
            let v = over_n("name", n, "foFO-");
            m = m.replace("Name: foo", &format!("Name: {v}"));
            v.to_ascii_lowercase() == "foo"
        }
        2 => {
            let v = over_n("version", n, "01.");
            m = m.replace("\nVersion: 1", &format!("\nVersion: {v}"));
            // 1 and nothing but zeros after it
            let mut parts = v.split('.').map(|p| (p.trim_start_matches('0'), p.is_empty()));
            v.split('.').all(|p| !p.is_empty()) && parts.next().map_or(false, |p| p.0 == "1") && parts.all(|p| p.0.is_empty())
        }
        3 => {
            let (name, version) = (pick("name", &["foo", "Foo", "bar"]), pick("version", &["1", "1.0", "2", "1rc1", "1.post1"]));
            m = m.replace("Name: foo\nVersion: 1", &format!("Name: {name}\nVersion: {version}"));
            let format = pick("format", &["1.0", "1.99", "2.0", "0.1", "11.0"]);
            w = w.replace("1.0", format);
            name != "bar" && (version == "1" || version == "1.0") && format.starts_with("1.")
        }
        _ => {
            let i = choice("line", 6);
            let text = if i == 0 { &mut w } else { &mut m };
            let mut ls: Vec<String> = text.lines().map(|l| l.to_string()).collect();
            let at = if i == 0 { 0 } else { i - 1 };
            if flag("twice") {
                let l = ls[at].clone();
                ls.push(l);
            } else {
                ls.remove(at);
            }
            *text = ls.join("\n") + "\n";
            false
        }
    };
    let (a, b) = (wheel::member("pybi-info/PYBI", w.as_bytes()), wheel::member("pybi-info/METADATA", m.as_bytes()));
    let ms = if which == 4 && flag("missing") { vec![if flag("only one") { a } else { b }] } else { vec![a, b] };
    match pybi(&ms) {
        Some((blob, meta)) => {
            check(good, "a Python that contradicts its file name or has an unknown format is accepted");
            check(same_bytes(&blob, m.as_bytes()), "other metadata is returned");
            let parsed: PybiCoreMetadata = m.as_bytes().try_into().unwrap();
            check(meta.name == parsed.name && meta.version == parsed.version, "the metadata is parsed differently");
            reach("accepted");
        }
        None => {
            check(!good, "a good Python is refused");
            reach("refused");
        }
    }
}
