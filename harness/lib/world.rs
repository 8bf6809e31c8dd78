// A package index made of a server function, and posy's package database on top of it.
use super::sym::*;
use crate::env::EnvForest;
use crate::kvstore::KVDirStore;
use crate::package_db::*;
use crate::prelude::*;
pub use ureq::sim::{Answer, Seen};
pub use ureq::ErrorKind;

pub fn serve(f: impl FnMut(Seen) -> Answer + 'static) {
    ureq::sim::install(Box::new(f))
}
pub fn answer(status: u16, headers: &[(&str, &str)], body: Vec<u8>) -> Answer {
    Answer::Response { status, headers: headers.iter().map(|h| (h.0.to_string(), h.1.to_string())).collect(), body, broken: false }
}
pub fn dead() -> Answer {
    Answer::Fail(ErrorKind::UnknownScheme)
}
/// the database as a fresh run of posy sees it
pub fn database(index: &[&str]) -> Result<PackageDB<'static>> {
    let base = root();
    let forest: &'static EnvForest = Box::leak(Box::new(EnvForest::new(&base.join("forest"))?));
    let store: &'static KVDirStore = Box::leak(Box::new(KVDirStore::new(&base.join("build"))?));
    let urls: Vec<Url> = index.iter().map(|u| Url::parse(u).unwrap()).collect();
    PackageDB::new(&urls, &base.join("cache"), forest, store)
}
/// a source archive whose bytes can be looked at
pub struct Raw {
    name: SdistName,
    pub body: std::cell::RefCell<Box<dyn ReadPlusSeek>>,
}
impl Artifact for Raw {
    type Name = SdistName;
    fn new(name: SdistName, f: Box<dyn ReadPlusSeek>) -> Result<Self> {
        Ok(Raw { name, body: f.into() })
    }
    fn name(&self) -> &SdistName {
        &self.name
    }
}
pub fn artifact(name: &str, url: &str, hash: Option<ArtifactHash>) -> ArtifactInfo {
    ArtifactInfo { name: name.try_into().unwrap(), url: Url::parse(url).unwrap(), hash, requires_python: None, dist_info_metadata: Default::default(), yanked: Default::default() }
}
pub fn sha256(data: &[u8]) -> ArtifactHash {
    ArtifactHash { mode: "sha256".into(), raw_data: ring::digest::digest(&ring::digest::SHA256, data).as_ref().to_vec() }
}
/// A wheel that is not looked into: `script` gets the file as the metadata reader would see it.
pub struct Probe {
    name: WheelName,
    body: std::cell::RefCell<Box<dyn ReadPlusSeek>>,
}
pub type Script = Box<dyn FnMut(&mut dyn ReadPlusSeek)>;
pub static mut SCRIPT: Option<Script> = None;
impl Artifact for Probe {
    type Name = WheelName;
    fn new(name: WheelName, f: Box<dyn ReadPlusSeek>) -> Result<Self> {
        Ok(Probe { name, body: f.into() })
    }
    fn name(&self) -> &WheelName {
        &self.name
    }
}
impl BinaryArtifact for Probe {
    type Metadata = ();
    type Platform = PybiPlatform;
    type Builder<'a> = ();
    fn parse_metadata(_: &[u8]) -> Result<()> {
        Ok(())
    }
    fn metadata(&self) -> Result<(Vec<u8>, ())> {
        unsafe {
            if let Some(s) = &mut SCRIPT {
                s(self.body.borrow_mut().as_mut())
            }
        }
        Ok((vec![], ()))
    }
    fn locally_built_metadata(_: &(), _: &ArtifactInfo) -> Option<Result<(Vec<u8>, ())>> {
        None
    }
    fn locally_built_binary(_: &(), _: &ArtifactInfo, _: &PybiPlatform) -> Option<Result<Self>> {
        None
    }
}
/// opens a remote file the way metadata is read from remote wheels; false when it could not be opened
pub fn remotely(url: &str, hash: Option<ArtifactHash>, script: impl FnMut(&mut dyn ReadPlusSeek) + 'static) -> bool {
    unsafe { SCRIPT = Some(Box::new(script)) };
    let r = match database(&[]) {
        Ok(db) => db.get_metadata::<Probe, ArtifactInfo>(&[artifact("foo-1-py3-none-any.whl", url, hash)], None).is_ok(),
        Err(_) => false,
    };
    unsafe { SCRIPT = None };
    r
}
/// first and last position of a range request
pub fn range(seen: &Seen) -> Option<(u64, u64)> {
    let h = seen.headers.iter().find(|h| h.0 == "range")?;
    let (a, b) = h.1.strip_prefix("bytes=")?.split_once('-')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

/// A stand-in for the helper programs that find out about the machine (natively the real ones run).
#[no_mangle]
pub fn vsym_output(c: &mut std::process::Command) -> std::io::Result<std::process::Output> {
    use std::os::unix::process::ExitStatusExt;
    if !c.get_program().to_string_lossy().starts_with("/proc/self/fd/") {
        return Err(std::io::ErrorKind::NotFound.into());
    }
    Ok(std::process::Output { status: std::process::ExitStatus::from_raw(0), stdout: b"2.39\n".to_vec(), stderr: vec![] })
}
/// lets posy look at the machine
pub fn machine() {
    let tmp = root().join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    std::env::set_var("TMPDIR", &tmp);
    let p = PybiPlatform::native_platforms().unwrap();
    check(!p.is_empty(), "posy does not recognise the machine");
}
