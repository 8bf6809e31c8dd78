// Building source archives: what the build backend does is a script (natively) or the same done by a stand-in (in the engine).
#![allow(dead_code)]
use super::index::*;
use super::sym::*;
use crate::kvstore::KVDirStore;
use crate::prelude::*;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus};

/// What bin/python of the built environments is. $2 is the build directory, $3 the goal, $4 the tag; it runs in the unpacked archive.
const SCRIPT: &str = r#"#!/bin/sh
printf '%s\n' "$3 $4 $POSY_PYTHON_PACKAGES" >> "$2/log"
printf '%s\n' "$PATH" > "$2/path"
if [ -e requires.json ] && [ ! -e "$2/get_requires_for_build_wheel" ]; then cp requires.json "$2/get_requires_for_build_wheel"; exit 0; fi
if [ "$3" = WheelMetadata ] && [ -e metadata ]; then cp -r metadata/. "$2/"; exit 0; fi
if [ -e wheel ]; then cp -r wheel/. "$2/"; printf %s "$4" > "$2/build_wheel.binary_wheel_tag"; exit 0; fi
exit 3
"#;
fn copy(from: &Path, to: &Path) -> std::io::Result<()> {
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let to = to.join(e.file_name());
        if e.file_type()?.is_dir() {
            std::fs::create_dir_all(&to)?;
            copy(&e.path(), &to)?;
        } else {
            std::fs::copy(e.path(), to)?;
        }
    }
    Ok(())
}
fn imitate(c: &Command) -> std::io::Result<i32> {
    let args: Vec<PathBuf> = c.get_args().map(PathBuf::from).collect();
    let at = c.get_current_dir().unwrap();
    let var = |n: &str| c.get_envs().find(|e| e.0 == n).and_then(|e| e.1).unwrap_or_default().to_str().unwrap().to_string();
    let first = PathBuf::from(var("PATH").split(':').next().unwrap());
    if c.get_program() != "python" || !first.join("python").exists() {
        return Err(std::io::ErrorKind::NotFound.into());
    }
    let dir = &args[1];
    let goal = args[2].to_str().unwrap();
    let tag = args[3].to_str().unwrap();
    let mut log = std::fs::OpenOptions::new().create(true).append(true).open(dir.join("log"))?;
    log.write_all(format!("{goal} {tag} {}\n", var("POSY_PYTHON_PACKAGES")).as_bytes())?;
    std::fs::write(dir.join("path"), var("PATH") + "\n")?;
    if at.join("requires.json").exists() && !dir.join("get_requires_for_build_wheel").exists() {
        std::fs::copy(at.join("requires.json"), dir.join("get_requires_for_build_wheel"))?;
        return Ok(0);
    }
    if goal == "WheelMetadata" && at.join("metadata").exists() {
        copy(&at.join("metadata"), dir)?;
        return Ok(0);
    }
    if at.join("wheel").exists() {
        copy(&at.join("wheel"), dir)?;
        std::fs::write(dir.join("build_wheel.binary_wheel_tag"), tag)?;
        return Ok(0);
    }
    Ok(3)
}
static mut STATUS: i32 = 0;
#[no_mangle]
pub fn vsym_spawn(c: &mut Command) -> std::io::Result<Child> {
    unsafe { STATUS = imitate(c)? };
    // a child without pipes that only vsym_wait looks at
    let mut child = std::mem::MaybeUninit::<Child>::uninit();
    unsafe {
        std::ptr::write_bytes(child.as_mut_ptr() as *mut u8, 0xff, std::mem::size_of::<Child>());
        Ok(child.assume_init())
    }
}
#[no_mangle]
pub fn vsym_wait(_: &mut Child) -> std::io::Result<ExitStatus> {
    use std::os::unix::process::ExitStatusExt;
    Ok(ExitStatus::from_raw(unsafe { STATUS } << 8))
}
pub fn forest() -> PathBuf {
    root().join("forest")
}
pub fn put(store: &Path, h: &ArtifactHash, files: &[(String, Vec<u8>)]) -> PathBuf {
    KVDirStore::new(store)
        .unwrap()
        .get_or_set(h, |p| {
            for (name, text) in files {
                let p = p.join(name);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, text).unwrap();
            }
            Ok(())
        })
        .unwrap()
}
/// an environment's Python that is there already
pub fn install_python(v: V, kind: u8, tags: &[&str]) -> PathBuf {
    let text = pybi_text(v).replace("Pybi-Wheel-Tag: py3-none-any\n", &tags.iter().map(|t| format!("Pybi-Wheel-Tag: {t}\n")).collect::<String>());
    let h = hash("cpython", v, kind);
    remember(&h, &text);
    put_python(&h, &text)
}
pub fn put_python(h: &ArtifactHash, metadata: &str) -> PathBuf {
    use std::os::unix::fs::PermissionsExt;
    let p = put(&forest(), h, &[("pybi-info/METADATA".into(), metadata.as_bytes().to_vec()), ("bin/python".into(), SCRIPT.as_bytes().to_vec())]);
    std::fs::set_permissions(p.join("bin/python"), std::fs::Permissions::from_mode(0o755)).unwrap();
    std::env::set_var("PATH", "/usr/bin:/bin");
    p
}
/// A source archive that is unpacked already.
pub struct Source {
    pub requires: Vec<String>,
    pub dynamic: Option<Vec<String>>,
    /// has a hook for metadata
    pub prepare: bool,
    /// tag of the wheel it makes, none: the build fails
    pub makes: Option<String>,
}
pub fn plain_metadata(name: &str) -> String {
    format!("Metadata-Version: 2.1\nName: {name}\nVersion: 1\n")
}
pub fn plain_wheel(name: &str) -> Vec<u8> {
    use super::arch::*;
    let member = |path: &str, data: &str| Member { name: path.as_bytes().to_vec(), attr: 0o100644 << 16, system: 3, flags: 0, data: data.as_bytes().to_vec() };
    zip(&[member(&format!("{name}.py"), ""), member(&format!("{name}-1.dist-info/WHEEL"), "Wheel-Version: 1.0\nRoot-Is-Purelib: true\n"), member(&format!("{name}-1.dist-info/METADATA"), &plain_metadata(name))])
}
pub fn source(given: &str, h: &ArtifactHash, s: &Source) -> PathBuf {
    let name = given.replace('-', "_");
    let name = name.as_str();
    let list = |l: &[String]| l.iter().map(|r| format!("\"{r}\"")).collect::<Vec<_>>().join(", ");
    let mut files: Vec<(String, Vec<u8>)> = vec![("build-frontend.py".into(), vec![])];
    let top = format!("sdist/{name}-1");
    files.push((format!("{top}/pyproject.toml"), format!("[build-system]\nrequires = [{}]\nbuild-backend = \"x\"\n", list(&s.requires)).into_bytes()));
    if let Some(d) = &s.dynamic {
        files.push((format!("{top}/requires.json"), format!("[{}]", list(d)).into_bytes()));
    }
    if s.prepare {
        files.push((format!("{top}/metadata/prepare_metadata_for_build_wheel/{name}-1.dist-info/METADATA"), plain_metadata(name).into_bytes()));
        files.push((format!("{top}/metadata/prepare_metadata_for_build_wheel.out"), format!("{name}-1.dist-info").into_bytes()));
    }
    if let Some(t) = &s.makes {
        files.push((format!("{top}/wheel/build_wheel/{name}-1-{t}.whl"), plain_wheel(name)));
        files.push((format!("{top}/wheel/build_wheel.out"), format!("{name}-1-{t}.whl").into_bytes()));
    }
    put(&root().join("build"), h, &files)
}
/// what was run to build an archive: (goal, tag, packages)
pub fn runs(dir: &Path) -> Vec<(String, String, String)> {
    let log = std::fs::read(dir.join("log")).unwrap_or_default();
    String::from_utf8(log)
        .unwrap()
        .lines()
        .map(|l| {
            let mut w = l.splitn(3, ' ');
            (w.next().unwrap().into(), w.next().unwrap().into(), w.next().unwrap_or("").into())
        })
        .collect()
}
