#[path = "/verif/harness/sym.rs"]
mod sym;
#[path = "/verif/harness/lib/arch.rs"]
mod arch;
use crate::prelude::*;
use crate::tree::*;
use crate::vocab::{Artifact, Sdist, SdistName};
use arch::*;
use std::io::Cursor;
use sym::*;
use zip::ZipArchive;

#[derive(Clone)]
enum Op {
    Dir(NicePathBuf),
    File(NicePathBuf, Vec<u8>, bool),
    Link(NicePathBuf, String),
}
#[derive(Default)]
struct Recorder {
    ops: Vec<Op>,
    fail_at: Option<usize>,
}
impl Recorder {
    fn add(&mut self, o: Op) -> Result<()> {
        if self.fail_at == Some(self.ops.len()) {
            bail!("the destination fails");
        }
        self.ops.push(o);
        Ok(())
    }
}
impl WriteTree for Recorder {
    fn mkdir(&mut self, path: &NicePathBuf) -> Result<()> {
        self.add(Op::Dir(path.clone()))
    }
    fn write_file(&mut self, path: &NicePathBuf, data: &mut dyn Read, executable: bool) -> Result<()> {
        let mut v = vec![];
        data.read_to_end(&mut v)?;
        self.add(Op::File(path.clone(), v, executable))
    }
    fn write_symlink(&mut self, s: &NiceSymlinkPaths) -> Result<()> {
        self.add(Op::Link(s.source.clone(), s.target.clone()))
    }
}
/// what a member asks for: None = it has to be refused
struct Want {
    op: Option<Op>,
    mode: u32,
    skip: bool,
}
fn same_path(a: &NicePathBuf, b: &NicePathBuf) -> bool {
    same_str(&a.to_string(), &b.to_string())
}
fn good(want: &Want, got: &Op) {
    match (want.op.as_ref().unwrap(), got) {
        (Op::Dir(a), Op::Dir(b)) => check(same_path(a, b), "a directory has the wrong name"),
        (Op::File(a, v, _), Op::File(b, w, x)) => {
            check(same_path(a, b), "a file has the wrong name");
            check(same_bytes(v, w), "a file has the wrong contents");
            // one of the execute bits set for others only: either answer will do
            check((want.mode & 0o111 != 0) | !*x, "a file becomes executable");
            check((want.mode & 0o100 == 0) | *x, "an executable bit is lost");
        }
        (Op::Link(a, t), Op::Link(b, u)) => {
            check(same_path(a, b), "a link has the wrong name");
            check(same_str(t, u), "a link has the wrong target");
        }
        _ => check(false, "a member of the wrong kind is written"),
    }
}
fn is_link(w: &Want) -> bool {
    matches!(w.op, Some(Op::Link(..)))
}
fn judge(wants: &[Want], refused_links: &[bool], r: &Result<()>, rec: &Recorder) {
    // plain members in order
    let mut n = 0;
    let mut stop = false;
    for (i, w) in wants.iter().enumerate() {
        if w.skip {
            if rec.ops.len() == n && r.is_err() && w.op.is_none() {
                // a global header with an unsafe name may be refused
                return;
            }
            continue;
        }
        if w.op.is_none() {
            // nothing is written after a refused member, and the error is reported
            stop = true;
            let _ = refused_links[i];
            break;
        }
        if is_link(w) {
            continue;
        }
        if rec.fail_at == Some(n) {
            stop = true;
            break;
        }
        check(n < rec.ops.len(), "a member is missing");
        good(w, &rec.ops[n]);
        n += 1;
    }
    if stop {
        reach("refused");
        check(r.is_err(), "a bad member goes unnoticed");
        check(rec.ops.len() == n, "something is written after a bad member");
        return;
    }
    // then the links, the deeper ones first
    let links: Vec<&Want> = wants.iter().filter(|w| is_link(w)).collect();
    if let Some(f) = rec.fail_at {
        if f < n + links.len() {
            check(r.is_err() && rec.ops.len() == f, "a failing destination goes unnoticed");
            reach("destination fails");
            return;
        }
    }
    check(r.is_ok(), "a good archive is refused");
    check(rec.ops.len() == n + links.len(), "wrong number of writes");
    reach("unpacked");
    let mut used = vec![false; links.len()];
    let mut depth = usize::MAX;
    for o in &rec.ops[n..] {
        match o {
            Op::Link(s, _) => {
                check(s.len() <= depth, "a link is written before a deeper one");
                depth = s.len();
                let k = (0..links.len()).find(|k| !used[*k] && matches!((links[*k].op.as_ref().unwrap(), o), (Op::Link(a, t), Op::Link(b, u)) if same_path(a, b) && same_str(t, u)));
                check(k.is_some(), "a link is missing or changed");
                used[k.unwrap()] = true;
            }
            _ => check(false, "a file or directory is written after a link"),
        }
    }
    if !links.is_empty() {
        reach("links");
    }
}
fn unix_mode(m: &Member) -> Option<u32> {
    if m.system == 3 && m.attr != 0 {
        Some(m.attr >> 16)
    } else if m.system == 0 && m.attr & 0x10 != 0 {
        Some(0o011) // marked as a directory: executable or not
    } else {
        None
    }
}
fn want_zip(m: &Member) -> Want {
    let mode = unix_mode(m).unwrap_or(0);
    let name = std::str::from_utf8(&m.name).unwrap();
    let path = NicePathBuf::try_from(name).ok();
    let op = if mode & 0xf000 == 0xa000 {
        path.and_then(|p| NiceSymlinkPaths::new(&p, &m.data).ok()).map(|l| Op::Link(l.source, l.target))
    } else if name.ends_with('/') || name.ends_with('\\') {
        path.map(Op::Dir)
    } else {
        path.map(|p| Op::File(p, m.data.clone(), false))
    };
    Want { op, mode, skip: false }
}
fn run_zip(ms: Vec<Member>, route: usize, fail_at: Option<usize>) {
    let body = zip(&ms);
    let mut rec = Recorder { ops: vec![], fail_at };
    let r = match route {
        0 => {
            let mut z = match ZipArchive::new(Cursor::new(body)) {
                Ok(z) => z,
                Err(_) => return check(false, "the archive does not open"),
            };
            unpack_zip_carefully(&mut z, &mut rec)
        }
        _ => sdist("x-1.zip", body, &mut rec),
    };
    let wants: Vec<Want> = ms.iter().map(want_zip).collect();
    judge(&wants, &vec![false; ms.len()], &r, &rec)
}
fn sdist(name: &str, body: Vec<u8>, rec: &mut Recorder) -> Result<()> {
    let name: SdistName = name.try_into()?;
    Sdist::new(name, Box::new(Cursor::new(body)))?.unpack(rec)
}
/// any mode; the file type bits are left to the kind
fn mode(kind: usize) -> u32 {
    let m = u16v("mode") as u32;
    match kind {
        0 => assume(m & 0xf000 != 0xa000),
        _ => assume(m & 0xf000 == 0xa000),
    }
    m
}
/// one member with any name, any mode, any contents
#[no_mangle]
pub extern "C" fn h_p03_zip_one() {
    let name = ascii_n("name", param("n", 3) as usize).into_bytes();
    let low = u16v("dos") as u32;
    let m = u16v("mode") as u32;
    let system = *[3u8, 0, 7].get(choice("system", 3)).unwrap();
    let data = bytes("data", param("m", 2) as usize);
    run_zip(vec![Member { name, attr: m << 16 | low, system, flags: 0, data }], choice("route", 2), None)
}
/// a few members with names over a small alphabet, any mode
#[no_mangle]
pub extern "C" fn h_p03_zip_some() {
    let k = param("k", 2) as usize;
    let mut ms = vec![];
    for _ in 0..k {
        let name = over("name", 1, param("n", 3) as usize, "a./").into_bytes();
        let kind = choice("kind", 2);
        let data = if kind == 1 { over("target", 1, param("t", 2) as usize, "a./").into_bytes() } else { bytes("data", 1) };
        ms.push(Member { name, attr: mode(kind) << 16, system: 3, flags: 0, data });
    }
    run_zip(ms, 0, None)
}
/// several members with names that lie below each other, and a destination that fails
#[no_mangle]
pub extern "C" fn h_p03_zip_many() {
    let k = param("k", 3) as usize;
    let mut ms = vec![];
    let names = ["a", "a/", "a/b", "a/b/c", "d/e/", "../a", "c:"];
    let targets = ["a", "../a", "/a", "d/../.."];
    for i in 0..k {
        let name = pick("name", &names).as_bytes().to_vec();
        let kind = choice("kind", 2);
        let data = if kind == 1 { pick("target", &targets).as_bytes().to_vec() } else { bytes("data", i) };
        ms.push(Member { name, attr: mode(kind) << 16, system: 3, flags: 0, data });
    }
    let f = choice("fail", k + 1);
    run_zip(ms, 0, if f < k { Some(f) } else { None })
}
fn want_tar(e: &Entry) -> Want {
    let path = NicePathBuf::try_from(&e.name[..]).ok();
    let op = match e.kind {
        b'1' | b'2' | b'3' | b'4' | b'6' => None,
        b'5' => path.map(Op::Dir),
        _ => path.map(|p| Op::File(p, e.data.clone(), false)),
    };
    if e.kind == b'S' {
        reach("sparse");
    }
    Want { op, mode: e.mode, skip: e.kind == b'g' }
}
fn run_tar(es: Vec<Entry>, route: usize, fail_at: Option<usize>) {
    let body = tar(&es);
    // one gzip member or several
    let cut = [body.len(), 512, 700][choice("cut", if es.len() > 2 { 1 } else { 3 })];
    let body = gz(&[&body[..cut], &body[cut..]][..if cut == body.len() { 1 } else { 2 }]);
    let mut rec = Recorder { ops: vec![], fail_at };
    let r = match route {
        0 => unpack_tar_gz_carefully(Cursor::new(body), &mut rec),
        _ => sdist("x-1.tar.gz", body, &mut rec),
    };
    let wants: Vec<Want> = es.iter().map(want_tar).collect();
    judge(&wants, &vec![false; es.len()], &r, &rec)
}
/// one entry of any type
#[no_mangle]
pub extern "C" fn h_p03_tar_one() {
    let n = param("n", 2) as usize;
    let name = ascii_n("name", n).into_bytes();
    for b in &name {
        assume(*b != 0);
    }
    let kind = byte("kind");
    let gnu = flag("gnu");
    // long names and pax attributes belong to the tar format itself; sparse files exist in GNU archives only
    assume(!in_set(kind, "LKx") & (gnu | (kind != b'S')));
    let mode = u16v("mode") as u32;
    let data = bytes("data", param("m", 2) as usize);
    if kind == b'g' {
        reach("global header");
    }
    run_tar(vec![Entry { name, kind, mode, link: vec![], gnu, data }], choice("route", 2), None)
}
#[no_mangle]
pub extern "C" fn h_p03_tar_many() {
    let k = param("k", 3) as usize;
    let names = ["a", "a/", "a/b/c", "./", "../a", "c:"];
    let mut es = vec![];
    for i in 0..k {
        let name = pick("name", &names).as_bytes().to_vec();
        let kind = pick("kind", &["0", "5", "2", "S", "g"]).as_bytes()[0];
        es.push(Entry { name, kind, mode: u16v("mode") as u32, link: b"x".to_vec(), gnu: kind == b'S', data: if kind == b'0' || kind == b'S' { bytes("data", i) } else { vec![] } });
    }
    let f = choice("fail", k + 1);
    run_tar(es, 0, if f < k { Some(f) } else { None })
}

// ---------------------------------------------------------------- on disk
fn list(at: &std::path::Path, base: &std::path::Path, out: &mut Vec<(String, std::fs::Metadata)>) {
    for e in std::fs::read_dir(at).unwrap() {
        let p = e.unwrap().path();
        let m = std::fs::symlink_metadata(&p).unwrap();
        let d = m.is_dir();
        out.push((p.strip_prefix(base).unwrap().to_str().unwrap().to_string(), m));
        if d {
            list(&p, base, out);
        }
    }
}
fn check_disk(want: &[Op], ok: bool) {
    use std::os::unix::fs::PermissionsExt;
    let root = root();
    let dest = root.join("in/dest");
    // nothing outside changed
    let mut around = vec![];
    for (p, _) in { let mut l = vec![]; list(&root, &root, &mut l); l } {
        if !p.starts_with("in/dest/") {
            around.push(p);
        }
    }
    around.sort();
    let was = ["file", "in", "in/a", "in/a/file", "in/dest", "in/file"];
    check(around.len() == was.len() && around.iter().zip(was).all(|(a, b)| a == b), "something appears or disappears outside the destination");
    for f in ["file", "in/file", "in/a/file"] {
        check(same_bytes(&std::fs::read(root.join(f)).unwrap(), b"old"), "a file outside the destination is changed");
    }
    let mut inside = vec![];
    list(&dest, &dest, &mut inside);
    if ok {
        for o in want {
            match o {
                Op::Dir(p) => check(dest.join(p.to_native()).is_dir(), "a directory is missing"),
                Op::File(p, v, x) => {
                    let f = dest.join(p.to_native());
                    let m = std::fs::symlink_metadata(&f);
                    check(m.is_ok(), "a file is missing");
                    let m = m.unwrap();
                    check(m.is_file(), "a file is not a plain file");
                    check(same_bytes(&std::fs::read(&f).unwrap(), v), "a file has the wrong contents on disk");
                    check((m.permissions().mode() & 0o100 != 0) == *x, "wrong execute bit on disk");
                    check(m.permissions().mode() & 0o6000 == 0, "setuid or setgid on disk");
                }
                Op::Link(p, t) => {
                    let l = std::fs::read_link(dest.join(p.to_native()));
                    check(l.is_ok() && l.unwrap().to_str() == Some(&t[..]), "a link is missing or changed on disk");
                }
            }
        }
        for (p, _) in &inside {
            let at = NicePathBuf::try_from(&p[..]).unwrap();
            check(want.iter().any(|o| match o { Op::Dir(q) | Op::File(q, ..) | Op::Link(q, _) => at.contains(q) || (q.len() > at.len() && at.contains(&at) && q.slice(..at.len()) == at) }), "something else appears in the destination");
        }
        reach("on disk");
    } else {
        reach("fails");
    }
    // following the links does not lead out either
    for (p, m) in &inside {
        if m.file_type().is_symlink() {
            reach("link on disk");
            let p = dest.join(p);
            if let Ok(real) = std::fs::canonicalize(&p) {
                check(real.starts_with(std::fs::canonicalize(&dest).unwrap()), "a link leads out of the destination");
            }
            let _ = std::fs::write(&p, b"new");
        }
    }
    for f in ["file", "in/file", "in/a/file"] {
        check(same_bytes(&std::fs::read(root.join(f)).unwrap(), b"old"), "a file outside the destination is changed through a link");
    }
}
fn prepare() -> WriteTreeFS {
    let root = root();
    std::fs::create_dir_all(root.join("in/a")).unwrap();
    std::fs::create_dir(root.join("in/dest")).unwrap();
    for f in ["file", "in/file", "in/a/file"] {
        std::fs::write(root.join(f), b"old").unwrap();
    }
    WriteTreeFS::new(root.join("in/dest"))
}
/// do the members agree with each other?
fn conflict(ops: &[Op]) -> bool {
    // two members of one name that are not both directories, or something below a file or link
    let at = |o: &Op| match o { Op::Dir(p) | Op::File(p, ..) | Op::Link(p, _) => p.clone() };
    for (i, a) in ops.iter().enumerate() {
        let p = at(a);
        if !matches!(a, Op::Dir(_)) && p.len() == 0 {
            return true;
        }
        for (j, b) in ops.iter().enumerate() {
            let q = at(b);
            if i != j && !matches!(a, Op::Dir(_)) && p.contains(&q) {
                return true;
            }
        }
    }
    false
}
fn disk(r: Result<()>, wants: Vec<Want>) {
    let all = wants.iter().all(|w| w.op.is_some() || w.skip);
    let mut ops = vec![];
    for w in &wants {
        if w.skip {
            continue;
        }
        if let Some(o) = &w.op {
            ops.push(match o {
                Op::File(p, v, _) => Op::File(p.clone(), v.clone(), w.mode & 0o100 != 0),
                o => o.clone(),
            });
        }
    }
    check(all || r.is_err(), "a bad member goes unnoticed");
    if all && !conflict(&ops) && !wants.iter().any(|w| w.skip && w.op.is_none()) {
        check(r.is_ok(), "a good archive does not unpack");
    }
    let r = r.is_ok();
    check_disk(&ops, r && !conflict(&ops));
}
fn exec_mode(kind: usize) -> u32 {
    (if kind == 1 { 0o120000 } else { 0o100000 }) | [0o644, 0o755, 0o6755][if kind == 1 { 0 } else { choice("mode", param("modes", 2) as usize) }]
}
#[no_mangle]
pub extern "C" fn h_p03_zip_disk() {
    let k = param("k", 2) as usize;
    let names = ["a", "a/", "a/b", "a/b/c", "d", "./", "../a", "/a"];
    let targets = ["a", "../a", ".", "a/b/..", "../../file", "d/.."];
    let mut w = prepare();
    let mut ms = vec![];
    for i in 0..k {
        let name = pick("name", &names).as_bytes().to_vec();
        let kind = choice("kind", 2);
        let data = if kind == 1 { pick("target", &targets).as_bytes().to_vec() } else { bytes("data", i) };
        ms.push(Member { name, attr: exec_mode(kind) << 16, system: 3, flags: 0, data });
    }
    let body = zip(&ms);
    let r = unpack_zip_carefully(&mut ZipArchive::new(Cursor::new(body)).unwrap(), &mut w);
    disk(r, ms.iter().map(want_zip).collect())
}
#[no_mangle]
pub extern "C" fn h_p03_zip_disk_names() {
    // names and targets spelled out of a few characters
    let mut w = prepare();
    let mut ms = vec![];
    for i in 0..param("k", 1) as usize {
        let name = over("name", 1, param("n", 3) as usize, "a./").into_bytes();
        let kind = choice("kind", 2);
        let data = if kind == 1 { over("target", 1, param("t", 4) as usize, "a./").into_bytes() } else { bytes("data", i) };
        ms.push(Member { name, attr: exec_mode(kind) << 16, system: 3, flags: 0, data });
    }
    let body = zip(&ms);
    let r = unpack_zip_carefully(&mut ZipArchive::new(Cursor::new(body)).unwrap(), &mut w);
    disk(r, ms.iter().map(want_zip).collect())
}
#[no_mangle]
pub extern "C" fn h_p03_tar_disk() {
    let k = param("k", 2) as usize;
    let names = ["a", "a/", "a/b", "a/b/c", "d", "./", "../a", "/a"];
    let w = prepare();
    let mut es = vec![];
    for i in 0..k {
        let name = pick("name", &names).as_bytes().to_vec();
        let kind = pick("kind", &["0", "5", "2", "1", "g"]).as_bytes()[0];
        es.push(Entry { name, kind, mode: exec_mode(0) & 0o777, link: b"../file".to_vec(), gnu: false, data: if kind == b'0' { bytes("data", i) } else { vec![] } });
    }
    let t = tar(&es);
    let r = unpack_tar_gz_carefully(Cursor::new(gz(&[&t])), w);
    disk(r, es.iter().map(want_tar).collect())
}

static mut JOB: Option<(Vec<u8>, bool)> = None;
extern "C" fn job(_: u64) -> u64 {
    let (body, is_tar) = unsafe { JOB.clone().unwrap() };
    let mut w = WriteTreeFS::new(root().join("in/dest"));
    let r = if is_tar {
        unpack_tar_gz_carefully(Cursor::new(body), w)
    } else {
        unpack_zip_carefully(&mut ZipArchive::new(Cursor::new(body)).unwrap(), &mut w)
    };
    r.is_ok() as u64
}
/// one file-system call of the unpacking fails, is cut short or interrupted: no silent damage
#[no_mangle]
pub extern "C" fn h_p03_fault() {
    prepare();
    let is_tar = flag("tar");
    let data = bytes("data", 3);
    let (body, wants): (_, Vec<Want>) = if is_tar {
        let e = |name: &str, kind, data: &[u8]| Entry { name: name.into(), kind, mode: 0o755, link: vec![], gnu: false, data: data.to_vec() };
        let es = [e("d/", b'5', b""), e("d/a", b'0', &data), e("b", b'0', &data[..1])];
        (gz(&[&tar(&es)]), es.iter().map(want_tar).collect())
    } else {
        let m = |name: &str, mode: u32, data: &[u8]| Member { name: name.into(), attr: mode << 16, system: 3, flags: 0, data: data.to_vec() };
        let ms = [m("d/", 0o40755, b""), m("d/a", 0o100755, &data), m("d/l", 0o120777, b"a")];
        (zip(&ms), ms.iter().map(want_zip).collect())
    };
    unsafe { JOB = Some((body, is_tar)) };
    budget(0, param("fault", 1), 0);
    let r = process(job, 0, MAY_FAIL);
    if faults_left() < param("fault", 1) {
        reach("fault");
    }
    budget(0, 0, 0);
    check(r <= 1, "crash");
    let ops: Vec<Op> = wants.iter().map(|w| match w.op.as_ref().unwrap() {
        Op::File(p, v, _) => Op::File(p.clone(), v.clone(), w.mode & 0o100 != 0),
        o => o.clone(),
    }).collect();
    check_disk(&ops, r == 1)
}
