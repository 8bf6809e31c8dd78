// Wheels built by hand, on top of lib/arch.rs
use super::arch::*;
use crate::prelude::*;
use crate::vocab::{Artifact, Wheel, WheelName};
use std::io::Cursor;
pub const META: &str = "Metadata-Version: 2.1\nName: foo\nVersion: 1\n";
pub const WHEEL: &str = "Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: true\nTag: py3-none-any\n";
pub fn member(name: &str, data: &[u8]) -> Member {
    Member { name: name.as_bytes().to_vec(), attr: 0o100644 << 16, system: 3, flags: 0, data: data.to_vec() }
}
/// foo-1 with the usual vitals and these members
pub fn foo(mut ms: Vec<Member>) -> Vec<Member> {
    ms.push(member("foo-1.dist-info/WHEEL", WHEEL.as_bytes()));
    ms.push(member("foo-1.dist-info/METADATA", META.as_bytes()));
    ms
}
pub fn open(ms: &[Member]) -> Result<Wheel> {
    let name: WheelName = "foo-1-py3-none-any.whl".try_into()?;
    Wheel::new(name, Box::new(Cursor::new(zip(ms))))
}
pub fn paths() -> HashMap<String, NicePathBuf> {
    [("purelib", "lib/pure"), ("platlib", "lib/plat"), ("scripts", "bin"), ("data", "."), ("include", "inc"), ("headers", "inc/h")]
        .into_iter()
        .map(|(a, b)| (a.to_string(), b.try_into().unwrap()))
        .collect()
}
