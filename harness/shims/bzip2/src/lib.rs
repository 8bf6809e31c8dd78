//! Verification stand-in for `bzip2`: present so that `zip` builds without the C library; never used by posy.
use std::io::{self, Read, Write};
#[derive(Copy, Clone, Debug)]
pub struct Compression(u32);
impl Compression {
    pub const fn new(l: u32) -> Compression { Compression(l) }
    pub const fn none() -> Compression { Compression(0) }
    pub const fn fast() -> Compression { Compression(1) }
    pub const fn best() -> Compression { Compression(9) }
    pub const fn level(&self) -> u32 { self.0 }
}
impl Default for Compression { fn default() -> Self { Compression(6) } }
pub mod read {
    use super::*;
    pub struct BzDecoder<R>(R);
    impl<R: Read> BzDecoder<R> {
        pub fn new(r: R) -> Self { BzDecoder(r) }
        pub fn into_inner(self) -> R { self.0 }
    }
    impl<R: Read> Read for BzDecoder<R> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
}
pub mod write {
    use super::*;
    pub struct BzEncoder<W: Write>(W);
    impl<W: Write> BzEncoder<W> {
        pub fn new(w: W, _: Compression) -> Self { BzEncoder(w) }
        pub fn finish(self) -> io::Result<W> { Ok(self.0) }
    }
    impl<W: Write> Write for BzEncoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.write(b) }
        fn flush(&mut self) -> io::Result<()> { self.0.flush() }
    }
}
