//! Verification stand-in for `flate2`: DEFLATE is the identity; a gzip stream is a sequence of members,
//! each `1f 8b`, a 16-bit little-endian length and that many raw bytes.  `GzDecoder` reads the first
//! member only, `MultiGzDecoder` all of them, like the real ones.
use std::io;
#[derive(Copy, Clone, Debug)]
pub struct Compression(u32);
impl Compression {
    pub const fn new(l: u32) -> Compression { Compression(l) }
    pub const fn none() -> Compression { Compression(0) }
    pub const fn fast() -> Compression { Compression(1) }
    pub const fn best() -> Compression { Compression(9) }
    pub const fn level(&self) -> u32 { self.0 }
}
impl Default for Compression { fn default() -> Self { Compression(6) } }
fn bad() -> io::Error { io::ErrorKind::InvalidInput.into() }
struct Gz<R> { r: R, left: usize, state: u8, multi: bool }
impl<R: io::Read> Gz<R> {
    fn byte(&mut self) -> io::Result<Option<u8>> {
        let mut b = [0u8; 1];
        loop {
            match self.r.read(&mut b) {
                Ok(0) => return Ok(None),
                Ok(_) => return Ok(Some(b[0])),
                Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                Err(e) => return Err(e),
            }
        }
    }
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        loop {
            if self.state == 2 { return Ok(0); }
            if self.left > 0 {
                let n = buf.len().min(self.left);
                let got = self.r.read(&mut buf[..n])?;
                if got == 0 { return Err(io::ErrorKind::UnexpectedEof.into()); }
                self.left -= got;
                return Ok(got);
            }
            if self.state == 1 && !self.multi { self.state = 2; continue; }
            match self.byte()? {
                None if self.state == 1 => { self.state = 2; continue; }
                None => return Err(io::ErrorKind::UnexpectedEof.into()),
                Some(0x1f) => (),
                Some(_) => return Err(bad()),
            }
            let mut h = [0u8; 3];
            for x in h.iter_mut() { *x = self.byte()?.ok_or_else(|| io::Error::from(io::ErrorKind::UnexpectedEof))?; }
            if h[0] != 0x8b { return Err(bad()); }
            self.left = h[1] as usize | (h[2] as usize) << 8;
            self.state = 1;
        }
    }
}
macro_rules! deco {
    ($name:ident, $bound:path, $multi:expr) => {
        pub struct $name<R>(crate::Gz<R>);
        impl<R: $bound> $name<R> {
            pub fn new(r: R) -> $name<R> { $name(crate::Gz { r, left: 0, state: 0, multi: $multi }) }
        }
        impl<R> $name<R> {
            pub fn get_ref(&self) -> &R { &self.0.r }
            pub fn get_mut(&mut self) -> &mut R { &mut self.0.r }
            pub fn into_inner(self) -> R { self.0.r }
        }
        impl<R: $bound> std::io::Read for $name<R> {
            fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> { self.0.read(buf) }
        }
    };
}
macro_rules! ident {
    ($name:ident, $bound:path) => {
        pub struct $name<R>(R);
        impl<R: $bound> $name<R> {
            pub fn new(r: R) -> $name<R> { $name(r) }
        }
        impl<R> $name<R> {
            pub fn get_ref(&self) -> &R { &self.0 }
            pub fn get_mut(&mut self) -> &mut R { &mut self.0 }
            pub fn into_inner(self) -> R { self.0 }
        }
        impl<R: $bound> std::io::Read for $name<R> {
            fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> { self.0.read(buf) }
        }
    };
}
pub mod read {
    deco!(GzDecoder, std::io::Read, false);
    deco!(MultiGzDecoder, std::io::Read, true);
    ident!(DeflateDecoder, std::io::Read);
    ident!(ZlibDecoder, std::io::Read);
}
pub mod bufread {
    deco!(GzDecoder, std::io::BufRead, false);
    deco!(MultiGzDecoder, std::io::BufRead, true);
    ident!(DeflateDecoder, std::io::BufRead);
    ident!(ZlibDecoder, std::io::BufRead);
}
pub mod write {
    use super::Compression;
    use std::io::{self, Write};
    pub struct DeflateEncoder<W: Write>(W);
    impl<W: Write> DeflateEncoder<W> {
        pub fn new(w: W, _: Compression) -> Self { DeflateEncoder(w) }
        pub fn finish(self) -> io::Result<W> { Ok(self.0) }
        pub fn get_ref(&self) -> &W { &self.0 }
        pub fn get_mut(&mut self) -> &mut W { &mut self.0 }
    }
    impl<W: Write> Write for DeflateEncoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.write(b) }
        fn flush(&mut self) -> io::Result<()> { self.0.flush() }
    }
}
