//! Verification stand-in for `zstd`: present so that `zip` builds without the C library; never used by posy.
pub const DEFAULT_COMPRESSION_LEVEL: i32 = 3;
pub fn compression_level_range() -> std::ops::RangeInclusive<i32> { -7..=22 }
pub mod stream {
    pub mod read {
        use std::io::{self, BufRead, BufReader, Read};
        pub struct Decoder<'a, R>(R, std::marker::PhantomData<&'a ()>);
        impl<R: Read> Decoder<'static, BufReader<R>> {
            pub fn new(r: R) -> io::Result<Self> { Ok(Decoder(BufReader::new(r), std::marker::PhantomData)) }
        }
        impl<'a, R: BufRead> Decoder<'a, R> { pub fn finish(self) -> R { self.0 } }
        impl<'a, R: BufRead> Read for Decoder<'a, R> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
    }
    pub mod write {
        use std::io::{self, Write};
        pub struct Encoder<'a, W: Write>(W, std::marker::PhantomData<&'a ()>);
        impl<W: Write> Encoder<'static, W> {
            pub fn new(w: W, _: i32) -> io::Result<Self> { Ok(Encoder(w, std::marker::PhantomData)) }
        }
        impl<'a, W: Write> Encoder<'a, W> { pub fn finish(self) -> io::Result<W> { Ok(self.0) } }
        impl<'a, W: Write> Write for Encoder<'a, W> {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.write(b) }
            fn flush(&mut self) -> io::Result<()> { self.0.flush() }
        }
    }
}
