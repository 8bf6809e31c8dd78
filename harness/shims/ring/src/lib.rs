//! Verification stand-in for `ring::digest`: an idealised digest.  The digest of a message of at most
//! 31 bytes *is* the message (with its length and an algorithm mark), so within that bound it is
//! injective and costs the solver nothing; longer messages are folded with rotations.
pub mod digest {
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub struct Algorithm {
        pub output_len: usize,
        pub chaining_len: usize,
        pub block_len: usize,
        mark: u8,
    }
    impl Algorithm {
        pub fn output_len(&self) -> usize { self.output_len }
    }
    pub static SHA1_FOR_LEGACY_USE_ONLY: Algorithm = Algorithm { output_len: 20, chaining_len: 20, block_len: 64, mark: 0x10 };
    pub static SHA256: Algorithm = Algorithm { output_len: 32, chaining_len: 32, block_len: 64, mark: 0 };
    pub static SHA384: Algorithm = Algorithm { output_len: 48, chaining_len: 64, block_len: 128, mark: 0x30 };
    pub static SHA512: Algorithm = Algorithm { output_len: 64, chaining_len: 64, block_len: 128, mark: 0x40 };
    pub static SHA512_256: Algorithm = Algorithm { output_len: 32, chaining_len: 64, block_len: 128, mark: 0x50 };
    #[derive(Clone)]
    pub struct Context {
        algorithm: &'static Algorithm,
        len: usize,
        d: [u8; 64],
    }
    #[derive(Clone, Copy)]
    pub struct Digest {
        algorithm: &'static Algorithm,
        value: [u8; 64],
    }
    impl Context {
        pub fn new(algorithm: &'static Algorithm) -> Context { Context { algorithm, len: 0, d: [0; 64] } }
        pub fn update(&mut self, data: &[u8]) {
            let m = self.algorithm.output_len - 1;
            for b in data {
                let i = 1 + self.len % m;
                self.d[i] = self.d[i].rotate_left(3) ^ *b;
                self.len += 1;
            }
        }
        pub fn finish(mut self) -> Digest {
            self.d[0] = (self.len as u8) ^ self.algorithm.mark ^ 0xA5;
            Digest { algorithm: self.algorithm, value: self.d }
        }
        pub fn algorithm(&self) -> &'static Algorithm { self.algorithm }
    }
    impl Digest {
        pub fn algorithm(&self) -> &'static Algorithm { self.algorithm }
    }
    impl AsRef<[u8]> for Digest {
        fn as_ref(&self) -> &[u8] { &self.value[..self.algorithm.output_len] }
    }
    impl core::fmt::Debug for Digest {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("digest") }
    }
    pub fn digest(algorithm: &'static Algorithm, data: &[u8]) -> Digest {
        let mut c = Context::new(algorithm);
        c.update(data);
        c.finish()
    }
}
pub mod constant_time {
    pub fn verify_slices_are_equal(a: &[u8], b: &[u8]) -> Result<(), crate::error::Unspecified> {
        if a == b { Ok(()) } else { Err(crate::error::Unspecified) }
    }
}
pub mod error {
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Unspecified;
    impl std::fmt::Display for Unspecified { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("unspecified") } }
    impl std::error::Error for Unspecified {}
}
