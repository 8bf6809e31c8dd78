//! Verification stand-in for `crc32fast`: the checksum of everything is 0 (checksums are not posy's).
#[derive(Clone, Debug, Default)]
pub struct Hasher;
impl Hasher {
    pub fn new() -> Self { Hasher }
    pub fn new_with_initial(_: u32) -> Self { Hasher }
    pub fn new_with_initial_len(_: u32, _: u64) -> Self { Hasher }
    pub fn update(&mut self, _: &[u8]) {}
    pub fn finalize(self) -> u32 { 0 }
    pub fn reset(&mut self) {}
    pub fn combine(&mut self, _: &Self) {}
}
pub fn hash(_: &[u8]) -> u32 { 0 }
