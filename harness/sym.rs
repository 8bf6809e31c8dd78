// Interface between the harnesses and the symbolic executor (or, natively, the replay runner).
#![allow(dead_code)]
extern "C" {
    fn vsym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn vsym_assume(b: bool);
    fn vsym_assert(b: bool, id: *const u8, idl: usize);
    fn vsym_reach(id: *const u8, idl: usize);
    fn vsym_log(tag: *const u8, tl: usize, v: u64);
    fn vsym_concretize(v: u64) -> u64;
    fn vsym_param(name: *const u8, nl: usize, default: u64) -> u64;
    fn vsym_panic_ok(v: u64);
    fn vsym_end();
    fn vsym_native() -> u64;
    fn vsym_dump(tag: *const u8, tl: usize, v: u64);
}
pub fn fill(b: &mut [u8], name: &str) {
    unsafe { vsym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
}
pub fn assume(b: bool) {
    unsafe { vsym_assume(b) }
}
/// The property: must hold on every path.
pub fn check(b: bool, id: &str) {
    unsafe { vsym_assert(b, id.as_ptr(), id.len()) }
}
/// Vacuity witness: the driver insists that every declared witness is reached.
pub fn reach(id: &str) {
    unsafe { vsym_reach(id.as_ptr(), id.len()) }
}
pub fn log(tag: &str, v: u64) {
    unsafe { vsym_log(tag.as_ptr(), tag.len(), v) }
}
pub fn dump(tag: &str, v: u64) {
    unsafe { vsym_dump(tag.as_ptr(), tag.len(), v) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { vsym_concretize(v) }
}
pub fn param(name: &str, d: u64) -> u64 {
    unsafe { vsym_param(name.as_ptr(), name.len(), d) }
}
pub fn panic_ok(b: bool) {
    unsafe { vsym_panic_ok(b as u64) }
}
pub fn end() {
    unsafe { vsym_end() }
}
pub fn native() -> bool {
    unsafe { vsym_native() != 0 }
}
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v, name);
    v
}
pub fn byte(name: &str) -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b, name);
    b[0]
}
pub fn u16v(name: &str) -> u16 {
    let mut b = [0u8; 2];
    fill(&mut b, name);
    u16::from_le_bytes(b)
}
pub fn u32v(name: &str) -> u32 {
    let mut b = [0u8; 4];
    fill(&mut b, name);
    u32::from_le_bytes(b)
}
pub fn u64v(name: &str) -> u64 {
    let mut b = [0u8; 8];
    fill(&mut b, name);
    u64::from_le_bytes(b)
}
/// A choice in 0..n; execution splits, one path per value.
pub fn choice(name: &str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let b = byte(name);
    assume((b as usize) < n);
    concretize(b as u64) as usize
}
pub fn flag(name: &str) -> bool {
    choice(name, 2) == 1
}
/// A symbolic bit that does not split the path by itself.
pub fn bit(name: &str) -> bool {
    let b = byte(name);
    assume(b < 2);
    b != 0
}
pub fn pick<'a>(name: &str, opts: &[&'a str]) -> &'a str {
    opts[choice(name, opts.len())]
}
fn to_string(v: Vec<u8>) -> String {
    // every caller restricts the bytes to ASCII first
    unsafe { String::from_utf8_unchecked(v) }
}
/// exactly n symbolic ASCII bytes
pub fn ascii_n(name: &str, n: usize) -> String {
    let v = bytes(name, n);
    for b in &v {
        assume(*b < 128);
    }
    to_string(v)
}
/// 0..=max symbolic ASCII bytes
pub fn ascii(name: &str, max: usize) -> String {
    let n = choice(name, max + 1);
    ascii_n(name, n)
}
pub fn in_set(b: u8, alphabet: &str) -> bool {
    let mut ok = false;
    for a in alphabet.as_bytes() {
        ok |= b == *a;
    }
    ok
}
/// exactly n symbolic bytes out of the alphabet
pub fn over_n(name: &str, n: usize, alphabet: &str) -> String {
    let v = bytes(name, n);
    for b in &v {
        assume(in_set(*b, alphabet));
    }
    to_string(v)
}
pub fn over(name: &str, min: usize, max: usize, alphabet: &str) -> String {
    let n = min + choice(name, max + 1 - min);
    over_n(name, n, alphabet)
}
pub fn log_bytes(tag: &str, v: &[u8]) {
    log(tag, v.len() as u64);
    for b in v {
        log(tag, *b as u64);
    }
}
pub fn log_str(tag: &str, v: &str) {
    log_bytes(tag, v.as_bytes())
}
/// byte-wise equality without early exit (one solver question instead of one per byte)
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn same_str(a: &str, b: &str) -> bool {
    same_bytes(a.as_bytes(), b.as_bytes())
}
/// exactly n arbitrary characters (any Unicode scalar value)
pub fn chars(name: &str, n: usize) -> String {
    let mut out = Vec::new();
    let cont = |b: u8| (b & 0xc0) == 0x80;
    for _ in 0..n {
        let k = 1 + choice(name, 4);
        let v = bytes(name, k);
        match k {
            1 => assume(v[0] < 128),
            2 => assume((v[0] >= 0xc2) & (v[0] <= 0xdf) & cont(v[1])),
            3 => assume(
                (v[0] >= 0xe0) & (v[0] <= 0xef) & cont(v[1]) & cont(v[2]) & ((v[0] != 0xe0) | (v[1] >= 0xa0)) & ((v[0] != 0xed) | (v[1] <= 0x9f)),
            ),
            _ => assume(
                (v[0] >= 0xf0)
                    & (v[0] <= 0xf4)
                    & cont(v[1])
                    & cont(v[2])
                    & cont(v[3])
                    & ((v[0] != 0xf0) | (v[1] >= 0x90))
                    & ((v[0] != 0xf4) | (v[1] <= 0x8f)),
            ),
        }
        out.extend_from_slice(&v);
    }
    to_string(out)
}
// ---------------------------------------------------------------- files and processes
extern "C" {
    fn vsym_par(fns: *const extern "C" fn(u64) -> u64, args: *const u64, n: u64, out: *mut u64, flags: u64);
    fn vsym_budget(crash: u64, fault: u64, preempt: u64);
    fn vsym_left(k: u64) -> u64;
    fn vsym_fs_root(p: *mut u8, n: usize) -> usize;
}
pub const CRASHED: u64 = u64::MAX;
pub const MAY_CRASH: u64 = 1;
pub const MAY_FAIL: u64 = 2;
/// Runs f(arg) in processes of their own (memory is not shared, files are); results in order, CRASHED for one that died.
pub fn processes(fs: &[(extern "C" fn(u64) -> u64, u64)], flags: u64) -> Vec<u64> {
    let f: Vec<_> = fs.iter().map(|x| x.0).collect();
    let a: Vec<_> = fs.iter().map(|x| x.1).collect();
    let mut o = vec![0u64; fs.len()];
    unsafe { vsym_par(f.as_ptr(), a.as_ptr(), fs.len() as u64, o.as_mut_ptr(), flags) };
    o
}
pub fn process(f: extern "C" fn(u64) -> u64, arg: u64, flags: u64) -> u64 {
    processes(&[(f, arg)], flags)[0]
}
/// how many crashes, failing calls and process switches are still allowed on this path
pub fn budget(crash: u64, fault: u64, preempt: u64) {
    unsafe { vsym_budget(crash, fault, preempt) }
}
pub fn crashes_left() -> u64 {
    unsafe { vsym_left(0) }
}
pub fn faults_left() -> u64 {
    unsafe { vsym_left(1) }
}
/// the scratch directory; nothing outside it may be changed
pub fn root() -> std::path::PathBuf {
    let mut b = [0u8; 200];
    let n = unsafe { vsym_fs_root(b.as_mut_ptr(), b.len()) };
    std::path::PathBuf::from(std::str::from_utf8(&b[..n]).unwrap())
}
extern "C" {
    fn vsym_clock(secs: u64);
}
/// sets the wall clock
pub fn clock(secs: u64) {
    unsafe { vsym_clock(secs) }
}
