//! Harness side of the symbolic intrinsics. The symbolic engine implements the `sx_*`
//! functions; the native `replay` binary reads their values from a file.
#![allow(dead_code)]

extern "C" {
    fn sx_sym(name: *const u8, len: usize, idx: usize, width: usize) -> u64;
    fn sx_choose(name: *const u8, len: usize, idx: usize, n: usize) -> u64;
    fn sx_assume(c: u64);
    fn sx_assert(c: u64, msg: *const u8, len: usize);
    fn sx_fail(msg: *const u8, len: usize);
    fn sx_cover(msg: *const u8, len: usize);
    fn sx_observe(label: *const u8, len: usize, v: u64);
    fn sx_observe_bytes(label: *const u8, len: usize, p: *const u8, n: usize);
    fn sx_allow(mask: u64);
    fn sx_conc(v: u64) -> u64;
    fn sx_and(a: u64, b: u64) -> u64;
    fn sx_or(a: u64, b: u64) -> u64;
    fn sx_ite(c: u64, a: u64, b: u64) -> u64;
    fn sx_put(p: *mut u8, n: usize, name: *const u8, len: usize);
    fn sx_bytes_eq(p: *const u8, q: *const u8, n: usize) -> u64;
    fn sx_trace(label: *const u8, len: usize, v: u64);
    fn sx_symbolic() -> u64;
    fn sx_args(n: usize, p: *const *const u8);
    fn sx_serve(p: *const u8, n: usize, step: usize) -> u64;
    fn sx_asked(p: *mut u8, n: usize) -> u64;
    fn sx_fault(op: u64, at: u64, times: u64, errno: u64, piece: u64);
    fn sx_fault_end() -> u64;
    fn sx_stdio(i: *const u8, il: usize, o: *const u8, ol: usize);
}

pub fn sym(name: &str, idx: usize, width: usize) -> u64 {
    unsafe { sx_sym(name.as_ptr(), name.len(), idx, width) }
}
pub fn byte(name: &str, idx: usize) -> u8 {
    sym(name, idx, 8) as u8
}
pub fn u16v(name: &str, idx: usize) -> u16 {
    sym(name, idx, 16) as u16
}
pub fn u32v(name: &str, idx: usize) -> u32 {
    sym(name, idx, 32) as u32
}
pub fn u64v(name: &str, idx: usize) -> u64 {
    sym(name, idx, 64)
}
/// a value below n, each tried on its own path
pub fn choose(name: &str, idx: usize, n: usize) -> usize {
    unsafe { sx_choose(name.as_ptr(), name.len(), idx, n) as usize }
}
pub fn flag(name: &str, idx: usize) -> bool {
    choose(name, idx, 2) == 1
}
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { sx_put(v.as_mut_ptr(), n, name.as_ptr(), name.len()) }
    v
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c as u64) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { sx_assert(c as u64, msg.as_ptr(), msg.len()) }
}
pub fn fail(msg: &str) {
    unsafe { sx_fail(msg.as_ptr(), msg.len()) }
}
pub fn cover(msg: &str) {
    unsafe { sx_cover(msg.as_ptr(), msg.len()) }
}
pub fn observe(label: &str, v: u64) {
    unsafe { sx_observe(label.as_ptr(), label.len(), v) }
}
pub fn observe_bytes(label: &str, b: &[u8]) {
    unsafe { sx_observe_bytes(label.as_ptr(), label.len(), b.as_ptr(), b.len()) }
}
/// path endings that are not a violation in this harness
pub const PANIC: u64 = 1;
pub const EXIT: u64 = 2;
pub const HUGE: u64 = 4;
/// an exit that tells success
pub const EXIT0: u64 = 16;
/// the text of error messages does not matter: numbers in them that depend on inputs may be shown as anything
pub const OPAQUE: u64 = 256;
/// one path for each place a computed address may be, instead of one value standing for all
pub const FORK: u64 = 512;
pub fn allow(mask: u64) {
    unsafe { sx_allow(mask) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { sx_conc(v) }
}
/// conjunction / disjunction / choice without branching
pub fn and(a: bool, b: bool) -> bool {
    unsafe { sx_and(a as u64, b as u64) != 0 }
}
pub fn or(a: bool, b: bool) -> bool {
    unsafe { sx_or(a as u64, b as u64) != 0 }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { sx_ite(c as u64, a, b) }
}
pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { sx_bytes_eq(a.as_ptr(), b.as_ptr(), a.len()) != 0 }
}
pub fn trace(label: &str, v: u64) {
    unsafe { sx_trace(label.as_ptr(), label.len(), v) }
}
pub fn symbolic() -> bool {
    unsafe { sx_symbolic() != 0 }
}
/// the arguments std::env::args gives from now on
pub fn args(list: &[Vec<u8>]) {
    let mut v: Vec<*const u8> = vec![];
    for a in list {
        let mut b = a.clone();
        b.push(0);
        v.push(Box::leak(b.into_boxed_slice()).as_ptr());
    }
    v.push(std::ptr::null());
    let p = Box::leak(v.into_boxed_slice()).as_ptr();
    unsafe { sx_args(list.len(), p) }
}
/// standard input and output are files
pub fn stdio(input: &str, output: &str) {
    unsafe { sx_stdio(input.as_ptr(), input.len(), output.as_ptr(), output.len()) }
}
/// back to none and the report
pub fn stdio_end() {
    unsafe { sx_stdio(std::ptr::null(), 0, std::ptr::null(), 0) }
}
/// a server on this machine giving this answer to every connection, at most `step` bytes at a time (0: all); its port
pub fn serve(answer: &[u8], step: usize) -> u64 {
    unsafe { sx_serve(answer.as_ptr(), answer.len(), step) }
}
/// from here on some reads (writes) of files fail: `times` of them, the first the `at`-th; the others
/// move at most `piece` bytes (0: any number). Without `errno` those move at most `piece` bytes, the others all
pub fn fault(write: bool, at: u64, times: u64, errno: u64, piece: u64) {
    unsafe { sx_fault(write as u64, at, times, errno, piece) }
}
/// the same for listing directories, entry by entry
pub fn fault_list(at: u64, times: u64, errno: u64) {
    unsafe { sx_fault(2, at, times, errno, 0) }
}
/// no longer; how many failed
pub fn fault_end() -> u64 {
    unsafe { sx_fault_end() }
}
/// what the server was sent so far
pub fn asked() -> Vec<u8> {
    let mut v = vec![0; 4096];
    let n = unsafe { sx_asked(v.as_mut_ptr(), v.len()) } as usize;
    v.truncate(n);
    v
}
