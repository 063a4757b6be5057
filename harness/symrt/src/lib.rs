//! Symbolic inputs for harnesses. `llsym` intercepts the `__sym_*` functions;
//! natively they replay a concrete model (see native.c).
mod raw {
    extern "C" {
        pub fn __sym_var(bits: u32, name: *const u8, len: usize) -> u64;
        pub fn __sym_choice(n: u64, name: *const u8, len: usize) -> u64;
        pub fn __sym_concretize(v: u64) -> u64;
        pub fn __sym_assume(c: bool);
        pub fn __sym_check(c: bool, id: u32);
        pub fn __sym_reach(id: u32);
        pub fn __sym_note(p: *const u8, n: usize);
        pub fn __sym_observe(v: u64);
        pub fn __sym_fail(p: *const u8, n: usize);
        pub fn __sym_native_main(names: *const *const u8, lens: *const usize, fns: *const extern "C" fn(), n: usize) -> i32;
    }
}
/// A fully symbolic value of `bits` bits.
pub fn var(name: &str, bits: u32) -> u64 {
    unsafe { raw::__sym_var(bits, name.as_ptr(), name.len()) }
}
pub fn any_u8(name: &str) -> u8 {
    var(name, 8) as u8
}
pub fn any_u16(name: &str) -> u16 {
    var(name, 16) as u16
}
pub fn any_u32(name: &str) -> u32 {
    var(name, 32) as u32
}
pub fn any_u64(name: &str) -> u64 {
    var(name, 64)
}
/// Symbolic value in `0..n`, left symbolic.
pub fn below(name: &str, n: usize) -> u64 {
    unsafe { raw::__sym_choice(n as u64, name.as_ptr(), name.len()) }
}
/// Symbolic value in `0..n`; every feasible value becomes its own path.
pub fn choice(name: &str, n: usize) -> usize {
    unsafe { raw::__sym_concretize(below(name, n)) as usize }
}
/// Symbolic boolean; decided when the program branches on it.
pub fn flag(name: &str) -> bool {
    below(name, 2) != 0
}
pub fn assume(c: bool) {
    unsafe { raw::__sym_assume(c) }
}
/// Proof obligation: must hold for every value of the inputs on this path.
pub fn check(c: bool, id: u32) {
    unsafe { raw::__sym_check(c, id) }
}
/// Witness that this point is reachable (guards against vacuity).
pub fn reach(id: u32) {
    unsafe { raw::__sym_reach(id) }
}
pub fn note(s: &str) {
    unsafe { raw::__sym_note(s.as_ptr(), s.len()) }
}
pub fn observe(v: u64) {
    unsafe { raw::__sym_observe(v) }
}
pub fn observe_str(s: &str) {
    for c in s.as_bytes().chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        observe(u64::from_le_bytes(b));
    }
    observe(s.len() as u64);
}
pub fn fail(s: &str) -> ! {
    unsafe { raw::__sym_fail(s.as_ptr(), s.len()) };
    loop {}
}
/// Native entry point.
pub fn main(entries: &[(&str, extern "C" fn())]) {
    let names: Vec<*const u8> = entries.iter().map(|e| e.0.as_ptr()).collect();
    let lens: Vec<usize> = entries.iter().map(|e| e.0.len()).collect();
    let fns: Vec<extern "C" fn()> = entries.iter().map(|e| e.1).collect();
    let r = unsafe { raw::__sym_native_main(names.as_ptr(), lens.as_ptr(), fns.as_ptr(), entries.len()) };
    std::process::exit(r);
}
/// Define the harness entries and the native `main`.
#[macro_export]
macro_rules! harness {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body }) *
        fn main() { $crate::main(&[$((stringify!($name), $name as extern "C" fn())),*]); }
    };
}
