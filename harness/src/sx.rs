//! Interface to the symbolic executor. Natively these are implemented by rt.c (replay).
mod raw {
    unsafe extern "C" {
        pub fn sx_u(bits: u32) -> u64;
        pub fn sx_range(n: u64) -> u64;
        pub fn sx_assume(c: u32);
        pub fn sx_check(c: u32, code: u32);
        pub fn sx_fail(code: u32);
        pub fn sx_cover(c: u32, id: u32);
        pub fn sx_note(v: u64);
        pub fn sx_param(i: u32) -> u64;
        pub fn sx_conc(v: u64) -> u64;
        pub fn sx_ite(c: u32, a: u64, b: u64) -> u64;
        pub fn sx_end();
    }
}
/// Fresh symbolic value of `bits` bits.
pub fn u(bits: u32) -> u64 { unsafe { raw::sx_u(bits) } }
/// Fresh symbolic value in `0..n`.
pub fn range(n: u64) -> u64 { unsafe { raw::sx_range(n) } }
/// Restrict to inputs satisfying `c`.
pub fn assume(c: bool) { unsafe { raw::sx_assume(c as u32) } }
/// Property assertion: decided by the solver for every input on this path.
pub fn check(c: bool, code: u32) { unsafe { raw::sx_check(c as u32, code) } }
pub fn fail(code: u32) { unsafe { raw::sx_fail(code) } }
/// Reachability witness: must be satisfiable on some path.
pub fn cover(c: bool, id: u32) { unsafe { raw::sx_cover(c as u32, id) } }
/// Observable value, compared between symbolic path and native replay.
pub fn note(v: u64) { unsafe { raw::sx_note(v) } }
/// Bound chosen on the command line.
pub fn param(i: u32) -> u64 { unsafe { raw::sx_param(i) } }
/// Fork on the value of `v`.
pub fn conc(v: u64) -> u64 { unsafe { raw::sx_conc(v) } }
/// Branch-free selection.
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { raw::sx_ite(c as u32, a, b) } }
pub fn end() { unsafe { raw::sx_end() } }

/// An entry point of the symbolic executor.
#[macro_export]
macro_rules! entry {
    (fn $name:ident() $body:block) => {
        #[unsafe(no_mangle)]
        #[inline(never)]
        pub extern "C" fn $name() $body
    };
}
