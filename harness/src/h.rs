//! Interface to the executor.
extern "C" {
    fn sx_any(bits: u32) -> u64;
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, id: u64);
    fn sx_cover(id: u64);
    fn sx_obs(v: u64);
    fn sx_conc(v: u64) -> u64;
    fn sx_param(i: u64) -> u64;
    fn sx_alloc_bound(v: u64);
    fn sx_expect_panic(c: bool);
    fn sx_and(a: bool, b: bool) -> bool;
    fn sx_or(a: bool, b: bool) -> bool;
    fn sx_not(a: bool) -> bool;
    fn sx_ite(c: bool, a: u64, b: u64) -> u64;
}
pub fn any(bits: u32) -> u64 { unsafe { sx_any(bits) } }
pub fn any8() -> u8 { any(8) as u8 }
pub fn any16() -> u16 { any(16) as u16 }
pub fn anyb() -> bool { any(1) != 0 }
/// one of 0..n, explored value by value
pub fn pick(n: u64) -> u64 {
    let mut b = 1;
    while 1u64 << b < n { b += 1 }
    let v = any(b);
    assume(v < n);
    conc(v)
}
/// a symbolic value in 0..n, not split
pub fn below(n: u64, bits: u32) -> u64 { let v = any(bits); assume(v < n); v }
pub fn pickb() -> bool { pick(2) == 1 }
pub fn assume(c: bool) { unsafe { sx_assume(c) } }
pub fn check(c: bool, line: u32) { unsafe { sx_assert(c, line as u64) } }
pub fn cover(id: u64) { unsafe { sx_cover(id) } }
pub fn obs(v: u64) { unsafe { sx_obs(v) } }
pub fn conc(v: u64) -> u64 { unsafe { sx_conc(v) } }
pub fn param(i: u64) -> u64 { unsafe { sx_param(i) } }
pub fn alloc_bound(v: u64) { unsafe { sx_alloc_bound(v) } }
pub fn expect_panic(c: bool) { unsafe { sx_expect_panic(c) } }
// connectives that do not split the path
pub fn and(a: bool, b: bool) -> bool { unsafe { sx_and(a, b) } }
pub fn or(a: bool, b: bool) -> bool { unsafe { sx_or(a, b) } }
pub fn not(a: bool) -> bool { unsafe { sx_not(a) } }
pub fn iff(a: bool, b: bool) -> bool { or(and(a, b), and(not(a), not(b))) }
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { sx_ite(c, a, b) } }
/// equality of slices without splitting on the contents
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a == b }
pub fn obs_bytes(b: &[u8]) { obs(b.len() as u64); for &x in b { obs(x as u64) } }

/// the property under check, identified by source line
#[macro_export]
macro_rules! chk { ($c:expr) => { $crate::h::check($c, line!()) }; }
/// failure that must not be reached
#[macro_export]
macro_rules! unreachable_chk { () => {{ $crate::h::check(false, line!()); unreachable!() }}; }
/// unwrap whose failure is a violation
#[macro_export]
macro_rules! ok { ($e:expr) => { match $e { Ok(v) => v, Err(_) => { $crate::h::check(false, line!()); return } } }; }
#[macro_export]
macro_rules! some { ($e:expr) => { match $e { Some(v) => v, None => { $crate::h::check(false, line!()); return } } }; }
