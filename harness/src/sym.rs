//! Interface between the harnesses and the checker.
//!
//! In the symbolic build these functions are left undefined: the symbolic executor gives them
//! their meaning. In the native build (counterexample replay) `native/src/main.rs` defines them
//! over the concrete bytes of a model.
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize, dom: *const u8);
    fn sym_assume(b: bool);
    fn sym_check(b: bool, id: *const u8, n: usize);
    fn sym_known(ok: bool, known: bool, id: *const u8, n: usize);
    fn sym_cover(id: *const u8, n: usize);
    fn sym_close(a: f64, b: f64, tol: f64) -> bool;
    fn sym_pick(x: u64) -> u64;
    fn sym_time(secs: u64, nsec: u64);
    fn sym_mode(m: u64);
    fn sym_out(k: u64, v: u64);
    fn sym_note(p: *const u8, n: usize) -> u64;
}

/// Set of byte values a symbolic byte may take.
#[derive(Clone, Copy)]
pub struct Dom([u8; 32]);
impl Dom {
    pub const fn none() -> Dom {
        Dom([0; 32])
    }
    pub const fn range(mut self, lo: u8, hi: u8) -> Dom {
        let mut i = lo as usize;
        while i <= hi as usize {
            self.0[i / 8] |= 1 << (i % 8);
            i += 1;
        }
        self
    }
    pub const fn with(mut self, s: &[u8]) -> Dom {
        let mut i = 0;
        while i < s.len() {
            self.0[(s[i] / 8) as usize] |= 1 << (s[i] % 8);
            i += 1;
        }
        self
    }
    pub const fn without(mut self, s: &[u8]) -> Dom {
        let mut i = 0;
        while i < s.len() {
            self.0[(s[i] / 8) as usize] &= !(1 << (s[i] % 8));
            i += 1;
        }
        self
    }
}
/// the 64 legal payload characters
pub static ARMOUR: Dom = Dom::none().range(b'0', b'W').range(b'`', b'w');
pub static DIGIT: Dom = Dom::none().range(b'0', b'9');
/// every ASCII character
pub static ASCII: Dom = Dom::none().range(0, 127);
/// every byte
pub static BYTE: Dom = Dom::none().range(0, 255);

pub fn fill(b: &mut [u8], d: &'static Dom) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len(), d.0.as_ptr()) }
}
pub fn bytes<const N: usize>(d: &'static Dom) -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b, d);
    b
}
/// one symbolic byte
pub fn byte(d: &'static Dom) -> u8 {
    bytes::<1>(d)[0]
}
static CHOICE: [Dom; 33] = {
    let mut a = [Dom::none(); 33];
    let mut i = 1;
    while i < 33 {
        a[i] = Dom::none().range(0, i as u8 - 1);
        i += 1;
    }
    a
};
/// a case split: explores every value 0..n (n <= 32) separately
pub fn choose(n: usize) -> usize {
    pick(byte(&CHOICE[n]) as u64) as usize
}
/// a symbolic truth value
pub fn flag() -> bool {
    byte(&CHOICE[2]) == 1
}
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
#[inline(never)]
pub fn check(b: bool, id: &str) {
    unsafe { sym_check(b, id.as_ptr(), id.len()) }
}
/// like `check`, but a failure for which `known` holds is the listed known finding `id`
#[inline(never)]
pub fn known(ok: bool, known: bool, id: &str) {
    unsafe { sym_known(ok, known, id.as_ptr(), id.len()) }
}
/// records that this point is reached by some input (vacuity guard)
pub fn cover(id: &str) {
    unsafe { sym_cover(id.as_ptr(), id.len()) }
}
/// |a - b| <= tol (false if either is not a finite number)
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    unsafe { sym_close(a, b, tol) }
}
/// forces a case split on the value
pub fn pick(x: u64) -> u64 {
    unsafe { sym_pick(x) }
}
/// sets the current time seen by the code
pub fn set_time(secs: u64, nsec: u64) {
    unsafe { sym_time(secs, nsec) }
}
/// 1: explore paths separately from here on instead of merging them
pub fn mode(m: u64) {
    unsafe { sym_mode(m) }
}
pub fn out(k: u64, v: u64) {
    unsafe { sym_out(k, v) }
}
/// shows the sentence when replayed
pub fn note(s: &str) {
    unsafe {
        sym_note(s.as_ptr(), s.len());
    }
}
