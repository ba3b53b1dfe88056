//! Six-bit texts
use super::sym::*;
use super::util::*;

/// six-bit character as ASCII
#[inline(always)]
pub fn asc(v: u8) -> u8 {
    v + 64 * ((v < 32) as u8)
}
/// Is `s` the text of the six-bit characters `t`: up to the first '@' (0), without trailing
/// spaces?
#[inline(never)]
pub fn text_is(s: &str, t: &[u8]) -> bool {
    let b = s.as_bytes();
    let mut end = 0usize;
    let mut alive = true;
    let mut i = 0;
    while i < t.len() {
        alive &= t[i] != 0;
        end = if alive & (t[i] != 32) { i + 1 } else { end };
        i += 1;
    }
    let mut ok = b.len() == end;
    i = 0;
    while i < t.len() {
        if i < b.len() {
            ok &= b[i] == asc(t[i]);
        }
        i += 1;
    }
    ok
}
/// None for the empty text
pub fn opt_text_is(s: &Option<String>, t: &[u8]) -> bool {
    match s {
        Some(s) => !s.is_empty() & text_is(s, t),
        None => text_is("", t),
    }
}
/// a bit string under construction
pub struct Pack {
    pub out: Vec<u8>,
    acc: u16,
    n: usize,
}
impl Pack {
    pub fn new() -> Pack {
        Pack { out: Vec::with_capacity(200), acc: 0, n: 0 }
    }
    /// appends the low `w` (<= 6) bits of v
    pub fn put(&mut self, v: u8, w: usize) {
        self.acc = (self.acc << w | v as u16) & 0xfff;
        self.n += w;
        if self.n >= 6 {
            self.n -= 6;
            let x = (self.acc >> self.n & 63) as u8;
            self.out.push(x + 48 + 8 * ((x >= 40) as u8));
        }
    }
    pub fn text(&mut self, t: &[u8]) {
        for x in t {
            self.put(*x, 6);
        }
    }
    /// n unconstrained bits, cut at payload character boundaries
    pub fn any(&mut self, n: usize) {
        let mut left = n;
        while left > 0 {
            let w = core::cmp::min(left, 6 - self.n);
            self.put(byte(&BITS[w]), w);
            left -= w;
        }
    }
    /// an unconstrained number of n (<= 16) bits as a variable of its own
    pub fn num(&mut self, n: usize) -> u64 {
        if n > 8 {
            let hi = self.num(n - 8);
            return hi << 8 | self.num(8);
        }
        let v = byte(&BITS[n]);
        self.bits(v, n);
        v as u64
    }
    /// appends the low n (<= 8) bits of v
    pub fn bits(&mut self, v: u8, n: usize) {
        let mut left = n;
        while left > 0 {
            let w = core::cmp::min(left, 6 - self.n);
            self.put(v >> (left - w) & ((1u16 << w) - 1) as u8, w);
            left -= w;
        }
    }
    /// pads to a whole character
    pub fn end(&mut self) {
        if self.n > 0 {
            let k = 6 - self.n;
            self.put(0, k);
        }
    }
}
pub static SIX: Dom = Dom::none().range(0, 63);
static BITS: [Dom; 9] = [
    Dom::none().range(0, 0),
    Dom::none().range(0, 1),
    Dom::none().range(0, 3),
    Dom::none().range(0, 7),
    Dom::none().range(0, 15),
    Dom::none().range(0, 31),
    Dom::none().range(0, 63),
    Dom::none().range(0, 127),
    Dom::none().range(0, 255),
];
