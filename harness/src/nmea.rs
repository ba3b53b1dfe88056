//! Building and reading NMEA fields
use super::sym::*;
use super::util::*;

/// any ASCII character that does not end a field
pub static FIELD: Dom = Dom::none().range(0, 127).without(b",*");
static FIRST2: Dom = Dom::none().range(0xc2, 0xdf);
static FIRST3: Dom = Dom::none().range(0xe1, 0xec);
static FIRST4: Dom = Dom::none().range(0xf1, 0xf3);
static NEXT: Dom = Dom::none().range(0x80, 0xbf);

/// a symbolic non-ASCII character of 2 + k bytes
pub fn utf8(k: usize) -> Vec<u8> {
    let mut c = vec![byte([&FIRST2, &FIRST3, &FIRST4][k])];
    let mut i = 0;
    while i < k + 1 {
        c.push(byte(&NEXT));
        i += 1;
    }
    c
}
pub fn num(d: &[u8]) -> u64 {
    let mut r = 0;
    for x in d {
        r = r * 10 + (*x - b'0') as u64;
    }
    r
}
pub fn pow10(n: usize) -> u64 {
    let mut k = 1;
    let mut i = 0;
    while i < n {
        k *= 10;
        i += 1;
    }
    k
}
/// D..DMM.M..M -> degrees
pub fn degrees(d: &[u8], m: &[u8], f: &[u8]) -> f64 {
    let k = pow10(f.len());
    num(d) as f64 + (num(m) * k + num(f)) as f64 / (60 * k) as f64
}
/// a decimal number of a digits before and b after the point
pub fn dec(neg: bool, a: usize, b: usize) -> (Vec<u8>, f64) {
    let mut d = [0u8; 16];
    fill(&mut d[..a + b], &DIGIT);
    let mut t = Vec::with_capacity(20);
    if neg {
        t.push(b'-');
    }
    t.extend_from_slice(&d[..a]);
    if b > 0 {
        t.push(b'.');
        t.extend_from_slice(&d[a..a + b]);
    }
    let v = num(&d[..a + b]) as f64 / pow10(b) as f64;
    (t, if neg { -v } else { v })
}
/// a whole number of a digits
pub fn int(a: usize) -> (Vec<u8>, u64) {
    let mut d = [0u8; 8];
    fill(&mut d[..a], &DIGIT);
    (d[..a].to_vec(), num(&d[..a]))
}
pub fn digits(n: usize) -> Vec<u8> {
    let mut d = vec![0u8; n];
    fill(&mut d, &DIGIT);
    d
}
/// an arbitrary field of n ASCII characters
pub fn field(n: usize) -> Vec<u8> {
    let mut d = vec![0u8; n];
    fill(&mut d, &FIELD);
    d
}
/// joins fields with commas
pub fn join(f: &[&[u8]]) -> String {
    let mut n = 0;
    for x in f {
        n += x.len() + 1;
    }
    let mut v = Vec::with_capacity(n);
    for (i, x) in f.iter().enumerate() {
        if i > 0 {
            v.push(b',');
        }
        v.extend_from_slice(x);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn is_digit(c: u8) -> bool {
    (c >= b'0') & (c <= b'9')
}
/// What is this text, as a number?
#[derive(PartialEq, Clone, Copy)]
pub enum Kind {
    /// digits, perhaps with a sign (f64) and decimals (f64)
    Number,
    /// cannot be read as a number
    Not,
    /// not settled: signs, exponents, missing digits on one side of the point
    Open,
}
pub fn f64_kind(t: &[u8]) -> Kind {
    let mut not = false;
    let mut digits = false;
    let mut all = true;
    let mut points = 0u32;
    let n = t.len();
    for (i, c) in t.iter().enumerate() {
        let d = is_digit(*c);
        let p = *c == b'.';
        let m = (*c == b'-') & (i == 0) & (n > 1);
        not |= !(d | p | (*c == b'-') | (*c == b'+') | (*c == b'e') | (*c == b'E'));
        digits |= d;
        points += p as u32;
        all &= d | m | (p & (i > 0) & (i + 1 < n) & (points == 1));
        if i > 0 {
            // a point directly after the sign
            all &= !(p & (t[i - 1] == b'-'));
        }
    }
    kind(all & digits, not | !digits | (points > 1))
}
fn kind(yes: bool, not: bool) -> Kind {
    if not {
        Kind::Not
    } else if yes {
        Kind::Number
    } else {
        Kind::Open
    }
}
/// whole number up to `max`
pub fn int_kind(t: &[u8], max: u64) -> Kind {
    let mut all = true;
    let mut v = 0u64;
    let mut some = false;
    let mut plus = false;
    for (i, c) in t.iter().enumerate() {
        let d = is_digit(*c);
        all &= d;
        plus |= (i == 0) & (*c == b'+');
        v = v * 10 + if d { (*c - b'0') as u64 } else { 0 };
        some |= d;
    }
    kind(all & some & (v <= max), !plus & !(all & some & (v <= max)))
}
/// value of a text of kind Number
pub fn f64_value(t: &[u8]) -> f64 {
    let mut v = 0u64;
    let mut neg = false;
    let mut scale = 1u64;
    let mut after = false;
    for c in t {
        let d = is_digit(*c);
        neg |= *c == b'-';
        v = if d { v * 10 + (*c - b'0') as u64 } else { v };
        scale = if d & after { scale * 10 } else { scale };
        after |= *c == b'.';
    }
    let r = v as f64 / pick(scale) as f64;
    if neg {
        -r
    } else {
        r
    }
}
/// HHMMSS of the day
pub fn time_of_day(t: &[u8]) -> Option<(u64, u64, u64)> {
    let mut ok = t.len() >= 6;
    let mut i = 0;
    while i < 6 && i < t.len() {
        ok &= is_digit(t[i]);
        i += 1;
    }
    if !ok {
        return None;
    }
    let (h, m, s) = (num(&t[..2]), num(&t[2..4]), num(&t[4..6]));
    if (h < 24) & (m < 60) & (s < 60) {
        Some((h, m, s))
    } else {
        None
    }
}
static HOUR: Dom = Dom::none().range(0, 23);
static SIXTY: Dom = Dom::none().range(0, 59);
/// sets the clock to any second of one of a few days, returns the date
pub fn today() -> (u64, u64, u64) {
    // 2020-11-19, 2024-02-29, 2099-12-31, 2000-01-01, 1999-12-31
    let days = [(2020, 11, 19, 18585), (2024, 2, 29, 19782), (2099, 12, 31, 47481), (2000, 1, 1, 10957), (1999, 12, 31, 10956)];
    let d = days[choose(5)];
    let (h, mi, s) = (byte(&HOUR) as u64, byte(&SIXTY) as u64, byte(&SIXTY) as u64);
    set_time(d.3 * 86400 + h * 3600 + mi * 60 + s, 987_654_321);
    (d.0, d.1, d.2)
}
pub static NS: Dom = Dom::none().with(b"NS");
pub static EW: Dom = Dom::none().with(b"EW");
/// the digits of a text as a number
pub fn num_or_zero(t: &[u8]) -> u64 {
    let mut v = 0u64;
    for c in t {
        v = v * 10 + if is_digit(*c) { (*c - b'0') as u64 } else { 0 };
    }
    v
}
