use super::sym::*;
pub use nmea_parser::ais::*;
pub use nmea_parser::gnss::*;
pub use nmea_parser::*;
pub use chrono::{DateTime, Datelike, NaiveDate, TimeZone, Timelike, Utc};

/// six-bit value of a legal payload character
#[inline(always)]
pub fn v6(c: u8) -> u64 {
    let c = c as u64;
    c - 48 - 8 * ((c >= 96) as u64)
}
/// payload character of a six-bit value
pub fn armour(v: u8) -> u8 {
    if v < 40 {
        v + 48
    } else {
        v + 56
    }
}
/// bits pos..pos+len of a payload, most significant first; bits beyond the payload read as zero
pub fn u(p: &[u8], pos: usize, len: usize) -> u64 {
    let mut r = 0u64;
    let mut i = pos;
    while i < pos + len {
        let k = i / 6;
        let off = i % 6;
        let n = core::cmp::min(6 - off, pos + len - i);
        let v = if k < p.len() { v6(p[k]) } else { 0 };
        r = (r << n) | ((v >> (6 - off - n)) & ((1 << n) - 1));
        i += n;
    }
    r
}
/// two's complement
pub fn i(p: &[u8], pos: usize, len: usize) -> i64 {
    ((u(p, pos, len) << (64 - len)) as i64) >> (64 - len)
}
pub fn bit(p: &[u8], pos: usize) -> bool {
    u(p, pos, 1) == 1
}
pub fn text(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}
/// joins pieces into a sentence
pub fn cat(parts: &[&[u8]]) -> String {
    let mut n = 0;
    for p in parts {
        n += p.len();
    }
    let mut v = Vec::with_capacity(n);
    for p in parts {
        v.extend_from_slice(p);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn vdm(payload: &[u8]) -> String {
    cat(&[b"!AIVDM,1,1,,A,", payload, b",0"])
}
/// parses one VDM sentence with a fresh parser
pub fn parse_vdm(payload: &[u8]) -> Result<ParsedSentence, ParseError> {
    feed(&mut NmeaParser::new(), &vdm(payload))
}
pub type Parsed = Result<ParsedSentence, ParseError>;
pub fn feed(p: &mut NmeaParser, s: &str) -> Parsed {
    note(s);
    p.parse_sentence(s)
}
/// parses one sentence with a fresh parser
pub fn once(s: &str) -> Parsed {
    feed(&mut NmeaParser::new(), s)
}
/// a payload of N symbolic characters of message type t
pub fn payload<const N: usize>(t: u8) -> [u8; N] {
    let mut b: [u8; N] = bytes(&ARMOUR);
    b[0] = armour(t);
    b
}
/// x is Some(about v) exactly if avail
pub fn optf(x: Option<f64>, avail: bool, v: f64, tol: f64) -> bool {
    match x {
        Some(y) => avail & close(y, v, tol),
        None => !avail,
    }
}
pub fn opt<T: PartialEq>(x: Option<T>, avail: bool, v: T) -> bool {
    match x {
        Some(y) => avail & (y == v),
        None => !avail,
    }
}
pub fn lon_ok(x: Option<f64>, raw: i64) -> bool {
    optf(x, raw != 181 * 600000, raw as f64 / 600000.0, 1e-9)
}
pub fn lat_ok(x: Option<f64>, raw: i64) -> bool {
    optf(x, raw != 91 * 600000, raw as f64 / 600000.0, 1e-9)
}

/// the point in time, if it exists (the calendar is chrono's)
#[inline(never)]
pub fn utc(y: u64, m: u64, d: u64, h: u64, mi: u64, s: u64) -> Option<DateTime<Utc>> {
    if (h < 24) & (mi < 60) & (s < 60) {
        NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32)
            .and_then(|x| x.and_hms_opt(h as u32, mi as u32, s as u32))
            .map(|x| DateTime::<Utc>::from_utc(x, Utc))
    } else {
        None
    }
}
pub fn same_utc(a: &Option<DateTime<Utc>>, b: &Option<DateTime<Utc>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a == b,
        (None, None) => true,
        _ => false,
    }
}
