//! C03: payload armouring
use super::sym::*;
use super::texts::*;
use super::util::*;

/// ASCII characters outside the alphabet that neither end the field nor start the checksum
static ILLEGAL: Dom = Dom::none().range(0, 127).without(b"0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVW`abcdefghijklmnopqrstuvw,*");
static FIRST2: Dom = Dom::none().range(0xc2, 0xdf);
static NEXT: Dom = Dom::none().range(0x80, 0xbf);
static FIRST3: Dom = Dom::none().range(0xe1, 0xec);
static FIRST4: Dom = Dom::none().range(0xf1, 0xf3);

/// at least one illegal character, at any of n positions
fn illegal(n: usize) {
    let mut b = [0u8; 28];
    fill(&mut b[..n], &ARMOUR);
    let at = choose(n);
    b[at] = byte(&ILLEGAL);
    let r = parse_vdm(&b[..n]);
    cover("illegal");
    check(r.is_err(), "an illegal character is an error");
}
pub fn c03_illegal() {
    illegal(28)
}
pub fn c03_illegal_short() {
    illegal([1, 2, 3, 5, 8, 13, 21][choose(7)])
}
/// any two characters of any kind but the separators anywhere, legal or not
pub fn c03_any() {
    static ANY: Dom = Dom::none().range(0, 127).without(b",*");
    let mut b: [u8; 12] = bytes(&ANY);
    b[0] = b"15;EHK"[choose(6)];
    let mut legal = true;
    for c in &b {
        legal &= ((*c >= b'0') & (*c <= b'W')) | ((*c >= b'`') & (*c <= b'w'));
    }
    match parse_vdm(&b) {
        Err(ParseError::UnsupportedSentenceType(_)) => check(legal, "an unsupported message is legal"),
        Err(_) => {}
        Ok(_) => {
            cover("legal");
            check(legal, "an illegal character is an error");
        }
    }
}
/// a multi-byte character at any position
pub fn c03_utf8() {
    let p: [u8; 16] = bytes(&ARMOUR);
    let at = choose(16);
    let k = choose(3);
    let mut c = [0u8; 4];
    c[0] = byte([&FIRST2, &FIRST3, &FIRST4][k]);
    fill(&mut c[1..k + 2], &NEXT);
    let s = cat(&[b"!AIVDM,1,1,,A,", &p[..at], &c[..k + 2], &p[at..], b",0"]);
    let r = once(&s);
    cover("utf8");
    check(r.is_err(), "a non-ASCII character is an error");
}
/// the message type is the value of the first character
pub fn c03_type() {
    let t = choose(4) as u64 * 16 + choose(16) as u64;
    let mut k = Pack::new();
    k.put(t as u8, 6);
    k.any(32);
    k.num(14); // the year of type 4
    k.any(44);
    let r = parse_vdm(&k.out);
    // part numbers 2 and 3 of type 24 are not defined
    check((kind_of(&r) == want_kind(t)) | ((t == 24) & (u(&k.out, 38, 2) > 1)), "message type");
    match r {
        Err(_) => cover("unsupported"),
        Ok(_) => cover("supported"),
    }
}
/// number of the kind of result
pub fn kind_of(r: &Parsed) -> u8 {
    match r {
        Ok(ParsedSentence::Incomplete) => 1,
        Ok(ParsedSentence::VesselDynamicData(_)) => 2,
        Ok(ParsedSentence::VesselStaticData(_)) => 3,
        Ok(ParsedSentence::BaseStationReport(_)) => 4,
        Ok(ParsedSentence::BinaryAddressedMessage(_)) => 5,
        Ok(ParsedSentence::StandardSarAircraftPositionReport(_)) => 6,
        Ok(ParsedSentence::UtcDateInquiry(_)) => 7,
        Ok(ParsedSentence::AidToNavigationReport(_)) => 8,
        Ok(ParsedSentence::Gga(_)) => 9,
        Ok(ParsedSentence::Rmc(_)) => 10,
        Ok(ParsedSentence::Gsa(_)) => 11,
        Ok(ParsedSentence::Gsv(_)) => 12,
        Ok(ParsedSentence::Vtg(_)) => 13,
        Ok(ParsedSentence::Gll(_)) => 14,
        Err(ParseError::UnsupportedSentenceType(_)) => 15,
        Err(ParseError::CorruptedSentence(_)) => 16,
        Err(ParseError::InvalidSentence(_)) => 17,
        _ => 0,
    }
}
/// kind of result for a complete message of type t
pub fn want_kind(t: u64) -> u8 {
    match t {
        1 | 2 | 3 | 18 | 27 => 2,
        4 => 4,
        5 => 3,
        6 => 5,
        9 => 6,
        10 => 7,
        21 => 8,
        24 => 1,
        _ => 15,
    }
}
/// long payloads
pub fn c03_long() {
    let t = [1u8, 5, 6, 18, 21, 24, 27, 8][choose(8)];
    let n = [53usize, 61, 71, 82, 120, 250][choose(6)];
    let mut p = vec![b'0'; n];
    p[0] = armour(t);
    let at = [1, 7, 20, 28, n / 2, n - 2, n - 1][choose(7)];
    set_time(18585 * 86400 + 3600, 0);
    if choose(2) == 0 {
        p[at] = byte(&ILLEGAL);
        cover("illegal");
        check(parse_vdm(&p).is_err(), "an illegal character is an error");
    } else {
        p[n - 1] = byte(&ARMOUR);
        cover("legal");
        check(kind_of(&parse_vdm(&p)) == want_kind(t as u64), "a legal payload is accepted");
    }
}
