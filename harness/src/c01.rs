//! C01: parsing never panics (a panic, an overflow and an out-of-range access are violations of
//! their own in the symbolic executor and in the replay)
use super::c10::{part_a, part_b, Mmsi};
use super::c25::{aid, voyage, AID, EXT};
use super::nmea::{digits, field, FIELD};
use super::sym::*;
use super::texts::*;
use super::util::*;

fn fine(r: &Parsed) {
    match r {
        Ok(_) => cover("result"),
        Err(_) => cover("error"),
    }
    check(true, "a result");
}
static ANY: Dom = Dom::none().range(0, 127);
/// any ASCII text
pub fn c01_short() {
    let n = choose(5);
    let mut b = [0u8; 8];
    fill(&mut b[..n], &ANY);
    fine(&once(text(&b[..n])));
}
/// a header of any ASCII characters
pub fn c01_header() {
    let n = choose(9);
    let mut b = [0u8; 9];
    fill(&mut b[..n], &FIELD);
    let rest: &[u8] = [&b","[..], b",,,,,,,,,,,,,,,,,,,,", b",1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1", b",2,1,5,A,15MgK,0", b",\xc3\xa4"][choose(5)];
    fine(&once(&cat(&[&b[..n], rest])));
}
/// a character of two to four bytes: letters, digits, others
const WIDE: [&str; 8] = ["\u{e4}", "\u{663}", "\u{a0}", "\u{20ac}", "\u{ff17}", "\u{2028}", "\u{1f600}", "\u{10ffff}"];
const SENTENCES: [&str; 10] = [
    "$GPGGA,123519,4807.00,N,01131.00,E,1,08,0.9,545.4,M,46.9,M,,",
    "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191194,020.3,E",
    "$GPGSA,A,3,04,05,,09,12,,,24,,,,,2.5,1.3,2.1",
    "$GPGSV,1,1,11,03,03,111,00,04,15,270,00,06,01,010,00,13,06,292,00",
    "$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,A",
    "$GPGLL,4916.45,N,12311.12,W,225444,A",
    "!AIVDM,1,1,,A,15MgK45P3@G?fl0E`JbR0OwT0@MS,0",
    "!AIVDO,2,1,5,B,15MgK45P3@G?fl0E`JbR0OwT0@MS,0*3C",
    "$GPGSV,3,2,11,03,03,111,00",
    "!BSVDM,1,1,,,H42O55lt0000000D3nink000?0500,2*7A",
];
/// such a character at any place, with or instead of an arbitrary ASCII character
pub fn c01_utf8_gnss() {
    wide(choose(4));
}
pub fn c01_utf8_ais() {
    wide(4 + choose(6));
}
fn wide(k: usize) {
    mode(1);
    set_time(18585 * 86400 + 3600, 0);
    let s = SENTENCES[k].as_bytes();
    let i = choose(3) * 25 + choose(25);
    if i >= s.len() {
        return;
    }
    let u = WIDE[2 * choose(4)].as_bytes();
    let a = [byte(&ANY)];
    let t = match choose(3) {
        0 => cat(&[&s[..i], u, &s[i + 1..]]),
        1 => cat(&[&s[..i], u, &a, &s[i + 1..]]),
        _ => cat(&[&s[..i], &a, u, &s[i + 1..]]),
    };
    fine(&once(&t));
}
/// two such characters next to each other at the beginning or the end
pub fn c01_utf8_two() {
    mode(1);
    let s = SENTENCES[choose(10)].as_bytes();
    let (u, v) = (WIDE[choose(8)].as_bytes(), WIDE[choose(8)].as_bytes());
    let a = [byte(&ANY)];
    let t = match choose(8) {
        0 => cat(&[u, v, &s[choose(8)..]]),
        1 => cat(&[&s[..choose(7)], u, v, &s[7..]]),
        2 => cat(&[s, b"*", u, v]),
        3 => cat(&[&s[..1], u, v]),
        4 => cat(&[u, b"*", v]),
        5 => cat(&[&a, u, b",", v]),
        6 => cat(&[u, &a, v]),
        _ => cat(&[&s[..1], u, &a, v, b"A,", v]),
    };
    fine(&once(&t));
}
/// sentences cut anywhere, with any ASCII character at the end
pub fn c01_cut() {
    mode(1);
    set_time(18585 * 86400 + 3600, 0);
    let s = SENTENCES[choose(10)].as_bytes();
    let i = choose(3) * 25 + choose(25);
    if i > s.len() {
        return;
    }
    fine(&once(&cat(&[&s[..i], &[byte(&ANY)]])));
}
/// the k-th field replaced
fn replaced(s: &str, k: usize, f: &[u8]) -> Option<String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut n = 0;
    while i < b.len() && n < k {
        n += (b[i] == b',') as usize;
        i += 1;
    }
    if n < k {
        return None;
    }
    let mut j = i;
    while j < b.len() && b[j] != b',' && b[j] != b'*' {
        j += 1;
    }
    Some(cat(&[&b[..i], f, &b[j..]]))
}
/// each field an arbitrary ASCII text
fn fields(from: usize, to: usize, len: usize) {
    set_time(18585 * 86400 + 3600, 0);
    let s = SENTENCES[from + choose(to - from)];
    let f = field(len);
    if let Some(t) = replaced(s, choose(18), &f) {
        fine(&once(&t));
    }
}
pub fn c01_fields() {
    fields(0, 10, choose(3));
}
pub fn c01_gga() {
    fields(0, 1, 4 - choose(2));
}
pub fn c01_rmc() {
    fields(1, 2, 4 - choose(2));
}
pub fn c01_gsa() {
    fields(2, 3, 4 - choose(2));
}
pub fn c01_gsv() {
    mode(1);
    fields(3, 4, 3);
}
pub fn c01_vtg() {
    fields(4, 6, 4 - choose(2));
}
pub fn c01_vdm() {
    fields(6, 8, 4 - choose(2));
}
/// times and dates of any digits and lengths
pub fn c01_time() {
    set_time(18585 * 86400 + 3600, 0);
    let mut f = digits(choose(9));
    // one other character somewhere
    let i = choose(9);
    if i < f.len() {
        f[i] = byte(&FIELD);
    }
    let k = choose(4);
    let t = match k {
        0 => replaced(SENTENCES[0], 1, &f),
        1 => replaced(SENTENCES[1], 1, &f),
        2 => replaced(SENTENCES[1], 9, &f),
        _ => replaced(SENTENCES[5], 5, &f),
    };
    fine(&once(&t.unwrap()));
}
/// long numbers
pub fn c01_long() {
    mode(1);
    set_time(18585 * 86400 + 3600, 0);
    let n = [10, 20, 25][choose(3)];
    let mut f = vec![[b'9', b'4', b'1', b'0'][choose(4)]; n];
    f[0] = byte(&FIELD);
    f[n - 1] = byte(&DIGIT);
    let k = choose(10);
    if let Some(t) = replaced(SENTENCES[k], choose(18), &f) {
        fine(&once(&t));
    }
}
/// payloads of every type and many lengths, all bits symbolic
fn ais(types: &[u64], lens: &[usize]) {
    set_time(18585 * 86400 + 3600, 0);
    let t = types[choose(types.len())];
    let n = lens[choose(lens.len())];
    let mut b = vec![0u8; n];
    fill(&mut b, &ARMOUR);
    if n > 0 {
        b[0] = armour(t as u8);
    }
    fine(&parse_vdm(&b));
}
pub fn c01_ais() {
    ais(&[1, 2, 3, 6, 9, 10, 18, 27], &[0, 1, 2, 7, 8, 13, 16, 23, 27, 28, 29, 60]);
}
pub fn c01_base() {
    ais(&[4], &[1, 7, 9, 10, 11, 12, 13, 14, 15, 27, 28, 29]);
}
/// messages with texts, cut anywhere
pub fn c01_voyage() {
    let mut n = AID;
    fill(&mut n[..4], &SIX);
    fill(&mut n[13..], &SIX);
    let p = voyage(&n);
    fine(&parse_vdm(&p[..[51, 54, 60, 71][choose(4)]]));
}
pub fn c01_aid() {
    let mut n = AID;
    fill(&mut n[..4], &SIX);
    fill(&mut n[13..], &SIX);
    let p = aid(&n, &EXT);
    fine(&parse_vdm(&p[..[8, 16, 28, 46, 60][choose(5)]]));
}
/// any length, the text given
pub fn c01_lengths() {
    let p = if choose(2) == 0 { voyage(&AID) } else { aid(&AID, &EXT) };
    let n = choose(3) * 24 + choose(24);
    assume(n <= p.len());
    fine(&parse_vdm(&p[..n]));
}
pub fn c01_aid_ext() {
    let p = aid(&AID, &bytes(&SIX));
    fine(&parse_vdm(&p[..45 + choose(16)]));
}
pub fn c01_other() {
    ais(
        &[0, 7, 8, 11, 12, 13, 14, 15, 16, 17, 19, 20, 22, 23, 25, 26, 28, 29, 30, 31, 32, 40, 47, 48, 56, 62, 63],
        &[1, 28, 53, 100],
    );
}
/// any message type
pub fn c01_type() {
    let n = 1 + choose(4);
    let mut b = [0u8; 8];
    fill(&mut b[..n], &ARMOUR);
    fine(&parse_vdm(&b[..n]));
}
/// long payloads
pub fn c01_oversized() {
    set_time(18585 * 86400 + 3600, 0);
    let t = choose(28) as u8;
    let mut b = vec![b'w'; 170 + 90 * choose(2)];
    b[0] = armour(t);
    for i in [8, 30, 62, 90, 169] {
        b[i] = byte(&ARMOUR);
    }
    fine(&parse_vdm(&b));
}
/// the ETA, whatever the date and the time
pub fn c01_eta() {
    let day = [0u64, 365, 10956, 11016, 18320, 18321, 18627, 46081, 47117, 47541, 47542, 84005, 95025][choose(13)];
    set_time(day * 86400 + choose(2) as u64 * 86399, choose(2) as u64 * 999_999_999);
    let mut k = Pack::new();
    k.put(5, 6);
    for _ in 0..268 / 4 {
        k.put(0, 4);
    }
    for w in [4, 5, 5, 6] {
        k.num(w);
    }
    k.any(12);
    fine(&parse_vdm(&k.out));
}
/// dates and times of type 4
pub fn c01_date() {
    let mut k = Pack::new();
    k.put(4, 6);
    k.any(32);
    for w in [14, 4, 5, 5, 6, 6] {
        k.num(w);
    }
    k.any(4);
    fine(&parse_vdm(&k.out));
}
/// fragments with any numbers
pub fn c01_fragments() {
    let mut p = NmeaParser::new();
    let n = 2 + choose(2);
    for _ in 0..n {
        let (c, f) = (digits(1), digits(1));
        let t: &[u8] = [&b",5,A,15MgK,0"[..], b",,A,H42,0", b",5,A,,0", b",5"][choose(4)];
        let r = feed(&mut p, &cat(&[b"!AIVDM,", &c, b",", &f, t]));
        fine(&r);
    }
}
/// fragment counts and numbers of any text
pub fn c01_counts() {
    let mut p = NmeaParser::new();
    let (c, f) = (field(choose(3)), field(choose(3)));
    let s = cat(&[b"!AIVDM,", &c, b",", &f, b",5,A,15MgK,0"]);
    fine(&feed(&mut p, &s));
    fine(&feed(&mut p, "!AIVDM,2,2,5,A,15MgK,0"));
    fine(&feed(&mut p, "!AIVDM,2,1,5,A,15MgK,0"));
}
/// GSV histories with any numbers
pub fn c01_groups() {
    mode(1);
    let mut p = NmeaParser::new();
    for _ in 0..3 {
        let (c, f) = (digits(1), digits(1));
        let r = feed(&mut p, &cat(&[b"$GPGSV,", &c, b",", &f, [&b",07,1,2,3,4"[..], b"", b",,,"][choose(3)]]));
        fine(&r);
    }
}
/// type 24 parts of any length and kind
pub fn c01_parts() {
    let m = Mmsi::any();
    let mut p = NmeaParser::new();
    let mut n = [0; 20];
    fill(&mut n[..10], &SIX);
    let a = part_a(&m, &n, true);
    let b = part_b(&m, &[n[0], n[1], n[2]], &[n[3], n[4], n[5], n[6], n[7], n[8], n[9]], true).0;
    let cuts = [1, 6, 7, 20, 28];
    for _ in 0..2 {
        let x = if choose(2) == 0 { &a } else { &b };
        let k = cuts[choose(5)];
        fine(&feed(&mut p, &vdm(&x[..k])));
    }
}
/// any number of fields
pub fn c01_commas() {
    mode(1);
    set_time(18585 * 86400 + 3600, 0);
    let head = ["$GPGGA", "$GPRMC", "$GPGSA", "$GPGSV", "$GPVTG", "$GPGLL", "!AIVDM", "!AIVDO", "$GPZDA"][choose(9)];
    let n = choose(3) * 14 + choose(14);
    let f: &[u8] = [&b""[..], b"1", b"A", b"2.5", b"111213"][choose(5)];
    let mut v = head.as_bytes().to_vec();
    let mut i = 0;
    while i < n {
        v.push(b',');
        v.extend_from_slice(f);
        i += 1;
    }
    v.push(byte(&ANY));
    fine(&once(text(&v)));
}
/// long sentences of wide characters, whole or cut at any byte by whoever cuts them
pub fn c01_wide_texts() {
    mode(1);
    let head = [
        "$GPGGA,", "$GPRMC,225446,A,", "$GPGSA,A,3,", "$GPGSV,1,1,01,", "$GPVTG,", "$GPGLL,", "!AIVDM,1,1,,A,", "!AIVDM,2,1,", "!AIVDM,1,1,,A,5", "$", "!", "",
    ][choose(12)];
    let u = WIDE[choose(8)].as_bytes();
    let n = [30, 83, 300][choose(3)];
    let mut v = head.as_bytes().to_vec();
    let mut i = choose(4);
    while i > 0 {
        v.push(b'0');
        i -= 1;
    }
    while i < n {
        v.extend_from_slice(u);
        i += u.len();
    }
    if choose(2) == 0 {
        v.push(b',');
    }
    v.push(byte(&ANY));
    fine(&once(text(&v)));
}
/// long sentences
pub fn c01_texts() {
    mode(1);
    set_time(18585 * 86400 + 3600, 0);
    let (head, at) = [
        ("$GPGGA,", 0), ("$GPRMC,225446,A,", 0), ("$GPGSA,A,3,", 0), ("$GPGSV,1,1,01,", 0), ("$GPVTG,054.7,T,", 0), ("$GPGLL,", 1),
        ("!AIVDM,1,1,,A,", 0), ("!AIVDM,2,1,", 1), ("!AIVDM,1,1,,A,5", 1), ("!AIVDM,", 0), ("$", 0), ("!AI", 0), ("", 0),
    ][choose(13)];
    let n = [83, 130, 260, 700][choose(4)];
    let c = [b'0', b'w', b',', b'*', b'.', b' '][choose(6)];
    let mut v = vec![c; n];
    v[if at == 0 { 0 } else { n / 2 }] = byte(&ANY);
    fine(&once(&cat(&[head.as_bytes(), &v, b",0"])));
}
const EXTREME: [&str; 14] = [
    "429496729?", "214748364?", "1844674407370955161?", "922337203685477580?", "6553?", "3276?", "25?", "12?", "-12?", "-214748364?",
    "-922337203685477580?", "42949672?5", "25?.5", "00?",
];
/// numbers around the limits of the integer types in two neighbouring fields
pub fn c01_limits() {
    mode(1);
    set_time(18585 * 86400 + 3600, 0);
    let mut v = EXTREME[choose(14)].as_bytes().to_vec();
    let c = byte(&DIGIT);
    for x in v.iter_mut() {
        if *x == b'?' {
            *x = c;
        }
    }
    let (s, k) = (SENTENCES[choose(10)], choose(18));
    if let Some(t) = replaced(s, k, &v) {
        match replaced(&t, k + 1, &v) {
            Some(w) => {
                let mut p = NmeaParser::new();
                fine(&feed(&mut p, &w));
                fine(&feed(&mut p, &t));
            }
            None => fine(&once(&t)),
        }
    }
}
