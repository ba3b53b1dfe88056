//! C25: payloads that end early or late
use super::c10::{part_a, part_b, Mmsi};
use super::sym::*;
use super::texts::*;
use super::util::*;

/// p[..n] decodes like p[..n] padded with '0' to the full length
fn cut(p: &[u8], n: usize) {
    let mut q = p[..n].to_vec();
    while q.len() < p.len() {
        q.push(b'0');
    }
    let a = parse_vdm(&p[..n]);
    let b = parse_vdm(&q);
    match &b {
        Ok(ParsedSentence::Incomplete) => {}
        Ok(_) => cover("decoded"),
        Err(_) => cover("error"),
    }
    check(a == b, "a short payload decodes like its zero-padded form");
}
/// what follows the layout of a message does not matter
fn tail(p: &[u8], k: usize) {
    let mut q = p.to_vec();
    let mut e = [0u8; 32];
    fill(&mut e[..k], &ARMOUR);
    q.extend_from_slice(&e[..k]);
    let a = parse_vdm(p);
    match &a {
        Ok(ParsedSentence::Incomplete) => {}
        Ok(_) => cover("decoded"),
        Err(_) => {}
    }
    check(a == parse_vdm(&q), "bits beyond the layout do not matter");
}
pub fn c25_position() {
    let t = 1 + choose(3) as u8;
    cut(&payload::<28>(t), 1 + choose(28))
}
pub fn c25_classb() {
    cut(&payload::<28>(18), 1 + choose(28))
}
pub fn c25_sar() {
    cut(&payload::<28>(9), 1 + choose(28))
}
pub fn c25_long() {
    cut(&payload::<16>(27), 1 + choose(16))
}
pub fn c25_inquiry() {
    cut(&payload::<12>(10), 1 + choose(12))
}
pub fn c25_binary() {
    cut(&payload::<20>(6), 1 + choose(20))
}
pub fn base() -> Vec<u8> {
    let mut k = Pack::new();
    k.put(4, 6);
    k.any(32);
    let mut i = 0;
    // year 2020 to 2023, other date and time fields as variables
    k.bits(2020u64.to_be_bytes()[6] << 2 | 2020u64.to_be_bytes()[7] >> 6, 8);
    while i < 1 {
        k.put((2020 >> 2 & 15) as u8, 4);
        k.any(2);
        i += 1;
    }
    for w in [4, 5, 5, 6, 6] {
        k.num(w);
    }
    k.any(90);
    k.out
}
pub fn c25_base() {
    cut(&base(), 1 + choose(28))
}
/// type 5 with fixed texts and ETA
pub fn voyage(name: &[u8; 20]) -> Vec<u8> {
    set_time(18585 * 86400 + 3600, 0);
    let mut k = Pack::new();
    k.put(5, 6);
    k.any(64);
    k.text(&[3, 1, 12, 12, 32, 49, 0]);
    k.text(name);
    k.any(8 + 30 + 4);
    k.bits(5 << 4 | 17 >> 1, 8);
    k.bits(((17 & 1) << 5 | 13) as u8, 6);
    k.bits(33, 6);
    k.any(8);
    k.text(&[4, 5, 19, 20, 32, 32, 4, 5, 19, 20, 32, 32, 4, 5, 19, 20, 32, 32, 49, 50]);
    k.any(2);
    k.end();
    k.out
}
pub fn c25_voyage() {
    let p = voyage(&[14, 1, 13, 5, 32, 49, 50, 32, 32, 7, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9]);
    let n = 1 + choose(3) * 24 + choose(24);
    if n <= p.len() {
        cut(&p, n);
    }
}
/// the name is cut, with any characters at its beginning and beside the cut
pub fn c25_name() {
    let j = choose(22);
    let mut n = AID;
    fill(&mut n[..2], &SIX);
    let from = if j < 6 { 2 } else { j - 4 };
    fill(&mut n[from..(from + 6).min(20)], &SIX);
    let p = voyage(&n);
    cut(&p, 18 + j);
}
pub fn aid(name: &[u8; 20], ext: &[u8; 14]) -> Vec<u8> {
    let mut k = Pack::new();
    k.put(21, 6);
    k.any(37);
    k.text(name);
    k.any(272 - 163);
    k.text(ext);
    k.end();
    k.out
}
pub const AID: [u8; 20] = [14, 1, 13, 5, 32, 49, 50, 32, 32, 7, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9];
pub const EXT: [u8; 14] = [14, 1, 13, 5, 32, 49, 50, 32, 32, 7, 9, 9, 9, 9];
pub fn c25_aid() {
    let p = aid(&AID, &EXT);
    cut(&p, 1 + choose(2) * 30 + choose(30));
}
pub fn c25_ext() {
    let j = choose(16);
    let mut x = EXT;
    fill(&mut x[..2], &SIX);
    let from = if j < 6 { 2 } else { j - 4 };
    fill(&mut x[from..(from + 6).min(14)], &SIX);
    let p = aid(&AID, &x);
    cut(&p, 45 + j);
}
/// a cut part of a type 24 pair, numeric bits symbolic
fn pair(which: usize, order: usize, n: usize) {
    let m = Mmsi::any();
    let a = part_a(&m, &AID, true);
    let b = part_b(&m, &[22, 5, 14], &[3, 1, 12, 12, 49, 50, 51], true).0;
    let mut a2 = a.to_vec();
    let mut b2 = b.to_vec();
    let (x, full) = if which == 0 { (&mut a2, a.len()) } else { (&mut b2, b.len()) };
    x.truncate(n);
    let mut z = x.to_vec();
    while z.len() < full {
        z.push(b'0');
    }
    let (a1, b1) = if which == 0 { (&z, &b) } else { (&a, &z) };
    let (mut p, mut q) = (NmeaParser::new(), NmeaParser::new());
    let s = if order == 0 { [(&a2, a1), (&b2, b1)] } else { [(&b2, b1), (&a2, a1)] };
    for (x, y) in s {
        let r = feed(&mut p, &vdm(x));
        if let Ok(ParsedSentence::VesselStaticData(_)) = r {
            cover("pair");
        }
        check(r == feed(&mut q, &vdm(y)), "a short part counts like its zero-padded form");
    }
}
pub fn c25_parta() {
    pair(0, choose(2), 1 + choose(28))
}
pub fn c25_partb() {
    pair(1, choose(2), 1 + choose(28))
}
pub fn c25_tail() {
    match choose(8) {
        0 => tail(&payload::<28>(1 + choose(3) as u8), 16),
        1 => tail(&payload::<28>(18), 16),
        2 => tail(&payload::<28>(9), 16),
        3 => tail(&payload::<16>(27), 16),
        4 => tail(&payload::<12>(10), 16),
        5 => tail(&payload::<15>(6), 16),
        6 => tail(&voyage(&AID), 16),
        _ => tail(&base(), 16),
    }
}
/// message id, channel and fill bits of a complete message do not matter
pub fn c25_header() {
    let t = [1u8, 4, 6, 9, 10, 18, 27][choose(7)];
    let p = payload::<28>(t);
    if t == 4 {
        // a fixed date
        assume(u(&p, 38, 14) == 2020);
        assume((u(&p, 52, 4) == 2) & (u(&p, 56, 5) == 29) & (u(&p, 61, 5) < 24));
    }
    let (a, b, c) = (super::nmea::field(choose(3)), super::nmea::field(choose(3)), super::nmea::field(choose(3)));
    let r = once(&cat(&[b"!AIVDM,1,1,", &a, b",", &b, b",", &p, b",", &c]));
    if let Ok(_) = r {
        cover("decoded");
    }
    check(r == parse_vdm(&p), "only the payload matters");
}
