//! C02: checksums
use super::nmea::*;
use super::sym::*;
use super::util::*;

static BODY: Dom = Dom::none().range(0, 127).without(b"*");

/// two upper-case hexadecimal digits of the XOR of all characters but the first
fn sum(body: &[u8]) -> [u8; 2] {
    let mut x = 0u8;
    for c in &body[1..] {
        x ^= *c;
    }
    let hex = |v: u8| v + 48 + 7 * ((v > 9) as u8);
    [hex(x >> 4), hex(x & 15)]
}
/// the sentence with a symbolic two-character checksum
fn gate(body: &str) {
    let mut given = [0u8; 2];
    fill(&mut given, &BODY);
    let want = sum(body.as_bytes());
    let s = cat(&[body.as_bytes(), b"*", &given]);
    if choose(2) == 0 {
        assume((given[0] == want[0]) & (given[1] == want[1]));
        cover("right");
        check(once(&s) == once(body), "a right checksum changes nothing");
    } else {
        assume((given[0] != want[0]) | (given[1] != want[1]));
        let r = once(&s);
        cover("wrong");
        check(matches!(r, Err(ParseError::CorruptedSentence(_))), "a wrong checksum is rejected");
    }
}
/// any talker and type
pub fn c02_header() {
    let (a, t) = (bytes::<2>(&BODY), bytes::<3>(&BODY));
    let a = if choose(2) == 0 { &a } else { b"GP" };
    let t = if a == b"GP" { &t } else { b"HDT" };
    gate(&cat(&[b"$", a, t, b",,"]));
}
pub fn c02_vdm() {
    gate(&vdm(&payload::<28>(1)));
}
pub fn c02_fragment() {
    let p = payload::<16>(1);
    let n = digits(1);
    gate(&cat(&[b"!AIVDM,2,", if choose(2) == 0 { b"1" } else { b"2" }, b",", &n, b",A,", &p, b",0"]));
}
pub fn c02_rmc() {
    let (t, la, lo) = (digits(4), digits(6), digits(7));
    let (a, _) = dec(false, 3, 1);
    gate(&cat(&[b"$GPRMC,20", &t, b",A,", &la[..4], b".", &la[4..], b",N,", &lo[..5], b".", &lo[5..], b",W,", &a, b",,191120,,"]));
}
pub fn c02_gsv() {
    let (a, _) = int(2);
    let (b, _) = int(3);
    gate(&cat(&[b"$GPGSV,1,1,01,", &a, b",", &b, b",111,00"]));
}
pub fn c02_vtg() {
    let (x, _) = dec(false, 2, 1);
    gate(&cat(&[b"$GPVTG,", &x, b",T, ,M,005.5,N,010.2,K"]));
}
/// checksum texts of other lengths; no text after the '*'; no '*'
pub fn c02_length() {
    let p = payload::<8>(10);
    let s = vdm(&p);
    let n = [0usize, 1, 3, 4][choose(4)];
    let mut g = [0u8; 4];
    fill(&mut g[..n], &BODY);
    let r = once(&cat(&[s.as_bytes(), b"*", &g[..n]]));
    if n == 0 {
        cover("none");
        check(r == once(&s), "an empty checksum changes nothing");
    } else {
        cover("wrong");
        check(matches!(r, Err(ParseError::CorruptedSentence(_))), "a wrong checksum is rejected");
    }
}
/// several '*': the last one counts, the others are characters like any other
pub fn c02_stars() {
    let mut b = *b"$GPGLL,4916.45,N,12311.12,W,225444,A";
    let i = 1 + choose(31);
    b[i] = b'*';
    let mut given = [0u8; 2];
    fill(&mut given, &BODY);
    let r = once(&cat(&[&b, b"*", &given]));
    if given == sum(&b) {
        cover("right");
        check(!matches!(r, Err(ParseError::CorruptedSentence(_))), "a right checksum is accepted");
    } else {
        cover("wrong");
        check(matches!(r, Err(ParseError::CorruptedSentence(_))), "a wrong checksum is rejected");
    }
}
/// a corrupted sentence leaves what is pending as it was
pub fn c02_pending() {
    let k = choose(3);
    let (first, second) = [
        ("!AIVDM,2,1,5,A,539LAv400000@7S7G>0<N0,0", "!AIVDM,2,2,5,A,M2<D@000000000000000,0"),
        ("$GPGSV,2,1,08,03,03,111,00,04,15,270,00,06,01,010,00,13,06,292,00", "$GPGSV,2,2,08,14,25,170,00,16,57,208,39,18,67,296,40,19,40,246,00"),
        ("!AIVDM,1,1,,A,H42O55i18tMET00000000000000,0", "!AIVDM,1,1,,A,H42O55lt0000000D3nink000?0500,0"),
    ][k];
    set_time(18585 * 86400 + 3600, 0);
    let mut q = NmeaParser::new();
    let _ = feed(&mut q, first);
    let want = feed(&mut q, second);
    let mut p = NmeaParser::new();
    check(feed(&mut p, first) == Ok(ParsedSentence::Incomplete), "first part");
    // a corrupted sentence: the second part, the first part, another one
    let bad = [second, first, "$GPGSV,2,1,08,99,,,,", "!AIVDM,2,1,5,A,5000,0"][choose(4)];
    let mut given = [0u8; 2];
    fill(&mut given, &BODY);
    assume(given != sum(bad.as_bytes()));
    let r = feed(&mut p, &cat(&[bad.as_bytes(), b"*", &given]));
    check(matches!(r, Err(ParseError::CorruptedSentence(_))), "a wrong checksum is rejected");
    let r = feed(&mut p, second);
    if let Ok(ParsedSentence::Incomplete) = r {
    } else {
        cover("complete");
    }
    check(r == want, "the pending part is unharmed");
    check(feed(&mut p, second) == feed(&mut q, second), "nothing more is pending than without it");
}
/// long sentences, a character anywhere
pub fn c02_long() {
    let n = [80usize, 83, 128, 255, 257, 400][choose(6)];
    let mut b = vec![b'7'; n];
    b[..14].copy_from_slice(b"!AIVDM,1,1,,A,");
    b[14] = b'8';
    b[n - 2..].copy_from_slice(b",0");
    let at = [15, 16, n / 3, n / 2, n - 3, 79, 81, 82][choose(8)];
    if at < n - 2 {
        b[at] = byte(&ARMOUR);
    }
    set_time(18585 * 86400 + 3600, 0);
    let b = text(&b);
    let want = sum(b.as_bytes());
    let mut given = [0u8; 2];
    fill(&mut given, &BODY);
    let r = once(&cat(&[b.as_bytes(), b"*", &given]));
    if given == want {
        cover("right");
        check(!matches!(r, Err(ParseError::CorruptedSentence(_))), "a right checksum is accepted");
    } else {
        cover("wrong");
        check(matches!(r, Err(ParseError::CorruptedSentence(_))), "a wrong checksum is rejected");
    }
}
