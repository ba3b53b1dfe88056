//! C21: latitude and longitude text
use super::nmea::*;
use super::sym::*;
use super::util::*;

/// the sentence of kind k (GGA, RMC, GLL) with the given coordinates
fn sentence(k: usize, la: &[u8], ns: &[u8], lo: &[u8], ew: &[u8]) -> String {
    let c: [&[u8]; 7] = [la, b",", ns, b",", lo, b",", ew];
    let c = cat(&c);
    let c = c.as_bytes();
    match k {
        0 => cat(&[b"$GPGGA,,", c, b",1,08,0.9,545.4,M,46.9,M,,"]),
        1 => cat(&[b"$GPRMC,,A,", c, b",000.5,054.7,,,"]),
        _ => cat(&[b"$GPGLL,", c, b",,A"]),
    }
}
fn position(r: &Parsed, k: usize) -> Option<(Option<f64>, Option<f64>)> {
    match r {
        Ok(ParsedSentence::Gga(d)) if k == 0 => Some((d.latitude, d.longitude)),
        Ok(ParsedSentence::Rmc(d)) if k == 1 => Some((d.latitude, d.longitude)),
        Ok(ParsedSentence::Gll(d)) if k == 2 => Some((d.latitude, d.longitude)),
        _ => None,
    }
}
/// every latitude and longitude with 1 to 8 decimals and every one-character hemisphere
fn good(k: usize) {
    let nf = choose(8) + 1;
    let la: [u8; 4] = bytes(&DIGIT);
    let lo: [u8; 5] = bytes(&DIGIT);
    let mut f = [0u8; 8];
    let mut g = [0u8; 8];
    fill(&mut f[..nf], &DIGIT);
    fill(&mut g[..nf], &DIGIT);
    let ns = byte(&FIELD);
    let ew = byte(&FIELD);
    let s = sentence(k, cat(&[&la, b".", &f[..nf]]).as_bytes(), &[ns], cat(&[&lo, b".", &g[..nf]]).as_bytes(), &[ew]);
    match position(&once(&s), k) {
        Some((a, o)) => {
            cover("position");
            let v = degrees(&la[..2], &la[2..], &f[..nf]);
            let w = degrees(&lo[..3], &lo[3..], &g[..nf]);
            check(optf(a, true, if ns == b'S' { -v } else { v }, 1e-9), "latitude");
            check(optf(o, true, if ew == b'W' { -w } else { w }, 1e-9), "longitude");
        }
        _ => check(false, "kind"),
    }
}
pub fn c21_gga() {
    good(0)
}
pub fn c21_rmc() {
    good(1)
}
pub fn c21_gll() {
    good(2)
}
/// nothing, one or two characters as hemisphere
pub fn c21_hemisphere() {
    let k = choose(3);
    let n = choose(3);
    let h: [u8; 2] = bytes(&FIELD);
    let g: [u8; 2] = bytes(&FIELD);
    match position(&once(&sentence(k, b"1234.5", &h[..n], b"01234.5", &g[..n])), k) {
        Some((a, o)) => {
            cover("position");
            let v = 12.0 + 34.5 / 60.0;
            check(optf(a, true, if (n == 1) & (h[0] == b'S') { -v } else { v }, 1e-9), "latitude");
            check(optf(o, true, if (n == 1) & (g[0] == b'W') { -v } else { v }, 1e-9), "longitude");
        }
        // longer than one character: not a hemisphere
        _ => check(n == 2, "kind"),
    }
}
/// digits digits '.' and at least one digit
fn shape(b: &[u8], digits: usize) -> bool {
    let mut ok = b.len() > digits + 1;
    for (i, c) in b.iter().enumerate() {
        ok &= if i == digits { *c == b'.' } else { is_digit(*c) };
    }
    ok
}
/// an arbitrary text of n ASCII characters instead of the latitude or the longitude
fn any(n: usize, k: usize) {
    let lon = choose(2) == 1;
    let mut b = [0u8; 16];
    fill(&mut b[..n], &FIELD);
    let b = &b[..n];
    let s = if lon { sentence(k, b"1234.5", b"N", b, b"E") } else { sentence(k, b, b"N", b"01234.5", b"E") };
    let good = shape(b, if lon { 5 } else { 4 });
    match position(&once(&s), k) {
        Some((a, o)) => {
            let (x, other) = if lon { (o, a) } else { (a, o) };
            check(other.is_some(), "the other coordinate");
            if n == 0 {
                cover("empty");
                check(x.is_none(), "an empty coordinate is None");
            } else {
                cover("accepted");
                check(good, "any other shape is an error");
                check(x.is_some(), "a coordinate is given");
            }
        }
        None => {
            cover("rejected");
            check((n > 0) & !good, "a coordinate of the right shape is accepted");
        }
    }
}
pub fn c21_any() {
    let n = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10][choose(10)];
    any(n, 2)
}
pub fn c21_any_gga() {
    let n = [0, 6, 7, 9][choose(4)];
    any(n, 0)
}
pub fn c21_any_rmc() {
    let n = [0, 6, 7, 9][choose(4)];
    any(n, 1)
}
/// a coordinate with one non-ASCII character in place of one of its own
pub fn c21_utf8() {
    mode(1);
    let lon = choose(2) == 1;
    let k = choose(3);
    let n = if lon { 8 } else { 7 };
    let b: &[u8; 8] = if lon { b"01234.56" } else { b"1234.567" };
    let at = choose(n);
    let c = utf8(choose(3));
    let t = cat(&[&b[..at], &c, &b[at + 1..n]]);
    let t = t.as_bytes();
    let s = if lon { sentence(k, b"1234.5", b"N", t, b"E") } else { sentence(k, t, b"N", b"01234.5", b"E") };
    let r = once(&s);
    cover("utf8");
    check(r.is_err(), "a non-ASCII character is an error");
}
