//! C20: GSA
use super::nmea::*;
use super::sym::*;
use super::util::*;

static MA: Dom = Dom::none().with(b"MA");
static FIX: Dom = Dom::none().with(b"123");
static HUNDREDS: Dom = Dom::none().with(b"01");

fn fix_ok(x: Option<GsaFixMode>, c: u8) -> bool {
    match x {
        Some(GsaFixMode::NotAvailable) => c == b'1',
        Some(GsaFixMode::Fix2D) => c == b'2',
        Some(GsaFixMode::Fix3D) => c == b'3',
        None => c == 0,
    }
}
/// well-formed sentences; `present`: which satellites are there
fn gsa(present: &[bool; 12], modes: bool, dops: &[bool; 3]) {
    let (m, x) = (byte(&MA), byte(&FIX));
    let mut nums = [0u8; 12];
    let mut texts = Vec::with_capacity(12);
    for i in 0..12 {
        let mut t = Vec::new();
        if present[i] {
            if i == 0 {
                t.push(byte(&HUNDREDS));
            }
            t.push(byte(&DIGIT));
            t.push(byte(&DIGIT));
            nums[i] = num(&t) as u8;
        }
        texts.push(t);
    }
    let (p, vp) = dec(false, 2, 1);
    let (h, vh) = dec(false, 1, 2);
    let (v, vv) = dec(false, 1, 1);
    let (mt, xt) = ([m], [x]);
    let mut f: Vec<&[u8]> = Vec::with_capacity(18);
    f.push(b"$GPGSA");
    f.push(if modes { &mt } else { b"" });
    f.push(if modes { &xt } else { b"" });
    for t in &texts {
        f.push(t);
    }
    f.push(if dops[0] { &p } else { b"" });
    f.push(if dops[1] { &h } else { b"" });
    f.push(if dops[2] { &v } else { b"" });
    match once(&join(&f)) {
        Ok(ParsedSentence::Gsa(g)) => {
            cover("gsa");
            check(g.source == NavigationSystem::Gps, "source");
            check(opt(g.mode1_automatic, modes, m == b'A'), "mode1_automatic");
            check(fix_ok(g.mode2_3d, if modes { x } else { 0 }), "mode2_3d");
            let mut k = 0;
            let mut ok = true;
            for i in 0..12 {
                if present[i] {
                    ok &= k < g.prn_numbers.len() && g.prn_numbers[k] == nums[i];
                    k += 1;
                }
            }
            check(ok & (k == g.prn_numbers.len()), "prn_numbers");
            check(optf(g.pdop, dops[0], vp, 1e-9), "pdop");
            check(optf(g.hdop, dops[1], vh, 1e-9), "hdop");
            check(optf(g.vdop, dops[2], vv, 1e-9), "vdop");
        }
        _ => check(false, "kind"),
    }
}
pub fn c20_fields() {
    gsa(&[true; 12], true, &[true; 3])
}
/// gaps in the satellite list: one there, one missing, or only the first n
pub fn c20_gaps() {
    let i = choose(12);
    let mut p = [false; 12];
    match choose(3) {
        0 => p[i] = true,
        1 => {
            p = [true; 12];
            p[i] = false
        }
        _ => {
            for j in 0..i {
                p[j] = true
            }
        }
    }
    gsa(&p, true, &[true; 3])
}
pub fn c20_empty() {
    let d = [choose(2) == 1, choose(2) == 1, choose(2) == 1];
    gsa(&[false; 12], choose(2) == 1, &d)
}
const FULL: [&[u8]; 18] = [
    b"$GPGSA", b"A", b"3", b"19", b"28", b"14", b"18", b"27", b"22", b"31", b"39", b"", b"", b"", b"", b"1.7", b"1.0", b"1.3",
];
/// one field holds any text of n ASCII characters
fn any(n: usize) {
    let mut f = FULL;
    let i = choose(18 - 3) + 3;
    let t = field(n);
    f[i] = &t;
    let k = if i < 15 { int_kind(&t, 255) } else { f64_kind(&t) };
    match once(&join(&f)) {
        Ok(ParsedSentence::Gsa(g)) => {
            cover("number");
            check(k != Kind::Not, "a field that is no number is an error");
            if k == Kind::Number {
                let v = f64_value(&t);
                let w = num_or_zero(&t);
                let ok = match i {
                    15 => optf(g.pdop, true, v, 1e-9),
                    16 => optf(g.hdop, true, v, 1e-9),
                    17 => optf(g.vdop, true, v, 1e-9),
                    _ => {
                        let at = if i < 11 { i - 3 } else { 8 };
                        g.prn_numbers.len() == (if i < 11 { 8 } else { 9 }) && g.prn_numbers[at] as u64 == w
                    }
                };
                check(ok, "value");
            }
        }
        Err(_) => {
            cover("no number");
            check(k != Kind::Number, "a number is accepted");
        }
        _ => check(false, "kind"),
    }
}
pub fn c20_any() {
    any(choose(2) + 1)
}
pub fn c20_any3() {
    any(3)
}
/// any text as the modes
pub fn c20_modes() {
    let (n, m) = (choose(4), choose(4));
    let (a, b) = (field(n), field(m));
    let mut f = FULL;
    f[1] = &a;
    f[2] = &b;
    let x = if m == 1 { b[0] } else { 0 };
    let good = ((n == 0) || (n == 1) & ((a[0] == b'A') | (a[0] == b'M'))) & ((m == 0) | (x == b'1') | (x == b'2') | (x == b'3'));
    match once(&join(&f)) {
        Ok(ParsedSentence::Gsa(g)) => {
            cover("accepted");
            check(good, "an unknown mode is an error");
            check(opt(g.mode1_automatic, n > 0, n > 0 && a[0] == b'A'), "mode1_automatic");
            check(fix_ok(g.mode2_3d, x), "mode2_3d");
        }
        Err(_) => {
            cover("rejected");
            check(!good, "known modes are accepted");
        }
        _ => check(false, "kind"),
    }
}
/// only the first n fields are there
pub fn c20_cut() {
    let n = choose(17) + 2;
    match once(&join(&FULL[..n])) {
        Ok(ParsedSentence::Gsa(g)) => {
            cover("gsa");
            check(opt(g.mode1_automatic, n > 1, true), "mode1_automatic");
            check(fix_ok(g.mode2_3d, if n > 2 { b'3' } else { 0 }), "mode2_3d");
            check(g.prn_numbers.len() == if n < 3 { 0 } else if n < 11 { n - 3 } else { 8 }, "prn_numbers");
            check(optf(g.pdop, n > 15, 1.7, 1e-9), "pdop");
            check(optf(g.hdop, n > 16, 1.0, 1e-9), "hdop");
            check(optf(g.vdop, n > 17, 1.3, 1e-9), "vdop");
        }
        _ => check(false, "kind"),
    }
}
/// longer numbers
pub fn c20_wide() {
    let (a, b) = [(5, 0), (6, 3), (1, 8), (7, 1), (2, 5)][choose(5)];
    let (t, v) = dec(false, a, b);
    let k = choose(3);
    let mut f: [&[u8]; 18] = [b""; 18];
    f[0] = b"$GPGSA";
    f[1] = b"A";
    f[2] = b"3";
    f[15 + k] = &t;
    match once(&join(&f)) {
        Ok(ParsedSentence::Gsa(g)) => {
            cover("gsa");
            check(optf(g.pdop, k == 0, v, 1e-8), "pdop");
            check(optf(g.hdop, k == 1, v, 1e-8), "hdop");
            check(optf(g.vdop, k == 2, v, 1e-8), "vdop");
        }
        _ => check(false, "kind"),
    }
}
