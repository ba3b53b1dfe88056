//! C19: GLL and VTG
use super::nmea::*;
use super::sym::*;
use super::util::*;

fn faa_ok(x: Option<FaaMode>, t: &[u8]) -> bool {
    let c = if t.len() == 1 { t[0] } else { 0 };
    match x {
        Some(FaaMode::Autonomous) => c == b'A',
        Some(FaaMode::Differential) => c == b'D',
        Some(FaaMode::Estimated) => c == b'E',
        Some(FaaMode::NotValid) => c == b'N',
        Some(FaaMode::Simulator) => c == b'S',
        None => !((c == b'A') | (c == b'D') | (c == b'E') | (c == b'N') | (c == b'S')),
    }
}
fn validity_ok(x: Option<bool>, t: &[u8]) -> bool {
    let c = if t.len() == 1 { t[0] } else { 0 };
    match x {
        Some(true) => c == b'A',
        Some(false) => c == b'V',
        None => (c != b'A') & (c != b'V'),
    }
}
/// GLL with symbolic digits and letters
pub fn c19_gll() {
    let (y, m, d) = today();
    let t = digits(6);
    let la = digits(8);
    let lo = digits(9);
    let (nf, ns, ew) = (2 + choose(2), byte(&NS), byte(&EW));
    let lat = cat(&[&la[..4], b".", &la[4..4 + nf]]);
    let lon = cat(&[&lo[..5], b".", &lo[5..5 + nf]]);
    let time = cat(&[&t, if nf == 2 { b".00" } else { b"" }]);
    let (st, fm) = (field(1), field(1));
    match once(&join(&[b"$GPGLL", lat.as_bytes(), &[ns], lon.as_bytes(), &[ew], time.as_bytes(), &st, &fm])) {
        Ok(ParsedSentence::Gll(g)) => {
            cover("gll");
            check(g.source == NavigationSystem::Gps, "source");
            let want = match time_of_day(&t) {
                Some((h, mi, s)) => utc(y, m, d, h, mi, s),
                None => None,
            };
            check(same_utc(&g.timestamp, &want), "timestamp");
            let v = degrees(&la[..2], &la[2..4], &la[4..4 + nf]);
            let w = degrees(&lo[..3], &lo[3..5], &lo[5..5 + nf]);
            check(optf(g.latitude, true, if ns == b'S' { -v } else { v }, 1e-9), "latitude");
            check(optf(g.longitude, true, if ew == b'W' { -w } else { w }, 1e-9), "longitude");
            check(validity_ok(g.data_valid, &st), "data_valid");
            check(faa_ok(g.faa_mode, &fm), "faa_mode");
        }
        _ => check(false, "kind"),
    }
}
/// any texts as time, validity and mode; missing fields
pub fn c19_gll_any() {
    let k = choose(20);
    let n = if k < 7 { k + 2 } else { 8 };
    let t = field(if k < 7 { 6 } else { [0, 1, 2, 4, 5, 7, 9, 6, 6, 6, 6, 6, 6][k - 7] });
    let st = field(if k < 14 { 1 } else { k % 3 });
    let fm = field(if k < 14 { 1 } else { (k - 14) / 2 % 3 });
    let f: [&[u8]; 8] = [b"$GPGLL", b"4916.45", b"N", b"12311.12", b"E", &t, &st, &fm];
    set_time(18585 * 86400 + 3600, 0);
    match once(&join(&f[..n])) {
        Ok(ParsedSentence::Gll(g)) => {
            cover("gll");
            let want = match time_of_day(&t) {
                Some((h, mi, s)) if n > 5 => utc(2020, 11, 19, h, mi, s),
                _ => None,
            };
            check(same_utc(&g.timestamp, &want), "timestamp");
            check(optf(g.latitude, true, 49.0 + 16.45 / 60.0, 1e-9), "latitude");
            check(optf(g.longitude, n > 3, 123.0 + 11.12 / 60.0, 1e-9), "longitude");
            check(validity_ok(g.data_valid, if n > 6 { &st } else { b"" }), "data_valid");
            check(faa_ok(g.faa_mode, if n > 7 { &fm } else { b"" }), "faa_mode");
        }
        _ => check(false, "kind"),
    }
}
/// VTG with symbolic digits
pub fn c19_vtg() {
    let (a, va) = dec(false, 3, 1);
    let (b, vb) = dec(false, 3, 2);
    let (c, vc) = dec(false, 2, 2);
    let (d, vd) = dec(choose(2) == 1, 3, 0);
    let fm = field(1);
    match once(&join(&[b"$GPVTG", &a, b"T", &b, b"M", &c, b"N", &d, b"K", &fm])) {
        Ok(ParsedSentence::Vtg(g)) => {
            cover("vtg");
            check(g.source == NavigationSystem::Gps, "source");
            check(optf(g.cog_true, true, va, 1e-9), "cog_true");
            check(optf(g.cog_magnetic, true, vb, 1e-9), "cog_magnetic");
            check(optf(g.sog_knots, true, vc, 1e-9), "sog_knots");
            check(optf(g.sog_kph, true, vd, 1e-9), "sog_kph");
            check(faa_ok(g.faa_mode, &fm), "faa_mode");
        }
        _ => check(false, "kind"),
    }
}
/// one VTG number any text, the others symbolic; missing fields
fn vtg_any(n: usize) {
    let at = choose(4);
    let t = field(n);
    let (o, vo) = dec(false, 2, 1);
    let cut = choose(9) + 2;
    let mut f: [&[u8]; 10] = [b"$GPVTG", &o, b"T", &o, b"M", &o, b"N", &o, b"K", b"D"];
    f[1 + 2 * at] = &t;
    let k = f64_kind(&t);
    match once(&join(&f[..cut])) {
        Ok(ParsedSentence::Vtg(g)) => {
            cover("vtg");
            let all = [g.cog_true, g.cog_magnetic, g.sog_knots, g.sog_kph];
            let mut i = 0;
            while i < 4 {
                let there = cut > 1 + 2 * i;
                let x = all[i];
                if i == at && there && n > 0 {
                    if k == Kind::Number {
                        check(optf(x, true, f64_value(&t), 1e-9), "value");
                    }
                    if k == Kind::Not {
                        check(x.is_none(), "a malformed number gives None");
                    }
                } else {
                    check(optf(x, there & (i != at), vo, 1e-9), "other fields");
                }
                i += 1;
            }
            check(faa_ok(g.faa_mode, if cut > 9 { b"D" } else { b"" }), "faa_mode");
        }
        _ => check(false, "kind"),
    }
}
pub fn c19_vtg_any() {
    vtg_any(choose(3))
}
pub fn c19_vtg_any3() {
    vtg_any(3)
}
pub fn c19_vtg_faa() {
    let fm = field(choose(4));
    match once(&join(&[b"$GPVTG", b"", b"T", b"", b"M", b"", b"N", b"", b"K", &fm])) {
        Ok(ParsedSentence::Vtg(g)) => {
            cover("vtg");
            check(faa_ok(g.faa_mode, &fm), "faa_mode");
            check(g.cog_true.is_none() & g.cog_magnetic.is_none() & g.sog_knots.is_none() & g.sog_kph.is_none(), "empty fields give None");
        }
        _ => check(false, "kind"),
    }
}
/// longer numbers
pub fn c19_vtg_wide() {
    let (a, b) = [(5, 0), (6, 3), (1, 8), (7, 1), (2, 5)][choose(5)];
    let (t, v) = dec(choose(2) == 1, a, b);
    let k = choose(4);
    let mut f: [&[u8]; 9] = [b"$GPVTG", b"", b"T", b"", b"M", b"", b"N", b"", b"K"];
    f[1 + 2 * k] = &t;
    match once(&join(&f)) {
        Ok(ParsedSentence::Vtg(g)) => {
            cover("vtg");
            check(optf(g.cog_true, k == 0, v, 1e-8), "cog_true");
            check(optf(g.cog_magnetic, k == 1, v, 1e-8), "cog_magnetic");
            check(optf(g.sog_knots, k == 2, v, 1e-8), "sog_knots");
            check(optf(g.sog_kph, k == 3, v, 1e-8), "sog_kph");
        }
        _ => check(false, "kind"),
    }
}
