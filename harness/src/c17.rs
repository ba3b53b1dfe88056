//! C17: GGA
use super::nmea::*;
use super::sym::*;
use super::util::*;

pub fn quality_ok(q: GgaQualityIndicator, v: u64) -> bool {
    match v {
        0 => q == GgaQualityIndicator::Invalid,
        1 => q == GgaQualityIndicator::GpsFix,
        2 => q == GgaQualityIndicator::DGpsFix,
        3 => q == GgaQualityIndicator::PpsFix,
        4 => q == GgaQualityIndicator::RealTimeKinematic,
        5 => q == GgaQualityIndicator::RealTimeKinematicFloat,
        6 => q == GgaQualityIndicator::DeadReckoning,
        7 => q == GgaQualityIndicator::ManualInputMode,
        8 => q == GgaQualityIndicator::SimulationMode,
        _ => true,
    }
}
/// all fields well-formed, all digits symbolic
pub fn c17_fields() {
    let (y, m, d) = today();
    let t = digits(6);
    let la = digits(8);
    let lo = digits(9);
    let (nf, ns, ew) = (2 + choose(2), byte(&NS), byte(&EW));
    let (qt, q) = int(1);
    let (st, sats) = int(2);
    let (ht, hdop) = dec(false, 1, 1);
    let neg = choose(2) == 1;
    let (at, alt) = dec(neg, 3, 1);
    let (gt, geoid) = dec(!neg, 2, 2);
    let (dt, age) = dec(false, 2, 0);
    let (it, id) = int(4);
    let lat = cat(&[&la[..4], b".", &la[4..4 + nf]]);
    let lon = cat(&[&lo[..5], b".", &lo[5..5 + nf]]);
    let time = cat(&[&t, if nf == 2 { b".00" } else { b"" }]);
    let s = join(&[
        b"$GPGGA", time.as_bytes(), lat.as_bytes(), &[ns], lon.as_bytes(), &[ew], &qt, &st, &ht, &at, b"M", &gt, b"M", &dt, &it,
    ]);
    match once(&s) {
        Ok(ParsedSentence::Gga(g)) => {
            cover("gga");
            check(g.source == NavigationSystem::Gps, "source");
            let want = match time_of_day(&t) {
                Some((h, mi, s)) => utc(y, m, d, h, mi, s),
                None => None,
            };
            check(same_utc(&g.timestamp, &want), "timestamp");
            if g.timestamp.is_some() {
                cover("timestamp");
            }
            let v = degrees(&la[..2], &la[2..4], &la[4..4 + nf]);
            let w = degrees(&lo[..3], &lo[3..5], &lo[5..5 + nf]);
            check(optf(g.latitude, true, if ns == b'S' { -v } else { v }, 1e-9), "latitude");
            check(optf(g.longitude, true, if ew == b'W' { -w } else { w }, 1e-9), "longitude");
            check(quality_ok(g.quality, q), "quality");
            check(opt(g.satellite_count, true, sats as u8), "satellite_count");
            check(optf(g.hdop, true, hdop, 1e-9), "hdop");
            check(optf(g.altitude, true, alt, 1e-9), "altitude");
            check(optf(g.geoid_separation, true, geoid, 1e-9), "geoid_separation");
            check(optf(g.age_of_dgps, true, age, 1e-9), "age_of_dgps");
            check(opt(g.ref_station_id, true, id as u16), "ref_station_id");
        }
        _ => check(false, "kind"),
    }
}
/// one field empty, or all fields empty but one
pub fn c17_empty() {
    let at = [1usize, 2, 4, 6, 7, 8, 9, 11, 13, 14][choose(10)];
    let lone = choose(2) == 1;
    let mut on = [lone; 15];
    on[at] = !lone;
    gga(15, &on)
}
/// only the first n fields are there
pub fn c17_cut() {
    let n = choose(14) + 2;
    let mut on = [true; 15];
    for i in n..15 {
        on[i] = false;
    }
    gga(n, &on)
}
fn gga(n: usize, on: &[bool; 15]) {
    set_time(18585 * 86400 + 3600, 0);
    let (h, la, lo) = (digits(4), digits(4), digits(5));
    let (qt, q) = int(1);
    let (st, sats) = int(2);
    let (ht, hdop) = dec(false, 1, 1);
    let (at, alt) = dec(true, 2, 1);
    let (gt, geoid) = dec(false, 2, 1);
    let (dt, age) = dec(false, 1, 1);
    let (it, id) = int(4);
    let time = cat(&[b"12", &h]);
    let lat = cat(&[&la, b".5"]);
    let lon = cat(&[&lo, b".5"]);
    let mut f: [&[u8]; 15] = [
        b"$GPGGA", time.as_bytes(), lat.as_bytes(), b"N", lon.as_bytes(), b"E", &qt, &st, &ht, &at, b"M", &gt, b"M", &dt, &it,
    ];
    for i in 1..15 {
        if !on[i] && f[i] != b"M" && f[i] != b"N" && f[i] != b"E" {
            f[i] = b"";
        }
    }
    match once(&join(&f[..n])) {
        Ok(ParsedSentence::Gga(g)) => {
            cover("gga");
            let t = if on[1] { utc(2020, 11, 19, 12, num(&h[..2]), num(&h[2..])) } else { None };
            check(same_utc(&g.timestamp, &t), "timestamp");
            check(optf(g.latitude, on[2], degrees(&la[..2], &la[2..], b"5"), 1e-9), "latitude");
            check(optf(g.longitude, on[4], degrees(&lo[..3], &lo[3..], b"5"), 1e-9), "longitude");
            check(quality_ok(g.quality, if on[6] { q } else { 0 }), "quality");
            check(opt(g.satellite_count, on[7], sats as u8), "satellite_count");
            check(optf(g.hdop, on[8], hdop, 1e-9), "hdop");
            check(optf(g.altitude, on[9], alt, 1e-9), "altitude");
            check(optf(g.geoid_separation, on[11], geoid, 1e-9), "geoid_separation");
            check(optf(g.age_of_dgps, on[13], age, 1e-9), "age_of_dgps");
            check(opt(g.ref_station_id, on[14], id as u16), "ref_station_id");
        }
        _ => check(false, "kind"),
    }
}
/// one numeric field holds any text of n ASCII characters
fn any(n: usize) {
    let mut f: [&[u8]; 15] = [
        b"$GPGGA", b"123519", b"4807.038", b"N", b"01131.000", b"E", b"4", b"08", b"0.9", b"545.4", b"M", b"46.9", b"M", b"12", b"0120",
    ];
    let i = [6usize, 7, 8, 9, 11, 13, 14][choose(7)];
    let t = field(n);
    f[i] = &t;
    let k = match i {
        6 | 7 => int_kind(&t, 255),
        14 => int_kind(&t, 65535),
        _ => f64_kind(&t),
    };
    match once(&join(&f)) {
        Ok(ParsedSentence::Gga(g)) => {
            cover("number");
            check(k != Kind::Not, "a field that is no number is an error");
            if k == Kind::Number {
                let v = f64_value(&t);
                let w = num_or_zero(&t);
                let ok = match i {
                    6 => quality_ok(g.quality, w),
                    7 => opt(g.satellite_count, true, w as u8),
                    8 => optf(g.hdop, true, v, 1e-9),
                    9 => optf(g.altitude, true, v, 1e-9),
                    11 => optf(g.geoid_separation, true, v, 1e-9),
                    13 => optf(g.age_of_dgps, true, v, 1e-9),
                    _ => opt(g.ref_station_id, true, w as u16),
                };
                check(ok, "value");
            }
        }
        Err(_) => {
            cover("no number");
            check(k != Kind::Number, "a number is accepted");
        }
        _ => check(false, "kind"),
    }
}
pub fn c17_any() {
    any(choose(3) + 1)
}
pub fn c17_any4() {
    any(4)
}
/// any text as the time
pub fn c17_time() {
    let n = [0, 1, 2, 3, 4, 5, 6, 7, 9][choose(9)];
    let t = field(n);
    set_time(18585 * 86400 + 3600, 0);
    let s = join(&[b"$GPGGA", &t, b"4807.038", b"N", b"01131.000", b"E", b"4", b"08", b"0.9", b"545.4", b"M", b"46.9", b"M", b"12", b"0120"]);
    match once(&s) {
        Ok(ParsedSentence::Gga(g)) => {
            let want = match time_of_day(&t) {
                Some((h, mi, s)) => utc(2020, 11, 19, h, mi, s),
                None => None,
            };
            match g.timestamp {
                Some(_) => cover("time"),
                None => cover("no time"),
            }
            check(same_utc(&g.timestamp, &want), "timestamp");
        }
        _ => check(false, "kind"),
    }
}
/// longer numbers
pub fn c17_wide() {
    let (a, b) = [(5, 0), (6, 3), (1, 8), (7, 1), (2, 5)][choose(5)];
    let (t, v) = dec(choose(2) == 1, a, b);
    let k = choose(4);
    let mut f: [&[u8]; 15] = [b"$GPGGA", b"", b"", b"", b"", b"", b"1", b"08", b"", b"", b"M", b"", b"M", b"", b""];
    f[[8, 9, 11, 13][k]] = &t;
    match once(&join(&f)) {
        Ok(ParsedSentence::Gga(g)) => {
            cover("gga");
            check(optf(g.hdop, k == 0, v, 1e-8), "hdop");
            check(optf(g.altitude, k == 1, v, 1e-8), "altitude");
            check(optf(g.geoid_separation, k == 2, v, 1e-8), "geoid_separation");
            check(optf(g.age_of_dgps, k == 3, v, 1e-8), "age_of_dgps");
        }
        _ => check(false, "kind"),
    }
}
