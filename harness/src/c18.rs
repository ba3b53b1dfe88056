//! C18: RMC
use super::nmea::*;
use super::sym::*;
use super::util::*;

static AV: Dom = Dom::none().with(b"AV");

/// date and time of the fields in a century, if they exist
pub fn timestamp(century: u64, date: &[u8], time: &[u8]) -> Option<DateTime<Utc>> {
    let mut ok = date.len() >= 6;
    let mut i = 0;
    while i < 6 && i < date.len() {
        ok &= is_digit(date[i]);
        i += 1;
    }
    if !ok {
        return None;
    }
    match time_of_day(time) {
        Some((h, m, s)) => utc(century + num(&date[4..6]), num(&date[2..4]), num(&date[..2]), h, m, s),
        None => None,
    }
}
/// all fields well-formed, all digits symbolic, in several centuries
pub fn c18_fields() {
    let (y, _, _) = today();
    let t = digits(6);
    let date = digits(6);
    let la = digits(8);
    let lo = digits(9);
    let (nf, ns, ew) = (2 + choose(2), byte(&NS), byte(&EW));
    let st = byte(&AV);
    let (gt, sog) = dec(false, 3, 1);
    let (bt, bearing) = dec(false, 3, 1);
    let (vt, var) = dec(false, 2, 1);
    let side = byte(&EW);
    let lat = cat(&[&la[..4], b".", &la[4..4 + nf]]);
    let lon = cat(&[&lo[..5], b".", &lo[5..5 + nf]]);
    let time = cat(&[&t, if nf == 2 { b".00" } else { b"" }]);
    let s = join(&[b"$GPRMC", time.as_bytes(), &[st], lat.as_bytes(), &[ns], lon.as_bytes(), &[ew], &gt, &bt, &date, &vt, &[side]]);
    match once(&s) {
        Ok(ParsedSentence::Rmc(g)) => {
            cover("rmc");
            check(g.source == NavigationSystem::Gps, "source");
            check(same_utc(&g.timestamp, &timestamp(y / 100 * 100, &date, &t)), "timestamp");
            if g.timestamp.is_some() {
                cover("timestamp");
            }
            check(g.status_active == Some(st == b'A'), "status_active");
            let v = degrees(&la[..2], &la[2..4], &la[4..4 + nf]);
            let w = degrees(&lo[..3], &lo[3..5], &lo[5..5 + nf]);
            check(optf(g.latitude, true, if ns == b'S' { -v } else { v }, 1e-9), "latitude");
            check(optf(g.longitude, true, if ew == b'W' { -w } else { w }, 1e-9), "longitude");
            check(optf(g.sog_knots, true, sog, 1e-9), "sog_knots");
            check(optf(g.bearing, true, bearing, 1e-9), "bearing");
            check(optf(g.variation, true, if side == b'W' { -var } else { var }, 1e-9), "variation");
        }
        _ => check(false, "kind"),
    }
}
const FIELDS: [usize; 8] = [1, 2, 3, 5, 7, 8, 9, 10];
/// one field empty, or all fields empty but one
pub fn c18_empty() {
    let at = FIELDS[choose(8)];
    let lone = choose(2) == 1;
    let mut on = [lone; 12];
    on[at] = !lone;
    on[11] = on[10];
    rmc(12, &on)
}
/// only the first n fields are there
pub fn c18_cut() {
    let n = [2, 3, 4, 5, 6, 7, 8, 9, 10][choose(9)];
    let mut on = [true; 12];
    for i in n..12 {
        on[i] = false;
    }
    rmc(n, &on)
}
fn rmc(n: usize, on: &[bool; 12]) {
    set_time(18585 * 86400 + 3600, 0);
    let (h, la, lo, dd) = (digits(4), digits(4), digits(5), digits(4));
    let st = byte(&AV);
    let (gt, sog) = dec(false, 2, 1);
    let (bt, bearing) = dec(false, 3, 1);
    let (vt, var) = dec(false, 2, 1);
    let time = cat(&[b"12", &h]);
    let lat = cat(&[&la, b".5"]);
    let lon = cat(&[&lo, b".5"]);
    let date = cat(&[&dd, b"24"]);
    let stt = [st];
    let mut f: [&[u8]; 12] =
        [b"$GPRMC", time.as_bytes(), &stt, lat.as_bytes(), b"N", lon.as_bytes(), b"E", &gt, &bt, date.as_bytes(), &vt, b"W"];
    for i in [1usize, 2, 3, 5, 7, 8, 9, 10] {
        if !on[i] {
            f[i] = b"";
        }
    }
    match once(&join(&f[..n])) {
        Ok(ParsedSentence::Rmc(g)) => {
            cover("rmc");
            let t = if on[1] & on[9] { timestamp(2000, date.as_bytes(), time.as_bytes()) } else { None };
            check(same_utc(&g.timestamp, &t), "timestamp");
            check(opt(g.status_active, on[2], st == b'A'), "status_active");
            check(optf(g.latitude, on[3], degrees(&la[..2], &la[2..], b"5"), 1e-9), "latitude");
            check(optf(g.longitude, on[5], degrees(&lo[..3], &lo[3..], b"5"), 1e-9), "longitude");
            check(optf(g.sog_knots, on[7], sog, 1e-9), "sog_knots");
            check(optf(g.bearing, on[8], bearing, 1e-9), "bearing");
            check(optf(g.variation, on[10], -var, 1e-9), "variation");
        }
        _ => check(false, "kind"),
    }
}
/// one numeric field holds any text of n ASCII characters
fn any(n: usize) {
    let mut f: [&[u8]; 12] =
        [b"$GPRMC", b"225446", b"A", b"4916.45", b"N", b"12311.12", b"W", b"000.5", b"054.7", b"191120", b"020.3", b"E"];
    let i = [7usize, 8, 10][choose(3)];
    let t = field(n);
    f[i] = &t;
    let k = f64_kind(&t);
    match once(&join(&f)) {
        Ok(ParsedSentence::Rmc(g)) => {
            cover("number");
            check(k != Kind::Not, "a field that is no number is an error");
            if k == Kind::Number {
                let x = match i {
                    7 => g.sog_knots,
                    8 => g.bearing,
                    _ => g.variation,
                };
                check(optf(x, true, f64_value(&t), 1e-9), "value");
            }
        }
        Err(_) => {
            cover("no number");
            check(k != Kind::Number, "a number is accepted");
        }
        _ => check(false, "kind"),
    }
}
pub fn c18_any() {
    any(choose(3) + 1)
}
pub fn c18_any4() {
    any(4)
}
/// any text as status and side of the variation
pub fn c18_letters() {
    let (n, m) = (choose(4), choose(4));
    let (st, side) = (field(n), field(m));
    let s = join(&[b"$GPRMC", b"225446", &st, b"4916.45", b"N", b"12311.12", b"W", b"000.5", b"054.7", b"191120", b"020.3", &side]);
    let known = (n == 0) || ((n == 1) & ((st[0] == b'A') | (st[0] == b'V')));
    let sided = (m == 1) && ((side[0] == b'E') | (side[0] == b'W'));
    match once(&s) {
        Ok(ParsedSentence::Rmc(g)) => {
            cover("accepted");
            check(known, "an unknown status is an error");
            check(sided, "an unknown side is an error");
            check(opt(g.status_active, n == 1, n == 1 && st[0] == b'A'), "status_active");
            check(optf(g.variation, true, if side.len() == 1 && side[0] == b'W' { -20.3 } else { 20.3 }, 1e-9), "variation");
        }
        Err(_) => {
            cover("rejected");
            check(!(known & sided), "a proper sentence is accepted");
        }
        _ => check(false, "kind"),
    }
}
/// any text as time and date
fn when(n: usize, m: usize) {
    let (t, d) = (field(n), field(m));
    set_time(18585 * 86400 + 3600, 0);
    let s = join(&[b"$GPRMC", &t, b"A", b"4916.45", b"N", b"12311.12", b"W", b"000.5", b"054.7", &d, b"020.3", b"E"]);
    match once(&s) {
        Ok(ParsedSentence::Rmc(g)) => {
            match g.timestamp {
                Some(_) => cover("timestamp"),
                None => cover("no timestamp"),
            }
            // longer dates are not settled
            check((d.len() > 6) | same_utc(&g.timestamp, &timestamp(2000, &d, &t)), "timestamp");
        }
        _ => check(false, "kind"),
    }
}
pub fn c18_time() {
    when([0, 1, 3, 5, 6, 7, 9][choose(7)], 6)
}
pub fn c18_date() {
    when(6, [0, 1, 2, 3, 4, 5, 7][choose(7)])
}
/// longer numbers
pub fn c18_wide() {
    let (a, b) = [(5, 0), (6, 3), (1, 8), (7, 1), (2, 5)][choose(5)];
    let (t, v) = dec(choose(2) == 1, a, b);
    let k = choose(3);
    let mut f: [&[u8]; 12] = [b"$GPRMC", b"", b"A", b"", b"", b"", b"", b"", b"", b"", b"", b""];
    f[[7, 8, 10][k]] = &t;
    if k == 2 {
        f[11] = b"W";
    }
    match once(&join(&f)) {
        Ok(ParsedSentence::Rmc(g)) => {
            cover("rmc");
            check(optf(g.sog_knots, k == 0, v, 1e-8), "sog_knots");
            check(optf(g.bearing, k == 1, v, 1e-8), "bearing");
            check(optf(g.variation, k == 2, -v, 1e-8), "variation");
        }
        _ => check(false, "kind"),
    }
}
