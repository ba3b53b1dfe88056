//! C07: ETA
use super::sym::*;
use super::texts::*;
use super::util::*;

static HOUR: Dom = Dom::none().range(0, 23);
static SIXTY: Dom = Dom::none().range(0, 59);
/// a fixed day, any time of the day
fn day(y: u64, m: u64, d: u64, secs: u64) {
    let (h, mi, s) = (byte(&HOUR) as u64, byte(&SIXTY) as u64, byte(&SIXTY) as u64);
    eta(y, m, d, h, mi, secs + h * 3600 + mi * 60 + s, s)
}
fn eta(y: u64, m: u64, d: u64, h: u64, mi: u64, secs: u64, s: u64) {
    set_time(secs, 123_000_000);
    let now = match utc(y, m, d, h, mi, s) {
        Some(t) => t,
        None => return check(false, "harness time"),
    };
    let later = now + chrono::Duration::days(366);
    let mut k = Pack::new();
    k.put(5, 6);
    k.any(64);
    k.text(&[1, 0, 0, 0, 0, 0, 0]);
    k.text(&[2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    k.any(42);
    let month = k.num(4);
    let day = k.num(5);
    let hour = k.num(5);
    let min = k.num(6);
    k.num(8);
    k.text(&[3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    k.any(4);
    let e = match parse_vdm(&k.out) {
        Ok(ParsedSentence::VesselStaticData(d)) => d.eta,
        _ => return check(false, "kind"),
    };
    let none = (month == 0) & (day == 0) & (hour == 24) & (min == 60);
    let long = (month == 1) | (month == 3) | (month == 5) | (month == 7) | (month == 8) | (month == 10) | (month == 12);
    let dim = 28 + 2 * ((month != 2) as u64) + long as u64 + (month == 2) as u64;
    let time = (hour < 24) & (min < 60);
    let valid = time & (month >= 1) & (month <= 12) & (day >= 1) & (day <= dim);
    let impossible = (hour > 24) | ((hour < 24) & (min > 60)) | (month > 12) | ((month >= 1) & (day > dim));
    let leap_day = (month == 2) & (day == 29);
    // a day without a time of day, or an hour without minutes
    let part = (month >= 1) & (month <= 12) & (day >= 1) & (day <= dim) & ((hour == 24) | ((hour < 24) & (min == 60)));
    match e {
        None => {
            cover("none");
            check(!valid, "a valid ETA is given");
            check(!part, "a day without a time is given");
        }
        Some(e) => {
            cover("some");
            check(!none, "not available gives none");
            check(!impossible, "an impossible ETA gives none");
            check(e >= now, "not in the past");
            if valid {
                cover("valid");
                check(leap_day | (e <= later), "not more than a year away");
                let mut ok = false;
                let mut i = 0;
                while i <= 8 {
                    ok |= match (utc(y + i, month, day, hour, min, 0), utc(y + i, month, day, hour, min, 59)) {
                        (Some(a), Some(b)) => (a <= e) & (e <= b),
                        _ => false,
                    };
                    i += 1;
                }
                check(ok, "month, day, hour and minute");
            }
            if part {
                cover("part");
                let (h1, h2) = if hour == 24 { (0, 23) } else { (hour, hour) };
                let mut ok = false;
                let mut i = 0;
                while i <= 8 {
                    ok |= match (utc(y + i, month, day, h1, 0, 0), utc(y + i, month, day, h2, 59, 59)) {
                        (Some(a), Some(b)) => (a <= e) & (e <= b),
                        _ => false,
                    };
                    i += 1;
                }
                check(ok, "month and day, and the hour if there is one");
            }
        }
    }
}
pub fn c07_mid() {
    day(2021, 6, 15, 1623715200)
}
pub fn c07_leap() {
    day(2020, 2, 29, 1582934400)
}
pub fn c07_newyear() {
    day(2023, 12, 31, 1703980800)
}
pub fn c07_century() {
    day(2096, 3, 1, 3981398400)
}
pub fn c07_january() {
    day(2022, 1, 1, 1640995200)
}
pub fn c07_feb28() {
    day(2023, 2, 28, 1677542400)
}
pub fn c07_feb28_leap() {
    day(2028, 2, 28, 1835308800)
}
pub fn c07_march() {
    day(2021, 3, 31, 1617148800)
}
pub fn c07_april() {
    day(2022, 4, 30, 1651276800)
}
pub fn c07_february() {
    day(2024, 2, 1, 1706745600)
}
pub fn c07_december() {
    day(2099, 12, 31, 4102358400)
}
pub fn c07_eight_years() {
    day(2096, 2, 29, 3981312000)
}
pub fn c07_end_leap() {
    day(2024, 12, 31, 1735603200)
}
