//! C05: type 4
use super::sym::*;
use super::texts::*;
use super::util::*;

pub fn fix_kind(raw: u64) -> PositionFixType {
    match raw {
        1 => PositionFixType::GPS,
        2 => PositionFixType::GLONASS,
        3 => PositionFixType::GPSGLONASS,
        4 => PositionFixType::LoranC,
        5 => PositionFixType::Chayka,
        6 => PositionFixType::IntegratedNavigationSystem,
        7 => PositionFixType::Surveyed,
        8 => PositionFixType::Galileo,
        _ => PositionFixType::Undefined,
    }
}
/// fix types above 8 are not defined: the codes 9-15 may be read as undefined or absent
pub fn fix_ok(x: Option<PositionFixType>, raw: u64) -> bool {
    match x {
        None => (raw == 0) | (raw > 8),
        Some(k) => (raw != 0) & (k == fix_kind(raw)),
    }
}
pub fn c05_fields() {
    let mut k = Pack::new();
    k.put(4, 6);
    k.any(32);
    let year = k.num(14);
    let month = k.num(4);
    let day = k.num(5);
    let hour = k.num(5);
    let minute = k.num(6);
    let second = k.num(6);
    k.any(90);
    let p = &k.out;
    match parse_vdm(p) {
        Ok(ParsedSentence::BaseStationReport(d)) => {
            cover("decoded");
            check(!d.own_vessel, "own_vessel");
            check(d.station == Station::MobileStation, "station");
            check(d.mmsi as u64 == u(p, 8, 30), "mmsi");
            check(d.high_position_accuracy == bit(p, 78), "high_position_accuracy");
            check(lon_ok(d.longitude, i(p, 79, 28)), "longitude");
            check(lat_ok(d.latitude, i(p, 107, 27)), "latitude");
            check(fix_ok(d.position_fix_type, u(p, 134, 4)), "position_fix_type");
            check(d.raim_flag == bit(p, 148), "raim_flag");
            check(d.radio_status as u64 == u(p, 149, 19), "radio_status");
            let want = if year == 0 { None } else { utc(year, month, day, hour, minute, second) };
            check(same_utc(&d.timestamp, &want), "timestamp");
            if d.timestamp.is_some() {
                cover("timestamp");
            } else {
                cover("no timestamp");
            }
        }
        _ => check(false, "kind"),
    }
}
