//! C04: types 1-3
use super::sym::*;
use super::util::*;

static T123: Dom = Dom::none().with(b"123");

fn nav(raw: u64) -> NavigationStatus {
    match raw {
        0 => NavigationStatus::UnderWayUsingEngine,
        1 => NavigationStatus::AtAnchor,
        2 => NavigationStatus::NotUnderCommand,
        3 => NavigationStatus::RestrictedManoeuverability,
        4 => NavigationStatus::ConstrainedByDraught,
        5 => NavigationStatus::Moored,
        6 => NavigationStatus::Aground,
        7 => NavigationStatus::EngagedInFishing,
        8 => NavigationStatus::UnderWaySailing,
        9 => NavigationStatus::Reserved9,
        10 => NavigationStatus::Reserved10,
        11 => NavigationStatus::Reserved11,
        12 => NavigationStatus::Reserved12,
        13 => NavigationStatus::Reserved13,
        14 => NavigationStatus::AisSartIsActive,
        _ => NavigationStatus::NotDefined,
    }
}
pub fn nav_ok(x: NavigationStatus, raw: u64) -> bool {
    x == nav(raw)
}
fn rot_ok(x: Option<f64>, rot: i64) -> bool {
    let r = rot as f64 / 4.733;
    optf(x, (rot >= -126) & (rot <= 126), r * r.abs(), 1e-6)
}
pub fn c04_fields() {
    let mut p: [u8; 28] = bytes(&ARMOUR);
    p[0] = byte(&T123);
    match parse_vdm(&p) {
        Ok(ParsedSentence::VesselDynamicData(d)) => {
            cover("decoded");
            check(!d.own_vessel, "own_vessel");
            check(d.station == Station::MobileStation, "station");
            check(d.ais_type == AisClass::ClassA, "ais_type");
            check(d.mmsi as u64 == u(&p, 8, 30), "mmsi");
            check(nav_ok(d.nav_status, u(&p, 38, 4)), "nav_status");
            let rot = i(&p, 42, 8);
            check(rot_ok(d.rot, rot), "rot");
            let dir = if rot <= -2 { -1 } else if rot >= 2 { 1 } else { 0 };
            check(opt(d.rot_direction, rot != -128, dir), "rot_direction");
            let sog = u(&p, 50, 10);
            check(optf(d.sog_knots, sog != 1023, sog as f64 * 0.1, 1e-9), "sog_knots");
            check(d.high_position_accuracy == bit(&p, 60), "high_position_accuracy");
            check(lon_ok(d.longitude, i(&p, 61, 28)), "longitude");
            check(lat_ok(d.latitude, i(&p, 89, 27)), "latitude");
            let cog = u(&p, 116, 12);
            check(optf(d.cog, cog != 3600, cog as f64 * 0.1, 1e-9), "cog");
            let hdg = u(&p, 128, 9);
            check(optf(d.heading_true, hdg != 511, hdg as f64, 1e-9), "heading_true");
            let sec = u(&p, 137, 6);
            check(d.timestamp_seconds as u64 == sec, "timestamp_seconds");
            let meta = match sec {
                61 => PositioningSystemMeta::ManualInputMode,
                62 => PositioningSystemMeta::DeadReckoningMode,
                63 => PositioningSystemMeta::Inoperative,
                _ => PositioningSystemMeta::Operative,
            };
            check(opt(d.positioning_system_meta, sec != 60, meta), "positioning_system_meta");
            let man = u(&p, 143, 2);
            check((man == 3) | opt(d.special_manoeuvre, man != 0, man == 2), "special_manoeuvre");
            check(d.raim_flag == bit(&p, 148), "raim_flag");
            check(opt(d.radio_status, true, u(&p, 149, 19) as u32), "radio_status");
            check(
                d.current_gnss_position.is_none()
                    & d.class_b_unit_flag.is_none()
                    & d.class_b_display.is_none()
                    & d.class_b_dsc.is_none()
                    & d.class_b_band_flag.is_none()
                    & d.class_b_msg22_flag.is_none()
                    & d.class_b_mode_flag.is_none()
                    & d.class_b_css_flag.is_none(),
                "class B and long-range fields",
            );
        }
        _ => check(false, "kind"),
    }
}
