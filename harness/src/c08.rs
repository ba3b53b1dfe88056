//! C08: type 18
use super::sym::*;
use super::util::*;

pub fn c08_fields() {
    let p = payload::<28>(18);
    match parse_vdm(&p) {
        Ok(ParsedSentence::VesselDynamicData(d)) => {
            cover("decoded");
            check(!d.own_vessel, "own_vessel");
            check(d.station == Station::MobileStation, "station");
            check(d.ais_type == AisClass::ClassB, "ais_type");
            check(d.mmsi as u64 == u(&p, 8, 30), "mmsi");
            let sog = u(&p, 46, 10);
            check(optf(d.sog_knots, sog != 1023, sog as f64 * 0.1, 1e-9), "sog_knots");
            check(d.high_position_accuracy == bit(&p, 56), "high_position_accuracy");
            check(lon_ok(d.longitude, i(&p, 57, 28)), "longitude");
            check(lat_ok(d.latitude, i(&p, 85, 27)), "latitude");
            let cog = u(&p, 112, 12);
            check(optf(d.cog, cog != 3600, cog as f64 * 0.1, 1e-9), "cog");
            let hdg = u(&p, 124, 9);
            check(optf(d.heading_true, hdg != 511, hdg as f64, 1e-9), "heading_true");
            check(d.timestamp_seconds as u64 == u(&p, 133, 6), "timestamp_seconds");
            check(opt(d.class_b_unit_flag, true, bit(&p, 141)), "class_b_unit_flag");
            check(opt(d.class_b_display, true, bit(&p, 142)), "class_b_display");
            check(opt(d.class_b_dsc, true, bit(&p, 143)), "class_b_dsc");
            check(opt(d.class_b_band_flag, true, bit(&p, 144)), "class_b_band_flag");
            check(opt(d.class_b_msg22_flag, true, bit(&p, 145)), "class_b_msg22_flag");
            check(opt(d.class_b_mode_flag, true, bit(&p, 146)), "class_b_mode_flag");
            check(d.raim_flag == bit(&p, 147), "raim_flag");
            check(opt(d.class_b_css_flag, true, bit(&p, 148)), "class_b_css_flag");
            check(opt(d.radio_status, true, u(&p, 149, 19) as u32), "radio_status");
            check(d.nav_status == NavigationStatus::NotDefined, "nav_status");
            check(
                d.rot.is_none()
                    & d.rot_direction.is_none()
                    & d.positioning_system_meta.is_none()
                    & d.current_gnss_position.is_none()
                    & d.special_manoeuvre.is_none(),
                "fields the message does not have",
            );
        }
        _ => check(false, "kind"),
    }
}
