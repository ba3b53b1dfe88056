//! C09: type 27
use super::c04::nav_ok;
use super::sym::*;
use super::util::*;

/// 1/600 degree
fn c600(x: Option<f64>, avail: bool, raw: i64) -> bool {
    optf(x, avail, raw as f64 / 600.0, 1e-9)
}
pub fn c09_fields() {
    let p = payload::<16>(27);
    match parse_vdm(&p) {
        Ok(ParsedSentence::VesselDynamicData(d)) => {
            cover("decoded");
            check(!d.own_vessel, "own_vessel");
            check(d.station == Station::MobileStation, "station");
            check(d.ais_type == AisClass::ClassA, "ais_type");
            check(d.mmsi as u64 == u(&p, 8, 30), "mmsi");
            check(d.high_position_accuracy == bit(&p, 38), "high_position_accuracy");
            check(d.raim_flag == bit(&p, 39), "raim_flag");
            check(nav_ok(d.nav_status, u(&p, 40, 4)), "nav_status");
            // The second operand of each `known` is the listed finding: the fields after bit 44
            // are read from the wrong places.
            let lon = i(&p, 44, 18);
            let was = i(&p, 62, 17);
            known(c600(d.longitude, lon != 181 * 600, lon), c600(d.longitude, was != 181000, was), "longitude");
            let lat = i(&p, 62, 17);
            let was = i(&p, 44, 18);
            known(c600(d.latitude, lat != 91 * 600, lat), c600(d.latitude, was != 181000, was), "latitude");
            let sog = u(&p, 79, 6);
            let was = u(&p, 62, 6);
            known(optf(d.sog_knots, sog != 63, sog as f64, 1e-9), optf(d.sog_knots, was != 63, was as f64, 1e-9), "sog_knots");
            let cog = u(&p, 85, 9);
            let was = u(&p, 62, 17);
            known(optf(d.cog, cog != 511, cog as f64, 1e-9), optf(d.cog, was != 91000, was as f64 * 0.1, 1e-9), "cog");
            known(
                opt(d.current_gnss_position, true, !bit(&p, 94)),
                opt(d.current_gnss_position, true, !bit(&p, 62)),
                "current_gnss_position",
            );
            check(d.timestamp_seconds == 0, "timestamp_seconds");
            check(
                d.rot.is_none()
                    & d.rot_direction.is_none()
                    & d.heading_true.is_none()
                    & d.positioning_system_meta.is_none()
                    & d.special_manoeuvre.is_none()
                    & d.class_b_unit_flag.is_none()
                    & d.class_b_display.is_none()
                    & d.class_b_dsc.is_none()
                    & d.class_b_band_flag.is_none()
                    & d.class_b_msg22_flag.is_none()
                    & d.class_b_mode_flag.is_none()
                    & d.class_b_css_flag.is_none()
                    & d.radio_status.is_none(),
                "fields the message does not have",
            );
        }
        _ => check(false, "kind"),
    }
}
