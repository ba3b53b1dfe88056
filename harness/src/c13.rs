//! C13: types 6, 9 and 10
use super::sym::*;
use super::util::*;

pub fn c13_sar() {
    let p = payload::<28>(9);
    match parse_vdm(&p) {
        Ok(ParsedSentence::StandardSarAircraftPositionReport(d)) => {
            cover("decoded");
            check(!d.own_vessel, "own_vessel");
            check(d.station == Station::MobileStation, "station");
            check(d.mmsi as u64 == u(&p, 8, 30), "mmsi");
            let alt = u(&p, 38, 12);
            check(opt(d.altitude, alt != 4095, alt as u16), "altitude");
            let sog = u(&p, 50, 10);
            check(opt(d.sog_knots, sog != 1023, sog as u16), "sog_knots");
            check(d.high_position_accuracy == bit(&p, 60), "high_position_accuracy");
            check(lon_ok(d.longitude, i(&p, 61, 28)), "longitude");
            check(lat_ok(d.latitude, i(&p, 89, 27)), "latitude");
            let cog = u(&p, 116, 12);
            check(optf(d.cog, cog != 3600, cog as f64 * 0.1, 1e-9), "cog");
            check(d.timestamp_seconds as u64 == u(&p, 128, 6), "timestamp_seconds");
            check(d.regional as u64 == u(&p, 134, 8), "regional");
            check(d.dte == !bit(&p, 142), "dte");
            check(d.assigned == bit(&p, 146), "assigned");
            check(d.raim_flag == bit(&p, 147), "raim_flag");
            check(d.radio_status as u64 == u(&p, 148, 20), "radio_status");
        }
        _ => check(false, "kind"),
    }
}
pub fn c13_utc() {
    let p = payload::<12>(10);
    match parse_vdm(&p) {
        Ok(ParsedSentence::UtcDateInquiry(d)) => {
            cover("decoded");
            check(!d.own_vessel, "own_vessel");
            check(d.station == Station::MobileStation, "station");
            check(d.source_mmsi as u64 == u(&p, 8, 30), "source_mmsi");
            check(d.destination_mmsi as u64 == u(&p, 40, 30), "destination_mmsi");
        }
        _ => check(false, "kind"),
    }
}
pub fn c13_binary() {
    let p = payload::<20>(6);
    match parse_vdm(&p) {
        Ok(ParsedSentence::BinaryAddressedMessage(d)) => {
            cover("decoded");
            check(!d.own_vessel, "own_vessel");
            check(d.station == Station::MobileStation, "station");
            check(d.mmsi as u64 == u(&p, 8, 30), "mmsi");
            check(d.sequence_number as u64 == u(&p, 38, 2), "sequence_number");
            check(d.destination_mmsi as u64 == u(&p, 40, 30), "destination_mmsi");
            check(d.retransmit_flag == bit(&p, 70), "retransmit_flag");
            check(d.dac as u64 == u(&p, 72, 10), "dac");
            check(d.fid as u64 == u(&p, 82, 6), "fid");
        }
        _ => check(false, "kind"),
    }
}
