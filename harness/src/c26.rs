//! C26: the LatLon view of a result
use super::nmea::*;
use super::sym::*;

use super::util::*;

fn same(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => x == y,
        (None, None) => true,
        _ => false,
    }
}
fn view(d: &dyn LatLon, lat: Option<f64>, lon: Option<f64>) {
    match (lat, lon) {
        (None, None) => cover("none"),
        _ => cover("some"),
    }
    check(same(d.latitude(), lat), "the latitude is that of the result");
    check(same(d.longitude(), lon), "the longitude is that of the result");
}
fn any(r: &Parsed) {
    match r {
        Ok(ParsedSentence::VesselDynamicData(d)) => view(d, d.latitude, d.longitude),
        Ok(ParsedSentence::BaseStationReport(d)) => view(d, d.latitude, d.longitude),
        Ok(ParsedSentence::StandardSarAircraftPositionReport(d)) => view(d, d.latitude, d.longitude),
        Ok(ParsedSentence::AidToNavigationReport(d)) => view(d, d.latitude, d.longitude),
        Ok(ParsedSentence::Gga(d)) => view(d, d.latitude, d.longitude),
        Ok(ParsedSentence::Rmc(d)) => view(d, d.latitude, d.longitude),
        Ok(ParsedSentence::Gll(d)) => view(d, d.latitude, d.longitude),
        _ => check(false, "kind"),
    }
}
pub fn c26_dynamic() {
    any(&parse_vdm(&payload::<28>([1, 2, 3, 18, 27][choose(5)])));
}
pub fn c26_sar() {
    any(&parse_vdm(&payload::<28>(9)));
}
pub fn c26_base() {
    let mut p = *b"402=acquv3iwHG:ql`QWRdA00000";
    fill(&mut p[13..22], &ARMOUR);
    any(&parse_vdm(&p));
}
pub fn c26_aid() {
    let p = super::c25::aid(&AID_NAME, &super::c25::EXT);
    any(&parse_vdm(&p));
}
static AID_NAME: [u8; 20] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20];
pub fn c26_gnss() {
    set_time(18585 * 86400 + 3600, 0);
    let (a, o) = (digits(6), digits(7));
    let p = if choose(2) == 0 { cat(&[&a[..4], b".", &a[4..], b",S,", &o[..5], b".", &o[5..], b",W"]) } else { cat(&[b",,,"]) };
    let p = p.as_bytes();
    any(&once(&match choose(3) {
        0 => cat(&[b"$GPGGA,123519,", p, b",1,08,0.9,545.4,M,46.9,M,,"]),
        1 => cat(&[b"$GPRMC,225446,A,", p, b",000.5,054.7,191194,020.3,E"]),
        _ => cat(&[b"$GPGLL,", p, b",225444,A"]),
    }));
}
/// a message without position: none is given
pub fn c26_binary() {
    match parse_vdm(&payload::<28>(6)) {
        Ok(ParsedSentence::BinaryAddressedMessage(d)) => {
            cover("none");
            check((d.latitude() == None) & (d.longitude() == None), "no position");
        }
        _ => check(false, "kind"),
    }
}
