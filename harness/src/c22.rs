//! C22: dispatch, talkers, stations
use super::c03::{kind_of, want_kind};
use super::nmea::*;
use super::sym::*;
use super::texts::*;
use super::util::*;

static HEAD: Dom = Dom::none().range(0, 127).without(b",*");

fn gnss_kind(t: &[u8]) -> u8 {
    if t == b"GGA" {
        9
    } else if t == b"RMC" {
        10
    } else if t == b"GSA" {
        11
    } else if t == b"GSV" {
        12
    } else if t == b"VTG" {
        13
    } else if t == b"GLL" {
        14
    } else {
        15
    }
}
/// any three-letter type
pub fn c22_types() {
    let t = bytes::<3>(&HEAD);
    let k = gnss_kind(&t);
    let r = once(&cat(&[b"$GP", &t, b",1,1,,,,,,,,,,,,,,"]));
    if k == 15 {
        cover("unsupported");
        check(kind_of(&r) == 15, "unknown types are unsupported");
    } else {
        cover("supported");
        // the fields do not suit every type
        check((kind_of(&r) == k) | (kind_of(&r) == 17), "kind of result");
    }
}
/// sentences that suit their type
pub fn c22_kinds() {
    let k = choose(6);
    let s = [
        "$GPGGA,,,,,,,,,,,,,,",
        "$GPRMC,,,,,,,,,,,",
        "$GPGSA,A,1,,,,,,,,,,,,,,,",
        "$GPGSV,1,1,00,,,,",
        "$GPVTG,,,,,,,,,",
        "$GPGLL,,,,,,,",
    ][k];
    let mut b = s.as_bytes().to_vec();
    let t: [u8; 2] = bytes(&HEAD);
    b[1] = t[0];
    b[2] = t[1];
    let r = once(text(&b));
    cover("talker");
    check(kind_of(&r) == 9 + k as u8, "kind of result");
}
/// known types that are not implemented
pub fn c22_unimplemented() {
    let t: &[u8; 3] = [b"ALM", b"HDT", b"TRF", b"STN", b"VBW", b"XTC", b"XTE", b"ZDA", b"BOD", b"RMA"][choose(10)];
    let a: [u8; 2] = bytes(&HEAD);
    let f = field(choose(4));
    let r = once(&cat(&[b"$", &a, t, b",", &f, b",A"]));
    cover("unsupported");
    check(kind_of(&r) == 15, "not implemented");
}
fn system(t: &[u8; 2]) -> NavigationSystem {
    match t {
        b"GN" => NavigationSystem::Combination,
        b"GP" => NavigationSystem::Gps,
        b"GL" => NavigationSystem::Glonass,
        b"GA" => NavigationSystem::Galileo,
        b"BD" => NavigationSystem::Beidou,
        b"GI" => NavigationSystem::Navic,
        b"QZ" => NavigationSystem::Qzss,
        _ => NavigationSystem::Other,
    }
}
/// any talker
pub fn c22_talker() {
    let t: [u8; 2] = bytes(&HEAD);
    let want = system(&t);
    let k = choose(6);
    let rest: &[u8] = [
        &b"GGA,,,,,,,,,,,,,,"[..],
        b"RMC,,,,,,,,,,,",
        b"GSA,A,1,,,,,,,,,,,,,,,",
        b"GSV,1,1,01,07,,,",
        b"VTG,,,,,,,,,",
        b"GLL,,,,,,,",
    ][k];
    let r = once(&cat(&[b"$", &t, rest]));
    let got = match &r {
        Ok(ParsedSentence::Gga(g)) => g.source,
        Ok(ParsedSentence::Rmc(g)) => g.source,
        Ok(ParsedSentence::Gsa(g)) => g.source,
        Ok(ParsedSentence::Vtg(g)) => g.source,
        Ok(ParsedSentence::Gll(g)) => g.source,
        Ok(ParsedSentence::Gsv(l)) if l.len() == 1 => l[0].source,
        _ => {
            check(false, "kind");
            return;
        }
    };
    cover("source");
    check(got == want, "navigation system");
}
fn station(t: &[u8; 2]) -> Station {
    match t {
        b"AB" => Station::BaseStation,
        b"AD" => Station::DependentAisBaseStation,
        b"AI" => Station::MobileStation,
        b"AN" => Station::AidToNavigationStation,
        b"AR" => Station::AisReceivingStation,
        b"AS" => Station::LimitedBaseStation,
        b"AT" => Station::AisTransmittingStation,
        b"AX" => Station::RepeaterStation,
        _ => Station::Other,
    }
}
/// (own vessel, station if the result tells it)
fn origin(r: &Parsed) -> Option<(bool, Option<Station>)> {
    Some(match r {
        Ok(ParsedSentence::VesselDynamicData(d)) => (d.own_vessel, Some(d.station)),
        Ok(ParsedSentence::VesselStaticData(d)) => (d.own_vessel, None),
        Ok(ParsedSentence::BaseStationReport(d)) => (d.own_vessel, Some(d.station)),
        Ok(ParsedSentence::BinaryAddressedMessage(d)) => (d.own_vessel, Some(d.station)),
        Ok(ParsedSentence::StandardSarAircraftPositionReport(d)) => (d.own_vessel, Some(d.station)),
        Ok(ParsedSentence::UtcDateInquiry(d)) => (d.own_vessel, Some(d.station)),
        Ok(ParsedSentence::AidToNavigationReport(d)) => (d.own_vessel, Some(d.station)),
        _ => return None,
    })
}
const TYPES: [u64; 11] = [1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27];
/// any station prefix, VDM and VDO, every message type with data
pub fn c22_station() {
    let t: [u8; 2] = bytes(&HEAD);
    let own = choose(2) == 1;
    let ty = TYPES[choose(11)];
    let mut k = Pack::new();
    k.put(ty as u8, 6);
    k.any(2);
    k.num(8);
    k.num(8);
    k.num(14);
    let mut p = k.out;
    while p.len() < 28 {
        p.push(b'0');
    }
    let r = once(&cat(&[b"!", &t, if own { b"VDO,1,1,,A," } else { b"VDM,1,1,,A," }, &p, b",0"]));
    match origin(&r) {
        Some((o, s)) => {
            cover("origin");
            check(o == own, "own vessel");
            match s {
                Some(s) => {
                    cover("station");
                    check(s == station(&t), "station");
                }
                None => {}
            }
        }
        None => check(false, "kind"),
    }
}
/// type 24 tells own vessel from the sentence that completes the pair
pub fn c22_own24() {
    let own = choose(2) == 1;
    let h: &[u8] = if own { b"!AIVDO,1,1,,A," } else { b"!AIVDM,1,1,,A," };
    let m = super::c10::Mmsi::any();
    let a = super::c10::part_a(&m, &super::c25::AID, false);
    let b = super::c10::part_b(&m, &[22, 5, 14], &[3, 1, 12, 12, 49, 50, 51], false).0;
    let (x, y) = if choose(2) == 1 { (&b, &a) } else { (&a, &b) };
    let mut p = NmeaParser::new();
    check(feed(&mut p, &cat(&[h, x, b",0"])) == Ok(ParsedSentence::Incomplete), "one part");
    match origin(&feed(&mut p, &cat(&[h, y, b",0"]))) {
        Some((o, None)) => {
            cover("origin");
            check(o == own, "own vessel");
        }
        _ => check(false, "kind"),
    }
}
/// every message type, any station prefix: unimplemented types are unsupported
pub fn c22_messages() {
    let t = choose(2) as u64 * 32 + choose(32) as u64;
    if want_kind(t) != 15 {
        return;
    }
    let own = choose(2) == 1;
    let a: [u8; 2] = bytes(&HEAD);
    let mut k = Pack::new();
    k.put(t as u8, 6);
    k.any(6 * (27 - 20 * choose(2)));
    let r = once(&cat(&[b"!", &a, if own { b"VDO,1,1,,A," } else { b"VDM,1,1,,A," }, &k.out, b",0"]));
    cover("unsupported");
    check(kind_of(&r) == 15, "unimplemented message types are unsupported");
}
/// headers of any length and shape: data only from six characters with a known type
pub fn c22_headers() {
    let n = choose(9);
    let mut h = [0u8; 9];
    fill(&mut h[..n], &HEAD);
    let r = once(&cat(&[&h[..n], b",1,1,,A,10000000000000000000,0"]));
    let known = if n == 6 {
        let t = &h[3..6];
        ((h[0] == b'$') & (gnss_kind(t) != 15)) | ((h[0] == b'!') & ((t == b"VDM") | (t == b"VDO")))
    } else {
        false
    };
    if known {
        cover("known");
    } else {
        cover("unknown");
        let k = kind_of(&r);
        check((k == 15) | (k == 17), "unknown headers are unsupported or invalid");
    }
}
/// texts without comma
pub fn c22_comma() {
    let n = choose(10);
    let mut h = [0u8; 10];
    fill(&mut h[..n], &HEAD);
    let r = once(text(&h[..n]));
    cover("invalid");
    check(kind_of(&r) == 17, "text without comma is invalid");
}
