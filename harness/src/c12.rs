//! C12: type 21
use super::c05::fix_ok;
use super::sym::*;
use super::texts::*;
use super::util::*;

fn aid_kind(raw: u64) -> NavAidType {
    use NavAidType::*;
    static K: [NavAidType; 32] = [
        NotSpecified,
        ReferencePoint,
        Racon,
        FixedStructure,
        Reserved4,
        LightWithoutSectors,
        LightWithSectors,
        LeadingLightFront,
        LeadingLightRear,
        BeaconCardinalNorth,
        BeaconCardinalEast,
        BeaconCardinalSouth,
        BeaconCardinalWest,
        BeaconLateralPort,
        BeaconLateralStarboard,
        BeaconLateralPreferredChannelPort,
        BeaconLateralPreferredChannelStarboard,
        BeaconIsolatedDanger,
        BeaconSafeWater,
        BeaconSpecialMark,
        CardinalMarkNorth,
        CardinalMarkEast,
        CardinalMarkSouth,
        CardinalMarkWest,
        PortHandMark,
        StarboardHandMark,
        PreferredChannelPort,
        PreferredChannelStarboard,
        IsolatedDanger,
        SafeWater,
        SpecialMark,
        LightVessel,
    ];
    K[raw as usize]
}
/// every bit symbolic except the name
pub fn c12_fields() {
    let mut k = Pack::new();
    k.put(21, 6);
    k.any(32);
    let aid = k.num(5);
    k.text(&[14, 15, 18, 20, 8, 32, 2, 21, 15, 25, 32, 49, 50, 51, 52, 53, 54, 55, 56, 57]);
    k.any(109);
    k.text(&[1, 2, 3, 32, 4, 0, 7, 7, 7, 7, 7, 7, 7, 7]);
    k.any(4);
    let p = &k.out;
    match parse_vdm(p) {
        Ok(ParsedSentence::AidToNavigationReport(mut d)) => {
            cover("decoded");
            check(!d.own_vessel, "own_vessel");
            check(d.station == Station::MobileStation, "station");
            check(d.mmsi as u64 == u(p, 8, 30), "mmsi");
            check(d.aid_type == aid_kind(aid), "aid_type");
            check(d.name == "NORTH BUOY 123456789ABC D", "name");
            check(lon_ok(d.longitude, i(p, 164, 28)), "longitude");
            check(lat_ok(d.latitude, i(p, 192, 27)), "latitude");
            check(lon_ok(LatLon::longitude(&d), i(p, 164, 28)), "LatLon longitude");
            check(lat_ok(LatLon::latitude(&d), i(p, 192, 27)), "LatLon latitude");
            check(opt(d.dimension_to_bow, true, u(p, 219, 9) as u16), "dimension_to_bow");
            check(opt(d.dimension_to_stern, true, u(p, 228, 9) as u16), "dimension_to_stern");
            check(opt(d.dimension_to_port, true, u(p, 237, 6) as u16), "dimension_to_port");
            check(opt(d.dimension_to_starboard, true, u(p, 243, 6) as u16), "dimension_to_starboard");
            check(fix_ok(d.position_fix_type, u(p, 249, 4)) | fix_undefined(d.position_fix_type, u(p, 249, 4)), "position_fix_type");
            check(d.timestamp_seconds as u64 == u(p, 253, 6), "timestamp_seconds");
            check(d.off_position_indicator == bit(p, 259), "off_position_indicator");
            check(d.regional as u64 == u(p, 260, 8), "regional");
            check(d.raim_flag == bit(p, 268), "raim_flag");
            check(d.virtual_aid_flag == bit(p, 269), "virtual_aid_flag");
            check(d.assigned_mode_flag == bit(p, 270), "assigned_mode_flag");
            // the accuracy is private: visible only through equality
            d.longitude = None;
            d.latitude = None;
            d.name = String::new();
            let mut low = AidToNavigationReport::default();
            low.own_vessel = d.own_vessel;
            low.station = d.station;
            low.mmsi = d.mmsi;
            low.aid_type = d.aid_type;
            low.dimension_to_bow = d.dimension_to_bow;
            low.dimension_to_stern = d.dimension_to_stern;
            low.dimension_to_port = d.dimension_to_port;
            low.dimension_to_starboard = d.dimension_to_starboard;
            low.position_fix_type = d.position_fix_type;
            low.timestamp_seconds = d.timestamp_seconds;
            low.off_position_indicator = d.off_position_indicator;
            low.regional = d.regional;
            low.raim_flag = d.raim_flag;
            low.virtual_aid_flag = d.virtual_aid_flag;
            low.assigned_mode_flag = d.assigned_mode_flag;
            check((d == low) == !bit(p, 163), "high_position_accuracy");
        }
        _ => check(false, "kind"),
    }
}
/// codes without a kind of their own (0, 9..15) may be given as None or as Undefined
pub fn fix_undefined(x: Option<PositionFixType>, raw: u64) -> bool {
    ((raw == 0) | (raw >= 9)) & (x == Some(PositionFixType::Undefined))
}
/// is s the text of a followed by the text of b?
fn two_texts(s: &str, a: &[u8], b: &[u8]) -> bool {
    let mut end = 0usize;
    let mut alive = true;
    let mut i = 0;
    while i < a.len() {
        alive &= a[i] != 0;
        end = if alive & (a[i] != 32) { i + 1 } else { end };
        i += 1;
    }
    // case split on the length of the first text
    i = 0;
    while i <= a.len() {
        if end == i {
            let s = s.as_bytes();
            return (s.len() >= i) && text_is(text(&s[..i]), a) & text_is(text(&s[i..]), b);
        }
        i += 1;
    }
    false
}
fn names(which: usize) {
    let mut name = [14, 15, 18, 20, 8, 32, 2, 21, 15, 25, 32, 49, 50, 51, 52, 53, 54, 55, 56, 57];
    let mut ext = [1, 2, 3, 32, 4, 0, 7, 7, 7, 7, 7, 7, 7, 7];
    match which {
        0 => fill(&mut name, &SIX),
        3 => fill(&mut name[..10], &SIX),
        4 => fill(&mut name[10..], &SIX),
        5 => {
            name = [32; 20];
            fill(&mut name[5..15], &SIX);
        }
        1 => fill(&mut ext, &SIX),
        _ => {
            fill(&mut name[17..], &SIX);
            fill(&mut ext[..4], &SIX);
        }
    }
    let mut k = Pack::new();
    k.put(21, 6);
    k.any(37);
    k.text(&name);
    k.any(109);
    k.text(&ext);
    k.any(4);
    match parse_vdm(&k.out) {
        Ok(ParsedSentence::AidToNavigationReport(d)) => {
            cover("decoded");
            check(two_texts(&d.name, &name, &ext), "name");
        }
        _ => check(false, "kind"),
    }
}
pub fn c12_name() {
    names(0)
}
pub fn c12_start() {
    names(3)
}
pub fn c12_end() {
    names(4)
}
pub fn c12_blanks() {
    names(5)
}
pub fn c12_ext() {
    names(1)
}
pub fn c12_both() {
    names(2)
}
