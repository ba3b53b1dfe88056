//! C06: type 5
use super::c05::fix_ok;
use super::sym::*;
use super::texts::*;
use super::util::*;

pub fn ship_kind(raw: u64) -> ShipType {
    match raw {
        10..=19 => ShipType::Reserved1,
        20..=29 => ShipType::WingInGround,
        30 => ShipType::Fishing,
        31 => ShipType::Towing,
        32 => ShipType::TowingLong,
        33 => ShipType::DredgingOrUnderwaterOps,
        34 => ShipType::DivingOps,
        35 => ShipType::MilitaryOps,
        36 => ShipType::Sailing,
        37 => ShipType::PleasureCraft,
        38 => ShipType::Reserved38,
        39 => ShipType::Reserved39,
        40..=49 => ShipType::HighSpeedCraft,
        50 => ShipType::Pilot,
        51 => ShipType::SearchAndRescue,
        52 => ShipType::Tug,
        53 => ShipType::PortTender,
        54 => ShipType::AntiPollutionEquipment,
        55 => ShipType::LawEnforcement,
        56 => ShipType::SpareLocal56,
        57 => ShipType::SpareLocal57,
        58 => ShipType::MedicalTransport,
        59 => ShipType::Noncombatant,
        60..=69 => ShipType::Passenger,
        70..=79 => ShipType::Cargo,
        80..=89 => ShipType::Tanker,
        90..=99 => ShipType::Other,
        _ => ShipType::NotAvailable,
    }
}
/// the units digit of the ship types that carry a cargo category
pub fn cargo_kind(raw: u64) -> CargoType {
    let t = raw / 10;
    let has = (t == 1) | (t == 2) | (t == 4) | ((t >= 6) & (t <= 9));
    match if has { raw % 10 } else { 0 } {
        1 => CargoType::HazardousCategoryA,
        2 => CargoType::HazardousCategoryB,
        3 => CargoType::HazardousCategoryC,
        4 => CargoType::HazardousCategoryD,
        5 => CargoType::Reserved5,
        6 => CargoType::Reserved6,
        7 => CargoType::Reserved7,
        8 => CargoType::Reserved8,
        9 => CargoType::Reserved9,
        _ => CargoType::Undefined,
    }
}
fn none_of(d: &VesselStaticData) -> bool {
    d.equipment_vendor_id.is_none() & d.equipment_model.is_none() & d.equipment_serial_number.is_none() & d.mothership_mmsi.is_none()
}
/// every bit of the message symbolic except the texts and the ETA
pub fn c06_fields() {
    let mut k = Pack::new();
    k.put(5, 6);
    k.any(64);
    k.text(b"\x01\x02\x03\x31\x32\x33\x04");
    k.text(b"\x05VES\x20\x31\x13\x05\x0c\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20".map(|x| x & 63).as_ref());
    let ship = k.num(8);
    k.any(34);
    k.put(0, 4);
    k.put(0, 5);
    k.put(24, 5);
    k.put(60, 6);
    k.any(8);
    k.text(&[8, 5, 12, 19, 9, 14, 11, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]);
    k.any(4);
    let p = &k.out;
    match parse_vdm(p) {
        Ok(ParsedSentence::VesselStaticData(d)) => {
            cover("decoded");
            check(!d.own_vessel, "own_vessel");
            check(d.ais_type == AisClass::ClassA, "ais_type");
            check(d.mmsi as u64 == u(p, 8, 30), "mmsi");
            check(d.ais_version_indicator as u64 == u(p, 38, 2), "ais_version_indicator");
            let imo = u(p, 40, 30);
            check(opt(d.imo_number, imo != 0, imo as u32), "imo_number");
            check(d.call_sign.as_deref() == Some("ABC123D"), "call_sign");
            check(d.name.as_deref() == Some("EVES 1SEL"), "name");
            check(d.ship_type == ship_kind(ship), "ship_type");
            check(d.cargo_type == cargo_kind(ship), "cargo_type");
            check(opt(d.dimension_to_bow, true, u(p, 240, 9) as u16), "dimension_to_bow");
            check(opt(d.dimension_to_stern, true, u(p, 249, 9) as u16), "dimension_to_stern");
            check(opt(d.dimension_to_port, true, u(p, 258, 6) as u16), "dimension_to_port");
            check(opt(d.dimension_to_starboard, true, u(p, 264, 6) as u16), "dimension_to_starboard");
            check(fix_ok(d.position_fix_type, u(p, 270, 4)), "position_fix_type");
            check(d.eta.is_none(), "eta");
            check(opt(d.draught10, true, u(p, 294, 8) as u8), "draught10");
            check(d.destination.as_deref() == Some("HELSINKI"), "destination");
            check(none_of(&d), "fields the message does not have");
        }
        _ => check(false, "kind"),
    }
}
/// every character of one of the three texts symbolic
fn texts(which: usize) {
    let mut cs = [1, 2, 3, 49, 50, 51, 4];
    let mut name = [1, 14, 14, 32, 2, 0, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let mut dest = [20, 21, 18, 11, 21, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32];
    match which {
        0 => fill(&mut cs, &SIX),
        1 => fill(&mut name, &SIX),
        _ => fill(&mut dest, &SIX),
    }
    let mut k = Pack::new();
    k.put(5, 6);
    k.any(64);
    k.text(&cs);
    k.text(&name);
    k.any(42);
    k.put(0, 4);
    k.put(0, 5);
    k.put(24, 5);
    k.put(60, 6);
    k.any(8);
    k.text(&dest);
    k.any(4);
    let p = &k.out;
    match parse_vdm(p) {
        Ok(ParsedSentence::VesselStaticData(d)) => {
            cover("decoded");
            check(opt_text_is(&d.call_sign, &cs), "call_sign");
            check(opt_text_is(&d.name, &name), "name");
            check(opt_text_is(&d.destination, &dest), "destination");
            if d.call_sign.is_none() | d.name.is_none() | d.destination.is_none() {
                cover("empty text");
            }
        }
        _ => check(false, "kind"),
    }
}
pub fn c06_call() {
    texts(0)
}
pub fn c06_name() {
    texts(1)
}
pub fn c06_dest() {
    texts(2)
}
