//! C10, C11: type 24
use super::c06::{cargo_kind, ship_kind};
use super::sym::*;
use super::texts::*;
use super::util::*;

/// a symbolic MMSI as four pieces
pub struct Mmsi(pub [u8; 5]);
impl Mmsi {
    pub fn any() -> Mmsi {
        Mmsi(bytes(&SIX))
    }
    pub fn put(&self, k: &mut Pack) {
        for x in &self.0 {
            k.put(*x, 6);
        }
    }
    pub fn value(&self) -> u64 {
        let mut r = 0;
        for x in &self.0 {
            r = r << 6 | *x as u64;
        }
        r
    }
}
pub struct B {
    pub ship: u64,
    pub vendor: [u8; 3],
    pub call: [u8; 7],
}
/// `full`: the bits without a meaning of their own are symbolic too, otherwise zero
pub fn part_a(m: &Mmsi, name: &[u8; 20], full: bool) -> Vec<u8> {
    let mut k = Pack::new();
    k.put(24, 6);
    some(&mut k, 2, full);
    m.put(&mut k);
    k.put(0, 2);
    k.text(name);
    some(&mut k, 8, full);
    k.out
}
pub fn part_b(m: &Mmsi, vendor: &[u8; 3], call: &[u8; 7], full: bool) -> (Vec<u8>, u64) {
    let mut k = Pack::new();
    k.put(24, 6);
    some(&mut k, 2, full);
    m.put(&mut k);
    k.put(1, 2);
    let ship = if full { k.num(8) } else { zeros(&mut k, 8) };
    k.text(vendor);
    some(&mut k, 24, full);
    k.text(call);
    some(&mut k, 36, full);
    (k.out, ship)
}
fn zeros(k: &mut Pack, n: usize) -> u64 {
    k.bits(0, n);
    0
}
fn some(k: &mut Pack, n: usize, full: bool) {
    if full {
        k.any(n)
    } else {
        let mut i = 0;
        while i < n {
            k.put(0, 1);
            i += 1;
        }
    }
}
const VENDOR: [u8; 3] = [22, 5, 14];
const CALL: [u8; 7] = [3, 1, 12, 12, 49, 0, 2];
const NAME: [u8; 20] = [14, 1, 13, 5, 32, 49, 50, 32, 32, 0, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9];

fn run(name: &[u8; 20], vendor: &[u8; 3], call: &[u8; 7]) {
    let m = Mmsi::any();
    let a = part_a(&m, name, true);
    let (b, ship) = part_b(&m, vendor, call, true);
    let mut p = NmeaParser::new();
    let b_first = choose(2) == 1;
    let (x, y) = if b_first { (&b, &a) } else { (&a, &b) };
    check(feed(&mut p, &vdm(x)) == Ok(ParsedSentence::Incomplete), "first part is incomplete");
    let r = feed(&mut p, &vdm(y));
    let p = &b;
    match r {
        Ok(ParsedSentence::VesselStaticData(d)) => {
            cover(if b_first { "B then A" } else { "A then B" });
            check(!d.own_vessel, "own_vessel");
            check(d.ais_type == AisClass::ClassB, "ais_type");
            check(d.mmsi as u64 == m.value(), "mmsi");
            check(d.ais_version_indicator == 0, "ais_version_indicator");
            check(opt_text_is(&d.name, name), "name");
            check(opt_text_is(&d.call_sign, call), "call_sign");
            check(
                match &d.equipment_vendor_id {
                    Some(s) => text_is(s, vendor),
                    None => text_is("", vendor),
                },
                "equipment_vendor_id",
            );
            check(d.ship_type == ship_kind(ship), "ship_type");
            check(d.cargo_type == cargo_kind(ship), "cargo_type");
            check(opt(d.equipment_model, true, u(p, 66, 4) as u8), "equipment_model");
            check(opt(d.equipment_serial_number, true, u(p, 70, 20) as u32), "equipment_serial_number");
            check(opt(d.dimension_to_bow, true, u(p, 132, 9) as u16), "dimension_to_bow");
            check(opt(d.dimension_to_stern, true, u(p, 141, 9) as u16), "dimension_to_stern");
            check(opt(d.dimension_to_port, true, u(p, 150, 6) as u16), "dimension_to_port");
            check(opt(d.dimension_to_starboard, true, u(p, 156, 6) as u16), "dimension_to_starboard");
            // those of auxiliary craft: the MMSI of the mother ship in place of the dimensions
            let craft = (m.value() >= 980_000_000) & (m.value() < 990_000_000);
            if craft {
                cover("auxiliary craft");
            }
            check(!craft | opt(d.mothership_mmsi, true, u(p, 132, 30) as u32), "mothership_mmsi");
            check(
                d.imo_number.is_none() & d.position_fix_type.is_none() & d.eta.is_none() & d.draught10.is_none() & d.destination.is_none(),
                "fields the message does not have",
            );
        }
        _ => check(false, "kind"),
    }
}
pub fn c10_fields() {
    run(&NAME, &VENDOR, &CALL)
}
pub fn c10_name() {
    run(&bytes(&SIX), &VENDOR, &CALL)
}
pub fn c10_call() {
    run(&NAME, &VENDOR, &bytes(&SIX))
}
pub fn c10_vendor() {
    run(&NAME, &bytes(&SIX), &CALL)
}
/// part numbers 2 and 3
pub fn c10_part() {
    let mut k = Pack::new();
    k.put(24, 6);
    k.any(32);
    k.put(2 + byte(&BIT), 2);
    k.any(128);
    let r = parse_vdm(&k.out);
    cover("part");
    check(r.is_err(), "unknown part number is an error");
}
static BIT: Dom = Dom::none().range(0, 1);

static LETTER: Dom = Dom::none().range(1, 26);
static LETTER0: Dom = Dom::none().range(0, 2);
struct Seen {
    part: usize,
    tag: [u8; 2],
}
/// every history of n events about two vessels (symbolic distinct MMSIs, symbolic contents):
/// part A or B of either vessel, an unrelated message, a rejected sentence
fn histories(n: usize, letter: &'static Dom, full: bool) {
    let (m1, m2) = (Mmsi::any(), Mmsi::any());
    assume(m1.value() != m2.value());
    let mut pending: [Option<Seen>; 2] = [None, None];
    let mut p = NmeaParser::new();
    let mut e = 0;
    while e < n {
        let ev = choose(6);
        if ev == 4 {
            let r = feed(&mut p, "!AIVDM,1,1,,A,35MC>W@01EIAn5VA4l`N2;>0015@,0");
            check(matches!(r, Ok(ParsedSentence::VesselDynamicData(_))), "other message");
        } else if ev == 5 {
            check(feed(&mut p, "!AIVDM,1,1,,A,H5MC>W@00,0*FF").is_err(), "rejected sentence");
        } else {
            let (v, part) = (ev / 2, ev % 2);
            let tag: [u8; 2] = bytes(letter);
            let m = if v == 0 { &m1 } else { &m2 };
            let s = if part == 0 {
                let mut name = [0; 20];
                name[0] = tag[0];
                name[1] = tag[1];
                vdm(&part_a(m, &name, full))
            } else {
                vdm(&part_b(m, &VENDOR, &[tag[0], tag[1], 0, 0, 0, 0, 0], full).0)
            };
            let r = feed(&mut p, &s);
            match pending[v].take() {
                Some(ref old) if old.part != part => {
                    cover("pair");
                    let (na, nb) = if part == 0 { (tag, old.tag) } else { (old.tag, tag) };
                    match r {
                        Ok(ParsedSentence::VesselStaticData(d)) => {
                            check(d.mmsi as u64 == m.value(), "mmsi");
                            check(opt_text_is(&d.name, &na), "name is that of the newest part A");
                            check(opt_text_is(&d.call_sign, &nb), "call sign is that of the newest part B");
                        }
                        _ => check(false, "a pair is complete"),
                    }
                }
                _ => {
                    check(r == Ok(ParsedSentence::Incomplete), "a lone or repeated part is incomplete");
                    pending[v] = Some(Seen { part, tag });
                }
            }
        }
        e += 1;
    }
}
pub fn c11_three() {
    histories(3, &LETTER, false)
}
pub fn c11_four() {
    histories(4, &LETTER, false)
}
pub fn c11_five() {
    histories(5, &LETTER, false)
}
/// texts may be empty, all other bits symbolic
pub fn c11_blank() {
    histories(3, &LETTER0, true)
}
/// parts of many vessels pending at once
pub fn c11_many() {
    let tag: [u8; 2] = bytes(&LETTER);
    let other: [u8; 2] = bytes(&LETTER);
    let back = choose(2);
    let mut p = NmeaParser::new();
    // the MMSIs 54<<24 | ..., one apart in the last digits
    let m = |k: usize| Mmsi([9, 8, 33, (k / 64) as u8, (k & 63) as u8]);
    let send = |p: &mut NmeaParser, k: usize, part: usize, tag: &[u8; 2]| {
        let s = if part == 0 {
            let mut name = [0; 20];
            name[..2].copy_from_slice(tag);
            vdm(&part_a(&m(k), &name, false))
        } else {
            vdm(&part_b(&m(k), &VENDOR, &[tag[0], tag[1], 0, 0, 0, 0, 0], false).0)
        };
        feed(p, &s)
    };
    let mut k = 40;
    while k < 310 {
        check(send(&mut p, k, (k + back) & 1, &tag) == Ok(ParsedSentence::Incomplete), "a lone part is incomplete");
        k += 1;
    }
    let mut k = [40, 170, 309][choose(3)];
    let mut n = 0;
    while n < 60 {
        let part = (k + back + 1) & 1;
        match send(&mut p, k, part, &other) {
            Ok(ParsedSentence::VesselStaticData(d)) => {
                cover("pair");
                let (na, nb) = if part == 0 { (other, tag) } else { (tag, other) };
                check(d.mmsi as u64 == m(k).value(), "mmsi");
                check(opt_text_is(&d.name, &na), "name is that of part A");
                check(opt_text_is(&d.call_sign, &nb), "call sign is that of part B");
            }
            _ => check(false, "a pair is complete"),
        }
        k = 40 + (k - 40 + 37) % 270;
        n += 1;
    }
}
