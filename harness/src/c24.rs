//! C24: self-contained and rejected sentences leave pending messages alone
use super::c03::kind_of;
use super::c10::{part_a, part_b, Mmsi};
use super::c25::{aid, voyage, AID, EXT};
use super::nmea::*;
use super::sym::*;
use super::texts::*;
use super::util::*;

/// The rest of pending messages of three kinds: what was sent and what completes it.
struct Pending {
    first: [String; 4],
    last: [String; 3],
    mmsi: Mmsi,
}
/// the second or the first of two fragments (id 5, channel A), two of the three sentences of a
/// GSV group, part A or part B of type 24; contents symbolic
fn pending() -> Pending {
    some_pending(true)
}
fn some_pending(full: bool) -> Pending {
    let order = choose(2);
    let f = if full { payload::<28>(18) } else { *b"B52K>;h00Fc>jpUlNV@ikwpUoP06" };
    let m = Mmsi(if full { bytes(&SIX) } else { [9, 8, 33, 61, 2] });
    let n: [u8; 2] = if full { bytes(&SIX) } else { [1, 2] };
    let digits = |k| if full { digits(k) } else { vec![b'7'; k] };
    let mut name = AID;
    name[0] = n[0];
    name[5] = n[1];
    let a = vdm(&part_a(&m, &name, false));
    let b = vdm(&part_b(&m, &[22, 5, n[1]], &[3, 1, 12, 12, 49, 50, 51], false).0);
    let fa = cat(&[b"!AIVDM,2,1,5,A,", &f[..13], b",0"]);
    let fb = cat(&[b"!AIVDM,2,2,5,A,", &f[13..], b",0"]);
    let g = |k: u8| cat(&[b"$GPGSV,3,", &[k], b",09,", &digits(2), b",15,270,", &digits(2), b",06,01,010,,13,06,292,00"]);
    let (g1, g2, g3) = (g(b'1'), g(b'2'), g(b'3'));
    if order == 0 {
        Pending { first: [fa, g1, g3, a], last: [fb, g2, b], mmsi: m }
    } else {
        Pending { first: [fb, g2, g3, b], last: [fa, g1, a], mmsi: m }
    }
}
impl Pending {
    fn start(&self) -> NmeaParser {
        let mut p = NmeaParser::new();
        for s in &self.first {
            let r = feed(&mut p, s);
            // a part of type 24 gives its own data
            check(r.is_ok(), "first part");
        }
        p
    }
    fn end(&self, p: &mut NmeaParser) -> [Parsed; 3] {
        [feed(p, &self.last[0]), feed(p, &self.last[1]), feed(p, &self.last[2])]
    }
    /// complete, rejected and fragments of other messages
    fn undisturbed(&self, middle: &[&String]) {
        let mut p = self.start();
        for s in middle {
            let r = feed(&mut p, s);
            check(r == once(s), "the same result as with a fresh parser");
            match r {
                Ok(ParsedSentence::Incomplete) => check(false, "complete or rejected"),
                Ok(_) => cover("complete"),
                Err(_) => cover("rejected"),
            }
        }
        let got = self.end(&mut p);
        let want = self.end(&mut self.start());
        check(got[0] == want[0], "the fragments give the same message");
        check(got[1] == want[1], "the GSV group is the same");
        check(got[2] == want[2], "the type 24 message is the same");
        check(kind_of(&got[0]) == 2, "the fragments give a message");
        check(kind_of(&got[1]) == 12, "the GSV group is complete");
        check(kind_of(&got[2]) == 3, "the type 24 message is complete");
    }
    /// only if rejected
    fn if_rejected(&self, s: &String) {
        let mut p = self.start();
        if feed(&mut p, s).is_err() {
            cover("rejected");
            let got = self.end(&mut p);
            let want = self.end(&mut self.start());
            check(got == want, "a rejected sentence changes nothing");
        }
    }
}
fn single(own: bool, p: &[u8]) -> String {
    cat(&[if own { b"!AIVDO,1,1,,A," } else { b"!AIVDM,1,1,,A," }, p, b",0"])
}
/// complete AIS messages of every type, single characters and whole ones
pub fn c24_ais() {
    let x = pending();
    let own = choose(2) == 1;
    let t = [1, 2, 3, 6, 9, 10, 18, 27][choose(8)];
    let s = if choose(2) == 0 { single(own, &payload::<28>(t)) } else { single(own, &payload::<1>(t)) };
    x.undisturbed(&[&s]);
}
/// position report of the vessel whose type 24 part is pending
pub fn c24_same_vessel() {
    let x = pending();
    let t = [1, 9, 18, 5][choose(4)];
    let mut k = Pack::new();
    k.put(t, 6);
    k.any(2);
    x.mmsi.put(&mut k);
    if t == 5 {
        set_time(18585 * 86400 + 3600, 0);
        k.any(32);
        k.text(&AID);
    } else {
        k.any(130);
    }
    x.undisturbed(&[&single(choose(2) == 1, &k.out)]);
}
pub fn c24_static() {
    let x = pending();
    let p = match choose(3) {
        0 => voyage(&AID),
        1 => aid(&AID, &EXT),
        _ => super::c25::base(),
    };
    x.undisturbed(&[&single(choose(2) == 1, &p)]);
}
/// complete GNSS sentences
pub fn c24_gnss() {
    let x = pending();
    set_time(18585 * 86400 + 3600, 0);
    let s = match choose(7) {
        0 => cat(&[b"$GPGGA,", &digits(6), b",", &digits(4), b".00,N,01123.45,E,1,08,0.9,545.4,M,46.9,M,,"]),
        1 => cat(&[b"$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,0", &digits(2), b".7,191194,020.3,E"]),
        2 => cat(&[b"$GPGSA,A,3,", &digits(2), b",05,,09,12,,,24,,,,,2.5,1.", &digits(1), b",2.1"]),
        3 => cat(&[b"$GPVTG,0", &digits(2), b".7,T,034.4,M,005.5,N,010.2,K"]),
        4 => cat(&[b"$GPGLL,", &digits(4), b".45,N,12311.12,W,225444,A"]),
        5 => cat(&[b"$GLGSV,1,1,01,", &digits(2), b",15,270,00"]),
        _ => cat(&[b"$GNGSV,1,1,00"]),
    };
    x.undisturbed(&[&s]);
}
/// GNSS sentences with malformed fields
pub fn c24_malformed() {
    let x = some_pending(false);
    set_time(18585 * 86400 + 3600, 0);
    let f = field(choose(4));
    let s = match choose(8) {
        0 => cat(&[b"$GPGGA,", &f, b",4807.00,N,01123.45,E,1,08,0.9,545.4,M,46.9,M,,"]),
        1 => cat(&[b"$GPGGA,123519,4807.00,N,01123.45,E,1,", &f, b",0.9,545.4,M,46.9,M,,"]),
        2 => cat(&[b"$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,", &f, b",020.3,E"]),
        3 => cat(&[b"$GPGSA,A,3,04,05,,09,12,,,24,,,,,", &f, b",1.3,2.1"]),
        4 => cat(&[b"$GPVTG,", &f, b",T,034.4,M,005.5,N,010.2,K"]),
        5 => cat(&[b"$GPGLL,", &f, b",N,12311.12,W,225444,A"]),
        6 => cat(&[b"$GPGGA,123519,4807.00,", &f, b",01123.45,E,1,08,0.9,545.4,M,46.9,M,,"]),
        _ => cat(&[b"$GPGSA,A,", &f, b",04,05,,09,12,,,24,,,,,1.1,1.3,2.1"]),
    };
    x.undisturbed(&[&s]);
}
/// GSV sentences of the pending group's talker with malformed or impossible numbers
pub fn c24_gsv() {
    let x = some_pending(false);
    mode(1);
    let f = if choose(2) == 0 {
        field(1 + choose(2))
    } else {
        let mut f = digits(3 + choose(2));
        f[choose(3)] = byte(&OTHER);
        f
    };
    let s = match choose(3) {
        0 => cat(&[b"$GPGSV,", &f, b",2,09,01,15,270,00"]),
        1 => cat(&[b"$GPGSV,3,", &f, b",09,01,15,270,00"]),
        _ => cat(&[b"$GPGSV,", &f]),
    };
    x.if_rejected(&s);
}
static OTHER: Dom = Dom::none().range(0, 127).without(b",*0123456789");
/// a fragment of the pending message with malformed numbers or payload
pub fn c24_fragment() {
    let x = pending();
    let s = match choose(5) {
        0 => cat(&[b"!AIVDM,", &field(choose(3)), b",1,5,A,15M,0"]),
        1 => cat(&[b"!AIVDM,2,", &field(choose(3)), b",5,A,15M,0"]),
        2 => cat(&[b"!AIVDM,2,1,5,A,15", &field(2), b"M,0"]),
        3 => cat(&[b"!AIVDM,2,2,5,A,15", &field(2), b"M,0"]),
        _ => cat(&[b"!AIVDM,1,1,5,A,15", &field(2), b"M,0"]),
    };
    x.if_rejected(&s);
}
/// sentences with any header
pub fn c24_header() {
    let x = some_pending(false);
    let h = field(choose(8));
    let rest: &[u8] = [&b""[..], b",2,2,5,A,15M,0", b",1,1,,A,;00000,0", b",3,2,09,01,15,270,00"][choose(4)];
    let mut p = x.start();
    let s = cat(&[&h, rest]);
    if let Err(e) = feed(&mut p, &s) {
        check(once(&s) == Err(e), "the same result as with a fresh parser");
        cover("rejected");
        let got = x.end(&mut p);
        let want = x.end(&mut x.start());
        check(got == want, "a rejected sentence changes nothing");
    }
}
/// unsupported AIS types, complete or in two fragments of their own
pub fn c24_unsupported() {
    let x = some_pending(false);
    let t = [0u8, 7, 8, 11, 14, 17, 19, 25, 28, 63][choose(10)];
    let p = payload::<28>(t);
    let s = single(choose(2) == 1, &p);
    let mut y = x.start();
    check(feed(&mut y, &s) == once(&s), "unsupported");
    let other: &[u8; 3] = [b"6,A", b"5,B", b"7,1"][choose(3)];
    let a = cat(&[b"!AIVDM,2,1,", other, b",", &p[..20], b",0"]);
    let b = cat(&[b"!AIVDM,2,2,", other, b",", &p[20..], b",0"]);
    check(feed(&mut y, &a) == Ok(ParsedSentence::Incomplete), "fragment");
    check(feed(&mut y, &b) == once(&vdm(&p)), "unsupported message in two fragments");
    cover("unsupported");
    let got = x.end(&mut y);
    let want = x.end(&mut x.start());
    check(got == want, "nothing pending changes");
}
/// illegal payloads
pub fn c24_illegal() {
    let x = some_pending(false);
    let mut q = payload::<28>(18);
    q[choose(28)] = byte(&ILLEGAL);
    x.undisturbed(&[&single(choose(2) == 1, &q)]);
}
static ILLEGAL: Dom = Dom::none().range(0, 47).range(b'X', b'_').range(b'x', 127).without(b",*");
/// several sentences
pub fn c24_two() {
    several(2)
}
pub fn c24_three() {
    several(3)
}
fn several(n: usize) {
    let x = some_pending(false);
    set_time(18585 * 86400 + 3600, 0);
    let f = |k| match k {
        0 => vdm(&payload::<28>(1)),
        1 => cat(&[b"$GPGLL,", &digits(4), b".45,N,12311.12,W,225444,A"]),
        2 => cat(&[b"$GPGSV,1,2,", &field(2)]),
        3 => cat(&[b"!AIVDM,1,1,,A,", &payload::<10>(12), b",0"]),
        4 => cat(&[b"!AIVDM,2,2,5,A,", &[byte(&ARMOUR)], b"x,0"]),
        5 => cat(&[[&b"$GPGSV,3,2,09,01,15,270,00*"[..], b"!AIVDM,1,1,,A,15MgK45P3@G?fl0E`JbR0OwT0@MS,0*"][choose(2)], &digits(1)]),
        6 => cat(&[&field(2)]),
        _ => cat(&[b"$GPRMC,22", &digits(2), b"AB,A,4916.45,N,12311.12,W,000.5,054.7,191194,020.3,E"]),
    };
    let (a, b) = (f(choose(8)), f(choose(8)));
    if n == 2 {
        x.undisturbed(&[&a, &b]);
    } else {
        x.undisturbed(&[&a, &b, &f(choose(8))]);
    }
}
/// wrong checksums
pub fn c24_corrupted() {
    let x = some_pending(choose(2) == 1);
    let bodies = [
        "!AIVDM,1,1,,A,15MgK45P3@G?fl0E`JbR0OwT0@MS,0",
        "!AIVDO,1,1,,A,H42O55lt0000000D3nink000?0500,0",
        "!AIVDM,2,2,5,A,15MgK45P3@,0",
        "!AIVDM,2,1,5,A,15MgK45P3@,0",
        "!BSVDM,2,1,7,B,15MgK45P3@,0",
        "$GPGSV,3,2,09,01,15,270,00",
        "$GPGSV,1,1,01,01,15,270,00",
        "$GPGSV,9,9",
        "$GPGLL,4916.45,N,12311.12,W,225444,A",
        "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191194,020.3,E",
        "$GPGGA",
        "!AIVDM",
        "$GPZDA,201530.00,04,07,2002,00,00",
        "",
    ];
    let b = match choose(16) {
        14 => x.last[choose(3)].to_string(),
        15 => x.first[choose(4)].to_string(),
        k => bodies[k].to_string(),
    };
    let g: [u8; 2] = bytes(&CHECKSUM);
    let g = &g[..1 + choose(2)];
    // lower-case digits are no checksum, and a single one is none either
    x.undisturbed(&[&cat(&[b.as_bytes(), b"*", g])]);
}
static CHECKSUM: Dom = Dom::none().range(b'a', b'f').range(b'G', b'Z').with(b" -");
/// many sentences between
pub fn c24_later() {
    let x = some_pending(false);
    let s = [
        "!AIVDM,1,1,,A,35MC>W@01EIAn5VA4l`N2;>0015@,0",
        "$GPGLL,4916.45,N,12311.12,W,225444,A",
        "$GPGSV,1,1,01,01,15,270,00*00",
        "!AIVDM,1,1,,B,<5000,0",
        "$GLGSV,1,1,01,01,15,270,00",
        "!AIVDM,1,1,,B,15M\u{e4},0",
    ][choose(6)];
    let mut p = x.start();
    let r = feed(&mut p, s);
    check(r == once(s), "the same result as with a fresh parser");
    let mut k = 0;
    while k < 269 {
        let _ = p.parse_sentence(s);
        k += 1;
    }
    cover("later");
    let got = x.end(&mut p);
    let want = x.end(&mut x.start());
    check(got == want, "nothing pending changes");
}
/// the same content in another sentence: nothing is remembered of the first
pub fn c24_repeat() {
    let heads = ["!AIVDM,1,1,,A,", "!AIVDO,1,1,,A,", "!BSVDM,1,1,,A,", "!AIVDM,1,1,4,B,"];
    let (a, b) = (choose(4), choose(4));
    let p = match choose(6) {
        0 => payload::<28>([1, 9, 18, 27][choose(4)]).to_vec(),
        1 => payload::<16>([6, 10, 2, 3][choose(4)]).to_vec(),
        2 => super::c25::base(),
        3 => aid(&AID, &EXT),
        4 => voyage(&AID),
        _ => payload::<28>(11).to_vec(),
    };
    set_time(18585 * 86400 + 3600, 0);
    let s = cat(&[heads[a].as_bytes(), &p, b",0"]);
    let t = cat(&[heads[b].as_bytes(), &p, b",0"]);
    let mut q = NmeaParser::new();
    check(feed(&mut q, &s) == once(&s), "the same result as with a fresh parser");
    check(feed(&mut q, &t) == once(&t), "the same result as with a fresh parser");
    check(feed(&mut q, &s) == once(&s), "the same result as with a fresh parser");
    cover("repeated");
}
/// payloads that differ in one place
pub fn c24_similar() {
    let t = [1u8, 9, 18, 27, 4, 10][choose(6)];
    let mut p = if t == 4 { super::c25::base() } else { payload::<28>(t).to_vec() };
    let n = p.len();
    let s = single(false, &p);
    let at = [1, 3, 6, 9, 12, 15, 20, 25, 27][choose(9)];
    // (the date of type 4 stays)
    let at = if (t == 4) & (at >= 6) & (at <= 13) { at + 9 } else { at };
    p[at % n] = byte(&ARMOUR);
    let t = single(false, &p);
    let mut q = NmeaParser::new();
    check(feed(&mut q, &s) == once(&s), "the same result as with a fresh parser");
    check(feed(&mut q, &t) == once(&t), "the same result as with a fresh parser");
    cover("similar");
}
/// the same or similar GNSS sentences of any talkers
pub fn c24_talkers() {
    set_time(18585 * 86400 + 3600, 0);
    let talkers: [&[u8]; 5] = [b"GP", b"GL", b"GN", b"BD", b"XX"];
    let (a, b) = (talkers[choose(5)], talkers[choose(5)]);
    let (d, e) = (digits(2), if choose(2) == 0 { digits(2) } else { vec![] });
    let k = choose(6);
    let f = |t: &[u8], d: &[u8]| match k {
        0 => cat(&[b"$", t, b"GGA,1235", d, b",4807.00,N,01123.45,E,1,08,0.9,545.4,M,46.9,M,,"]),
        1 => cat(&[b"$", t, b"RMC,225446,A,4916.45,N,12311.12,W,000.5,0", d, b".7,191194,020.3,E"]),
        2 => cat(&[b"$", t, b"GSA,A,3,", d, b",05,,09,12,,,24,,,,,2.5,1.3,2.1"]),
        3 => cat(&[b"$", t, b"VTG,0", d, b".7,T,034.4,M,005.5,N,010.2,K"]),
        4 => cat(&[b"$", t, b"GLL,49", d, b".45,N,12311.12,W,225444,A"]),
        _ => cat(&[b"$", t, b"GSV,1,1,01,", d, b",15,270,00"]),
    };
    let (s, t) = (f(a, &d), f(b, &e));
    let mut q = NmeaParser::new();
    check(feed(&mut q, &s) == once(&s), "the same result as with a fresh parser");
    check(feed(&mut q, &t) == once(&t), "the same result as with a fresh parser");
    check(feed(&mut q, &s) == once(&s), "the same result as with a fresh parser");
    cover("repeated");
}
/// time passes (or is set back): pending messages stay, and complete ones are those of their time
pub fn c24_clock() {
    let x = some_pending(false);
    let now = 18585 * 86400 + 3600;
    set_time(now, 0);
    let s = match choose(4) {
        0 => cat(&[b"$GPGGA,1235", &digits(2), b",4807.00,N,01123.45,E,1,08,0.9,545.4,M,46.9,M,,"]),
        1 => cat(&[b"$GPGLL,4916.45,N,12311.12,W,22", &digits(2), b"44,A"]),
        2 => cat(&[b"$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,", &digits(2), b"0294,020.3,E"]),
        _ => single(false, &voyage(&AID)),
    };
    let mut p = x.start();
    check(feed(&mut p, &s) == once(&s), "the same result as with a fresh parser");
    set_time([now + 61, now + 3700, now + 90000, now + 40_000_000, now - 7200, now + 2_600_000_000][choose(6)], 999_999_999);
    check(feed(&mut p, &s) == once(&s), "the same result as with a fresh parser");
    cover("later");
    let got = x.end(&mut p);
    let want = x.end(&mut x.start());
    check(got == want, "nothing pending changes");
}
