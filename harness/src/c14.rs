//! C14, C15: messages in two fragments
use super::sym::*;
use super::util::*;

/// which fragment of which message a sentence is
#[derive(Clone, Copy)]
pub struct Head {
    pub own: bool,
    pub part: usize,
    pub id: [u8; 2],
    pub idn: usize,
    pub chan: u8,
}
pub fn fragment(h: &Head, p: &[u8]) -> String {
    let (k, n) = if h.own { (b"!AIVDO,2,", h.part) } else { (b"!AIVDM,2,", h.part) };
    cat(&[k, if n == 1 { b"1," } else { b"2," }, &h.id[..h.idn], b",", &[h.chan], b",", p, b",0"])
}
pub static ONE_NINE: Dom = Dom::none().range(b'1', b'9');
static CHAN: Dom = Dom::none().range(b'A', b'Z').range(b'0', b'9');
/// a message id of one or two digits without leading zero
fn id() -> ([u8; 2], usize) {
    let n = 1 + choose(2);
    let mut d = [0u8; 2];
    fill(&mut d[n - 1..n], &DIGIT);
    if n == 2 {
        fill(&mut d[..1], &ONE_NINE);
    }
    (d, n)
}
fn whole(own: bool, p: &[u8]) -> Parsed {
    once(&cat(&[if own { b"!AIVDO,1,1,,A," } else { b"!AIVDM,1,1,,A," }, p, b",0"]))
}
/// both orders, any cut; then the same again, and a lone fragment
fn two(p: &[u8], at: usize) {
    let (id, idn) = id();
    let own = choose(2) == 1;
    let back = choose(2) == 1;
    let h = Head { own, part: 1, id, idn, chan: byte(&CHAN) };
    let a = fragment(&h, &p[..at]);
    let b = fragment(&Head { part: 2, ..h }, &p[at..]);
    let (x, y) = if back { (&b, &a) } else { (&a, &b) };
    let want = whole(own, p);
    let mut q = NmeaParser::new();
    check(feed(&mut q, x) == Ok(ParsedSentence::Incomplete), "the first fragment is incomplete");
    let r = feed(&mut q, y);
    if let Ok(_) = r {
        cover("message");
    }
    check(r == want, "the second fragment completes the message");
    // nothing is pending: the second fragment alone is a first fragment again
    check(feed(&mut q, y) == Ok(ParsedSentence::Incomplete), "nothing is left of a complete message");
    check(feed(&mut q, x) == want, "the message can be sent again");
    check(feed(&mut q, x) == Ok(ParsedSentence::Incomplete), "nothing is left of the second message");
}
pub fn c14_position() {
    two(&payload::<28>(1), 1 + choose(27));
}
pub fn c14_classb() {
    two(&payload::<28>(18), [0, 1, 14, 27, 28][choose(5)]);
}
pub fn c14_sar() {
    two(&payload::<28>(9), [1, 14, 27][choose(3)]);
}
pub fn c14_other() {
    let t = [6u8, 10, 27, 8][choose(4)];
    two(&payload::<16>(t), 1 + choose(15));
}
pub fn c14_voyage() {
    let p = super::c25::voyage(&super::c25::AID);
    two(&p, [1, 20, 39, 40, 56, 59, 60, 70][choose(8)]);
}
pub fn c14_aid() {
    let p = super::c25::aid(&super::c25::AID, &super::c25::EXT);
    two(&p, [1, 7, 20, 27, 28, 45, 46, 55, 59][choose(9)]);
}
/// the name is split, with any characters at its ends and beside the cut
pub fn c14_name() {
    let mut n = super::c25::AID;
    fill(&mut n[..2], &super::texts::SIX);
    fill(&mut n[5..8], &super::texts::SIX);
    fill(&mut n[17..], &super::texts::SIX);
    let p = super::c25::voyage(&n);
    let at = [19, 25, 38][choose(3)];
    let h = Head { own: false, part: 1, id: *b"30", idn: 1, chan: b'A' };
    let a = fragment(&h, &p[..at]);
    let b = fragment(&Head { part: 2, ..h }, &p[at..]);
    let (x, y) = if choose(2) == 1 { (&b, &a) } else { (&a, &b) };
    let mut q = NmeaParser::new();
    check(feed(&mut q, x) == Ok(ParsedSentence::Incomplete), "the first fragment is incomplete");
    let r = feed(&mut q, y);
    cover("message");
    check(r == whole(false, &p), "the second fragment completes the message");
}

/// what a sentence of two fragments is about
#[derive(Clone, Copy)]
struct Frag {
    h: Head,
    tag: u8,
    at: usize,
}
fn same(a: &Head, b: &Head) -> bool {
    let mut ok = (a.own == b.own) & (a.idn == b.idn) & (a.chan == b.chan);
    if a.idn == b.idn {
        let mut i = 0;
        while i < a.idn {
            ok &= a.id[i] == b.id[i];
            i += 1;
        }
    }
    ok
}
static CH: Dom = Dom::none().with(b"AB1");
/// a payload in two pieces of which one holds the tag: a type 10 inquiry
fn piece(part: usize, tag: u8) -> [u8; 6] {
    if part == 1 {
        // type 10, source MMSI
        let mut p = *b":00000";
        p[4] = tag;
        p
    } else {
        let mut p = *b"000000";
        p[3] = tag;
        p
    }
}
/// n fragments with symbolic kinds, ids, channels and contents against a list of pending ones
fn history(n: usize, ids: usize) {
    let mut pend: [Option<Frag>; 5] = [None; 5];
    let mut q = NmeaParser::new();
    let mut e = 0;
    while e < n {
        let part = 1 + choose(2);
        let (id, idn) = if ids == 0 { ([byte(&DIGIT), 0], 1) } else { id() };
        let own = if ids == 0 { choose(2) == 1 } else { false };
        let h = Head { own, part, id, idn, chan: byte(&CH) };
        let tag = byte(&ARMOUR);
        let r = feed(&mut q, &fragment(&h, &piece(part, tag)));
        let mut hit = false;
        let mut k = 0;
        while k < e {
            if let Some(f) = pend[k] {
                if same(&f.h, &h) {
                    pend[k] = None;
                    if f.h.part != part {
                        hit = true;
                        cover("pair");
                        let (t1, t2) = if part == 1 { (tag, f.tag) } else { (f.tag, tag) };
                        let p = cat(&[&piece(1, t1), &piece(2, t2)]);
                        check(r == whole(own, p.as_bytes()), "a pair is combined");
                    }
                }
            }
            k += 1;
        }
        if !hit {
            check(r == Ok(ParsedSentence::Incomplete), "a lone or repeated fragment is incomplete");
            pend[e] = Some(Frag { h, tag, at: e });
        }
        e += 1;
    }
}
pub fn c15_three() {
    history(3, 0)
}
pub fn c15_ids() {
    history(2, 1)
}
pub fn c15_four() {
    history(4, 0)
}
/// large and odd ids: only equal ids belong together
pub fn c15_long() {
    let n = [3usize, 4, 9, 10, 19][choose(5)];
    let mut a = *b"1234567890123456789.";
    let mut b = a;
    let at = if n > 4 { [0, n / 2, n - 3][choose(3)] } else { n - 3 };
    fill(&mut a[at..at + 3], &DIGIT);
    fill(&mut b[at..at + 3], &DIGIT);
    assume((a[0] != b'0') & (b[0] != b'0'));
    let (p1, p2) = (piece(1, b'5'), piece(2, b'7'));
    let mut q = NmeaParser::new();
    let r = feed(&mut q, &cat(&[b"!AIVDM,2,1,", &a[..n], b",A,", &p1, b",0"]));
    check(r == Ok(ParsedSentence::Incomplete), "the first fragment is incomplete");
    let r = feed(&mut q, &cat(&[b"!AIVDM,2,2,", &b[..n], b",A,", &p2, b",0"]));
    let mut eq = true;
    let mut i = 0;
    while i < n {
        eq &= a[i] == b[i];
        i += 1;
    }
    if eq {
        cover("pair");
        check(r == whole(false, cat(&[&p1, &p2]).as_bytes()), "a pair is combined");
    } else {
        cover("apart");
        check(r == Ok(ParsedSentence::Incomplete), "different ids do not belong together");
    }
}
/// fragments without message id, with number 0 or 3, or of another kind of sentence do not
/// disturb a pending one
pub fn c15_odd() {
    let (p1, p2) = (piece(1, byte(&ARMOUR)), piece(2, byte(&ARMOUR)));
    let d = byte(&DIGIT);
    let mut q = NmeaParser::new();
    let first = 1 + choose(2);
    let (x, y) = if first == 1 { (&p1, &p2) } else { (&p2, &p1) };
    let (n1, n2): (&[u8], &[u8]) = if first == 1 { (b"1,", b"2,") } else { (b"2,", b"1,") };
    let r = feed(&mut q, &cat(&[b"!AIVDM,2,", n1, &[d], b",A,", x, b",0"]));
    check(r == Ok(ParsedSentence::Incomplete), "the first fragment is incomplete");
    let z = piece(1, byte(&ARMOUR));
    let k = choose(8);
    let m: String = match k {
        0 => cat(&[b"!AIVDM,2,1,,A,", &z, b",0"]),
        1 => cat(&[b"!AIVDM,2,2,,A,", &z, b",0"]),
        2 => cat(&[b"!AIVDM,2,0,", &[d], b",A,", &z, b",0"]),
        3 => cat(&[b"!AIVDM,2,3,", &[d], b",A,", &z, b",0"]),
        4 => cat(&[b"!AIVDM,2,2,", &[d], b",,", &z, b",0"]),
        5 => cat(&[b"!AIVDM,2,1,", &[d], b"x,A,", &z, b",0"]),
        6 => cat(&[b"!AIVDO,2,", n2, &[d], b",A,", &z, b",0"]),
        _ => cat(&[b"!AIVDM,2,", n2, &[d], b",B,", &z, b",0"]),
    };
    let r = feed(&mut q, &m);
    check(r == Ok(ParsedSentence::Incomplete), "an odd fragment is incomplete");
    let r = feed(&mut q, &cat(&[b"!AIVDM,2,", n2, &[d], b",A,", y, b",0"]));
    cover("pair");
    check(r == whole(false, cat(&[&p1, &p2]).as_bytes()), "the pending fragment is unharmed");
}
/// many messages pending at once, completed in some order
pub fn c15_many() {
    let mut q = NmeaParser::new();
    let tag = bytes::<3>(&ARMOUR);
    let back = choose(2);
    // 00, 01, .. 99 of the message kinds VDM and VDO, without and with channels
    let two = |k: usize| [b'0' + (k / 10 % 10) as u8, b'0' + (k % 10) as u8];
    let head = |k: usize, part: usize| Head { own: k >= 200, part, id: two(k), idn: 2, chan: b"AB"[k / 100 & 1] };
    let order = |k: usize, turn: usize| 1 + ((k + turn + back) & 1);
    let mut k = 0;
    while k < 270 {
        let p = order(k, 0);
        let r = feed(&mut q, &fragment(&head(k, p), &piece(p, if k % 30 == 0 { tag[k % 3] } else { b'5' })));
        check(r == Ok(ParsedSentence::Incomplete), "the first fragment is incomplete");
        k += 1;
    }
    let mut k = [0, 240][choose(2)];
    let mut n = 0;
    while n < 5 {
        let p = order(k, 1);
        let r = feed(&mut q, &fragment(&head(k, p), &piece(p, tag[(k + 1) % 3])));
        let (a, b) = if p == 2 { (tag[k % 3], tag[(k + 1) % 3]) } else { (tag[(k + 1) % 3], tag[k % 3]) };
        check(r == whole(k >= 200, cat(&[&piece(1, a), &piece(2, b)]).as_bytes()), "a pair is combined");
        cover("pair");
        k = (k + 120) % 270;
        n += 1;
    }
}
/// many other sentences between the fragments
pub fn c15_later() {
    let mut q = NmeaParser::new();
    let (a, b) = (byte(&ARMOUR), byte(&ARMOUR));
    let h = Head { own: false, part: 1, id: *b"30", idn: 1, chan: b'A' };
    let back = choose(2) == 1;
    let x = fragment(&h, &piece(1, a));
    let y = fragment(&Head { part: 2, ..h }, &piece(2, b));
    let (x, y) = if back { (y, x) } else { (x, y) };
    check(feed(&mut q, &x) == Ok(ParsedSentence::Incomplete), "the first fragment is incomplete");
    let s = [
        "!AIVDM,1,1,,A,35MC>W@01EIAn5VA4l`N2;>0015@,0",
        "$GPGLL,4916.45,N,12311.12,W,225444,A",
        "!AIVDM,1,1,,B,<5000,0",
        "$GPGSV,1,1,01,01,15,270,00",
    ][choose(4)];
    let mut k = 0;
    while k < 270 {
        let _ = q.parse_sentence(s);
        k += 1;
    }
    cover("pair");
    check(feed(&mut q, &y) == whole(false, cat(&[&piece(1, a), &piece(2, b)]).as_bytes()), "a pair is combined");
}
