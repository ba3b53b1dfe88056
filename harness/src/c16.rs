//! C16: GSV groups
use super::nmea::*;
use super::sym::*;
use super::util::*;

static PRN1: Dom = Dom::none().range(b'0', b'2');
static PRN2: Dom = Dom::none().range(b'0', b'4');
/// a satellite's four fields; absent ones are empty
struct Sat {
    t: [[u8; 3]; 4],
    n: [usize; 4],
    v: [u64; 4],
}
fn sat(on: [bool; 4], long: bool) -> Sat {
    let mut s = Sat { t: [[0; 3]; 4], n: [0; 4], v: [0; 4] };
    let w = if long { [3, 3, 3, 3] } else { [2, 2, 3, 2] };
    let mut k = 0;
    while k < 4 {
        if on[k] {
            let n = w[k];
            if n == 3 && k != 2 {
                // up to 249
                s.t[k][0] = byte(&PRN1);
                s.t[k][1] = byte(&PRN2);
                s.t[k][2] = byte(&DIGIT);
            } else {
                fill(&mut s.t[k][..n], &DIGIT);
            }
            s.n[k] = n;
            s.v[k] = num(&s.t[k][..n]);
        }
        k += 1;
    }
    s
}
fn put(v: &mut Vec<u8>, s: &Sat) {
    let mut k = 0;
    while k < 4 {
        v.push(b',');
        v.extend_from_slice(&s.t[k][..s.n[k]]);
        k += 1;
    }
}
fn sat_ok(g: &GsvData, s: &Sat) -> bool {
    (g.prn_number as u64 == s.v[0])
        & opt(g.elevation, s.n[1] > 0, s.v[1] as u8)
        & opt(g.azimuth, s.n[2] > 0, s.v[2] as u16)
        & opt(g.snr, s.n[3] > 0, s.v[3] as u8)
}
fn sentence(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
/// the satellites with a PRN, in order
fn list_ok(l: &[GsvData], s: &[Sat], src: NavigationSystem) -> bool {
    let mut ok = true;
    let mut k = 0;
    for x in s {
        if x.n[0] > 0 {
            if k < l.len() {
                ok &= sat_ok(&l[k], x) & (l[k].source == src);
            }
            k += 1;
        }
    }
    ok & (l.len() == k)
}
fn one(s: [Sat; 4], upto: usize) {
    let mut v = b"$GPGSV,1,1,04".to_vec();
    for x in &s[..upto] {
        put(&mut v, x);
    }
    match once(&sentence(v)) {
        Ok(ParsedSentence::Gsv(l)) => {
            cover("gsv");
            check(list_ok(&l, &s[..upto], NavigationSystem::Gps), "satellites");
        }
        _ => check(false, "kind"),
    }
}
const ALL: [bool; 4] = [true; 4];
pub fn c16_fields() {
    let long = choose(2) == 1;
    one([sat(ALL, long), sat(ALL, long), sat(ALL, long), sat(ALL, long)], choose(5));
}
/// any fields empty in one entry; entries without PRN
pub fn c16_empty() {
    mode(1);
    let (at, m, lone) = (choose(4), choose(16), choose(2) == 1);
    let e = [m & 1 != 0, m & 2 != 0, m & 4 != 0, m & 8 != 0];
    let f = |k: usize| {
        if k == at {
            sat(e, false)
        } else {
            sat(if lone { [false; 4] } else { ALL }, false)
        }
    };
    one([f(0), f(1), f(2), f(3)], 4);
}
/// a sentence that ends early
pub fn c16_cut() {
    let n = choose(16);
    let s = sat(ALL, false);
    let mut v = b"$GLGSV,1,1,04".to_vec();
    let mut c = Vec::new();
    put(&mut c, &s);
    put(&mut c, &s);
    // whole fields only
    let mut commas = 0;
    for x in &c {
        if *x == b',' {
            commas += 1;
        }
        if commas > n {
            break;
        }
        v.push(*x);
    }
    match once(&sentence(v)) {
        Ok(ParsedSentence::Gsv(l)) => {
            cover("gsv");
            let full = |from: usize| -> Sat {
                let mut x = Sat { t: s.t, n: s.n, v: s.v };
                let mut k = 0;
                while k < 4 {
                    if from + k >= n {
                        x.n[k] = 0;
                    }
                    k += 1;
                }
                x
            };
            check(list_ok(&l, &[full(0), full(4)], NavigationSystem::Glonass), "satellites");
        }
        _ => check(false, "kind"),
    }
}
fn gsv(talker: u8, count: usize, k: usize, tag: &[u8; 2]) -> String {
    cat(&[b"$G", &[talker], b"GSV,", &[b'0' + count as u8], b",", &[b'1' + k as u8], b",09,", tag, b",45,,33,2", &tag[1..], b",,270,"])
}
fn system(talker: u8) -> NavigationSystem {
    match talker {
        b'P' => NavigationSystem::Gps,
        b'L' => NavigationSystem::Glonass,
        _ => NavigationSystem::Galileo,
    }
}
fn group_ok(l: &[GsvData], tags: &[[u8; 2]], talker: u8) -> bool {
    let mut ok = l.len() == 2 * tags.len();
    if ok {
        let mut k = 0;
        while k < tags.len() {
            let (a, b) = (&l[2 * k], &l[2 * k + 1]);
            ok &= (a.prn_number as u64 == num(&tags[k])) & (b.prn_number as u64 == 20 + num(&tags[k][1..]));
            ok &= opt(a.elevation, true, 45) & opt(a.azimuth, false, 0) & opt(a.snr, true, 33);
            ok &= opt(b.elevation, false, 0) & opt(b.azimuth, true, 270) & opt(b.snr, false, 0);
            ok &= (a.source == system(talker)) & (b.source == system(talker));
            k += 1;
        }
    }
    ok
}
static TALKER: Dom = Dom::none().with(b"PLA");
/// n sentences of groups of `count`, of symbolic talkers, in any order, with repetitions
fn history(count: usize, n: usize) {
    mode(1);
    let mut tags = [[[0u8; 2]; 4]; 3];
    let mut i = 0;
    while i < 3 {
        let mut k = 0;
        while k < count {
            fill(&mut tags[i][k], &DIGIT);
            k += 1;
        }
        i += 1;
    }
    let mut have = [[false; 4]; 3];
    let mut p = NmeaParser::new();
    let mut e = 0;
    while e < n {
        let (t, k) = (choose(3), choose(count));
        let talker = [b'P', b'L', b'A'][t];
        let r = feed(&mut p, &gsv(talker, count, k, &tags[t][k]));
        have[t][k] = true;
        let mut all = true;
        let mut j = 0;
        while j < count {
            all &= have[t][j];
            j += 1;
        }
        if all {
            cover("group");
            have[t] = [false; 4];
            match r {
                Ok(ParsedSentence::Gsv(l)) => check(group_ok(&l, &tags[t][..count], talker), "the satellites of the group in order"),
                _ => check(false, "a whole group is complete"),
            }
        } else {
            check(r == Ok(ParsedSentence::Incomplete), "a part of a group is incomplete");
        }
        e += 1;
    }
}
pub fn c16_two() {
    history(2, 3)
}
pub fn c16_two4() {
    history(2, 4)
}
pub fn c16_three() {
    history(3, 4)
}
pub fn c16_three5() {
    history(3, 5)
}
pub fn c16_two5() {
    history(2, 5)
}
pub fn c16_single() {
    history(1, 2)
}
/// groups of up to nine sentences: any order of arrival of the last two, the same group twice
pub fn c16_long() {
    mode(1);
    let n = [3, 4, 9][choose(3)];
    let (a, b) = (choose(n), choose(n));
    if a == b {
        return;
    }
    let mut tags = [[0u8; 2]; 9];
    let mut k = 0;
    while k < n {
        fill(&mut tags[k], &DIGIT);
        k += 1;
    }
    let mut p = NmeaParser::new();
    let mut turn = 0;
    while turn < 2 {
        k = 0;
        while k < n {
            if (k != a) & (k != b) {
                check(feed(&mut p, &gsv(b'P', n, k, &tags[k])) == Ok(ParsedSentence::Incomplete), "a part of a group is incomplete");
            }
            k += 1;
        }
        check(feed(&mut p, &gsv(b'P', n, a, &tags[a])) == Ok(ParsedSentence::Incomplete), "a part of a group is incomplete");
        match feed(&mut p, &gsv(b'P', n, b, &tags[b])) {
            Ok(ParsedSentence::Gsv(l)) => {
                cover("group");
                check(group_ok(&l, &tags[..n], b'P'), "the satellites of the group in order")
            }
            _ => check(false, "a whole group is complete"),
        }
        turn += 1;
    }
}
/// two talkers of any two characters, interleaved
pub fn c16_talkers() {
    let (a, b) = (bytes::<2>(&ASCII_NAME), bytes::<2>(&ASCII_NAME));
    assume((a[0] != b[0]) | (a[1] != b[1]));
    let s = |t: &[u8; 2], n: &[u8], prn: &[u8]| cat(&[b"$", t, b"GSV,2,", n, b",02,", prn, b",45,,33"]);
    let mut p = NmeaParser::new();
    let first = choose(2) == 0;
    let (n1, n2): (&[u8], &[u8]) = if first { (b"1", b"2") } else { (b"2", b"1") };
    check(feed(&mut p, &s(&a, n1, b"11")) == Ok(ParsedSentence::Incomplete), "first of one talker");
    check(feed(&mut p, &s(&b, n2, b"22")) == Ok(ParsedSentence::Incomplete), "second of another talker");
    match feed(&mut p, &s(&a, n2, b"33")) {
        Ok(ParsedSentence::Gsv(l)) => {
            cover("group");
            check(l.len() == 2, "two satellites");
            if l.len() == 2 {
                check((l[0].prn_number == if first { 11 } else { 33 }) & (l[1].prn_number == if first { 33 } else { 11 }), "the talker's own satellites");
            }
        }
        _ => check(false, "the group is complete"),
    }
}
static ASCII_NAME: Dom = Dom::none().range(b'A', b'Z');
/// any count and number
pub fn c16_numbers() {
    let mut c = [0u8; 10];
    let mut m = [0u8; 10];
    let (nc, nm) = (1 + choose(2), 1 + choose(2));
    fill(&mut c[..nc], &DIGIT);
    fill(&mut m[..nm], &DIGIT);
    let (vc, vm) = (num(&c[..nc]), num(&m[..nm]));
    let mut p = NmeaParser::new();
    let r = feed(&mut p, &cat(&[b"$GPGSV,", &c[..nc], b",", &m[..nm], b",01,07,45,111,33"]));
    if (vc == 1) & (vm == 1) {
        cover("whole");
        check(matches!(r, Ok(ParsedSentence::Gsv(_))), "a group of one is complete");
    } else if (vm >= 1) & (vm <= vc) {
        cover("part");
        check(r == Ok(ParsedSentence::Incomplete), "a part of a group is incomplete");
    } else {
        cover("impossible");
        check(!matches!(r, Ok(ParsedSentence::Gsv(_))), "a number that cannot be is not complete");
    }
    // whatever it was, a group of one and another group work
    match feed(&mut p, "$GPGSV,1,1,01,08,45,111,33") {
        Ok(ParsedSentence::Gsv(l)) => check(l.len() == 1 && l[0].prn_number == 8, "a later group"),
        _ => check(false, "a later group"),
    }
}
/// large numbers: the first digit and the last two symbolic
pub fn c16_big() {
    mode(1);
    let (nc, nm) = ([1usize, 3, 5, 10][choose(4)], [1usize, 3, 5, 10][choose(4)]);
    let mut c = *b"4294967295";
    let mut m = *b"4294967295";
    c[0] = byte(&DIGIT);
    m[0] = byte(&DIGIT);
    c[nc - 1] = byte(&DIGIT);
    m[nm - 1] = byte(&DIGIT);
    let (vc, vm) = (num(&c[..nc]), num(&m[..nm]));
    assume((vc != 1) | (vm != 1));
    let r = once(&cat(&[b"$GPGSV,", &c[..nc], b",", &m[..nm], b",01,07,45,111,33"]));
    cover("gsv");
    check(!matches!(r, Ok(ParsedSentence::Gsv(_))), "one sentence does not complete a group");
}
/// empty or textual count and number
pub fn c16_odd() {
    let (a, b) = (field(choose(3)), field(choose(3)));
    let k = choose(2);
    let (c, m): (&[u8], &[u8]) = if k == 0 { (&a, b"2") } else { (b"2", &b) };
    let r = once(&cat(&[b"$GPGSV,", c, b",", m, b",01,07,45,111,33"]));
    cover("gsv");
    check(!matches!(r, Ok(ParsedSentence::Gsv(_))), "one sentence does not complete a group");
}
/// groups of many talkers pending at once
pub fn c16_many() {
    let tag = bytes::<2>(&DIGIT);
    let back = choose(2);
    let mut p = NmeaParser::new();
    let s = |k: usize, part: usize| cat(&[b"$", &[b'A' + (k / 26) as u8, b'A' + (k % 26) as u8], b"GSV,2,", &[b'1' + part as u8], b",02,", &[b'1' + (k & 3) as u8, tag[part]], b",45,,33"]);
    let mut k = 0;
    while k < 260 {
        check(feed(&mut p, &s(k, (k + back) & 1)) == Ok(ParsedSentence::Incomplete), "the first of a group is incomplete");
        k += 1;
    }
    let mut k = [0, 120, 259][choose(3)];
    let mut n = 0;
    while n < 40 {
        match feed(&mut p, &s(k, (k + back + 1) & 1)) {
            Ok(ParsedSentence::Gsv(l)) => {
                cover("group");
                check(l.len() == 2, "two satellites");
                let want = |t: u8| 10 * (1 + (k & 3) as u8) + t - b'0';
                check((l.len() == 2) && (l[0].prn_number == want(tag[0])) & (l[1].prn_number == want(tag[1])), "the talker's own satellites");
            }
            _ => check(false, "the group is complete"),
        }
        k = (k + 37) % 260;
        n += 1;
    }
}
/// groups with numbers of two and three digits, in several orders
pub fn c16_dozen() {
    mode(1);
    let n = [10usize, 12, 21, 101][choose(4)];
    let (a, b) = (bytes::<2>(&DIGIT), bytes::<2>(&DIGIT));
    let dec = |v: usize| v.to_string();
    let prn = |k: usize| if k == 1 { a } else if k == 9 { b } else { [b'0' + (k / 10 % 10) as u8, b'0' + (k % 10) as u8] };
    let s = |k: usize| cat(&[b"$GPGSV,", dec(n).as_bytes(), b",", dec(k + 1).as_bytes(), b",09,", &prn(k), b",45,,33"]);
    // forward, backward, or in steps that visit every sentence
    let (from, step) = [(0, 1), (n - 1, n - 1), (4, if n % 7 == 0 { 5 } else { 7 }), (n / 2, 1)][choose(4)];
    let mut p = NmeaParser::new();
    let (mut k, mut i) = (from, 0);
    while i < n - 1 {
        check(feed(&mut p, &s(k)) == Ok(ParsedSentence::Incomplete), "a part of a group is incomplete");
        k = (k + step) % n;
        i += 1;
    }
    match feed(&mut p, &s(k)) {
        Ok(ParsedSentence::Gsv(l)) => {
            cover("group");
            let mut ok = l.len() == n;
            let mut k = 0;
            while ok && k < n {
                let t = prn(k);
                ok &= l[k].prn_number as u64 == num(&t);
                k += 1;
            }
            check(ok, "the satellites of the group in order")
        }
        _ => check(false, "a whole group is complete"),
    }
}
