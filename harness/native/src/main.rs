//! Runs a harness natively over the concrete bytes of a model.
//! replay <harness> <hex bytes>
//! exit 0: every check passed; 1: a check failed; 2: a known finding showed; 3: an assumption
//! failed or the model does not fit; 101/134: panic
#[path = "../../src/lib.rs"]
mod h;
use std::sync::Mutex;

struct St {
    data: Vec<u8>,
    at: usize,
    bad: u32,
    known: u32,
    time: Option<(u64, u64)>,
}
static ST: Mutex<St> = Mutex::new(St { data: vec![], at: 0, bad: 0, known: 0, time: None });

fn st() -> std::sync::MutexGuard<'static, St> {
    ST.lock().unwrap_or_else(|e| e.into_inner())
}
unsafe fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string()
}
#[no_mangle]
extern "C" fn sym_bytes(p: *mut u8, n: usize, dom: *const u8) {
    let mut g = st();
    for i in 0..n {
        if g.at >= g.data.len() {
            // the model ends where the engine stopped: what follows is not part of the witness
            println!("END-OF-MODEL");
            let c = if g.bad > 0 { 1 } else if g.known > 0 { 2 } else { 0 };
            drop(g);
            std::process::exit(c);
        }
        let b = g.data[g.at];
        g.at += 1;
        if !dom.is_null() && unsafe { *dom.add(b as usize / 8) } >> (b % 8) & 1 == 0 {
            println!("OUTSIDE-DOMAIN");
            std::process::exit(3);
        }
        unsafe { *p.add(i) = b };
    }
}
#[no_mangle]
extern "C" fn sym_assume(b: bool) {
    if !b {
        println!("ASSUMPTION-FALSE");
        std::process::exit(if st().bad > 0 { 1 } else { 3 });
    }
}
#[no_mangle]
extern "C" fn sym_check(b: bool, p: *const u8, n: usize) {
    if !b {
        println!("CHECK-FAILED {}", unsafe { s(p, n) });
        st().bad += 1;
    }
}
#[no_mangle]
extern "C" fn sym_known(ok: bool, known: bool, p: *const u8, n: usize) {
    if !ok {
        let id = unsafe { s(p, n) };
        if known {
            println!("KNOWN {}", id);
            st().known += 1;
        } else {
            println!("CHECK-FAILED {}", id);
            st().bad += 1;
        }
    }
}
#[no_mangle]
extern "C" fn sym_cover(p: *const u8, n: usize) {
    println!("COVER {}", unsafe { s(p, n) });
}
#[no_mangle]
extern "C" fn sym_close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
#[no_mangle]
extern "C" fn sym_pick(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C" fn sym_time(secs: u64, nsec: u64) {
    st().time = Some((secs, nsec));
}
#[no_mangle]
extern "C" fn sym_mode(_m: u64) {}
#[no_mangle]
extern "C" fn sym_out(k: u64, v: u64) {
    println!("OUT {} {}", k, v);
}
#[no_mangle]
extern "C" fn sym_note(p: *const u8, n: usize) -> u64 {
    println!("SENTENCE {:?}", unsafe { s(p, n) });
    0
}
#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
/// The harness decides what time it is.
#[no_mangle]
extern "C" fn clock_gettime(_c: i32, t: *mut Timespec) -> i32 {
    let (a, b) = match ST.try_lock() {
        Ok(g) => g.time.unwrap_or((1_600_000_000, 0)),
        Err(_) => (1_600_000_000, 0),
    };
    unsafe {
        (*t).sec = a as i64;
        (*t).nsec = b as i64;
    }
    0
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--list" {
        for (n, _) in h::HARNESSES {
            println!("{}", n);
        }
        return;
    }
    let f = match h::HARNESSES.iter().find(|x| x.0 == a[1]) {
        Some(f) => f.1,
        None => {
            println!("NO-SUCH-HARNESS");
            std::process::exit(3);
        }
    };
    let hx = a.get(2).cloned().unwrap_or_default();
    st().data = (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()).collect();
    f();
    let g = st();
    println!("DONE");
    std::process::exit(if g.bad > 0 {
        1
    } else if g.known > 0 {
        2
    } else {
        0
    });
}
