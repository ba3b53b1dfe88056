// Flat byte memory: copy-on-write pages, per-byte definedness and symbolic overlay.
use crate::expr::*;
use std::rc::Rc;

pub const PG: usize = 256;
#[derive(Clone)]
pub struct Page {
    pub b: [u8; PG],
    pub def: [u64; 4],
    pub sym: Option<Box<[(E, u8); PG]>>,
}
impl Page {
    fn new() -> Page {
        Page { b: [0; PG], def: [0; 4], sym: None }
    }
    #[inline]
    pub fn isdef(&self, i: usize) -> bool {
        self.def[i >> 6] >> (i & 63) & 1 == 1
    }
    #[inline]
    pub fn s(&self, i: usize) -> (E, u8) {
        match &self.sym {
            None => (0, 0),
            Some(s) => s[i],
        }
    }
}
pub type Mid = [Option<Rc<Page>>; 256]; // 64 KiB
#[derive(Clone)]
pub struct Region {
    pub base: u64,
    pub v: Rc<Vec<Option<Rc<Mid>>>>,
}
#[derive(Clone)]
pub struct Mem {
    pub g: Region,
    pub h: Region,
    pub s: Region,
    pub heap: u64,
    pub sp: u64,
}
pub const HEAP: u64 = 0x2000_0000;
pub const HEAP_END: u64 = 0x3000_0000;
pub const STACK: u64 = 0x7000_0000;
pub const STACK_END: u64 = 0x7200_0000;
const EMPTY: Option<Rc<Page>> = None;
impl Region {
    fn new(base: u64) -> Region {
        Region { base, v: Rc::new(vec![]) }
    }
    #[inline]
    fn page(&self, a: u64) -> Option<&Rc<Page>> {
        let o = a - self.base;
        let m = self.v.get((o >> 16) as usize)?.as_ref()?;
        m[(o >> 8 & 255) as usize].as_ref()
    }
    fn page_mut(&mut self, a: u64) -> &mut Page {
        let o = a - self.base;
        let i = (o >> 16) as usize;
        let v = Rc::make_mut(&mut self.v);
        if v.len() <= i {
            v.resize(i + 1, None);
        }
        let m = v[i].get_or_insert_with(|| Rc::new([EMPTY; 256]));
        let m = Rc::make_mut(m);
        let p = m[(o >> 8 & 255) as usize].get_or_insert_with(|| Rc::new(Page::new()));
        Rc::make_mut(p)
    }
    fn drop_page(&mut self, a: u64) {
        let o = a - self.base;
        let i = (o >> 16) as usize;
        if let Some(Some(m)) = self.v.get(i) {
            if m[(o >> 8 & 255) as usize].is_some() {
                let v = Rc::make_mut(&mut self.v);
                let m = Rc::make_mut(v[i].as_mut().unwrap());
                m[(o >> 8 & 255) as usize] = None;
            }
        }
    }
}
impl Mem {
    pub fn new() -> Mem {
        Mem { g: Region::new(crate::ir::GLOB_BASE), h: Region::new(HEAP), s: Region::new(STACK), heap: HEAP + 64, sp: STACK + 64 }
    }
    #[inline]
    fn reg(&self, a: u64) -> Option<&Region> {
        if a >= STACK && a < STACK_END {
            Some(&self.s)
        } else if a >= HEAP && a < HEAP_END {
            Some(&self.h)
        } else if a >= crate::ir::GLOB_BASE && a < HEAP {
            Some(&self.g)
        } else {
            None
        }
    }
    #[inline]
    fn reg_mut(&mut self, a: u64) -> Option<&mut Region> {
        if a >= STACK && a < STACK_END {
            Some(&mut self.s)
        } else if a >= HEAP && a < HEAP_END {
            Some(&mut self.h)
        } else if a >= crate::ir::GLOB_BASE && a < HEAP {
            Some(&mut self.g)
        } else {
            None
        }
    }
    pub fn valid(&self, a: u64, n: u64) -> bool {
        self.reg(a).is_some() && self.reg(a + n.max(1) - 1).is_some()
    }
    #[inline]
    pub fn page(&self, a: u64) -> Option<&Rc<Page>> {
        self.reg(a)?.page(a)
    }
    /// concrete read of up to 8 bytes; None when a byte is symbolic
    #[inline]
    pub fn rd(&self, a: u64, n: usize) -> Option<u64> {
        let o = (a & 255) as usize;
        if o + n <= PG {
            match self.page(a) {
                None => Some(0),
                Some(p) => {
                    if let Some(s) = &p.sym {
                        for i in o..o + n {
                            if s[i].0 != 0 {
                                return None;
                            }
                        }
                    }
                    let mut x = [0u8; 8];
                    x[..n].copy_from_slice(&p.b[o..o + n]);
                    Some(u64::from_le_bytes(x))
                }
            }
        } else {
            let mut r = 0u64;
            for i in 0..n {
                let (b, s, _) = self.byte(a + i as u64);
                if s.0 != 0 {
                    return None;
                }
                r |= (b as u64) << (8 * i);
            }
            Some(r)
        }
    }
    #[inline]
    pub fn byte(&self, a: u64) -> (u8, (E, u8), bool) {
        match self.page(a) {
            None => (0, (0, 0), false),
            Some(p) => {
                let o = (a & 255) as usize;
                (p.b[o], p.s(o), p.isdef(o))
            }
        }
    }
    pub fn rd_e(&self, a: u64, n: usize) -> E {
        let mut parts: Vec<E> = vec![];
        let mut i = 0;
        while i < n {
            let (b, s, _) = self.byte(a + i as u64);
            if s.0 == 0 {
                let mut v = b as u128;
                let mut j = i + 1;
                while j < n {
                    let (b2, s2, _) = self.byte(a + j as u64);
                    if s2.0 != 0 {
                        break;
                    }
                    v |= (b2 as u128) << (8 * (j - i));
                    j += 1;
                }
                parts.push(konst(8 * (j - i) as u32, v));
                i = j;
            } else {
                let mut j = i + 1;
                while j < n {
                    let (_, s2, _) = self.byte(a + j as u64);
                    if s2.0 != s.0 || s2.1 as usize != s.1 as usize + (j - i) {
                        break;
                    }
                    j += 1;
                }
                parts.push(extract(s.0, 8 * s.1 as u32, 8 * (j - i) as u32));
                i = j;
            }
        }
        concat(parts)
    }
    #[inline]
    pub fn wr(&mut self, a: u64, v: u64, n: usize) {
        let o = (a & 255) as usize;
        if o + n <= PG {
            let p = self.reg_mut(a).expect("bad address").page_mut(a);
            p.b[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            for i in o..o + n {
                p.def[i >> 6] |= 1 << (i & 63);
            }
            if let Some(s) = &mut p.sym {
                for i in o..o + n {
                    s[i] = (0, 0);
                }
            }
        } else {
            for i in 0..n {
                self.wr(a + i as u64, v >> (8 * i), 1);
            }
        }
    }
    pub fn wr_byte(&mut self, a: u64, b: u8, s: (E, u8), def: bool) {
        let o = (a & 255) as usize;
        let p = self.reg_mut(a).expect("bad address").page_mut(a);
        p.b[o] = b;
        if def {
            p.def[o >> 6] |= 1 << (o & 63);
        } else {
            p.def[o >> 6] &= !(1 << (o & 63));
        }
        if s.0 != 0 {
            let t = p.sym.get_or_insert_with(|| Box::new([(0, 0); PG]));
            t[o] = s;
        } else if let Some(t) = &mut p.sym {
            t[o] = (0, 0);
        }
    }
    /// store expression of a width that is a multiple of 8
    pub fn wr_e(&mut self, a: u64, e: E) {
        let w = width(e);
        let n = nd(e);
        for i in 0..(w / 8) {
            let kn = (n.k0 | n.k1) >> (8 * i) & 255;
            if kn == 255 {
                self.wr_byte(a + i as u64, (n.k1 >> (8 * i)) as u8, (0, 0), true);
            } else {
                self.wr_byte(a + i as u64, 0, (e, i as u8), true);
            }
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s {
            return;
        }
        let plain = |m: &Mem, a: u64, n: u64| -> bool {
            let mut p = a & !255;
            while p < a + n {
                if let Some(pg) = m.page(p) {
                    if pg.sym.is_some() {
                        return false;
                    }
                } else {
                    return false;
                }
                p += 256;
            }
            true
        };
        if plain(self, s, n) {
            // concrete source (definedness is treated as defined)
            let mut buf = vec![0u8; n as usize];
            self.rd_bytes(s, &mut buf);
            let mut i = 0u64;
            // keep definedness where whole pages are defined; otherwise per byte
            let mut alldef = true;
            {
                let mut p = s & !255;
                while p < s + n {
                    if let Some(pg) = self.page(p) {
                        if pg.def != [u64::MAX; 4] {
                            let lo = s.max(p) - p;
                            let hi = (s + n).min(p + 256) - p;
                            for k in lo..hi {
                                if !pg.isdef(k as usize) {
                                    alldef = false;
                                    break;
                                }
                            }
                        }
                    }
                    p += 256;
                }
            }
            if alldef {
                while i < n {
                    let a = d + i;
                    let o = (a & 255) as usize;
                    let k = ((PG - o) as u64).min(n - i) as usize;
                    let p = self.reg_mut(a).expect("bad address").page_mut(a);
                    p.b[o..o + k].copy_from_slice(&buf[i as usize..i as usize + k]);
                    for j in o..o + k {
                        p.def[j >> 6] |= 1 << (j & 63);
                    }
                    if let Some(t) = &mut p.sym {
                        for j in o..o + k {
                            t[j] = (0, 0);
                        }
                    }
                    i += k as u64;
                }
                return;
            }
        }
        let tmp: Vec<(u8, (E, u8), bool)> = (0..n).map(|i| self.byte(s + i)).collect();
        for (i, (b, s, df)) in tmp.into_iter().enumerate() {
            self.wr_byte(d + i as u64, b, s, df);
        }
    }
    pub fn rd_bytes(&self, a: u64, out: &mut [u8]) {
        for (i, o) in out.iter_mut().enumerate() {
            *o = self.byte(a + i as u64).0;
        }
    }
    pub fn set(&mut self, d: u64, v: u8, n: u64) {
        let mut i = 0;
        while i < n {
            let a = d + i;
            let o = (a & 255) as usize;
            let k = ((PG - o) as u64).min(n - i) as usize;
            let p = self.reg_mut(a).expect("bad address").page_mut(a);
            for j in o..o + k {
                p.b[j] = v;
                p.def[j >> 6] |= 1 << (j & 63);
            }
            if let Some(t) = &mut p.sym {
                for j in o..o + k {
                    t[j] = (0, 0);
                }
            }
            i += k as u64;
        }
    }
    pub fn undef(&mut self, d: u64, n: u64) {
        let mut i = 0;
        while i < n {
            let a = d + i;
            let o = (a & 255) as usize;
            let k = ((PG - o) as u64).min(n - i) as usize;
            if k == PG {
                self.reg_mut(a).expect("bad address").drop_page(a);
            } else if self.page(a).is_some() {
                let p = self.reg_mut(a).unwrap().page_mut(a);
                for j in o..o + k {
                    p.b[j] = 0;
                    p.def[j >> 6] &= !(1 << (j & 63));
                }
                if let Some(t) = &mut p.sym {
                    for j in o..o + k {
                        t[j] = (0, 0);
                    }
                }
            }
            i += k as u64;
        }
    }
    pub fn malloc(&mut self, n: u64, al: u64) -> u64 {
        // generous alignment keeps `base + small symbolic offset` carry free
        let al = al.max(64);
        let a = (self.heap + 16 + al - 1) / al * al;
        self.heap = a + n;
        if self.heap >= HEAP_END {
            return 0;
        }
        self.wr(a - 8, n, 8);
        a
    }
    /// (smallest, largest) possible size of the block
    pub fn size_of(&self, p: u64) -> (u64, u64) {
        match self.rd(p - 8, 8) {
            Some(n) => (n, n),
            None => {
                let e = self.rd_e(p - 8, 8);
                (nd(e).lo as u64, nd(e).hi as u64)
            }
        }
    }
    pub fn free(&mut self, p: u64) {
        if p == 0 {
            return;
        }
        let n = self.size_of(p).0;
        self.undef(p - 8, n + 8);
    }
    /// merge `o` into self under guard g (true = self). Err = pointer-like words differ.
    pub fn merge(&mut self, o: &Mem, g: E) -> Result<(), String> {
        if self.sp != o.sp {
            return Err("sp".into());
        }
        // first pass: check and collect differing pages
        let mut todo: Vec<u64> = vec![];
        for (ra, rb) in [(&self.g, &o.g), (&self.h, &o.h), (&self.s, &o.s)] {
            if Rc::ptr_eq(&ra.v, &rb.v) {
                continue;
            }
            let n = ra.v.len().max(rb.v.len());
            for i in 0..n {
                let (ma, mb) = (ra.v.get(i).and_then(|x| x.as_ref()), rb.v.get(i).and_then(|x| x.as_ref()));
                match (ma, mb) {
                    (None, None) => continue,
                    (Some(a), Some(b)) if Rc::ptr_eq(a, b) => continue,
                    _ => {}
                }
                for j in 0..256 {
                    let pa = ma.and_then(|m| m[j].as_ref());
                    let pb = mb.and_then(|m| m[j].as_ref());
                    match (pa, pb) {
                        (_, None) => continue,
                        (Some(a), Some(b)) if Rc::ptr_eq(a, b) => continue,
                        _ => {}
                    }
                    todo.push(ra.base + (i as u64) * 65536 + (j as u64) * 256);
                }
            }
        }
        for &a in &todo {
            let pb = o.page(a).unwrap();
            if let Some(pa) = self.page(a) {
                for w in 0..32 {
                    let k = w * 8;
                    let mut both = true;
                    for i in k..k + 8 {
                        if !pa.isdef(i) || !pb.isdef(i) || pa.s(i).0 != 0 || pb.s(i).0 != 0 {
                            both = false;
                            break;
                        }
                    }
                    if !both {
                        continue;
                    }
                    let x = u64::from_le_bytes(pa.b[k..k + 8].try_into().unwrap());
                    let y = u64::from_le_bytes(pb.b[k..k + 8].try_into().unwrap());
                    if x != y && (ptrlike(x) || ptrlike(y)) {
                        return Err(format!("pointer-like words at {:x}: {:x} {:x}", a + k as u64, x, y));
                    }
                }
            }
        }
        for &a in &todo {
            let pb = o.page(a).unwrap().clone();
            if self.page(a).is_none() {
                let p = self.reg_mut(a).unwrap().page_mut(a);
                *p = (*pb).clone();
                continue;
            }
            let pa = self.page(a).unwrap().clone();
            let mut i = 0;
            while i < PG {
                if !pb.isdef(i) {
                    i += 1;
                    continue;
                }
                if !pa.isdef(i) {
                    self.wr_byte(a + i as u64, pb.b[i], pb.s(i), true);
                    i += 1;
                    continue;
                }
                let same = |i: usize| pa.s(i) == pb.s(i) && (pa.s(i).0 != 0 || pa.b[i] == pb.b[i]);
                if same(i) {
                    i += 1;
                    continue;
                }
                // run of differing bytes within the aligned word
                let mut j = i + 1;
                while j & 7 != 0 && pa.isdef(j) && pb.isdef(j) && !same(j) {
                    j += 1;
                }
                let x = self.rd_e(a + i as u64, j - i);
                let y = o.rd_e(a + i as u64, j - i);
                let e = ite(g, x, y);
                self.wr_e(a + i as u64, e);
                i = j;
            }
        }
        self.heap = self.heap.max(o.heap);
        Ok(())
    }
}
pub fn ptrlike(x: u64) -> bool {
    x >= crate::ir::FN_BASE && x < STACK_END
}
