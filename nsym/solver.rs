// Path conditions, byte-domain reasoning and the SMT back end (libz3).
use crate::expr::*;
use crate::ir::FB;
use std::collections::{BTreeMap, HashMap};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_sort_to_ast(c: P, s: P) -> P;
    fn Z3_func_decl_to_ast(c: P, s: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, f: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, r: *mut u64) -> bool;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string() };
    eprintln!("ENGINE-ERROR z3 error code {} {}", e, m);
    std::process::exit(3);
}
pub struct Z3 {
    c: P,
    s: P,
    ast: FxMap<E, P>,
    vars: FxMap<u32, P>,
    fns: HashMap<String, P>,
}
pub type Mask = [u64; 4];
#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub splits: u64,
    pub relaxed: u64,
    pub time: f64,
    pub max_time: f64,
    pub cached: u64,
    pub by_domain: u64,
    pub by_rewrite: u64,
    pub fclose: u64,
    pub lifted: u64,
}
pub struct Solver {
    z: Option<Z3>,
    pub st: Stats,
    cache: HashMap<Vec<u64>, Option<Vec<(u32, u16)>>>,
    pub timeout_ms: u32,
    pub dump: Option<String>,
    last_model: Vec<(u32, u16)>,
    rng: u64,
    fpmemo: FxMap<E, E>,
    hasfp: FxMap<E, bool>,
}
/// path condition
#[derive(Clone)]
pub struct Pc {
    pub masks: Rc<Vec<Mask>>, // per var id; all-zero = not declared on this path
    pub decl: Rc<Vec<u32>>,   // declared variables in order
    pub multi: Rc<Vec<E>>,
    pub hist: Vec<E>, // conjuncts added since the enclosing merge region started
    pub model: Rc<Vec<u16>>,
}
pub enum Dec {
    True,
    False,
    Both(Rc<Vec<u16>>, Rc<Vec<u16>>), // models for true / false side
    Unknown(String),
}
fn mget(m: &Mask, i: usize) -> bool {
    m[i >> 6] >> (i & 63) & 1 == 1
}
fn mcount(m: &Mask) -> u32 {
    m.iter().map(|x| x.count_ones()).sum()
}
fn mfirst(m: &Mask) -> u16 {
    for i in 0..256 {
        if mget(m, i) {
            return i as u16;
        }
    }
    0
}
pub fn tab_mask(t: &[u64]) -> Mask {
    let mut m = [0u64; 4];
    for (i, x) in t.iter().enumerate() {
        if *x != 0 {
            m[i >> 6] |= 1 << (i & 63);
        }
    }
    m
}
fn mand(a: &Mask, b: &Mask) -> Mask {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn mempty(a: &Mask) -> bool {
    a.iter().all(|x| *x == 0)
}
impl Pc {
    pub fn new() -> Pc {
        Pc { masks: Rc::new(vec![]), decl: Rc::new(vec![]), multi: Rc::new(vec![]), hist: vec![], model: Rc::new(vec![]) }
    }
    pub fn declare(&mut self, v: u32) {
        let n = cx().vars[v as usize].dom.len();
        let m = Rc::make_mut(&mut self.masks);
        while m.len() <= v as usize {
            m.push([0; 4]);
        }
        let mut full = [0u64; 4];
        for i in 0..n {
            full[i >> 6] |= 1 << (i & 63);
        }
        m[v as usize] = full;
        Rc::make_mut(&mut self.decl).push(v);
        let md = Rc::make_mut(&mut self.model);
        while md.len() <= v as usize {
            md.push(0);
        }
        // default: middle of the domain gives more varied models
        md[v as usize] = ((v as usize * 7 + n / 2) % n) as u16;
    }
    pub fn fixed(&self, v: u32) -> Option<u16> {
        let m = self.masks.get(v as usize)?;
        if mcount(m) == 1 {
            Some(mfirst(m))
        } else {
            None
        }
    }
    /// the possible values if not all of the domain
    fn restricted(&self, v: u32) -> Option<Mask> {
        let m = self.masks.get(v as usize)?;
        if (mcount(m) as usize) < cx().vars[v as usize].dom.len() {
            Some(*m)
        } else {
            None
        }
    }
    /// rewrite an expression under the path's byte domains
    pub fn deep(&self, e: E) -> E {
        let f = |v: u32| self.restricted(v);
        Subst { f: &f, memo: FxMap::default() }.run(e)
    }
    fn simp_elem(&self, e: E) -> E {
        if let Op::Tab(v, t) = op(e) {
            let m = &self.masks[*v as usize];
            let tm = tab_mask(t);
            let a = mand(m, &tm);
            if mempty(&a) {
                return FALSE;
            }
            if a == *m {
                return TRUE;
            }
        }
        e
    }
    /// simplify a boolean under the path's byte domains
    pub fn simp(&self, e: E) -> E {
        match op(e) {
            Op::Const(_) => return e,
            Op::Tab(..) => return self.simp_elem(e),
            _ => {}
        }
        let mut e = e;
        let vs = vars_of(e);
        if vs.iter().any(|v| self.restricted(*v).is_some()) {
            e = self.deep(e);
        }
        if self.multi.contains(&e) {
            return TRUE;
        }
        self.simp_b(e, 6, &mut FxMap::default())
    }
    fn simp_b(&self, e: E, d: u32, memo: &mut FxMap<E, E>) -> E {
        match op(e) {
            Op::BAnd(_) | Op::BOr(_) if d > 0 => {
                if let Some(r) = memo.get(&e) {
                    return *r;
                }
                let r = self.simp_c(e, d, memo);
                memo.insert(e, r);
                r
            }
            _ => self.simp_c(e, d, memo),
        }
    }
    fn simp_c(&self, e: E, d: u32, memo: &mut FxMap<E, E>) -> E {
        match op(e) {
            Op::Tab(..) => self.simp_elem(e),
            Op::BAnd(l) if d > 0 => {
                let r: Vec<E> = l.iter().map(|&x| self.simp_b(x, d - 1, memo)).collect();
                if &r == l {
                    e
                } else {
                    and_n(r)
                }
            }
            Op::BOr(l) if d > 0 => {
                let r: Vec<E> = l.iter().map(|&x| self.simp_b(x, d - 1, memo)).collect();
                if &r == l {
                    e
                } else {
                    or_n(r)
                }
            }
            Op::Const(_) => e,
            _ => {
                if self.multi.contains(&e) {
                    return TRUE;
                }
                let n = not(e);
                if self.multi.contains(&n) {
                    return FALSE;
                }
                e
            }
        }
    }
    fn add1(&mut self, e: E) {
        match op(e) {
            Op::Const(_) => {}
            Op::BAnd(l) => {
                for &x in l {
                    self.add1(x)
                }
            }
            Op::Tab(v, t) => {
                let tm = tab_mask(t);
                let m = &mut Rc::make_mut(&mut self.masks)[*v as usize];
                *m = mand(m, &tm);
            }
            _ => {
                if !self.multi.contains(&e) {
                    Rc::make_mut(&mut self.multi).push(e);
                }
            }
        }
    }
    /// add a conjunct (known feasible together with `model`)
    pub fn add(&mut self, cond: E, model: Rc<Vec<u16>>) {
        let e = self.simp(cond);
        self.hist.push(cond);
        self.add1(e);
        self.model = model;
    }
    pub fn add_raw(&mut self, cond: E) {
        let e = self.simp(cond);
        self.hist.push(cond);
        self.add1(e);
    }
}
impl Z3 {
    fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_err as *const c_void);
            let l = CString::new("QF_UFBV").unwrap();
            let sy = Z3_mk_string_symbol(c, l.as_ptr());
            let s = Z3_mk_solver_for_logic(c, sy);
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, ast: FxMap::default(), vars: FxMap::default(), fns: HashMap::new() }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn bv(&self, w: u32) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            Z3_inc_ref(self.c, Z3_sort_to_ast(self.c, s));
            s
        }
    }
    fn num(&self, v: u128, w: u32) -> P {
        let s = CString::new(format!("{}", v)).unwrap();
        unsafe { self.keep(Z3_mk_numeral(self.c, s.as_ptr(), self.bv(w))) }
    }
    fn idx_bits(n: usize) -> u32 {
        let mut b = 1;
        while (1usize << b) < n {
            b += 1;
        }
        b
    }
    fn var(&mut self, v: u32) -> P {
        if let Some(&p) = self.vars.get(&v) {
            return p;
        }
        let b = Self::idx_bits(cx().vars[v as usize].dom.len());
        let nm = CString::new(format!("v{}", v)).unwrap();
        let p = unsafe {
            let sy = Z3_mk_string_symbol(self.c, nm.as_ptr());
            self.keep(Z3_mk_const(self.c, sy, self.bv(b)))
        };
        self.vars.insert(v, p);
        p
    }
    /// membership of the index in a set
    fn member(&mut self, v: u32, f: &dyn Fn(usize) -> bool) -> P {
        let n = cx().vars[v as usize].dom.len();
        let b = Self::idx_bits(n);
        let x = self.var(v);
        let full = 1usize << b;
        let g = |i: usize| i < n && f(i);
        let mut ors = vec![];
        let mut i = 0;
        while i < full {
            if !g(i) {
                i += 1;
                continue;
            }
            let mut j = i;
            while j + 1 < full && g(j + 1) {
                j += 1;
            }
            unsafe {
                if i == j {
                    ors.push(self.keep(Z3_mk_eq(self.c, x, self.num(i as u128, b))));
                } else {
                    let mut a = vec![];
                    if i > 0 {
                        a.push(self.keep(Z3_mk_bvule(self.c, self.num(i as u128, b), x)));
                    }
                    if j + 1 < full {
                        a.push(self.keep(Z3_mk_bvule(self.c, x, self.num(j as u128, b))));
                    }
                    ors.push(self.and(&a));
                }
            }
            i = j + 1;
        }
        self.or(&ors)
    }
    fn and(&self, a: &[P]) -> P {
        unsafe {
            match a.len() {
                0 => self.keep(Z3_mk_true(self.c)),
                1 => a[0],
                n => self.keep(Z3_mk_and(self.c, n as c_uint, a.as_ptr())),
            }
        }
    }
    fn or(&self, a: &[P]) -> P {
        unsafe {
            match a.len() {
                0 => self.keep(Z3_mk_false(self.c)),
                1 => a[0],
                n => self.keep(Z3_mk_or(self.c, n as c_uint, a.as_ptr())),
            }
        }
    }
    fn tab(&mut self, v: u32, t: &[u64], w: u32) -> P {
        let n = t.len();
        let b = Self::idx_bits(n);
        let x = self.var(v);
        if w == 1 {
            // bool: direct bit of the index?
            for j in 0..b {
                for neg in [0u64, 1] {
                    if (0..n).all(|i| t[i] == ((i as u64 >> j) & 1) ^ neg) {
                        return unsafe {
                            let e = self.keep(Z3_mk_extract(self.c, j, j, x));
                            self.keep(Z3_mk_eq(self.c, e, self.num(1 ^ neg as u128, 1)))
                        };
                    }
                }
            }
            let tt = t.to_vec();
            return self.member(v, &move |i| tt[i] != 0);
        }
        // bitwise selection of index bits
        let mut sel: Vec<(i32, u64)> = vec![];
        for o in 0..w {
            let c0 = t[0] >> o & 1;
            if t.iter().all(|y| y >> o & 1 == c0) {
                sel.push((-1, c0));
                continue;
            }
            let mut f = None;
            'l: for j in 0..b {
                for neg in [0u64, 1] {
                    if (0..n).all(|i| t[i] >> o & 1 == ((i as u64 >> j) & 1) ^ neg) {
                        f = Some((j as i32, neg));
                        break 'l;
                    }
                }
            }
            match f {
                Some(s) => sel.push(s),
                None => break,
            }
        }
        if sel.len() == w as usize {
            let mut parts: Vec<P> = vec![];
            let mut i = 0;
            while i < w as usize {
                let (j, ng) = sel[i];
                let mut k = i + 1;
                if j < 0 {
                    let mut c = ng as u128;
                    while k < w as usize && sel[k].0 < 0 {
                        c |= (sel[k].1 as u128) << (k - i);
                        k += 1;
                    }
                    parts.push(self.num(c, (k - i) as u32));
                } else {
                    while k < w as usize && sel[k].0 == j + (k - i) as i32 && sel[k].1 == ng {
                        k += 1;
                    }
                    unsafe {
                        let mut e = self.keep(Z3_mk_extract(self.c, (j as usize + k - i - 1) as u32, j as u32, x));
                        if ng == 1 {
                            e = self.keep(Z3_mk_bvnot(self.c, e));
                        }
                        parts.push(e);
                    }
                }
                i = k;
            }
            let mut r = parts[0];
            for p in &parts[1..] {
                r = unsafe { self.keep(Z3_mk_concat(self.c, *p, r)) };
            }
            return r;
        }
        // piecewise affine
        let m = mask(w) as u64;
        let mut segs: Vec<(usize, usize, u64, u64)> = vec![]; // start,end,base,step
        let mut i = 0;
        while i < n {
            let mut j = i;
            let mut step = 0;
            if i + 1 < n {
                step = t[i + 1].wrapping_sub(t[i]) & m;
                j = i + 1;
                while j + 1 < n && t[j + 1].wrapping_sub(t[j]) & m == step {
                    j += 1;
                }
            }
            segs.push((i, j, t[i], step));
            i = j + 1;
        }
        unsafe {
            let wx = if w >= b { self.keep(Z3_mk_zero_ext(self.c, w - b, x)) } else { std::ptr::null_mut() };
            let val = |z: &Z3, s: &(usize, usize, u64, u64)| -> P {
                if s.3 == 0 {
                    return z.num(s.2 as u128, w);
                }
                if wx.is_null() {
                    return std::ptr::null_mut();
                }
                let base = s.2.wrapping_sub((s.0 as u64).wrapping_mul(s.3)) & m;
                let p = if s.3 == 1 { wx } else { z.keep(Z3_mk_bvmul(z.c, wx, z.num(s.3 as u128, w))) };
                if base == 0 {
                    p
                } else {
                    z.keep(Z3_mk_bvadd(z.c, p, z.num(base as u128, w)))
                }
            };
            if wx.is_null() {
                // narrow output: plain chain
                let mut r = self.num(t[n - 1] as u128, w);
                for i in (0..n - 1).rev() {
                    let c = self.keep(Z3_mk_eq(self.c, x, self.num(i as u128, b)));
                    r = self.keep(Z3_mk_ite(self.c, c, self.num(t[i] as u128, w), r));
                }
                return r;
            }
            let mut r = val(self, segs.last().unwrap());
            for s in segs[..segs.len() - 1].iter().rev() {
                let c = self.keep(Z3_mk_bvule(self.c, x, self.num(s.1 as u128, b)));
                let v = val(self, s);
                r = self.keep(Z3_mk_ite(self.c, c, v, r));
            }
            r
        }
    }
    fn sort(&self, w: u32) -> P {
        if w == 1 {
            unsafe { Z3_mk_bool_sort(self.c) }
        } else {
            self.bv(w)
        }
    }
    fn uf(&mut self, name: String, args: &[P], aw: &[u32], rw: u32) -> P {
        let f = match self.fns.get(&name) {
            Some(&f) => f,
            None => unsafe {
                let nm = CString::new(name.clone()).unwrap();
                let sy = Z3_mk_string_symbol(self.c, nm.as_ptr());
                let d: Vec<P> = aw.iter().map(|&w| self.sort(w)).collect();
                let f = Z3_mk_func_decl(self.c, sy, d.len() as c_uint, d.as_ptr(), if rw == 1 { Z3_mk_bool_sort(self.c) } else { self.bv(rw) });
                Z3_inc_ref(self.c, Z3_func_decl_to_ast(self.c, f));
                self.fns.insert(name, f);
                f
            },
        };
        unsafe { self.keep(Z3_mk_app(self.c, f, args.len() as c_uint, args.as_ptr())) }
    }
    // width-1 expressions are z3 Bools; `bvof` gives a 1-bit vector when needed
    fn bvof(&mut self, e: E) -> P {
        let a = self.tr(e);
        if width(e) == 1 {
            unsafe { self.keep(Z3_mk_ite(self.c, a, self.num(1, 1), self.num(0, 1))) }
        } else {
            a
        }
    }
    fn tr(&mut self, e: E) -> P {
        if let Some(&p) = self.ast.get(&e) {
            return p;
        }
        let w = width(e);
        let c = self.c;
        let r = unsafe {
            match op(e) {
                Op::Const(k) => {
                    if w == 1 {
                        if *k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(*k, w)
                    }
                }
                Op::Tab(v, t) => self.tab(*v, t, w),
                Op::Sum(k, t) => {
                    let mut r: P = std::ptr::null_mut();
                    for (x, co) in t {
                        let a = self.bvof(*x);
                        let a = if *co == 1 { a } else { self.keep(Z3_mk_bvmul(c, self.num(*co, w), a)) };
                        r = if r.is_null() { a } else { self.keep(Z3_mk_bvadd(c, r, a)) };
                    }
                    if *k != 0 {
                        r = self.keep(Z3_mk_bvadd(c, r, self.num(*k, w)));
                    }
                    if w == 1 {
                        r = Z3_mk_eq(c, r, self.num(1, 1));
                    }
                    r
                }
                Op::Mul(a, b)
                | Op::UDiv(a, b)
                | Op::SDiv(a, b)
                | Op::URem(a, b)
                | Op::SRem(a, b)
                | Op::And(a, b)
                | Op::Or(a, b)
                | Op::Shl(a, b)
                | Op::LShr(a, b)
                | Op::AShr(a, b) => {
                    let (x, y) = (self.bvof(*a), self.bvof(*b));
                    let f = match op(e) {
                        Op::Mul(..) => Z3_mk_bvmul,
                        Op::UDiv(..) => Z3_mk_bvudiv,
                        Op::SDiv(..) => Z3_mk_bvsdiv,
                        Op::URem(..) => Z3_mk_bvurem,
                        Op::SRem(..) => Z3_mk_bvsrem,
                        Op::And(..) => Z3_mk_bvand,
                        Op::Or(..) => Z3_mk_bvor,
                        Op::Shl(..) => Z3_mk_bvshl,
                        Op::LShr(..) => Z3_mk_bvlshr,
                        _ => Z3_mk_bvashr,
                    };
                    let r = f(c, x, y);
                    if w == 1 {
                        let r = self.keep(r);
                        Z3_mk_eq(c, r, self.num(1, 1))
                    } else {
                        r
                    }
                }
                Op::Concat(p) => {
                    let mut r = self.bvof(p[0]);
                    for x in &p[1..] {
                        let y = self.bvof(*x);
                        r = self.keep(Z3_mk_concat(c, y, r));
                    }
                    r
                }
                Op::Extract(a, lo) => {
                    let x = self.bvof(*a);
                    let x = self.keep(Z3_mk_extract(c, lo + w - 1, *lo, x));
                    if w == 1 {
                        Z3_mk_eq(c, x, self.num(1, 1))
                    } else {
                        x
                    }
                }
                Op::Xor(a, b) => {
                    let (x, y) = (self.tr(*a), self.tr(*b));
                    if w == 1 {
                        Z3_mk_xor(c, x, y)
                    } else {
                        Z3_mk_bvxor(c, x, y)
                    }
                }
                Op::BAnd(l) => {
                    let v: Vec<P> = l.iter().map(|x| self.tr(*x)).collect();
                    self.and(&v)
                }
                Op::BOr(l) => {
                    let v: Vec<P> = l.iter().map(|x| self.tr(*x)).collect();
                    self.or(&v)
                }
                Op::BNot(a) => Z3_mk_not(c, self.tr(*a)),
                Op::Eq(a, b) => Z3_mk_eq(c, self.tr(*a), self.tr(*b)),
                Op::Ult(a, b) => Z3_mk_bvult(c, self.bvof(*a), self.bvof(*b)),
                Op::Slt(a, b) => Z3_mk_bvslt(c, self.bvof(*a), self.bvof(*b)),
                Op::Ite(k, a, b) => {
                    let (x, y, z) = (self.tr(*k), self.tr(*a), self.tr(*b));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::FCmp(p, a, b) => {
                    let (mut p, mut a, mut b) = (*p, *a, *b);
                    if a > b {
                        std::mem::swap(&mut a, &mut b);
                        p = (p & 9) | (p & 2) << 1 | (p & 4) >> 1;
                    }
                    let wa = width(a);
                    let (x, y) = (self.tr(a), self.tr(b));
                    let rel = self.uf(format!("rel{}", wa), &[x, y], &[wa, wa], 2);
                    let mut o = vec![];
                    for (i, bit) in [1u8, 2, 4, 8].iter().enumerate() {
                        if p & bit != 0 {
                            o.push(self.keep(Z3_mk_eq(c, rel, self.num(i as u128, 2))));
                        }
                    }
                    self.or(&o)
                }
                o => {
                    let mut l = vec![];
                    children(o, |x| l.push(x));
                    let aw: Vec<u32> = l.iter().map(|&x| width(x)).collect();
                    let args: Vec<P> = l.iter().map(|&x| self.tr(x)).collect();
                    let nm = match o {
                        Op::F(k, ..) => format!("F{:?}_{}", k, w),
                        Op::FAbs(_) => format!("FAbs_{}", w),
                        Op::FNeg(_) => format!("FNeg_{}", w),
                        Op::FRnd(k, _) => format!("FRnd{}_{}", k, w),
                        Op::IToF(s, _) => format!("IToF{}_{}_{}", s, aw[0], w),
                        Op::FToI(s, _) => format!("FToI{}_{}_{}", s, aw[0], w),
                        Op::FExt(_) => "FExt".to_string(),
                        Op::FTrunc(_) => "FTrunc".to_string(),
                        Op::FClose(_, _, t) => format!("FClose{:x}_{}", t, aw[0]),
                        _ => unreachable!(),
                    };
                    self.uf(nm, &args, &aw, w)
                }
            }
        };
        self.keep(r);
        self.ast.insert(e, r);
        r
    }
}
pub fn has_fp(e: E, memo: &mut FxMap<E, bool>) -> bool {
    if nd(e).vs == 0 {
        return false;
    }
    match op(e) {
        Op::Const(_) | Op::Tab(..) => return false,
        Op::F(..) | Op::FAbs(_) | Op::FNeg(_) | Op::FRnd(..) | Op::FCmp(..) | Op::IToF(..) | Op::FToI(..) | Op::FExt(_) | Op::FTrunc(_) | Op::FClose(..) => return true,
        _ => {}
    }
    if let Some(x) = memo.get(&e) {
        return *x;
    }
    let mut l = vec![];
    children(op(e), |x| l.push(x));
    let r = l.into_iter().any(|x| has_fp(x, memo));
    memo.insert(e, r);
    r
}
/// variables that occur, for slicing
impl Solver {
    pub fn new() -> Solver {
        Solver { z: None, st: Stats::default(), cache: HashMap::new(), timeout_ms: 60_000, dump: None, last_model: vec![], rng: 88172645463325252, fpmemo: FxMap::default(), hasfp: FxMap::default() }
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    fn slice(&self, pc: &Pc, extra: E) -> (Vec<u32>, Vec<E>) {
        let mut vars: Vec<u32> = vars_of(extra).to_vec();
        let mut inset: std::collections::HashSet<u32> = vars.iter().cloned().collect();
        let mut cons = vec![];
        let mut used = vec![false; pc.multi.len()];
        let mut ch = true;
        while ch {
            ch = false;
            for (i, &m) in pc.multi.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let mv = vars_of(m);
                if mv.iter().any(|v| inset.contains(v) && pc.fixed(*v).is_none()) {
                    used[i] = true;
                    ch = true;
                    cons.push(m);
                    for v in mv.iter() {
                        if inset.insert(*v) {
                            vars.push(*v);
                        }
                    }
                }
            }
        }
        vars.sort();
        cons.sort();
        (vars, cons)
    }
    /// is pc /\ extra satisfiable?  Ok(None)=no, Ok(Some(model))=yes, Err=unknown
    pub fn sat(&mut self, pc: &Pc, extra: E) -> Result<Option<Rc<Vec<u16>>>, String> {
        self.sat_in(pc, extra, 0, None)
    }
    /// case split on one variable of a query the solver could not answer as a whole
    fn split(&mut self, pc: &Pc, vars: &[u32], cons: &[E], extra: E, depth: u32, end: Option<Instant>, why: String) -> Result<Option<Rc<Vec<u16>>>, String> {
        let end = end.unwrap_or_else(|| Instant::now() + std::time::Duration::from_millis(4 * self.timeout_ms as u64));
        let ev = vars_of(extra);
        let v = vars
            .iter()
            .filter(|v| mcount(&pc.masks[**v as usize]) > 1)
            .min_by_key(|v| (!ev.contains(v), mcount(&pc.masks[**v as usize]), **v))
            .copied();
        let v = match v {
            Some(v) if Instant::now() < end && depth < 24 => v,
            _ => {
                self.st.unknown += 1;
                return Err(why);
            }
        };
        self.st.splits += 1;
        let m = pc.masks[v as usize];
        let vals: Vec<u16> = (0..256u16).filter(|i| mget(&m, *i as usize)).collect();
        let groups: Vec<Vec<u16>> =
            if vals.len() <= 16 { vals.iter().map(|x| vec![*x]).collect() } else { vals.chunks((vals.len() + 1) / 2).map(|x| x.to_vec()).collect() };
        let mut all = cons.to_vec();
        all.push(extra);
        let q = and_n(all);
        // (the constraints are part of the query; known to the path, they would be simplified away)
        let rest = Rc::new(pc.multi.iter().copied().filter(|c| !cons.contains(c)).collect::<Vec<E>>());
        for g in groups {
            let mut p2 = pc.clone();
            p2.multi = rest.clone();
            let mut mk: Mask = [0; 4];
            for i in &g {
                mk[*i as usize >> 6] |= 1 << (i & 63);
            }
            Rc::make_mut(&mut p2.masks)[v as usize] = mk;
            let mut md = (*pc.model).clone();
            md[v as usize] = g[0];
            p2.model = Rc::new(md);
            if let Some(m) = self.sat_in(&p2, q, depth + 1, Some(end))? {
                return Ok(Some(m));
            }
        }
        Ok(None)
    }
    fn sat_in(&mut self, pc: &Pc, extra: E, depth: u32, end: Option<Instant>) -> Result<Option<Rc<Vec<u16>>>, String> {
        let extra = pc.simp(extra);
        if extra == FALSE {
            self.st.by_domain += 1;
            return Ok(None);
        }
        // (inside a case split the query holds every constraint the slice needs)
        if Eval::new(&pc.model).get(extra) != 0 {
            return Ok(Some(pc.model.clone()));
        }
        let extra = self.prove_fp(extra);
        if extra == FALSE {
            return Ok(None);
        }
        let extra = self.lift(pc, extra);
        if extra == FALSE {
            return Ok(None);
        }
        let (vars, cons) = self.slice(pc, extra);
        if cons.is_empty() {
            // exact by domains when the condition is a conjunction of tables (or a disjunction of such)
            if let Some(r) = self.by_dom(pc, extra) {
                self.st.by_domain += 1;
                return Ok(r);
            }
        }
        // constraints with variables of their own: solve without them, then satisfy them with those
        // variables (unsatisfiable without them is unsatisfiable; if the repair fails, the query is
        // solved as a whole)
        if !cons.is_empty() && depth == 0 {
            if let Some(r) = self.relaxed(pc, &cons, extra)? {
                return Ok(r);
            }
        }
        // cached?
        let mut key: Vec<u64> = vec![extra as u64];
        key.extend(cons.iter().map(|x| *x as u64));
        for v in &vars {
            key.push(1 << 40 | *v as u64);
            key.extend(pc.masks[*v as usize].iter());
        }
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            return Ok(r.as_ref().map(|l| {
                let mut m = (*pc.model).clone();
                for (v, i) in l {
                    m[*v as usize] = *i;
                }
                Rc::new(m)
            }));
        }
        // a few cheap candidate models
        for k in 0..24 {
            let mut m = (*pc.model).clone();
            let ev = vars_of(extra);
            for v in ev.iter() {
                if k % 3 == 1 && self.rnd() & 3 != 0 {
                    continue;
                }
                let mk = pc.masks[*v as usize];
                let n = mcount(&mk);
                let j = (self.rnd() % n as u64) as u32;
                let mut c = 0;
                for i in 0..256 {
                    if mget(&mk, i) {
                        if c == j {
                            m[*v as usize] = i as u16;
                            break;
                        }
                        c += 1;
                    }
                }
            }
            let mut ev = Eval::new(&m);
            if ev.get(extra) != 0 && cons.iter().all(|x| ev.get(*x) != 0) {
                drop(ev);
                let l: Vec<(u32, u16)> = vars.iter().map(|v| (*v, m[*v as usize])).collect();
                self.cache.insert(key, Some(l));
                return Ok(Some(Rc::new(m)));
            }
        }
        let t0 = Instant::now();
        let tmo = if depth == 0 { self.timeout_ms / 6 } else { self.timeout_ms / 12 };
        let r = self.z3(pc, &vars, &cons, extra, tmo);
        let dt = t0.elapsed().as_secs_f64();
        self.st.queries += 1;
        self.st.time += dt;
        if dt > self.st.max_time {
            self.st.max_time = dt;
        }
        match r {
            0 => {
                self.st.unsat += 1;
                self.cache.insert(key, None);
                Ok(None)
            }
            1 => {
                self.st.sat += 1;
                let l = std::mem::take(&mut self.last_model);
                let mut m = (*pc.model).clone();
                for (v, i) in &l {
                    m[*v as usize] = *i;
                }
                let mut ev = Eval::new(&m);
                let ok = ev.get(extra) != 0 && cons.iter().all(|x| ev.get(*x) != 0);
                drop(ev);
                if ok {
                    self.cache.insert(key, Some(l));
                    return Ok(Some(Rc::new(m)));
                }
                // floating point abstraction: search around the candidate
                for _ in 0..4000 {
                    let mut m2 = m.clone();
                    for v in &vars {
                        if self.rnd() & 1 == 0 {
                            continue;
                        }
                        let mk = pc.masks[*v as usize];
                        let n = mcount(&mk);
                        let j = (self.rnd() % n as u64) as u32;
                        let mut c = 0;
                        for i in 0..256 {
                            if mget(&mk, i) {
                                if c == j {
                                    m2[*v as usize] = i as u16;
                                    break;
                                }
                                c += 1;
                            }
                        }
                    }
                    let mut ev = Eval::new(&m2);
                    if ev.get(extra) != 0 && cons.iter().all(|x| ev.get(*x) != 0) {
                        drop(ev);
                        let l: Vec<(u32, u16)> = vars.iter().map(|v| (*v, m2[*v as usize])).collect();
                        self.cache.insert(key, Some(l));
                        return Ok(Some(Rc::new(m2)));
                    }
                }
                let r = self.split(pc, &vars, &cons, extra, depth, end, format!("floating-point abstraction undecided: {}", show(extra, 18)))?;
                self.remember(key, &vars, &r);
                Ok(r)
            }
            _ => {
                let r = self.split(pc, &vars, &cons, extra, depth, end, format!("solver timeout on {}", show(extra, 5)))?;
                self.remember(key, &vars, &r);
                Ok(r)
            }
        }
    }
    fn relaxed(&mut self, pc: &Pc, cons: &[E], extra: E) -> Result<Option<Option<Rc<Vec<u16>>>>, String> {
        let mut count: FxMap<u32, u32> = FxMap::default();
        for v in vars_of(extra).iter() {
            *count.entry(*v).or_insert(0) += 1;
        }
        for c in cons {
            for v in vars_of(*c).iter() {
                *count.entry(*v).or_insert(0) += 1;
            }
        }
        let mut left: Vec<E> = cons.to_vec();
        let mut gone: Vec<(E, Vec<u32>)> = vec![];
        loop {
            let n = left.len();
            let mut i = 0;
            while i < left.len() {
                let c = left[i];
                let own: Vec<u32> = vars_of(c).iter().copied().filter(|v| count[v] == 1 && pc.fixed(*v).is_none()).collect();
                if own.is_empty() {
                    i += 1;
                    continue;
                }
                for v in vars_of(c).iter() {
                    *count.get_mut(v).unwrap() -= 1;
                }
                gone.push((c, own));
                left.remove(i);
            }
            if left.len() == n {
                break;
            }
        }
        if gone.is_empty() {
            return Ok(None);
        }
        let mut p2 = pc.clone();
        let drop: std::collections::HashSet<E> = gone.iter().map(|g| g.0).collect();
        p2.multi = Rc::new(pc.multi.iter().copied().filter(|c| !drop.contains(c)).collect());
        let m = match self.sat_in(&p2, extra, 0, None) {
            Ok(None) => return Ok(Some(None)),
            Ok(Some(m)) => m,
            Err(_) => return Ok(None),
        };
        let mut m = (*m).clone();
        'next: for (c, own) in gone.iter().rev() {
            if Eval::new(&m).get(*c) != 0 {
                continue;
            }
            // one variable at a time, then random ones together
            for v in own {
                let old = m[*v as usize];
                let mk = pc.masks[*v as usize];
                for i in 0..256u16 {
                    if mget(&mk, i as usize) {
                        m[*v as usize] = i;
                        if Eval::new(&m).get(*c) != 0 {
                            continue 'next;
                        }
                    }
                }
                m[*v as usize] = old;
            }
            for _ in 0..200 {
                for v in own {
                    let mk = pc.masks[*v as usize];
                    let l: Vec<u16> = (0..256u16).filter(|i| mget(&mk, *i as usize)).collect();
                    let k = self.rnd() as usize % l.len();
                    m[*v as usize] = l[k];
                }
                if Eval::new(&m).get(*c) != 0 {
                    continue 'next;
                }
            }
            return Ok(None);
        }
        self.st.relaxed += 1;
        Ok(Some(Some(Rc::new(m))))
    }
    fn remember(&mut self, key: Vec<u64>, vars: &[u32], r: &Option<Rc<Vec<u16>>>) {
        let l = r.as_ref().map(|m| vars.iter().map(|v| (*v, m[*v as usize])).collect());
        self.cache.insert(key, l);
    }
    fn by_dom(&self, pc: &Pc, e: E) -> Option<Option<Rc<Vec<u16>>>> {
        match op(e) {
            Op::Tab(v, t) => {
                let m = mand(&pc.masks[*v as usize], &tab_mask(t));
                if mempty(&m) {
                    return Some(None);
                }
                let mut md = (*pc.model).clone();
                md[*v as usize] = mfirst(&m);
                Some(Some(Rc::new(md)))
            }
            Op::BAnd(l) if l.iter().all(|x| matches!(op(*x), Op::Tab(..))) => {
                let mut md = (*pc.model).clone();
                for &x in l {
                    if let Op::Tab(v, t) = op(x) {
                        let m = mand(&pc.masks[*v as usize], &tab_mask(t));
                        if mempty(&m) {
                            return Some(None);
                        }
                        md[*v as usize] = mfirst(&m);
                    }
                }
                Some(Some(Rc::new(md)))
            }
            Op::BOr(l) => {
                let mut all = true;
                for &x in l {
                    match self.by_dom(pc, x) {
                        Some(Some(m)) => return Some(Some(m)),
                        Some(None) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(None)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn z3(&mut self, pc: &Pc, vars: &[u32], cons: &[E], extra: E, tmo: u32) -> i32 {
        if self.z.is_none() {
            self.z = Some(Z3::new());
        }
        let z = self.z.as_mut().unwrap();
        unsafe {
            let p = Z3_mk_params(z.c);
            Z3_params_inc_ref(z.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(z.c, p, Z3_mk_string_symbol(z.c, k.as_ptr()), tmo);
            Z3_solver_set_params(z.c, z.s, p);
            Z3_solver_push(z.c, z.s);
            for &v in vars {
                let m = pc.masks[v as usize];
                let a = z.member(v, &move |i| mget(&m, i));
                Z3_solver_assert(z.c, z.s, a);
            }
            for &c in cons {
                let a = z.tr(c);
                Z3_solver_assert(z.c, z.s, a);
            }
            let a = z.tr(extra);
            Z3_solver_assert(z.c, z.s, a);
            if let Some(d) = &self.dump {
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(z.c, z.s)).to_string_lossy().to_string();
                let _ = std::fs::write(format!("{}/q{}.smt2", d, self.st.queries), s + "\n(check-sat)\n");
            }
            let r = Z3_solver_check(z.c, z.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(z.c, z.s);
                    Z3_model_inc_ref(z.c, m);
                    let mut l = vec![];
                    for &v in vars {
                        let x = z.var(v);
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(z.c, m, x, true, &mut o);
                        Z3_inc_ref(z.c, o);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(z.c, o, &mut u);
                        l.push((v, u as u16));
                    }
                    Z3_model_dec_ref(z.c, m);
                    self.last_model = l;
                    1
                }
                -1 => 0,
                _ => 2,
            };
            Z3_solver_pop(z.c, z.s, 1);
            out
        }
    }
    pub fn decide(&mut self, pc: &Pc, cond: E) -> Dec {
        let c = pc.simp(cond);
        match const_val(c) {
            Some(1) => {
                self.st.by_rewrite += 1;
                return Dec::True;
            }
            Some(_) => {
                self.st.by_rewrite += 1;
                return Dec::False;
            }
            None => {}
        }
        let c = self.prove_fp(c);
        match const_val(c) {
            Some(1) => return Dec::True,
            Some(_) => return Dec::False,
            None => {}
        }
        let v = Eval::new(&pc.model).get(c) != 0;
        let other = if v { not(c) } else { c };
        match self.sat(pc, other) {
            Ok(None) => {
                if v {
                    Dec::True
                } else {
                    Dec::False
                }
            }
            Ok(Some(m)) => {
                if v {
                    Dec::Both(pc.model.clone(), m)
                } else {
                    Dec::Both(m, pc.model.clone())
                }
            }
            Err(e) => Dec::Unknown(e),
        }
    }
    /// replace conditions over floating point values that depend on few input bytes by their
    /// truth tables
    fn lift(&mut self, pc: &Pc, e: E) -> E {
        if !has_fp(e, &mut self.hasfp) {
            return e;
        }
        self.lift1(pc, e, &mut FxMap::default())
    }
    fn lift1(&mut self, pc: &Pc, e: E, memo: &mut FxMap<E, E>) -> E {
        if !has_fp(e, &mut self.hasfp) {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let vs = vars_of(e).to_vec();
        let doms: Vec<Vec<u16>> = vs.iter().map(|v| (0..256u16).filter(|i| mget(&pc.masks[*v as usize], *i as usize)).collect()).collect();
        let n = doms.iter().fold(1u64, |a, d| a.saturating_mul(d.len() as u64));
        let r = if n <= 1 << 16 {
            self.st.lifted += 1;
            let mut md = (*pc.model).clone();
            lift_tab(e, &vs, &doms, &mut md)
        } else {
            match op(e) {
                Op::BNot(a) => {
                    let r = self.lift1(pc, *a, memo);
                    not(r)
                }
                Op::BAnd(l) => {
                    let r: Vec<E> = l.iter().map(|x| self.lift1(pc, *x, memo)).collect();
                    and_n(r)
                }
                Op::BOr(l) => {
                    let r: Vec<E> = l.iter().map(|x| self.lift1(pc, *x, memo)).collect();
                    or_n(r)
                }
                Op::Ite(c, a, b) if width(e) == 1 => {
                    let (c, a, b) = (*c, *a, *b);
                    let (c, a, b) = (self.lift1(pc, c, memo), self.lift1(pc, a, memo), self.lift1(pc, b, memo));
                    ite(c, a, b)
                }
                _ => e,
            }
        };
        memo.insert(e, r);
        r
    }
    /// replace FClose atoms that linear bounds prove
    fn prove_fp(&mut self, e: E) -> E {
        let l = match op(e) {
            Op::BNot(_) | Op::BAnd(_) | Op::BOr(_) | Op::FClose(..) => {
                if let Some(r) = self.fpmemo.get(&e) {
                    return *r;
                }
                match op(e) {
                    Op::BAnd(l) | Op::BOr(l) => l,
                    Op::BNot(a) => std::slice::from_ref(a),
                    Op::FClose(a, b, t) => {
                        self.st.fclose += 1;
                        let r = if close_proved(*a, *b, f64::from_bits(*t)) { TRUE } else { e };
                        self.fpmemo.insert(e, r);
                        return r;
                    }
                    _ => unreachable!(),
                }
            }
            Op::Ite(c, a, b) if width(e) == 1 => {
                if let Some(r) = self.fpmemo.get(&e) {
                    return *r;
                }
                let r = ite(self.prove_fp(*c), self.prove_fp(*a), self.prove_fp(*b));
                self.fpmemo.insert(e, r);
                return r;
            }
            _ => return e,
        };
        let r: Vec<E> = l.iter().map(|x| self.prove_fp(*x)).collect();
        let r = if r[..] == l[..] {
            e
        } else {
            match op(e) {
                Op::BNot(_) => not(r[0]),
                Op::BAnd(_) => and_n(r),
                _ => or_n(r),
            }
        };
        self.fpmemo.insert(e, r);
        r
    }
}
/// truth table of `e` over the given domains
fn lift_tab(e: E, vs: &[u32], doms: &[Vec<u16>], md: &mut Vec<u16>) -> E {
    let v = vs[0];
    if vs.len() == 1 {
        let n = cx().vars[v as usize].dom.len();
        let mut t = vec![0u64; n];
        for &x in &doms[0] {
            md[v as usize] = x;
            t[x as usize] = Eval::new(md).get(e) as u64;
        }
        return tab(v, 1, t);
    }
    let mut groups: Vec<(E, Vec<u16>)> = vec![];
    for &x in &doms[0] {
        md[v as usize] = x;
        let c = lift_tab(e, &vs[1..], &doms[1..], md);
        match groups.iter_mut().find(|g| g.0 == c) {
            Some(g) => g.1.push(x),
            None => groups.push((c, vec![x])),
        }
    }
    if groups.len() == 1 {
        return groups[0].0;
    }
    let n = cx().vars[v as usize].dom.len();
    let mut parts = vec![];
    for (c, l) in groups {
        let mut t = vec![0u64; n];
        for x in l {
            t[x as usize] = 1;
        }
        parts.push(and(tab(v, 1, t), c));
    }
    or_n(parts)
}
// ---- real-linear forms of floating point expressions with rounding bounds
#[derive(Clone)]
struct Lin {
    c: f64,
    tabs: BTreeMap<u32, Vec<f64>>,
    atoms: BTreeMap<(E, bool), f64>,
    err: f64,
}
impl Lin {
    fn k(c: f64) -> Lin {
        Lin { c, tabs: BTreeMap::new(), atoms: BTreeMap::new(), err: 0.0 }
    }
    fn is_const(&self) -> bool {
        self.tabs.is_empty() && self.atoms.is_empty()
    }
    fn maxabs(&self) -> f64 {
        let mut m = self.c.abs() + self.err;
        for t in self.tabs.values() {
            m += t.iter().fold(0f64, |a, b| a.max(b.abs()));
        }
        for ((e, s), k) in &self.atoms {
            let (l, h) = int_range(*e, *s);
            m += k.abs() * (l.abs().max(h.abs()));
        }
        m
    }
    fn addk(&mut self, o: &Lin, k: f64) {
        self.c += k * o.c;
        for (v, t) in &o.tabs {
            let x = self.tabs.entry(*v).or_insert_with(|| vec![0.0; t.len()]);
            for (a, b) in x.iter_mut().zip(t.iter()) {
                *a += k * b;
            }
        }
        for (e, c) in &o.atoms {
            *self.atoms.entry(*e).or_insert(0.0) += k * c;
        }
        self.err += k.abs() * o.err;
        // arithmetic on the coefficients themselves is done in f64
        self.err += 8.0 * f64::EPSILON * (k.abs() * o.maxabs());
    }
}
fn int_range(e: E, signed: bool) -> (f64, f64) {
    if signed {
        let (l, h) = srange(e);
        (l as f64, h as f64)
    } else {
        (nd(e).lo as f64, nd(e).hi as f64)
    }
}
fn int_lin(e: E, signed: bool, out: &mut Lin, k: f64) -> bool {
    let w = width(e);
    match op(e) {
        Op::Const(c) => {
            let v = if signed { ((*c << (128 - w)) as i128 >> (128 - w)) as f64 } else { *c as f64 };
            out.c += k * v;
            true
        }
        Op::Tab(v, t) => {
            let x = out.tabs.entry(*v).or_insert_with(|| vec![0.0; t.len()]);
            for (a, &b) in x.iter_mut().zip(t.iter()) {
                let b = if signed { ((b as i64) << (64 - w) >> (64 - w)) as f64 } else { b as f64 };
                *a += k * b;
            }
            true
        }
        Op::Sum(c, t) => {
            // only when the sum does not wrap in the chosen reading
            let half = 1i128 << (w - 1);
            let ok = match sum_range(w, *c, t) {
                Some((l, h)) => {
                    if signed {
                        l >= -half && h < half
                    } else {
                        l >= 0 && h < 2 * half
                    }
                }
                None => false,
            };
            if !ok {
                *out.atoms.entry((e, signed)).or_insert(0.0) += k;
                return true;
            }
            out.c += k * (((*c << (128 - w)) as i128 >> (128 - w)) as f64);
            let rs = reads_signed(w, *c, t);
            for (x, co) in t {
                let co = ((*co << (128 - w)) as i128 >> (128 - w)) as f64;
                let sg = match op(*x) {
                    Op::Tab(_, tt) => rs && tab_signed(tt, w),
                    _ => false,
                };
                int_lin(*x, sg, out, k * co);
            }
            true
        }
        Op::Concat(p) => {
            let n = p.len();
            let mut off = 0;
            for (i, &x) in p.iter().enumerate() {
                int_lin(x, signed && i == n - 1, out, k * 2f64.powi(off));
                off += width(x) as i32;
            }
            true
        }
        _ => {
            *out.atoms.entry((e, signed)).or_insert(0.0) += k;
            true
        }
    }
}
fn lin(e: E, depth: u32) -> Option<Lin> {
    if depth == 0 {
        return None;
    }
    let w = width(e);
    let u = if w == 32 { 2f64.powi(-24) } else { 2f64.powi(-53) };
    let fl = |b: u64| if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) };
    match op(e) {
        Op::Const(c) => {
            let x = fl(*c as u64);
            if x.is_finite() {
                Some(Lin::k(x))
            } else {
                None
            }
        }
        Op::Tab(v, t) => {
            let vals: Vec<f64> = t.iter().map(|&x| fl(x)).collect();
            if vals.iter().all(|x| x.is_finite()) {
                let mut l = Lin::k(0.0);
                l.tabs.insert(*v, vals);
                Some(l)
            } else {
                None
            }
        }
        Op::IToF(s, a) => {
            let mut l = Lin::k(0.0);
            int_lin(*a, *s, &mut l, 1.0);
            let m = l.maxabs();
            if m * u * 2.0 >= 1.0 {
                l.err += m * u * 4.0;
            }
            Some(l)
        }
        Op::FNeg(a) => {
            let x = lin(*a, depth - 1)?;
            let mut l = Lin::k(0.0);
            l.addk(&x, -1.0);
            l.err = x.err;
            Some(l)
        }
        Op::FExt(a) => lin(*a, depth - 1),
        Op::FTrunc(a) => {
            let mut x = lin(*a, depth - 1)?;
            x.err += x.maxabs() * 2f64.powi(-23);
            Some(x)
        }
        Op::F(k, a, b) => {
            let x = lin(*a, depth - 1)?;
            let y = lin(*b, depth - 1)?;
            let mut r = match k {
                FB::Add | FB::Sub => {
                    let mut r = x.clone();
                    r.addk(&y, if *k == FB::Add { 1.0 } else { -1.0 });
                    r
                }
                FB::Mul if y.is_const() && y.err == 0.0 => {
                    let mut r = Lin::k(0.0);
                    r.addk(&x, y.c);
                    r
                }
                FB::Mul if x.is_const() && x.err == 0.0 => {
                    let mut r = Lin::k(0.0);
                    r.addk(&y, x.c);
                    r
                }
                FB::Div if y.is_const() && y.err == 0.0 && y.c != 0.0 => {
                    let mut r = Lin::k(0.0);
                    r.addk(&x, 1.0 / y.c);
                    r
                }
                _ => return None,
            };
            let m = r.maxabs();
            r.err += m * u * 2.0;
            Some(r)
        }
        _ => None,
    }
}
pub fn close_proved(a: E, b: E, tol: f64) -> bool {
    let (x, y) = match (lin(a, 40), lin(b, 40)) {
        (Some(x), Some(y)) => (x, y),
        _ => return false,
    };
    let mut d = x.clone();
    d.addk(&y, -1.0);
    // bound of the difference: per-variable extremes, separately for both signs
    let (mut lo, mut hi) = (d.c, d.c);
    for t in d.tabs.values() {
        lo += t.iter().cloned().fold(f64::INFINITY, f64::min);
        hi += t.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    }
    for ((e, s), k) in &d.atoms {
        if k.abs() < 1e-300 {
            continue;
        }
        let (l, h) = int_range(*e, *s);
        let (p, q) = (k * l, k * h);
        lo += p.min(q);
        hi += p.max(q);
    }
    let bound = lo.abs().max(hi.abs()) * (1.0 + 1e-9) + d.err;
    bound <= tol
}
