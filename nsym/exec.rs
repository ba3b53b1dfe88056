// Symbolic execution of the LLVM IR module.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub block: u32,
    pub ip: usize,
    pub sp: u64,
}
#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Pc,
    pub time: (E, u64),
    pub errno: u64,
    pub path_mode: bool,
    pub landed: bool,
    pub nvars: u32,
    pub outs: Rc<Vec<(u64, E)>>,
    pub steps: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stop {
    /// stop on landing on a join block at this call depth, and after returning from that depth
    Join(usize),
    None,
}
pub enum Ev {
    Stop,
    Dead,
    Alts(Vec<State>),
}
#[derive(Clone)]
pub struct Violation {
    pub id: String,
    pub kind: String,
    pub bytes: Vec<u8>,
    pub trace: Vec<String>,
}
#[derive(Default)]
pub struct Report {
    pub violations: Vec<Violation>,
    pub covers: BTreeMap<String, Vec<u8>>,
    pub checks: BTreeMap<String, u64>,
    pub knowns: BTreeMap<String, Vec<u8>>,
    pub paths: u64,
    pub forks: u64,
    pub merges: u64,
    pub mergefail: u64,
    pub insts: u64,
    pub errors: Vec<String>,
    pub outs: Vec<Vec<(u64, u64)>>,
    pub max_depth: usize,
    pub assumed_away: u64,
}
pub struct Exec<'m> {
    pub m: &'m Module,
    pub sv: Solver,
    pub rep: Report,
    pub fns_run: HashSet<u32>,
    kinds: Vec<FnKind>,
    pub limit: u64,
    pub max_viol: usize,
    lost: u64,
    pub depth: usize,
    pub trace: bool,
    pub qsites: HashMap<String, (u64, f64)>,
    last_print: std::time::Instant,
    pub forksites: HashMap<(Rc<str>, u32), u64>,
    pub mergefails: HashMap<String, u64>,
    pub deadline: Option<std::time::Instant>,
    pub fork_all: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum FnKind {
    Normal,
    Panic,
    Hash,
    Memchr(bool),
    Ext(X),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Bcmp,
    Memcmp,
    Strlen,
    ClockGettime,
    Getrandom,
    Zero,
    RetLen3,
    Enoent,
    One,
    Errno,
    SymBytes,
    SymAssume,
    SymCheck,
    SymKnown,
    SymCover,
    SymClose,
    SymPick,
    SymTime,
    SymMode,
    SymOut,
    Unknown,
}
fn classify(name: &str, defined: bool) -> FnKind {
    if name.contains("4core9panicking")
        || name.contains("13unwrap_failed")
        || name.contains("13expect_failed")
        || name.contains("16slice_error_fail")
        || name == "rust_begin_unwind"
        || name.contains("18handle_alloc_error")
        || name.contains("17capacity_overflow")
        || name == "abort"
        || name == "__rust_start_panic"
        || name.contains("10begin_panic")
    {
        return FnKind::Panic;
    }
    if name.contains("11BuildHasher8hash_one") && name.contains("11nmea_parser") {
        return FnKind::Hash;
    }
    if name.ends_with("5slice6memchr14memchr_aligned") {
        return FnKind::Memchr(false);
    }
    if name.ends_with("5slice6memchr15memrchr_aligned") {
        return FnKind::Memchr(true);
    }
    if defined {
        return FnKind::Normal;
    }
    FnKind::Ext(match name {
        "malloc" => X::Malloc,
        "calloc" => X::Calloc,
        "realloc" => X::Realloc,
        "free" => X::Free,
        "posix_memalign" => X::PosixMemalign,
        "bcmp" => X::Bcmp,
        "memcmp" => X::Memcmp,
        "strlen" => X::Strlen,
        "clock_gettime" => X::ClockGettime,
        "getrandom" => X::Getrandom,
        "sched_getaffinity" => X::Enoent,
        "sysconf" => X::One,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "gettid" | "close" => X::Zero,
        "__errno_location" => X::Errno,
        "open64" => X::Enoent,
        "write" => X::RetLen3,
        "sym_bytes" => X::SymBytes,
        "sym_assume" => X::SymAssume,
        "sym_check" => X::SymCheck,
        "sym_known" => X::SymKnown,
        "sym_cover" => X::SymCover,
        "sym_close" => X::SymClose,
        "sym_pick" => X::SymPick,
        "sym_time" => X::SymTime,
        "sym_mode" => X::SymMode,
        "sym_out" => X::SymOut,
        "sym_note" => X::Zero,
        _ => X::Unknown,
    })
}
#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
pub fn to_e(v: &V, w: u32) -> E {
    match v {
        V::U => konst(w, 0),
        V::C(x) => konst(w, *x as u128),
        V::S(e) => {
            debug_assert!(width(*e) == w, "width {} expected {}", width(*e), w);
            *e
        }
        V::A(_) => panic!("aggregate as scalar"),
    }
}
pub fn from_e(e: E) -> V {
    if width(e) <= 64 {
        if let Some(c) = const_val(e) {
            return V::C(c as u64);
        }
    }
    V::S(e)
}
fn cbin(o: B, w: u32, a: u64, b: u64) -> u64 {
    let m = m64(w);
    (match o {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            if b == 0 {
                0
            } else {
                sx64(a, w).wrapping_div(sx64(b, w)) as u64
            }
        }
        B::SRem => {
            if b == 0 {
                0
            } else {
                sx64(a, w).wrapping_rem(sx64(b, w)) as u64
            }
        }
        B::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => (sx64(a, w) >> b.min(w as u64 - 1)) as u64,
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
    }) & m
}
fn bin(o: B, w: u32, a: &V, b: &V) -> V {
    match (a, b) {
        (V::C(x), V::C(y)) if w <= 64 => V::C(cbin(o, w, *x, *y)),
        (V::U, V::U) => V::U,
        _ => {
            let (x, y) = (to_e(a, w), to_e(b, w));
            from_e(match o {
                B::Add => add(x, y),
                B::Sub => sub(x, y),
                B::Mul => mul(x, y),
                B::UDiv => udiv(x, y),
                B::SDiv => sdiv(x, y),
                B::URem => urem(x, y),
                B::SRem => srem(x, y),
                B::Shl => shl(x, y),
                B::LShr => lshr(x, y),
                B::AShr => ashr(x, y),
                B::And => bit_and(x, y),
                B::Or => bit_or(x, y),
                B::Xor => bit_xor(x, y),
            })
        }
    }
}
fn icmp(p: P, w: u32, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        if w <= 64 {
            let (x, y) = (*x, *y);
            let (s, t) = (sx64(x, w), sx64(y, w));
            return V::C(match p {
                P::Eq => x == y,
                P::Ne => x != y,
                P::Ugt => x > y,
                P::Uge => x >= y,
                P::Ult => x < y,
                P::Ule => x <= y,
                P::Sgt => s > t,
                P::Sge => s >= t,
                P::Slt => s < t,
                P::Sle => s <= t,
            } as u64);
        }
    }
    let (x, y) = (to_e(a, w), to_e(b, w));
    from_e(match p {
        P::Eq => eq(x, y),
        P::Ne => not(eq(x, y)),
        P::Ugt => ult(y, x),
        P::Uge => not(ult(x, y)),
        P::Ult => ult(x, y),
        P::Ule => not(ult(y, x)),
        P::Sgt => slt(y, x),
        P::Sge => not(slt(x, y)),
        P::Slt => slt(x, y),
        P::Sle => not(slt(y, x)),
    })
}
fn fv(x: u64, w: u32) -> f64 {
    if w == 32 {
        f32::from_bits(x as u32) as f64
    } else {
        f64::from_bits(x)
    }
}
fn cast(o: CastOp, fw: u32, tw: u32, a: &V) -> V {
    if let V::U = a {
        return V::U;
    }
    if let (V::C(x), true) = (a, fw <= 64 && tw <= 64) {
        let x = *x;
        return V::C(match o {
            CastOp::Trunc => x & m64(tw),
            CastOp::ZExt | CastOp::Bit => x,
            CastOp::SExt => sx64(x, fw) as u64 & m64(tw),
            CastOp::UiToFp => {
                if tw == 32 {
                    (x as f32).to_bits() as u64
                } else {
                    (x as f64).to_bits()
                }
            }
            CastOp::SiToFp => {
                let s = sx64(x, fw);
                if tw == 32 {
                    (s as f32).to_bits() as u64
                } else {
                    (s as f64).to_bits()
                }
            }
            CastOp::FpToUi | CastOp::FpToSi => {
                let e = ftoi(o == CastOp::FpToSi, konst(fw, x as u128), tw);
                const_val(e).unwrap() as u64
            }
            CastOp::FpTrunc => (fv(x, fw) as f32).to_bits() as u64,
            CastOp::FpExt => fv(x, fw).to_bits(),
        });
    }
    let e = to_e(a, fw);
    from_e(match o {
        CastOp::Trunc => extract(e, 0, tw),
        CastOp::ZExt => zext(e, tw),
        CastOp::SExt => sext(e, tw),
        CastOp::Bit => e,
        CastOp::UiToFp => itof(false, e, tw),
        CastOp::SiToFp => itof(true, e, tw),
        CastOp::FpToUi => ftoi(false, e, tw),
        CastOp::FpToSi => ftoi(true, e, tw),
        CastOp::FpTrunc => ftrunc(e),
        CastOp::FpExt => fext(e),
    })
}
fn vlist(v: &V, n: usize) -> Vec<V> {
    match v {
        V::A(l) => l.to_vec(),
        V::U => vec![V::U; n],
        _ => panic!("vector expected"),
    }
}
fn veq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::U, V::U) => true,
        (V::C(x), V::C(y)) => x == y,
        (V::S(x), V::S(y)) => x == y,
        (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| veq(p, q))),
        _ => false,
    }
}
fn select(c: E, a: &V, b: &V, w: u32) -> Option<V> {
    if veq(a, b) {
        return Some(a.clone());
    }
    match (a, b) {
        (V::U, _) => Some(b.clone()),
        (_, V::U) => Some(a.clone()),
        (V::A(x), V::A(y)) => {
            let mut r = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                r.push(select(c, p, q, 0)?);
            }
            Some(V::A(Rc::new(r)))
        }
        _ => {
            let w = match (a, b) {
                (V::S(e), _) | (_, V::S(e)) => width(*e),
                _ => w,
            };
            if w == 0 {
                return None;
            }
            Some(from_e(ite(c, to_e(a, w), to_e(b, w))))
        }
    }
}
macro_rules! err {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}
type R<T> = Result<T, String>;
impl State {
    /// rewrites pointers in the stack frame of the function under the path's byte domains
    fn follow_split(&mut self) {
        let mut a = (self.top.sp + 7) / 8 * 8;
        while a + 8 <= self.mem.sp {
            if self.mem.byte(a).1 .0 != 0 {
                let x = self.mem.rd_e(a, 8);
                if finite(x, &mut FxMap::default()).is_some() {
                    let y = self.pc.deep(x);
                    if y != x {
                        self.mem.wr_e(a, y);
                    }
                }
            }
            a += 8;
        }
    }
    #[inline]
    fn v(&self, o: &O) -> V {
        match o {
            O::R(r) => self.top.regs[*r as usize].clone(),
            O::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&mut self, d: u32, v: V) {
        self.top.regs[d as usize] = v;
    }
}
/// x % m for a small m
fn small_rem(e: E) -> Option<u64> {
    match op(e) {
        Op::URem(_, m) => const_val(*m).map(|m| m as u64).filter(|m| *m > 0 && *m <= 400),
        _ => None,
    }
}
impl<'m> Exec<'m> {
    pub fn new(m: &'m Module) -> Exec<'m> {
        let kinds = m.fns.iter().map(|f| classify(&f.name, f.span.is_some())).collect();
        Exec {
            m,
            sv: Solver::new(),
            rep: Report::default(),
            fns_run: HashSet::new(),
            kinds,
            limit: 20_000_000_000,
            max_viol: 3,
            lost: 0,
            depth: 0,
            trace: false,
            qsites: HashMap::new(),
            last_print: std::time::Instant::now(),
            forksites: HashMap::new(),
            mergefails: HashMap::new(),
            deadline: None,
            fork_all: false,
        }
    }
    pub fn init_mem(m: &Module) -> Mem {
        let mut mem = Mem::new();
        for g in &m.globals {
            if g.init.is_some() && g.size > 0 {
                let b = m.init_bytes(g);
                if b.iter().all(|x| *x == 0) {
                    mem.set(g.addr, 0, b.len() as u64);
                    continue;
                }
                for (i, c) in b.chunks(8).enumerate() {
                    let mut x = [0u8; 8];
                    x[..c.len()].copy_from_slice(c);
                    mem.wr(g.addr + 8 * i as u64, u64::from_le_bytes(x), c.len());
                }
            }
        }
        mem
    }
    pub fn start(&mut self, name: &str, mem: &Mem) -> R<State> {
        let id = *self.m.fn_by_name.get(name).ok_or(format!("no function {}", name))?;
        let f = self.m.func(id).ok_or("no body")?;
        let regs = vec![V::U; f.nregs as usize];
        let mem = mem.clone();
        let sp = mem.sp;
        self.fns_run.insert(id);
        Ok(State {
            top: Frame { f, regs, block: 0, ip: 0, sp },
            stack: vec![],
            mem,
            pc: Pc::new(),
            time: (konst(64, 1_700_000_000), 0),
            errno: 0,
            path_mode: false,
            landed: false,
            nvars: 0,
            outs: Rc::new(vec![]),
            steps: 0,
        })
    }
    fn bt(&self, st: &State) -> Vec<String> {
        let mut v: Vec<String> = vec![format!("{}:bb{}", short(&st.top.f.name), st.top.block)];
        for f in st.stack.iter().rev() {
            v.push(short(&f.f.name));
        }
        v
    }
    fn model_bytes(&self, st: &State, model: &[u16]) -> Vec<u8> {
        st.pc.decl.iter().map(|v| cx().vars[*v as usize].dom[model[*v as usize] as usize]).collect()
    }
    fn violation(&mut self, st: &State, id: String, kind: &str, model: &[u16]) {
        let n = self.rep.violations.iter().filter(|v| v.id == id).count();
        if n < self.max_viol {
            let v = Violation { id, kind: kind.into(), bytes: self.model_bytes(st, model), trace: self.bt(st) };
            self.rep.violations.push(v);
            // one counterexample is enough: look for more for a short while only
            let d = std::time::Instant::now() + std::time::Duration::from_secs(15);
            self.deadline = Some(self.deadline.map_or(d, |x| x.min(d)));
        }
    }
    fn ev(&self, st: &State, v: &V) -> u64 {
        match v {
            V::C(x) => *x,
            V::U => 0,
            V::S(e) => Eval::new(&st.pc.model).get(*e) as u64,
            V::A(_) => 0,
        }
    }
    /// all feasible values of an expression with a model for each
    pub fn values(&mut self, st: &State, e: E, lim: usize) -> R<Vec<(u64, Rc<Vec<u16>>, E)>> {
        let w = width(e);
        let mut out = vec![];
        if let Op::Tab(v, t) = op(e) {
            let m = st.pc.masks[*v as usize];
            let mut seen: BTreeMap<u64, u16> = BTreeMap::new();
            for i in 0..t.len() {
                if m[i >> 6] >> (i & 63) & 1 == 1 {
                    seen.entry(t[i]).or_insert(i as u16);
                }
            }
            if seen.len() > lim {
                err!("too many values ({}) for {}", seen.len(), show(e, 4));
            }
            for (val, _) in seen {
                let c = eq(e, konst(w, val as u128));
                if let Some(md) = self.sv.sat(&st.pc, c)? {
                    out.push((val, md, c));
                }
            }
            return Ok(out);
        }
        // few variables: candidate values from the joint domain
        let vs = vars_of(e);
        let mut prod: u64 = 1;
        let doms: Vec<Vec<u16>> = vs
            .iter()
            .map(|v| {
                let m = st.pc.masks[*v as usize];
                (0..256u16).filter(|i| m[*i as usize >> 6] >> (i & 63) & 1 == 1).collect()
            })
            .collect();
        for d in &doms {
            prod = prod.saturating_mul(d.len() as u64);
        }
        if prod > 0 && prod <= 1 << 16 {
            let mut md = (*st.pc.model).clone();
            let mut ix = vec![0usize; vs.len()];
            let mut seen: BTreeMap<u64, Vec<u16>> = BTreeMap::new();
            'en: loop {
                for (k, v) in vs.iter().enumerate() {
                    md[*v as usize] = doms[k][ix[k]];
                }
                let val = Eval::new(&md).get(e) as u64;
                seen.entry(val).or_insert_with(|| vs.iter().map(|v| md[*v as usize]).collect());
                let mut k = 0;
                loop {
                    if k == ix.len() {
                        break 'en;
                    }
                    ix[k] += 1;
                    if ix[k] < doms[k].len() {
                        break;
                    }
                    ix[k] = 0;
                    k += 1;
                }
            }
            let free = !st.pc.multi.iter().any(|c| vars_of(*c).iter().any(|v| vs.contains(v)));
            if free && seen.len() > lim {
                err!("too many values ({}) for {}", seen.len(), show(e, 4));
            }
            if seen.len() <= lim {
            for (val, a) in seen {
                let c = eq(e, konst(w, val as u128));
                if free {
                    let mut m = (*st.pc.model).clone();
                    for (v, i) in vs.iter().zip(a) {
                        m[*v as usize] = i;
                    }
                    out.push((val, Rc::new(m), c));
                } else if let Some(m) = self.sv.sat(&st.pc, c)? {
                    out.push((val, m, c));
                }
            }
            return Ok(out);
            }
        }
        if let Some(l) = finite(e, &mut FxMap::default()) {
            for val in l.iter() {
                let c = eq(e, konst(w, *val));
                if let Some(md) = self.sv.sat(&st.pc, c)? {
                    out.push((*val as u64, md, c));
                }
            }
            return Ok(out);
        }
        let mut ne = TRUE;
        loop {
            let md = match self.sv.sat(&st.pc, ne)? {
                None => break,
                Some(m) => m,
            };
            let val = Eval::new(&md).get(e) as u64;
            let c = eq(e, konst(w, val as u128));
            out.push((val, md, c));
            if out.len() > lim {
                err!("too many values for {} at {:?}", show(e, 5), self.bt(st));
            }
            ne = and(ne, not(c));
        }
        Ok(out)
    }
    /// make operand concrete; Ok(Some(x)) or fork with the operand register fixed
    fn conc(&mut self, st: &mut State, o: &O, w: u32) -> R<Result<u64, Vec<State>>> {
        match st.v(o) {
            V::C(x) => Ok(Ok(x)),
            V::U => Ok(Ok(0)),
            V::A(_) => Err("aggregate address".into()),
            V::S(e) => {
                let _ = w;
                let vals = self.values(st, e, 400)?;
                if vals.is_empty() {
                    return Ok(Err(vec![]));
                }
                if vals.len() == 1 {
                    if let O::R(r) = o {
                        st.set(*r, V::C(vals[0].0));
                    }
                    return Ok(Ok(vals[0].0));
                }
                let mut alts = vec![];
                for (x, md, c) in vals {
                    let mut s = st.clone();
                    s.pc.add(c, md);
                    match o {
                        O::R(r) => s.set(*r, V::C(x)),
                        _ => err!("symbolic constant operand"),
                    }
                    alts.push(s);
                }
                Ok(Err(alts))
            }
        }
    }
    /// largest value of a length that depends on merged paths
    fn bound(&self, e: E) -> Option<u64> {
        if width(e) != 64 || vars_of(e).len() < 2 {
            return None;
        }
        let hi = nd(e).hi as u64;
        if hi <= 128 {
            return Some(hi);
        }
        finite(e, &mut FxMap::default()).and_then(|l| l.iter().max().map(|x| *x as u64)).filter(|x| *x <= 128)
    }
    fn load_ty(&mut self, st: &State, t: Ty, a: u64) -> R<V> {
        let k = self.m.types.borrow().v[t as usize].k.clone();
        Ok(match k {
            TyK::Int(w) => {
                let n = ((w + 7) / 8) as usize;
                if w <= 64 {
                    if let Some(x) = st.mem.rd(a, n) {
                        return Ok(V::C(x & m64(w)));
                    }
                }
                let e = st.mem.rd_e(a, n);
                from_e(extract(e, 0, w))
            }
            TyK::F32 | TyK::F64 | TyK::Ptr => {
                let n = if k == TyK::F32 { 4 } else { 8 };
                match st.mem.rd(a, n) {
                    Some(x) => V::C(x),
                    None => from_e(st.mem.rd_e(a, n)),
                }
            }
            TyK::Vec(n, e) => {
                let n = n as u64;
                let es = self.m.types.borrow().bits(e) as u64;
                if es % 8 != 0 {
                    err!("load of bit vector type");
                }
                let mut l = vec![];
                for i in 0..n {
                    l.push(self.load_ty(st, e, a + i * es / 8)?);
                }
                V::A(Rc::new(l))
            }
            TyK::Arr(n, e) => {
                let es = self.m.types.borrow().size(e);
                let mut l = vec![];
                for i in 0..n {
                    l.push(self.load_ty(st, e, a + i * es)?);
                }
                V::A(Rc::new(l))
            }
            TyK::Struct(f, _) => {
                let offs = self.m.types.borrow().v[t as usize].offs.clone();
                let mut l = vec![];
                for (i, ft) in f.iter().enumerate() {
                    l.push(self.load_ty(st, *ft, a + offs[i])?);
                }
                V::A(Rc::new(l))
            }
            _ => err!("load type"),
        })
    }
    fn store_ty(&mut self, st: &mut State, t: Ty, a: u64, v: &V) -> R<()> {
        let k = self.m.types.borrow().v[t as usize].k.clone();
        match k {
            TyK::Int(w) => {
                let n = (w + 7) / 8;
                match v {
                    V::C(x) if w <= 64 => st.mem.wr(a, *x, n as usize),
                    V::U => {
                        if n <= 8 {
                            st.mem.wr(a, 0, n as usize)
                        } else {
                            st.mem.set(a, 0, n as u64)
                        }
                    }
                    v => {
                        let e = to_e(v, w);
                        let e = zext(e, n * 8);
                        st.mem.wr_e(a, e)
                    }
                }
            }
            TyK::F32 | TyK::F64 | TyK::Ptr => {
                let n = if k == TyK::F32 { 4 } else { 8 };
                match v {
                    V::C(x) => st.mem.wr(a, *x, n),
                    V::U => st.mem.wr(a, 0, n),
                    v => st.mem.wr_e(a, to_e(v, 8 * n as u32)),
                }
            }
            TyK::Vec(n, e) => {
                let es = self.m.types.borrow().bits(e) as u64;
                let l = vlist(v, n as usize);
                if es % 8 != 0 {
                    // packed bits
                    let parts: Vec<E> = l.iter().map(|x| to_e(x, es as u32)).collect();
                    let e = concat(parts);
                    let w = width(e);
                    let e = zext(e, (w + 7) / 8 * 8);
                    st.mem.wr_e(a, e);
                    return Ok(());
                }
                for (i, x) in l.iter().enumerate() {
                    self.store_ty(st, e, a + i as u64 * es / 8, x)?;
                }
            }
            TyK::Arr(n, e) => {
                let es = self.m.types.borrow().size(e);
                for (i, x) in vlist(v, n as usize).iter().enumerate() {
                    self.store_ty(st, e, a + i as u64 * es, x)?;
                }
            }
            TyK::Struct(f, _) => {
                let offs = self.m.types.borrow().v[t as usize].offs.clone();
                for (i, x) in vlist(v, f.len()).iter().enumerate() {
                    self.store_ty(st, f[i], a + offs[i], x)?;
                }
            }
            _ => err!("store type"),
        }
        Ok(())
    }
    fn check_addr(&self, st: &State, a: u64, n: u64, what: &str) -> R<()> {
        if !st.mem.valid(a, n) {
            err!("invalid address {:x} ({}) in {:?}", a, what, self.bt(st));
        }
        Ok(())
    }
    fn load_sym(&mut self, st: &State, t: Ty, e: E) -> R<V> {
        let size = self.m.types.borrow().size(t);
        // ite tree with constant leaves
        fn leaves(x: &mut Exec, st: &State, t: Ty, size: u64, e: E) -> R<Option<V>> {
            match op(e) {
                Op::Const(c) => {
                    if !st.mem.valid(*c as u64, size) {
                        return Ok(Some(V::U));
                    }
                    Ok(Some(x.load_ty(st, t, *c as u64)?))
                }
                Op::Ite(c, a, b) => {
                    let p = leaves(x, st, t, size, *a)?;
                    let q = leaves(x, st, t, size, *b)?;
                    match (p, q) {
                        (Some(p), Some(q)) => {
                            let w = x.scalar_w(t);
                            Ok(select(*c, &p, &q, w))
                        }
                        _ => Ok(None),
                    }
                }
                _ => Ok(None),
            }
        }
        if let Some(v) = leaves(self, st, t, size, e)? {
            return Ok(v);
        }
        let w = self.scalar_w(t);
        if let Op::Tab(v, tt) = op(e) {
            let m = st.pc.masks[*v as usize];
            let mut vals: Vec<Option<u64>> = vec![None; tt.len()];
            let mut ok = w > 0 && w <= 64;
            let mut first = None;
            let mut alts: BTreeMap<u64, V> = BTreeMap::new();
            for i in 0..tt.len() {
                if m[i >> 6] >> (i & 63) & 1 == 0 {
                    continue;
                }
                let a = tt[i];
                if !alts.contains_key(&a) {
                    if !st.mem.valid(a, size) {
                        // infeasible indices are excluded by the path condition only if other constraints say so
                        let c = eq(e, konst(64, a as u128));
                        if self.sv.sat(&st.pc, c)?.is_some() {
                            err!("symbolic load may hit invalid address {:x} at {:?}", a, self.bt(st));
                        }
                        continue;
                    }
                    let x = self.load_ty(st, t, a)?;
                    alts.insert(a, x);
                }
                match alts.get(&a) {
                    Some(V::C(x)) => {
                        vals[i] = Some(*x);
                        first = first.or(Some(*x));
                    }
                    _ => ok = false,
                }
            }
            if ok {
                let f = first.unwrap_or(0);
                let vals = vals.into_iter().map(|x| x.unwrap_or(f)).collect();
                return Ok(from_e(tab(*v, w, vals)));
            }
            let mut r: Option<V> = None;
            for (a, x) in alts {
                let c = eq(e, konst(64, a as u128));
                r = Some(match r {
                    None => x,
                    Some(y) => match select(c, &x, &y, w) {
                        Some(z) => z,
                        None => err!("unmergeable symbolic load"),
                    },
                });
            }
            return Ok(r.unwrap_or(V::U));
        }
        if w > 0 && w <= 64 {
            if let Some(r) = self.load_table(st, t, size, w, e)? {
                return Ok(r);
            }
        }
        let vals = self.values(st, e, 300)?;
        let mut r: Option<V> = None;
        for (a, _, c) in vals {
            self.check_addr(st, a, size, "symbolic load")?;
            let x = self.load_ty(st, t, a)?;
            r = Some(match r {
                None => x,
                Some(y) => match select(c, &x, &y, w) {
                    Some(z) => z,
                    None => err!("unmergeable symbolic load"),
                },
            });
        }
        Ok(r.unwrap_or(V::U))
    }
    /// load from a constant table at an index that depends on few variables, or whose bits are
    /// few independent parts
    fn load_table(&mut self, st: &State, t: Ty, size: u64, w: u32, e: E) -> R<Option<V>> {
        let vs = vars_of(e);
        let mut prod: u64 = 1;
        let mut dims: Vec<(Option<u32>, E, Vec<u64>)> = vec![];
        for v in vs.iter() {
            let m = st.pc.masks[*v as usize];
            let d: Vec<u64> = (0..256u64).filter(|i| m[*i as usize >> 6] >> (i & 63) & 1 == 1).collect();
            prod = prod.saturating_mul(d.len() as u64);
            dims.push((Some(*v), 0, d));
        }
        let mut lin = None;
        if prod == 0 || prod > 1 << 16 {
            let (k, x, co) = match op(e) {
                Op::Sum(k, l) if l.len() == 1 => (*k as u64, l[0].0, l[0].1 as u64),
                Op::Concat(_) => (0, e, 1),
                _ => return Ok(None),
            };
            let parts = match op(x) {
                Op::Concat(l) => l.clone(),
                _ => return Ok(None),
            };
            dims.clear();
            let mut sh = vec![];
            let mut at = 0;
            prod = 1;
            let mut fs: Vec<(E, Vec<u64>, bool)> = vec![];
            for p in parts {
                let (f, exact): (Vec<u64>, bool) = match finite(p, &mut FxMap::default()) {
                    Some(f) => (f.iter().map(|x| *x as u64).collect(), f.len() < 3),
                    None if width(p) <= 5 => ((0..1u64 << width(p)).collect(), false),
                    None if small_rem(p).is_some() => ((0..small_rem(p).unwrap()).collect(), false),
                    None => match self.values(st, p, 300) {
                        Ok(l) => (l.into_iter().map(|x| x.0).collect(), false),
                        Err(_) => return Ok(None),
                    },
                };
                fs.push((p, f, exact));
            }
            // neighbouring parts that depend on each other: enumerate them together
            while fs.iter().fold(1u64, |a, f| a.saturating_mul(f.1.len() as u64)) > 1 << 13 {
                let k = match (0..fs.len() - 1).rev().find(|&k| !fs[k].2 && !fs[k + 1].2 && width(fs[k].0) + width(fs[k + 1].0) <= 63) {
                    Some(k) => k,
                    None => return Ok(None),
                };
                let p = concat(vec![fs[k].0, fs[k + 1].0]);
                match self.values(st, p, 300) {
                    Ok(l) => fs[k] = (p, l.into_iter().map(|x| x.0).collect(), false),
                    Err(_) => return Ok(None),
                }
                fs.remove(k + 1);
            }
            for (p, f, _) in fs {
                prod = prod.saturating_mul(f.len() as u64);
                if f.len() > 0 {
                    dims.push((None, p, f));
                    sh.push(at);
                }
                at += width(p);
            }
            if prod > 1 << 13 {
                return Ok(None);
            }
            dims.reverse();
            sh.reverse();
            lin = Some((k, co, sh));
        }
        let mut md = (*st.pc.model).clone();
        let mut idx = vec![0u64; dims.len()];
        let mut bad = 0usize;
        // value and "invalid address" condition
        fn rec(x: &mut Exec, st: &State, t: Ty, size: u64, w: u32, e: E, dims: &[(Option<u32>, E, Vec<u64>)], k: usize, idx: &mut Vec<u64>, md: &mut Vec<u16>, lin: &Option<(u64, u64, Vec<u32>)>, bad: &mut usize) -> R<Option<(Option<E>, E)>> {
            if k == dims.len() {
                let a = match lin {
                    None => Eval::new(md).get(e) as u64,
                    Some((b, co, sh)) => {
                        let mut v = 0u64;
                        for (i, s) in idx.iter().zip(sh) {
                            if *s < 64 {
                                v |= i << s;
                            }
                        }
                        b.wrapping_add(v.wrapping_mul(*co))
                    }
                };
                if !st.mem.valid(a, size) {
                    *bad += 1;
                    return Ok(Some((None, TRUE)));
                }
                return Ok(match x.load_ty(st, t, a)? {
                    V::C(c) => Some((Some(konst(w, c as u128)), FALSE)),
                    _ => None,
                });
            }
            let mut groups: Vec<((Option<E>, E), Vec<u64>)> = vec![];
            let mut ix: HashMap<(Option<E>, E), usize> = HashMap::new();
            for &val in &dims[k].2 {
                idx[k] = val;
                if let Some(v) = dims[k].0 {
                    md[v as usize] = val as u16;
                }
                let c = match rec(x, st, t, size, w, e, dims, k + 1, idx, md, lin, bad)? {
                    Some(c) => c,
                    None => return Ok(None),
                };
                let g = *ix.entry(c).or_insert_with(|| {
                    groups.push((c, vec![]));
                    groups.len() - 1
                });
                groups[g].1.push(val);
            }
            if groups.len() == 1 {
                return Ok(Some(groups[0].0));
            }
            // all constants over one variable: a table
            if let Some(v) = dims[k].0 {
                let n = cx().vars[v as usize].dom.len();
                if groups.iter().all(|g| g.0 .0.map_or(true, |c| const_val(c).is_some()) && const_val(g.0 .1).is_some()) {
                    let d = groups.iter().find_map(|g| g.0 .0).map(|c| const_val(c).unwrap() as u64);
                    let mut tv = vec![d.unwrap_or(0); n];
                    let mut tb = vec![0u64; n];
                    for ((c, b), l) in &groups {
                        for &i in l {
                            tv[i as usize] = c.map_or(d.unwrap_or(0), |c| const_val(c).unwrap() as u64);
                            tb[i as usize] = const_val(*b).unwrap() as u64;
                        }
                    }
                    return Ok(Some((d.map(|_| tab(v, w, tv)), tab(v, 1, tb))));
                }
            }
            groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
            let mut r: Option<E> = None;
            let mut rb = vec![];
            for ((c, b), l) in groups {
                let cond = match dims[k].0 {
                    Some(v) => {
                        let n = cx().vars[v as usize].dom.len();
                        let mut tt = vec![0u64; n];
                        for i in l {
                            tt[i as usize] = 1;
                        }
                        tab(v, 1, tt)
                    }
                    None => or_n(l.iter().map(|i| eq(dims[k].1, konst(width(dims[k].1), *i as u128))).collect()),
                };
                if let Some(c) = c {
                    r = Some(match r {
                        None => c,
                        Some(y) => ite(cond, c, y),
                    });
                }
                rb.push(and(cond, b));
            }
            Ok(Some((r, or_n(rb))))
        }
        match rec(self, st, t, size, w, e, &dims, 0, &mut idx, &mut md, &lin, &mut bad)? {
            None => Ok(None),
            Some((v, b)) => {
                if bad > 0 && self.sv.sat(&st.pc, b)?.is_some() {
                    err!("symbolic load may hit an invalid address at {:?}", self.bt(st));
                }
                Ok(v.map(from_e))
            }
        }
    }
    fn scalar_w(&self, t: Ty) -> u32 {
        let ts = self.m.types.borrow();
        match ts.k(t) {
            TyK::Int(w) => *w,
            TyK::Ptr | TyK::F64 => 64,
            TyK::F32 => 32,
            _ => 0,
        }
    }
    /// transfer to a block: evaluate phis
    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let f = st.top.f.clone();
        let from = st.top.block;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut tmp = Vec::with_capacity(blk.phis.len());
            for (d, inc, _) in &blk.phis {
                let mut found = false;
                for (p, o) in inc {
                    if *p == from {
                        tmp.push((*d, st.v(o)));
                        found = true;
                        break;
                    }
                }
                if !found {
                    err!("phi without incoming");
                }
            }
            for (d, v) in tmp {
                st.set(d, v);
            }
        }
        st.top.block = b;
        st.top.ip = 0;
        Ok(())
    }
    fn cond_alts(&mut self, st: &State, choices: Vec<(E, u32)>) -> R<Vec<State>> {
        // mutually exclusive, exhaustive choices
        let mut alts = vec![];
        for (c, b) in choices {
            if let Some(md) = self.sv.sat(&st.pc, c)? {
                let mut s = st.clone();
                s.pc.add(c, md);
                self.goto(&mut s, b)?;
                alts.push(s);
            }
        }
        Ok(alts)
    }
    /// run until something interesting happens
    fn step(&mut self, st: &mut State, stop: Stop) -> R<Ev> {
        let mut n: u64 = 0;
        let r = self.step2(st, stop, &mut n);
        self.rep.insts += n;
        if self.rep.insts > self.limit {
            return Err("instruction limit".into());
        }
        r
    }
    fn step2(&mut self, st: &mut State, stop: Stop, cnt: &mut u64) -> R<Ev> {
        'outer: loop {
            let f = st.top.f.clone();
            let blk = &f.blocks[st.top.block as usize];
            loop {
                *cnt += 1;
                if *cnt & 0xfffff == 0 {
                    if let Some(d) = self.deadline {
                        if std::time::Instant::now() > d {
                            return Err("time limit".into());
                        }
                    }
                }
                let ins = &blk.insts[st.top.ip];
                match ins {
                    I::Bin(o, w, d, a, b) => {
                        let r = match (a, b) {
                            (O::R(x), O::R(y)) => bin(*o, *w, &st.top.regs[*x as usize], &st.top.regs[*y as usize]),
                            (O::R(x), O::K(y)) => bin(*o, *w, &st.top.regs[*x as usize], y),
                            _ => bin(*o, *w, &st.v(a), &st.v(b)),
                        };
                        st.set(*d, r);
                    }
                    I::VBin(o, w, d, a, b) => {
                        let (x, y) = (st.v(a), st.v(b));
                        let n = match (&x, &y) {
                            (V::A(l), _) | (_, V::A(l)) => l.len(),
                            _ => 0,
                        };
                        if n == 0 {
                            st.set(*d, V::U);
                        } else {
                            let (p, q) = (vlist(&x, n), vlist(&y, n));
                            let r = p.iter().zip(q.iter()).map(|(a, b)| bin(*o, *w, a, b)).collect();
                            st.set(*d, V::A(Rc::new(r)));
                        }
                    }
                    I::Icmp(p, w, d, a, b) => {
                        let r = match (a, b) {
                            (O::R(x), O::R(y)) => icmp(*p, *w, &st.top.regs[*x as usize], &st.top.regs[*y as usize]),
                            (O::R(x), O::K(y)) => icmp(*p, *w, &st.top.regs[*x as usize], y),
                            _ => icmp(*p, *w, &st.v(a), &st.v(b)),
                        };
                        st.set(*d, r);
                    }
                    I::VIcmp(p, w, d, a, b) => {
                        let (x, y) = (st.v(a), st.v(b));
                        let n = match (&x, &y) {
                            (V::A(l), _) | (_, V::A(l)) => l.len(),
                            _ => err!("vicmp undef"),
                        };
                        let (u, q) = (vlist(&x, n), vlist(&y, n));
                        let r = u.iter().zip(q.iter()).map(|(a, b)| icmp(*p, *w, a, b)).collect();
                        st.set(*d, V::A(Rc::new(r)));
                    }
                    I::Cast(o, fw, tw, d, a) => {
                        let r = match a {
                            O::R(x) => cast(*o, *fw, *tw, &st.top.regs[*x as usize]),
                            O::K(v) => cast(*o, *fw, *tw, v),
                        };
                        st.set(*d, r);
                    }
                    I::VCast(o, fw, tw, d, a) => {
                        let r = match st.v(a) {
                            V::A(l) => V::A(Rc::new(l.iter().map(|x| cast(*o, *fw, *tw, x)).collect())),
                            _ => V::U,
                        };
                        st.set(*d, r);
                    }
                    I::Bitcast(ft, tt, d, a) => {
                        let v = st.v(a);
                        let r = self.bitcast(*ft, *tt, v)?;
                        st.set(*d, r);
                    }
                    I::FBin(k, w, d, a, b) => {
                        let (x, y) = (to_e(&st.v(a), *w), to_e(&st.v(b), *w));
                        st.set(*d, from_e(fop(*k, x, y)));
                    }
                    I::FNeg(w, d, a) => {
                        let x = to_e(&st.v(a), *w);
                        st.set(*d, from_e(fneg(x)));
                    }
                    I::Fcmp(p, w, d, a, b) => {
                        let (x, y) = (to_e(&st.v(a), *w), to_e(&st.v(b), *w));
                        st.set(*d, from_e(fcmp(*p, x, y)));
                    }
                    I::Select(d, c, a, b, w) => {
                        let r = match st.v(c) {
                            V::C(1) => st.v(a),
                            V::C(_) | V::U => st.v(b),
                            V::S(e) => {
                                let e = st.pc.simp(e);
                                let (x, y) = (st.v(a), st.v(b));
                                match const_val(e) {
                                    Some(1) => x,
                                    Some(_) => y,
                                    None => match select(e, &x, &y, *w) {
                                        Some(r) => r,
                                        None => err!("select on aggregate"),
                                    },
                                }
                            }
                            V::A(_) => err!("select cond"),
                        };
                        st.set(*d, r);
                    }
                    I::VSelect(d, c, a, b, w) => {
                        let cl = match st.v(c) {
                            V::A(l) => l,
                            _ => err!("vselect undef"),
                        };
                        let (x, y) = (vlist(&st.v(a), cl.len()), vlist(&st.v(b), cl.len()));
                        let mut r = vec![];
                        for i in 0..cl.len() {
                            r.push(match &cl[i] {
                                V::C(1) => x[i].clone(),
                                V::C(_) | V::U => y[i].clone(),
                                V::S(e) => select(*e, &x[i], &y[i], *w).unwrap(),
                                _ => err!("vselect"),
                            });
                        }
                        st.set(*d, V::A(Rc::new(r)));
                    }
                    I::Load(d, t, p) => {
                        let a = match p {
                            O::R(r) => st.top.regs[*r as usize].clone(),
                            O::K(v) => v.clone(),
                        };
                        let v = match a {
                            V::C(a) => {
                                let n = self.m.types.borrow().size(*t);
                                if !st.mem.valid(a, n) {
                                    err!("invalid load {:x} at {:?}", a, self.bt(st));
                                }
                                self.load_ty(st, *t, a)?
                            }
                            V::S(e) if split_address(e) => {
                                match self.conc(st, p, 64)? {
                                    Ok(_) => {
                                        let a = match st.v(p) {
                                            V::C(a) => a,
                                            _ => err!("load from undef"),
                                        };
                                        self.check_addr(st, a, self.m.types.borrow().size(*t), "load")?;
                                        self.load_ty(st, *t, a)?
                                    }
                                    Err(mut alts) => {
                                        // other places that follow the same split
                                        for a in alts.iter_mut() {
                                            a.follow_split();
                                            for i in 0..a.top.regs.len() {
                                                if let V::S(x) = a.top.regs[i] {
                                                    if width(x) == 64 && finite(x, &mut FxMap::default()).is_some() {
                                                        a.top.regs[i] = from_e(a.pc.deep(x));
                                                    }
                                                }
                                            }
                                        }
                                        return Ok(Ev::Alts(alts));
                                    }
                                }
                            }
                            V::S(e) => self.load_sym(st, *t, e)?,
                            _ => err!("load from undef at {:?}", self.bt(st)),
                        };
                        st.set(*d, v);
                    }
                    I::Store(t, v, p) => {
                        let a = match self.conc(st, p, 64)? {
                            Ok(a) => a,
                            Err(alts) => return Ok(Ev::Alts(alts)),
                        };
                        let n = self.m.types.borrow().size(*t);
                        self.check_addr(st, a, n, "store")?;
                        let v = st.v(v);
                        self.store_ty(st, *t, a, &v)?;
                    }
                    I::Gep(d, b, ix, off) => {
                        let base = st.v(b);
                        let mut conc = true;
                        let mut a = match &base {
                            V::C(x) => x.wrapping_add(*off as u64),
                            V::U => *off as u64,
                            _ => {
                                conc = false;
                                0
                            }
                        };
                        if conc {
                            for (o, w, s) in ix {
                                match o {
                                    O::R(r) => match &st.top.regs[*r as usize] {
                                        V::C(x) => a = a.wrapping_add((sx64(*x, *w)).wrapping_mul(*s) as u64),
                                        V::U => {}
                                        _ => {
                                            conc = false;
                                            break;
                                        }
                                    },
                                    O::K(V::C(x)) => a = a.wrapping_add((sx64(*x, *w)).wrapping_mul(*s) as u64),
                                    O::K(V::U) => {}
                                    _ => {
                                        conc = false;
                                        break;
                                    }
                                }
                            }
                        }
                        if conc {
                            st.set(*d, V::C(a));
                        } else {
                            let mut e = add(to_e(&base, 64), konst(64, *off as i128 as u128));
                            for (o, w, s) in ix {
                                let x = to_e(&st.v(o), *w);
                                let x = if *w < 64 { sext(x, 64) } else { x };
                                let y = mul(x, konst(64, *s as i128 as u128));
                                e = add_ptr(e, y);
                            }
                            st.set(*d, from_e(e));
                        }
                    }
                    I::Alloca(d, size, al, n) => {
                        let k = match n {
                            None => 1,
                            Some(o) => match st.v(o) {
                                V::C(x) => x,
                                _ => err!("symbolic alloca"),
                            },
                        };
                        let al = (*al).max(16);
                        let a = (st.mem.sp + al - 1) / al * al;
                        st.mem.sp = a + size * k;
                        if st.mem.sp >= STACK_END {
                            err!("stack overflow");
                        }
                        st.set(*d, V::C(a));
                    }
                    I::Extract(d, a, ix) => {
                        let mut v = st.v(a);
                        for i in ix {
                            v = match v {
                                V::A(l) => l[*i as usize].clone(),
                                V::U => V::U,
                                _ => err!("extractvalue"),
                            };
                        }
                        st.set(*d, v);
                    }
                    I::Insert(d, a, v, ix) => {
                        let x = st.v(v);
                        let base = st.v(a);
                        let r = insert(base, &x, ix);
                        st.set(*d, r);
                    }
                    I::ExtractElem(d, a, i) => {
                        let v = st.v(a);
                        let i = match st.v(i) {
                            V::C(x) => x as usize,
                            _ => err!("symbolic extractelement"),
                        };
                        let r = match v {
                            V::A(l) => l[i].clone(),
                            _ => V::U,
                        };
                        st.set(*d, r);
                    }
                    I::InsertElem(d, a, v, i) => {
                        let i = match st.v(i) {
                            V::C(x) => x as usize,
                            _ => err!("symbolic insertelement"),
                        };
                        let mut l = match st.v(a) {
                            V::A(l) => l.to_vec(),
                            _ => err!("insertelement undef"),
                        };
                        l[i] = st.v(v);
                        st.set(*d, V::A(Rc::new(l)));
                    }
                    I::Shuffle(d, a, b, mask) => {
                        let (x, y) = (st.v(a), st.v(b));
                        let n = match (&x, &y) {
                            (V::A(l), _) | (_, V::A(l)) => l.len(),
                            _ => err!("shuffle undef"),
                        };
                        let (p, q) = (vlist(&x, n), vlist(&y, n));
                        let r = mask
                            .iter()
                            .map(|&i| {
                                if i < 0 {
                                    V::U
                                } else if (i as usize) < n {
                                    p[i as usize].clone()
                                } else {
                                    q[i as usize - n].clone()
                                }
                            })
                            .collect();
                        st.set(*d, V::A(Rc::new(r)));
                    }
                    I::Cmpxchg(d, t, p, c, nw) => {
                        let a = match self.conc(st, p, 64)? {
                            Ok(a) => a,
                            Err(alts) => return Ok(Ev::Alts(alts)),
                        };
                        let old = self.load_ty(st, *t, a)?;
                        let w = self.scalar_w(*t);
                        let e = icmp(P::Eq, w, &old, &st.v(c));
                        match e {
                            V::C(1) => {
                                let v = st.v(nw);
                                self.store_ty(st, *t, a, &v)?;
                            }
                            V::C(_) => {}
                            _ => err!("symbolic cmpxchg"),
                        }
                        st.set(*d, V::A(Rc::new(vec![old, e])));
                    }
                    I::Rmw(o, d, t, p, v) => {
                        let a = match self.conc(st, p, 64)? {
                            Ok(a) => a,
                            Err(alts) => return Ok(Ev::Alts(alts)),
                        };
                        let old = self.load_ty(st, *t, a)?;
                        let w = self.scalar_w(*t);
                        let x = st.v(v);
                        let nv = match o {
                            RmwOp::Xchg => x,
                            RmwOp::Add => bin(B::Add, w, &old, &x),
                            RmwOp::Sub => bin(B::Sub, w, &old, &x),
                            RmwOp::And => bin(B::And, w, &old, &x),
                            RmwOp::Or => bin(B::Or, w, &old, &x),
                            RmwOp::Xor => bin(B::Xor, w, &old, &x),
                            _ => err!("rmw op"),
                        };
                        self.store_ty(st, *t, a, &nv)?;
                        if *d != NONE {
                            st.set(*d, old);
                        }
                    }
                    I::Copy(d, a) => {
                        let v = st.v(a);
                        st.set(*d, v);
                    }
                    I::Nop => {}
                    I::Br(b) => {
                        let b = *b;
                        self.goto(st, b)?;
                        if stop == Stop::Join(st.stack.len()) && st.top.f.join(b) {
                            return Ok(Ev::Stop);
                        }
                        continue 'outer;
                    }
                    I::CondBr(c, a, b) => {
                        let t = match st.v(c) {
                            V::C(x) => {
                                if x & 1 == 1 {
                                    *a
                                } else {
                                    *b
                                }
                            }
                            V::S(e) => match self.sv.decide(&st.pc, e) {
                                Dec::True => *a,
                                Dec::False => *b,
                                Dec::Unknown(m) => err!("{} at {:?}", m, self.bt(st)),
                                Dec::Both(mt, mf) => {
                                    let (a, b) = (*a, *b);
                                    let mut s2 = st.clone();
                                    let mut s1 = std::mem::replace(st, s2.clone());
                                    s1.pc.add(e, mt);
                                    self.goto(&mut s1, a)?;
                                    s2.pc.add(not(e), mf);
                                    self.goto(&mut s2, b)?;
                                    return Ok(Ev::Alts(vec![s1, s2]));
                                }
                            },
                            _ => err!("branch on undef at {:?}", self.bt(st)),
                        };
                        self.goto(st, t)?;
                        if stop == Stop::Join(st.stack.len()) && st.top.f.join(t) {
                            return Ok(Ev::Stop);
                        }
                        continue 'outer;
                    }
                    I::Switch(v, w, df, cases) => {
                        let t = match st.v(v) {
                            V::C(x) => cases.iter().find(|c| c.0 & mask(*w) == x as u128).map(|c| c.1).unwrap_or(*df),
                            V::S(e) => {
                                let mut by: Vec<(u32, Vec<E>)> = vec![];
                                let mut none = vec![];
                                for (k, b) in cases {
                                    let c = eq(e, konst(*w, *k & mask(*w)));
                                    none.push(not(c));
                                    match by.iter_mut().find(|x| x.0 == *b) {
                                        Some(x) => x.1.push(c),
                                        None => by.push((*b, vec![c])),
                                    }
                                }
                                let d = and_n(none);
                                match by.iter_mut().find(|x| x.0 == *df) {
                                    Some(x) => x.1.push(d),
                                    None => by.push((*df, vec![d])),
                                }
                                let ch = by.into_iter().map(|(b, l)| (or_n(l), b)).collect();
                                let mut alts = self.cond_alts(st, ch)?;
                                if alts.len() == 1 {
                                    // decided: keep the state without the (implied) conjunct
                                    let b = alts.pop().unwrap().top.block;
                                    b
                                } else {
                                    return Ok(Ev::Alts(alts));
                                }
                            }
                            _ => err!("switch on undef at {:?}", self.bt(st)),
                        };
                        self.goto(st, t)?;
                        if stop == Stop::Join(st.stack.len()) && st.top.f.join(t) {
                            return Ok(Ev::Stop);
                        }
                        continue 'outer;
                    }
                    I::Ret(v) => {
                        let rv = match v {
                            Some(o) => Some(st.v(o)),
                            None => None,
                        };
                        let depth = st.stack.len();
                        // release stack
                        let sp = st.top.sp;
                        if st.mem.sp > sp {
                            let n = st.mem.sp - sp;
                            st.mem.undef(sp, n);
                            st.mem.sp = sp;
                        }
                        match st.stack.pop() {
                            None => {
                                self.rep.paths += 1;
                                self.finish(st);
                                return Ok(Ev::Dead);
                            }
                            Some(fr) => {
                                st.top = match Rc::try_unwrap(fr) {
                                    Ok(f) => f,
                                    Err(r) => (*r).clone(),
                                };
                                let (d, normal) = match &st.top.f.blocks[st.top.block as usize].insts[st.top.ip] {
                                    I::Call(c) => (c.d, c.normal),
                                    _ => unreachable!(),
                                };
                                if d != NONE {
                                    st.top.regs[d as usize] = rv.unwrap_or(V::U);
                                }
                                if normal != NONE {
                                    self.goto(st, normal)?;
                                } else {
                                    st.top.ip += 1;
                                }
                                if stop == Stop::Join(depth) {
                                    return Ok(Ev::Stop);
                                }
                                if normal != NONE && stop == Stop::Join(st.stack.len()) && st.top.f.join(normal) {
                                    return Ok(Ev::Stop);
                                }
                                continue 'outer;
                            }
                        }
                    }
                    I::Unreachable => err!("reached unreachable at {:?}", self.bt(st)),
                    I::Unsupported(s) => err!("unsupported: {}", s),
                    I::Call(c) => {
                        let d = c.d;
                        let fid = match &c.callee {
                            Callee::Fn(f) => *f,
                            Callee::Intr(n) => {
                                let n = n.clone();
                                if let Some(ev) = self.intrinsic(st, &n, c)? {
                                    return Ok(ev);
                                }
                                if c.normal != NONE {
                                    let nb = c.normal;
                                    self.goto(st, nb)?;
                                    continue 'outer;
                                }
                                st.top.ip += 1;
                                continue;
                            }
                            Callee::Asm => {
                                // cpuid: report no optional features
                                let r = match self.m.types.borrow().k(c.ret) {
                                    TyK::Struct(f, _) => V::A(Rc::new(vec![V::C(0); f.len()])),
                                    TyK::Void => V::U,
                                    _ => V::C(0),
                                };
                                if d != NONE {
                                    st.set(d, r);
                                }
                                st.top.ip += 1;
                                continue;
                            }
                            Callee::Ind(o) => {
                                let a = match self.conc(st, o, 64)? {
                                    Ok(a) => a,
                                    Err(alts) => return Ok(Ev::Alts(alts)),
                                };
                                if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 {
                                    err!("bad indirect call {:x} at {:?}", a, self.bt(st));
                                }
                                ((a - FN_BASE) / 16) as u32
                            }
                        };
                        let kind = self.kinds[fid as usize];
                        match kind {
                            FnKind::Normal => {
                                let f = self.m.func(fid).unwrap();
                                self.fns_run.insert(fid);
                                let mut regs = vec![V::U; f.nregs as usize];
                                if c.args.len() != f.nparams as usize {
                                    err!("argument count for {}", f.name);
                                }
                                for (i, a) in c.args.iter().enumerate() {
                                    regs[i] = st.v(a);
                                }
                                let sp = st.mem.sp;
                                let fr = Frame { f, regs, block: 0, ip: 0, sp };
                                let old = std::mem::replace(&mut st.top, fr);
                                st.stack.push(Rc::new(old));
                                if st.stack.len() > 2000 {
                                    err!("call depth");
                                }
                                continue 'outer;
                            }
                            FnKind::Panic => {
                                let nm = self.m.fns[fid as usize].name.clone();
                                let md = st.pc.model.clone();
                                let mut id = "panic".to_string();
                                // name the innermost function outside the runtime
                                let t = self.bt(st);
                                for x in &t {
                                    if !x.contains("core::") && !x.contains("alloc::") {
                                        id = format!("panic in {}", x.split(":bb").next().unwrap());
                                        break;
                                    }
                                }
                                self.violation(st, id, &format!("panic {}", short(&nm)), &md);
                                return Ok(Ev::Dead);
                            }
                            FnKind::Hash => {
                                st.set(d, V::C(0x9e37_79b9_7f4a_7c15));
                            }
                            FnKind::Memchr(rev) => {
                                if let Some(ev) = self.memchr(st, c, rev)? {
                                    return Ok(ev);
                                }
                            }
                            FnKind::Ext(x) => {
                                if let Some(ev) = self.external(st, x, c, fid)? {
                                    return Ok(ev);
                                }
                            }
                        }
                        if c.normal != NONE {
                            let nb = c.normal;
                            self.goto(st, nb)?;
                            if stop == Stop::Join(st.stack.len()) && st.top.f.join(nb) {
                                return Ok(Ev::Stop);
                            }
                            continue 'outer;
                        }
                    }
                }
                st.top.ip += 1;
            }
        }
    }
    fn finish(&mut self, st: &State) {
        if !st.outs.is_empty() && self.rep.outs.len() < 10000 {
            let mut ev = Eval::new(&st.pc.model);
            let v = st.outs.iter().map(|(k, e)| (*k, ev.get(*e) as u64)).collect();
            self.rep.outs.push(v);
        }
    }
    fn bitcast(&self, ft: Ty, tt: Ty, v: V) -> R<V> {
        let ts = self.m.types.borrow();
        let vecinfo = |t: Ty| match ts.k(t) {
            TyK::Vec(n, e) => Some((*n, ts.bits(*e))),
            _ => None,
        };
        match (vecinfo(ft), vecinfo(tt)) {
            (None, None) => Ok(v),
            (Some((n, w)), None) => {
                let l = vlist(&v, n as usize);
                if l.iter().all(|x| matches!(x, V::C(_) | V::U)) && n * w <= 64 {
                    let mut r = 0u64;
                    for (i, x) in l.iter().enumerate() {
                        if let V::C(c) = x {
                            r |= c << (i as u32 * w);
                        }
                    }
                    return Ok(V::C(r));
                }
                Ok(from_e(concat(l.iter().map(|x| to_e(x, w)).collect())))
            }
            (a, Some((n, w))) => {
                let e = match a {
                    None => to_e(&v, n * w),
                    Some((n0, w0)) => {
                        if n0 == n && w0 == w {
                            return Ok(v);
                        }
                        if n0 * w0 > 128 {
                            return Err("wide vector bitcast".into());
                        }
                        concat(vlist(&v, n0 as usize).iter().map(|x| to_e(x, w0)).collect())
                    }
                };
                if n * w > 128 {
                    return Err("wide vector bitcast".into());
                }
                Ok(V::A(Rc::new((0..n).map(|i| from_e(extract(e, i * w, w))).collect())))
            }
        }
    }
    fn memchr(&mut self, st: &mut State, c: &CallI, rev: bool) -> R<Option<Ev>> {
        let mut a = [0u64; 3];
        for i in 0..3 {
            a[i] = match self.conc(st, &c.args[i], if i == 0 { 8 } else { 64 })? {
                Ok(x) => x,
                Err(alts) => return Ok(Some(Ev::Alts(alts))),
            };
        }
        let n = a[2];
        let mut res = None;
        for k in 0..n {
            let i = if rev { n - 1 - k } else { k };
            let p = a[1] + i;
            let hit = match st.mem.rd(p, 1) {
                Some(b) => b == a[0],
                None => {
                    let e = eq(st.mem.rd_e(p, 1), konst(8, a[0] as u128));
                    match self.sv.decide(&st.pc, e) {
                        Dec::True => true,
                        Dec::False => false,
                        Dec::Unknown(m) => err!("{}", m),
                        Dec::Both(mt, mf) => {
                            let mut s1 = st.clone();
                            s1.pc.add(e, mt);
                            let mut s2 = st.clone();
                            s2.pc.add(not(e), mf);
                            return Ok(Some(Ev::Alts(vec![s1, s2])));
                        }
                    }
                }
            };
            if hit {
                res = Some(i);
                break;
            }
        }
        let v = match res {
            Some(i) => vec![V::C(1), V::C(i)],
            None => vec![V::C(0), V::C(0)],
        };
        st.set(c.d, V::A(Rc::new(v)));
        Ok(None)
    }
    fn ovf(&mut self, name: &str, w: u32, a: &V, b: &V) -> V {
        let signed = name.starts_with("llvm.s");
        let o = &name[6..9];
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (r, of) = if signed {
                    let (x, y) = (sx64(*x, w) as i128, sx64(*y, w) as i128);
                    let r = match o {
                        "add" => x + y,
                        "sub" => x - y,
                        _ => x * y,
                    };
                    let h = 1i128 << (w - 1);
                    (r as u128, r < -h || r >= h)
                } else {
                    let (x, y) = (*x as u128, *y as u128);
                    match o {
                        "add" => (x + y, x + y > mask(w)),
                        "sub" => (x.wrapping_sub(y), x < y),
                        _ => (x * y, x * y > mask(w)),
                    }
                };
                return V::A(Rc::new(vec![V::C(r as u64 & m64(w)), V::C(of as u64)]));
            }
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        let r = match o {
            "add" => add(x, y),
            "sub" => sub(x, y),
            _ => mul(x, y),
        };
        let of = if signed {
            let (a, b) = (srange(x), srange(y));
            let h = 1i128 << (w - 1);
            let (l, u) = if w > 64 {
                (i128::MIN, i128::MAX)
            } else {
                match o {
                    "add" => (a.0 + b.0, a.1 + b.1),
                    "sub" => (a.0 - b.1, a.1 - b.0),
                    _ => {
                        let c = [a.0.saturating_mul(b.0), a.0.saturating_mul(b.1), a.1.saturating_mul(b.0), a.1.saturating_mul(b.1)];
                        (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                    }
                }
            };
            if l >= -h && u < h {
                FALSE
            } else if o == "mul" {
                let p = mul(sext(x, 2 * w), sext(y, 2 * w));
                let s = sext(extract(p, 0, w), 2 * w);
                not(eq(p, s))
            } else {
                let (p, q) = (sext(x, w + 1), sext(y, w + 1));
                let s = if o == "add" { add(p, q) } else { sub(p, q) };
                let (t, u) = (extract(s, w, 1), extract(s, w - 1, 1));
                xor1(t, u)
            }
        } else {
            let (a, b) = (nd(x), nd(y));
            match o {
                "add" => {
                    if a.hi.checked_add(b.hi).map_or(false, |s| s <= mask(w)) {
                        FALSE
                    } else {
                        let s = add(zext(x, w + 1), zext(y, w + 1));
                        extract(s, w, 1)
                    }
                }
                "sub" => ult(x, y),
                _ => {
                    if a.hi.checked_mul(b.hi).map_or(false, |s| s <= mask(w)) {
                        FALSE
                    } else {
                        // by a constant: compare with the quotient
                        match (const_val(x), const_val(y)) {
                            (Some(k), _) if k != 0 => ult(konst(w, mask(w) / k), y),
                            (_, Some(k)) if k != 0 => ult(konst(w, mask(w) / k), x),
                            _ if w <= 64 => {
                                let p = mul(zext(x, 2 * w), zext(y, 2 * w));
                                let h = extract(p, w, w);
                                not(eq(h, konst(w, 0)))
                            }
                            _ => FALSE,
                        }
                    }
                }
            }
        };
        V::A(Rc::new(vec![from_e(r), from_e(of)]))
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, c: &CallI) -> R<Option<Ev>> {
        let d = c.d;
        let part: &str = name[5..].split('.').next().unwrap();
        match part {
            "lifetime" | "assume" | "experimental" | "donothing" | "dbg" | "prefetch" | "invariant" => return Ok(None),
            "memcpy" | "memmove" => {
                let mut a = [0u64; 3];
                let mut symn = None;
                for i in [2usize, 0, 1] {
                    if i == 2 {
                        if let V::S(e) = st.v(&c.args[2]) {
                            if let Some(hi) = self.bound(e) {
                                symn = Some((e, hi));
                                continue;
                            }
                        }
                    }
                    a[i] = match self.conc(st, &c.args[i], 64)? {
                        Ok(x) => x,
                        Err(alts) => return Ok(Some(Ev::Alts(alts))),
                    };
                }
                if let Some((e, hi)) = symn {
                    // a copy of merged length: byte i is copied where i < length
                    let w = width(e);
                    let mut new = vec![];
                    for i in 0..hi {
                        let (sb, ss, sd) = st.mem.byte(a[1] + i);
                        if !sd {
                            break;
                        }
                        let c = not(ult(e, konst(w, i as u128 + 1)));
                        if c == FALSE {
                            break;
                        }
                        let (_, _, dd) = st.mem.byte(a[0] + i);
                        let _ = (sb, ss);
                        let src = st.mem.rd_e(a[1] + i, 1);
                        new.push(if dd { ite(c, src, st.mem.rd_e(a[0] + i, 1)) } else { src });
                    }
                    let n = new.len() as u64;
                    if n < hi && self.sv.sat(&st.pc, not(ult(e, konst(w, n as u128 + 1))))?.is_some() {
                        err!("copy of undefined bytes at {:?}", self.bt(st));
                    }
                    if n > 0 {
                        self.check_addr(st, a[0], n, "memcpy dst")?;
                        for (i, x) in new.into_iter().enumerate() {
                            st.mem.wr_e(a[0] + i as u64, x);
                        }
                    }
                    return Ok(None);
                }
                if a[2] > 0 {
                    self.check_addr(st, a[0], a[2], "memcpy dst")?;
                    self.check_addr(st, a[1], a[2], "memcpy src")?;
                    st.mem.copy(a[0], a[1], a[2]);
                }
                return Ok(None);
            }
            "memset" => {
                let p = match self.conc(st, &c.args[0], 64)? {
                    Ok(x) => x,
                    Err(alts) => return Ok(Some(Ev::Alts(alts))),
                };
                let n = match self.conc(st, &c.args[2], 64)? {
                    Ok(x) => x,
                    Err(alts) => return Ok(Some(Ev::Alts(alts))),
                };
                if n > 0 {
                    self.check_addr(st, p, n, "memset")?;
                    match st.v(&c.args[1]) {
                        V::C(b) => st.mem.set(p, b as u8, n),
                        V::S(e) => {
                            for i in 0..n {
                                st.mem.wr_e(p + i, e);
                            }
                        }
                        _ => st.mem.set(p, 0, n),
                    }
                }
                return Ok(None);
            }
            "trap" => {
                let md = st.pc.model.clone();
                self.violation(st, "trap".into(), "trap", &md);
                return Ok(Some(Ev::Dead));
            }
            "threadlocal" => {
                let v = st.v(&c.args[0]);
                st.set(d, v);
                return Ok(None);
            }
            "is" => {
                st.set(d, V::C(0));
                return Ok(None);
            }
            "x86" => {
                if name.contains("pause") {
                    return Ok(None);
                }
                if name.contains("pshuf") {
                    let (x, y) = (vlist(&st.v(&c.args[0]), 16), vlist(&st.v(&c.args[1]), 16));
                    let mut r = vec![];
                    for (i, s) in y.iter().enumerate() {
                        match s {
                            V::C(k) => r.push(if k & 0x80 != 0 { V::C(0) } else { x[(i & !15) + (*k as usize & 15)].clone() }),
                            _ => err!("symbolic pshufb"),
                        }
                    }
                    st.set(d, V::A(Rc::new(r)));
                    return Ok(None);
                }
                if name.contains("xgetbv") {
                    st.set(d, V::C(0));
                    return Ok(None);
                }
                err!("intrinsic {}", name)
            }
            _ => {}
        }
        // element-wise on vectors
        let isvec = matches!(self.m.types.borrow().k(c.ret), TyK::Vec(..));
        let args: Vec<V> = c.args.iter().map(|a| st.v(a)).collect();
        if isvec {
            let n = args
                .iter()
                .map(|a| match a {
                    V::A(l) => l.len(),
                    _ => 0,
                })
                .max()
                .unwrap();
            let w = match self.m.types.borrow().k(c.ret) {
                TyK::Vec(_, e) => self.m.types.borrow().bits(*e),
                _ => 0,
            };
            let mut out = vec![];
            for i in 0..n {
                let a: Vec<V> = args
                    .iter()
                    .map(|a| match a {
                        V::A(l) => l[i].clone(),
                        x => x.clone(),
                    })
                    .collect();
                out.push(self.scalar_intr(part, name, w, w, &a)?);
            }
            st.set(d, V::A(Rc::new(out)));
            return Ok(None);
        }
        let rw = self.scalar_w(c.ret);
        let aw = if c.argtys.is_empty() { 0 } else { self.scalar_w(c.argtys[0]) };
        let r = self.scalar_intr(part, name, rw, aw, &args)?;
        if d != NONE {
            st.set(d, r);
        }
        Ok(None)
    }
    fn scalar_intr(&mut self, part: &str, name: &str, rw: u32, aw: u32, a: &[V]) -> R<V> {
        if name.contains(".with.overflow.") {
            return Ok(self.ovf(name, aw, &a[0], &a[1]));
        }
        let conc = aw <= 64 && a.iter().all(|x| matches!(x, V::C(_)));
        let cv = |i: usize| match a[i] {
            V::C(x) => x,
            _ => 0,
        };
        Ok(match part {
            "umax" | "umin" | "smax" | "smin" => {
                let p = match part {
                    "umax" => P::Ugt,
                    "umin" => P::Ult,
                    "smax" => P::Sgt,
                    _ => P::Slt,
                };
                let cnd = icmp(p, aw, &a[0], &a[1]);
                match cnd {
                    V::C(1) => a[0].clone(),
                    V::C(_) => a[1].clone(),
                    V::S(e) => select(e, &a[0], &a[1], aw).unwrap(),
                    _ => err!("minmax"),
                }
            }
            "scmp" | "ucmp" => {
                let p = if part == "scmp" { P::Slt } else { P::Ult };
                let lt = to_e(&icmp(p, aw, &a[0], &a[1]), 1);
                let e = to_e(&icmp(P::Eq, aw, &a[0], &a[1]), 1);
                from_e(ite(lt, konst(rw, u128::MAX), ite(e, konst(rw, 0), konst(rw, 1))))
            }
            "uadd" if name.contains("uadd.sat") => {
                let x = to_e(&a[0], aw);
                let y = to_e(&a[1], aw);
                let s = add(zext(x, aw + 1), zext(y, aw + 1));
                from_e(ite(extract(s, aw, 1), konst(aw, u128::MAX), extract(s, 0, aw)))
            }
            "usub" if name.contains("usub.sat") => {
                let x = to_e(&a[0], aw);
                let y = to_e(&a[1], aw);
                let lt = ult(x, y);
                from_e(ite(lt, konst(aw, 0), sub(x, y)))
            }
            "abs" => {
                let x = to_e(&a[0], aw);
                let neg = slt(x, konst(aw, 0));
                from_e(ite(neg, sub(konst(aw, 0), x), x))
            }
            "ctpop" | "cttz" | "ctlz" | "bswap" | "bitreverse" if conc => {
                let x = cv(0);
                V::C(match part {
                    "ctpop" => x.count_ones() as u64,
                    "cttz" => (x.trailing_zeros()).min(aw) as u64,
                    "ctlz" => (x.leading_zeros() - (64 - aw)) as u64,
                    "bswap" => x.swap_bytes() >> (64 - aw),
                    _ => x.reverse_bits() >> (64 - aw),
                })
            }
            "ctpop" => {
                let x = to_e(&a[0], aw);
                let t = (0..aw).map(|i| (zext(extract(x, i, 1), rw), 1u128)).collect();
                from_e(sum(rw, 0, t))
            }
            "cttz" | "ctlz" => {
                let x = to_e(&a[0], aw);
                let mut r = konst(rw, aw as u128);
                for i in (0..aw).rev() {
                    let b = if part == "cttz" { i } else { aw - 1 - i };
                    r = ite(extract(x, b, 1), konst(rw, i as u128), r);
                }
                from_e(r)
            }
            "bswap" => {
                let x = to_e(&a[0], aw);
                from_e(concat((0..aw / 8).rev().map(|i| extract(x, 8 * i, 8)).collect()))
            }
            "bitreverse" => {
                let x = to_e(&a[0], aw);
                from_e(concat((0..aw).rev().map(|i| extract(x, i, 1)).collect()))
            }
            "fshl" | "fshr" => {
                let s = match &a[2] {
                    V::C(x) => (*x % aw as u64) as u32,
                    _ => err!("symbolic funnel shift"),
                };
                let (h, l) = (to_e(&a[0], aw), to_e(&a[1], aw));
                let (h, l) = (h, l);
                if s == 0 {
                    return Ok(if part == "fshl" { a[0].clone() } else { a[1].clone() });
                }
                let s = if part == "fshl" { s } else { aw - s };
                let x = shl(h, konst(aw, s as u128));
                let y = lshr(l, konst(aw, (aw - s) as u128));
                from_e(bit_or(x, y))
            }
            "fabs" => from_e(fabs(to_e(&a[0], aw))),
            "floor" => from_e(frnd(0, to_e(&a[0], aw))),
            "ceil" => from_e(frnd(1, to_e(&a[0], aw))),
            "trunc" => from_e(frnd(2, to_e(&a[0], aw))),
            "round" => from_e(frnd(3, to_e(&a[0], aw))),
            "sqrt" => from_e(frnd(5, to_e(&a[0], aw))),
            "rint" | "roundeven" | "nearbyint" => from_e(frnd(4, to_e(&a[0], aw))),
            "fptoui" | "fptosi" => from_e(ftoi(part == "fptosi", to_e(&a[0], aw), rw)),
            "powi" => {
                // compiler-rt's repeated squaring
                let mut n = match &a[1] {
                    V::C(x) => *x as i32,
                    _ => err!("symbolic powi"),
                };
                let neg = n < 0;
                let one = if aw == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
                let mut r = konst(aw, one);
                let mut b = to_e(&a[0], aw);
                loop {
                    if n & 1 != 0 {
                        r = fop(FB::Mul, r, b);
                    }
                    n /= 2;
                    if n == 0 {
                        break;
                    }
                    b = fop(FB::Mul, b, b);
                }
                if neg {
                    r = fop(FB::Div, konst(aw, one), r);
                }
                from_e(r)
            }
            "copysign" => {
                let x = fabs(to_e(&a[0], aw));
                let s = extract(to_e(&a[1], aw), aw - 1, 1);
                from_e(ite(s, fneg(x), x))
            }
            "maxnum" | "minnum" | "maximumnum" | "minimumnum" => {
                let (x, y) = (to_e(&a[0], aw), to_e(&a[1], aw));
                let p = if part.starts_with("max") { 2 } else { 4 };
                let c = fcmp(p, x, y);
                let yn = fcmp(8, y, y);
                from_e(ite(or(c, yn), x, y))
            }
            "fmuladd" | "fma" => err!("fma"),
            "expect" => a[0].clone(),
            "objectsize" => V::C(u64::MAX),
            "returnaddress" | "frameaddress" => V::C(0),
            "ptrmask" => bin(B::And, 64, &a[0], &a[1]),
            "stacksave" => V::C(0),
            "stackrestore" => V::U,
            _ => err!("intrinsic {}", name),
        })
    }
    fn external(&mut self, st: &mut State, x: X, c: &CallI, fid: u32) -> R<Option<Ev>> {
        macro_rules! arg {
            ($i:expr) => {
                match self.conc(st, &c.args[$i], 64)? {
                    Ok(x) => x,
                    Err(alts) => return Ok(Some(Ev::Alts(alts))),
                }
            };
        }
        let d = c.d;
        let ret = |st: &mut State, v: V| {
            if d != NONE {
                st.set(d, v)
            }
        };
        match x {
            X::Malloc => {
                let sym = match st.v(&c.args[0]) {
                    V::S(e) => self.bound(e).map(|hi| (e, hi)),
                    _ => None,
                };
                // a block of merged size gets room for the largest
                let n = match sym {
                    Some((_, hi)) => hi,
                    None => arg!(0),
                };
                let p = st.mem.malloc(n, 16);
                if p == 0 {
                    err!("out of modelled memory");
                }
                if let Some((e, _)) = sym {
                    st.mem.wr_e(p - 8, e);
                }
                ret(st, V::C(p));
            }
            X::Calloc => {
                let n = arg!(0).wrapping_mul(arg!(1));
                let p = st.mem.malloc(n, 16);
                if p == 0 {
                    err!("out of modelled memory");
                }
                st.mem.set(p, 0, n);
                ret(st, V::C(p));
            }
            X::Realloc => {
                let p = arg!(0);
                let n = arg!(1);
                let q = st.mem.malloc(n, 16);
                if q == 0 {
                    err!("out of modelled memory");
                }
                if p != 0 {
                    let old = st.mem.size_of(p).1;
                    st.mem.copy(q, p, old.min(n));
                    st.mem.free(p);
                }
                ret(st, V::C(q));
            }
            X::Free => {
                let p = arg!(0);
                st.mem.free(p);
            }
            X::PosixMemalign => {
                let (o, al, n) = (arg!(0), arg!(1), arg!(2));
                let p = st.mem.malloc(n, al);
                if p == 0 {
                    err!("out of modelled memory");
                }
                st.mem.wr(o, p, 8);
                ret(st, V::C(0));
            }
            X::Bcmp => {
                let (p, q, n) = (arg!(0), arg!(1), arg!(2));
                let mut l = vec![];
                let mut i = 0;
                let mut r = None;
                while i < n {
                    let k = (n - i).min(8) as usize;
                    match (st.mem.rd(p + i, k), st.mem.rd(q + i, k)) {
                        (Some(a), Some(b)) => {
                            if a != b {
                                r = Some(FALSE);
                                break;
                            }
                        }
                        _ => {
                            for j in 0..k as u64 {
                                let e = eq(st.mem.rd_e(p + i + j, 1), st.mem.rd_e(q + i + j, 1));
                                l.push(e);
                            }
                        }
                    }
                    i += k as u64;
                }
                let e = r.unwrap_or_else(|| and_n(l));
                ret(st, from_e(ite(e, konst(32, 0), konst(32, 1))));
            }
            X::Memcmp => {
                let (p, q, n) = (arg!(0), arg!(1), arg!(2));
                let mut l = vec![];
                for i in 0..n {
                    match (st.mem.rd(p + i, 1), st.mem.rd(q + i, 1)) {
                        (Some(a), Some(b)) => {
                            if a != b {
                                l.push((FALSE, boolc(a < b)));
                                break;
                            }
                        }
                        _ => {
                            let (a, b) = (st.mem.rd_e(p + i, 1), st.mem.rd_e(q + i, 1));
                            let e = eq(a, b);
                            if e != TRUE {
                                l.push((e, ult(a, b)));
                            }
                            if e == FALSE {
                                break;
                            }
                        }
                    }
                }
                let mut r = konst(32, 0);
                for (e, lt) in l.into_iter().rev() {
                    r = ite(e, r, ite(lt, konst(32, u128::MAX), konst(32, 1)));
                }
                ret(st, from_e(r));
            }
            X::Strlen => {
                let p = arg!(0);
                let mut n = 0;
                loop {
                    match st.mem.rd(p + n, 1) {
                        Some(0) => break,
                        Some(_) => n += 1,
                        None => err!("symbolic strlen"),
                    }
                }
                ret(st, V::C(n));
            }
            X::ClockGettime => {
                let p = arg!(1);
                let (s, n) = st.time;
                st.mem.wr_e(p, s);
                st.mem.wr(p + 8, n, 8);
                ret(st, V::C(0));
            }
            X::Getrandom => {
                let (p, n) = (arg!(0), arg!(1));
                st.mem.set(p, 0x5a, n);
                ret(st, V::C(n));
            }
            X::Zero => ret(st, V::C(0)),
            X::Errno => {
                let p = self.errno(st);
                ret(st, V::C(p));
            }
            X::Enoent => {
                let p = self.errno(st);
                st.mem.wr(p, 2, 4);
                ret(st, V::C(0xffff_ffff));
            }
            X::One => ret(st, V::C(1)),
            X::RetLen3 => {
                let n = arg!(2);
                ret(st, V::C(n));
            }
            X::SymBytes => {
                let (p, n, dm) = (arg!(0), arg!(1), arg!(2));
                let mut dom = vec![];
                for i in 0..256u64 {
                    let b = if dm == 0 { 1 } else { st.mem.rd(dm + i / 8, 1).ok_or("symbolic domain")? >> (i % 8) & 1 };
                    if b == 1 {
                        dom.push(i as u8);
                    }
                }
                for i in 0..n {
                    let v = var(st.nvars, &dom);
                    st.nvars += 1;
                    st.pc.declare(v);
                    st.mem.wr_e(p + i, var_expr(v));
                }
            }
            X::SymAssume => match st.v(&c.args[0]) {
                V::C(x) if x & 1 == 1 => {}
                V::C(_) => {
                    self.rep.assumed_away += 1;
                    return Ok(Some(Ev::Dead));
                }
                V::S(e) => match self.sv.sat(&st.pc, e)? {
                    None => {
                        self.rep.assumed_away += 1;
                        return Ok(Some(Ev::Dead));
                    }
                    Some(m) => match self.sv.decide(&st.pc, e) {
                        Dec::True => {}
                        _ => {
                            self.lost += 1;
                            st.pc.add(e, m)
                        }
                    },
                },
                _ => err!("assume undef"),
            },
            X::SymCheck | X::SymKnown => {
                // sym_check(cond, ptr, len); sym_known(cond, known, ptr, len)
                let k = if x == X::SymCheck { 1 } else { 2 };
                let (p, n) = (arg!(k), arg!(k + 1));
                let id = self.rd_str(st, p, n);
                *self.rep.checks.entry(id.clone()).or_insert(0) += 1;
                let e = match st.v(&c.args[0]) {
                    V::S(e) => e,
                    V::C(x) => boolc(x & 1 == 1),
                    _ => err!("check undef"),
                };
                let mut bad = not(e);
                if x == X::SymKnown {
                    let kn = match st.v(&c.args[1]) {
                        V::S(e) => e,
                        V::C(x) => boolc(x & 1 == 1),
                        _ => err!("check undef"),
                    };
                    if !self.rep.knowns.contains_key(&id) {
                        if let Some(m) = self.sat_check(st, and(bad, kn))? {
                            let b = self.model_bytes(st, &m);
                            self.rep.knowns.insert(id.clone(), b);
                        }
                    }
                    bad = and(bad, not(kn));
                }
                if let Some(m) = self.sat_check(st, bad)? {
                    self.violation(st, id, "check", &m);
                    // continue on the good side, if any
                    let good = not(bad);
                    match self.sv.sat(&st.pc, good)? {
                        None => return Ok(Some(Ev::Dead)),
                        Some(m) => {
                            self.lost += 1;
                            st.pc.add(good, m)
                        }
                    }
                }
            }
            X::SymCover => {
                let (p, n) = (arg!(0), arg!(1));
                let id = self.rd_str(st, p, n);
                if !self.rep.covers.contains_key(&id) {
                    let b = self.model_bytes(st, &st.pc.model.clone());
                    self.rep.covers.insert(id, b);
                }
            }
            X::SymClose => {
                let (a, b) = (to_e(&st.v(&c.args[0]), 64), to_e(&st.v(&c.args[1]), 64));
                let t = match st.v(&c.args[2]) {
                    V::C(t) => t,
                    _ => err!("tolerance"),
                };
                ret(st, from_e(fclose_e(a, b, t)));
            }
            X::SymPick => {
                let v = arg!(0);
                ret(st, V::C(v));
            }
            X::SymTime => {
                let e = to_e(&st.v(&c.args[0]), 64);
                st.time = (e, arg!(1));
            }
            X::SymMode => {
                st.path_mode = arg!(0) == 1;
            }
            X::SymOut => {
                let k = arg!(0);
                let e = to_e(&st.v(&c.args[1]), 64);
                Rc::make_mut(&mut st.outs).push((k, e));
            }
            X::Unknown => err!("external {} at {:?}", self.m.fns[fid as usize].name, self.bt(st)),
        }
        Ok(None)
    }
    fn errno(&mut self, st: &mut State) -> u64 {
        if st.errno == 0 {
            st.errno = st.mem.malloc(16, 16);
            st.mem.wr(st.errno, 0, 4);
        }
        st.errno
    }
    fn sat_check(&mut self, st: &State, bad: E) -> R<Option<Rc<Vec<u16>>>> {
        match self.sv.decide(&st.pc, bad) {
            Dec::False => Ok(None),
            Dec::True => Ok(Some(st.pc.model.clone())),
            Dec::Both(m, _) => Ok(Some(m)),
            Dec::Unknown(e) => Err(e),
        }
    }
    fn rd_str(&self, st: &State, p: u64, n: u64) -> String {
        let mut b = vec![0u8; n as usize];
        st.mem.rd_bytes(p, &mut b);
        String::from_utf8_lossy(&b).to_string()
    }
    // ---------------- exploration
    pub fn explore(&mut self, st: State) {
        let r = self.run(st, Stop::None);
        debug_assert!(r.is_empty());
    }
    fn fail(&mut self, st: &State, e: String) {
        if self.rep.errors.len() < 20 {
            let bytes = self.model_bytes(st, &st.pc.model);
            self.rep.errors.push(format!("{} [at {:?}] input {:?}", e, self.bt(st), String::from_utf8_lossy(&bytes)));
        }
    }
    fn run(&mut self, mut st: State, stop: Stop) -> Vec<State> {
        self.depth += 1;
        self.rep.max_depth = self.rep.max_depth.max(self.depth);
        let r = self.run2(&mut st, stop);
        self.depth -= 1;
        match r {
            Ok(v) => v,
            Err(e) => {
                self.fail(&st, e);
                vec![]
            }
        }
    }
    fn over(&self) -> bool {
        !self.rep.errors.is_empty() || self.rep.violations.len() >= 12
    }
    fn run2(&mut self, st: &mut State, stop: Stop) -> R<Vec<State>> {
        loop {
            if self.over() {
                return Ok(vec![]);
            }
            if self.trace && self.last_print.elapsed().as_secs() >= 2 {
                self.last_print = std::time::Instant::now();
                eprintln!(
                    "-- forks {} merges {} fails {} exprs {} q {} t {:.1} depth {} insts {} {:?}",
                    self.rep.forks,
                    self.rep.merges,
                    self.rep.mergefail,
                    cx().n.len(),
                    self.sv.st.queries,
                    self.sv.st.time,
                    self.depth,
                    self.rep.insts,
                    self.bt(st)
                );
            }
            let q0 = (self.sv.st.queries, self.sv.st.time);
            let ev = self.step(st, stop)?;
            if self.trace && self.sv.st.queries > q0.0 {
                let k = format!("{} < {}", self.bt(st)[0], self.bt(st).get(1).cloned().unwrap_or_default());
                let e = self.qsites.entry(k).or_insert((0, 0.0));
                e.0 += self.sv.st.queries - q0.0;
                e.1 += self.sv.st.time - q0.1;
            }
            match ev {
                Ev::Stop => {
                    st.landed = match stop {
                        Stop::Join(d) => st.stack.len() == d,
                        Stop::None => false,
                    };
                    return Ok(vec![st.clone()]);
                }
                Ev::Dead => {
                    self.lost += 1;
                    return Ok(vec![]);
                }
                Ev::Alts(mut alts) => {
                    if alts.is_empty() {
                        return Ok(vec![]);
                    }
                    self.rep.forks += alts.len() as u64 - 1;
                    if let Some(d) = self.deadline {
                        if std::time::Instant::now() > d {
                            err!("time limit");
                        }
                    }
                    // st still describes the state before the fork
                    let d = st.stack.len();
                    let blk = st.top.block;
                    if self.trace {
                        *self.forksites.entry((st.top.f.name.clone(), blk)).or_insert(0) += 1;
                    }
                    if st.path_mode || self.fork_all {
                        let mut out = vec![];
                        for a in alts {
                            out.extend(self.run(a, stop));
                        }
                        return Ok(out);
                    }
                    let moved = matches!(st.top.f.blocks[blk as usize].insts[st.top.ip], I::CondBr(..) | I::Switch(..));
                    for a in alts.iter_mut() {
                        a.landed = moved;
                    }
                    if stop == Stop::Join(d) {
                        return Ok(alts);
                    }
                    let base = st.pc.clone();
                    match self.region(alts, d, &base, stop) {
                        Ok(one) => *st = one,
                        Err(outs) => return Ok(outs),
                    }
                }
            }
        }
    }
    /// explore the alternatives of a fork at call depth `d`, merging at join blocks, until one
    /// state is left (Ok) or the enclosing stop is reached (Err)
    fn region(&mut self, mut wl: Vec<State>, mut d: usize, base: &Pc, stop: Stop) -> Result<State, Vec<State>> {
        let k = base.hist.len();
        for a in wl.iter_mut() {
            a.pc.hist = a.pc.hist[k..].to_vec();
        }
        let full = |o: &mut State| {
            let mut h = base.hist.clone();
            h.extend(o.pc.hist.iter());
            o.pc.hist = h;
        };
        let lost0 = self.lost;
        // the one state left stands for all inputs of the base state unless something was lost
        let last = |o: &mut State, lost: u64| {
            if lost != lost0 {
                return full(o);
            }
            let mut pc = base.clone();
            for v in o.pc.decl.iter().skip(base.decl.len()) {
                pc.declare(*v);
            }
            pc.model = o.pc.model.clone();
            o.pc = pc;
        };
        let mut done: Vec<State> = vec![];
        loop {
            if self.over() {
                return Err(vec![]);
            }
            if !wl.is_empty() {
                // first unlanded states, then the least position
                let mut best = 0;
                for i in 1..wl.len() {
                    let better = match (wl[i].landed, wl[best].landed) {
                        (false, true) => true,
                        (true, true) => wl[i].top.f.order(wl[i].top.block) < wl[best].top.f.order(wl[best].top.block),
                        _ => false,
                    };
                    if better {
                        best = i;
                    }
                }
                let group = if wl[best].landed {
                    let b = wl[best].top.block;
                    let (mut g, rest): (Vec<State>, Vec<State>) = wl.into_iter().partition(|s| s.landed && s.top.block == b);
                    wl = rest;
                    if g.len() > 1 {
                        let l = g[0].top.f.live(b);
                        for o in g.iter_mut() {
                            clear_dead(&mut o.top, &l);
                        }
                        let n = g.len();
                        g = self.merge_all(g, base);
                        self.rep.mergefail += (g.len() - 1) as u64;
                        let _ = n;
                    }
                    g
                } else {
                    vec![wl.swap_remove(best)]
                };
                if group.len() == 1 && wl.is_empty() && done.is_empty() {
                    let mut o = group.into_iter().next().unwrap();
                    last(&mut o, self.lost);
                    return Ok(o);
                }
                for g in group {
                    for o in self.run(g, Stop::Join(d)) {
                        if o.stack.len() == d {
                            wl.push(o);
                        } else {
                            done.push(o);
                        }
                    }
                }
                continue;
            }
            // everything has returned from depth d
            if done.len() > 1 {
                done = self.merge_all(done, base);
                self.rep.mergefail += (done.len() - 1) as u64;
            }
            if done.len() <= 1 {
                return match done.pop() {
                    None => Err(vec![]),
                    Some(mut o) => {
                        last(&mut o, self.lost);
                        Ok(o)
                    }
                };
            }
            d -= 1;
            if stop == Stop::Join(d) {
                let mut outs = vec![];
                for mut o in done {
                    full(&mut o);
                    outs.extend(self.run(o, stop));
                }
                return Err(outs);
            }
            wl = done;
            for o in wl.iter_mut() {
                o.landed = false;
            }
            done = vec![];
        }
    }
    /// merge states; hist is relative to `base`
    fn merge_all(&mut self, outs: Vec<State>, base: &Pc) -> Vec<State> {
        if outs.len() <= 1 {
            return outs;
        }
        let r = self.merge_trie(outs, 0);
        // rebuild path conditions from base
        r.into_iter()
            .map(|(mut s, merged)| {
                if merged {
                    let mut pc = base.clone();
                    pc.hist = vec![];
                    let decl = s.pc.decl.clone();
                    for v in decl.iter().skip(base.decl.len()) {
                        pc.declare(*v);
                    }
                    for c in s.pc.hist.clone() {
                        pc.add_raw(c);
                    }
                    pc.model = s.pc.model.clone();
                    s.pc = pc;
                }
                s
            })
            .collect()
    }
    fn merge_trie(&mut self, outs: Vec<State>, k: usize) -> Vec<(State, bool)> {
        if outs.len() == 1 {
            return outs.into_iter().map(|s| (s, false)).collect();
        }
        let mut groups: Vec<(Option<E>, Vec<State>)> = vec![];
        for o in outs {
            let key = o.pc.hist.get(k).cloned();
            match groups.iter_mut().find(|g| g.0 == key) {
                Some(g) => g.1.push(o),
                None => groups.push((key, vec![o])),
            }
        }
        if groups.len() == 1 {
            let (key, g) = groups.pop().unwrap();
            if key.is_none() {
                return g.into_iter().map(|s| (s, false)).collect();
            }
            return self.merge_trie(g, k + 1);
        }
        let mut acc: Vec<(State, bool, E)> = vec![]; // E: discriminating condition so far
        for (key, g) in groups {
            let c = key.unwrap_or(TRUE);
            let ms = self.merge_trie(g, k + 1);
            for (s, m) in ms {
                let mut done = false;
                for (a, am, ac) in acc.iter_mut() {
                    if !compatible(a, &s) {
                        continue;
                    }
                    // a condition true on all of a's inputs and on none of s's
                    let guard = if *ac != TRUE && c != TRUE && (not(*ac) == c || and(*ac, c) == FALSE) {
                        *ac
                    } else {
                        and_n(a.pc.hist[k..].to_vec())
                    };
                    match self.merge2(a, &s, guard, k) {
                        Ok(()) => {
                            *am = true;
                            *ac = or(*ac, c);
                            done = true;
                            self.rep.merges += 1;
                            break;
                        }
                        Err(e) => {
                            if self.trace {
                                let key = format!("{} @ {}", e.chars().take(60).collect::<String>(), short(&a.top.f.name));
                                *self.mergefails.entry(key).or_insert(0) += 1;
                            }
                        }
                    }
                }
                if !done {
                    acc.push((s, m, c));
                }
            }
        }
        acc.into_iter().map(|(s, m, _)| (s, m)).collect()
    }
    fn merge2(&mut self, a: &mut State, b: &State, g: E, k: usize) -> Result<(), String> {
        if a.stack.len() != b.stack.len() || a.top.block != b.top.block || a.top.ip != b.top.ip || !Rc::ptr_eq(&a.top.f, &b.top.f) {
            return Err("position".into());
        }
        if a.time != b.time || a.path_mode != b.path_mode || a.top.sp != b.top.sp {
            return Err("misc".into());
        }
        for (x, y) in a.stack.iter().zip(b.stack.iter()) {
            if !Rc::ptr_eq(x, y) && !(Rc::ptr_eq(&x.f, &y.f) && x.block == y.block && x.ip == y.ip && x.regs.iter().zip(y.regs.iter()).all(|(p, q)| veq(p, q))) {
                return Err("caller frame".into());
            }
        }
        if a.nvars != b.nvars || a.pc.decl != b.pc.decl {
            return Err("variables".into());
        }
        if a.outs.len() != b.outs.len() {
            return Err("outs".into());
        }
        // registers
        let f = a.top.f.clone();
        let mut regs = vec![];
        for (i, (x, y)) in a.top.regs.iter().zip(b.top.regs.iter()).enumerate() {
            if veq(x, y) {
                continue;
            }
            regs.push((i, merge_v(g, x, y, f.widths[i])?));
        }
        let mut mem = a.mem.clone();
        mem.merge(&b.mem, g)?;
        a.mem = mem;
        for (i, v) in regs {
            a.top.regs[i] = v;
        }
        if !Rc::ptr_eq(&a.outs, &b.outs) {
            let l = a.outs.iter().zip(b.outs.iter()).map(|(x, y)| (x.0, ite(g, x.1, y.1))).collect();
            a.outs = Rc::new(l);
        }
        let ra = and_n(a.pc.hist[k..].to_vec());
        let rb = and_n(b.pc.hist[k..].to_vec());
        let d = or(ra, rb);
        a.pc.hist.truncate(k);
        if d != TRUE {
            a.pc.hist.push(d);
        }
        Ok(())
    }
}
/// an address in the heap that depends on merged paths (a place in a string of merged length)
fn split_address(e: E) -> bool {
    let (lo, hi) = (nd(e).lo as u64, nd(e).hi as u64);
    if lo < crate::mem::HEAP || hi >= crate::mem::HEAP_END || vars_of(e).len() < 2 {
        return false;
    }
    matches!(finite(e, &mut FxMap::default()), Some(l) if l.len() > 2 && l.len() <= 64)
}
/// a superset (at most 64 values) of the values of an expression, from its structure
fn finite(e: E, memo: &mut FxMap<E, Option<Rc<Vec<u128>>>>) -> Option<Rc<Vec<u128>>> {
    if let Some(r) = memo.get(&e) {
        return r.clone();
    }
    let r = finite1(e, memo).and_then(|mut l| {
        l.sort();
        l.dedup();
        if l.len() <= 64 {
            Some(Rc::new(l))
        } else {
            None
        }
    });
    memo.insert(e, r.clone());
    r
}
fn finite1(e: E, memo: &mut FxMap<E, Option<Rc<Vec<u128>>>>) -> Option<Vec<u128>> {
    let m = mask(width(e));
    match op(e) {
        Op::Const(c) => Some(vec![*c]),
        Op::Tab(_, t) => Some(t.iter().map(|x| *x as u128).collect()),
        Op::Ite(_, a, b) => {
            let mut l = finite(*a, memo)?.to_vec();
            l.extend(finite(*b, memo)?.iter());
            Some(l)
        }
        Op::Sum(k, l) if l.len() == 1 => Some(finite(l[0].0, memo)?.iter().map(|x| k.wrapping_add(x.wrapping_mul(l[0].1)) & m).collect()),
        Op::Extract(a, lo) => Some(finite(*a, memo)?.iter().map(|x| x >> *lo & m).collect()),
        Op::Concat(l) => {
            let mut acc = vec![0u128];
            let mut sh = 0;
            for &p in l {
                let f = finite(p, memo)?;
                if acc.len() * f.len() > 256 {
                    return None;
                }
                acc = acc.iter().flat_map(|a| f.iter().map(move |x| a | x << sh)).collect();
                sh += width(p);
            }
            Some(acc)
        }
        _ => {
            if width(e) == 1 {
                Some(vec![0, 1])
            } else {
                None
            }
        }
    }
}
/// quick test before a merge is tried
fn compatible(a: &State, b: &State) -> bool {
    if a.stack.len() != b.stack.len() || a.top.block != b.top.block || a.top.ip != b.top.ip || !Rc::ptr_eq(&a.top.f, &b.top.f) {
        return false;
    }
    let wd = &a.top.f.widths;
    for (i, (x, y)) in a.top.regs.iter().zip(b.top.regs.iter()).enumerate() {
        if let (V::C(x), V::C(y)) = (x, y) {
            let w = wd[i];
            if x != y && (w & 0x8000 != 0 || (w & 0x7fff == 64 && (*x > 1 || *y > 1))) {
                return false;
            }
        }
    }
    true
}
fn clear_dead(f: &mut Frame, live: &[u32]) {
    let mut it = live.iter().peekable();
    for (i, r) in f.regs.iter_mut().enumerate() {
        if it.peek().map_or(false, |x| **x == i as u32) {
            it.next();
            continue;
        }
        *r = V::U;
    }
}
fn merge_v(g: E, x: &V, y: &V, w: u16) -> Result<V, String> {
    match (x, y) {
        (V::U, _) => return Ok(y.clone()),
        (_, V::U) => return Ok(x.clone()),
        (V::C(a), V::C(b)) => {
            let ww = (w & 0x3fff) as u32;
            if w & 0x8000 != 0 && a != b {
                return Err("pointer register".into());
            }
            if ww == 64 && w & 0x4000 == 0 && (*a > 1 || *b > 1) {
                return Err("wide integer register".into());
            }
            if ww == 0 {
                return Err("unknown width".into());
            }
            return Ok(from_e(ite(g, konst(ww, *a as u128), konst(ww, *b as u128))));
        }
        (V::A(p), V::A(q)) => {
            if p.len() != q.len() {
                return Err("aggregate".into());
            }
            let mut r = vec![];
            for (a, b) in p.iter().zip(q.iter()) {
                r.push(if veq(a, b) {
                    a.clone()
                } else if let (V::C(u), V::C(v)) = (a, b) {
                    // width unknown inside aggregates
                    if *u <= 1 && *v <= 1 {
                        return Err("aggregate flag".into());
                    }
                    return Err("aggregate const".into());
                } else {
                    merge_v(g, a, b, 0)?
                });
            }
            return Ok(V::A(Rc::new(r)));
        }
        _ => {}
    }
    match select(g, x, y, (w & 0x3fff) as u32) {
        Some(v) => Ok(v),
        None => Err("select".into()),
    }
}
fn insert(base: V, x: &V, ix: &[u32]) -> V {
    if ix.is_empty() {
        return x.clone();
    }
    let mut l = match base {
        V::A(l) => l.to_vec(),
        _ => vec![],
    };
    while l.len() <= ix[0] as usize {
        l.push(V::U);
    }
    let inner = l[ix[0] as usize].clone();
    l[ix[0] as usize] = insert(inner, x, &ix[1..]);
    V::A(Rc::new(l))
}
/// pointer + offset, keeping few-valued pointers as decision trees
fn add_ptr(a: E, b: E) -> E {
    for (x, y) in [(a, b), (b, a)] {
        if const_val(y).is_some() {
            if let Op::Ite(c, p, q) = op(x) {
                let (c, p, q) = (*c, *p, *q);
                let (p, q) = (add_ptr(p, y), add_ptr(q, y));
                return ite(c, p, q);
            }
        }
    }
    add(a, b)
}
/// rough demangling of v0 names for reports
pub fn short(n: &str) -> String {
    // collect identifiers: <len><name>
    let b = n.as_bytes();
    let mut i = 0;
    let mut parts: Vec<String> = vec![];
    if !n.starts_with("_R") {
        return n.to_string();
    }
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut s = j;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if l > 0 && s + l <= b.len() {
                let id = &n[s..s + l];
                if id.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
                    parts.push(id.to_string());
                    i = s + l;
                    continue;
                }
            }
            i = j;
        } else if b[i] == b's' && i > 0 && b[i - 1] == b'C' {
            // crate disambiguator: s<base62>_
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    parts.join("::")
}
