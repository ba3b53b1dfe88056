// Hash-consed bit-vector / boolean / floating point expression DAG.
// Symbolic inputs are bytes; every expression that depends on one byte only
// is kept as its function table over the byte's domain ("Tab").
use crate::ir::FB;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

pub type E = u32;
#[derive(Clone, Debug)]
pub enum V {
    U,
    C(u64),
    S(E),
    A(Rc<Vec<V>>),
}
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, T> = HashMap<K, T, FxB>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Tab(u32, Rc<[u64]>),
    Sum(u128, Vec<(E, u128)>),
    Mul(E, E),
    UDiv(E, E),
    SDiv(E, E),
    URem(E, E),
    SRem(E, E),
    Concat(Vec<E>),
    Extract(E, u32),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    BAnd(Vec<E>),
    BOr(Vec<E>),
    BNot(E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Ite(E, E, E),
    F(FB, E, E),
    FAbs(E),
    FNeg(E),
    FRnd(u8, E), // 0 floor 1 ceil 2 trunc 3 round 4 rint 5 square root
    FCmp(u8, E, E),
    IToF(bool, E),
    FToI(bool, E),
    FExt(E),
    FTrunc(E),
    FClose(E, E, u64),
}
pub struct Node {
    pub k: Rc<(Op, u32)>,
    pub w: u32,
    pub vs: u32,
    pub k0: u128,
    pub k1: u128,
    pub lo: u128,
    pub hi: u128,
}
pub struct VarInfo {
    pub ord: u32,
    pub dom: Rc<Vec<u8>>,
    pub inv: Rc<Vec<u16>>, // byte -> index or 0xffff
}
/// Nodes never move: references to them are held while others are added.
pub struct Arena {
    chunks: Vec<Vec<Node>>,
    len: usize,
}
impl Arena {
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn push(&mut self, x: Node) {
        if self.len & 0xffff == 0 {
            self.chunks.push(Vec::with_capacity(0x10000));
        }
        self.chunks.last_mut().unwrap().push(x);
        self.len += 1;
    }
}
impl std::ops::Index<usize> for Arena {
    type Output = Node;
    #[inline(always)]
    fn index(&self, i: usize) -> &Node {
        &self.chunks[i >> 16][i & 0xffff]
    }
}
pub struct Ctx {
    pub n: Arena,
    pub map: FxMap<Rc<(Op, u32)>, E>,
    pub vars: Vec<VarInfo>,
    pub varmap: HashMap<(u32, Vec<u8>), u32>,
    pub sets: Vec<Rc<Vec<u32>>>,
    pub setmap: HashMap<Rc<Vec<u32>>, u32>,
    pub setun: FxMap<(u32, u32), u32>,
    pub franges: FxMap<E, (f64, f64, bool)>,
    pub nots: FxMap<E, E>,
    pub twos: FxMap<E, E>,
    pub tts: FxMap<E, Rc<Vec<u64>>>,
    pub ttcanon: HashMap<(u32, u32, Vec<u64>), E>,
}
thread_local! { static CXP: RefCell<Option<Box<Ctx>>> = RefCell::new(None); }
static mut CX: *mut Ctx = std::ptr::null_mut();
#[inline(always)]
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CX.is_null() {
            init();
        }
        &mut *CX
    }
}
fn init() {
    let mut c = Box::new(Ctx {
        n: Arena { chunks: vec![], len: 0 },
        map: FxMap::default(),
        vars: vec![],
        varmap: HashMap::new(),
        sets: vec![Rc::new(vec![])],
        setmap: HashMap::new(),
        setun: FxMap::default(),
        franges: FxMap::default(),
        nots: FxMap::default(),
        twos: FxMap::default(),
        tts: FxMap::default(),
        ttcanon: HashMap::new(),
    });
    c.setmap.insert(Rc::new(vec![]), 0);
    unsafe { CX = Box::into_raw(c) };
    // E 0 is reserved
    let c = cx();
    let k = Rc::new((Op::Const(0), 0));
    c.n.push(Node { k, w: 0, vs: 0, k0: 0, k1: 0, lo: 0, hi: 0 });
    konst(1, 0); // FALSE = 1
    konst(1, 1); // TRUE = 2
}
pub const FALSE: E = 1;
pub const TRUE: E = 2;
#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline(always)]
pub fn op(e: E) -> &'static Op {
    &cx().n[e as usize].k.0
}
#[inline(always)]
pub fn width(e: E) -> u32 {
    cx().n[e as usize].w
}
#[inline(always)]
pub fn nd(e: E) -> &'static Node {
    &cx().n[e as usize]
}
pub fn vars_of(e: E) -> Rc<Vec<u32>> {
    cx().sets[nd(e).vs as usize].clone()
}
pub fn const_val(e: E) -> Option<u128> {
    match op(e) {
        Op::Const(c) => Some(*c),
        _ => None,
    }
}
fn set_union(a: u32, b: u32) -> u32 {
    if a == b || b == 0 {
        return a;
    }
    if a == 0 {
        return b;
    }
    let c = cx();
    let k = if a < b { (a, b) } else { (b, a) };
    if let Some(&x) = c.setun.get(&k) {
        return x;
    }
    let mut v: Vec<u32> = c.sets[a as usize].iter().chain(c.sets[b as usize].iter()).cloned().collect();
    v.sort();
    v.dedup();
    let v = Rc::new(v);
    let id = set_id(v);
    c.setun.insert(k, id);
    id
}
fn set_id(v: Rc<Vec<u32>>) -> u32 {
    let c = cx();
    if let Some(&x) = c.setmap.get(&v) {
        return x;
    }
    let id = c.sets.len() as u32;
    c.sets.push(v.clone());
    c.setmap.insert(v, id);
    id
}
/// variable for symbolic byte number `ord` with domain `dom` (sorted)
pub fn var(ord: u32, dom: &[u8]) -> u32 {
    let c = cx();
    if let Some(&v) = c.varmap.get(&(ord, dom.to_vec())) {
        return v;
    }
    let id = c.vars.len() as u32;
    let mut inv = vec![0xffffu16; 256];
    for (i, b) in dom.iter().enumerate() {
        inv[*b as usize] = i as u16;
    }
    c.vars.push(VarInfo { ord, dom: Rc::new(dom.to_vec()), inv: Rc::new(inv) });
    c.varmap.insert((ord, dom.to_vec()), id);
    id
}
pub fn var_expr(v: u32) -> E {
    let vals: Vec<u64> = cx().vars[v as usize].dom.iter().map(|&b| b as u64).collect();
    tab(v, 8, vals)
}
pub fn tab(v: u32, w: u32, vals: Vec<u64>) -> E {
    if vals.iter().all(|x| *x == vals[0]) {
        return konst(w, vals[0] as u128);
    }
    intern(Op::Tab(v, vals.into()), w)
}
pub fn konst(w: u32, v: u128) -> E {
    intern(Op::Const(v & mask(w)), w)
}
pub fn boolc(b: bool) -> E {
    if b {
        TRUE
    } else {
        FALSE
    }
}
pub fn children(o: &Op, mut f: impl FnMut(E)) {
    match o {
        Op::Const(_) | Op::Tab(..) => {}
        Op::Sum(_, t) => t.iter().for_each(|x| f(x.0)),
        Op::Concat(v) | Op::BAnd(v) | Op::BOr(v) => v.iter().for_each(|x| f(*x)),
        Op::Extract(a, _) | Op::BNot(a) | Op::FAbs(a) | Op::FNeg(a) | Op::FRnd(_, a) | Op::IToF(_, a) | Op::FToI(_, a) | Op::FExt(a) | Op::FTrunc(a) => f(*a),
        Op::Mul(a, b)
        | Op::UDiv(a, b)
        | Op::SDiv(a, b)
        | Op::URem(a, b)
        | Op::SRem(a, b)
        | Op::And(a, b)
        | Op::Or(a, b)
        | Op::Xor(a, b)
        | Op::Shl(a, b)
        | Op::LShr(a, b)
        | Op::AShr(a, b)
        | Op::Eq(a, b)
        | Op::Ult(a, b)
        | Op::Slt(a, b)
        | Op::F(_, a, b)
        | Op::FCmp(_, a, b)
        | Op::FClose(a, b, _) => {
            f(*a);
            f(*b)
        }
        Op::Ite(a, b, c) => {
            f(*a);
            f(*b);
            f(*c)
        }
    }
}
fn sx(v: u128, w: u32) -> i128 {
    if w == 0 {
        return 0;
    }
    ((v << (128 - w)) as i128) >> (128 - w)
}
fn f64_of(v: u128, w: u32) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}
fn fbits(x: f64, w: u32) -> u128 {
    if w == 32 {
        (x as f32).to_bits() as u128
    } else {
        x.to_bits() as u128
    }
}
pub fn fclose(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol
}
/// concrete semantics of one operation
pub fn apply(o: &Op, w: u32, g: &mut dyn FnMut(E) -> u128) -> u128 {
    let m = mask(w);
    match o {
        Op::Const(c) => *c,
        Op::Tab(..) => unreachable!(),
        Op::Sum(c, t) => {
            let mut s = *c;
            for (e, k) in t {
                s = s.wrapping_add(g(*e).wrapping_mul(*k));
            }
            s & m
        }
        Op::Mul(a, b) => g(*a).wrapping_mul(g(*b)) & m,
        Op::UDiv(a, b) => {
            let (x, y) = (g(*a), g(*b));
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem(a, b) => {
            let (x, y) = (g(*a), g(*b));
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv(a, b) => {
            let (x, y) = (sx(g(*a), w), sx(g(*b), w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem(a, b) => {
            let (x, y) = (sx(g(*a), w), sx(g(*b), w));
            if y == 0 {
                x as u128 & m
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Concat(v) => {
            let mut r = 0u128;
            let mut sh = 0;
            for e in v {
                r |= g(*e) << sh;
                sh += width(*e);
            }
            r
        }
        Op::Extract(a, lo) => (g(*a) >> lo) & m,
        Op::And(a, b) => g(*a) & g(*b),
        Op::Or(a, b) => g(*a) | g(*b),
        Op::Xor(a, b) => g(*a) ^ g(*b),
        Op::Shl(a, b) => {
            let (x, y) = (g(*a), g(*b));
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr(a, b) => {
            let (x, y) = (g(*a), g(*b));
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr(a, b) => {
            let (x, y) = (sx(g(*a), w), g(*b));
            let y = y.min(w as u128 - 1) as u32;
            ((x >> y) as u128) & m
        }
        Op::BAnd(v) => v.iter().all(|e| g(*e) != 0) as u128,
        Op::BOr(v) => v.iter().any(|e| g(*e) != 0) as u128,
        Op::BNot(a) => (g(*a) == 0) as u128,
        Op::Eq(a, b) => (g(*a) == g(*b)) as u128,
        Op::Ult(a, b) => (g(*a) < g(*b)) as u128,
        Op::Slt(a, b) => {
            let wa = width(*a);
            (sx(g(*a), wa) < sx(g(*b), wa)) as u128
        }
        Op::Ite(c, a, b) => {
            if g(*c) != 0 {
                g(*a)
            } else {
                g(*b)
            }
        }
        Op::F(k, a, b) => {
            let (x, y) = (f64_of(g(*a), w), f64_of(g(*b), w));
            if w == 32 {
                let (x, y) = (x as f32, y as f32);
                (match k {
                    FB::Add => x + y,
                    FB::Sub => x - y,
                    FB::Mul => x * y,
                    FB::Div => x / y,
                    FB::Rem => x % y,
                })
                .to_bits() as u128
            } else {
                (match k {
                    FB::Add => x + y,
                    FB::Sub => x - y,
                    FB::Mul => x * y,
                    FB::Div => x / y,
                    FB::Rem => x % y,
                })
                .to_bits() as u128
            }
        }
        Op::FAbs(a) => g(*a) & (m >> 1),
        Op::FNeg(a) => g(*a) ^ (1u128 << (w - 1)),
        Op::FRnd(k, a) => {
            let x = f64_of(g(*a), w);
            let r = match k {
                0 => x.floor(),
                1 => x.ceil(),
                2 => x.trunc(),
                3 => x.round(),
                5 => x.sqrt(),
                _ => {
                    let r = x.round();
                    if (x - x.trunc()).abs() == 0.5 {
                        2.0 * (x / 2.0).round()
                    } else {
                        r
                    }
                }
            };
            fbits(r, w)
        }
        Op::FCmp(p, a, b) => {
            let wa = width(*a);
            let (x, y) = (f64_of(g(*a), wa), f64_of(g(*b), wa));
            let bit = if x.is_nan() || y.is_nan() {
                8
            } else if x == y {
                1
            } else if x > y {
                2
            } else {
                4
            };
            (p & bit != 0) as u128
        }
        Op::IToF(s, a) => {
            let wa = width(*a);
            let v = g(*a);
            if w == 32 {
                (if *s { sx(v, wa) as f32 } else { v as f32 }).to_bits() as u128
            } else {
                (if *s { sx(v, wa) as f64 } else { v as f64 }).to_bits() as u128
            }
        }
        Op::FToI(s, a) => {
            let x = f64_of(g(*a), width(*a));
            if *s {
                let hi = (1i128 << (w - 1)) - 1;
                let lo = -(1i128 << (w - 1));
                ((x as i128).clamp(lo, hi) as u128) & m
            } else {
                (x as u128).min(m)
            }
        }
        Op::FExt(a) => fbits(f64_of(g(*a), 32), 64),
        Op::FTrunc(a) => fbits(f64_of(g(*a), 64), 32),
        Op::FClose(a, b, t) => {
            let wa = width(*a);
            fclose(f64_of(g(*a), wa), f64_of(g(*b), wa), f64::from_bits(*t)) as u128
        }
    }
}
fn single_val(e: E, i: usize) -> u128 {
    match op(e) {
        Op::Const(c) => *c,
        Op::Tab(_, t) => t[i] as u128,
        o => apply(o, width(e), &mut |x| single_val(x, i)),
    }
}
/// evaluate under a model: model[var] = domain index
pub struct Eval<'a> {
    pub model: &'a [u16],
    memo: FxMap<E, u128>,
}
impl<'a> Eval<'a> {
    pub fn new(model: &'a [u16]) -> Eval<'a> {
        Eval { model, memo: FxMap::default() }
    }
    pub fn get(&mut self, e: E) -> u128 {
        match op(e) {
            Op::Const(c) => *c,
            Op::Tab(v, t) => t[self.model[*v as usize] as usize] as u128,
            o => {
                if let Some(x) = self.memo.get(&e) {
                    return *x;
                }
                let r = match o {
                    Op::Ite(c, a, b) => {
                        if self.get(*c) != 0 {
                            self.get(*a)
                        } else {
                            self.get(*b)
                        }
                    }
                    _ => apply(o, width(e), &mut |x| self.get(x)),
                };
                self.memo.insert(e, r);
                r
            }
        }
    }
}
fn intern(o: Op, w: u32) -> E {
    let c = cx();
    let k = (o, w);
    if let Some(&e) = c.map.get(&k) {
        return e;
    }
    let (o, w) = k;
    let m = mask(w);
    // variable set
    let vs = match &o {
        Op::Const(_) => 0,
        Op::Tab(v, _) => set_id(Rc::new(vec![*v])),
        o => {
            let mut s = 0;
            children(o, |x| s = set_union(s, nd(x).vs));
            s
        }
    };
    let (mut k0, mut k1, mut lo, mut hi) = (0u128, 0u128, 0u128, m);
    match &o {
        Op::Const(c) => {
            k0 = !c & m;
            k1 = *c;
        }
        Op::Tab(_, t) => {
            let (mut a, mut b) = (u64::MAX, 0u64);
            let (mut l, mut h) = (u64::MAX, 0);
            for &x in t.iter() {
                a &= x;
                b |= x;
                l = l.min(x);
                h = h.max(x);
            }
            k1 = a as u128;
            k0 = !(b as u128) & m;
            lo = l as u128;
            hi = h as u128;
        }
        Op::Concat(v) => {
            let mut sh = 0;
            lo = 0;
            hi = 0;
            for e in v {
                let n = nd(*e);
                k0 |= n.k0 << sh;
                k1 |= n.k1 << sh;
                lo |= n.lo << sh;
                hi |= n.hi << sh;
                sh += n.w;
            }
        }
        Op::Extract(a, l) => {
            let n = nd(*a);
            k0 = (n.k0 >> l) & m;
            k1 = (n.k1 >> l) & m;
            if n.hi >> l <= m {
                lo = n.lo >> l;
                hi = n.hi >> l;
            }
        }
        Op::And(a, b) => {
            let (a, b) = (nd(*a), nd(*b));
            k0 = a.k0 | b.k0;
            k1 = a.k1 & b.k1;
            hi = a.hi.min(b.hi);
        }
        Op::Or(a, b) => {
            let (a, b) = (nd(*a), nd(*b));
            k0 = a.k0 & b.k0;
            k1 = a.k1 | b.k1;
            lo = a.lo.max(b.lo);
        }
        Op::Xor(a, b) => {
            let (a, b) = (nd(*a), nd(*b));
            k0 = (a.k0 & b.k0) | (a.k1 & b.k1);
            k1 = (a.k0 & b.k1) | (a.k1 & b.k0);
        }
        Op::Ite(_, a, b) => {
            let (a, b) = (nd(*a), nd(*b));
            k0 = a.k0 & b.k0;
            k1 = a.k1 & b.k1;
            lo = a.lo.min(b.lo);
            hi = a.hi.max(b.hi);
        }
        Op::Sum(c, t) => {
            let mut tz = if *c == 0 { 127 } else { c.trailing_zeros() };
            for (e, k) in t {
                let n = nd(*e);
                let z = (!n.k0 & mask(n.w)).trailing_zeros();
                tz = tz.min(z + k.trailing_zeros());
            }
            k0 = mask(tz.min(w)) & m;
            if w <= 64 {
                if let Some((l, h)) = sum_range(w, *c, t) {
                    let full = 1i128 << w;
                    if l >= 0 && h < full {
                        lo = l as u128;
                        hi = h as u128;
                    } else if l >= -full && h < 0 {
                        lo = (l + full) as u128;
                        hi = (h + full) as u128;
                    } else if l >= full && h < 2 * full {
                        lo = (l - full) as u128;
                        hi = (h - full) as u128;
                    }
                }
            } else {
                let mut l = Some(*c);
                let mut h = Some(*c);
                for (e, k) in t {
                    let n = nd(*e);
                    l = n.lo.checked_mul(*k).and_then(|x| l.and_then(|y| y.checked_add(x)));
                    h = n.hi.checked_mul(*k).and_then(|x| h.and_then(|y| y.checked_add(x)));
                }
                if let (Some(l), Some(h)) = (l, h) {
                    if h <= m {
                        lo = l;
                        hi = h;
                    }
                }
            }
        }
        Op::Mul(a, b) => {
            let (a, b) = (nd(*a), nd(*b));
            if let Some(h) = a.hi.checked_mul(b.hi) {
                if h <= m {
                    hi = h;
                    lo = a.lo * b.lo;
                }
            }
        }
        Op::UDiv(a, b) => {
            let (a, b) = (nd(*a), nd(*b));
            if b.lo > 0 {
                hi = a.hi / b.lo;
                lo = a.lo / b.hi;
            }
        }
        Op::URem(a, b) => {
            let (a, b) = (nd(*a), nd(*b));
            hi = a.hi;
            if b.lo > 0 {
                hi = hi.min(b.hi - 1);
            }
        }
        Op::LShr(a, b) => {
            let (a, b) = (nd(*a), nd(*b));
            hi = if b.lo >= w as u128 { 0 } else { a.hi >> b.lo };
        }
        _ => {}
    }
    if w > 0 {
        hi = hi.min(!k0 & m);
        lo = lo.max(k1);
        if hi < m {
            // leading zeros
            let lz = hi.leading_zeros() - (128 - w);
            k0 |= m & !mask(w - lz);
        }
    }
    if !matches!(o, Op::Const(_)) && (k0 | k1) == m && w > 0 {
        return konst(w, k1);
    }
    let e = c.n.len() as E;
    let rk = Rc::new((o, w));
    c.map.insert(rk.clone(), e);
    c.n.push(Node { k: rk, w, vs, k0, k1, lo, hi });
    e
}
/// integer range of the sum read without wrap-around; tables with values in
/// the upper half are read as signed.
pub fn tab_signed(t: &[u64], w: u32) -> bool {
    let h = 1u64 << (w - 1);
    t.iter().any(|&x| x >= h)
}
fn term_range(e: E, k: u128, w: u32) -> Option<(i128, i128)> {
    let n = nd(e);
    if let Op::Tab(_, t) = op(e) {
        if tab_signed(t, w) {
            let mut l = i128::MAX;
            let mut h = i128::MIN;
            for &x in t.iter() {
                let v = sx(x as u128, w);
                l = l.min(v);
                h = h.max(v);
            }
            let kk = sx(k, w);
            let (a, b) = (l * kk, h * kk);
            return Some((a.min(b), a.max(b)));
        }
    }
    let kk = sx(k, w);
    let a = (n.lo as i128).checked_mul(kk)?;
    let b = (n.hi as i128).checked_mul(kk)?;
    Some((a.min(b), a.max(b)))
}
pub fn sum_range(w: u32, c: u128, t: &[(E, u128)]) -> Option<(i128, i128)> {
    if let Some(r) = plain_range(w, c, t) {
        return Some(r);
    }
    let c = sx(c, w);
    let (mut l, mut h) = (c, c);
    for (e, k) in t {
        let (a, b) = term_range(*e, *k, w)?;
        l = l.checked_add(a)?;
        h = h.checked_add(b)?;
    }
    Some((l, h))
}
/// range with all tables read as unsigned, if that fits the width and the other reading is not
/// needed
fn plain_range(w: u32, c: u128, t: &[(E, u128)]) -> Option<(i128, i128)> {
    let c = sx(c, w);
    let (mut l, mut h) = (c, c);
    let mut any = false;
    for (e, k) in t {
        if let Op::Tab(_, tt) = op(*e) {
            any |= tab_signed(tt, w);
        }
        let n = nd(*e);
        let kk = sx(*k, w);
        let a = (n.lo as i128).checked_mul(kk)?;
        let b = (n.hi as i128).checked_mul(kk)?;
        l = l.checked_add(a.min(b))?;
        h = h.checked_add(a.max(b))?;
    }
    if any && l >= 0 && h < 1i128 << w {
        Some((l, h))
    } else {
        None
    }
}
/// does sum_range read this table term as signed?
pub fn reads_signed(w: u32, c: u128, t: &[(E, u128)]) -> bool {
    plain_range(w, c, t).is_none()
}
/// signed range of an expression
pub fn srange(e: E) -> (i128, i128) {
    let n = nd(e);
    let w = n.w;
    if w > 64 {
        return (i128::MIN, i128::MAX);
    }
    let half = 1i128 << (w - 1);
    if let Op::Sum(c, t) = op(e) {
        if let Some((l, h)) = sum_range(w, *c, t) {
            if l >= -half && h < half {
                return (l, h);
            }
        }
    }
    if let Op::Tab(_, t) = op(e) {
        let mut l = i128::MAX;
        let mut h = i128::MIN;
        for &x in t.iter() {
            let v = sx(x as u128, w);
            l = l.min(v);
            h = h.max(v);
        }
        return (l, h);
    }
    if let Op::Ite(_, a, b) = op(e) {
        let (a, b) = (srange(*a), srange(*b));
        return (a.0.min(b.0), a.1.max(b.1));
    }
    if let Op::Concat(p) = op(e) {
        // top part may be signed
        let top = *p.last().unwrap();
        let tw = width(top);
        let (a, b) = srange(top);
        let sh = w - tw;
        return (a << sh, (b << sh) + ((1i128 << sh) - 1));
    }
    if (n.hi as i128) < half {
        return (n.lo as i128, n.hi as i128);
    }
    if (n.lo as i128) >= half {
        return (n.lo as i128 - 2 * half, n.hi as i128 - 2 * half);
    }
    (-half, half - 1)
}
/// const/table folding and constant-leaf distribution, then interning
fn mk(o: Op, w: u32) -> E {
    let mut vs = 0;
    let mut allconst = true;
    children(&o, |x| {
        let n = nd(x);
        vs = set_union(vs, n.vs);
        if !matches!(n.k.0, Op::Const(_)) {
            allconst = false;
        }
    });
    if allconst {
        let r = apply(&o, w, &mut |x| const_val(x).unwrap());
        return konst(w, r);
    }
    if w <= 64 {
        let s = &cx().sets[vs as usize];
        if s.len() == 1 {
            let v = s[0];
            let n = cx().vars[v as usize].dom.len();
            let vals: Vec<u64> = (0..n).map(|i| apply(&o, w, &mut |x| single_val(x, i)) as u64).collect();
            return tab(v, w, vals);
        }
    }
    // distribute over ite with constant leaves when all other children are constant
    if !matches!(o, Op::Ite(..) | Op::BAnd(_) | Op::BOr(_) | Op::BNot(_) | Op::Concat(_) | Op::Sum(..)) {
        let mut ite = 0;
        let mut cnt = 0;
        children(&o, |x| match op(x) {
            Op::Const(_) => {}
            Op::Ite(..) if const_leaves(x, 16).is_some() => {
                if ite != x {
                    cnt += 1;
                }
                ite = x
            }
            _ => cnt += 2,
        });
        if cnt == 1 && ite != 0 {
            return dist(&o, w, ite, ite);
        }
    }
    let e = intern(o, w);
    if w == 1 {
        let s = &cx().sets[vs as usize];
        if s.len() == 2 {
            let (a, b) = (s[0], s[1]);
            return two(e, a, b);
        }
    }
    e
}
/// conditions over two bytes: one node per truth table, and none that ignores a byte
fn two(e: E, a: u32, b: u32) -> E {
    if let Some(&r) = cx().twos.get(&e) {
        return r;
    }
    let (na, nb) = (cx().vars[a as usize].dom.len(), cx().vars[b as usize].dom.len());
    if na * nb > 4096 {
        return e;
    }
    if cx().tts.len() > 4000 {
        cx().tts.clear();
    }
    let t = match table2(e, a, b, na, nb) {
        Some(t) => t,
        None => return e,
    };
    let same_b = (0..na).all(|i| (1..nb).all(|j| t[i * nb + j] == t[i * nb]));
    let same_a = (1..na).all(|i| (0..nb).all(|j| t[i * nb + j] == t[j]));
    let r = if same_b {
        tab(a, 1, (0..na).map(|i| t[i * nb]).collect())
    } else if same_a {
        tab(b, 1, (0..nb).map(|j| t[j]).collect())
    } else {
        let mut bits = vec![0u64; (na * nb + 63) / 64];
        for (i, x) in t.iter().enumerate() {
            bits[i >> 6] |= x << (i & 63);
        }
        *cx().ttcanon.entry((a, b, bits)).or_insert(e)
    };
    cx().twos.insert(e, r);
    r
}
fn table2(e: E, a: u32, b: u32, na: usize, nb: usize) -> Option<Rc<Vec<u64>>> {
    if width(e) > 64 {
        return None;
    }
    if let Some(t) = cx().tts.get(&e) {
        return Some(t.clone());
    }
    let n = na * nb;
    let r: Vec<u64> = match op(e) {
        Op::Const(c) => return Some(Rc::new(vec![*c as u64; n])),
        Op::Tab(v, t) => {
            if *v == a {
                (0..n).map(|i| t[i / nb]).collect()
            } else {
                (0..n).map(|i| t[i % nb]).collect()
            }
        }
        o => {
            let mut ch = vec![];
            children(o, |x| ch.push(x));
            let mut m: Vec<(E, Rc<Vec<u64>>)> = vec![];
            for c in ch {
                if !m.iter().any(|x| x.0 == c) {
                    m.push((c, table2(c, a, b, na, nb)?));
                }
            }
            let w = width(e);
            (0..n)
                .map(|i| {
                    apply(o, w, &mut |x| {
                        for (c, t) in m.iter() {
                            if *c == x {
                                return t[i] as u128;
                            }
                        }
                        0
                    }) as u64
                })
                .collect()
        }
    };
    let r = Rc::new(r);
    if vars_of(e).len() == 2 {
        cx().tts.insert(e, r.clone());
    }
    Some(r)
}
fn dist(o: &Op, w: u32, ite: E, cur: E) -> E {
    match op(cur) {
        Op::Const(c) => {
            let c = *c;
            let r = apply(o, w, &mut |x| if x == ite { c } else { const_val(x).unwrap() });
            konst(w, r)
        }
        Op::Ite(c, a, b) => {
            let (c, a, b) = (*c, *a, *b);
            let x = dist(o, w, ite, a);
            let y = dist(o, w, ite, b);
            self::ite(c, x, y)
        }
        _ => unreachable!(),
    }
}
fn const_leaves(e: E, lim: u32) -> Option<u32> {
    match op(e) {
        Op::Const(_) => Some(1),
        Op::Ite(_, a, b) => {
            let x = const_leaves(*a, lim)?;
            let y = const_leaves(*b, lim)?;
            if x + y <= lim {
                Some(x + y)
            } else {
                None
            }
        }
        _ => None,
    }
}
// ---------- booleans
pub fn not(e: E) -> E {
    if let Op::BNot(a) = op(e) {
        return *a;
    }
    if let Some(&r) = cx().nots.get(&e) {
        return r;
    }
    let r = not0(e);
    cx().nots.insert(e, r);
    if !matches!(op(r), Op::BNot(_)) {
        cx().nots.entry(r).or_insert(e);
    }
    r
}
fn not0(e: E) -> E {
    match op(e) {
        Op::BNot(a) => *a,
        Op::BAnd(v) => {
            let v: Vec<E> = v.iter().map(|&x| not(x)).collect();
            or_n(v)
        }
        Op::BOr(v) => {
            let v: Vec<E> = v.iter().map(|&x| not(x)).collect();
            and_n(v)
        }
        Op::Ite(c, a, b) => {
            let (c, a, b) = (*c, *a, *b);
            let (x, y) = (not(a), not(b));
            ite(c, x, y)
        }
        _ => mk(Op::BNot(e), 1),
    }
}
pub fn and(a: E, b: E) -> E {
    if a == b || b == TRUE {
        return a;
    }
    if a == TRUE {
        return b;
    }
    if a == FALSE || b == FALSE {
        return FALSE;
    }
    and_n(vec![a, b])
}
pub fn or(a: E, b: E) -> E {
    if a == b || b == FALSE {
        return a;
    }
    if a == FALSE {
        return b;
    }
    if a == TRUE || b == TRUE {
        return TRUE;
    }
    or_n(vec![a, b])
}
fn nary(v: Vec<E>, isand: bool) -> E {
    nary_n(v, isand, 12)
}
/// `rounds`: how often the result may still be simplified (rules may undo each other)
fn nary_n(v: Vec<E>, isand: bool, rounds: u32) -> E {
    let unit = if isand { TRUE } else { FALSE };
    let zero = if isand { FALSE } else { TRUE };
    let mut out: Vec<E> = vec![];
    let mut tabs: BTreeMap<u32, Vec<u64>> = BTreeMap::new();
    let mut stack = v;
    stack.reverse();
    while let Some(e) = stack.pop() {
        if e == unit {
            continue;
        }
        if e == zero {
            return zero;
        }
        match (op(e), isand) {
            (Op::BAnd(l), true) | (Op::BOr(l), false) => stack.extend(l.iter().rev()),
            (Op::Tab(v, t), _) => match tabs.get_mut(v) {
                Some(x) => {
                    for (a, b) in x.iter_mut().zip(t.iter()) {
                        if isand {
                            *a &= *b
                        } else {
                            *a |= *b
                        }
                    }
                }
                None => {
                    tabs.insert(*v, t.to_vec());
                }
            },
            _ => out.push(e),
        }
    }
    for (v, t) in tabs {
        let e = tab(v, 1, t);
        if e == zero {
            return zero;
        }
        if e != unit {
            out.push(e);
        }
    }
    out.sort();
    out.dedup();
    if out.len() == 1 {
        return out[0];
    }
    if out.is_empty() {
        return unit;
    }
    // complements and absorption
    for &e in &out {
        if let Op::BNot(a) = op(e) {
            if out.binary_search(a).is_ok() {
                return zero;
            }
        }
    }
    if out.len() <= 64 && rounds > 0 {
        let mut changed = false;
        let mut res = vec![];
        for &e in &out {
            let inner = match (op(e), isand) {
                (Op::BOr(l), true) | (Op::BAnd(l), false) => l,
                _ => {
                    res.push(e);
                    continue;
                }
            };
            // contains an element of out -> absorbed
            if inner.iter().any(|x| out.binary_search(x).is_ok()) {
                changed = true;
                continue;
            }
            // drop elements whose negation is present (atoms only), or implied false by a table
            let mut keep: Vec<E> = vec![];
            let mut absorbed = false;
            for &x in inner {
                match op(x) {
                    Op::BNot(a) if out.binary_search(a).is_ok() => {
                        changed = true;
                        continue;
                    }
                    Op::Tab(v, t) => {
                        let mut drop_it = false;
                        for &y in &out {
                            if let Op::Tab(v2, t2) = op(y) {
                                if v2 == v {
                                    if isand {
                                        // y true: x false there?  x true everywhere there?
                                        if t.iter().zip(t2.iter()).all(|(a, b)| a & b == 0) {
                                            drop_it = true;
                                        } else if t.iter().zip(t2.iter()).all(|(a, b)| *b == 0 || *a == 1) {
                                            absorbed = true;
                                        }
                                    } else {
                                        // or: y false region matters
                                        if t.iter().zip(t2.iter()).all(|(a, b)| *b == 1 || *a == 1) {
                                            drop_it = true;
                                        } else if t.iter().zip(t2.iter()).all(|(a, b)| *b == 1 || *a == 0) {
                                            absorbed = true;
                                        }
                                    }
                                }
                            }
                        }
                        if drop_it {
                            changed = true;
                            continue;
                        }
                        keep.push(x);
                    }
                    _ => {
                        if let Op::BNot(_) = op(x) {
                        } else {
                            let n = cx().map.get(&(Op::BNot(x), 1)).cloned();
                            if let Some(n) = n {
                                if out.binary_search(&n).is_ok() {
                                    changed = true;
                                    continue;
                                }
                            }
                        }
                        keep.push(x)
                    }
                }
            }
            if absorbed {
                changed = true;
                continue;
            }
            if keep.len() == inner.len() {
                res.push(e);
            } else {
                let n = nary_n(keep, !isand, rounds - 1);
                changed |= n != e;
                res.push(n);
            }
        }
        if changed {
            return nary_n(res, isand, rounds - 1);
        }
    }
    mk(if isand { Op::BAnd(out) } else { Op::BOr(out) }, 1)
}
pub fn and_n(v: Vec<E>) -> E {
    nary(v, true)
}
pub fn or_n(v: Vec<E>) -> E {
    nary(v, false)
}
pub fn xor1(a: E, b: E) -> E {
    if a == b {
        return FALSE;
    }
    match (const_val(a), const_val(b)) {
        (Some(0), _) => return b,
        (_, Some(0)) => return a,
        (Some(_), _) => return not(b),
        (_, Some(_)) => return not(a),
        _ => {}
    }
    let (a, na) = (a, not(a));
    let (b, nb) = (b, not(b));
    if a == nb {
        return TRUE;
    }
    // canonical: xor of the smaller representatives
    let (x, fa) = if a < na { (a, false) } else { (na, true) };
    let (y, fb) = if b < nb { (b, false) } else { (nb, true) };
    let (x, y) = if x < y { (x, y) } else { (y, x) };
    let r = mk(Op::Xor(x, y), 1);
    if fa ^ fb {
        not(r)
    } else {
        r
    }
}
// ---------- structure
fn split_tab(e: E, out: &mut Vec<E>) {
    // split a table into runs of constant / non constant bits
    let n = nd(e);
    let known = n.k0 | n.k1;
    if known == 0 {
        out.push(e);
        return;
    }
    let (v, t) = match op(e) {
        Op::Tab(v, t) => (*v, t.clone()),
        _ => unreachable!(),
    };
    let mut i = 0;
    while i < n.w {
        let kb = known >> i & 1;
        let mut j = i;
        while j < n.w && known >> j & 1 == kb {
            j += 1;
        }
        let w = j - i;
        if kb == 1 {
            out.push(konst(w, n.k1 >> i));
        } else {
            let m = mask(w) as u64;
            out.push(tab(v, w, t.iter().map(|x| (x >> i) & m).collect()));
        }
        i = j;
    }
}
/// concatenation, least significant part first
pub fn concat(parts: Vec<E>) -> E {
    if parts.len() == 1 {
        return parts[0];
    }
    // single variable fast path
    let tw: u32 = parts.iter().map(|&p| width(p)).sum();
    let mut vs = 0;
    for &p in &parts {
        vs = set_union(vs, nd(p).vs);
    }
    let nv = cx().sets[vs as usize].len();
    if nv == 0 || (nv == 1 && tw <= 64) {
        return mk(Op::Concat(parts), tw);
    }
    let mut fl: Vec<E> = vec![];
    for p in parts {
        match op(p) {
            Op::Concat(l) => fl.extend(l.iter()),
            Op::Tab(..) => split_tab(p, &mut fl),
            _ => fl.push(p),
        }
    }
    let mut out: Vec<E> = vec![];
    let mut queue: std::collections::VecDeque<E> = fl.into();
    while let Some(p) = queue.pop_front() {
        let pw = width(p);
        if pw == 0 {
            continue;
        }
        if let Some(&q) = out.last() {
            let qw = width(q);
            let mut merged = 0;
            match (op(q), op(p)) {
                (Op::Const(a), Op::Const(b)) if qw + pw <= 128 => merged = konst(qw + pw, a | b << qw),
                (Op::Tab(v1, t1), Op::Tab(v2, t2)) if v1 == v2 && qw + pw <= 64 => {
                    merged = tab(*v1, qw + pw, t1.iter().zip(t2.iter()).map(|(a, b)| a | b << qw).collect());
                }
                (Op::Extract(a, l1), Op::Extract(b, l2)) if a == b && l1 + qw == *l2 => {
                    merged = extract(*a, *l1, qw + pw);
                }
                (Op::Ite(c1, a1, b1), Op::Ite(c2, a2, b2)) if c1 == c2 => {
                    let (c, a1, b1, a2, b2) = (*c1, *a1, *b1, *a2, *b2);
                    let x = concat(vec![a1, a2]);
                    let y = concat(vec![b1, b2]);
                    merged = ite_raw(c, x, y);
                }
                (Op::Ite(_, _, _), Op::Const(_)) | (Op::Const(_), Op::Ite(_, _, _)) => {
                    let (i, k) = if let Op::Ite(..) = op(q) { (q, p) } else { (p, q) };
                    if const_leaves(i, 16).is_some() {
                        let first = i == q;
                        merged = map_leaves(i, &mut |l| if first { concat(vec![l, k]) } else { concat(vec![k, l]) });
                    }
                }
                (_, Op::Extract(a, l)) if *a == q && *l == qw => {
                    // q is the low part of itself: cannot happen
                }
                _ => {}
            }
            if merged != 0 {
                out.pop();
                match op(merged) {
                    Op::Concat(l) => {
                        for x in l.iter().rev() {
                            queue.push_front(*x)
                        }
                    }
                    Op::Tab(..) => {
                        let n = nd(merged);
                        if n.k0 | n.k1 != 0 {
                            let mut s = vec![];
                            split_tab(merged, &mut s);
                            if s.len() > 1 {
                                out.extend(s);
                            } else {
                                out.push(merged);
                            }
                        } else {
                            out.push(merged)
                        }
                    }
                    _ => queue.push_front(merged),
                }
                continue;
            }
        }
        out.push(p);
    }
    if out.len() == 1 {
        return out[0];
    }
    mk(Op::Concat(out), tw)
}
fn map_leaves(e: E, f: &mut dyn FnMut(E) -> E) -> E {
    match op(e) {
        Op::Ite(c, a, b) => {
            let (c, a, b) = (*c, *a, *b);
            let x = map_leaves(a, f);
            let y = map_leaves(b, f);
            ite_raw(c, x, y)
        }
        _ => f(e),
    }
}
pub fn extract(e: E, lo: u32, w: u32) -> E {
    let n = nd(e);
    if lo == 0 && w == n.w {
        return e;
    }
    debug_assert!(lo + w <= n.w);
    let m = mask(w);
    let known = (n.k0 | n.k1) >> lo & m;
    if known == m {
        return konst(w, n.k1 >> lo);
    }
    match op(e) {
        Op::Const(c) => konst(w, c >> lo),
        Op::Tab(v, t) => {
            let m = m as u64;
            tab(*v, w, t.iter().map(|x| (x >> lo) & m).collect())
        }
        Op::Concat(p) => {
            let mut out = vec![];
            let mut off = 0;
            for &x in p {
                let xw = width(x);
                let a = lo.max(off);
                let b = (lo + w).min(off + xw);
                if a < b {
                    out.push(extract(x, a - off, b - a));
                }
                off += xw;
            }
            concat(out)
        }
        Op::Extract(a, l) => extract(*a, l + lo, w),
        Op::And(a, b) => {
            let (a, b) = (*a, *b);
            let (x, y) = (extract(a, lo, w), extract(b, lo, w));
            bit_and(x, y)
        }
        Op::Or(a, b) => {
            let (a, b) = (*a, *b);
            let (x, y) = (extract(a, lo, w), extract(b, lo, w));
            bit_or(x, y)
        }
        Op::Xor(a, b) => {
            let (a, b) = (*a, *b);
            let (x, y) = (extract(a, lo, w), extract(b, lo, w));
            bit_xor(x, y)
        }
        Op::Ite(c, a, b) => {
            let (c, a, b) = (*c, *a, *b);
            let (x, y) = (extract(a, lo, w), extract(b, lo, w));
            ite(c, x, y)
        }
        Op::Mul(a, b) if lo == 0 => {
            let (a, b) = (*a, *b);
            let (x, y) = (extract(a, 0, w), extract(b, 0, w));
            mul(x, y)
        }
        Op::Sum(c, t) => {
            let (c, t) = (*c, t.clone());
            if lo == 0 {
                let t2 = t.iter().map(|(x, k)| (extract(*x, 0, w), *k)).collect();
                return sum(w, c, t2);
            }
            if n.w <= 64 {
                // split every term at bit `lo`; the low parts must not carry into it
                let lm = mask(lo);
                let nw = n.w - lo;
                let mut max = c & lm;
                let mut high = vec![];
                for (x, k) in &t {
                    split_term(*x, *k, n.w, lo, &mut max, &mut high);
                    if max > lm {
                        break;
                    }
                }
                if max <= lm {
                    let s = sum(nw, c >> lo, high);
                    return extract(s, 0, w);
                }
            }
            mk(Op::Extract(e, lo), w)
        }
        Op::Shl(..) | Op::LShr(..) | Op::AShr(..) => mk(Op::Extract(e, lo), w),
        _ => mk(Op::Extract(e, lo), w),
    }
}
/// k*x mod 2^w = low + high * 2^lo: adds the largest value of `low` to `max`
fn split_term(x: E, k: u128, w: u32, lo: u32, max: &mut u128, high: &mut Vec<(E, u128)>) {
    let m = mask(w);
    let lm = mask(lo);
    let nw = w - lo;
    let k = k & m;
    if k == 0 || *max > lm {
        return;
    }
    match op(x) {
        Op::Const(c) => {
            let r = c.wrapping_mul(k) & m;
            *max += r & lm;
            high.push((konst(nw, r >> lo), 1));
        }
        Op::Tab(v, t) => {
            let r: Vec<u64> = t.iter().map(|a| a.wrapping_mul(k as u64) & m as u64).collect();
            *max += r.iter().map(|a| a & lm as u64).max().unwrap_or(0) as u128;
            high.push((tab(*v, nw, r.iter().map(|a| a >> lo).collect()), 1));
        }
        Op::Concat(p) => {
            let mut off = 0;
            for &y in p {
                split_term(y, k << off, w, lo, max, high);
                off += width(y);
            }
        }
        _ => {
            let (kl, kh) = (k & lm, k >> lo);
            *max = max.saturating_add(kl.saturating_mul(nd(x).hi));
            if kh != 0 {
                let y = if width(x) > nw { extract(x, 0, nw) } else { zext(x, nw) };
                high.push((y, kh));
            }
        }
    }
}
pub fn zext(e: E, w: u32) -> E {
    let n = nd(e);
    if w == n.w {
        return e;
    }
    if let Op::Sum(c, t) = op(e) {
        if n.w <= 64 && w <= 64 {
            let (c, t) = (*c, t.clone());
            if let Some((l, h)) = sum_range(n.w, c, &t) {
                if l >= 0 && h <= mask(n.w) as i128 {
                    return lift(n.w, w, c, &t);
                }
            }
        }
    }
    let z = konst(w - n.w, 0);
    concat(vec![e, z])
}
fn lift(w0: u32, w: u32, c: u128, t: &[(E, u128)]) -> E {
    let m = mask(w);
    let signed = reads_signed(w0, c, t);
    let t2 = t
        .iter()
        .map(|(x, k)| {
            let kk = sx(*k, w0) as u128 & m;
            if let Op::Tab(v, tt) = op(*x) {
                if signed && tab_signed(tt, w0) {
                    return (tab(*v, w, tt.iter().map(|&a| sx(a as u128, w0) as u64 & m as u64).collect()), kk);
                }
            }
            (zext(*x, w), kk)
        })
        .collect();
    sum(w, sx(c, w0) as u128 & m, t2)
}
pub fn sext(e: E, w: u32) -> E {
    let n = nd(e);
    if w == n.w {
        return e;
    }
    if n.k0 >> (n.w - 1) & 1 == 1 {
        return zext(e, w);
    }
    if let Op::Sum(c, t) = op(e) {
        if n.w <= 64 && w <= 64 {
            let (c, t) = (*c, t.clone());
            if let Some((l, h)) = sum_range(n.w, c, &t) {
                let half = 1i128 << (n.w - 1);
                if l >= -half && h < half {
                    return lift(n.w, w, c, &t);
                }
            }
        }
    }
    if let Op::Ite(c, a, b) = op(e) {
        let (c, a, b) = (*c, *a, *b);
        let (x, y) = (sext(a, w), sext(b, w));
        return ite(c, x, y);
    }
    let s = extract(e, n.w - 1, 1);
    let d = w - n.w;
    let r = ite_raw(s, konst(d, u128::MAX), konst(d, 0));
    concat(vec![e, r])
}
// ---------- arithmetic
fn pure_tab_concat(p: &[E]) -> bool {
    p.iter().all(|&x| matches!(op(x), Op::Tab(..) | Op::Const(_)))
}
fn add_terms(e: E, k: u128, w: u32, c: &mut u128, tabs: &mut BTreeMap<u32, Vec<u64>>, oth: &mut BTreeMap<E, u128>) {
    let m = mask(w);
    match op(e) {
        Op::Const(x) => *c = c.wrapping_add(x.wrapping_mul(k)) & m,
        Op::Tab(v, t) if w <= 64 => {
            let kk = k as u64;
            let m64 = m as u64;
            let x = tabs.entry(*v).or_insert_with(|| vec![0; t.len()]);
            for (a, b) in x.iter_mut().zip(t.iter()) {
                *a = a.wrapping_add(b.wrapping_mul(kk)) & m64;
            }
        }
        Op::Sum(c2, t) if width(e) == w => {
            *c = c.wrapping_add(c2.wrapping_mul(k)) & m;
            for (x, k2) in t {
                add_terms(*x, k.wrapping_mul(*k2) & m, w, c, tabs, oth);
            }
        }
        Op::Concat(p) if w <= 64 && width(e) == w && pure_tab_concat(p) => {
            let mut off = 0;
            for &x in p {
                match op(x) {
                    Op::Const(cc) => *c = c.wrapping_add((cc << off).wrapping_mul(k)) & m,
                    Op::Tab(v, t) => {
                        let m64 = m as u64;
                        let kk = (k as u64).wrapping_mul(1u64.wrapping_shl(off)) & m64;
                        let y = tabs.entry(*v).or_insert_with(|| vec![0; t.len()]);
                        for (a, b) in y.iter_mut().zip(t.iter()) {
                            *a = a.wrapping_add(b.wrapping_mul(kk)) & m64;
                        }
                    }
                    _ => unreachable!(),
                }
                off += width(x);
            }
        }
        _ => {
            let x = oth.entry(e).or_insert(0);
            *x = x.wrapping_add(k) & m;
        }
    }
}
pub fn sum(w: u32, c: u128, terms: Vec<(E, u128)>) -> E {
    let m = mask(w);
    let mut c = c & m;
    let mut tabs: BTreeMap<u32, Vec<u64>> = BTreeMap::new();
    let mut oth: BTreeMap<E, u128> = BTreeMap::new();
    for (e, k) in terms {
        add_terms(e, k & m, w, &mut c, &mut tabs, &mut oth);
    }
    let mut t: Vec<(E, u128)> = vec![];
    for (v, mut x) in tabs {
        let mn = *x.iter().min().unwrap();
        if mn != 0 {
            for a in x.iter_mut() {
                *a -= mn;
            }
            c = c.wrapping_add(mn as u128) & m;
        }
        if x.iter().any(|a| *a != 0) {
            t.push((tab(v, w, x), 1));
        }
    }
    for (e, k) in oth {
        if k != 0 {
            t.push((e, k));
        }
    }
    if t.is_empty() {
        return konst(w, c);
    }
    if t.len() == 1 && t[0].1 == 1 && c == 0 {
        return t[0].0;
    }
    // disjoint bits -> concatenation
    if t.iter().all(|x| x.1 == 1) {
        let mut used = c;
        let mut ok = true;
        for (e, _) in &t {
            let b = !nd(*e).k0 & m;
            if used & b != 0 {
                ok = false;
                break;
            }
            used |= b;
        }
        if ok && t.iter().all(|x| matches!(op(x.0), Op::Tab(..) | Op::Concat(_) | Op::Ite(..))) {
            return own_concat(w, c, &t.iter().map(|x| x.0).collect::<Vec<_>>());
        }
    }
    t.sort();
    mk(Op::Sum(c, t), w)
}
/// terms (and constant) with disjoint supports: place every bit from its owner
fn own_concat(w: u32, c: u128, t: &[E]) -> E {
    let owner = |i: u32| -> usize {
        for (j, &e) in t.iter().enumerate() {
            if nd(e).k0 >> i & 1 == 0 {
                return j;
            }
        }
        usize::MAX
    };
    let mut out = vec![];
    let mut i = 0;
    while i < w {
        let o = owner(i);
        let mut j = i + 1;
        while j < w && owner(j) == o {
            j += 1;
        }
        if o == usize::MAX {
            out.push(konst(j - i, c >> i));
        } else {
            out.push(extract(t[o], i, j - i));
        }
        i = j;
    }
    concat(out)
}
pub fn add(a: E, b: E) -> E {
    let w = width(a);
    if w == 1 {
        return xor1(a, b);
    }
    sum(w, 0, vec![(a, 1), (b, 1)])
}
pub fn sub(a: E, b: E) -> E {
    let w = width(a);
    if w == 1 {
        return xor1(a, b);
    }
    sum(w, 0, vec![(a, 1), (b, mask(w))])
}
pub fn mul(a: E, b: E) -> E {
    let w = width(a);
    if w == 1 {
        return and(a, b);
    }
    if let Some(k) = const_val(a) {
        return mulc(b, k, w);
    }
    if let Some(k) = const_val(b) {
        return mulc(a, k, w);
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    mk(Op::Mul(a, b), w)
}
fn mulc(e: E, k: u128, w: u32) -> E {
    if k == 0 {
        return konst(w, 0);
    }
    if k == 1 {
        return e;
    }
    if const_leaves(e, 16).is_some() {
        return map_leaves(e, &mut |l| konst(w, const_val(l).unwrap().wrapping_mul(k)));
    }
    if k.is_power_of_two() && !matches!(op(e), Op::Sum(..)) {
        return shlc(e, k.trailing_zeros(), w);
    }
    sum(w, 0, vec![(e, k)])
}
fn shlc(e: E, s: u32, w: u32) -> E {
    if s >= w {
        return konst(w, 0);
    }
    if s == 0 {
        return e;
    }
    let x = extract(e, 0, w - s);
    concat(vec![konst(s, 0), x])
}
pub fn shl(a: E, b: E) -> E {
    let w = width(a);
    match const_val(b) {
        Some(s) => {
            if s >= w as u128 {
                konst(w, 0)
            } else if let Op::Sum(..) = op(a) {
                mulc(a, 1u128 << s, w)
            } else {
                shlc(a, s as u32, w)
            }
        }
        None => {
            if a != 0 && const_val(a) == Some(0) {
                return a;
            }
            shift_ite(b, w, &mut |s| shl(a, s)).unwrap_or_else(|| mk(Op::Shl(a, b), w))
        }
    }
}
// shift by an amount with few possible values
fn shift_ite(b: E, w: u32, f: &mut dyn FnMut(E) -> E) -> Option<E> {
    let wb = width(b);
    match op(b) {
        Op::Ite(..) if const_leaves(b, 16).is_some() => Some(map_leaves(b, f)),
        Op::Tab(v, t) => {
            let mut d: Vec<u64> = t.to_vec();
            d.sort();
            d.dedup();
            if d.len() > 8 {
                return None;
            }
            let mut r = f(konst(wb, d[0] as u128));
            for &x in &d[1..] {
                let c = tab(*v, 1, t.iter().map(|a| (*a == x) as u64).collect());
                let y = f(konst(wb, x as u128));
                r = ite(c, y, r);
            }
            let _ = w;
            Some(r)
        }
        _ => None,
    }
}
pub fn lshr(a: E, b: E) -> E {
    let w = width(a);
    match const_val(b) {
        Some(s) => {
            if s >= w as u128 {
                konst(w, 0)
            } else {
                let x = extract(a, s as u32, w - s as u32);
                zext(x, w)
            }
        }
        None => {
            if const_val(a) == Some(0) {
                return a;
            }
            shift_ite(b, w, &mut |s| lshr(a, s)).unwrap_or_else(|| mk(Op::LShr(a, b), w))
        }
    }
}
pub fn ashr(a: E, b: E) -> E {
    let w = width(a);
    match const_val(b) {
        Some(s) => {
            let s = (s.min(w as u128 - 1)) as u32;
            let x = extract(a, s, w - s);
            sext(x, w)
        }
        None => shift_ite(b, w, &mut |s| ashr(a, s)).unwrap_or_else(|| mk(Op::AShr(a, b), w)),
    }
}
fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn tab_gcd(e: E) -> u128 {
    match op(e) {
        Op::Tab(_, t) => t.iter().fold(0u128, |g, x| gcd(g, *x as u128)),
        _ => 1,
    }
}
/// split a non-wrapping sum of non-negative table terms into (multiples of d, rest in [0,d))
fn split_div(e: E, d: u128) -> Option<(E, E)> {
    let w = width(e);
    if w > 64 {
        return None;
    }
    let (c, t): (u128, Vec<(E, u128)>) = match op(e) {
        Op::Sum(c, t) => (*c, t.clone()),
        Op::Concat(p) if pure_tab_concat(p) => {
            let mut c = 0;
            let mut off = 0;
            let mut v = vec![];
            for &x in p {
                let xw = width(x);
                match op(x) {
                    Op::Const(k) => c |= k << off,
                    Op::Tab(a, tt) => v.push((tab(*a, w, tt.iter().map(|y| y << off).collect()), 1)),
                    _ => {}
                }
                off += xw;
            }
            (c, v)
        }
        _ => return None,
    };
    let (l, h) = sum_range(w, c, &t)?;
    if l < 0 || h > mask(w) as i128 {
        return None;
    }
    let signed = reads_signed(w, c, &t);
    let mut q = vec![];
    let mut r = vec![];
    for (x, k) in &t {
        match op(*x) {
            Op::Tab(v, tt) if !signed || !tab_signed(tt, w) => {
                // split every table entrywise
                let val = |a: u64| (a as u128).wrapping_mul(*k) & mask(w);
                if tab_gcd(*x).wrapping_mul(*k) % d == 0 {
                    q.push((tab(*v, w, tt.iter().map(|&a| (val(a) / d) as u64).collect()), 1));
                } else {
                    r.push((*x, *k));
                }
            }
            _ => {
                if k % d == 0 && (*k as i128) < (1i128 << (w - 1)) {
                    q.push((*x, *k / d));
                } else {
                    r.push((*x, *k));
                }
            }
        }
    }
    let (qc, rc) = (c / d, c % d);
    let (l, h) = sum_range(w, rc, &r)?;
    if l >= 0 && h < d as i128 {
        Some((sum(w, qc, q), sum(w, rc, r)))
    } else {
        None
    }
}
pub fn udiv(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = const_val(b) {
        if k == 1 {
            return a;
        }
        if k.is_power_of_two() {
            return lshr(a, konst(w, k.trailing_zeros() as u128));
        }
        if k != 0 {
            if nd(a).hi < k {
                return konst(w, 0);
            }
            if nd(a).lo / k == nd(a).hi / k {
                return konst(w, nd(a).lo / k);
            }
            if let Some((q, _)) = split_div(a, k) {
                return q;
            }
        }
    }
    mk(Op::UDiv(a, b), w)
}
pub fn urem(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = const_val(b) {
        if k == 1 {
            return konst(w, 0);
        }
        if k.is_power_of_two() {
            let x = extract(a, 0, k.trailing_zeros());
            return zext(x, w);
        }
        if k != 0 {
            if nd(a).hi < k {
                return a;
            }
            if nd(a).lo / k == nd(a).hi / k {
                return sub(a, konst(w, nd(a).lo / k * k));
            }
            if let Some((_, r)) = split_div(a, k) {
                return r;
            }
        }
    }
    mk(Op::URem(a, b), w)
}
pub fn sdiv(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = const_val(b) {
        if srange(a).0 >= 0 && sx(k, w) > 0 {
            return udiv(a, b);
        }
    }
    mk(Op::SDiv(a, b), w)
}
pub fn srem(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = const_val(b) {
        if srange(a).0 >= 0 && sx(k, w) > 0 {
            return urem(a, b);
        }
    }
    mk(Op::SRem(a, b), w)
}
// ---------- bitwise
fn boundaries(e: E, out: &mut Vec<u32>) {
    match op(e) {
        Op::Concat(p) => {
            let mut o = 0;
            for &x in p {
                o += width(x);
                out.push(o);
            }
        }
        Op::Const(c) => {
            let w = width(e);
            for i in 1..w {
                if (c >> i ^ c >> (i - 1)) & 1 == 1 {
                    out.push(i);
                }
            }
        }
        _ => {}
    }
}
fn bitwise(k: u8, a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return if k == 2 { konst(w, 0) } else { a };
    }
    if w == 1 {
        return match k {
            0 => and(a, b),
            1 => or(a, b),
            _ => xor1(a, b),
        };
    }
    let m = mask(w);
    for (x, y) in [(a, b), (b, a)] {
        if let Some(c) = const_val(x) {
            if c == 0 {
                return if k == 0 { x } else { y };
            }
            if c == m {
                match k {
                    0 => return y,
                    1 => return x,
                    _ => {
                        if let Op::Sum(..) = op(y) {
                            return sum(w, m, vec![(y, m)]);
                        }
                    }
                }
            }
        }
    }
    let na = nd(a);
    let nb = nd(b);
    {
        let s = set_union(na.vs, nb.vs);
        if cx().sets[s as usize].len() <= 1 && w <= 64 {
            return mk(mkbit(k, a, b), w);
        }
    }
    if k != 0 && (na.k0 | nb.k0) == m {
        return own_concat(w, 0, &[a, b]);
    }
    let sliceable = |e: E| matches!(op(e), Op::Concat(_) | Op::Const(_));
    let mut cuts = vec![];
    if sliceable(a) || sliceable(b) {
        boundaries(a, &mut cuts);
        boundaries(b, &mut cuts);
    }
    // known bits of either side
    let ka = na.k0 | na.k1;
    let kb = nb.k0 | nb.k1;
    for i in 1..w {
        if (ka >> i ^ ka >> (i - 1)) & 1 == 1 || (kb >> i ^ kb >> (i - 1)) & 1 == 1 {
            cuts.push(i);
        }
    }
    cuts.push(w);
    cuts.sort();
    cuts.dedup();
    if cuts.len() == 1 {
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        if k == 2 {
            // push negation into ite
            for (p, q) in [(x, y), (y, x)] {
                if const_val(p) == Some(m) {
                    if let Op::Ite(c, l, r) = op(q) {
                        let (c, l, r) = (*c, *l, *r);
                        let (l, r) = (bitwise(2, l, p), bitwise(2, r, p));
                        return ite(c, l, r);
                    }
                }
            }
        }
        return mk(mkbit(k, x, y), w);
    }
    let mut out = vec![];
    let mut lo = 0;
    for c in cuts {
        if c <= lo || c > w {
            continue;
        }
        let x = extract(a, lo, c - lo);
        let y = extract(b, lo, c - lo);
        out.push(bitwise(k, x, y));
        lo = c;
    }
    concat(out)
}
fn mkbit(k: u8, a: E, b: E) -> Op {
    match k {
        0 => Op::And(a, b),
        1 => Op::Or(a, b),
        _ => Op::Xor(a, b),
    }
}
pub fn bit_and(a: E, b: E) -> E {
    bitwise(0, a, b)
}
pub fn bit_or(a: E, b: E) -> E {
    bitwise(1, a, b)
}
pub fn bit_xor(a: E, b: E) -> E {
    bitwise(2, a, b)
}
// ---------- comparisons
pub fn eq(a: E, b: E) -> E {
    if a == b {
        return TRUE;
    }
    let w = width(a);
    let (na, nb) = (nd(a), nd(b));
    if w == 1 {
        let x = xor1(a, b);
        return not(x);
    }
    if (na.k1 & nb.k0) | (na.k0 & nb.k1) != 0 || na.hi < nb.lo || nb.hi < na.lo {
        return FALSE;
    }
    let s = set_union(na.vs, nb.vs);
    if cx().sets[s as usize].len() <= 1 {
        return mk(Op::Eq(a, b), 1);
    }
    let sl = |e: E| matches!(op(e), Op::Concat(_) | Op::Const(_) | Op::Tab(..));
    if (matches!(op(a), Op::Concat(_)) || matches!(op(b), Op::Concat(_))) && sl(a) && sl(b) {
        let mut cuts = vec![w];
        for e in [a, b] {
            if let Op::Concat(_) = op(e) {
                boundaries(e, &mut cuts)
            }
        }
        cuts.sort();
        cuts.dedup();
        let mut lo = 0;
        let mut out = vec![];
        for c in cuts {
            let x = extract(a, lo, c - lo);
            let y = extract(b, lo, c - lo);
            let r = eq(x, y);
            if r == FALSE {
                return FALSE;
            }
            out.push(r);
            lo = c;
        }
        return and_n(out);
    }
    let (a, b) = if const_val(a).is_some() { (b, a) } else { (a, b) };
    if let Some(k) = const_val(b) {
        if let Op::Ite(c, x, y) = op(a) {
            let (c, x, y) = (*c, *x, *y);
            if const_val(x).is_some() || const_val(y).is_some() {
                let (p, q) = (eq(x, b), eq(y, b));
                return ite(c, p, q);
            }
        }
        if let Op::Sum(c, t) = op(a) {
            if *c != 0 {
                let s = sum(w, 0, t.clone());
                return eq(s, konst(w, k.wrapping_sub(*c)));
            }
            if t.len() == 1 && t[0].1 & 1 == 1 {
                // odd coefficient: invert
                let (x, kk) = t[0];
                let mut inv = 1u128;
                for _ in 0..7 {
                    inv = inv.wrapping_mul(2u128.wrapping_sub(kk.wrapping_mul(inv)));
                }
                return eq(x, konst(w, k.wrapping_mul(inv)));
            }
            // mixed radix
            if w <= 64 && t.len() > 1 {
                let mut gs: Vec<u128> = t.iter().filter(|x| x.1 == 1).map(|x| tab_gcd(x.0)).filter(|g| *g > 1).collect();
                gs.sort();
                gs.dedup();
                for g in gs.iter().rev() {
                    if let Some((q, r)) = split_div(a, *g) {
                        if q != a && const_val(q).is_none() {
                            let x = eq(q, konst(w, k / g));
                            let y = eq(r, konst(w, k % g));
                            return and(x, y);
                        }
                    }
                }
            }
        }
    } else if matches!(op(a), Op::Sum(..)) || matches!(op(b), Op::Sum(..)) {
        let d = sub(a, b);
        if let Some(c) = const_val(d) {
            return boolc(c == 0);
        }
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    mk(Op::Eq(a, b), 1)
}
pub fn ult(a: E, b: E) -> E {
    if a == b {
        return FALSE;
    }
    let w = width(a);
    let (na, nb) = (nd(a), nd(b));
    if na.hi < nb.lo {
        return TRUE;
    }
    if na.lo >= nb.hi {
        return FALSE;
    }
    if w == 1 {
        let x = not(a);
        return and(x, b);
    }
    if let Some(k) = const_val(b) {
        if k.is_power_of_two() {
            let s = k.trailing_zeros();
            let x = extract(a, s, w - s);
            if !matches!(op(x), Op::Extract(..)) {
                return eq(x, konst(w - s, 0));
            }
        }
        if k == 1 {
            return eq(a, konst(w, 0));
        }
        if na.hi == k && k == nb.lo {
            // a < hi  <=> a != hi
            let x = eq(a, b);
            return not(x);
        }
    }
    if let Some(k) = const_val(a) {
        // k < b  <=> !(b <= k) <=> !(b < k+1)
        let x = ult(b, konst(w, k + 1));
        return not(x);
    }
    // a - b as an integer, when neither side wraps
    if w <= 64 && (matches!(op(a), Op::Sum(..)) || matches!(op(b), Op::Sum(..))) {
        let whole = |e: E| match op(e) {
            Op::Sum(c, t) => matches!(sum_range(w, *c, t), Some((l, h)) if l >= 0 && h < 1i128 << w),
            _ => true,
        };
        if whole(a) && whole(b) {
            let d = sub(a, b);
            let half = 1i128 << (w - 1);
            let r = match op(d) {
                Op::Sum(c, t) => sum_range(w, *c, t),
                Op::Tab(..) => Some(srange(d)),
                _ => None,
            };
            // only a difference that lost something is easier
            if let (Some((l, h)), true) = (r, na.hi < half as u128 && nb.hi < half as u128) {
                if h < 0 {
                    return TRUE;
                }
                if l >= 0 {
                    return FALSE;
                }
            }
        }
    }
    // strip equal top parts
    let sl = |e: E| matches!(op(e), Op::Concat(_) | Op::Const(_) | Op::Tab(..));
    if sl(a) && sl(b) {
        let mut cuts = vec![];
        for e in [a, b] {
            if let Op::Concat(_) = op(e) {
                boundaries(e, &mut cuts)
            }
        }
        let kk = (na.k0 & nb.k0) | (na.k1 & nb.k1);
        for i in 1..w {
            if (kk >> i ^ kk >> (i - 1)) & 1 == 1 {
                cuts.push(i)
            }
        }
        cuts.push(0);
        cuts.sort();
        cuts.dedup();
        let mut top = w;
        for &c in cuts.iter().rev() {
            if c >= top {
                continue;
            }
            let x = extract(a, c, top - c);
            let y = extract(b, c, top - c);
            if x == y {
                top = c;
            } else {
                break;
            }
        }
        if top < w {
            let x = extract(a, 0, top);
            let y = extract(b, 0, top);
            return ult(x, y);
        }
        // strip low part when b's low bits are all zero constant: a<b <=> a_hi<b_hi
        let tz = (!nb.k0 & mask(w)).trailing_zeros();
        if tz > 0 && tz < w && const_val(b).is_some() {
            let x = extract(a, tz, w - tz);
            let y = extract(b, tz, w - tz);
            return ult(x, y);
        }
    }
    if const_val(b).is_some() {
        if let Op::Ite(c, x, y) = op(a) {
            let (c, x, y) = (*c, *x, *y);
            if const_val(x).is_some() || const_val(y).is_some() {
                let (p, q) = (ult(x, b), ult(y, b));
                return ite(c, p, q);
            }
        }
    }
    mk(Op::Ult(a, b), 1)
}
pub fn slt(a: E, b: E) -> E {
    if a == b {
        return FALSE;
    }
    let w = width(a);
    if w <= 64 {
        let (al, ah) = srange(a);
        let (bl, bh) = srange(b);
        if ah < bl {
            return TRUE;
        }
        if al >= bh {
            return FALSE;
        }
        if al >= 0 && bl >= 0 {
            return ult(a, b);
        }
        if ah < 0 && bh < 0 {
            return ult(a, b);
        }
    }
    if const_val(b) == Some(0) {
        return extract(a, w - 1, 1);
    }
    if let Some(k) = const_val(a) {
        if sx(k, w) == -1 {
            let x = extract(b, w - 1, 1);
            return not(x);
        }
        // k < b <=> !(b < k+1)
        if k != mask(w) >> 1 {
            let x = slt(b, konst(w, k + 1));
            return not(x);
        }
    }
    if const_val(b).is_some() {
        if let Op::Ite(c, x, y) = op(a) {
            let (c, x, y) = (*c, *x, *y);
            if const_val(x).is_some() || const_val(y).is_some() {
                let (p, q) = (slt(x, b), slt(y, b));
                return ite(c, p, q);
            }
        }
    }
    mk(Op::Slt(a, b), 1)
}
fn ite_raw(c: E, a: E, b: E) -> E {
    if c == TRUE || a == b {
        return a;
    }
    if c == FALSE {
        return b;
    }
    let w = width(a);
    if w == 1 {
        return ite(c, a, b);
    }
    let n = not(c);
    if n < c {
        return mk(Op::Ite(n, b, a), w);
    }
    mk(Op::Ite(c, a, b), w)
}
pub fn ite(c: E, a: E, b: E) -> E {
    if c == TRUE || a == b {
        return a;
    }
    if c == FALSE {
        return b;
    }
    let w = width(a);
    if w == 1 {
        match (const_val(a), const_val(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => {
                let n = not(c);
                return and(n, b);
            }
            (None, Some(1)) => {
                let n = not(c);
                return or(n, a);
            }
            (None, Some(0)) => return and(c, a),
            _ => {}
        }
        if a == c {
            return or(c, b);
        }
        if b == c {
            return and(c, a);
        }
        let na = not(a);
        if na == b {
            let x = xor1(c, a);
            return not(x);
        }
    }
    let n = not(c);
    let (c, n, a, b) = if n < c { (n, c, b, a) } else { (c, n, a, b) };
    let pick = |x: E, t: bool| -> E {
        if let Op::Ite(c2, p, q) = op(x) {
            if *c2 == c {
                return if t { *p } else { *q };
            }
            if *c2 == n {
                return if t { *q } else { *p };
            }
        }
        x
    };
    let (a, b) = (pick(a, true), pick(b, false));
    if a == b {
        return a;
    }
    if w > 1 {
        let both = const_val(a).is_some() && const_val(b).is_some();
        let sl = |e: E| matches!(op(e), Op::Concat(_) | Op::Const(_) | Op::Tab(..));
        let single = {
            let s = set_union(set_union(nd(c).vs, nd(a).vs), nd(b).vs);
            cx().sets[s as usize].len() <= 1 && w <= 64
        };
        if !both && !single && sl(a) && sl(b) {
            let (na, nb) = (nd(a), nd(b));
            let same = (na.k0 & nb.k0) | (na.k1 & nb.k1);
            let mut cuts = vec![w];
            for e in [a, b] {
                if let Op::Concat(_) = op(e) {
                    boundaries(e, &mut cuts);
                }
            }
            for i in 1..w {
                if (same >> i ^ same >> (i - 1)) & 1 == 1 {
                    cuts.push(i);
                }
            }
            cuts.sort();
            cuts.dedup();
            // groups of differing slices
            let mut out = vec![];
            let mut lo = 0;
            let mut gs = NO;
            let mut any = false;
            for &cu in &cuts {
                let x = extract(a, lo, cu - lo);
                let y = extract(b, lo, cu - lo);
                if x == y {
                    if gs != NO {
                        let p = extract(a, gs, lo - gs);
                        let q = extract(b, gs, lo - gs);
                        out.push(if p == a { ite_raw(c, p, q) } else { ite(c, p, q) });
                        gs = NO;
                    }
                    out.push(x);
                    any = true;
                } else if gs == NO {
                    gs = lo;
                }
                lo = cu;
            }
            if any {
                if gs != NO {
                    let p = extract(a, gs, w - gs);
                    let q = extract(b, gs, w - gs);
                    out.push(ite(c, p, q));
                }
                return concat(out);
            }
        }
    }
    mk(Op::Ite(c, a, b), w)
}
const NO: u32 = u32::MAX;
// ---------- floating point
pub fn fop(k: FB, a: E, b: E) -> E {
    let w = width(a);
    let one = if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
    match k {
        FB::Mul => {
            if const_val(a) == Some(one) {
                return b;
            }
            if const_val(b) == Some(one) {
                return a;
            }
        }
        FB::Div => {
            if const_val(b) == Some(one) {
                return a;
            }
        }
        _ => {}
    }
    let (a, b) = match k {
        FB::Add | FB::Mul if b < a => (b, a),
        _ => (a, b),
    };
    mk(Op::F(k, a, b), w)
}
pub fn fabs(a: E) -> E {
    if let Op::FNeg(x) = op(a) {
        return fabs(*x);
    }
    mk(Op::FAbs(a), width(a))
}
pub fn fneg(a: E) -> E {
    if let Op::FNeg(x) = op(a) {
        return *x;
    }
    mk(Op::FNeg(a), width(a))
}
pub fn frnd(k: u8, a: E) -> E {
    mk(Op::FRnd(k, a), width(a))
}
pub fn itof(signed: bool, a: E, w: u32) -> E {
    let mut a = a;
    let mut s = signed;
    let wa = width(a);
    if wa <= 64 {
        if s && srange(a).0 >= 0 {
            s = false;
        }
        if !s {
            // canonical: strip zero top bits
            if let Op::Concat(p) = op(a) {
                if const_val(*p.last().unwrap()) == Some(0) {
                    let tw = width(*p.last().unwrap());
                    a = extract(a, 0, wa - tw);
                }
            } else if wa < 64 && matches!(op(a), Op::Sum(..)) {
                a = zext(a, 64);
            }
        } else if wa < 64 {
            a = sext(a, 64);
        }
    }
    mk(Op::IToF(s, a), w)
}
pub fn ftoi(signed: bool, a: E, w: u32) -> E {
    mk(Op::FToI(signed, a), w)
}
pub fn fext(a: E) -> E {
    mk(Op::FExt(a), 64)
}
pub fn ftrunc(a: E) -> E {
    mk(Op::FTrunc(a), 32)
}
/// (min, max, may be NaN) of a floating point expression
pub fn frange(e: E) -> (f64, f64, bool) {
    let w = width(e);
    match op(e) {
        Op::Const(c) => {
            let x = f64_of(*c, w);
            return (x, x, x.is_nan());
        }
        _ => {}
    }
    if let Some(r) = cx().franges.get(&e) {
        return *r;
    }
    let full = (f64::NEG_INFINITY, f64::INFINITY, true);
    let r = match op(e) {
        Op::Tab(_, t) => {
            let mut l = f64::INFINITY;
            let mut h = f64::NEG_INFINITY;
            let mut nan = false;
            for &x in t.iter() {
                let f = f64_of(x as u128, w);
                if f.is_nan() {
                    nan = true
                } else {
                    l = l.min(f);
                    h = h.max(f);
                }
            }
            (l, h, nan)
        }
        Op::Ite(_, a, b) => {
            let (x, y) = (frange(*a), frange(*b));
            (x.0.min(y.0), x.1.max(y.1), x.2 || y.2)
        }
        Op::IToF(s, a) => {
            let (l, h) = if *s {
                srange(*a)
            } else {
                let n = nd(*a);
                if n.hi > i128::MAX as u128 {
                    return full;
                }
                (n.lo as i128, n.hi as i128)
            };
            if w == 32 {
                (l as f32 as f64, h as f32 as f64, false)
            } else {
                (l as f64, h as f64, false)
            }
        }
        Op::FNeg(a) => {
            let x = frange(*a);
            (-x.1, -x.0, x.2)
        }
        Op::FAbs(a) => {
            let x = frange(*a);
            let m = x.0.abs().max(x.1.abs());
            let l = if x.0 <= 0.0 && x.1 >= 0.0 { 0.0 } else { x.0.abs().min(x.1.abs()) };
            (l, m, x.2)
        }
        Op::FRnd(5, a) => {
            let x = frange(*a);
            if x.0 >= 0.0 {
                (x.0.sqrt() * (1.0 - 1e-6), x.1.sqrt() * (1.0 + 1e-6), x.2)
            } else {
                (f64::NEG_INFINITY, f64::INFINITY, true)
            }
        }
        Op::FRnd(k, a) => {
            let x = frange(*a);
            let f = |v: f64| match k {
                0 => v.floor(),
                1 => v.ceil(),
                2 => v.trunc(),
                3 | _ => v.round(),
            };
            (f(x.0).min(x.0.floor()), f(x.1).max(x.1.ceil()), x.2)
        }
        Op::F(k, a, b) => {
            let (x, y) = (frange(*a), frange(*b));
            if x.2 || y.2 || !x.0.is_finite() || !x.1.is_finite() || !y.0.is_finite() || !y.1.is_finite() {
                full
            } else {
                let c: Vec<f64> = match k {
                    FB::Add => vec![x.0 + y.0, x.1 + y.1],
                    FB::Sub => vec![x.0 - y.1, x.1 - y.0],
                    FB::Mul => vec![x.0 * y.0, x.0 * y.1, x.1 * y.0, x.1 * y.1],
                    FB::Div if y.0 > 0.0 || y.1 < 0.0 => vec![x.0 / y.0, x.0 / y.1, x.1 / y.0, x.1 / y.1],
                    _ => vec![],
                };
                if c.is_empty() {
                    full
                } else {
                    let mut l = f64::INFINITY;
                    let mut h = f64::NEG_INFINITY;
                    for mut v in c {
                        if w == 32 {
                            v = v as f32 as f64;
                        }
                        l = l.min(v);
                        h = h.max(v);
                    }
                    (l, h, l.is_nan() || h.is_nan())
                }
            }
        }
        Op::FExt(a) => frange(*a),
        Op::FTrunc(a) => {
            let x = frange(*a);
            (x.0 as f32 as f64, x.1 as f32 as f64, x.2)
        }
        _ => full,
    };
    cx().franges.insert(e, r);
    r
}
pub fn fcmp(p: u8, a: E, b: E) -> E {
    if p == 0 {
        return FALSE;
    }
    if p == 15 {
        return TRUE;
    }
    let (x, y) = (frange(a), frange(b));
    let mut possible = 0u8;
    if x.2 || y.2 {
        possible |= 8;
    }
    if a == b {
        possible |= 1;
    } else {
        if x.0 <= y.1 && y.0 <= x.1 {
            possible |= 1;
        }
        if x.1 > y.0 {
            possible |= 2;
        }
        if x.0 < y.1 {
            possible |= 4;
        }
    }
    if p & possible == 0 {
        return FALSE;
    }
    if p & possible == possible {
        return TRUE;
    }
    // ite with a constant leaf
    for (s, t, first) in [(a, b, true), (b, a, false)] {
        if const_val(t).is_some() {
            if let Op::Ite(c, l, r) = op(s) {
                let (c, l, r) = (*c, *l, *r);
                let (l, r) = if first { (fcmp(p, l, t), fcmp(p, r, t)) } else { (fcmp(p, t, l), fcmp(p, t, r)) };
                return ite(c, l, r);
            }
        }
    }
    mk(Op::FCmp(p & possible, a, b), 1)
}
pub fn fclose_e(a: E, b: E, tol: u64) -> E {
    if a == b {
        let r = frange(a);
        if !r.2 && r.0.is_finite() && r.1.is_finite() {
            return TRUE;
        }
        return fcmp(1, a, b);
    }
    if let Op::Ite(c, x, y) = op(a) {
        let (c, x, y) = (*c, *x, *y);
        let (p, q) = match op(b) {
            Op::Ite(c2, x2, y2) if *c2 == c => (*x2, *y2),
            _ => (b, b),
        };
        let l = fclose_e(x, p, tol);
        let r = fclose_e(y, q, tol);
        return ite(c, l, r);
    }
    if let Op::Ite(c, x, y) = op(b) {
        let (c, x, y) = (*c, *x, *y);
        let l = fclose_e(a, x, tol);
        let r = fclose_e(a, y, tol);
        return ite(c, l, r);
    }
    mk(Op::FClose(a, b, tol), 1)
}
// ---------- substitution of tables by a restriction of their variables
pub struct Subst<'a> {
    pub f: &'a dyn Fn(u32) -> Option<[u64; 4]>, // possible values of restricted variables
    pub memo: FxMap<E, E>,
}
impl<'a> Subst<'a> {
    pub fn run(&mut self, e: E) -> E {
        if nd(e).vs == 0 {
            return e;
        }
        if let Some(x) = self.memo.get(&e) {
            return *x;
        }
        let w = width(e);
        let r = match op(e).clone() {
            Op::Const(_) => e,
            Op::Tab(v, t) => match (self.f)(v) {
                Some(m) => {
                    let mut x = None;
                    let mut same = true;
                    for i in 0..t.len() {
                        if m[i >> 6] >> (i & 63) & 1 == 1 {
                            if x.is_none() {
                                x = Some(t[i]);
                            } else if x != Some(t[i]) {
                                same = false;
                                break;
                            }
                        }
                    }
                    match x {
                        Some(x) if same => konst(w, x as u128),
                        _ => e,
                    }
                }
                None => e,
            },
            Op::Sum(c, t) => {
                let t2 = t.iter().map(|(x, k)| (self.run(*x), *k)).collect();
                sum(w, c, t2)
            }
            Op::Mul(a, b) => mul(self.run(a), self.run(b)),
            Op::UDiv(a, b) => udiv(self.run(a), self.run(b)),
            Op::SDiv(a, b) => sdiv(self.run(a), self.run(b)),
            Op::URem(a, b) => urem(self.run(a), self.run(b)),
            Op::SRem(a, b) => srem(self.run(a), self.run(b)),
            Op::Concat(v) => concat(v.iter().map(|x| self.run(*x)).collect()),
            Op::Extract(a, l) => extract(self.run(a), l, w),
            Op::And(a, b) => bit_and(self.run(a), self.run(b)),
            Op::Or(a, b) => bit_or(self.run(a), self.run(b)),
            Op::Xor(a, b) => bit_xor(self.run(a), self.run(b)),
            Op::Shl(a, b) => shl(self.run(a), self.run(b)),
            Op::LShr(a, b) => lshr(self.run(a), self.run(b)),
            Op::AShr(a, b) => ashr(self.run(a), self.run(b)),
            Op::BAnd(v) => and_n(v.iter().map(|x| self.run(*x)).collect()),
            Op::BOr(v) => or_n(v.iter().map(|x| self.run(*x)).collect()),
            Op::BNot(a) => not(self.run(a)),
            Op::Eq(a, b) => eq(self.run(a), self.run(b)),
            Op::Ult(a, b) => ult(self.run(a), self.run(b)),
            Op::Slt(a, b) => slt(self.run(a), self.run(b)),
            Op::Ite(c, a, b) => ite(self.run(c), self.run(a), self.run(b)),
            Op::F(k, a, b) => fop(k, self.run(a), self.run(b)),
            Op::FAbs(a) => fabs(self.run(a)),
            Op::FNeg(a) => fneg(self.run(a)),
            Op::FRnd(k, a) => frnd(k, self.run(a)),
            Op::FCmp(p, a, b) => fcmp(p, self.run(a), self.run(b)),
            Op::IToF(s, a) => itof(s, self.run(a), w),
            Op::FToI(s, a) => ftoi(s, self.run(a), w),
            Op::FExt(a) => fext(self.run(a)),
            Op::FTrunc(a) => ftrunc(self.run(a)),
            Op::FClose(a, b, t) => fclose_e(self.run(a), self.run(b), t),
        };
        self.memo.insert(e, r);
        r
    }
}
/// small textual form for diagnostics
pub fn show(e: E, d: u32) -> String {
    if d == 0 {
        return format!("#{}:{}", e, width(e));
    }
    let v = |l: &[E]| l.iter().take(12).map(|&x| show(x, d - 1)).collect::<Vec<_>>().join(", ");
    match op(e) {
        Op::Const(c) => format!("{}:{}", c, width(e)),
        Op::Tab(x, t) => {
            let n = t.len().min(6);
            format!("T{}[{:?}{}]:{}", cx().vars[*x as usize].ord, &t[..n], if t.len() > n { ".." } else { "" }, width(e))
        }
        Op::Sum(c, t) => format!("Sum({}; {})", c, t.iter().map(|(x, k)| format!("{}*{}", k, show(*x, d - 1))).collect::<Vec<_>>().join(" + ")),
        o => {
            let mut l = vec![];
            children(o, |x| l.push(x));
            let s = format!("{:?}", o);
            let name: String = s.chars().take_while(|c| c.is_alphanumeric()).collect();
            let extra = match o {
                Op::Extract(_, lo) => format!("@{}", lo),
                Op::F(k, _, _) => format!("{:?}", k),
                Op::FCmp(p, _, _) => format!("{}", p),
                _ => String::new(),
            };
            format!("{}{}({}):{}", name, extra, v(&l), width(e))
        }
    }
}
