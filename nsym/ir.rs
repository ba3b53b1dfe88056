// Lazy parser for the textual LLVM IR produced by rustc (post-LTO module).
use crate::expr::{self, V};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TyK {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Vec(u32, Ty),
    Arr(u64, Ty),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Token,
    Fn,
}
#[derive(Clone, Debug)]
pub struct TyInfo {
    pub k: TyK,
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}
#[derive(Default)]
pub struct Types {
    pub v: Vec<TyInfo>,
    map: HashMap<TyK, Ty>,
    named: HashMap<String, Ty>,
}
fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
impl Types {
    pub fn get(&mut self, k: TyK) -> Ty {
        if let Some(&t) = self.map.get(&k) {
            return t;
        }
        let (size, align, offs) = match &k {
            TyK::Void | TyK::Label | TyK::Meta | TyK::Token | TyK::Fn => (0, 1, vec![]),
            TyK::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                (up(b, a), a, vec![])
            }
            TyK::F32 => (4, 4, vec![]),
            TyK::F64 => (8, 8, vec![]),
            TyK::Ptr => (8, 8, vec![]),
            TyK::Vec(n, t) => {
                let b = (*n as u64 * self.bits(*t) as u64 + 7) / 8;
                let a = b.next_power_of_two();
                (up(b, a), a, vec![])
            }
            TyK::Arr(n, t) => {
                let i = &self.v[*t as usize];
                (n * i.size, i.align, vec![])
            }
            TyK::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                let mut offs = vec![];
                for t in f {
                    let i = &self.v[*t as usize];
                    let a = if *packed { 1 } else { i.align };
                    al = al.max(a);
                    o = up(o, a);
                    offs.push(o);
                    o += i.size;
                }
                (up(o, al), al, offs)
            }
        };
        let id = self.v.len() as Ty;
        self.v.push(TyInfo { k: k.clone(), size, align, offs });
        self.map.insert(k, id);
        id
    }
    pub fn bits(&self, t: Ty) -> u32 {
        match &self.v[t as usize].k {
            TyK::Int(w) => *w,
            TyK::F32 => 32,
            TyK::F64 => 64,
            TyK::Ptr => 64,
            TyK::Vec(n, t) => n * self.bits(*t),
            _ => 0,
        }
    }
    pub fn size(&self, t: Ty) -> u64 {
        self.v[t as usize].size
    }
    pub fn k(&self, t: Ty) -> &TyK {
        &self.v[t as usize].k
    }
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum FB {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast / ptrtoint / inttoptr of same width handled as trunc/zext
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(O),
    Intr(Rc<str>),
    Asm,
}
#[derive(Clone, Debug)]
pub struct CallI {
    pub d: u32,
    pub callee: Callee,
    pub args: Vec<O>,
    pub argtys: Vec<Ty>,
    pub ret: Ty,
    pub normal: u32, // invoke: normal destination, else NONE
}
pub const NONE: u32 = u32::MAX;
#[derive(Clone, Debug)]
pub enum I {
    Bin(B, u32, u32, O, O),
    VBin(B, u32, u32, O, O),
    Icmp(P, u32, u32, O, O),
    VIcmp(P, u32, u32, O, O),
    Cast(CastOp, u32, u32, u32, O),       // op, from width, to width, d, a
    VCast(CastOp, u32, u32, u32, O),
    Bitcast(Ty, Ty, u32, O),
    FBin(FB, u32, u32, O, O),
    FNeg(u32, u32, O),
    Fcmp(u8, u32, u32, O, O), // predicate bits: 8=uno,1=eq,2=gt,4=lt
    Select(u32, O, O, O, u32), // width (0 = aggregate)
    VSelect(u32, O, O, O, u32),
    Load(u32, Ty, O),
    Store(Ty, O, O),
    Gep(u32, O, Vec<(O, u32, i64)>, i64),
    Alloca(u32, u64, u64, Option<O>),
    Call(Box<CallI>),
    Extract(u32, O, Vec<u32>),
    Insert(u32, O, O, Vec<u32>),
    ExtractElem(u32, O, O),
    InsertElem(u32, O, O, O),
    Shuffle(u32, O, O, Vec<i32>),
    Cmpxchg(u32, Ty, O, O, O),
    Rmw(RmwOp, u32, Ty, O, O),
    Copy(u32, O),
    Nop,
    Br(u32),
    CondBr(O, u32, u32),
    Switch(O, u32, u32, Vec<(u128, u32)>),
    Ret(Option<O>),
    Unreachable,
    Unsupported(String),
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, O)>, u32)>, // dst, (pred, value), width (0 = aggregate)
    pub insts: Vec<I>,
}
pub struct Func {
    pub id: u32,
    pub name: Rc<str>,
    pub nparams: u32,
    pub nregs: u32,
    pub widths: Vec<u16>, // per register: scalar width, 0 for aggregate/unknown, 0x8000 flag = pointer
    pub blocks: Vec<Block>,
    pub wto: std::cell::OnceCell<(Vec<Vec<u32>>, Vec<bool>)>, // scheduling order, join blocks
    pub live_in: RefCell<Vec<Option<Rc<Vec<u32>>>>>, // registers live at block start (after phis)
    pub live_sets: Vec<Vec<u64>>,
}
pub struct FnDecl {
    pub name: Rc<str>,
    pub span: Option<(usize, usize)>,
    pub func: RefCell<Option<Rc<Func>>>,
}
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub ty: Ty,
    pub init: Option<usize>,
    pub size: u64,
    pub constant: bool,
}
pub struct Module {
    pub text: Vec<u8>,
    pub types: RefCell<Types>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub glob_by_name: HashMap<String, u64>,
    pub glob_end: u64,
}
pub const FN_BASE: u64 = 0x0100_0000;
pub const GLOB_BASE: u64 = 0x1000_0000;

struct Ps<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a Module,
    locals: HashMap<&'a [u8], u32>,
    nregs: u32,
    labels: HashMap<&'a [u8], u32>,
    widths: Vec<u16>,
}
fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}
impl<'a> Ps<'a> {
    fn new(m: &'a Module, i: usize) -> Ps<'a> {
        Ps { s: &m.text, i, m, locals: HashMap::new(), nregs: 0, labels: HashMap::new(), widths: vec![] }
    }
    fn ws(&mut self) {
        loop {
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' {
                self.i += 1;
            } else if c == b';' {
                while self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }
    fn eol(&mut self) {
        while self.s[self.i] != b'\n' {
            self.i += 1;
        }
        self.i += 1;
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s[self.i]
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    fn fail(&self, msg: &str) -> ! {
        let a = self.i.saturating_sub(100);
        let b = (self.i + 100).min(self.s.len());
        panic!("IR parse error: {} at ...{}<<HERE>>{}", msg, String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]));
    }
    fn word(&mut self) -> &'a [u8] {
        self.ws();
        let s = self.i;
        while is_id(self.s[self.i]) {
            self.i += 1;
        }
        &self.s[s..self.i]
    }
    fn peek_word(&mut self) -> &'a [u8] {
        self.ws();
        let mut j = self.i;
        while is_id(self.s[j]) {
            j += 1;
        }
        &self.s[self.i..j]
    }
    fn eat_word(&mut self, w: &[u8]) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn parens(&mut self) {
        // skip balanced parentheses, strings respected
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn name(&mut self) -> &'a [u8] {
        // after @ or %
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            self.i += 1;
            &self.s[st..self.i - 1]
        } else {
            let st = self.i;
            while is_id(self.s[self.i]) {
                self.i += 1;
            }
            &self.s[st..self.i]
        }
    }
    fn int(&mut self) -> i128 {
        let w = self.word();
        let s = std::str::from_utf8(w).unwrap();
        s.parse::<i128>().unwrap_or_else(|_| self.fail("int"))
    }
    fn mk(&self, k: TyK) -> Ty {
        self.m.types.borrow_mut().get(k)
    }
    fn ty(&mut self) -> Ty {
        let c = self.peek();
        let mut t = match c {
            b'[' => {
                self.i += 1;
                let n = self.int() as u64;
                let w = self.word();
                assert!(w == b"x");
                let e = self.ty();
                self.expect(b']');
                self.mk(TyK::Arr(n, e))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.tys();
                    self.expect(b'>');
                    self.mk(TyK::Struct(f, true))
                } else {
                    let n = self.int() as u32;
                    let w = self.word();
                    assert!(w == b"x");
                    let e = self.ty();
                    self.expect(b'>');
                    self.mk(TyK::Vec(n, e))
                }
            }
            b'{' => {
                self.i += 1;
                let f = self.tys();
                self.mk(TyK::Struct(f, false))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                let n = String::from_utf8_lossy(n).to_string();
                let r = self.m.types.borrow().named.get(&n).cloned();
                match r {
                    Some(t) => t,
                    None => self.fail("named type"),
                }
            }
            _ => {
                let w = self.word();
                match w {
                    b"void" => self.mk(TyK::Void),
                    b"ptr" => self.mk(TyK::Ptr),
                    b"double" => self.mk(TyK::F64),
                    b"float" => self.mk(TyK::F32),
                    b"label" => self.mk(TyK::Label),
                    b"metadata" => self.mk(TyK::Meta),
                    b"token" => self.mk(TyK::Token),
                    _ if w.len() > 1 && w[0] == b'i' && w[1].is_ascii_digit() => {
                        let n: u32 = std::str::from_utf8(&w[1..]).unwrap().parse().unwrap();
                        self.mk(TyK::Int(n))
                    }
                    _ => self.fail("type"),
                }
            }
        };
        // function type: ty (args)
        if self.s[self.i] == b' ' && self.s[self.i + 1] == b'(' {
            // only in call with explicit function type (varargs); caller handles
            let save = self.i;
            self.i += 1;
            self.parens();
            // accept only if followed by something that is not an operand list end
            self.ws();
            if self.s[self.i] == b'@' || self.s[self.i] == b'%' {
                let _ = &mut t;
            } else {
                self.i = save;
            }
        }
        t
    }
    fn tys(&mut self) -> Vec<Ty> {
        let mut f = vec![];
        if self.eat(b'}') {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat(b'}') {
                return f;
            }
            self.expect(b',');
        }
    }
    fn zero(&self, t: Ty) -> V {
        let k = self.m.types.borrow().k(t).clone();
        match k {
            TyK::Int(w) if w > 64 => V::S(expr::konst(w, 0)),
            TyK::Int(_) | TyK::F32 | TyK::F64 | TyK::Ptr => V::C(0),
            TyK::Vec(n, e) => V::A(Rc::new(vec![self.zero(e); n as usize])),
            TyK::Arr(n, e) => V::A(Rc::new(vec![self.zero(e); n as usize])),
            TyK::Struct(f, _) => V::A(Rc::new(f.iter().map(|&t| self.zero(t)).collect())),
            _ => V::U,
        }
    }
    fn undef(&self, t: Ty) -> V {
        let k = self.m.types.borrow().k(t).clone();
        match k {
            TyK::Vec(n, e) => V::A(Rc::new(vec![self.undef(e); n as usize])),
            TyK::Arr(n, e) => V::A(Rc::new(vec![self.undef(e); n as usize])),
            TyK::Struct(f, _) => V::A(Rc::new(f.iter().map(|&t| self.undef(t)).collect())),
            _ => V::U,
        }
    }
    // typed value list inside an aggregate constant up to `close`
    fn agg(&mut self, close: u8) -> V {
        let mut v = vec![];
        if self.eat(close) {
            return V::A(Rc::new(v));
        }
        loop {
            let t = self.ty();
            v.push(self.cval(t));
            if self.eat(close) {
                return V::A(Rc::new(v));
            }
            self.expect(b',');
        }
    }
    /// constant or local operand of type t
    fn op(&mut self, t: Ty) -> O {
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            return O::R(self.reg(n));
        }
        O::K(self.cval(t))
    }
    fn reg(&mut self, n: &'a [u8]) -> u32 {
        if let Some(&r) = self.locals.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.locals.insert(n, r);
        self.widths.push(0);
        r
    }
    fn cval(&mut self, t: Ty) -> V {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                V::C(self.m.addr_of(n))
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 1;
                let b = self.name();
                V::A(Rc::new(unescape(b).into_iter().map(|x| V::C(x as u64)).collect()))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let r = self.agg(b'}');
                    self.expect(b'>');
                    r
                } else {
                    self.agg(b'>')
                }
            }
            b'{' => {
                self.i += 1;
                self.agg(b'}')
            }
            b'[' => {
                self.i += 1;
                self.agg(b']')
            }
            _ => {
                let w = self.word();
                match w {
                    b"null" => V::C(0),
                    b"true" => V::C(1),
                    b"false" => V::C(0),
                    b"none" => V::C(0),
                    b"zeroinitializer" => self.zero(t),
                    b"undef" | b"poison" => self.undef(t),
                    b"splat" => {
                        self.expect(b'(');
                        let et = self.ty();
                        let v = self.cval(et);
                        self.expect(b')');
                        let n = match self.m.types.borrow().k(t) {
                            TyK::Vec(n, _) => *n,
                            _ => panic!("splat"),
                        };
                        V::A(Rc::new(vec![v; n as usize]))
                    }
                    b"getelementptr" => {
                        while self.peek() != b'(' {
                            if self.peek_word().is_empty() {
                                self.fail("gep flags")
                            }
                            let w = self.word();
                            if w == b"inrange" {
                                self.parens();
                            }
                        }
                        self.expect(b'(');
                        let st = self.ty();
                        self.expect(b',');
                        let pt = self.ty();
                        let base = self.cval(pt);
                        let mut addr = match base {
                            V::C(x) => x,
                            _ => self.fail("gep base"),
                        };
                        let mut first = true;
                        let mut cur = st;
                        while self.eat(b',') {
                            let it = self.ty();
                            let iv = match self.cval(it) {
                                V::C(x) => x as i64,
                                _ => self.fail("gep idx"),
                            };
                            let ts = self.m.types.borrow();
                            if first {
                                addr = addr.wrapping_add((ts.size(cur) as i64 * iv) as u64);
                                first = false;
                            } else {
                                match ts.k(cur) {
                                    TyK::Arr(_, e) | TyK::Vec(_, e) => {
                                        addr = addr.wrapping_add((ts.size(*e) as i64 * iv) as u64);
                                        cur = *e;
                                    }
                                    TyK::Struct(f, _) => {
                                        addr = addr.wrapping_add(ts.v[cur as usize].offs[iv as usize]);
                                        cur = f[iv as usize];
                                    }
                                    _ => panic!("gep const"),
                                }
                            }
                        }
                        self.expect(b')');
                        V::C(addr)
                    }
                    b"inttoptr" | b"ptrtoint" | b"bitcast" | b"trunc" | b"zext" | b"addrspacecast" | b"ptrtoaddr" => {
                        self.expect(b'(');
                        let ft = self.ty();
                        let v = self.cval(ft);
                        let kw = self.word();
                        assert!(kw == b"to");
                        let tt = self.ty();
                        self.expect(b')');
                        match v {
                            V::C(x) => {
                                let b = self.m.types.borrow().bits(tt);
                                V::C(if b < 64 { x & ((1u64 << b) - 1) } else { x })
                            }
                            v => v,
                        }
                    }
                    b"sub" | b"add" | b"xor" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(');
                        let t1 = self.ty();
                        let a = self.cval(t1);
                        self.expect(b',');
                        let t2 = self.ty();
                        let b = self.cval(t2);
                        self.expect(b')');
                        match (a, b) {
                            (V::C(a), V::C(b)) => {
                                let r = match w {
                                    b"sub" => a.wrapping_sub(b),
                                    b"add" => a.wrapping_add(b),
                                    _ => a ^ b,
                                };
                                let bits = self.m.types.borrow().bits(t1);
                                V::C(if bits < 64 { r & ((1u64 << bits) - 1) } else { r })
                            }
                            _ => self.fail("const bin"),
                        }
                    }
                    _ => {
                        let k = self.m.types.borrow().k(t).clone();
                        match k {
                            TyK::Int(b) => {
                                let s = std::str::from_utf8(w).unwrap();
                                let s2 = if s.starts_with("u0x") || s.starts_with("s0x") { &s[3..] } else { s };
                                let x: i128 = if s2.len() != s.len() {
                                    u128::from_str_radix(s2, 16).unwrap() as i128
                                } else {
                                    match s.parse::<i128>() {
                                        Ok(x) => x,
                                        Err(_) => s.parse::<u128>().unwrap_or_else(|_| self.fail("int const")) as i128,
                                    }
                                };
                                if b > 64 {
                                    V::S(expr::konst(b, x as u128))
                                } else if b == 64 {
                                    V::C(x as u64)
                                } else {
                                    V::C((x as u64) & ((1u64 << b) - 1))
                                }
                            }
                            TyK::F64 | TyK::F32 => {
                                let mut st = std::str::from_utf8(w).unwrap().to_string();
                                // exponent with '+' splits the word: 6.0e+05
                                if self.s[self.i] == b'+' {
                                    self.i += 1;
                                    st.push('+');
                                    st.push_str(std::str::from_utf8(self.word()).unwrap());
                                }
                                let x: f64 = if let Some(h) = st.strip_prefix("0x").or(st.strip_prefix("f0x")) {
                                    if st.starts_with('f') && k == TyK::F32 {
                                        return V::C(u64::from_str_radix(h, 16).unwrap());
                                    }
                                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                                } else {
                                    match st.as_str() {
                                        "inf" | "+inf" => f64::INFINITY,
                                        "-inf" => f64::NEG_INFINITY,
                                        "nan" | "qnan" | "+qnan" | "+nan" => f64::NAN,
                                        "-qnan" | "-nan" => -f64::NAN,
                                        _ => st.parse().unwrap_or_else(|_| self.fail("float const")),
                                    }
                                };
                                if k == TyK::F64 {
                                    V::C(x.to_bits())
                                } else {
                                    V::C((x as f32).to_bits() as u64)
                                }
                            }
                            _ => self.fail(&format!("constant {:?}", String::from_utf8_lossy(w))),
                        }
                    }
                }
            }
        }
    }
    /// skip parameter attributes
    fn pattrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                self.i -= 1;
                let _ = self.name();
                if self.s[self.i] == b'=' {
                    self.i += 1;
                    let _ = self.name();
                }
                continue;
            }
            let w = self.peek_word();
            if w.is_empty() {
                return;
            }
            match w {
                b"align" => {
                    self.i += w.len();
                    if self.peek() == b'(' {
                        self.parens()
                    } else {
                        self.word();
                    }
                }
                b"noundef" | b"nonnull" | b"noalias" | b"nofree" | b"readonly" | b"writeonly" | b"readnone" | b"nocapture" | b"signext"
                | b"zeroext" | b"inreg" | b"returned" | b"immarg" | b"nest" | b"swiftself" | b"writable" | b"dead_on_unwind"
                | b"dead_on_return" | b"noext" | b"allocptr" | b"allocalign" | b"noundef_if" => {
                    self.i += w.len();
                    if w == b"dead_on_return" && self.s[self.i] == b'(' {
                        self.parens();
                    }
                }
                b"captures" | b"dereferenceable" | b"dereferenceable_or_null" | b"range" | b"nofpclass" | b"initializes" | b"sret"
                | b"byval" | b"byref" | b"elementtype" | b"inalloca" | b"preallocated" => {
                    if w == b"byval" {
                        self.fail("byval unsupported");
                    }
                    self.i += w.len();
                    self.parens();
                }
                _ => return,
            }
        }
    }
    fn label(&mut self) -> u32 {
        // "label %x"
        let w = self.word();
        if w != b"label" {
            self.fail("label");
        }
        self.lbl()
    }
    fn lbl(&mut self) -> u32 {
        self.expect(b'%');
        let n = self.name();
        match self.labels.get(n) {
            Some(&b) => b,
            None => self.fail("unknown label"),
        }
    }
    fn scalar_w(&self, t: Ty) -> u32 {
        let ts = self.m.types.borrow();
        match ts.k(t) {
            TyK::Int(w) => *w,
            TyK::Ptr | TyK::F64 => 64,
            TyK::F32 => 32,
            _ => 0,
        }
    }
    fn vec_ty(&self, t: Ty) -> Option<(u32, u32)> {
        let ts = self.m.types.borrow();
        match ts.k(t) {
            TyK::Vec(n, e) => Some((*n, ts.bits(*e))),
            _ => None,
        }
    }
    fn setw(&mut self, d: u32, t: Ty) {
        let ts = self.m.types.borrow();
        self.widths[d as usize] = match ts.k(t) {
            TyK::Int(w) => *w as u16,
            TyK::Ptr => 64 | 0x8000,
            TyK::F64 => 64 | 0x4000,
            TyK::F32 => 32 | 0x4000,
            _ => 0,
        };
    }
    fn flags(&mut self) {
        loop {
            let w = self.peek_word();
            match w {
                b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"samesign" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract"
                | b"afn" | b"reassoc" | b"inbounds" | b"nusw" | b"volatile" => {
                    self.i += w.len();
                }
                _ => return,
            }
        }
    }
    fn call(&mut self, d: u32, invoke: bool) -> I {
        // calling convention & return attributes
        loop {
            let w = self.peek_word();
            match w {
                b"fastcc" | b"coldcc" | b"ccc" | b"tailcc" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"preserve_mostcc" | b"nofpclass"
                    if w != b"nofpclass" =>
                {
                    self.i += w.len();
                }
                _ => break,
            }
        }
        self.pattrs();
        let ret = self.ty();
        if d != NONE {
            self.setw(d, ret);
        }
        let mut asm = false;
        let mut callee: Option<Callee> = None;
        if self.peek() == b'@' {
            self.i += 1;
            let n = self.name();
            if n.starts_with(b"llvm.") {
                callee = Some(Callee::Intr(Rc::from(std::str::from_utf8(n).unwrap())));
            } else {
                let nn = String::from_utf8_lossy(n).to_string();
                match self.m.fn_by_name.get(&nn) {
                    Some(&f) => callee = Some(Callee::Fn(f)),
                    None => self.fail("unknown callee"),
                }
            }
        } else if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            callee = Some(Callee::Ind(O::R(self.reg(n))));
        } else {
            let w = self.word();
            if w == b"asm" {
                asm = true;
                // asm flags and two strings
                while self.peek() != b'"' {
                    self.word();
                }
                let _ = self.name();
                self.expect(b',');
                self.ws();
                let _ = self.name();
            } else if w == b"inttoptr" {
                self.expect(b'(');
                let t = self.ty();
                let v = self.cval(t);
                self.word();
                self.ty();
                self.expect(b')');
                callee = Some(Callee::Ind(O::K(v)));
            } else {
                self.fail("callee");
            }
        }
        if asm {
            callee = Some(Callee::Asm);
        }
        self.expect(b'(');
        let mut args = vec![];
        let mut argtys = vec![];
        if !self.eat(b')') {
            loop {
                let t = self.ty();
                let meta = *self.m.types.borrow().k(t) == TyK::Meta;
                if meta {
                    // skip metadata operand
                    let mut depth = 0;
                    loop {
                        let c = self.s[self.i];
                        if depth == 0 && (c == b',' || c == b')') {
                            break;
                        }
                        if c == b'(' {
                            depth += 1
                        }
                        if c == b')' {
                            depth -= 1
                        }
                        self.i += 1;
                    }
                    args.push(O::K(V::U));
                } else {
                    self.pattrs();
                    args.push(self.op(t));
                }
                argtys.push(t);
                if self.eat(b')') {
                    break;
                }
                self.expect(b',');
            }
        }
        let mut normal = NONE;
        if invoke {
            // skip attributes until 'to'
            loop {
                self.ws();
                if self.s[self.i] == b'#' {
                    self.i += 1;
                    self.word();
                } else if self.s[self.i] == b'[' {
                    while self.s[self.i] != b']' {
                        self.i += 1;
                    }
                    self.i += 1;
                } else {
                    let w = self.word();
                    if w == b"to" {
                        break;
                    }
                    if w.is_empty() {
                        self.fail("invoke");
                    }
                }
            }
            normal = self.label();
            let w = self.word();
            assert!(w == b"unwind");
            self.label();
        }
        I::Call(Box::new(CallI { d, callee: callee.unwrap(), args, argtys, ret, normal }))
    }
    fn inst(&mut self) -> Option<I> {
        let mut d = NONE;
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            d = self.reg(n);
            self.expect(b'=');
        }
        let w = self.word();
        let r = match w {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"shl" | b"lshr" | b"ashr" | b"and" | b"or" | b"xor" => {
                self.flags();
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let b = self.op(t);
                self.setw(d, t);
                let o = match w {
                    b"add" => B::Add,
                    b"sub" => B::Sub,
                    b"mul" => B::Mul,
                    b"udiv" => B::UDiv,
                    b"sdiv" => B::SDiv,
                    b"urem" => B::URem,
                    b"srem" => B::SRem,
                    b"shl" => B::Shl,
                    b"lshr" => B::LShr,
                    b"ashr" => B::AShr,
                    b"and" => B::And,
                    b"or" => B::Or,
                    _ => B::Xor,
                };
                match self.vec_ty(t) {
                    Some((_, ew)) => I::VBin(o, ew, d, a, b),
                    None => I::Bin(o, self.scalar_w(t), d, a, b),
                }
            }
            b"icmp" => {
                self.flags();
                let p = match self.word() {
                    b"eq" => P::Eq,
                    b"ne" => P::Ne,
                    b"ugt" => P::Ugt,
                    b"uge" => P::Uge,
                    b"ult" => P::Ult,
                    b"ule" => P::Ule,
                    b"sgt" => P::Sgt,
                    b"sge" => P::Sge,
                    b"slt" => P::Slt,
                    b"sle" => P::Sle,
                    _ => self.fail("icmp pred"),
                };
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let b = self.op(t);
                match self.vec_ty(t) {
                    Some((_, ew)) => I::VIcmp(p, ew, d, a, b),
                    None => {
                        self.widths[d as usize] = 1;
                        I::Icmp(p, self.scalar_w(t), d, a, b)
                    }
                }
            }
            b"trunc" | b"zext" | b"sext" | b"ptrtoint" | b"inttoptr" | b"uitofp" | b"sitofp" | b"fptoui" | b"fptosi" | b"fptrunc" | b"fpext"
            | b"bitcast" | b"ptrtoaddr" => {
                self.flags();
                let ft = self.ty();
                let a = self.op(ft);
                let kw = self.word();
                if kw != b"to" {
                    self.fail("cast to");
                }
                let tt = self.ty();
                self.setw(d, tt);
                if w == b"bitcast" {
                    I::Bitcast(ft, tt, d, a)
                } else {
                    let (fw, tw, vec) = match (self.vec_ty(ft), self.vec_ty(tt)) {
                        (Some((_, a)), Some((_, b))) => (a, b, true),
                        _ => (self.scalar_w(ft), self.scalar_w(tt), false),
                    };
                    let o = match w {
                        b"trunc" => CastOp::Trunc,
                        b"zext" => CastOp::ZExt,
                        b"sext" => CastOp::SExt,
                        b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" => {
                            if tw < fw {
                                CastOp::Trunc
                            } else {
                                CastOp::ZExt
                            }
                        }
                        b"uitofp" => CastOp::UiToFp,
                        b"sitofp" => CastOp::SiToFp,
                        b"fptoui" => CastOp::FpToUi,
                        b"fptosi" => CastOp::FpToSi,
                        b"fptrunc" => CastOp::FpTrunc,
                        _ => CastOp::FpExt,
                    };
                    if vec {
                        I::VCast(o, fw, tw, d, a)
                    } else {
                        I::Cast(o, fw, tw, d, a)
                    }
                }
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                self.flags();
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let b = self.op(t);
                self.setw(d, t);
                let o = match w {
                    b"fadd" => FB::Add,
                    b"fsub" => FB::Sub,
                    b"fmul" => FB::Mul,
                    b"fdiv" => FB::Div,
                    _ => FB::Rem,
                };
                if self.vec_ty(t).is_some() {
                    I::Unsupported("vector fp".into())
                } else {
                    I::FBin(o, self.scalar_w(t), d, a, b)
                }
            }
            b"fneg" => {
                self.flags();
                let t = self.ty();
                let a = self.op(t);
                self.setw(d, t);
                I::FNeg(self.scalar_w(t), d, a)
            }
            b"fcmp" => {
                self.flags();
                let p = match self.word() {
                    b"false" => 0,
                    b"oeq" => 1,
                    b"ogt" => 2,
                    b"oge" => 3,
                    b"olt" => 4,
                    b"ole" => 5,
                    b"one" => 6,
                    b"ord" => 7,
                    b"uno" => 8,
                    b"ueq" => 9,
                    b"ugt" => 10,
                    b"uge" => 11,
                    b"ult" => 12,
                    b"ule" => 13,
                    b"une" => 14,
                    b"true" => 15,
                    _ => self.fail("fcmp"),
                };
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let b = self.op(t);
                self.widths[d as usize] = 1;
                if self.vec_ty(t).is_some() {
                    I::Unsupported("vector fcmp".into())
                } else {
                    I::Fcmp(p, self.scalar_w(t), d, a, b)
                }
            }
            b"select" => {
                self.flags();
                let ct = self.ty();
                let c = self.op(ct);
                self.expect(b',');
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.op(t2);
                self.setw(d, t);
                if self.vec_ty(ct).is_some() {
                    let ew = self.vec_ty(t).unwrap().1;
                    I::VSelect(d, c, a, b, ew)
                } else {
                    I::Select(d, c, a, b, self.scalar_w(t))
                }
            }
            b"load" => {
                self.eat_word(b"atomic");
                self.flags();
                let t = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let p = self.op(pt);
                self.setw(d, t);
                I::Load(d, t, p)
            }
            b"store" => {
                self.eat_word(b"atomic");
                self.flags();
                let t = self.ty();
                let v = self.op(t);
                self.expect(b',');
                let pt = self.ty();
                let p = self.op(pt);
                I::Store(t, v, p)
            }
            b"getelementptr" => {
                self.flags();
                let st = self.ty();
                self.expect(b',');
                let pt = self.ty();
                if self.vec_ty(pt).is_some() {
                    self.fail("vector gep");
                }
                let base = self.op(pt);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = st;
                let mut first = true;
                loop {
                    // stop at metadata
                    self.ws_inline();
                    if self.s[self.i] != b',' {
                        break;
                    }
                    let save = self.i;
                    self.i += 1;
                    if self.peek() == b'!' {
                        self.i = save;
                        break;
                    }
                    let it = self.ty();
                    let iw = self.scalar_w(it);
                    let o = self.op(it);
                    let scale;
                    if first {
                        scale = self.m.types.borrow().size(cur) as i64;
                        first = false;
                    } else {
                        let k = self.m.types.borrow().k(cur).clone();
                        match k {
                            TyK::Arr(_, e) | TyK::Vec(_, e) => {
                                scale = self.m.types.borrow().size(e) as i64;
                                cur = e;
                            }
                            TyK::Struct(f, _) => {
                                let n = match &o {
                                    O::K(V::C(n)) => *n as usize,
                                    _ => self.fail("struct gep"),
                                };
                                off += self.m.types.borrow().v[cur as usize].offs[n] as i64;
                                cur = f[n];
                                continue;
                            }
                            _ => self.fail("gep type"),
                        }
                    }
                    match &o {
                        O::K(V::C(n)) => {
                            let n = if iw < 64 { ((*n as i64) << (64 - iw)) >> (64 - iw) } else { *n as i64 };
                            off += n * scale
                        }
                        _ => idx.push((o, iw, scale)),
                    }
                }
                self.setw(d, pt);
                I::Gep(d, base, idx, off)
            }
            b"alloca" => {
                self.eat_word(b"inalloca");
                let t = self.ty();
                let mut n = None;
                let ts = self.m.types.borrow();
                let (size, mut al) = (ts.v[t as usize].size, ts.v[t as usize].align);
                drop(ts);
                loop {
                    self.ws_inline();
                    if self.s[self.i] != b',' {
                        break;
                    }
                    self.i += 1;
                    if self.peek() == b'!' {
                        break;
                    }
                    if self.eat_word(b"align") {
                        al = self.int() as u64;
                    } else if self.peek_word() == b"addrspace" {
                        self.fail("addrspace");
                    } else {
                        let it = self.ty();
                        n = Some(self.op(it));
                    }
                }
                self.widths[d as usize] = 64 | 0x8000;
                I::Alloca(d, size, al, n)
            }
            b"tail" | b"musttail" | b"notail" => {
                self.word();
                self.call(d, false)
            }
            b"call" => self.call(d, false),
            b"invoke" => self.call(d, true),
            b"extractvalue" => {
                let t = self.ty();
                let a = self.op(t);
                let mut ix = vec![];
                let mut cur = t;
                loop {
                    self.ws_inline();
                    if self.s[self.i] != b',' {
                        break;
                    }
                    let save = self.i;
                    self.i += 1;
                    if self.peek() == b'!' {
                        self.i = save;
                        break;
                    }
                    let n = self.int() as u32;
                    ix.push(n);
                    let k = self.m.types.borrow().k(cur).clone();
                    cur = match k {
                        TyK::Struct(f, _) => f[n as usize],
                        TyK::Arr(_, e) => e,
                        _ => self.fail("extractvalue"),
                    };
                }
                self.setw(d, cur);
                I::Extract(d, a, ix)
            }
            b"insertvalue" => {
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let vt = self.ty();
                let v = self.op(vt);
                let mut ix = vec![];
                loop {
                    self.ws_inline();
                    if self.s[self.i] != b',' {
                        break;
                    }
                    let save = self.i;
                    self.i += 1;
                    if self.peek() == b'!' {
                        self.i = save;
                        break;
                    }
                    ix.push(self.int() as u32);
                }
                I::Insert(d, a, v, ix)
            }
            b"extractelement" => {
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let it = self.ty();
                let i = self.op(it);
                let ew = self.vec_ty(t).unwrap().1;
                self.widths[d as usize] = ew as u16;
                I::ExtractElem(d, a, i)
            }
            b"insertelement" => {
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let vt = self.ty();
                let v = self.op(vt);
                self.expect(b',');
                let it = self.ty();
                let i = self.op(it);
                I::InsertElem(d, a, v, i)
            }
            b"shufflevector" => {
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.op(t2);
                self.expect(b',');
                let mt = self.ty();
                let m = self.cval(mt);
                let mask = match m {
                    V::A(v) => v
                        .iter()
                        .map(|x| match x {
                            V::C(n) => *n as i32,
                            _ => -1,
                        })
                        .collect(),
                    _ => self.fail("mask"),
                };
                I::Shuffle(d, a, b, mask)
            }
            b"cmpxchg" => {
                self.eat_word(b"weak");
                self.flags();
                let pt = self.ty();
                let p = self.op(pt);
                self.expect(b',');
                let t = self.ty();
                let c = self.op(t);
                self.expect(b',');
                let t2 = self.ty();
                let n = self.op(t2);
                I::Cmpxchg(d, t, p, c, n)
            }
            b"atomicrmw" => {
                self.flags();
                let o = match self.word() {
                    b"xchg" => RmwOp::Xchg,
                    b"add" => RmwOp::Add,
                    b"sub" => RmwOp::Sub,
                    b"and" => RmwOp::And,
                    b"or" => RmwOp::Or,
                    b"xor" => RmwOp::Xor,
                    b"nand" => RmwOp::Nand,
                    b"max" => RmwOp::Max,
                    b"min" => RmwOp::Min,
                    b"umax" => RmwOp::UMax,
                    b"umin" => RmwOp::UMin,
                    _ => self.fail("atomicrmw"),
                };
                let pt = self.ty();
                let p = self.op(pt);
                self.expect(b',');
                let t = self.ty();
                let v = self.op(t);
                self.setw(d, t);
                I::Rmw(o, d, t, p, v)
            }
            b"fence" => I::Nop,
            b"freeze" => {
                let t = self.ty();
                let a = self.op(t);
                self.setw(d, t);
                I::Copy(d, a)
            }
            b"landingpad" => {
                self.ty();
                I::Unsupported("landingpad".into())
            }
            b"cleanup" | b"catch" | b"filter" => return None,
            b"resume" => I::Unreachable,
            b"unreachable" => I::Unreachable,
            b"ret" => {
                let t = self.ty();
                if *self.m.types.borrow().k(t) == TyK::Void {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.op(t)))
                }
            }
            b"br" => {
                if self.peek_word() == b"label" {
                    I::Br(self.label())
                } else {
                    let t = self.ty();
                    let c = self.op(t);
                    self.expect(b',');
                    let a = self.label();
                    self.expect(b',');
                    let b = self.label();
                    I::CondBr(c, a, b)
                }
            }
            b"switch" => {
                let t = self.ty();
                let v = self.op(t);
                self.expect(b',');
                let df = self.label();
                self.expect(b'[');
                let mut cases = vec![];
                while !self.eat(b']') {
                    let ct = self.ty();
                    let c = match self.cval(ct) {
                        V::C(x) => x as u128,
                        V::S(e) => match crate::expr::const_val(e) {
                            Some(x) => x,
                            None => self.fail("switch case"),
                        },
                        _ => self.fail("switch case"),
                    };
                    self.expect(b',');
                    let l = self.label();
                    cases.push((c, l));
                }
                I::Switch(v, self.scalar_w(t), df, cases)
            }
            _ => self.fail(&format!("opcode {}", String::from_utf8_lossy(w))),
        };
        Some(r)
    }
    fn ws_inline(&mut self) {
        while self.s[self.i] == b' ' {
            self.i += 1;
        }
    }
    /// write constant of type t to buf at off
    fn write_const(&mut self, t: Ty, buf: &mut [u8], off: usize) {
        let k = self.m.types.borrow().k(t).clone();
        let c = self.peek();
        match &k {
            TyK::Struct(f, _) => {
                if c == b'<' || c == b'{' {
                    if c == b'<' {
                        self.i += 1;
                    }
                    self.expect(b'{');
                    let offs = self.m.types.borrow().v[t as usize].offs.clone();
                    for (j, _) in f.iter().enumerate() {
                        if j > 0 {
                            self.expect(b',');
                        }
                        let ft = self.ty();
                        self.write_const(ft, buf, off + offs[j] as usize);
                    }
                    self.expect(b'}');
                    if c == b'<' {
                        self.expect(b'>');
                    }
                } else {
                    self.word();
                }
            }
            TyK::Arr(n, e) => {
                if c == b'c' {
                    self.i += 1;
                    let b = unescape(self.name());
                    buf[off..off + b.len()].copy_from_slice(&b);
                } else if c == b'[' {
                    self.i += 1;
                    let es = self.m.types.borrow().size(*e) as usize;
                    for j in 0..*n as usize {
                        if j > 0 {
                            self.expect(b',');
                        }
                        let et = self.ty();
                        self.write_const(et, buf, off + j * es);
                    }
                    self.expect(b']');
                } else {
                    self.word();
                }
            }
            _ => {
                let v = self.cval(t);
                let ts = self.m.types.borrow();
                fn put(ts: &Types, t: Ty, v: &V, buf: &mut [u8], off: usize) {
                    match v {
                        V::U => {}
                        V::C(x) => {
                            let n = (ts.bits(t) as usize + 7) / 8;
                            buf[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                        }
                        V::S(e) => {
                            let x = expr::const_val(*e).unwrap();
                            let n = (ts.bits(t) as usize + 7) / 8;
                            buf[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                        }
                        V::A(l) => match ts.k(t) {
                            TyK::Vec(_, e) => {
                                let es = ts.size(*e) as usize;
                                for (j, x) in l.iter().enumerate() {
                                    put(ts, *e, x, buf, off + j * es)
                                }
                            }
                            _ => panic!("put"),
                        },
                    }
                }
                put(&ts, t, &v, buf, off);
            }
        }
    }
}

impl Module {
    pub fn addr_of(&self, n: &[u8]) -> u64 {
        let s = std::str::from_utf8(n).unwrap();
        if let Some(&a) = self.glob_by_name.get(s) {
            return a;
        }
        if let Some(&f) = self.fn_by_name.get(s) {
            return FN_BASE + 16 * f as u64;
        }
        panic!("unknown symbol @{}", s);
    }
    pub fn load(path: &str) -> Module {
        let mut text = std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        text.extend_from_slice(b"\n\n");
        let mut m = Module {
            text,
            types: RefCell::new(Types::default()),
            fns: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            glob_by_name: HashMap::new(),
            glob_end: GLOB_BASE,
        };
        let mut gl: Vec<(String, usize)> = vec![];
        let n = m.text.len();
        let mut i = 0;
        let t = &m.text;
        let mut named: Vec<(String, usize)> = vec![];
        let mut fns: Vec<FnDecl> = vec![];
        let mut fnn: HashMap<String, u32> = HashMap::new();
        let line_end = |i: usize| -> usize {
            match t[i..].iter().position(|&c| c == b'\n') {
                Some(k) => i + k,
                None => n,
            }
        };
        let fname = |i: usize, e: usize| -> String {
            let l = &t[i..e];
            let at = l.iter().position(|&c| c == b'@').unwrap();
            let r = &l[at + 1..];
            if r[0] == b'"' {
                let q = r[1..].iter().position(|&c| c == b'"').unwrap();
                String::from_utf8_lossy(&r[1..1 + q]).to_string()
            } else {
                let q = r.iter().position(|&c| !is_id(c)).unwrap();
                String::from_utf8_lossy(&r[..q]).to_string()
            }
        };
        while i < n {
            let e = line_end(i);
            if e > i {
                match t[i] {
                    b'@' => {
                        let l = &t[i..e];
                        let (nm, rest) = if l[1] == b'"' {
                            let q = l[2..].iter().position(|&c| c == b'"').unwrap();
                            (String::from_utf8_lossy(&l[2..2 + q]).to_string(), i + 2 + q + 1)
                        } else {
                            let q = l[1..].iter().position(|&c| !is_id(c)).unwrap();
                            (String::from_utf8_lossy(&l[1..1 + q]).to_string(), i + 1 + q)
                        };
                        gl.push((nm, rest));
                    }
                    b'%' => {
                        let l = &t[i..e];
                        if l[1] == b'"' {
                            let q = l[2..].iter().position(|&c| c == b'"').unwrap();
                            named.push((String::from_utf8_lossy(&l[2..2 + q]).to_string(), i + 2 + q + 1));
                        } else {
                            let q = l[1..].iter().position(|&c| !is_id(c)).unwrap();
                            named.push((String::from_utf8_lossy(&l[1..1 + q]).to_string(), i + 1 + q));
                        }
                    }
                    b'd' => {
                        let isdef = t[i..e].starts_with(b"define");
                        let isdecl = t[i..e].starts_with(b"declare");
                        if isdef || isdecl {
                            let nm = fname(i, e);
                            let id = fns.len() as u32;
                            let mut span = None;
                            if isdef {
                                // find "\n}\n"
                                let mut j = e;
                                loop {
                                    if t[j + 1] == b'}' {
                                        break;
                                    }
                                    j = line_end(j + 1);
                                }
                                span = Some((i, j + 1));
                                i = j + 2;
                            }
                            fns.push(FnDecl { name: Rc::from(nm.as_str()), span, func: RefCell::new(None) });
                            fnn.insert(nm, id);
                            if isdef {
                                continue;
                            }
                        }
                    }
                    _ => {}
                }
            }
            i = e + 1;
        }
        m.fns = fns;
        m.fn_by_name = fnn;
        for (nm, pos) in named {
            let mut p = Ps::new(&m, pos);
            p.expect(b'=');
            let w = p.word();
            assert!(w == b"type");
            if p.peek_word() == b"opaque" {
                continue;
            }
            let t = p.ty();
            m.types.borrow_mut().named.insert(nm, t);
        }
        // globals: addresses first
        let mut infos = vec![];
        let mut aliases: Vec<(String, usize)> = vec![];
        let mut addr = GLOB_BASE;
        for (nm, pos) in gl {
            let mut p = Ps::new(&m, pos);
            p.expect(b'=');
            let mut ext = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                if p.peek() == b'(' {
                    p.parens();
                    continue;
                }
                let w = p.word();
                match w {
                    b"constant" => {
                        constant = true;
                        break;
                    }
                    b"global" => break,
                    b"external" | b"extern_weak" => ext = true,
                    b"alias" => {
                        alias = true;
                        break;
                    }
                    b"ifunc" => panic!("ifunc"),
                    b"" => p.fail("global"),
                    _ => {}
                }
            }
            if alias {
                p.ty();
                p.expect(b',');
                aliases.push((nm, p.i));
                continue;
            }
            let t = p.ty();
            let (size, al) = {
                let ts = m.types.borrow();
                (ts.size(t), ts.v[t as usize].align)
            };
            addr = up(addr, al.max(16));
            infos.push(Global { name: nm, addr, ty: t, init: if ext { None } else { Some(p.i) }, size, constant });
            addr += size + 16;
        }
        for g in infos {
            // extern_weak symbols are null
            let a = if g.init.is_none() { 0 } else { g.addr };
            m.glob_by_name.insert(g.name.clone(), a);
            m.globals.push(g);
        }
        for (nm, pos) in aliases {
            let a = {
                let mut p = Ps::new(&m, pos);
                let t = p.ty();
                match p.cval(t) {
                    V::C(a) => a,
                    _ => panic!("alias"),
                }
            };
            m.glob_by_name.insert(nm, a);
        }
        m.glob_end = up(addr, 4096);
        m
    }
    pub fn init_bytes(&self, g: &Global) -> Vec<u8> {
        let mut b = vec![0u8; g.size as usize];
        if let Some(pos) = g.init {
            if g.name.starts_with("llvm.") {
                return b;
            }
            let mut p = Ps::new(self, pos);
            p.write_const(g.ty, &mut b, 0);
        }
        b
    }
    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        let d = &self.fns[id as usize];
        let span = d.span?;
        if let Some(f) = d.func.borrow().as_ref() {
            return Some(f.clone());
        }
        let f = Rc::new(self.parse_fn(id, &d.name, span));
        *d.func.borrow_mut() = Some(f.clone());
        Some(f)
    }
    fn parse_fn(&self, id: u32, name: &Rc<str>, span: (usize, usize)) -> Func {
        let mut p = Ps::new(self, span.0);
        // header: find '@name('
        while p.s[p.i] != b'@' {
            p.i += 1;
        }
        p.i += 1;
        p.name();
        p.expect(b'(');
        let mut nparams = 0;
        if !p.eat(b')') {
            loop {
                if p.s[p.i..].starts_with(b"...") {
                    p.i += 3;
                    p.expect(b')');
                    break;
                }
                let t = p.ty();
                p.pattrs();
                p.expect(b'%');
                let n = p.name();
                let r = p.reg(n);
                p.setw(r, t);
                nparams += 1;
                if p.eat(b')') {
                    break;
                }
                p.expect(b',');
            }
        }
        // to the body
        while p.s[p.i] != b'\n' {
            p.i += 1;
        }
        p.i += 1;
        let body = p.i;
        // collect labels
        let mut nblocks = 0u32;
        let mut i = body;
        let s: &[u8] = p.s;
        let mut first = true;
        let entry_name: Vec<u8> = format!("{}", nparams).into_bytes();
        let mut entry_named = false;
        while i < span.1 {
            let mut e = i;
            while s[e] != b'\n' {
                e += 1;
            }
            let l = &s[i..e];
            if !l.is_empty() && l[0] != b' ' && l[0] != b';' && l[0] != b'}' && l[0] != b'\t' {
                let nm: &[u8] = if l[0] == b'"' {
                    let q = l[1..].iter().position(|&c| c == b'"').unwrap();
                    &l[1..1 + q]
                } else {
                    let q = l.iter().position(|&c| c == b':').unwrap_or(0);
                    &l[..q]
                };
                if !nm.is_empty() {
                    if first {
                        entry_named = true;
                    } else if nblocks == 0 {
                        nblocks = 1;
                    }
                    p.labels.insert(nm, nblocks);
                    nblocks += 1;
                }
                first = false;
            } else if !l.is_empty() && l[0] != b';' {
                first = false;
            }
            i = e + 1;
        }
        if nblocks == 0 {
            nblocks = 1;
        }
        let en: &'static [u8] = Box::leak(entry_name.into_boxed_slice());
        if !entry_named {
            p.labels.entry(en).or_insert(0);
        }
        let mut blocks: Vec<Block> = (0..nblocks).map(|_| Block::default()).collect();
        let mut cur = 0u32;
        let mut started = !entry_named;
        p.i = body;
        while p.i < span.1 {
            let c = p.s[p.i];
            if c == b'\n' {
                p.i += 1;
                continue;
            }
            if c == b'}' {
                break;
            }
            if c == b';' {
                p.eol();
                continue;
            }
            if c != b' ' && c != b'\t' {
                // label line
                if !started {
                    started = true;
                } else {
                    cur += 1;
                }
                p.eol();
                continue;
            }
            p.ws_inline();
            if p.s[p.i] == b'#' {
                p.eol();
                continue;
            }
            if p.s[p.i] == b';' || p.s[p.i] == b'\n' {
                p.eol();
                continue;
            }
            // phi?
            let save = p.i;
            if p.s[p.i] == b'%' {
                p.i += 1;
                let n = p.name();
                p.expect(b'=');
                if p.eat_word(b"phi") {
                    p.flags();
                    let d = p.reg(n);
                    let t = p.ty();
                    p.setw(d, t);
                    let mut inc = vec![];
                    loop {
                        p.expect(b'[');
                        let v = p.op(t);
                        p.expect(b',');
                        let l = p.lbl();
                        p.expect(b']');
                        inc.push((l, v));
                        p.ws_inline();
                        if p.s[p.i] != b',' {
                            break;
                        }
                        let sv = p.i;
                        p.i += 1;
                        if p.peek() != b'[' {
                            p.i = sv;
                            break;
                        }
                    }
                    let w = p.scalar_w(t);
                    blocks[cur as usize].phis.push((d, inc, w));
                    p.eol();
                    continue;
                }
                p.i = save;
            }
            if let Some(x) = p.inst() {
                blocks[cur as usize].insts.push(x);
            }
            // rest of line (attributes, metadata)
            p.eol();
        }
        let mut f = Func {
            id,
            name: name.clone(),
            nparams,
            nregs: p.nregs,
            widths: p.widths,
            blocks,
            wto: Default::default(),
            live_in: RefCell::new(vec![]),
            live_sets: vec![],
        };
        analyse(&mut f);
        f
    }
}

pub fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last() {
        Some(I::Br(a)) => vec![*a],
        Some(I::CondBr(_, a, c)) => vec![*a, *c],
        Some(I::Switch(_, _, d, cs)) => {
            let mut v = vec![*d];
            v.extend(cs.iter().map(|x| x.1));
            v.sort();
            v.dedup();
            v
        }
        Some(I::Call(c)) if c.normal != NONE => vec![c.normal],
        _ => vec![],
    }
}
pub fn defs_uses(i: &I, mut f: impl FnMut(bool, u32)) {
    fn o(x: &O, f: &mut dyn FnMut(bool, u32)) {
        if let O::R(r) = x {
            f(false, *r)
        }
    }
    let f: &mut dyn FnMut(bool, u32) = &mut f;
    match i {
        I::Bin(_, _, d, a, b) | I::VBin(_, _, d, a, b) | I::Icmp(_, _, d, a, b) | I::VIcmp(_, _, d, a, b) | I::FBin(_, _, d, a, b) | I::Fcmp(_, _, d, a, b) => {
            o(a, f);
            o(b, f);
            f(true, *d)
        }
        I::Cast(_, _, _, d, a) | I::VCast(_, _, _, d, a) | I::Bitcast(_, _, d, a) | I::FNeg(_, d, a) | I::Copy(d, a) | I::Load(d, _, a) => {
            o(a, f);
            f(true, *d)
        }
        I::Select(d, c, a, b, _) | I::VSelect(d, c, a, b, _) => {
            o(c, f);
            o(a, f);
            o(b, f);
            f(true, *d)
        }
        I::Store(_, v, p) => {
            o(v, f);
            o(p, f)
        }
        I::Gep(d, b, ix, _) => {
            o(b, f);
            for (x, _, _) in ix {
                o(x, f)
            }
            f(true, *d)
        }
        I::Alloca(d, _, _, n) => {
            if let Some(n) = n {
                o(n, f)
            }
            f(true, *d)
        }
        I::Call(c) => {
            if let Callee::Ind(x) = &c.callee {
                o(x, f)
            }
            for a in &c.args {
                o(a, f)
            }
            if c.d != NONE {
                f(true, c.d)
            }
        }
        I::Extract(d, a, _) => {
            o(a, f);
            f(true, *d)
        }
        I::Insert(d, a, v, _) => {
            o(a, f);
            o(v, f);
            f(true, *d)
        }
        I::ExtractElem(d, a, i) => {
            o(a, f);
            o(i, f);
            f(true, *d)
        }
        I::InsertElem(d, a, v, i) => {
            o(a, f);
            o(v, f);
            o(i, f);
            f(true, *d)
        }
        I::Shuffle(d, a, b, _) => {
            o(a, f);
            o(b, f);
            f(true, *d)
        }
        I::Cmpxchg(d, _, p, c, n) => {
            o(p, f);
            o(c, f);
            o(n, f);
            f(true, *d)
        }
        I::Rmw(_, d, _, p, v) => {
            o(p, f);
            o(v, f);
            if *d != NONE {
                f(true, *d)
            }
        }
        I::CondBr(c, _, _) => o(c, f),
        I::Switch(v, _, _, _) => o(v, f),
        I::Ret(Some(v)) => o(v, f),
        _ => {}
    }
}

fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let su: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    // liveness
    let words = (f.nregs as usize + 63) / 64;
    let mut use_: Vec<Vec<u64>> = vec![vec![0; words]; n];
    let mut def: Vec<Vec<u64>> = vec![vec![0; words]; n];
    let mut phiuse: Vec<Vec<u64>> = vec![vec![0; words]; n]; // at end of pred
    for b in 0..n {
        let (u, d) = (&mut use_[b], &mut def[b]);
        for x in &f.blocks[b].insts {
            let mut ds = NONE;
            defs_uses(x, |isd, r| {
                if isd {
                    ds = r;
                } else if d[r as usize / 64] >> (r % 64) & 1 == 0 {
                    u[r as usize / 64] |= 1 << (r % 64);
                }
            });
            if ds != NONE {
                d[ds as usize / 64] |= 1 << (ds % 64);
            }
        }
        for (_, inc, _) in &f.blocks[b].phis {
            for (p, v) in inc {
                if let O::R(r) = v {
                    phiuse[*p as usize][*r as usize / 64] |= 1 << (r % 64);
                }
            }
        }
    }
    let mut li: Vec<Vec<u64>> = use_.clone(); // live at start after phis
    let mut ch = true;
    while ch {
        ch = false;
        for b in (0..n).rev() {
            let mut out = phiuse[b].clone();
            for &s in &su[b] {
                // live-in of s minus its phi defs
                let mut t = li[s as usize].clone();
                for (d, _, _) in &f.blocks[s as usize].phis {
                    t[*d as usize / 64] &= !(1 << (d % 64));
                }
                for k in 0..words {
                    out[k] |= t[k];
                }
            }
            for k in 0..words {
                let nv = use_[b][k] | (out[k] & !def[b][k]);
                if nv != li[b][k] {
                    li[b][k] |= nv;
                    ch = true;
                }
            }
        }
    }
    f.live_sets = li;
    *f.live_in.borrow_mut() = vec![None; n];
}
impl Func {
    pub fn live(&self, b: u32) -> Rc<Vec<u32>> {
        if let Some(x) = &self.live_in.borrow()[b as usize] {
            return x.clone();
        }
        let s = &self.live_sets[b as usize];
        let mut v = vec![];
        for r in 0..self.nregs {
            if s[r as usize / 64] >> (r % 64) & 1 == 1 {
                v.push(r);
            }
        }
        let v = Rc::new(v);
        self.live_in.borrow_mut()[b as usize] = Some(v.clone());
        v
    }
}

/// Bourdoncle's weak topological order: every loop is a contiguous component; within a component
/// the head sorts last, so that a loop's next iteration starts only when the current one is over.
struct Wto<'a> {
    su: &'a [Vec<u32>],
    dfn: Vec<u32>,
    num: u32,
    stack: Vec<u32>,
}
enum El {
    V(u32),
    C(u32, Vec<El>),
}
impl<'a> Wto<'a> {
    fn visit(&mut self, v: u32, part: &mut Vec<El>) -> u32 {
        self.stack.push(v);
        self.num += 1;
        self.dfn[v as usize] = self.num;
        let mut head = self.num;
        let mut lp = false;
        for i in 0..self.su[v as usize].len() {
            let s = self.su[v as usize][i];
            let min = if self.dfn[s as usize] == 0 { self.visit(s, part) } else { self.dfn[s as usize] };
            if min <= head {
                head = min;
                lp = true;
            }
        }
        if head == self.dfn[v as usize] {
            self.dfn[v as usize] = u32::MAX;
            let mut e = self.stack.pop().unwrap();
            if lp {
                while e != v {
                    self.dfn[e as usize] = 0;
                    e = self.stack.pop().unwrap();
                }
                let mut body = vec![];
                for i in 0..self.su[v as usize].len() {
                    let s = self.su[v as usize][i];
                    if self.dfn[s as usize] == 0 {
                        self.visit(s, &mut body);
                    }
                }
                part.push(El::C(v, body));
            } else {
                part.push(El::V(v));
            }
        }
        head
    }
}
fn wto_keys(part: Vec<El>, prefix: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
    // parts are in reverse order
    for (i, e) in part.into_iter().rev().enumerate() {
        prefix.push(i as u32);
        match e {
            El::V(v) => out[v as usize] = prefix.clone(),
            El::C(h, b) => {
                prefix.push(u32::MAX);
                out[h as usize] = prefix.clone();
                prefix.pop();
                wto_keys(b, prefix, out);
            }
        }
        prefix.pop();
    }
}
impl Func {
    fn wto(&self) -> &(Vec<Vec<u32>>, Vec<bool>) {
        self.wto.get_or_init(|| {
            let n = self.blocks.len();
            let su: Vec<Vec<u32>> = self.blocks.iter().map(succs).collect();
            let mut preds = vec![0u32; n];
            for l in &su {
                for &t in l {
                    preds[t as usize] += 1;
                }
            }
            let mut w = Wto { su: &su, dfn: vec![0; n], num: 0, stack: vec![] };
            let mut part = vec![];
            w.visit(0, &mut part);
            let mut keys = vec![vec![]; n];
            wto_keys(part, &mut vec![], &mut keys);
            (keys, preds.iter().map(|&p| p >= 2).collect())
        })
    }
    pub fn order(&self, b: u32) -> &[u32] {
        &self.wto().0[b as usize]
    }
    pub fn join(&self, b: u32) -> bool {
        self.wto().1[b as usize]
    }
}
