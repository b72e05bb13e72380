//! Lazy parser for textual LLVM IR (as emitted by rustc after fat LTO).
use crate::term::{c, FxMap, V};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vector(u64, Rc<Ty>),
    Meta,
    Label,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(ts, p) => {
                if *p {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// store size rounded up to alignment
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vector(n, t) => {
                let bits = n * t.bits() as u64;
                (bits + 7) / 8
            }
            Ty::Struct(ts, p) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(ts, p) => {
                let mut o = 0;
                for (j, t) in ts.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field {}", i)
            }
            Ty::Arr(_, t) | Ty::Vector(_, t) => (t.size() * i as u64, (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(ts, _) => ts.len(),
            Ty::Arr(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    S(V),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn s(&self) -> V {
        match self {
            Val::S(v) => *v,
            Val::A(a) if a.len() == 1 => a[0].s(),
            _ => panic!("aggregate where scalar expected"),
        }
    }
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Void | Ty::Meta | Ty::Label => Val::S(V::C(1, 0)),
            t if t.scalar() => Val::S(V::C(t.bits(), 0)),
            t => Val::A(Rc::new((0..t.nfields()).map(|i| Val::zero(&t.field(i).1)).collect())),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    C(Val),
    R(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum K {
    Bin(BOp, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(String, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    Cast(CastK, Ty, Opd, Ty),
    Select(Ty, Opd, Ty, Opd, Opd),
    Alloca(u64, u64, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(i64, Ty, Opd)>),
    Call { callee: Callee, args: Vec<(Ty, Opd)>, ret: Ty, normal: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Opd, Opd, Vec<u32>),
    Shuffle(Opd, Opd, Vec<i64>, Ty),
    InsertElem(Opd, Opd, Opd),
    ExtractElem(Opd, Opd),
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    Freeze(Opd),
    LandingPad,
    Resume,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Opd),
    Asm(String, String),
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub res: Option<u32>,
    pub k: K,
}
#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String),
    L(String),
    G(String),
    M,
    At(String),
    S(Vec<u8>),
    N(String),
    P(char),
    NL,
    End,
}

pub struct GlobalObj {
    pub size: u64,
    pub bytes: Vec<u8>,
    pub constant: bool,
    pub name: String,
}

pub struct Module {
    text: Rc<String>,
    func_pos: FxMap<String, (usize, usize)>,
    glob_pos: FxMap<String, (usize, usize)>,
    declared: FxMap<String, ()>,
    types: FxMap<String, (usize, usize)>,
    tycache: FxMap<String, Ty>,
    funcs: FxMap<String, Rc<Func>>,
    pub fn_addr: FxMap<String, u64>,
    pub addr_fn: FxMap<u64, String>,
    g_addr: FxMap<String, u64>,
    pub globals: BTreeMap<u64, Rc<GlobalObj>>,
    pending: Vec<(String, u64)>,
    next_g: u64,
    next_f: u64,
}

fn unquote(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else if b[i] == b'\\' {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn lex(src: &str) -> Vec<T> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    let idc = |x: u8| x.is_ascii_alphanumeric() || x == b'_' || x == b'.' || x == b'$' || x == b'-';
    while i < b.len() {
        let ch = b[i];
        match ch {
            b' ' | b'\t' | b'\r' => i += 1,
            b'\n' => {
                o.push(T::NL);
                i += 1;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let name;
                if b[i + 1] == b'"' {
                    let e = src[i + 2..].find('"').unwrap() + i + 2;
                    name = String::from_utf8_lossy(&unquote(&src[i + 2..e])).to_string();
                    i = e + 1;
                } else {
                    let s = i + 1;
                    i += 1;
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    name = src[s..i].to_string();
                }
                o.push(if ch == b'%' { T::L(name) } else { T::G(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && (idc(b[i]) || b[i] == b'\\') {
                    i += 1;
                }
                o.push(T::M);
            }
            b'#' => {
                let s = i + 1;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                let n = &src[s..i];
                if n.starts_with("dbg_") {
                    while i < b.len() && b[i] != b'\n' {
                        i += 1;
                    }
                } else {
                    o.push(T::At(n.to_string()));
                }
            }
            b'"' => {
                let e = src[i + 1..].find('"').unwrap() + i + 1;
                o.push(T::S(unquote(&src[i + 1..e])));
                i = e + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let e = src[i + 2..].find('"').unwrap() + i + 2;
                o.push(T::W("c\"".into()));
                o.push(T::S(unquote(&src[i + 2..e])));
                i = e + 1;
            }
            b'-' if i + 1 < b.len() && b[i + 1].is_ascii_alphabetic() => {
                o.push(T::P('-'));
                i += 1;
            }
            b'0'..=b'9' | b'-' => {
                let s = i;
                i += 1;
                let hex = src[s..].starts_with("0x");
                while i < b.len() {
                    let x = b[i];
                    if x.is_ascii_alphanumeric() || x == b'.' || x == b'_' {
                        i += 1;
                    } else if (x == b'+' || x == b'-') && !hex && (b[i - 1] == b'e' || b[i - 1] == b'E') {
                        i += 1;
                    } else {
                        break;
                    }
                }
                o.push(T::N(src[s..i].to_string()));
            }
            x if x.is_ascii_alphabetic() || x == b'_' || x == b'.' || x == b'$' => {
                let s = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                o.push(T::W(src[s..i].to_string()));
            }
            x => {
                o.push(T::P(x as char));
                i += 1;
            }
        }
    }
    o.push(T::End);
    o
}

struct P<'a> {
    t: Vec<T>,
    i: usize,
    m: &'a mut Module,
    regs: FxMap<String, u32>,
    labels: FxMap<String, u32>,
    nlabels: u32,
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn peek(&self) -> &T {
        &self.t[self.i]
    }
    fn peek2(&self) -> &T {
        &self.t[(self.i + 1).min(self.t.len() - 1)]
    }
    fn next(&mut self) -> T {
        let x = self.t[self.i].clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        x
    }
    fn is_p(&self, ch: char) -> bool {
        *self.peek() == T::P(ch)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), T::W(x) if x == w)
    }
    fn eat_p(&mut self, ch: char) -> bool {
        if self.is_p(ch) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, ch: char) -> R<()> {
        if self.eat_p(ch) {
            Ok(())
        } else {
            self.err(&format!("expected '{}'", ch))
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn err<X>(&self, m: &str) -> R<X> {
        let s = self.i.saturating_sub(8);
        Err(format!("{} at {:?} >>> {:?}", m, &self.t[s..self.i], &self.t[self.i..(self.i + 6).min(self.t.len())]))
    }
    fn skip_nl(&mut self) {
        while *self.peek() == T::NL {
            self.i += 1;
        }
    }
    fn skip_line(&mut self) {
        while !matches!(self.peek(), T::NL | T::End) {
            self.i += 1;
        }
    }
    fn skip_balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') | T::P('[') | T::P('{') | T::P('<') => d += 1,
                T::P(')') | T::P(']') | T::P('}') | T::P('>') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::End => return,
                _ => {}
            }
        }
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            T::W(w) => {
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "metadata" | "label" | "half" | "token" | "x86_fp80" | "fp128")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
            }
            T::P('[') | T::P('{') | T::P('<') => true,
            T::L(n) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        // attribute words before a type
        loop {
            if self.is_ty() {
                return;
            }
            match self.peek() {
                T::W(_) => {
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_balanced();
                    }
                }
                T::N(_) | T::At(_) | T::S(_) | T::P('=') => self.i += 1,
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_w("addrspace") {
                        self.i += 1;
                        self.skip_balanced();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "metadata" => Ty::Meta,
                "label" | "token" => Ty::Label,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                _ => return Err(format!("unknown type {}", w)),
            },
            T::P('[') => {
                let n = self.num()? as u64;
                if !self.eat_w("x") {
                    return self.err("x");
                }
                let e = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(n, Rc::new(e))
            }
            T::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let f = self.ty_list('}')?;
                    self.exp_p('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num()? as u64;
                    if !self.eat_w("x") {
                        return self.err("x");
                    }
                    let e = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vector(n, Rc::new(e))
                }
            }
            T::P('{') => Ty::Struct(Rc::new(self.ty_list('}')?), false),
            T::L(n) => self.m.named_type(&n)?,
            x => return Err(format!("type expected, got {:?}", x)),
        };
        Ok(t)
    }
    fn ty_list(&mut self, close: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(',') {
                continue;
            }
            self.exp_p(close)?;
            return Ok(v);
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next() {
            T::N(s) => s.parse().map_err(|_| format!("number {}", s)),
            x => Err(format!("number expected, got {:?}", x)),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn label(&mut self, n: &str) -> u32 {
        let l = self.nlabels;
        let e = *self.labels.entry(n.to_string()).or_insert(l);
        if e == l {
            self.nlabels += 1;
        }
        e
    }
    fn label_ref(&mut self) -> R<u32> {
        if !self.eat_w("label") {
            return self.err("label");
        }
        match self.next() {
            T::L(n) => Ok(self.label(&n)),
            x => Err(format!("label {:?}", x)),
        }
    }
    fn is_val_start(&self) -> bool {
        match self.peek() {
            T::L(_) | T::G(_) | T::N(_) | T::M => true,
            T::P('[') | T::P('{') | T::P('<') | T::P('+') | T::P('-') => true,
            T::W(w) => matches!(
                w.as_str(),
                "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "none" | "c\"" | "getelementptr"
                    | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "splat" | "asm" | "mul"
                    | "blockaddress" | "dso_local_equivalent" | "no_cfi"
            ),
            _ => false,
        }
    }
    fn val(&mut self, t: &Ty) -> R<Opd> {
        if let T::L(n) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opd::R(self.reg(&n)));
        }
        Ok(Opd::C(self.cval(t)?))
    }
    fn cval(&mut self, t: &Ty) -> R<Val> {
        match self.next() {
            T::N(s) => match t {
                Ty::Int(w) => {
                    if let Ok(v) = s.parse::<i128>() {
                        Ok(Val::S(c(*w, v as u128)))
                    } else if let Ok(v) = s.parse::<u128>() {
                        Ok(Val::S(c(*w, v)))
                    } else {
                        Err(format!("int {}", s))
                    }
                }
                Ty::F64 | Ty::F32 => {
                    let x = if let Some(h) = s.strip_prefix("0x") {
                        let b = u64::from_str_radix(h, 16).map_err(|_| format!("float {}", s))?;
                        f64::from_bits(b)
                    } else {
                        s.parse::<f64>().map_err(|_| format!("float {}", s))?
                    };
                    if *t == Ty::F64 {
                        Ok(Val::S(V::C(64, x.to_bits() as u128)))
                    } else {
                        Ok(Val::S(V::C(32, (x as f32).to_bits() as u128)))
                    }
                }
                _ => Err(format!("number for {:?}", t)),
            },
            T::M => {
                if self.is_p('{') || self.is_p('(') {
                    self.skip_balanced();
                }
                Ok(Val::S(c(1, 0)))
            }
            T::G(n) => {
                let a = self.m.addr_of(&n)?;
                Ok(Val::S(V::C(64, a as u128)))
            }
            T::W(w) => match w.as_str() {
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(Val::zero(t)),
                "true" => Ok(Val::S(c(1, 1))),
                "false" => Ok(Val::S(c(1, 0))),
                "c\"" => match self.next() {
                    T::S(b) => Ok(Val::A(Rc::new(b.iter().map(|x| Val::S(c(8, *x as u128))).collect()))),
                    x => Err(format!("string {:?}", x)),
                },
                "splat" => {
                    self.exp_p('(')?;
                    let et = self.ty()?;
                    let v = self.cval(&et)?;
                    self.exp_p(')')?;
                    Ok(Val::A(Rc::new((0..t.nfields()).map(|_| v.clone()).collect())))
                }
                "getelementptr" => {
                    while let T::W(_) = self.peek() {
                        if self.is_ty() {
                            break;
                        }
                        self.i += 1;
                        if self.is_p('(') {
                            // inrange(...) or the operand list
                            if self.t[self.i - 1] == T::W("inrange".into()) {
                                self.skip_balanced();
                            } else {
                                break;
                            }
                        }
                    }
                    self.exp_p('(')?;
                    let bt = self.ty()?;
                    self.exp_p(',')?;
                    let pt = self.ty()?;
                    let base = self.cval(&pt)?;
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        let v = self.cval(&it)?;
                        idx.push((it, Opd::C(v)));
                    }
                    self.exp_p(')')?;
                    let (off, rest) = gep_offsets(&bt, &idx)?;
                    if !rest.is_empty() {
                        return self.err("const gep");
                    }
                    match base {
                        Val::S(V::C(_, b)) => Ok(Val::S(c(64, b.wrapping_add(off as i128 as u128)))),
                        _ => self.err("gep base"),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" => {
                    self.exp_p('(')?;
                    let ft = self.ty()?;
                    let v = self.cval(&ft)?;
                    if !self.eat_w("to") {
                        return self.err("to");
                    }
                    let tt = self.ty()?;
                    self.exp_p(')')?;
                    match v {
                        Val::S(V::C(_, x)) if tt.scalar() => Ok(Val::S(c(tt.bits(), x))),
                        v => Ok(v),
                    }
                }
                "add" | "sub" | "xor" | "mul" => {
                    while let T::W(_) = self.peek() {
                        self.i += 1;
                    }
                    self.exp_p('(')?;
                    let t1 = self.ty()?;
                    let a = self.cval(&t1)?.s();
                    self.exp_p(',')?;
                    let t2 = self.ty()?;
                    let b = self.cval(&t2)?.s();
                    self.exp_p(')')?;
                    if let (V::C(wd, x), V::C(_, y)) = (a, b) {
                        let r = match w.as_str() {
                            "add" => x.wrapping_add(y),
                            "sub" => x.wrapping_sub(y),
                            "mul" => x.wrapping_mul(y),
                            _ => x ^ y,
                        };
                        Ok(Val::S(c(wd, r)))
                    } else {
                        self.err("const expr")
                    }
                }
                _ if w.starts_with("f0x") && matches!(t, Ty::F64 | Ty::F32) => {
                    let h = &w[3..];
                    let b = u64::from_str_radix(h, 16).map_err(|_| format!("float {}", w))?;
                    Ok(Val::S(match (t, h.len() <= 8) {
                        (Ty::F32, true) => V::C(32, b as u128),
                        (Ty::F32, false) => V::C(32, (f64::from_bits(b) as f32).to_bits() as u128),
                        _ => V::C(64, b as u128),
                    }))
                }
                _ => self.err(&format!("constant {}", w)),
            },
            T::P(s @ ('+' | '-')) => {
                let w = match self.next() {
                    T::W(w) => w,
                    x => return self.err(&format!("float {:?}", x)),
                };
                let x = match w.as_str() {
                    "inf" => f64::INFINITY,
                    "qnan" | "nan" => f64::from_bits(0x7ff8000000000000),
                    _ => return self.err("float constant"),
                };
                let x = if s == '-' { -x } else { x };
                if *t == Ty::F64 {
                    Ok(Val::S(V::C(64, x.to_bits() as u128)))
                } else {
                    Ok(Val::S(V::C(32, (x as f32).to_bits() as u128)))
                }
            }
            T::P('[') => self.cagg(']'),
            T::P('{') => self.cagg('}'),
            T::P('<') => {
                if self.eat_p('{') {
                    let r = self.cagg('}')?;
                    self.exp_p('>')?;
                    Ok(r)
                } else {
                    self.cagg('>')
                }
            }
            x => self.err(&format!("constant expected, got {:?}", x)),
        }
    }
    fn cagg(&mut self, close: char) -> R<Val> {
        let mut v = vec![];
        if self.eat_p(close) {
            return Ok(Val::A(Rc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.cval(&t)?);
            if self.eat_p(',') {
                continue;
            }
            self.exp_p(close)?;
            return Ok(Val::A(Rc::new(v)));
        }
    }
    fn tyval(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    /// skip words that are flags up to the type
    fn flags(&mut self) {
        loop {
            if self.is_ty() {
                return;
            }
            match self.peek() {
                T::W(_) => {
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_balanced();
                    }
                }
                _ => return,
            }
        }
    }

    fn func(&mut self) -> R<Func> {
        // header: define ... <ret> @name(params) ... {
        let mut name = String::new();
        while !matches!(self.peek(), T::G(_)) {
            self.i += 1;
        }
        if let T::G(n) = self.next() {
            name = n;
        }
        self.exp_p('(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        if !self.eat_p(')') {
            loop {
                if self.eat_p('.') {
                    while self.eat_p('.') {}
                    self.exp_p(')')?;
                    break;
                }
                if self.is_w("...") {
                    self.i += 1;
                    self.exp_p(')')?;
                    break;
                }
                let _t = self.ty()?;
                // attributes
                loop {
                    match self.peek() {
                        T::W(_) => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_balanced();
                            }
                        }
                        T::N(_) | T::S(_) | T::At(_) | T::P('=') => self.i += 1,
                        _ => break,
                    }
                }
                let n = if let T::L(n) = self.peek() {
                    let n = n.clone();
                    self.i += 1;
                    if n.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    n
                } else {
                    unnamed += 1;
                    format!("{}", unnamed - 1)
                };
                let r = self.reg(&n);
                params.push(r);
                if self.eat_p(',') {
                    continue;
                }
                self.exp_p(')')?;
                break;
            }
        }
        // to '{' at end of line
        while !(self.is_p('{') && *self.peek2() == T::NL) {
            if *self.peek() == T::End {
                return self.err("no body");
            }
            self.i += 1;
        }
        self.i += 1;
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut order: Vec<u32> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        loop {
            self.skip_nl();
            if self.eat_p('}') || *self.peek() == T::End {
                break;
            }
            // label?
            let lab = match (self.peek(), self.peek2()) {
                (T::W(w), T::P(':')) => Some(w.clone()),
                (T::N(w), T::P(':')) => Some(w.clone()),
                (T::S(w), T::P(':')) => Some(String::from_utf8_lossy(w).to_string()),
                _ => None,
            };
            if let Some(l) = lab {
                self.i += 2;
                let id = self.label(&l);
                if let Some((i, b)) = cur.take() {
                    put(&mut blocks, i, b);
                }
                order.push(id);
                cur = Some((id, Block { name: l, phis: vec![], insts: vec![] }));
                continue;
            }
            if cur.is_none() {
                let l = format!("{}", unnamed);
                let id = self.label(&l);
                order.push(id);
                cur = Some((id, Block { name: l, phis: vec![], insts: vec![] }));
            }
            let mut phi = None;
            let inst = self.inst(&mut phi)?;
            let b = &mut cur.as_mut().unwrap().1;
            if let Some(p) = phi {
                b.phis.push(p);
            } else if let Some(i) = inst {
                b.insts.push(i);
            }
            self.skip_line();
        }
        if let Some((i, b)) = cur.take() {
            put(&mut blocks, i, b);
        }
        // entry must be block index 0 in execution: remember via ordering
        let entry = order[0];
        let n = self.nlabels as usize;
        while blocks.len() < n {
            blocks.push(None);
        }
        let mut bl: Vec<Block> = blocks
            .into_iter()
            .map(|b| b.unwrap_or(Block { name: "?".into(), phis: vec![], insts: vec![] }))
            .collect();
        if entry != 0 {
            // labels are numbered on first mention; the entry is mentioned first, so this cannot happen
            return Err("entry block is not first".into());
        }
        for b in bl.iter_mut() {
            b.insts.shrink_to_fit();
        }
        Ok(Func { name, params, nregs: self.regs.len(), blocks: bl })
    }

    fn inst(&mut self, phi: &mut Option<(u32, Vec<(u32, Opd)>)>) -> R<Option<Inst>> {
        let mut res = None;
        if let (T::L(n), T::P('=')) = (self.peek(), self.peek2()) {
            let n = n.clone();
            self.i += 2;
            res = Some(self.reg(&n));
        }
        let op = match self.next() {
            T::W(w) => w,
            x => return self.err(&format!("opcode {:?}", x)),
        };
        let bop = match op.as_str() {
            "add" => Some(BOp::Add),
            "sub" => Some(BOp::Sub),
            "mul" => Some(BOp::Mul),
            "udiv" => Some(BOp::UDiv),
            "sdiv" => Some(BOp::SDiv),
            "urem" => Some(BOp::URem),
            "srem" => Some(BOp::SRem),
            "shl" => Some(BOp::Shl),
            "lshr" => Some(BOp::LShr),
            "ashr" => Some(BOp::AShr),
            "and" => Some(BOp::And),
            "or" => Some(BOp::Or),
            "xor" => Some(BOp::Xor),
            "fadd" => Some(BOp::FAdd),
            "fsub" => Some(BOp::FSub),
            "fmul" => Some(BOp::FMul),
            "fdiv" => Some(BOp::FDiv),
            "frem" => Some(BOp::FRem),
            _ => None,
        };
        if let Some(b) = bop {
            self.flags();
            let t = self.ty()?;
            let x = self.val(&t)?;
            self.exp_p(',')?;
            let y = self.val(&t)?;
            return Ok(Some(Inst { res, k: K::Bin(b, t, x, y) }));
        }
        let cast = match op.as_str() {
            "trunc" => Some(CastK::Trunc),
            "zext" => Some(CastK::ZExt),
            "sext" => Some(CastK::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(CastK::PtrToInt),
            "inttoptr" => Some(CastK::IntToPtr),
            "bitcast" => Some(CastK::BitCast),
            "uitofp" => Some(CastK::UiToFp),
            "sitofp" => Some(CastK::SiToFp),
            "fptoui" => Some(CastK::FpToUi),
            "fptosi" => Some(CastK::FpToSi),
            "fpext" => Some(CastK::FpExt),
            "fptrunc" => Some(CastK::FpTrunc),
            _ => None,
        };
        if let Some(k) = cast {
            self.flags();
            let (t, v) = self.tyval()?;
            if !self.eat_w("to") {
                return self.err("to");
            }
            let tt = self.ty()?;
            return Ok(Some(Inst { res, k: K::Cast(k, t, v, tt) }));
        }
        let k = match op.as_str() {
            "fneg" => {
                self.flags();
                let (t, v) = self.tyval()?;
                K::FNeg(t, v)
            }
            "icmp" | "fcmp" => {
                // flags then predicate then type
                let mut pred = String::new();
                while !self.is_ty() {
                    match self.next() {
                        T::W(w) => pred = w,
                        x => return self.err(&format!("pred {:?}", x)),
                    }
                }
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp_p(',')?;
                let b = self.val(&t)?;
                if op == "icmp" {
                    K::ICmp(pred, t, a, b)
                } else {
                    K::FCmp(pred, t, a, b)
                }
            }
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.exp_p('[')?;
                    let o = self.val(&t)?;
                    self.exp_p(',')?;
                    let l = match self.next() {
                        T::L(n) => self.label(&n),
                        x => return self.err(&format!("phi label {:?}", x)),
                    };
                    self.exp_p(']')?;
                    v.push((l, o));
                    if !self.eat_p(',') {
                        break;
                    }
                    if *self.peek() == T::M {
                        break;
                    }
                }
                *phi = Some((res.unwrap(), v));
                return Ok(None);
            }
            "select" => {
                self.flags();
                let (ct, cv) = self.tyval()?;
                self.exp_p(',')?;
                let (t, a) = self.tyval()?;
                self.exp_p(',')?;
                let (_, b) = self.tyval()?;
                K::Select(ct, cv, t, a, b)
            }
            "alloca" => {
                self.flags();
                let t = self.ty()?;
                let mut n = Opd::C(Val::S(c(64, 1)));
                let mut al = t.align();
                while self.eat_p(',') {
                    if self.eat_w("align") {
                        al = self.num()? as u64;
                    } else if self.is_ty() {
                        let (_, v) = self.tyval()?;
                        n = v;
                    } else {
                        break;
                    }
                }
                K::Alloca(t.size(), al, n)
            }
            "load" => {
                self.flags();
                let t = self.ty()?;
                self.exp_p(',')?;
                let (_, p) = self.tyval()?;
                K::Load(t, p)
            }
            "store" => {
                self.flags();
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let (_, p) = self.tyval()?;
                K::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags();
                let bt = self.ty()?;
                self.exp_p(',')?;
                let (_, base) = self.tyval()?;
                let mut idx = vec![];
                while self.is_p(',') && *self.peek2() != T::M {
                    self.i += 1;
                    idx.push(self.tyval()?);
                }
                let (off, rest) = gep_offsets(&bt, &idx)?;
                K::Gep(base, off, rest)
            }
            "tail" | "musttail" | "notail" => {
                self.i += 1; // call
                self.call(false)?
            }
            "call" => self.call(false)?,
            "invoke" => self.call(true)?,
            "br" => {
                if self.is_w("label") {
                    K::Br(self.label_ref()?)
                } else {
                    let (_, cnd) = self.tyval()?;
                    self.exp_p(',')?;
                    let a = self.label_ref()?;
                    self.exp_p(',')?;
                    let b = self.label_ref()?;
                    K::CondBr(cnd, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let d = self.label_ref()?;
                self.exp_p('[')?;
                let mut cs = vec![];
                loop {
                    self.skip_nl();
                    if self.eat_p(']') {
                        break;
                    }
                    let ct = self.ty()?;
                    let cv = match self.cval(&ct)?.s() {
                        V::C(_, x) => x,
                        _ => return self.err("switch case"),
                    };
                    self.exp_p(',')?;
                    let l = self.label_ref()?;
                    cs.push((cv, l));
                }
                K::Switch(t, v, d, cs)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    K::Ret(None)
                } else {
                    K::Ret(Some(self.val(&t)?))
                }
            }
            "unreachable" => K::Unreachable,
            "extractvalue" => {
                let (_, v) = self.tyval()?;
                let mut ix = vec![];
                while self.is_p(',') && *self.peek2() != T::M {
                    self.i += 1;
                    ix.push(self.num()? as u32);
                }
                K::ExtractValue(v, ix)
            }
            "insertvalue" => {
                let (_, v) = self.tyval()?;
                self.exp_p(',')?;
                let (_, e) = self.tyval()?;
                let mut ix = vec![];
                while self.is_p(',') && *self.peek2() != T::M {
                    self.i += 1;
                    ix.push(self.num()? as u32);
                }
                K::InsertValue(v, e, ix)
            }
            "shufflevector" => {
                let (t, a) = self.tyval()?;
                self.exp_p(',')?;
                let (_, b) = self.tyval()?;
                self.exp_p(',')?;
                let mt = self.ty()?;
                let m = self.cval(&mt)?;
                let mut mv = vec![];
                if let Val::A(a) = m {
                    for x in a.iter() {
                        if let V::C(_, k) = x.s() {
                            mv.push(k as i64);
                        }
                    }
                }
                K::Shuffle(a, b, mv, t)
            }
            "insertelement" => {
                let (_, a) = self.tyval()?;
                self.exp_p(',')?;
                let (_, b) = self.tyval()?;
                self.exp_p(',')?;
                let (_, i) = self.tyval()?;
                K::InsertElem(a, b, i)
            }
            "extractelement" => {
                let (_, a) = self.tyval()?;
                self.exp_p(',')?;
                let (_, i) = self.tyval()?;
                K::ExtractElem(a, i)
            }
            "atomicrmw" => {
                self.eat_w("volatile");
                let o = match self.next() {
                    T::W(w) => w,
                    x => return self.err(&format!("rmw {:?}", x)),
                };
                let (_, p) = self.tyval()?;
                self.exp_p(',')?;
                let (t, v) = self.tyval()?;
                K::AtomicRmw(o, t, p, v)
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tyval()?;
                self.exp_p(',')?;
                let (t, a) = self.tyval()?;
                self.exp_p(',')?;
                let (_, b) = self.tyval()?;
                K::CmpXchg(t, p, a, b)
            }
            "fence" => K::Fence,
            "freeze" => {
                let (_, v) = self.tyval()?;
                K::Freeze(v)
            }
            "landingpad" => {
                let _ = self.ty()?;
                // clauses, possibly on following lines
                loop {
                    self.skip_line();
                    let save = self.i;
                    self.skip_nl();
                    if self.is_w("cleanup") || self.is_w("catch") || self.is_w("filter") {
                        continue;
                    }
                    self.i = save;
                    break;
                }
                K::LandingPad
            }
            "resume" => K::Resume,
            _ => return self.err(&format!("unsupported opcode {}", op)),
        };
        Ok(Some(Inst { res, k }))
    }

    fn call(&mut self, invoke: bool) -> R<K> {
        self.skip_attrs();
        let ret = self.ty()?;
        if self.is_p('(') {
            self.skip_balanced();
        }
        let callee = match self.next() {
            T::G(n) => Callee::Direct(n),
            T::L(n) => Callee::Indirect(Opd::R(self.reg(&n))),
            T::W(w) if w == "asm" => {
                let mut strs = vec![];
                while !self.is_p('(') {
                    if let T::S(b) = self.peek() {
                        strs.push(String::from_utf8_lossy(b).into_owned());
                    }
                    self.i += 1;
                }
                let cons = strs.pop().unwrap_or_default();
                Callee::Asm(strs.pop().unwrap_or_default(), cons)
            }
            T::W(w) if w == "null" || w == "undef" || w == "poison" => Callee::Indirect(Opd::C(Val::S(c(64, 0)))),
            T::W(w) if w == "inttoptr" || w == "getelementptr" => {
                self.i -= 1;
                Callee::Indirect(Opd::C(self.cval(&Ty::Ptr)?))
            }
            x => return self.err(&format!("callee {:?}", x)),
        };
        self.exp_p('(')?;
        let mut args = vec![];
        if !self.eat_p(')') {
            loop {
                let t = self.ty()?;
                loop {
                    if self.is_val_start() && !matches!(self.peek(), T::N(_)) {
                        break;
                    }
                    match self.peek() {
                        T::W(w) => {
                            let w = w.clone();
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_balanced();
                            } else if w == "align" {
                                self.i += 1;
                            }
                        }
                        T::S(_) => {
                            self.i += 1;
                            if self.eat_p('=') {
                                self.i += 1;
                            }
                        }
                        _ => break,
                    }
                }
                if t == Ty::Meta {
                    // skip metadata operand
                    let mut d = 0;
                    loop {
                        match self.peek() {
                            T::P('(') | T::P('{') | T::P('[') => d += 1,
                            T::P(')') if d == 0 => break,
                            T::P(',') if d == 0 => break,
                            T::P(')') | T::P('}') | T::P(']') => d -= 1,
                            T::End => break,
                            _ => {}
                        }
                        self.i += 1;
                    }
                    args.push((t, Opd::C(Val::S(c(1, 0)))));
                } else {
                    let v = self.val(&t)?;
                    args.push((t, v));
                }
                if self.eat_p(',') {
                    continue;
                }
                self.exp_p(')')?;
                break;
            }
        }
        let mut normal = None;
        if invoke {
            loop {
                if self.is_w("to") {
                    self.i += 1;
                    break;
                }
                if *self.peek() == T::End {
                    return self.err("invoke to");
                }
                self.i += 1;
            }
            normal = Some(self.label_ref()?);
            // "unwind label %x"
            while !matches!(self.peek(), T::NL | T::End) {
                if let T::W(w) = self.peek() {
                    if w == "label" {
                        self.label_ref()?;
                        continue;
                    }
                }
                self.i += 1;
            }
        }
        Ok(K::Call { callee, args, ret, normal })
    }
}

fn put(blocks: &mut Vec<Option<Block>>, i: u32, b: Block) {
    while blocks.len() <= i as usize {
        blocks.push(None);
    }
    blocks[i as usize] = Some(b);
}

fn gep_offsets(bt: &Ty, idx: &[(Ty, Opd)]) -> R<(i64, Vec<(i64, Ty, Opd)>)> {
    let mut off: i64 = 0;
    let mut rest = vec![];
    let mut t = bt.clone();
    for (n, (it, o)) in idx.iter().enumerate() {
        if n == 0 {
            let sz = t.size() as i64;
            match o {
                Opd::C(Val::S(V::C(w, k))) => off += sz * crate::term::sx(*k, *w) as i64,
                _ => rest.push((sz, it.clone(), o.clone())),
            }
        } else if let Ty::Struct(..) = t {
            match o {
                Opd::C(Val::S(V::C(_, k))) => {
                    let (fo, ft) = t.field(*k as usize);
                    off += fo as i64;
                    t = ft;
                }
                _ => return Err("symbolic struct index".into()),
            }
        } else {
            let et = match &t {
                Ty::Arr(_, e) | Ty::Vector(_, e) => (**e).clone(),
                _ => return Err(format!("gep into {:?}", t)),
            };
            let sz = et.size() as i64;
            match o {
                Opd::C(Val::S(V::C(w, k))) => off += sz * crate::term::sx(*k, *w) as i64,
                _ => rest.push((sz, it.clone(), o.clone())),
            }
            t = et;
        }
    }
    Ok((off, rest))
}

pub fn write_const(t: &Ty, v: &Val, out: &mut [u8]) {
    match v {
        Val::S(V::C(_, x)) => {
            let n = ((t.bits() as usize) + 7) / 8;
            let b = x.to_le_bytes();
            out[..n].copy_from_slice(&b[..n]);
        }
        Val::S(_) => panic!("symbolic constant"),
        Val::A(vs) => {
            for (i, x) in vs.iter().enumerate() {
                let (o, ft) = t.field(i);
                let sz = ft.size() as usize;
                write_const(&ft, x, &mut out[o as usize..o as usize + sz]);
            }
        }
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let mut m = Module {
            text: Rc::new(String::new()),
            func_pos: Default::default(),
            glob_pos: Default::default(),
            declared: Default::default(),
            types: Default::default(),
            tycache: Default::default(),
            funcs: Default::default(),
            fn_addr: Default::default(),
            addr_fn: Default::default(),
            g_addr: Default::default(),
            globals: Default::default(),
            pending: vec![],
            next_g: 0x1_0000_0000,
            next_f: 0x4000_0000,
        };
        let mut pos = 0;
        let mut in_fn: Option<(String, usize)> = None;
        for line in text.split_inclusive('\n') {
            let start = pos;
            pos += line.len();
            if let Some((n, s)) = &in_fn {
                if line.starts_with('}') {
                    m.func_pos.insert(n.clone(), (*s, pos));
                    in_fn = None;
                }
                continue;
            }
            if line.starts_with("define ") {
                let n = sym_name(line).ok_or("define without name")?;
                in_fn = Some((n, start));
            } else if line.starts_with("declare ") {
                if let Some(n) = sym_name(line) {
                    m.declared.insert(n, ());
                }
            } else if line.starts_with('@') {
                if let Some(n) = sym_name(line) {
                    m.glob_pos.insert(n, (start, pos));
                }
            } else if line.starts_with('%') {
                let n = line[1..].split(" = ").next().unwrap().trim().trim_matches('"').to_string();
                m.types.insert(n, (start, pos));
            }
        }
        m.text = Rc::new(text);
        Ok(m)
    }
    pub fn has_func(&self, n: &str) -> bool {
        self.func_pos.contains_key(n)
    }
    pub fn func_names(&self) -> impl Iterator<Item = &String> {
        self.func_pos.keys()
    }
    fn parser<'a>(m: &'a mut Module, src: &str) -> P<'a> {
        P { t: lex(src), i: 0, m, regs: Default::default(), labels: Default::default(), nlabels: 0 }
    }
    fn named_type(&mut self, n: &str) -> R<Ty> {
        if let Some(t) = self.tycache.get(n) {
            return Ok(t.clone());
        }
        let (s, e) = *self.types.get(n).ok_or(format!("type %{}", n))?;
        let text = self.text.clone();
        let src = text[s..e].to_string();
        let body = src.split(" = type ").nth(1).ok_or("type def")?.to_string();
        let t = if body.trim() == "opaque" {
            Ty::Int(8)
        } else {
            let mut p = Module::parser(self, &body);
            p.ty()?
        };
        self.tycache.insert(n.to_string(), t.clone());
        Ok(t)
    }
    pub fn func(&mut self, n: &str) -> R<Option<Rc<Func>>> {
        if let Some(f) = self.funcs.get(n) {
            return Ok(Some(f.clone()));
        }
        let (s, e) = match self.func_pos.get(n) {
            Some(x) => *x,
            None => return Ok(None),
        };
        let text = self.text.clone();
        let mut p = Module::parser(self, &text[s..e]);
        let f = p.func().map_err(|e| format!("in {}: {}", n, e))?;
        self.flush()?;
        let f = Rc::new(f);
        self.funcs.insert(n.to_string(), f.clone());
        Ok(Some(f))
    }
    pub fn addr_of(&mut self, n: &str) -> R<u64> {
        if let Some(a) = self.g_addr.get(n) {
            return Ok(*a);
        }
        if let Some(a) = self.fn_addr.get(n) {
            return Ok(*a);
        }
        if let Some((s, e)) = self.glob_pos.get(n).cloned() {
            let text = self.text.clone();
            let line = &text[s..e];
            // @name = <linkage...> (global|constant|alias) <ty> [init]
            let (kw, rest) = split_global(line).ok_or(format!("global {}", line.chars().take(200).collect::<String>()))?;
            if kw == "alias" {
                let mut p = Module::parser(self, rest);
                let _ = p.ty()?;
                p.exp_p(',')?;
                let _ = p.ty()?;
                let v = p.cval(&Ty::Ptr)?;
                if let V::C(_, a) = v.s() {
                    self.g_addr.insert(n.to_string(), a as u64);
                    return Ok(a as u64);
                }
                return Err("alias".into());
            }
            let mut p = Module::parser(self, rest);
            let t = p.ty()?;
            let size = t.size();
            let a = (self.next_g + 63) & !63;
            self.next_g = a + size + 64;
            self.g_addr.insert(n.to_string(), a);
            self.pending.push((n.to_string(), a));
            return Ok(a);
        }
        // function (defined or declared) or unknown external
        let a = self.next_f;
        self.next_f += 16;
        self.fn_addr.insert(n.to_string(), a);
        self.addr_fn.insert(a, n.to_string());
        Ok(a)
    }
    pub fn flush(&mut self) -> R<()> {
        while let Some((n, a)) = self.pending.pop() {
            let (s, e) = self.glob_pos[&n];
            let text = self.text.clone();
            let (kw, rest) = split_global(&text[s..e]).unwrap();
            let constant = kw == "constant";
            let mut p = Module::parser(self, rest);
            let t = p.ty()?;
            let mut bytes = vec![0u8; t.size() as usize];
            if p.is_val_start() {
                let v = p.cval(&t)?;
                write_const(&t, &v, &mut bytes);
            }
            self.globals.insert(a, Rc::new(GlobalObj { size: t.size(), bytes, constant, name: n }));
        }
        Ok(())
    }
}

fn split_global(line: &str) -> Option<(&'static str, &str)> {
    let eq = line.find(" = ")? + 3;
    let r = &line[eq..];
    let mut best: Option<(usize, &'static str)> = None;
    for kw in ["global", "constant", "alias"] {
        // the keyword appears before any initializer
        let pat = format!("{} ", kw);
        let mut from = 0;
        while let Some(i) = r[from..].find(&pat) {
            let i = i + from;
            let ok = i == 0 || r.as_bytes()[i - 1] == b' ';
            if ok {
                if best.map_or(true, |b| i < b.0) {
                    best = Some((i, kw));
                }
                break;
            }
            from = i + 1;
        }
    }
    let (i, kw) = best?;
    Some((kw, &r[i + kw.len() + 1..]))
}

fn sym_name(line: &str) -> Option<String> {
    let i = line.find('@')?;
    let r = &line[i + 1..];
    if let Some(q) = r.strip_prefix('"') {
        let e = q.find('"')?;
        return Some(String::from_utf8_lossy(&unquote(&q[..e])).to_string());
    }
    let e = r.find(|ch: char| !(ch.is_ascii_alphanumeric() || ch == '_' || ch == '.' || ch == '$' || ch == '-')).unwrap_or(r.len());
    Some(r[..e].to_string())
}
