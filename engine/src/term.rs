//! Hash-consed bit-vector / IEEE-float terms with construction-time simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type Tid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum V {
    C(u16, u128),
    T(Tid),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Not, // width 1 only
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,  // a = high, b = low
    Extract, // imm = low bit
    ZExt,
    SExt,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem, // C fmod
    FEq,
    FLt,
    FLe,
    FIsNan,
    UiToFp,
    SiToFp,
    FpToUi, // saturating
    FpToSi, // saturating
    FpConv,
    FRound, // imm: 0 floor 1 ceil 2 trunc 3 rne(even) 4 rna
    FSqrt,
    FFrac, // the f64 nearest to a + b / 10^v, strictly between a and a+1; imm = v + 65536 * tag (tag != 0: only known to lie there)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: V,
    pub b: V,
    pub c: V,
    pub imm: u64,
}

pub const NONE: V = V::C(0, 0);

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
    pub tid: Tid,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    pub vars_of: Vec<std::rc::Rc<[u32]>>,
    map: FxMap<Node, Tid>,
    pub vars: Vec<VarInfo>,
    lin_cache: FxMap<Tid, Option<std::rc::Rc<Lin>>>,
}

/// a linear form  k + sum coef*atom  that provably does not wrap
#[derive(Clone, Debug, PartialEq)]
pub struct Lin {
    pub k: u128,
    pub t: Vec<(Tid, u128)>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w == 0 {
        return 0;
    }
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}
pub fn c(w: u16, v: u128) -> V {
    V::C(w, v & mask(w))
}
pub const TRUE: V = V::C(1, 1);
pub const FALSE: V = V::C(1, 0);

pub fn f_of(w: u16, v: u128) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}

fn fbits(w: u16, x: f64) -> u128 {
    if w == 32 {
        (x as f32).to_bits() as u128
    } else {
        x.to_bits() as u128
    }
}

fn fp_bin(op: Op, w: u16, x: u128, y: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            Op::FRem => x % y,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            Op::FRem => x % y,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    }
}

fn fp_to_ui(w: u16, x: f64) -> u128 {
    if x.is_nan() || x <= 0.0 {
        return 0;
    }
    if w == 128 {
        return x as u128;
    }
    let m = mask(w);
    if x >= (m as f64) {
        // m as f64 rounds up to 2^w for w>53: anything >= that saturates; smaller w exact
        return if w <= 53 { std::cmp::min(x as u128, m) } else { m };
    }
    std::cmp::min(x as u128, m)
}
fn fp_to_si(w: u16, x: f64) -> u128 {
    if x.is_nan() {
        return 0;
    }
    let mx = (mask(w) >> 1) as i128;
    let mn = -mx - 1;
    let v = x as i128;
    (v.clamp(mn, mx) as u128) & mask(w)
}

/// Evaluate an operator on concrete arguments.
pub fn eval_op(n: &Node, a: u128, b: u128, cc: u128, aw: u16) -> u128 {
    let w = n.w;
    let m = mask(w);
    match n.op {
        Op::Var => unreachable!(),
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Not => (!a) & m,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = std::cmp::min(b, w as u128 - 1) as u32;
            ((sx(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                cc
            }
        }
        Op::Concat => {
            let lw = n.imm as u16;
            ((a << lw) | b) & m
        }
        Op::Extract => (a >> n.imm) & m,
        Op::ZExt => a,
        Op::SExt => (sx(a, aw) as u128) & m,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => fp_bin(n.op, w, a, b),
        Op::FEq => (f_of(aw, a) == f_of(aw, b)) as u128,
        Op::FLt => (f_of(aw, a) < f_of(aw, b)) as u128,
        Op::FLe => (f_of(aw, a) <= f_of(aw, b)) as u128,
        Op::FIsNan => f_of(aw, a).is_nan() as u128,
        Op::UiToFp => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::SiToFp => {
            let x = sx(a, aw);
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::FpToUi => fp_to_ui(w, f_of(aw, a)),
        Op::FpToSi => fp_to_si(w, f_of(aw, a)),
        Op::FpConv => fbits(w, f_of(aw, a)),
        Op::FRound => {
            let x = f_of(w, a);
            let r = match n.imm {
                0 => x.floor(),
                1 => x.ceil(),
                2 => x.trunc(),
                3 => x.round_ties_even(),
                _ => x.round(),
            };
            fbits(w, r)
        }
        Op::FSqrt => fbits(w, f_of(w, a).sqrt()),
        Op::FFrac => {
            if n.imm >> 16 == 0 && b > 0 {
                let t = format!("{}.{:0w$}", a, b, w = n.imm as usize);
                let mut x = t.parse::<f64>().unwrap();
                // by definition strictly between a and a + 1
                if x >= a as f64 + 1.0 {
                    x = f64::from_bits((a as f64 + 1.0).to_bits() - 1);
                } else if x <= a as f64 {
                    x = f64::from_bits((a as f64).to_bits() + 1);
                }
                if w == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 }
            } else {
                fbits(w, a as f64 + 0.5)
            }
        }
    }
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: vec![],
            lo: vec![],
            hi: vec![],
            vars_of: vec![],
            map: Default::default(),
            vars: vec![],
            lin_cache: Default::default(),
        }
    }
    pub fn w(&self, v: V) -> u16 {
        match v {
            V::C(w, _) => w,
            V::T(t) => self.nodes[t as usize].w,
        }
    }
    pub fn range(&self, v: V) -> (u128, u128) {
        match v {
            V::C(_, x) => (x, x),
            V::T(t) => (self.lo[t as usize], self.hi[t as usize]),
        }
    }
    pub fn new_var(&mut self, name: String, w: u16, lo: u128, hi: u128) -> V {
        let id = self.vars.len() as u64;
        let n = Node { op: Op::Var, w, a: NONE, b: NONE, c: NONE, imm: id };
        let t = self.nodes.len() as Tid;
        self.nodes.push(n);
        self.lo.push(lo);
        self.hi.push(hi);
        self.vars_of.push(std::rc::Rc::from(vec![id as u32]));
        self.map.insert(n, t);
        self.vars.push(VarInfo { name, w, lo, hi, tid: t });
        V::T(t)
    }
    pub fn vars_v(&self, v: V) -> std::rc::Rc<[u32]> {
        match v {
            V::C(..) => std::rc::Rc::from(vec![]),
            V::T(t) => self.vars_of[t as usize].clone(),
        }
    }

    fn mk(&mut self, op: Op, w: u16, a: V, b: V, cc: V, imm: u64) -> V {
        let n = Node { op, w, a, b, c: cc, imm };
        if let Some(t) = self.map.get(&n) {
            return V::T(*t);
        }
        let (lo, hi) = self.calc_range(&n);
        if lo == hi {
            return V::C(w, lo);
        }
        // variable set
        let mut vs: Option<std::rc::Rc<[u32]>> = None;
        for x in [a, b, cc] {
            if let V::T(t) = x {
                let o = &self.vars_of[t as usize];
                vs = Some(match vs {
                    None => o.clone(),
                    Some(p) => {
                        if std::rc::Rc::ptr_eq(&p, o) || *p == **o {
                            p
                        } else {
                            let mut m: Vec<u32> = p.iter().chain(o.iter()).cloned().collect();
                            m.sort_unstable();
                            m.dedup();
                            if m.len() == p.len() {
                                p
                            } else if m.len() == o.len() {
                                o.clone()
                            } else {
                                std::rc::Rc::from(m)
                            }
                        }
                    }
                });
            }
        }
        let t = self.nodes.len() as Tid;
        self.nodes.push(n);
        self.lo.push(lo);
        self.hi.push(hi);
        self.vars_of.push(vs.unwrap_or_else(|| std::rc::Rc::from(vec![])));
        self.map.insert(n, t);
        V::T(t)
    }

    fn calc_range(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let full = (0, m);
        let (al, ah) = self.range(n.a);
        let (bl, bh) = self.range(n.b);
        match n.op {
            Op::Add => match (al.checked_add(bl), ah.checked_add(bh)) {
                (Some(l), Some(h)) if h <= m => (l, h),
                // adding a "negative" constant that always wraps
                (Some(l), Some(h)) if l > m && h - (m + 1) <= m => (l - (m + 1), h - (m + 1)),
                _ => full,
            },
            Op::Sub => {
                if al >= bh {
                    (al - bh, ah - bl)
                } else {
                    full
                }
            }
            Op::Mul => match ah.checked_mul(bh) {
                Some(h) if h <= m => (al * bl, h),
                _ => full,
            },
            Op::UDiv => {
                if bl > 0 {
                    (al / bh, ah / bl)
                } else {
                    full
                }
            }
            Op::URem => {
                if bl > 0 {
                    if ah < bl {
                        (al, ah)
                    } else {
                        (0, std::cmp::min(ah, bh - 1))
                    }
                } else {
                    full
                }
            }
            Op::And => (0, std::cmp::min(ah, bh)),
            Op::Or | Op::Xor => {
                let h = ah | bh;
                let bits = 128 - h.leading_zeros();
                let top = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                let l = if n.op == Op::Or { std::cmp::max(al, bl) } else { 0 };
                (l, std::cmp::min(top, m))
            }
            Op::Shl => {
                if bl == bh && bl < n.w as u128 {
                    let s = bl as u32;
                    if ah.leading_zeros() >= s && (ah << s) <= m {
                        (al << s, ah << s)
                    } else {
                        full
                    }
                } else {
                    full
                }
            }
            Op::LShr => {
                if bl == bh && bl < n.w as u128 {
                    (al >> bl as u32, ah >> bl as u32)
                } else {
                    (0, ah)
                }
            }
            Op::Ite => {
                let (cl, ch) = self.range(n.c);
                (std::cmp::min(bl, cl), std::cmp::max(bh, ch))
            }
            Op::Concat => {
                let lw = n.imm as u32;
                ((al << lw) | bl, (ah << lw) | bh)
            }
            Op::Extract => {
                if n.imm == 0 {
                    if ah <= m {
                        (al, ah)
                    } else {
                        full
                    }
                } else {
                    let (l, h) = (al >> n.imm as u32, ah >> n.imm as u32);
                    if h <= m {
                        (l, h)
                    } else {
                        full
                    }
                }
            }
            Op::ZExt => (al, ah),
            // bit patterns of non-negative floats are ordered like the floats
            Op::UiToFp if n.w == 64 => ((al as f64).to_bits() as u128, (ah as f64).to_bits() as u128),
            Op::UiToFp if n.w == 32 => ((al as f32).to_bits() as u128, (ah as f32).to_bits() as u128),
            Op::FFrac => (1, fbits(n.w, (ah as f64) + 1.0)),
            _ => full,
        }
    }

    pub fn eval(&self, v: V, model: &FxMap<u32, u128>) -> u128 {
        let mut memo: FxMap<Tid, u128> = Default::default();
        self.eval_m(v, model, &mut memo)
    }
    pub fn var_default(&self, id: u32) -> u128 {
        self.vars[id as usize].lo
    }
    pub fn eval_memo(&self, v: V, model: &FxMap<u32, u128>, memo: &mut FxMap<Tid, u128>) -> u128 {
        self.eval_m(v, model, memo)
    }
    pub fn frac_term(&mut self, i: V, f: V, imm: u64) -> V {
        if let (V::C(_, a), V::C(_, b)) = (i, f) {
            if imm >> 16 == 0 {
                let n = Node { op: Op::FFrac, w: 64, a: i, b: f, c: NONE, imm };
                return V::C(64, eval_op(&n, a, b, 0, 64));
            }
        }
        self.mk(Op::FFrac, 64, i, f, NONE, imm)
    }
    fn eval_m(&self, v: V, model: &FxMap<u32, u128>, memo: &mut FxMap<Tid, u128>) -> u128 {
        let t0 = match v {
            V::C(_, x) => return x,
            V::T(t) => t,
        };
        // iterative post-order
        let mut stack = vec![t0];
        while let Some(&t) = stack.last() {
            if memo.contains_key(&t) {
                stack.pop();
                continue;
            }
            let n = &self.nodes[t as usize];
            if n.op == Op::Var {
                let id = n.imm as u32;
                let x = model.get(&id).cloned().unwrap_or_else(|| self.var_default(id));
                memo.insert(t, x);
                stack.pop();
                continue;
            }
            let mut ready = true;
            for x in [n.a, n.b, n.c] {
                if let V::T(u) = x {
                    if !memo.contains_key(&u) {
                        stack.push(u);
                        ready = false;
                    }
                }
            }
            if !ready {
                continue;
            }
            let g = |x: V| match x {
                V::C(_, k) => k,
                V::T(u) => memo[&u],
            };
            let r = eval_op(n, g(n.a), g(n.b), g(n.c), self.w(n.a));
            memo.insert(t, r);
            stack.pop();
        }
        memo[&t0]
    }

    fn node(&self, v: V) -> Option<Node> {
        match v {
            V::C(..) => None,
            V::T(t) => Some(self.nodes[t as usize]),
        }
    }

    // ---------------------------------------------------------------- constructors
    pub fn bin(&mut self, op: Op, a: V, b: V) -> V {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch {:?}", op);
        if let (V::C(_, x), V::C(_, y)) = (a, b) {
            let n = Node { op, w, a, b, c: NONE, imm: 0 };
            return V::C(w, eval_op(&n, x, y, 0, w));
        }
        let m = mask(w);
        // canonical: constants on the right for commutative ops
        let (a, b) = match op {
            Add | Mul | And | Or | Xor => match (a, b) {
                (V::C(..), _) => (b, a),
                (V::T(x), V::T(y)) if x > y => (b, a),
                _ => (a, b),
            },
            _ => (a, b),
        };
        let bk = if let V::C(_, k) = b { Some(k) } else { None };
        let ak = if let V::C(_, k) = a { Some(k) } else { None };
        match op {
            Add => {
                if bk == Some(0) {
                    return a;
                }
                if let (Some(k), Some(n)) = (bk, self.node(a)) {
                    if n.op == Add {
                        if let V::C(_, k2) = n.b {
                            return self.bin(Add, n.a, c(w, k.wrapping_add(k2)));
                        }
                    }
                    if n.op == Ite {
                        if let (V::C(_, x), V::C(_, y)) = (n.b, n.c) {
                            return self.ite(n.a, c(w, x.wrapping_add(k)), c(w, y.wrapping_add(k)));
                        }
                    }
                }
                // (x - y) + y  and  x + (0-x) style cancellations
                if let Some(n) = self.node(a) {
                    if n.op == Sub && n.b == b {
                        return n.a;
                    }
                }
                if let Some(n) = self.node(b) {
                    if n.op == Sub && n.b == a {
                        return n.a;
                    }
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
                if let Some(r) = self.bytewise(Add, a, b, w) {
                    return r;
                }
                if bk.is_none() {
                    if let Some(r) = self.recombine(a, b, w) {
                        return r;
                    }
                }
            }
            Sub => {
                if a == b {
                    return c(w, 0);
                }
                if let Some(k) = bk {
                    return self.bin(Add, a, c(w, (!k).wrapping_add(1)));
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
                if let Some(r) = self.bytewise(Sub, a, b, w) {
                    return r;
                }
                // k - (k2 - x)
                if let (V::C(_, k), Some(n)) = (a, self.node(b)) {
                    if let (Sub, V::C(_, k2)) = (n.op, n.a) {
                        return self.bin(Add, n.b, c(w, k.wrapping_sub(k2)));
                    }
                }
                // (x + k) - x
                if let Some(n) = self.node(a) {
                    if n.op == Add {
                        if n.a == b {
                            return n.b;
                        }
                        if n.b == b {
                            return n.a;
                        }
                    }
                }
            }
            Mul => {
                if bk == Some(0) {
                    return b;
                }
                if bk == Some(1) {
                    return a;
                }
                if let (Some(k), Some(n)) = (bk, self.node(a)) {
                    if n.op == Mul {
                        if let V::C(_, k2) = n.b {
                            return self.bin(Mul, n.a, c(w, k.wrapping_mul(k2)));
                        }
                    }
                }
                if w == 1 {
                    return self.bin(And, a, b);
                }
            }
            UDiv => {
                if bk == Some(1) {
                    return a;
                }
                if let Some(k) = bk {
                    if k > 0 {
                        let (_, h) = self.range(a);
                        if h < k {
                            return c(w, 0);
                        }
                        if let Some(r) = self.div_lin(a, k, w) {
                            return r;
                        }
                        // (x / c1) / c2 = x / (c1*c2)
                        if let Some(n) = self.node(a) {
                            if n.op == ZExt {
                                let iw = self.w(n.a);
                                if k <= mask(iw) {
                                    let r = self.bin(UDiv, n.a, c(iw, k));
                                    return self.zext(r, w);
                                }
                            }
                            if n.op == UDiv {
                                if let V::C(_, k2) = n.b {
                                    if let Some(p) = k.checked_mul(k2) {
                                        if p <= m && k2 > 0 {
                                            return self.bin(UDiv, n.a, c(w, p));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            URem => {
                if let Some(k) = bk {
                    if k > 0 {
                        let (_, h) = self.range(a);
                        if h < k {
                            return a;
                        }
                        if k == 1 {
                            return c(w, 0);
                        }
                        if let Some(r) = self.rem_lin(a, k, w) {
                            return r;
                        }
                        if let Some(n) = self.node(a) {
                            if n.op == URem {
                                if let V::C(_, k2) = n.b {
                                    if k2 > 0 && k2 % k == 0 {
                                        return self.bin(URem, n.a, b);
                                    }
                                }
                            }
                            // zext(x) % k -> zext(x % k)
                            if n.op == ZExt {
                                let iw = self.w(n.a);
                                if k <= mask(iw) {
                                    let r = self.bin(URem, n.a, c(iw, k));
                                    return self.zext(r, w);
                                }
                            }
                            if n.op == Ite {
                                if let (V::C(_, x), V::C(_, y)) = (n.b, n.c) {
                                    return self.ite(n.a, c(w, x % k), c(w, y % k));
                                }
                            }
                        }
                    }
                }
            }
            SDiv | SRem => {
                let (_, ah) = self.range(a);
                let (_, bh) = self.range(b);
                if ah <= m >> 1 && bh <= m >> 1 {
                    return self.bin(if op == SDiv { UDiv } else { URem }, a, b);
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if bk == Some(0) {
                    return b;
                }
                if bk == Some(m) {
                    return a;
                }
                if let Some(k) = bk {
                    let (zeros, ones) = self.known(a, 6);
                    if k & !zeros & !ones == 0 {
                        return c(w, k & ones);
                    }
                    if (k | zeros) & m == m {
                        return a;
                    }
                    if let Some(n) = self.node(a) {
                        if n.op == Extract && self.w(n.a) <= 64 {
                            let lo = n.imm as u16;
                            let xw = self.w(n.a);
                            if self.byte_parts(n.a).is_some() {
                                let r = self.bin(And, n.a, c(xw, k << lo));
                                return self.extract(r, lo, w);
                            }
                        }
                    }
                    let (_, h) = self.range(a);
                    // mask of low bits that covers the whole range
                    if k.wrapping_add(1).is_power_of_two() && h <= k {
                        return a;
                    }
                    // disjoint low bits
                    if k < m && (k + 1).is_power_of_two() {
                        let bits = (128 - k.leading_zeros()) as u16;
                        let e = self.extract(a, 0, bits);
                        return self.zext(e, w);
                    }
                    if let Some(n) = self.node(a) {
                        if n.op == And {
                            if let V::C(_, k2) = n.b {
                                return self.bin(And, n.a, c(w, k & k2));
                            }
                        }
                        if n.op == ZExt {
                            let iw = self.w(n.a);
                            let r = self.bin(And, n.a, c(iw, k));
                            return self.zext(r, w);
                        }
                        if n.op == Ite {
                            if let (V::C(_, x), V::C(_, y)) = (n.b, n.c) {
                                return self.ite(n.a, c(w, x & k), c(w, y & k));
                            }
                        }
                    }
                }
                if let Some(r) = self.bytewise(And, a, b, w) {
                    return r;
                }
                if w == 1 {
                    if self.is_not(a, b) {
                        return FALSE;
                    }
                    // a >= b and b >= a
                    let le = |s: &Self, v: V| -> Option<(V, V)> {
                        let n = s.node(v)?;
                        if n.op != Op::Not {
                            return None;
                        }
                        let k = s.node(n.a)?;
                        if k.op == Op::Ult { Some((k.a, k.b)) } else { None }
                    };
                    if let (Some(x), Some(y)) = (le(self, a), le(self, b)) {
                        if x.0 == y.1 && x.1 == y.0 {
                            return self.eq(x.0, x.1);
                        }
                    }
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if bk == Some(0) {
                    return a;
                }
                if bk == Some(m) {
                    return b;
                }
                if w == 1 && self.is_not(a, b) {
                    return TRUE;
                }
                if let Some(r) = self.or_concat(a, b, w) {
                    return r;
                }
            }
            Xor => {
                if a == b {
                    return c(w, 0);
                }
                if bk == Some(0) {
                    return a;
                }
                if w == 1 && bk == Some(1) {
                    return self.not(a);
                }
                if let (Some(k), Some(n)) = (bk, self.node(a)) {
                    if n.op == Xor {
                        if let V::C(_, k2) = n.b {
                            return self.bin(Xor, n.a, c(w, k ^ k2));
                        }
                    }
                }
                if w == 1 {
                    if self.is_not(a, b) {
                        return TRUE;
                    }
                }
            }
            Shl => {
                if bk == Some(0) {
                    return a;
                }
                if ak == Some(0) {
                    return a;
                }
                if let Some(k) = bk {
                    if k >= w as u128 {
                        return c(w, 0);
                    }
                    // concat(extract(a), 0)
                    let s = k as u16;
                    let (_, h) = self.range(a);
                    // keep linear structure for non-wrapping small shifts
                    if h.leading_zeros() as u128 >= k && (h << k as u32) <= m && s <= 6 {
                        return self.bin(Mul, a, c(w, 1u128 << s));
                    }
                    let e = self.extract(a, 0, w - s);
                    return self.concat(e, c(s, 0));
                }
            }
            LShr => {
                if bk == Some(0) {
                    return a;
                }
                if ak == Some(0) {
                    return a;
                }
                if let Some(k) = bk {
                    if k >= w as u128 {
                        return c(w, 0);
                    }
                    let s = k as u16;
                    let e = self.extract(a, s, w - s);
                    return self.zext(e, w);
                }
            }
            AShr => {
                if bk == Some(0) {
                    return a;
                }
                let (_, h) = self.range(a);
                if h <= m >> 1 {
                    return self.bin(LShr, a, b);
                }
            }
            _ => {}
        }
        self.mk(op, w, a, b, NONE, 0)
    }

    /// bits known to be 0 and known to be 1
    fn known(&self, v: V, d: u32) -> (u128, u128) {
        let m = mask(self.w(v));
        let (lo, hi) = self.range(v);
        // the common prefix of the range
        let diff = 128 - (lo ^ hi).leading_zeros();
        let pre = if diff >= 128 { 0 } else { !((1u128 << diff) - 1) };
        let (mut z, mut o) = (!lo & pre & m, lo & pre & m);
        if let (Some(n), true) = (self.node(v), d > 0) {
            match n.op {
                Op::And | Op::Or => {
                    let (az, ao) = self.known(n.a, d - 1);
                    let (bz, bo) = self.known(n.b, d - 1);
                    if n.op == Op::And {
                        z |= az | bz;
                        o |= ao & bo;
                    } else {
                        z |= az & bz;
                        o |= ao | bo;
                    }
                }
                Op::ZExt => {
                    let (az, ao) = self.known(n.a, d - 1);
                    z |= az;
                    o |= ao;
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let (az, ao) = self.known(n.a, d - 1);
                    let (bz, bo) = self.known(n.b, d - 1);
                    z |= az << lw | bz;
                    o |= ao << lw | bo;
                }
                Op::Mul => {
                    if let V::C(_, k) = n.b {
                        let tz = k.trailing_zeros().min(127);
                        z |= ((1u128 << tz) - 1) & m;
                    }
                }
                _ => {}
            }
        }
        (z, o)
    }
    /// the bytes of a concatenation with at least two symbolic ones, lowest first
    fn byte_parts(&mut self, v: V) -> Option<Vec<V>> {
        fn go(s: &mut Arena, v: V, out: &mut Vec<V>) -> bool {
            let w = s.w(v);
            if w % 8 != 0 {
                return false;
            }
            if w == 8 {
                out.push(v);
                return true;
            }
            match v {
                V::C(_, k) => {
                    for j in 0..w / 8 {
                        out.push(c(8, k >> (8 * j) & 255));
                    }
                    true
                }
                V::T(t) => {
                    let n = s.nodes[t as usize];
                    match n.op {
                        Op::Concat => go(s, n.b, out) && go(s, n.a, out),
                        Op::ZExt => {
                            let iw = s.w(n.a);
                            let x = if iw < 8 { s.zext(n.a, 8) } else { n.a };
                            if !go(s, x, out) {
                                return false;
                            }
                            let iw = iw.max(8);
                            for _ in 0..(w - iw) / 8 {
                                out.push(c(8, 0));
                            }
                            true
                        }
                        _ => false,
                    }
                }
            }
        }
        let w = self.w(v);
        if w <= 8 || w > 64 || w % 8 != 0 {
            return None;
        }
        let mut out = vec![];
        if go(self, v, &mut out) && out.iter().filter(|x| matches!(x, V::T(_))).count() >= 2 {
            Some(out)
        } else {
            None
        }
    }
    /// operations on words of bytes that no carry crosses
    fn bytewise(&mut self, op: Op, a: V, b: V, w: u16) -> Option<V> {
        if w <= 8 || w > 64 || w % 8 != 0 {
            return None;
        }
        let split = |s: &mut Arena, v: V| -> Option<Vec<V>> {
            if let V::C(_, k) = v {
                return Some((0..w / 8).map(|j| c(8, k >> (8 * j) & 255)).collect());
            }
            s.byte_parts(v)
        };
        let x = split(self, a)?;
        let y = split(self, b)?;
        for (p, q) in x.iter().zip(&y) {
            let (pl, ph) = self.range(*p);
            let (ql, qh) = self.range(*q);
            let ok = match op {
                Op::Add => ph + qh <= 255,
                Op::Sub => pl >= qh,
                _ => true,
            };
            let _ = ql;
            if !ok {
                return None;
            }
        }
        let mut r = None;
        for (p, q) in x.iter().zip(&y) {
            let e = self.bin(op, *p, *q);
            r = Some(match r {
                None => e,
                Some(l) => self.concat(e, l),
            });
        }
        r
    }
    fn is_not(&self, a: V, b: V) -> bool {
        if let Some(n) = self.node(a) {
            if n.op == Op::Not && n.a == b {
                return true;
            }
        }
        if let Some(n) = self.node(b) {
            if n.op == Op::Not && n.a == a {
                return true;
            }
        }
        false
    }

    /// or of two values with provably disjoint bit sets that look like byte packing
    fn or_concat(&mut self, a: V, b: V, w: u16) -> Option<V> {
        // case: one is concat(x, 0_s) (possibly under zext) and other < 2^s
        for (x, y) in [(a, b), (b, a)] {
            if let Some(n) = self.node(x) {
                if n.op == Op::Concat {
                    if let V::C(s, 0) = n.b {
                        let (_, h) = self.range(y);
                        if h < (1u128 << s) {
                            let lo = self.extract(y, 0, s);
                            return Some(self.concat(n.a, lo));
                        }
                    }
                }
                if n.op == Op::ZExt {
                    if let Some(n2) = self.node(n.a) {
                        if n2.op == Op::Concat {
                            if let V::C(s, 0) = n2.b {
                                let (_, h) = self.range(y);
                                if h < (1u128 << s) {
                                    let lo = self.extract(y, 0, s);
                                    let cc = self.concat(n2.a, lo);
                                    return Some(self.zext(cc, w));
                                }
                            }
                        }
                    }
                }
            }
        }
        None
    }

    pub fn not(&mut self, a: V) -> V {
        match a {
            V::C(_, x) => V::C(1, x ^ 1),
            V::T(t) => {
                let n = self.nodes[t as usize];
                if n.op == Op::Not {
                    return n.a;
                }
                self.mk(Op::Not, 1, a, NONE, NONE, 0)
            }
        }
    }
    pub fn and(&mut self, a: V, b: V) -> V {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: V, b: V) -> V {
        self.bin(Op::Or, a, b)
    }

    pub fn eq(&mut self, a: V, b: V) -> V {
        if a == b {
            return TRUE;
        }
        let (a, b) = match (a, b) {
            (V::C(_, x), V::C(_, y)) => return c(1, (x == y) as u128),
            (V::C(..), _) => (b, a),
            (V::T(x), V::T(y)) if x > y => (b, a),
            _ => (a, b),
        };
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl || bh < al {
            return FALSE;
        }
        let na = self.node(a).unwrap();
        if let V::C(_, k) = b {
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::ZExt => {
                    let iw = self.w(na.a);
                    return if k > mask(iw) { FALSE } else { self.eq(na.a, c(iw, k)) };
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let t = k & mask(iw);
                    let back = (sx(t, iw) as u128) & mask(w);
                    return if back == k { self.eq(na.a, c(iw, t)) } else { FALSE };
                }
                Op::Add => {
                    if let V::C(_, k2) = na.b {
                        return self.eq(na.a, c(w, k.wrapping_sub(k2)));
                    }
                }
                Op::Xor => {
                    if let V::C(_, k2) = na.b {
                        return self.eq(na.a, c(w, k ^ k2));
                    }
                }
                Op::Sub => {
                    // x - y == 0  <=> x == y ; k - y == k2
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let V::C(_, k2) = na.a {
                        return self.eq(na.b, c(w, k2.wrapping_sub(k)));
                    }
                }
                Op::Ite => {
                    let x = self.const_eq(na.b, k);
                    let y = self.const_eq(na.c, k);
                    match (x, y) {
                        (Some(true), Some(true)) => return TRUE,
                        (Some(true), Some(false)) => return na.a,
                        (Some(false), Some(true)) => return self.not(na.a),
                        (Some(false), Some(false)) => return FALSE,
                        (Some(false), None) => {
                            let e = self.eq(na.c, b);
                            let n = self.not(na.a);
                            return self.and(n, e);
                        }
                        (None, Some(false)) => {
                            let e = self.eq(na.b, b);
                            return self.and(na.a, e);
                        }
                        (Some(true), None) => {
                            let e = self.eq(na.c, b);
                            return self.or(na.a, e);
                        }
                        (None, Some(true)) => {
                            let e = self.eq(na.b, b);
                            let n = self.not(na.a);
                            return self.or(n, e);
                        }
                        _ => {}
                    }
                }
                Op::Concat => {
                    let lw = na.imm as u16;
                    let e1 = self.eq(na.a, c(w - lw, k >> lw));
                    let e2 = self.eq(na.b, c(lw, k));
                    return self.and(e1, e2);
                }
                Op::Or => {
                    if k == 0 {
                        let z = c(w, 0);
                        let e1 = self.eq(na.a, z);
                        let e2 = self.eq(na.b, z);
                        return self.and(e1, e2);
                    }
                }
                Op::Mul => {
                    // non-wrapping constant multiple
                    if let V::C(_, m2) = na.b {
                        let (_, h) = self.range(na.a);
                        if m2 > 0 && h.checked_mul(m2).map_or(false, |p| p <= mask(w)) {
                            return if k % m2 == 0 { self.eq(na.a, c(w, k / m2)) } else { FALSE };
                        }
                    }
                }
                _ => {}
            }
            if let Some((t, cf, rest, k0)) = self.lin_top(a, w) {
                if k < k0 {
                    return FALSE;
                }
                let kk = k - k0;
                let tw = self.w(V::T(t));
                if kk / cf > mask(tw) {
                    return FALSE;
                }
                let e1 = self.eq(V::T(t), c(tw, kk / cf));
                let e2 = self.eq(rest, c(w, kk % cf));
                return self.and(e1, e2);
            }
        } else {
            // zext(x) == zext(y)
            let nb = self.node(b).unwrap();
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (x, y) = (na.a, nb.a);
                let (wx, wy) = (self.w(x), self.w(y));
                let mw = wx.max(wy);
                let (x, y) = (self.zext(x, mw), self.zext(y, mw));
                return self.eq(x, y);
            }
            // x+k == x
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if w > 1 {
                if let (Some(p), Some(q)) = (self.lin(a), self.lin(b)) {
                    if *p == *q {
                        return TRUE;
                    }
                }
            } else if self.is_not(a, b) {
                return FALSE;
            }
        }
        self.mk(Op::Eq, 1, a, b, NONE, 0)
    }
    fn const_eq(&self, v: V, k: u128) -> Option<bool> {
        match v {
            V::C(_, x) => Some(x == k),
            V::T(_) => {
                let (l, h) = self.range(v);
                if k < l || k > h {
                    Some(false)
                } else {
                    None
                }
            }
        }
    }

    pub fn ult(&mut self, a: V, b: V) -> V {
        // x + z < x never holds when the addition cannot wrap
        if let Some(n) = self.node(a) {
            if n.op == Op::Add && (n.a == b || n.b == b) {
                let (h1, h2) = (self.range(n.a).1, self.range(n.b).1);
                if h1.checked_add(h2).map_or(false, |s| s <= mask(n.w)) {
                    return FALSE;
                }
            }
        }
        if a == b {
            return FALSE;
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl {
            return TRUE;
        }
        if al >= bh {
            return FALSE;
        }
        let w = self.w(a);
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let (Some(n), V::C(_, k)) = (self.node(a), b) {
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                return self.ult(n.a, c(iw, k)); // k <= ah <= mask(iw)
            }
            if k == 1 {
                return self.eq(a, c(w, 0));
            }
            if let Some((t, cf, rest, k0)) = self.lin_top(a, w) {
                if k <= k0 {
                    return FALSE;
                }
                let kk = k - k0;
                let tw = self.w(V::T(t));
                if kk / cf > mask(tw) {
                    return TRUE;
                }
                let q = c(tw, kk / cf);
                let l = self.ult(V::T(t), q);
                let e = self.eq(V::T(t), q);
                let r = self.ult(rest, c(w, kk % cf));
                let er = self.and(e, r);
                return self.or(l, er);
            }
            if n.op == Op::Ite {
                if let (V::C(_, x), V::C(_, y)) = (n.b, n.c) {
                    return self.ite(n.a, c(1, (x < k) as u128), c(1, (y < k) as u128));
                }
            }
        }
        if let (V::C(_, k), Some(n)) = (a, self.node(b)) {
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                return self.ult(c(iw, k), n.a);
            }
            if k == 0 {
                let e = self.eq(b, c(w, 0));
                return self.not(e);
            }
            if k < mask(w) && self.lin_top(b, w).is_some() {
                let l = self.ult(b, c(w, k + 1));
                return self.not(l);
            }
            if n.op == Op::Ite {
                if let (V::C(_, x), V::C(_, y)) = (n.b, n.c) {
                    return self.ite(n.a, c(1, (k < x) as u128), c(1, (k < y) as u128));
                }
            }
        }
        if let (Some(n), Some(m2)) = (self.node(a), self.node(b)) {
            if n.op == Op::ZExt && m2.op == Op::ZExt && self.w(n.a) == self.w(m2.a) {
                return self.ult(n.a, m2.a);
            }
        }
        self.mk(Op::Ult, 1, a, b, NONE, 0)
    }
    pub fn ule(&mut self, a: V, b: V) -> V {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: V, b: V) -> V {
        if a == b {
            return FALSE;
        }
        let w = self.w(a);
        if let (V::C(_, x), V::C(_, y)) = (a, b) {
            return c(1, (sx(x, w) < sx(y, w)) as u128);
        }
        let half = mask(w) >> 1;
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah <= half && bh <= half {
            return self.ult(a, b);
        }
        if al > half && bl > half {
            return self.ult(a, b);
        }
        if ah <= half && bl > half {
            return FALSE;
        }
        if al > half && bh <= half {
            return TRUE;
        }
        if let (Some(n), V::C(_, k)) = (self.node(a), b) {
            // 0 - x < 0 for a small x
            if n.op == Op::Sub && k == 0 && n.a == c(w, 0) && self.range(n.b).1 <= half {
                let e = self.eq(n.b, b);
                return self.not(e);
            }
            if n.op == Op::SExt {
                let iw = self.w(n.a);
                let t = k & mask(iw);
                if (sx(t, iw) as u128) & mask(w) == k {
                    return self.slt(n.a, c(iw, t));
                }
            }
            if n.op == Op::Ite {
                if let (V::C(_, x), V::C(_, y)) = (n.b, n.c) {
                    return self.ite(
                        n.a,
                        c(1, (sx(x, w) < sx(k, w)) as u128),
                        c(1, (sx(y, w) < sx(k, w)) as u128),
                    );
                }
            }
        }
        if let (V::C(_, k), Some(n)) = (a, self.node(b)) {
            if n.op == Op::SExt {
                let iw = self.w(n.a);
                let t = k & mask(iw);
                if (sx(t, iw) as u128) & mask(w) == k {
                    return self.slt(c(iw, t), n.a);
                }
            }
            if n.op == Op::Ite {
                if let (V::C(_, x), V::C(_, y)) = (n.b, n.c) {
                    return self.ite(
                        n.a,
                        c(1, (sx(k, w) < sx(x, w)) as u128),
                        c(1, (sx(k, w) < sx(y, w)) as u128),
                    );
                }
            }
        }
        self.mk(Op::Slt, 1, a, b, NONE, 0)
    }
    pub fn sle(&mut self, a: V, b: V) -> V {
        let x = self.slt(b, a);
        self.not(x)
    }

    pub fn ite(&mut self, cnd: V, a: V, b: V) -> V {
        if let V::C(_, k) = cnd {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(n) = self.node(cnd) {
            if n.op == Op::Not {
                return self.ite(n.a, b, a);
            }
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (a, b) {
                (V::C(_, 1), V::C(_, 0)) => return cnd,
                (V::C(_, 0), V::C(_, 1)) => return self.not(cnd),
                (V::C(_, 1), _) => return self.or(cnd, b),
                (V::C(_, 0), _) => {
                    let n = self.not(cnd);
                    return self.and(n, b);
                }
                (_, V::C(_, 0)) => return self.and(cnd, a),
                (_, V::C(_, 1)) => {
                    let n = self.not(cnd);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // x == 0 ? 0 - x : x
        if let (Some(e), Some(n)) = (self.node(cnd), self.node(a)) {
            if e.op == Op::Eq && e.b == c(w, 0) && e.a == b && n.op == Op::Sub && n.a == c(w, 0) && n.b == b {
                return b;
            }
        }
        // nested same condition
        if let Some(n) = self.node(a) {
            if n.op == Op::Ite && n.a == cnd {
                return self.ite(cnd, n.b, b);
            }
        }
        if let Some(n) = self.node(b) {
            if n.op == Op::Ite && n.a == cnd {
                return self.ite(cnd, a, n.c);
            }
        }
        self.mk(Op::Ite, w, cnd, a, b, 0)
    }

    pub fn zext(&mut self, a: V, w: u16) -> V {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        match a {
            V::C(_, k) => V::C(w, k),
            V::T(_) => {
                let n = self.node(a).unwrap();
                match n.op {
                    Op::ZExt => return self.zext(n.a, w),
                    Op::Ite => {
                        if let (V::C(_, x), V::C(_, y)) = (n.b, n.c) {
                            return self.ite(n.a, V::C(w, x), V::C(w, y));
                        }
                    }
                    // distribute over non-wrapping linear arithmetic so that linear forms survive
                    Op::Add => {
                        let (_, ah) = self.range(n.a);
                        let (_, bh) = self.range(n.b);
                        if ah.checked_add(bh).map_or(false, |s| s <= mask(aw)) {
                            let x = self.zext(n.a, w);
                            let y = self.zext(n.b, w);
                            return self.bin(Op::Add, x, y);
                        }
                    }
                    Op::Mul => {
                        let (_, ah) = self.range(n.a);
                        let (_, bh) = self.range(n.b);
                        if ah.checked_mul(bh).map_or(false, |s| s <= mask(aw)) {
                            let x = self.zext(n.a, w);
                            let y = self.zext(n.b, w);
                            return self.bin(Op::Mul, x, y);
                        }
                    }
                    _ => {}
                }
                self.mk(Op::ZExt, w, a, NONE, NONE, 0)
            }
        }
    }
    pub fn sext(&mut self, a: V, w: u16) -> V {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let V::C(_, k) = a {
            return c(w, sx(k, aw) as u128);
        }
        let (_, h) = self.range(a);
        if h <= mask(aw) >> 1 {
            return self.zext(a, w);
        }
        let n = self.node(a).unwrap();
        if n.op == Op::Ite {
            if let (V::C(_, x), V::C(_, y)) = (n.b, n.c) {
                return self.ite(n.a, c(w, sx(x, aw) as u128), c(w, sx(y, aw) as u128));
            }
        }
        if n.op == Op::Sub && n.a == c(aw, 0) && self.range(n.b).1 <= 1u128 << (aw - 1) {
            let x = self.zext(n.b, w);
            return self.bin(Op::Sub, c(w, 0), x);
        }
        if aw == 1 {
            return self.ite(a, c(w, mask(w)), c(w, 0));
        }
        self.mk(Op::SExt, w, a, NONE, NONE, 0)
    }
    pub fn extract(&mut self, a: V, lo: u16, w: u16) -> V {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        if let V::C(_, k) = a {
            return c(w, k >> lo);
        }
        let n = self.node(a).unwrap();
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.imm as u16, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return c(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                let lw = n.imm as u16;
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::Ite => {
                if let (V::C(..), V::C(..)) = (n.b, n.c) {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if matches!(n.b, V::C(..)) {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Mul | Op::Sub if lo == 0 => {
                // truncation distributes; do it when it cannot lose the "no wrap" structure
                let (_, h) = self.range(a);
                if matches!(n.b, V::C(..)) || h <= mask(w) {
                    let x = self.extract(n.a, 0, w);
                    let y = self.extract(n.b, 0, w);
                    return self.bin(n.op, x, y);
                }
            }
            _ => {}
        }
        let (_, h) = self.range(a);
        if lo > 0 && (h >> lo) == 0 {
            return c(w, 0);
        }
        self.mk(Op::Extract, w, a, NONE, NONE, lo as u64)
    }
    pub fn concat(&mut self, hi: V, lo: V) -> V {
        let (hw, lw) = (self.w(hi), self.w(lo));
        if hw == 0 {
            return lo;
        }
        if lw == 0 {
            return hi;
        }
        let w = hw + lw;
        if let (V::C(_, x), V::C(_, y)) = (hi, lo) {
            return V::C(w, (x << lw) | y);
        }
        if let V::C(_, 0) = hi {
            return self.zext(lo, w);
        }
        let nh = self.node(hi);
        let nl = self.node(lo);
        if let (Some(h), Some(l)) = (nh, nl) {
            if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.imm == l.imm + lw as u64 {
                return self.extract(h.a, l.imm as u16, w);
            }
            // concat(extract(x, k..), x) where x is narrower than... (zext'd) handled elsewhere
        }
        // concat(extract(x,lw,..), trunc x) pattern where lo is a whole narrower extract simplification of a zext
        if let Some(h) = nh {
            // right-assoc: concat(concat(a,b),c) -> concat(a, concat(b,c)) when b,c merge
            if h.op == Op::Concat {
                let bc_mergeable = match (self.node(h.b), nl) {
                    (Some(x), Some(y)) => {
                        x.op == Op::Extract && y.op == Op::Extract && x.a == y.a && x.imm == y.imm + lw as u64
                    }
                    (None, None) => true,
                    _ => false,
                };
                if bc_mergeable {
                    let m = self.concat(h.b, lo);
                    return self.concat(h.a, m);
                }
            }
            if h.op == Op::ZExt {
                // concat(zext(x), y) = zext(concat(x, y))
                let m = self.concat(h.a, lo);
                return self.zext(m, w);
            }
        }
        if let Some(l) = nl {
            if l.op == Op::Concat {
                if let (Some(x), Some(y)) = (nh, self.node(l.a)) {
                    if x.op == Op::Extract
                        && y.op == Op::Extract
                        && x.a == y.a
                        && x.imm == y.imm + y.w as u64
                    {
                        let m = self.concat(hi, l.a);
                        return self.concat(m, l.b);
                    }
                }
                if let (V::C(..), V::C(..)) = (hi, l.a) {
                    let m = self.concat(hi, l.a);
                    return self.concat(m, l.b);
                }
            }
        }
        self.mk(Op::Concat, w, hi, lo, NONE, lw as u64)
    }

    // ---------------------------------------------------------------- linear forms
    pub fn lin(&mut self, v: V) -> Option<std::rc::Rc<Lin>> {
        match v {
            V::C(_, k) => Some(std::rc::Rc::new(Lin { k, t: vec![] })),
            V::T(t) => {
                if let Some(r) = self.lin_cache.get(&t) {
                    return r.clone();
                }
                let n = self.nodes[t as usize];
                let m = mask(n.w);
                let r = match n.op {
                    Op::Add => {
                        let (_, ah) = self.range(n.a);
                        let (_, bh) = self.range(n.b);
                        if ah.checked_add(bh).map_or(false, |s| s <= m) {
                            match (self.lin(n.a), self.lin(n.b)) {
                                (Some(p), Some(q)) => Some(lin_add(&p, &q)),
                                _ => None,
                            }
                        } else {
                            None
                        }
                    }
                    Op::Mul => {
                        if let V::C(_, k) = n.b {
                            let (_, ah) = self.range(n.a);
                            if ah.checked_mul(k).map_or(false, |s| s <= m) {
                                self.lin(n.a).map(|p| Lin {
                                    k: p.k * k,
                                    t: p.t.iter().map(|(t, c)| (*t, c * k)).collect(),
                                })
                            } else {
                                None
                            }
                        } else {
                            None
                        }
                    }
                    Op::ZExt => self.lin(n.a).map(|l| (*l).clone()),
                    Op::Extract if n.imm == 0 && self.range(n.a).1 <= m => self.lin(n.a).map(|l| (*l).clone()),
                    _ => None,
                };
                let r = r.unwrap_or_else(|| Lin { k: 0, t: vec![(t, 1)] });
                let r = Some(std::rc::Rc::new(r));
                self.lin_cache.insert(t, r.clone());
                r
            }
        }
    }
    /// a = k0 + cf*t + rest with 0 <= rest < cf, at least two addends, no wrap
    fn lin_top(&mut self, a: V, w: u16) -> Option<(Tid, u128, V, u128)> {
        match self.node(a).map(|n| n.op) {
            Some(Op::Add) | Some(Op::Mul) => {}
            _ => return None,
        }
        let l = self.lin(a)?;
        if l.t.len() < 2 {
            if l.t.len() == 1 && l.t[0].1 > 1 {
                return Some((l.t[0].0, l.t[0].1, c(w, 0), l.k));
            }
            return None;
        }
        let (ti, _) = l.t.iter().enumerate().max_by_key(|(_, x)| x.1)?;
        let (t, cf) = l.t[ti];
        let mut rh: u128 = 0;
        let mut r = Lin { k: 0, t: vec![] };
        for (j, (u, k)) in l.t.iter().enumerate() {
            if j != ti {
                rh = rh.checked_add(self.hi[*u as usize].checked_mul(*k)?)?;
                r.t.push((*u, *k));
            }
        }
        if rh >= cf {
            return None;
        }
        let rest = self.from_lin(&r, w);
        Some((t, cf, rest, l.k))
    }
    pub fn from_lin(&mut self, l: &Lin, w: u16) -> V {
        let mut acc = c(w, 0);
        for (t, k) in &l.t {
            let a = V::T(*t);
            let a = if self.w(a) < w {
                self.zext(a, w)
            } else if self.w(a) > w {
                self.extract(a, 0, w)
            } else {
                a
            };
            let p = self.bin(Op::Mul, a, c(w, *k));
            acc = self.bin(Op::Add, acc, p);
        }
        self.bin(Op::Add, acc, c(w, l.k))
    }
    /// c*(x % k) + c*k*(x / k) = c*x
    fn recombine(&mut self, a: V, b: V, w: u16) -> Option<V> {
        let (ah, bh) = (self.range(a).1, self.range(b).1);
        if ah.checked_add(bh).map_or(true, |s| s > mask(w)) {
            return None;
        }
        let (p, q) = (self.lin(a)?, self.lin(b)?);
        let divs = |s: &Self, l: &Lin| l.t.iter().any(|(t, _)| matches!(s.nodes[*t as usize].op, Op::UDiv | Op::URem));
        if !divs(self, &p) || !divs(self, &q) {
            return None;
        }
        let mut l = lin_add(&p, &q);
        let mut changed = false;
        'again: loop {
            for j in 0..l.t.len() {
                let (t, cf) = l.t[j];
                let n = self.nodes[t as usize];
                let k = match (n.op, n.b) {
                    (Op::UDiv, V::C(_, k)) | (Op::URem, V::C(_, k)) if k > 1 => k,
                    _ => continue,
                };
                let (other, base) = if n.op == Op::UDiv {
                    if cf % k != 0 {
                        continue;
                    }
                    (self.bin(Op::URem, n.a, n.b), cf / k)
                } else {
                    (self.bin(Op::UDiv, n.a, n.b), cf)
                };
                let want = if n.op == Op::UDiv { base } else { base * k };
                let ol = self.lin(other)?;
                if ol.k != 0 || ol.t.len() != 1 || ol.t[0].1 != 1 {
                    continue;
                }
                if let Some(e) = l.t.iter().position(|x| *x == (ol.t[0].0, want)) {
                    let x = self.lin(n.a)?;
                    let scaled = Lin { k: x.k * base, t: x.t.iter().map(|(t, c)| (*t, c * base)).collect() };
                    let keep = Lin { k: l.k, t: l.t.iter().enumerate().filter(|(i, _)| *i != j && *i != e).map(|(_, x)| *x).collect() };
                    l = lin_add(&keep, &scaled);
                    changed = true;
                    continue 'again;
                }
            }
            break;
        }
        if changed {
            Some(self.from_lin(&l, w))
        } else {
            None
        }
    }
    fn rem_lin(&mut self, a: V, k: u128, w: u16) -> Option<V> {
        let l = self.lin(a)?;
        let mut changed = l.k >= k;
        let mut r = Lin { k: l.k % k, t: vec![] };
        for (t, cf) in &l.t {
            let x = cf % k;
            if x != *cf {
                changed = true;
            }
            if x != 0 {
                r.t.push((*t, x));
            }
        }
        if !changed {
            return None;
        }
        let s = self.from_lin(&r, w);
        Some(self.bin(Op::URem, s, c(w, k)))
    }
    fn div_lin(&mut self, a: V, k: u128, w: u16) -> Option<V> {
        let l = self.lin(a)?;
        // split into  k*Q + R  with R < k  =>  a / k = Q
        let mut q = Lin { k: l.k / k, t: vec![] };
        let mut rhi: u128 = l.k % k;
        for (t, cf) in &l.t {
            if cf % k == 0 {
                q.t.push((*t, cf / k));
            } else {
                rhi = rhi.checked_add(self.hi[*t as usize].checked_mul(*cf)?)?;
            }
        }
        if rhi < k && !(q.t.is_empty() && q.k == 0) {
            Some(self.from_lin(&q, w))
        } else {
            None
        }
    }

    // ---------------------------------------------------------------- floats
    pub fn fbin(&mut self, op: Op, a: V, b: V) -> V {
        let w = self.w(a);
        if let (V::C(_, x), V::C(_, y)) = (a, b) {
            return V::C(w, fp_bin(op, w, x, y));
        }
        if op == Op::FRem {
            // fmod is exact: for a positive integer modulus it acts on the integer part only
            if let Some(k) = self.small_int(b) {
                if k > 0 {
                    if let Some(x) = self.exact_uint(a) {
                        let xw = self.w(x);
                        let x = self.zext(x, xw.max(64));
                        let xw = self.w(x);
                        let r = self.bin(Op::URem, x, c(xw, k));
                        return self.un(Op::UiToFp, w, r, 0);
                    }
                    if let Some((i, f, imm)) = self.frac(a) {
                        let r = self.bin(Op::URem, i, c(64, k));
                        if r == i {
                            return a;
                        }
                        return self.frac_term(r, f, retag(imm, k as u64));
                    }
                }
            }
        }
        // sign symmetry: exact in round-to-nearest, for operands that are never NaN
        match (self.neg_of(a), self.neg_of(b)) {
            (Some(x), Some(y)) => match op {
                Op::FAdd => {
                    let r = self.fbin(op, x, y);
                    return self.fneg(r);
                }
                Op::FSub => return self.fbin(op, y, x),
                Op::FMul | Op::FDiv => return self.fbin(op, x, y),
                Op::FRem => {
                    let r = self.fbin(op, x, y);
                    return self.fneg(r);
                }
                _ => {}
            },
            (Some(x), None) => match op {
                Op::FMul | Op::FDiv | Op::FRem => {
                    let r = self.fbin(op, x, b);
                    return self.fneg(r);
                }
                Op::FSub => {
                    // (-x) - b = -(x + b); a zero sum of two non-negative operands is the only sign question
                    if self.nonneg(b).is_some() {
                        let r = self.fbin(Op::FAdd, x, b);
                        return self.fneg(r);
                    }
                }
                Op::FAdd if self.nonneg(b).is_some() => return self.fbin(Op::FSub, b, x),
                _ => {}
            },
            (None, Some(y)) => match op {
                Op::FMul | Op::FDiv if self.nonneg(a).is_some() => {
                    let r = self.fbin(op, a, y);
                    return self.fneg(r);
                }
                Op::FRem => return self.fbin(op, a, y),
                Op::FSub => return self.fbin(Op::FAdd, a, y),
                Op::FAdd if self.nonneg(a).is_some() => return self.fbin(Op::FSub, a, y),
                _ => {}
            },
            _ => {}
        }
        if op == Op::FSub && a == b && (self.as_uint(a).is_some() || self.frac(a).is_some()) {
            return c(w, 0);
        }
        if op == Op::FSub {
            // n - trunc(n) is exact
            if let (Some((i, f, imm)), Some(j)) = (self.frac(a), self.as_uint(b)) {
                let j = self.zext(j, 64);
                if i == j {
                    return self.frac_term(c(64, 0), f, retag(imm, 1));
                }
            }
            if let (Some(j), Some((i, f, imm))) = (self.as_uint(a), self.frac(b)) {
                let j = self.zext(j, 64);
                if i == j {
                    let r = self.frac_term(c(64, 0), f, retag(imm, 1));
                    return self.fneg(r);
                }
            }
        }
        self.mk(op, w, a, b, NONE, 0)
    }
    fn small_int(&self, v: V) -> Option<u128> {
        // constant float that is a non-negative integer < 2^53 (f64) / 2^24 (f32)
        if let V::C(w, k) = v {
            let x = f_of(w, k);
            let lim = if w == 32 { 16777216.0 } else { 9007199254740992.0 };
            if x >= 0.0 && x < lim && x.fract() == 0.0 {
                return Some(x as u128);
            }
        }
        None
    }
    /// smallest unsigned x of width `iw` whose conversion is >= y (strict: > y); None if there is none.
    /// Conversions round to nearest and are monotone, so comparisons against a constant are exact thresholds.
    fn threshold(iw: u16, fw: u16, y: f64, strict: bool) -> Option<u128> {
        let ok = |x: u128| {
            let v = if fw == 32 { (x as f32) as f64 } else { x as f64 };
            if strict {
                v > y
            } else {
                v >= y
            }
        };
        let (mut lo, mut hi) = (0u128, mask(iw));
        if !ok(hi) {
            return None;
        }
        while lo < hi {
            let m = lo + (hi - lo) / 2;
            if ok(m) {
                hi = m;
            } else {
                lo = m + 1;
            }
        }
        Some(lo)
    }
    /// conversion of x >= y (or > y)
    fn conv_ge(&mut self, x: V, fw: u16, y: f64, strict: bool) -> V {
        let iw = self.w(x);
        match Self::threshold(iw, fw, y, strict) {
            None => FALSE,
            Some(t) => {
                let b = self.ult(x, c(iw, t));
                self.not(b)
            }
        }
    }
    /// Some((int term, exact)) if v is a conversion of an unsigned integer
    fn as_uint(&self, v: V) -> Option<V> {
        self.node(v).and_then(|n| if n.op == Op::UiToFp { Some(n.a) } else { None })
    }
    fn exact_uint(&self, v: V) -> Option<V> {
        let n = self.node(v)?;
        if n.op == Op::UiToFp {
            let (_, h) = self.range(n.a);
            let lim = if n.w == 32 { 1u128 << 24 } else { 1u128 << 53 };
            if h <= lim {
                return Some(n.a);
            }
        }
        None
    }
    fn frac(&self, v: V) -> Option<(V, V, u64)> {
        self.node(v).and_then(|n| if n.op == Op::FFrac { Some((n.a, n.b, n.imm)) } else { None })
    }
    /// v as i + f / 10^d with short decimals, so that order and equality of the f64s are those of the decimals
    fn decimal(&self, v: V) -> Option<(V, V, u32)> {
        match v {
            V::C(w, k) => {
                let y = f_of(w, k);
                if !(y > 0.0 && y < 1e15 && y.fract() != 0.0) {
                    return None;
                }
                let t = format!("{}", y);
                if t.len() > 16 {
                    return None;
                }
                let (a, b) = t.split_once('.')?;
                Some((c(64, a.parse().ok()?), c(64, b.parse().ok()?), b.len() as u32))
            }
            V::T(_) => {
                let (i, f, imm) = self.frac(v)?;
                if imm >> 16 != 0 {
                    return None;
                }
                Some((i, f, imm as u32))
            }
        }
    }
    /// (i == j, f < g, f == g) of two decimals; None when out of reach
    fn dec_cmp(&mut self, a: V, b: V) -> Option<(V, V, V, V)> {
        let ((i, f, p), (j, g, q)) = (self.decimal(a)?, self.decimal(b)?);
        if p != q && p.max(q) > 18 {
            return None;
        }
        let m = p.max(q);
        let f = self.zext(f, 128);
        let g = self.zext(g, 128);
        let f = self.bin(Op::Mul, f, c(128, 10u128.pow(m - p)));
        let g = self.bin(Op::Mul, g, c(128, 10u128.pow(m - q)));
        let (i, j) = self.cmp_w(i, j);
        let ieq = self.eq(i, j);
        let ilt = self.ult(i, j);
        let flt = self.ult(f, g);
        let feq = self.eq(f, g);
        Some((ieq, ilt, flt, feq))
    }
    fn cmp_w(&mut self, a: V, b: V) -> (V, V) {
        let (wa, wb) = (self.w(a), self.w(b));
        let m = wa.max(wb);
        (self.zext(a, m), self.zext(b, m))
    }
    /// (is never negative and never NaN, is zero) of an integer conversion or fraction
    fn nonneg(&mut self, a: V) -> Option<V> {
        if self.frac(a).is_some() {
            return Some(FALSE);
        }
        let x = self.as_uint(a)?;
        let w = self.w(x);
        Some(self.eq(x, c(w, 0)))
    }
    /// x such that a = -x and x is never NaN and never negative
    fn neg_of(&mut self, a: V) -> Option<V> {
        let x = self.negated(a)?;
        self.nonneg(x).map(|_| x)
    }
    fn negated(&self, a: V) -> Option<V> {
        let w = self.w(a);
        self.node(a).and_then(|n| if n.op == Op::Xor && n.b == c(w, 1u128 << (w - 1)) { Some(n.a) } else { None })
    }
    pub fn feq(&mut self, a: V, b: V) -> V {
        match (self.negated(a), self.negated(b)) {
            (Some(x), Some(y)) => return self.feq(x, y),
            (Some(x), None) | (None, Some(x)) => {
                let y = if self.negated(a).is_some() { b } else { a };
                if let (Some(p), Some(q)) = (self.nonneg(x), self.nonneg(y)) {
                    return self.and(p, q);
                }
                if let (Some(p), V::C(w, k)) = (self.nonneg(x), y) {
                    let k = f_of(w, k);
                    if k > 0.0 || k.is_nan() {
                        return FALSE;
                    }
                    if k == 0.0 {
                        return p;
                    }
                    let y = self.fneg(y);
                    return self.feq(x, y);
                }
            }
            _ => {}
        }
        if let (V::C(w, x), V::C(_, y)) = (a, b) {
            return c(1, (f_of(w, x) == f_of(w, y)) as u128);
        }
        let (a, b) = if let V::C(..) = a { (b, a) } else { (a, b) };
        if let V::C(w, k) = b {
            if f_of(w, k).is_nan() {
                return FALSE;
            }
        }
        if let (Some(x), V::C(w, k), None) = (self.as_uint(a), b, self.small_int(b)) {
            let y = f_of(w, k);
            let ge = self.conv_ge(x, w, y, false);
            let gt = self.conv_ge(x, w, y, true);
            let ng = self.not(gt);
            return self.bin(Op::And, ge, ng);
        }
        if let Some(x) = self.as_uint(a) {
            if let Some(k) = self.small_int(b) {
                let xw = self.w(x);
                return if k > mask(xw) { FALSE } else { self.eq(x, c(xw, k)) };
            }
            if let V::C(w, k) = b {
                let y = f_of(w, k);
                if y < 0.0 || y.fract() != 0.0 {
                    return FALSE;
                }
            }
        }
        if let (Some(x), Some(y)) = (self.exact_uint(a), self.exact_uint(b)) {
            let (x, y) = self.cmp_w(x, y);
            return self.eq(x, y);
        }
        if let (Some(x), Some(y)) = (self.as_uint(a), self.as_uint(b)) {
            // equal integers convert equally; otherwise rounding may still make them equal
            let (x, y) = self.cmp_w(x, y);
            let e = self.eq(x, y);
            if e == TRUE {
                return TRUE;
            }
            let f = self.mk(Op::FEq, 1, a, b, NONE, 0);
            return self.bin(Op::Or, e, f);
        }
        for (p, q) in [(a, b), (b, a)] {
            if self.frac(p).is_some() {
                if self.as_uint(q).is_some() {
                    return FALSE;
                }
                if let V::C(w, k) = q {
                    let y = f_of(w, k);
                    if y.fract() == 0.0 || y < 0.0 {
                        return FALSE;
                    }
                }
            }
        }
        if a == b {
            let n = self.fisnan(a);
            return self.not(n);
        }
        if let Some((ieq, _, _, feq)) = self.dec_cmp(a, b) {
            return self.and(ieq, feq);
        }
        self.mk(Op::FEq, 1, a, b, NONE, 0)
    }
    pub fn flt(&mut self, a: V, b: V) -> V {
        if let (V::C(w, x), V::C(_, y)) = (a, b) {
            return c(1, (f_of(w, x) < f_of(w, y)) as u128);
        }
        if let Some(r) = self.fcmp_int(a, b, true) {
            return r;
        }
        if a == b {
            return FALSE;
        }
        self.mk(Op::FLt, 1, a, b, NONE, 0)
    }
    pub fn fle(&mut self, a: V, b: V) -> V {
        if let (V::C(w, x), V::C(_, y)) = (a, b) {
            return c(1, (f_of(w, x) <= f_of(w, y)) as u128);
        }
        if let Some(r) = self.fcmp_int(a, b, false) {
            return r;
        }
        self.mk(Op::FLe, 1, a, b, NONE, 0)
    }
    fn fcmp_int(&mut self, a: V, b: V, strict: bool) -> Option<V> {
        match (self.negated(a), self.negated(b)) {
            (Some(x), Some(y)) => return Some(if strict { self.flt(y, x) } else { self.fle(y, x) }),
            (Some(x), None) => {
                // -x < y
                if let (Some(p), Some(q)) = (self.nonneg(x), self.nonneg(b)) {
                    if !strict {
                        return Some(TRUE);
                    }
                    let z = self.and(p, q);
                    return Some(self.not(z));
                }
                if let (Some(p), V::C(w, k)) = (self.nonneg(x), b) {
                    let k = f_of(w, k);
                    if k > 0.0 || (k == 0.0 && !strict) {
                        return Some(TRUE);
                    }
                    if k == 0.0 {
                        return Some(self.not(p));
                    }
                    if k < 0.0 {
                        let y = self.fneg(b);
                        return Some(if strict { self.flt(y, x) } else { self.fle(y, x) });
                    }
                }
            }
            (None, Some(y)) => {
                // x < -y
                if let (Some(p), Some(q)) = (self.nonneg(a), self.nonneg(y)) {
                    return Some(if strict { FALSE } else { self.and(p, q) });
                }
                if let (V::C(w, k), Some(q)) = (a, self.nonneg(y)) {
                    let k = f_of(w, k);
                    if k > 0.0 || (k == 0.0 && strict) {
                        return Some(FALSE);
                    }
                    if k == 0.0 {
                        return Some(q);
                    }
                    if k < 0.0 {
                        let x = self.fneg(a);
                        return Some(if strict { self.flt(y, x) } else { self.fle(y, x) });
                    }
                }
            }
            _ => {}
        }
        // integer-valued conversions against small integer constants or each other
        if let (Some(x), Some(k)) = (self.as_uint(a), self.small_int(b)) {
            let w = self.w(x);
            if k > mask(w) {
                return Some(TRUE);
            }
            let kc = c(w, k);
            return Some(if strict { self.ult(x, kc) } else { self.ule(x, kc) });
        }
        if let (Some(k), Some(x)) = (self.small_int(a), self.as_uint(b)) {
            let w = self.w(x);
            if k > mask(w) {
                return Some(FALSE);
            }
            let kc = c(w, k);
            return Some(if strict { self.ult(kc, x) } else { self.ule(kc, x) });
        }
        if let (Some(x), Some(y)) = (self.exact_uint(a), self.exact_uint(b)) {
            let (x, y) = self.cmp_w(x, y);
            return Some(if strict { self.ult(x, y) } else { self.ule(x, y) });
        }
        if a != b {
            if let Some((ieq, ilt, flt, feq)) = self.dec_cmp(a, b) {
                let last = if strict { flt } else { self.or(flt, feq) };
                let x = self.and(ieq, last);
                return Some(self.or(ilt, x));
            }
        }
        // fractional value i < n < i+1
        if let Some((i, _, _)) = self.frac(a) {
            if let Some(k) = self.small_int(b) {
                return Some(self.ult(i, c(64, k)));
            }
            if let Some(j) = self.exact_uint(b) {
                let (i, j) = self.cmp_w(i, j);
                return Some(self.ult(i, j));
            }
            if let V::C(w, k) = b {
                let y = f_of(w, k);
                if y < 0.0 {
                    return Some(FALSE);
                }
                if y == f64::INFINITY {
                    return Some(TRUE);
                }
            }
        }
        if let Some((i, _, _)) = self.frac(b) {
            if let Some(k) = self.small_int(a) {
                return Some(self.ule(c(64, k), i));
            }
            if let Some(j) = self.exact_uint(a) {
                let (i, j) = self.cmp_w(i, j);
                return Some(self.ule(j, i));
            }
            if let V::C(w, k) = a {
                let y = f_of(w, k);
                if y < 0.0 {
                    return Some(TRUE);
                }
                if y == f64::INFINITY {
                    return Some(FALSE);
                }
            }
        }
        if let (Some(x), V::C(w, k)) = (self.as_uint(a), b) {
            let y = f_of(w, k);
            if y.is_nan() {
                return Some(FALSE);
            }
            let g = self.conv_ge(x, w, y, !strict);
            return Some(self.not(g));
        }
        if let (V::C(w, k), Some(x)) = (a, self.as_uint(b)) {
            let y = f_of(w, k);
            if y.is_nan() {
                return Some(FALSE);
            }
            return Some(self.conv_ge(x, w, y, strict));
        }
        // conversions of unsigned ints are never negative nor NaN
        if self.as_uint(b).is_some() {
            if let V::C(w, k) = a {
                let y = f_of(w, k);
                if y.is_nan() {
                    return Some(FALSE);
                }
                if y < 0.0 {
                    return Some(TRUE);
                }
            }
        }
        if self.as_uint(a).is_some() {
            if let V::C(w, k) = b {
                let y = f_of(w, k);
                if y.is_nan() || y < 0.0 {
                    return Some(FALSE);
                }
            }
        }
        None
    }
    pub fn fisnan(&mut self, a: V) -> V {
        if let V::C(w, x) = a {
            return c(1, f_of(w, x).is_nan() as u128);
        }
        if let Some(x) = self.negated(a) {
            return self.fisnan(x);
        }
        match self.node(a).unwrap().op {
            Op::UiToFp | Op::SiToFp | Op::FFrac => return FALSE,
            Op::FDiv | Op::FMul => {
                // finite (exact int) op nonzero finite constant is never NaN
                let n = self.node(a).unwrap();
                if self.exact_uint(n.a).is_some() {
                    if let V::C(w, k) = n.b {
                        let y = f_of(w, k);
                        if y.is_finite() && y != 0.0 {
                            return FALSE;
                        }
                    }
                }
            }
            _ => {}
        }
        self.mk(Op::FIsNan, 1, a, NONE, NONE, 0)
    }
    pub fn fneg(&mut self, a: V) -> V {
        let w = self.w(a);
        self.bin(Op::Xor, a, c(w, 1u128 << (w - 1)))
    }
    pub fn fabs(&mut self, a: V) -> V {
        let w = self.w(a);
        if let Some(n) = self.node(a) {
            if matches!(n.op, Op::UiToFp | Op::FFrac) {
                return a;
            }
            if n.op == Op::Xor && n.b == c(w, 1u128 << (w - 1)) {
                return self.fabs(n.a);
            }
        }
        self.bin(Op::And, a, c(w, mask(w) >> 1))
    }
    pub fn un(&mut self, op: Op, w: u16, a: V, imm: u64) -> V {
        let aw = self.w(a);
        if let V::C(_, x) = a {
            let n = Node { op, w, a, b: NONE, c: NONE, imm };
            return V::C(w, eval_op(&n, x, 0, 0, aw));
        }
        if matches!(op, Op::FRound | Op::FpConv | Op::FpToUi | Op::FpToSi) {
            if let Some(x) = self.neg_of(a) {
                match op {
                    Op::FRound => {
                        let imm = match imm {
                            0 => 1,
                            1 => 0,
                            k => k,
                        };
                        let r = self.un(op, w, x, imm);
                        return self.fneg(r);
                    }
                    Op::FpConv => {
                        let r = self.un(op, w, x, imm);
                        return self.fneg(r);
                    }
                    Op::FpToUi => return c(w, 0),
                    _ => {
                        let int = self.as_uint(x).or_else(|| self.frac(x).map(|t| t.0));
                        if let Some(i) = int {
                            if self.range(i).1 < (mask(w) >> 1).min(1 << 53) {
                                let r = self.un(op, w, x, imm);
                                return self.bin(Op::Sub, c(w, 0), r);
                            }
                        }
                    }
                }
            }
        }
        match op {
            Op::UiToFp => {
                // canonical: strip zext
                if let Some(n) = self.node(a) {
                    if n.op == Op::ZExt {
                        return self.un(op, w, n.a, imm);
                    }
                }
            }
            Op::SiToFp => {
                let (_, h) = self.range(a);
                if h <= mask(aw) >> 1 {
                    return self.un(Op::UiToFp, w, a, 0);
                }
            }
            Op::FpToUi | Op::FpToSi => {
                if let Some(x) = self.exact_uint(a) {
                    let (_, h) = self.range(x);
                    let lim = if op == Op::FpToUi { mask(w) } else { mask(w) >> 1 };
                    if h <= lim {
                        let xw = self.w(x);
                        return if xw < w { self.zext(x, w) } else { self.extract(x, 0, w) };
                    }
                }
                if let Some((i, _, _)) = self.frac(a) {
                    let (_, h) = self.range(i);
                    let lim = if op == Op::FpToUi { mask(w) } else { mask(w) >> 1 };
                    if h <= lim {
                        return if w == 64 { i } else { self.extract(i, 0, w) };
                    }
                }
            }
            Op::FRound => {
                if self.as_uint(a).is_some() {
                    return a;
                }
                if let Some((i, _, _)) = self.frac(a) {
                    if imm == 0 || imm == 2 {
                        return self.un(Op::UiToFp, w, i, 0);
                    }
                    if imm == 1 {
                        let j = self.bin(Op::Add, i, c(64, 1));
                        return self.un(Op::UiToFp, w, j, 0);
                    }
                }
            }
            Op::FpConv => {
                if let Some((i, f, imm)) = self.frac(a) {
                    // at most 6 significant digits: still strictly between two integers, and injective
                    let ((_, ih), (_, fh)) = (self.range(i), self.range(f));
                    let short = imm <= 6 && ih < 1_000_000 && ih * 10u128.pow(imm.min(6) as u32) + fh < 1_000_000;
                    let small = imm <= 36 && ih == 0 && fh < 1_000_000;
                    if w == 32 && aw == 64 && (short || small) {
                        return self.mk(Op::FFrac, 32, i, f, NONE, imm);
                    }
                }
                if let Some(x) = self.exact_uint(a) {
                    let (_, h) = self.range(x);
                    if w == 64 || h <= 1 << 24 {
                        return self.un(Op::UiToFp, w, x, 0);
                    }
                }
            }
            _ => {}
        }
        self.mk(op, w, a, NONE, NONE, imm)
    }
}

fn retag(imm: u64, k: u64) -> u64 {
    (imm & 0xffff) | ((imm >> 16) ^ k.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1) << 16
}
fn lin_add(p: &Lin, q: &Lin) -> Lin {
    let mut t = p.t.clone();
    for (a, k) in &q.t {
        if let Some(e) = t.iter_mut().find(|(b, _)| b == a) {
            e.1 += k;
        } else {
            t.push((*a, *k));
        }
    }
    t.sort_unstable();
    Lin { k: p.k + q.k, t }
}
