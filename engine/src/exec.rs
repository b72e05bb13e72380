//! Symbolic executor over the parsed LLVM IR.
use crate::ir::*;
use crate::smt::{Res, Smt};
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
struct B {
    t: u32,
    i: u8,
}
const CONC: u32 = u32::MAX;

#[derive(Clone)]
struct Obj {
    bytes: Vec<B>,
    heap: bool,
}

pub struct Model {
    vals: FxMap<u32, u128>,
    memo: RefCell<FxMap<Tid, u128>>,
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    b: u32,
    i: usize,
    regs: Vec<Val>,
    ret: Option<u32>,
    allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Rc<Obj>>,
    pc: Vec<V>,
    known: FxMap<Tid, bool>,
    conc: FxMap<Tid, u128>,
    model: Rc<Model>,
    inputs: Vec<(String, V)>,
    next: u64,
    steps: u64,
    covers: BTreeSet<u64>,
    asserts: u64,
    panic_ok: bool,
}

#[derive(Debug)]
enum Stop {
    Branch(V),
    Conc(V),
    Kill,
    Violation(String),
    Err(String),
    Done,
}
type R<X> = Result<X, Stop>;

pub struct Cex {
    pub kind: String,
    pub inputs: Vec<(String, u128)>,
    pub trace: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub killed: u64,
    pub asserts: u64,
    pub steps: u64,
    pub covers: BTreeMap<u64, u64>,
    pub cex: Vec<Cex>,
    pub errors: Vec<String>,
    pub incomplete: Option<String>,
    pub funcs: BTreeSet<String>,
    pub forks: u64,
    pub sample_inputs: Vec<Vec<(String, u128)>>,
    pub probes: Vec<Vec<(String, u128)>>,
    pub branch_profile: FxMap<String, u64>,
}

pub struct Cfg {
    pub max_paths: u64,
    pub max_steps: u64,
    pub max_time: f64,
    pub max_cex: usize,
    pub stubs: Vec<(String, String)>,
    pub verbose: bool,
    pub trace: bool,
}

pub struct Exec {
    pub ar: Arena,
    pub m: Module,
    pub smt: Smt,
    pub cfg: Cfg,
    pub rep: Report,
    stub_cache: FxMap<String, Option<String>>,
    var_names: u64,
    rng: u64,
    syms: FxMap<(u64, u16, u128, u128), V>,
}

fn cv(v: V) -> Option<u128> {
    if let V::C(_, k) = v {
        Some(k)
    } else {
        None
    }
}

impl Exec {
    pub fn new(m: Module, smt: Smt, cfg: Cfg) -> Self {
        Exec {
            ar: Arena::new(),
            m,
            smt,
            cfg,
            rng: 0x9e3779b97f4a7c15,
            rep: Default::default(),
            stub_cache: Default::default(),
            var_names: 0,
            syms: Default::default(),
        }
    }

    pub fn run(&mut self, entry: &str, arg: Option<u64>) -> Result<(), String> {
        let f = self.m.func(entry)?.ok_or(format!("no entry {}", entry))?;
        let mut regs = vec![Val::S(V::C(1, 0)); f.nregs];
        if let Some(a) = arg {
            if f.params.is_empty() {
                return Err("entry takes no argument".into());
            }
            regs[f.params[0] as usize] = Val::S(V::C(64, a as u128));
        }
        let st = State {
            frames: vec![Frame { f, b: 0, i: 0, regs, ret: None, allocas: vec![] }],
            mem: Default::default(),
            pc: vec![],
            known: Default::default(),
            conc: Default::default(),
            model: Rc::new(Model { vals: Default::default(), memo: Default::default() }),
            inputs: vec![],
            next: 0x7f00_0000_0000,
            steps: 0,
            covers: Default::default(),
            asserts: 0,
            panic_ok: false,
        };
        let mut work = vec![st];
        let t0 = Instant::now();
        while let Some(mut st) = work.pop() {
            loop {
                let r = self.step(&mut st);
                match r {
                    Ok(()) => {
                        st.steps += 1;
                        if st.steps > self.cfg.max_steps {
                            self.rep.incomplete = Some(format!("a path exceeded {} steps", self.cfg.max_steps));
                            if self.cfg.verbose {
                                eprintln!("step limit: {:?}", self.stack(&st));
                            }
                            self.probe(&st);
                            return Ok(());
                        }
                    }
                    Err(Stop::Branch(c)) => {
                        let p = self.prof(&st);
                        *self.rep.branch_profile.entry(p).or_insert(0) += 1;
                        if !self.fork(&mut st, c, None, &mut work) {
                            break;
                        }
                    }
                    Err(Stop::Conc(v)) => {
                        let p = self.prof(&st) + " [conc]";
                        *self.rep.branch_profile.entry(p).or_insert(0) += 1;
                        let k = self.eval(&st, v);
                        let w = self.ar.w(v);
                        let e = self.ar.eq(v, c(w, k));
                        if e == TRUE {
                            if let V::T(t) = v {
                                st.conc.insert(t, k);
                            }
                            continue;
                        }
                        if !self.fork(&mut st, e, Some((v, k)), &mut work) {
                            break;
                        }
                    }
                    Err(Stop::Kill) => {
                        self.rep.killed += 1;
                        break;
                    }
                    Err(Stop::Done) => {
                        self.rep.paths += 1;
                        self.rep.asserts += st.asserts;
                        for k in &st.covers {
                            *self.rep.covers.entry(*k).or_insert(0) += 1;
                        }
                        if self.rep.sample_inputs.len() < 5 || (self.rep.paths.is_power_of_two() && self.rep.sample_inputs.len() < 16) {
                            let s = self.inputs_of(&st);
                            self.rep.sample_inputs.push(s);
                        }
                        break;
                    }
                    Err(Stop::Violation(k)) if st.panic_ok && k.starts_with("panic:") => {
                        self.rep.paths += 1;
                        self.rep.asserts += st.asserts;
                        st.covers.insert(9999);
                        for k in &st.covers {
                            *self.rep.covers.entry(*k).or_insert(0) += 1;
                        }
                        if self.rep.sample_inputs.len() < 8 {
                            let s = self.inputs_of(&st);
                            self.rep.sample_inputs.push(s);
                        }
                        break;
                    }
                    Err(Stop::Violation(k)) => {
                        let inputs = self.inputs_of(&st);
                        let trace = self.stack(&st);
                        self.rep.cex.push(Cex { kind: k, inputs, trace });
                        if self.rep.cex.len() >= self.cfg.max_cex {
                            self.rep.steps += st.steps;
                            self.rep.incomplete = Some("stopped after counterexamples".into());
                            return Ok(());
                        }
                        break;
                    }
                    Err(Stop::Err(e)) => {
                        let tr = self.stack(&st);
                        let ins = self.inputs_of(&st);
                        self.rep.errors.push(format!("{} @ {:?} inputs {:?}", e, tr, ins));
                        self.probe(&st);
                        if self.rep.errors.len() > 3 {
                            return Ok(());
                        }
                        break;
                    }
                }
            }
            self.rep.steps += st.steps;
            if self.rep.paths + self.rep.killed > self.cfg.max_paths {
                self.rep.incomplete = Some(format!("path limit {}", self.cfg.max_paths));
                return Ok(());
            }
            if t0.elapsed().as_secs_f64() > self.cfg.max_time {
                self.rep.incomplete = Some(format!("time limit {} s", self.cfg.max_time));
                let n = work.len();
                for k in 0..n.min(8) {
                    let o = work[k * n / n.min(8)].clone();
                    self.probe(&o);
                }
                return Ok(());
            }
            if self.cfg.verbose && (self.rep.paths + self.rep.killed) % 1000 == 0 {
                eprintln!(
                    "paths {} killed {} work {} queries {} ({:.1}s) cache {} terms {} t={:.1}",
                    self.rep.paths,
                    self.rep.killed,
                    work.len(),
                    self.smt.stats.queries,
                    self.smt.stats.time,
                    self.smt.stats.cache_hits,
                    self.ar.nodes.len(),
                    t0.elapsed().as_secs_f64()
                );
            }
        }
        Ok(())
    }

    fn prof(&self, st: &State) -> String {
        let fr = st.frames.last().unwrap();
        format!("{}:{}", fr.f.name, fr.f.blocks[fr.b as usize].name)
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .take(12)
            .map(|f| format!("{}:{}:{}", f.f.name, f.f.blocks[f.b as usize].name, f.i))
            .collect()
    }
    /// Inputs that reach an undecided place, for the driver to run natively: the model of the path and random
    /// values that satisfy its condition.
    fn probe(&mut self, st: &State) {
        if self.rep.probes.len() >= 60 {
            return;
        }
        let s = self.inputs_of(st);
        self.rep.probes.push(s);
        let mut ids: Vec<u32> = vec![];
        for (_, v) in st.inputs.iter() {
            if let V::T(t) = v {
                let n = &self.ar.nodes[*t as usize];
                if n.op == Op::Var {
                    ids.push(n.imm as u32);
                }
            }
        }
        for k in 0..60u64 {
            let mut vals = st.model.vals.clone();
            for (j, id) in ids.iter().enumerate() {
                self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let r = (self.rng >> 11) as u128;
                // keep part of the model, so that some of the attempts satisfy a tight condition
                if k % 4 != 0 && (r >> 40) % (k as u128 % 4 + 1) != 0 && j != k as usize % ids.len() {
                    continue;
                }
                let vi = &self.ar.vars[*id as usize];
                let span = vi.hi - vi.lo;
                let x = if span < 1 << 40 { vi.lo + r % (span + 1) } else { vi.lo + (r.wrapping_mul(r) & mask(64)) % (span + 1) };
                vals.insert(*id, x);
            }
            let mut memo: FxMap<Tid, u128> = Default::default();
            if st.pc.iter().all(|p| self.ar.eval_memo(*p, &vals, &mut memo) != 0) {
                let s = st.inputs.iter().map(|(n, v)| (n.clone(), self.ar.eval_memo(*v, &vals, &mut memo))).collect();
                self.rep.probes.push(s);
                if self.rep.probes.len() % 12 == 0 {
                    return;
                }
            }
        }
    }
    fn inputs_of(&self, st: &State) -> Vec<(String, u128)> {
        st.inputs.iter().map(|(n, v)| (n.clone(), self.eval(st, *v))).collect()
    }
    fn eval(&self, st: &State, v: V) -> u128 {
        match v {
            V::C(_, k) => k,
            V::T(_) => self.ar.eval_memo(v, &st.model.vals, &mut st.model.memo.borrow_mut()),
        }
    }

    // ------------------------------------------------------------ path conditions
    fn learn(&mut self, st: &mut State, v: V, truth: bool) {
        let t = match v {
            V::T(t) => t,
            _ => return,
        };
        st.known.insert(t, truth);
        let n = self.ar.nodes[t as usize];
        match n.op {
            Op::Not => self.learn(st, n.a, !truth),
            Op::And if truth && n.w == 1 => {
                self.learn(st, n.a, true);
                self.learn(st, n.b, true);
            }
            Op::Or if !truth && n.w == 1 => {
                self.learn(st, n.a, false);
                self.learn(st, n.b, false);
            }
            Op::Eq if truth => {
                if let (V::T(x), V::C(_, k)) = (n.a, n.b) {
                    st.conc.insert(x, k);
                }
            }
            _ => {}
        }
    }
    fn quick(&self, st: &State, v: V, d: u32) -> Option<bool> {
        let t = match v {
            V::C(_, k) => return Some(k != 0),
            V::T(t) => t,
        };
        if let Some(b) = st.known.get(&t) {
            return Some(*b);
        }
        if d == 0 {
            return None;
        }
        let n = &self.ar.nodes[t as usize];
        if n.w != 1 {
            return None;
        }
        match n.op {
            Op::Not => self.quick(st, n.a, d).map(|b| !b),
            Op::And => match (self.quick(st, n.a, d - 1), self.quick(st, n.b, d - 1)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or => match (self.quick(st, n.a, d - 1), self.quick(st, n.b, d - 1)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Op::Eq => {
                let g = |x: V| match x {
                    V::C(_, k) => Some(k),
                    V::T(t) => st.conc.get(&t).cloned(),
                };
                match (g(n.a), g(n.b)) {
                    (Some(a), Some(b)) => Some(a == b),
                    _ => None,
                }
            }
            Op::Ult => {
                let g = |x: V| match x {
                    V::C(_, k) => Some(k),
                    V::T(t) => st.conc.get(&t).cloned(),
                };
                match (g(n.a), g(n.b)) {
                    (Some(a), Some(b)) => Some(a < b),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn truth(&mut self, st: &State, v: V) -> R<bool> {
        match self.quick(st, v, 8) {
            Some(b) => Ok(b),
            None => Err(Stop::Branch(v)),
        }
    }
    fn conc(&mut self, st: &State, v: V) -> R<u128> {
        match v {
            V::C(_, k) => Ok(k),
            V::T(t) => {
                if let Some(k) = st.conc.get(&t) {
                    return Ok(*k);
                }
                let n = self.ar.nodes[t as usize];
                match n.op {
                    Op::Ite => {
                        let b = self.truth(st, n.a)?;
                        return self.conc(st, if b { n.b } else { n.c });
                    }
                    Op::Add | Op::Sub | Op::Mul => {
                        let (w, a, b) = (n.w, n.a, n.b);
                        if self.spine_ite(a) || self.spine_ite(b) {
                            let x = self.conc(st, a)?;
                            let y = self.conc(st, b)?;
                            let r = match n.op {
                                Op::Add => x.wrapping_add(y),
                                Op::Sub => x.wrapping_sub(y),
                                _ => x.wrapping_mul(y),
                            };
                            return Ok(r & mask(w));
                        }
                    }
                    Op::ZExt => {
                        return self.conc(st, n.a);
                    }
                    _ => {}
                }
                Err(Stop::Conc(v))
            }
        }
    }
    fn spine_ite(&self, v: V) -> bool {
        match v {
            V::C(..) => false,
            V::T(t) => {
                let n = &self.ar.nodes[t as usize];
                match n.op {
                    Op::Ite => true,
                    Op::ZExt => self.spine_ite(n.a),
                    Op::Add | Op::Sub | Op::Mul => self.spine_ite(n.a) || self.spine_ite(n.b),
                    _ => false,
                }
            }
        }
    }

    fn slice(&self, st: &State, cond: V) -> Vec<V> {
        let vs = self.ar.vars_v(cond);
        let mut set: FxSet<u32> = vs.iter().cloned().collect();
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let pv = self.ar.vars_v(*p);
                if pv.iter().any(|x| set.contains(x)) {
                    used[i] = true;
                    ch = true;
                    out.push(*p);
                    set.extend(pv.iter().cloned());
                }
            }
            if !ch {
                return out;
            }
        }
    }

    /// returns false when the current path must be abandoned
    fn fork(&mut self, st: &mut State, cond: V, conc: Option<(V, u128)>, work: &mut Vec<State>) -> bool {
        let side = self.eval(st, cond) != 0;
        let ncond = self.ar.not(cond);
        let other = if side { ncond } else { cond };
        let mine = if side { cond } else { ncond };
        let mut q = self.slice(st, cond);
        q.push(other);
        match self.smt.check(&self.ar, &q) {
            Res::Unsat => {
                self.learn(st, cond, side);
                if let (Some((V::T(t), k)), true) = (conc, side) {
                    st.conc.insert(t, k);
                }
                true
            }
            Res::Sat(m) => {
                self.rep.forks += 1;
                let mut o = st.clone();
                let mut vals = st.model.vals.clone();
                for (v, x) in m {
                    vals.insert(v, x);
                }
                o.model = Rc::new(Model { vals, memo: Default::default() });
                // the solver's model must satisfy the constraints under our own evaluator
                for x in &q {
                    if self.eval(&o, *x) == 0 {
                        self.rep.errors.push(format!("model mismatch in query at {:?}", self.stack(st)));
                        return false;
                    }
                }
                o.pc.push(other);
                self.learn(&mut o, cond, !side);
                st.pc.push(mine);
                self.learn(st, cond, side);
                if let Some((V::T(t), k)) = conc {
                    if side {
                        st.conc.insert(t, k);
                    } else {
                        o.conc.insert(t, k);
                    }
                }
                work.push(o);
                true
            }
            Res::Unknown(e) => {
                let tr = self.stack(st);
                self.rep.errors.push(format!("solver inconclusive: {} at {:?}", e, tr));
                let o = st.clone();
                self.probe(&o);
                false
            }
        }
    }

    // ------------------------------------------------------------ memory
    fn find(&self, st: &State, a: u64) -> Option<(u64, u64, bool)> {
        // (base, size, in state)
        if let Some((b, o)) = st.mem.range(..=a).next_back() {
            if a <= b + o.bytes.len() as u64 {
                return Some((*b, o.bytes.len() as u64, true));
            }
        }
        if let Some((b, o)) = self.m.globals.range(..=a).next_back() {
            if a <= b + o.size {
                return Some((*b, o.size, false));
            }
        }
        None
    }
    fn read_bytes(&self, st: &State, a: u64, n: u64) -> R<Vec<B>> {
        if n == 0 {
            return Ok(vec![]);
        }
        match self.find(st, a) {
            Some((b, s, ins)) if a + n <= b + s => {
                let o = (a - b) as usize;
                if ins {
                    Ok(st.mem[&b].bytes[o..o + n as usize].to_vec())
                } else {
                    Ok(self.m.globals[&b].bytes[o..o + n as usize].iter().map(|x| B { t: CONC, i: *x }).collect())
                }
            }
            _ => Err(Stop::Violation(format!("memory: invalid read of {} bytes at {:#x}", n, a))),
        }
    }
    fn write_bytes(&mut self, st: &mut State, a: u64, bs: &[B]) -> R<()> {
        if bs.is_empty() {
            return Ok(());
        }
        match self.find(st, a) {
            Some((b, s, ins)) if a + bs.len() as u64 <= b + s => {
                if !ins {
                    let g = self.m.globals[&b].clone();
                    if g.constant {
                        return Err(Stop::Violation(format!("memory: write to constant {}", g.name)));
                    }
                    let o = Obj { bytes: g.bytes.iter().map(|x| B { t: CONC, i: *x }).collect(), heap: false };
                    st.mem.insert(b, Rc::new(o));
                }
                let o = Rc::make_mut(st.mem.get_mut(&b).unwrap());
                let off = (a - b) as usize;
                o.bytes[off..off + bs.len()].copy_from_slice(bs);
                Ok(())
            }
            _ => Err(Stop::Violation(format!("memory: invalid write of {} bytes at {:#x}", bs.len(), a))),
        }
    }
    fn bytes_to_v(&mut self, bs: &[B]) -> V {
        let n = bs.len();
        if bs.iter().all(|b| b.t == CONC) {
            let mut x: u128 = 0;
            for (i, b) in bs.iter().enumerate() {
                x |= (b.i as u128) << (8 * i);
            }
            return V::C(8 * n as u16, x);
        }
        // group runs
        let mut acc: Option<V> = None;
        let mut i = 0;
        while i < n {
            let b = bs[i];
            let mut j = i + 1;
            let part;
            if b.t == CONC {
                let mut x = b.i as u128;
                while j < n && bs[j].t == CONC {
                    x |= (bs[j].i as u128) << (8 * (j - i));
                    j += 1;
                }
                part = V::C(8 * (j - i) as u16, x);
            } else {
                while j < n && bs[j].t == b.t && bs[j].i as usize == b.i as usize + (j - i) {
                    j += 1;
                }
                let tw = self.ar.nodes[b.t as usize].w;
                let lo = 8 * b.i as u16;
                let w = 8 * (j - i) as u16;
                if lo >= tw {
                    part = V::C(w, 0);
                } else if lo + w > tw {
                    let e = self.ar.extract(V::T(b.t), lo, tw - lo);
                    part = self.ar.zext(e, w);
                } else {
                    part = self.ar.extract(V::T(b.t), lo, w);
                }
            }
            acc = Some(match acc {
                None => part,
                Some(l) => self.ar.concat(part, l),
            });
            i = j;
        }
        acc.unwrap_or(V::C(0, 0))
    }
    fn v_to_bytes(&mut self, v: V, n: usize) -> Vec<B> {
        match v {
            V::C(_, x) => (0..n).map(|i| B { t: CONC, i: if i < 16 { (x >> (8 * i)) as u8 } else { 0 } }).collect(),
            V::T(_) => {
                let w = self.ar.w(v);
                let v = if (w as usize) < 8 * n { self.ar.zext(v, 8 * n as u16) } else { v };
                match v {
                    V::C(_, x) => (0..n).map(|i| B { t: CONC, i: (x >> (8 * i)) as u8 }).collect(),
                    V::T(t) => {
                        let nd = self.ar.nodes[t as usize];
                        if nd.op == Op::Concat || nd.op == Op::ZExt {
                            // keep byte granularity so that re-reads stay simple
                            (0..n)
                                .map(|i| {
                                    let e = self.ar.extract(v, 8 * i as u16, 8);
                                    match e {
                                        V::C(_, k) => B { t: CONC, i: k as u8 },
                                        V::T(x) => {
                                            let en = self.ar.nodes[x as usize];
                                            if en.op == Op::Extract && en.imm % 8 == 0 {
                                                if let V::T(b) = en.a {
                                                    return B { t: b, i: (en.imm / 8) as u8 };
                                                }
                                            }
                                            B { t: x, i: 0 }
                                        }
                                    }
                                })
                                .collect()
                        } else {
                            (0..n).map(|i| B { t, i: i as u8 }).collect()
                        }
                    }
                }
            }
        }
    }
    fn load(&mut self, st: &State, a: u64, t: &Ty) -> R<Val> {
        if t.scalar() {
            let w = t.bits();
            let n = (w as u64 + 7) / 8;
            let bs = self.read_bytes(st, a, n)?;
            let v = self.bytes_to_v(&bs);
            let v = if self.ar.w(v) > w { self.ar.extract(v, 0, w) } else { v };
            return Ok(Val::S(self.res(st, v)));
        }
        if let Ty::Vector(n, e) = t {
            if e.bits() % 8 != 0 {
                let tot = Ty::Int((*n * e.bits() as u64) as u16);
                let v = self.load(st, a, &tot)?.s();
                return Ok(self.split(v, t));
            }
        }
        let mut o = vec![];
        for i in 0..t.nfields() {
            let (off, ft) = t.field(i);
            o.push(self.load(st, a + off, &ft)?);
        }
        Ok(Val::A(Rc::new(o)))
    }
    fn store(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> R<()> {
        match v {
            Val::S(x) => {
                let n = ((t.bits() + 7) / 8) as usize;
                let bs = self.v_to_bytes(*x, n);
                self.write_bytes(st, a, &bs)
            }
            Val::A(vs) => {
                if let Ty::Vector(n, e) = t {
                    if e.bits() % 8 != 0 {
                        let tot = Ty::Int((*n * e.bits() as u64) as u16);
                        let f = self.flatten(v);
                        return self.store(st, a, &tot, &Val::S(f));
                    }
                }
                for (i, x) in vs.iter().enumerate() {
                    let (off, ft) = t.field(i);
                    self.store(st, a + off, &ft, x)?;
                }
                Ok(())
            }
        }
    }
    /// load through a possibly symbolic address
    fn load_sym(&mut self, st: &State, av: V, t: &Ty) -> R<Val> {
        let av = self.res(st, av);
        if let V::C(_, a) = av {
            return self.load(st, a as u64, t);
        }
        if let V::T(tid) = av {
            let n = self.ar.nodes[tid as usize];
            if n.op == Op::Ite {
                let b = self.truth(st, n.a)?;
                return self.load_sym(st, if b { n.b } else { n.c }, t);
            }
            // base + cf*x  inside one constant object
            if t.scalar() {
                if let Some(l) = self.ar.lin(av) {
                    if !l.t.is_empty() {
                        if let Some(r) = self.load_table(st, &l, t)? {
                            return Ok(Val::S(r));
                        }
                    }
                }
            }
        }
        let a = self.conc(st, av)?;
        self.load(st, a as u64, t)
    }
    /// base + g * y for a small y, inside one constant object
    fn load_table(&mut self, st: &State, l: &Lin, t: &Ty) -> R<Option<V>> {
        if t == &Ty::Ptr {
            return Ok(None);
        }
        let gcd = |mut a: u128, mut b: u128| {
            while b != 0 {
                (a, b) = (b, a % b);
            }
            a
        };
        let g = l.t.iter().fold(0, |g, x| gcd(g, x.1));
        let (mut lo, mut hi) = (0u128, 0u128);
        let mut y = Lin { k: 0, t: vec![] };
        for (x, cf) in &l.t {
            let (a, b) = (self.ar.lo[*x as usize], self.ar.hi[*x as usize]);
            match ((cf / g).checked_mul(b), lo.checked_add(cf / g * a)) {
                (Some(h), Some(l)) if h < 1 << 40 => {
                    lo = l;
                    hi += h;
                }
                _ => return Ok(None),
            }
            y.t.push((*x, cf / g));
        }
        if hi - lo > 1100 {
            return Ok(None);
        }
        let (a0, a1) = (l.k + g * lo, l.k + g * hi);
        let (b, s, ins) = match self.find(st, a0 as u64) {
            Some(f) => f,
            None => return Ok(None),
        };
        let sz = ((t.bits() + 7) / 8) as u128;
        if ins || a1 + sz > (b + s) as u128 || !self.m.globals[&b].constant {
            return Ok(None);
        }
        let mut vals: Vec<(u128, V)> = vec![];
        for i in lo..=hi {
            let v = self.load(st, (l.k + g * i) as u64, t)?.s();
            if cv(v).is_none() {
                return Ok(None);
            }
            vals.push((i, v));
        }
        let y = if y.t.len() == 1 && y.t[0].1 == 1 { V::T(y.t[0].0) } else { self.ar.from_lin(&y, 64) };
        let w0 = self.ar.w(y);
        let tw = t.bits() as u16;
        let w = w0.max(tw);
        // tables of decimal digits
        if vals.len() > 1 && tw > 1 {
            let y = if w0 < w { self.ar.zext(y, w) } else { y };
            let base = cv(vals[0].1).unwrap();
            for q in [1u128, 10] {
                for rem in [false, true] {
                    let f = |i: u128| if rem { (i / q) % 10 } else { i / q };
                    let k = base.wrapping_sub(f(lo)) & mask(tw);
                    if vals.iter().all(|(i, v)| cv(*v).unwrap() == (k.wrapping_add(f(*i)) & mask(tw))) && f(hi) <= mask(tw) {
                        let d = self.ar.bin(Op::UDiv, y, c(w, q));
                        let d = if rem { self.ar.bin(Op::URem, d, c(w, 10)) } else { d };
                        let d = self.ar.extract(d, 0, tw);
                        return Ok(Some(self.ar.bin(Op::Add, d, c(tw, k))));
                    }
                }
            }
        }
        let mut runs: Vec<(u128, V)> = vec![];
        for (i, v) in vals {
            if runs.last().map_or(true, |r| r.1 != v) {
                runs.push((i, v));
            }
        }
        Ok(Some(self.table(y, &runs)))
    }
    fn table(&mut self, x: V, runs: &[(u128, V)]) -> V {
        if runs.len() == 1 {
            return runs[0].1;
        }
        let m = runs.len() / 2;
        let w = self.ar.w(x);
        let cnd = self.ar.ult(x, c(w, runs[m].0));
        let l = self.table(x, &runs[..m]);
        let r = self.table(x, &runs[m..]);
        self.ar.ite(cnd, l, r)
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, heap: bool) -> u64 {
        let al = align.max(16);
        let a = (st.next + al - 1) / al * al;
        st.next = a + size + 32;
        st.mem.insert(a, Rc::new(Obj { bytes: vec![B { t: CONC, i: 0 }; size as usize], heap }));
        a
    }
    fn res(&self, st: &State, v: V) -> V {
        if let V::T(t) = v {
            if let Some(k) = st.conc.get(&t) {
                return V::C(self.ar.w(v), *k);
            }
            if self.ar.nodes[t as usize].w == 1 {
                if let Some(b) = st.known.get(&t) {
                    return V::C(1, *b as u128);
                }
            }
        }
        v
    }

    // ------------------------------------------------------------ values
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::C(v) => v.clone(),
            Opd::R(r) => {
                let v = st.frames.last().unwrap().regs[*r as usize].clone();
                match v {
                    Val::S(x) => Val::S(self.res(st, x)),
                    v => v,
                }
            }
        }
    }
    fn flatten(&mut self, v: &Val) -> V {
        match v {
            Val::S(x) => *x,
            Val::A(vs) => {
                let mut acc = V::C(0, 0);
                for x in vs.iter() {
                    let f = self.flatten(x);
                    acc = self.ar.concat(f, acc);
                }
                acc
            }
        }
    }
    fn split(&mut self, v: V, t: &Ty) -> Val {
        match t {
            Ty::Vector(n, e) => {
                let w = e.bits();
                Val::A(Rc::new((0..*n).map(|i| Val::S(self.ar.extract(v, i as u16 * w, w))).collect()))
            }
            _ => Val::S(v),
        }
    }
    fn map2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Arena, V, V) -> V) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let r = x.iter().zip(y.iter()).map(|(p, q)| self.map2(p, q, f)).collect();
                Val::A(Rc::new(r))
            }
            (Val::S(x), Val::S(y)) => Val::S(f(&mut self.ar, *x, *y)),
            _ => panic!("shape"),
        }
    }
    fn map1(&mut self, a: &Val, f: &mut dyn FnMut(&mut Arena, V) -> V) -> Val {
        match a {
            Val::A(x) => {
                let r = x.iter().map(|p| self.map1(p, f)).collect();
                Val::A(Rc::new(r))
            }
            Val::S(x) => Val::S(f(&mut self.ar, *x)),
        }
    }
    fn bin(ar: &mut Arena, op: BOp, a: V, b: V) -> V {
        match op {
            BOp::Add => ar.bin(Op::Add, a, b),
            BOp::Sub => ar.bin(Op::Sub, a, b),
            BOp::Mul => ar.bin(Op::Mul, a, b),
            BOp::UDiv => ar.bin(Op::UDiv, a, b),
            BOp::SDiv => ar.bin(Op::SDiv, a, b),
            BOp::URem => ar.bin(Op::URem, a, b),
            BOp::SRem => ar.bin(Op::SRem, a, b),
            BOp::Shl => ar.bin(Op::Shl, a, b),
            BOp::LShr => ar.bin(Op::LShr, a, b),
            BOp::AShr => ar.bin(Op::AShr, a, b),
            BOp::And => ar.bin(Op::And, a, b),
            BOp::Or => ar.bin(Op::Or, a, b),
            BOp::Xor => ar.bin(Op::Xor, a, b),
            BOp::FAdd => ar.fbin(Op::FAdd, a, b),
            BOp::FSub => ar.fbin(Op::FSub, a, b),
            BOp::FMul => ar.fbin(Op::FMul, a, b),
            BOp::FDiv => ar.fbin(Op::FDiv, a, b),
            BOp::FRem => ar.fbin(Op::FRem, a, b),
        }
    }
    fn icmp(ar: &mut Arena, p: &str, a: V, b: V) -> V {
        match p {
            "eq" => ar.eq(a, b),
            "ne" => {
                let e = ar.eq(a, b);
                ar.not(e)
            }
            "ult" => ar.ult(a, b),
            "ule" => ar.ule(a, b),
            "ugt" => ar.ult(b, a),
            "uge" => ar.ule(b, a),
            "slt" => ar.slt(a, b),
            "sle" => ar.sle(a, b),
            "sgt" => ar.slt(b, a),
            "sge" => ar.sle(b, a),
            _ => panic!("icmp {}", p),
        }
    }
    fn fcmp(ar: &mut Arena, p: &str, a: V, b: V) -> V {
        let un = |ar: &mut Arena| {
            let x = ar.fisnan(a);
            let y = ar.fisnan(b);
            ar.or(x, y)
        };
        match p {
            "false" => FALSE,
            "true" => TRUE,
            "oeq" => ar.feq(a, b),
            "olt" => ar.flt(a, b),
            "ole" => ar.fle(a, b),
            "ogt" => ar.flt(b, a),
            "oge" => ar.fle(b, a),
            "une" => {
                let e = ar.feq(a, b);
                ar.not(e)
            }
            "ult" => {
                let e = ar.fle(b, a);
                ar.not(e)
            }
            "ule" => {
                let e = ar.flt(b, a);
                ar.not(e)
            }
            "ugt" => {
                let e = ar.fle(a, b);
                ar.not(e)
            }
            "uge" => {
                let e = ar.flt(a, b);
                ar.not(e)
            }
            "uno" => un(ar),
            "ord" => {
                let u = un(ar);
                ar.not(u)
            }
            "one" => {
                let e = ar.feq(a, b);
                let u = un(ar);
                let x = ar.or(e, u);
                ar.not(x)
            }
            "ueq" => {
                let e = ar.feq(a, b);
                let u = un(ar);
                ar.or(e, u)
            }
            _ => panic!("fcmp {}", p),
        }
    }
    fn cast(ar: &mut Arena, k: CastK, a: V, tw: u16) -> V {
        let w = ar.w(a);
        match k {
            CastK::Trunc => ar.extract(a, 0, tw),
            CastK::ZExt => ar.zext(a, tw),
            CastK::SExt => ar.sext(a, tw),
            CastK::PtrToInt | CastK::IntToPtr => {
                if tw < w {
                    ar.extract(a, 0, tw)
                } else {
                    ar.zext(a, tw)
                }
            }
            CastK::BitCast => a,
            CastK::UiToFp => ar.un(Op::UiToFp, tw, a, 0),
            CastK::SiToFp => ar.un(Op::SiToFp, tw, a, 0),
            CastK::FpToUi => ar.un(Op::FpToUi, tw, a, 0),
            CastK::FpToSi => ar.un(Op::FpToSi, tw, a, 0),
            CastK::FpExt | CastK::FpTrunc => ar.un(Op::FpConv, tw, a, 0),
        }
    }
    fn set(&self, st: &mut State, r: Option<u32>, v: Val) {
        if let Some(r) = r {
            st.frames.last_mut().unwrap().regs[r as usize] = v;
        }
    }
    fn goto(&mut self, st: &mut State, target: u32) {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let prev = fr.b;
        let blk = &f.blocks[target as usize];
        let mut vals = Vec::with_capacity(blk.phis.len());
        for (r, ins) in &blk.phis {
            let o = ins.iter().find(|x| x.0 == prev).expect("phi pred");
            vals.push((*r, self.get(st, &o.1)));
        }
        let fr = st.frames.last_mut().unwrap();
        for (r, v) in vals {
            fr.regs[r as usize] = v;
        }
        fr.b = target;
        fr.i = 0;
    }

    // ------------------------------------------------------------ one instruction
    fn step(&mut self, st: &mut State) -> R<()> {
        let (f, b, i) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.b, fr.i)
        };
        let inst = &f.blocks[b as usize].insts[i];
        if self.cfg.trace {
            eprintln!("{} {}:{} {:?}", st.frames.len(), f.blocks[b as usize].name, i, inst);
        }
        let res = inst.res;
        let adv = |st: &mut State| st.frames.last_mut().unwrap().i += 1;
        match &inst.k {
            K::Bin(op, _, x, y) => {
                let a = self.get(st, x);
                let c2 = self.get(st, y);
                if *op == BOp::FRem {
                    return Err(Stop::Err("frem".into()));
                }
                let op = *op;
                if matches!(op, BOp::UDiv | BOp::SDiv | BOp::URem | BOp::SRem) {
                    if let Val::S(d) = c2 {
                        let w = self.ar.w(d);
                        let z = self.ar.eq(d, c(w, 0));
                        if self.truth(st, z)? {
                            return Err(Stop::Violation("division by zero".into()));
                        }
                    }
                }
                let v = self.map2(&a, &c2, &mut |ar, p, q| Exec::bin(ar, op, p, q));
                self.set(st, res, v);
                adv(st);
            }
            K::FNeg(_, x) => {
                let a = self.get(st, x);
                let v = self.map1(&a, &mut |ar, p| ar.fneg(p));
                self.set(st, res, v);
                adv(st);
            }
            K::ICmp(p, _, x, y) => {
                let a = self.get(st, x);
                let b = self.get(st, y);
                let v = self.map2(&a, &b, &mut |ar, m, n| Exec::icmp(ar, p, m, n));
                self.set(st, res, v);
                adv(st);
            }
            K::FCmp(p, _, x, y) => {
                let a = self.get(st, x);
                let b = self.get(st, y);
                let v = self.map2(&a, &b, &mut |ar, m, n| Exec::fcmp(ar, p, m, n));
                self.set(st, res, v);
                adv(st);
            }
            K::Cast(k, ft, x, tt) => {
                let a = self.get(st, x);
                let v = if *k == CastK::BitCast && (!ft.scalar() || !tt.scalar()) {
                    let fl = self.flatten(&a);
                    if tt.scalar() {
                        Val::S(fl)
                    } else {
                        self.split(fl, tt)
                    }
                } else {
                    let tw = match tt {
                        Ty::Vector(_, e) => e.bits(),
                        t => t.bits(),
                    };
                    let k = *k;
                    self.map1(&a, &mut |ar, p| Exec::cast(ar, k, p, tw))
                };
                self.set(st, res, v);
                adv(st);
            }
            K::Select(ct, cnd, t, x, y) => {
                let cvl = self.get(st, cnd);
                let a = self.get(st, x);
                let b = self.get(st, y);
                let v = match (&cvl, ct) {
                    (Val::S(cc), _) => {
                        let cc = *cc;
                        match self.quick(st, cc, 6) {
                            Some(true) => a,
                            Some(false) => b,
                            None => {
                                if *t == Ty::Ptr && a != b {
                                    let r = self.truth(st, cc)?;
                                    if r {
                                        a
                                    } else {
                                        b
                                    }
                                } else {
                                    self.map2(&a, &b, &mut |ar, p, q| ar.ite(cc, p, q))
                                }
                            }
                        }
                    }
                    (Val::A(cs), _) => {
                        let (xs, ys) = match (&a, &b) {
                            (Val::A(p), Val::A(q)) => (p.clone(), q.clone()),
                            _ => return Err(Stop::Err("vector select".into())),
                        };
                        let mut o = vec![];
                        for j in 0..cs.len() {
                            o.push(Val::S(self.ar.ite(cs[j].s(), xs[j].s(), ys[j].s())));
                        }
                        Val::A(Rc::new(o))
                    }
                };
                self.set(st, res, v);
                adv(st);
            }
            K::Alloca(sz, al, n) => {
                let k = self.get(st, n).s();
                let k = self.conc(st, k)?;
                let a = self.alloc(st, sz * k as u64, *al, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, res, Val::S(V::C(64, a as u128)));
                adv(st);
            }
            K::Load(t, p) => {
                let a = self.get(st, p).s();
                let v = self.load_sym(st, a, t)?;
                self.set(st, res, v);
                adv(st);
            }
            K::Store(t, v, p) => {
                let a = self.get(st, p).s();
                let a = self.conc(st, a)?;
                let v = self.get(st, v);
                self.store(st, a as u64, t, &v)?;
                adv(st);
            }
            K::Gep(base, off, rest) => {
                let b0 = self.get(st, base);
                let mut p = match b0 {
                    Val::S(p) => p,
                    _ => return Err(Stop::Err("vector gep".into())),
                };
                p = self.ar.bin(Op::Add, p, c(64, *off as i128 as u128));
                for (sc, it, o) in rest {
                    let v = self.get(st, o).s();
                    let v = if it.bits() < 64 { self.ar.sext(v, 64) } else if it.bits() > 64 { self.ar.extract(v, 0, 64) } else { v };
                    let m = self.ar.bin(Op::Mul, v, c(64, *sc as i128 as u128));
                    p = self.ar.bin(Op::Add, p, m);
                }
                self.set(st, res, Val::S(p));
                adv(st);
            }
            K::Br(t) => self.goto(st, *t),
            K::CondBr(cnd, a, b) => {
                let v = self.get(st, cnd).s();
                let t = self.truth(st, v)?;
                self.goto(st, if t { *a } else { *b });
            }
            K::Switch(_, v, d, cs) => {
                let x = self.get(st, v).s();
                if let V::C(_, k) = x {
                    let t = cs.iter().find(|q| q.0 == k).map(|q| q.1).unwrap_or(*d);
                    self.goto(st, t);
                    return Ok(());
                }
                let w = self.ar.w(x);
                // one decision per distinct target
                let mut seen: Vec<u32> = vec![];
                for (_, t) in cs.iter() {
                    if seen.contains(t) || *t == *d {
                        continue;
                    }
                    seen.push(*t);
                    let mut e = FALSE;
                    for (k, t2) in cs.iter() {
                        if t2 == t {
                            let q = self.ar.eq(x, c(w, *k));
                            e = self.ar.or(e, q);
                        }
                    }
                    if self.truth(st, e)? {
                        self.goto(st, *t);
                        return Ok(());
                    }
                }
                self.goto(st, *d);
            }
            K::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.mem.remove(&a);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(r), Some(v)) = (fr.ret, v) {
                    st.frames.last_mut().unwrap().regs[r as usize] = v;
                }
                self.after_call(st);
            }
            K::Unreachable => return Err(Stop::Violation("reached code the compiler considers unreachable".into())),
            K::ExtractValue(v, ix) => {
                let mut x = self.get(st, v);
                for k in ix {
                    x = match x {
                        Val::A(a) => a[*k as usize].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                self.set(st, res, x);
                adv(st);
            }
            K::InsertValue(v, e, ix) => {
                let x = self.get(st, v);
                let e = self.get(st, e);
                fn ins(x: &Val, ix: &[u32], e: Val) -> Val {
                    if ix.is_empty() {
                        return e;
                    }
                    match x {
                        Val::A(a) => {
                            let mut n = (**a).clone();
                            n[ix[0] as usize] = ins(&n[ix[0] as usize], &ix[1..], e);
                            Val::A(Rc::new(n))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&x, ix, e);
                self.set(st, res, r);
                adv(st);
            }
            K::Shuffle(a, b, m, _) => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                if let (Val::A(x), Val::A(y)) = (x, y) {
                    let r = m
                        .iter()
                        .map(|k| {
                            let k = *k as i32 as i64;
                            if k < 0 {
                                x[0].clone()
                            } else if (k as usize) < x.len() {
                                x[k as usize].clone()
                            } else {
                                y[k as usize - x.len()].clone()
                            }
                        })
                        .collect();
                    self.set(st, res, Val::A(Rc::new(r)));
                }
                adv(st);
            }
            K::InsertElem(a, e, i) => {
                let x = self.get(st, a);
                let e = self.get(st, e);
                let i = self.get(st, i).s();
                let i = self.conc(st, i)?;
                if let Val::A(x) = x {
                    let mut n = (*x).clone();
                    n[i as usize] = e;
                    self.set(st, res, Val::A(Rc::new(n)));
                }
                adv(st);
            }
            K::ExtractElem(a, i) => {
                let x = self.get(st, a);
                let i = self.get(st, i).s();
                let i = self.conc(st, i)?;
                if let Val::A(x) = x {
                    let e = x[i as usize].clone();
                    self.set(st, res, e);
                }
                adv(st);
            }
            K::AtomicRmw(op, t, p, v) => {
                let a = self.get(st, p).s();
                let a = self.conc(st, a)? as u64;
                let old = self.load(st, a, t)?;
                let x = self.get(st, v).s();
                let o = old.s();
                let n = match op.as_str() {
                    "xchg" => x,
                    "add" => self.ar.bin(Op::Add, o, x),
                    "sub" => self.ar.bin(Op::Sub, o, x),
                    "and" => self.ar.bin(Op::And, o, x),
                    "or" => self.ar.bin(Op::Or, o, x),
                    "xor" => self.ar.bin(Op::Xor, o, x),
                    _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                };
                self.store(st, a, t, &Val::S(n))?;
                self.set(st, res, old);
                adv(st);
            }
            K::CmpXchg(t, p, e, n) => {
                let a = self.get(st, p).s();
                let a = self.conc(st, a)? as u64;
                let old = self.load(st, a, t)?;
                let ev = self.get(st, e).s();
                let q = self.ar.eq(old.s(), ev);
                let ok = self.truth(st, q)?;
                if ok {
                    let nv = self.get(st, n);
                    self.store(st, a, t, &nv)?;
                }
                self.set(st, res, Val::A(Rc::new(vec![old, Val::S(c(1, ok as u128))])));
                adv(st);
            }
            K::Fence => adv(st),
            K::Freeze(v) => {
                let x = self.get(st, v);
                self.set(st, res, x);
                adv(st);
            }
            K::LandingPad | K::Resume => return Err(Stop::Violation("unwinding".into())),
            K::Call { callee, args, ret, .. } => {
                let name = match callee {
                    Callee::Direct(n) => n.clone(),
                    Callee::Indirect(o) => {
                        let p = self.get(st, o).s();
                        let a = self.conc(st, p)? as u64;
                        match self.m.addr_fn.get(&a) {
                            Some(n) => n.clone(),
                            None => return Err(Stop::Violation(format!("call through invalid function pointer {:#x}", a))),
                        }
                    }
                    Callee::Asm(text, cons) => {
                        // asm without instructions, an optimisation barrier (black_box)
                        let t = text.trim();
                        let empty = t.is_empty() || (t.starts_with("/*") && t.ends_with("*/") && t.matches("/*").count() == 1);
                        let cpuid = t.contains("cpuid");
                        if !empty && !cpuid {
                            return Err(Stop::Err(format!("inline assembly {:?}", text)));
                        }
                        let v = if *ret == Ty::Void || cpuid {
                            // cpuid: a processor without optional features
                            Val::zero(ret)
                        } else if (cons.starts_with("=r,0") || cons.starts_with("=&r,0")) && args.len() == 1 {
                            self.get(st, &args[0].1)
                        } else {
                            return Err(Stop::Err(format!("inline assembly constraints {:?}", cons)));
                        };
                        self.set(st, res, v);
                        self.after_call(st);
                        return Ok(());
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(self.get(st, o));
                }
                return self.call(st, &name, av, args, ret, res);
            }
        }
        Ok(())
    }

    fn after_call(&mut self, st: &mut State) {
        let fr = st.frames.last().unwrap();
        let k = &fr.f.clone().blocks[fr.b as usize].insts[fr.i].k;
        if let K::Call { normal: Some(n), .. } = k {
            self.goto(st, *n);
        } else {
            st.frames.last_mut().unwrap().i += 1;
        }
    }

    fn stub(&mut self, n: &str) -> Option<String> {
        if let Some(s) = self.stub_cache.get(n) {
            return s.clone();
        }
        let mut r = None;
        for (pat, to) in &self.cfg.stubs {
            // pattern: substrings joined with '&', all must occur
            if pat.split('&').all(|p| n.contains(p)) && n != to {
                r = Some(to.clone());
                break;
            }
        }
        self.stub_cache.insert(n.to_string(), r.clone());
        r
    }

    fn new_sym(&mut self, st: &mut State, name: &str, lo: u128, hi: u128, w: u16) -> V {
        if lo == hi {
            let v = c(w, lo);
            st.inputs.push((name.to_string(), v));
            return v;
        }
        // deterministic per call position so that paths share variables
        let key = (st.inputs.len() as u64, w, lo, hi);
        let v = match self.syms.get(&key) {
            Some(v) => *v,
            None => {
                self.var_names += 1;
                let bits = if w == 8 { 8 } else { (128 - hi.leading_zeros() as u16).max(1) };
                let bits = bits.min(w);
                let v = if w == 8 && lo == 48 && hi == 57 {
                    // a decimal digit: 48 + d, so that the value of a numeral is linear in the d
                    let d = self.ar.new_var(format!("{}_{}", name, key.0), 4, 0, 9);
                    let d = self.ar.zext(d, 8);
                    self.ar.bin(Op::Add, d, c(8, 48))
                } else {
                    let v = self.ar.new_var(format!("{}_{}", name, key.0), bits, lo, hi);
                    self.ar.zext(v, w)
                };
                self.syms.insert(key, v);
                v
            }
        };
        st.inputs.push((name.to_string(), v));
        v
    }

    fn call(&mut self, st: &mut State, name: &str, av: Vec<Val>, args: &[(Ty, Opd)], ret: &Ty, res: Option<u32>) -> R<()> {
        if name == "__sym_args" {
            // what the loader does: the initialiser of the standard library's argument vector
            let f = match self.m.func_names().find(|n| n.contains("ARGV_INIT_ARRAY12init_wrapper")) {
                Some(f) => f.clone(),
                None => return Err(Stop::Err("no initialiser of the arguments".into())),
            };
            let n = self.ar.extract(av[0].s(), 0, 32);
            return self.enter(st, &f, vec![Val::S(n), av[1].clone(), Val::S(V::C(64, 0))], res);
        }
        if let Some(api) = name.strip_prefix("__sym_") {
            let r = self.api(st, api, &av)?;
            if let Some(v) = r {
                self.set(st, res, Val::S(v));
            }
            self.after_call(st);
            return Ok(());
        }
        if name.starts_with("llvm.") {
            let r = self.intrinsic(st, name, &av, args, ret)?;
            if let Some(v) = r {
                self.set(st, res, v);
            }
            self.after_call(st);
            return Ok(());
        }
        if let Some(t) = self.stub(name) {
            return self.enter(st, &t, av, res);
        }
        if name.contains("4core9panicking")
            || name.contains("11begin_panic")
            || name.contains("rust_begin_unwind")
            || name.contains("18handle_alloc_error")
            || name.contains("17rust_panic")
            || name == "abort"
            || name.contains("3std7process5abort")
            || name.contains("5alloc5alloc18handle_alloc_error")
            || name.contains("6option13unwrap_failed")
            || name.contains("6option13expect_failed")
            || name.contains("6result13unwrap_failed")
            || name.contains("4cell22panic_already_borrowed")
            || name.contains("17capacity_overflow")
        {
            return Err(Stop::Violation(format!("panic: {}", name)));
        }
        if let Some(v) = self.native(st, name, &av, ret)? {
            self.set(st, res, v);
            self.after_call(st);
            return Ok(());
        }
        self.enter(st, name, av, res)
    }

    fn enter(&mut self, st: &mut State, name: &str, av: Vec<Val>, res: Option<u32>) -> R<()> {
        let f = match self.m.func(name) {
            Ok(Some(f)) => f,
            Ok(None) => return Err(Stop::Err(format!("call to external function {}", name))),
            Err(e) => return Err(Stop::Err(e)),
        };
        if st.frames.len() > 400 {
            return Err(Stop::Violation("call depth exceeds 400 frames".into()));
        }
        if !self.rep.funcs.contains(name) {
            self.rep.funcs.insert(name.to_string());
        }
        let mut regs = vec![Val::S(V::C(1, 0)); f.nregs];
        for (p, v) in f.params.iter().zip(av.into_iter()) {
            regs[*p as usize] = v;
        }
        st.frames.push(Frame { f, b: 0, i: 0, regs, ret: res, allocas: vec![] });
        Ok(())
    }

    fn api(&mut self, st: &mut State, n: &str, av: &[Val]) -> R<Option<V>> {
        match n {
            "range" => {
                let lo = self.conc(st, av[0].s())?;
                let hi = self.conc(st, av[1].s())?;
                if lo > hi {
                    return Err(Stop::Kill);
                }
                Ok(Some(self.new_sym(st, "r", lo, hi, 64)))
            }
            "byte" => {
                let lo = self.conc(st, av[0].s())?;
                let hi = self.conc(st, av[1].s())?;
                Ok(Some(self.new_sym(st, "b", lo, hi, 8)))
            }
            "pick" => {
                // a choice 0..n explored as separate paths; decided without the solver
                let n = self.conc(st, av[0].s())?;
                if n == 0 {
                    return Err(Stop::Kill);
                }
                let k = st.inputs.len();
                // repeated execution of this instruction after a fork finds the variable in conc
                let v = {
                    let keep = st.inputs.len();
                    let v = self.new_sym(st, "p", 0, n - 1, 64);
                    st.inputs.truncate(keep);
                    v
                };
                let x = self.conc(st, v)?;
                let _ = k;
                st.inputs.push(("p".into(), c(64, x)));
                Ok(Some(c(64, x)))
            }
            "conc" => {
                let x = self.conc(st, av[0].s())?;
                Ok(Some(c(64, x)))
            }
            "frac" => {
                let i = av[0].s();
                let f = av[1].s();
                let v = self.conc(st, av[2].s())? as u64;
                Ok(Some(self.ar.frac_term(i, f, v)))
            }
            "assume" => {
                let v = av[0].s();
                if self.truth(st, v)? {
                    Ok(None)
                } else {
                    Err(Stop::Kill)
                }
            }
            "assert" => {
                if std::env::var("RSYM_SHOW").is_ok() { eprintln!("ASSERT {}", self.show(av[0].s(), 60)); }
                let v = av[0].s();
                let id = self.conc(st, av[1].s())?;
                let r = self.truth(st, v)?;
                st.asserts += 1;
                if r {
                    Ok(None)
                } else {
                    Err(Stop::Violation(format!("assert {}", id)))
                }
            }
            "cover" => {
                let id = self.conc(st, av[0].s())?;
                st.covers.insert(id as u64);
                Ok(None)
            }
            "panic_ok" => {
                let b = self.conc(st, av[0].s())?;
                st.panic_ok = b != 0;
                Ok(None)
            }
            "symbolic" => Ok(Some(TRUE)),
            "note" => Ok(None),
            "outside" => Err(Stop::Err("the execution left what the harness stubs can represent".into())),
            "debug" => {
                if self.cfg.verbose {
                    eprintln!("debug {:?}", av.iter().map(|v| self.show(v.s(), 6)).collect::<Vec<_>>());
                }
                Ok(None)
            }
            _ => Err(Stop::Err(format!("unknown api __sym_{}", n))),
        }
    }

    pub fn show(&self, v: V, d: u32) -> String {
        match v {
            V::C(w, k) => format!("{}:{}", k, w),
            V::T(t) => {
                let n = &self.ar.nodes[t as usize];
                if n.op == Op::Var {
                    return self.ar.vars[n.imm as usize].name.clone();
                }
                if d == 0 {
                    return format!("t{}", t);
                }
                let mut s = format!("({:?}.{}", n.op, n.w);
                for x in [n.a, n.b, n.c] {
                    if x != NONE {
                        s += " ";
                        s += &self.show(x, d - 1);
                    }
                }
                s + ")"
            }
        }
    }

    fn copy(&mut self, st: &mut State, d: V, s: V, n: V) -> R<()> {
        let n = self.conc(st, n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.conc(st, d)? as u64;
        let s = self.conc(st, s)? as u64;
        let b = self.read_bytes(st, s, n)?;
        self.write_bytes(st, d, &b)
    }
    fn fill(&mut self, st: &mut State, d: V, v: V, n: V) -> R<()> {
        let n = self.conc(st, n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.conc(st, d)? as u64;
        let v = if self.ar.w(v) > 8 { self.ar.extract(v, 0, 8) } else { v };
        let b = self.v_to_bytes(v, 1)[0];
        self.write_bytes(st, d, &vec![b; n as usize])
    }

    fn native(&mut self, st: &mut State, name: &str, av: &[Val], ret: &Ty) -> R<Option<Val>> {
        let p = |v: u64| Ok(Some(Val::S(V::C(64, v as u128))));
        let rust = name.contains("7___rustc");
        if name == "malloc" || (rust && name.ends_with("12___rust_alloc")) || (rust && name.ends_with("11___rdl_alloc")) {
            let n = self.conc(st, av[0].s())? as u64;
            let al = if av.len() > 1 { self.conc(st, av[1].s())? as u64 } else { 16 };
            let a = self.alloc(st, n, al, true);
            return p(a);
        }
        if rust && (name.ends_with("19___rust_alloc_zeroed") || name.ends_with("18___rdl_alloc_zeroed")) {
            let n = self.conc(st, av[0].s())? as u64;
            let al = self.conc(st, av[1].s())? as u64;
            let a = self.alloc(st, n, al, true);
            return p(a);
        }
        if name == "calloc" {
            let n = self.conc(st, av[0].s())? as u64 * self.conc(st, av[1].s())? as u64;
            let a = self.alloc(st, n, 16, true);
            return p(a);
        }
        if name == "free" || (rust && (name.ends_with("14___rust_dealloc") || name.ends_with("13___rdl_dealloc"))) {
            let a = self.conc(st, av[0].s())? as u64;
            if a == 0 && name == "free" {
                return Ok(Some(Val::S(FALSE)));
            }
            match st.mem.get(&a) {
                Some(o) if o.heap => {
                    st.mem.remove(&a);
                }
                _ => return Err(Stop::Violation(format!("memory: invalid free of {:#x}", a))),
            }
            return Ok(Some(Val::S(FALSE)));
        }
        if name == "realloc" || (rust && (name.ends_with("14___rust_realloc") || name.ends_with("13___rdl_realloc"))) {
            let a = self.conc(st, av[0].s())? as u64;
            let (n, al) = if name == "realloc" {
                (self.conc(st, av[1].s())? as u64, 16)
            } else {
                (self.conc(st, av[3].s())? as u64, self.conc(st, av[2].s())? as u64)
            };
            let old = match st.mem.get(&a) {
                Some(o) if o.heap => o.clone(),
                _ => return Err(Stop::Violation("memory: invalid realloc".into())),
            };
            let b = self.alloc(st, n, al, true);
            let k = old.bytes.len().min(n as usize);
            let bs = old.bytes[..k].to_vec();
            self.write_bytes(st, b, &bs)?;
            st.mem.remove(&a);
            return p(b);
        }
        if rust && name.contains("no_alloc_shim_is_unstable") {
            return Ok(Some(Val::S(FALSE)));
        }
        match name {
            "memcpy" | "memmove" => {
                self.copy(st, av[0].s(), av[1].s(), av[2].s())?;
                Ok(Some(av[0].clone()))
            }
            "memset" => {
                self.fill(st, av[0].s(), av[1].s(), av[2].s())?;
                Ok(Some(av[0].clone()))
            }
            "memcmp" | "bcmp" => {
                let n = self.conc(st, av[2].s())? as u64;
                let a = self.conc(st, av[0].s())? as u64;
                let b = self.conc(st, av[1].s())? as u64;
                let x = self.read_bytes(st, a, n)?;
                let y = self.read_bytes(st, b, n)?;
                let w = ret.bits();
                let mut r = c(w, 0);
                for i in (0..n as usize).rev() {
                    let p = self.bytes_to_v(&x[i..i + 1]);
                    let q = self.bytes_to_v(&y[i..i + 1]);
                    let p = self.res(st, p);
                    let q = self.res(st, q);
                    let e = self.ar.eq(p, q);
                    let d = if name == "bcmp" {
                        c(w, 1)
                    } else {
                        let l = self.ar.ult(p, q);
                        self.ar.ite(l, c(w, mask(w)), c(w, 1))
                    };
                    r = self.ar.ite(e, r, d);
                }
                Ok(Some(Val::S(r)))
            }
            "strlen" => {
                let a = self.conc(st, av[0].s())? as u64;
                let mut n = 0;
                loop {
                    let b = self.read_bytes(st, a + n, 1)?;
                    let v = self.bytes_to_v(&b);
                    let e = self.ar.eq(v, c(8, 0));
                    if self.truth(st, e)? {
                        break;
                    }
                    n += 1;
                }
                p(n)
            }
            // one run: keys of hash maps, which nothing observable depends on
            "getrandom" => {
                self.fill(st, av[0].s(), c(8, 0x5a), av[1].s())?;
                Ok(Some(av[1].clone()))
            }
            "__errno_location" => {
                const ERRNO: u64 = 0x1000;
                if !st.mem.contains_key(&ERRNO) {
                    st.mem.insert(ERRNO, Rc::new(Obj { bytes: vec![B { t: CONC, i: 0 }; 4], heap: false }));
                }
                p(ERRNO)
            }
            "__xpg_strerror_r" => {
                self.fill(st, av[1].s(), c(8, 0), c(64, 1))?;
                Ok(Some(Val::S(c(32, 0))))
            }
            "__cxa_thread_atexit_impl" => Ok(Some(Val::S(c(32, 0)))),
            _ => Ok(None),
        }
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, av: &[Val], args: &[(Ty, Opd)], ret: &Ty) -> R<Option<Val>> {
        let base = &name[5..];
        let starts = |p: &str| base.starts_with(p);
        if starts("lifetime.") || starts("experimental.noalias") || starts("dbg.") || starts("assume") || starts("invariant.") || starts("prefetch") || starts("x86.sse2.pause") || starts("donothing") || starts("sideeffect") || starts("pseudoprobe") {
            return Ok(Some(Val::zero(ret)));
        }
        if starts("memcpy.") || starts("memmove.") {
            self.copy(st, av[0].s(), av[1].s(), av[2].s())?;
            return Ok(None);
        }
        if starts("memset.") {
            self.fill(st, av[0].s(), av[1].s(), av[2].s())?;
            return Ok(None);
        }
        if starts("trap") || starts("ubsantrap") {
            return Err(Stop::Violation("trap".into()));
        }
        if starts("threadlocal.address") || starts("expect.") || starts("ssa.copy") || starts("launder.") || starts("ptrmask") && false {
            return Ok(Some(av[0].clone()));
        }
        if starts("is.constant") {
            return Ok(Some(Val::S(FALSE)));
        }
        if starts("ptrmask") {
            let r = self.ar.bin(Op::And, av[0].s(), av[1].s());
            return Ok(Some(Val::S(r)));
        }
        let a0 = av.get(0).cloned();
        let a1 = av.get(1).cloned();
        let two = |ex: &mut Exec, f: &mut dyn FnMut(&mut Arena, V, V) -> V| -> R<Option<Val>> {
            Ok(Some(ex.map2(a0.as_ref().unwrap(), a1.as_ref().unwrap(), f)))
        };
        let one = |ex: &mut Exec, f: &mut dyn FnMut(&mut Arena, V) -> V| -> R<Option<Val>> { Ok(Some(ex.map1(a0.as_ref().unwrap(), f))) };
        if starts("umin.") {
            return two(self, &mut |ar, x, y| {
                let l = ar.ult(x, y);
                ar.ite(l, x, y)
            });
        }
        if starts("umax.") {
            return two(self, &mut |ar, x, y| {
                let l = ar.ult(x, y);
                ar.ite(l, y, x)
            });
        }
        if starts("smin.") {
            return two(self, &mut |ar, x, y| {
                let l = ar.slt(x, y);
                ar.ite(l, x, y)
            });
        }
        if starts("smax.") {
            return two(self, &mut |ar, x, y| {
                let l = ar.slt(x, y);
                ar.ite(l, y, x)
            });
        }
        if starts("ucmp.") || starts("scmp.") {
            let w = ret.bits();
            let s = starts("scmp.");
            return two(self, &mut |ar, x, y| {
                let (l, g) = if s { (ar.slt(x, y), ar.slt(y, x)) } else { (ar.ult(x, y), ar.ult(y, x)) };
                let r = ar.ite(g, c(w, 1), c(w, 0));
                ar.ite(l, c(w, mask(w)), r)
            });
        }
        if starts("usub.sat") {
            return two(self, &mut |ar, x, y| {
                let w = ar.w(x);
                let l = ar.ult(x, y);
                let d = ar.bin(Op::Sub, x, y);
                ar.ite(l, c(w, 0), d)
            });
        }
        if starts("uadd.sat") {
            return two(self, &mut |ar, x, y| {
                let w = ar.w(x);
                let s = ar.bin(Op::Add, x, y);
                let l = ar.ult(s, x);
                ar.ite(l, c(w, mask(w)), s)
            });
        }
        if starts("fshl.") || starts("fshr.") {
            let left = starts("fshl.");
            let (x, y, s) = (av[0].s(), av[1].s(), av[2].s());
            let w = self.ar.w(x);
            let sh = self.ar.bin(Op::URem, s, c(w, w as u128));
            let cc = self.ar.concat(x, y);
            let shz = self.ar.zext(sh, 2 * w);
            let r = if left {
                let t = self.ar.bin(Op::Shl, cc, shz);
                self.ar.extract(t, w, w)
            } else {
                let t = self.ar.bin(Op::LShr, cc, shz);
                self.ar.extract(t, 0, w)
            };
            return Ok(Some(Val::S(r)));
        }
        if starts("bitreverse.") {
            return one(self, &mut |ar, x| {
                let w = ar.w(x);
                let mut acc = V::C(0, 0);
                for i in 0..w {
                    let b = ar.extract(x, i, 1);
                    acc = ar.concat(acc, b);
                }
                acc
            });
        }
        if starts("bswap.") {
            return one(self, &mut |ar, x| {
                let w = ar.w(x);
                let mut acc = V::C(0, 0);
                for i in 0..w / 8 {
                    let b = ar.extract(x, 8 * i, 8);
                    acc = ar.concat(acc, b);
                }
                acc
            });
        }
        if starts("ctpop.") {
            return one(self, &mut |ar, x| {
                let w = ar.w(x);
                let mut acc = c(w, 0);
                for i in 0..w {
                    let b = ar.extract(x, i, 1);
                    let z = ar.zext(b, w);
                    acc = ar.bin(Op::Add, acc, z);
                }
                acc
            });
        }
        if starts("ctlz.") || starts("cttz.") {
            let lead = starts("ctlz.");
            return one(self, &mut |ar, x| {
                let w = ar.w(x);
                let mut acc = c(w, w as u128);
                for k in 0..w {
                    // last assignment wins: go from the far end towards the counted end
                    let bit = if lead { k } else { w - 1 - k };
                    let b = ar.extract(x, bit, 1);
                    let n = if lead { w - 1 - bit } else { bit };
                    acc = ar.ite(b, c(w, n as u128), acc);
                }
                acc
            });
        }
        if starts("abs.") {
            return one(self, &mut |ar, x| {
                let w = ar.w(x);
                let n = ar.bin(Op::Sub, c(w, 0), x);
                let s = ar.slt(x, c(w, 0));
                ar.ite(s, n, x)
            });
        }
        if starts("fabs.") {
            return one(self, &mut |ar, x| ar.fabs(x));
        }
        if starts("fptoui.sat") || starts("fptosi.sat") {
            let w = ret.bits();
            let op = if starts("fptoui") { Op::FpToUi } else { Op::FpToSi };
            return one(self, &mut |ar, x| ar.un(op, w, x, 0));
        }
        for (p, i) in [("floor.", 0u64), ("ceil.", 1), ("trunc.", 2), ("rint.", 3), ("nearbyint.", 3), ("roundeven.", 3), ("round.", 4)] {
            if starts(p) {
                return one(self, &mut |ar, x| {
                    let w = ar.w(x);
                    ar.un(Op::FRound, w, x, i)
                });
            }
        }
        if starts("copysign.") {
            return two(self, &mut |ar, x, y| {
                let w = ar.w(x);
                let a = ar.fabs(x);
                let s = ar.bin(Op::And, y, c(w, 1u128 << (w - 1)));
                ar.bin(Op::Or, a, s)
            });
        }
        if starts("uadd.with.overflow") || starts("usub.with.overflow") || starts("umul.with.overflow") || starts("sadd.with.overflow") || starts("ssub.with.overflow") || starts("smul.with.overflow") {
            let (x, y) = (av[0].s(), av[1].s());
            let w = self.ar.w(x);
            let ar = &mut self.ar;
            let op = match &base[1..4] {
                "add" => Op::Add,
                "sub" => Op::Sub,
                _ => Op::Mul,
            };
            let r = ar.bin(op, x, y);
            let ov = if starts("u") {
                match op {
                    Op::Add => {
                        let (_, ah) = ar.range(x);
                        let (_, bh) = ar.range(y);
                        if ah.checked_add(bh).map_or(false, |s| s <= mask(w)) {
                            FALSE
                        } else {
                            ar.ult(r, x)
                        }
                    }
                    Op::Sub => ar.ult(x, y),
                    _ => {
                        let (_, ah) = ar.range(x);
                        let (_, bh) = ar.range(y);
                        if ah.checked_mul(bh).map_or(false, |s| s <= mask(w)) {
                            FALSE
                        } else if let (V::C(_, k), t) | (t, V::C(_, k)) = (x, y) {
                            if k == 0 {
                                FALSE
                            } else {
                                let q = mask(w) / k;
                                ar.ult(c(w, q), t)
                            }
                        } else if w <= 64 {
                            let p = ar.zext(x, 2 * w);
                            let q = ar.zext(y, 2 * w);
                            let m = ar.bin(Op::Mul, p, q);
                            ar.ult(c(2 * w, mask(w)), m)
                        } else {
                            return Err(Stop::Err("wide umul.with.overflow".into()));
                        }
                    }
                }
            } else {
                if w > 64 {
                    return Err(Stop::Err("wide signed overflow".into()));
                }
                let ww = 2 * w;
                let p = ar.sext(x, ww);
                let q = ar.sext(y, ww);
                let m = ar.bin(op, p, q);
                let back = ar.sext(r, ww);
                let e = ar.eq(m, back);
                ar.not(e)
            };
            return Ok(Some(Val::A(Rc::new(vec![Val::S(r), Val::S(ov)]))));
        }
        if starts("vector.reduce.") {
            if let Some(Val::A(xs)) = &a0 {
                let mut it = xs.iter();
                let mut acc = it.next().unwrap().s();
                for x in it {
                    let x = x.s();
                    acc = match base["vector.reduce.".len()..].split('.').next().unwrap() {
                        "or" => self.ar.bin(Op::Or, acc, x),
                        "and" => self.ar.bin(Op::And, acc, x),
                        "add" => self.ar.bin(Op::Add, acc, x),
                        "xor" => self.ar.bin(Op::Xor, acc, x),
                        "umax" => {
                            let l = self.ar.ult(acc, x);
                            self.ar.ite(l, x, acc)
                        }
                        o => return Err(Stop::Err(format!("reduce {}", o))),
                    };
                }
                return Ok(Some(Val::S(acc)));
            }
        }
        let _ = args;
        Err(Stop::Err(format!("unsupported intrinsic {}", name)))
    }
}
