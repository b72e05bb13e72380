//! SMT-LIB2 back end: one long-lived z3 process with push/pop, one-shot z3/cvc5 processes as fallback.
use crate::term::*;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Res {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub fallback: u64,
    pub abstracted: u64,
    pub time: f64,
    pub max_time: f64,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

pub struct Smt {
    proc_: Option<Proc>,
    aproc: Option<Proc>,
    adefined: FxSet<Tid>,
    defined: FxSet<Tid>,
    fdefined: FxSet<Tid>,
    buf: String,
    pub stats: Stats,
    pub timeout_ms: u64,
    pub fallback_s: u64,
    cache: FxMap<Vec<V>, Res>,
    pub z3: String,
    pub log: Option<std::fs::File>,
}

fn bv(w: u16, k: u128) -> String {
    if w == 1 {
        return if k == 1 { "true".into() } else { "false".into() };
    }
    format!("(_ bv{} {})", k, w)
}
fn sort(w: u16) -> String {
    if w == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {})", w)
    }
}
fn fsort(w: u16) -> &'static str {
    if w == 32 {
        "8 24"
    } else {
        "11 53"
    }
}

pub fn is_float_op(op: Op) -> bool {
    matches!(
        op,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::UiToFp | Op::SiToFp | Op::FpConv | Op::FRound | Op::FSqrt | Op::FFrac
    )
}

/// name of the BV/Bool view of a value
fn nm(v: V) -> String {
    match v {
        V::C(w, k) => bv(w, k),
        V::T(t) => format!("t{}", t),
    }
}

struct Emit<'a> {
    a: &'a Arena,
    defined: &'a mut FxSet<Tid>,
    fdefined: &'a mut FxSet<Tid>,
    out: &'a mut String,
    /// replace wide divisions by fresh constants (an over-approximation, good for unsat answers)
    abs: bool,
}

/// a division the abstract query replaces
fn hard(n: &Node) -> bool {
    matches!(n.op, Op::URem | Op::UDiv) && n.w > 16
}

impl<'a> Emit<'a> {
    /// define everything below t (BV view)
    fn def(&mut self, root: Tid) {
        let mut stack = vec![(root, false)];
        while let Some((t, ready)) = stack.pop() {
            if self.defined.contains(&t) {
                continue;
            }
            let n = self.a.nodes[t as usize];
            if !ready {
                stack.push((t, true));
                for x in [n.a, n.b, n.c] {
                    if let V::T(u) = x {
                        if !self.defined.contains(&u) {
                            stack.push((u, false));
                        }
                    }
                }
                continue;
            }
            self.defined.insert(t);
            let (a, b, cc) = (nm(n.a), nm(n.b), nm(n.c));
            let w = n.w;
            let o = &mut *self.out;
            if is_float_op(n.op) {
                self.fdef(t);
                let _ = writeln!(self.out, "(declare-const t{} {})", t, sort(w));
                continue;
            }
            if self.abs && hard(&n) {
                let _ = writeln!(o, "(declare-const t{} {})", t, sort(w));
                continue;
            }
            let body = match n.op {
                Op::Var => {
                    let _ = writeln!(o, "(declare-const t{} {})", t, sort(w));
                    continue;
                }
                Op::Not => format!("(not {})", a),
                Op::And if w == 1 => format!("(and {} {})", a, b),
                Op::Or if w == 1 => format!("(or {} {})", a, b),
                Op::Xor if w == 1 => format!("(xor {} {})", a, b),
                Op::Add => format!("(bvadd {} {})", a, b),
                Op::Sub => format!("(bvsub {} {})", a, b),
                Op::Mul => format!("(bvmul {} {})", a, b),
                Op::UDiv => format!("(bvudiv {} {})", a, b),
                Op::URem => format!("(bvurem {} {})", a, b),
                Op::SDiv => format!("(bvsdiv {} {})", a, b),
                Op::SRem => format!("(bvsrem {} {})", a, b),
                Op::And => format!("(bvand {} {})", a, b),
                Op::Or => format!("(bvor {} {})", a, b),
                Op::Xor => format!("(bvxor {} {})", a, b),
                Op::Shl => format!("(bvshl {} {})", a, b),
                Op::LShr => format!("(bvlshr {} {})", a, b),
                Op::AShr => format!("(bvashr {} {})", a, b),
                Op::Eq => format!("(= {} {})", a, b),
                Op::Ult => format!("(bvult {} {})", a, b),
                Op::Slt => format!("(bvslt {} {})", a, b),
                Op::Ite => format!("(ite {} {} {})", a, b, cc),
                Op::Concat => {
                    let x = self.b2v(n.a);
                    let y = self.b2v(n.b);
                    format!("(concat {} {})", x, y)
                }
                Op::Extract => {
                    let e = format!("((_ extract {} {}) {})", n.imm + w as u64 - 1, n.imm, a);
                    if w == 1 {
                        format!("(= {} #b1)", e)
                    } else {
                        e
                    }
                }
                Op::ZExt => {
                    let aw = self.a.w(n.a);
                    if aw == 1 {
                        format!("(ite {} {} {})", a, bv(w, 1), bv(w, 0))
                    } else {
                        format!("((_ zero_extend {}) {})", w - aw, a)
                    }
                }
                Op::SExt => {
                    let aw = self.a.w(n.a);
                    if aw == 1 {
                        format!("(ite {} {} {})", a, bv(w, mask(w)), bv(w, 0))
                    } else {
                        format!("((_ sign_extend {}) {})", w - aw, a)
                    }
                }
                Op::FEq => format!("(fp.eq {} {})", self.fv(n.a), self.fv(n.b)),
                Op::FLt => format!("(fp.lt {} {})", self.fv(n.a), self.fv(n.b)),
                Op::FLe => format!("(fp.leq {} {})", self.fv(n.a), self.fv(n.b)),
                Op::FIsNan => format!("(fp.isNaN {})", self.fv(n.a)),
                Op::FpToUi => {
                    let aw = self.a.w(n.a);
                    let x = self.fv(n.a);
                    let z = format!("((_ to_fp {}) RNE 0.0)", fsort(aw));
                    let top = format!("((_ to_fp_unsigned {}) RNE (_ bv{} {}))", fsort(aw), 1u128 << w.min(127), w.min(127) + 1);
                    format!(
                        "(ite (or (fp.isNaN {x}) (fp.leq {x} {z})) {} (ite (fp.geq {x} {top}) {} ((_ fp.to_ubv {w}) RTZ {x})))",
                        bv(w, 0),
                        bv(w, mask(w))
                    )
                }
                Op::FpToSi => {
                    let aw = self.a.w(n.a);
                    let x = self.fv(n.a);
                    let top = format!("((_ to_fp_unsigned {}) RNE (_ bv{} {}))", fsort(aw), 1u128 << (w - 1), w);
                    format!(
                        "(ite (fp.isNaN {x}) {} (ite (fp.geq {x} {top}) {} (ite (fp.leq {x} (fp.neg {top})) {} ((_ fp.to_sbv {w}) RTZ {x}))))",
                        bv(w, 0),
                        bv(w, mask(w) >> 1),
                        bv(w, 1u128 << (w - 1))
                    )
                }
                _ => unreachable!("{:?}", n.op),
            };
            let _ = writeln!(self.out, "(define-fun t{} () {} {})", t, sort(w), body);
        }
    }
    fn b2v(&self, v: V) -> String {
        let w = self.a.w(v);
        match v {
            V::C(1, k) => format!("#b{}", k),
            _ if w == 1 => format!("(ite {} #b1 #b0)", nm(v)),
            _ => nm(v),
        }
    }
    /// float view of a value (must have been defined)
    fn fv(&mut self, v: V) -> String {
        let w = self.a.w(v);
        match v {
            V::T(t) if is_float_op(self.a.nodes[t as usize].op) => {
                self.fdef(t);
                format!("f{}", t)
            }
            _ => format!("((_ to_fp {}) {})", fsort(w), nm(v)),
        }
    }
    fn fdef(&mut self, t: Tid) {
        if self.fdefined.contains(&t) {
            return;
        }
        self.fdefined.insert(t);
        let n = self.a.nodes[t as usize];
        let w = n.w;
        let fs = format!("(_ FloatingPoint {})", fsort(w));
        let body = match n.op {
            Op::FAdd => format!("(fp.add RNE {} {})", self.fv(n.a), self.fv(n.b)),
            Op::FSub => format!("(fp.sub RNE {} {})", self.fv(n.a), self.fv(n.b)),
            Op::FMul => format!("(fp.mul RNE {} {})", self.fv(n.a), self.fv(n.b)),
            Op::FDiv => format!("(fp.div RNE {} {})", self.fv(n.a), self.fv(n.b)),
            Op::UiToFp => format!("((_ to_fp_unsigned {}) RNE {})", fsort(w), self.b2v(n.a)),
            Op::SiToFp => format!("((_ to_fp {}) RNE {})", fsort(w), self.b2v(n.a)),
            Op::FpConv => format!("((_ to_fp {}) RNE {})", fsort(w), self.fv(n.a)),
            Op::FRound => {
                let m = ["RTN", "RTP", "RTZ", "RNE", "RNA"][n.imm as usize];
                format!("(fp.roundToIntegral {} {})", m, self.fv(n.a))
            }
            Op::FSqrt => format!("(fp.sqrt RNE {})", self.fv(n.a)),
            Op::FFrac | Op::FRem => {
                let _ = writeln!(self.out, "(declare-const f{} {})", t, fs);
                return;
            }
            _ => unreachable!(),
        };
        let _ = writeln!(self.out, "(define-fun f{} () {} {})", t, fs, body);
    }
}

/// side constraints for the cone of the given roots
fn cone(a: &Arena, roots: &[V]) -> (Vec<Tid>, Vec<u32>) {
    let mut seen: FxSet<Tid> = Default::default();
    let mut st: Vec<Tid> = roots.iter().filter_map(|v| if let V::T(t) = v { Some(*t) } else { None }).collect();
    let mut floats = vec![];
    let mut vars = vec![];
    while let Some(t) = st.pop() {
        if !seen.insert(t) {
            continue;
        }
        let n = &a.nodes[t as usize];
        if n.op == Op::Var {
            vars.push(n.imm as u32);
        } else if is_float_op(n.op) {
            floats.push(t);
        }
        for x in [n.a, n.b, n.c] {
            if let V::T(u) = x {
                st.push(u);
            }
        }
    }
    vars.sort_unstable();
    (floats, vars)
}

fn sides(a: &Arena, floats: &[Tid], vars: &[u32], bvused: &FxSet<Tid>, out: &mut String) {
    for v in vars {
        let vi = &a.vars[*v as usize];
        if vi.w > 1 {
            if vi.lo > 0 {
                let _ = writeln!(out, "(assert (bvuge t{} {}))", vi.tid, bv(vi.w, vi.lo));
            }
            if vi.hi < mask(vi.w) {
                let _ = writeln!(out, "(assert (bvule t{} {}))", vi.tid, bv(vi.w, vi.hi));
            }
        }
    }
    for t in floats {
        let n = &a.nodes[*t as usize];
        if n.op == Op::FFrac {
            let so = fsort(n.w);
            let i = format!("((_ to_fp_unsigned {so}) RNE {})", nm(n.a));
            let _ = writeln!(out, "(assert (and (fp.lt {i} f{t}) (fp.lt f{t} (fp.add RNE {i} ((_ to_fp {so}) RNE 1.0)))))");
        }
        if bvused.contains(t) {
            let _ = writeln!(out, "(assert (= ((_ to_fp {}) t{t}) f{t}))", fsort(n.w));
        }
    }
}

/// float nodes whose bit pattern is used by a non-float operator in the cone
fn bv_used(a: &Arena, roots: &[V]) -> FxSet<Tid> {
    let mut seen: FxSet<Tid> = Default::default();
    let mut r: FxSet<Tid> = Default::default();
    let mut st: Vec<Tid> = roots.iter().filter_map(|v| if let V::T(t) = v { Some(*t) } else { None }).collect();
    while let Some(t) = st.pop() {
        if !seen.insert(t) {
            continue;
        }
        let n = &a.nodes[t as usize];
        let fctx = |k: usize| -> bool {
            matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan | Op::FpToUi | Op::FpToSi | Op::FpConv | Op::FRound | Op::FSqrt)
                && k < 2
        };
        for (k, x) in [n.a, n.b, n.c].iter().enumerate() {
            if let V::T(u) = x {
                if is_float_op(a.nodes[*u as usize].op) && !fctx(k) {
                    r.insert(*u);
                }
                st.push(*u);
            }
        }
    }
    r
}

fn parse_num(s: &str) -> Option<u128> {
    if let Some(h) = s.strip_prefix("#x") {
        u128::from_str_radix(h, 16).ok()
    } else if let Some(b) = s.strip_prefix("#b") {
        u128::from_str_radix(b, 2).ok()
    } else if s == "true" {
        Some(1)
    } else if s == "false" {
        Some(0)
    } else {
        None
    }
}

fn parse_values(s: &str) -> Vec<(Tid, u128)> {
    // ((t1 #x..) (t2 true) (t3 (_ bv5 8)))
    let toks: Vec<String> = s
        .replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|x| x.to_string())
        .collect();
    let mut o = vec![];
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(n) = toks[i].strip_prefix('t').and_then(|x| x.parse::<Tid>().ok()) {
            if let Some(v) = parse_num(&toks[i + 1]) {
                o.push((n, v));
                i += 2;
                continue;
            }
            if toks[i + 1] == "(" && i + 3 < toks.len() && toks[i + 2] == "_" {
                if let Some(v) = toks[i + 3].strip_prefix("bv").and_then(|x| x.parse::<u128>().ok()) {
                    o.push((n, v));
                    i += 4;
                    continue;
                }
            }
        }
        i += 1;
    }
    o
}

impl Smt {
    pub fn new(z3: String) -> Self {
        Smt {
            proc_: None,
            aproc: None,
            adefined: Default::default(),
            defined: Default::default(),
            fdefined: Default::default(),
            buf: String::new(),
            stats: Default::default(),
            timeout_ms: 4000,
            fallback_s: 60,
            cache: Default::default(),
            z3,
            log: None,
        }
    }
    fn start(&mut self) -> Result<(), String> {
        let mut child = Command::new(&self.z3)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("spawn {}: {}", self.z3, e))?;
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        self.proc_ = Some(Proc { child, inp, out });
        self.defined.clear();
        self.fdefined.clear();
        let _ = writeln!(self.buf, "(set-option :produce-models true)\n(set-option :timeout {})", self.timeout_ms);
        Ok(())
    }
    fn stop(&mut self) {
        if let Some(mut p) = self.proc_.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    fn read_line(&mut self) -> Result<String, String> {
        let mut s = String::new();
        let p = self.proc_.as_mut().unwrap();
        let n = p.out.read_line(&mut s).map_err(|e| e.to_string())?;
        if n == 0 {
            return Err("solver closed its output".into());
        }
        Ok(s.trim().to_string())
    }

    /// Is the conjunction satisfiable?
    pub fn check(&mut self, a: &Arena, cs: &[V]) -> Res {
        let mut key: Vec<V> = vec![];
        for c in cs {
            match c {
                V::C(_, 0) => return Res::Unsat,
                V::C(..) => {}
                t => key.push(*t),
            }
        }
        key.sort_unstable_by_key(|v| if let V::T(t) = v { *t } else { 0 });
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        self.stats.queries += 1;
        if self.check_abs(a, &key) {
            self.stats.unsat += 1;
            self.stats.abstracted += 1;
            let dt = t0.elapsed().as_secs_f64();
            self.stats.time += dt;
            self.stats.max_time = self.stats.max_time.max(dt);
            self.cache.insert(key, Res::Unsat);
            return Res::Unsat;
        }
        let mut r = self.check_pipe(a, &key);
        if let Res::Unknown(_) = r {
            self.stats.fallback += 1;
            r = self.check_oneshot(a, &key);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }

    /// Is the conjunction unsatisfiable even when wide divisions may take any value in their range?
    fn check_abs(&mut self, a: &Arena, key: &[V]) -> bool {
        let mut hs = vec![];
        let mut vars = vec![];
        {
            let mut seen: FxSet<Tid> = Default::default();
            let mut st: Vec<Tid> = key.iter().filter_map(|v| if let V::T(t) = v { Some(*t) } else { None }).collect();
            while let Some(t) = st.pop() {
                if !seen.insert(t) {
                    continue;
                }
                let n = &a.nodes[t as usize];
                if is_float_op(n.op) || matches!(n.op, Op::FEq | Op::FLt | Op::FLe | Op::FIsNan | Op::FpToUi | Op::FpToSi) {
                    return false;
                }
                if n.op == Op::Var {
                    vars.push(n.imm as u32);
                }
                if hard(n) {
                    hs.push(t);
                }
                for x in [n.a, n.b, n.c] {
                    if let V::T(u) = x {
                        st.push(u);
                    }
                }
            }
        }
        if hs.is_empty() {
            return false;
        }
        vars.sort_unstable();
        hs.sort_unstable();
        let mut p = match self.aproc.take() {
            Some(p) => p,
            None => {
                self.adefined.clear();
                let child = Command::new(&self.z3)
                    .args(["-in", "-smt2"])
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn();
                let mut child = match child {
                    Ok(c) => c,
                    Err(_) => return false,
                };
                let mut inp = child.stdin.take().unwrap();
                let out = BufReader::new(child.stdout.take().unwrap());
                let _ = writeln!(inp, "(set-option :timeout 2000)");
                Proc { child, inp, out }
            }
        };
        let mut q = String::new();
        {
            let mut fd: FxSet<Tid> = Default::default();
            let mut e = Emit { a, defined: &mut self.adefined, fdefined: &mut fd, out: &mut q, abs: true };
            for v in key {
                if let V::T(t) = v {
                    e.def(*t);
                }
            }
        }
        q.push_str("(push)\n");
        sides(a, &[], &vars, &Default::default(), &mut q);
        for t in &hs {
            let n = &a.nodes[*t as usize];
            if let (Op::URem, V::C(w, k)) = (n.op, n.b) {
                if k > 0 {
                    let _ = writeln!(q, "(assert (bvult t{} {}))", t, bv(w, k));
                }
            } else if let (Op::UDiv, V::C(w, k)) = (n.op, n.b) {
                if k > 0 {
                    let _ = writeln!(q, "(assert (bvule t{} {}))", t, bv(w, mask(w) / k));
                }
            }
            let zero = match n.b {
                V::C(_, k) => k == 0,
                _ => true,
            };
            if !zero {
                let _ = writeln!(q, "(assert (bvule t{} {}))", t, nm(n.a));
            }
        }
        // x % a = (x % b) % a when a divides b
        let mut rems: Vec<(V, u16, u128, Tid)> = vec![];
        for t in &hs {
            let n = &a.nodes[*t as usize];
            if let (Op::URem, V::C(w, k)) = (n.op, n.b) {
                if k > 0 {
                    rems.push((n.a, w, k, *t));
                }
            }
        }
        rems.sort_by_key(|r| r.2);
        for (i, (x, w, k, t)) in rems.iter().enumerate() {
            if let Some((_, _, k2, t2)) = rems[i + 1..].iter().find(|r| r.0 == *x && r.1 == *w && r.2 % k == 0) {
                let nw = 128 - (*k2 - 1).leading_zeros() as u16;
                if nw > 1 && nw < *w && nw <= 32 {
                    let z = w - nw;
                    let _ = writeln!(q, "(assert (= t{t} ((_ zero_extend {z}) (bvurem ((_ extract {} 0) t{t2}) {}))))", nw - 1, bv(nw, *k));
                }
            }
        }
        for v in key {
            let _ = writeln!(q, "(assert {})", nm(*v));
        }
        q.push_str("(check-sat)\n(pop)\n");
        let mut line = String::new();
        let ok = p.inp.write_all(q.as_bytes()).and_then(|_| p.inp.flush()).is_ok() && matches!(p.out.read_line(&mut line), Ok(n) if n > 0);
        let line = line.trim().to_string();
        if !ok || line.starts_with("(error") {
            let _ = p.child.kill();
            let _ = p.child.wait();
            return false;
        }
        self.aproc = Some(p);
        line == "unsat"
    }

    fn check_pipe(&mut self, a: &Arena, key: &[V]) -> Res {
        if self.proc_.is_none() {
            if let Err(e) = self.start() {
                return Res::Unknown(e);
            }
        }
        let (floats, vars) = cone(a, key);
        let used = if floats.is_empty() { Default::default() } else { bv_used(a, key) };
        let mut defs = String::new();
        {
            let mut e = Emit { a, defined: &mut self.defined, fdefined: &mut self.fdefined, out: &mut defs, abs: false };
            for v in key {
                if let V::T(t) = v {
                    e.def(*t);
                }
            }
        }
        let mut q = std::mem::take(&mut self.buf);
        q.push_str(&defs);
        q.push_str("(push)\n");
        sides(a, &floats, &vars, &used, &mut q);
        for v in key {
            let _ = writeln!(q, "(assert {})", nm(*v));
        }
        q.push_str("(check-sat)\n");
        if let Some(f) = &mut self.log {
            let _ = f.write_all(q.as_bytes());
        }
        {
            let p = self.proc_.as_mut().unwrap();
            if p.inp.write_all(q.as_bytes()).and_then(|_| p.inp.flush()).is_err() {
                self.stop();
                return Res::Unknown("write to solver failed".into());
            }
        }
        let line = match self.read_line() {
            Ok(l) => l,
            Err(e) => {
                self.stop();
                return Res::Unknown(e);
            }
        };
        let r = match line.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                if vars.is_empty() {
                    Res::Sat(vec![])
                } else {
                    let mut g = String::from("(get-value (");
                    for v in &vars {
                        let _ = write!(g, "t{} ", a.vars[*v as usize].tid);
                    }
                    g.push_str("))\n");
                    let p = self.proc_.as_mut().unwrap();
                    if p.inp.write_all(g.as_bytes()).and_then(|_| p.inp.flush()).is_err() {
                        self.stop();
                        return Res::Unknown("write".into());
                    }
                    let mut txt = String::new();
                    let mut depth = 0i32;
                    loop {
                        match self.read_line() {
                            Ok(l) => {
                                depth += l.matches('(').count() as i32 - l.matches(')').count() as i32;
                                txt.push_str(&l);
                                txt.push(' ');
                                if depth <= 0 {
                                    break;
                                }
                            }
                            Err(e) => {
                                self.stop();
                                return Res::Unknown(e);
                            }
                        }
                    }
                    if txt.contains("(error") {
                        Res::Unknown(txt)
                    } else {
                        let m = parse_values(&txt);
                        Res::Sat(m.into_iter().map(|(t, x)| (a.nodes[t as usize].imm as u32, x)).collect())
                    }
                }
            }
            other => {
                let o = other.to_string();
                if o.starts_with("(error") {
                    // inconclusive: do not trust this process any more
                    self.stop();
                    return Res::Unknown(o);
                }
                Res::Unknown(o)
            }
        };
        self.buf.push_str("(pop)\n");
        r
    }

    fn script(&self, a: &Arena, key: &[V], vars: &[u32], floats: &[Tid]) -> String {
        let mut d: FxSet<Tid> = Default::default();
        let mut fd: FxSet<Tid> = Default::default();
        let mut q = String::from("(set-option :produce-models true)\n(set-logic ALL)\n");
        {
            let mut e = Emit { a, defined: &mut d, fdefined: &mut fd, out: &mut q, abs: false };
            for v in key {
                if let V::T(t) = v {
                    e.def(*t);
                }
            }
        }
        let used = bv_used(a, key);
        sides(a, floats, vars, &used, &mut q);
        for v in key {
            let _ = writeln!(q, "(assert {})", nm(*v));
        }
        q.push_str("(check-sat)\n");
        if !vars.is_empty() {
            q.push_str("(get-value (");
            for v in vars {
                let _ = write!(q, "t{} ", a.vars[*v as usize].tid);
            }
            q.push_str("))\n");
        }
        q
    }

    fn check_oneshot(&mut self, a: &Arena, key: &[V]) -> Res {
        let (floats, vars) = cone(a, key);
        let q = self.script(a, key, &vars, &floats);
        let dir = std::env::var_os("RSYM_TMP").map(std::path::PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let f = dir.join(format!("rsym-{}-{}.smt2", std::process::id(), self.stats.queries));
        if std::fs::write(&f, &q).is_err() {
            return Res::Unknown("cannot write query".into());
        }
        let fs = f.to_str().unwrap().to_string();
        let tl = self.fallback_s;
        let cmds: Vec<(String, Vec<String>)> = vec![
            (self.z3.clone(), vec![format!("-T:{}", tl), fs.clone()]),
            (
                "cvc5".into(),
                vec!["--solve-bv-as-int=sum".into(), "--fp-exp".into(), format!("--tlimit={}", tl * 1000), fs.clone()],
            ),
            ("cvc5".into(), vec!["--fp-exp".into(), format!("--tlimit={}", tl * 1000), fs.clone()]),
        ];
        let mut kids: Vec<Option<Child>> = cmds
            .iter()
            .map(|(c, ar)| Command::new(c).args(ar).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok())
            .collect();
        let t0 = Instant::now();
        let mut result = Res::Unknown("all solvers gave up".into());
        'outer: loop {
            let mut alive = false;
            for k in kids.iter_mut() {
                let done = match k {
                    Some(ch) => match ch.try_wait() {
                        Ok(Some(_)) => true,
                        Ok(None) => {
                            alive = true;
                            false
                        }
                        Err(_) => true,
                    },
                    None => false,
                };
                if done {
                    let ch = k.take().unwrap();
                    if let Ok(o) = ch.wait_with_output() {
                        let s = String::from_utf8_lossy(&o.stdout).to_string();
                        let first = s.lines().next().unwrap_or("").trim();
                        if first == "unsat" {
                            result = Res::Unsat;
                            break 'outer;
                        }
                        if first == "sat" && !s.contains("(error") {
                            let rest: String = s.lines().skip(1).collect::<Vec<_>>().join(" ");
                            let m = parse_values(&rest);
                            if vars.is_empty() || !m.is_empty() {
                                result = Res::Sat(m.into_iter().map(|(t, x)| (a.nodes[t as usize].imm as u32, x)).collect());
                                break 'outer;
                            }
                        }
                    }
                }
            }
            if !alive || t0.elapsed() > Duration::from_secs(tl + 10) {
                break;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        for k in kids.iter_mut() {
            if let Some(ch) = k {
                let _ = ch.kill();
                let _ = ch.wait();
            }
        }
        let _ = std::fs::remove_file(&f);
        if let Res::Unknown(_) = result {
            // the next hard one gets less
            self.fallback_s = (self.fallback_s / 2).max(self.fallback_s.min(8));
        }
        result
    }
}

impl Drop for Smt {
    fn drop(&mut self) {
        self.stop();
        if let Some(mut p) = self.aproc.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
}
