//! Reads the generated source text and evaluates it: an interpreter for the expressions of
//! Rust that a generator of plural rules can be expected to use. Everything else is 'outside'.
use crate::sym::*;

pub struct Po {
    pub n: f64,
    pub i: u64,
    pub v: u64,
    pub w: u64,
    pub f: u64,
    pub t: u64,
}
#[derive(Clone, Copy)]
enum Val {
    I(u64),
    F(f64),
    B(bool),
    /// a range of integers, inclusive or not
    R(u64, u64, bool),
    RF(f64, f64, bool),
}
pub struct Table<'a> {
    b: &'a [u8],
    /// where the entries start: position of the identifier's arguments, position of the body
    at: Vec<(usize, usize)>,
    pub n: usize,
}
fn here(b: &[u8], k: usize, s: &[u8]) -> bool {
    if b.len() < k + s.len() {
        return false;
    }
    for j in 0..s.len() {
        if b[k + j] != s[j] {
            return false;
        }
    }
    true
}
pub fn find(b: &[u8], from: usize, s: &[u8]) -> Option<usize> {
    let mut k = from;
    while k + s.len() <= b.len() {
        if here(b, k, s) {
            return Some(k);
        }
        k += 1;
    }
    None
}
impl<'a> Table<'a> {
    pub fn find(b: &'a [u8], name: &[u8]) -> Table<'a> {
        let mut t = Table { b, at: Vec::new(), n: 0 };
        let mut c = Cur { b, k: 0 };
        match find(b, 0, name) {
            Some(k) => c.k = k + name.len(),
            None => return t,
        }
        // : & [ ( ... ) ] = & [
        let ok = c.lit(b":") && c.lit(b"&") && c.lit(b"[") && c.skip(b']') && c.lit(b"=") && c.lit(b"&") && c.lit(b"[");
        if !ok {
            outside();
        }
        loop {
            if c.lit(b"]") {
                break;
            }
            if !(c.lit(b"(") && c.lit(b"langid") && c.lit(b"!") && c.lit(b"(")) {
                outside();
            }
            let id = c.k;
            if !(c.skip(b')') && c.lit(b",") && c.lit(b"|") && c.lit(b"po") && c.lit(b"|")) {
                outside();
            }
            let body = c.k;
            if !(c.lit(b"{") && c.skip(b'}') && c.lit(b")")) {
                outside();
            }
            t.at.push((id, body));
            t.n += 1;
            c.lit(b",");
        }
        t
    }
    pub fn category(&self, k: usize, o: &Po) -> u8 {
        let mut c = Cur { b: self.b, k: self.at[k].1 };
        let r = c.block(o);
        r
    }
    /// language, script, region as raw numbers, 0 when absent
    pub fn id(&self, k: usize) -> (u64, u64, u64) {
        let mut c = Cur { b: self.b, k: self.at[k].0 };
        let l = c.subtag();
        c.lit(b",");
        let s = c.subtag();
        c.lit(b",");
        let r = c.subtag();
        c.lit(b",");
        if !c.lit(b")") {
            outside();
        }
        (l, s, r)
    }
}
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub k: usize,
}
fn letter(c: u8) -> bool {
    (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || c == b'_' || (c >= b'0' && c <= b'9')
}
impl<'a> Cur<'a> {
    pub fn ws(&mut self) {
        while self.k < self.b.len() && (self.b[self.k] == b' ' || self.b[self.k] == b'\n') {
            self.k += 1;
        }
    }
    pub fn lit(&mut self, s: &[u8]) -> bool {
        self.ws();
        if !here(self.b, self.k, s) {
            return false;
        }
        // a word ends here
        if letter(s[s.len() - 1]) && self.k + s.len() < self.b.len() && letter(self.b[self.k + s.len()]) {
            return false;
        }
        self.k += s.len();
        true
    }
    /// up to and including the bracket that closes the one just opened
    pub fn skip(&mut self, close: u8) -> bool {
        let open = match close {
            b')' => b'(',
            b']' => b'[',
            _ => b'{',
        };
        let mut d = 1;
        while self.k < self.b.len() {
            let c = self.b[self.k];
            self.k += 1;
            if c == open {
                d += 1;
            } else if c == close {
                d -= 1;
                if d == 0 {
                    return true;
                }
            }
        }
        false
    }
    fn digit_here(&self) -> bool {
        self.k < self.b.len() && self.b[self.k] >= b'0' && self.b[self.k] <= b'9'
    }
    pub fn int(&mut self) -> u64 {
        self.ws();
        let s = self.k;
        let mut x: u64 = 0;
        while self.digit_here() {
            x = x.wrapping_mul(10).wrapping_add((self.b[self.k] - b'0') as u64);
            self.k += 1;
        }
        if s == self.k || self.k - s > 20 {
            outside();
        }
        let _ = self.suffix();
        x
    }
    fn suffix(&mut self) -> bool {
        for s in [&b"u64"[..], b"u32", b"usize", b"_u64", b"_u32", b"_usize"] {
            if here(self.b, self.k, s) {
                self.k += s.len();
                return true;
            }
        }
        false
    }
    fn subtag(&mut self) -> u64 {
        self.ws();
        if self.lit(b"None") {
            return 0;
        }
        // [ Some ( ] subtags :: X :: from_raw_unchecked ( number ) [ ) ]
        let some = self.lit(b"Some");
        if some && !self.lit(b"(") {
            outside();
        }
        let ok = self.lit(b"subtags") && self.lit(b"::") && (self.lit(b"Language") || self.lit(b"Script") || self.lit(b"Region"));
        if !(ok && self.lit(b"::") && self.lit(b"from_raw_unchecked") && self.lit(b"(")) {
            outside();
        }
        let x = self.int();
        if !self.lit(b")") || (some && !self.lit(b")")) {
            outside();
        }
        x
    }
    /// { if e { C } else if .. else { C } }  or  { C }
    pub fn block(&mut self, o: &Po) -> u8 {
        if !self.lit(b"{") {
            outside();
        }
        let r = self.value(o);
        if !self.lit(b"}") {
            outside();
        }
        r
    }
    fn value(&mut self, o: &Po) -> u8 {
        if self.lit(b"if") {
            let c = match self.or(o) {
                Val::B(c) => c,
                _ => {
                    outside();
                    false
                }
            };
            let x = self.block(o);
            if !self.lit(b"else") {
                outside();
            }
            let y = if here(self.b, self.after_ws(), b"{") { self.block(o) } else { self.value(o) };
            let m = c as u8;
            return m * x + (1 - m) * y;
        }
        if here(self.b, self.after_ws(), b"{") {
            return self.block(o);
        }
        if !(self.lit(b"PluralCategory") && self.lit(b"::")) {
            outside();
        }
        const C: [&[u8]; 6] = [b"ZERO", b"ONE", b"TWO", b"FEW", b"MANY", b"OTHER"];
        for k in 0..6 {
            if self.lit(C[k]) {
                return k as u8;
            }
        }
        outside();
        9
    }
    fn after_ws(&mut self) -> usize {
        self.ws();
        self.k
    }
    fn bool(&mut self, v: Val) -> bool {
        match v {
            Val::B(b) => b,
            _ => {
                outside();
                false
            }
        }
    }
    fn or(&mut self, o: &Po) -> Val {
        let mut x = self.and(o);
        while self.lit(b"||") {
            let y = self.and(o);
            x = Val::B(self.bool(x) | self.bool(y));
        }
        x
    }
    fn and(&mut self, o: &Po) -> Val {
        let mut x = self.cmp(o);
        while self.lit(b"&&") {
            let y = self.cmp(o);
            x = Val::B(self.bool(x) & self.bool(y));
        }
        x
    }
    fn cmp(&mut self, o: &Po) -> Val {
        let x = self.range(o);
        const OPS: [&[u8]; 6] = [b"==", b"!=", b"<=", b">=", b"<", b">"];
        for k in 0..6 {
            if self.lit(OPS[k]) {
                let y = self.range(o);
                return Val::B(match (x, y) {
                    (Val::I(a), Val::I(b)) => [a == b, a != b, a <= b, a >= b, a < b, a > b][k],
                    (Val::F(a), Val::F(b)) => match k {
                        0 => a == b,
                        1 => a != b,
                        2 => a <= b,
                        3 => a >= b,
                        4 => a < b,
                        _ => a > b,
                    },
                    (Val::B(a), Val::B(b)) if k < 2 => (a == b) == (k == 0),
                    _ => {
                        outside();
                        false
                    }
                });
            }
        }
        x
    }
    fn range(&mut self, o: &Po) -> Val {
        let x = self.sum(o);
        let incl = if self.lit(b"..=") {
            true
        } else if here(self.b, self.after_ws(), b"..") {
            self.k += 2;
            false
        } else {
            return x;
        };
        match (x, self.sum(o)) {
            (Val::I(a), Val::I(b)) => Val::R(a, b, incl),
            (Val::F(a), Val::F(b)) => Val::RF(a, b, incl),
            _ => {
                outside();
                x
            }
        }
    }
    fn sum(&mut self, o: &Po) -> Val {
        let mut x = self.term(o);
        loop {
            let plus = self.lit(b"+");
            if !plus && !self.lit(b"-") {
                return x;
            }
            let y = self.term(o);
            x = match (x, y) {
                (Val::I(a), Val::I(b)) => Val::I(if plus { a + b } else { a - b }),
                (Val::F(a), Val::F(b)) => Val::F(if plus { a + b } else { a - b }),
                _ => {
                    outside();
                    x
                }
            };
        }
    }
    fn term(&mut self, o: &Po) -> Val {
        let mut x = self.cast(o);
        while self.lit(b"%") {
            let y = self.cast(o);
            x = match (x, y) {
                (Val::I(a), Val::I(b)) => Val::I(a % b),
                (Val::F(a), Val::F(b)) => Val::F(a % b),
                _ => {
                    outside();
                    x
                }
            };
        }
        x
    }
    fn cast(&mut self, o: &Po) -> Val {
        let mut x = self.unary(o);
        while self.lit(b"as") {
            x = if self.lit(b"f64") {
                match x {
                    Val::I(a) => Val::F(a as f64),
                    x => x,
                }
            } else if self.lit(b"u64") || self.lit(b"usize") {
                match x {
                    Val::F(a) => Val::I(a as u64),
                    x => x,
                }
            } else {
                outside();
                x
            };
        }
        x
    }
    fn unary(&mut self, o: &Po) -> Val {
        self.ws();
        if here(self.b, self.k, b"!") && !here(self.b, self.k, b"!=") {
            self.k += 1;
            let x = self.unary(o);
            return Val::B(!self.bool(x));
        }
        if here(self.b, self.k, b"&") && !here(self.b, self.k, b"&&") {
            self.k += 1;
            return self.unary(o);
        }
        let mut x = self.primary(o);
        // methods
        loop {
            self.ws();
            if !here(self.b, self.k, b".") || here(self.b, self.k, b"..") {
                return x;
            }
            self.k += 1;
            if self.lit(b"contains") && self.lit(b"(") {
                let y = self.or(o);
                if !self.lit(b")") {
                    outside();
                }
                x = Val::B(match (x, y) {
                    (Val::R(a, b, incl), Val::I(v)) => (a <= v) & if incl { v <= b } else { v < b },
                    (Val::RF(a, b, incl), Val::F(v)) => (a <= v) & if incl { v <= b } else { v < b },
                    _ => {
                        outside();
                        false
                    }
                });
            } else if self.lit(b"fract") && self.lit(b"(") && self.lit(b")") {
                x = match x {
                    Val::F(a) => Val::F(a.fract()),
                    x => x,
                };
            } else if self.lit(b"trunc") && self.lit(b"(") && self.lit(b")") {
                x = match x {
                    Val::F(a) => Val::F(a.trunc()),
                    x => x,
                };
            } else {
                outside();
            }
        }
    }
    fn primary(&mut self, o: &Po) -> Val {
        self.ws();
        if self.lit(b"(") {
            let x = self.or(o);
            if !self.lit(b")") {
                outside();
            }
            return x;
        }
        if self.lit(b"true") {
            return Val::B(true);
        }
        if self.lit(b"false") {
            return Val::B(false);
        }
        if self.lit(b"po") {
            if !self.lit(b".") {
                outside();
            }
            if self.lit(b"n") {
                return Val::F(o.n);
            }
            const F: [&[u8]; 5] = [b"i", b"v", b"w", b"f", b"t"];
            let v = [o.i, o.v, o.w, o.f, o.t];
            for k in 0..5 {
                if self.lit(F[k]) {
                    return Val::I(v[k]);
                }
            }
            outside();
        }
        if self.digit_here() {
            let x = self.int();
            // 1.0, also spelled 1 . 0 before formatting
            let save = self.k;
            self.ws();
            if here(self.b, self.k, b".") && !here(self.b, self.k, b"..") {
                self.k += 1;
                self.ws();
                if self.digit_here() {
                    while self.digit_here() {
                        if self.b[self.k] != b'0' {
                            outside();
                        }
                        self.k += 1;
                    }
                    return Val::F(x as f64);
                }
                self.k = save;
            }
            return Val::I(x);
        }
        outside();
        Val::B(false)
    }
}
