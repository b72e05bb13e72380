use crate::spec_gen as spec;
use crate::sym::*;
use cldr_pluralrules_parser::ast::*;
use cldr_pluralrules_parser::{parse_plural_condition, parse_plural_rule};

// ---------------------------------------------------------------- does this AST say what the text says?
/// walks the text token by token; blanks may stand between tokens
struct Cur<'a> {
    b: &'a [u8],
    k: usize,
}
impl<'a> Cur<'a> {
    fn ws(&mut self) {
        while self.k < self.b.len() {
            let c = self.b[self.k];
            self.k += if c >= 0x80 {
                let w = wide_blank(&self.b[self.k..]);
                if w == 0 {
                    return;
                }
                w
            } else if c == b' ' || (c >= 9 && c <= 13) {
                1
            } else {
                return;
            };
        }
    }
    /// exactly here
    fn here(&mut self, s: &[u8]) -> bool {
        if self.b.len() - self.k < s.len() {
            return false;
        }
        for j in 0..s.len() {
            if self.b[self.k + j] != s[j] {
                return false;
            }
        }
        self.k += s.len();
        true
    }
    fn lit(&mut self, s: &[u8]) -> bool {
        self.ws();
        self.here(s)
    }
    /// the maximal run of digits here has this value
    fn num(&mut self, v: &Value) -> bool {
        let s = self.k;
        let mut x: u128 = 0;
        while self.k < self.b.len() && self.b[self.k] >= b'0' && self.b[self.k] <= b'9' {
            x = x * 10 + (self.b[self.k] - b'0') as u128;
            self.k += 1;
        }
        self.k > s && x == v.0 as u128
    }
    fn end(&mut self) -> bool {
        self.ws();
        self.k == self.b.len()
    }
    fn relation(&mut self, r: &Relation) -> bool {
        let o: &[u8] = match r.expression.operand {
            Operand::N => b"n",
            Operand::I => b"i",
            Operand::V => b"v",
            Operand::W => b"w",
            Operand::F => b"f",
            Operand::T => b"t",
        };
        if !self.lit(o) {
            return false;
        }
        if let Some(m) = &r.expression.modulus {
            self.ws();
            if !self.here(b"%") && !self.here(b"mod") {
                return false;
            }
            self.ws();
            if !self.num(&m.0) {
                return false;
            }
        }
        let op: &[&[u8]] = match r.operator {
            Operator::EQ => &[b"="],
            Operator::NotEQ => &[b"!="],
            Operator::Is => &[b"is"],
            Operator::IsNot => &[b"is", b"not"],
            Operator::In => &[b"in"],
            Operator::NotIn => &[b"not", b"in"],
            Operator::Within => &[b"within"],
            Operator::NotWithin => &[b"not", b"within"],
        };
        for t in op {
            if !self.lit(t) {
                return false;
            }
        }
        let l = &r.range_list.0;
        if l.is_empty() {
            return false;
        }
        for j in 0..l.len() {
            if j > 0 && !self.lit(b",") {
                return false;
            }
            self.ws();
            let ok = match &l[j] {
                RangeListItem::Value(v) => self.num(v),
                RangeListItem::Range(r) => self.num(&r.lower_val) && self.here(b"..") && self.num(&r.upper_val),
            };
            if !ok {
                return false;
            }
        }
        true
    }
    fn condition(&mut self, c: &Condition) -> bool {
        for j in 0..c.0.len() {
            if j > 0 && !self.lit(b"or") {
                return false;
            }
            let a = &c.0[j].0;
            if a.is_empty() {
                return false;
            }
            for k in 0..a.len() {
                if k > 0 && !self.lit(b"and") {
                    return false;
                }
                if !self.relation(&a[k]) {
                    return false;
                }
            }
        }
        true
    }
    fn decimal(&mut self, d: &DecimalValue) -> bool {
        self.ws();
        if !self.num(&d.integer) {
            return false;
        }
        match &d.decimal {
            Some(f) => self.here(b".") && self.num(f),
            None => true,
        }
    }
    fn list(&mut self, l: &SampleList) -> bool {
        if l.sample_ranges.is_empty() {
            return false;
        }
        for j in 0..l.sample_ranges.len() {
            let r = &l.sample_ranges[j];
            if j > 0 && !self.lit(b",") {
                return false;
            }
            if !self.decimal(&r.lower_val) {
                return false;
            }
            if let Some(u) = &r.upper_val {
                if !self.lit(b"~") || !self.decimal(u) {
                    return false;
                }
            }
        }
        if l.ellipsis {
            if !self.lit(b",") {
                return false;
            }
            self.ws();
            return self.here(b"...") || self.here("\u{2026}".as_bytes());
        }
        true
    }
    fn samples(&mut self, s: &Option<Samples>) -> bool {
        if let Some(s) = s {
            if s.integer.is_none() && s.decimal.is_none() {
                return false;
            }
            if let Some(l) = &s.integer {
                if !self.lit(b"@integer") || !self.list(l) {
                    return false;
                }
            }
            if let Some(l) = &s.decimal {
                if !self.lit(b"@decimal") || !self.list(l) {
                    return false;
                }
            }
        }
        true
    }
}
/// length of the White_Space character of more than one byte at the start (0: none)
fn wide_blank(b: &[u8]) -> usize {
    if b.len() >= 2 && b[0] == 0xc2 && (b[1] == 0x85 || b[1] == 0xa0) {
        return 2;
    }
    if b.len() < 3 {
        return 0;
    }
    let ok = match (b[0], b[1]) {
        (0xe1, 0x9a) => b[2] == 0x80,
        (0xe2, 0x80) => b[2] <= 0x8a || b[2] == 0xa8 || b[2] == 0xa9 || b[2] == 0xaf,
        (0xe2, 0x81) => b[2] == 0x9f,
        (0xe3, 0x80) => b[2] == 0x80,
        _ => false,
    };
    if ok {
        3
    } else {
        0
    }
}
fn blank(b: &[u8]) -> bool {
    let mut k = 0;
    while k < b.len() {
        if b[k] >= 0x80 {
            let w = wide_blank(&b[k..]);
            if w == 0 {
                return false;
            }
            k += w;
            continue;
        }
        if !(b[k] == b' ' || (b[k] >= 9 && b[k] <= 13)) {
            return false;
        }
        k += 1;
    }
    true
}
fn says_rule(r: &Rule, b: &[u8]) -> bool {
    if r.condition.0.is_empty() && r.samples.is_none() {
        return blank(b);
    }
    let mut c = Cur { b, k: 0 };
    c.condition(&r.condition) && c.samples(&r.samples) && c.end()
}
/// the condition is what the text starts with
fn says_condition(r: &Condition, b: &[u8]) -> Option<usize> {
    if r.0.is_empty() {
        let mut k = 0;
        while k < b.len() && b[k] != b'@' {
            k += 1;
        }
        return if blank(&b[..k]) { Some(k) } else { None };
    }
    let mut c = Cur { b, k: 0 };
    if c.condition(r) {
        Some(c.k)
    } else {
        None
    }
}
/// soundness: whatever is accepted is what the text says. Returns whether the rule was accepted
fn sound(b: &[u8]) -> bool {
    note(as_str(b));
    let r = parse_plural_rule(as_str(b));
    let ok = match &r {
        Ok(r) => {
            cover(1);
            check(says_rule(r, b), 1);
            true
        }
        Err(_) => {
            cover(2);
            check(true, 2);
            false
        }
    };
    ok
}
fn sound_condition(b: &[u8]) {
    note(as_str(b));
    match parse_plural_condition(as_str(b)) {
        Ok(c) => {
            cover(3);
            check(says_condition(&c, b).is_some(), 3)
        }
        Err(_) => check(true, 4),
    }
}
/// completeness: accepted, and what the text says, by both functions
fn complete(b: &[u8]) {
    note(as_str(b));
    match parse_plural_rule(as_str(b)) {
        Ok(r) => check(says_rule(&r, b), 5),
        Err(_) => check(false, 6),
    }
    match parse_plural_condition(as_str(b).to_string()) {
        Ok(c) => match says_condition(&c, b) {
            Some(k) => {
                let mut k = k;
                while k < b.len() && (b[k] == b' ' || b[k] == b'\t') {
                    k += 1;
                }
                check(k == b.len() || b[k] == b'@', 7)
            }
            None => check(false, 8),
        },
        Err(_) => check(false, 9),
    }
    cover(1);
}

// ---------------------------------------------------------------- arbitrary texts
const WIDE: [&str; 6] = ["\u{ff11}", "\u{2026}", "\u{a0}", "\u{e9}", "\u{1d7d9}", "\u{2003}"];
/// any character of `len` bytes in UTF-8
fn wide(b: &mut Vec<u8>, len: u64) {
    match len {
        2 => b.push(byte(0xc2, 0xdf)),
        3 => {
            let l = byte(0xe0, 0xef);
            let c = byte(0x80, 0xbf);
            assume((l != 0xe0) | (c >= 0xa0));
            assume((l != 0xed) | (c <= 0x9f));
            b.push(l);
            b.push(c);
        }
        _ => {
            let l = byte(0xf0, 0xf4);
            let c = byte(0x80, 0xbf);
            assume((l != 0xf0) | (c >= 0x90));
            assume((l != 0xf4) | (c <= 0x8f));
            b.push(l);
            b.push(c);
            b.push(byte(0x80, 0xbf));
        }
    }
    b.push(byte(0x80, 0xbf));
}
/// C09: every ASCII text of arg % 100 bytes (100 +: with one wide character of the table at any place; 200 +, 300 +,
/// 400 +: with any one of 2, 3, 4 bytes; 500 + to 700 +: nothing but such characters; 1000 +: condition only)
#[no_mangle]
pub extern "C" fn h_arb(arg: u64) {
    let n = (arg % 100) as usize;
    let mode = arg / 100 % 10;
    let mut b: Vec<u8> = Vec::with_capacity(4 * n + 8);
    if mode >= 5 {
        for _ in 0..n {
            wide(&mut b, mode - 3);
        }
    } else {
        let at = if mode > 0 { pick(n as u64 + 1) as usize } else { n + 1 };
        for k in 0..n + 1 {
            if k == at {
                if mode == 1 {
                    b.extend_from_slice(WIDE[pick(WIDE.len() as u64) as usize].as_bytes());
                } else {
                    wide(&mut b, mode);
                }
            }
            if k < n {
                b.push(byte(0, 127));
            }
        }
    }
    if arg >= 1000 {
        sound_condition(&b);
    } else {
        sound(&b);
    }
}
/// C09: a text made of arg tokens of the grammar, in any order
#[no_mangle]
pub extern "C" fn h_tokens(arg: u64) {
    const T: [&str; 20] = [
        "n", "i", "=", "!=", "is", "not", "in", "within", "and", "or", "%", "mod", "..", ",", "~", "@integer", "@decimal", "...", "\u{2026}", ".",
    ];
    let n = arg % 100;
    let first = arg / 100;
    let mut b: Vec<u8> = Vec::with_capacity(64);
    for j in 0..n {
        let k = if j == 0 && first > 0 { first - 1 } else { pick(22) };
        if k == 20 {
            b.push(digit());
        } else if k == 21 {
            b.push(b' ');
        } else {
            b.extend_from_slice(T[k as usize].as_bytes());
        }
    }
    sound(&b);
    sound_condition(&b);
}
/// C09: one byte of a CLDR rule text replaced by any other. arg = text
#[no_mangle]
pub extern "C" fn h_replace(arg: u64) {
    let t = spec::TEXTS[arg as usize].as_bytes();
    let mut b: Vec<u8> = t.to_vec();
    let k = pick(t.len() as u64) as usize;
    assume(t[k] < 128);
    b[k] = byte(0, 127);
    sound(&b);
    sound_condition(&b);
}
/// C09: one byte of a CLDR rule text removed, or any byte inserted. arg = text
#[no_mangle]
pub extern "C" fn h_insert(arg: u64) {
    let t = spec::TEXTS[arg as usize].as_bytes();
    let mut b: Vec<u8> = Vec::with_capacity(t.len() + 1);
    let k = pick(t.len() as u64 + 1) as usize;
    let del = pick(2) == 1;
    assume(k == t.len() || t[k] & 0xc0 != 0x80);
    b.extend_from_slice(&t[..k]);
    if del {
        assume(k < t.len() && t[k] < 128);
        b.extend_from_slice(&t[k + 1..]);
    } else {
        b.push(byte(0, 127));
        b.extend_from_slice(&t[k..]);
    }
    sound(&b);
}

/// C09: any character of 2 to 4 bytes put into a CLDR rule text. arg = text + 1000 * bytes
#[no_mangle]
pub extern "C" fn h_winsert(arg: u64) {
    let t = spec::TEXTS[(arg % 1000) as usize].as_bytes();
    let mut b: Vec<u8> = Vec::with_capacity(t.len() + 4);
    let k = pick(t.len() as u64 + 1) as usize;
    let over = pick(2) as usize;
    assume(k == t.len() || t[k] & 0xc0 != 0x80);
    assume(over == 0 || (k < t.len() && t[k] < 128));
    b.extend_from_slice(&t[..k]);
    wide(&mut b, arg / 1000);
    b.extend_from_slice(&t[k + over..]);
    sound(&b);
    sound_condition(&b);
}

// ---------------------------------------------------------------- texts of the grammar
const OPERANDS: &[u8; 6] = b"nivwft";
const OPS: [&str; 8] = ["=", "!=", "is", "is not", "in", "not in", "within", "not within"];
/// one gap, and one number, of the text may differ from the rest: (place, kind) and the count so far
static mut ODD_GAP: (u64, u64) = (99, 0);
static mut ODD_NUM: (u64, u64) = (99, 0);
static mut GAPS: u64 = 0;
static mut NUMS: u64 = 0;
/// blanks; must: words stand here
fn gap(b: &mut Vec<u8>, style: u64, must: bool) {
    let k = unsafe {
        GAPS += 1;
        if GAPS - 1 == ODD_GAP.0 {
            3 + ODD_GAP.1
        } else {
            style
        }
    };
    let s: &[u8] = match k {
        1 | 3 if must => b" ",
        1 | 3 => b"",
        2 => b" \t ",
        4 => b"  ",
        5 => b"\t",
        6 => b"    \t  ",
        _ => b" ",
    };
    b.extend_from_slice(s);
}
/// blanks where they do not matter
fn sp(b: &mut Vec<u8>, style: u64) {
    gap(b, style, false);
}
fn digits(b: &mut Vec<u8>, n: u64) {
    let n = unsafe {
        NUMS += 1;
        if NUMS - 1 == ODD_NUM.0 {
            ODD_NUM.1
        } else {
            n
        }
    };
    for _ in 0..n {
        b.push(digit());
    }
}
fn item(b: &mut Vec<u8>, range: bool, w: u64) {
    digits(b, w);
    if range {
        b.extend_from_slice(b"..");
        digits(b, w);
    }
}
fn relation(b: &mut Vec<u8>, operand: u64, modulus: u64, op: u64, list: u64, w: u64, style: u64) {
    b.push(OPERANDS[operand as usize]);
    match modulus {
        1 => {
            sp(b, style);
            b.push(b'%');
            sp(b, style);
            digits(b, w);
        }
        2 => {
            gap(b, style, true);
            b.extend_from_slice(b"mod");
            gap(b, style, true);
            digits(b, w);
        }
        _ => {}
    }
    // words need blanks around them
    gap(b, style, op >= 2);
    for c in OPS[op as usize].bytes() {
        if c == b' ' {
            gap(b, style, true);
        } else {
            b.push(c);
        }
    }
    gap(b, style, op >= 2);
    let shape: &[bool] = match list {
        0 => &[false],
        1 => &[true],
        2 => &[false, true],
        3 => &[true, false, false],
        4 => &[false, false, true, true],
        _ => &[false, true, false, true, true, false, false, true],
    };
    for (j, r) in shape.iter().enumerate() {
        if j > 0 {
            gap(b, if style == 0 { 1 } else { style }, false);
            b.push(b',');
            sp(b, style);
        }
        item(b, *r, w);
    }
}
/// C10: one relation. arg = operator + 10 * width + 100 * style
#[no_mangle]
pub extern "C" fn h_relation(arg: u64) {
    let mut b: Vec<u8> = Vec::with_capacity(128);
    let (op, w, style) = (arg % 10, arg / 10 % 10, arg / 100 % 10);
    // 'is' takes a single value
    let list = if op == 2 || op == 3 { 0 } else { pick(6) };
    let (o, m) = (pick(6), pick(3));
    relation(&mut b, o, m, op, list, w, style);
    complete(&b);
}
/// C10: arg % 10 relations joined by any of and / or
#[no_mangle]
pub extern "C" fn h_join(arg: u64) {
    let n = arg % 10;
    let mut b: Vec<u8> = Vec::with_capacity(256);
    for j in 0..n {
        if j > 0 {
            let s: &[u8] = if pick(2) == 0 { b"and" } else { b"or" };
            b.push(b' ');
            b.extend_from_slice(s);
            b.push(b' ');
        }
        let (op, list, m) = match (j + arg / 10) % 5 {
            0 => (0, 0, 1),
            1 => (1, 3, 0),
            2 => (3, 0, 2),
            3 => (7, 2, 0),
            _ => (4, 1, 1),
        };
        let o = if n <= 2 { pick(6) } else { (j + arg / 10) % 6 };
        relation(&mut b, o, m, op, list, 2, 0);
    }
    complete(&b);
}
/// C10, C11: a whole rule in which one gap (arg / 10000 == 0) or one number (1) differs from the rest.
/// arg = operator + 10 * list + 100 * modulus + 1000 * style
#[no_mangle]
pub extern "C" fn h_odd(arg: u64) {
    let (op, list, m, style) = (arg % 10, arg / 10 % 10, arg / 100 % 10, arg / 1000 % 10);
    let odd = if arg / 10000 == 0 { (pick(36), pick(4)) } else { (pick(24), [1, 2, 4, 9, 18, 19][pick(6) as usize]) };
    unsafe {
        GAPS = 0;
        NUMS = 0;
        if arg / 10000 == 0 {
            ODD_GAP = odd;
        } else {
            ODD_NUM = odd;
        }
    }
    let mut b: Vec<u8> = Vec::with_capacity(256);
    let join = |b: &mut Vec<u8>, w: &[u8]| {
        gap(b, style, true);
        b.extend_from_slice(w);
        gap(b, style, true);
    };
    relation(&mut b, op % 6, m, op, list, 1, style);
    join(&mut b, b"and");
    relation(&mut b, (op + 1) % 6, 0, 1, 0, 1, style);
    join(&mut b, b"or");
    relation(&mut b, (op + 2) % 6, 1, 0, 2, 1, style);
    join(&mut b, b"or");
    relation(&mut b, (op + 3) % 6, 0, 7, 1, 1, style);
    gap(&mut b, style, false);
    b.extend_from_slice(b"@integer");
    gap(&mut b, style, true);
    sample_list_of(&mut b, &[0, 2], 1, style);
    gap(&mut b, style, false);
    b.extend_from_slice(b"@decimal");
    gap(&mut b, style, true);
    sample_list_of(&mut b, &[3, 1], 2, style);
    // the odd one is in the text
    unsafe {
        assume(if arg / 10000 == 0 { odd.0 < GAPS } else { odd.0 < NUMS });
        ODD_GAP = (99, 0);
        ODD_NUM = (99, 0);
    }
    complete(&b);
}
fn sample(b: &mut Vec<u8>, kind: u64, style: u64) {
    let dec = kind & 1 != 0;
    let one = |b: &mut Vec<u8>| {
        digits(b, 2);
        if dec {
            b.push(b'.');
            digits(b, 2);
        }
    };
    one(b);
    if kind & 2 != 0 {
        gap(b, if style == 0 { 1 } else { style }, false);
        b.push(b'~');
        gap(b, if style == 0 { 1 } else { style }, false);
        one(b);
    }
}
fn comma(b: &mut Vec<u8>, style: u64) {
    gap(b, if style == 0 { 1 } else { style }, false);
    b.push(b',');
    sp(b, style);
}
/// ellipsis: 0 none
fn sample_list_of(b: &mut Vec<u8>, kinds: &[u64], ellipsis: u64, style: u64) {
    for j in 0..kinds.len() {
        if j > 0 {
            comma(b, style);
        }
        sample(b, kinds[j], style);
    }
    if ellipsis > 0 {
        comma(b, style);
        b.extend_from_slice(if ellipsis == 1 { "\u{2026}" } else { "..." }.as_bytes());
    }
}
fn sample_list(b: &mut Vec<u8>, n: u64, style: u64) {
    let mut kinds = [0u64; 8];
    for j in 0..n {
        kinds[j as usize] = pick(4);
    }
    sample_list_of(b, &kinds[..n as usize], pick(3), style);
}
/// C11: samples. arg = samples per list + 10 * (1: a condition before) + 100 * style + 1000 * (1 integer, 2 decimal, 3 both)
#[no_mangle]
pub extern "C" fn h_samples(arg: u64) {
    let (n, cond, style, which) = (arg % 10, arg / 10 % 10, arg / 100 % 10, arg / 1000);
    let mut b: Vec<u8> = Vec::with_capacity(256);
    if cond == 1 {
        relation(&mut b, 1, 1, 0, 2, 2, 0);
        b.push(b' ');
    } else if cond == 2 {
        b.push(b' ');
    }
    if which & 1 != 0 {
        b.extend_from_slice(b"@integer ");
        sample_list(&mut b, n, style);
    }
    if which == 3 {
        b.push(b' ');
    }
    if which & 2 != 0 {
        b.extend_from_slice(b"@decimal ");
        sample_list(&mut b, n, style);
    }
    complete(&b);
}
/// C11: long sample lists, of arg % 100 entries; any one of them may be of another kind. arg / 100: 1 integer, 2 decimal, 3 both
#[no_mangle]
pub extern "C" fn h_slist(arg: u64) {
    let n = (arg % 100) as usize;
    let which = arg / 100;
    let mut b: Vec<u8> = Vec::with_capacity(512);
    relation(&mut b, 1, 1, 0, 2, 1, 0);
    for d in 0..2 {
        if which >> d & 1 == 0 {
            continue;
        }
        let mut kinds = [d; 32];
        let at = pick(n as u64) as usize;
        kinds[at] = pick(4);
        b.extend_from_slice(if d == 0 { b" @integer " } else { b" @decimal " });
        sample_list_of(&mut b, &kinds[..n], pick(3), 0);
        if which == 3 && d == 0 {
            assume(at == n - 1);
        }
    }
    complete(&b);
}
/// C10: a relation with a list of arg items, one of which is a range
#[no_mangle]
pub extern "C" fn h_rlist(arg: u64) {
    let mut b: Vec<u8> = b"i in ".to_vec();
    let at = pick(arg);
    for k in 0..arg {
        if k > 0 {
            b.push(b',');
        }
        item(&mut b, k == at, 1);
    }
    b.extend_from_slice(b" and v = 0");
    complete(&b);
}
/// C10: arg relations, joined by 'and' but for one or two places
#[no_mangle]
pub extern "C" fn h_chain(arg: u64) {
    let (p, q) = (pick(arg), pick(arg));
    let flip = pick(2) == 1;
    assume(p <= q);
    let mut b: Vec<u8> = Vec::with_capacity(1024);
    for k in 0..arg {
        if k > 0 {
            let or = (k == p || k == q) != flip;
            b.extend_from_slice(if or { b" or " } else { b" and " });
        }
        relation(&mut b, k % 6, k % 3, (k * 5) % 8, if (k * 5) % 8 == 2 || (k * 5) % 8 == 3 { 0 } else { k % 3 }, 1, 0);
    }
    complete(&b);
}
/// C11: a number of arg digits is read exactly or refused. arg / 100: where it stands
#[no_mangle]
pub extern "C" fn h_number(arg: u64) {
    let n = arg % 100;
    let mut b: Vec<u8> = Vec::with_capacity(128);
    let pre: &[u8] = match arg / 100 {
        0 => b"n = ",
        1 => b"n % ",
        2 => b"i in 0..",
        3 => b"i in 1, ",
        4 => b"n = 1 @integer ",
        5 => b"n = 1 @decimal 0.",
        _ => b"n within ",
    };
    b.extend_from_slice(pre);
    let s = b.len();
    digits(&mut b, n);
    let mut x: u128 = 0;
    for k in s..b.len() {
        x = x * 10 + (b[k] - b'0') as u128;
    }
    match arg / 100 {
        1 => b.extend_from_slice(b" = 2"),
        6 => b.extend_from_slice(b"..99999999999999999999999"),
        _ => {}
    }
    let ok = sound(&b);
    let fits = x <= usize::MAX as u128 && arg / 100 != 6;
    check(ok == fits, 10);
}
/// C10: the rule texts of CLDR. arg = text
#[no_mangle]
pub extern "C" fn h_cldr(arg: u64) {
    let t = spec::TEXTS[arg as usize].as_bytes();
    // every digit of the condition may be any digit
    let mut b: Vec<u8> = t.to_vec();
    let mut k = 0;
    while k < b.len() && b[k] != b'@' {
        if b[k].is_ascii_digit() {
            b[k] = digit();
        }
        k += 1;
    }
    complete(&b);
}
pub const ENTRIES: &[(&str, extern "C" fn(u64))] = &[
    ("h_arb", h_arb),
    ("h_tokens", h_tokens),
    ("h_replace", h_replace),
    ("h_insert", h_insert),
    ("h_winsert", h_winsert),
    ("h_relation", h_relation),
    ("h_join", h_join),
    ("h_odd", h_odd),
    ("h_samples", h_samples),
    ("h_slist", h_slist),
    ("h_rlist", h_rlist),
    ("h_chain", h_chain),
    ("h_number", h_number),
    ("h_cldr", h_cldr),
];
