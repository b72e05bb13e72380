use crate::interp::*;
use crate::spec_gen as spec;
use crate::sym::*;
use make_pluralrules::generate_rs;

// ---------------------------------------------------------------- CLDR resources
struct Json {
    b: Vec<u8>,
}
impl Json {
    fn new(version: &[u8]) -> Self {
        let mut b = Vec::with_capacity(2048);
        b.extend_from_slice(
            b"{\"supplemental\":{\"version\":{\"_number\":\"$Revision: 1 $\",\"_unicodeVersion\":\"10.0.0\",\"_cldrVersion\":\"",
        );
        b.extend_from_slice(version);
        b.extend_from_slice(b"\"}");
        Json { b }
    }
    fn push(&mut self, s: &[u8]) {
        self.b.extend_from_slice(s);
    }
    fn open(&mut self, kind: &str) {
        self.push(b",\"plurals-type-");
        self.push(kind.as_bytes());
        self.push(b"\":{");
    }
    fn locale(&mut self, first: bool, id: &[u8]) {
        if !first {
            self.push(b",");
        }
        self.push(b"\"");
        self.push(id);
        self.push(b"\":{");
    }
    fn rule(&mut self, cat: &str, text: &[u8]) {
        self.push(b"\"pluralRule-count-");
        self.push(cat.as_bytes());
        self.push(b"\":\"");
        self.push(text);
        self.push(b"\",");
    }
    /// closes a locale
    fn other(&mut self) {
        self.push("\"pluralRule-count-other\":\" @integer 0, 3~17, 100, \u{2026}\"}".as_bytes());
    }
    fn close(&mut self) {
        self.push(b"}");
    }
    fn text(mut self) -> String {
        self.push(b"}}");
        note(as_str(&self.b));
        as_str(&self.b).to_string()
    }
}
/// one locale, one rule
fn one_rule(kind: &str, cat: &str, text: &[u8]) -> String {
    let mut j = Json::new(b"37");
    j.open(kind);
    j.locale(true, b"aa");
    j.rule(cat, text);
    j.other();
    j.close();
    j.text()
}

// ---------------------------------------------------------------- numbers
pub const P10: [u64; 16] = [
    1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000,
    10000000000000, 100000000000000, 1000000000000000,
];
/// any number: an integer, an integer written with zero fraction digits, or a fraction
fn any_ops(vmax: u64) -> Po {
    match pick(3) {
        0 => {
            let i = range(0, 9_007_199_254_740_991);
            Po { n: i as f64, i, v: 0, w: 0, f: 0, t: 0 }
        }
        1 => {
            let i = range(0, 9_007_199_254_740_991);
            let v = range(1, 15);
            Po { n: i as f64, i, v, w: 0, f: 0, t: 0 }
        }
        _ => {
            let v = pick(vmax) + 1;
            let k = pick(v);
            let w = v - k;
            let i = range(0, P10[(15 - v) as usize] - 1);
            let t = range(0, P10[(w - 1) as usize] - 1) * 10 + range(1, 9);
            let f = t * P10[k as usize];
            Po { n: frac(i, f, v), i, v, w, f, t }
        }
    }
}
fn po_of(i: u64) -> Po {
    Po { n: i as f64, i, v: 0, w: 0, f: 0, t: 0 }
}

// ---------------------------------------------------------------- relations and what they mean
const OPERANDS: &[u8; 6] = b"nivwft";
const OPS: [&str; 8] = ["=", "in", "is", "!=", "not in", "is not", "within", "not within"];
#[derive(Clone, Copy)]
struct Rel {
    operand: u8,
    modulus: Option<u64>,
    op: usize,
    n: usize,
    items: [(u64, u64, bool); 8],
}
/// a number of w digits without a leading zero (one digit: any; 20 digits: below 18 * 10^18)
fn number(b: &mut Vec<u8>, w: u64) -> u64 {
    let mut x = 0;
    for k in 0..w {
        let d = if k == 0 && w == 20 {
            b'1'
        } else if k == 1 && w == 20 {
            byte(b'0', b'7')
        } else if k == 0 && w > 1 {
            byte(b'1', b'9')
        } else {
            digit()
        };
        x = x * 10 + (d - b'0') as u64;
        b.push(d);
    }
    x
}
fn relation(b: &mut Vec<u8>, operand: usize, modulus: u64, op: usize, list: u64, w: u64) -> Rel {
    let mut r = Rel { operand: OPERANDS[operand], modulus: None, op, n: 0, items: [(0, 0, false); 8] };
    b.push(r.operand);
    if modulus > 0 {
        b.extend_from_slice(b" % ");
        // 7, 8, 9: the moduli of CLDR
        r.modulus = Some(if modulus >= 7 {
            let m = [10, 100, 1000000][modulus as usize - 7];
            b.extend_from_slice([&b"10"[..], b"100", b"1000000"][modulus as usize - 7]);
            m
        } else {
            let m = number(b, modulus);
            assume(m != 0);
            m
        });
    }
    b.push(b' ');
    b.extend_from_slice(OPS[op].as_bytes());
    b.push(b' ');
    let shape: &[bool] = match list {
        0 => &[false],
        1 => &[true],
        2 => &[false, false],
        3 => &[true, false],
        4 => &[false, true],
        5 => &[true, true],
        6 => &[false, false, false],
        7 => &[true, false, true],
        _ => &[false, false, true, false, true, true, false],
    };
    for (j, ranged) in shape.iter().enumerate() {
        if j > 0 {
            b.extend_from_slice(b", ");
        }
        let lo = number(b, w);
        let hi = if *ranged {
            b.extend_from_slice(b"..");
            number(b, w)
        } else {
            lo
        };
        r.items[r.n] = (lo, hi, *ranged);
        r.n += 1;
    }
    r
}
/// UTS 35. 'in' and '=' match integers only, 'within' any number in the range
fn holds(r: &Rel, o: &Po) -> bool {
    let x = match r.operand {
        b'n' | b'i' => o.i,
        b'v' => o.v,
        b'w' => o.w,
        b'f' => o.f,
        _ => o.t,
    };
    let fraction = (r.operand == b'n') & (o.t != 0);
    let x = match r.modulus {
        Some(m) => x % m,
        None => x,
    };
    let within = r.op >= 6;
    let mut hit = false;
    for k in 0..r.n {
        let (lo, hi, _) = r.items[k];
        hit |= if within {
            // x + fraction <= hi: an integer upper bound is not reached by x == hi plus a fraction
            (lo <= x) & ((x < hi) | ((x == hi) & !fraction))
        } else {
            (lo <= x) & (x <= hi) & !fraction
        };
    }
    let negated = matches!(r.op, 3 | 4 | 5 | 7);
    hit ^ negated
}
/// what the generated code is known to do instead, for the recorded findings
fn known_wrong(r: &Rel, o: &Po) -> bool {
    let x = match r.operand {
        b'n' | b'i' => o.i,
        b'v' => o.v,
        b'w' => o.w,
        b'f' => o.f,
        _ => o.t,
    };
    let fraction = o.f != 0;
    let isn = r.operand == b'n';
    let m = match r.modulus {
        Some(m) => x % m,
        None => x,
    };
    let negated = matches!(r.op, 3 | 4 | 5);
    let mut any = false;
    let mut all = true;
    for k in 0..r.n {
        let (lo, hi, ranged) = r.items[k];
        let one = if r.op == 7 {
            // lo > x && x > hi
            let above = (m < lo) & !((isn & r.modulus.is_none()) & fraction & (m == lo));
            let below = (m > hi) | ((isn & r.modulus.is_none()) & fraction & (m == hi));
            above & below
        } else if r.op == 6 {
            // n % m within: the fraction is not seen
            (lo <= m) & (m <= hi)
        } else if !ranged {
            let eq = if isn && r.modulus.is_none() { (x == lo) & !fraction } else { m == lo };
            eq ^ negated
        } else if isn && r.modulus.is_some() {
            // the modulus is dropped
            ((lo <= x) & (x <= hi)) ^ negated
        } else if isn {
            (((lo <= x) & (x <= hi)) ^ negated) & !fraction
        } else {
            ((lo <= m) & (m <= hi)) ^ negated
        };
        any |= one;
        all &= one;
    }
    if negated || r.op == 7 {
        all
    } else {
        any
    }
}
/// C12: one relation. arg = operand + 10 * operator + 100 * list + 1000 * digits of the modulus
///   + 10000 * digits of the values + 1000000 * (1: the recorded behaviour)
#[no_mangle]
pub extern "C" fn h_rel(arg: u64) {
    let mut b: Vec<u8> = Vec::with_capacity(128);
    let r = relation(&mut b, (arg % 10) as usize, arg / 1000 % 10, (arg / 10 % 10) as usize, arg / 100 % 10, arg / 10000 % 10);
    b.extend_from_slice(b" @integer 1, 2");
    let out = generate_rs(&[one_rule("cardinal", "few", &b)]);
    note(&out);
    let o = any_ops(3);
    let t = Table::find(out.as_bytes(), b"PRS_CARDINAL");
    check(t.n == 1, 1);
    let got = t.category(0, &o);
    let want = if arg / 1000000 == 1 { known_wrong(&r, &o) } else { holds(&r, &o) };
    check(got == if want { 3 } else { 5 }, 2);
    cover(1);
}
/// C12: one relation with long numbers. arg = operand + 10 * operator + 100 * list + 1000 * digits of the modulus
///   + 10000 * digits of the values
#[no_mangle]
pub extern "C" fn h_wide(arg: u64) {
    let mut b: Vec<u8> = Vec::with_capacity(256);
    let w = arg / 10000;
    let r = relation(&mut b, (arg % 10) as usize, arg / 1000 % 10, (arg / 10 % 10) as usize, arg / 100 % 10, w);
    let o = match r.operand {
        b'i' => {
            let i = range(0, u64::MAX);
            po_of(i)
        }
        b'n' => po_of(range(0, P10[15] - 1)),
        _ => {
            let i = range(0, 99);
            let f = range(0, P10[11] - 1) * 10 + range(1, 9);
            Po { n: frac(i, f, 12), i, v: 12, w: 12, f, t: f }
        }
    };
    let out = generate_rs(&[one_rule("ordinal", "many", &b)]);
    note(&out);
    let t = Table::find(out.as_bytes(), b"PRS_ORDINAL");
    check(t.n == 1, 1);
    let got = t.category(0, &o);
    check(got == if holds(&r, &o) { 4 } else { 5 }, 2);
    cover(1);
}
/// C12: relations joined by and / or. arg = number of relations + 10 * rotation
#[no_mangle]
pub extern "C" fn h_join(arg: u64) {
    let n = arg % 10;
    let mut b: Vec<u8> = Vec::with_capacity(256);
    let mut kinds = [0u64; 6];
    let mut rels = Vec::with_capacity(6);
    for j in 0..n {
        if j > 0 {
            kinds[j as usize] = pick(2);
            b.extend_from_slice(if kinds[j as usize] == 0 { b" and " } else { b" or " });
        }
        let (o, m, op, list) = match (j + arg / 10) % 7 {
            0 => (1, 0, 0, 0),
            1 => (2, 0, 3, 2),
            2 => (4, 8, 0, 1),
            3 => (0, 0, 6, 5),
            4 => (5, 0, 1, 3),
            5 => (3, 0, 5, 0),
            _ => (1, 7, 4, 5),
        };
        rels.push(relation(&mut b, o, m, op, list, 1));
    }
    let out = generate_rs(&[one_rule("ordinal", "two", &b)]);
    note(&out);
    let o = any_ops(2);
    let t = Table::find(out.as_bytes(), b"PRS_ORDINAL");
    check(t.n == 1, 1);
    let got = t.category(0, &o);
    let mut any = false;
    let mut all = true;
    for j in 0..n as usize {
        if j > 0 && kinds[j] == 1 {
            any |= all;
            all = true;
        }
        all &= holds(&rels[j], &o);
    }
    any |= all;
    check(got == if any { 2 } else { 5 }, 2);
    cover(1);
}
const CATS: [&str; 5] = ["zero", "one", "two", "few", "many"];
/// C12: several categories with disjoint rules; every number gets the category of its rule. arg = kind
#[no_mangle]
pub extern "C" fn h_cats(arg: u64) {
    let mut j = Json::new(b"37");
    j.open(if arg % 10 == 0 { "cardinal" } else { "ordinal" });
    j.locale(true, b"aa");
    let set = pick(31) + 1;
    let rev = pick(2) == 1;
    let mut vals = [0u64; 5];
    for k in 0..5 {
        let c = if rev { 4 - k } else { k };
        if set >> c & 1 == 1 {
            let mut b = b"i = ".to_vec();
            let x = number(&mut b, 1);
            for e in 0..k {
                let d = if rev { 4 - e } else { e };
                if set >> d & 1 == 1 {
                    assume(x != vals[d]);
                }
            }
            vals[c] = x;
            j.rule(CATS[c], &b);
        }
    }
    j.other();
    j.close();
    let out = generate_rs(&[j.text()]);
    note(&out);
    let t = Table::find(out.as_bytes(), if arg % 10 == 0 { b"PRS_CARDINAL" } else { b"PRS_ORDINAL" });
    let i = range(0, 99);
    let o = Po { n: i as f64, i, v: 0, w: 0, f: 0, t: 0 };
    let got = t.category(0, &o);
    let mut want = 5;
    for c in 0..5 {
        if set >> c & 1 == 1 && i == vals[c] {
            want = c as u8;
        }
    }
    check(got == want, 3);
    cover(1);
}


/// C12: the rule sets of CLDR. arg = set + 1000 * (1: the recorded behaviour)
#[no_mangle]
pub extern "C" fn h_set(arg: u64) {
    let (ordinal, rules, right, recorded) = spec::SETS[(arg % 1000) as usize];
    let mut j = Json::new(b"37");
    j.open(if ordinal { "ordinal" } else { "cardinal" });
    j.locale(true, b"aa");
    for (cat, text) in rules {
        j.rule(cat, text.as_bytes());
    }
    j.other();
    j.close();
    let out = generate_rs(&[j.text()]);
    note(&out);
    let t = Table::find(out.as_bytes(), if ordinal { b"PRS_ORDINAL" } else { b"PRS_CARDINAL" });
    check(t.n == 1, 1);
    let o = any_ops(4);
    let got = t.category(0, &o);
    let so = spec::O { i: o.i, v: o.v, w: o.w, f: o.f, t: o.t };
    let want = if arg >= 1000 { recorded(&so) } else { right(&so) };
    check(got == want, 2);
    cover(1);
}

// ---------------------------------------------------------------- tables
#[derive(Clone, Copy, PartialEq)]
struct Id {
    l: u64,
    s: u64,
    r: u64,
}
fn put(b: &mut Vec<u8>, raw: &mut u64, n: u64, lo: u8, hi: u8, at: u64) {
    for k in 0..n {
        let c = byte(lo, hi);
        b.push(c);
        *raw |= (c as u64) << (8 * (k + at));
    }
}
/// a locale: 0 ll, 1 lll, 2 ll-RR, 3 ll-Ssss, 4 ll-Ssss-RR, 5 ll-DDD, 6 lll-RR, 7 lllll
fn locale(b: &mut Vec<u8>, shape: u64) -> Id {
    let mut id = Id { l: 0, s: 0, r: 0 };
    let n = match shape {
        1 | 6 => 3,
        7 => 5,
        _ => 2,
    };
    put(b, &mut id.l, n, b'a', b'z', 0);
    // 'und' is written without a language
    assume(id.l != 0x646e75);
    if shape == 3 || shape == 4 {
        b.push(b'-');
        put(b, &mut id.s, 1, b'A', b'Z', 0);
        put(b, &mut id.s, 3, b'a', b'z', 1);
    }
    if shape == 2 || shape == 4 || shape == 6 {
        b.push(b'-');
        put(b, &mut id.r, 2, b'A', b'Z', 0);
    }
    if shape == 5 {
        b.push(b'-');
        put(b, &mut id.r, 3, b'0', b'9', 0);
    }
    id
}
/// the order of language identifiers: absent first, then as text, language before script before region
fn less(a: &Id, b: &Id) -> bool {
    let key = |x: u64| x.swap_bytes();
    (key(a.l) < key(b.l))
        | ((a.l == b.l) & ((key(a.s) < key(b.s)) | ((a.s == b.s) & (key(a.r) < key(b.r)))))
}
fn same(a: &Id, b: &Id) -> bool {
    (a.l == b.l) & (a.s == b.s) & (a.r == b.r)
}
fn id_of(t: &Table, k: usize) -> Id {
    let (l, s, r) = t.id(k);
    Id { l, s, r }
}
/// C13: a table of several locales. arg = number + 10 * shape1 + 100 * shape2 + 1000 * shape3 + 100000 * (1: with root)
///   + 1000000 * (k + 1: locale k has only the category other, 9: all have)
#[no_mangle]
pub extern "C" fn h_table(arg: u64) {
    let n = (arg % 10) as usize;
    let root = arg / 100000 % 10 == 1;
    let bare = arg / 1000000;
    let plain = |k: usize| bare == 9 || bare == k as u64 + 1;
    let mut j = Json::new(b"37");
    j.open("cardinal");
    if root {
        j.locale(true, b"root");
        j.rule("one", b"i = 9");
        j.other();
    }
    let mut ids = [Id { l: 0, s: 0, r: 0 }; 4];
    let mut sh = arg / 10;
    for k in 0..n {
        let mut b = Vec::with_capacity(16);
        ids[k] = locale(&mut b, sh % 10);
        // root is not a locale
        sh /= 10;
        for e in 0..k {
            assume(!same(&ids[e], &ids[k]));
        }
        j.locale(k == 0 && !root, &b);
        if !plain(k) {
            j.rule("one", &[b'i', b' ', b'=', b' ', b'1' + k as u8]);
        }
        j.other();
    }
    j.close();
    let out = generate_rs(&[j.text()]);
    note(&out);
    let t = Table::find(out.as_bytes(), b"PRS_CARDINAL");
    check(t.n == n, 1);
    for e in 0..n {
        let id = id_of(&t, e);
        if e > 0 {
            check(less(&id_of(&t, e - 1), &id), 2);
        }
        let mut found = false;
        for k in 0..n {
            let mut right = true;
            for i in 0..n + 1 {
                let want = if i == k + 1 && !plain(k) { 1 } else { 5 };
                right &= t.category(e, &po_of(i as u64)) == want;
            }
            found |= same(&ids[k], &id) & right;
        }
        check(found, 3);
    }
    cover(1);
}
/// C13: a table of many locales: arg % 100 known ones in some order, and one more with any letters among them.
/// arg / 100: which place it has
#[no_mangle]
pub extern "C" fn h_many(arg: u64) {
    let n = (arg % 100) as usize;
    let at = (arg / 100) as usize;
    let mut j = Json::new(b"37");
    j.open("ordinal");
    let mut ids: Vec<Id> = Vec::with_capacity(n + 1);
    let mut k = 0;
    for e in 0..n + 1 {
        let mut b = Vec::with_capacity(8);
        let id = if e == at {
            locale(&mut b, if n % 2 == 0 { 0 } else { 2 })
        } else {
            // 26 and 7 have no common divisor
            k += 1;
            let c = [b'a' + (k * 7 % 26) as u8, b'a' + (k * 11 % 5) as u8];
            b.extend_from_slice(&c);
            let mut id = Id { l: c[0] as u64 | (c[1] as u64) << 8, s: 0, r: 0 };
            if k % 4 == 0 {
                b.extend_from_slice(b"-QX");
                id.r = 0x5851;
            }
            id
        };
        for o in &ids {
            assume(!same(o, &id));
        }
        ids.push(id);
        j.locale(e == 0, &b);
        let d = [b'i', b' ', b'=', b' ', b'1' + (e / 10) as u8, b'0' + (e % 10) as u8];
        j.rule("two", &d);
        j.other();
    }
    j.close();
    let out = generate_rs(&[j.text()]);
    note(&out);
    let t = Table::find(out.as_bytes(), b"PRS_ORDINAL");
    check(t.n == n + 1, 1);
    let mut last = Id { l: 0, s: 0, r: 0 };
    for e in 0..n + 1 {
        let id = id_of(&t, e);
        check(e == 0 || less(&last, &id), 2);
        last = id;
        let mut found = false;
        for k in 0..n + 1 {
            if same(&ids[k], &id) {
                found |= (t.category(e, &po_of(10 + k as u64)) == 2) & (t.category(e, &po_of(11 + k as u64)) == 5);
            }
        }
        check(found, 3);
    }
    cover(1);
}
fn version_of(out: &[u8]) -> u64 {
    let mut c = match find(out, 0, b"CLDR_VERSION") {
        Some(k) => Cur { b: out, k: k + 12 },
        None => {
            outside();
            return 0;
        }
    };
    // : usize = N
    if !(c.lit(b":") && (c.lit(b"usize") || c.lit(b"u64") || c.lit(b"u32")) && c.lit(b"=")) {
        outside();
    }
    c.int()
}
/// one file: kinds is a set of 1 cardinal, 2 ordinal. Rules say i = 1 and i = 2
fn file(version: &[u8], kinds: u64) -> String {
    let mut j = Json::new(version);
    if kinds & 1 != 0 {
        j.open("cardinal");
        j.locale(true, b"de");
        j.rule("one", b"i = 1");
        j.other();
        j.close();
    }
    if kinds & 2 != 0 {
        j.open("ordinal");
        j.locale(true, b"de");
        j.rule("two", b"i = 2");
        j.other();
        j.locale(false, b"en");
        j.rule("few", b"i = 3");
        j.other();
        j.close();
    }
    j.text()
}
/// C13: the version and the two kinds, from one file or two, in either order. arg = version digits + 10 * case
#[no_mangle]
pub extern "C" fn h_files(arg: u64) {
    let mut v = Vec::new();
    let ver = number(&mut v, [0, 1, 2, 3, 5, 8, 10, 12, 15, 18][(arg % 10) as usize]);
    let (files, kinds): (&[u64], u64) = match arg / 10 {
        0 => (&[1], 1),
        1 => (&[2], 2),
        2 => (&[3], 3),
        3 => (&[1, 2], 3),
        4 => (&[2, 1], 3),
        5 => (&[0, 1], 1),
        6 => (&[2, 0, 1], 3),
        _ => (&[0, 3, 0], 3),
    };
    let mut fs: Vec<String> = Vec::new();
    for k in files {
        fs.push(file(&v, *k));
    }
    let out = generate_rs(&fs);
    note(&out);
    check(version_of(out.as_bytes()) == ver, 1);
    let c = Table::find(out.as_bytes(), b"PRS_CARDINAL");
    let o = Table::find(out.as_bytes(), b"PRS_ORDINAL");
    check(c.n == (kinds & 1) as usize, 2);
    check(o.n == (kinds & 2) as usize, 3);
    let i = range(0, 99);
    let p = po_of(i);
    if c.n == 1 {
        check(id_of(&c, 0).l == 0x6564, 4);
        check(c.category(0, &p) == if i == 1 { 1 } else { 5 }, 5);
    }
    if o.n == 2 {
        check((id_of(&o, 0).l == 0x6564) & (id_of(&o, 1).l == 0x6e65), 6);
        check(o.category(0, &p) == if i == 2 { 2 } else { 5 }, 7);
        check(o.category(1, &p) == if i == 3 { 3 } else { 5 }, 8);
    }
    cover(1);
}

/// C13: the way a resource is laid out does not matter: blanks, members that are not used, the order of members,
/// escapes, absent revision. arg = one way + 100 * other
#[no_mangle]
pub extern "C" fn h_layout(arg: u64) {
    let mut v = Vec::new();
    let ver = number(&mut v, 2);
    let ws: &[u8] = [&b""[..], b" ", b"\n\t  ", b"\r\n    "][(arg % 4) as usize];
    let mut out: Vec<u8> = Vec::with_capacity(2048);
    {
        let mut put = |s: &[u8]| {
            // ` is a place for blanks
            for c in s {
                if *c == b'`' {
                    out.extend_from_slice(ws);
                } else {
                    out.push(*c);
                }
            }
        };
        let (dx, dy) = (digit(), digit());
        let (x, y) = ((dx - b'0') as u64, (dy - b'0') as u64);
        let version = |put: &mut dyn FnMut(&[u8])| {
            put(b"`\"version\"`:`{`");
            match arg / 4 % 4 {
                0 => put(b"\"_number\"`:`\"$Revision$\"`,`"),
                1 => put(b"\"_extra\"`:`[1,`{\"a\":null}]`,`"),
                2 => {}
                _ => put(b"\"_number\"`:`null`,`"),
            }
            put(b"\"_cldrVersion\"`:`\"");
            put(&v);
            put(b"\"`,`\"_unicodeVersion\"`:`\"13.0.0\"`}`");
        };
        let cardinal = |put: &mut dyn FnMut(&[u8])| {
            put(b"\"plurals-type-cardinal\"`:`{`\"fr\"`:`{`\"pluralRule-count-other\"`:`\" @integer 2~17, \\u2026\"`,`\"pluralRule-count-one\"`:`\"i = ");
            put(&[dx]);
            put(b" @integer 0, 1 \"`}`,`\"root\"`:`{`\"pluralRule-count-other\"`:`\"\"`}`}`");
        };
        let ordinal = |put: &mut dyn FnMut(&[u8])| {
            put(b"\"plurals-type-ordinal\"`:`{`\"fr\"`:`{`\"pluralRule-count-few\"`:`\"\\u0069 = ");
            put(&[dy]);
            put(b"\"`,`\"pluralRule-count-other\"`:`\"\"`}`}`");
        };
        put(b"`{`");
        if arg / 16 % 2 == 1 {
            put(b"\"generated\"`:`true`,`");
        }
        put(b"\"supplemental\"`:`{`");
        let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][pick(6) as usize];
        for k in 0..3 {
            if k > 0 {
                put(b",`");
            }
            match order[k] {
                0 => version(&mut put),
                1 => cardinal(&mut put),
                _ => ordinal(&mut put),
            }
        }
        if arg / 32 % 2 == 1 {
            put(b",`\"plurals-type-other\"`:`{`\"fr\"`:`{`}`}`");
        }
        put(b"}`}`");
        let text = as_str(&out).to_string();
        note(&text);
        let got = generate_rs(&[text]);
        note(&got);
        check(version_of(got.as_bytes()) == ver, 1);
        let c = Table::find(got.as_bytes(), b"PRS_CARDINAL");
        let o = Table::find(got.as_bytes(), b"PRS_ORDINAL");
        check(c.n == 1, 2);
        check(o.n == 1, 3);
        let i = range(0, 99);
        check((id_of(&c, 0).l == 0x7266) & (id_of(&o, 0).l == 0x7266), 4);
        check(c.category(0, &po_of(i)) == if i == x { 1 } else { 5 }, 5);
        check(o.category(0, &po_of(i)) == if i == y { 3 } else { 5 }, 6);
        cover(1);
    }
}

// ---------------------------------------------------------------- what must be refused
/// generate_rs must panic
fn refused(files: &[String], id: u32) {
    check(true, 0);
    cover(2);
    panic_ok(true);
    let out = generate_rs(files);
    panic_ok(false);
    note(&out);
    check(false, id);
}
/// C14: resources that do not fit together. arg = case + 100 * version digits
#[no_mangle]
pub extern "C" fn h_refuse(arg: u64) {
    let w = arg / 100;
    match arg % 100 {
        // different versions
        k if k < 6 => {
            let (mut a, mut b) = (Vec::new(), Vec::new());
            let x = number(&mut a, w);
            let w2 = pick(3) + 1;
            let y = number(&mut b, w2);
            assume(x != y);
            let (f, g) = [(1, 2), (2, 1), (3, 0), (0, 3), (1, 0), (0, 2)][k as usize];
            refused(&[file(&a, f), file(&b, g)], 1);
        }
        // the third of three differs
        k if k < 8 => {
            let (mut a, mut b) = (Vec::new(), Vec::new());
            let x = number(&mut a, w);
            let y = number(&mut b, w);
            assume(x != y);
            let at = pick(3) as usize;
            let kinds = [1, 2, 0];
            let mut fs = Vec::new();
            for j in 0..3 {
                fs.push(file(if j == at { &b } else { &a }, kinds[(j + k as usize) % 3]));
            }
            refused(&fs, 2);
        }
        // the same kind twice
        k if k < 18 => {
            let mut a = Vec::new();
            number(&mut a, w);
            let c: &[u64] = [&[1u64, 1][..], &[2, 2], &[3, 3], &[3, 1], &[1, 3], &[2, 3], &[3, 2], &[1, 2, 1], &[2, 1, 2], &[1, 0, 1]][k as usize - 8];
            let mut fs = Vec::new();
            for k in c {
                fs.push(file(&a, *k));
            }
            refused(&fs, 3);
        }
        // no data
        18 => refused(&[], 4),
        19 => {
            let mut a = Vec::new();
            number(&mut a, w);
            refused(&[file(&a, 0)], 5);
        }
        20 => {
            let mut a = Vec::new();
            number(&mut a, w);
            refused(&[file(&a, 0), file(&a, 0)], 6);
        }
        // a version that is not a number: one character is not a digit
        _ => {
            let mut a = Vec::new();
            number(&mut a, w);
            let at = pick(w) as usize;
            let c = byte(b' ', b'~');
            assume(c != b'"' && c != b'\\' && !(c >= b'0' && c <= b'9'));
            // a plus sign is a way to write a number
            assume(at > 0 || w == 1 || c != b'+');
            a[at] = c;
            refused(&[file(&a, 1)], 7);
        }
    }
}
fn alpha(b: &[u8]) -> bool {
    let mut ok = true;
    for c in b {
        ok &= (*c >= b'a' && *c <= b'z') || (*c >= b'A' && *c <= b'Z');
    }
    ok
}
fn num(b: &[u8]) -> bool {
    let mut ok = true;
    for c in b {
        ok &= *c >= b'0' && *c <= b'9';
    }
    ok
}
fn cased(b: &[u8], upper: bool, raw: &mut u64, at: u64) {
    for k in 0..b.len() {
        let c = b[k];
        let l = c | 0x20;
        let letter = l >= b'a' && l <= b'z';
        let x = if !letter { c } else if upper { c & !0x20 } else { l };
        *raw |= (x as u64) << (8 * (k as u64 + at));
    }
}
/// what a key says: None when it is not a language identifier; no variants
fn read_id(b: &[u8]) -> Option<Id> {
    let mut id = Id { l: 0, s: 0, r: 0 };
    let mut parts: Vec<(usize, usize)> = Vec::new();
    let mut s = 0;
    for k in 0..b.len() + 1 {
        if k == b.len() || b[k] == b'-' || b[k] == b'_' {
            parts.push((s, k));
            s = k + 1;
        }
    }
    let p = |k: usize| &b[parts[k].0..parts[k].1];
    let l = p(0);
    let n = l.len();
    if !(n == 2 || n == 3 || (n >= 5 && n <= 8)) || !alpha(l) {
        return None;
    }
    cased(l, false, &mut id.l, 0);
    let mut k = 1;
    if k < parts.len() && p(k).len() == 4 && alpha(p(k)) {
        cased(&p(k)[..1], true, &mut id.s, 0);
        cased(&p(k)[1..], false, &mut id.s, 1);
        k += 1;
    }
    if k < parts.len() && ((p(k).len() == 2 && alpha(p(k))) || (p(k).len() == 3 && num(p(k)))) {
        cased(p(k), true, &mut id.r, 0);
        k += 1;
    }
    // variants, which the generated table does not keep
    if k < parts.len() {
        let v = p(k);
        let n = v.len();
        // (unic-langid is lenient about what a variant is made of)
        assume(!(n >= 4 && n <= 8));
        return None;
    }
    Some(id)
}
/// C14: a locale key: any text of n bytes. Read as what it says, or refused. arg = n + 100 * shape
/// shape: 0 any bytes; 1: aa-???; 2: aa-Aaaa-???
#[no_mangle]
pub extern "C" fn h_key(arg: u64) {
    let n = arg % 100;
    let mut key: Vec<u8> = Vec::with_capacity(16);
    match arg / 100 {
        1 => key.extend_from_slice(b"aa-"),
        2 => key.extend_from_slice(b"aa-Aaaa-"),
        _ => {}
    }
    for _ in 0..n {
        let c = byte(b' ', b'~');
        assume(c != b'"' && c != b'\\');
        key.push(c);
    }
    let want = read_id(&key);
    let mut j = Json::new(b"37");
    j.open("ordinal");
    j.locale(true, &key);
    j.rule("many", b"i = 4");
    j.other();
    j.close();
    let js = j.text();
    match want {
        // 'und' is written without a language
        Some(id) if id.l == 0x646e75 => check(true, 0),
        Some(id) => {
            cover(1);
            let out = generate_rs(&[js]);
            note(&out);
            let t = Table::find(out.as_bytes(), b"PRS_ORDINAL");
            check(t.n == 1, 1);
            check(same(&id_of(&t, 0), &id), 2);
            check(t.category(0, &po_of(4)) == 4, 3);
        }
        None => {
            // root, and well-formed identifiers with variants, are accepted
            if key.len() == 4 && key[..] == b"root"[..] {
                check(true, 0);
                return;
            }
            refused(&[js], 4);
        }
    }
}
/// C14: a rule text that starts with no relation, under any category of the first or the second locale.
/// arg = bytes + 100 * (1: in the ordinal part) + 1000 * (1: both parts are there) + 10000 * start
/// start: 0 none; 1 an operand and then what is no operator; 2, 3, 4 a relation, a modulus, a list without its number;
/// 5 a condition and then what is no 'and', 'or' or list; 6, 7, 8 these without what has to follow them;
/// 9 (0 bytes) no condition, in a category that needs one
#[no_mangle]
pub extern "C" fn h_bad_rule(arg: u64) {
    let n = arg % 100;
    let mut b: Vec<u8> = Vec::with_capacity(16);
    for _ in 0..n {
        let c = byte(b' ', b'~');
        assume(c != b'"' && c != b'\\');
        b.push(c);
    }
    // the first character that is not a blank
    let mut k = 0;
    while k < b.len() && b[k] == b' ' {
        k += 1;
    }
    let start = arg / 10000;
    assume(k < b.len() || (start > 0 && start != 5));
    if k < b.len() && start < 9 {
        let c = b[k];
        let operand = c == b'n' || c == b'i' || c == b'v' || c == b'w' || c == b'f' || c == b't';
        let digit = c >= b'0' && c <= b'9';
        match start {
            0 => assume(!operand && c != b'@'),
            1 => assume(c != b'=' && c != b'!' && c != b'%' && c != b'm' && c != b'i' && c != b'n' && c != b'w'),
            3 => assume(!digit),
            5 => assume(c != b'a' && c != b'o' && c != b',' && c != b'@'),
            6 | 7 => assume(!operand),
            8 => assume(!digit),
            // is not
            _ => assume(!digit && c != b'n'),
        }
    }
    let mut full: Vec<u8> = Vec::with_capacity(32);
    match start {
        0 => {}
        1 => full.push(OPERANDS[pick(6) as usize]),
        2 => full.extend_from_slice([&b"n = "[..], b"i!=", b"v in ", b"t within ", b"f is not ", b"w not in "][pick(6) as usize]),
        3 => full.extend_from_slice([&b"n % "[..], b"i mod "][pick(2) as usize]),
        4 => full.extend_from_slice(b"f is "),
        9 => {
            // no condition at all
            for c in &b {
                assume(*c == b' ');
            }
            b.clear();
            b.extend_from_slice([&b""[..], b" ", b"@integer 1", b" @integer 1, 2~4 @decimal 1.0", b"@decimal 0.1"][pick(5) as usize]);
        }
        _ => {
            full.extend_from_slice([&b"i = 1"[..], b"n != 1, 5 and v = 0", b"t within 2..4 or f = 1", b"w is not 3"][pick(4) as usize]);
            full.extend_from_slice([&b" "[..], b" and ", b" or ", b", "][start as usize - 5]);
        }
    }
    full.extend_from_slice(&b);
    let b = full;
    let cat = pick(if start == 9 { 5 } else { 6 }) as usize;
    let second = pick(2) == 1;
    let mut j = Json::new(b"37");
    for kind in 0..2 {
        let bad = kind == arg / 100 % 10;
        if !bad && arg < 1000 {
            continue;
        }
        j.open(if kind == 1 { "ordinal" } else { "cardinal" });
        for l in 0..2 {
            j.locale(l == 0, if l == 0 { b"aa" } else { b"bb" });
            for e in 0..5 {
                if bad && second == (l == 1) && e == cat {
                    j.rule(CATS[e], &b);
                } else if e == 1 {
                    j.rule(CATS[e], b"i = 1");
                }
            }
            if bad && second == (l == 1) && cat == 5 {
                j.rule("other", &b);
                j.b.pop();
                j.push(b"}");
            } else {
                j.other();
            }
        }
        j.close();
    }
    refused(&[j.text()], 1);
}
/// C14: a resource with one structural character missing is not JSON. arg = kinds + 10 * way
/// way: 0 one structural character removed; 1 cut short; 2 text after the end; 3 a name of the format misspelt
#[no_mangle]
pub extern "C" fn h_broken(arg: u64) {
    let t = file(b"37", arg % 10).into_bytes();
    let mut b = Vec::with_capacity(t.len() + 1);
    match arg / 10 {
        0 => {
            let k = pick(t.len() as u64) as usize;
            let mut quoted = false;
            for e in 0..k {
                if t[e] == b'"' {
                    quoted = !quoted;
                }
            }
            let c = t[k];
            assume(c == b'"' || (!quoted && (c == b'{' || c == b'}' || c == b':' || c == b',')));
            b.extend_from_slice(&t[..k]);
            b.extend_from_slice(&t[k + 1..]);
        }
        1 => {
            let k = pick(t.len() as u64) as usize;
            // not within a character
            assume(t[k] & 0xc0 != 0x80);
            b.extend_from_slice(&t[..k]);
        }
        2 => {
            b.extend_from_slice(&t);
            let c = byte(b'!', b'~');
            b.push(c);
        }
        _ => {
            b.extend_from_slice(&t);
            let name: &[u8] = [&b"supplemental"[..], b"version", b"_unicodeVersion", b"_cldrVersion"][pick(4) as usize];
            let at = find(&t, 0, name).unwrap() + pick(name.len() as u64) as usize;
            let c = byte(b' ', b'~');
            assume(c != b'"' && c != b'\\' && c != t[at]);
            b[at] = c;
        }
    }
    refused(&[as_str(&b).to_string()], 1);
}

pub const ENTRIES: &[(&str, extern "C" fn(u64))] = &[
    ("h_rel", h_rel),
    ("h_wide", h_wide),
    ("h_join", h_join),
    ("h_cats", h_cats),
    ("h_set", h_set),
    ("h_table", h_table),
    ("h_many", h_many),
    ("h_files", h_files),
    ("h_layout", h_layout),
    ("h_refuse", h_refuse),
    ("h_key", h_key),
    ("h_bad_rule", h_bad_rule),
    ("h_broken", h_broken),
];
