use crate::spec_gen as spec;
use crate::spec_gen::O;
use crate::sym::*;
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::{PluralCategory, PluralRuleType, PluralRules};
use unic_langid::LanguageIdentifier;

pub fn cat(c: &PluralCategory) -> u8 {
    match c {
        PluralCategory::ZERO => 0,
        PluralCategory::ONE => 1,
        PluralCategory::TWO => 2,
        PluralCategory::FEW => 3,
        PluralCategory::MANY => 4,
        PluralCategory::OTHER => 5,
    }
}
fn rules(kind: u64, idx: usize) -> (PluralRules, fn(&O) -> u8) {
    let (ty, e) = if kind == 0 {
        (PluralRuleType::CARDINAL, spec::CARDINAL[idx])
    } else {
        (PluralRuleType::ORDINAL, spec::ORDINAL[idx])
    };
    let id: LanguageIdentifier = e.0.parse().unwrap();
    match PluralRules::create(id, ty) {
        Ok(r) => (r, e.1),
        Err(_) => {
            check(false, 1);
            unreachable!()
        }
    }
}
/// any u64, split so that decimal remainders stay cheap for the solver
fn any_u64() -> u64 {
    if pick(2) == 0 {
        range(0, 18446744073708) * 1000000 + range(0, 999999)
    } else {
        18446744073709000000 + range(0, 551615)
    }
}
pub const P10: [u64; 20] = [
    1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000,
    1000000000000, 10000000000000, 100000000000000, 1000000000000000, 10000000000000000, 100000000000000000,
    1000000000000000000, 10000000000000000000,
];
/// C01, C02: the category of every number, for one locale. arg: kind * 1000 + locale, plus 10000 * (largest v)
#[no_mangle]
pub extern "C" fn h_rule(arg: u64) {
    let vmax = arg / 10000;
    let (r, want) = rules(arg / 1000 % 10, (arg % 1000) as usize);
    let (n, o);
    match pick(3) {
        0 => {
            let i = any_u64();
            n = i as f64;
            o = O { i, v: 0, w: 0, f: 0, t: 0 };
            cover(1);
        }
        1 => {
            let i = any_u64();
            let v = pick(vmax) + 1;
            n = i as f64;
            o = O { i, v, w: 0, f: 0, t: 0 };
            cover(2);
        }
        _ => {
            let v = pick(vmax) + 1;
            let k = pick(v);
            let w = v - k;
            // at most 15 significant digits, so that n lies strictly between i and i + 1
            let ih = P10[(15 - vmax - 3) as usize];
            let i = range(0, ih - 1) * 1000 + range(0, 999);
            let t = range(0, P10[(w - 1) as usize] - 1) * 10 + range(1, 9);
            let f = t * P10[k as usize];
            n = frac(i, f, v);
            o = O { i, v, w, f, t };
            cover(3);
        }
    }
    let ops = PluralOperands { n, i: o.i, v: o.v as usize, w: o.w as usize, f: o.f, t: o.t };
    match r.select(ops) {
        Ok(c) => check(cat(&c) == want(&o), 2),
        Err(_) => check(false, 3),
    }
}


// ---------------------------------------------------------------- conversions
use std::convert::TryInto;
pub fn conv<T: TryInto<PluralOperands>>(x: T) -> Option<PluralOperands> {
    x.try_into().ok()
}
fn same(p: &PluralOperands, n: f64, o: &O) -> bool {
    (p.n == n) & (p.i == o.i) & (p.v as u64 == o.v) & (p.w as u64 == o.w) & (p.f == o.f) & (p.t == o.t)
}
fn same_ops(p: &PluralOperands, q: &PluralOperands) -> bool {
    (p.n == q.n) & (p.i == q.i) & (p.v == q.v) & (p.w == q.w) & (p.f == q.f) & (p.t == q.t)
}
fn int_ops(i: u64) -> O {
    O { i, v: 0, w: 0, f: 0, t: 0 }
}
fn int_case<T: TryInto<PluralOperands>>(x: T, m: u64, may_refuse: bool) {
    match conv(x) {
        Some(p) => {
            cover(1);
            check(same(&p, m as f64, &int_ops(m)), 10)
        }
        None => check(may_refuse, 11),
    }
}
/// C05: every value of every integer type. arg selects the type
#[no_mangle]
pub extern "C" fn h_int(arg: u64) {
    match arg {
        0 => {
            let x = range(0, u8::MAX as u64);
            int_case(x as u8, x, false)
        }
        1 => {
            let x = range(0, u16::MAX as u64);
            int_case(x as u16, x, false)
        }
        2 => {
            let x = range(0, u32::MAX as u64);
            int_case(x as u32, x, false)
        }
        3 => {
            let x = range(0, u64::MAX);
            int_case(x, x, false)
        }
        4 => {
            let x = range(0, u64::MAX);
            int_case(x as usize, x, false)
        }
        5 => {
            let m = range(0, 127);
            match pick(3) {
                0 => int_case(m as i8, m, false),
                1 => int_case(-(m as i8), m, false),
                _ => int_case(i8::MIN, 128, false),
            }
        }
        6 => {
            let m = range(0, i16::MAX as u64);
            match pick(3) {
                0 => int_case(m as i16, m, false),
                1 => int_case(-(m as i16), m, false),
                _ => int_case(i16::MIN, 1 << 15, false),
            }
        }
        7 => {
            let m = range(0, i32::MAX as u64);
            match pick(3) {
                0 => int_case(m as i32, m, false),
                1 => int_case(-(m as i32), m, false),
                _ => int_case(i32::MIN, 1 << 31, false),
            }
        }
        8 => {
            let m = range(0, i64::MAX as u64);
            match pick(3) {
                0 => int_case(m as i64, m, false),
                1 => int_case(-(m as i64), m, false),
                _ => int_case(i64::MIN, 1 << 63, true),
            }
        }
        _ => {
            let m = range(0, isize::MAX as u64);
            match pick(3) {
                0 => int_case(m as isize, m, false),
                1 => int_case(-(m as isize), m, false),
                _ => int_case(isize::MIN, 1 << 63, true),
            }
        }
    }
}

// ---------------------------------------------------------------- text
/// what a numeral text denotes
#[derive(Clone, Copy)]
struct Numeral {
    i: u128,
    f: u128,
    t: u128,
    v: u64,
    w: u64,
}
/// any v fraction digits: split by the number of trailing zeros
fn fraction(b: &mut Vec<u8>, v: usize) {
    let w = v - pick(v as u64 + 1) as usize;
    for k in 0..v {
        b.push(if k >= w {
            b'0'
        } else if k + 1 == w {
            byte(b'1', b'9')
        } else {
            digit()
        });
    }
}
/// reads digits [ '.' digits ] (at least one digit on each side of a point); None otherwise
fn numeral(b: &[u8]) -> Option<Numeral> {
    let mut k = 0;
    let mut r = Numeral { i: 0, f: 0, t: 0, v: 0, w: 0 };
    while k < b.len() && b[k].is_ascii_digit() {
        r.i = r.i * 10 + (b[k] - b'0') as u128;
        k += 1;
    }
    if k == 0 {
        return None;
    }
    if k == b.len() {
        return Some(r);
    }
    if b[k] != b'.' || k + 1 == b.len() {
        return None;
    }
    k += 1;
    let mut end = k;
    for j in k..b.len() {
        if !b[j].is_ascii_digit() {
            return None;
        }
        if b[j] != b'0' {
            end = j + 1;
        }
        r.f = r.f * 10 + (b[j] - b'0') as u128;
        r.v += 1;
    }
    for j in k..end {
        r.t = r.t * 10 + (b[j] - b'0') as u128;
        r.w += 1;
    }
    Some(r)
}
fn fits(x: u128) -> bool {
    x <= u64::MAX as u128
}
/// stands in for the library's text-to-f64 conversion inside the symbolic executor; exact on the
/// texts it is used for (correct rounding of integers below 10^38; fractions of at most 15
/// significant digits are only ever ordered against integers)
#[no_mangle]
pub unsafe extern "C" fn stub_f64_from_str(out: *mut Result<f64, std::num::ParseFloatError>, p: *const u8, n: usize) {
    let mut b = std::slice::from_raw_parts(p, n);
    let mut neg = false;
    if !b.is_empty() && (b[0] == b'-' || b[0] == b'+') {
        neg = b[0] == b'-';
        b = &b[1..];
    }
    let x = stub_value(b);
    let r = match x {
        Some(x) => Ok(if neg { -x } else { x }),
        None => Err("".parse::<f32>().unwrap_err()),
    };
    std::ptr::write(out, r);
}
fn lower(b: &[u8], s: &[u8]) -> bool {
    if b.len() != s.len() {
        return false;
    }
    for k in 0..s.len() {
        if b[k] | 0x20 != s[k] {
            return false;
        }
    }
    true
}
fn stub_value(b: &[u8]) -> Option<f64> {
    if lower(b, b"inf") || lower(b, b"infinity") {
        return Some(f64::INFINITY);
    }
    if lower(b, b"nan") {
        return Some(f64::NAN);
    }
    let mut k = 0;
    let mut i: u128 = 0;
    let mut f: u128 = 0;
    let mut v = 0;
    let mut huge = false;
    while k < b.len() && b[k].is_ascii_digit() {
        if i > u128::MAX / 16 {
            // beyond any operand: only the magnitude matters
            huge = true;
        } else {
            i = i * 10 + (b[k] - b'0') as u128;
        }
        k += 1;
    }
    let ni = k;
    if huge && k == b.len() {
        return Some(if k > 309 { f64::INFINITY } else { 1e38 });
    }
    if k < b.len() && b[k] == b'.' {
        k += 1;
        while k < b.len() && b[k].is_ascii_digit() {
            f = f * 10 + (b[k] - b'0') as u128;
            v += 1;
            k += 1;
        }
    }
    if ni + v == 0 {
        return None;
    }
    if k < b.len() {
        if b[k] | 0x20 == b'e' {
            return stub_sci(i, f, v, &b[k + 1..]);
        }
        return None;
    }
    if f == 0 {
        return Some(i as f64);
    }
    Some(frac(i as u64, f as u64, v as u64))
}
/// (i.f) * 10^e
fn stub_sci(i: u128, f: u128, v: usize, e: &[u8]) -> Option<f64> {
    let mut e = e;
    let mut neg = false;
    if !e.is_empty() && (e[0] == b'-' || e[0] == b'+') {
        neg = e[0] == b'-';
        e = &e[1..];
    }
    if e.is_empty() {
        return None;
    }
    let mut x: u64 = 0;
    for j in 0..e.len() {
        if !e[j].is_ascii_digit() {
            return None;
        }
        x = x * 10 + (e[j] - b'0') as u64;
    }
    let m = i * 10u128.pow(v as u32) + f;
    if m == 0 {
        return Some(0.0);
    }
    if x > 25 {
        // far outside the integers; only the class of the value matters
        return Some(if !neg {
            if x > 400 { f64::INFINITY } else { 1e26 }
        } else if x > 400 {
            0.0
        } else {
            1e-20
        });
    }
    let x = conc(x) as i64;
    let x = if neg { -x } else { x } - v as i64;
    if x >= 0 {
        return Some((m * 10u128.pow(x as u32)) as f64);
    }
    let p = 10u128.pow((-x) as u32);
    let (i, f) = (m / p, m % p);
    if f == 0 {
        return Some(i as f64);
    }
    if -x > 18 {
        return Some(frac(i as u64, 1, 18));
    }
    Some(frac(i as u64, f as u64, (-x) as u64))
}
fn expect_text(b: &[u8], r: Numeral) {
    let s = as_str(b);
    note(s);
    let got = conv(s);
    if fits(r.i) && fits(r.f) {
        let mag = if b[0] == b'-' { &b[1..] } else { b };
        let n = as_str(mag).parse::<f64>().unwrap();
        match got {
            None => check(false, 20),
            Some(p) => {
                check(same(&p, n, &O { i: r.i as u64, v: r.v, w: r.w, f: r.f as u64, t: r.t as u64 }), 21);
                // the text is a number: n is not negative and agrees with i
                check(p.n >= 0.0, 22);
            }
        }
    } else {
        cover(2);
        check(got.is_none(), 23);
    }
    cover(1);
}
/// C03: every numeral with arg = 100 * integer digits + fraction digits
#[no_mangle]
pub extern "C" fn h_text(arg: u64) {
    let (d, v) = ((arg / 100) as usize, (arg % 100) as usize);
    let mut b = Vec::with_capacity(d + v + 2);
    if pick(2) == 1 {
        b.push(b'-');
    }
    let neg = b.len();
    for _ in 0..d {
        b.push(digit());
    }
    if v > 0 {
        b.push(b'.');
        fraction(&mut b, v);
    }
    let r = numeral(&b[neg..]).unwrap();
    expect_text(&b, r);
}
/// C03: long numerals, zeros but for one or two digits of each part: arg = 1000 * integer digits + fraction digits
#[no_mangle]
pub extern "C" fn h_long(arg: u64) {
    let (d, v) = ((arg / 1000) as usize, (arg % 1000) as usize);
    let mut b = Vec::with_capacity(d + v + 2);
    if pick(2) == 1 {
        b.push(b'-');
    }
    let neg = b.len();
    // the digits at these distances from the end are any
    let (p, q) = [(0, 9), (1, 12), (18, 18), (20, 20), (30, 30)][pick(5) as usize];
    let free = |left: usize| left == p || left == q;
    let digit = || if pick(2) == 0 { b'0' } else { byte(b'1', b'9') };
    for k in 0..d {
        b.push(if free(d - 1 - k) { digit() } else { b'0' });
    }
    if v > 0 {
        b.push(b'.');
        for k in 0..v {
            b.push(if free(v - 1 - k) { digit() } else { b'0' });
        }
    }
    let r = numeral(&b[neg..]).unwrap();
    let s = as_str(&b);
    note(s);
    match conv(s) {
        Some(p) => {
            check(fits(r.i) && fits(r.f), 24);
            let o = O { i: r.i as u64, v: r.v, w: r.w, f: r.f as u64, t: r.t as u64 };
            check((p.i == o.i) & (p.v as u64 == o.v) & (p.w as u64 == o.w) & (p.f == o.f) & (p.t == o.t), 25);
            check((p.n >= 0.0) & ((o.t == 0) == (p.n == o.i as f64)), 26);
            cover(1);
        }
        None => {
            check(!fits(r.i) || !fits(r.f), 27);
            cover(2);
        }
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    /// -? digits ( . digits )?
    Plain,
    /// a number in a notation that may be refused: '+', a missing digit around the point
    Loose,
    /// scientific notation
    Sci,
    Not,
}
/// what kind of text this is, and the bytes that carry the number
fn classify(b: &[u8]) -> (Kind, usize) {
    let mut k = 0;
    let mut loose = false;
    if k < b.len() && b[k] == b'-' {
        k += 1;
    }
    if k < b.len() && b[k] == b'+' {
        k += 1;
        loose = true;
    }
    let start = k;
    let mut digits = 0;
    while k < b.len() && b[k].is_ascii_digit() {
        k += 1;
        digits += 1;
    }
    if digits == 0 {
        loose = true;
    }
    if k < b.len() && b[k] == b'.' {
        k += 1;
        let d = k;
        while k < b.len() && b[k].is_ascii_digit() {
            k += 1;
            digits += 1;
        }
        if k == d {
            loose = true;
        }
    }
    if digits == 0 {
        return (Kind::Not, start);
    }
    if k == b.len() {
        return (if loose { Kind::Loose } else { Kind::Plain }, start);
    }
    if b[k] | 0x20 != b'e' {
        return (Kind::Not, start);
    }
    k += 1;
    if k < b.len() && (b[k] == b'-' || b[k] == b'+') {
        k += 1;
    }
    let d = k;
    while k < b.len() && b[k].is_ascii_digit() {
        k += 1;
    }
    if k == d || k < b.len() {
        return (Kind::Not, start);
    }
    (Kind::Sci, start)
}
fn loose_value(b: &[u8]) -> Numeral {
    let mut r = Numeral { i: 0, f: 0, t: 0, v: 0, w: 0 };
    let mut k = 0;
    while k < b.len() && b[k] != b'.' {
        r.i = r.i * 10 + (b[k] - b'0') as u128;
        k += 1;
    }
    k += 1;
    while k < b.len() {
        r.f = r.f * 10 + (b[k] - b'0') as u128;
        r.v += 1;
        if b[k] != b'0' {
            r.t = r.f;
            r.w = r.v;
        }
        k += 1;
    }
    r
}
fn expect_any(b: &[u8]) {
    note(as_str(b));
    let (kind, start) = classify(b);
    match kind {
        Kind::Plain => {
            cover(10);
            expect_text(b, numeral(&b[start..]).unwrap())
        }
        Kind::Loose => {
            cover(11);
            let r = loose_value(&b[start..]);
            let n = as_str(&b[start..]).parse::<f64>().unwrap();
            match conv(as_str(b)) {
                Some(p) => check(same(&p, n, &O { i: r.i as u64, v: r.v, w: r.w, f: r.f as u64, t: r.t as u64 }), 24),
                None => check(true, 25),
            }
        }
        Kind::Sci => {
            cover(12);
            let n = as_str(&b[start..]).parse::<f64>().unwrap();
            match conv(as_str(b)) {
                Some(p) => {
                    check(p.n == n, 26);
                    check(n < 18446744073709551616.0, 27);
                    check(p.i == n.trunc() as u64, 28);
                    let whole = n.trunc() == n;
                    check(!whole || (p.v == 0) & (p.w == 0) & (p.f == 0) & (p.t == 0), 29);
                    check(whole || (p.v != 0) & (p.f != 0), 30);
                }
                None => check(true, 25),
            }
        }
        Kind::Not => {
            cover(13);
            check(conv(as_str(b)).is_none(), 31)
        }
    }
}
/// any character of `len` bytes in UTF-8
fn wide(b: &mut Vec<u8>, len: u64) {
    match len {
        2 => b.push(byte(0xc2, 0xdf)),
        3 => {
            let l = byte(0xe0, 0xef);
            let c = byte(0x80, 0xbf);
            assume((l != 0xe0) | (c >= 0xa0));
            assume((l != 0xed) | (c <= 0x9f));
            b.push(l);
            b.push(c);
        }
        _ => {
            let l = byte(0xf0, 0xf4);
            let c = byte(0x80, 0xbf);
            assume((l != 0xf0) | (c >= 0x90));
            assume((l != 0xf4) | (c <= 0x8f));
            b.push(l);
            b.push(c);
            b.push(byte(0x80, 0xbf));
        }
    }
    b.push(byte(0x80, 0xbf));
}
/// characters that are not ASCII but look like parts of numbers, or exercise character boundaries
const WIDE: [&str; 7] = ["\u{ff11}", "\u{663}", "\u{2212}", "\u{a0}", "\u{e9}", "\u{1d7d9}", "\u{bd}"];
/// C04: every ASCII text of `arg` bytes (arg >= 100: the same with one wide character at any place: 100 one of the
/// table, 200, 300, 400 any one of that many hundred's bytes, 500 to 700 nothing but such characters)
#[no_mangle]
pub extern "C" fn h_any(arg: u64) {
    let n = (arg % 100) as usize;
    let mode = arg / 100;
    let mut b = Vec::with_capacity(4 * n + 8);
    if mode == 0 {
        for _ in 0..n {
            b.push(byte(0, 127));
        }
    } else if mode >= 5 {
        for _ in 0..n {
            wide(&mut b, mode - 3);
        }
    } else {
        let at = pick(n as u64 + 1) as usize;
        for _ in 0..at {
            b.push(byte(0, 127));
        }
        if mode == 1 {
            b.extend_from_slice(WIDE[pick(WIDE.len() as u64) as usize].as_bytes());
        } else {
            wide(&mut b, mode);
        }
        for _ in at..n {
            b.push(byte(0, 127));
        }
    }
    expect_any(&b);
}
/// C04: sign characters, digits, point, exponent at symbolic places: longer texts over the alphabet of numbers.
/// arg = length
#[no_mangle]
pub extern "C" fn h_shape(arg: u64) {
    let n = arg as usize;
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(match pick(6) {
            0 => digit(),
            1 => b'.',
            2 => b'-',
            3 => b'+',
            4 => b'e',
            _ => b'E',
        });
    }
    expect_any(&b);
}
/// C04: a numeral with one character put in, or in the place of one of its own. arg = 10000 * bytes of the character
/// + 100 * integer digits + fraction digits
#[no_mangle]
pub extern "C" fn h_defect(arg: u64) {
    let (t, _) = any_numeral((arg / 100 % 100) as usize, (arg % 100) as usize);
    let at = pick(t.len() as u64 + 1) as usize;
    let over = pick(2) as usize;
    assume(at + over <= t.len());
    let mut b = Vec::with_capacity(t.len() + 4);
    b.extend_from_slice(&t[..at]);
    match arg / 10000 {
        1 => b.push(byte(0, 127)),
        w => wide(&mut b, w),
    }
    b.extend_from_slice(&t[at + over..]);
    expect_any(&b);
}
/// C04: words that the standard library reads as floats. arg unused
#[no_mangle]
pub extern "C" fn h_word(_arg: u64) {
    const W: [&[u8]; 4] = [b"inf", b"infinity", b"nan", b"infinit"];
    let w = W[pick(4) as usize];
    let mut b = Vec::with_capacity(16);
    let p = pick(4);
    if p & 1 != 0 {
        b.push(b'-');
    }
    if p & 2 != 0 {
        b.push(if pick(2) == 0 { b'-' } else { b'+' });
    }
    for c in w {
        // either case
        let x = byte(0, 1);
        b.push(c - 32 * x);
    }
    cover(1);
    note(as_str(&b));
    check(conv(as_str(&b)).is_none(), 32);
    check(conv(as_str(&b).to_string()).is_none(), 33);
}
/// C03: an owned String converts like the str. arg = 100 * integer digits + fraction digits
#[no_mangle]
pub extern "C" fn h_owned(arg: u64) {
    let (b, _) = any_numeral((arg / 100) as usize, (arg % 100) as usize);
    let s = as_str(&b);
    note(s);
    match (conv(s), conv(s.to_string())) {
        (Some(p), Some(q)) => {
            cover(1);
            check(same_ops(&p, &q), 34)
        }
        (None, None) => check(true, 35),
        _ => check(false, 36),
    }
}
fn any_numeral(d: usize, v: usize) -> (Vec<u8>, usize) {
    let mut b = Vec::with_capacity(d + v + 2);
    if pick(2) == 1 {
        b.push(b'-');
    }
    let neg = b.len();
    for _ in 0..d {
        b.push(digit());
    }
    if v > 0 {
        b.push(b'.');
        fraction(&mut b, v);
    }
    (b, neg)
}

// ---------------------------------------------------------------- floats
static mut SHOWN: (u64, u32, &[u8]) = (0, 0, b"");
/// Debug writes numbers below 10^-4 and from 10^16 on in scientific notation
fn scientific(t: &[u8], point: usize) -> bool {
    if t.len() < point + 5 {
        return point > 16 && t[0] >= b'1' && t[0] <= b'9';
    }
    let mut zero = true;
    for k in 0..point + 5 {
        zero &= t[k] == b'0' || t[k] == b'.';
    }
    let mut nonzero = false;
    for k in 0..t.len() {
        nonzero |= t[k] != b'0' && t[k] != b'.';
    }
    zero && nonzero
}
fn sci(t: &[u8], point: usize, b: &mut Vec<u8>) {
    let mut m: Vec<u8> = Vec::with_capacity(t.len());
    let mut exp = 0i64;
    for k in 0..t.len() {
        if t[k] == b'.' || (m.is_empty() && t[k] == b'0') {
            continue;
        }
        if m.is_empty() {
            exp = if k < point { (point - k) as i64 - 1 } else { -((k - point) as i64) };
        }
        m.push(t[k]);
    }
    while m.len() > 1 && m[m.len() - 1] == b'0' {
        m.pop();
    }
    b.push(m[0]);
    if m.len() > 1 {
        b.push(b'.');
        b.extend_from_slice(&m[1..]);
    }
    b.push(b'e');
    if exp < 0 {
        b.push(b'-');
        exp = -exp;
    }
    if exp >= 100 {
        b.push(b'0' + (exp / 100) as u8);
    }
    if exp >= 10 {
        b.push(b'0' + (exp / 10 % 10) as u8);
    }
    b.push(b'0' + (exp % 10) as u8);
}
unsafe fn show(eq: bool, eqneg: bool, f: &mut std::fmt::Formatter<'_>, debug: bool) -> std::fmt::Result {
    let t = SHOWN.2;
    let mut b: Vec<u8> = Vec::with_capacity(t.len() + 24);
    if eqneg {
        b.push(b'-');
    } else if !eq {
        // some other number than the one under test: out of the stub's reach
        outside();
    }
    let mut point = t.len();
    for k in 0..t.len() {
        if t[k] == b'.' {
            point = k;
        }
    }
    match f.precision() {
        None if debug && scientific(t, point) => sci(t, point, &mut b),
        None => {
            b.extend_from_slice(t);
            if debug && point == t.len() {
                b.extend_from_slice(b".0");
            }
        }
        Some(p) => {
            let v = t.len() - point;
            let v = if v == 0 { 0 } else { v - 1 };
            if p >= v {
                b.extend_from_slice(t);
                if v == 0 && p > 0 {
                    b.push(b'.');
                }
                for _ in v..p {
                    b.push(b'0');
                }
            } else {
                // truncating; rounding up is left out
                assume(t[point + 1 + p] < b'5');
                b.extend_from_slice(&t[..point + if p == 0 { 0 } else { 1 + p }]);
            }
        }
    }
    f.write_str(as_str(&b))
}
#[no_mangle]
pub unsafe extern "C" fn stub_f64_display(x: &f64, f: &mut std::fmt::Formatter<'_>) -> bool {
    let s = f64::from_bits(SHOWN.0);
    show((*x == s) | (x.is_nan() & s.is_nan()), *x == -s, f, false).is_err()
}
#[no_mangle]
pub unsafe extern "C" fn stub_f64_debug(x: &f64, f: &mut std::fmt::Formatter<'_>) -> bool {
    let s = f64::from_bits(SHOWN.0);
    show((*x == s) | (x.is_nan() & s.is_nan()), *x == -s, f, true).is_err()
}
#[no_mangle]
pub unsafe extern "C" fn stub_f32_display(x: &f32, f: &mut std::fmt::Formatter<'_>) -> bool {
    let s = f32::from_bits(SHOWN.1);
    show((*x == s) | (x.is_nan() & s.is_nan()), *x == -s, f, false).is_err()
}
#[no_mangle]
pub unsafe extern "C" fn stub_f32_debug(x: &f32, f: &mut std::fmt::Formatter<'_>) -> bool {
    let s = f32::from_bits(SHOWN.1);
    show((*x == s) | (x.is_nan() & s.is_nan()), *x == -s, f, true).is_err()
}
/// C06: every f64 (arg < 10000) or f32 (arg >= 10000) whose shortest decimal form has
/// arg / 100 % 100 integer digits and arg % 100 fraction digits (at most 15 resp. 6 significant digits)
#[no_mangle]
pub extern "C" fn h_float(arg: u64) {
    let (d, v) = ((arg / 100 % 100) as usize, (arg % 100) as usize);
    let single = arg >= 10000;
    let mut b: Vec<u8> = Vec::with_capacity(d + v + 2);
    for k in 0..d {
        b.push(if k == 0 && d > 1 { byte(b'1', b'9') } else { digit() });
    }
    if v > 0 {
        b.push(b'.');
        for k in 0..v {
            b.push(if k + 1 == v { byte(b'1', b'9') } else { digit() });
        }
    }
    let r = numeral(&b).unwrap();
    let x = if v == 0 { r.i as u64 as f64 } else { frac(r.i as u64, r.f as u64, v as u64) };
    note(as_str(&b));
    // from 16 digits on not every decimal is the shortest form of a number
    if d + v > 15 {
        only_if(|| x.to_string().as_bytes() == &b[..]);
    }
    let neg = pick(2) == 1;
    let o = O { i: r.i as u64, v: r.v, w: r.w, f: r.f as u64, t: r.t as u64 };
    let got = if single {
        let y = x as f32;
        unsafe { SHOWN = (0, y.to_bits(), std::slice::from_raw_parts(b.as_ptr(), b.len())) };
        conv(if neg { -y } else { y })
    } else {
        unsafe { SHOWN = (x.to_bits(), 0, std::slice::from_raw_parts(b.as_ptr(), b.len())) };
        conv(if neg { -x } else { x })
    };
    match got {
        Some(p) => {
            cover(1);
            check(same(&p, x, &o), 40)
        }
        None => check(false, 41),
    }
}
/// C06: small numbers: 0.00...0dd with arg % 1000 fraction digits; arg >= 1000: f32
#[no_mangle]
pub extern "C" fn h_float_tiny(arg: u64) {
    let v = (arg % 1000) as usize;
    let mut b: Vec<u8> = Vec::with_capacity(v + 2);
    b.extend_from_slice(b"0.");
    for k in 0..v {
        b.push(if k + 1 == v { byte(b'1', b'9') } else if k + 4 >= v { digit() } else { b'0' });
    }
    note(as_str(&b));
    let mut f: u64 = 0;
    for k in v - 4.min(v)..v {
        f = f * 10 + (b[2 + k] - b'0') as u64;
    }
    let x = frac(0, f, v as u64);
    let neg = pick(2) == 1;
    let o = O { i: 0, v: v as u64, w: v as u64, f, t: f };
    let p = b.as_ptr();
    let t = unsafe { std::slice::from_raw_parts(p, b.len()) };
    let got = if arg >= 1000 {
        let y = x as f32;
        only_if(|| y.to_string().as_bytes() == t);
        unsafe { SHOWN = (0, y.to_bits(), t) };
        conv(if neg { -y } else { y })
    } else {
        only_if(|| x.to_string().as_bytes() == t);
        unsafe { SHOWN = (x.to_bits(), 0, t) };
        conv(if neg { -x } else { x })
    };
    match got {
        Some(p) => {
            cover(1);
            // (n is compared as far as the model of fractions goes: between 0 and 1)
            check((p.n > 0.0) & (p.n < 1.0), 44);
            only_if(|| p.n == x);
            check((p.i == 0) & (p.v == v) & (p.w == v) & (p.f == f) & (p.t == f), 45)
        }
        None => check(false, 46),
    }
}
/// C06: whole floats of arg % 100 = 16..20 digits: at most 17 significant digits, then zeros; arg >= 100: f32 with 8
#[no_mangle]
pub extern "C" fn h_float_big(arg: u64) {
    let d = (arg % 100) as usize;
    let sig = if arg >= 100 { 8 } else { 17 };
    let mut b: Vec<u8> = Vec::with_capacity(d);
    let mut i: u128 = 0;
    for k in 0..d {
        let c = if k >= sig {
            b'0'
        } else if k == 0 {
            byte(b'1', b'9')
        } else {
            digit()
        };
        b.push(c);
        i = i * 10 + (c - b'0') as u128;
    }
    note(as_str(&b));
    assume(i < (u64::MAX - 1024) as u128);
    let i = i as u64;
    let t = unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) };
    let neg = pick(2) == 1;
    let got;
    let x;
    if arg >= 100 {
        let y = i as f32;
        x = y as f64;
        only_if(|| y.to_string().as_bytes() == t);
        unsafe { SHOWN = (0, y.to_bits(), t) };
        got = conv(if neg { -y } else { y });
    } else {
        x = i as f64;
        only_if(|| x.to_string().as_bytes() == t);
        unsafe { SHOWN = (x.to_bits(), 0, t) };
        got = conv(if neg { -x } else { x });
    }
    match got {
        Some(p) => {
            cover(1);
            check((p.i == i) & (p.v == 0) & (p.w == 0) & (p.f == 0) & (p.t == 0), 47);
            if arg < 100 {
                check(p.n == x, 48);
            }
        }
        None => check(false, 49),
    }
}
/// C06: floats that are no number, or beyond the integers that operands can hold. arg unused
#[no_mangle]
pub extern "C" fn h_float_out(_arg: u64) {
    const X: [f64; 9] =
        [f64::INFINITY, f64::NAN, 18446744073709551616.0, 1e20, 1e21, 36893488147419103232.0, 1e100, f64::MAX, 1e22];
    const T: [&str; 6] = ["inf", "NaN", "18446744073709552000", "100000000000000000000", "1000000000000000000000", "36893488147419103000"];
    let k = pick(9) as usize;
    let neg = pick(2) == 1;
    let mut long = Vec::new();
    let t: &[u8] = if k < 6 {
        T[k].as_bytes()
    } else if k == 6 || k == 8 {
        long.push(b'1');
        for _ in 0..if k == 6 { 100 } else { 22 } {
            long.push(b'0');
        }
        &long
    } else {
        long.extend_from_slice(b"17976931348623157");
        for _ in 0..292 {
            long.push(b'0');
        }
        &long
    };
    unsafe { SHOWN = (X[k].to_bits(), (X[k] as f32).to_bits(), std::slice::from_raw_parts(t.as_ptr(), t.len())) };
    let x = if neg { -X[k] } else { X[k] };
    cover(1);
    check(conv(x).is_none(), 42);
    if k < 2 {
        check(conv(x as f32).is_none(), 43);
    }
}

// ---------------------------------------------------------------- locales
use unic_langid::subtags::{Language, Region, Script, Variant};
fn raw(n: usize, first: (u8, u8), rest: (u8, u8)) -> u64 {
    let mut r = 0u64;
    for k in 0..n {
        let (lo, hi) = if k == 0 { first } else { rest };
        r |= (byte(lo, hi) as u64) << (8 * k);
    }
    r
}
struct Parts {
    l: u64,
    s: u64,
    r: u64,
    v: u64,
}
/// any language identifier: language of n letters (0: undetermined), script, region, variant present as flagged
fn any_langid(n: usize, initial: u64, script: bool, region: u64, variant: u64) -> (LanguageIdentifier, Parts) {
    let az = (b'a', b'z');
    let l = raw(n, if initial == 0 { az } else { (b'a' + initial as u8 - 1, b'a' + initial as u8 - 1) }, az);
    assume(n != 3 || l != u64::from_le_bytes(*b"und\0\0\0\0\0"));
    let s = if script { raw(4, (b'A', b'Z'), az) } else { 0 };
    let r = match region {
        0 => 0,
        1 => raw(2, (b'A', b'Z'), (b'A', b'Z')),
        _ => raw(3, (b'0', b'9'), (b'0', b'9')),
    };
    let v = match variant {
        0 => 0,
        1 => raw(5, az, az),
        _ => raw(4, (b'0', b'9'), az),
    };
    let id = unsafe {
        LanguageIdentifier::from_raw_parts_unchecked(
            if n == 0 { Language::default() } else { Language::from_raw_unchecked(l) },
            if s == 0 { None } else { Some(Script::from_raw_unchecked(s as u32)) },
            if r == 0 { None } else { Some(Region::from_raw_unchecked(r as u32)) },
            if v == 0 {
                None
            } else if variant == 3 {
                Some(vec![Variant::from_raw_unchecked(raw(5, az, az)), Variant::from_raw_unchecked(v)].into_boxed_slice())
            } else {
                Some(vec![Variant::from_raw_unchecked(v)].into_boxed_slice())
            },
        )
    };
    (id, Parts { l, s, r, v })
}
fn listed(t: &[(u64, u64)], p: &Parts) -> bool {
    let mut hit = false;
    for (l, r) in t {
        hit |= (p.l == *l) & (p.r == *r);
    }
    hit & (p.s == 0) & (p.v == 0)
}
fn ty(k: u64) -> PluralRuleType {
    if k == 0 {
        PluralRuleType::CARDINAL
    } else {
        PluralRuleType::ORDINAL
    }
}
fn same_id(id: &LanguageIdentifier, p: &Parts) -> bool {
    let l: Option<u64> = id.language.into();
    let s: Option<u32> = id.script.map(|x| x.into());
    let r: Option<u32> = id.region.map(|x| x.into());
    let mut v = 0;
    let mut nv = 0;
    for x in id.variants() {
        v = (*x).into();
        nv += 1;
    }
    (l.unwrap_or(0) == p.l) & (s.unwrap_or(0) as u64 == p.s) & (r.unwrap_or(0) as u64 == p.r) & (v == p.v) & (nv == (p.v != 0) as u32)
}
/// C07: arg = kind + 10 * letters + 100 * script + 1000 * region + 10000 * variant + 100000 * initial letter (0: any)
#[no_mangle]
pub extern "C" fn h_create(arg: u64) {
    let k = arg % 10;
    let (id, p) = any_langid((arg / 10 % 10) as usize, arg / 100000, arg / 100 % 10 == 1, arg / 1000 % 10, arg / 10000 % 10);
    let want = listed(if k == 0 { spec::IDS_CARDINAL } else { spec::IDS_ORDINAL }, &p);
    match PluralRules::create(id, ty(k)) {
        Ok(r) => {
            cover(1);
            check(want, 50);
            check(same_id(r.get_locale(), &p), 51);
            let c = r.clone();
            check(same_id(c.get_locale(), &p), 52);
        }
        Err(_) => {
            cover(2);
            check(!want, 53)
        }
    }
}
/// C07: the list is exactly the set of locales that can be created. arg = kind
#[no_mangle]
pub extern "C" fn h_list(arg: u64) {
    let k = arg;
    let t = if k == 0 { spec::IDS_CARDINAL } else { spec::IDS_ORDINAL };
    let list = PluralRules::get_locales(ty(k));
    check(list.len() == t.len(), 54);
    // any entry of CLDR is in the list once
    let j = conc(range(0, t.len() as u64 - 1)) as usize;
    let p = Parts { l: t[j].0, s: 0, r: t[j].1, v: 0 };
    let mut n = 0;
    for id in &list {
        n += same_id(id, &p) as u32;
    }
    cover(1);
    check(n == 1, 55);
}

// ---------------------------------------------------------------- select
struct Own(Option<PluralOperands>);
impl TryInto<PluralOperands> for Own {
    type Error = ();
    fn try_into(self) -> Result<PluralOperands, ()> {
        self.0.ok_or(())
    }
}
fn sel<T: TryInto<PluralOperands>>(r: &PluralRules, x: T) -> u8 {
    match r.select(x) {
        Ok(c) => cat(&c),
        Err(_) => 9,
    }
}
/// C08: one locale, whole numbers of up to 3 (arg / 10000) digits through every input type
#[no_mangle]
pub extern "C" fn h_same_int(arg: u64) {
    let d = (arg / 10000) as usize;
    let (r, _) = rules(arg / 1000 % 10, (arg % 1000) as usize);
    let mut b: Vec<u8> = Vec::with_capacity(d + 1);
    b.push(b'-');
    let mut x: u64 = 0;
    for k in 0..d {
        let c = if k == 0 && d > 1 { byte(b'1', b'9') } else { digit() };
        x = x * 10 + (c - b'0') as u64;
        b.push(c);
    }
    note(as_str(&b[1..]));
    let base = sel(&r, PluralOperands { n: x as f64, i: x, v: 0, w: 0, f: 0, t: 0 });
    cover(1);
    check(base < 6, 60);
    check(sel(&r, as_str(&b[1..])) == base, 61);
    check(sel(&r, as_str(&b)) == base, 62);
    check(sel(&r, as_str(&b[1..]).to_string()) == base, 63);
    check(sel(&r, x) == base, 64);
    check(sel(&r, x as usize) == base, 65);
    check(sel(&r, x as i64) == base, 66);
    check(sel(&r, -(x as i64)) == base, 67);
    check(sel(&r, x as isize) == base, 68);
    if d < 10 {
        check(sel(&r, x as u32) == base, 69);
        check(sel(&r, -(x as i32)) == base, 70);
    }
    if d < 5 {
        check(sel(&r, x as u16) == base, 71);
        check(sel(&r, -(x as i16)) == base, 72);
    }
    if d < 3 {
        check(sel(&r, x as u8) == base, 73);
        check(sel(&r, -(x as i8)) == base, 74);
    }
    let n = x as f64;
    unsafe { SHOWN = (n.to_bits(), (n as f32).to_bits(), std::slice::from_raw_parts(b.as_ptr().add(1), d)) };
    if d < 16 {
        check(sel(&r, n) == base, 75);
        check(sel(&r, -n) == base, 76);
    }
    if d < 7 {
        check(sel(&r, n as f32) == base, 77);
    }
    check(sel(&r, Own(conv(x))) == base, 78);
    // a copy of the rules, and a second call, answer alike
    let c = r.clone();
    check(sel(&c, x) == base, 79);
    check(sel(&r, x) == base, 80);
}
/// C08: one locale, decimals of 2 integer and arg / 10000 fraction digits
#[no_mangle]
pub extern "C" fn h_same_dec(arg: u64) {
    let v = (arg / 10000) as usize;
    let (r, _) = rules(arg / 1000 % 10, (arg % 1000) as usize);
    let mut b: Vec<u8> = Vec::with_capacity(v + 5);
    b.push(b'-');
    b.push(byte(b'1', b'9'));
    b.push(digit());
    b.push(b'.');
    for k in 0..v {
        b.push(if k + 1 == v { byte(b'1', b'9') } else { digit() });
    }
    note(as_str(&b[1..]));
    let m = numeral(&b[1..]).unwrap();
    let n = frac(m.i as u64, m.f as u64, v as u64);
    let base = sel(&r, PluralOperands { n, i: m.i as u64, v, w: v, f: m.f as u64, t: m.t as u64 });
    cover(1);
    check(base < 6, 81);
    check(sel(&r, as_str(&b[1..])) == base, 82);
    check(sel(&r, as_str(&b)) == base, 83);
    check(sel(&r, as_str(&b[1..]).to_string()) == base, 84);
    unsafe { SHOWN = (n.to_bits(), (n as f32).to_bits(), std::slice::from_raw_parts(b.as_ptr().add(1), b.len() - 1)) };
    check(sel(&r, n) == base, 85);
    check(sel(&r, -n) == base, 86);
    check(sel(&r, n as f32) == base, 87);
}
/// C08: one locale, a written number of d integer and v fraction digits, leading and trailing zeros included.
/// arg = (100 * d + v) * 10000 + kind * 1000 + locale
#[no_mangle]
pub extern "C" fn h_same_text(arg: u64) {
    let (d, v) = ((arg / 1000000) as usize, (arg / 10000 % 100) as usize);
    let (r, _) = rules(arg / 1000 % 10, (arg % 1000) as usize);
    let mut b: Vec<u8> = Vec::with_capacity(d + v + 2);
    b.push(b'-');
    for _ in 0..d {
        b.push(digit());
    }
    if v > 0 {
        b.push(b'.');
        fraction(&mut b, v);
    }
    note(as_str(&b[1..]));
    let m = numeral(&b[1..]).unwrap();
    let n = if m.t == 0 { m.i as u64 as f64 } else { frac(m.i as u64, m.f as u64, v as u64) };
    let base = sel(&r, PluralOperands { n, i: m.i as u64, v, w: m.w as usize, f: m.f as u64, t: m.t as u64 });
    cover(1);
    check(base < 6, 94);
    check(sel(&r, as_str(&b[1..])) == base, 95);
    check(sel(&r, as_str(&b)) == base, 96);
    check(sel(&r, as_str(&b[1..]).to_string()) == base, 97);
    check(sel(&r, as_str(&b).to_string()) == base, 98);
}
/// i, f, t, w of a numeral whose parts fit
fn parts(b: &[u8]) -> (u64, u64, u64, u64) {
    let mut k = 0;
    let (mut i, mut f, mut t, mut w) = (0u64, 0u64, 0u64, 0);
    while k < b.len() && b[k] != b'.' {
        i = i * 10 + (b[k] - b'0') as u64;
        k += 1;
    }
    let p = k + 1;
    let mut e = b.len();
    while e > p && b[e - 1] == b'0' {
        e -= 1;
    }
    for j in p..b.len() {
        f = f * 10 + (b[j] - b'0') as u64;
        if j + 1 == e {
            t = f;
            w = (e - p) as u64;
        }
    }
    (i, f, t, w)
}
/// C01, C02: the category of a written number of d integer and v fraction digits. arg = (100 * d + v) * 10000 + kind * 1000 + locale
#[no_mangle]
pub extern "C" fn h_sel(arg: u64) {
    let (d, v) = ((arg / 1000000) as usize, (arg / 10000 % 100) as usize);
    let (r, want) = rules(arg / 1000 % 10, (arg % 1000) as usize);
    let mut b: Vec<u8> = Vec::with_capacity(d + v + 2);
    b.push(b'-');
    for _ in 0..d {
        b.push(digit());
    }
    if v > 0 {
        b.push(b'.');
        fraction(&mut b, v);
    }
    note(as_str(&b[1..]));
    let (x, f, t, w) = parts(&b[1..]);
    let c = want(&O { i: x, v: v as u64, w, f, t });
    cover(1);
    check(sel(&r, as_str(&b[1..])) == c, 100);
    check(sel(&r, as_str(&b)) == c, 101);
    check(sel(&r, as_str(&b[1..]).to_string()) == c, 102);
}
/// C01, C02: the category of any integer through the unsigned types, and of small ones through the signed types.
/// arg = kind * 1000 + locale
#[no_mangle]
pub extern "C" fn h_sel_int(arg: u64) {
    let (r, want) = rules(arg / 1000 % 10, (arg % 1000) as usize);
    // split so that decimal remainders stay cheap for the solver
    match pick(3) {
        0 => {
            let x = any_u64();
            let c = want(&int_ops(x));
            cover(3);
            check(sel(&r, x) == c, 103);
            check(sel(&r, x as usize) == c, 104);
        }
        1 => {
            let x = range(0, 4293) * 1000000 + range(0, 999999);
            let c = want(&int_ops(x));
            check(sel(&r, x as u32) == c, 108);
            if x < 65536 {
                check(sel(&r, x as u16) == c, 111);
            }
        }
        _ => {
            let x = range(0, 1023);
            let c = want(&int_ops(x));
            check(sel(&r, -(x as i64)) == c, 105);
            check(sel(&r, x as isize) == c, 106);
            check(sel(&r, -(x as i32)) == c, 110);
            check(sel(&r, -(x as i16)) == c, 112);
            if x < 128 {
                check(sel(&r, x as u8) == c, 113);
                check(sel(&r, -(x as i8)) == c, 114);
            }
        }
    }
}
/// C01, C02: the category of a float of 2 integer and v fraction digits (v = 0: a whole one of 6). arg = v * 10000 + ...
#[no_mangle]
pub extern "C" fn h_sel_float(arg: u64) {
    let v = (arg / 10000) as usize;
    let (r, want) = rules(arg / 1000 % 10, (arg % 1000) as usize);
    let mut b: Vec<u8> = Vec::with_capacity(v + 8);
    b.push(byte(b'1', b'9'));
    b.push(digit());
    if v == 0 {
        for _ in 0..4 {
            b.push(digit());
        }
    } else {
        b.push(b'.');
    }
    for k in 0..v {
        b.push(if k + 1 == v { byte(b'1', b'9') } else { digit() });
    }
    note(as_str(&b));
    let (x, f, t, _) = parts(&b);
    let n = if v == 0 { x as f64 } else { frac(x, f, v as u64) };
    let c = want(&O { i: x, v: v as u64, w: v as u64, f, t });
    unsafe { SHOWN = (n.to_bits(), (n as f32).to_bits(), std::slice::from_raw_parts(b.as_ptr(), b.len())) };
    cover(2);
    check(sel(&r, n) == c, 115);
    check(sel(&r, -n) == c, 116);
    check(sel(&r, n as f32) == c, 117);
}
/// C08: an input that is no number gives an error for every locale. arg = kind * 1000 + locale
#[no_mangle]
pub extern "C" fn h_same_err(arg: u64) {
    let (r, _) = rules(arg / 1000 % 10, (arg % 1000) as usize);
    let mut b: Vec<u8> = Vec::with_capacity(4);
    for _ in 0..2 {
        b.push(byte(0, 127));
    }
    note(as_str(&b));
    check(sel(&r, Own(None)) == 9, 90);
    let ok = conv(as_str(&b)).is_some();
    if ok {
        cover(1)
    } else {
        cover(2)
    }
    check((sel(&r, as_str(&b)) == 9) == !ok, 91);
    check((sel(&r, as_str(&b).to_string()) == 9) == !ok, 92);
    check(sel(&r, i64::MIN) == 9 || sel(&r, i64::MIN) == sel(&r, 1u64 << 63), 93);
}

pub const ENTRIES: &[(&str, extern "C" fn(u64))] = &[
    ("h_rule", h_rule),
    ("h_int", h_int),
    ("h_text", h_text),
    ("h_long", h_long),
    ("h_owned", h_owned),
    ("h_any", h_any),
    ("h_sel", h_sel),
    ("h_sel_int", h_sel_int),
    ("h_sel_float", h_sel_float),
    ("h_defect", h_defect),
    ("h_shape", h_shape),
    ("h_word", h_word),
    ("h_float", h_float),
    ("h_float_tiny", h_float_tiny),
    ("h_float_big", h_float_big),
    ("h_float_out", h_float_out),
    ("h_create", h_create),
    ("h_list", h_list),
    ("h_same_int", h_same_int),
    ("h_same_dec", h_same_dec),
    ("h_same_text", h_same_text),
    ("h_same_err", h_same_err),
];
