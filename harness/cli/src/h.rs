use crate::fsys::{self, File};
use crate::sym::*;
use make_pluralrules::generate_rs;
use std::os::raw::{c_char, c_int, c_void};

/// version of two digits; which kinds of data: bit 0 cardinal, bit 1 ordinal
fn json(kinds: u64, version: &[u8], d: u8, bad: bool) -> Vec<u8> {
    let mut b = Vec::with_capacity(1024);
    b.extend_from_slice(b"{\"supplemental\":{\"version\":{\"_unicodeVersion\":\"10.0.0");
    if bad {
        // no UTF-8
        b.push(byte(0x80, 0xff));
    }
    b.extend_from_slice(b"\",\"_cldrVersion\":\"");
    b.extend_from_slice(version);
    b.extend_from_slice(b"\"}");
    for (k, n) in ["cardinal", "ordinal"].iter().enumerate() {
        if kinds >> k & 1 == 1 {
            b.extend_from_slice(b",\"plurals-type-");
            b.extend_from_slice(n.as_bytes());
            b.extend_from_slice(b"\":{\"aa\":{\"pluralRule-count-one\":\"n = ");
            b.push(d);
            b.extend_from_slice(b"\",\"pluralRule-count-other\":\"\"}}");
        }
    }
    b.extend_from_slice(b"}}");
    b
}
/// names of the inputs, and of the output
const NAMES: [[&str; 3]; 7] = [
    ["/mem/b.json", "/mem/a.json", "/mem/c.json"],
    ["/mem/in", "/mem/x y.txt", "/mem/.h.JSON"],
    ["/mem/2/p.json", "/mem/1/p.json", "/mem/1/2/p.json"],
    ["/mem/a.json ", "/mem/a.json", "/mem/A.json"],
    ["/mem/a.json.json", "/mem/a.json", "/mem/a.rs"],
    ["b.json", "../a.json", "./c.json"],
    ["x/~.json", "$a", "*"],
];
const OUTS: [&str; 7] = ["/mem/out.rs", "/mem/out", "/mem/o.d/gen.rs.", "/mem/Out.RS ", "/mem/.rs", "out.rs", "-"];
const MORE: [&str; 6] = ["/mem/d.json", "/mem/e.json", "/mem/f.json", "/mem/g.json", "/mem/h.json", "/mem/i.json"];
static mut OUT: &str = OUTS[0];

static mut FORMATTED: u32 = 0;
static mut UGLY: bool = false;
static mut EXPECT: Vec<u8> = Vec::new();

#[allow(static_mut_refs)]
fn expect() -> &'static [u8] {
    unsafe { &EXPECT }
}
/// the formatter is started: only when wanted, on the output, once everything is in it
fn format_call(program: &[u8], args: &[&[u8]]) {
    unsafe {
        FORMATTED += 1;
        check(!UGLY, 121);
    }
    let base = program.rsplit(|c| *c == b'/').next().unwrap();
    check(base == b"rustfmt", 122);
    check(args.iter().any(|a| *a == unsafe { OUT }.as_bytes()), 123);
    check(fsys::output() == Some(expect()), 124);
}
/// natively: everything has to be in the output when a program is started
#[no_mangle]
unsafe extern "C" fn posix_spawnp(
    pid: *mut c_void,
    file: *const c_void,
    acts: *const c_void,
    attr: *const c_void,
    argv: *const c_void,
    envp: *const c_void,
) -> c_int {
    if fsys::active() {
        check(fsys::output() == Some(expect()), 124);
    }
    type F = unsafe extern "C" fn(*mut c_void, *const c_void, *const c_void, *const c_void, *const c_void, *const c_void) -> c_int;
    let f = dlsym(-1isize as *mut c_void, b"posix_spawnp\0".as_ptr() as *const c_char);
    let f: F = std::mem::transmute(f);
    f(pid, file, acts, attr, argv, envp)
}
extern "C" {
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}
#[no_mangle]
pub fn stub_command(c: &mut std::process::Command) -> std::io::Result<std::process::Output> {
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::process::ExitStatusExt;
    let p = c.get_program().as_bytes().to_vec();
    let a: Vec<&[u8]> = c.get_args().map(|a| a.as_bytes()).collect();
    format_call(&p, &a);
    Ok(std::process::Output { status: std::process::ExitStatus::from_raw(0), stdout: Vec::new(), stderr: Vec::new() })
}
#[no_mangle]
pub fn stub_status(c: &mut std::process::Command) -> std::io::Result<std::process::ExitStatus> {
    stub_command(c).map(|o| o.status)
}
/// the program has started, and nothing is left for the tool to do: a child cannot be made up
#[no_mangle]
pub fn stub_spawn(c: &mut std::process::Command) -> std::io::Result<std::process::Child> {
    let _ = stub_command(c);
    done(false);
    panic_ok(true);
    panic!()
}
#[no_mangle]
pub fn stub_print(_: std::fmt::Arguments) {}
#[no_mangle]
pub fn stub_exit(code: i32) -> ! {
    done(code != 0);
    panic_ok(true);
    panic!()
}

/// the tool ended: with a failure or not
fn done(failure: bool) {
    fsys::stop();
    let s = fsys::fs();
    if !s.accept {
        check(failure, 101);
        check(fsys::output() == s.old.as_ref().map(|o| &o[..]), 102);
        return;
    }
    if s.failed {
        check(failure, 103);
        cover(3);
        return;
    }
    check(!failure, 104);
    check(fsys::output() == Some(expect()), 105);
    let n = s.files.iter().filter(|f| f.there).count();
    check(n == s.inputs + 1, 106);
    cover(1);
    unsafe {
        if symbolic() {
            check(FORMATTED == if UGLY { 0 } else { 1 }, 107);
        } else {
            native_format();
        }
        cover(if UGLY { 4 } else { 5 });
    }
}
/// natively the formatter is a script that leaves its arguments behind
fn native_format() {
    let p = std::env::var("RSYM_SCRATCH").unwrap() + "/called";
    match std::fs::read(&p) {
        Ok(d) => {
            let a: Vec<&[u8]> = d.split(|c| *c == b'\n').filter(|a| a.len() > 0).collect();
            format_call(b"rustfmt", &a);
        }
        Err(_) => check(unsafe { UGLY }, 107),
    }
}

/// a = inputs + 10 * shape of the data + 100 * faults + 1000 * style of the options (4..: calls may fail)
///   + 10000 * (1: there is an output already, 2: maybe) + 100000 * (1: the first input is given once more at the end)
#[no_mangle]
pub extern "C" fn h_cli(a: u64) {
    run(a, 0, 0);
}
/// the same, with 10^6 * (what the names look like) + 10^7 * (1, 2: the first, the last input is not UTF-8; 3: a read
/// fails; 4: the first input cannot be opened)
#[no_mangle]
pub extern "C" fn h_names(a: u64) {
    run(a % 1000000, a / 1000000 % 10, a / 10000000);
}
fn run(a: u64, named: u64, bad: u64) {
    let n = (a % 10) as usize;
    let shape = a / 10 % 10;
    let faults = a / 100 % 10;
    let style = a / 1000 % 10;
    let old = a / 10000 % 10;
    let twice = a / 100000 % 10 == 1;
    let ugly = pick(2) == 1;
    let out = OUTS[named as usize];
    unsafe {
        OUT = out;
    }
    let mut f = fsys::new(out);
    // what each file gives: by shape, cardinal and ordinal in one, apart, twice, nothing, at the ends of many
    let mut kinds: [u64; 9] = [0; 9];
    let k: [u64; 3] = match shape {
        0 => [3, 0, 0],
        1 => [1, 2, 0],
        2 => [2, 0, 1],
        3 => [1, 1, 2],
        4 => [0, 0, 0],
        5 => [1, 3, 0],
        _ => [1, 0, 0],
    };
    kinds[..3].copy_from_slice(&k);
    if shape == 6 {
        kinds[n - 1] |= 2;
    }
    let mut all: Vec<&str> = NAMES[named as usize].to_vec();
    all.extend_from_slice(&MORE);
    let vs = [byte(b'1', b'9'), digit()];
    let other = pick(2) == 1 && n > 1;
    let mut accept = true;
    let mut seen = 0;
    let mut texts = Vec::new();
    for k in 0..n {
        // an input is missing
        let there = k >= 2 || pick(2) == 0;
        // the last one has a version of its own
        let mut v = vs.to_vec();
        if other && k + 1 == n {
            let d = digit();
            if d != v[1] {
                accept = false;
            }
            v[1] = d;
        }
        if seen & kinds[k] != 0 {
            accept = false;
        }
        seen |= kinds[k];
        accept = accept && there;
        let wrong = (bad == 1 && k == 0) || (bad == 2 && k + 1 == n);
        accept = accept && !wrong;
        let t = json(kinds[k], &v, digit(), wrong);
        texts.push(unsafe { String::from_utf8_unchecked(t.clone()) });
        f.files.push(File { name: all[k].as_bytes().to_vec(), data: t, there });
    }
    if twice {
        accept = accept && kinds[0] == 0;
        texts.push(texts[0].clone());
    }
    accept = accept && seen != 0;
    let mut names = all[..n].to_vec();
    if twice {
        names.push(all[0]);
    }
    if bad == 3 {
        // up to one read after the end of each file
        f.bad_read = Some(pick(2 * n as u64));
    }
    if bad == 4 {
        f.denied = Some(0);
        accept = false;
    }
    f.accept = accept;
    f.faults = [faults; 2];
    f.may_fail = style >= 4;
    f.inputs = n;
    check(n > 0, 100);
    if accept {
        let e = generate_rs(&texts).into_bytes();
        unsafe {
            EXPECT = e;
        }
    }
    // an older output: longer than the new one; as long, but for a byte; the new one and more; its start; empty; the same
    if old > 0 && (old != 2 || pick(2) == 1) {
        let mut x = vec![b'#'; 6000];
        if old > 2 {
            x = if accept { expect().to_vec() } else { vec![b'#'; 900] };
        }
        match old {
            3 => {
                let l = x.len();
                let at = [0, l / 2, l - 1][pick(3) as usize];
                x[at] = byte(0, 127);
            }
            4 => x.push(byte(0, 127)),
            5 => x.truncate(x.len() - 1 - pick(2) as usize * 500),
            6 => x.clear(),
            _ => {}
        }
        f.old = Some(x.clone());
        f.files.push(File { name: out.as_bytes().to_vec(), data: x, there: true });
    }
    unsafe {
        UGLY = ugly;
    }
    let mut args: Vec<&str> = vec!["make_pluralrules"];
    let flag = if style % 2 == 0 { "-u" } else { "--ugly" };
    match style % 4 {
        0 => {
            args.push("-i");
            args.extend_from_slice(&names);
            args.extend_from_slice(&["-o", out]);
            if ugly {
                args.push(flag);
            }
        }
        1 => {
            if ugly {
                args.push(flag);
            }
            args.extend_from_slice(&["--output", out, "--input"]);
            args.extend_from_slice(&names);
        }
        2 => {
            args.extend_from_slice(&["-o", out]);
            for x in &names {
                args.push("-i");
                args.push(x);
            }
            if ugly {
                args.push(flag);
            }
        }
        _ => {
            args.extend_from_slice(&["--input"]);
            args.extend_from_slice(&names);
            if ugly {
                args.push(flag);
            }
            args.extend_from_slice(&["--output", out]);
        }
    }
    set_args(&args);
    fsys::start(f);
    // refusals are panics
    if !accept {
        cover(2);
    }
    panic_ok(!accept);
    let failure = crate::cli::__run();
    panic_ok(false);
    done(failure);
}

pub static ENTRIES: &[(&str, extern "C" fn(u64))] = &[("h_cli", h_cli), ("h_names", h_names)];
