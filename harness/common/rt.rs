//! Native replay: the same harness, ordinary build, values taken from a file.
use std::sync::Mutex;
static IN: Mutex<(Vec<u128>, usize)> = Mutex::new((Vec::new(), 0));
static PANIC_OK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn next(lo: u64, hi: u64) -> u64 {
    let mut g = IN.lock().unwrap();
    let k = g.1;
    g.1 += 1;
    match g.0.get(k) {
        Some(x) if *x >= lo as u128 && *x <= hi as u128 => *x as u64,
        Some(_) => out(4, "value outside its range"),
        // a probe of a path that was not followed to its end
        None if std::env::var_os("RSYM_PAD").is_some() => lo,
        None => out(4, "values exhausted"),
    }
}
fn out(code: i32, s: &str) -> ! {
    use std::io::Write;
    println!("{}", s);
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}
#[no_mangle]
extern "C" fn __sym_range(lo: u64, hi: u64) -> u64 {
    next(lo, hi)
}
#[no_mangle]
extern "C" fn __sym_byte(lo: u8, hi: u8) -> u8 {
    next(lo as u64, hi as u64) as u8
}
#[no_mangle]
extern "C" fn __sym_pick(n: u64) -> u64 {
    next(0, n - 1)
}
#[no_mangle]
extern "C" fn __sym_conc(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C" fn __sym_frac(i: u64, f: u64, v: u64) -> f64 {
    format!("{}.{:0w$}", i, f, w = v as usize).parse().unwrap()
}
#[no_mangle]
extern "C" fn __sym_assume(b: bool) {
    if !b {
        out(5, "assumption not met")
    }
}
#[no_mangle]
extern "C" fn __sym_skip() {
    out(6, "not a case")
}
#[no_mangle]
extern "C" fn __sym_assert(b: bool, id: u32) {
    if !b {
        out(3, &format!("assert {}", id))
    }
}
#[no_mangle]
extern "C" fn __sym_cover(id: u32) {
    println!("cover {}", id);
}
#[no_mangle]
extern "C" fn __sym_symbolic() -> bool {
    false
}
#[no_mangle]
extern "C" fn __sym_panic_ok(b: bool) {
    PANIC_OK.store(b, std::sync::atomic::Ordering::SeqCst);
}
#[no_mangle]
unsafe extern "C" fn __sym_note(p: *const u8, n: usize) {
    println!("note: {:?}", std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)));
}
/// runs the same entry again in a process with this command line, and a formatter that only leaves its arguments behind
#[no_mangle]
unsafe extern "C" fn __sym_args(n: usize, v: *const *const u8) {
    use std::os::unix::fs::PermissionsExt;
    if std::env::var_os("RSYM_ARGS").is_some() {
        return;
    }
    let args: Vec<String> =
        (0..n).map(|k| std::ffi::CStr::from_ptr(*v.add(k) as *const _).to_str().unwrap().to_string()).collect();
    let dir = std::env::temp_dir().join(format!("rsym-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let fmt = dir.join("rustfmt");
    std::fs::write(&fmt, "#!/bin/sh\nfor a; do echo \"$a\"; done > \"$RSYM_SCRATCH/called\"\n").unwrap();
    std::fs::set_permissions(&fmt, std::fs::Permissions::from_mode(0o755)).unwrap();
    let own: Vec<String> = std::env::args().collect();
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(&args[1..])
        .env("RSYM_ARGS", own[1..4].join("\n"))
        .env("RSYM_SCRATCH", &dir)
        .env("PATH", &dir)
        .status();
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(st.ok().and_then(|s| s.code()).unwrap_or(101));
}
#[no_mangle]
extern "C" fn __sym_outside() {
    out(6, "outside the stubs");
}
/// replay <entry> <arg> <file of values>: exit 0 passed, 3 assertion, 101 panic, 4/5 not this path
pub fn main(entries: &[(&str, extern "C" fn(u64))]) {
    let a: Vec<String> = match std::env::var("RSYM_ARGS") {
        Ok(s) => std::iter::once(String::new()).chain(s.split('\n').map(|x| x.to_string())).collect(),
        Err(_) => std::env::args().collect(),
    };
    let vals: Vec<u128> = std::fs::read_to_string(&a[3])
        .unwrap()
        .split_whitespace()
        .map(|x| x.parse().unwrap())
        .collect();
    IN.lock().unwrap().0 = vals;
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if PANIC_OK.load(std::sync::atomic::Ordering::SeqCst) {
            out(0, "expected panic");
        }
        hook(i);
        out(101, "panic");
    }));
    let f = entries.iter().find(|e| e.0 == a[1]).expect("entry").1;
    f(a[2].parse().unwrap());
    out(0, "passed");
}
