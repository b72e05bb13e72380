//! A file system in memory, at the level of the C library calls the standard library makes.
//! The same code serves the encoded build (where it is what those calls resolve to) and the
//! native replay (where it takes the place of the C library's own functions while active).
//! Calls may be interrupted, read or write part of what was asked, or fail: a schedule of picks.
use crate::sym::*;
use std::os::raw::{c_char, c_int, c_long, c_void};

extern "C" {
    fn __errno_location() -> *mut c_int;
    fn syscall(n: c_long, ...) -> c_long;
}

pub struct File {
    pub name: Vec<u8>,
    pub data: Vec<u8>,
    pub there: bool,
}
struct Open {
    file: usize,
    pos: usize,
    write: bool,
    used: bool,
}
pub struct Fs {
    pub files: Vec<File>,
    open: Vec<Open>,
    /// number of files that exist at the start
    pub inputs: usize,
    /// writing is allowed: every input is there and the generator accepts them
    pub accept: bool,
    /// picks left for reads and for writes
    pub faults: [u64; 2],
    /// a call that changes files has failed for good
    pub failed: bool,
    pub may_fail: bool,
    /// a read fails for good, a number of reads from now; an input that cannot be opened
    pub bad_read: Option<u64>,
    pub denied: Option<usize>,
    pub output: Vec<u8>,
    /// the output that was there before
    pub old: Option<Vec<u8>>,
}
static mut FS: Option<Fs> = None;
static mut ACTIVE: bool = false;

#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs {
    unsafe { FS.as_mut().unwrap() }
}
pub fn start(f: Fs) {
    unsafe {
        FS = Some(f);
        ACTIVE = true;
    }
}
pub fn stop() {
    unsafe { ACTIVE = false }
}
pub fn new(output: &str) -> Fs {
    Fs {
        files: Vec::new(),
        open: Vec::new(),
        inputs: 0,
        accept: false,
        faults: [0; 2],
        failed: false,
        may_fail: false,
        bad_read: None,
        denied: None,
        output: output.as_bytes().to_vec(),
        old: None,
    }
}
pub fn active() -> bool {
    unsafe { ACTIVE }
}
fn err(e: c_int) -> isize {
    unsafe { *__errno_location() = e };
    -1
}
const FD: c_int = 1000;
const EINTR: c_int = 4;
const ENOENT: c_int = 2;
const EBADF: c_int = 9;
const ENOSPC: c_int = 28;
const EACCES: c_int = 13;
const EIO: c_int = 5;

unsafe fn cname(p: *const c_char) -> Vec<u8> {
    let mut v = Vec::new();
    let mut p = p as *const u8;
    while *p != 0 {
        v.push(*p);
        p = p.add(1);
    }
    v
}
fn find(n: &[u8]) -> Option<usize> {
    fs().files.iter().position(|f| f.name == n)
}
/// what the schedule does to this call
fn fault(w: usize) -> u64 {
    let s = fs();
    if s.faults[w] == 0 {
        return 0;
    }
    s.faults[w] -= 1;
    pick(4)
}
/// an output may come to be, or be emptied, only once it is known that it will be written
fn creating(k: usize) {
    let s = fs();
    check(k >= s.inputs, 110);
    check(s.accept, 111);
}

unsafe fn open_(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let (wr, creat, trunc, append) = (flags & 3 != 0, flags & 0o100 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0);
    let _ = mode;
    let n = cname(path);
    if n.starts_with(b"/") && !n.starts_with(b"/mem/") {
        if !symbolic() && n.starts_with(b"/dev/") {
            return syscall(257, -100 as c_long, path, flags as c_long, mode as c_long) as c_int;
        }
        // nothing else exists
        if wr {
            check(false, 112);
        }
        return err(ENOENT) as c_int;
    }
    let k = match find(&n) {
        Some(k) if fs().files[k].there => k,
        k => {
            if !creat {
                return err(ENOENT) as c_int;
            }
            match k {
                Some(k) => k,
                None => {
                    fs().files.push(File { name: n, data: Vec::new(), there: false });
                    fs().files.len() - 1
                }
            }
        }
    };
    if !wr && fs().denied == Some(k) {
        return err(EACCES) as c_int;
    }
    if wr {
        creating(k);
        if fs().may_fail && pick(2) == 1 {
            fs().failed = true;
            panic_ok(true);
            return err(EACCES) as c_int;
        }
    }
    let f = &mut fs().files[k];
    f.there = true;
    if trunc {
        f.data.clear();
    }
    let pos = if append { f.data.len() } else { 0 };
    let o = Open { file: k, pos, write: wr, used: true };
    let s = fs();
    s.open.push(o);
    FD + (s.open.len() - 1) as c_int
}
fn opened(fd: c_int) -> Option<&'static mut Open> {
    if fd < FD {
        return None;
    }
    fs().open.get_mut((fd - FD) as usize).filter(|o| o.used)
}

#[no_mangle]
unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if active() {
        return open_(path, flags, mode);
    }
    syscall(257, -100 as c_long, path, flags as c_long, mode as c_long) as c_int
}
#[no_mangle]
unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if active() {
        return open_(path, flags, mode);
    }
    syscall(257, dir as c_long, path, flags as c_long, mode as c_long) as c_int
}
#[no_mangle]
unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if !active() || (fd < FD && !symbolic()) {
        return syscall(0, fd as c_long, buf, n) as isize;
    }
    let o = match opened(fd) {
        Some(o) => o,
        None => return err(EBADF),
    };
    if let Some(k) = fs().bad_read {
        if k == 0 {
            // no input can be relied on any more
            fs().accept = false;
            panic_ok(true);
            return err(EIO);
        }
        fs().bad_read = Some(k - 1);
    }
    let left = fs().files[o.file].data.len() - o.pos;
    let mut k = if left < n { left } else { n };
    match fault(0) {
        1 if k > 1 => k = 1,
        2 if k > 1 => k = k - 1,
        3 => return err(EINTR),
        _ => {}
    }
    if k > 0 {
        std::ptr::copy_nonoverlapping(fs().files[o.file].data.as_ptr().add(o.pos), buf as *mut u8, k);
    }
    o.pos += k;
    k as isize
}
unsafe fn write_(fd: c_int, buf: *const u8, n: usize) -> isize {
    let o = match opened(fd) {
        Some(o) if o.write => o,
        _ => return err(EBADF),
    };
    let mut k = n;
    match fault(1) {
        1 if k > 1 => k = 1,
        2 if k > 1 => k = k - 1,
        3 => {
            if fs().may_fail {
                fs().failed = true;
                panic_ok(true);
                return err(ENOSPC);
            }
            return err(EINTR);
        }
        _ => {}
    }
    let d = &mut fs().files[o.file].data;
    let src = std::slice::from_raw_parts(buf, k);
    let over = if d.len() - o.pos < k { d.len() - o.pos } else { k };
    d[o.pos..o.pos + over].copy_from_slice(&src[..over]);
    d.extend_from_slice(&src[over..]);
    o.pos += k;
    k as isize
}
#[no_mangle]
unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if !active() || (fd < FD && !symbolic()) {
        return syscall(1, fd as c_long, buf, n) as isize;
    }
    if fd < FD {
        // messages
        return n as isize;
    }
    write_(fd, buf as *const u8, n)
}
#[repr(C)]
struct Iov {
    p: *const u8,
    n: usize,
}
#[no_mangle]
unsafe extern "C" fn writev(fd: c_int, v: *const c_void, n: c_int) -> isize {
    if !active() || (fd < FD && !symbolic()) {
        return syscall(20, fd as c_long, v, n as c_long) as isize;
    }
    let v = v as *const Iov;
    for k in 0..n as usize {
        let x = &*v.add(k);
        if x.n > 0 {
            return if fd < FD { x.n as isize } else { write_(fd, x.p, x.n) };
        }
    }
    0
}
#[no_mangle]
unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !active() || fd < FD {
        if symbolic() {
            return 0;
        }
        return syscall(3, fd as c_long) as c_int;
    }
    match opened(fd) {
        Some(o) => {
            o.used = false;
            0
        }
        None => err(EBADF) as c_int,
    }
}
/// the fields the standard library reads: mode at 24, size at 48
#[no_mangle]
unsafe extern "C" fn fstat64(fd: c_int, st: *mut c_void) -> c_int {
    if !active() || fd < FD {
        if symbolic() {
            return err(EBADF) as c_int;
        }
        return syscall(5, fd as c_long, st) as c_int;
    }
    match opened(fd) {
        Some(o) => {
            std::ptr::write_bytes(st as *mut u8, 0, 144);
            *((st as *mut u8).add(24) as *mut u32) = 0o100644;
            *((st as *mut u8).add(48) as *mut u64) = fs().files[o.file].data.len() as u64;
            0
        }
        None => err(EBADF) as c_int,
    }
}
/// struct statx: mask at 0, mode (16 bits) at 28, size at 40
#[no_mangle]
unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, st: *mut c_void) -> c_int {
    if !active() {
        return syscall(332, dir as c_long, path, flags as c_long, mask as c_long, st) as c_int;
    }
    let k = if dir >= FD {
        match opened(dir) {
            Some(o) => o.file,
            None => return err(EBADF) as c_int,
        }
    } else {
        if path.is_null() {
            return err(14) as c_int;
        }
        match find(&cname(path)) {
            Some(k) if fs().files[k].there => k,
            _ => return err(ENOENT) as c_int,
        }
    };
    std::ptr::write_bytes(st as *mut u8, 0, 256);
    *(st as *mut u32) = 0x7ff;
    *((st as *mut u8).add(28) as *mut u16) = 0o100644;
    *((st as *mut u8).add(40) as *mut u64) = fs().files[k].data.len() as u64;
    0
}
#[no_mangle]
unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if !active() || fd < FD {
        return syscall(8, fd as c_long, off, whence as c_long) as i64;
    }
    match opened(fd) {
        Some(o) => {
            let base = match whence {
                0 => 0,
                1 => o.pos as i64,
                _ => fs().files[o.file].data.len() as i64,
            };
            o.pos = (base + off) as usize;
            o.pos as i64
        }
        None => err(EBADF) as i64,
    }
}
#[no_mangle]
unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, a: c_long) -> c_int {
    if !active() || fd < FD {
        return syscall(72, fd as c_long, cmd as c_long, a) as c_int;
    }
    match opened(fd) {
        Some(_) => 0,
        None => err(EBADF) as c_int,
    }
}
#[no_mangle]
unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, a: c_long) -> c_int {
    fcntl(fd, cmd, a)
}
#[no_mangle]
unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !active() {
        return syscall(74, fd as c_long) as c_int;
    }
    0
}
#[no_mangle]
unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if !active() {
        return syscall(75, fd as c_long) as c_int;
    }
    0
}
#[no_mangle]
unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return syscall(82, a, b) as c_int;
    }
    let (a, b) = (find(&cname(a)), cname(b));
    let a = match a {
        Some(a) if fs().files[a].there => a,
        _ => return err(ENOENT) as c_int,
    };
    let d = std::mem::take(&mut fs().files[a].data);
    fs().files[a].there = false;
    let k = match find(&b) {
        Some(k) => k,
        None => {
            fs().files.push(File { name: b, data: Vec::new(), there: false });
            fs().files.len() - 1
        }
    };
    creating(k);
    fs().files[k].data = d;
    fs().files[k].there = true;
    0
}
#[no_mangle]
unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if !active() {
        return syscall(87, a) as c_int;
    }
    match find(&cname(a)) {
        Some(k) if fs().files[k].there => {
            check(k >= fs().inputs, 113);
            fs().files[k].there = false;
            fs().files[k].data.clear();
            0
        }
        _ => err(ENOENT) as c_int,
    }
}
/// the content of the output, if there is one
pub fn output() -> Option<&'static [u8]> {
    let k = find(&fs().output)?;
    if fs().files[k].there {
        Some(&fs().files[k].data)
    } else {
        None
    }
}
