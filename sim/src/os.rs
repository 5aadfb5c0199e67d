//! System interface: the few libc functions used, raw system calls that bypass the
//! simulator, and the libc symbols the simulator takes over (futexes, clocks,
//! sleeping, yielding, randomness, environment, files, processors, process id).  The functions defined
//! here replace libc's for the whole program, so the standard library and the
//! library under test reach the simulator instead of the kernel.

use crate::sched;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

pub const SYS_FUTEX: c_long = 202;

extern "C" {
    pub fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, opts: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn pipe(fds: *mut c_int) -> c_int;
    pub fn read(fd: c_int, b: *mut c_void, n: usize) -> isize;
    pub fn close(fd: c_int) -> c_int;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn open(p: *const c_char, flags: c_int, ...) -> c_int;
    pub fn setrlimit(res: c_int, r: *const [u64; 2]) -> c_int;
    pub fn prctl(op: c_int, ...) -> c_int;
    pub fn personality(p: u64) -> c_int;
    pub fn execv(p: *const c_char, argv: *const *const c_char) -> c_int;
    pub fn pthread_attr_init(a: *mut [u64; 8]) -> c_int;
    pub fn pthread_attr_setstack(a: *mut [u64; 8], p: *mut c_void, n: usize) -> c_int;
    pub fn pthread_create(
        t: *mut u64,
        a: *const [u64; 8],
        f: extern "C" fn(*mut c_void) -> *mut c_void,
        arg: *mut c_void,
    ) -> c_int;
    pub fn pthread_join(t: u64, r: *mut *mut c_void) -> c_int;
    pub static mut environ: *const *const c_char;
}

pub const MAP_SHARED: c_int = 1;
pub const MAP_PRIVATE: c_int = 2;
pub const MAP_FIXED: c_int = 0x10;
pub const MAP_ANON: c_int = 0x20;
pub const MAP_NORESERVE: c_int = 0x4000;
pub const PROT_RW: c_int = 3;

/// A system call the simulator does not see.
///
/// # Safety
/// As for the system call.
pub unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut c_int;
}

unsafe fn ret(r: isize) -> c_long {
    if r < 0 {
        *__errno_location() = (-r) as c_int;
        -1
    } else {
        r as c_long
    }
}

pub fn raw_futex_wait(w: &std::sync::atomic::AtomicU32, val: u32) {
    unsafe {
        raw6(SYS_FUTEX, w as *const _ as usize, 0, val as usize, 0, 0, 0);
    }
}

pub fn raw_futex_wake(w: &std::sync::atomic::AtomicU32) {
    unsafe {
        raw6(SYS_FUTEX, w as *const _ as usize, 1, 1, 0, 0, 0);
    }
}

/// The real monotonic clock (harness only: rates and safety time-outs).
pub fn real_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { raw6(228, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

// ---- symbols taken over from libc ------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == SYS_FUTEX && sched::on_sim_thread() {
        return ret(sched::futex(a, b as c_int, c as u32, d as *const [i64; 2], f as u32));
    }
    if n == 186 && sched::active() {
        return sched::pid() as c_long + sched::surroundings(b"tid").unwrap_or(0) as c_long % 1000;
    }
    if n == 318 && sched::active() {
        return getrandom(a as *mut c_void, b, c as u32) as c_long;
    }
    ret(raw6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if sched::active() {
        sched::entropy(std::slice::from_raw_parts_mut(buf as *mut u8, len));
        return len as isize;
    }
    ret(raw6(318, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut [i64; 2]) -> c_int {
    if sched::active() {
        let ns = sched::clock(clk);
        *ts = [ns.div_euclid(1_000_000_000), ns.rem_euclid(1_000_000_000)];
        return 0;
    }
    ret(raw6(228, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

unsafe fn sim_sleep(flags: c_int, clk: c_int, req: *const [i64; 2]) {
    let ns = (*req)[0].saturating_mul(1_000_000_000).saturating_add((*req)[1]);
    sched::sleep(if flags & 1 != 0 { ns.saturating_sub(sched::clock(clk)) } else { ns });
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> c_int {
    if sched::on_sim_thread() {
        sim_sleep(0, 1, req);
        return 0;
    }
    ret(raw6(35, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const [i64; 2], rem: *mut [i64; 2]) -> c_int {
    if sched::on_sim_thread() {
        sim_sleep(flags, clk, req);
        return 0;
    }
    -(raw6(230, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::on_sim_thread() {
        sched::yield_now();
        return 0;
    }
    ret(raw6(24, 0, 0, 0, 0, 0, 0)) as c_int
}

/// Signals are slow; what matters is that the process is gone.
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if sched::active() {
        sched::aborted();
    }
    raw6(62, raw6(39, 0, 0, 0, 0, 0, 0) as usize, 6, 0, 0, 0, 0);
    _exit(134)
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if sched::active() {
        return sched::pid();
    }
    raw6(39, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let name = CStr::from_ptr(name).to_bytes();
    if let Some(v) = sched::sim_env(name) {
        return v;
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = CStr::from_ptr(*p).to_bytes();
        if e.len() > name.len() && e[name.len()] == b'=' && &e[..name.len()] == name {
            return (*p).add(name.len() + 1) as *mut c_char;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

unsafe fn fail(errno: c_int) -> c_int {
    *__errno_location() = errno;
    -1
}

/// A file the library asks for: there or not, with some contents.
unsafe fn sim_open(path: *const c_char) -> Option<c_int> {
    let h = sched::surroundings(CStr::from_ptr(path).to_bytes())?;
    if h % 2 == 0 || h % 5 < 2 {
        return Some(fail(2));
    }
    let fd = raw6(319, c"sim".as_ptr() as usize, 0, 0, 0, 0, 0) as c_int;
    let text = ["", "1", "0\n", "true\n", "7\n", "[a]\nb = 1\n", "0::/\n", "200000 100000\n"][(h >> 8) as usize % 8];
    raw6(1, fd as usize, text.as_ptr() as usize, text.len(), 0, 0, 0);
    raw6(8, fd as usize, 0, 0, 0, 0, 0);
    Some(fd)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Some(fd) = sim_open(path) {
        return fd;
    }
    ret(raw6(257, -100isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Some(fd) = sim_open(path) {
        return fd;
    }
    ret(raw6(257, dir as isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut [u64; 32]) -> c_int {
    // With an empty path it is about an open file.
    if !path.is_null() && *path != 0 {
        if let Some(h) = sched::surroundings(CStr::from_ptr(path).to_bytes()) {
            if h % 2 == 0 || h % 5 < 2 {
                return fail(2);
            }
            *buf = [0; 32];
            let b = buf as *mut u8;
            (b as *mut u32).write(0x7ff);
            (b.add(4) as *mut u32).write(4096);
            (b.add(28) as *mut u16).write(0o100644);
            (b.add(40) as *mut u64).write(7);
            return 0;
        }
    }
    ret(raw6(332, dir as isize as usize, path as usize, flags as usize, mask as usize, buf as usize, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut u8, len: usize) -> isize {
    if let Some(h) = sched::surroundings(CStr::from_ptr(path).to_bytes()) {
        let t = format!("/sim/{}", h % 1000);
        let n = t.len().min(len);
        std::ptr::copy_nonoverlapping(t.as_ptr(), buf, n);
        return n as isize;
    }
    ret(raw6(89, path as usize, buf as usize, len, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, len: usize) -> *mut c_char {
    if let Some(h) = sched::surroundings(b"cwd") {
        let t = format!("/sim/{}\0", h % 1000);
        if t.len() > len {
            fail(34);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, t.len());
        return buf;
    }
    if ret(raw6(79, buf as usize, len, 0, 0, 0, 0)) < 0 {
        std::ptr::null_mut()
    } else {
        buf
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, len: usize, mask: *mut u8) -> c_int {
    if let Some(h) = sched::surroundings(b"cpus") {
        let n = [1, 2, 8, 64][(h >> 4) as usize % 4].min(len * 8);
        for i in 0..len {
            *mask.add(i) = (0..8).filter(|b| i * 8 + b < n).map(|b| 1 << b).sum();
        }
        return 0;
    }
    let r = raw6(204, pid as usize, len, mask as usize, 0, 0, 0);
    if r < 0 {
        return ret(r) as c_int;
    }
    std::ptr::write_bytes(mask.add(r as usize), 0, len - r as usize);
    0
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if let Some(h) = sched::surroundings(b"tty") {
        return (h >> 5 & 1) as c_int;
    }
    let mut t = [0u8; 64];
    (raw6(16, fd as usize, 0x5401, t.as_mut_ptr() as usize, 0, 0, 0) >= 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getppid() -> c_int {
    if let Some(h) = sched::surroundings(b"ppid") {
        return 1 + (h % 30000) as c_int;
    }
    raw6(110, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getuid() -> u32 {
    if let Some(h) = sched::surroundings(b"uid") {
        return (h >> 3) as u32 % 2 * 1000;
    }
    raw6(102, 0, 0, 0, 0, 0, 0) as u32
}

/// The library's output goes nowhere, or fails.
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if fd == 1 || fd == 2 {
        if let Some(h) = sched::surroundings(b"output") {
            return match h >> 3 & 7 {
                1 => fail(32) as isize,
                2 => fail(28) as isize,
                3 => n.min(1) as isize,
                _ => n as isize,
            };
        }
    }
    ret(raw6(1, fd as usize, b as usize, n, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const [usize; 2], n: c_int) -> isize {
    if (fd == 1 || fd == 2) && n > 0 {
        let mut all = 0;
        for i in 0..n as usize {
            let [p, len] = *v.add(i);
            let r = write(fd, p as *const c_void, len);
            if r < 0 {
                return if all > 0 { all } else { r };
            }
            all += r;
            if (r as usize) < len {
                break;
            }
        }
        return all;
    }
    ret(raw6(20, fd as usize, v as usize, n as usize, 0, 0, 0)) as isize
}

/// What main() was given; the standard library reads it again for every `args()`.
static mut ARGV: *mut *const c_char = std::ptr::null_mut();
static mut ARGC: usize = 0;

#[link_section = ".init_array"]
#[used]
static REMEMBER: extern "C" fn(c_int, *mut *const c_char, *mut *const c_char) = {
    extern "C" fn remember(argc: c_int, argv: *mut *const c_char, _: *mut *const c_char) {
        unsafe {
            ARGC = argc as usize;
            ARGV = argv;
        }
    }
    remember
};

/// Number of arguments there is room for.
pub const ARGS: usize = 24;

/// Give the program other arguments (in a process of its own).
pub fn set_args(args: Vec<&'static CStr>) {
    unsafe {
        let n = args.len().min(ARGC);
        for (i, a) in args.iter().take(n).enumerate() {
            *ARGV.add(i) = a.as_ptr();
        }
        for i in n..ARGC {
            *ARGV.add(i) = std::ptr::null();
        }
    }
}
