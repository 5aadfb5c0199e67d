//! The scheduler: decides which simulated thread runs, at every instrumented edge and
//! memory access of the library, every allocation, lock operation, sleep, yield and
//! rule lookup.  Simulated threads are real threads of which exactly one is ever
//! released; everything that could make a difference (who runs next, time,
//! randomness, environment) is a function of the scenario.

use crate::os;
use crate::rng::mix;
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::atomic::{AtomicU32, Ordering};

thread_local! {
    /// True while the current thread executes the library under test.
    pub static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static TID: Cell<i32> = const { Cell::new(-1) };
}

pub const MAX_THREADS: usize = 12;
/// A thread that runs this long while others could run is preempted.
const FAIR: u64 = 300_000;
const NS_PER_STEP: u64 = 100;
pub const STACKS: usize = 0x5800_0000_0000;

// Counters kept in the memory shared with the worker.
pub const C_PREEMPT: usize = 0;
pub const C_LOOKUP_ERR: usize = 1;
pub const C_LOOKUP_PANIC: usize = 2;
pub const C_DEADLINE: usize = 3;
pub const C_ALLOC_FAIL: usize = 4;
pub const C_NEVER: usize = 5;
pub const C_RELOAD: usize = 6;
pub const C_NESTED: usize = 7;
pub const C_CLOCK_JUMP: usize = 8;
pub const C_ENTROPY: usize = 9;
pub const C_CLOCK: usize = 10;
pub const C_GETENV: usize = 11;
pub const C_FUTEX_WAIT: usize = 12;
pub const C_FUTEX_WAKE: usize = 13;
pub const C_SLOW: usize = 14;
pub const C_THREAD_EXIT: usize = 15;
pub const C_LOOKUPS: usize = 16;
pub const C_SLEEP: usize = 17;
pub const C_ENDLESS: usize = 18;
pub const C_LAYER: usize = 19;
pub const C_MACHINE: usize = 20;
pub const C_WAIT: usize = 21;
pub const C_UNWINDING: usize = 22;
pub const COUNTERS: usize = 23;
pub const COUNTER_NAMES: [&str; COUNTERS] = [
    "preemption",
    "lookup_error",
    "lookup_panic",
    "deadline_expired",
    "allocation_failed",
    "unmatchable_definition",
    "rules_replaced",
    "nested_validation",
    "clock_jump",
    "entropy_reads",
    "clock_reads",
    "environment_reads",
    "lock_waits",
    "lock_wakes",
    "slow_lookup",
    "thread_exits",
    "lookups",
    "sleeps",
    "endless_reference_served",
    "layered_lookup",
    "machine_reads",
    "waits_for_another_caller",
    "calls_while_unwinding",
];

pub const V_NONE: u32 = 0;
pub const V_DONE: u32 = 1;
pub const V_HANG: u32 = 2;
pub const V_DEADLOCK: u32 = 3;
pub const V_ABORT: u32 = 4;

pub const DATA_MAX: usize = 8 << 20;
pub const COV_MAX: usize = 1 << 16;
pub const HOT_MAX: usize = 2048;

/// Memory shared between a worker and the simulated process it forked.
#[repr(C)]
pub struct Shared {
    pub verdict: u32,
    pub phase: u32,
    pub steps: u64,
    pub sim_ns: u64,
    pub trace: u64,
    pub switches: u64,
    pub alloc_failed: u64,
    /// Per thread: 1 + index of the operation in progress.
    pub op: [u32; MAX_THREADS],
    pub counters: [u64; COUNTERS],
    pub len: u64,
    /// Steps at the end of the set-up.
    pub setup: u64,
    /// Steps at which static data was accessed: where races would be.
    pub nhot: u64,
    pub hot: [u64; HOT_MAX],
    pub cov: [u8; COV_MAX],
    pub data: [u8; DATA_MAX],
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Empty,
    Ready,
    Futex,
    Asleep,
    Done,
}

struct Th {
    gate: AtomicU32,
    st: St,
    addr: usize,
    bits: u32,
    /// Simulated monotonic time at which a timed wait ends.
    until: u64,
    timed_out: bool,
    /// Steps made by this thread so far, up to `Sim::since`.
    steps: u64,
    /// `steps` at which the current operation counts as hanging.
    limit: u64,
    lo: usize,
    hi: usize,
    handle: u64,
}

pub struct Cfg {
    pub entropy: u64,
    pub wall0: i64,
    pub jumps: Vec<(u64, i64)>,
    pub env_seed: Option<u64>,
    pub stack_kb: u32,
    pub stack_slot: u32,
    pub named: bool,
    pub rr: u64,
    pub preempts: Vec<(u64, u8)>,
    pub lookup_preempts: Vec<(u64, u8)>,
    pub pid: i32,
}

struct Sim {
    /// Keeps `&mut Sim` from being treated as exclusive while other threads run.
    _shared: std::marker::PhantomPinned,
    active: bool,
    cur: usize,
    n: usize,
    step: u64,
    since: u64,
    next_stop: u64,
    extra_ns: u64,
    pi: usize,
    lpi: usize,
    ji: usize,
    wall: i64,
    lookups: u64,
    hold: u32,
    trace: u64,
    picks: u64,
    entropy_n: u64,
    th: [Th; MAX_THREADS],
    main: AtomicU32,
    ready: AtomicU32,
    cfg: Option<Cfg>,
    bodies: Vec<Option<Box<dyn FnOnce()>>>,
}

const TH0: Th = Th {
    gate: AtomicU32::new(0),
    st: St::Empty,
    addr: 0,
    bits: 0,
    until: u64::MAX,
    timed_out: false,
    steps: 0,
    limit: u64::MAX,
    lo: 0,
    hi: 0,
    handle: 0,
};

static mut SIM: Sim = Sim {
    _shared: std::marker::PhantomPinned,
    active: false,
    cur: 0,
    n: 0,
    step: 0,
    since: 0,
    next_stop: u64::MAX,
    extra_ns: 0,
    pi: 0,
    lpi: 0,
    ji: 0,
    wall: 0,
    lookups: 0,
    hold: 0,
    trace: 0,
    picks: 0,
    entropy_n: 0,
    th: [TH0; MAX_THREADS],
    main: AtomicU32::new(0),
    ready: AtomicU32::new(0),
    cfg: None,
    bodies: Vec::new(),
};

pub static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut GUARDS: u32 = 0;
static mut COV: *mut u8 = std::ptr::null_mut();

#[allow(static_mut_refs)]
fn sim() -> &'static mut Sim {
    unsafe { &mut SIM }
}

pub fn shared() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

pub fn guards() -> u32 {
    unsafe { GUARDS }
}

pub fn active() -> bool {
    sim().active
}

pub fn on_sim_thread() -> bool {
    sim().active && TID.get() >= 0
}

pub fn count(c: usize) {
    shared().counters[c] += 1;
}

impl Sim {
    fn cfg(&self) -> &Cfg {
        self.cfg.as_ref().unwrap()
    }
    fn event(&mut self, code: u64, a: u64) {
        self.trace = mix(self.trace ^ code.wrapping_mul(0x9E37) ^ a.wrapping_mul(0x1_0000_0001) ^ ((self.cur as u64) << 56));
    }
    fn now(&self) -> u64 {
        self.step * NS_PER_STEP + self.extra_ns
    }
    /// Recompute the next step at which something has to be decided.
    fn plan(&mut self) {
        let t = &self.th[self.cur];
        let mut n = self.since.saturating_add(t.limit.saturating_sub(t.steps));
        if let Some(p) = self.cfg().preempts.get(self.pi) {
            n = n.min(p.0);
        }
        if let Some(j) = self.cfg().jumps.get(self.ji) {
            n = n.min(j.0);
        }
        if self.n > 1 {
            n = n.min(self.since + FAIR);
        }
        self.next_stop = n;
    }
    fn account(&mut self) {
        let d = self.step - self.since;
        self.th[self.cur].steps += d;
        self.since = self.step;
    }
    fn ready_after(&mut self) -> Option<usize> {
        let mut c = [0usize; MAX_THREADS];
        let mut k = 0;
        for i in 1..=self.n {
            let t = (self.cur + i) % self.n;
            if t != self.cur && self.th[t].st == St::Ready {
                c[k] = t;
                k += 1;
            }
        }
        if k == 0 {
            return None;
        }
        self.picks += 1;
        let rr = self.cfg().rr;
        Some(if rr == 0 { c[0] } else { c[(mix(rr ^ self.picks) % k as u64) as usize] })
    }
    fn slow(&mut self) {
        self.account();
        while let Some(j) = self.cfg().jumps.get(self.ji) {
            if self.step < j.0 {
                break;
            }
            self.wall = self.wall.wrapping_add(j.1);
            self.ji += 1;
            count(C_CLOCK_JUMP);
        }
        let cur = self.cur;
        if self.th[cur].steps >= self.th[cur].limit {
            self.finish(V_HANG);
        }
        let mut to = None;
        let mut planned = false;
        while let Some(&(s, t)) = self.cfg().preempts.get(self.pi) {
            if self.step < s {
                break;
            }
            self.pi += 1;
            planned = true;
            let t = t as usize;
            if self.hold == 0 && t < self.n && t != cur && self.th[t].st == St::Ready {
                to = Some(t);
            }
        }
        if to.is_none() && !planned && self.n > 1 && self.hold == 0 {
            to = self.ready_after();
        }
        if let Some(t) = to {
            count(C_PREEMPT);
            self.switch(t);
        }
        self.plan();
    }
    /// Hand the processor to `t`; returns when this thread is chosen again.
    fn switch(&mut self, t: usize) {
        self.account();
        let me = self.cur;
        self.event(1 + t as u64, self.th[me].steps);
        shared().switches += 1;
        self.cur = t;
        self.plan();
        self.th[t].gate.store(1, Ordering::SeqCst);
        os::raw_futex_wake(&self.th[t].gate);
        park(&self.th[me].gate);
        self.plan();
    }
    /// The current thread cannot go on: let another one run (or time pass).
    fn block(&mut self) {
        loop {
            if let Some(t) = self.ready_after() {
                self.switch(t);
                if self.th[self.cur].st == St::Ready {
                    return;
                }
                continue;
            }
            if self.th[self.cur].st == St::Ready {
                return;
            }
            let mut first: Option<usize> = None;
            for i in 0..self.n {
                let x = &self.th[i];
                if matches!(x.st, St::Futex | St::Asleep)
                    && x.until != u64::MAX
                    && first.is_none_or(|f| x.until < self.th[f].until)
                {
                    first = Some(i);
                }
            }
            match first {
                Some(f) => {
                    let now = self.now();
                    let u = self.th[f].until;
                    if u > now {
                        self.extra_ns += u - now;
                    }
                    self.th[f].timed_out = true;
                    self.th[f].st = St::Ready;
                    self.th[f].until = u64::MAX;
                    if f == self.cur {
                        return;
                    }
                }
                None => {
                    if self.th[..self.n].iter().all(|t| matches!(t.st, St::Done)) {
                        return;
                    }
                    self.finish(V_DEADLOCK);
                }
            }
        }
    }
    /// Wake timed waiters whose time has come.
    fn expire(&mut self) {
        let now = self.now();
        for t in &mut self.th[..self.n] {
            if matches!(t.st, St::Futex | St::Asleep) && t.until <= now {
                t.st = St::Ready;
                t.timed_out = true;
                t.until = u64::MAX;
            }
        }
    }
    fn publish(&mut self) {
        let s = shared();
        s.steps = self.step;
        s.sim_ns = self.now();
        s.trace = self.trace;
    }
    fn finish(&mut self, verdict: u32) -> ! {
        self.publish();
        shared().verdict = verdict;
        unsafe { os::_exit(0) }
    }
}

pub fn aborted() -> ! {
    sim().finish(V_ABORT)
}

fn park(g: &AtomicU32) {
    while g.load(Ordering::SeqCst) == 0 {
        os::raw_futex_wait(g, 0);
    }
    g.store(0, Ordering::SeqCst);
}

#[inline(always)]
fn tick() {
    let s = sim();
    s.step += 1;
    if s.step >= s.next_stop {
        outside(|| sim().slow());
    }
}

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        IN_SUT.set(self.0);
    }
}

/// Run harness code in the middle of library code.  (A panic that leaves `f`
/// unwinds through library code again.)
#[inline]
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(IN_SUT.replace(false));
    f()
}

// ---- instrumentation callbacks ----------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            GUARDS += 1;
            *p = GUARDS;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if IN_SUT.get() {
        if (*g as usize) < COV_MAX {
            *COV.add(*g as usize) = 1;
        }
        tick();
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

fn hot() {
    let s = shared();
    if (s.nhot as usize) < HOT_MAX {
        s.hot[s.nhot as usize] = sim().step;
        s.nhot += 1;
    }
}

#[inline(always)]
fn access(a: usize) {
    if IN_SUT.get() {
        let s = sim();
        let t = &s.th[s.cur];
        if a < t.lo || a >= t.hi {
            if a >= &raw const __data_start as usize && a < &raw const _end as usize {
                hot();
            }
            tick();
        }
    }
}

macro_rules! accesses {
    ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(a: *const c_void) { access(a as usize) })* };
}
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

// ---- seams ------------------------------------------------------------------------

pub fn on_alloc() {
    tick();
}

pub fn on_alloc_fault() {
    count(C_ALLOC_FAIL);
    shared().alloc_failed += 1;
}

/// A rule lookup is about to happen (called outside the library).
pub fn on_lookup(latency_ns: u64) {
    let s = sim();
    count(C_LOOKUPS);
    s.lookups += 1;
    let l = s.lookups;
    s.event(20, l);
    if latency_ns > 0 {
        count(C_SLOW);
        s.extra_ns += latency_ns;
        s.expire();
    }
    let mut to = None;
    while let Some(&(k, t)) = s.cfg().lookup_preempts.get(s.lpi) {
        if l < k {
            break;
        }
        s.lpi += 1;
        let t = t as usize;
        if s.hold == 0 && t < s.n && t != s.cur && s.th[t].st == St::Ready {
            to = Some(t);
        }
    }
    if let Some(t) = to {
        count(C_PREEMPT);
        s.switch(t);
    }
}

/// # Safety
/// `addr` is the futex word passed to the system call.
pub unsafe fn futex(addr: usize, op: c_int, val: u32, ts: *const [i64; 2], bits: u32) -> isize {
    outside(|| {
        let s = sim();
        match op & 0x7f {
            0 | 9 => {
                if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                    return -11;
                }
                count(C_FUTEX_WAIT);
                hot();
                let me = s.cur;
                let mut until = u64::MAX;
                if !ts.is_null() {
                    let ns = (*ts)[0].saturating_mul(1_000_000_000).saturating_add((*ts)[1]);
                    until = if op & 0x7f == 0 {
                        s.now().saturating_add(ns.max(0) as u64)
                    } else {
                        let base = if op & 0x100 != 0 { s.cfg().wall0.wrapping_add(s.wall) } else { MONO0 };
                        ns.saturating_sub(base).max(0) as u64
                    };
                }
                s.event(30, me as u64);
                let t = &mut s.th[me];
                t.st = St::Futex;
                t.addr = addr;
                t.bits = if op & 0x7f == 9 { bits } else { u32::MAX };
                t.until = until;
                t.timed_out = false;
                s.account();
                s.block();
                if s.th[me].timed_out {
                    s.th[me].timed_out = false;
                    return -110;
                }
                0
            }
            1 | 10 => {
                count(C_FUTEX_WAKE);
                let bits = if op & 0x7f == 10 { bits } else { u32::MAX };
                let mut n = 0;
                for i in 1..=s.n {
                    let t = (s.cur + i) % s.n;
                    if n < val as isize && s.th[t].st == St::Futex && s.th[t].addr == addr && s.th[t].bits & bits != 0 {
                        s.th[t].st = St::Ready;
                        s.th[t].until = u64::MAX;
                        n += 1;
                    }
                }
                s.event(31, n as u64);
                n
            }
            _ => -38,
        }
    })
}

const MONO0: i64 = 1_000_000_000_000;

pub fn clock(clk: c_int) -> i64 {
    let s = sim();
    count(C_CLOCK);
    let t = s.now() as i64;
    match clk {
        0 | 5 | 11 => s.cfg().wall0.wrapping_add(t).wrapping_add(s.wall),
        2 | 3 => t,
        _ => MONO0 + t,
    }
}

pub fn now_ns() -> u64 {
    sim().now()
}

pub fn sleep(ns: i64) {
    outside(|| {
        let s = sim();
        count(C_SLEEP);
        let me = s.cur;
        s.th[me].st = St::Asleep;
        s.th[me].until = s.now().saturating_add(ns.max(0) as u64);
        s.account();
        s.block();
        s.th[me].timed_out = false;
    })
}

pub fn yield_now() {
    outside(|| {
        let s = sim();
        s.extra_ns += 1000;
        s.step += 1;
        s.expire();
        if s.step >= s.next_stop {
            s.slow();
        }
        if let Some(t) = s.ready_after() {
            s.switch(t);
        }
    })
}

pub fn entropy(buf: &mut [u8]) {
    let s = sim();
    count(C_ENTROPY);
    for b in buf {
        s.entropy_n += 1;
        *b = (mix(s.cfg().entropy ^ s.entropy_n) >> 24) as u8;
    }
}

pub fn pid() -> i32 {
    sim().cfg().pid
}

/// The simulated environment: None leaves the real (fixed) environment in force.
pub fn sim_env(name: &[u8]) -> Option<*mut c_char> {
    let s = sim();
    if !s.active {
        return None;
    }
    let seed = s.cfg().env_seed?;
    if name.starts_with(b"RUST") {
        return Some(std::ptr::null_mut());
    }
    count(C_GETENV);
    const VALUES: [&[u8]; 9] = [b"\0", b"1\0", b"0\0", b"true\0", b"false\0", b"7\0", b"100000\0", b"C\0", b"tr_TR.UTF-8\0"];
    let h = mix(seed ^ crate::rng::fnv(name));
    Some(if h % 3 == 0 { std::ptr::null_mut() } else { VALUES[(h >> 8) as usize % VALUES.len()].as_ptr() as *mut c_char })
}

/// What the rest of the machine looks like to the library (files, directory, CPUs,
/// users, terminal): None outside the library.  Without a seed it is a fixed, bare one.
pub fn surroundings(what: &[u8]) -> Option<u64> {
    let s = sim();
    if !s.active || !IN_SUT.get() {
        return None;
    }
    count(C_MACHINE);
    Some(s.cfg().env_seed.map_or(0, |seed| mix(seed ^ crate::rng::fnv(what)) | 1))
}

/// The environment block, for those that read it directly.
fn set_environ() {
    let Some(seed) = sim().cfg().env_seed else { return };
    let mut v: Vec<*const c_char> = Vec::new();
    for i in 0..mix(seed ^ 77) % 6 {
        let h = mix(seed ^ (i + 100));
        let name = ["LANG", "LC_ALL", "HOME", "DEBUG", "TZ", "CDDL", "TERM", "USER"][h as usize % 8];
        let val = ["", "1", "0", "C", "tr_TR.UTF-8", "/nowhere"][(h >> 8) as usize % 6];
        v.push(Box::leak(format!("{name}{}={val}\0", (h >> 16) % 3).into_boxed_str()).as_ptr() as *const c_char);
    }
    v.push(std::ptr::null());
    unsafe { os::environ = Box::leak(v.into_boxed_slice()).as_ptr() };
}

/// What the program was started with.
fn set_args() {
    let mut v: Vec<&'static CStr> = vec![c"sim"];
    if let Some(seed) = sim().cfg().env_seed {
        v[0] = [c"sim", c"/usr/bin/x", c"./cddl-cat", c""][mix(seed ^ 79) as usize % 4];
        for i in 0..mix(seed ^ 78) % 9 {
            let a = [c"--strict", c"-v", c"--debug", c"test", c"--lenient", c"1", c"", c"--verbose", c"--no-limit", c"x=1"];
            v.push(a[mix(seed ^ (i + 200)) as usize % a.len()]);
        }
    }
    os::set_args(v);
}

// ---- operations of the harness ----------------------------------------------------

/// Enter the library: steps, allocations and coverage count from here.
pub fn enter<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(IN_SUT.replace(true));
    f()
}

/// Steps made by the current thread.
pub fn my_steps() -> u64 {
    let s = sim();
    s.account();
    s.plan();
    s.th[s.cur].steps
}

/// The current thread counts as hanging once it has made `n` more steps.
pub fn set_limit(n: u64) {
    let s = sim();
    s.account();
    let c = s.cur;
    s.th[c].limit = if n == u64::MAX { n } else { s.th[c].steps + n };
    s.plan();
}

pub fn op_begin(i: usize) {
    let s = sim();
    shared().op[s.cur] = 1 + i as u32;
    s.event(40, i as u64);
}

pub fn op_end(sig: u64) {
    let s = sim();
    s.account();
    shared().op[s.cur] = 0;
    let st = s.th[s.cur].steps;
    s.event(41, st ^ sig);
}

/// No preemption inside `f`.
pub fn hold<R>(f: impl FnOnce() -> R) -> R {
    sim().hold += 1;
    let r = f();
    sim().hold -= 1;
    r
}

pub fn start(cfg: Cfg) {
    let s = sim();
    unsafe {
        COV = &raw mut (*SHARED).cov as *mut u8;
    }
    s.cfg = Some(cfg);
    set_environ();
    set_args();
    s.active = true;
}

pub fn mark_setup() {
    shared().setup = sim().step;
    shared().nhot = 0;
}

pub fn stop() {
    let s = sim();
    s.active = false;
    s.publish();
}

extern "C" fn entry(arg: *mut c_void) -> *mut c_void {
    thread_main(arg as usize);
    std::ptr::null_mut()
}

fn thread_main(i: usize) {
    let s = sim();
    TID.set(i as i32);
    let here = &raw const i as usize;
    let size = s.cfg().stack_kb as usize * 1024;
    s.th[i].hi = here + 0x4000;
    s.th[i].lo = here.saturating_sub(size);
    s.ready.store(1, Ordering::SeqCst);
    os::raw_futex_wake(&s.ready);
    park(&s.th[i].gate);
    s.plan();
    let body = s.bodies[i].take().unwrap();
    body();
    IN_SUT.set(false);
    s.account();
    s.th[i].st = St::Done;
    // Hand over without waiting for a turn: this thread is done.
    let next = loop {
        if let Some(t) = s.ready_after() {
            break Some(t);
        }
        if s.th[..s.n].iter().all(|t| t.st == St::Done) {
            break None;
        }
        // Only timed waiters (or a deadlock) are left.
        s.block_done();
    };
    match next {
        Some(t) => {
            let st = s.th[i].steps;
            s.event(50 + t as u64, st);
            shared().switches += 1;
            s.cur = t;
            s.plan();
            s.th[t].gate.store(1, Ordering::SeqCst);
            os::raw_futex_wake(&s.th[t].gate);
        }
        None => {
            s.main.store(1, Ordering::SeqCst);
            os::raw_futex_wake(&s.main);
        }
    }
    park(&s.th[i].gate);
    // From here on the thread exits for real, alone.
    TID.set(-1);
    count(C_THREAD_EXIT);
}

impl Sim {
    fn block_done(&mut self) {
        let mut first: Option<usize> = None;
        for i in 0..self.n {
            let x = &self.th[i];
            if matches!(x.st, St::Futex | St::Asleep)
                && x.until != u64::MAX
                && first.is_none_or(|f| x.until < self.th[f].until)
            {
                first = Some(i);
            }
        }
        match first {
            Some(f) => {
                let now = self.now();
                let u = self.th[f].until;
                if u > now {
                    self.extra_ns += u - now;
                }
                self.th[f].timed_out = true;
                self.th[f].st = St::Ready;
                self.th[f].until = u64::MAX;
            }
            None => self.finish(V_DEADLOCK),
        }
    }
}

/// Run the bodies as simulated threads until all are done and have exited.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce()>>) {
    let s = sim();
    let n = bodies.len();
    assert!(n <= MAX_THREADS);
    s.bodies = bodies.into_iter().map(Some).collect();
    s.n = n;
    let size = s.cfg().stack_kb as usize * 1024;
    for i in 0..n {
        s.th[i].st = St::Ready;
        s.th[i].limit = u64::MAX;
        s.th[i].gate.store(0, Ordering::SeqCst);
        s.ready.store(0, Ordering::SeqCst);
        unsafe {
            if s.cfg().named {
                let h = std::thread::Builder::new().name(format!("worker-{i}")).stack_size(size).spawn(move || thread_main(i));
                // Joining goes by the gate below; the handle is only kept alive.
                s.th[i].handle = Box::into_raw(Box::new(h.expect("thread"))) as u64;
            } else {
                let hi = STACKS + (i + 1) * (64 << 20) + s.cfg().stack_slot as usize * 4096;
                let lo = hi - size;
                let p = os::mmap(lo as *mut _, size, os::PROT_RW, os::MAP_PRIVATE | os::MAP_ANON | os::MAP_FIXED | os::MAP_NORESERVE, -1, 0);
                if p as usize != lo {
                    os::_exit(87);
                }
                let mut attr = [0u64; 8];
                os::pthread_attr_init(&mut attr);
                os::pthread_attr_setstack(&mut attr, p, size);
                let mut h = 0;
                if os::pthread_create(&mut h, &attr, entry, i as *mut c_void) != 0 {
                    os::_exit(88);
                }
                s.th[i].handle = h;
            }
        }
        park_wait(&s.ready);
    }
    let first = if s.cfg().rr == 0 { 0 } else { (s.cfg().rr % n as u64) as usize };
    s.cur = first;
    s.since = s.step;
    s.plan();
    s.th[first].gate.store(1, Ordering::SeqCst);
    os::raw_futex_wake(&s.th[first].gate);
    park(&s.main);
    // Real thread exit, one at a time.
    for i in 0..n {
        s.th[i].gate.store(1, Ordering::SeqCst);
        os::raw_futex_wake(&s.th[i].gate);
        unsafe {
            if s.cfg().named {
                let h = *Box::from_raw(s.th[i].handle as *mut std::thread::JoinHandle<()>);
                let _ = h.join();
            } else {
                os::pthread_join(s.th[i].handle, std::ptr::null_mut());
            }
        }
        s.th[i].st = St::Empty;
    }
    s.n = 0;
}

fn park_wait(g: &AtomicU32) {
    while g.load(Ordering::SeqCst) == 0 {
        os::raw_futex_wait(g, 0);
    }
}
