//! The allocator of simulated processes: a private arena at a fixed address whose
//! placement and reuse policy the simulator chooses, which accounts for the memory
//! the library under test owns and can refuse an allocation.

use crate::os;
use crate::sched::{self, IN_SUT};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};

pub const BASE: usize = 0x5000_0000_0000;
pub const SIZE: usize = 4 << 30;

pub struct Alloc;

#[global_allocator]
static GLOBAL: Alloc = Alloc;

struct Head {
    class: u32,
    owned: u32,
    size: u64,
}

pub struct Arena {
    on: bool,
    lock: AtomicBool,
    top: usize,
    end: usize,
    /// 0 reuse last freed first, 1 reuse first freed first, 2 never reuse
    policy: u8,
    first: [usize; 48],
    last: [usize; 48],
    /// Bytes and blocks allocated inside the library and not yet given back.
    pub live: i64,
    pub live_blocks: i64,
    /// Allocations made inside the library by the current request.
    pub count: u64,
    /// Refuse this allocation (1-based count) of the current request.
    pub fail_at: u64,
    pub failed: u64,
}

pub static mut ARENA: Arena = Arena {
    on: false,
    lock: AtomicBool::new(false),
    top: 0,
    end: 0,
    policy: 0,
    first: [0; 48],
    last: [0; 48],
    live: 0,
    live_blocks: 0,
    count: 0,
    fail_at: 0,
    failed: 0,
};

#[allow(static_mut_refs)]
pub fn arena() -> &'static mut Arena {
    unsafe { &mut ARENA }
}

/// Turn the arena on (in a simulated process, before anything is simulated).
pub fn start(policy: u8, skew: u32) {
    let a = arena();
    unsafe {
        let p = os::mmap(
            BASE as *mut _,
            SIZE,
            os::PROT_RW,
            os::MAP_PRIVATE | os::MAP_ANON | os::MAP_NORESERVE | os::MAP_FIXED,
            -1,
            0,
        );
        if p as usize != BASE {
            os::_exit(86);
        }
    }
    a.top = BASE + 64 + (skew as usize & !15);
    a.end = BASE + SIZE;
    a.policy = policy;
    a.on = true;
}

unsafe fn head(p: usize) -> *mut Head {
    (p - 16) as *mut Head
}

impl Arena {
    unsafe fn get(&mut self, layout: Layout, owned: bool) -> *mut u8 {
        while self.lock.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let extra = if layout.align() > 16 { layout.align() } else { 0 };
        let need = layout.size() + 16 + extra;
        let class = usize::BITS - (need.max(32) - 1).leading_zeros();
        let c = class as usize;
        let mut start = 0;
        if c < 48 {
            if self.first[c] != 0 && extra == 0 && self.policy != 2 {
                start = self.first[c];
                self.first[c] = *(start as *const usize);
                if self.first[c] == 0 {
                    self.last[c] = 0;
                }
            } else if (1usize << class) <= self.end - self.top {
                start = self.top;
                self.top += 1 << class;
            }
        }
        let mut p = std::ptr::null_mut();
        if start != 0 {
            let u = (start + 16 + extra) & !(layout.align().max(16) - 1);
            *head(u) = Head { class: class | if extra != 0 { 64 } else { 0 }, owned: owned as u32, size: layout.size() as u64 };
            if owned {
                self.live += layout.size() as i64;
                self.live_blocks += 1;
            }
            p = u as *mut u8;
        }
        self.lock.store(false, Ordering::Release);
        p
    }

    unsafe fn put(&mut self, p: usize) {
        while self.lock.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let h = &*head(p);
        if h.owned != 0 {
            self.live -= h.size as i64;
            self.live_blocks -= 1;
        }
        if h.class < 48 && self.policy != 2 {
            let c = h.class as usize;
            let start = p - 16;
            if self.policy == 0 {
                *(start as *mut usize) = self.first[c];
                if self.first[c] == 0 {
                    self.last[c] = start;
                }
                self.first[c] = start;
            } else {
                *(start as *mut usize) = 0;
                if self.last[c] == 0 {
                    self.first[c] = start;
                } else {
                    *(self.last[c] as *mut usize) = start;
                }
                self.last[c] = start;
            }
        }
        self.lock.store(false, Ordering::Release);
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let a = arena();
        if !a.on {
            return System.alloc(layout);
        }
        let owned = IN_SUT.get();
        if owned {
            sched::on_alloc();
            a.count += 1;
            if a.count == a.fail_at {
                a.failed += 1;
                sched::on_alloc_fault();
                return std::ptr::null_mut();
            }
        }
        a.get(layout, owned)
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let u = p as usize;
        if (BASE..BASE + SIZE).contains(&u) {
            arena().put(u)
        } else {
            System.dealloc(p, layout)
        }
    }
}
