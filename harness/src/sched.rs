//! Run calls on threads under a chosen schedule.  The library is compiled with every atomic and
//! memory access turned into a call of a __tsan_* function (tools/rustc_sched.sh); here these
//! functions are the points where a thread can be stopped to let another one run.
use std::{
    cell::Cell,
    sync::{
        atomic::{AtomicBool, Ordering},
        Condvar, Mutex,
    },
    time::Duration,
};

const NONE: usize = usize::MAX;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
}
static ON: AtomicBool = AtomicBool::new(false);

struct Th {
    tid: i32,
    done: bool,
    waiting: bool,
    blocked: bool,
    events: usize,
    marks: usize,
}
struct Ctl {
    th: Vec<Th>,
    turn: usize,
    left: usize,
    plan: Vec<(usize, usize)>,
    at: usize,
    blocks: usize,
}
static CTL: Mutex<Option<Ctl>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

impl Ctl {
    /// hands the turn to the next thread of the plan, then to whoever is left
    fn switch(&mut self) {
        while self.at < self.plan.len() {
            let (t, k) = self.plan[self.at];
            self.at += 1;
            if k > 0 && t < self.th.len() && !self.th[t].done && !self.th[t].blocked {
                self.turn = t;
                self.left = k;
                return;
            }
        }
        self.turn = (0..self.th.len()).find(|t| !self.th[*t].done && !self.th[*t].blocked).unwrap_or(NONE);
        self.left = usize::MAX;
    }
}

fn tid() -> i32 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|n| n.parse().ok()))).unwrap_or(0)
}

fn asleep(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))
        .ok()
        .and_then(|s| s.rsplit(") ").next().map(|x| x.starts_with('S')))
        .unwrap_or(false)
}

fn wait_turn(mut g: std::sync::MutexGuard<'_, Option<Ctl>>, me: usize) {
    loop {
        {
            let c = g.as_mut().unwrap();
            // a thread that was found blocked and moves again joins the others
            c.th[me].blocked = false;
            if c.turn == NONE {
                c.switch();
                CV.notify_all();
            }
            if c.turn == me {
                c.th[me].waiting = false;
                return;
            }
            c.th[me].waiting = true;
        }
        g = CV.wait(g).unwrap();
    }
}

fn event() {
    let me = ME.with(Cell::get);
    if me == NONE || !ON.load(Ordering::Relaxed) {
        return;
    }
    ME.with(|m| m.set(NONE)); // what follows is not an event
    {
        let mut g = CTL.lock().unwrap();
        if let Some(c) = g.as_mut() {
            c.th[me].events += 1;
            if c.turn == me {
                if c.left == 0 {
                    c.switch();
                    CV.notify_all();
                } else {
                    c.left -= 1;
                }
            }
            wait_turn(g, me);
        }
    }
    ME.with(|m| m.set(me));
}

pub fn begin(threads: usize, plan: Vec<(usize, usize)>) {
    let th = (0..threads).map(|_| Th { tid: 0, done: false, waiting: false, blocked: false, events: 0, marks: 0 }).collect();
    let mut c = Ctl { th, turn: NONE, left: 0, plan, at: 0, blocks: 0 };
    c.switch();
    *CTL.lock().unwrap() = Some(c);
    ON.store(true, Ordering::SeqCst);
}

pub fn enter(me: usize) {
    let g = {
        let mut g = CTL.lock().unwrap();
        g.as_mut().unwrap().th[me].tid = tid();
        g
    };
    wait_turn(g, me);
}

/// inside a call: events count
pub fn during<T>(me: usize, f: impl FnOnce() -> T) -> T {
    ME.with(|m| m.set(me));
    let r = f();
    ME.with(|m| m.set(NONE));
    let mut g = CTL.lock().unwrap();
    if let Some(c) = g.as_mut() {
        c.th[me].marks += 1;
    }
    r
}

pub fn leave(me: usize) {
    let mut g = CTL.lock().unwrap();
    let c = g.as_mut().unwrap();
    c.th[me].done = true;
    if c.turn == me {
        c.switch();
    }
    drop(g);
    CV.notify_all();
}

/// a thread that holds the turn but sleeps is waiting for another one: the turn goes on.
/// Returns (events of each thread, blocked turns), or None when nothing moves any more
pub fn watch(limit: Duration) -> Option<(Vec<usize>, usize)> {
    let end = std::time::Instant::now() + limit;
    let mut seen = (NONE, 0, 0);
    loop {
        std::thread::sleep(Duration::from_micros(300));
        let mut g = CTL.lock().unwrap();
        let c = g.as_mut().unwrap();
        if c.th.iter().all(|t| t.done) {
            let r = (c.th.iter().map(|t| t.events).collect(), c.blocks);
            ON.store(false, Ordering::SeqCst);
            *g = None;
            return Some(r);
        }
        if c.turn != NONE {
            let (t, e, w) = (c.turn, c.th[c.turn].events, c.th[c.turn].waiting);
            if !w && c.th[t].tid != 0 && asleep(c.th[t].tid) {
                seen = if (seen.0, seen.1) == (t, e) { (t, e, seen.2 + 1) } else { (t, e, 1) };
                if seen.2 >= 3 {
                    c.th[t].blocked = true;
                    c.blocks += 1;
                    c.switch();
                    CV.notify_all();
                }
            } else {
                seen = (NONE, 0, 0);
            }
        }
        drop(g);
        if std::time::Instant::now() > end {
            return None;
        }
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

fn access(p: *const u8) {
    if ME.with(Cell::get) == NONE {
        return;
    }
    let (a, lo, hi) = (p as usize, &raw const __data_start as usize, &raw const _end as usize);
    if a >= lo && a < hi {
        event();
    }
}

macro_rules! accesses {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(p: *const u8) { access(p); }
    )* };
}
accesses!(__tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16
          __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
          __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
          __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
          __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
          __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8 __tsan_unaligned_read_write16
          __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
          __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16
          __tsan_vptr_read);

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: *const u8) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_: *const u8, _: *const u8) {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub extern "C" fn __tsan_read_range(_: *const u8, _: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_write_range(_: *const u8, _: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    std::ptr::copy_nonoverlapping(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    std::ptr::write_bytes(d, v as u8, n);
    d
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    std::sync::atomic::fence(Ordering::SeqCst);
    event();
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $strong:ident $weak:ident $val:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t {
            event();
            (*p).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) {
            event();
            (*p).store(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *const $a, v: $t, _: i32) -> $t {
            event();
            (*p).swap(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *const $a, v: $t, _: i32) -> $t {
            event();
            (*p).fetch_add(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *const $a, v: $t, _: i32) -> $t {
            event();
            (*p).fetch_sub(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *const $a, v: $t, _: i32) -> $t {
            event();
            (*p).fetch_and(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *const $a, v: $t, _: i32) -> $t {
            event();
            (*p).fetch_or(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *const $a, v: $t, _: i32) -> $t {
            event();
            (*p).fetch_xor(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *const $a, v: $t, _: i32) -> $t {
            event();
            (*p).fetch_nand(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $strong(p: *const $a, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            event();
            match (*p).compare_exchange(*c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *c = x;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $weak(p: *const $a, c: *mut $t, v: $t, m: i32, n: i32) -> i32 {
            $strong(p, c, v, m, n)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $val(p: *const $a, c: $t, v: $t, _: i32, _: i32) -> $t {
            event();
            match (*p).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
    };
}
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8};
atomics!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val);
