//! What the audio thread does besides computing: a counting allocator and
//! stand-ins for the libc entry points through which a thread can wait.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

thread_local! {
    /// inside a process call
    static IN_AUDIO: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static LARGEST_FREED: Cell<usize> = const { Cell::new(0) };
    static WAITS: Cell<u64> = const { Cell::new(0) };
    static IO: Cell<u64> = const { Cell::new(0) };
    static CASE: Cell<u64> = const { Cell::new(0) };
    /// rendering has begun: the commands of this call are consumed
    static RENDERING: Cell<bool> = const { Cell::new(false) };
    static LATE: Cell<u64> = const { Cell::new(0) };
    static TRACE: Cell<bool> = const { Cell::new(false) };
}
/// count live bytes
pub static TRACK: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
/// when a wait inside a process call that has not ended began (ms, 0 = none)
static BLOCKED_SINCE: AtomicU64 = AtomicU64::new(0);
static BLOCKED_CASE: AtomicU64 = AtomicU64::new(0);

fn now_ms() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000 + 1
}

/// the case a process call has been waiting in for this many ms
pub fn blocked_for(ms: u64) -> Option<u64> {
    let s = BLOCKED_SINCE.load(Relaxed);
    (s != 0 && now_ms() > s + ms).then(|| BLOCKED_CASE.load(Relaxed))
}

/// the case this thread works for
pub fn set_case(i: u64) {
    CASE.with(|c| c.set(i));
}

struct Counting;

fn note(alloc: bool, size: usize) {
    let _ = IN_AUDIO.try_with(|f| {
        if f.get() {
            if RENDERING.with(|r| r.get()) {
                LATE.with(|c| c.set(c.get() + 1));
            }
            if alloc {
                ALLOCS.with(|c| c.set(c.get() + 1));
                LARGEST.with(|c| c.set(c.get().max(size)));
            } else {
                FREES.with(|c| c.set(c.get() + 1));
                LARGEST_FREED.with(|c| c.set(c.get().max(size)));
            }
            if TRACE.with(|t| t.get()) {
                f.set(false);
                eprintln!(
                    "{} of {size} bytes in a process call\n{}",
                    if alloc { "allocation" } else { "deallocation" },
                    std::backtrace::Backtrace::force_capture()
                );
                f.set(true);
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(true, l.size());
        if TRACK.load(Relaxed) {
            LIVE.fetch_add(l.size() as i64, Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(true, l.size());
        if TRACK.load(Relaxed) {
            LIVE.fetch_add(l.size() as i64, Relaxed);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(true, n);
        if TRACK.load(Relaxed) {
            LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(false, l.size());
        if TRACK.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

#[derive(Default, Debug, Clone, Copy)]
pub struct Seen {
    pub allocs: u64,
    pub frees: u64,
    pub largest: usize,
    pub largest_freed: usize,
    pub waits: u64,
    pub io: u64,
    /// allocations and deallocations after some processor had begun to render
    pub late: u64,
}

/// Run a process call and report what it did besides computing.
pub fn audio(trace: bool, f: impl FnOnce()) -> Seen {
    ALLOCS.with(|c| c.set(0));
    FREES.with(|c| c.set(0));
    LARGEST.with(|c| c.set(0));
    LARGEST_FREED.with(|c| c.set(0));
    WAITS.with(|c| c.set(0));
    IO.with(|c| c.set(0));
    LATE.with(|c| c.set(0));
    RENDERING.with(|c| c.set(false));
    TRACE.with(|c| c.set(trace));
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            IN_AUDIO.with(|c| c.set(false));
        }
    }
    {
        let _r = Reset;
        IN_AUDIO.with(|c| c.set(true));
        f();
    }
    Seen {
        allocs: ALLOCS.with(|c| c.get()),
        frees: FREES.with(|c| c.get()),
        largest: LARGEST.with(|c| c.get()),
        largest_freed: LARGEST_FREED.with(|c| c.get()),
        waits: WAITS.with(|c| c.get()),
        io: IO.with(|c| c.get()),
        late: LATE.with(|c| c.get()),
    }
}

/// A processor is being run.
pub fn rendering() {
    let _ = RENDERING.try_with(|c| c.set(true));
}

pub fn in_audio() -> bool {
    IN_AUDIO.with(|c| c.get())
}

/// A panic inside a process call formats and unwinds: not to be counted.
pub fn leave_audio() {
    let _ = IN_AUDIO.try_with(|c| c.set(false));
}

// -------------------------------------------------------- waiting and I/O
unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

fn waiting<T>(f: impl FnOnce() -> T) -> T {
    let mine = IN_AUDIO.try_with(|c| c.get()).unwrap_or(false);
    if mine {
        WAITS.with(|c| c.set(c.get() + 1));
        if TRACE.with(|t| t.get()) {
            IN_AUDIO.with(|c| c.set(false));
            eprintln!("wait in a process call\n{}", std::backtrace::Backtrace::force_capture());
            IN_AUDIO.with(|c| c.set(true));
        }
        BLOCKED_CASE.store(CASE.with(|c| c.get()), Relaxed);
        BLOCKED_SINCE.store(now_ms(), Relaxed);
    }
    let r = f();
    if mine {
        BLOCKED_SINCE.store(0, Relaxed);
    }
    r
}

/// std and crossbeam wait through `syscall(SYS_futex, ..)`
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == libc::SYS_futex {
        let op = b as i32 & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            return waiting(|| unsafe { ret(raw(n, a, b, c, d, e, f)) });
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    waiting(|| unsafe { -raw(libc::SYS_clock_nanosleep, clock as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32 })
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    waiting(|| unsafe { ret(raw(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as i32 })
}

fn io() {
    let _ = IN_AUDIO.try_with(|c| {
        if c.get() {
            IO.with(|c| c.set(c.get() + 1));
        }
    });
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const libc::c_void, n: usize) -> isize {
    io();
    ret(raw(libc::SYS_write, fd as usize, p as usize, n, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut libc::c_void, n: usize) -> isize {
    io();
    ret(raw(libc::SYS_read, fd as usize, p as usize, n, 0, 0, 0))
}
