//! Delays before and after the channel operations of a thread that asks for them.
use std::cell::Cell;
use std::time::Duration;

std::thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };
    static PER_MILLE: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

/// From here on, this thread is delayed at this rate
pub fn enable(seed: u64, per_mille: u64) {
    STATE.with(|s| s.set(seed | 1));
    PER_MILLE.with(|s| s.set(per_mille));
}

/// This thread goes on as usual
pub fn disable() {
    PER_MILLE.with(|s| s.set(0));
}

/// The number of delays of this thread so far
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}

#[inline]
pub(crate) fn point() {
    if PER_MILLE.try_with(|p| p.get()).unwrap_or(0) > 0 {
        delay();
    }
}

#[cold]
fn delay() {
    let r = STATE.with(|s| {
        let mut x = s.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set(x);
        x >> 8
    });
    if r % 1000 >= PER_MILLE.with(|p| p.get()) {
        return;
    }
    COUNT.with(|c| c.set(c.get() + 1));
    let r = r / 1000;
    match r % 8 {
        0..=3 => {
            for _ in 0..(r >> 3) % 3000 {
                std::hint::spin_loop();
            }
        }
        4..=6 => std::thread::yield_now(),
        _ => std::thread::sleep(Duration::from_micros((r >> 3) % 60)),
    }
}
