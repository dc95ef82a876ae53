//! The simulated clock behind the engine's profiling timer.

use std::cell::Cell;

thread_local! {
    static NOW: Cell<u64> = Cell::new(1_000_000_000);
    static TICK: Cell<u64> = Cell::new(137);
    static READS: Cell<u64> = Cell::new(0);
}

fn read() -> u64 {
    READS.with(|r| r.set(r.get() + 1));
    NOW.with(|n| {
        let v = n.get().wrapping_add(TICK.with(|t| t.get()));
        n.set(v);
        v
    })
}

pub fn install() {
    box2d_rs::b2rs_sim_clock::set_source(read);
}

pub fn reset(tick: u64) {
    NOW.with(|n| n.set(1_000_000_000));
    TICK.with(|t| t.set(tick));
    READS.with(|r| r.set(0));
}

pub fn jump(ns: i64) {
    NOW.with(|n| n.set((n.get() as i64).wrapping_add(ns).max(0) as u64));
}

pub fn reads() -> u64 {
    READS.with(|r| r.get())
}
