//! C entry points for the simulator around the real seuif97 crate, and the canaries
//! (deliberately broken functions) the simulator proves its sensitivity with.
#![allow(non_snake_case)]
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

mod canary;

thread_local! { static TOUCH: Cell<u64> = const { Cell::new(0) }; }

#[inline(always)]
fn rust_call(surf: i32, f: i32, x: f64, y: f64, o: i32, reg: i32) -> f64 {
    use seuif97::*;
    if surf == 1 {
        match f {
            0 => pt(x, y, (o, reg)),
            1 => ph(x, y, (o, reg)),
            2 => ps(x, y, (o, reg)),
            3 => pv(x, y, (o, reg)),
            4 => tv(x, y, (o, reg)),
            5 => th(x, y, (o, reg)),
            6 => ts(x, y, (o, reg)),
            7 => hs(x, y, (o, reg)),
            8 => px(x, y, o),
            9 => tx(x, y, o),
            10 => hx(x, y, o),
            _ => sx(x, y, o),
        }
    } else {
        match f {
            0 => pt(x, y, o),
            1 => ph(x, y, o),
            2 => ps(x, y, o),
            3 => pv(x, y, o),
            4 => tv(x, y, o),
            5 => th(x, y, o),
            6 => ts(x, y, o),
            7 => hs(x, y, o),
            8 => px(x, y, o),
            9 => tx(x, y, o),
            10 => hx(x, y, o),
            _ => sx(x, y, o),
        }
    }
}

/// 0: returned a value, 1: panicked
#[no_mangle]
pub extern "C" fn sim_call(surf: i32, f: i32, x: f64, y: f64, o: i32, reg: i32, out: *mut f64) -> i32 {
    let r = catch_unwind(AssertUnwindSafe(|| {
        if surf >= 100 {
            canary::call(surf - 100, f, x, y, o)
        } else {
            rust_call(surf, f, x, y, o, reg)
        }
    }));
    match r {
        Ok(v) => {
            unsafe { *out = v };
            0
        }
        Err(_) => 1,
    }
}

static HOOKED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

#[no_mangle]
pub extern "C" fn sim_init() {
    std::panic::set_hook(Box::new(|_| {
        HOOKED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }));
}

/// 1 when a panic of the host still reaches the hook the host has set
#[no_mangle]
pub extern "C" fn sim_hook() -> u64 {
    let a = HOOKED.load(std::sync::atomic::Ordering::Relaxed);
    let _ = catch_unwind(|| {
        std::panic::panic_any(());
    });
    (HOOKED.load(std::sync::atomic::Ordering::Relaxed) == a + 1) as u64
}

/// makes the dynamic loader allocate this module's thread-local block for the calling thread
#[no_mangle]
pub extern "C" fn sim_touch() {
    TOUCH.with(|t| t.set(t.get() + 1));
}

#[no_mangle]
pub extern "C" fn sim_canaries() -> i32 {
    canary::COUNT
}
