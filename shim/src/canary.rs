//! Positive controls (each breaks one property in a way a real change could) and negative
//! controls (shared state that is correct).  Selected by surface 100+k.
use seuif97::pt;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::Mutex;

pub const COUNT: i32 = 36;

struct Sync_<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Sync_<T> {}

#[inline(never)]
fn base(x: f64, y: f64, o: i32) -> f64 {
    pt(x, y, o)
}

fn bits(x: f64, y: f64, o: i32) -> u64 {
    x.to_bits() ^ y.to_bits().rotate_left(17) ^ (o as u64).wrapping_mul(0x9E3779B97F4A7C15)
}

// 0: two-word cache in atomics, torn between key and value
static K0: AtomicU64 = AtomicU64::new(0);
static V0: AtomicU64 = AtomicU64::new(0);
fn torn_atomic(x: f64, y: f64, o: i32) -> f64 {
    let k = bits(x, y, o);
    if K0.load(Acquire) == k {
        return f64::from_bits(V0.load(Acquire));
    }
    let v = base(x, y, o);
    K0.store(k, Release);
    V0.store(v.to_bits(), Release);
    v
}

// 1: plain static mut scratch value (a data race, and torn)
static S1: Sync_<[f64; 2]> = Sync_(UnsafeCell::new([0.0; 2]));
fn static_scratch(x: f64, y: f64, o: i32) -> f64 {
    unsafe {
        let p = S1.0.get();
        (*p)[0] = x;
        (*p)[1] = y;
        std::hint::black_box(&*p);
        base((*p)[0], (*p)[1], o)
    }
}

// 2: data published by a relaxed flag: right value on x86, a data race all the same
static F2: AtomicBool = AtomicBool::new(false);
static D2: Sync_<f64> = Sync_(UnsafeCell::new(0.0));
static M2: Mutex<()> = Mutex::new(());
fn relaxed_publish(x: f64, y: f64, o: i32) -> f64 {
    let c = if F2.load(Relaxed) {
        unsafe { *D2.0.get() }
    } else {
        let _g = M2.lock();
        if !F2.load(Relaxed) {
            unsafe { *D2.0.get() = 273.15 };
            F2.store(true, Relaxed);
        }
        273.15
    };
    base(x, y + c - 273.15, o)
}

// 3: thread-local memo keyed on the first argument and id only
thread_local! { static T3: Cell<(u64, i32, f64)> = const { Cell::new((0, -1, 0.0)) }; }
fn stale_tls(x: f64, y: f64, o: i32) -> f64 {
    T3.with(|c| {
        let (k, oo, v) = c.get();
        if k == x.to_bits() && oo == o {
            return v;
        }
        let v = base(x, y, o);
        c.set((x.to_bits(), o, v));
        v
    })
}

// 4: a counter that trips late
static N4: AtomicU32 = AtomicU32::new(0);
fn counter(x: f64, y: f64, o: i32) -> f64 {
    let n = N4.fetch_add(1, Relaxed);
    let v = base(x, y, o);
    if n == 5000 {
        return v * (1.0 + 1e-9);
    }
    v
}

// 5: thread-local memo whose key is written before its value: wrong when re-entered in between
thread_local! { static T5: Cell<(u64, u64, i32)> = const { Cell::new((0, 0, -1)) }; static U5: Cell<f64> = const { Cell::new(0.0) }; }
fn reentry_tls(x: f64, y: f64, o: i32) -> f64 {
    let k = (x.to_bits(), y.to_bits(), o);
    if T5.with(|c| c.get()) == k {
        return U5.with(|c| c.get());
    }
    T5.with(|c| c.set(k));
    let v = base(x, y, o);
    U5.with(|c| c.set(v));
    v
}

// 6: RefCell scratch buffer held across the computation: panics on re-entry
thread_local! { static T6: RefCell<[f64; 2]> = const { RefCell::new([0.0; 2]) }; }
fn refcell(x: f64, y: f64, o: i32) -> f64 {
    T6.with(|c| {
        let mut b = c.borrow_mut();
        b[0] = x;
        b[1] = y;
        base(b[0], b[1], o)
    })
}

// 7: correct cache under a mutex held across the computation: a dead holder blocks all
static M7: Mutex<(u64, u64, i32, f64)> = Mutex::new((0, 0, -1, 0.0));
fn mutex_cache(x: f64, y: f64, o: i32) -> f64 {
    let mut g = M7.lock().unwrap_or_else(|e| e.into_inner());
    if g.0 == x.to_bits() && g.1 == y.to_bits() && g.2 == o {
        return g.3;
    }
    let v = base(x, y, o);
    *g = (x.to_bits(), y.to_bits(), o, v);
    v
}

// 8: spin lock
static L8: AtomicBool = AtomicBool::new(false);
fn spin(x: f64, y: f64, o: i32) -> f64 {
    while L8.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let v = base(x, y, o);
    L8.store(false, Release);
    v
}

// 9: heap buffer, infallible allocation: aborts when memory is out
fn alloc_abort(x: f64, y: f64, o: i32) -> f64 {
    let v: Vec<f64> = std::hint::black_box(vec![x, y]);
    base(v[0], v[1], o)
}
// 10: fallible allocation with a wrong fallback
fn alloc_fallback(x: f64, y: f64, o: i32) -> f64 {
    let mut v: Vec<f64> = Vec::new();
    if v.try_reserve_exact(2).is_err() {
        return -1000.0;
    }
    v.push(x);
    v.push(y);
    let v = std::hint::black_box(v);
    base(v[0], v[1], o)
}
// 11: time limit by the wall clock
fn clock(x: f64, y: f64, o: i32) -> f64 {
    let t0 = std::time::Instant::now();
    let v = base(x, y, o);
    if t0.elapsed().as_millis() > 500 {
        return -1000.0;
    }
    v
}
// 12: environment switch
fn env(x: f64, y: f64, o: i32) -> f64 {
    let v = base(x, y, o);
    if std::env::var_os("SEUIF97_STRICT").is_some() {
        return v * 0.5;
    }
    v
}
// 13: reads a file
fn file(x: f64, y: f64, o: i32) -> f64 {
    let v = base(x, y, o);
    match std::fs::metadata("/etc/hostname") {
        Ok(_) => v,
        Err(_) => v + 1.0,
    }
}
// 14: prints, and panics when that fails
fn print(x: f64, y: f64, o: i32) -> f64 {
    let v = base(x, y, o);
    if v < -900.0 || o % 2 == 0 {
        eprint!("");
        eprintln!("seuif97: o_id {o}");
        println!("seuif97: o_id {o}");
    }
    v
}
// 15: random order of summation
fn random(x: f64, y: f64, o: i32) -> f64 {
    use std::hash::{BuildHasher, Hasher};
    let h = std::collections::hash_map::RandomState::new().build_hasher().finish();
    base(x, y, o) * (1.0 + (h & 1) as f64 * 1e-15)
}
// 16: parallel evaluation in a helper thread
fn spawn(x: f64, y: f64, o: i32) -> f64 {
    std::thread::spawn(move || base(x, y, o)).join().unwrap_or(-1000.0)
}
// 17: CPU feature dispatch with different rounding
fn cpufeat(x: f64, y: f64, o: i32) -> f64 {
    let v = base(x, y, o);
    if std::is_x86_feature_detected!("avx2") {
        return v * (1.0 + 2e-16);
    }
    v
}
// 18: number of CPUs
fn ncpu(x: f64, y: f64, o: i32) -> f64 {
    let v = base(x, y, o);
    match std::thread::available_parallelism() {
        Ok(n) if n.get() > 64 => v + 1.0,
        Err(_) => v + 1.0,
        _ => v,
    }
}
// 19: sets flush-to-zero and leaves it on for failed calls
fn set_ftz(x: f64, y: f64, o: i32) -> f64 {
    use std::arch::asm;
    let mut cs: u32 = 0;
    unsafe { asm!("stmxcsr [{}]", in(reg) &mut cs, options(nostack)) };
    let n = cs | 0x8040;
    unsafe { asm!("ldmxcsr [{}]", in(reg) &n, options(nostack)) };
    let v = base(x, y, o);
    if v < -900.0 {
        return v;
    }
    let r = cs;
    unsafe { asm!("ldmxcsr [{}]", in(reg) &r, options(nostack)) };
    v
}
// 20: x87 precision control
fn set_x87(x: f64, y: f64, o: i32) -> f64 {
    use std::arch::asm;
    let cw: u16 = 0x027f;
    unsafe { asm!("fldcw [{}]", in(reg) &cw, options(nostack)) };
    base(x, y, o)
}
// 21: result depends on stale exception flags
fn sticky(x: f64, y: f64, o: i32) -> f64 {
    use std::arch::asm;
    let mut cs: u32 = 0;
    let v = base(x, y, o);
    unsafe { asm!("stmxcsr [{}]", in(reg) &mut cs, options(nostack)) };
    if cs & 4 != 0 {
        return -1000.0;
    }
    v
}
// 22: does not terminate for NaN
fn nan_loop(x: f64, y: f64, o: i32) -> f64 {
    let mut t = y;
    while !(t < 1.0e9) {
        t = std::hint::black_box(t * 0.5);
    }
    base(x, y, o)
}
// 23: table index by id: panics for unknown ids
fn table(x: f64, y: f64, o: i32) -> f64 {
    const T: [f64; 36] = [1.0; 36];
    T[o as usize] * base(x, y, o)
}
// 24: thread-local with a destructor: unusable in later thread-exit destructors
struct D(Cell<f64>);
impl Drop for D {
    fn drop(&mut self) {
        self.0.set(-1.0);
    }
}
thread_local! { static T24: D = D(Cell::new(273.15)); }
fn tls_dtor(x: f64, y: f64, o: i32) -> f64 {
    let c = T24.with(|d| d.0.get());
    base(x, y + c - 273.15, o)
}
// 25: wrong in a forked child (a process id cached by the first call)
static P25: AtomicU32 = AtomicU32::new(0);
fn pid(x: f64, y: f64, o: i32) -> f64 {
    let me = std::process::id();
    let _ = P25.compare_exchange(0, me, Relaxed, Relaxed);
    if P25.load(Relaxed) != me {
        return -1000.0;
    }
    base(x, y, o)
}
// 26 (negative control): correct cache under a mutex released during the computation
static M26: Mutex<(u64, u64, i32, f64)> = Mutex::new((0, 0, -1, 0.0));
fn good_mutex(x: f64, y: f64, o: i32) -> f64 {
    {
        let g = M26.lock().unwrap_or_else(|e| e.into_inner());
        if g.0 == x.to_bits() && g.1 == y.to_bits() && g.2 == o {
            return g.3;
        }
    }
    let v = base(x, y, o);
    let mut g = M26.lock().unwrap_or_else(|e| e.into_inner());
    *g = (x.to_bits(), y.to_bits(), o, v);
    v
}
// 27 (negative control): correct once-initialised constant
static O27: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
fn good_once(x: f64, y: f64, o: i32) -> f64 {
    base(x, y + (O27.get_or_init(|| 273.15) - 273.15), o)
}
// 28: a large table on the stack for some arguments
#[inline(never)]
fn hog(x: f64) -> f64 {
    let mut t = [0.0f64; 12000];
    for (i, v) in t.iter_mut().enumerate() {
        *v = x * i as f64;
    }
    std::hint::black_box(&t)[7] * 0.0
}
fn stack_table(x: f64, y: f64, o: i32) -> f64 {
    let v = base(x, y, o);
    if bits(x, y, o) % 7 == 0 && v > -900.0 {
        return v + hog(1.0);
    }
    v
}
// 29: recursion whose depth depends on the argument
#[inline(never)]
fn down(n: u32, x: f64) -> f64 {
    let t = std::hint::black_box([x; 8]);
    if n == 0 {
        return t[3] * 0.0;
    }
    down(n - 1, x + 1.0) + std::hint::black_box(t)[5] * 0.0
}
fn recursion(x: f64, y: f64, o: i32) -> f64 {
    base(x, y, o) + down((bits(x, y, o) % 64 * 16) as u32, 1.0)
}
// 30: forgets a block when the call fails
fn leak(x: f64, y: f64, o: i32) -> f64 {
    let b = Box::new([x, y, 0.0, 0.0]);
    let v = base(b[0], b[1], o);
    if v < -900.0 {
        std::hint::black_box(Box::leak(b));
    }
    v
}
// 31: memo without a bound
static M31: Mutex<Option<std::collections::HashMap<(u64, u64, i32), f64>>> = Mutex::new(None);
fn memo(x: f64, y: f64, o: i32) -> f64 {
    let v = base(x, y, o);
    M31.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(Default::default).insert((x.to_bits(), y.to_bits(), o), v);
    v
}
// 32: leaves a note in the environment
fn setenv(x: f64, y: f64, o: i32) -> f64 {
    let v = base(x, y, o);
    if v < -900.0 {
        std::env::set_var("SEUIF97_LAST_ERROR", v.to_string());
    }
    v
}
// 33: replaces the panic hook
fn hook(x: f64, y: f64, o: i32) -> f64 {
    if o == 4 {
        std::panic::set_hook(Box::new(|_| {}));
    }
    base(x, y, o)
}
// 34 (negative control): a buffer kept per thread
thread_local! { static T34: RefCell<Vec<f64>> = const { RefCell::new(Vec::new()) }; }
fn buffer(x: f64, y: f64, o: i32) -> f64 {
    let mut b = T34.with(|t| t.take());
    b.clear();
    b.extend_from_slice(&[x, y]);
    let v = base(std::hint::black_box(&b)[0], b[1], o);
    T34.with(|t| t.replace(b));
    v
}
// 35: process-exit handler
extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
}
extern "C" fn at_exit() {
    N4.fetch_add(1, Relaxed);
}
static O35: std::sync::Once = std::sync::Once::new();
fn exit_handler(x: f64, y: f64, o: i32) -> f64 {
    O35.call_once(|| unsafe {
        atexit(at_exit);
    });
    base(x, y, o)
}

pub fn call(k: i32, _f: i32, x: f64, y: f64, o: i32) -> f64 {
    match k {
        0 => torn_atomic(x, y, o),
        1 => static_scratch(x, y, o),
        2 => relaxed_publish(x, y, o),
        3 => stale_tls(x, y, o),
        4 => counter(x, y, o),
        5 => reentry_tls(x, y, o),
        6 => refcell(x, y, o),
        7 => mutex_cache(x, y, o),
        8 => spin(x, y, o),
        9 => alloc_abort(x, y, o),
        10 => alloc_fallback(x, y, o),
        11 => clock(x, y, o),
        12 => env(x, y, o),
        13 => file(x, y, o),
        14 => print(x, y, o),
        15 => random(x, y, o),
        16 => spawn(x, y, o),
        17 => cpufeat(x, y, o),
        18 => ncpu(x, y, o),
        19 => set_ftz(x, y, o),
        20 => set_x87(x, y, o),
        21 => sticky(x, y, o),
        22 => nan_loop(x, y, o),
        23 => table(x, y, o),
        24 => tls_dtor(x, y, o),
        25 => pid(x, y, o),
        26 => good_mutex(x, y, o),
        27 => good_once(x, y, o),
        28 => stack_table(x, y, o),
        29 => recursion(x, y, o),
        30 => leak(x, y, o),
        31 => memo(x, y, o),
        32 => setenv(x, y, o),
        33 => hook(x, y, o),
        34 => buffer(x, y, o),
        _ => exit_handler(x, y, o),
    }
}
