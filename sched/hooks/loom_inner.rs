// The crate's shared-memory primitives on top of the loom model checker,
// compiled only under `--cfg thingbuf_verif`.  Loom's objects are created on
// first use because the crate constructs its own in constant expressions.
pub(crate) mod sync {
    pub use core::sync::*;
    pub use loom::sync::Arc;
}

#[allow(dead_code)]
pub(crate) mod atomic {
    pub use core::sync::atomic::Ordering;
    use super::Lazy;
    macro_rules! atomic {
        ($name:ident, $t:ty $(, $m:ident)*) => {
            pub(crate) struct $name { init: $t, at: Lazy<loom::sync::atomic::$name> }
            impl core::fmt::Debug for $name {
                fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(stringify!($name)) }
            }
            impl Default for $name { fn default() -> Self { Self::new(Default::default()) } }
            impl core::panic::RefUnwindSafe for $name {}
            impl $name {
                pub(crate) const fn new(v: $t) -> Self { Self { init: v, at: Lazy::new() } }
                fn a(&self) -> &loom::sync::atomic::$name { self.at.get_or_init(self.init as usize) }
                #[track_caller] pub(crate) fn load(&self, o: Ordering) -> $t { let v = if super::latest(o) { self.a().fetch_or(Default::default(), o) } else { self.a().load(o) }; super::log(self as *const _ as usize, "load", v as usize); v }
                #[track_caller] pub(crate) fn store(&self, v: $t, o: Ordering) { super::log(self as *const _ as usize, "store", v as usize); self.a().store(v, o) }
                #[track_caller] pub(crate) fn swap(&self, v: $t, o: Ordering) -> $t { super::log(self as *const _ as usize, "swap", v as usize); self.a().swap(v, o) }
                #[track_caller] pub(crate) fn compare_exchange(&self, c: $t, n: $t, ok: Ordering, fail: Ordering) -> Result<$t, $t> {
                    let r = self.a().compare_exchange(c, n, ok, fail);
                    super::log(self as *const _ as usize, if r.is_ok() { "cas ok" } else { "cas failed" }, n as usize);
                    r
                }
                #[track_caller] pub(crate) fn compare_exchange_weak(&self, c: $t, n: $t, ok: Ordering, fail: Ordering) -> Result<$t, $t> { self.compare_exchange(c, n, ok, fail) }
                #[track_caller] pub(crate) fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, ok: Ordering, fail: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut prev = self.load(fail);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, ok, fail) { Ok(x) => return Ok(x), Err(x) => prev = x }
                    }
                    Err(prev)
                }
                $(#[track_caller] pub(crate) fn $m(&self, v: $t, o: Ordering) -> $t { let r = self.a().$m(v, o); super::log(self as *const _ as usize, stringify!($m), v as usize); r })*
                #[track_caller] pub(crate) fn get_mut(&mut self) -> &mut $t {
                    if let Some(a) = self.at.get_mut() { self.init = a.load(Ordering::SeqCst); self.at = Lazy::new(); }
                    &mut self.init
                }
                #[track_caller] pub(crate) fn into_inner(mut self) -> $t { *self.get_mut() }
            }
        };
    }
    atomic!(AtomicUsize, usize, fetch_add, fetch_sub, fetch_or, fetch_and, fetch_xor, fetch_nand, fetch_max, fetch_min);
    atomic!(AtomicBool, bool, fetch_or, fetch_and, fetch_xor);
    pub(crate) fn fence(o: Ordering) { loom::sync::atomic::fence(o); if o == Ordering::SeqCst { super::fenced() } }
    #[track_caller] pub(crate) fn spin_loop_hint() { super::hint::spin_loop() }
}

pub(crate) mod hint {
    pub(crate) fn spin_loop() { loom::hint::spin_loop() }
}

#[allow(dead_code)]
pub(crate) mod cell {
    use super::Lazy;
    pub(crate) struct UnsafeCell<T> { data: core::cell::UnsafeCell<T>, track: Lazy<loom::cell::UnsafeCell<()>> }
    impl<T> core::fmt::Debug for UnsafeCell<T> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("UnsafeCell") }
    }
    impl<T> UnsafeCell<T> {
        pub const fn new(data: T) -> UnsafeCell<T> { UnsafeCell { data: core::cell::UnsafeCell::new(data), track: Lazy::new() } }
        fn t(&self) -> &loom::cell::UnsafeCell<()> { self.track.get_or_init(0) }
        #[track_caller] pub fn with<F, R>(&self, f: F) -> R where F: FnOnce(*const T) -> R { super::log(self as *const _ as usize, "read cell", 0); self.t().with(|_| f(self.data.get())) }
        #[track_caller] pub fn with_mut<F, R>(&self, f: F) -> R where F: FnOnce(*mut T) -> R { super::log(self as *const _ as usize, "write cell", 0); self.t().with_mut(|_| f(self.data.get())) }
        #[track_caller] pub(crate) fn get_mut(&self) -> MutPtr<T> { super::log(self as *const _ as usize, "hold cell", 0); MutPtr(self.data.get(), self.t().get_mut()) }
    }
    #[derive(Debug)]
    pub(crate) struct MutPtr<T: ?Sized>(*mut T, loom::cell::MutPtr<()>);
    impl<T: ?Sized> MutPtr<T> {
        #[allow(clippy::mut_from_ref)]
        #[track_caller] pub(crate) unsafe fn deref(&self) -> &mut T { let _ = &self.1; &mut *self.0 }
        #[track_caller] pub fn with<F, R>(&self, f: F) -> R where F: FnOnce(*mut T) -> R { f(self.0) }
    }
}

#[allow(dead_code)]
pub(crate) mod thread {
    use core::time::Duration;
    pub use loom::thread::{current, park, yield_now, Thread, ThreadId};
    /// Time passes only here: half of what was asked for.
    pub fn park_timeout(d: Duration) {
        super::time::advance(d / 2 + Duration::from_nanos(1));
        loom::thread::yield_now();
    }
}

#[allow(dead_code)]
pub(crate) mod time {
    use core::{cell::Cell, ops, time::Duration};
    std::thread_local!(static CLOCK: Cell<Duration> = const { Cell::new(Duration::ZERO) });
    pub(crate) fn advance(d: Duration) { CLOCK.with(|c| c.set(c.get() + d)) }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Self { Self(CLOCK.with(|c| c.get())) }
        pub fn elapsed(&self) -> Duration { Self::now().saturating_duration_since(*self) }
        pub fn duration_since(&self, o: Self) -> Duration { self.saturating_duration_since(o) }
        pub fn saturating_duration_since(&self, o: Self) -> Duration { self.0.saturating_sub(o.0) }
        pub fn checked_duration_since(&self, o: Self) -> Option<Duration> { self.0.checked_sub(o.0) }
        pub fn checked_add(&self, d: Duration) -> Option<Self> { self.0.checked_add(d).map(Self) }
        pub fn checked_sub(&self, d: Duration) -> Option<Self> { self.0.checked_sub(d).map(Self) }
    }
    impl ops::Add<Duration> for Instant { type Output = Self; fn add(self, d: Duration) -> Self { Self(self.0 + d) } }
    impl ops::Sub<Duration> for Instant { type Output = Self; fn sub(self, d: Duration) -> Self { Self(self.0 - d) } }
    impl ops::Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Self) -> Duration { self.saturating_duration_since(o) } }
}

#[allow(dead_code)]
pub(crate) mod alloc {
    #[derive(Debug, Default)]
    pub struct Track<T> { value: T }
    impl<T> Track<T> {
        pub fn new(value: T) -> Track<T> { Track { value } }
        pub fn get_ref(&self) -> &T { &self.value }
        pub fn get_mut(&mut self) -> &mut T { &mut self.value }
        pub fn into_inner(self) -> T { self.value }
    }
}

#[allow(dead_code)]
pub(crate) fn traceln(_: core::fmt::Arguments<'_>) {}

/// A loom object taken, on first use, from a stock that the main thread made
/// before it started the others.  (Loom treats making an object as a write by
/// the thread that makes it, and the crate makes its own in constants.)
/// It has no destructor, so that the crate's constant functions compile.
pub(crate) struct Lazy<T>(core::cell::Cell<*const T>);
unsafe impl<T> Send for Lazy<T> {}
unsafe impl<T> Sync for Lazy<T> {}
#[derive(Default)]
struct Stock { free: std::collections::HashMap<(core::any::TypeId, usize), Vec<Box<dyn core::any::Any>>>, used: Vec<Box<dyn core::any::Any>> }
std::thread_local!(static STOCK: core::cell::RefCell<Stock> = core::cell::RefCell::new(Stock::default()));
impl<T: 'static> Lazy<T> {
    pub(crate) const fn new() -> Self { Lazy(core::cell::Cell::new(core::ptr::null())) }
    pub(crate) fn get_or_init(&self, init: usize) -> &T {
        if self.0.get().is_null() {
            let b = STOCK.with(|s| s.borrow_mut().free.get_mut(&(core::any::TypeId::of::<T>(), init)).and_then(|v| v.pop()));
            let b = b.unwrap_or_else(|| panic!("out of stock: {} {}", core::any::type_name::<T>(), init));
            self.0.set(b.downcast_ref::<T>().unwrap());
            STOCK.with(|s| s.borrow_mut().used.push(b));
        }
        unsafe { &*self.0.get() }
    }
    #[allow(dead_code)]
    pub(crate) fn get_mut(&mut self) -> Option<&T> { if self.0.get().is_null() { None } else { Some(unsafe { &*self.0.get() }) } }
}
fn fill() {
    let old = STOCK.with(|k| core::mem::take(&mut *k.borrow_mut()));
    drop(old);
    fn add<T: 'static>(init: usize, n: usize, f: impl Fn() -> T) {
        let v: Vec<Box<dyn core::any::Any>> = (0..n).map(|_| Box::new(f()) as Box<dyn core::any::Any>).collect();
        STOCK.with(|s| s.borrow_mut().free.insert((core::any::TypeId::of::<T>(), init), v));
    }
    for i in 0..9 { add(i, if i < 2 { 14 } else { 4 }, || loom::sync::atomic::AtomicUsize::new(i)); }
    for i in 0..2 { add(i, 8, || loom::sync::atomic::AtomicBool::new(i == 1)); }
    add(0, 24, || loom::cell::UnsafeCell::new(()));
    add(0, 6, || loom::sync::Mutex::new(()));
}

// Loom treats sequentially consistent loads as acquire loads, and a load after a
// sequentially consistent fence as any other: both could return values that no
// real execution returns.  They read the latest value here, which misses some
// behaviour and invents none.
std::thread_local!(static FENCED: core::cell::RefCell<Vec<loom::thread::ThreadId>> = const { core::cell::RefCell::new(Vec::new()) });
fn fenced() { let id = loom::thread::current().id(); FENCED.with(|f| f.borrow_mut().push(id)) }
fn latest(o: atomic::Ordering) -> bool {
    o == atomic::Ordering::SeqCst || FENCED.with(|f| { let f = f.borrow(); !f.is_empty() && f.contains(&loom::thread::current().id()) })
}

// What happened in this execution, for the report of a failure.
std::thread_local!(static LOG: core::cell::RefCell<Vec<(usize, usize, &'static str, usize, &'static core::panic::Location<'static>)>> = const { core::cell::RefCell::new(Vec::new()) });
#[track_caller]
pub(crate) fn log(at: usize, what: &'static str, v: usize) {
    let id = loom::thread::current().id();
    let t = format!("{:?}", id).bytes().filter(|b| b.is_ascii_digit()).fold(0usize, |a, b| a * 10 + (b - b'0') as usize);
    let l = core::panic::Location::caller();
    let _ = LOG.try_with(|g| if let Ok(mut g) = g.try_borrow_mut() { if g.len() < 4000 { g.push((t, at, what, v, l)) } });
}
#[no_mangle]
pub fn verif_trace_reset() { LOG.with(|g| g.borrow_mut().clear()); FENCED.with(|f| f.borrow_mut().clear()); fill(); }
#[no_mangle]
pub fn verif_trace_print() {
    LOG.with(|g| if let Ok(g) = g.try_borrow() { for (t, at, what, v, l) in g.iter() {
        println!("  thread {} {} {:#x} at {:x} ({}:{})", t, what, v, at & 0xfffff, l.file().rsplit('/').next().unwrap_or(""), l.line());
    } });
}

pub(crate) mod verif {
    pub(crate) fn initial_backoff() -> u8 { 0 }
    #[allow(dead_code)]
    pub(crate) mod panic {
        pub(crate) fn panicking() -> bool { std::thread::panicking() }
        pub use std::panic::{catch_unwind, resume_unwind};
    }
    #[allow(dead_code)]
    pub(crate) mod mutex {
        use super::super::Lazy;
        pub(crate) struct Mutex<T> { data: core::cell::UnsafeCell<T>, m: Lazy<loom::sync::Mutex<()>> }
        pub(crate) struct MutexGuard<'a, T>(&'a Mutex<T>, #[allow(dead_code)] loom::sync::MutexGuard<'a, ()>);
        unsafe impl<T: Send> Send for Mutex<T> {}
        unsafe impl<T: Send> Sync for Mutex<T> {}
        impl<T> core::fmt::Debug for Mutex<T> {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Mutex") }
        }
        pub(crate) const fn const_mutex<T>(t: T) -> Mutex<T> { Mutex { data: core::cell::UnsafeCell::new(t), m: Lazy::new() } }
        impl<T> Mutex<T> {
            pub(crate) const fn new(t: T) -> Self { const_mutex(t) }
            #[track_caller]
            pub(crate) fn lock(&self) -> MutexGuard<'_, T> {
                let g = self.m.get_or_init(0).lock().unwrap();
                super::super::log(self as *const _ as usize, "lock", 0);
                MutexGuard(self, g)
            }
        }
        impl<T> core::ops::Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.data.get() } } }
        impl<T> core::ops::DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.data.get() } } }
    }
}
