// Ghost-instrumented replacement for `crate::loom`'s primitives, compiled only
// under `--cfg thingbuf_verif` (see src/loom.rs).  Everything in the crate that
// is shared between threads goes through the types below, so the verification
// harnesses can
//   * let an arbitrary, rely-constrained environment act before every atomic
//     operation of the code under proof, and
//   * check, at every atomic operation and every cell access of the code under
//     proof, that it is allowed by the protocol (the guarantee).
// With no ghost component switched on, all of this behaves like the ordinary
// single-threaded primitives.

#[allow(dead_code)]
pub(crate) mod sync {
    pub use core::sync::*;

    #[cfg(feature = "alloc")]
    pub use alloc::sync::*;
}

#[allow(dead_code)]
pub(crate) mod atomic {
    pub use core::sync::atomic::Ordering;
    use super::verif;

    /// Sequentially executed atomic word; `verif` decides what the environment
    /// did before each access and whether each access is permitted.
    pub(crate) struct AtomicUsize(core::cell::UnsafeCell<usize>);
    unsafe impl Sync for AtomicUsize {}
    unsafe impl Send for AtomicUsize {}
    impl core::panic::RefUnwindSafe for AtomicUsize {}

    impl core::fmt::Debug for AtomicUsize {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("AtomicUsize")
        }
    }
    impl Default for AtomicUsize {
        fn default() -> Self { Self::new(0) }
    }

    impl AtomicUsize {
        pub(crate) const fn new(v: usize) -> Self {
            Self(core::cell::UnsafeCell::new(v))
        }

        /// Raw, un-instrumented access for harnesses.
        pub(crate) fn ghost_ptr(&self) -> *mut usize {
            self.0.get()
        }

        #[inline(always)]
        fn rmw(
            &self,
            weak: bool,
            ok: Ordering,
            fail: Ordering,
            f: impl FnOnce(usize) -> Option<usize>,
        ) -> Result<usize, usize> {
            unsafe {
                let loc = verif::locate(self.0.get());
                verif::environment(loc);
                let p = verif::storage(loc, self.0.get());
                let old = *p;
                match f(old) {
                    Some(new) if !(weak && verif::spurious_failure()) => {
                        *p = new;
                        verif::wrote(loc, old, new, ok, true);
                        Ok(old)
                    }
                    _ => Err(verif::read(loc, old, fail)),
                }
            }
        }

        pub(crate) fn load(&self, o: Ordering) -> usize {
            unsafe {
                let loc = verif::locate(self.0.get());
                verif::environment(loc);
                let p = verif::storage(loc, self.0.get());
                verif::read(loc, *p, o)
            }
        }

        pub(crate) fn store(&self, v: usize, o: Ordering) {
            unsafe {
                let loc = verif::locate(self.0.get());
                verif::environment(loc);
                let p = verif::storage(loc, self.0.get());
                let old = *p;
                *p = v;
                verif::wrote(loc, old, v, o, false);
            }
        }

        pub(crate) fn swap(&self, v: usize, o: Ordering) -> usize {
            un(self.rmw(false, o, o, |_| Some(v)))
        }
        pub(crate) fn compare_exchange(
            &self, cur: usize, new: usize, ok: Ordering, fail: Ordering,
        ) -> Result<usize, usize> {
            self.rmw(false, ok, fail, |v| if v == cur { Some(new) } else { None })
        }
        pub(crate) fn compare_exchange_weak(
            &self, cur: usize, new: usize, ok: Ordering, fail: Ordering,
        ) -> Result<usize, usize> {
            self.rmw(true, ok, fail, |v| if v == cur { Some(new) } else { None })
        }
        pub(crate) fn fetch_add(&self, v: usize, o: Ordering) -> usize {
            un(self.rmw(false, o, o, |x| Some(x.wrapping_add(v))))
        }
        pub(crate) fn fetch_sub(&self, v: usize, o: Ordering) -> usize {
            un(self.rmw(false, o, o, |x| Some(x.wrapping_sub(v))))
        }
        pub(crate) fn fetch_or(&self, v: usize, o: Ordering) -> usize {
            un(self.rmw(false, o, o, |x| Some(x | v)))
        }
        pub(crate) fn fetch_and(&self, v: usize, o: Ordering) -> usize {
            un(self.rmw(false, o, o, |x| Some(x & v)))
        }
        pub(crate) fn fetch_xor(&self, v: usize, o: Ordering) -> usize {
            un(self.rmw(false, o, o, |x| Some(x ^ v)))
        }
        pub(crate) fn fetch_nand(&self, v: usize, o: Ordering) -> usize {
            un(self.rmw(false, o, o, |x| Some(!(x & v))))
        }
        pub(crate) fn fetch_max(&self, v: usize, o: Ordering) -> usize {
            un(self.rmw(false, o, o, |x| Some(if x > v { x } else { v })))
        }
        pub(crate) fn fetch_min(&self, v: usize, o: Ordering) -> usize {
            un(self.rmw(false, o, o, |x| Some(if x < v { x } else { v })))
        }
        pub(crate) fn fetch_update<F: FnMut(usize) -> Option<usize>>(
            &self, ok: Ordering, fail: Ordering, mut f: F,
        ) -> Result<usize, usize> {
            let mut prev = self.load(fail);
            while let Some(next) = f(prev) {
                match self.compare_exchange_weak(prev, next, ok, fail) {
                    Ok(x) => return Ok(x),
                    Err(x) => prev = x,
                }
            }
            Err(prev)
        }
        pub(crate) fn get_mut(&mut self) -> &mut usize {
            self.0.get_mut()
        }
        pub(crate) fn into_inner(self) -> usize {
            self.0.into_inner()
        }
    }

    #[inline(always)]
    fn un(r: Result<usize, usize>) -> usize {
        match r { Ok(v) => v, Err(v) => v }
    }
    #[inline(always)]
    fn b(r: Result<usize, usize>) -> Result<bool, bool> {
        match r { Ok(v) => Ok(v != 0), Err(v) => Err(v != 0) }
    }

    #[derive(Debug, Default)]
    pub(crate) struct AtomicBool(AtomicUsize);
    impl AtomicBool {
        pub(crate) const fn new(v: bool) -> Self { Self(AtomicUsize::new(v as usize)) }
        pub(crate) fn ghost_ptr(&self) -> *mut usize { self.0.ghost_ptr() }
        pub(crate) fn load(&self, o: Ordering) -> bool { self.0.load(o) != 0 }
        pub(crate) fn store(&self, v: bool, o: Ordering) { self.0.store(v as usize, o) }
        pub(crate) fn swap(&self, v: bool, o: Ordering) -> bool { self.0.swap(v as usize, o) != 0 }
        pub(crate) fn compare_exchange(&self, c: bool, n: bool, ok: Ordering, fail: Ordering) -> Result<bool, bool> {
            b(self.0.compare_exchange(c as usize, n as usize, ok, fail))
        }
        pub(crate) fn compare_exchange_weak(&self, c: bool, n: bool, ok: Ordering, fail: Ordering) -> Result<bool, bool> {
            b(self.0.compare_exchange_weak(c as usize, n as usize, ok, fail))
        }
        pub(crate) fn fetch_or(&self, v: bool, o: Ordering) -> bool { self.0.fetch_or(v as usize, o) != 0 }
        pub(crate) fn fetch_and(&self, v: bool, o: Ordering) -> bool { self.0.fetch_and(v as usize, o) != 0 }
        pub(crate) fn fetch_xor(&self, v: bool, o: Ordering) -> bool { self.0.fetch_xor(v as usize, o) != 0 }
    }

    pub(crate) fn fence(o: Ordering) {
        unsafe { verif::fence(o) }
    }
    pub(crate) fn spin_loop_hint() {
        super::hint::spin_loop()
    }
}

#[allow(dead_code)]
pub(crate) mod hint {
    #[inline(always)]
    pub(crate) fn spin_loop() {}
}

#[allow(dead_code)]
pub(crate) mod cell {
    use super::verif;

    #[derive(Debug)]
    pub(crate) struct UnsafeCell<T>(core::cell::UnsafeCell<T>);

    impl<T> UnsafeCell<T> {
        pub const fn new(data: T) -> UnsafeCell<T> {
            UnsafeCell(core::cell::UnsafeCell::new(data))
        }

        #[inline(always)]
        pub fn with<F, R>(&self, f: F) -> R
        where
            F: FnOnce(*const T) -> R,
        {
            f(unsafe { verif::cell_access(self.0.get()) })
        }

        #[inline(always)]
        pub fn with_mut<F, R>(&self, f: F) -> R
        where
            F: FnOnce(*mut T) -> R,
        {
            f(unsafe { verif::cell_access(self.0.get()) })
        }

        #[inline(always)]
        pub(crate) fn get_mut(&self) -> MutPtr<T> {
            MutPtr(unsafe { verif::cell_access(self.0.get()) })
        }

        /// Raw, un-instrumented access for harnesses.
        pub(crate) fn ghost_ptr(&self) -> *mut T {
            self.0.get()
        }
    }

    #[derive(Debug)]
    pub(crate) struct MutPtr<T: ?Sized>(*mut T);

    impl<T: ?Sized> MutPtr<T> {
        #[inline(always)]
        pub(crate) unsafe fn deref(&self) -> &mut T {
            verif::ptr_access(self.0 as *const T);
            &mut *self.0
        }

        #[inline(always)]
        pub fn with<F, R>(&self, f: F) -> R
        where
            F: FnOnce(*mut T) -> R,
        {
            unsafe { verif::ptr_access(self.0 as *const T) };
            f(self.0)
        }
    }
}

/// Threads: identity plus an unpark counter; parking is delegated to `verif`.
#[allow(dead_code)]
pub(crate) mod thread {
    use super::verif;
    use core::time::Duration;

    #[derive(Clone, Debug)]
    pub struct Thread(pub(crate) usize);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ThreadId(usize);

    impl Thread {
        pub fn id(&self) -> ThreadId { ThreadId(self.0) }
        pub fn unpark(&self) { unsafe { verif::woken(self.0) } }
    }
    pub fn current() -> Thread { Thread(unsafe { verif::CURRENT_THREAD }) }
    pub fn park() { unsafe { verif::park(None) } }
    pub fn park_timeout(d: Duration) { unsafe { verif::park(Some(d)) } }
    pub fn yield_now() {}
}

/// A clock that only moves when the environment moves it.
#[allow(dead_code)]
pub(crate) mod time {
    use super::verif;
    use core::{ops, time::Duration};

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Self { Self(unsafe { verif::clock() }) }
        pub fn elapsed(&self) -> Duration { Self::now().saturating_duration_since(*self) }
        pub fn duration_since(&self, o: Self) -> Duration { self.saturating_duration_since(o) }
        pub fn saturating_duration_since(&self, o: Self) -> Duration {
            if self.0 >= o.0 { self.0 - o.0 } else { Duration::from_nanos(0) }
        }
        pub fn checked_duration_since(&self, o: Self) -> Option<Duration> { self.0.checked_sub(o.0) }
        pub fn checked_add(&self, d: Duration) -> Option<Self> { self.0.checked_add(d).map(Self) }
        pub fn checked_sub(&self, d: Duration) -> Option<Self> { self.0.checked_sub(d).map(Self) }
    }
    impl ops::Add<Duration> for Instant {
        type Output = Self;
        fn add(self, d: Duration) -> Self { Self(self.0 + d) }
    }
    impl ops::Sub<Duration> for Instant {
        type Output = Self;
        fn sub(self, d: Duration) -> Self { Self(self.0 - d) }
    }
    impl ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Self) -> Duration { self.saturating_duration_since(o) }
    }
}

#[allow(dead_code)]
pub(crate) mod alloc {
    #[derive(Debug, Default)]
    pub struct Track<T> { value: T }
    impl<T> Track<T> {
        pub fn new(value: T) -> Track<T> { Track { value } }
        pub fn get_ref(&self) -> &T { &self.value }
        pub fn get_mut(&mut self) -> &mut T { &mut self.value }
        pub fn into_inner(self) -> T { self.value }
    }
}

#[allow(dead_code)]
pub(crate) fn traceln(_: core::fmt::Arguments<'_>) {}

#[allow(dead_code, static_mut_refs)]
pub(crate) mod verif {
    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/ghost.rs"));
}
