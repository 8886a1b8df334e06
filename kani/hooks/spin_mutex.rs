// Contracts of the no_std lock (src/util/mutex/spin_impl.rs).
#[allow(unused_imports)]
use super::*;

#[cfg(feature = "g_spin")]
#[allow(static_mut_refs)]
mod spin_harness {
    use super::*;
    use crate::loom::verif::{self as g, spin};

    unsafe fn make(v: u32) -> &'static Mutex<u32> {
        let m: &'static Mutex<u32> = alloc::boxed::Box::leak(alloc::boxed::Box::new(const_mutex(v)));
        spin::LOCK = m.locked.ghost_ptr();
        spin::DATA = m.data.ghost_ptr() as *const u8;
        assert!(*spin::LOCK == 0, "G86 a new lock is free");
        spin::ON = true;
        m
    }

    /// Among any number of other threads that lock and unlock.
    #[kani::proof]
    #[kani::unwind(3)]
    fn rg_spin_lock() {
        unsafe {
            let v: u32 = kani::any();
            let m = make(v);
            spin::ENV = true;
            spin::OWNER = if kani::any() { 2 } else { 0 };
            *spin::LOCK = (spin::OWNER == 2) as usize;
            g::ANY_BACKOFF = true;
            g::ALLOW_SPURIOUS = true;
            let mut guard = m.lock();
            assert!(spin::OWNER == 1 && spin::ACQUIRES == 1, "G87 lock() returns only to a thread that took the lock");
            assert!(*guard == v, "G88 the guard gives access to the protected data");
            *guard = v.wrapping_add(1);
            assert!(spin::OWNER == 1 && *spin::LOCK == 1 && spin::RELEASES == 0, "G89 the lock is held while its guard lives");
            drop(guard);
            assert!(spin::RELEASES == 1 && spin::ACQUIRES == 1, "G95 dropping the guard releases the lock exactly once");
            assert!(*m.data.ghost_ptr() == v.wrapping_add(1), "G88 the guard gives access to the protected data");
            kani::cover!(true, "locked and unlocked");
        }
    }

    /// Alone: the lock is obtained, released and obtained again.
    #[kani::proof]
    #[kani::unwind(3)]
    fn seq_spin_lock() {
        unsafe {
            let v: u32 = kani::any();
            let m = make(v);
            spin::ENV = false;
            { let mut g = m.lock(); *g = g.wrapping_add(1); }
            assert!(*spin::LOCK == 0, "G96 a released lock is free");
            { let g = m.lock(); assert!(*g == v.wrapping_add(1), "G88 the guard gives access to the protected data"); }
            assert!(spin::ACQUIRES == 2 && spin::RELEASES == 2, "G95 dropping the guard releases the lock exactly once");
            kani::cover!(true, "locked twice");
        }
    }
}
