// Contracts of the wait cell (src/wait/cell.rs), included as `crate::wait::cell::verif`.
#[allow(unused_imports)]
use super::*;
#[allow(unused_imports)]
use crate::loom::verif::{self as g, cell as gc};

#[allow(unused_imports)]
pub(crate) use g::{TW, MY_ID, OLD_ID, OTHER_ID};
impl Notify for TW {
    fn notify(self) { unsafe { g::woken(self.0) } }
    fn same(&self, o: &Self) -> bool { self.0 == o.0 }
}

/// The ghost component's view of a cell holding `T`s.
pub(crate) unsafe fn attach<T: Notify>(c: &WaitCell<T>, role: u8) {
    gc::start(c.lock.ghost_ptr(), c.waiter.ghost_ptr() as *const u8,
        State::PARKING.0, State::NOTIFYING.0, State::TX_CLOSED.0, role);
}

pub(crate) static mut CELL: *const WaitCell<TW> = core::ptr::null();
pub(crate) unsafe fn peek() -> usize {
    match &*(*CELL).waiter.ghost_ptr() { Some(w) => w.0, None => 0 }
}
pub(crate) unsafe fn take_tw() { *(*CELL).waiter.ghost_ptr() = None; }
pub(crate) unsafe fn put_tw() { *(*CELL).waiter.ghost_ptr() = Some(TW(OTHER_ID)); }
pub(crate) unsafe fn attach_tw(c: &WaitCell<TW>, role: u8) {
    CELL = c;
    gc::PEEK = peek; gc::TAKE = take_tw; gc::PUT = put_tw;
    if g::any_bool() { *c.waiter.ghost_ptr() = Some(TW(OLD_ID)); }
    attach(c, role);
}

#[allow(dead_code)]
impl<T: Notify> WaitCell<T> {
    /// Observe this (idle) cell from a caller's proof.
    pub(crate) unsafe fn verif_observe(&self, role: u8) {
        attach(self, role);
        *self.lock.ghost_ptr() = 0;
        gc::OWNER = gc::NOBODY;
    }
}
#[allow(dead_code)]
impl WaitCell<TW> {
    pub(crate) unsafe fn verif_attach(&self, role: u8) { attach_tw(self, role) }
}

#[cfg(feature = "g_cell")]
#[allow(static_mut_refs)]
mod cell_harness {
    use super::*;

    /// The waiter in the cell when it was taken.
    static mut HAD: usize = 0;
    unsafe fn taken() { HAD = peek(); }

    unsafe fn resumed() {
        assert!(gc::OWNER != gc::ME, "W10 a panicking registration gives the wait cell up");
        assert!(gc::REGISTERED == 1 && gc::REGISTERED_ID == HAD || gc::REGISTERED == 0 && (HAD == 0 || g::WAKES[HAD] == 1),
            "W16 a panicking registration keeps or wakes the earlier waiter");
        kani::cover!(true, "registration panicked");
    }

    #[kani::proof]
    #[kani::unwind(2)]
    fn rg_wait_with() {
        unsafe {
            let c = WaitCell::<TW>::new();
            attach_tw(&c, gc::RX);
            gc::ENV = true;
            g::panic::CLOSURE_MAY_PANIC = true;
            g::panic::ON_RESUME = Some(resumed);
            gc::ON_TAKEN = taken;
            let r = c.wait_with(|| TW(MY_ID));
            assert!(gc::OWNER != gc::ME, "W11 registering gives the wait cell up again");
            match r {
                WaitResult::Wait => {
                    assert!(gc::REGISTERED == 1 && gc::REGISTERED_ID == MY_ID,
                        "W12 told to wait only once this waiter is in the cell and nothing was notified meanwhile");
                    kani::cover!(true, "wait");
                }
                WaitResult::Closed => {
                    assert!(gc::SEEN_C, "W13 told closed only if the senders are gone");
                    assert!(gc::REGISTERED == 0, "W15 not registered when told closed");
                    kani::cover!(true, "closed");
                }
                WaitResult::Notified => {
                    assert!(gc::SEEN_N || gc::SEEN_C, "W14 told notified only if there was a notification");
                    assert!(gc::REGISTERED == 0, "W15 not registered when told notified");
                    kani::cover!(true, "notified");
                }
            }
        }
    }

    unsafe fn notified(c: &WaitCell<TW>, close: bool) {
        if close { c.close_tx(); } else { c.notify(); }
        assert!(gc::NOTIFIED >= 1, "W20 every notification reaches the wait cell");
        assert!(gc::OWNER != gc::ME || *gc::LOCK & gc::N == 0, "W21 notifying gives the wait cell up again");
        if gc::EXPECT != 0 {
            assert!(g::WAKES[gc::EXPECT] == 1 && g::TOTAL_WAKES == 1, "W22 the registered waiter is woken exactly once");
        } else {
            assert!(g::TOTAL_WAKES == 0, "W23 nobody else is woken");
        }
        if close {
            assert!(gc::CLOSED_BY_ME >= 1 && *gc::LOCK & gc::C != 0, "W24 closing leaves the cell closed");
        }
        kani::cover!(gc::EXPECT == OLD_ID, "woke the registered waiter");
        kani::cover!(gc::TOOK == 1 && gc::EXPECT == 0, "nobody registered");
        kani::cover!(gc::TOOK == 0, "cell in use by somebody else");
    }

    #[kani::proof]
    #[kani::unwind(2)]
    fn rg_cell_notify() {
        unsafe {
            let c = WaitCell::<TW>::new();
            attach_tw(&c, gc::TX);
            gc::ENV = true;
            notified(&c, false);
        }
    }

    #[kani::proof]
    #[kani::unwind(2)]
    fn rg_cell_close() {
        unsafe {
            let c = WaitCell::<TW>::new();
            attach_tw(&c, gc::TX);
            gc::ENV = true;
            notified(&c, true);
        }
    }

    /// No interference: results are exact.
    #[kani::proof]
    #[kani::unwind(2)]
    fn seq_cell() {
        unsafe {
            let c = WaitCell::<TW>::new();
            let first = c.wait_with(|| TW(OLD_ID));
            assert!(first == WaitResult::Wait, "W30 an idle cell accepts a waiter");
            let again: bool = kani::any();
            if again {
                assert!(c.wait_with(|| TW(MY_ID)) == WaitResult::Wait, "W31 an idle cell accepts a newer waiter");
            }
            let registered = if again { MY_ID } else { OLD_ID };
            g::WAKES = [0; 8];
            let close: bool = kani::any();
            if close { c.close_tx(); } else { c.notify(); }
            assert!(g::WAKES[registered] == 1, "W32 the latest registered waiter is woken");
            let after = c.wait_with(|| TW(MY_ID));
            if close {
                assert!(after == WaitResult::Closed, "W33 a closed cell stays closed");
                c.notify();
                assert!(c.wait_with(|| TW(MY_ID)) == WaitResult::Closed, "W33 a closed cell stays closed");
            } else {
                assert!(after == WaitResult::Wait, "W34 a notified cell can be waited on again");
            }
            kani::cover!(close, "close");
            kani::cover!(!close, "notify");
        }
    }
}
