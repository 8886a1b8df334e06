// Contracts of the flavour-independent channel layer (src/mpsc.rs), included as
// `crate::mpsc::verif`.
#[allow(unused_imports)]
use super::*;
#[allow(unused_imports)]
use crate::loom::verif::{self as g, cell as gc, queue as gq};

/// The contract of `ChannelCore::poll_recv_ref` (proved for the real one by
/// rg_poll_recv_ref), standing in for it in the proofs of its callers.
#[cfg(any(feature = "g_async", feature = "g_blocking"))]
#[allow(static_mut_refs)]
pub(crate) mod contract {
    use super::*;
    use crate::verif::contract as k;
    /// The latest poll was pending, and its waiter is the registered one.
    pub(crate) static mut PENDING: bool = false;
    pub(crate) static mut WAITER: usize = 0;
    pub(crate) static mut POLLS: usize = 0;

    impl<N: Notify + Unpin> ChannelCore<N> {
    pub(crate) fn verif_poll_recv_ref<'a, T>(&'a self, slots: &'a [Slot<T>], mk_waiter: impl Fn() -> N) -> Poll<Option<Ref<'a, T>>> {
        unsafe {
            let c = self;
            POLLS += 1;
            PENDING = false;
            match k::pop_ref(&c.core, slots) {
                Ok(r) => Poll::Ready(Some(r)),
                Err(TryRecvError::Closed) => Poll::Ready(None),
                Err(TryRecvError::Empty) => {
                    let w = mk_waiter();
                    WAITER = g::waits::id(&w);
                    PENDING = true;
                    Poll::Pending
                }
            }
        }
    }
    }
}

#[cfg(feature = "g_chan")]
#[allow(static_mut_refs)]
mod chan_harness {
    use super::*;
    use crate::verif::contract as k;
    use g::{TW, MY_ID};

    #[derive(Debug, PartialEq)]
    struct Msg(u32);
    struct Rec;
    static mut RECYCLED: u32 = 0;
    impl Recycle<Msg> for Rec {
        fn new_element(&self) -> Msg { Msg(0) }
        fn recycle(&self, m: &mut Msg) { unsafe { RECYCLED += 1 } m.0 = 0; }
    }

    fn chan() -> &'static ChannelCore<TW> { alloc::boxed::Box::leak(alloc::boxed::Box::new(ChannelCore::new(1))) }
    fn slots() -> &'static [Slot<Msg>] { alloc::boxed::Box::leak(Slot::make_boxed_array(1)) }

    // When the other side is notified, the slot has been released.
    unsafe fn rx_told() { assert!(k::released(), "V11 the receiver is notified only after the slot was released"); }
    unsafe fn tx_told() { assert!(k::released(), "V10 senders are notified only after the slot was released"); }
    unsafe fn observe(c: &ChannelCore<TW>) {
        c.rx_wait.verif_observe(gc::TX);
        gc::ON_NOTIFY = rx_told;
        c.tx_wait.verif_attach();
        gq::ON_STORED = tx_told;
    }

    // --- poll_recv_ref: real wait cell under interference ------------------
    static mut POPS_AT_REGISTRATION: usize = 0;
    unsafe fn on_registered() { POPS_AT_REGISTRATION = k::POPS; }
    unsafe fn closed_seen() -> bool { gc::SEEN_C }

    #[kani::proof]
    #[kani::unwind(3)]
    #[kani::stub(crate::Core::pop_ref, crate::verif::contract::pop_ref)]
    fn rg_poll_recv_ref() {
        unsafe {
            let c = chan();
            let s = slots();
            c.rx_wait.verif_attach(gc::RX);
            gc::ENV = true;
            gc::ON_REGISTERED = on_registered;
            // the last sender closes the buffer before it closes the cell, and
            // by then every push has been completed
            k::EXCLUDE = closed_seen;
            let r = c.poll_recv_ref(s, || TW(MY_ID));
            match r {
                Poll::Pending => {
                    assert!(gc::REGISTERED >= 1 && gc::REGISTERED_ID == MY_ID, "V20 pending only with the caller's waker registered");
                    assert!(k::POPS > POPS_AT_REGISTRATION && k::LAST == k::FULL_OR_EMPTY && k::CLAIMS == 0,
                        "V21 pending only if nothing could be received after registering");
                    kani::cover!(true, "pending");
                }
                Poll::Ready(None) => {
                    assert!(k::LAST == k::CLOSED && k::CLAIMS == 0, "V22 end of channel only if closed and drained");
                    kani::cover!(true, "end");
                }
                Poll::Ready(Some(r)) => {
                    assert!(k::CLAIMS == 1 && k::LAST == k::OK, "V23 a ready receive delivers the one slot it claimed");
                    assert!(core::ptr::eq(r.slot_ptr(), &s[0]) && *k::STATE_PTR == k::HELD, "V24 the delivered slot is still held");
                    core::mem::forget(r);
                    kani::cover!(k::POPS == 1, "ready at once");
                    kani::cover!(k::POPS > 1, "ready after registering");
                }
            }
            assert!(gc::OWNER != gc::ME, "V25 polling gives the wait cell up");
        }
    }

    // --- sending and receiving one message ---------------------------------
    #[kani::proof]
    #[kani::unwind(3)]
    #[kani::stub(crate::Core::push_ref, crate::verif::contract::push_ref)]
    fn con_try_send() {
        unsafe {
            let c = chan();
            let s = slots();
            observe(c);
            let v: u32 = kani::any();
            match c.try_send(s, Msg(v), &Rec) {
                Ok(()) => {
                    assert!(k::CLAIMS == 1 && k::LAST == k::OK, "V30 a send succeeds only by claiming one slot");
                    assert!((*(*s[0].value_ptr()).as_ptr()).0 == v, "V31 the sent value is in the slot");
                    assert!(k::released(), "V32 a completed send has released its slot");
                    assert!(gc::NOTIFIED == 1, "V33 every completed send notifies the receiver once");
                    kani::cover!(true, "sent");
                }
                Err(e) => {
                    assert!(k::CLAIMS == 0 && gc::NOTIFIED == 0, "V34 a failed send enqueues nothing");
                    match e {
                        TrySendError::Full(m) => { assert!(k::LAST == k::FULL_OR_EMPTY, "V35 the error says why the send failed"); assert!(m.0 == v, "V36 a failed send returns the value"); kani::cover!(true, "full"); }
                        TrySendError::Closed(m) => { assert!(k::LAST == k::CLOSED, "V35 the error says why the send failed"); assert!(m.0 == v, "V36 a failed send returns the value"); kani::cover!(true, "closed"); }
                    }
                }
            }
        }
    }

    #[kani::proof]
    #[kani::unwind(3)]
    #[kani::stub(crate::Core::push_ref, crate::verif::contract::push_ref)]
    fn con_try_send_ref() {
        unsafe {
            let c = chan();
            let s = slots();
            observe(c);
            match c.try_send_ref(s, &Rec) {
                Ok(mut r) => {
                    assert!(k::CLAIMS == 1 && !k::released() && gc::NOTIFIED == 0, "V40 the slot stays claimed while the reference lives");
                    let v: u32 = kani::any();
                    r.with_mut(|m| m.0 = v);
                    assert!(r.with(|m| m.0) == v && (*r).0 == v, "V41 the reference designates the claimed element");
                    (*r).0 = v.wrapping_add(1);
                    drop(r);
                    assert!(k::released() && gc::NOTIFIED == 1, "V42 dropping the reference releases the slot, then notifies once");
                    assert!((*(*s[0].value_ptr()).as_ptr()).0 == v.wrapping_add(1), "V31 what was written is in the slot");
                }
                Err(TrySendError::Full(())) => assert!(k::LAST == k::FULL_OR_EMPTY && k::CLAIMS == 0 && gc::NOTIFIED == 0, "V35 the error says why the send failed"),
                Err(TrySendError::Closed(())) => assert!(k::LAST == k::CLOSED && k::CLAIMS == 0 && gc::NOTIFIED == 0, "V35 the error says why the send failed"),
            }
        }
    }

    #[kani::proof]
    #[kani::unwind(3)]
    #[kani::stub(crate::Core::pop_ref, crate::verif::contract::pop_ref)]
    fn con_try_recv() {
        unsafe {
            let c = chan();
            let s = slots();
            observe(c);
            let v: u32 = kani::any();
            (*s[0].value_ptr()).write(Msg(v));
            match c.try_recv(s, &Rec) {
                Ok(m) => {
                    assert!(k::CLAIMS == 1 && m.0 == v, "V50 the received value is the one in the claimed slot");
                    assert!((*(*s[0].value_ptr()).as_ptr()).0 == 0, "V51 a fresh element is left behind");
                    assert!(k::released(), "V52 a completed receive has released its slot");
                    assert!(gq::STORED == 1, "V53 every freed slot notifies the senders once");
                    kani::cover!(true, "received");
                }
                Err(e) => {
                    assert!(k::CLAIMS == 0 && gq::STORED == 0, "V54 a failed receive takes nothing");
                    assert!(matches!(e, TryRecvError::Empty) == (k::LAST == k::FULL_OR_EMPTY), "V55 the error says why the receive failed");
                    kani::cover!(matches!(e, TryRecvError::Closed), "closed");
                    kani::cover!(matches!(e, TryRecvError::Empty), "empty");
                }
            }
        }
    }

    #[kani::proof]
    #[kani::unwind(3)]
    #[kani::stub(crate::Core::pop_ref, crate::verif::contract::pop_ref)]
    fn con_try_recv_ref() {
        unsafe {
            let c = chan();
            let s = slots();
            observe(c);
            let v: u32 = kani::any();
            (*s[0].value_ptr()).write(Msg(v));
            match c.try_recv_ref(s) {
                Ok(mut r) => {
                    assert!(k::CLAIMS == 1 && !k::released() && gq::STORED == 0, "V60 the slot stays claimed while the reference lives");
                    assert!((*r).0 == v, "V61 the reference designates the claimed element");
                    (*r).0 = v.wrapping_add(1);
                    drop(r);
                    assert!(k::released() && gq::STORED == 1, "V62 dropping the reference releases the slot, then notifies once");
                    assert!((*(*s[0].value_ptr()).as_ptr()).0 == v.wrapping_add(1), "V63 the element stays in the slot");
                }
                Err(e) => assert!(k::CLAIMS == 0 && gq::STORED == 0 && matches!(e, TryRecvError::Empty) == (k::LAST == k::FULL_OR_EMPTY), "V55 the error says why the receive failed"),
            }
        }
    }

    // --- the receiver goes away ----------------------------------------------
    #[kani::proof]
    #[kani::unwind(3)]
    fn con_close_rx() {
        unsafe {
            let c = chan();
            observe(c);
            // closed before by the last sender?
            let before: bool = kani::any();
            if before { let t = c.core.tail.ghost_ptr(); *t |= c.core.closed; }
            g::panic::PANICKING = kani::any();
            g::order::watch(&c.core);
            c.close_rx();
            assert!(*c.core.tail.ghost_ptr() & c.core.closed != 0, "V70 a dropped receiver closes the channel");
            assert!(before || gq::CLOSES >= 1, "V71 a dropped receiver wakes every waiting sender");
            kani::cover!(!before && g::panic::PANICKING, "first, while panicking");
            kani::cover!(before, "second");
        }
    }
}
