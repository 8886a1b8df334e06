// Contracts of the async channel (src/mpsc/async_impl.rs), included as
// `crate::mpsc::async_impl::verif`.
#[allow(unused_imports)]
use super::*;

#[cfg(feature = "g_async")]
#[allow(static_mut_refs)]
mod async_harness {
    use super::*;
    use crate::loom::verif::{self as g, cell as gc, queue as gq, waits, count, split};
    use crate::verif::contract as k;
    use crate::mpsc::verif::contract as kc;
    use core::task::{RawWaker, RawWakerVTable};

    #[derive(Debug, PartialEq, Default, Clone)]
    pub(crate) struct Msg(u32);

    static VT: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &VT), |p| unsafe { g::woken(p as usize) }, |p| unsafe { g::woken(p as usize) }, |_| {});
    fn waker(id: usize) -> Waker { unsafe { Waker::from_raw(RawWaker::new(id as *const (), &VT)) } }

    static mut CHANNEL: StaticChannel<Msg, 1> = StaticChannel::new();
    fn heap() -> (&'static Sender<Msg>, &'static Receiver<Msg>) {
        let (tx, rx) = channel(1);
        (Box::leak(Box::new(tx)), Box::leak(Box::new(rx)))
    }
    fn fixed() -> (&'static StaticSender<Msg>, &'static StaticReceiver<Msg>) {
        let (tx, rx) = unsafe { CHANNEL.try_split() }.unwrap();
        (Box::leak(Box::new(tx)), Box::leak(Box::new(rx)))
    }

    unsafe fn rx_told() { assert!(k::released(), "V11 the receiver is notified only after the slot was released"); }
    unsafe fn tx_told() { assert!(k::released(), "V10 senders are notified only after the slot was released"); }
    unsafe fn observe(c: &ChannelCore<Waker>) {
        c.rx_wait.verif_observe(gc::TX);
        gc::ON_NOTIFY = rx_told;
        c.tx_wait.verif_attach();
        gq::ON_STORED = tx_told;
    }

    unsafe fn sent(r: Poll<Result<(), Closed<Msg>>>, v: u32, slots: &[Slot<Msg>]) {
        match r {
            Poll::Pending => { assert!(waits::LINKED && k::CLAIMS == 0, "P20 a pending send is queued"); kani::cover!(true, "pending"); }
            Poll::Ready(Ok(())) => {
                assert!(k::CLAIMS == 1 && k::released() && gc::NOTIFIED == 1, "V33 every completed send notifies the receiver once");
                assert!((*(*slots[0].value_ptr()).as_ptr()).0 == v, "V31 the sent value is in the slot");
                kani::cover!(true, "sent");
            }
            Poll::Ready(Err(Closed(m))) => {
                assert!(k::CLAIMS == 0 && gc::NOTIFIED == 0, "V34 a failed send enqueues nothing");
                assert!(k::LAST == k::CLOSED || waits::TOLD_CLOSED, "P24 closed only if the channel is closed");
                assert!(m.0 == v, "V36 a failed send returns the value");
                kani::cover!(true, "closed");
            }
        }
    }
    const NOTHING: u8 = 0;
    const END: u8 = 1;
    const VALUE: u8 = 2;
    const REF: u8 = 3;
    unsafe fn held() { assert!(!k::released(), "V60 the slot stays claimed while the reference lives"); }
    unsafe fn received(got: u8, value: u32, v: u32, slots: &[Slot<Msg>]) {
        if got >= VALUE {
            assert!(k::CLAIMS == 1 && k::LAST == k::OK && value == v, "V50 the received value is the one in the claimed slot");
            assert!(k::released() && gq::STORED == 1, "V53 every freed slot notifies the senders once");
            let rest = (*(*slots[0].value_ptr()).as_ptr()).0;
            assert!(if got == VALUE { rest == 0 } else { rest == v }, "V51 receiving by value leaves a fresh element, by reference the same one");
        } else {
            assert!(k::CLAIMS == 0 && gq::STORED == 0, "V54 a failed receive takes nothing");
            assert!((got == END) == (k::LAST == k::CLOSED), "V22 end of channel only if closed and drained");
        }
        kani::cover!(got == VALUE, "by value");
        kani::cover!(got == REF, "by reference");
        kani::cover!(got == END, "end");
    }

    macro_rules! flavour {
        ($m:ident, $make:ident, $tx:ident, $rx:ident, $core:ident, $slots:ident) => { mod $m {
            use super::*;

            /// Poll a by-reference send twice (from its initial and from its
            /// waiting state), with any answers, and drop it at any point.
            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(crate::Core::push_ref, crate::verif::contract::push_ref)]
            #[kani::stub(crate::wait::WaitQueue::start_wait, crate::loom::verif::waits::start_wait)]
            #[kani::stub(crate::wait::WaitQueue::continue_wait, crate::loom::verif::waits::continue_wait)]
            #[kani::stub(crate::wait::queue::Waiter::remove, crate::loom::verif::waits::remove)]
            fn con_send_ref_future() {
                unsafe {
                    let (tx, _rx) = $make();
                    observe(&tx.$core());
                    let mut done = false;
                    {
                        let f = tx.send_ref();
                        let mut f = core::pin::pin!(f);
                        let mut polls = 0;
                        macro_rules! poll { ($id:expr) => { if !done && kani::any() {
                            polls += 1;
                            let id: usize = $id;
                            let w = waker(id);
                            match f.as_mut().poll(&mut Context::from_waker(&w)) {
                                Poll::Pending => {
                                    assert!(waits::LINKED, "P20 a pending send is queued");
                                    assert!(waits::WAKER == id, "P21 a pending send is queued with the waker of its latest poll");
                                    assert!(k::CLAIMS == 0, "P22 a pending send holds no slot");
                                    assert!(!waits::owes(), "P31 a received notification is used for an attempt to send");
                                    kani::cover!(polls == 2, "still pending");
                                }
                                Poll::Ready(Ok(r)) => {
                                    done = true;
                                    assert!(k::CLAIMS == 1 && k::LAST == k::OK && !k::released(), "P23 a completed send holds the slot it claimed");
                                    waits::finished();
                                    // (dropping it: see con_try_send_public)
                                    core::mem::forget(r);
                                    kani::cover!(polls > 1, "sent after waiting");
                                    kani::cover!(polls == 1, "sent at once");
                                }
                                Poll::Ready(Err(Closed(()))) => {
                                    done = true;
                                    assert!(k::CLAIMS == 0 && (k::LAST == k::CLOSED || waits::TOLD_CLOSED), "P24 closed only if the channel is closed");
                                    waits::finished();
                                    kani::cover!(true, "closed");
                                }
                            }
                        } } }
                        poll!(1); poll!(2);
                        kani::cover!(!done && polls == 2, "dropped while pending");
                        kani::cover!(polls == 0, "dropped unpolled");
                    }
                    waits::finished();
                    assert!(done || k::CLAIMS == 0, "P25 an abandoned send sends nothing");
                }
            }

            /// Sending by value: complete at the first poll,
            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(crate::Core::push_ref, crate::verif::contract::push_ref)]
            #[kani::stub(crate::wait::WaitQueue::start_wait, crate::loom::verif::waits::start_wait)]
            #[kani::stub(crate::wait::WaitQueue::continue_wait, crate::loom::verif::waits::continue_wait)]
            #[kani::stub(crate::wait::queue::Waiter::remove, crate::loom::verif::waits::remove)]
            fn con_send_future() {
                unsafe {
                    let (tx, _rx) = $make();
                    observe(&tx.$core());
                    let v: u32 = kani::any();
                    {
                        let mut f = core::pin::pin!(tx.send(Msg(v)));
                        let w = waker(1);
                        sent(f.as_mut().poll(&mut Context::from_waker(&w)), v, tx.$slots());
                    }
                    waits::finished();
                }
            }

            /// or after waiting.
            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(crate::Core::push_ref, crate::verif::contract::push_ref)]
            #[kani::stub(crate::wait::WaitQueue::start_wait, crate::loom::verif::waits::start_wait)]
            #[kani::stub(crate::wait::WaitQueue::continue_wait, crate::loom::verif::waits::continue_wait)]
            #[kani::stub(crate::wait::queue::Waiter::remove, crate::loom::verif::waits::remove)]
            fn con_send_future_waiting() {
                unsafe {
                    let (tx, _rx) = $make();
                    observe(&tx.$core());
                    let v: u32 = kani::any();
                    {
                        let mut f = core::pin::pin!(tx.send(Msg(v)));
                        let w = waker(1);
                        k::WANT = k::FULL_OR_EMPTY;
                        waits::MUST_WAIT = true;
                        assert!(f.as_mut().poll(&mut Context::from_waker(&w)).is_pending(), "P20 a pending send is queued");
                        k::WANT = 0;
                        waits::MUST_WAIT = false;
                        sent(f.as_mut().poll(&mut Context::from_waker(&w)), v, tx.$slots());
                    }
                    waits::finished();
                }
            }

            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(crate::Core::push_ref, crate::verif::contract::push_ref)]
            fn con_try_send_public() {
                unsafe {
                    let (tx, _rx) = $make();
                    observe(&tx.$core());
                    let v: u32 = kani::any();
                    if kani::any() {
                        match tx.try_send(Msg(v)) {
                            Ok(()) => assert!(k::CLAIMS == 1 && k::released() && gc::NOTIFIED == 1 && (*(*tx.$slots()[0].value_ptr()).as_ptr()).0 == v, "V31 the sent value is in the slot"),
                            Err(TrySendError::Full(m)) => { assert!(k::LAST == k::FULL_OR_EMPTY, "V35 the error says why the send failed"); assert!(m.0 == v && k::CLAIMS == 0, "V36 a failed send returns the value"); }
                            Err(TrySendError::Closed(m)) => { assert!(k::LAST == k::CLOSED, "V35 the error says why the send failed"); assert!(m.0 == v && k::CLAIMS == 0, "V36 a failed send returns the value"); }
                        }
                    } else {
                        match tx.try_send_ref() {
                            Ok(mut r) => {
                                assert!(k::CLAIMS == 1 && !k::released(), "V40 the slot stays claimed while the reference lives");
                                r.0 .0 = v;
                                drop(r);
                                assert!(k::released() && gc::NOTIFIED == 1 && (*(*tx.$slots()[0].value_ptr()).as_ptr()).0 == v, "V42 dropping the reference releases the slot, then notifies once");
                            }
                            Err(TrySendError::Full(())) => assert!(k::LAST == k::FULL_OR_EMPTY && k::CLAIMS == 0, "V35 the error says why the send failed"),
                            Err(TrySendError::Closed(())) => assert!(k::LAST == k::CLOSED && k::CLAIMS == 0, "V35 the error says why the send failed"),
                        }
                    }
                }
            }

            /// All ways to receive, first without waiting.
            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(crate::Core::pop_ref, crate::verif::contract::pop_ref)]
            fn con_try_receive_public() {
                unsafe {
                    let (_tx, rx) = $make();
                    rx.$core().tx_wait.verif_attach();
                    gq::ON_STORED = tx_told;
                    let v: u32 = kani::any();
                    (*rx.$slots()[0].value_ptr()).write(Msg(v));
                    let (mut got, mut value) = (NOTHING, 0u32);
                    if kani::any() {
                        match rx.try_recv() { Ok(m) => { got = VALUE; value = m.0; } Err(TryRecvError::Closed) => got = END, _ => {} }
                    } else {
                        match rx.try_recv_ref() { Ok(r) => { got = REF; value = (*r).0; held(); } Err(TryRecvError::Closed) => got = END, _ => {} }
                    }
                    received(got, value, v, rx.$slots());
                }
            }

            /// Polling.
            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(crate::mpsc::ChannelCore::poll_recv_ref, crate::mpsc::ChannelCore::verif_poll_recv_ref)]
            fn con_poll_receive_public() {
                unsafe {
                    let (_tx, rx) = $make();
                    rx.$core().tx_wait.verif_attach();
                    gq::ON_STORED = tx_told;
                    let v: u32 = kani::any();
                    (*rx.$slots()[0].value_ptr()).write(Msg(v));
                    let w = waker(5);
                    let mut cx = Context::from_waker(&w);
                    let how: u8 = kani::any();
                    let (mut got, mut value, mut pending) = (NOTHING, 0u32, false);
                    match how {
                        0 => match core::pin::pin!(rx.recv()).as_mut().poll(&mut cx) { Poll::Ready(Some(m)) => { got = VALUE; value = m.0; } Poll::Ready(None) => got = END, Poll::Pending => pending = true },
                        1 => match core::pin::pin!(rx.recv_ref()).as_mut().poll(&mut cx) { Poll::Ready(Some(r)) => { got = REF; value = (*r).0; held(); } Poll::Ready(None) => got = END, Poll::Pending => pending = true },
                        2 => match rx.poll_recv(&mut cx) { Poll::Ready(Some(m)) => { got = VALUE; value = m.0; } Poll::Ready(None) => got = END, Poll::Pending => pending = true },
                        _ => match rx.poll_recv_ref(&mut cx) { Poll::Ready(Some(r)) => { got = REF; value = (*r).0; held(); } Poll::Ready(None) => got = END, Poll::Pending => pending = true },
                    }
                    received(got, value, v, rx.$slots());
                    if pending { assert!(kc::PENDING && kc::WAITER == 5, "V26 a pending receive has registered the waker of its context"); }
                    kani::cover!(pending, "pending");
                }
            }

            /// Cloning and dropping senders, among any number of others.
            #[kani::proof]
            #[kani::unwind(4)]
            fn con_sender_count() {
                unsafe {
                    let (tx, rx) = $make();
                    let c = tx.$core();
                    assert!(*c.tx_count.ghost_ptr() == 1, "V80 a new channel counts its one sender");
                    assert!(!rx.is_closed(), "V88 is_closed exactly if no sender remains");
                    count::WORD = c.tx_count.ghost_ptr();
                    count::MINE = 1; count::ENV = true; count::ON = true;
                    c.rx_wait.verif_observe(gc::TX);
                    g::order::watch(&c.core);
                    gc::ON_NOTIFY = synced;
                    g::panic::PANICKING = kani::any();
                    let cloned: bool = kani::any();
                    if cloned {
                        let other = tx.clone();
                        assert!(count::CLONES == 1 && count::MINE == 2, "V81 cloning counts one more sender");
                        core::mem::forget(other);
                        count::MINE = 2;
                    }
                    let c: *const ChannelCore<Waker> = &*c;
                    core::ptr::drop_in_place(tx as *const _ as *mut $tx<Msg>);
                    let c = &*c;
                    assert!(count::DROPS == 1, "V82 dropping counts one sender less");
                    let closed = *c.core.tail.ghost_ptr() & c.core.closed != 0;
                    let last = count::LAST_OLD == 1;
                    assert!(closed == last, "V83 the channel closes exactly when its last sender is dropped");
                    assert!((gc::CLOSED_BY_ME >= 1) == last, "V84 the receiver is told exactly when the last sender is dropped");
                    assert!(!(cloned && last), "V85 a live clone keeps the channel open");
                    count::ENV = false;
                    assert!(rx.is_closed() == (*c.tx_count.ghost_ptr() == 0), "V88 is_closed exactly if no sender remains");
                    kani::cover!(last && g::panic::PANICKING, "last, while panicking");
                    kani::cover!(!last, "not last");
                }
            }

            #[kani::proof]
            #[kani::unwind(4)]
            fn con_receiver_drop() {
                unsafe {
                    let (tx, rx) = $make();
                    let c: *const ChannelCore<Waker> = &*tx.$core();
                    (*c).tx_wait.verif_attach();
                    g::order::watch(&(*c).core);
                    g::panic::PANICKING = kani::any();
                    core::ptr::drop_in_place(rx as *const _ as *mut $rx<Msg>);
                    assert!(*(*c).core.tail.ghost_ptr() & (*c).core.closed != 0, "V70 a dropped receiver closes the channel");
                    assert!(gq::CLOSES >= 1, "V71 a dropped receiver wakes every waiting sender");
                }
            }
        } }
    }
    unsafe fn synced() {
        if *gc::LOCK & gc::C != 0 { assert!(g::order::closed(), "V86 the channel is closed before its receiver is told so"); }
        if *gc::LOCK & gc::C != 0 { assert!(count::SYNCED, "G64 the last sender synchronises with the others before closing"); }
    }
    flavour!(heap_async, heap, Sender, Receiver, verif_core, verif_slots);
    flavour!(static_async, fixed, StaticSender, StaticReceiver, verif_core, verif_slots);

    trait Access { fn verif_core(&self) -> &ChannelCore<Waker>; fn verif_slots(&self) -> &[Slot<Msg>]; }
    impl Access for Sender<Msg> { fn verif_core(&self) -> &ChannelCore<Waker> { &self.inner.core } fn verif_slots(&self) -> &[Slot<Msg>] { &self.inner.slots } }
    impl Access for Receiver<Msg> { fn verif_core(&self) -> &ChannelCore<Waker> { &self.inner.core } fn verif_slots(&self) -> &[Slot<Msg>] { &self.inner.slots } }
    impl Access for StaticSender<Msg> { fn verif_core(&self) -> &ChannelCore<Waker> { self.core } fn verif_slots(&self) -> &[Slot<Msg>] { self.slots } }
    impl Access for StaticReceiver<Msg> { fn verif_core(&self) -> &ChannelCore<Waker> { self.core } fn verif_slots(&self) -> &[Slot<Msg>] { self.slots } }

    #[kani::proof]
    #[kani::unwind(4)]
    fn con_try_split() {
        unsafe {
            split::FLAG = CHANNEL.is_split.ghost_ptr();
            split::ON = true;
            let r = CHANNEL.try_split();
            match r {
                Some((tx, rx)) => {
                    assert!(split::MINE == 1 && split::WINNERS == 1, "V90 at most one attempt to split succeeds");
                    assert!(core::ptr::eq(tx.core, &CHANNEL.core) && core::ptr::eq(rx.core, &CHANNEL.core), "V91 both halves belong to the channel");
                    assert!(tx.slots.len() == 1 && rx.slots.len() == 1 && core::ptr::eq(tx.slots.as_ptr(), CHANNEL.slots.as_ptr()) && core::ptr::eq(rx.slots.as_ptr(), CHANNEL.slots.as_ptr()),
                        "V92 both halves use all of the channel's storage");
                    core::mem::forget(tx); core::mem::forget(rx);
                    kani::cover!(true, "won");
                }
                None => {
                    assert!(split::MINE == 0 && split::WINNERS == 1, "V93 splitting fails only if somebody else succeeded");
                    kani::cover!(true, "lost");
                }
            }
            assert!(CHANNEL.try_split().is_none(), "V94 a split channel cannot be split again");
        }
    }
}
