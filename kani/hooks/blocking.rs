// Contracts of the blocking channel (src/mpsc/blocking.rs), included as
// `crate::mpsc::blocking::verif`.
#[allow(unused_imports)]
use super::*;

#[cfg(feature = "g_blocking")]
#[allow(static_mut_refs)]
mod blocking_harness {
    use super::*;
    use crate::loom::verif::{self as g, cell as gc, queue as gq, waits, count, split, timing};
    use crate::verif::contract as k;
    use crate::mpsc::verif::contract as kc;

    #[derive(Debug, PartialEq, Default, Clone)]
    pub(crate) struct Msg(u32);

    static mut CHANNEL: StaticChannel<Msg, 1> = StaticChannel::new();
    fn heap() -> (&'static Sender<Msg>, &'static Receiver<Msg>) {
        let (tx, rx) = channel(1);
        (Box::leak(Box::new(tx)), Box::leak(Box::new(rx)))
    }
    fn fixed() -> (&'static StaticSender<Msg>, &'static StaticReceiver<Msg>) {
        let (tx, rx) = unsafe { CHANNEL.try_split() }.unwrap();
        (Box::leak(Box::new(tx)), Box::leak(Box::new(rx)))
    }

    unsafe fn rx_told() { assert!(k::released(), "V11 the receiver is notified only after the slot was released"); }
    unsafe fn tx_told() { assert!(k::released(), "V10 senders are notified only after the slot was released"); }
    unsafe fn observe(c: &ChannelCore<Thread>) {
        c.rx_wait.verif_observe(gc::TX);
        gc::ON_NOTIFY = rx_told;
        c.tx_wait.verif_attach();
        gq::ON_STORED = tx_told;
    }

    /// The caller's timeout.
    static mut LIMIT: Option<Duration> = None;
    unsafe fn deadline(d: Option<Duration>) {
        match (LIMIT, d) {
            (None, Some(_)) => assert!(false, "T10 an untimed wait parks without a time limit"),
            (None, None) => {}
            (Some(_), None) => assert!(false, "T11 a timed wait parks with a time limit"),
            (Some(limit), Some(d)) => {
                // whatever the clock was read to compute `d`, it is not in the
                // future; parking for `d` from now on ends by the deadline as
                // seen by the latest reading
                assert!(timing::READINGS > 0, "T12 a timed wait looks at the clock");
                assert!(timing::NOW - timing::FIRST <= limit && d <= limit - (timing::NOW - timing::FIRST), "T13 a timed wait never parks beyond its deadline");
            }
        }
    }
    unsafe fn sender_parks(d: Option<Duration>) {
        assert!(waits::LINKED, "P40 a sender parks only while queued");
        assert!(waits::WAKER == 1, "P41 a parked sender is queued with its own thread");
        assert!(k::CLAIMS == 0, "P22 a waiting send holds no slot");
        deadline(d);
    }
    unsafe fn receiver_parks(d: Option<Duration>) {
        assert!(kc::PENDING, "P42 a receiver parks only after a pending poll");
        assert!(kc::WAITER == 1, "P43 a parked receiver has registered its own thread");
        deadline(d);
    }
    unsafe fn timed() -> Duration {
        timing::ON = true;
        let d = timing::any_duration();
        LIMIT = Some(d);
        d
    }
    unsafe fn timed_out() {
        assert!(timing::READINGS > 0 && timing::NOW - timing::FIRST >= LIMIT.unwrap(), "T14 a timeout is reported only after the whole duration");
        assert!(k::LAST == k::FULL_OR_EMPTY && k::CLAIMS == 0, "T15 a timeout is reported only without success or closure");
        assert!(!waits::TOLD_CLOSED && !k::EVER_CLOSED, "T16 closure is reported rather than a timeout");
    }

    const NOTHING: u8 = 0;
    const END: u8 = 1;
    const VALUE: u8 = 2;
    const REF: u8 = 3;
    unsafe fn held() { assert!(!k::released(), "V60 the slot stays claimed while the reference lives"); }
    unsafe fn received(got: u8, value: u32, v: u32, slots: &[Slot<Msg>]) {
        outcome(got, value, v, slots);
        kani::cover!(got == VALUE, "by value");
        kani::cover!(got == REF, "by reference");
        kani::cover!(got == END, "end");
    }
    unsafe fn outcome(got: u8, value: u32, v: u32, slots: &[Slot<Msg>]) {
        if got >= VALUE {
            assert!(k::CLAIMS == 1 && k::LAST == k::OK && value == v, "V50 the received value is the one in the claimed slot");
            assert!(k::released() && gq::STORED == 1, "V53 every freed slot notifies the senders once");
            let rest = (*(*slots[0].value_ptr()).as_ptr()).0;
            assert!(if got == VALUE { rest == 0 } else { rest == v }, "V51 receiving by value leaves a fresh element, by reference the same one");
        } else {
            assert!(k::CLAIMS == 0 && gq::STORED == 0, "V54 a failed receive takes nothing");
            assert!((got == END) == (k::LAST == k::CLOSED), "V22 end of channel only if closed and drained");
        }
    }
    unsafe fn sent(v: u32, slots: &[Slot<Msg>]) {
        assert!(k::CLAIMS == 1 && k::released() && gc::NOTIFIED == 1, "V33 every completed send notifies the receiver once");
        assert!((*(*slots[0].value_ptr()).as_ptr()).0 == v, "V31 the sent value is in the slot");
        waits::finished();
        kani::cover!(true, "sent");
    }
    unsafe fn not_sent(m: Msg, v: u32, closed: bool) {
        assert!(k::CLAIMS == 0 && gc::NOTIFIED == 0, "V34 a failed send enqueues nothing");
        assert!(m.0 == v, "V36 a failed send returns the value");
        if closed { assert!(k::LAST == k::CLOSED || waits::TOLD_CLOSED, "P24 closed only if the channel is closed"); }
        waits::finished();
    }

    macro_rules! flavour {
        ($m:ident, $make:ident, $tx:ident, $rx:ident, $core:ident, $slots:ident) => { mod $m {
            use super::*;

            /// Waiting, by reference: every answer of the queue at every
            /// iteration, any number of spurious wake-ups.
            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(crate::Core::push_ref, crate::verif::contract::push_ref)]
            #[kani::stub(crate::wait::WaitQueue::start_wait, crate::loom::verif::waits::start_wait)]
            #[kani::stub(crate::wait::WaitQueue::continue_wait, crate::loom::verif::waits::continue_wait)]
            #[kani::stub(crate::wait::queue::Waiter::remove, crate::loom::verif::waits::remove)]
            fn con_send_ref() {
                unsafe {
                    let (tx, _rx) = $make();
                    observe(tx.$core());
                    timing::ON_PARK = Some(sender_parks);
                    match tx.send_ref() {
                        Ok(r) => {
                            assert!(k::CLAIMS == 1 && k::LAST == k::OK && !k::released(), "P23 a completed send holds the slot it claimed");
                            core::mem::forget(r);
                            kani::cover!(g::PARKS == 2, "sent after waiting");
                            kani::cover!(k::PUSHES == 1, "sent at once");
                        }
                        Err(Closed(())) => {
                            assert!(k::CLAIMS == 0 && (k::LAST == k::CLOSED || waits::TOLD_CLOSED), "P24 closed only if the channel is closed");
                            kani::cover!(true, "closed");
                        }
                    }
                    waits::finished();
                }
            }

            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(crate::Core::push_ref, crate::verif::contract::push_ref)]
            #[kani::stub(crate::wait::WaitQueue::start_wait, crate::loom::verif::waits::start_wait)]
            #[kani::stub(crate::wait::WaitQueue::continue_wait, crate::loom::verif::waits::continue_wait)]
            #[kani::stub(crate::wait::queue::Waiter::remove, crate::loom::verif::waits::remove)]
            fn con_send_ref_timeout() {
                unsafe {
                    let (tx, _rx) = $make();
                    observe(tx.$core());
                    timing::ON_PARK = Some(sender_parks);
                    match tx.send_ref_timeout(timed()) {
                        Ok(r) => {
                            assert!(k::CLAIMS == 1 && k::LAST == k::OK && !k::released(), "P23 a completed send holds the slot it claimed");
                            core::mem::forget(r);
                            kani::cover!(g::PARKS == 2, "sent after waiting");
                            kani::cover!(k::PUSHES == 1, "sent at once");
                        }
                        Err(SendTimeoutError::Closed(())) => {
                            assert!(k::CLAIMS == 0 && (k::LAST == k::CLOSED || waits::TOLD_CLOSED), "P24 closed only if the channel is closed");
                            kani::cover!(true, "closed");
                        }
                        Err(SendTimeoutError::Timeout(())) => {
                            timed_out();
                            kani::cover!(g::PARKS > 1, "timed out after waiting");
                            kani::cover!(g::PARKS == 0, "timed out at once");
                        }
                    }
                    waits::finished();
                }
            }

            /// By value.
            #[kani::proof]
            #[kani::unwind(3)]
            #[kani::stub(crate::Core::push_ref, crate::verif::contract::push_ref)]
            #[kani::stub(crate::wait::WaitQueue::start_wait, crate::loom::verif::waits::start_wait)]
            #[kani::stub(crate::wait::WaitQueue::continue_wait, crate::loom::verif::waits::continue_wait)]
            #[kani::stub(crate::wait::queue::Waiter::remove, crate::loom::verif::waits::remove)]
            fn con_send() {
                unsafe {
                    let (tx, _rx) = $make();
                    observe(tx.$core());
                    timing::ON_PARK = Some(sender_parks);
                    let v: u32 = kani::any();
                    match tx.send(Msg(v)) {
                        Ok(()) => sent(v, tx.$slots()),
                        Err(Closed(m)) => { not_sent(m, v, true); kani::cover!(true, "closed"); }
                    }
                }
            }

            #[kani::proof]
            #[kani::unwind(3)]
            #[kani::stub(crate::Core::push_ref, crate::verif::contract::push_ref)]
            #[kani::stub(crate::wait::WaitQueue::start_wait, crate::loom::verif::waits::start_wait)]
            #[kani::stub(crate::wait::WaitQueue::continue_wait, crate::loom::verif::waits::continue_wait)]
            #[kani::stub(crate::wait::queue::Waiter::remove, crate::loom::verif::waits::remove)]
            fn con_send_timeout() {
                unsafe {
                    let (tx, _rx) = $make();
                    observe(tx.$core());
                    timing::ON_PARK = Some(sender_parks);
                    let v: u32 = kani::any();
                    match tx.send_timeout(Msg(v), timed()) {
                        Ok(()) => sent(v, tx.$slots()),
                        Err(SendTimeoutError::Closed(m)) => { not_sent(m, v, true); kani::cover!(true, "closed"); }
                        Err(SendTimeoutError::Timeout(m)) => { timed_out(); not_sent(m, v, false); kani::cover!(true, "timed out"); }
                    }
                }
            }

            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(crate::Core::push_ref, crate::verif::contract::push_ref)]
            fn con_try_send_public() {
                unsafe {
                    let (tx, _rx) = $make();
                    observe(tx.$core());
                    let v: u32 = kani::any();
                    if kani::any() {
                        match tx.try_send(Msg(v)) {
                            Ok(()) => sent(v, tx.$slots()),
                            Err(TrySendError::Full(m)) => { assert!(k::LAST == k::FULL_OR_EMPTY, "V35 the error says why the send failed"); not_sent(m, v, false); }
                            Err(TrySendError::Closed(m)) => { assert!(k::LAST == k::CLOSED, "V35 the error says why the send failed"); not_sent(m, v, true); }
                        }
                    } else {
                        match tx.try_send_ref() {
                            Ok(mut r) => {
                                assert!(k::CLAIMS == 1 && !k::released(), "V40 the slot stays claimed while the reference lives");
                                (*r).0 = v;
                                drop(r);
                                assert!(k::released() && gc::NOTIFIED == 1 && (*(*tx.$slots()[0].value_ptr()).as_ptr()).0 == v, "V42 dropping the reference releases the slot, then notifies once");
                                kani::cover!(true, "by reference");
                            }
                            Err(TrySendError::Full(())) => assert!(k::LAST == k::FULL_OR_EMPTY && k::CLAIMS == 0, "V35 the error says why the send failed"),
                            Err(TrySendError::Closed(())) => assert!(k::LAST == k::CLOSED && k::CLAIMS == 0, "V35 the error says why the send failed"),
                        }
                    }
                    assert!(g::PARKS == 0, "P44 non-waiting operations never park");
                }
            }

            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(crate::Core::pop_ref, crate::verif::contract::pop_ref)]
            fn con_try_receive_public() {
                unsafe {
                    let (_tx, rx) = $make();
                    rx.$core().tx_wait.verif_attach();
                    gq::ON_STORED = tx_told;
                    let v: u32 = kani::any();
                    (*rx.$slots()[0].value_ptr()).write(Msg(v));
                    let (mut got, mut value) = (NOTHING, 0u32);
                    if kani::any() {
                        match rx.try_recv() { Ok(m) => { got = VALUE; value = m.0; } Err(TryRecvError::Closed) => got = END, _ => {} }
                    } else {
                        match rx.try_recv_ref() { Ok(r) => { got = REF; value = (*r).0; held(); } Err(TryRecvError::Closed) => got = END, _ => {} }
                    }
                    received(got, value, v, rx.$slots());
                    assert!(g::PARKS == 0, "P44 non-waiting operations never park");
                }
            }

            /// Waiting for an element.
            #[kani::proof]
            #[kani::unwind(3)]
            #[kani::stub(crate::mpsc::ChannelCore::poll_recv_ref, crate::mpsc::ChannelCore::verif_poll_recv_ref)]
            fn con_receive() {
                unsafe {
                    let (_tx, rx) = $make();
                    rx.$core().tx_wait.verif_attach();
                    gq::ON_STORED = tx_told;
                    timing::ON_PARK = Some(receiver_parks);
                    let v: u32 = kani::any();
                    (*rx.$slots()[0].value_ptr()).write(Msg(v));
                    let (mut got, mut value) = (END, 0u32);
                    let how: u8 = kani::any();
                    match how {
                        0 => if let Some(m) = rx.recv() { got = VALUE; value = m.0; },
                        1 => if let Some(r) = rx.recv_ref() { got = REF; value = (*r).0; held(); },
                        _ => { let mut it = rx; if let Some(r) = it.next() { got = REF; value = (*r).0; held(); } }
                    }
                    received(got, value, v, rx.$slots());
                    kani::cover!(g::PARKS == 2, "after waiting");
                }
            }

            #[kani::proof]
            #[kani::unwind(3)]
            #[kani::stub(crate::mpsc::ChannelCore::poll_recv_ref, crate::mpsc::ChannelCore::verif_poll_recv_ref)]
            fn con_receive_timeout() {
                unsafe {
                    let (_tx, rx) = $make();
                    rx.$core().tx_wait.verif_attach();
                    gq::ON_STORED = tx_told;
                    timing::ON_PARK = Some(receiver_parks);
                    let v: u32 = kani::any();
                    (*rx.$slots()[0].value_ptr()).write(Msg(v));
                    let (mut got, mut value) = (NOTHING, 0u32);
                    let d = timed();
                    let e = match rx.recv_timeout(d) { Ok(m) => { got = VALUE; value = m.0; None } Err(e) => Some(e) };
                    match e {
                        None => {}
                        Some(RecvTimeoutError::Closed) => got = END,
                        Some(RecvTimeoutError::Timeout) => { timed_out(); kani::cover!(g::PARKS > 0, "timed out after waiting"); kani::cover!(g::PARKS == 0, "timed out at once"); }
                        #[allow(unreachable_patterns)]
                        Some(_) => assert!(false, "T17 a timed receive fails by timeout or closure only"),
                    }
                    outcome(got, value, v, rx.$slots());
                    kani::cover!(got >= VALUE, "received");
                    kani::cover!(got == END, "end");
                    kani::cover!(g::PARKS == 2, "after waiting");
                }
            }

            #[kani::proof]
            #[kani::unwind(3)]
            #[kani::stub(crate::mpsc::ChannelCore::poll_recv_ref, crate::mpsc::ChannelCore::verif_poll_recv_ref)]
            fn con_receive_ref_timeout() {
                unsafe {
                    let (_tx, rx) = $make();
                    rx.$core().tx_wait.verif_attach();
                    gq::ON_STORED = tx_told;
                    timing::ON_PARK = Some(receiver_parks);
                    let v: u32 = kani::any();
                    (*rx.$slots()[0].value_ptr()).write(Msg(v));
                    let (mut got, mut value) = (NOTHING, 0u32);
                    let d = timed();
                    let e = match rx.recv_ref_timeout(d) { Ok(r) => { got = REF; value = (*r).0; held(); None } Err(e) => Some(e) };
                    match e {
                        None => {}
                        Some(RecvTimeoutError::Closed) => got = END,
                        Some(RecvTimeoutError::Timeout) => { timed_out(); kani::cover!(g::PARKS > 0, "timed out after waiting"); kani::cover!(g::PARKS == 0, "timed out at once"); }
                        #[allow(unreachable_patterns)]
                        Some(_) => assert!(false, "T17 a timed receive fails by timeout or closure only"),
                    }
                    outcome(got, value, v, rx.$slots());
                    kani::cover!(got >= VALUE, "received");
                    kani::cover!(got == END, "end");
                    kani::cover!(g::PARKS == 2, "after waiting");
                }
            }

            /// Cloning and dropping senders, among any number of others.
            #[kani::proof]
            #[kani::unwind(4)]
            fn con_sender_count() {
                unsafe {
                    let (tx, rx) = $make();
                    let c = tx.$core();
                    assert!(*c.tx_count.ghost_ptr() == 1, "V80 a new channel counts its one sender");
                    assert!(!rx.is_closed(), "V88 is_closed exactly if no sender remains");
                    count::WORD = c.tx_count.ghost_ptr();
                    count::MINE = 1; count::ENV = true; count::ON = true;
                    c.rx_wait.verif_observe(gc::TX);
                    g::order::watch(&c.core);
                    gc::ON_NOTIFY = synced;
                    g::panic::PANICKING = kani::any();
                    let cloned: bool = kani::any();
                    if cloned {
                        let other = tx.clone();
                        assert!(count::CLONES == 1 && count::MINE == 2, "V81 cloning counts one more sender");
                        core::mem::forget(other);
                    }
                    let c: *const ChannelCore<Thread> = c;
                    core::ptr::drop_in_place(tx as *const _ as *mut $tx<Msg>);
                    let c = &*c;
                    assert!(count::DROPS == 1, "V82 dropping counts one sender less");
                    let closed = *c.core.tail.ghost_ptr() & c.core.closed != 0;
                    let last = count::LAST_OLD == 1;
                    assert!(closed == last, "V83 the channel closes exactly when its last sender is dropped");
                    assert!((gc::CLOSED_BY_ME >= 1) == last, "V84 the receiver is told exactly when the last sender is dropped");
                    assert!(!(cloned && last), "V85 a live clone keeps the channel open");
                    count::ENV = false;
                    assert!(rx.is_closed() == (*c.tx_count.ghost_ptr() == 0), "V88 is_closed exactly if no sender remains");
                    kani::cover!(last && g::panic::PANICKING, "last, while panicking");
                    kani::cover!(!last, "not last");
                }
            }

            #[kani::proof]
            #[kani::unwind(4)]
            fn con_receiver_drop() {
                unsafe {
                    let (tx, rx) = $make();
                    let c: *const ChannelCore<Thread> = tx.$core();
                    (*c).tx_wait.verif_attach();
                    g::order::watch(&(*c).core);
                    g::panic::PANICKING = kani::any();
                    core::ptr::drop_in_place(rx as *const _ as *mut $rx<Msg>);
                    assert!(*(*c).core.tail.ghost_ptr() & (*c).core.closed != 0, "V70 a dropped receiver closes the channel");
                    assert!(gq::CLOSES >= 1, "V71 a dropped receiver wakes every waiting sender");
                }
            }
        } }
    }
    unsafe fn synced() {
        if *gc::LOCK & gc::C != 0 { assert!(g::order::closed(), "V86 the channel is closed before its receiver is told so"); }
        if *gc::LOCK & gc::C != 0 { assert!(count::SYNCED, "G64 the last sender synchronises with the others before closing"); }
    }
    flavour!(heap_blocking, heap, Sender, Receiver, verif_core, verif_slots);
    flavour!(static_blocking, fixed, StaticSender, StaticReceiver, verif_core, verif_slots);

    trait Access { fn verif_core(&self) -> &ChannelCore<Thread>; fn verif_slots(&self) -> &[Slot<Msg>]; }
    impl Access for Sender<Msg> { fn verif_core(&self) -> &ChannelCore<Thread> { &self.inner.core } fn verif_slots(&self) -> &[Slot<Msg>] { &self.inner.slots } }
    impl Access for Receiver<Msg> { fn verif_core(&self) -> &ChannelCore<Thread> { &self.inner.core } fn verif_slots(&self) -> &[Slot<Msg>] { &self.inner.slots } }
    impl Access for StaticSender<Msg> { fn verif_core(&self) -> &ChannelCore<Thread> { self.core } fn verif_slots(&self) -> &[Slot<Msg>] { self.slots } }
    impl Access for StaticReceiver<Msg> { fn verif_core(&self) -> &ChannelCore<Thread> { self.core } fn verif_slots(&self) -> &[Slot<Msg>] { self.slots } }

    #[kani::proof]
    #[kani::unwind(4)]
    fn con_try_split() {
        unsafe {
            split::FLAG = CHANNEL.is_split.ghost_ptr();
            split::ON = true;
            let r = CHANNEL.try_split();
            match r {
                Some((tx, rx)) => {
                    assert!(split::MINE == 1 && split::WINNERS == 1, "V90 at most one attempt to split succeeds");
                    assert!(core::ptr::eq(tx.core, &CHANNEL.core) && core::ptr::eq(rx.core, &CHANNEL.core), "V91 both halves belong to the channel");
                    assert!(tx.slots.len() == 1 && rx.slots.len() == 1 && core::ptr::eq(tx.slots.as_ptr(), CHANNEL.slots.as_ptr()) && core::ptr::eq(rx.slots.as_ptr(), CHANNEL.slots.as_ptr()),
                        "V92 both halves use all of the channel's storage");
                    core::mem::forget(tx); core::mem::forget(rx);
                    kani::cover!(true, "won");
                }
                None => {
                    assert!(split::MINE == 0 && split::WINNERS == 1, "V93 splitting fails only if somebody else succeeded");
                    kani::cover!(true, "lost");
                }
            }
            assert!(CHANNEL.try_split().is_none(), "V94 a split channel cannot be split again");
        }
    }
}
