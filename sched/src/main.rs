//! Looks for concrete failing schedules: small programs over the public API,
//! the crate's shared memory replaced by the loom model checker's, all
//! interleavings (and loads of stale values) up to a number of preemptions.
//! Bounded: what it finds is a real failure, what it does not find is not proved.
//!
//! sched <scenario> <preemptions> <seconds> [property]
use loom::thread;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicUsize as Plain, Ordering::SeqCst};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;
use thingbuf::mpsc::{self, blocking, errors::*};
use thingbuf::{StaticThingBuf, ThingBuf};

extern "Rust" {
    fn verif_trace_reset();
    fn verif_trace_print();
    fn verif_spin_model();
}

// ---- elements ------------------------------------------------------------
thread_local! {
    static LIVE: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) };
    static BAD: Cell<Option<&'static str>> = const { Cell::new(None) };
}
const MAGIC: u64 = 0x7468_696e_6762_7566;
pub struct Elem { magic: u64, id: usize, val: u32 }
impl Elem {
    fn new(val: u32) -> Elem { LIVE.with(|l| { let mut l = l.borrow_mut(); l.push(true); Elem { magic: MAGIC, id: l.len() - 1, val } }) }
    fn get(&self) -> u32 { assert!(self.magic == MAGIC && LIVE.with(|l| l.borrow()[self.id]), "[C04,C03,C01] something that is not an element was exposed"); self.val }
}
impl Default for Elem { fn default() -> Elem { Elem::new(0) } }
impl Clone for Elem { fn clone(&self) -> Elem { Elem::new(self.val) } }
impl Drop for Elem {
    fn drop(&mut self) {
        if self.magic != MAGIC { BAD.with(|b| b.set(Some("something that never was an element was dropped"))); return; }
        LIVE.with(|l| { let mut l = l.borrow_mut(); if !l[self.id] { BAD.with(|b| b.set(Some("an element was dropped twice"))) } l[self.id] = false; });
    }
}
fn accounts() {
    if let Some(b) = BAD.with(|b| b.get()) { panic!("[C04] {}", b); }
    LIVE.with(|l| assert!(l.borrow().iter().all(|x| !x), "[C04] an element was never dropped"));
}
fn begin() {
    unsafe { verif_trace_reset() };
    LIVE.with(|l| l.borrow_mut().clear());
    BAD.with(|b| b.set(None));
}

/// Values arrive once each, and each producer's in its order (10 * producer + number).
fn check_order(got: &[u32], producers: u32, each: u32, all: bool) {
    for p in 1..=producers {
        let mine: Vec<u32> = got.iter().copied().filter(|v| v / 10 == p).collect();
        for (i, v) in mine.iter().enumerate() { assert!(*v == p * 10 + i as u32, "[C01] producer {} sent in order, received {:?}", p, got); }
        assert!(!all || mine.len() as u32 == each, "[C01] producer {} sent {} values, received {:?}", p, each, got);
    }
    assert!(got.iter().all(|v| *v >= 10 && *v < (producers + 1) * 10), "[C01] received a value nobody sent: {:?}", got);
}

// ---- queues --------------------------------------------------------------
struct P<T: ?Sized>(*const T);
unsafe impl<T: ?Sized> Send for P<T> {}
impl<T: ?Sized> Clone for P<T> { fn clone(&self) -> Self { P(self.0) } }
impl<T: ?Sized> P<T> { fn get(&self) -> &'static T { unsafe { &*self.0 } } }

macro_rules! queue {
    ($m:ident, $new:expr, $cap:expr, $t:ty) => {
        mod $m {
            use super::*;
            fn shared() -> (P<$t>, impl FnOnce()) { let p: *mut $t = Box::into_raw(Box::new($new)); (P(p as *const $t), move || drop(unsafe { Box::from_raw(p) })) }
            /// Two producers, one consumer.
            pub fn mpsc() {
                begin();
                let (q, free) = shared();
                let hs: Vec<_> = (1..3u32).map(|p| { let q = q.clone(); thread::spawn(move || {
                    let q = q.get();
                    let mut n = 0;
                    for i in 0..2 { if i == 1 && $cap < 2 { break; } match q.push(Elem::new(p * 10 + n)) { Ok(()) => n += 1, Err(e) => assert!(e.into_inner().get() == p * 10 + n, "[C07] a failed push returned another value") } }
                    n
                }) }).collect();
                let mut got = vec![];
                for _ in 0..2 {
                    let n = q.get().len();
                    assert!(n <= $cap, "[C05] len() {} exceeds the capacity", n);
                    if let Some(e) = q.get().pop() { got.push(e.get()); }
                }
                let sent: Vec<u32> = hs.into_iter().map(|h| h.join().unwrap()).collect();
                while let Some(e) = q.get().pop() { got.push(e.get()); assert!(got.len() < 9, "[C01] more came out than went in"); }
                check_order(&got, 2, 0, false);
                assert!(got.len() as u32 == sent[0] + sent[1], "[C01] {} values went in, {:?} came out", sent[0] + sent[1], got);
                free();
                accounts();
            }
            /// By reference: what is written through one reference is seen through the other.
            pub fn refs() {
                begin();
                let (q, free) = shared();
                let p2 = q.clone();
                let h = thread::spawn(move || {
                    let mut n = 0;
                    for _ in 0..2 { if let Ok(mut r) = p2.get().push_ref() { let _ = r.get(); r.val = 10 + n; n += 1; } }
                    n
                });
                let mut got = vec![];
                for _ in 0..2 { if let Some(r) = q.get().pop_ref() { got.push(r.get()); } }
                let n = h.join().unwrap();
                while let Some(r) = q.get().pop_ref() { got.push(r.get()); assert!(got.len() < 9, "[C01] more came out than went in"); }
                check_order(&got, 1, n, true);
                free();
                accounts();
            }
            /// Two consumers.
            pub fn spmc() {
                begin();
                let (q, free) = shared();
                let q2 = q.clone();
                let h = thread::spawn(move || q2.get().pop().map(|e| e.get()));
                let q3 = q.clone();
                let h2 = thread::spawn(move || q3.get().pop_with(|e| e.get()));
                let mut n = 0;
                for _ in 0..2 { if q.get().push(Elem::new(10 + n)).is_ok() { n += 1; } }
                let mut got: Vec<u32> = [h.join().unwrap(), h2.join().unwrap()].into_iter().flatten().collect();
                while let Some(e) = q.get().pop() { got.push(e.get()); assert!(got.len() < 9, "[C01] more came out than went in"); }
                got.sort();
                assert!(got == (10..10 + n).collect::<Vec<_>>(), "[C01] {} values went in, {:?} came out", n, got);
                free();
                accounts();
            }
            /// There is room for every push, and an element for every pop.
            pub fn room() {
                begin();
                let (q, free) = shared();
                // not at the start of the first lap
                q.get().push(Elem::new(1)).ok();
                assert!(q.get().pop().map(|e| e.get()) == Some(1), "[C01] wrong value");
                let q2 = q.clone();
                let h = thread::spawn(move || if $cap > 1 { q2.get().push(Elem::new(10)).is_ok() } else { q2.get().pop().map(|e| e.get()); true });
                let a = q.get().push(Elem::new(20)).is_ok();
                let b = h.join().unwrap();
                assert!(a && b, "[C02] Full although there was room all the time");
                free();
                accounts();
            }
            pub fn has() {
                begin();
                let (q, free) = shared();
                q.get().push(Elem::new(1)).ok();
                assert!(q.get().pop().map(|e| e.get()) == Some(1), "[C01] wrong value");
                for i in 0..$cap as u32 { assert!(q.get().push(Elem::new(10 + i)).is_ok(), "[C02] Full although there was room"); }
                let q2 = q.clone();
                let h = thread::spawn(move || if $cap > 1 { q2.get().pop().is_some() } else { q2.get().push(Elem::new(20)).ok(); true });
                let a = q.get().pop().is_some();
                let b = h.join().unwrap();
                assert!(a && b, "[C02] Empty although there were elements all the time");
                free();
                accounts();
            }
            /// Never more than one element, and then never none.
            pub fn len_exact() {
                begin();
                let (q, free) = shared();
                let q2 = q.clone();
                let h = thread::spawn(move || for i in 0..2 { assert!(q2.get().push(Elem::new(10 + i)).is_ok(), "[C02] Full although it was empty"); assert!(q2.get().pop().map(|e| e.get()) == Some(10 + i), "[C01] wrong value"); });
                let n = q.get().len();
                assert!(n <= 1, "[C05] len() is {} but there was never more than one element", n);
                let r = q.get().remaining();
                assert!(r <= $cap && r >= $cap - 1, "[C05] remaining() is {} but there was never more than one element", r);
                h.join().unwrap();
                assert!(q.get().is_empty() && q.get().len() == 0, "[C05] the empty queue is not reported as empty");
                free();
                accounts();
            }
            pub fn len_some() {
                begin();
                let (q, free) = shared();
                q.get().push(Elem::new(9)).ok();
                if $cap < 2 { free(); accounts(); return; }
                let q2 = q.clone();
                let h = thread::spawn(move || for i in 0..2 { q2.get().push(Elem::new(10 + i)).ok(); q2.get().pop().map(|e| e.get()); });
                assert!(!q.get().is_empty(), "[C05] reported as empty but there was always an element");
                let n = q.get().len();
                assert!(n >= 1 && n <= $cap, "[C05] len() is {} but there was always an element", n);
                h.join().unwrap();
                assert!(q.get().len() == 1, "[C05] len() is not 1 with one element");
                free();
                accounts();
            }
            /// Lengths while others push and pop.
            pub fn len() {
                begin();
                let (q, free) = shared();
                q.get().push(Elem::new(10)).ok();
                let (q2, q3) = (q.clone(), q.clone());
                let h = thread::spawn(move || { q2.get().pop().map(|e| e.get()); q2.get().push(Elem::new(11)).is_ok() });
                let h3 = thread::spawn(move || q3.get().push(Elem::new(20)).is_ok());
                let n = q.get().len();
                assert!(n <= $cap, "[C05] len() {} exceeds the capacity", n);
                let r = q.get().remaining();
                assert!(r <= $cap, "[C05] remaining() {} exceeds the capacity", r);
                h.join().unwrap(); h3.join().unwrap();
                let n = q.get().len();
                let mut m = 0;
                while q.get().pop().is_some() { m += 1; assert!(m < 9, "[C01] more came out than went in"); }
                assert!(n == m, "[C05] len() is {} with {} elements", n, m);
                free();
                accounts();
            }
        }
    };
}
queue!(heap1, ThingBuf::new(1), 1, ThingBuf<Elem>);
queue!(heap2, ThingBuf::new(2), 2, ThingBuf<Elem>);
queue!(static2, StaticThingBuf::new(), 2, StaticThingBuf<Elem, 2>);

// ---- async channels --------------------------------------------------------
fn wait<F: Future>(f: F) -> F::Output { loom::future::block_on(f) }
fn noop() -> Waker {
    static VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
fn poll_once<F: Future>(f: Pin<&mut F>) -> Poll<F::Output> { f.poll(&mut Context::from_waker(&noop())) }

/// Once the end was reported every way to receive reports it.
macro_rules! ended {
    ($rx:expr) => { assert!(matches!($rx.try_recv(), Err(TryRecvError::Closed)) && $rx.is_closed(), "[C06,C07,C08] the end was reported, but is not there") };
}
macro_rules! channel {
    ($m:ident, $kind:ident, $make:expr, $cap:expr) => {
        mod $m {
            use super::*;
            use super::$kind::*;
            /// Two senders that may have to wait, a receiver that takes everything.
            pub fn all() {
                begin();
                let ((tx, rx), free) = $make;
                let hs: Vec<_> = (1..3u32).map(|p| { let tx = tx.clone(); thread::spawn(move || {
                    send!(tx, Elem::new(p * 10)).unwrap();
                }) }).collect();
                drop(tx);
                let mut got = vec![];
                while let Some(e) = recv!(rx) { got.push(e.get()); assert!(got.len() < 9, "[C01] more came out than went in"); }
                ended!(rx);
                for h in hs { h.join().unwrap(); }
                check_order(&got, 2, 1, true);
                assert!(rx.is_closed(), "[C07] is_closed() is false without senders");
                drop(rx);
                free();
                accounts();
            }
            /// One sender, several values through the channel by reference.
            pub fn refs() {
                begin();
                let ((tx, rx), free) = $make;
                let h = thread::spawn(move || for i in 0..$cap as u32 + 1 { let mut r = send_ref!(tx).unwrap(); let _ = r.get(); r.val = 10 + i; });
                let mut got = vec![];
                while let Some(r) = recv_ref!(rx) { got.push(r.get()); assert!(got.len() < 9, "[C01] more came out than went in"); }
                h.join().unwrap();
                check_order(&got, 1, $cap as u32 + 1, true);
                drop(rx);
                free();
                accounts();
            }
            /// The receiver goes away while senders wait.
            pub fn hang_up() {
                begin();
                let ((tx, rx), free) = $make;
                for i in 0..$cap as u32 { tx.try_send(Elem::new(30 + i)).ok(); }
                let hs: Vec<_> = (1..3u32).map(|p| { let tx = tx.clone(); thread::spawn(move || {
                    match send!(tx, Elem::new(p * 10)) { Ok(()) => true, Err(e) => { assert!(e.into_inner().get() == p * 10, "[C07] a failed send returned another value"); false } }
                }) }).collect();
                let first = rx.try_recv().map(|e| e.get());
                assert!(first.ok() == Some(30), "[C01] the first value is lost");
                drop(rx);
                let n = hs.into_iter().map(|h| h.join().unwrap()).filter(|x| *x).count();
                assert!(n <= $cap, "[C06] more sends succeeded than fit");
                match tx.try_send(Elem::new(99)) { Err(TrySendError::Closed(e)) => assert!(e.get() == 99, "[C07] a failed send returned another value"), _ => panic!("[C06,C04] a send succeeded although the receiver is gone") }
                drop(tx);
                free();
                accounts();
            }
            /// A non-waiting sender against a waiting receiver, then the end.
            pub fn wake_rx() {
                begin();
                let ((tx, rx), free) = $make;
                let h = thread::spawn(move || { let ok = tx.try_send(Elem::new(10)).is_ok(); drop(tx); ok });
                let a = recv!(rx).map(|e| e.get());
                assert!(h.join().unwrap(), "[C02] Full although the channel was empty");
                assert!(a == Some(10), "[C01,C02,C06] received {:?} instead of the value sent", a);
                assert!(recv!(rx).is_none(), "[C06] received something after the end");
                ended!(rx);
                drop(rx);
                free();
                accounts();
            }
            /// Taking what is there without waiting, until the end.
            pub fn drain() {
                begin();
                let ((tx, rx), free) = $make;
                let h = thread::spawn(move || (0..$cap as u32).all(|i| tx.try_send(Elem::new(10 + i)).is_ok()));
                let mut got = vec![];
                loop {
                    match rx.try_recv() {
                        Ok(e) => got.push(e.get()),
                        Err(TryRecvError::Closed) => break,
                        Err(_) => thread::yield_now(),
                    }
                    assert!(got.len() < 9, "[C01] more came out than went in");
                }
                assert!(h.join().unwrap(), "[C02] Full although there was room all the time");
                assert!(got == (10..10 + $cap as u32).collect::<Vec<_>>(), "[C01,C02,C06] received {:?} before the end", got);
                drop(rx);
                free();
                accounts();
            }
            /// Reference held while the other side works.
            pub fn held() {
                begin();
                let ((tx, rx), free) = $make;
                tx.try_send(Elem::new(10)).ok();
                let h = thread::spawn(move || send!(tx, Elem::new(11)).is_ok());
                let mut got = vec![];
                while let Some(r) = recv_ref!(rx) { got.push(r.get()); thread::yield_now(); got.push(r.get()); assert!(got.len() < 9, "[C01] more came out than went in"); }
                assert!(h.join().unwrap(), "[C06] closed although the receiver is there");
                assert!(got == [10, 10, 11, 11], "[C01,C03] received {:?}", got);
                drop(rx);
                free();
                accounts();
            }
            /// Cloning and dropping senders in two threads.
            pub fn clones() {
                begin();
                let ((tx, rx), free) = $make;
                let t2 = tx.clone();
                let h = thread::spawn(move || { let t3 = t2.clone(); drop(t2); t3.try_send(Elem::new(10)).ok(); });
                drop(tx);
                let mut got = vec![];
                while let Some(e) = recv!(rx) { got.push(e.get()); assert!(got.len() < 9, "[C01] more came out than went in"); }
                ended!(rx);
                h.join().unwrap();
                assert!(got == [10], "[C06,C01,C02] the channel ended early: {:?}", got);
                assert!(rx.is_closed(), "[C07] is_closed() is false without senders");
                drop(rx);
                free();
                accounts();
            }
        }
    };
}
#[allow(unused_macros)]
mod awaiting {
    macro_rules! send { ($tx:expr, $v:expr) => { wait($tx.send($v)) } }
    macro_rules! send_ref { ($tx:expr) => { wait($tx.send_ref()) } }
    macro_rules! recv { ($rx:expr) => { wait($rx.recv()) } }
    macro_rules! recv_ref { ($rx:expr) => { wait($rx.recv_ref()) } }
    pub(crate) use {recv, recv_ref, send, send_ref};
}
#[allow(unused_macros)]
mod parking {
    macro_rules! send { ($tx:expr, $v:expr) => { $tx.send($v) } }
    macro_rules! send_ref { ($tx:expr) => { $tx.send_ref() } }
    macro_rules! recv { ($rx:expr) => { $rx.recv() } }
    macro_rules! recv_ref { ($rx:expr) => { $rx.recv_ref() } }
    pub(crate) use {recv, recv_ref, send, send_ref};
}
fn heap_async<const N: usize>() -> ((mpsc::Sender<Elem>, mpsc::Receiver<Elem>), Box<dyn FnOnce()>) { (mpsc::channel(N), Box::new(|| {})) }
fn heap_blocking<const N: usize>() -> ((blocking::Sender<Elem>, blocking::Receiver<Elem>), Box<dyn FnOnce()>) { (blocking::channel(N), Box::new(|| {})) }
fn static_async<const N: usize>() -> ((mpsc::StaticSender<Elem>, mpsc::StaticReceiver<Elem>), Box<dyn FnOnce()>) {
    let p = Box::into_raw(Box::new(mpsc::StaticChannel::<Elem, N>::new()));
    (unsafe { &*p }.split(), Box::new(move || drop(unsafe { Box::from_raw(p) })))
}
fn static_blocking<const N: usize>() -> ((blocking::StaticSender<Elem>, blocking::StaticReceiver<Elem>), Box<dyn FnOnce()>) {
    let p = Box::into_raw(Box::new(blocking::StaticChannel::<Elem, N>::new()));
    (unsafe { &*p }.split(), Box::new(move || drop(unsafe { Box::from_raw(p) })))
}
channel!(async1, awaiting, heap_async::<1>(), 1);
channel!(async2, awaiting, heap_async::<2>(), 2);
channel!(sasync1, awaiting, static_async::<1>(), 1);
channel!(blocking1, parking, heap_blocking::<1>(), 1);
channel!(blocking2, parking, heap_blocking::<2>(), 2);
channel!(sblocking1, parking, static_blocking::<1>(), 1);

/// A waiting send is abandoned while the receiver frees the slot: the other waiting sender must go on.
fn cancel() {
    begin();
    let (tx, rx) = mpsc::channel::<Elem>(1);
    tx.try_send(Elem::new(10)).ok();
    let t2 = tx.clone();
    let h = thread::spawn(move || { let mut f = Box::pin(t2.send(Elem::new(20))); poll_once(f.as_mut()).is_ready() });
    let h2 = thread::spawn(move || wait(tx.send(Elem::new(30))).is_ok());
    let mut got = vec![];
    for _ in 0..2 { if let Some(e) = wait(rx.recv()) { got.push(e.get()); } }
    let cancelled_sent = h.join().unwrap();
    if cancelled_sent { if let Some(e) = wait(rx.recv()) { got.push(e.get()); } }
    assert!(h2.join().unwrap(), "[C06] closed although the receiver is there");
    got.sort();
    assert!(if cancelled_sent { got == [10, 20, 30] } else { got == [10, 30] }, "[C01,C10] received {:?}", got);
    drop(rx);
    accounts();
}
/// Three waiting sends on one thread, the middle one dropped while another thread receives.
fn cancel_middle() {
    begin();
    let (tx, rx) = mpsc::channel::<Elem>(1);
    tx.try_send(Elem::new(10)).ok();
    let mut fs: Vec<_> = (1..4u32).map(|i| Some(Box::pin(tx.send(Elem::new(10 * i + 1))))).collect();
    for f in fs.iter_mut() { assert!(poll_once(f.as_mut().unwrap().as_mut()).is_pending(), "[C02] a send succeeded on a full channel"); }
    let h = thread::spawn(move || { let a = rx.try_recv().map(|e| e.get()).ok(); (rx, a) });
    fs[1] = None;
    let (rx, a) = h.join().unwrap();
    assert!(a == Some(10), "[C01] received {:?}", a);
    assert!(poll_once(fs[0].as_mut().unwrap().as_mut()).is_ready(), "[C09] the sender waiting longest was not told");
    assert!(rx.try_recv().map(|e| e.get()).ok() == Some(11), "[C01] wrong value");
    assert!(poll_once(fs[2].as_mut().unwrap().as_mut()).is_ready(), "[C09,C10] the next sender was not told");
    drop(fs);
    drop(rx);
    drop(tx);
    accounts();
}
/// Polled again with another waker while being notified.
fn change_waker() {
    begin();
    let (tx, rx) = mpsc::channel::<Elem>(1);
    tx.try_send(Elem::new(10)).ok();
    let h = thread::spawn(move || {
        let mut f = Box::pin(tx.send(Elem::new(11)));
        if poll_once(f.as_mut()).is_ready() { return; }
        wait(f).ok();
    });
    let mut got = vec![];
    while let Some(e) = wait(rx.recv()) { got.push(e.get()); assert!(got.len() < 9, "[C01] more came out than went in"); }
    h.join().unwrap();
    assert!(got == [10, 11], "[C01] received {:?}", got);
    drop(rx);
    accounts();
}
/// The receiver polls with one waker, then waits with another.
fn change_rx_waker() {
    begin();
    let (tx, rx) = mpsc::channel::<Elem>(2);
    let h = thread::spawn(move || { tx.try_send(Elem::new(10)).ok(); tx.try_send(Elem::new(11)).ok(); });
    let mut got = vec![];
    {
        let mut f = pin!(rx.recv());
        if let Poll::Ready(e) = poll_once(f.as_mut()) { got.extend(e.map(|e| e.get())); }
    }
    while let Some(e) = wait(rx.recv()) { got.push(e.get()); assert!(got.len() < 9, "[C01] more came out than went in"); }
    h.join().unwrap();
    assert!(got == [10, 11], "[C01] received {:?}", got);
    drop(rx);
    accounts();
}
/// A timed send that may give up, next to one that waits.
fn timeout() {
    begin();
    let (tx, rx) = blocking::channel::<Elem>(1);
    tx.try_send(Elem::new(10)).ok();
    let t2 = tx.clone();
    let h = thread::spawn(move || match t2.send_timeout(Elem::new(20), Duration::from_millis(10)) {
        Ok(()) => true,
        Err(SendTimeoutError::Timeout(e)) => { assert!(e.get() == 20, "[C07] a failed send returned another value"); false }
        Err(_) => panic!("[C14,C06] closed although the receiver is there"),
    });
    let h2 = thread::spawn(move || tx.send(Elem::new(30)).is_ok());
    let mut got = vec![];
    while let Some(e) = rx.recv() { got.push(e.get()); assert!(got.len() < 9, "[C01] more came out than went in"); }
    let timed = h.join().unwrap();
    assert!(h2.join().unwrap(), "[C06] closed although the receiver is there");
    got.sort();
    assert!(if timed { got == [10, 20, 30] } else { got == [10, 30] }, "[C01,C10,C14] received {:?}", got);
    drop(rx);
    accounts();
}
/// A timed receive against a send.
fn recv_timeout() {
    begin();
    let (tx, rx) = blocking::channel::<Elem>(1);
    let h = thread::spawn(move || { tx.send(Elem::new(10)).unwrap(); tx });
    let a = match rx.recv_timeout(Duration::from_millis(10)) { Ok(e) => Some(e.get()), Err(RecvTimeoutError::Timeout) => None, Err(_) => panic!("[C14,C06] closed although the sender is there") };
    let tx = h.join().unwrap();
    let b = rx.try_recv().ok().map(|e| e.get());
    assert!(a.or(b) == Some(10) && (a.is_none() || b.is_none()), "[C01] received {:?} then {:?}", a, b);
    drop(tx);
    assert!(matches!(rx.recv_timeout(Duration::from_millis(10)), Err(RecvTimeoutError::Closed)), "[C14] a closed channel must be reported as closed");
    drop(rx);
    accounts();
}
macro_rules! split {
    ($name:ident, $t:ty) => {
        fn $name() {
            begin();
            let p = Box::into_raw(Box::new(<$t>::new()));
            let n = std::rc::Rc::new(Cell::new(0));
            struct S(std::rc::Rc<Cell<u32>>, *mut $t);
            unsafe impl Send for S {}
            impl S { fn go(self) { let c = unsafe { &*self.1 }; if let Some((tx, rx)) = c.try_split() {
                self.0.set(self.0.get() + 1);
                tx.try_send(Elem::new(10)).ok();
                assert!(rx.try_recv().map(|e| e.get()).ok() == Some(10), "[C13] the halves do not work");
                assert!(c.try_split().is_none(), "[C13] a split channel was split again");
            } } }
            let hs: Vec<_> = (0..2).map(|_| { let s = S(n.clone(), p); thread::spawn(move || s.go()) }).collect();
            for h in hs { h.join().unwrap(); }
            assert!(n.get() == 1, "[C13] split {} times", n.get());
            drop(unsafe { Box::from_raw(p) });
            accounts();
        }
    };
}
split!(split_async, mpsc::StaticChannel<Elem, 1>);
split!(split_blocking, blocking::StaticChannel<Elem, 1>);
fn spin() { unsafe { verif_trace_reset(); verif_spin_model() } }

/// name, properties a deadlock speaks against, program
static LIST: &[(&str, &str, fn())] = &[
    ("heap1_mpsc", "C11", heap1::mpsc), ("heap1_refs", "C11", heap1::refs), ("heap1_spmc", "C11", heap1::spmc), ("heap1_len", "C11", heap1::len), ("heap1_len_exact", "C11", heap1::len_exact), ("heap1_len_some", "C11", heap1::len_some), ("heap1_room", "C11", heap1::room), ("heap1_has", "C11", heap1::has),
    ("heap2_mpsc", "C11", heap2::mpsc), ("heap2_refs", "C11", heap2::refs), ("heap2_spmc", "C11", heap2::spmc), ("heap2_len", "C11", heap2::len), ("heap2_len_exact", "C11", heap2::len_exact), ("heap2_len_some", "C11", heap2::len_some), ("heap2_room", "C11", heap2::room), ("heap2_has", "C11", heap2::has),
    ("static2_mpsc", "C11", static2::mpsc), ("static2_refs", "C11", static2::refs), ("static2_spmc", "C11", static2::spmc), ("static2_len", "C11", static2::len), ("static2_len_exact", "C11", static2::len_exact), ("static2_len_some", "C11", static2::len_some), ("static2_room", "C11", static2::room), ("static2_has", "C11", static2::has),
    ("async1_all", "C08,C09", async1::all), ("async1_refs", "C08,C09", async1::refs), ("async1_hang_up", "C06,C09", async1::hang_up),
    ("async1_wake_rx", "C08,C06", async1::wake_rx), ("async1_drain", "C11", async1::drain), ("async1_held", "C08,C09", async1::held), ("async1_clones", "C06,C08", async1::clones),
    ("async2_all", "C08,C09", async2::all), ("async2_refs", "C08,C09", async2::refs), ("async2_hang_up", "C06,C09", async2::hang_up),
    ("async2_wake_rx", "C08,C06", async2::wake_rx), ("async2_drain", "C11", async2::drain), ("async2_held", "C08,C09", async2::held), ("async2_clones", "C06,C08", async2::clones),
    ("sasync1_all", "C08,C09", sasync1::all), ("sasync1_refs", "C08,C09", sasync1::refs), ("sasync1_hang_up", "C06,C09", sasync1::hang_up),
    ("sasync1_wake_rx", "C08,C06", sasync1::wake_rx), ("sasync1_drain", "C11", sasync1::drain), ("sasync1_held", "C08,C09", sasync1::held), ("sasync1_clones", "C06,C08", sasync1::clones),
    ("blocking1_all", "C08,C09", blocking1::all), ("blocking1_refs", "C08,C09", blocking1::refs), ("blocking1_hang_up", "C06,C09", blocking1::hang_up),
    ("blocking1_wake_rx", "C08,C06", blocking1::wake_rx), ("blocking1_drain", "C11", blocking1::drain), ("blocking1_held", "C08,C09", blocking1::held), ("blocking1_clones", "C06,C08", blocking1::clones),
    ("blocking2_all", "C08,C09", blocking2::all), ("blocking2_refs", "C08,C09", blocking2::refs), ("blocking2_hang_up", "C06,C09", blocking2::hang_up),
    ("blocking2_wake_rx", "C08,C06", blocking2::wake_rx), ("blocking2_drain", "C11", blocking2::drain), ("blocking2_held", "C08,C09", blocking2::held), ("blocking2_clones", "C06,C08", blocking2::clones),
    ("sblocking1_all", "C08,C09", sblocking1::all), ("sblocking1_refs", "C08,C09", sblocking1::refs), ("sblocking1_hang_up", "C06,C09", sblocking1::hang_up),
    ("sblocking1_wake_rx", "C08,C06", sblocking1::wake_rx), ("sblocking1_drain", "C11", sblocking1::drain), ("sblocking1_held", "C08,C09", sblocking1::held), ("sblocking1_clones", "C06,C08", sblocking1::clones),
    ("cancel", "C09,C10", cancel), ("cancel_middle", "C09,C10", cancel_middle), ("change_waker", "C09,C10", change_waker), ("change_rx_waker", "C08", change_rx_waker),
    ("timeout", "C09,C10,C14", timeout), ("recv_timeout", "C14,C08", recv_timeout),
    ("split_async", "C13", split_async), ("split_blocking", "C13", split_blocking), ("spin", "C15", spin),
];

static N: Plain = Plain::new(0);

/// The first panic of a run says what went wrong; nothing after it counts.
fn verdict(name: &str, dead: &str, only: &Option<String>, m: &str, at: &str) -> ! {
    let m = m.replace('\n', " ");
    println!("CASES {}", N.load(SeqCst));
    let in_loom = at.contains("/loom-") || at.contains("/generator-") || at.contains("loom_inner.rs");
    let race = if name == "spin" { "C15" } else if name.contains("heap") || name.contains("static2") { "C01,C03" } else { "C01,C03,C08,C09,C10" };
    let (props, m) = if let Some((p, r)) = m.strip_prefix('[').and_then(|x| x.split_once(']')) { (p.to_string(), r.trim().to_string()) }
        else if m.contains("deadlock") { (dead.to_string(), format!("somebody waits forever: {}", m)) }
        else if m.contains("Causality violation") || m.contains("oncurrent") || m.contains("currently writing to cell") || m.contains("currently reading from cell") { (race.to_string(), format!("data race: {}", m)) }
        else if in_loom && m.contains("leaked") { ("C04,C06".to_string(), m) }
        else if in_loom { println!("UNDECIDED {} ({})", m, at); std::process::exit(0) }
        else { (format!("C11,{}", dead), format!("an operation panicked: {}", m)) };
    let mut props = props;
    // a channel has to deliver everything before its end; a static one has to work like any other
    let queue = ["heap", "static2", "split", "spin"].iter().any(|q| name.starts_with(q));
    if props.contains("C01") && !queue { props += ",C06" }
    if ["static2", "sasync", "sblocking", "split"].iter().any(|q| name.starts_with(q)) { props += ",C13" }
    if only.as_ref().map_or(true, |o| props.split(',').any(|p| p.trim() == *o)) {
        println!("FAIL {} execution {}", name, N.load(SeqCst));
        println!("REASON [{}] {} ({})", props, m, at);
        println!("the schedule:");
        unsafe { verif_trace_print() };
        std::process::exit(1);
    }
    println!("OTHER [{}] {}", props, m);
    std::process::exit(0)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" { for (n, ..) in LIST { println!("{}", n); } return; }
    let (name, dead, f) = *LIST.iter().find(|l| l.0 == a[1]).expect("scenario");
    let only = a.get(4).cloned();
    std::panic::set_hook(Box::new(move |i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        verdict(name, dead, &only, &m, &i.location().map(|l| l.to_string()).unwrap_or_default());
    }));
    let mut b = loom::model::Builder::new();
    b.preemption_bound = Some(a[2].parse().unwrap());
    b.max_branches = 5_000;
    b.max_duration = Some(Duration::from_secs(a[3].parse().unwrap()));
    b.log = false;
    b.location = true;
    b.check(move || { N.fetch_add(1, SeqCst); f() });
    println!("CASES {}", N.load(SeqCst));
}
