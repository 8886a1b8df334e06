//! Real threads: whoever waits is woken, whatever is sent arrives.  The verdicts
//! never depend on how fast anything is, except that an operation that has not
//! come back after a minute never will.
use crate::*;
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::AtomicU32;
use std::task::{Context, Poll, Wake};
use std::thread;
use thingbuf::mpsc::{self, blocking, errors::*};
use thingbuf::{StaticThingBuf, ThingBuf};

/// Made up of parts that have to agree, and counted.
static LIVE: AtomicUsize = AtomicUsize::new(0);
static TORN: AtomicBool = AtomicBool::new(false);
struct Item { a: u64, b: Box<u64>, c: u64 }
impl Item {
    fn new(v: u64) -> Item { LIVE.fetch_add(1, SeqCst); Item { a: v, b: Box::new(v), c: !v } }
    fn get(&self) -> u64 { if self.a != *self.b || self.a != !self.c { TORN.store(true, SeqCst); } self.a }
    fn set(&mut self, v: u64) { let _ = self.get(); self.a = v; *self.b = v; self.c = !v; }
}
impl Default for Item { fn default() -> Item { Item::new(0) } }
impl Clone for Item { fn clone(&self) -> Item { Item::new(self.get()) } }
impl Drop for Item { fn drop(&mut self) { let _ = self.get(); LIVE.fetch_sub(1, SeqCst); } }
fn begin() { LIVE.store(0, SeqCst); TORN.store(false, SeqCst); }
fn end(what: &str) -> Res {
    check!(!TORN.load(SeqCst), "C03,C01", "{}: an element was seen half written", what);
    check!(LIVE.load(SeqCst) == 0, "C04", "{}: {} elements were never dropped (or some twice)", what, LIVE.load(SeqCst) as isize);
    Ok(())
}
/// v = producer * 2^32 + number
fn in_order(what: &str, got: &[u64], producers: u64, each: u64) -> Res {
    let mut next = vec![0u64; producers as usize];
    for v in got {
        let (p, n) = ((v >> 32) as usize, v & 0xffff_ffff);
        check!(p >= 1 && p <= producers as usize && n == next[p - 1], "C01", "{}: producer {} sent 0.., after {} values came {}", what, p, next.get(p.wrapping_sub(1)).copied().unwrap_or(0), n);
        next[p - 1] += 1;
    }
    check!(next.iter().all(|n| *n == each), "C01", "{}: of {} values each came {:?}", what, each, next);
    Ok(())
}

struct Unpark(thread::Thread);
impl Wake for Unpark { fn wake(self: Arc<Self>) { self.0.unpark() } fn wake_by_ref(self: &Arc<Self>) { self.0.unpark() } }
fn block_on<F: Future>(f: F) -> F::Output {
    let w = Arc::new(Unpark(thread::current())).into();
    let mut f = pin!(f);
    loop { match f.as_mut().poll(&mut Context::from_waker(&w)) { Poll::Ready(x) => return x, Poll::Pending => thread::park() } }
}
fn poll_once<F: Future>(f: std::pin::Pin<&mut F>) -> Option<F::Output> {
    let w = Arc::new(Unpark(thread::current())).into();
    match f.poll(&mut Context::from_waker(&w)) { Poll::Ready(x) => Some(x), Poll::Pending => None }
}

const EACH: u64 = 300;
macro_rules! stress {
    ($name:ident, $what:expr, $make:expr, $free:ident, |$tx:ident, $v:ident| $send:expr, |$rx:ident| $recv:expr) => {
        fn $name() -> Res {
            for round in 0..4 {
                begin();
                let ((tx, $rx), $free) = $make;
                let hs: Vec<_> = (1..4u64).map(|p| { let $tx = tx.clone(); thread::spawn(move || {
                    for i in 0..EACH { let $v = p << 32 | i; if !$send { return false; } if round % 2 == 1 && i % 7 == 0 { thread::yield_now(); } }
                    true
                }) }).collect();
                drop(tx);
                let mut got = vec![];
                while let Some(v) = $recv { got.push(v); if got.len() > 4 * EACH as usize { break; } if round >= 2 && got.len() % 50 == 0 { thread::sleep(Duration::from_micros(200)); } }
                for h in hs { check!(h.join().unwrap(), "C06", "{}: closed although the receiver is there", $what); }
                check!($rx.is_closed(), "C07,C06", "{}: is_closed() is false without senders", $what);
                drop($rx);
                $free();
                in_order($what, &got, 3, EACH)?;
                end($what)?;
            }
            Ok(())
        }
    };
}
stress!(s_blocking1, "blocking, capacity 1", (blocking::channel::<Item>(1), || ()), free, |tx, v| tx.send(Item::new(v)).is_ok(), |rx| rx.recv().map(|e| e.get()));
stress!(s_blocking3, "blocking, capacity 3, by reference", (blocking::channel::<Item>(3), || ()), free, |tx, v| tx.send_ref().map(|mut r| r.set(v)).is_ok(), |rx| rx.recv_ref().map(|e| e.get()));
stress!(s_blocking_timed, "blocking with timeouts, capacity 2", (blocking::channel::<Item>(2), || ()), free,
    |tx, v| { let mut e = Item::new(v); loop { match tx.send_timeout(e, Duration::from_micros(50)) { Ok(()) => break true, Err(SendTimeoutError::Timeout(x)) => e = x, Err(_) => break false } } },
    |rx| loop { match rx.recv_timeout(Duration::from_micros(70)) { Ok(e) => break Some(e.get()), Err(RecvTimeoutError::Timeout) => {} Err(_) => break None } });
stress!(s_blocking_try, "blocking, try_send and try_recv", (blocking::channel::<Item>(2), || ()), free,
    |tx, v| { let mut e = Item::new(v); loop { match tx.try_send(e) { Ok(()) => break true, Err(TrySendError::Full(x)) => { e = x; thread::yield_now() } Err(_) => break false } } },
    |rx| loop { match rx.try_recv() { Ok(e) => break Some(e.get()), Err(TryRecvError::Empty) => thread::yield_now(), Err(_) => break None } });
stress!(s_blocking_mixed, "blocking, try_send against recv", (blocking::channel::<Item>(2), || ()), free,
    |tx, v| { let mut e = Item::new(v); loop { match tx.try_send(e) { Ok(()) => break true, Err(TrySendError::Full(x)) => { e = x; thread::yield_now() } Err(_) => break false } } },
    |rx| rx.recv_ref().map(|e| e.get()));
stress!(s_async1, "async, capacity 1", (mpsc::channel::<Item>(1), || ()), free, |tx, v| block_on(tx.send(Item::new(v))).is_ok(), |rx| block_on(rx.recv()).map(|e| e.get()));
stress!(s_async3, "async, capacity 3, by reference", (mpsc::channel::<Item>(3), || ()), free, |tx, v| block_on(tx.send_ref()).map(|mut r| r.set(v)).is_ok(), |rx| block_on(rx.recv_ref()).map(|e| e.get()));
stress!(s_async_cancel, "async, sends abandoned and retried, capacity 2", (mpsc::channel::<Item>(2), || ()), free,
    |tx, v| { if v % 3 == 0 { block_on(tx.send(Item::new(v))).is_ok() } else { loop {
        let mut f = pin!(tx.send_ref());
        match poll_once(f.as_mut()) { Some(Ok(mut r)) => { r.set(v); break true } Some(Err(_)) => break false, None => {} }
        thread::yield_now();
    } } },
    |rx| block_on(rx.recv()).map(|e| e.get()));
stress!(s_async_cancel_rx, "async, receives abandoned and retried", (mpsc::channel::<Item>(2), || ()), free,
    |tx, v| block_on(tx.send(Item::new(v))).is_ok(),
    |rx| { { let mut f = pin!(rx.recv_ref()); match poll_once(f.as_mut()) { Some(r) => Some(r.map(|e| e.get())), None => None } }.unwrap_or_else(|| block_on(rx.recv()).map(|e| e.get())) });
fn sa<const N: usize>() -> ((mpsc::StaticSender<Item>, mpsc::StaticReceiver<Item>), impl FnOnce()) {
    let p = Box::into_raw(Box::new(mpsc::StaticChannel::<Item, N>::new()));
    (unsafe { &*p }.split(), move || drop(unsafe { Box::from_raw(p) }))
}
fn sb<const N: usize>() -> ((blocking::StaticSender<Item>, blocking::StaticReceiver<Item>), impl FnOnce()) {
    let p = Box::into_raw(Box::new(blocking::StaticChannel::<Item, N>::new()));
    (unsafe { &*p }.split(), move || drop(unsafe { Box::from_raw(p) }))
}
stress!(s_static_async, "static async, capacity 2", sa::<2>(), free, |tx, v| block_on(tx.send(Item::new(v))).is_ok(), |rx| block_on(rx.recv()).map(|e| e.get()));
stress!(s_static_blocking, "static blocking, capacity 2", sb::<2>(), free, |tx, v| tx.send(Item::new(v)).is_ok(), |rx| rx.recv().map(|e| e.get()));

macro_rules! queue {
    ($name:ident, $what:expr, $make:expr) => {
        /// Several producers and consumers on a queue, by value and by reference.
        fn $name() -> Res {
            for round in 0..3 {
                begin();
                let q = Arc::new($make);
                let stop = Arc::new(AtomicBool::new(false));
                let hs: Vec<_> = (1..4u64).map(|p| { let q = q.clone(); thread::spawn(move || for i in 0..EACH {
                    let v = p << 32 | i;
                    if i % 2 == 0 { let mut e = Item::new(v); while let Err(x) = q.push(e) { e = x.into_inner(); thread::yield_now(); } }
                    else { loop { if let Ok(mut r) = q.push_ref() { r.set(v); break; } thread::yield_now(); } }
                }) }).collect();
                let consumers = if round == 0 { 1 } else { 3 };
                let cs: Vec<_> = (0..consumers).map(|c| { let (q, stop) = (q.clone(), stop.clone()); thread::spawn(move || {
                    let mut got = vec![];
                    loop {
                        let over = stop.load(SeqCst);
                        let v = if c % 2 == 0 { q.pop().map(|e| e.get()) } else { q.pop_ref().map(|e| e.get()) };
                        let n = q.len();
                        if n > q.capacity() { return Err(("C05", format!("{}: len() is {}", $what, n))); }
                        match v { Some(v) => got.push(v), None if over => return Ok(got), None => thread::yield_now() }
                        if got.len() > 4 * EACH as usize { return Err(("C01", format!("{}: more came out than went in", $what))); }
                    }
                }) }).collect();
                for h in hs { h.join().unwrap(); }
                stop.store(true, SeqCst);
                let mut all = vec![];
                for c in cs {
                    let got = c.join().unwrap()?;
                    for p in 1..4 { let mine: Vec<_> = got.iter().filter(|v| *v >> 32 == p).collect(); check!(mine.windows(2).all(|w| w[0] < w[1]), "C01", "{}: one consumer saw producer {} out of order", $what, p); }
                    all.extend(got);
                }
                if consumers > 1 { all.sort(); }
                drop(q);
                in_order($what, &all, 3, EACH)?;
                end($what)?;
            }
            Ok(())
        }
    };
}
queue!(q_heap1, "ThingBuf, capacity 1", ThingBuf::<Item>::new(1));
queue!(q_heap2, "ThingBuf, capacity 2", ThingBuf::<Item>::new(2));
queue!(q_heap5, "ThingBuf, capacity 5", ThingBuf::<Item>::new(5));
queue!(q_static3, "StaticThingBuf, capacity 3", StaticThingBuf::<Item, 3>::new());

/// Waiters that only the other side's end can release.
fn ends() -> Res {
    for unwinding in [false, true] {
        // drops the value, in a thread that is unwinding or not
        fn drop_in<T: Send + 'static>(x: T, unwinding: bool) { let _ = thread::spawn(move || { thread::sleep(Duration::from_millis(15)); let _x = x; if unwinding { panic!("deliberate") } }).join(); }
        macro_rules! each {
            ($make:expr, |$tx:ident| $send:expr, |$rx:ident| $recv:expr) => {{
                // the receiver waits, the last sender goes
                let ((tx, $rx), free) = $make;
                let t2 = tx.clone();
                let h = thread::spawn(move || { let r = $recv.is_none(); (r, $rx.is_closed(), $rx) });
                drop_in(tx, unwinding);
                drop_in(t2, unwinding);
                let (r, closed, rx) = h.join().unwrap();
                check!(r && closed, "C06,C08", "no end of the channel although every sender is gone (unwinding: {})", unwinding);
                drop(rx);
                free();
                // two senders wait, the receiver goes
                let (($tx, rx), free) = $make;
                check!($tx.try_send(Item::new(1)).is_ok(), "C02", "Full although empty");
                let hs: Vec<_> = (0..3).map(|_| { let $tx = $tx.clone(); thread::spawn(move || $send) }).collect();
                drop_in(rx, unwinding);
                for h in hs { check!(!h.join().unwrap(), "C06", "a send succeeded although the receiver is gone (unwinding: {})", unwinding); }
                check!(matches!($tx.try_send(Item::new(2)), Err(TrySendError::Closed(_))), "C06", "not closed although the receiver is gone (unwinding: {})", unwinding);
                drop($tx);
                free();
            }};
        }
        begin();
        each!((blocking::channel::<Item>(1), || ()), |tx| tx.send(Item::new(5)).is_ok(), |rx| rx.recv());
        each!((blocking::channel::<Item>(1), || ()), |tx| tx.send_ref().is_ok(), |rx| rx.recv_ref());
        each!((blocking::channel::<Item>(1), || ()), |tx| tx.send_timeout(Item::new(5), Duration::from_secs(1000)).is_ok(), |rx| rx.recv_timeout(Duration::from_secs(1000)).ok());
        each!((mpsc::channel::<Item>(1), || ()), |tx| block_on(tx.send(Item::new(5))).is_ok(), |rx| block_on(rx.recv()));
        each!((mpsc::channel::<Item>(1), || ()), |tx| block_on(tx.send_ref()).is_ok(), |rx| block_on(rx.recv_ref()));
        each!(sa::<1>(), |tx| block_on(tx.send(Item::new(5))).is_ok(), |rx| block_on(rx.recv()));
        each!(sb::<1>(), |tx| tx.send(Item::new(5)).is_ok(), |rx| rx.recv());
        end("ends")?;
    }
    // a reference dropped while unwinding is released
    begin();
    let (tx, rx) = blocking::channel::<Item>(1);
    let t2 = tx.clone();
    let _ = thread::spawn(move || { let mut r = t2.send_ref().unwrap(); r.set(7); panic!("deliberate") }).join();
    check!(rx.try_recv().map(|e| e.get()) == Ok(7), "C11,C01", "a reference dropped while unwinding did not publish its slot");
    tx.try_send(Item::new(8)).ok();
    let _ = thread::scope(|s| { let rx = &rx; s.spawn(move || { let _r = rx.try_recv_ref(); panic!("deliberate") }).join().is_err() });
    check!(tx.try_send(Item::new(9)).is_ok(), "C11,C02", "a reference dropped while unwinding did not free its slot");
    drop((tx, rx));
    end("unwinding")
}

/// Woken all the time for no reason, a timed operation still ends in time, and not before.
fn deadlines() -> Res {
    // the last ones are not whole numbers of milliseconds
    for us in [60_000, 700, 1_700, 25_999] {
        deadline(Duration::from_micros(us))?;
    }
    durations()
}

fn deadline(d: Duration) -> Res {
    // spurious wakeups: often enough that several come before the deadline
    let every = d / 20;
    macro_rules! timed {
        ($what:expr, $make:expr, |$tx:ident, $rx:ident| $op:expr) => {{
            begin();
            let (($tx, $rx), free) = $make;
            $tx.try_send(Item::new(1)).ok();
            let keep = AtomicU32::new(0);
            let took = thread::scope(|s| {
                let me = thread::current();
                let k = &keep;
                s.spawn(move || while k.load(SeqCst) == 0 { me.unpark(); thread::sleep(every); });
                let t = Instant::now();
                let timed_out = $op;
                let took = t.elapsed();
                keep.store(1, SeqCst);
                if timed_out { Some(took) } else { None }
            });
            match took {
                None => return Err(("C14", format!("{}: did not report a timeout", $what))),
                Some(t) => check!(t >= d, "C14", "{}: timed out after {:?} instead of {:?}", $what, t, d),
            }
            drop(($tx, $rx));
            free();
            end($what)?;
        }};
    }
    timed!("send_timeout", (blocking::channel::<Item>(1), || ()), |tx, rx| matches!(tx.send_timeout(Item::new(2), d), Err(SendTimeoutError::Timeout(_))));
    timed!("send_ref_timeout", (blocking::channel::<Item>(1), || ()), |tx, rx| matches!(tx.send_ref_timeout(d).map(|_| ()), Err(SendTimeoutError::Timeout(()))));
    timed!("recv_timeout", (blocking::channel::<Item>(1), || ()), |tx, rx| { rx.try_recv().ok(); matches!(rx.recv_timeout(d), Err(RecvTimeoutError::Timeout)) });
    timed!("recv_ref_timeout", (blocking::channel::<Item>(1), || ()), |tx, rx| { rx.try_recv().ok(); matches!(rx.recv_ref_timeout(d), Err(RecvTimeoutError::Timeout)) });
    timed!("static send_timeout", sb::<1>(), |tx, rx| matches!(tx.send_timeout(Item::new(2), d), Err(SendTimeoutError::Timeout(_))));
    timed!("static send_ref_timeout", sb::<1>(), |tx, rx| matches!(tx.send_ref_timeout(d).map(|_| ()), Err(SendTimeoutError::Timeout(()))));
    timed!("static recv_timeout", sb::<1>(), |tx, rx| { rx.try_recv().ok(); matches!(rx.recv_timeout(d), Err(RecvTimeoutError::Timeout)) });
    timed!("static recv_ref_timeout", sb::<1>(), |tx, rx| { rx.try_recv().ok(); matches!(rx.recv_ref_timeout(d), Err(RecvTimeoutError::Timeout)) });
    Ok(())
}

fn durations() -> Res {
    // no time at all, and all the time there is
    begin();
    let (tx, rx) = blocking::channel::<Item>(1);
    for d in [Duration::ZERO, Duration::from_nanos(1), Duration::MAX, Duration::from_secs(u64::MAX / 4)] {
        check!(tx.send_timeout(Item::new(1), d).is_ok(), "C14,C02", "send_timeout({:?}) into an empty channel failed", d);
        check!(rx.recv_timeout(d).map(|e| e.get()) == Ok(1), "C14,C02", "recv_timeout({:?}) of an element failed", d);
        check!(tx.send_ref_timeout(d).map(|mut r| r.set(2)).is_ok(), "C14,C02", "send_ref_timeout({:?}) into an empty channel failed", d);
        check!(rx.recv_ref_timeout(d).map(|e| e.get()) == Ok(2), "C14,C02", "recv_ref_timeout({:?}) of an element failed", d);
    }
    drop(tx);
    check!(matches!(rx.recv_timeout(Duration::MAX), Err(RecvTimeoutError::Closed)), "C14,C06", "recv_timeout of a closed channel");
    drop(rx);
    end("durations")?;
    // what arrives in time is delivered
    let (tx, rx) = blocking::channel::<Item>(1);
    let h = thread::spawn(move || { let a = rx.recv_timeout(Duration::from_secs(1000)).map(|e| e.get()); let b = rx.recv_ref_timeout(Duration::from_secs(1000)).map(|e| e.get()); (a, b, rx) });
    thread::sleep(Duration::from_millis(15));
    tx.try_send(Item::new(3)).ok();
    thread::sleep(Duration::from_millis(15));
    tx.send(Item::new(4)).ok();
    let (a, b, rx) = h.join().unwrap();
    check!(a == Ok(3) && b == Ok(4), "C14,C08", "timed receives obtained {:?} and {:?}", a, b);
    tx.send(Item::new(5)).ok();
    let h = thread::spawn(move || (tx.send_timeout(Item::new(6), Duration::from_secs(1000)).is_ok(), tx));
    thread::sleep(Duration::from_millis(15));
    let a = rx.recv().map(|e| e.get());
    let (ok, tx) = h.join().unwrap();
    check!(a == Some(5) && ok && rx.recv().map(|e| e.get()) == Some(6), "C14,C09", "a timed send that had room in time failed");
    drop((tx, rx));
    // the longest times there are, and really having to wait
    for d in [Duration::MAX, Duration::from_secs(u64::MAX / 4), Duration::from_secs(1 << 62)] {
        macro_rules! waits {
            ($make:expr) => {{
                begin();
                let ((tx, rx), free) = $make;
                let h = thread::spawn(move || { let a = rx.recv_timeout(d).map(|e| e.get()); let b = rx.recv_ref_timeout(d).map(|e| e.get()); (a, b, rx) });
                thread::sleep(Duration::from_millis(5));
                tx.try_send(Item::new(1)).ok();
                thread::sleep(Duration::from_millis(5));
                tx.send(Item::new(2)).ok();
                let rx = match h.join() { Ok((Ok(1), Ok(2), rx)) => rx, Ok((a, b, _)) => return Err(("C14,C08", format!("receives with {:?} obtained {:?} and {:?}", d, a, b))), Err(_) => return Err(("C14", format!("a receive with {:?} panicked", d))) };
                tx.send(Item::new(3)).ok();
                let h = thread::spawn(move || { let a = tx.send_timeout(Item::new(4), d).is_ok(); let b = tx.send_ref_timeout(d).map(|mut r| r.set(5)).is_ok(); (a, b, tx) });
                let mut got = vec![];
                for _ in 0..3 { thread::sleep(Duration::from_millis(5)); got.push(rx.recv().map(|e| e.get())); }
                match h.join() { Ok((true, true, tx)) => drop(tx), Ok((a, b, _)) => return Err(("C14,C09", format!("sends with {:?} had room: {} {}", d, a, b))), Err(_) => return Err(("C14", format!("a send with {:?} panicked", d))) }
                check!(got == [Some(3), Some(4), Some(5)], "C01,C14", "received {:?}", got);
                drop(rx);
                free();
                end("long waits")?;
            }};
        }
        waits!((blocking::channel::<Item>(1), || ()));
        waits!(sb::<1>());
    }
    Ok(())
}

/// Each freed slot releases the sender that waits longest.
fn fair() -> Res {
    begin();
    let (tx, rx) = blocking::channel::<Item>(1);
    tx.send(Item::new(0)).unwrap();
    let mut hs = vec![];
    for i in 1..4u64 {
        let tx = tx.clone();
        hs.push(thread::spawn(move || tx.send(Item::new(i)).is_ok()));
        thread::sleep(Duration::from_millis(25));
    }
    let mut got = vec![];
    for _ in 0..4 { got.push(rx.recv().map(|e| e.get())); thread::sleep(Duration::from_millis(5)); }
    for h in hs { check!(h.join().unwrap(), "C06", "closed although the receiver is there"); }
    let mut s = got.clone();
    s.sort();
    check!(s == [Some(0), Some(1), Some(2), Some(3)], "C01,C09", "received {:?}", got);
    drop((tx, rx));
    end("fair")
}

struct Woken(AtomicUsize);
impl Wake for Woken { fn wake(self: Arc<Self>) { self.0.fetch_add(1, SeqCst); } fn wake_by_ref(self: &Arc<Self>) { self.0.fetch_add(1, SeqCst); } }
/// A panic in the code that uses the channel is like any other end of an operation.
fn unwound() -> Res {
    fn panics(f: impl FnOnce()) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
    macro_rules! tasks {
        ($make:expr) => {{
            let make = || $make;
            let w = || { let c = Arc::new(Woken(AtomicUsize::new(0))); (c.clone(), std::task::Waker::from(c)) };
            for what in 0..5 {
                begin();
                let ((tx, rx), free) = make();
                let ((c, wk), (c2, wk2)) = (w(), w());
                let mut cx = Context::from_waker(&wk);
                if what < 2 {
                    let mut f = Box::pin(rx.recv());
                    check!(f.as_mut().poll(&mut cx).is_pending(), "C02", "received from an empty channel");
                    if what == 0 {
                        check!(panics(|| { let mut s = tx.try_send_ref().unwrap(); s.set(5); panic!("deliberate") }), "C11", "a panic was swallowed");
                        let n = c.0.load(SeqCst);
                        check!(n > 0, "C08", "the receiver was not woken for an element whose sender panicked after writing it");
                        check!(matches!(f.as_mut().poll(&mut cx), Poll::Ready(Some(e)) if e.get() == 5), "C01,C08", "an element whose sender panicked after writing it did not arrive");
                        drop(f);
                        drop(tx);
                    } else {
                        check!(panics(|| { let _tx = tx; panic!("deliberate") }), "C11", "a panic was swallowed");
                        check!(c.0.load(SeqCst) > 0, "C08,C06", "the receiver was not woken when the last sender went away in a panic");
                        check!(matches!(f.as_mut().poll(&mut cx), Poll::Ready(None)), "C06", "the channel did not end when the last sender went away in a panic");
                        drop(f);
                    }
                    drop(rx);
                } else {
                    tx.try_send(Item::new(1)).map_err(|_| ("C02", "an empty channel is full".to_string()))?;
                    let mut f = Box::pin(tx.send(Item::new(2)));
                    let mut g = Box::pin(tx.send(Item::new(3)));
                    if what == 2 {
                        check!(panics(|| { let mut h = Box::pin(tx.send(Item::new(4))); let _ = h.as_mut().poll(&mut cx); panic!("deliberate") }), "C11", "a panic was swallowed");
                    }
                    check!(f.as_mut().poll(&mut cx).is_pending(), "C02", "sent to a full channel");
                    check!(g.as_mut().poll(&mut Context::from_waker(&wk2)).is_pending(), "C02", "sent to a full channel");
                    if what < 4 {
                        check!(panics(|| { let r = rx.try_recv_ref().unwrap(); assert!(r.get() == 1); panic!("deliberate") }), "C11", "a panic was swallowed");
                        check!(c.0.load(SeqCst) > 0, "C09,C10", "the sender was not woken for a slot whose receiver panicked");
                        if what == 3 {
                            // the woken sender goes away in a panic: the next one takes its place
                            let ff = std::mem::replace(&mut f, Box::pin(tx.send(Item::new(2))));
                            check!(panics(move || { let _ff = ff; panic!("deliberate") }), "C11", "a panic was swallowed");
                            check!(c2.0.load(SeqCst) > 0, "C10,C09", "a woken sender that went away in a panic did not wake the next one");
                            check!(matches!(g.as_mut().poll(&mut Context::from_waker(&wk2)), Poll::Ready(Ok(()))), "C09", "a free slot was not used");
                        } else {
                            check!(matches!(f.as_mut().poll(&mut cx), Poll::Ready(Ok(()))), "C09", "a free slot was not used");
                        }
                        drop((f, g));
                        drop((tx, rx));
                    } else {
                        check!(panics(move || { let _rx = rx; panic!("deliberate") }), "C11", "a panic was swallowed");
                        check!(c.0.load(SeqCst) > 0 && c2.0.load(SeqCst) > 0, "C09,C06", "a sender was not woken when the receiver went away in a panic");
                        check!(matches!(f.as_mut().poll(&mut cx), Poll::Ready(Err(_))), "C06", "sent to a channel whose receiver went away in a panic");
                        check!(matches!(g.as_mut().poll(&mut Context::from_waker(&wk2)), Poll::Ready(Err(_))), "C06", "sent to a channel whose receiver went away in a panic");
                        drop((f, g));
                        drop(tx);
                    }
                }
                free();
                end("unwinding")?;
            }
        }};
    }
    tasks!((mpsc::channel::<Item>(1), || ()));
    tasks!(sa::<1>());
    macro_rules! threads {
        ($make:expr) => {{
            for receiver in [false, true] {
                begin();
                let ((tx, rx), free) = $make;
                if receiver {
                    let h = thread::spawn(move || { let v = rx.recv().map(|e| e.get()); (rx, v) });
                    thread::sleep(Duration::from_millis(20));
                    check!(panics(|| { let mut s = tx.try_send_ref().unwrap(); s.set(5); panic!("deliberate") }), "C11", "a panic was swallowed");
                    let (rx, v) = h.join().unwrap();
                    check!(v == Some(5), "C01,C08", "received {:?}", v);
                    drop((tx, rx));
                } else {
                    tx.try_send(Item::new(1)).map_err(|_| ("C02", "an empty channel is full".to_string()))?;
                    let h = thread::spawn(move || { let r = tx.send(Item::new(2)).is_ok(); (tx, r) });
                    thread::sleep(Duration::from_millis(20));
                    check!(panics(|| { let _r = rx.try_recv_ref().unwrap(); panic!("deliberate") }), "C11", "a panic was swallowed");
                    let (tx, r) = h.join().unwrap();
                    check!(r, "C09,C06", "closed although the receiver is there");
                    drop((tx, rx));
                }
                free();
                end("unwinding")?;
            }
        }};
    }
    threads!((blocking::channel::<Item>(1), || ()));
    threads!(sb::<1>());
    Ok(())
}

macro_rules! cases { ($($f:ident $p:expr),* $(,)?) => { &[$(Case { scenario: "live", name: stringify!($f), props: $p, run: $f }),*] } }
const W: &str = "C08,C09,C11";
pub static LIST: &[Case] = cases![
    s_blocking1 W, s_blocking3 W, s_blocking_timed "C08,C09,C10,C11,C14", s_blocking_try "C11,C02", s_blocking_mixed W,
    s_async1 W, s_async3 W, s_async_cancel "C08,C09,C10,C11", s_async_cancel_rx W, s_static_async W, s_static_blocking W,
    q_heap1 "C11,C02", q_heap2 "C11,C02", q_heap5 "C11,C02", q_static3 "C11,C02",
    ends "C06,C08,C09", deadlines "C14", fair W, unwound "C06,C08,C09,C10,C11",
];
