use thingbuf::{mpsc, *};
use std::{time::*, thread, sync::{Arc, mpsc::channel as ch, atomic::*}, task::*, future::Future, pin::Pin};
fn within<F: FnOnce() + Send + 'static>(f: F) {
    let (t, r) = ch(); thread::spawn(move || { f(); let _ = t.send(()); });
    match r.recv_timeout(Duration::from_secs(3)) { Ok(()) => {}, Err(e) => panic!("hang or panic: {:?}", e) }
}
struct W(AtomicUsize); impl Wake for W { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
fn w() -> (Arc<W>, Waker) { let a = Arc::new(W(AtomicUsize::new(0))); (a.clone(), a.into()) }
#[test] fn f1_pred() { let (tx, rx) = mpsc::channel::<u8>(1); drop(rx); let e = tx.try_send(1).unwrap_err(); assert!(e.is_closed() && !e.is_full()); }
#[test] fn f2_is_closed() { let (tx, rx) = mpsc::channel::<u8>(1); assert!(!rx.is_closed()); drop(tx); assert!(rx.is_closed()); }
#[test] fn f3_panic_close() { within(|| {
    let (tx, rx) = mpsc::blocking::channel::<u8>(1);
    let _ = thread::spawn(move || { let _tx = tx; panic!("x") }).join();
    assert!(rx.recv().is_none()); }); }
#[test] fn f4_timeout_uaf() { within(|| {
    let (tx, rx) = mpsc::blocking::channel::<u8>(1);
    tx.send(1).unwrap();
    fn f(tx: &mpsc::blocking::Sender<u8>) { assert!(tx.send_timeout(2, Duration::from_millis(10)).is_err()); }
    f(&tx);
    fn clobber(n: u64) -> u64 { let a = [n; 400]; std::hint::black_box(&a); a.iter().fold(0u64, |x, y| x ^ y) }
    std::hint::black_box(clobber(0x4141414141414141));
    assert_eq!(rx.recv(), Some(1));
    tx.send(3).unwrap(); assert_eq!(rx.recv(), Some(3)); }); }
#[test] fn f5_cancel_notified() {
    let (tx, rx) = mpsc::channel::<u8>(1); tx.try_send(1).unwrap();
    let (a, wa) = w(); let (b, wb) = w();
    let mut fa = Box::pin(tx.send(2)); let mut fb = Box::pin(tx.send(3));
    assert!(fa.as_mut().poll(&mut Context::from_waker(&wa)).is_pending());
    assert!(fb.as_mut().poll(&mut Context::from_waker(&wb)).is_pending());
    assert_eq!(rx.try_recv(), Ok(1)); assert_eq!(a.0.load(Ordering::SeqCst), 1);
    drop(fa); assert_eq!(b.0.load(Ordering::SeqCst), 1, "b never woken"); }
#[test] fn f7_push_vs_pop_ref() { within(|| { let q = ThingBuf::<u8>::new(1); q.push(1).unwrap(); let r = q.pop_ref().unwrap(); assert!(q.push(2).is_err()); drop(r); q.push(2).unwrap(); }); }
#[test] fn f7_push_push_ref() { within(|| { let q = ThingBuf::<u8>::new(1); let r = q.push_ref().unwrap(); assert!(q.push(2).is_err()); drop(r); }); }
#[test] fn f7_pop_pop_ref() { within(|| { let q = ThingBuf::<u8>::new(1); q.push(1).unwrap(); let r = q.pop_ref().unwrap(); assert!(q.pop().is_none()); drop(r); }); }
#[test] fn f8_zero() { assert!(std::panic::catch_unwind(|| { let q = StaticThingBuf::<u8, 0>::new(); let _ = q.pop(); }).map_err(|e| e.downcast_ref::<String>().map(|s| s.contains("index out of bounds")).unwrap_or(false)) == Err(false)); }
#[test] fn f9_static_drop() { let c = mpsc::StaticChannel::<u8, 2>::new(); drop(c); let c = mpsc::blocking::StaticChannel::<u8, 2>::new(); drop(c);}
static DROPS: AtomicUsize = AtomicUsize::new(0);
struct D(u64); impl Drop for D { fn drop(&mut self) { DROPS.fetch_add(1, Ordering::SeqCst); } }
struct R(AtomicBool); impl Recycle<D> for R { fn new_element(&self) -> D { if self.0.load(Ordering::SeqCst) { panic!("new") } D(7) } fn recycle(&self, _: &mut D) {} }
#[test] fn f10_new_panics() { { let q = ThingBuf::with_recycle(2, R(AtomicBool::new(true))); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = q.push_ref(); })); } assert_eq!(DROPS.load(Ordering::SeqCst), 0); }
struct Re(std::sync::Mutex<Option<Pin<Box<dyn Future<Output = ()> + Send>>>>);
impl Wake for Re { fn wake(self: Arc<Self>) { if let Some(f) = self.0.lock().unwrap().take() { drop(f) } } }
#[test] fn f12_close_reentrant() { within(|| {
    let (tx, rx) = mpsc::channel::<u8>(1); tx.try_send(1).unwrap(); let tx: &'static _ = Box::leak(Box::new(tx));
    let (_b, wb) = w();
    let mut fb: Pin<Box<dyn Future<Output = ()> + Send>> = Box::pin(async move { let _ = tx.send(3).await; });
    let re = Arc::new(Re(Default::default())); let wr: Waker = re.clone().into();
    let mut fa = Box::pin(tx.send(2));
    assert!(fa.as_mut().poll(&mut Context::from_waker(&wr)).is_pending());
    assert!(fb.as_mut().poll(&mut Context::from_waker(&wb)).is_pending());
    *re.0.lock().unwrap() = Some(fb);
    drop(rx); std::mem::forget(fa); }); }
#[test] fn f13_timeout_twice() {
    let (_tx, rx) = mpsc::blocking::channel::<u8>(1); let t = thread::current();
    thread::spawn(move || { thread::sleep(Duration::from_millis(250)); t.unpark(); });
    let s = Instant::now(); assert!(rx.recv_timeout(Duration::from_millis(300)).is_err()); assert!(s.elapsed() < Duration::from_millis(450), "{:?}", s.elapsed()); }
// F16: a registration that panics (panicking waker clone) while a sender notifies
// must still wake the waker registered earlier.
struct Bomb(mpsc::Sender<u8>);
#[test] fn f16_panicking_registration() {
    let (tx, rx) = mpsc::channel::<u8>(1);
    let (a, wa) = w();
    let mut f = Box::pin(rx.recv());
    assert!(f.as_mut().poll(&mut Context::from_waker(&wa)).is_pending());
    static VT: RawWakerVTable = RawWakerVTable::new(
        |p| { let b = unsafe { &*(p as *const Bomb) }; let _ = b.0.try_send(1); panic!("clone") }, |_| {}, |_| {}, |_| {});
    let bomb = Bomb(tx.clone());
    let wb = unsafe { Waker::from_raw(RawWaker::new(&bomb as *const Bomb as *const (), &VT)) };
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = f.as_mut().poll(&mut Context::from_waker(&wb)); })).unwrap_err();
    assert_eq!(e.downcast_ref::<&str>().copied(), Some("clone"));
    assert_eq!(a.0.load(Ordering::SeqCst), 1, "earlier waker lost");
}
// F17: a waker whose clone panics in `send` leaves the queue in the WAITING state
// without a waiter; the next notification panics (debug) or is lost (release).
#[test] fn f17_panicking_clone_in_send() {
    let (tx, rx) = mpsc::channel::<u8>(1); tx.try_send(1).unwrap();
    static VT: RawWakerVTable = RawWakerVTable::new(|_| panic!("clone"), |_| {}, |_| {}, |_| {});
    let wb = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut f = Box::pin(tx.send(2));
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = f.as_mut().poll(&mut Context::from_waker(&wb)); })).unwrap_err();
    assert_eq!(e.downcast_ref::<&str>().copied(), Some("clone"));
    drop(f);
    assert_eq!(rx.try_recv(), Ok(1));
}
// F18: polling a waiting send with a new waker dropped the old one while the list
// was locked; if that drops a task waiting on the same channel, deadlock.
struct Task(std::sync::Mutex<Option<Pin<Box<dyn Future<Output = ()> + Send>>>>);
impl Wake for Task { fn wake(self: Arc<Self>) {} }
#[test] fn f18_waker_dropped_under_lock() { within(|| {
    let (tx, rx) = mpsc::channel::<u8>(1); tx.try_send(1).unwrap(); let tx: &'static _ = Box::leak(Box::new(tx));
    let (_b, wb) = w();
    let mut other: Pin<Box<dyn Future<Output = ()> + Send>> = Box::pin(async move { let _ = tx.send(3).await; });
    assert!(other.as_mut().poll(&mut Context::from_waker(&wb)).is_pending());
    let wa: Waker = Arc::new(Task(std::sync::Mutex::new(Some(other)))).into();
    let mut f = Box::pin(tx.send(2));
    assert!(f.as_mut().poll(&mut Context::from_waker(&wa)).is_pending());
    drop(wa); // the queue now has the only reference to the task
    assert!(f.as_mut().poll(&mut Context::from_waker(&wb)).is_pending());
    drop(f); drop(rx); }); }
