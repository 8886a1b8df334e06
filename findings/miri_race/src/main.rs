use std::{future::Future, sync::Arc, task::*, thread};
use thingbuf::mpsc;
struct W;
impl Wake for W { fn wake(self: Arc<Self>) {} }
fn main() {
    let (tx, rx) = mpsc::channel::<u8>(1);
    tx.try_send(1).unwrap();
    let w: Waker = Arc::new(W).into();
    let mut f = Box::pin(async move { tx.send(2).await.unwrap(); tx });
    let mut cx = Context::from_waker(&w);
    assert!(f.as_mut().poll(&mut cx).is_pending());
    let t = thread::spawn(move || { let x = rx.try_recv(); (x, rx) });
    // a task may be polled at any time
    while f.as_mut().poll(&mut cx).is_pending() { thread::yield_now(); }
    drop(f);
    let _ = t.join().unwrap();
}
