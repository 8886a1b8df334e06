//! The blocking channels, used from one thread: whatever need not wait, and
//! timed operations that give up.
use crate::ring::{Model, Out};
use crate::track::*;
use crate::*;
use std::time::Duration;
use thingbuf::mpsc::blocking::{self, Receiver, RecvRef, SendRef, Sender, StaticChannel, StaticReceiver, StaticSender};
use thingbuf::mpsc::errors::{RecvTimeoutError, SendTimeoutError, TryRecvError, TrySendError};

trait Tx {
    fn send(&self, e: Elem) -> Result<(), Elem>;
    fn send_ref(&'static self) -> Option<SendRef<'static, Elem>>;
    fn send_timeout(&self, e: Elem, d: Duration) -> Result<(), (Out, Elem)>;
    fn send_ref_timeout(&'static self, d: Duration) -> Result<SendRef<'static, Elem>, Out>;
    fn try_send(&self, e: Elem) -> Result<(), (Out, Elem)>;
    fn try_send_ref(&'static self) -> Result<SendRef<'static, Elem>, Out>;
    fn dup(&self) -> Box<dyn Tx>;
}
trait Rx {
    fn recv(&self) -> Option<Elem>;
    fn recv_ref(&'static self) -> Option<RecvRef<'static, Elem>>;
    fn next(&'static self) -> Option<RecvRef<'static, Elem>>;
    fn recv_timeout(&self, d: Duration) -> Result<Elem, Out>;
    fn recv_ref_timeout(&'static self, d: Duration) -> Result<RecvRef<'static, Elem>, Out>;
    fn try_recv(&self) -> Result<Elem, Out>;
    fn try_recv_ref(&'static self) -> Result<RecvRef<'static, Elem>, Out>;
    fn is_closed(&self) -> bool;
}
macro_rules! flavour {
    ($tx:ty, $rx:ty) => {
        impl Tx for $tx {
            fn send(&self, e: Elem) -> Result<(), Elem> { <$tx>::send(self, e).map_err(|c| c.into_inner()) }
            fn send_ref(&'static self) -> Option<SendRef<'static, Elem>> { <$tx>::send_ref(self).ok() }
            fn send_timeout(&self, e: Elem, d: Duration) -> Result<(), (Out, Elem)> {
                <$tx>::send_timeout(self, e, d).map_err(|f| {
                    let k = match &f { SendTimeoutError::Timeout(_) => Out::Full, SendTimeoutError::Closed(_) => Out::Closed, _ => unreachable!() };
                    (k, f.into_inner())
                })
            }
            fn send_ref_timeout(&'static self, d: Duration) -> Result<SendRef<'static, Elem>, Out> {
                <$tx>::send_ref_timeout(self, d).map_err(|f| match f { SendTimeoutError::Timeout(_) => Out::Full, SendTimeoutError::Closed(_) => Out::Closed, _ => unreachable!() })
            }
            fn try_send(&self, e: Elem) -> Result<(), (Out, Elem)> {
                <$tx>::try_send(self, e).map_err(|f| {
                    let k = match &f { TrySendError::Full(_) => Out::Full, TrySendError::Closed(_) => Out::Closed, _ => unreachable!() };
                    (k, f.into_inner())
                })
            }
            fn try_send_ref(&'static self) -> Result<SendRef<'static, Elem>, Out> {
                <$tx>::try_send_ref(self).map_err(|f| match f { TrySendError::Full(_) => Out::Full, TrySendError::Closed(_) => Out::Closed, _ => unreachable!() })
            }
            fn dup(&self) -> Box<dyn Tx> { Box::new(self.clone()) }
        }
        impl Rx for $rx {
            fn recv(&self) -> Option<Elem> { <$rx>::recv(self) }
            fn recv_ref(&'static self) -> Option<RecvRef<'static, Elem>> { <$rx>::recv_ref(self) }
            fn next(&'static self) -> Option<RecvRef<'static, Elem>> { let mut s = self; Iterator::next(&mut s) }
            fn recv_timeout(&self, d: Duration) -> Result<Elem, Out> { <$rx>::recv_timeout(self, d).map_err(timed) }
            fn recv_ref_timeout(&'static self, d: Duration) -> Result<RecvRef<'static, Elem>, Out> { <$rx>::recv_ref_timeout(self, d).map_err(timed) }
            fn try_recv(&self) -> Result<Elem, Out> { <$rx>::try_recv(self).map_err(kind) }
            fn try_recv_ref(&'static self) -> Result<RecvRef<'static, Elem>, Out> { <$rx>::try_recv_ref(self).map_err(kind) }
            fn is_closed(&self) -> bool { <$rx>::is_closed(self) }
        }
    };
}
fn kind(e: TryRecvError) -> Out { match e { TryRecvError::Empty => Out::Empty, TryRecvError::Closed => Out::Closed, _ => unreachable!() } }
fn timed(e: RecvTimeoutError) -> Out { match e { RecvTimeoutError::Timeout => Out::Empty, RecvTimeoutError::Closed => Out::Closed, _ => unreachable!() } }
flavour!(Sender<Elem>, Receiver<Elem>);
flavour!(StaticSender<Elem>, StaticReceiver<Elem>);

struct Chan {
    txs: Vec<*mut dyn Tx>,
    rx: Option<*mut dyn Rx>,
    free: Option<Box<dyn FnOnce()>>,
    m: Model,
    writers: Vec<(SendRef<'static, Elem>, usize)>,
    readers: Vec<(RecvRef<'static, Elem>, usize)>,
    next: u32,
}
impl Chan {
    fn new(tx: Box<dyn Tx>, rx: Box<dyn Rx>, cap: usize, free: Option<Box<dyn FnOnce()>>) -> Chan {
        Chan { txs: vec![Box::into_raw(tx)], rx: Some(Box::into_raw(rx)), free, m: Model::new(cap), writers: vec![], readers: vec![], next: 0 }
    }
    fn tx(&self) -> &'static dyn Tx { unsafe { &*self.txs[0] } }
    fn rx(&self) -> &'static dyn Rx { unsafe { &*self.rx.unwrap() } }
    fn val(&mut self) -> u32 { self.next += 1; self.next }
    fn end_write(&mut self, at: usize) { let (r, i) = self.writers.remove(at); self.m.pushed(i, 0, r.val); }
    fn end_read(&mut self, at: usize) { let (_, i) = self.readers.remove(at); self.m.popped(i, 0, 0); }
    fn sent(&mut self, got: Result<(), (Out, Elem)>, id: usize, v: u32, timed: bool) -> Res {
        let (want, i) = self.m.push();
        match got {
            Ok(()) => {
                check!(want == Out::Ok, if want == Out::Closed { "C06" } else { "C02" }, "a send succeeded although the channel was {:?}", want);
                self.m.pushed(i, 0, v);
            }
            Err((k, e)) => {
                check!(e.id == id && e.val == v && e.genuine(), "C07", "a failed send returned another value");
                check!(k == want, if timed { "C14,C02,C07" } else { "C02,C07" }, "a send said {:?} instead of {:?}", k, want);
            }
        }
        Ok(())
    }
    fn sent_ref(&mut self, got: Result<SendRef<'static, Elem>, Out>, timed: bool) -> Res {
        let (want, i) = self.m.push();
        match got {
            Ok(mut r) => {
                check!(want == Out::Ok, if want == Out::Closed { "C06" } else { "C02" }, "a send succeeded although the channel was {:?}", want);
                check!(r.genuine() && r.val == DEFAULT, "C12,C04", "a send by reference exposes {} instead of a fresh element", r.val);
                r.val = self.val();
                self.writers.push((r, i));
            }
            Err(k) => check!(k == want, if timed { "C14,C02,C07" } else { "C02,C07" }, "a send said {:?} instead of {:?}", k, want),
        }
        Ok(())
    }
    fn received(&mut self, got: Result<Elem, Out>, timed: bool) -> Res {
        let (want, i) = self.m.pop();
        match got {
            Ok(e) => {
                check!(want == Out::Ok, "C01,C02", "received {} although nothing was there", e.val);
                check!(e.genuine() && Some(e.val) == self.m.content(i).map(|c| c.1), "C01", "received {} instead of {:?}", e.val, self.m.content(i));
                self.m.popped(i, 0, 0);
            }
            Err(k) => check!(k == want, if timed { "C14,C02" } else { "C02,C06" }, "receiving said {:?} instead of {:?}", k, want),
        }
        Ok(())
    }
    fn received_ref(&mut self, got: Result<RecvRef<'static, Elem>, Out>, timed: bool) -> Res {
        let (want, i) = self.m.pop();
        match got {
            Ok(r) => {
                check!(want == Out::Ok, "C01,C02", "received although nothing was there");
                check!(r.genuine() && Some(r.val) == self.m.content(i).map(|c| c.1), "C01", "received {} instead of {:?}", r.val, self.m.content(i));
                self.readers.push((r, i));
            }
            Err(k) => check!(k == want, if timed { "C14,C02" } else { "C02,C06" }, "receiving said {:?} instead of {:?}", k, want),
        }
        Ok(())
    }
    fn after(&self) -> Res {
        if let Some(e) = error() { return Err(("C04,C03", e)); }
        for (r, _) in &self.writers { check!(r.genuine(), "C03,C04", "a live reference designates no element"); }
        for (r, _) in &self.readers { check!(r.genuine(), "C03,C04", "a live reference designates no element"); }
        if self.rx.is_some() { check!(self.rx().is_closed() == self.txs.is_empty(), "C07", "is_closed() is {} with {} senders", self.rx().is_closed(), self.txs.len()); }
        Ok(())
    }
}
const OPS: &[&str] = &["try_send", "try_send_ref", "end_send_first", "end_send_last", "try_recv", "try_recv_ref", "end_recv_first", "end_recv_last",
    "send", "send_ref", "send_timeout", "send_ref_timeout", "recv", "recv_ref", "next", "recv_timeout", "recv_ref_timeout", "clone_tx", "drop_clone", "drop_tx", "drop_rx"];
impl World for Chan {
    fn enabled(&self, op: usize) -> bool {
        let (tx, rx) = (!self.txs.is_empty(), self.rx.is_some());
        match op {
            0 | 10 => tx,
            1 | 11 => tx && self.writers.len() < 2,
            2 => !self.writers.is_empty(),
            3 => self.writers.len() > 1,
            4 | 15 => rx,
            5 | 16 => rx && self.readers.len() < 2,
            6 => !self.readers.is_empty(),
            7 => self.readers.len() > 1,
            // only what need not wait
            8 => tx && self.m.peek_push() != Out::Full,
            9 => tx && self.writers.len() < 2 && self.m.peek_push() != Out::Full,
            12 => rx && self.m.peek_pop() != Out::Empty,
            13 | 14 => rx && self.readers.len() < 2 && self.m.peek_pop() != Out::Empty,
            17 => tx && self.txs.len() < 2,
            18 => self.txs.len() > 1,
            19 => self.txs.len() == 1 && self.writers.is_empty(),
            20 => rx && self.readers.is_empty(),
            _ => unreachable!(),
        }
    }
    fn step(&mut self, op: usize) -> Res {
        let d = Duration::ZERO;
        match op {
            0 | 8 | 10 => {
                let v = self.val();
                let e = Elem::new(v);
                let id = e.id;
                let r = match op { 0 => self.tx().try_send(e), 8 => self.tx().send(e).map_err(|e| (Out::Closed, e)), _ => self.tx().send_timeout(e, d) };
                self.sent(r, id, v, op == 10)?
            }
            1 | 9 | 11 => {
                let r = match op { 1 => self.tx().try_send_ref(), 9 => self.tx().send_ref().ok_or(Out::Closed), _ => self.tx().send_ref_timeout(d) };
                self.sent_ref(r, op == 11)?
            }
            2 => self.end_write(0),
            3 => self.end_write(self.writers.len() - 1),
            4 | 12 | 15 => {
                let r = match op { 4 => self.rx().try_recv(), 12 => self.rx().recv().ok_or(Out::Closed), _ => self.rx().recv_timeout(d) };
                self.received(r, op == 15)?
            }
            5 | 13 | 14 | 16 => {
                let r = match op { 5 => self.rx().try_recv_ref(), 13 => self.rx().recv_ref().ok_or(Out::Closed), 14 => self.rx().next().ok_or(Out::Closed), _ => self.rx().recv_ref_timeout(d) };
                self.received_ref(r, op == 16)?
            }
            6 => self.end_read(0),
            7 => self.end_read(self.readers.len() - 1),
            17 => { let t = self.tx().dup(); self.txs.push(Box::into_raw(t)); }
            18 | 19 => {
                let t = self.txs.pop().unwrap();
                if self.txs.is_empty() { self.m.closed = true; }
                drop(unsafe { Box::from_raw(t) });
            }
            20 => {
                let r = self.rx.take().unwrap();
                self.m.closed = true;
                drop(unsafe { Box::from_raw(r) });
            }
            _ => unreachable!(),
        }
        self.after()
    }
    fn finish(mut self: Box<Self>) -> Res {
        while !self.writers.is_empty() { self.end_write(0); }
        while !self.readers.is_empty() { self.end_read(0); }
        self.after()?;
        if self.rx.is_some() && self.next % 3 != 0 {
            loop {
                let got = self.rx().try_recv();
                let end = got.is_err();
                self.received(got, false)?;
                if end { break; }
            }
        }
        if let Some(r) = self.rx.take() { drop(unsafe { Box::from_raw(r) }); }
        for t in std::mem::take(&mut self.txs) { drop(unsafe { Box::from_raw(t) }); }
        if let Some(f) = self.free.take() { f() }
        Ok(())
    }
}
fn make(c: usize, heap: bool) -> Box<dyn World> {
    fn stat<const N: usize>() -> Chan {
        let p: *mut StaticChannel<Elem, N> = Box::into_raw(Box::new(StaticChannel::new()));
        let ch: &'static StaticChannel<Elem, N> = unsafe { &*p };
        let (tx, rx) = ch.split();
        assert!(ch.try_split().is_none(), "a split channel was split again");
        Chan::new(Box::new(tx), Box::new(rx), N, Some(Box::new(move || unsafe { drop(Box::from_raw(p)) })))
    }
    let cap = c + 1;
    Box::new(if heap { let (tx, rx) = blocking::channel(cap); Chan::new(Box::new(tx), Box::new(rx), cap, None) } else {
        match cap { 1 => stat::<1>(), 2 => stat::<2>(), _ => stat::<3>() }
    })
}
pub static SCENARIOS: &[Scenario] = &[
    Scenario { name: "blocking", ops: OPS, configs: 3, make: |c| make(c, true) },
    Scenario { name: "static_blocking", ops: OPS, configs: 3, make: |c| make(c, false) },
];
