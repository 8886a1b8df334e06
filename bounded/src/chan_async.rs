//! The async channels: send futures created, polled, re-polled and dropped in
//! every order, against a FIFO model of the waiting senders.
use crate::ring::{Model, Out};
use crate::track::*;
use crate::*;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use thingbuf::mpsc::errors::{TryRecvError, TrySendError};
use thingbuf::mpsc::{self, Receiver, RecvRef, SendRef, Sender, StaticChannel, StaticReceiver, StaticSender};

type SendFut = Pin<Box<dyn Future<Output = Result<(), Elem>>>>;
type RefFut = Pin<Box<dyn Future<Output = Option<SendRef<'static, Elem>>>>>;

trait Tx {
    fn send(&'static self, e: Elem) -> SendFut;
    fn send_ref(&'static self) -> RefFut;
    fn try_send(&self, e: Elem) -> Result<(), (Out, Elem)>;
    fn try_send_ref(&'static self) -> Result<SendRef<'static, Elem>, Out>;
    fn dup(&self) -> Box<dyn Tx>;
}
trait Rx {
    fn try_recv(&self) -> Result<Elem, Out>;
    fn try_recv_ref(&'static self) -> Result<RecvRef<'static, Elem>, Out>;
    fn poll_recv(&self, cx: &mut Context<'_>) -> Poll<Option<Elem>>;
    fn poll_recv_ref(&'static self, cx: &mut Context<'_>) -> Poll<Option<RecvRef<'static, Elem>>>;
    fn recv(&self, cx: &mut Context<'_>) -> Poll<Option<Elem>>;
    fn recv_ref(&'static self, cx: &mut Context<'_>) -> Poll<Option<RecvRef<'static, Elem>>>;
    fn is_closed(&self) -> bool;
}
macro_rules! flavour {
    ($tx:ty, $rx:ty) => {
        impl Tx for $tx {
            fn send(&'static self, e: Elem) -> SendFut { Box::pin(async move { <$tx>::send(self, e).await.map_err(|c| c.into_inner()) }) }
            fn send_ref(&'static self) -> RefFut { Box::pin(async move { <$tx>::send_ref(self).await.ok() }) }
            fn try_send(&self, e: Elem) -> Result<(), (Out, Elem)> {
                <$tx>::try_send(self, e).map_err(|f| {
                    let k = match &f { TrySendError::Full(_) => Out::Full, TrySendError::Closed(_) => Out::Closed, _ => unreachable!() };
                    (k, f.into_inner())
                })
            }
            fn try_send_ref(&'static self) -> Result<SendRef<'static, Elem>, Out> {
                <$tx>::try_send_ref(self).map_err(|f| match f { TrySendError::Full(_) => Out::Full, TrySendError::Closed(_) => Out::Closed, _ => unreachable!() })
            }
            fn dup(&self) -> Box<dyn Tx> { Box::new(self.clone()) }
        }
        impl Rx for $rx {
            fn try_recv(&self) -> Result<Elem, Out> { <$rx>::try_recv(self).map_err(kind) }
            fn try_recv_ref(&'static self) -> Result<RecvRef<'static, Elem>, Out> { <$rx>::try_recv_ref(self).map_err(kind) }
            fn poll_recv(&self, cx: &mut Context<'_>) -> Poll<Option<Elem>> { <$rx>::poll_recv(self, cx) }
            fn poll_recv_ref(&'static self, cx: &mut Context<'_>) -> Poll<Option<RecvRef<'static, Elem>>> { <$rx>::poll_recv_ref(self, cx) }
            fn recv(&self, cx: &mut Context<'_>) -> Poll<Option<Elem>> { let f = std::pin::pin!(<$rx>::recv(self)); f.poll(cx) }
            fn recv_ref(&'static self, cx: &mut Context<'_>) -> Poll<Option<RecvRef<'static, Elem>>> { let f = std::pin::pin!(<$rx>::recv_ref(self)); f.poll(cx) }
            fn is_closed(&self) -> bool { <$rx>::is_closed(self) }
        }
    };
}
fn kind(e: TryRecvError) -> Out { match e { TryRecvError::Empty => Out::Empty, TryRecvError::Closed => Out::Closed, _ => unreachable!() } }
flavour!(Sender<Elem>, Receiver<Elem>);
flavour!(StaticSender<Elem>, StaticReceiver<Elem>);

enum Job { Value(SendFut, usize), Ref(RefFut) }
#[derive(PartialEq, Clone, Copy, Debug)]
enum Wait { New, Queued, Told, ToldClosed }
struct Fut { key: usize, job: Job, val: u32, wait: Wait, w: (usize, Waker) }

struct Chan {
    txs: Vec<*mut dyn Tx>,
    rx: Option<*mut dyn Rx>,
    free: Option<Box<dyn FnOnce()>>,
    m: Model,
    futs: Vec<Option<Fut>>,
    queue: Vec<usize>,
    writers: Vec<(SendRef<'static, Elem>, usize)>,
    readers: Vec<(RecvRef<'static, Elem>, usize)>,
    registered: Option<usize>,
    rx_waker: Option<(usize, Waker)>,
    rx_ids: Vec<usize>,
    next: u32,
    keys: usize,
    out_of_order: bool,
    broken: Option<Fail>,
}

impl Chan {
    fn new(tx: Box<dyn Tx>, rx: Box<dyn Rx>, cap: usize, free: Option<Box<dyn FnOnce()>>) -> Chan {
        Chan { txs: vec![Box::into_raw(tx)], rx: Some(Box::into_raw(rx)), free, m: Model::new(cap), futs: (0..3).map(|_| None).collect(),
            queue: vec![], writers: vec![], readers: vec![], registered: None, rx_waker: None, rx_ids: vec![], next: 0, keys: 0, out_of_order: false, broken: None }
    }
    fn tx(&self) -> &'static dyn Tx { unsafe { &*self.txs[0] } }
    fn rx(&self) -> &'static dyn Rx { unsafe { &*self.rx.unwrap() } }
    fn val(&mut self) -> u32 { self.next += 1; self.next }
    fn woken(&self, before: &[usize]) -> Vec<usize> {
        all_wakes().iter().enumerate().filter(|(i, n)| **n > before.get(*i).copied().unwrap_or(0)).map(|(i, _)| i).collect()
    }
    fn fut_of(&mut self, key: usize) -> &mut Fut { self.futs.iter_mut().flatten().find(|f| f.key == key).unwrap() }
    /// A notification for the senders has been given: the one waiting longest must hear of it, nobody else.
    fn senders_notified(&mut self, before: &[usize], why: &str) -> Res {
        let woken: Vec<usize> = self.woken(before).into_iter().filter(|i| !self.rx_ids.contains(i)).collect();
        if self.queue.is_empty() {
            check!(woken.is_empty(), "C09", "{}: wakers {:?} woken although no sender was waiting", why, woken);
            return Ok(());
        }
        let key = self.queue.remove(0);
        let f = self.fut_of(key);
        f.wait = Wait::Told;
        let w = f.w.0;
        check!(woken.contains(&w), "C09", "{}: the sender waiting longest was not woken (woken: {:?}, expected {})", why, woken, w);
        check!(woken == [w], "C09", "{}: more than one sender was woken: {:?}", why, woken);
        check!(all_wakes()[w] == before[w] + 1, "C09", "{}: a sender was woken {} times", why, all_wakes()[w] - before[w]);
        Ok(())
    }
    fn nobody_woken(&self, before: &[usize], why: &str) -> Res {
        let w: Vec<usize> = self.woken(before).into_iter().filter(|i| !self.rx_ids.contains(i)).collect();
        check!(w.is_empty(), "C09", "{}: senders' wakers {:?} woken for nothing", why, w);
        Ok(())
    }
    /// Something a registered receiver must hear of has happened.
    fn receiver_notified(&mut self, before: &[usize], why: &str, props: &'static str) -> Res {
        if let Some(w) = self.registered.take() {
            check!(all_wakes()[w] > before[w], props, "{}: the waiting receiver was not woken", why);
        }
        Ok(())
    }
    fn end_write(&mut self, at: usize) -> Res {
        let (r, i) = self.writers.remove(at);
        let v = r.val;
        let before = all_wakes();
        drop(r);
        self.m.pushed(i, 0, v);
        self.nobody_woken(&before, "a completed send")?;
        self.receiver_notified(&before, "a completed send", "C08")
    }
    fn end_read(&mut self, at: usize) -> Res {
        let (r, i) = self.readers.remove(at);
        let before = all_wakes();
        drop(r);
        self.m.popped(i, 0, 0);
        self.senders_notified(&before, "a slot was freed")
    }
    fn received(&mut self, want: Out, i: usize, got: Result<Elem, Out>, before: &[usize]) -> Res {
        match got {
            Ok(e) => {
                check!(want == Out::Ok, "C01,C02", "received {} although nothing was there", e.val);
                check!(e.genuine() && Some(e.val) == self.m.content(i).map(|c| c.1), "C01", "received {} instead of {:?}", e.val, self.m.content(i));
                self.m.popped(i, 0, 0);
                if !self.readers.is_empty() { self.out_of_order = true; }
                self.senders_notified(before, "a slot was freed")
            }
            Err(k) => {
                check!(k == want, if want == Out::Ok { "C01,C02" } else if k == Out::Closed || want == Out::Closed { "C02,C06,C08" } else { "C02" }, "receiving said {:?} instead of {:?}", k, want);
                self.nobody_woken(before, "a failed receive")
            }
        }
    }
    fn received_ref(&mut self, want: Out, i: usize, got: Result<RecvRef<'static, Elem>, Out>, before: &[usize]) -> Res {
        match got {
            Ok(r) => {
                check!(want == Out::Ok, "C01,C02", "received although nothing was there");
                check!(r.genuine() && Some(r.val) == self.m.content(i).map(|c| c.1), "C01", "received {} instead of {:?}", r.val, self.m.content(i));
                self.readers.push((r, i));
                if self.readers.len() > 1 { self.out_of_order = true; }
                self.nobody_woken(before, "receiving by reference")
            }
            Err(k) => {
                check!(k == want, if want == Out::Ok { "C01,C02" } else if k == Out::Closed || want == Out::Closed { "C02,C06,C08" } else { "C02" }, "receiving said {:?} instead of {:?}", k, want);
                self.nobody_woken(before, "a failed receive")
            }
        }
    }
    /// A poll of the receiver: pending means registered with this waker.
    fn polled<X>(&mut self, p: Poll<Option<X>>, w: usize) -> Option<Result<X, Out>> {
        match p {
            Poll::Pending => { self.registered = Some(w); Some(Err(Out::Empty)) }
            Poll::Ready(None) => { self.registered = None; Some(Err(Out::Closed)) }
            Poll::Ready(Some(x)) => { self.registered = None; Some(Ok(x)) }
        }
    }
    fn rx_waker(&mut self, fresh: bool) -> (usize, Waker) {
        if fresh || self.rx_waker.is_none() {
            let w = new_waker();
            self.rx_ids.push(w.0);
            self.rx_waker = Some(w);
        }
        self.rx_waker.clone().unwrap()
    }
    fn start(&mut self, by_ref: bool) -> Res {
        let k = self.futs.iter().position(|f| f.is_none()).unwrap();
        let v = self.val();
        let job = if by_ref { Job::Ref(self.tx().send_ref()) } else { let e = Elem::new(v); let id = e.id; Job::Value(self.tx().send(e), id) };
        self.keys += 1;
        let key = self.keys;
        self.futs[k] = Some(Fut { key, job, val: v, wait: Wait::New, w: new_waker() });
        self.poll(k, false)
    }
    fn poll(&mut self, k: usize, fresh: bool) -> Res {
        let mut f = self.futs[k].take().unwrap();
        let before = all_wakes();
        if fresh { f.w = new_waker(); }
        let want = self.m.peek_push();
        let mut cx = Context::from_waker(&f.w.1);
        enum Got { Pending, Sent, Ref(SendRef<'static, Elem>), Closed(Option<Elem>) }
        let got = match &mut f.job {
            Job::Value(j, _) => match j.as_mut().poll(&mut cx) { Poll::Pending => Got::Pending, Poll::Ready(Ok(())) => Got::Sent, Poll::Ready(Err(e)) => Got::Closed(Some(e)) },
            Job::Ref(j) => match j.as_mut().poll(&mut cx) { Poll::Pending => Got::Pending, Poll::Ready(Some(r)) => Got::Ref(r), Poll::Ready(None) => Got::Closed(None) },
        };
        self.nobody_woken(&before, "polling a send")?;
        match got {
            Got::Pending => {
                check!(want != Out::Closed, "C06,C09", "a send waits on a closed channel");
                if f.wait != Wait::Queued {
                    check!(want != Out::Ok, "C09", "a send waits although there is a free slot");
                    self.queue.push(f.key);
                    f.wait = Wait::Queued;
                }
                self.futs[k] = Some(f);
            }
            Got::Sent | Got::Ref(_) => {
                check!(want == Out::Ok, if want == Out::Closed { "C06" } else { "C02" }, "a send succeeded although the channel was {:?}", want);
                self.queue.retain(|x| *x != f.key);
                let (_, i) = self.m.push();
                if let Got::Ref(mut r) = got {
                    check!(r.genuine() && r.val == DEFAULT, "C12,C04", "send_ref exposes {} instead of a fresh element", r.val);
                    r.val = f.val;
                    self.writers.push((r, i));
                } else {
                    self.m.pushed(i, 0, f.val);
                    self.receiver_notified(&before, "a completed send", "C08")?;
                }
            }
            Got::Closed(e) => {
                check!(want == Out::Closed, "C02,C07,C06", "a send said closed although the channel was {:?}", want);
                if let (Some(e), Job::Value(_, id)) = (&e, &f.job) { check!(e.id == *id && e.val == f.val && e.genuine(), "C07", "a failed send returned another value"); }
                self.queue.retain(|x| *x != f.key);
            }
        }
        Ok(())
    }
    fn abandon(&mut self, k: usize) -> Res {
        let f = self.futs[k].take().unwrap();
        let (key, wait) = (f.key, f.wait);
        let before = all_wakes();
        let id = if let Job::Value(_, id) = &f.job { Some(*id) } else { None };
        drop(f);
        if let Some(id) = id { check!(!is_live(id), "C04", "the value of an abandoned send was not dropped"); }
        if wait == Wait::Queued { self.queue.retain(|x| *x != key); }
        if wait == Wait::Told && !self.m.closed { self.senders_notified(&before, "a notified sender gave up") } else { self.nobody_woken(&before, "a waiting sender gave up") }
    }
    fn after(&self) -> Res {
        if let Some(e) = &self.broken { return Err(e.clone()); }
        if let Some(e) = error() { return Err(("C04,C03", e)); }
        for (r, _) in &self.writers { check!(r.genuine(), "C03,C04", "a live reference designates no element"); }
        for (r, _) in &self.readers { check!(r.genuine(), "C03,C04", "a live reference designates no element"); }
        if self.rx.is_some() { check!(self.rx().is_closed() == self.txs.is_empty(), "C07", "is_closed() is {} with {} senders", self.rx().is_closed(), self.txs.len()); }
        if !self.out_of_order && self.m.peek_push() == Out::Ok && !self.queue.is_empty() {
            check!(self.futs.iter().flatten().any(|f| f.wait == Wait::Told), "C09", "there is a free slot, senders wait, and nobody was told");
        }
        // slots freed out of order can leave one unused until the next is freed, but then there is a next
        if !self.m.closed && !self.queue.is_empty() && self.m.len() == 0 && self.readers.is_empty() && self.writers.is_empty() {
            check!(self.futs.iter().flatten().any(|f| f.wait == Wait::Told), "C09", "the channel is empty, senders wait, and nobody was told");
        }
        if self.registered.is_some() { check!(self.m.peek_pop() == Out::Empty, "C08", "a receiver waits although there is something to receive"); }
        Ok(())
    }
}

const OPS: &[&str] = &["try_send", "try_send_ref", "end_send_first", "end_send_last", "try_recv", "try_recv_ref", "end_recv_first", "end_recv_last",
    "poll_recv", "poll_recv_ref", "recv_new_waker", "recv_ref_new_waker", "send", "send_ref", "poll0", "poll1", "poll2", "poll0_new_waker", "poll1_new_waker",
    "drop0", "drop1", "drop2", "clone_tx", "drop_clone", "drop_tx", "drop_rx"];
impl World for Chan {
    fn enabled(&self, op: usize) -> bool {
        let (tx, rx) = (!self.txs.is_empty(), self.rx.is_some());
        let fut = |k: usize| self.futs[k].is_some();
        match op {
            0 => tx,
            1 => tx && self.writers.len() < 2,
            2 => !self.writers.is_empty(),
            3 => self.writers.len() > 1,
            4 | 8 | 10 => rx,
            5 | 9 | 11 => rx && self.readers.len() < 2,
            6 => !self.readers.is_empty(),
            7 => self.readers.len() > 1,
            12 => tx && self.futs.iter().any(|f| f.is_none()),
            13 => tx && self.writers.len() < 2 && self.futs.iter().any(|f| f.is_none()),
            14..=16 => fut(op - 14) && self.room(op - 14),
            17 | 18 => fut(op - 17) && self.room(op - 17),
            19..=21 => fut(op - 19),
            22 => tx && self.txs.len() < 2,
            23 => self.txs.len() > 1,
            24 => self.txs.len() == 1 && self.writers.is_empty() && self.futs.iter().all(|f| f.is_none()),
            25 => rx && self.readers.is_empty(),
            _ => unreachable!(),
        }
    }
    fn step(&mut self, op: usize) -> Res {
        let before = all_wakes();
        match op {
            0 => {
                let v = self.val();
                let e = Elem::new(v);
                let id = e.id;
                let (want, i) = self.m.push();
                match self.tx().try_send(e) {
                    Ok(()) => {
                        check!(want == Out::Ok, if want == Out::Closed { "C06" } else { "C02" }, "try_send succeeded although the channel was {:?}", want);
                        self.m.pushed(i, 0, v);
                        self.nobody_woken(&before, "a completed send")?;
                        self.receiver_notified(&before, "a completed send", "C08")?;
                    }
                    Err((k, e)) => {
                        check!(e.id == id && e.val == v && e.genuine(), "C07", "a failed try_send returned another value");
                        check!(k == want, "C02,C07", "try_send said {:?} instead of {:?}", k, want);
                    }
                }
            }
            1 => {
                let (want, i) = self.m.push();
                match self.tx().try_send_ref() {
                    Ok(mut r) => {
                        check!(want == Out::Ok, if want == Out::Closed { "C06" } else { "C02" }, "try_send_ref succeeded although the channel was {:?}", want);
                        check!(r.genuine() && r.val == DEFAULT, "C12,C04", "try_send_ref exposes {} instead of a fresh element", r.val);
                        r.val = self.val();
                        self.writers.push((r, i));
                    }
                    Err(k) => check!(k == want, "C02,C07", "try_send_ref said {:?} instead of {:?}", k, want),
                }
            }
            2 => self.end_write(0)?,
            3 => self.end_write(self.writers.len() - 1)?,
            4 => { let (want, i) = self.m.pop(); let r = self.rx().try_recv(); self.received(want, i, r, &before)? }
            5 => { let (want, i) = self.m.pop(); let r = self.rx().try_recv_ref(); self.received_ref(want, i, r, &before)? }
            6 => self.end_read(0)?,
            7 => self.end_read(self.readers.len() - 1)?,
            8 | 10 => {
                let (want, i) = self.m.pop();
                let w = self.rx_waker(op == 10);
                let mut cx = Context::from_waker(&w.1);
                let before = all_wakes();
                let r = if op == 8 { self.rx().poll_recv(&mut cx) } else { self.rx().recv(&mut cx) };
                if let Some(r) = self.polled(r, w.0) { self.received(want, i, r, &before)? }
            }
            9 | 11 => {
                let (want, i) = self.m.pop();
                let w = self.rx_waker(op == 11);
                let mut cx = Context::from_waker(&w.1);
                let before = all_wakes();
                let r = if op == 9 { self.rx().poll_recv_ref(&mut cx) } else { self.rx().recv_ref(&mut cx) };
                if let Some(r) = self.polled(r, w.0) { self.received_ref(want, i, r, &before)? }
            }
            12 => self.start(false)?,
            13 => self.start(true)?,
            14..=16 => self.poll(op - 14, false)?,
            17 | 18 => self.poll(op - 17, true)?,
            19..=21 => self.abandon(op - 19)?,
            22 => { let t = self.tx().dup(); self.txs.push(Box::into_raw(t)); }
            23 => {
                let t = self.txs.pop().unwrap();
                drop(unsafe { Box::from_raw(t) });
                check!(self.woken(&before).is_empty(), "C06", "dropping one of several senders woke somebody");
            }
            24 => {
                let t = self.txs.pop().unwrap();
                self.m.closed = true;
                drop(unsafe { Box::from_raw(t) });
                self.receiver_notified(&before, "the last sender was dropped", "C06,C08")?;
            }
            25 => {
                let r = self.rx.take().unwrap();
                self.registered = None;
                self.m.closed = true;
                drop(unsafe { Box::from_raw(r) });
                for key in std::mem::take(&mut self.queue) {
                    let f = self.fut_of(key);
                    f.wait = Wait::ToldClosed;
                    let w = f.w.0;
                    check!(all_wakes()[w] == before[w] + 1, "C06,C09", "the receiver was dropped: a waiting sender was woken {} times", all_wakes()[w] - before[w]);
                }
            }
            _ => unreachable!(),
        }
        self.after()
    }
    fn finish(mut self: Box<Self>) -> Res {
        if let Some(e) = self.broken.take() { std::mem::forget(self); return Err(e); }
        // every notified sender that is still there goes on; then the rest gives up
        for k in 0..3 { if self.futs[k].as_ref().map_or(false, |f| f.wait == Wait::Told || f.wait == Wait::ToldClosed) && self.next % 2 == 0 { self.poll(k, false)?; } }
        for k in 0..3 { if self.futs[k].is_some() { self.abandon(k)?; } }
        while !self.writers.is_empty() { self.end_write(0)?; }
        while !self.readers.is_empty() { self.end_read(0)?; }
        self.after()?;
        if self.rx.is_some() && self.next % 3 != 0 {
            loop {
                let before = all_wakes();
                let (want, i) = self.m.pop();
                let got = self.rx().try_recv();
                let end = got.is_err();
                self.received(want, i, got, &before)?;
                if end { break; }
            }
        }
        if let Some(r) = self.rx.take() { drop(unsafe { Box::from_raw(r) }); }
        for t in std::mem::take(&mut self.txs) { drop(unsafe { Box::from_raw(t) }); }
        self.rx_waker = None;
        if let Some(f) = self.free.take() { f() }
        Ok(())
    }
}
impl Chan {
    /// A send by reference that completes adds a writer.
    fn room(&self, k: usize) -> bool { match &self.futs[k] { Some(Fut { job: Job::Ref(_), .. }) => self.writers.len() < 3, _ => true } }
}

/// capacity, elements sent and received before, elements in the channel, waiting senders
const START: &[(usize, usize, usize, usize)] = &[(1, 0, 0, 0), (2, 0, 0, 0), (1, 0, 1, 2), (2, 1, 2, 3), (2, 0, 2, 0), (3, 2, 3, 1), (1, 1, 1, 3)];
fn make(c: usize, heap: bool) -> Box<dyn World> {
    let (cap, before, fill, waiting) = START[c];
    fn stat<const N: usize>() -> Chan {
        let p: *mut StaticChannel<Elem, N> = Box::into_raw(Box::new(StaticChannel::new()));
        let ch: &'static StaticChannel<Elem, N> = unsafe { &*p };
        let (tx, rx) = ch.split();
        assert!(ch.try_split().is_none(), "a split channel was split again");
        Chan::new(Box::new(tx), Box::new(rx), N, Some(Box::new(move || unsafe { drop(Box::from_raw(p)) })))
    }
    let mut ch = if heap { let (tx, rx) = mpsc::channel(cap); Chan::new(Box::new(tx), Box::new(rx), cap, None) } else {
        match cap { 1 => stat::<1>(), 2 => stat::<2>(), _ => stat::<3>() }
    };
    // the prefix is part of every history
    let mut go = |op: usize| if let Err(e) = ch.step(op) { ch.broken.get_or_insert(e); };
    for _ in 0..before { go(0); go(4); }
    for _ in 0..fill { go(0); }
    for i in 0..waiting { go(12 + i % 2); }
    Box::new(ch)
}
pub static SCENARIOS: &[Scenario] = &[
    Scenario { name: "async", ops: OPS, configs: 7, make: |c| make(c, true) },
    Scenario { name: "static_async", ops: OPS, configs: 7, make: |c| make(c, false) },
];
