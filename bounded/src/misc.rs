//! Single-threaded cases that are not histories: constructors, errors, larger
//! capacities, recycling policies.
use crate::ring::{Model, Out, Q};
use crate::track::*;
use crate::*;
use std::collections::{BinaryHeap, HashMap, HashSet, VecDeque};
use thingbuf::mpsc::errors::*;
use thingbuf::mpsc::{self, blocking};
use thingbuf::recycling::{DefaultRecycle, Recycle, WithCapacity};
use thingbuf::{StaticThingBuf, ThingBuf};

fn rejects<R>(what: &str, f: impl FnOnce() -> R) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => { std::mem::forget(r); Err(("C13", format!("{} with capacity 0 was accepted", what))) }
        Err(_) => Ok(()),
    }
}
fn zero() -> Res {
    rejects("ThingBuf::new", || ThingBuf::<Elem>::new(0))?;
    rejects("ThingBuf::with_recycle", || ThingBuf::<Elem, Policy>::with_recycle(0, Policy))?;
    rejects("StaticThingBuf::new", || StaticThingBuf::<Elem, 0>::new())?;
    rejects("StaticThingBuf::with_recycle", || StaticThingBuf::<Elem, 0, Policy>::with_recycle(Policy))?;
    rejects("mpsc::channel", || mpsc::channel::<Elem>(0))?;
    rejects("mpsc::with_recycle", || mpsc::with_recycle::<Elem, Policy>(0, Policy))?;
    rejects("blocking::channel", || blocking::channel::<Elem>(0))?;
    rejects("blocking::with_recycle", || blocking::with_recycle::<Elem, Policy>(0, Policy))?;
    rejects("StaticChannel::new", || mpsc::StaticChannel::<Elem, 0>::new())?;
    rejects("blocking::StaticChannel::new", || blocking::StaticChannel::<Elem, 0>::new())
}

fn errors() -> Res {
    let e = |v| TrySendError::Full(v);
    check!(e(1u8).is_full() && !e(1u8).is_closed() && e(7u8).into_inner() == 7, "C07", "TrySendError::Full");
    let e = |v| TrySendError::Closed(v);
    check!(!e(1u8).is_full() && e(1u8).is_closed() && e(7u8).into_inner() == 7, "C07", "TrySendError::Closed");
    let e = |v| SendTimeoutError::Timeout(v);
    check!(e(1u8).is_timeout() && !e(1u8).is_closed() && e(7u8).into_inner() == 7, "C07", "SendTimeoutError::Timeout");
    let e = |v| SendTimeoutError::Closed(v);
    check!(!e(1u8).is_timeout() && e(1u8).is_closed() && e(7u8).into_inner() == 7, "C07", "SendTimeoutError::Closed");
    check!(ThingBuf::<u8>::new(1).push(3).is_ok(), "C07", "push into an empty buffer");
    let q = ThingBuf::<u8>::new(1);
    q.push(3).ok();
    check!(q.push(4).map_err(|e| e.into_inner()) == Err(4), "C07", "Full does not hold the value");
    let (tx, rx) = mpsc::channel::<u8>(1);
    check!(!rx.is_closed(), "C07", "is_closed() with a sender");
    check!(tx.try_send(1).is_ok(), "C07", "try_send into an empty channel");
    check!(matches!(tx.try_send(2), Err(TrySendError::Full(2))), "C07", "try_send into a full channel");
    check!(matches!(tx.try_send_ref().map(|_| ()), Err(TrySendError::Full(()))), "C07", "try_send_ref into a full channel");
    let t2 = tx.clone();
    drop(tx);
    check!(!rx.is_closed(), "C07", "is_closed() with a sender");
    drop(t2);
    check!(rx.is_closed(), "C07,C06", "is_closed() is false without senders");
    check!(rx.try_recv() == Ok(1), "C06,C01", "the element sent before closing");
    check!(rx.try_recv() == Err(TryRecvError::Closed), "C06,C02", "end of the channel");
    Ok(())
}

/// Long random histories at larger and odd capacities, also with held references.
fn long(q: &'static dyn Q, cap: usize, seed: u64) -> Res {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let mut rnd = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 33) as u32 };
    let mut m = Model::new(cap);
    let (mut w, mut r) = (vec![], vec![]);
    let mut bias = 5;
    for n in 0..1500u32 {
        if n % 97 == 0 { bias = rnd() % 10; }
        let v = 10 + n;
        match (rnd() % 10 < bias, rnd() % 6) {
            (_, 0) if !w.is_empty() => { let k = rnd() as usize % w.len(); let (e, i): (thingbuf::Ref<'static, Elem>, usize) = w.swap_remove(k); m.pushed(i, e.id, e.val); drop(e); }
            (_, 1) if !r.is_empty() => { let k = rnd() as usize % r.len(); let (e, i): (thingbuf::Ref<'static, Elem>, usize) = r.swap_remove(k); check!(m.content(i) == Some((e.id, e.val)), "C01,C03", "capacity {}: the element changed while it was held", cap); m.popped(i, e.id, e.val); drop(e); }
            (true, 2) => match (m.push(), q.push_ref()) {
                ((Out::Ok, i), Some(mut e)) => { check!(e.genuine(), "C04", "capacity {}: push_ref exposes something that is not an element", cap); e.val = v; w.push((e, i)); }
                ((Out::Full, _), None) => {}
                ((o, _), e) => return Err(("C02,C01,C11", format!("capacity {}: push_ref should be {:?}, succeeded: {}", cap, o, e.is_some()))),
            },
            (false, 2) => match (m.pop(), q.pop_ref()) {
                ((Out::Ok, i), Some(e)) => { check!(m.content(i) == Some((e.id, e.val)), "C01", "capacity {}: pop_ref gives the wrong element", cap); r.push((e, i)); }
                ((Out::Empty, _), None) => {}
                ((o, _), e) => return Err(("C02,C01,C11", format!("capacity {}: pop_ref should be {:?}, succeeded: {}", cap, o, e.is_some()))),
            },
            (true, _) => { let e = Elem::new(v); let id = e.id; match (m.push(), q.push(e)) {
                ((Out::Ok, i), Ok(())) => m.pushed(i, id, v),
                ((Out::Full, _), Err(e)) => check!(e.id == id && e.val == v && e.genuine(), "C07", "capacity {}: the value came back changed", cap),
                ((o, _), e) => return Err(("C02,C01,C11", format!("capacity {}: push should be {:?}, succeeded: {}", cap, o, e.is_ok()))),
            } }
            (false, _) => match (m.pop(), q.pop()) {
                ((Out::Ok, i), Some(e)) => { check!(m.content(i) == Some((e.id, e.val)) && e.genuine(), "C01", "capacity {}: pop gives the wrong element", cap); m.popped(i, usize::MAX, 0); }
                ((Out::Empty, _), None) => {}
                ((o, _), e) => return Err(("C02,C01,C11", format!("capacity {}: pop should be {:?}, succeeded: {}", cap, o, e.is_some()))),
            },
        }
        let (len, empty, rem, c) = q.sizes();
        let n = m.tail - m.head;
        check!(c == cap && len == n && empty == (n == 0) && rem == cap - n, "C05", "capacity {}: len {} is_empty {} remaining {} capacity {} with {} elements", cap, len, empty, rem, c, n);
    }
    Ok(())
}
fn capacities() -> Res {
    for cap in (1..=33).chain([63, 64, 65, 100, 127, 128, 129]) {
        for seed in 1..4 {
            reset();
            let p = Box::into_raw(Box::new(ThingBuf::<Elem, Policy>::with_recycle(cap, Policy)));
            let r = long(unsafe { &*p }, cap, seed * 1000 + cap as u64);
            drop(unsafe { Box::from_raw(p) });
            r?;
            all_gone()?;
        }
    }
    fn st<const N: usize>() -> Res {
        for seed in 1..4 {
            reset();
            let p = Box::into_raw(Box::new(StaticThingBuf::<Elem, N, Policy>::with_recycle(Policy)));
            let r = long(unsafe { &*p }, N, seed * 1000 + N as u64);
            drop(unsafe { Box::from_raw(p) });
            r?;
            all_gone()?;
        }
        Ok(())
    }
    st::<1>()?; st::<2>()?; st::<3>()?; st::<4>()?; st::<5>()?; st::<7>()?; st::<8>()?; st::<9>()?; st::<16>()?; st::<17>()?; st::<33>()?; st::<64>()
}

/// Channels at larger capacities: fill, overflow, drain, several laps.
fn channels() -> Res {
    macro_rules! laps {
        ($cap:expr, $make:expr, $free:expr) => {{
            reset();
            let cap: usize = $cap;
            let (tx, rx) = $make;
            for lap in 0..4u32 {
                for i in 0..cap as u32 { check!(tx.try_send(Elem::new(lap * 1000 + i)).is_ok(), "C02", "capacity {}: Full with {} elements", cap, i); }
                check!(matches!(tx.try_send(Elem::new(9)), Err(TrySendError::Full(_))), "C02", "capacity {}: one element too many", cap);
                let n = if lap == 3 { cap / 2 } else { cap };
                for i in 0..n as u32 { check!(rx.try_recv().map(|e| e.val) == Ok(lap * 1000 + i), "C01", "capacity {}: wrong element", cap); }
                if lap < 3 { check!(matches!(rx.try_recv(), Err(TryRecvError::Empty)), "C02", "capacity {}: not empty", cap); }
            }
            drop((tx, rx));
            $free;
            all_gone()?;
        }};
    }
    for cap in (1..=17).chain([31, 32, 33]) {
        laps!(cap, mpsc::with_recycle::<Elem, Policy>(cap, Policy), ());
        laps!(cap, blocking::with_recycle::<Elem, Policy>(cap, Policy), ());
    }
    macro_rules! st { ($($n:literal)*) => { $({
        let p = Box::into_raw(Box::new(mpsc::StaticChannel::<Elem, $n>::new()));
        laps!($n, unsafe { &*p }.split(), drop(unsafe { Box::from_raw(p) }));
        let p = Box::into_raw(Box::new(blocking::StaticChannel::<Elem, $n>::new()));
        laps!($n, unsafe { &*p }.split(), drop(unsafe { Box::from_raw(p) }));
    })* } }
    st!(1 2 3 5 8 9);
    Ok(())
}

/// Writing and reading through references with `fmt`.
fn formatting() -> Res {
    use std::fmt::Write;
    macro_rules! put { ($r:expr) => {{
        let mut r = $r;
        r.clear();
        r.write_str("a").unwrap(); r.write_char('b').unwrap(); write!(r, "{}-{}", 1, 2).unwrap();
        check!(&*r == "ab1-2" && format!("{} {:?} {:>7}", r, r, r) == format!("{} {:?} {:>7}", "ab1-2", "ab1-2", "ab1-2"), "C01", "what was written through a reference is not in the element: {:?}", &*r);
        r.push('!');
    }} }
    macro_rules! get { ($r:expr) => {{
        let mut r = $r;
        check!(&*r == "ab1-2!" && format!("{} {:?} {:>7}", r, r, r) == format!("{} {:?} {:>7}", "ab1-2!", "ab1-2!", "ab1-2!"), "C01", "what was written is not what comes out: {:?}", &*r);
        r.write_str("x").unwrap(); r.write_char('y').unwrap(); write!(r, "{}", 3).unwrap();
        check!(&*r == "ab1-2!xy3", "C01", "what was written through a reference is not in the element: {:?}", &*r);
    }} }
    static SQ: StaticThingBuf<String, 2> = StaticThingBuf::new();
    static SA: mpsc::StaticChannel<String, 2> = mpsc::StaticChannel::new();
    static SB: blocking::StaticChannel<String, 2> = blocking::StaticChannel::new();
    let q = ThingBuf::<String>::new(2);
    let (atx, arx) = mpsc::channel::<String>(2);
    let (btx, brx) = blocking::channel::<String>(2);
    let (satx, sarx) = SA.split();
    let (sbtx, sbrx) = SB.split();
    for _ in 0..5 {
        put!(q.push_ref().unwrap()); get!(q.pop_ref().unwrap());
        put!(SQ.push_ref().unwrap()); get!(SQ.pop_ref().unwrap());
        put!(atx.try_send_ref().unwrap()); get!(arx.try_recv_ref().unwrap());
        put!(btx.try_send_ref().unwrap()); get!(brx.try_recv_ref().unwrap());
        put!(satx.try_send_ref().unwrap()); get!(sarx.try_recv_ref().unwrap());
        put!(sbtx.try_send_ref().unwrap()); get!(sbrx.try_recv_ref().unwrap());
    }
    Ok(())
}

/// Dropping what was never or only partly used; a constructor that panics.
fn drops() -> Res {
    reset();
    drop(ThingBuf::<Elem>::new(3));
    drop(StaticThingBuf::<Elem, 3>::new());
    drop(mpsc::StaticChannel::<Elem, 3>::new());
    drop(blocking::StaticChannel::<Elem, 3>::new());
    drop(mpsc::channel::<Elem>(3));
    drop(blocking::channel::<Elem>(3));
    let b = Box::into_raw(Box::new(mpsc::StaticChannel::<Elem, 3>::new()));
    drop(unsafe { &*b }.split());
    drop(unsafe { Box::from_raw(b) });
    all_gone()?;
    // every number of pushes and pops before the end
    for cap in 1..6usize {
        for pushes in 0..3 * cap {
            for pops in 0..=pushes.min(2 * cap) {
                reset();
                let q = ThingBuf::<Elem, Policy>::with_recycle(cap, Policy);
                let (tx, rx) = mpsc::with_recycle::<Elem, Policy>(cap, Policy);
                let (btx, brx) = blocking::with_recycle::<Elem, Policy>(cap, Policy);
                let mut left = pops;
                for i in 0..pushes as u32 {
                    if q.push(Elem::new(i)).is_err() {
                        if left == 0 { break; }
                        left -= 1;
                        q.pop();
                        q.push(Elem::new(i)).ok();
                        rx.try_recv().ok();
                        brx.try_recv().ok();
                    }
                    tx.try_send(Elem::new(i)).ok();
                    btx.try_send(Elem::new(i)).ok();
                }
                if pops % 2 == 0 { drop(tx); drop(rx); drop(brx); drop(btx); } else { drop(rx); drop(tx); drop(btx); drop(brx); }
                drop(q);
                all_gone()?;
            }
        }
    }
    // the constructor panics at the n-th element
    for cap in 1..5usize {
        for n in 1..=cap as u32 {
            for by_ref in [false, true] {
                reset();
                panic_at(n);
                let q = ThingBuf::<Elem, Policy>::with_recycle(cap, Policy);
                for _ in 0..cap + 1 {
                    let r = catch_unwind(AssertUnwindSafe(|| if by_ref { q.push_ref().is_ok() } else { q.push_with(|e| { check_genuine(e); }).is_ok() }));
                    if r.is_err() { break; }
                }
                while let Some(e) = q.pop_ref() { check!(e.genuine(), "C04", "an element that was never created is handed out"); }
                drop(q);
                all_gone()?;
            }
        }
    }
    Ok(())
}
/// User code that panics in the middle of an operation: the operation is over all the same.
fn unwinding() -> Res {
    macro_rules! queue {
        ($q:expr, $cap:expr) => {{
            reset();
            let q = $q;
            for lap in 0..3u32 {
                for how in 0..4u32 {
                    let r = catch_unwind(AssertUnwindSafe(|| match how {
                        0 => { q.push_with(|e| { e.val = lap; panic!("deliberate") }).ok(); }
                        1 => { let mut r = q.push_ref().unwrap(); r.val = lap; panic!("deliberate") }
                        2 => { q.push(Elem::new(lap)).ok(); q.pop_with(|e| { assert!(e.val == lap); panic!("deliberate") }); }
                        _ => { q.push(Elem::new(lap)).ok(); let r = q.pop_ref().unwrap(); assert!(r.val == lap); panic!("deliberate") }
                    }));
                    check!(r.is_err(), "C11", "a panic was swallowed");
                    if how < 2 {
                        check!(q.len() == 1, "C05,C11,C02", "after a panic while writing, len() is {} instead of 1", q.len());
                        check!(q.pop().map(|e| e.val) == Some(lap), "C11,C01,C02", "a slot was not published by a panicking writer");
                    }
                    check!(q.is_empty(), "C05,C11,C02", "after a panic while reading, len() is {} instead of 0", q.len());
                    for i in 0..$cap { check!(q.push(Elem::new(i)).is_ok(), "C11,C02", "a slot was lost by a panicking user"); }
                    check!(q.push(Elem::new(9)).is_err(), "C02", "more elements than the capacity");
                    for i in 0..$cap { check!(q.pop().map(|e| e.val) == Some(i), "C01", "wrong element after a panic"); }
                }
            }
            drop(q);
            all_gone()?;
        }};
    }
    queue!(ThingBuf::<Elem>::new(1), 1);
    queue!(ThingBuf::<Elem>::new(3), 3);
    queue!(StaticThingBuf::<Elem, 1>::new(), 1);
    queue!(StaticThingBuf::<Elem, 3>::new(), 3);
    Ok(())
}
fn check_genuine(e: &Elem) { if !e.genuine() { panic!("not an element") } }

// ---- recycling ---------------------------------------------------------
trait Coll: Sized { fn cap(&self) -> usize; fn fill(&mut self, n: usize); fn count(&self) -> usize; fn reference(&mut self, max: usize); }
macro_rules! coll {
    ($t:ty, $add:expr) => { impl Coll for $t {
        fn cap(&self) -> usize { self.capacity() }
        fn fill(&mut self, n: usize) { let f: fn(&mut $t, usize) = $add; for i in 0..n { f(self, i); } }
        fn count(&self) -> usize { self.len() }
        fn reference(&mut self, max: usize) { self.clear(); self.shrink_to(max); }
    } };
}
coll!(Vec<u32>, |c, i| c.push(i as u32));
coll!(String, |c, _| c.push('x'));
coll!(VecDeque<u32>, |c, i| c.push_back(i as u32));
coll!(BinaryHeap<u32>, |c, i| c.push(i as u32));
coll!(HashMap<usize, u8>, |c, i| { c.insert(i, 1); });
coll!(HashSet<usize>, |c, i| { c.insert(i); });
fn capacity_policy<C: Coll>(name: &str) -> Res where WithCapacity: Recycle<C>, Arc<WithCapacity>: Recycle<C> {
    let d = WithCapacity::new();
    check!(d.min_capacity() == 0 && d.max_capacity() == usize::MAX, "C12", "defaults of WithCapacity");
    for min in [0usize, 1, 3, 8, 64] {
        for max in [0usize, 1, 3, 8, 20, 64, 200, usize::MAX] {
            for order in [false, true] {
                let p = if order { WithCapacity::new().with_min_capacity(min).with_max_capacity(max) } else { WithCapacity::new().with_max_capacity(max).with_min_capacity(min) };
                check!(p.min_capacity() == min && p.max_capacity() == max, "C12", "bounds of WithCapacity");
                for fill in [0usize, 1, 2, 5, 9, 30, 100] {
                    for arc in [false, true] {
                        let shared = Arc::new(p.clone());
                        let mut c: C = if arc { shared.new_element() } else { p.new_element() };
                        check!(c.cap() >= min && c.count() == 0, "C12", "{}: a new element has capacity {} with minimum {}", name, c.cap(), min);
                        c.fill(fill);
                        let before = c.cap();
                        if arc { shared.recycle(&mut c) } else { p.recycle(&mut c) }
                        check!(c.count() == 0, "C12", "{}: a recycled element is not empty", name);
                        // what the collection itself does when asked to shrink
                        let mut want: C = if arc { shared.new_element() } else { p.new_element() };
                        want.fill(fill);
                        if before <= max { check!(c.cap() == before, "C12", "{}: an allocation of {} below the maximum {} was not kept: {}", name, before, max, c.cap()); }
                        else {
                            want.reference(max);
                            check!(c.cap() <= want.cap(), "C12", "{}: capacity {} above the maximum {} was reduced to {} only", name, before, max, c.cap());
                            check!(c.cap() >= max, "C12", "{}: shrunk below the maximum {}: {}", name, max, c.cap());
                        }
                    }
                }
            }
        }
    }
    // through a buffer: the allocation comes back
    let q: ThingBuf<C, WithCapacity> = ThingBuf::with_recycle(2, WithCapacity::new().with_min_capacity(4).with_max_capacity(16));
    for i in 0..12 {
        let mut e = q.push_ref().unwrap();
        check!(e.count() == 0, "C12", "{}: a slot is not empty when it is pushed into", name);
        check!(e.cap() >= 4, "C12", "{}: a slot has capacity {} with minimum 4", name, e.cap());
        e.fill(10 + i);
        drop(e);
        drop(q.pop_ref());
    }
    Ok(())
}
fn policies() -> Res {
    capacity_policy::<Vec<u32>>("Vec")?;
    capacity_policy::<String>("String")?;
    capacity_policy::<VecDeque<u32>>("VecDeque")?;
    capacity_policy::<BinaryHeap<u32>>("BinaryHeap")?;
    capacity_policy::<HashMap<usize, u8>>("HashMap")?;
    capacity_policy::<HashSet<usize>>("HashSet")
}
fn default_policy() -> Res {
    let p = DefaultRecycle::new();
    let s: String = p.new_element();
    check!(s.is_empty(), "C12", "a new default element");
    let mut s = String::from("something");
    p.recycle(&mut s);
    check!(s.is_empty(), "C12", "a recycled default element");
    let mut x = 5u32;
    p.recycle(&mut x);
    check!(x == 0, "C12", "a recycled default element");
    let mut o = Some(3u8);
    p.recycle(&mut o);
    check!(o.is_none(), "C12", "a recycled default element");
    let q: ThingBuf<String> = ThingBuf::new(1);
    for _ in 0..4 {
        { let mut r = q.push_ref().unwrap(); check!(r.is_empty(), "C12", "a slot is pushed into with old content {:?}", &*r); r.push_str("hello"); }
        check!(q.pop_ref().map(|r| r.clone()) == Some("hello".to_string()), "C01", "what was written is not what comes out");
    }
    Ok(())
}

fn traits() -> Res {
    let mut r = Ok(());
    let n = crate::traits::traits(&mut |what, does| if r.is_ok() { r = Err(("C16", format!("{}: {}", what, does))) });
    EXTRA.fetch_add(n - 1, SeqCst);
    r
}

pub static LIST: &[Case] = &[
    Case { scenario: "misc", name: "zero", props: "C13", run: zero },
    Case { scenario: "misc", name: "errors", props: "C07", run: errors },
    Case { scenario: "misc", name: "capacities", props: "C11,C01,C02,C05", run: capacities },
    Case { scenario: "misc", name: "channels", props: "C11,C01,C02", run: channels },
    Case { scenario: "misc", name: "formatting", props: "C01,C11", run: formatting },
    Case { scenario: "misc", name: "drops", props: "C04", run: drops },
    Case { scenario: "misc", name: "unwinding", props: "C11,C04", run: unwinding },
    Case { scenario: "recycling", name: "policies", props: "C12", run: policies },
    Case { scenario: "recycling", name: "default", props: "C12", run: default_policy },
    Case { scenario: "traits", name: "auto_traits", props: "C16", run: traits },
];
