//! The queues: any interleaving of pushes, pops and held references.
use crate::track::*;
use crate::*;
use thingbuf::{Ref, StaticThingBuf, ThingBuf};

pub trait Q {
    fn push(&self, e: Elem) -> Result<(), Elem>;
    fn pop(&self) -> Option<Elem>;
    fn push_ref(&'static self) -> Option<Ref<'static, Elem>>;
    fn pop_ref(&'static self) -> Option<Ref<'static, Elem>>;
    fn push_with(&self, v: u32) -> Option<u32>;
    fn pop_with(&self) -> Option<u32>;
    fn sizes(&self) -> (usize, bool, usize, usize);
}
macro_rules! q {
    ([$($g:tt)*] $t:ty) => { impl<$($g)*> Q for $t {
        fn push(&self, e: Elem) -> Result<(), Elem> { <$t>::push(self, e).map_err(|f| f.into_inner()) }
        fn pop(&self) -> Option<Elem> { <$t>::pop(self) }
        fn push_ref(&'static self) -> Option<Ref<'static, Elem>> { <$t>::push_ref(self).ok() }
        fn pop_ref(&'static self) -> Option<Ref<'static, Elem>> { <$t>::pop_ref(self) }
        fn push_with(&self, v: u32) -> Option<u32> { <$t>::push_with(self, |e| { let x = e.val; *e = Elem::new(v); x }).ok() }
        fn pop_with(&self) -> Option<u32> { <$t>::pop_with(self, |e| e.val) }
        fn sizes(&self) -> (usize, bool, usize, usize) { (self.len(), self.is_empty(), self.remaining(), self.capacity()) }
    } };
}
q!([] ThingBuf<Elem, Policy>);
q!([const N: usize] StaticThingBuf<Elem, N, Policy>);

#[derive(Clone, Copy, PartialEq, Debug)]
enum Slot { Free, Writing, Full, Reading }

/// The specification: positions, and who holds which slot.
pub struct Model { pub cap: usize, pub head: usize, pub tail: usize, slot: Vec<Slot>, left: Vec<Option<(usize, u32)>>, pub closed: bool }
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Out { Ok, Full, Empty, Closed }
impl Model {
    pub fn new(cap: usize) -> Model { Model { cap, head: 0, tail: 0, slot: vec![Slot::Free; cap], left: vec![None; cap], closed: false } }
    pub fn push(&mut self) -> (Out, usize) {
        if self.closed { return (Out::Closed, 0); }
        let i = self.tail % self.cap;
        if self.tail - self.head == self.cap || self.slot[i] != Slot::Free { return (Out::Full, 0); }
        self.tail += 1;
        self.slot[i] = Slot::Writing;
        (Out::Ok, i)
    }
    pub fn pushed(&mut self, i: usize, id: usize, val: u32) { self.slot[i] = Slot::Full; self.left[i] = Some((id, val)); }
    pub fn pop(&mut self) -> (Out, usize) {
        if self.head == self.tail { return (if self.closed { Out::Closed } else { Out::Empty }, 0); }
        let i = self.head % self.cap;
        if self.slot[i] != Slot::Full { return (Out::Empty, 0); }
        self.head += 1;
        self.slot[i] = Slot::Reading;
        (Out::Ok, i)
    }
    pub fn popped(&mut self, i: usize, id: usize, val: u32) { self.slot[i] = Slot::Free; self.left[i] = Some((id, val)); }
    pub fn content(&self, i: usize) -> Option<(usize, u32)> { self.left[i] }
    pub fn peek_push(&self) -> Out {
        if self.closed { return Out::Closed; }
        if self.tail - self.head == self.cap || self.slot[self.tail % self.cap] != Slot::Free { Out::Full } else { Out::Ok }
    }
    pub fn peek_pop(&self) -> Out {
        if self.head == self.tail { return if self.closed { Out::Closed } else { Out::Empty }; }
        if self.slot[self.head % self.cap] == Slot::Full { Out::Ok } else { Out::Empty }
    }
    pub fn len(&self) -> usize { self.tail - self.head }
}

struct Ring {
    q: &'static dyn Q,
    free: Option<fn(*const ())>,
    p: *const (),
    m: Model,
    writers: Vec<(Ref<'static, Elem>, usize)>,
    readers: Vec<(Ref<'static, Elem>, usize)>,
    next: u32,
}

impl Ring {
    fn make<T: Q + 'static>(q: T, cap: usize) -> Box<dyn World> {
        let p: &'static T = Box::leak(Box::new(q));
        Box::new(Ring { q: p, p: p as *const T as *const (), free: Some(|p| unsafe { drop(Box::from_raw(p as *mut T)) }),
            m: Model::new(cap), writers: vec![], readers: vec![], next: 0 })
    }
    fn val(&mut self) -> u32 { self.next += 1; self.next }
    /// The element found in a slot just claimed for writing.
    fn fresh(&self, i: usize, id: Option<usize>, val: u32, news: u32, recycles: usize) -> Res {
        match self.m.content(i) {
            None => {
                check!(crate::track::news() == news + 1 && crate::track::recycles() == recycles, "C12", "a slot used for the first time gets one new element and no recycling");
                check!(val == NEW + news + 1, "C12", "a slot used for the first time holds {} instead of a new element", val);
            }
            Some((oid, oval)) => {
                check!(crate::track::recycles() == recycles + 1, "C12", "a reused slot was recycled {} times", crate::track::recycles() - recycles);
                check!(crate::track::news() == news, "C12", "a reused slot got a new element");
                check!(last_recycled() == Some((oid, oval)), "C12,C01", "recycled {:?} instead of the element left in the slot {:?}", last_recycled(), (oid, oval));
                check!(val == RECYCLED + recycles as u32 + 1, "C12", "a reused slot holds {} instead of the recycled element", val);
                if let Some(id) = id { check!(id == oid, "C12,C03", "a reused slot holds another element"); }
            }
        }
        Ok(())
    }
    fn after(&self) -> Res {
        if let Some(e) = error() { return Err(("C04,C03", e)); }
        let (len, empty, rem, cap) = self.q.sizes();
        check!(cap == self.m.cap, "C05,C02", "capacity() is {}", cap);
        check!(len == self.m.len(), "C05", "len() is {} instead of {}", len, self.m.len());
        check!(empty == (len == 0), "C05", "is_empty() is {} with {} elements", empty, len);
        check!(rem == cap - len, "C05", "remaining() is {} with {} of {}", rem, len, cap);
        for (r, i) in self.writers.iter().chain(&self.readers) {
            check!(r.genuine(), "C03,C04", "a live reference designates no element");
            let _ = i;
        }
        Ok(())
    }
    fn release(&mut self, writer: bool, at: usize) {
        let (r, i) = if writer { self.writers.remove(at) } else { self.readers.remove(at) };
        let (id, val) = (r.id, r.val);
        drop(r);
        if writer { self.m.pushed(i, id, val) } else { self.m.popped(i, id, val) }
    }
}
const OPS: &[&str] = &["push", "pop", "push_ref", "end_push_first", "end_push_last", "pop_ref", "end_pop_first", "end_pop_last", "push_with", "pop_with"];
impl World for Ring {
    fn enabled(&self, op: usize) -> bool {
        match op {
            2 => self.writers.len() < 2,
            3 => !self.writers.is_empty(),
            4 => self.writers.len() > 1,
            5 => self.readers.len() < 2,
            6 => !self.readers.is_empty(),
            7 => self.readers.len() > 1,
            _ => true,
        }
    }
    fn step(&mut self, op: usize) -> Res {
        let (n, r) = (news(), recycles());
        match op {
            0 => {
                let v = self.val();
                let e = Elem::new(v);
                let id = e.id;
                let (want, i) = self.m.push();
                match self.q.push(e) {
                    Ok(()) => {
                        check!(want == Out::Ok, "C02", "push succeeded on a buffer without a free slot");
                        if self.m.content(i).is_none() { check!(news() == n + 1 && recycles() == r, "C12", "first use of a slot"); }
                        else { check!(news() == n && recycles() == r + 1, "C12", "reuse of a slot"); }
                        self.m.pushed(i, id, v);
                    }
                    Err(e) => {
                        check!(e.id == id && e.val == v && e.genuine(), "C07", "a failed push returned another value");
                        check!(want != Out::Ok, "C02,C11", "push failed although there was a free slot");
                        check!(news() == n && recycles() == r, "C12,C02", "a failed push touched an element");
                    }
                }
            }
            1 | 9 => {
                let (want, i) = self.m.pop();
                let what = self.m.content(i);
                let got = if op == 1 { self.q.pop().map(|e| (Some(e.id), e.val, e.genuine())) } else { self.q.pop_with().map(|v| (None, v, true)) };
                match got {
                    Some((id, val, real)) => {
                        check!(want == Out::Ok, "C01,C02", "popped {} from a buffer with nothing to pop", val);
                        let (wid, wval) = what.unwrap();
                        check!(real && val == wval && id.map_or(true, |i| i == wid), "C01", "popped {} instead of {}", val, wval);
                        if op == 1 {
                            check!(news() == n + 1 && recycles() == r, "C12", "popping by value leaves one fresh element behind");
                            // the fresh element is the latest one created
                            self.m.popped(i, last_new(), NEW + news());
                        } else {
                            check!(news() == n && recycles() == r, "C12", "popping by reference leaves the element");
                            self.m.popped(i, wid, wval);
                        }
                    }
                    None => check!(want != Out::Ok, "C01,C02,C11", "nothing popped although an element was ready"),
                }
            }
            2 => {
                let (want, i) = self.m.push();
                match self.q.push_ref() {
                    Some(mut w) => {
                        check!(want == Out::Ok, "C02", "push_ref succeeded on a buffer without a free slot");
                        check!(w.genuine(), "C04,C03", "push_ref exposes something that is not an element");
                        self.fresh(i, Some(w.id), w.val, n, r)?;
                        w.val = self.val();
                        self.writers.push((w, i));
                    }
                    None => check!(want != Out::Ok, "C02,C11", "push_ref failed although there was a free slot"),
                }
            }
            3 => self.release(true, 0),
            4 => { let k = self.writers.len() - 1; self.release(true, k) }
            5 => {
                let (want, i) = self.m.pop();
                match self.q.pop_ref() {
                    Some(p) => {
                        check!(want == Out::Ok, "C01,C02", "pop_ref succeeded on a buffer with nothing to pop");
                        let (wid, wval) = self.m.content(i).unwrap();
                        check!(p.genuine() && p.id == wid && p.val == wval, "C01,C03", "pop_ref gave {} instead of {}", p.val, wval);
                        check!(news() == n && recycles() == r, "C12", "popping by reference recycles nothing");
                        self.readers.push((p, i));
                    }
                    None => check!(want != Out::Ok, "C01,C02,C11", "nothing popped although an element was ready"),
                }
            }
            6 => self.release(false, 0),
            7 => { let k = self.readers.len() - 1; self.release(false, k) }
            8 => {
                let (want, i) = self.m.push();
                let v = self.val();
                match self.q.push_with(v) {
                    Some(x) => {
                        check!(want == Out::Ok, "C02", "push_with succeeded on a buffer without a free slot");
                        self.fresh(i, None, x, n, r)?;
                        // the element created by the closure
                        self.m.pushed(i, latest(), v);
                    }
                    None => check!(want != Out::Ok, "C02,C11", "push_with failed although there was a free slot"),
                }
            }
            _ => unreachable!(),
        }
        self.after()
    }
    fn finish(mut self: Box<Self>) -> Res {
        while !self.writers.is_empty() { self.release(true, 0); }
        while !self.readers.is_empty() { self.release(false, 0); }
        self.after()?;
        // drain what is there, in order, half of the time
        if self.next % 2 == 0 {
            loop {
                let (want, i) = self.m.pop();
                let got = self.q.pop();
                match (want, got) {
                    (Out::Ok, Some(e)) => { check!(Some(e.val) == self.m.content(i).map(|c| c.1), "C01", "drained {} instead of {:?}", e.val, self.m.content(i)); self.m.popped(i, 0, 0); }
                    (Out::Ok, None) => return Err(("C01,C02", "an element was lost".into())),
                    (_, Some(e)) => return Err(("C01", format!("{} was invented or duplicated", e.val))),
                    _ => break,
                }
            }
        }
        (self.free.take().unwrap())(self.p);
        Ok(())
    }
}
fn latest() -> usize { let e = Elem::new(0); let i = e.id; drop(e); i - 1 }

pub static SCENARIOS: &[Scenario] = &[
    Scenario { name: "ring", ops: OPS, configs: 3, make: |c| Ring::make(ThingBuf::with_recycle(c + 1, Policy), c + 1) },
    Scenario { name: "static_ring", ops: OPS, configs: 3, make: |c| match c {
        0 => Ring::make(StaticThingBuf::<Elem, 1, Policy>::with_recycle(Policy), 1),
        1 => Ring::make(StaticThingBuf::<Elem, 2, Policy>::with_recycle(Policy), 2),
        _ => Ring::make(StaticThingBuf::<Elem, 3, Policy>::with_recycle(Policy), 3),
    } },
];
