//! Elements whose creation and destruction is accounted for (per thread).
use crate::Fail;
use std::cell::RefCell;
use thingbuf::recycling::Recycle;

const MAGIC: u64 = 0x7468_696e_6762_7566;
pub const DEFAULT: u32 = 500_000;
pub const NEW: u32 = 600_000;
pub const RECYCLED: u32 = 700_000;

#[derive(Default)]
struct Log {
    live: Vec<bool>,
    error: Option<String>,
    news: u32,
    last_new: usize,
    recycles: Vec<(usize, u32)>,
    panic_at: Option<u32>,
    wakes: Vec<usize>,
    waker_live: Vec<isize>,
}
thread_local!(static LOG: RefCell<Log> = RefCell::new(Log::default()));
fn with<R>(f: impl FnOnce(&mut Log) -> R) -> R { LOG.with(|l| f(&mut l.borrow_mut())) }

pub fn reset() { with(|l| *l = Log::default()) }
pub fn error() -> Option<String> { with(|l| l.error.clone()) }
pub fn all_gone() -> Result<(), Fail> {
    with(|l| {
        if let Some(e) = &l.error { return Err(("C04", e.clone())); }
        if let Some(i) = l.live.iter().position(|x| *x) { return Err(("C04", format!("element {} was never dropped", i))); }
        if let Some(i) = l.waker_live.iter().position(|x| *x != 0) { return Err(("C10", format!("waker {} was leaked or dropped too often ({})", i, l.waker_live[i]))); }
        Ok(())
    })
}

pub struct Elem { magic: u64, pub id: usize, pub val: u32 }
impl Elem {
    pub fn new(val: u32) -> Elem { with(|l| { l.live.push(true); Elem { magic: MAGIC, id: l.live.len() - 1, val } }) }
    /// Is this an element that exists?
    pub fn genuine(&self) -> bool { self.magic == MAGIC && with(|l| l.live.get(self.id).copied().unwrap_or(false)) }
}
impl Drop for Elem {
    fn drop(&mut self) {
        let _ = LOG.try_with(|l| if let Ok(mut l) = l.try_borrow_mut() {
            if self.magic != MAGIC { l.error = Some("something that never was an element was dropped".into()); }
            else if !l.live.get(self.id).copied().unwrap_or(false) { l.error = Some(format!("element {} was dropped twice", self.id)); }
            else { l.live[self.id] = false; }
        });
    }
}
impl Default for Elem { fn default() -> Elem { Elem::new(DEFAULT) } }
impl Clone for Elem { fn clone(&self) -> Elem { Elem::new(self.val) } }

/// Records what is asked of it.
pub struct Policy;
impl Recycle<Elem> for Policy {
    fn new_element(&self) -> Elem {
        let n = with(|l| { l.news += 1; if l.panic_at == Some(l.news) { None } else { Some(l.news) } });
        match n { Some(n) => { let e = Elem::new(NEW + n); with(|l| l.last_new = e.id); e } None => panic!("constructor") }
    }
    fn recycle(&self, e: &mut Elem) {
        if !e.genuine() { with(|l| l.error = Some("something that is not an element was recycled".into())); return; }
        with(|l| { l.recycles.push((e.id, e.val)); e.val = RECYCLED + l.recycles.len() as u32; });
    }
}
pub fn is_live(id: usize) -> bool { with(|l| l.live[id]) }
pub fn news() -> u32 { with(|l| l.news) }
/// The element the policy created last.
pub fn last_new() -> usize { with(|l| l.last_new) }
pub fn recycles() -> usize { with(|l| l.recycles.len()) }
pub fn last_recycled() -> Option<(usize, u32)> { with(|l| l.recycles.last().copied()) }
pub fn panic_at(n: u32) { with(|l| l.panic_at = Some(n)) }

// wakers, numbered
use std::task::{RawWaker, RawWakerVTable, Waker};
static VT: RawWakerVTable = RawWakerVTable::new(
    |p| { with(|l| l.waker_live[p as usize] += 1); RawWaker::new(p, &VT) },
    |p| { wake(p as usize); gone(p as usize) },
    |p| wake(p as usize),
    |p| gone(p as usize),
);
fn wake(i: usize) { with(|l| l.wakes[i] += 1) }
fn gone(i: usize) { let _ = LOG.try_with(|l| l.borrow_mut().waker_live[i] -= 1); }
pub fn new_waker() -> (usize, Waker) {
    let i = with(|l| { l.wakes.push(0); l.waker_live.push(1); l.wakes.len() - 1 });
    (i, unsafe { Waker::from_raw(RawWaker::new(i as *const (), &VT)) })
}
pub fn wakes(i: usize) -> usize { with(|l| l.wakes[i]) }
pub fn all_wakes() -> Vec<usize> { with(|l| l.wakes.clone()) }
