// Contracts of the queue types' public methods, of construction and
// destruction, of the recycling policies and of the error types.
use super::*;
use super::contract as k;
use crate::mpsc::{self, errors::*, blocking};
use crate::recycling::{self, WithCapacity, DefaultRecycle};
use alloc::{vec::Vec, string::String, collections::{VecDeque, BinaryHeap}};

#[derive(Debug, PartialEq, Default, Clone)]
struct Msg(u32);

/// What a queue's methods do around `push_ref`, `pop_ref` and `len`.
trait Queue {
    fn all_slots(&self) -> &[Slot<Msg>];
}
impl Queue for ThingBuf<Msg> { fn all_slots(&self) -> &[Slot<Msg>] { &self.slots } }
impl<const N: usize> Queue for StaticThingBuf<Msg, N> { fn all_slots(&self) -> &[Slot<Msg>] { self.verif_slots() } }

unsafe fn stored<Q: Queue>(q: &Q) -> u32 { (*(*q.all_slots()[0].value_ptr()).as_ptr()).0 }

static mut FIXED: StaticThingBuf<Msg, 1> = StaticThingBuf::new();
static mut FIXED3: StaticThingBuf<Msg, 3> = StaticThingBuf::new();
fn heap() -> &'static ThingBuf<Msg> { alloc::boxed::Box::leak(alloc::boxed::Box::new(ThingBuf::new(1))) }
fn fixed() -> &'static StaticThingBuf<Msg, 1> { unsafe { &FIXED } }
fn heap3() -> &'static ThingBuf<Msg> { alloc::boxed::Box::leak(alloc::boxed::Box::new(ThingBuf::new(3))) }
fn fixed3() -> &'static StaticThingBuf<Msg, 3> { unsafe { &FIXED3 } }

macro_rules! queue {
    ($m:ident, $make:ident, $make3:ident) => { mod $m {
        use super::*;

        #[kani::proof]
        #[kani::unwind(4)]
        #[kani::stub(crate::Core::push_ref, crate::verif::contract::push_ref)]
        fn con_push() {
            unsafe {
                let q = $make();
                k::NEVER_CLOSED = true;
                let v: u32 = kani::any();
                let how: u8 = kani::any();
                let ok = match how {
                    0 => match q.push(Msg(v)) {
                        Ok(()) => true,
                        Err(f) => { assert!(f.into_inner().0 == v, "V36 a failed push returns the value"); false }
                    },
                    1 => match q.push_ref() {
                        Ok(mut r) => {
                            assert!(k::CLAIMS == 1 && !k::released(), "V40 the slot stays claimed while the reference lives");
                            r.0 = v;
                            true
                        }
                        Err(_) => false,
                    },
                    _ => match q.push_with(|m| { m.0 = v; v }) {
                        Ok(x) => { assert!(x == v, "A10 push_with returns the closure's result"); true }
                        Err(_) => false,
                    },
                };
                if ok {
                    assert!(k::CLAIMS == 1 && k::LAST == k::OK && k::released(), "V32 a completed push has released its slot");
                    assert!(stored(q) == v, "V31 the pushed value is in the slot");
                } else {
                    assert!(k::CLAIMS == 0 && k::LAST == k::FULL_OR_EMPTY, "V34 a failed push enqueues nothing");
                }
                kani::cover!(ok && how == 0, "pushed");
                kani::cover!(ok && how == 1, "pushed by reference");
                kani::cover!(ok && how > 1, "pushed by closure");
                kani::cover!(!ok, "full");
            }
        }

        #[kani::proof]
        #[kani::unwind(4)]
        #[kani::stub(crate::Core::pop_ref, crate::verif::contract::pop_ref)]
        fn con_pop() {
            unsafe {
                let q = $make();
                k::NEVER_CLOSED = true;
                let v: u32 = kani::any();
                kani::assume(v != 0);
                (*q.all_slots()[0].value_ptr()).write(Msg(v));
                let how: u8 = kani::any();
                let got = match how {
                    0 => q.pop().map(|m| m.0),
                    1 => q.pop_ref().map(|r| { assert!(!k::released(), "V60 the slot stays claimed while the reference lives"); r.0 }),
                    _ => q.pop_with(|m| m.0),
                };
                match got {
                    Some(x) => {
                        assert!(k::CLAIMS == 1 && k::LAST == k::OK && k::released(), "V52 a completed pop has released its slot");
                        assert!(x == v, "V50 the popped value is the one in the claimed slot");
                        assert!(stored(q) == if how == 0 { 0 } else { v }, "V51 popping by value leaves a fresh element, by reference the same one");
                    }
                    None => assert!(k::CLAIMS == 0 && k::LAST == k::FULL_OR_EMPTY, "V54 a failed pop takes nothing"),
                }
                kani::cover!(got.is_some() && how == 0, "popped");
                kani::cover!(got.is_some() && how == 1, "popped by reference");
                kani::cover!(got.is_some() && how > 1, "popped by closure");
                kani::cover!(got.is_none(), "empty");
            }
        }

        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(crate::Core::len, crate::verif::contract::len)]
        fn con_sizes() {
            unsafe {
                let q = $make3();
                k::LEN_MAX = 3;
                assert!(q.capacity() == 3, "A20 capacity() is the constructed capacity");
                assert!(q.len() == k::LEN, "A21 len() is the number of elements");
                assert!(q.is_empty() == (k::LEN == 0), "A22 is_empty() exactly if there are no elements");
                kani::cover!(k::LEN == 0, "empty");
                assert!(q.remaining() == 3 - k::LEN, "A23 remaining() is the capacity minus the length");
                kani::cover!(k::LEN == 3, "full");
            }
        }

        /// A new queue is empty, and each slot is ready for its first position.
        #[kani::proof]
        #[kani::unwind(5)]
        fn con_new() {
            unsafe {
                let q = $make3();
                new_ring(q.ring(), q.all_slots(), 3);
                assert!(q.len() == 0 && q.is_empty() && q.remaining() == 3 && q.capacity() == 3, "A24 a new queue is empty");
                kani::cover!(true, "made");
            }
        }
    } }
}
trait Ring { fn ring(&self) -> &Core; }
impl Ring for ThingBuf<Msg> { fn ring(&self) -> &Core { &self.core } }
impl<const N: usize> Ring for StaticThingBuf<Msg, N> { fn ring(&self) -> &Core { self.verif_core() } }
unsafe fn new_ring<T>(c: &Core, s: &[Slot<T>], cap: usize) {
    assert!(*c.head.ghost_ptr() == 0 && *c.tail.ghost_ptr() == 0, "A30 a new ring starts at position 0, open");
    assert!(s.len() == cap && c.capacity() == cap, "A31 a new ring has exactly the constructed capacity");
    let i: usize = kani::any();
    kani::assume(i < cap);
    assert!(*s[i].state.ghost_ptr() == i, "A32 each slot of a new ring is ready for its first position");
}
queue!(heap_queue, heap, heap3);
queue!(static_queue, fixed, fixed3);

// --- positions, for every capacity and every position ------------------------
#[kani::proof]
#[kani::unwind(1)]
fn con_positions() {
    let cap: usize = kani::any();
    // slots are at least a word, so this is every capacity that can exist
    kani::assume(cap >= 1 && cap < 1 << 60);
    let c = core::mem::ManuallyDrop::new(Core::new(cap));
    let g = c.gen;
    assert!(g.is_power_of_two() && c.closed.is_power_of_two() && c.closed < g && cap < c.closed + 1, "A40 the position encoding has room for every index and the closed bit");
    assert!(c.capacity() == cap, "A31 a new ring has exactly the constructed capacity");
    let (idx, lap): (usize, usize) = (kani::any(), kani::any());
    kani::assume(idx < cap);
    let gen = lap.wrapping_mul(g);
    kani::assume(gen & (g - 1) == 0);
    let pos = gen | idx;
    assert!(c.idx_gen(pos) == (idx, gen), "A41 a position decodes to its index and lap");
    assert!(c.idx_gen(pos | c.closed) == (idx, gen), "A42 the closed bit is not part of a position");
    let n = c.next(idx, gen);
    assert!(n == if idx + 1 < cap { gen | (idx + 1) } else { gen.wrapping_add(g) }, "A43 positions follow each other through every index of every lap");
    assert!(n & c.closed == 0, "A42 the closed bit is not part of a position");
    kani::cover!(idx + 1 < cap, "same lap");
    kani::cover!(idx + 1 == cap && cap > 1, "next lap");
    kani::cover!(cap == 1, "capacity one");
    kani::cover!(cap > 1 << 50, "huge");
}

// --- drop_slots ---------------------------------------------------------------
static mut DROPPED: [u8; 4] = [0; 4];
static mut DROPS: usize = 0;
struct Tracked(usize);
impl Drop for Tracked { fn drop(&mut self) { unsafe { DROPPED[self.0 & 3] += 1; DROPS += 1; } } }

/// Every element that was created is dropped exactly once, whatever the
/// position of the tail (capacities up to 3).
#[kani::proof]
#[kani::unwind(5)]
fn bnd_drop_slots() {
    unsafe {
        let cap: usize = kani::any();
        kani::assume(cap >= 1 && cap <= 3);
        let mut c = Core::new(cap);
        let mut slots: [Slot<Tracked>; 3] = [Slot::new(0), Slot::new(1), Slot::new(2)];
        let (idx, lap): (usize, usize) = (kani::any(), kani::any());
        kani::assume(idx < cap && lap < 1 << 40);
        let tail = lap * c.gen + idx;
        *c.tail.ghost_ptr() = if kani::any() { tail | c.closed } else { tail };
        *c.head.ghost_ptr() = kani::any();
        let mut created = [false; 3];
        let mut n = 0;
        let mut i = 0;
        while i < 3 {
            let claimed = i < cap && (lap > 0 || i < idx);
            // the constructor may have panicked, after which the slot stays as it was
            if claimed && kani::any() {
                created[i] = true;
                n += 1;
                (*slots[i].value_ptr()).write(Tracked(i));
                let k: usize = kani::any();
                kani::assume(k < 1 << 40);
                *slots[i].state.ghost_ptr() = if k == 0 { i + 1 } else { k * c.gen + i + kani::any::<bool>() as usize };
            }
            i += 1;
        }
        c.drop_slots(&mut slots[..cap]);
        assert!(DROPS == n, "D10 as many elements are dropped as were created");
        let i: usize = kani::any();
        kani::assume(i < 3);
        assert!(DROPPED[i] == created[i] as u8, "D11 every created element is dropped exactly once, and nothing else");
        kani::cover!(n == 3 && lap > 1, "full, wrapped");
        kani::cover!(n == 0, "nothing created");
        kani::cover!(n > 0 && n < idx, "a constructor panicked");
    }
}

/// The loop over the slots, for any capacity: `enumerate()` over the slots is
/// replaced by one that yields a single arbitrary slot (with its index), so the
/// loop body is run for an arbitrary slot; what it does to that slot it does to
/// each, since iteration visits every element once (contract of the standard
/// library's iterators).
static mut PICK: usize = 0;
static mut PICKS: usize = 0;
static mut PICKED: MaybeUninit<Slot<Tracked>> = MaybeUninit::uninit();
struct OneOf<I> { iter: I, count: usize }
impl<I: ExactSizeIterator> OneOf<I> {
    fn new(iter: I) -> core::iter::Enumerate<I> {
        unsafe {
            type Slots = core::slice::IterMut<'static, Slot<Tracked>>;
            // another iterator than that of the slots: nothing is decided here
            kani::assume(core::mem::size_of::<I>() == core::mem::size_of::<Slots>());
            PICKS += 1;
            let n = (PICK < iter.len()) as usize;
            let one = core::mem::ManuallyDrop::new(core::slice::from_raw_parts_mut((*(&raw mut PICKED)).as_mut_ptr(), n).iter_mut());
            let iter = core::ptr::read(&*one as *const Slots as *const I);
            let e = core::mem::ManuallyDrop::new(OneOf { iter, count: PICK });
            core::ptr::read(&*e as *const OneOf<I> as *const core::iter::Enumerate<I>)
        }
    }
}
/// Every element that was created is dropped exactly once, and nothing else is,
/// whatever the capacity and the position of the tail.
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(core::iter::Enumerate::new, OneOf::new)]
fn con_drop_slots() {
    unsafe {
        let cap: usize = kani::any();
        kani::assume(cap >= 1 && cap <= 1 << 32);
        let mut c = Core::new(cap);
        let (idx, lap): (usize, usize) = (kani::any(), kani::any());
        kani::assume(idx < cap && lap < 1 << 28);
        let tail = lap * c.gen + idx;
        *c.tail.ghost_ptr() = if kani::any() { tail | c.closed } else { tail };
        *c.head.ghost_ptr() = kani::any();
        let mem = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(cap * core::mem::size_of::<Slot<Tracked>>(), core::mem::align_of::<Slot<Tracked>>())) as *mut Slot<Tracked>;
        let i: usize = kani::any();
        kani::assume(i < cap);
        PICK = i;
        let slot = (*(&raw mut PICKED)).as_mut_ptr();
        slot.write(Slot::new(i));
        let claimed = lap > 0 || i < idx;
        let created = claimed && kani::any();
        if created {
            (*(*slot).value_ptr()).write(Tracked(0));
            let k: usize = kani::any();
            kani::assume(k < 1 << 28);
            *(*slot).state.ghost_ptr() = if k == 0 { i + 1 } else { k * c.gen + i + kani::any::<bool>() as usize };
        }
        c.drop_slots(core::slice::from_raw_parts_mut(mem, cap));
        // written in another way than with `enumerate()`: nothing is decided here
        kani::assume(PICKS == 1);
        assert!(DROPPED[0] == created as u8, "D11 every created element is dropped exactly once, and nothing else");
        assert!(DROPS == created as usize, "D10 as many elements are dropped as were created");
        kani::cover!(created && lap > 1, "wrapped");
        kani::cover!(created && lap == 0, "first lap");
        kani::cover!(!claimed, "never used");
        kani::cover!(claimed && !created, "the constructor panicked");
        kani::cover!(created && i + 1 == cap && cap > 1000, "the last of many");
    }
}

/// Buffers and channels drop all their slots, once, when they go away.
unsafe fn all_dropped(n: usize) {
    assert!(k::SLOT_DROPS == 1, "D20 the elements are dropped exactly once");
    assert!(k::SLOTS_DROPPED == n, "D21 all of the storage is dropped");
    kani::cover!(true, "dropped");
}
macro_rules! dropping {
    ($($name:ident $n:expr => $b:expr;)*) => { $(
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(crate::Core::drop_slots, crate::verif::contract::drop_slots)]
        fn $name() { unsafe { $b; all_dropped($n); } }
    )* };
}
dropping! {
    con_drop_queue 2 => drop(ThingBuf::<Msg>::new(2));
    con_drop_static_queue 2 => drop(StaticThingBuf::<Msg, 2>::new());
    con_drop_static_async 2 => drop(mpsc::StaticChannel::<Msg, 2>::new());
    con_drop_static_blocking 2 => drop(blocking::StaticChannel::<Msg, 2>::new());
    con_drop_async 2 => {
        let (tx, rx) = mpsc::channel::<Msg>(2);
        let tx2 = tx.clone();
        if kani::any() {
            drop(tx); drop(tx2);
            assert!(k::SLOT_DROPS == 0, "D22 the elements live as long as a handle");
            drop(rx);
        } else {
            drop(rx); drop(tx);
            assert!(k::SLOT_DROPS == 0, "D22 the elements live as long as a handle");
            drop(tx2);
        }
    };
    con_drop_blocking 2 => {
        let (tx, rx) = blocking::channel::<Msg>(2);
        let tx2 = tx.clone();
        if kani::any() {
            drop(tx); drop(tx2);
            assert!(k::SLOT_DROPS == 0, "D22 the elements live as long as a handle");
            drop(rx);
        } else {
            drop(rx); drop(tx);
            assert!(k::SLOT_DROPS == 0, "D22 the elements live as long as a handle");
            drop(tx2);
        }
    };
}

// --- errors --------------------------------------------------------------------
#[kani::proof]
fn con_errors() {
    let v: u32 = kani::any();
    let (f, c) = (TrySendError::Full(v), TrySendError::Closed(v));
    assert!(f.is_full() && !f.is_closed() && !c.is_full() && c.is_closed(), "E10 error predicates are true exactly for their own kind");
    assert!(f.into_inner() == v && c.into_inner() == v, "E11 an error gives the value back");
    let (t, c) = (SendTimeoutError::Timeout(v), SendTimeoutError::Closed(v));
    assert!(t.is_timeout() && !t.is_closed() && !c.is_timeout() && c.is_closed(), "E10 error predicates are true exactly for their own kind");
    assert!(t.into_inner() == v && c.into_inner() == v, "E11 an error gives the value back");
    assert!(Closed(v).into_inner() == v && Full(v).into_inner() == v, "E11 an error gives the value back");
    assert!(matches!(TrySendError::Full(()).with_value(v), TrySendError::Full(x) if x == v), "E12 attaching the value keeps the kind of error");
    assert!(matches!(TrySendError::Closed(()).with_value(v), TrySendError::Closed(x) if x == v), "E12 attaching the value keeps the kind of error");
    assert!(matches!(SendTimeoutError::Timeout(()).with_value(v), SendTimeoutError::Timeout(x) if x == v), "E12 attaching the value keeps the kind of error");
    assert!(matches!(SendTimeoutError::Closed(()).with_value(v), SendTimeoutError::Closed(x) if x == v), "E12 attaching the value keeps the kind of error");
    kani::cover!(true, "errors");
}

// --- recycling -------------------------------------------------------------------
static mut CLONED: usize = 0;
#[derive(Debug, PartialEq)]
struct Value(u32, bool);
impl Default for Value { fn default() -> Self { Value(77, true) } }
impl Clone for Value { fn clone(&self) -> Self { unsafe { CLONED += 1 } Value(self.0, self.1) } }

#[kani::proof]
fn con_default_recycle() {
    let r = DefaultRecycle::new();
    assert!(Recycle::<Value>::new_element(&r) == Value::default(), "Y10 a new element is the default value");
    let mut v = Value(kani::any(), kani::any());
    r.recycle(&mut v);
    assert!(v == Value::default(), "Y11 recycling leaves the default value");
    // through a shared policy
    let a = alloc::sync::Arc::new(DefaultRecycle::new());
    let mut v = Value(kani::any(), kani::any());
    a.recycle(&mut v);
    assert!(v == Value::default() && Recycle::<Value>::new_element(&a) == Value::default(), "Y12 a shared policy behaves like the policy");
    // taking an element
    let x: u32 = kani::any();
    let mut v = Value(x, false);
    assert!(recycling::take(&mut v, &r) == Value(x, false) && v == Value::default(), "Y13 taking an element leaves a fresh one");
    kani::cover!(true, "recycled");
}

const BIG: usize = 1 << 20;
unsafe fn policy() -> (WithCapacity, usize, usize) {
    let (min, max): (usize, usize) = (kani::any(), kani::any());
    kani::assume(min <= BIG && max <= BIG);
    let p = WithCapacity::new();
    assert!(p.min_capacity() == 0 && p.max_capacity() == usize::MAX, "Y20 a new capacity policy has no limits");
    let p = if kani::any() { p.with_max_capacity(max).with_min_capacity(min) } else { p.with_min_capacity(min).with_max_capacity(max) };
    assert!(p.min_capacity() == min && p.max_capacity() == max, "Y21 a capacity policy keeps both of its limits");
    (p, min, max)
}
macro_rules! capacity {
    ($name:ident, $t:ty, $fill:expr) => {
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            unsafe {
                let (p, min, max) = policy();
                let e: $t = p.new_element();
                assert!(e.len() == 0 && e.capacity() >= min, "Y22 a new collection is empty and has the minimum capacity");
                core::mem::forget(e);
                let cap: usize = kani::any();
                kani::assume(cap <= BIG);
                let mut e = <$t>::with_capacity(cap);
                if cap >= 2 && kani::any() { let f = $fill; f(&mut e); f(&mut e); }
                let before = e.capacity();
                p.recycle(&mut e);
                let after = e.capacity();
                assert!(e.len() == 0, "Y23 a recycled collection is empty");
                assert!(if before <= max { after == before } else { after < before && after >= max }, "Y24 recycling shrinks exactly the collections above the maximum");
                kani::cover!(before > max, "shrunk");
                kani::cover!(before <= max && before > 0, "kept");
                core::mem::forget(e);
            }
        }
    };
}
capacity!(con_capacity_vec, Vec<u8>, |e: &mut Vec<u8>| e.push(1));
capacity!(con_capacity_string, String, |e: &mut String| e.push('x'));
capacity!(con_capacity_deque, VecDeque<u8>, |e: &mut VecDeque<u8>| e.push_back(1));
capacity!(con_capacity_heap, BinaryHeap<u8>, |e: &mut BinaryHeap<u8>| e.push(1));

// --- a capacity of zero is rejected ------------------------------------------------
// (each of these has to panic before its assertion)
macro_rules! zero {
    ($($name:ident => $b:expr;)*) => { $(
        #[kani::proof]
        #[kani::unwind(3)]
        fn $name() {
            kani::cover!(true, "constructing");
            core::mem::forget($b);
            assert!(false, "Z10 a capacity of zero is rejected");
        }
    )* };
}
zero! {
    zero_queue => ThingBuf::<Msg>::new(0);
    zero_queue_recycle => ThingBuf::<Msg, DefaultRecycle>::with_recycle(0, DefaultRecycle::new());
    zero_static_queue => StaticThingBuf::<Msg, 0>::new();
    zero_static_queue_recycle => StaticThingBuf::<Msg, 0, DefaultRecycle>::with_recycle(DefaultRecycle::new());
    zero_async => mpsc::channel::<Msg>(0);
    zero_async_recycle => mpsc::with_recycle::<Msg, _>(0, DefaultRecycle::new());
    zero_blocking => blocking::channel::<Msg>(0);
    zero_blocking_recycle => blocking::with_recycle::<Msg, _>(0, DefaultRecycle::new());
    zero_static_async => mpsc::StaticChannel::<Msg, 0>::new();
    zero_static_blocking => blocking::StaticChannel::<Msg, 0>::new();
}
