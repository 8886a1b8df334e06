// Contracts of the ring buffer core (src/lib.rs), included as `crate::verif`.
#[allow(unused_imports)]
use super::*;
#[allow(unused_imports)]
use crate::loom::verif::{self as g, ring};

/// `push_ref` and `pop_ref` replaced by their contracts (proved for the real
/// ones by the g_ring harnesses) in the proofs of their callers.
#[cfg(any(feature = "g_chan", feature = "g_async", feature = "g_blocking", feature = "g_api"))]
#[allow(static_mut_refs)]
pub(crate) mod contract {
    use super::*;
    pub(crate) const RELEASED: usize = 0x5a5a;
    pub(crate) const HELD: usize = 0x1111;
    /// State of the slot claimed through a stub: has it been released?
    pub(crate) static mut PUSHES: usize = 0;
    pub(crate) static mut POPS: usize = 0;
    pub(crate) static mut CLAIMS: usize = 0;
    pub(crate) const OK: u8 = 1;
    pub(crate) const FULL_OR_EMPTY: u8 = 2;
    pub(crate) const CLOSED: u8 = 3;
    /// Outcome of the latest call.
    pub(crate) static mut LAST: u8 = 0;
    pub(crate) static mut EVER_CLOSED: bool = false;
    /// Queues are never closed.
    pub(crate) static mut NEVER_CLOSED: bool = false;
    /// The outcome "Empty"/"Full" is excluded by what the caller knows.
    pub(crate) static mut EXCLUDE: unsafe fn() -> bool = never;
    /// What outcome the harness asks for (0: any).
    pub(crate) static mut WANT: u8 = 0;
    unsafe fn never() -> bool { false }

    pub(crate) unsafe fn released() -> bool { CLAIMS == 0 || STATE_PTR.is_null() || *STATE_PTR == RELEASED }
    pub(crate) static mut STATE_PTR: *mut usize = core::ptr::null_mut();

    unsafe fn outcome() -> u8 {
        if WANT != 0 { LAST = WANT; return WANT; }
        let o: u8 = kani::any();
        kani::assume(o >= OK && o <= CLOSED);
        if EVER_CLOSED { kani::assume(o != FULL_OR_EMPTY); }
        if NEVER_CLOSED { kani::assume(o != CLOSED); }
        if EXCLUDE() { kani::assume(o != FULL_OR_EMPTY); }
        if o == CLOSED { EVER_CLOSED = true; }
        LAST = o;
        o
    }
    unsafe fn claim<'s, T>(slots: &'s [Slot<T>]) -> Ref<'s, T> {
        assert!(slots.len() > 0, "V00 the caller passes the channel's own slots");
        CLAIMS += 1;
        let slot = &slots[0];
        STATE_PTR = slot.state.ghost_ptr();
        *STATE_PTR = HELD;
        Ref { ptr: slot.value.get_mut(), new_state: RELEASED, slot }
    }

    pub(crate) fn push_ref<'slots, T, R: Recycle<T>>(_c: &Core, slots: &'slots [Slot<T>], recycle: &R) -> Result<Ref<'slots, T>, TrySendError<()>> {
        unsafe {
            PUSHES += 1;
            match outcome() {
                OK => {
                    let r = claim(slots);
                    (*slots[0].value.ghost_ptr()).write(recycle.new_element());
                    Ok(r)
                }
                CLOSED => Err(TrySendError::Closed(())),
                _ => Err(TrySendError::Full(())),
            }
        }
    }
    /// The length as the caller sees it.
    pub(crate) static mut LEN: usize = 0;
    pub(crate) static mut LEN_MAX: usize = 0;
    pub(crate) static mut LENS: usize = 0;
    pub(crate) fn len(_c: &Core) -> usize {
        unsafe {
            let n: usize = kani::any();
            kani::assume(n <= LEN_MAX);
            LEN = n;
            LENS += 1;
            n
        }
    }
    pub(crate) static mut SLOT_DROPS: usize = 0;
    pub(crate) static mut SLOTS_DROPPED: usize = 0;
    pub(crate) static mut FIRST_DROPPED: *const u8 = core::ptr::null();
    pub(crate) fn drop_slots<T>(c: &mut Core, slots: &mut [Slot<T>]) {
        unsafe { SLOT_DROPS += 1; SLOTS_DROPPED = slots.len(); FIRST_DROPPED = slots.as_ptr() as *const u8; }
        c.has_dropped_slots = true;
    }
    pub(crate) fn pop_ref<'slots, T>(_c: &Core, slots: &'slots [Slot<T>]) -> Result<Ref<'slots, T>, TryRecvError> {
        unsafe {
            POPS += 1;
            match outcome() {
                OK => Ok(claim(slots)),
                CLOSED => Err(TryRecvError::Closed),
                _ => Err(TryRecvError::Empty),
            }
        }
    }
}

#[cfg(feature = "g_ring")]
#[allow(static_mut_refs)]
mod ring_harness {
    use super::*;
    use core::mem::ManuallyDrop;

    /// Element whose identity and drops are observable.
    #[repr(C)]
    pub(crate) struct Elem(pub(crate) u64, [u64; 2]);
    pub(crate) static mut DROPS: usize = 0;
    impl Drop for Elem {
        fn drop(&mut self) { unsafe { DROPS += 1 } }
    }

    pub(crate) static mut NEWS: usize = 0;
    pub(crate) static mut NEW_TOKEN: u64 = 0;
    pub(crate) static mut RECYCLES: usize = 0;
    pub(crate) static mut RECYCLED_FROM: u64 = 0;
    pub(crate) static mut RECYCLED_TO: u64 = 0;
    pub(crate) struct Rec;
    impl Recycle<Elem> for Rec {
        fn new_element(&self) -> Elem {
            unsafe { NEWS += 1; NEW_TOKEN = kani::any(); Elem(NEW_TOKEN, [0; 2]) }
        }
        fn recycle(&self, e: &mut Elem) {
            unsafe { RECYCLES += 1; RECYCLED_FROM = e.0; RECYCLED_TO = kani::any(); e.0 = RECYCLED_TO; }
        }
    }

    /// Largest capacity in the memory-level harnesses; the arithmetic ones
    /// cover every capacity that can be allocated.
    pub(crate) const MAX_CAP: usize = 1 << 40;

    unsafe fn storage(cap: usize) -> &'static [Slot<Elem>] {
        let layout = std::alloc::Layout::array::<Slot<Elem>>(cap).unwrap();
        let p = std::alloc::alloc(layout) as *const Slot<Elem>;
        core::slice::from_raw_parts(p, cap)
    }

    pub(crate) unsafe fn arena() -> (ManuallyDrop<Core>, &'static [Slot<Elem>]) {
        let cap: usize = kani::any();
        kani::assume(cap >= 1 && cap <= MAX_CAP);
        let core = ManuallyDrop::new(Core::new(cap));
        let slots = storage(cap);
        (core, slots)
    }

    pub(crate) unsafe fn start(core: &Core, slots: &[Slot<Elem>]) {
        ring::STRIDE_LOG2 = core::mem::size_of::<Slot<Elem>>().trailing_zeros();
        assert!(core::mem::size_of::<Slot<Elem>>().is_power_of_two());
        assert!(core.gen.is_power_of_two() && core.closed.is_power_of_two() && core.closed < core.gen
            && slots.len() - 1 < core.closed, "R00 position encoding is well formed");
        ring::start(core.head.ghost_ptr(), core.tail.ghost_ptr(), slots.as_ptr() as *const u8,
            slots.len(), core.gen, core.closed);
    }

    unsafe fn interference() {
        ring::ENV = true;
        ring::STALE = true;
        g::ANY_BACKOFF = true;
        g::ALLOW_SPURIOUS = true;
    }

    // --- push_ref, under interference ------------------------------------
    #[kani::proof]
    #[kani::unwind(1)]
    fn rg_push_ref() {
        unsafe {
            let (core, slots) = arena();
            start(&core, slots);
            interference();
            ring::CLOSED_BEFORE = ring::CLOSED && kani::any::<bool>();
            let r = core.push_ref(slots, &Rec);
            if ring::CLOSED_BEFORE {
                assert!(matches!(r, Err(TrySendError::Closed(()))), "R21 a push after the closing fails as closed");
            }
            match r {
                Ok(r) => {
                    assert!(ring::HOLD == ring::WRITER && ring::CLAIMS == 1, "R10 a successful push holds the slot it claimed");
                    let p = ring::HOLD_POS;
                    assert!(core::ptr::eq(r.slot, &slots[ring::idx(p)]), "R11 the reference designates the claimed slot");
                    if p < ring::GEN {
                        assert!(NEWS == 1 && RECYCLES == 0, "R12 a slot used for the first time gets exactly one new element");
                        assert!(r.with(|e| e.0) == NEW_TOKEN, "R13 the new element is in the slot");
                    } else {
                        assert!(NEWS == 0 && RECYCLES == 1, "R14 a reused slot is recycled exactly once");
                        assert!(r.with(|e| e.0) == RECYCLED_TO, "R15 the recycled element is in the slot");
                    }
                    assert!(DROPS == 0, "R16 claiming a slot drops no element");
                    drop(r);
                    assert!(ring::RELEASES == 1 && ring::HOLD == ring::NONE, "R17 dropping the reference completes the push");
                    assert!(DROPS == 0, "R16 completing a push drops no element");
                    kani::cover!(p < ring::GEN, "first lap");
                    kani::cover!(p >= ring::GEN, "later lap");
                }
                Err(TrySendError::Full(())) => {
                    assert!(ring::CLAIMS == 0 && ring::HOLD == ring::NONE, "R18 a failed push claims nothing");
                    assert!(ring::WAS_FULL || ring::WAS_TAIL_BUSY, "R19 Full only if the buffer was full or the next slot still in use");
                    kani::cover!(true, "full");
                }
                Err(TrySendError::Closed(())) => {
                    assert!(ring::CLAIMS == 0 && ring::HOLD == ring::NONE, "R18 a failed push claims nothing");
                    assert!(ring::CLOSED, "R20 Closed only if closed");
                    kani::cover!(true, "closed");
                }
            }
        }
    }

    // --- pop_ref, under interference -------------------------------------
    #[kani::proof]
    #[kani::unwind(1)]
    fn rg_pop_ref() {
        unsafe {
            let (core, slots) = arena();
            start(&core, slots);
            interference();
            ring::CLOSED_BEFORE = ring::CLOSED && kani::any::<bool>();
            let token: u64 = kani::any();
            ring::VALUE[0] = token;
            let r = core.pop_ref(slots);
            match r {
                Ok(r) => {
                    assert!(ring::HOLD == ring::READER && ring::CLAIMS == 1, "R30 a successful pop holds the slot it claimed");
                    let p = ring::HOLD_POS;
                    assert!(core::ptr::eq(r.slot, &slots[ring::idx(p)]), "R31 the reference designates the claimed slot");
                    assert!(r.with(|e| e.0) == token, "R32 the popped element is the one that was pushed, unmodified");
                    assert!(DROPS == 0 && NEWS == 0 && RECYCLES == 0, "R33 popping neither drops nor recycles the element");
                    drop(r);
                    assert!(ring::RELEASES == 1 && ring::HOLD == ring::NONE, "R34 dropping the reference completes the pop");
                    assert!(DROPS == 0 && ring::VALUE[0] == token, "R35 completing a pop leaves the element in place for reuse");
                    kani::cover!(p >= ring::GEN, "popped");
                }
                Err(TryRecvError::Empty) => {
                    assert!(ring::CLAIMS == 0 && ring::HOLD == ring::NONE, "R36 a failed pop claims nothing");
                    assert!(ring::WAS_EMPTY || ring::WAS_HEAD_UNREADY, "R37 Empty only if nothing finished was at the front");
                    assert!(!ring::CLOSED_BEFORE || ring::WAS_HEAD_UNREADY, "R39 a pop after the closing does not say Empty for Closed");
                    kani::cover!(ring::WAS_EMPTY, "empty");
                    kani::cover!(!ring::WAS_EMPTY, "front element unfinished");
                }
                Err(TryRecvError::Closed) => {
                    assert!(ring::CLAIMS == 0 && ring::HOLD == ring::NONE, "R36 a failed pop claims nothing");
                    assert!(ring::CLOSED && ring::H == ring::T, "R38 Closed only if closed and every element was taken");
                    kani::cover!(true, "closed");
                }
            }
        }
    }

    // --- references keep exclusive access for as long as they live ---------
    #[kani::proof]
    #[kani::unwind(1)]
    fn rg_ref_access() {
        unsafe {
            let (core, slots) = arena();
            start(&core, slots);
            interference();
            let write: bool = kani::any();
            let v: u64 = kani::any();
            let r = if write { core.push_ref(slots, &Rec).ok() } else { core.pop_ref(slots).ok() };
            if let Some(mut r) = r {
                // other threads run while the reference is alive
                ring::step_cursors();
                r.0 = v;
                ring::step_cursors();
                assert!(r.0 == v && r.with(|e| e.0) == v, "R40 reads and writes through a reference go to its element");
                r.with_mut(|e| e.0 = v.wrapping_add(1));
                assert!((*r).0 == v.wrapping_add(1), "R40 reads and writes through a reference go to its element");
                ring::step_cursors();
                drop(r);
                assert!(ring::RELEASES == 1, "R41 a reference releases its slot exactly once");
                kani::cover!(write, "push reference");
                kani::cover!(!write, "pop reference");
            }
        }
    }

    // --- close --------------------------------------------------------------
    #[kani::proof]
    #[kani::unwind(1)]
    fn rg_close() {
        unsafe {
            let (core, slots) = arena();
            start(&core, slots);
            interference();
            // closing must work even while the thread is unwinding
            g::panic::PANICKING = kani::any();
            let first = core.close();
            assert!(ring::CLOSED && *core.tail.ghost_ptr() & core.closed != 0, "R50 close() leaves the channel closed");
            assert!(first == (ring::CLOSES == 1), "R51 close() reports whether this call closed the channel");
            assert!(ring::CLAIMS == 0 && ring::HOLD == ring::NONE, "R52 close() moves no cursor");
            kani::cover!(first && g::panic::PANICKING, "closed while panicking");
            kani::cover!(!first, "already closed");
        }
    }

    // --- len under interference --------------------------------------------
    #[kani::proof]
    #[kani::unwind(1)]
    fn rg_len() {
        unsafe {
            let (core, slots) = arena();
            start(&core, slots);
            interference();
            // the queues, whose length is public, are never closed
            kani::assume(!ring::CLOSED);
            ring::NEVER_CLOSED = true;
            let guess: usize = kani::any();
            ring::LEN_ON = true;
            ring::LEN_CANDIDATE = guess;
            ring::reset_facts();
            let n = core.len();
            kani::assume(n == guess);
            assert!(n <= slots.len(), "R60 the length never exceeds the capacity");
            assert!(ring::WAS_LEN, "R61 the reported length was exact at some moment during the call");
            kani::cover!(n == 0, "empty");
            kani::cover!(n == slots.len() && n > 1, "full");
            kani::cover!(n > 0 && n < slots.len(), "in between");
        }
    }

    // --- no interference: exact results, and the operations return ----------
    unsafe fn alone(held: bool) {
        ring::ENV = false;
        ring::HELD_BY_OTHERS = held;
    }

    #[kani::proof]
    #[kani::unwind(10)]
    fn seq_push_ref() {
        unsafe {
            let (core, slots) = arena();
            start(&core, slots);
            alone(kani::any());
            let (h, t, closed) = (ring::H, ring::T, ring::CLOSED);
            let r = core.push_ref(slots, &Rec);
            match r {
                Ok(r) => {
                    assert!(!closed && t < h.wrapping_add(ring::GEN), "S10 an uncontended push succeeds only if open and not full");
                    assert!(ring::HOLD_POS == t && ring::H == h && ring::T == ring::next(t), "S11 an uncontended push claims the tail position");
                    core::mem::forget(r);
                }
                Err(TrySendError::Full(())) => {
                    assert!(!closed, "S12 a closed channel reports Closed");
                    assert!(t == h.wrapping_add(ring::GEN) || ring::HELD_BY_OTHERS, "S13 an uncontended push fails only if full");
                    assert!(ring::H == h && ring::T == t, "S14 a failed push changes nothing");
                }
                Err(TrySendError::Closed(())) => {
                    assert!(closed, "S15 Closed only if closed");
                    assert!(ring::H == h && ring::T == t, "S14 a failed push changes nothing");
                }
            }
        }
    }

    #[kani::proof]
    #[kani::unwind(10)]
    fn seq_pop_ref() {
        unsafe {
            let (core, slots) = arena();
            start(&core, slots);
            alone(kani::any());
            let (h, t, closed) = (ring::H, ring::T, ring::CLOSED);
            let r = core.pop_ref(slots);
            match r {
                Ok(r) => {
                    assert!(h < t, "S20 an uncontended pop succeeds only if not empty");
                    assert!(ring::HOLD_POS == h && ring::T == t && ring::H == ring::next(h), "S21 an uncontended pop takes the head position");
                    core::mem::forget(r);
                }
                Err(TryRecvError::Empty) => {
                    assert!(h != t || !closed, "S22 a closed, drained channel reports Closed");
                    assert!(h == t || ring::HELD_BY_OTHERS, "S23 an uncontended pop fails only if empty");
                    assert!(ring::H == h && ring::T == t, "S24 a failed pop changes nothing");
                }
                Err(TryRecvError::Closed) => {
                    assert!(closed && h == t, "S25 Closed only if closed and drained");
                    assert!(ring::H == h && ring::T == t, "S24 a failed pop changes nothing");
                }
            }
        }
    }

    // --- others act once, after the cursor was read: the operation still returns
    unsafe fn late() {
        alone(true);
        ring::LATE = true;
        // that spinning ends by itself is shown above
        g::BACKOFF = 4;
    }

    #[kani::proof]
    #[kani::unwind(9)]
    fn seq_push_late() {
        unsafe {
            let (core, slots) = arena();
            start(&core, slots);
            late();
            let r = core.push_ref(slots, &Rec);
            kani::cover!(r.is_ok(), "pushed");
            kani::cover!(matches!(r, Err(TrySendError::Full(()))), "full");
            kani::cover!(matches!(r, Err(TrySendError::Closed(()))), "closed");
            core::mem::forget(r);
        }
    }

    #[kani::proof]
    #[kani::unwind(9)]
    fn seq_pop_late() {
        unsafe {
            let (core, slots) = arena();
            start(&core, slots);
            late();
            let r = core.pop_ref(slots);
            kani::cover!(r.is_ok(), "popped");
            kani::cover!(matches!(r, Err(TryRecvError::Empty)), "empty");
            kani::cover!(matches!(r, Err(TryRecvError::Closed)), "closed");
            core::mem::forget(r);
        }
    }

    #[kani::proof]
    #[kani::unwind(4)]
    fn seq_len_late() {
        unsafe {
            let (core, slots) = arena();
            start(&core, slots);
            late();
            let n = core.len();
            kani::cover!(n == slots.len() && n > 1, "full");
            kani::cover!(n == 0, "empty");
        }
    }

    #[kani::proof]
    #[kani::unwind(3)]
    fn seq_len() {
        unsafe {
            let (core, slots) = arena();
            start(&core, slots);
            alone(true);
            kani::assume(!ring::CLOSED);
            let n = core.len();
            assert!(n == ring::distance(ring::H, ring::T), "S30 the uncontended length is exact");
            kani::cover!(n == slots.len() && n > 1, "full");
        }
    }
}

#[cfg(feature = "g_hash")]
#[allow(static_mut_refs, dead_code)]
mod hash_harness {
    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/hash.rs"));
}

#[cfg(feature = "g_lemma")]
#[allow(static_mut_refs, dead_code)]
mod lemma_harness {
    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/lemma.rs"));
}

#[cfg(feature = "g_api")]
#[allow(static_mut_refs)]
mod api_harness {
    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/api.rs"));
}

#[allow(dead_code)]
impl<T> Ref<'_, T> {
    pub(crate) fn slot_ptr(&self) -> *const Slot<T> { self.slot }
}
#[allow(dead_code)]
impl<T> Slot<T> {
    pub(crate) fn value_ptr(&self) -> *mut core::mem::MaybeUninit<T> { self.value.ghost_ptr() }
}
