// Ring buffer protocol.
//
// A position is encoded like the code encodes it: lap * GEN + index, index <
// CAP; GEN is a power of two, CLOSED_BIT < GEN is no index bit.  Numeric order
// of encodings is the order of positions, and `p + GEN` is the same slot one
// lap later.
//
//   H <= T <= H + GEN      positions in [H, T) are claimed and not yet taken
//   slot i: let p be the position with index i in [H, H + GEN)
//      p <  T : state == p      being written     or  p + 1        ready
//      p >= T : state == p      free              or  p - GEN + 1  still read
//
// Rely: other threads move H and T forward, set CLOSED (which freezes T) and
// complete their operations, always re-establishing the above; the state of a
// slot never decreases; a slot held by the code under proof does not move.
// Guarantee: checked in wrote_* below.
use super::*;

pub(crate) static mut ON: bool = false;
/// Other threads may act before each access.
pub(crate) static mut ENV: bool = false;
/// Slots may be held by unfinished operations of others.
pub(crate) static mut HELD_BY_OTHERS: bool = true;
/// No thread ever closes this buffer.
pub(crate) static mut NEVER_CLOSED: bool = false;
pub(crate) static mut STALE: bool = false;
/// Others acted right after the next load of a cursor, and nobody after that.
pub(crate) static mut LATE: bool = false;
/// Closing happened before the call under proof, which therefore cannot miss it.
pub(crate) static mut CLOSED_BEFORE: bool = false;
pub(crate) static mut HEAD: *mut usize = core::ptr::null_mut();
pub(crate) static mut TAIL: *mut usize = core::ptr::null_mut();
pub(crate) static mut BASE: *const u8 = core::ptr::null();
pub(crate) static mut STRIDE_LOG2: u32 = 4;
pub(crate) static mut CAP: usize = 0;
pub(crate) static mut GEN: usize = 0;
pub(crate) static mut MASK: usize = 0;
pub(crate) static mut CLOSED_BIT: usize = 0;

pub(crate) static mut H: usize = 0;
pub(crate) static mut T: usize = 0;
pub(crate) static mut CLOSED: bool = false;

pub(crate) const NONE: u8 = 0;
pub(crate) const WRITER: u8 = 1;
pub(crate) const READER: u8 = 2;
/// Which slot the code under proof holds.
pub(crate) static mut HOLD: u8 = NONE;
pub(crate) static mut HOLD_POS: usize = 0;

/// Latest knowledge about one slot (states never decrease).
static mut KNOWN: bool = false;
static mut KNOWN_IDX: usize = 0;
static mut KNOWN_VAL: usize = 0;
/// The acquire-ordered part of that knowledge.
static mut ACQ: bool = false;
static mut ACQ_VAL: usize = 0;
/// Word standing for the slot being accessed.
pub(crate) static mut SLOT_WORD: usize = 0;
pub(crate) static mut SLOT_IDX: usize = 0;

// What was true at some instant since the last `reset_facts`.
pub(crate) static mut WAS_FULL: bool = false;
pub(crate) static mut WAS_TAIL_BUSY: bool = false;
pub(crate) static mut WAS_EMPTY: bool = false;
pub(crate) static mut WAS_HEAD_UNREADY: bool = false;
pub(crate) static mut LEN_ON: bool = false;
pub(crate) static mut WAS_LEN: bool = false;
pub(crate) static mut LEN_CANDIDATE: usize = 0;

pub(crate) static mut CLAIMS: usize = 0;
pub(crate) static mut RELEASES: usize = 0;
pub(crate) static mut CLOSES: usize = 0;
pub(crate) static mut CLOSE_ATTEMPTS: usize = 0;

pub(crate) const LIMIT: usize = usize::MAX / 8;

pub(crate) unsafe fn valid(p: usize) -> bool { p & (MASK) < CAP && p <= LIMIT }
pub(crate) unsafe fn idx(p: usize) -> usize { p & (MASK) }
pub(crate) unsafe fn next(p: usize) -> usize {
    if idx(p).wrapping_add(1) < CAP { p.wrapping_add(1) } else { (p & !MASK).wrapping_add(GEN) }
}
/// Number of positions in [a, b), for a <= b <= a + GEN.
pub(crate) unsafe fn distance(a: usize, b: usize) -> usize {
    if b & !(MASK) == a & !(MASK) { idx(b).wrapping_sub(idx(a)) } else { CAP.wrapping_sub(idx(a)).wrapping_add(idx(b)) }
}

pub(crate) unsafe fn invariant() -> bool {
    valid(H) && valid(T) && H <= T && T <= H.wrapping_add(GEN)
}

pub(crate) unsafe fn tail_word() -> usize { if CLOSED { T | CLOSED_BIT } else { T } }

/// Switch the component on in an arbitrary reachable state.
pub(crate) unsafe fn start(head: *mut usize, tail: *mut usize, base: *const u8, cap: usize, gen: usize, closed_bit: usize) {
    HEAD = head; TAIL = tail; BASE = base; CAP = cap; GEN = gen; MASK = gen.wrapping_sub(1); CLOSED_BIT = closed_bit;
    H = any_usize(); T = any_usize(); CLOSED = any_bool();
    if SMALL { kani::assume(cap <= 8 && H <= 64); }
    kani::assume(invariant());
    *HEAD = H;
    *TAIL = tail_word();
    ON = true;
    reset_facts();
}

pub(crate) unsafe fn reset_facts() {
    WAS_FULL = false; WAS_TAIL_BUSY = false; WAS_EMPTY = false; WAS_HEAD_UNREADY = false; WAS_LEN = false;
    note();
}

/// Record what holds right now.
unsafe fn note() {
    if NEVER_CLOSED { kani::assume(!CLOSED); }
    if T == H.wrapping_add(GEN) { WAS_FULL = true; }
    if T == H { WAS_EMPTY = true; }
    if LEN_ON && distance(H, T) == LEN_CANDIDATE { WAS_LEN = true; }
}

/// What other threads may have done to the cursors (any number of steps).
pub(crate) unsafe fn rely(h: usize, t: usize, c: bool) -> bool {
    valid(h) && valid(t) && h >= H && t >= T && h <= t && t <= h.wrapping_add(GEN)
        && (c || !CLOSED)
        && (!CLOSED || t == T)
        && (HOLD != WRITER || h <= HOLD_POS)
        && (HOLD != READER || t <= HOLD_POS.wrapping_add(GEN))
}

pub(crate) unsafe fn step_cursors() {
    if ENV {
        let h = any_usize();
        let t = any_usize();
        let c = any_bool();
        kani::assume(rely(h, t, c));
        H = h; T = t; CLOSED = c;
        *HEAD = H;
        *TAIL = tail_word();
    }
}

pub(crate) unsafe fn environment(loc: Loc) {
    step_cursors();
    note();
    if loc == Loc::SLOT { SLOT_WORD = slot_state(SLOT_IDX); }
}

/// The states slot `i` can be in, if the code under proof does not hold it.
pub(crate) unsafe fn slot_possible(i: usize, v: usize, held_by_others: bool) -> bool {
    let lap = H & !(MASK);
    let p = if i >= idx(H) { lap.wrapping_add(i) } else { lap.wrapping_add(GEN).wrapping_add(i) };
    if p < T { v == p.wrapping_add(1) || held_by_others && v == p }
    else { v == p || held_by_others && p >= GEN && v == p.wrapping_sub(GEN).wrapping_add(1) }
}

/// The state of slot `i` now.
unsafe fn slot_state(i: usize) -> usize {
    if HOLD == WRITER && idx(HOLD_POS) == i { return HOLD_POS; }
    if HOLD == READER && idx(HOLD_POS) == i { return HOLD_POS.wrapping_add(1); }
    let mut v = any_usize();
    kani::assume(slot_possible(i, v, HELD_BY_OTHERS));
    if KNOWN && KNOWN_IDX == i {
        if ENV { kani::assume(v >= KNOWN_VAL); } else { v = KNOWN_VAL; }
    } else {
        KNOWN = true;
        KNOWN_IDX = i;
        ACQ = false;
    }
    KNOWN_VAL = v;
    v
}

/// Non-SeqCst loads may return an older value.
pub(crate) unsafe fn read_head(v: usize, o: Ordering) -> usize {
    if LATE || STALE && o != Ordering::SeqCst {
        let s = any_usize();
        kani::assume(valid(s) && s <= H);
        LATE = false;
        return s;
    }
    v
}
pub(crate) unsafe fn read_tail(v: usize, o: Ordering) -> usize {
    if LATE || STALE && o != Ordering::SeqCst && !CLOSED_BEFORE {
        let s = any_usize();
        kani::assume(valid(s) && s <= T);
        LATE = false;
        if s == T && CLOSED && any_bool() { return s | CLOSED_BIT; }
        return s;
    }
    v
}
pub(crate) unsafe fn read_slot(i: usize, v: usize, o: Ordering) {
    if is_acquire(o) { ACQ = true; ACQ_VAL = v; }
    if i == idx(T) && T < H.wrapping_add(GEN) && v != T { WAS_TAIL_BUSY = true; }
    if i == idx(H) && H < T && v != H.wrapping_add(1) { WAS_HEAD_UNREADY = true; }
}
pub(crate) unsafe fn acquire_fence() {
    if KNOWN { ACQ = true; ACQ_VAL = KNOWN_VAL; }
}

/// The state of slot `i` has been read (lemma.rs).
pub(crate) unsafe fn know(i: usize, v: usize) { KNOWN = true; KNOWN_IDX = i; KNOWN_VAL = v; ACQ = true; ACQ_VAL = v; }

unsafe fn claimable(i: usize, want: usize) {
    let v = slot_state(i);
    oblige!(v == want, "G10 a position is claimed only when its slot is in the matching state");
    oblige!(KNOWN && KNOWN_IDX == i && ACQ && ACQ_VAL == want,
        "G11 a position is claimed only after an acquire load of its slot's state");
}

pub(crate) unsafe fn wrote_tail(old: usize, new: usize) {
    if new == old | CLOSED_BIT { CLOSE_ATTEMPTS = CLOSE_ATTEMPTS.wrapping_add(1); }
    if new == old { return; }
    if new == old | CLOSED_BIT {
        CLOSED = true;
        CLOSES = CLOSES.wrapping_add(1);
        return;
    }
    oblige!(!CLOSED, "G12 no position is claimed for writing after the channel closed");
    oblige!(new == next(T), "G13 the tail only advances to the next position");
    oblige!(T < H.wrapping_add(GEN), "G14 no more than capacity positions are outstanding");
    oblige!(HOLD == NONE, "G15 one claim per operation");
    claimable(idx(T), T);
    HOLD = WRITER;
    HOLD_POS = T;
    T = new;
    CLAIMS = CLAIMS.wrapping_add(1);
}

pub(crate) unsafe fn wrote_head(old: usize, new: usize) {
    if new == old { return; }
    oblige!(new == next(H), "G16 the head only advances to the next position");
    oblige!(H < T, "G17 only a claimed position is taken");
    oblige!(HOLD == NONE, "G15 one claim per operation");
    claimable(idx(H), H.wrapping_add(1));
    HOLD = READER;
    HOLD_POS = H;
    H = new;
    CLAIMS = CLAIMS.wrapping_add(1);
}

pub(crate) unsafe fn wrote_slot(i: usize, old: usize, new: usize, o: Ordering) {
    if old == new { return; }
    oblige!(HOLD != NONE && idx(HOLD_POS) == i, "G18 a slot's state is changed only by its holder");
    if HOLD == WRITER {
        oblige!(new == HOLD_POS.wrapping_add(1), "G19 finishing a push marks its position ready");
    } else {
        oblige!(new == HOLD_POS.wrapping_add(GEN), "G20 finishing a pop frees the slot for the next lap");
    }
    oblige!(is_release(o) || REL_FENCE, "G21 a slot is handed over with release ordering");
    HOLD = NONE;
    RELEASES = RELEASES.wrapping_add(1);
    KNOWN = true; KNOWN_IDX = i; KNOWN_VAL = new; ACQ = false;
}

pub(crate) unsafe fn slot_index(p: *const u8) -> usize {
    let i = (p as usize).wrapping_sub(BASE as usize) >> STRIDE_LOG2;
    assert!(i < CAP, "G23 only words and cells of the buffer itself are accessed");
    i
}

pub(crate) const ELEM_SIZE: usize = 24;
/// The memory of the one slot held by the code under proof.
pub(crate) static mut VALUE: [u64; 4] = [0; 4];
static mut VALUE_IDX: usize = 0;
pub(crate) unsafe fn touch(i: usize) {
    assert!(HOLD != NONE && idx(HOLD_POS) == i, "G22 an element's memory is touched only while its slot is held");
    VALUE_IDX = i;
}
pub(crate) unsafe fn touch_value() {
    assert!(HOLD != NONE && idx(HOLD_POS) == VALUE_IDX, "G22 an element's memory is touched only while its slot is held");
}
