// Wait cell protocol (one waiting receiver, any number of notifiers).
//
// The word has three bits, whose values the harness passes in: P (the receiver
// is using the cell), N (somebody is notifying), C (senders are gone, sticky).
// The cell's content belongs to whoever moved the word away from 0: to the
// receiver while P is set, to the notifier that added N to 0 until it clears N.
// Everyone else may only add N and C.
//
// Rely: the other side and other notifiers follow that protocol.
// Guarantee: checked in `wrote` and `access`.
use super::*;

pub(crate) static mut ON: bool = false;
pub(crate) static mut ENV: bool = false;
pub(crate) static mut LOCK: *mut usize = core::ptr::null_mut();
pub(crate) static mut WAITER: *const u8 = core::ptr::null();
pub(crate) static mut P: usize = 0;
pub(crate) static mut N: usize = 0;
pub(crate) static mut C: usize = 0;

pub(crate) const RX: u8 = 1;
pub(crate) const TX: u8 = 2;
/// Which side the code under proof is.
pub(crate) static mut ROLE: u8 = 0;

pub(crate) const NOBODY: u8 = 0;
pub(crate) const ME: u8 = 1;
pub(crate) const OTHER: u8 = 2;
pub(crate) static mut OWNER: u8 = NOBODY;

// typed access to the content, provided by the harness
unsafe fn no_peek() -> usize { 0 }
unsafe fn no_op() {}
pub(crate) static mut PEEK: unsafe fn() -> usize = no_peek;
pub(crate) static mut TAKE: unsafe fn() = no_op;
pub(crate) static mut PUT: unsafe fn() = no_op;
pub(crate) static mut ON_TAKEN: unsafe fn() = no_op;
pub(crate) static mut ON_NOTIFY: unsafe fn() = no_op;
/// Called when the receiver under proof has registered its waiter.
pub(crate) static mut ON_REGISTERED: unsafe fn() = no_op;

// what the code under proof did and saw
pub(crate) static mut SEEN_N: bool = false;
pub(crate) static mut SEEN_C: bool = false;
pub(crate) static mut REGISTERED: usize = 0;
pub(crate) static mut REGISTERED_ID: usize = 0;
pub(crate) static mut NOTIFIED: usize = 0;
pub(crate) static mut CLOSED_BY_ME: usize = 0;
/// Identity that has to be woken by the notifier under proof.
pub(crate) static mut EXPECT: usize = 0;
pub(crate) static mut TOOK: usize = 0;

pub(crate) unsafe fn start(lock: *mut usize, waiter: *const u8, p: usize, n: usize, c: usize, role: u8) {
    LOCK = lock; WAITER = waiter; P = p; N = n; C = c; ROLE = role;
    assert!(p != 0 && n != 0 && c != 0 && p & n == 0 && p & c == 0 && n & c == 0, "W00 the cell's state bits are distinct");
    let mut w = 0;
    if any_bool() { w |= N; }
    if any_bool() { w |= C; }
    if role == TX && any_bool() { w |= P; }
    OWNER = if w & P != 0 { OTHER } else if w & N != 0 && (w & C == 0 || any_bool()) { OTHER } else { NOBODY };
    kani::assume(possible(w, OWNER));
    *LOCK = w;
    ON = true;
}

pub(crate) const KEEP: u8 = 0;
pub(crate) const TAKEN: u8 = 1;
pub(crate) const FILLED: u8 = 2;

/// Can the word be `w` while its owner, as this side sees it, is `o`?
pub(crate) unsafe fn possible(w: usize, o: u8) -> bool {
    w & !(P | N | C) == 0 && o <= OTHER
        // the receiver is the owner exactly while P is set
        && (if ROLE == RX { (w & P != 0) == (o == ME) } else { w & P == 0 || o == OTHER })
        // an owner has left its mark, and a lone notification has an owner
        && (o == NOBODY || w & (P | N) != 0)
        && (w != N || o != NOBODY)
        && (ROLE == RX || o != ME || w & N != 0)
        // the closed bit is never added without notifying
        && (w & P == 0 || w & C == 0 || w & N != 0)
}

/// What others may have done to the word, its owner and its content (any
/// number of steps).
pub(crate) unsafe fn rely(w: usize, o: u8, w1: usize, o1: u8, content: u8) -> bool {
    if !possible(w1, o1) || w & C & !w1 != 0 { return false; }
    if o == ME || o == NOBODY && w & C != 0 {
        // nobody else can become the owner: bits are added, nothing else
        return o1 == o && w & !w1 == 0 && (w1 & !w) & P == 0 && (w1 & C & !w == 0 || w1 & N != 0) && content == KEEP;
    }
    o1 != ME && (content == KEEP || content == TAKEN || ROLE == TX && content == FILLED)
}

pub(crate) unsafe fn environment() {
    if !ENV { return; }
    let w1 = any_usize();
    let (o1, content): (u8, u8) = (kani::any(), kani::any());
    kani::assume(rely(*LOCK, OWNER, w1, o1, content));
    if content == TAKEN { TAKE(); }
    if content == FILLED { PUT(); }
    *LOCK = w1;
    OWNER = o1;
}

unsafe fn seen(v: usize, o: Ordering) {
    if is_acquire(o) {
        if v & N != 0 { SEEN_N = true; }
        if v & C != 0 { SEEN_C = true; }
    }
}

pub(crate) unsafe fn read(v: usize, o: Ordering) { seen(v, o); }

pub(crate) unsafe fn wrote(old: usize, new: usize, o: Ordering, rmw: bool) {
    seen(old, o);
    let _ = rmw;
    oblige!(old & C == 0 || new & C != 0, "G32 the closed bit of the wait cell is never cleared");
    oblige!(new & !(P | N | C) == 0, "G36 the wait cell holds only its own state bits");
    if ROLE == RX {
        if OWNER == ME {
            if new & P == 0 {
                oblige!(is_release(o) || REL_FENCE, "G31 the wait cell is given up with release ordering");
                oblige!(new & N == 0 || new & C != 0, "G35 giving up the wait cell leaves no stale notification behind");
                OWNER = NOBODY;
                if old == P && new == 0 { REGISTERED += 1; REGISTERED_ID = PEEK(); ON_REGISTERED(); }
            } else {
                oblige!(new == old, "G33 while registering, notifications are kept until the cell is given up");
            }
        } else if old != new {
            oblige!(old == 0 && new == P, "G33 the receiver takes the wait cell only when nobody is using it");
            oblige!(is_acquire(o), "G30 the wait cell is taken with acquire ordering");
            OWNER = ME;
            ON_TAKEN();
        }
    } else {
        if OWNER == ME && new & N == 0 && old & N != 0 {
            oblige!(is_release(o) || REL_FENCE, "G31 the wait cell is given up with release ordering");
            oblige!(new == old & !N, "G37 a notifier clears only its own bit");
            let left = PEEK();
            oblige!(left == 0 || left == EXPECT, "G28 a notifier puts nothing into the wait cell");
            OWNER = NOBODY;
        } else {
            oblige!(new & old == old && (new & !old) & P == 0 && (new & C & !old == 0 || new & N != 0),
                "G38 a notifier only adds its bits to a wait cell it does not own");
            if new & (N | C) != 0 && OWNER != ME {
                oblige!(is_release(o) || REL_FENCE, "G39 notifying publishes what was sent before");
                NOTIFIED += 1;
                ON_NOTIFY();
                if new & C != 0 { CLOSED_BY_ME += 1; }
                if old == 0 {
                    oblige!(is_acquire(o), "G30 the wait cell is taken with acquire ordering");
                    OWNER = ME;
                    TOOK += 1;
                    EXPECT = PEEK();
                }
            }
        }
    }
}

pub(crate) unsafe fn access() {
    assert!(OWNER == ME, "G34 the waiter in the wait cell is touched only by the cell's current owner");
}
pub(crate) unsafe fn on_wake(_id: usize) {}
