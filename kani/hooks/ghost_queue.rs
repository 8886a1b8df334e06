// Wait queue protocol (many waiting senders, one notifying receiver).
//
// The queue word is one of four values, passed in by the harness:
//   E  nobody waits, nothing remembered      W  somebody waits
//   K  one notification is remembered        C  closed, for ever
// The list is protected by the lock.  Whenever the lock is free:
//   list not empty  =>  word is W or C            word is W  =>  list not empty
// Without the lock, threads may only store a notification (E,K -> K), consume
// one (K -> E) or close (any -> C).  Waiting nodes belong to the list; the state
// word of a node moves from W to K or C exactly when it is taken off the list by
// somebody else, and that store hands the node back to its owner.
//
// Rely: other threads follow that.  Guarantee: checked below and, for the links
// of the list, by the harness's typed CHECK at every unlock.
use super::*;

/// Unrolled loop over the nodes.
macro_rules! each {
    ($i:ident, $b:block) => { { let $i = 0; $b } { let $i = 1; $b } { let $i = 2; $b } { let $i = 3; $b } { let $i = 4; $b } };
}

pub(crate) static mut ON: bool = false;
pub(crate) static mut ENV: bool = false;
pub(crate) static mut STATE: *mut usize = core::ptr::null_mut();
pub(crate) static mut E: usize = 0;
pub(crate) static mut W: usize = 0;
pub(crate) static mut K: usize = 0;
pub(crate) static mut C: usize = 0;

pub(crate) const NODES: usize = 5;
/// State words and cells of the nodes that exist in memory; 0 is mine.
pub(crate) static mut WORDS: [*mut usize; NODES] = [core::ptr::null_mut(); NODES];
pub(crate) static mut CELLS: [*const u8; NODES] = [core::ptr::null(); NODES];
pub(crate) const ME: usize = 0;
/// My node is in the list.
pub(crate) static mut LINKED: bool = false;
/// Nodes whose owner has been told to go on.
pub(crate) static mut GONE: [bool; NODES] = [false; NODES];

unsafe fn no_op() {}
unsafe fn no_yes() -> bool { true }
/// Build an arbitrary list consistent with the current word (typed, harness).
pub(crate) static mut BUILD: unsafe fn() = no_op;
/// Compare the list with what it was when the lock was taken (typed, harness).
pub(crate) static mut CHECK: unsafe fn() = no_op;
/// Somebody else took my node off the list.
pub(crate) static mut TAKEN_OFF: unsafe fn() = no_op;
pub(crate) static mut LIST_EMPTY: unsafe fn() -> bool = no_yes;

pub(crate) static mut ON_STORED: unsafe fn() = no_op;
pub(crate) static mut ON_CLOSED: unsafe fn() = no_op;

// what happened
pub(crate) static mut STATE_AT_LOCK: usize = 0;
pub(crate) static mut EMPTY_AT_LOCK: bool = false;
pub(crate) static mut STORED: usize = 0;
pub(crate) static mut CONSUMED: usize = 0;
pub(crate) static mut CLOSES: usize = 0;
pub(crate) static mut SEEN_C: bool = false;
pub(crate) static mut NODE_SEEN: usize = 0;
pub(crate) static mut NODE_SEEN_SET: bool = false;
/// Nodes of others published by the code under proof (count, last index, value).
pub(crate) static mut PUBLISHED: usize = 0;
pub(crate) static mut PUBLISHED_IDX: usize = 0;
pub(crate) static mut PUBLISHED_VAL: usize = 0;

pub(crate) unsafe fn start(state: *mut usize, e: usize, w: usize, k: usize, c: usize) {
    STATE = state; E = e; W = w; K = k; C = c;
    assert!(e != w && e != k && e != c && w != k && w != c && k != c, "Q00 the queue's states are distinct");
    ON = true;
}

pub(crate) unsafe fn any_state() -> usize {
    let s = any_usize();
    kani::assume(s == E || s == W || s == K || s == C);
    s
}

pub(crate) unsafe fn is_node(p: *mut usize) -> bool {
    each!(i, { if p == WORDS[i] { NODE_IDX = i; return true; } });
    false
}
pub(crate) static mut NODE_IDX: usize = 0;

/// What others may have done to the word while the code under proof holds the
/// lock / does not hold it.
pub(crate) unsafe fn rely(s: usize, s1: usize, locked: bool) -> bool {
    (s1 == E || s1 == W || s1 == K || s1 == C)
        && (s != C || s1 == C)
        && (!locked || s1 == C || s1 == s || s == E && s1 == K || s == K && s1 == E)
}
/// What a word says about the list whenever the lock is free.
pub(crate) unsafe fn consistent(s: usize, empty: bool) -> bool { (s != W || !empty) && (empty || s == W || s == C) }
/// What others may write into my node's word when they take it off the list.
pub(crate) unsafe fn told(v: usize, s1: usize) -> bool { v == K || v == C && s1 == C }

/// Everything other threads may do while the lock is not ours.
unsafe fn free_step() {
    let s = any_usize();
    kani::assume(rely(*STATE, s, false));
    if LINKED && any_bool() {
        // taken off by a notifier or by the closing thread
        let v = any_usize();
        kani::assume(told(v, s));
        *WORDS[ME] = v;
        LINKED = false;
        TAKEN_OFF();
    }
    *STATE = s;
}

pub(crate) unsafe fn environment() {
    if !ENV || !others_act() { return; }
    if !mutex::LOCKED { free_step(); return; }
    let s = any_usize();
    kani::assume(rely(*STATE, s, true));
    *STATE = s;
}

pub(crate) unsafe fn before_lock() {
    if !ON { return; }
    if ENV {
        if others_act() { free_step(); }
        // the lock was free
        if LINKED { kani::assume(consistent(*STATE, false)); }
        BUILD();
    }
    STATE_AT_LOCK = *STATE;
    EMPTY_AT_LOCK = LIST_EMPTY();
}

pub(crate) unsafe fn before_unlock() {
    if !ON { return; }
    environment();
    let empty = LIST_EMPTY();
    let s = *STATE;
    oblige!(s != W || !empty, "G42 the queue says somebody waits only while the list has waiters");
    oblige!(empty || s == W || s == C, "G43 while the list has waiters the queue says so (or is closed)");
    CHECK();
}

/// The lock is held: would an early exit leave the queue consistent?
pub(crate) unsafe fn cloned() {
    if ON && mutex::LOCKED {
        assert!(*STATE != W || !LIST_EMPTY(), "G94 user code that may panic runs only while the queue is consistent");
    }
}

pub(crate) unsafe fn read(v: usize, o: Ordering) {
    if v == C && is_acquire(o) { SEEN_C = true; }
}

pub(crate) unsafe fn wrote(old: usize, new: usize, o: Ordering, rmw: bool) {
    oblige!(new == E || new == W || new == K || new == C, "G40 the queue holds only its own states");
    if new == C {
        CLOSES += 1;
        ON_CLOSED();
        oblige!(is_release(o) || REL_FENCE, "G46 closing and notifying publish what happened before");
        return;
    }
    oblige!(old != C, "G41 a closed queue stays closed");
    oblige!(rmw, "G40 the queue's state changes only by read-modify-write");
    if new == K {
        oblige!(old == E || old == K, "G44 a notification is remembered only while nobody waits");
        oblige!(is_release(o) || REL_FENCE, "G46 closing and notifying publish what happened before");
        STORED += 1;
        ON_STORED();
    } else if old == K {
        oblige!(new == E, "G44 a remembered notification is consumed, not replaced");
        oblige!(is_acquire(o), "G45 a notification is consumed with acquire ordering");
        CONSUMED += 1;
    } else if old != new {
        oblige!(mutex::LOCKED, "G40 the list is declared empty or waited on only by the holder of the lock");
    }
}

pub(crate) unsafe fn read_node(v: usize, o: Ordering) {
    assert!(!GONE[NODE_IDX], "G49 a waiter is not touched once its owner has been told to go on");
    if NODE_IDX == ME {
        NODE_SEEN = v;
        NODE_SEEN_SET = is_acquire(o) || mutex::LOCKED;
    }
}

pub(crate) unsafe fn wrote_node(old: usize, new: usize, o: Ordering) {
    oblige!(mutex::LOCKED, "G47 a waiter's state is changed only by the holder of the lock");
    oblige!(!GONE[NODE_IDX], "G49 a waiter is not touched once its owner has been told to go on");
    if NODE_IDX == ME {
        if new == W {
            oblige!(old != W, "G47 a waiter is not queued twice");
        }
    } else {
        oblige!(old == W && (new == K || new == C), "G47 only a waiting sender is notified");
        oblige!(new != C || *STATE == C, "G57 a waiter is told that the queue closed only once it is");
        oblige!(is_release(o) || REL_FENCE, "G48 a waiter is handed back with release ordering");
        GONE[NODE_IDX] = true;
        PUBLISHED += 1;
        PUBLISHED_IDX = NODE_IDX;
        PUBLISHED_VAL = new;
    }
}

pub(crate) unsafe fn cell_access(p: *const u8) {
    each!(i, {
        if p == CELLS[i] {
            assert!(!GONE[i], "G49 a waiter is not touched once its owner has been told to go on");
            assert!(mutex::LOCKED || (i == ME && !LINKED), "G52 a queued waiter is touched only by the holder of the lock");
        }
    });
}
pub(crate) unsafe fn on_wake(_id: usize) {}
