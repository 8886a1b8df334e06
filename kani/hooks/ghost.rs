// Ghost state, rely (environment) and guarantee (checks) for the shared words
// of the crate.  Included as `crate::loom::verif`.
//
// Every check is an `assert!` with a message of the form "Gxx ...": the runner
// reports the message of a failed check as the failed obligation.

use super::atomic::Ordering;
use core::time::Duration;

/// Which shared word an access goes to.
#[derive(Clone, Copy, PartialEq, Eq)]
pub(crate) struct Loc(u8);
impl Loc {
    pub(crate) const PLAIN: Loc = Loc(0);
    pub(crate) const HEAD: Loc = Loc(1);
    pub(crate) const TAIL: Loc = Loc(2);
    pub(crate) const SLOT: Loc = Loc(3);
    pub(crate) const CELL: Loc = Loc(4);
    pub(crate) const QUEUE: Loc = Loc(5);
    pub(crate) const NODE: Loc = Loc(6);
    pub(crate) const SPIN: Loc = Loc(7);
    pub(crate) const SPLIT: Loc = Loc(8);
    pub(crate) const COUNT: Loc = Loc(9);
}

/// Small ranges only (bounded; used when the full ones take too long).
pub(crate) const SMALL: bool = cfg!(feature = "g_small");

/// In the proofs of lemma.rs another thread takes a step, which then keeps the
/// guarantee by assumption; everywhere else the guarantee is an obligation.
pub(crate) static mut LEMMA: bool = false;
macro_rules! oblige {
    ($c:expr, $m:literal) => { if LEMMA { kani::assume($c) } else { assert!($c, $m) } };
}

pub(crate) fn any_usize() -> usize { kani::any() }
pub(crate) fn any_bool() -> bool { kani::any() }

pub(crate) fn is_acquire(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
pub(crate) fn is_release(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

// ---------------------------------------------------------------------------
// dispatch
// ---------------------------------------------------------------------------

/// Fences the code under proof has issued since its last relevant access.
pub(crate) static mut REL_FENCE: bool = false;

pub(crate) unsafe fn fence(o: Ordering) {
    if is_acquire(o) { ring::acquire_fence(); if count::DROPS > 0 { count::SYNCED = true; } }
    if is_release(o) { REL_FENCE = true; }
}

pub(crate) unsafe fn locate(p: *mut usize) -> Loc {
    if cell::ON && p == cell::LOCK { return Loc::CELL; }
    if queue::ON {
        if p == queue::STATE { return Loc::QUEUE; }
        if queue::is_node(p) { return Loc::NODE; }
    }
    if spin::ON && p == spin::LOCK { return Loc::SPIN; }
    if split::ON && p == split::FLAG { return Loc::SPLIT; }
    if count::ON && p == count::WORD { return Loc::COUNT; }
    if ring::ON {
        if p == ring::HEAD { return Loc::HEAD; }
        if p == ring::TAIL { return Loc::TAIL; }
        // with the ring switched on, every other word is a slot's state
        ring::SLOT_IDX = ring::slot_index(p as *const u8);
        return Loc::SLOT;
    }
    Loc::PLAIN
}

pub(crate) unsafe fn environment(loc: Loc) {
    if ring::ON && (loc == Loc::HEAD || loc == Loc::TAIL || loc == Loc::SLOT) { ring::environment(loc); }
    if cell::ON && loc == Loc::CELL { cell::environment(); }
    if queue::ON && (loc == Loc::QUEUE || loc == Loc::NODE) { queue::environment(); }
    if spin::ON && loc == Loc::SPIN { spin::environment(); }
    if split::ON && loc == Loc::SPLIT { split::environment(); }
    if count::ON && loc == Loc::COUNT { count::environment(); }
}

pub(crate) unsafe fn storage(loc: Loc, p: *mut usize) -> *mut usize {
    if ring::ON {
        if loc == Loc::HEAD { return ring::HEAD; }
        if loc == Loc::TAIL { return ring::TAIL; }
        if loc == Loc::SLOT { return &mut ring::SLOT_WORD; }
    }
    if cell::ON && loc == Loc::CELL { return cell::LOCK; }
    if queue::ON && loc == Loc::QUEUE { return queue::STATE; }
    if spin::ON && loc == Loc::SPIN { return spin::LOCK; }
    if split::ON && loc == Loc::SPLIT { return split::FLAG; }
    if count::ON && loc == Loc::COUNT { return count::WORD; }
    if ring::ON && !queue::ON { return &mut ring::SLOT_WORD; }
    p
}

pub(crate) unsafe fn read(loc: Loc, v: usize, o: Ordering) -> usize {
    if ring::ON {
        if loc == Loc::HEAD { return ring::read_head(v, o); }
        if loc == Loc::TAIL { return ring::read_tail(v, o); }
        if loc == Loc::SLOT { ring::read_slot(ring::SLOT_IDX, v, o); return v; }
    }
    if cell::ON && loc == Loc::CELL { cell::read(v, o); }
    if queue::ON && loc == Loc::QUEUE { queue::read(v, o); }
    if queue::ON && loc == Loc::NODE { queue::read_node(v, o); }
    v
}

pub(crate) unsafe fn wrote(loc: Loc, old: usize, new: usize, o: Ordering, rmw: bool) {
    if ring::ON {
        if loc == Loc::HEAD { ring::wrote_head(old, new); }
        if loc == Loc::TAIL { ring::wrote_tail(old, new); }
        if loc == Loc::SLOT { ring::wrote_slot(ring::SLOT_IDX, old, new, o); }
    }
    if cell::ON && loc == Loc::CELL { cell::wrote(old, new, o, rmw); }
    if queue::ON && loc == Loc::QUEUE { queue::wrote(old, new, o, rmw); }
    if queue::ON && loc == Loc::NODE { queue::wrote_node(old, new, o); }
    if spin::ON && loc == Loc::SPIN { spin::wrote(old, new, o); }
    if split::ON && loc == Loc::SPLIT { split::wrote(old, new); }
    if count::ON && loc == Loc::COUNT { count::wrote(old, new, o, rmw); }
    REL_FENCE = false;
}

/// Whether others act now.  Unlimited unless `FINITE`: then at most `BUDGET`
/// more times (a loop that ends whenever others act finitely often cannot spin
/// by itself).  A spurious failure counts as an act.
pub(crate) static mut FINITE: bool = false;
pub(crate) static mut BUDGET: u8 = 0;
pub(crate) unsafe fn others_act() -> bool {
    if !FINITE { return true; }
    if BUDGET == 0 || any_bool() { return false; }
    BUDGET -= 1;
    true
}

pub(crate) static mut ALLOW_SPURIOUS: bool = false;
pub(crate) unsafe fn spurious_failure() -> bool {
    ALLOW_SPURIOUS && any_bool() && others_act()
}

/// Access through a cell; returns where the data really lives.
pub(crate) unsafe fn cell_access<T>(p: *mut T) -> *mut T {
    // element cells are recognised by their (unique) size
    if ring::ON && core::mem::size_of::<T>() == ring::ELEM_SIZE {
        ring::touch(ring::slot_index(p as *const u8));
        return ring::VALUE.as_mut_ptr() as *mut T;
    }
    if cell::ON && p as *const u8 == cell::WAITER { cell::access(); }
    if queue::ON { queue::cell_access(p as *const u8); }
    if spin::ON && p as *const u8 == spin::DATA { spin::access(); }
    p
}
/// Access through a pointer obtained earlier from a cell.
pub(crate) unsafe fn ptr_access<T: ?Sized>(p: *const T) {
    if ring::ON && core::mem::size_of_val(&*p) == ring::ELEM_SIZE { ring::touch_value(); }
    let p = p as *const u8;
    if spin::ON && p == spin::DATA { spin::access(); }
}

// ---------------------------------------------------------------------------
// back-off: an arbitrary retry count at function entry makes one loop iteration
// stand for every iteration.
// ---------------------------------------------------------------------------
pub(crate) static mut ANY_BACKOFF: bool = false;
pub(crate) static mut BACKOFF: u8 = 0;
pub(crate) fn initial_backoff() -> u8 {
    if unsafe { ANY_BACKOFF } { 
        let b: u8 = kani::any();
        kani::assume(b <= 7);
        b
    } else { unsafe { BACKOFF } }
}

// ---------------------------------------------------------------------------
// threads, wakers, clock
// ---------------------------------------------------------------------------
/// A waiter whose wake-ups are counted.
#[derive(Clone, Debug)]
pub(crate) struct TW(pub(crate) usize);
pub(crate) const OTHER_ID: usize = 3;
pub(crate) const OLD_ID: usize = 2;
pub(crate) const MY_ID: usize = 1;

pub(crate) static mut CURRENT_THREAD: usize = 1;
pub(crate) static mut WAKES: [u8; 8] = [0; 8];
/// Order in which identities were woken (last one).
pub(crate) static mut LAST_WOKEN: usize = 0;
pub(crate) static mut TOTAL_WAKES: usize = 0;
pub(crate) unsafe fn woken(id: usize) {
    assert!(!mutex::LOCKED, "G90 no waker or thread is woken while the wait queue lock is held");
    WAKES[id & 7] += 1;
    LAST_WOKEN = id;
    TOTAL_WAKES += 1;
    queue::on_wake(id);
    cell::on_wake(id);
}

/// A waiter (waker) owned by the queue is dropped.
pub(crate) unsafe fn waiter_dropped() {
    assert!(!mutex::LOCKED, "G93 no waker is dropped while the wait queue lock is held");
}

pub(crate) static mut PARKS: usize = 0;
pub(crate) unsafe fn park(d: Option<Duration>) {
    assert!(!mutex::LOCKED, "G91 a thread never parks while holding the wait queue lock");
    PARKS += 1;
    timing::park(d);
}
pub(crate) unsafe fn clock() -> Duration { timing::now() }

pub(crate) mod timing {
    use super::*;
    /// Ghost clock; it moves only when it is read (by any amount).
    pub(crate) static mut NOW: Duration = Duration::ZERO;
    pub(crate) static mut ON: bool = false;
    /// The first reading, from which a deadline can be computed.
    pub(crate) static mut FIRST: Duration = Duration::ZERO;
    pub(crate) static mut READINGS: usize = 0;
    pub(crate) static mut ON_PARK: Option<unsafe fn(Option<Duration>)> = None;
    pub(crate) fn any_duration() -> Duration {
        let (s, n): (u64, u32) = (kani::any(), kani::any());
        kani::assume(s < (if SMALL { 4 } else { 1 << 40 }) && n < 1_000_000_000);
        Duration::new(s, n)
    }
    pub(crate) unsafe fn now() -> Duration {
        if ON {
            let n = any_duration();
            kani::assume(n >= NOW);
            NOW = n;
            if READINGS == 0 { FIRST = n; }
            READINGS += 1;
        }
        NOW
    }
    pub(crate) unsafe fn park(d: Option<Duration>) {
        if let Some(f) = ON_PARK { f(d) }
    }
}

/// The contracts of `WaitQueue::start_wait`, `WaitQueue::continue_wait` and
/// `Waiter::remove` (proved for the real functions by the g_queue harnesses),
/// standing in for them in the proofs of their callers, and the protocol their
/// callers have to follow.
#[cfg(any(feature = "g_async", feature = "g_blocking"))]
pub(crate) mod waits {
    use super::*;
    use crate::wait::{Notify, WaitQueue, WaitResult, queue::Waiter};
    use core::pin::Pin;
    use crate::verif::contract as k;

    /// The caller's waiter may be in the queue.
    pub(crate) static mut LINKED: bool = false;
    pub(crate) static mut NODE: usize = 0;
    /// First word of the waker in the queued waiter.
    pub(crate) static mut WAKER: usize = 0;
    /// A notification was received and no push attempted since.
    pub(crate) static mut OWED: bool = false;
    pub(crate) static mut PUSHES_SEEN: usize = 0;
    pub(crate) static mut TOLD_CLOSED: bool = false;
    pub(crate) static mut STARTS: usize = 0;
    pub(crate) static mut CONTINUES: usize = 0;
    pub(crate) static mut REMOVES: usize = 0;
    /// Pushes attempted when the last notification arrived (or at the start).
    static mut PUSHES_AT_NOTIFICATION: usize = 0;

    /// Has a push been attempted since the latest notification?
    unsafe fn tried() -> bool { k::PUSHES > PUSHES_AT_NOTIFICATION && k::LAST == k::FULL_OR_EMPTY }
    pub(crate) unsafe fn owes() -> bool { OWED && k::PUSHES <= PUSHES_AT_NOTIFICATION }

    pub(crate) unsafe fn id<T>(t: &T) -> usize {
        // wakers in the proofs carry a small number, threads are one
        let p = t as *const T as *const usize;
        if core::mem::size_of::<T>() == 2 * core::mem::size_of::<usize>() && *p > 64 { *p.add(1) } else { *p }
    }
    /// The harness asks for the answer "wait".
    pub(crate) static mut MUST_WAIT: bool = false;
    unsafe fn answer() -> WaitResult {
        if MUST_WAIT { return WaitResult::Wait; }
        let a: u8 = kani::any();
        match a {
            0 => WaitResult::Wait,
            1 => { OWED = true; PUSHES_AT_NOTIFICATION = k::PUSHES; LINKED = false; WaitResult::Notified }
            _ => { TOLD_CLOSED = true; LINKED = false; WaitResult::Closed }
        }
    }

    pub(crate) fn start_wait<T: Notify + Unpin>(_q: &WaitQueue<T>, node: Pin<&mut Waiter<T>>, w: &T) -> WaitResult {
        unsafe {
            STARTS += 1;
            assert!(!LINKED, "P10 a waiter that is still queued is not queued again");
            assert!(tried(), "P11 a sender starts to wait only after a failed push since its last notification");
            let r = answer();
            if let WaitResult::Wait = r {
                LINKED = true;
                NODE = &*node as *const _ as usize;
                WAKER = id(w);
            }
            r
        }
    }
    pub(crate) fn continue_wait<T: Notify + Unpin>(_q: &WaitQueue<T>, node: Pin<&mut Waiter<T>>, w: &T) -> WaitResult {
        unsafe {
            CONTINUES += 1;
            assert!(LINKED, "P12 only a queued waiter goes on waiting");
            assert!(NODE == &*node as *const _ as usize, "P13 a queued waiter is not moved");
            let r = answer();
            if let WaitResult::Wait = r { WAKER = id(w); }
            r
        }
    }
    pub(crate) fn remove<T: Notify>(node: Pin<&mut Waiter<T>>, _q: &WaitQueue<T>) where T: Unpin {
        unsafe {
            REMOVES += 1;
            assert!(LINKED, "P14 only a waiter that has not been told anything is removed");
            assert!(NODE == &*node as *const _ as usize, "P13 a queued waiter is not moved");
            LINKED = false;
        }
    }
    /// What must hold when an operation is over.
    pub(crate) unsafe fn finished() {
        assert!(!LINKED, "P30 an operation that is over leaves no waiter in the queue");
        assert!(!owes(), "P31 a received notification is used for an attempt to send");
    }
}

// ---------------------------------------------------------------------------
// panics
// ---------------------------------------------------------------------------
pub(crate) mod panic {
    use super::*;
    pub(crate) static mut PANICKING: bool = false;
    pub(crate) static mut CLOSURE_MAY_PANIC: bool = false;
    pub(crate) static mut ON_RESUME: Option<unsafe fn()> = None;
    pub(crate) struct Payload;

    pub(crate) fn panicking() -> bool {
        unsafe { PANICKING }
    }
    pub(crate) fn catch_unwind<F: FnOnce() -> R, R>(f: F) -> Result<R, Payload> {
        unsafe {
            if CLOSURE_MAY_PANIC && any_bool() {
                CLOSURE_MAY_PANIC = false;
                core::mem::forget(f);
                return Err(Payload);
            }
        }
        Ok(f())
    }
    pub(crate) fn resume_unwind(_: Payload) -> ! {
        unsafe { if let Some(f) = ON_RESUME { f() } }
        kani::assume(false);
        loop {}
    }
}

// ---------------------------------------------------------------------------
// the wait queue's lock
// ---------------------------------------------------------------------------
pub(crate) mod mutex {
    use super::*;
    pub(crate) static mut LOCKED: bool = false;
    pub(crate) static mut LOCKS: usize = 0;

    #[derive(Debug)]
    pub(crate) struct Mutex<T>(core::cell::UnsafeCell<T>);
    pub(crate) struct MutexGuard<'a, T>(&'a Mutex<T>);
    unsafe impl<T: Send> Send for Mutex<T> {}
    unsafe impl<T: Send> Sync for Mutex<T> {}

    pub(crate) const fn const_mutex<T>(t: T) -> Mutex<T> { Mutex(core::cell::UnsafeCell::new(t)) }

    impl<T> Mutex<T> {
        pub(crate) const fn new(t: T) -> Self { const_mutex(t) }
        pub(crate) fn ghost_ptr(&self) -> *mut T { self.0.get() }
        pub(crate) fn lock(&self) -> MutexGuard<'_, T> {
            unsafe {
                assert!(!LOCKED, "G92 the wait queue lock is never taken by a thread already holding it");
                queue::before_lock();
                LOCKED = true;
                LOCKS += 1;
            }
            MutexGuard(self)
        }
    }
    impl<T> core::ops::Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T { unsafe { &*self.0 .0.get() } }
    }
    impl<T> core::ops::DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0 .0.get() } }
    }
    impl<T> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            unsafe {
                queue::before_unlock();
                LOCKED = false;
            }
        }
    }
    impl<T: core::fmt::Debug> core::fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("MutexGuard") }
    }
}

pub(crate) mod ring {
    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/ghost_ring.rs"));
}
pub(crate) mod cell {
    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/ghost_cell.rs"));
}
pub(crate) mod queue {
    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/ghost_queue.rs"));
}

/// The buffer of the channel under proof is closed before anybody is told so:
/// what the wait cell and the wait queue say about the end is never ahead of it.
pub(crate) mod order {
    pub(crate) static mut CORE: *const crate::Core = core::ptr::null();
    pub(crate) unsafe fn watch(c: &crate::Core) { CORE = c; super::queue::ON_CLOSED = before_senders; }
    pub(crate) unsafe fn closed() -> bool { *(*CORE).tail.ghost_ptr() & (*CORE).closed != 0 }
    unsafe fn before_senders() { assert!(closed(), "V72 the channel is closed before its senders are told so"); }
}

/// The spin lock word.
pub(crate) mod spin {
    use super::*;
    pub(crate) static mut ON: bool = false;
    pub(crate) static mut LOCK: *mut usize = core::ptr::null_mut();
    pub(crate) static mut DATA: *const u8 = core::ptr::null();
    /// 0: free, 1: held by the code under proof, 2: held by somebody else
    pub(crate) static mut OWNER: u8 = 0;
    pub(crate) static mut RELEASES: usize = 0;
    pub(crate) static mut ACQUIRES: usize = 0;
    pub(crate) static mut ENV: bool = true;

    pub(crate) unsafe fn possible(w: usize, o: u8) -> bool { o <= 2 && w == (o != 0) as usize }
    /// Others lock and unlock at will, but not while the lock is mine.
    pub(crate) unsafe fn rely(w: usize, o: u8, w1: usize, o1: u8) -> bool {
        possible(w1, o1) && (if o == 1 { o1 == 1 && w1 == w } else { o1 != 1 })
    }
    pub(crate) unsafe fn environment() {
        if ENV {
            let (w, o): (usize, u8) = (any_usize(), kani::any());
            kani::assume(rely(*LOCK, OWNER, w, o));
            *LOCK = w; OWNER = o;
        }
    }
    pub(crate) unsafe fn wrote(old: usize, new: usize, o: Ordering) {
        if old == 0 && new == 1 {
            oblige!(OWNER == 0, "G80 the spin lock is taken only while free");
            oblige!(is_acquire(o), "G81 taking the spin lock has acquire ordering");
            OWNER = 1;
            ACQUIRES += 1;
        } else if new == 0 {
            oblige!(OWNER == 1, "G82 the spin lock is released only by its holder");
            oblige!(is_release(o) || REL_FENCE, "G83 releasing the spin lock has release ordering");
            OWNER = 0;
            RELEASES += 1;
        } else {
            oblige!(old == new, "G84 the spin lock word is not disturbed while another holds it");
        }
    }
    pub(crate) unsafe fn access() {
        assert!(OWNER == 1, "G85 data protected by the spin lock is touched only while holding it");
    }
}

/// The `is_split` flag of static channels.
pub(crate) mod split {
    use super::*;
    pub(crate) static mut ON: bool = false;
    pub(crate) static mut FLAG: *mut usize = core::ptr::null_mut();
    /// Number of threads (including the environment) that won the split.
    pub(crate) static mut WINNERS: usize = 0;
    pub(crate) static mut MINE: usize = 0;
    pub(crate) unsafe fn possible(f: usize, winners: usize) -> bool { f <= 1 && winners == f }
    /// Others may win the split, once.
    pub(crate) unsafe fn rely(f: usize, f1: usize, winners1: usize) -> bool { possible(f1, winners1) && f1 >= f }
    pub(crate) unsafe fn environment() {
        let (f, n) = (any_usize(), any_usize());
        kani::assume(rely(*FLAG, f, n));
        *FLAG = f; WINNERS = n;
    }
    pub(crate) unsafe fn wrote(old: usize, new: usize) {
        if old == 0 && new != 0 { WINNERS += 1; MINE += 1; }
        oblige!(new == 1, "G70 the split flag is never cleared");
    }
}

/// The sender count of a channel.
pub(crate) mod count {
    use super::*;
    pub(crate) static mut ON: bool = false;
    pub(crate) static mut ENV: bool = false;
    pub(crate) static mut WORD: *mut usize = core::ptr::null_mut();
    /// Senders owned by the code under proof / by the environment.
    pub(crate) static mut MINE: usize = 0;
    pub(crate) static mut OTHERS: usize = 0;
    pub(crate) static mut LAST_OLD: usize = 0;
    pub(crate) static mut DROPS: usize = 0;
    pub(crate) static mut CLONES: usize = 0;
    /// The last sender has synchronised with all the others.
    pub(crate) static mut SYNCED: bool = false;
    /// Senders that can be alive at a time (machine arithmetic).
    pub(crate) const MANY: usize = 1 << 40;
    /// Other threads clone and drop their own senders; a clone needs a live
    /// sender of theirs (or a reference to one of mine).
    pub(crate) unsafe fn rely(mine: usize, others: usize, w1: usize, others1: usize) -> bool {
        others1 <= MANY && w1 == mine + others1 && (mine + others > 0 || others1 == 0)
    }
    pub(crate) unsafe fn environment() {
        if ENV {
            let (w, n) = (any_usize(), any_usize());
            kani::assume(rely(MINE, OTHERS, w, n));
            OTHERS = n;
            *WORD = w;
        }
    }
    pub(crate) unsafe fn wrote(old: usize, new: usize, o: Ordering, rmw: bool) {
        LAST_OLD = old;
        if is_acquire(o) { SYNCED = true; }
        oblige!(rmw, "G60 the sender count changes only by read-modify-write");
        if new == old + 1 {
            oblige!(old >= 1, "G65 a sender is cloned from a sender");
            CLONES += 1; MINE += 1;
        }
        else if old >= 1 && new == old - 1 {
            oblige!(is_release(o) || REL_FENCE, "G61 dropping a sender has release ordering");
            oblige!(MINE > 0, "G62 a sender is counted out only once");
            DROPS += 1; MINE -= 1;
        }
        else { oblige!(old == new, "G63 the sender count changes by one per clone or drop"); }
    }
}
