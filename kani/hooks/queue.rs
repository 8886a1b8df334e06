// Contracts of the wait queue (src/wait/queue.rs), included as
// `crate::wait::queue::verif`.
#[allow(unused_imports)]
use super::*;
#[allow(unused_imports)]
use crate::loom::verif::{self as g, queue as q, mutex};

#[allow(dead_code)]
impl<T> WaitQueue<T> {
    /// Observe this (idle) queue from a caller's proof.
    pub(crate) unsafe fn verif_attach(&self) {
        q::start(self.state.ghost_ptr(), EMPTY, WAITING, WAKING, CLOSED);
    }
}

#[cfg(feature = "g_queue")]
#[allow(static_mut_refs)]
mod queue_harness {
    use super::*;
    /// Unrolled loop over the nodes.
    macro_rules! each {
        ($i:ident, $b:block) => { { let $i = 0; $b } { let $i = 1; $b } { let $i = 2; $b } { let $i = 3; $b } { let $i = 4; $b } };
    }

    /// A waiter whose clones, drops and wake-ups are observable.
    #[derive(Debug)]
    pub(crate) struct QW(pub(crate) usize);
    impl Clone for QW {
        fn clone(&self) -> Self { unsafe { q::cloned() } QW(self.0) }
    }
    impl Drop for QW {
        fn drop(&mut self) { unsafe { g::waiter_dropped() } }
    }
    impl Notify for QW {
        fn notify(self) { unsafe { g::woken(self.0) } }
        fn same(&self, o: &Self) -> bool { self.0 == o.0 }
    }

    type N = Waiter<QW>;
    type L = Link<N>;
    static mut NODE: [*mut N; q::NODES] = [core::ptr::null_mut(); q::NODES];
    static mut QUEUE: *const WaitQueue<QW> = core::ptr::null();

    /// Addresses standing for waiters the code under proof must not touch.
    fn opaque(i: usize) -> L { NonNull::new((0x1000 + i * 0x100) as *mut N) }
    unsafe fn link(i: usize) -> L { NonNull::new(NODE[i]) }
    unsafe fn cell(i: usize) -> &'static mut Node<QW> { &mut *(*NODE[i]).node.ghost_ptr() }
    unsafe fn list() -> &'static mut List<QW> { &mut *(*QUEUE).list.ghost_ptr() }

    unsafe fn set(i: usize, prev: L, next: L) {
        let c = cell(i);
        c.prev = prev; c.next = next;
        core::mem::forget(c.waiter.replace(QW(i)));
        *q::WORDS[i] = q::W;
        q::GONE[i] = false;
    }

    /// What the list looked like when the lock was taken.
    #[derive(Clone, Copy)]
    struct Snap { head: L, tail: L, prev: [L; q::NODES], next: [L; q::NODES], id: [usize; q::NODES] }
    static mut BEFORE: Snap = Snap { head: None, tail: None, prev: [None; q::NODES], next: [None; q::NODES], id: [0; q::NODES] };
    /// Waiter identity expected in my node (0: none).
    const MINE: usize = 6;
    const OLD: usize = 7;

    unsafe fn id_of(i: usize) -> usize { match &cell(i).waiter { Some(w) => w.0, None => 0 } }
    unsafe fn snap() -> Snap {
        let mut s = Snap { head: list().head, tail: list().tail, prev: [None; q::NODES], next: [None; q::NODES], id: [0; q::NODES] };
        each!(i, { s.prev[i] = cell(i).prev; s.next[i] = cell(i).next; s.id[i] = id_of(i); });
        s
    }

    pub(crate) static mut OLDEST: usize = 0;

    /// An arbitrary list, newest (head) to oldest (tail), around my node if it
    /// is linked.  At most the neighbours an operation may touch are real.
    unsafe fn build() {
        q::GONE = [false; q::NODES];
        OLDEST = 0;
        if q::LINKED {
            // ... P(1) me Q(2) ...
            let p: bool = kani::any();
            let n: bool = kani::any();
            let p_head: bool = kani::any();
            let n_tail: bool = kani::any();
            let my_id = id_of(q::ME);
            cell(q::ME).prev = if p { link(1) } else { None };
            cell(q::ME).next = if n { link(2) } else { None };
            let _ = my_id;
            if p { set(1, if p_head { None } else { opaque(1) }, link(q::ME)); }
            if n { set(2, link(q::ME), if n_tail { None } else { opaque(2) }); }
            list().head = if !p { link(q::ME) } else if p_head { link(1) } else { opaque(3) };
            list().tail = if !n { link(q::ME) } else if n_tail { link(2) } else { opaque(4) };
        } else {
            let len: u8 = if *q::STATE == q::W { let l: u8 = kani::any(); kani::assume(l >= 1); l }
                else if *q::STATE == q::C { kani::any() } else { 0 };
            let l = list();
            match len {
                0 => { l.head = None; l.tail = None; }
                1 => { set(1, None, None); l.head = link(1); l.tail = link(1); OLDEST = 1; }
                2 => { set(1, None, link(2)); set(2, link(1), None); l.head = link(1); l.tail = link(2); OLDEST = 2; }
                3 => { set(1, None, link(2)); set(2, link(1), link(3)); set(3, link(2), None); l.head = link(1); l.tail = link(3); OLDEST = 3; }
                _ => {
                    set(1, None, opaque(1)); set(2, opaque(2), link(3)); set(3, link(2), None);
                    l.head = link(1); l.tail = link(3); OLDEST = 3;
                }
            }
        }
        BEFORE = snap();
    }

    unsafe fn taken_off() {
        // whoever took the node off emptied it
        let c = cell(q::ME);
        c.prev = None; c.next = None;
        if let Some(w) = c.waiter.take() { core::mem::forget(w); }
    }
    unsafe fn list_empty() -> bool { list().head.is_none() && list().tail.is_none() }

    pub(crate) const UNCHANGED: u8 = 1;
    pub(crate) const ADDED: u8 = 2;
    pub(crate) const TOOK_OLDEST: u8 = 3;
    pub(crate) const REMOVED: u8 = 4;
    /// Effect of the critical section(s) of the code under proof.
    pub(crate) static mut EFFECT: u8 = 0;
    pub(crate) static mut EFFECTS: usize = 0;

    unsafe fn idx(l: L) -> usize {
        each!(i, { if l == link(i) { return i; } });
        99
    }

    unsafe fn same(a: &Snap, b: &Snap, skip: usize) -> bool {
        let mut ok = a.head == b.head && a.tail == b.tail;
        each!(i, {
            if i != skip && (i != q::ME || q::LINKED) {
                ok &= a.prev[i] == b.prev[i] && a.next[i] == b.next[i] && (i == q::ME || a.id[i] == b.id[i]);
            }
        });
        ok
    }

    unsafe fn check() {
        let now = snap();
        let mut e = 0;
        if same(&BEFORE, &now, 99) { e = UNCHANGED; }
        if !q::LINKED && e == 0 {
            // my node became the newest
            let mut x = BEFORE;
            x.head = link(q::ME);
            if x.tail.is_none() { x.tail = link(q::ME); }
            let h = idx(BEFORE.head);
            if h < q::NODES { x.prev[h] = link(q::ME); }
            if same(&x, &now, q::ME) && now.prev[q::ME].is_none() && now.next[q::ME] == BEFORE.head {
                assert!(now.id[q::ME] != 0 && *q::WORDS[q::ME] == q::W, "G53 a queued waiter has a waker and is marked waiting");
                e = ADDED;
                q::LINKED = true;
            } else if OLDEST != 0 {
                let mut x = BEFORE;
                x.tail = BEFORE.prev[OLDEST];
                if x.tail.is_none() { x.head = None; }
                let t = idx(x.tail);
                if t < q::NODES { x.next[t] = None; }
                if same(&x, &now, OLDEST) {
                    assert!(q::GONE[OLDEST], "G54 a waiter taken off the list is told so");
                    assert!(now.id[OLDEST] == 0, "G55 a waiter taken off the list gives up its waker");
                    e = TOOK_OLDEST;
                }
            }
        }
        if q::LINKED && e == 0 {
            let mut x = BEFORE;
            let (p, n) = (BEFORE.prev[q::ME], BEFORE.next[q::ME]);
            let (pi, ni) = (idx(p), idx(n));
            if pi < q::NODES { x.next[pi] = n; } else { x.head = n; }
            if ni < q::NODES { x.prev[ni] = p; } else { x.tail = p; }
            if same(&x, &now, q::ME) { e = REMOVED; q::LINKED = false; }
        }
        assert!(e != 0, "G50 the list changes only by adding the newest waiter, taking the oldest, or removing the own one; all other waiters keep their place and their waker");
        // nodes handed back are exactly the ones taken off
        each!(i, {
            assert!(!q::GONE[i] || (e == TOOK_OLDEST && i == OLDEST), "G56 only the waiter taken off the list is notified");
        });
        if e != UNCHANGED || EFFECT == 0 { EFFECT = e; }
        if e != UNCHANGED { EFFECTS += 1; }
    }

    unsafe fn attach(w: &WaitQueue<QW>, nodes: &mut [N; q::NODES]) {
        QUEUE = w;
        each!(i, {
            NODE[i] = &mut nodes[i];
            q::WORDS[i] = nodes[i].state.ghost_ptr();
            q::CELLS[i] = nodes[i].node.ghost_ptr() as *const u8;
        });
        q::BUILD = build; q::CHECK = check; q::TAKEN_OFF = taken_off; q::LIST_EMPTY = list_empty;
        q::start(w.state.ghost_ptr(), EMPTY, WAITING, WAKING, CLOSED);
        *q::STATE = q::any_state();
        q::ENV = true;
        g::ALLOW_SPURIOUS = true;
    }
    fn fresh() -> [N; q::NODES] { [N::new(), N::new(), N::new(), N::new(), N::new()] }

    unsafe fn me() -> Pin<&'static mut N> { Pin::new_unchecked(&mut *NODE[q::ME]) }

    #[kani::proof]
    #[kani::unwind(3)]
    fn rg_start_wait() {
        unsafe {
            let w = core::mem::ManuallyDrop::new(WaitQueue::<QW>::new());
            let mut nodes = core::mem::ManuallyDrop::new(fresh());
            attach(&w, &mut nodes);
            // a node waits again after having been notified
            if kani::any() { *q::WORDS[q::ME] = q::K; }
            let mine = QW(MINE);
            let r = w.start_wait(me(), &mine);
            core::mem::forget(mine);
            assert!(!mutex::LOCKED, "Q01 the lock is released");
            assert!(g::TOTAL_WAKES == 0 && q::STORED == 0 && q::CLOSES == 0, "Q02 starting to wait notifies nobody");
            match r {
                WaitResult::Wait => {
                    assert!(q::LINKED || *q::WORDS[q::ME] != q::W, "Q10 told to wait only if queued");
                    assert!(EFFECT == ADDED && EFFECTS == 1, "Q11 told to wait only if added as the newest waiter");
                    assert!(q::CONSUMED == 0, "Q12 told to wait without swallowing a notification");
                    assert!(q::STATE_AT_LOCK != q::C, "Q13 nobody is queued once the queue is closed");
                    assert!(!q::LINKED || id_of(q::ME) == MINE, "Q14 the queued waiter is the caller's");
                    kani::cover!(true, "wait");
                }
                WaitResult::Notified => {
                    assert!(q::CONSUMED == 1, "Q15 told notified exactly when a remembered notification was consumed");
                    assert!(EFFECTS == 0 && !q::LINKED, "Q16 not queued when told notified");
                    kani::cover!(true, "notified");
                }
                WaitResult::Closed => {
                    assert!(q::SEEN_C, "Q17 told closed only if closed");
                    assert!(EFFECTS == 0 && !q::LINKED && q::CONSUMED == 0, "Q16 not queued when told closed");
                    kani::cover!(true, "closed");
                }
            }
        }
    }

    unsafe fn linked() {
        q::LINKED = true;
        *q::WORDS[q::ME] = q::W;
        core::mem::forget(cell(q::ME).waiter.replace(QW(OLD)));
        kani::assume(*q::STATE == q::W || *q::STATE == q::C);
    }

    #[kani::proof]
    #[kani::unwind(3)]
    fn rg_continue_wait() {
        unsafe {
            let w = core::mem::ManuallyDrop::new(WaitQueue::<QW>::new());
            let mut nodes = core::mem::ManuallyDrop::new(fresh());
            attach(&w, &mut nodes);
            linked();
            let id = if kani::any() { OLD } else { MINE };
            let mine = QW(id);
            let r = w.continue_wait(me(), &mine);
            core::mem::forget(mine);
            assert!(!mutex::LOCKED, "Q01 the lock is released");
            assert!(g::TOTAL_WAKES == 0 && q::STORED == 0 && q::CLOSES == 0 && q::CONSUMED == 0 && EFFECTS == 0,
                "Q20 going on waiting changes neither the queue nor the list");
            match r {
                WaitResult::Wait => {
                    assert!(EFFECT == UNCHANGED, "Q21 told to go on waiting only after looking under the lock");
                    assert!(!q::LINKED || id_of(q::ME) == id, "Q22 a waiting node holds the waker of the latest poll");
                    kani::cover!(q::LINKED && id == MINE, "waker replaced");
                    kani::cover!(q::LINKED && id == OLD, "waker kept");
                }
                WaitResult::Notified => {
                    assert!(!q::LINKED && q::NODE_SEEN_SET && q::NODE_SEEN == q::K, "Q23 told notified only if notified, with acquire ordering");
                    kani::cover!(true, "notified");
                }
                WaitResult::Closed => {
                    assert!(!q::LINKED && q::NODE_SEEN_SET && q::NODE_SEEN == q::C, "Q24 told closed only if the queue closed, with acquire ordering");
                    kani::cover!(true, "closed");
                }
            }
        }
    }

    /// The effect of one notification.
    unsafe fn one_notification() {
        let woke = EFFECT == TOOK_OLDEST && EFFECTS == 1;
        if woke {
            assert!(q::STORED == 0, "Q30 a notification is not both handed out and remembered");
            assert!(q::PUBLISHED == 1 && q::PUBLISHED_VAL == q::K, "Q31 exactly one waiter is notified");
            assert!(g::TOTAL_WAKES == 1 && g::LAST_WOKEN == q::PUBLISHED_IDX, "Q32 the longest waiting sender is woken, exactly once");
        } else {
            assert!(g::TOTAL_WAKES == 0 && q::PUBLISHED == 0, "Q33 nobody else is woken");
            assert!(q::STORED == 1 || (q::STORED == 0 && q::SEEN_C), "Q34 a notification nobody waits for is remembered, unless the queue is closed");
        }
        assert!(q::CONSUMED == 0 && q::CLOSES == 0, "Q35 notifying neither consumes notifications nor closes");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    fn rg_queue_notify() {
        unsafe {
            let w = core::mem::ManuallyDrop::new(WaitQueue::<QW>::new());
            let mut nodes = core::mem::ManuallyDrop::new(fresh());
            attach(&w, &mut nodes);
            let r = w.notify();
            assert!(!mutex::LOCKED, "Q01 the lock is released");
            one_notification();
            assert!(r == (g::TOTAL_WAKES == 1), "Q36 notify says whether it woke somebody");
            kani::cover!(g::TOTAL_WAKES == 1 && OLDEST == 1, "woke the only waiter");
            kani::cover!(g::TOTAL_WAKES == 1 && OLDEST == 3, "woke one of many");
            kani::cover!(q::STORED == 1 && mutex::LOCKS == 0, "remembered at once");
            kani::cover!(q::STORED == 1 && mutex::LOCKS == 1, "remembered after locking");
            kani::cover!(q::STORED == 0 && g::TOTAL_WAKES == 0, "closed");
        }
    }

    #[kani::proof]
    #[kani::unwind(3)]
    fn rg_waiter_remove() {
        unsafe {
            let w = core::mem::ManuallyDrop::new(WaitQueue::<QW>::new());
            let mut nodes = core::mem::ManuallyDrop::new(fresh());
            attach(&w, &mut nodes);
            linked();
            me().remove(&w);
            assert!(!mutex::LOCKED, "Q01 the lock is released");
            assert!(!q::LINKED, "Q40 a waiter that gives up is not left in the list");
            if EFFECT == REMOVED {
                assert!(EFFECTS == 1 && g::TOTAL_WAKES == 0 && q::PUBLISHED == 0 && q::STORED == 0 && q::CONSUMED == 0 && q::CLOSES == 0,
                    "Q41 giving up a wait touches nobody else");
                kani::cover!(BEFORE.prev[q::ME].is_some() && BEFORE.next[q::ME].is_some(), "removed from the middle");
                kani::cover!(BEFORE.prev[q::ME].is_none() && BEFORE.next[q::ME].is_none(), "removed the only waiter");
            } else if *q::WORDS[q::ME] == q::K {
                // it had been notified: the notification is passed on
                one_notification();
                kani::cover!(g::TOTAL_WAKES == 1, "passed on to another waiter");
                kani::cover!(q::STORED == 1, "passed on to the queue");
            } else {
                assert!(*q::WORDS[q::ME] == q::C && g::TOTAL_WAKES == 0 && q::STORED == 0 && q::PUBLISHED == 0, "Q42 a closed waiter has nothing to pass on");
                kani::cover!(true, "closed");
            }
        }
    }

    /// The loops end when others act at most twice: they cannot go on by themselves.
    #[kani::proof]
    #[kani::unwind(6)]
    fn seq_start_wait() {
        unsafe {
            let w = core::mem::ManuallyDrop::new(WaitQueue::<QW>::new());
            let mut nodes = core::mem::ManuallyDrop::new(fresh());
            attach(&w, &mut nodes);
            g::FINITE = true;
            g::BUDGET = 2;
            let mine = QW(MINE);
            let r = w.start_wait(me(), &mine);
            core::mem::forget(mine);
            kani::cover!(r == WaitResult::Wait && g::BUDGET == 0, "wait");
            kani::cover!(r == WaitResult::Notified && g::BUDGET == 0, "notified");
            kani::cover!(r == WaitResult::Closed && g::BUDGET == 0, "closed");
        }
    }

    #[kani::proof]
    #[kani::unwind(6)]
    fn seq_queue_notify() {
        unsafe {
            let w = core::mem::ManuallyDrop::new(WaitQueue::<QW>::new());
            let mut nodes = core::mem::ManuallyDrop::new(fresh());
            attach(&w, &mut nodes);
            g::FINITE = true;
            g::BUDGET = 2;
            let r = w.notify();
            kani::cover!(r && g::BUDGET == 0, "woke somebody");
            kani::cover!(!r && g::BUDGET == 0, "woke nobody");
        }
    }

    /// One round of `close` from an arbitrary list; the list is arbitrary again
    /// at every round, so this is every round.
    #[kani::proof]
    #[kani::unwind(3)]
    fn rg_queue_close() {
        unsafe {
            let w = core::mem::ManuallyDrop::new(WaitQueue::<QW>::new());
            let mut nodes = core::mem::ManuallyDrop::new(fresh());
            attach(&w, &mut nodes);
            q::CHECK = check_close;
            w.close();
            assert!(!mutex::LOCKED, "Q01 the lock is released");
            assert!(q::CLOSES >= 1 && *q::STATE == q::C, "Q50 closing closes the queue");
            assert!(q::EMPTY_AT_LOCK && q::STATE_AT_LOCK == q::C, "Q51 closing ends only when no waiter is left in the closed queue");
            assert!(g::TOTAL_WAKES == ROUNDS && g::WAKES[1] == TAKEN[1] && g::WAKES[2] == TAKEN[2] && g::WAKES[3] == TAKEN[3] && q::STORED == 0 && q::CONSUMED == 0, "Q52 closing wakes every waiter it takes off, once");
            kani::cover!(ROUNDS == 0, "nobody waiting");
            kani::cover!(ROUNDS == 2, "several waiting");
        }
    }
    static mut TAKEN: [u8; q::NODES] = [0; q::NODES];
    static mut ROUNDS: usize = 0;
    unsafe fn check_close() {
        assert!(q::STATE_AT_LOCK == q::C, "Q53 waiters are woken for closing only once the queue is closed");
        EFFECT = 0;
        check();
        if EFFECT == TOOK_OLDEST {
            assert!(q::PUBLISHED_VAL == q::C, "Q54 waiters are told the queue closed");
            ROUNDS += 1;
            TAKEN[OLDEST] += 1;
        } else {
            assert!(EFFECT == UNCHANGED && q::EMPTY_AT_LOCK, "Q55 closing takes off one waiter after the other");
        }
    }
}
