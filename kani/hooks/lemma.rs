// The rely/guarantee proofs of this framework are put together by the following
// lemmas: the invariant of each protocol holds initially, and a step of one
// thread that keeps its guarantee (`oblige!` in the ghost modules, proved for
// the code by the rg_ harnesses) keeps the invariant and is a step that every
// other thread relies on (assumed in the rg_ harnesses); any number of such
// steps in a row is again one.
use super::*;
use g::{cell as gc, queue as gq, spin as gs, split as gp, count as cnt, mutex};

mod ring_lemma {
    use super::*;
    #[derive(Clone, Copy)]
    struct Hold { kind: u8, pos: usize }
    /// Positions of the code's own making.
    unsafe fn start() {
        let cap: usize = kani::any();
        kani::assume(cap >= 1 && cap <= 1 << 40);
        let core = core::mem::ManuallyDrop::new(Core::new(cap));
        static mut WORDS: [usize; 2] = [0; 2];
        let w = WORDS.as_mut_ptr();
        ring::start(w, w.add(1), w as *const u8, cap, core.gen, core.closed);
    }
    fn any_hold() -> Hold {
        let h = Hold { kind: kani::any(), pos: kani::any() };
        kani::assume(h.kind <= ring::READER);
        h
    }
    /// What a thread knows about the position it holds.
    unsafe fn hold_inv(h: Hold) -> bool {
        match h.kind {
            ring::NONE => true,
            ring::WRITER => ring::valid(h.pos) && ring::H <= h.pos && h.pos < ring::T,
            _ => ring::valid(h.pos) && h.pos < ring::H && ring::T <= h.pos.wrapping_add(ring::GEN),
        }
    }
    unsafe fn holds(h: Hold, i: usize) -> bool { h.kind != ring::NONE && ring::idx(h.pos) == i }
    unsafe fn held_state(h: Hold) -> usize { if h.kind == ring::WRITER { h.pos } else { h.pos.wrapping_add(1) } }
    /// The invariant of slot `i` in state `v`, with two of the threads named.
    unsafe fn slot_inv(i: usize, v: usize, a: Hold, b: Hold) -> bool {
        if holds(a, i) { v == held_state(a) && !holds(b, i) }
        else if holds(b, i) { v == held_state(b) }
        else { ring::slot_possible(i, v, true) }
    }
    unsafe fn be(h: Hold) { ring::HOLD = h.kind; ring::HOLD_POS = h.pos; }
    unsafe fn me() -> Hold { Hold { kind: ring::HOLD, pos: ring::HOLD_POS } }
    unsafe fn distinct(a: Hold, b: Hold) -> bool {
        a.kind == ring::NONE || b.kind == ring::NONE || ring::idx(a.pos) != ring::idx(b.pos)
    }

    /// A new buffer satisfies the invariant.
    #[kani::proof]
    fn lem_ring_initial() {
        unsafe {
            start();
            ring::H = 0; ring::T = 0; ring::CLOSED = false;
            assert!(ring::invariant(), "L10 an empty buffer satisfies the invariant");
            let i: usize = kani::any();
            kani::assume(i < ring::CAP);
            assert!(ring::slot_possible(i, i, false), "L10 an unused slot satisfies the invariant");
        }
    }

    /// One step of thread B, seen by thread A.
    #[kani::proof]
    fn lem_ring_step() {
        unsafe {
            start();
            let (a, b) = (any_hold(), any_hold());
            kani::assume(hold_inv(a) && hold_inv(b) && distinct(a, b));
            // any slot
            let i: usize = kani::any();
            let v: usize = kani::any();
            kani::assume(i < ring::CAP && slot_inv(i, v, a, b));
            let (h0, t0, c0) = (ring::H, ring::T, ring::CLOSED);
            let mut v1 = v;
            // B's step, which keeps B's guarantee
            g::LEMMA = true;
            be(b);
            let op: u8 = kani::any();
            match op {
                0 => {
                    let at = ring::idx(ring::T);
                    // G10: the slot's state, whoever holds it, is the position
                    if at == i { kani::assume(v == ring::T); }
                    if holds(a, at) { kani::assume(held_state(a) == ring::T); }
                    ring::know(at, ring::T);
                    ring::wrote_tail(ring::tail_word(), ring::next(ring::T));
                    // assumption: positions do not wrap
                    kani::assume(ring::T <= ring::LIMIT);
                    kani::cover!(true, "claimed for writing");
                }
                1 => {
                    let at = ring::idx(ring::H);
                    if at == i { kani::assume(v == ring::H.wrapping_add(1)); }
                    if holds(a, at) { kani::assume(held_state(a) == ring::H.wrapping_add(1)); }
                    ring::know(at, ring::H.wrapping_add(1));
                    ring::wrote_head(ring::H, ring::next(ring::H));
                    kani::cover!(true, "claimed for reading");
                }
                2 => {
                    let at: usize = kani::any();
                    let (old, new): (usize, usize) = (kani::any(), kani::any());
                    kani::assume(at < ring::CAP && old != new && b.kind != ring::NONE);
                    ring::wrote_slot(at, old, new, core::sync::atomic::Ordering::Release);
                    if at == i { v1 = new; }
                    kani::cover!(at == i && b.kind == ring::WRITER, "finished writing");
                    kani::cover!(at == i && b.kind == ring::READER, "finished reading");
                }
                3 => {
                    ring::wrote_tail(ring::tail_word(), ring::tail_word() | ring::CLOSED_BIT);
                    kani::cover!(!c0, "closed");
                }
                _ => {}
            }
            g::LEMMA = false;
            let b1 = me();
            // the invariant is kept
            assert!(ring::invariant(), "L11 a step of any thread keeps the invariant");
            assert!(hold_inv(a) && hold_inv(b1) && distinct(a, b1), "L12 a slot is held by one thread at a time");
            assert!(slot_inv(i, v1, a, b1), "L13 a step of any thread keeps every slot in a state the protocol allows");
            assert!(v1 >= v, "L14 the state of a slot never decreases");
            if holds(a, i) { assert!(v1 == v, "L15 a held slot is left alone"); }
            // and A relied on nothing else
            let (h1, t1, c1) = (ring::H, ring::T, ring::CLOSED);
            ring::H = h0; ring::T = t0; ring::CLOSED = c0;
            be(a);
            assert!(ring::rely(h1, t1, c1), "L16 a step of any thread is one the others rely on");
        }
    }

    /// Several steps of others in a row.
    #[kani::proof]
    fn lem_ring_steps() {
        unsafe {
            start();
            let a = any_hold();
            kani::assume(hold_inv(a));
            be(a);
            let (h0, t0, c0) = (ring::H, ring::T, ring::CLOSED);
            let (h1, t1, c1): (usize, usize, bool) = kani::any();
            kani::assume(ring::rely(h1, t1, c1));
            ring::H = h1; ring::T = t1; ring::CLOSED = c1;
            assert!(ring::invariant() && hold_inv(a), "L17 what a thread knows stays true while others run");
            let (h2, t2, c2): (usize, usize, bool) = kani::any();
            kani::assume(ring::rely(h2, t2, c2));
            ring::H = h0; ring::T = t0; ring::CLOSED = c0;
            assert!(ring::rely(h2, t2, c2), "L18 two steps of others are again one");
            kani::cover!(h2 > h1 && h1 > h0 && t2 > t1, "moved twice");
        }
    }
}

/// The wait cell: one receiver, any number of notifiers.
mod cell_lemma {
    use super::*;
    const FREE: u8 = 0;
    const A: u8 = 1;
    const B: u8 = 2;
    const THIRD: u8 = 3;
    static mut CONTENT: usize = 0;
    unsafe fn content() -> usize { CONTENT }
    unsafe fn bits() {
        let (p, n, c): (u8, u8, u8) = (kani::any(), kani::any(), kani::any());
        kani::assume(p < 8 && n < 8 && c < 8 && p != n && p != c && n != c);
        gc::P = 1 << p; gc::N = 1 << n; gc::C = 1 << c;
        gc::PEEK = content;
    }
    fn any_role() -> u8 { if kani::any() { gc::RX } else { gc::TX } }
    /// What a thread calls the owner.
    fn seen_by(t: u8, owner: u8) -> u8 { if owner == t { gc::ME } else if owner == FREE { gc::NOBODY } else { gc::OTHER } }
    /// The invariant, with two of the threads named; `ra`, `rb` are their roles
    /// and `rt` is that of the owner if it is neither.
    unsafe fn inv(w: usize, owner: u8, ra: u8, rb: u8, rt: u8) -> bool {
        let role = match owner { FREE => 0, A => ra, B => rb, _ => rt };
        w & !(gc::P | gc::N | gc::C) == 0 && owner <= THIRD
            // one receiver
            && !(ra == gc::RX && rb == gc::RX) && (rt == gc::TX || ra == gc::TX && rb == gc::TX)
            && (w & gc::P != 0) == (role == gc::RX)
            && (role != gc::TX || w & gc::N != 0)
            && (w != gc::N || owner != FREE)
            && (w & gc::P == 0 || w & gc::C == 0 || w & gc::N != 0)
    }

    #[kani::proof]
    fn lem_cell_initial() {
        unsafe {
            bits();
            let (ra, rb, rt) = (any_role(), any_role(), any_role());
            kani::assume(!(ra == gc::RX && rb == gc::RX) && (rt == gc::TX || ra == gc::TX && rb == gc::TX));
            assert!(inv(0, FREE, ra, rb, rt), "L20 a new wait cell satisfies the invariant");
        }
    }

    #[kani::proof]
    fn lem_cell_step() {
        unsafe {
            bits();
            let (ra, rb, rt) = (any_role(), any_role(), any_role());
            let (w, owner): (usize, u8) = (kani::any(), kani::any());
            kani::assume(inv(w, owner, ra, rb, rt));
            gc::ROLE = ra;
            assert!(gc::possible(w, seen_by(A, owner)), "L21 every thread's view follows from the invariant");
            // A notifier that owns the cell has either left its content alone or
            // emptied it when it gives the cell up; until then the content counts
            // as what it found.
            let (found, now): (usize, usize) = (kani::any(), kani::any());
            let tx_owns = owner == A && ra == gc::TX || owner == B && rb == gc::TX || owner == THIRD && rt == gc::TX;
            kani::assume(tx_owns || found == now);
            // B's step, which keeps B's guarantee
            g::LEMMA = true;
            gc::ROLE = rb;
            gc::OWNER = seen_by(B, owner);
            CONTENT = now;
            if owner == B { gc::EXPECT = found; }
            let w1: usize;
            if kani::any() {
                w1 = kani::any();
                gc::wrote(w, w1, core::sync::atomic::Ordering::AcqRel, true);
            } else {
                // G34: the content changes only in its owner's hands
                w1 = w;
                kani::assume(owner == B);
                CONTENT = kani::any();
            }
            g::LEMMA = false;
            let mine = gc::OWNER;
            let owner1 = match mine { gc::ME => B, gc::NOBODY => FREE, _ => owner };
            let found1 = if mine == gc::ME && rb == gc::TX { gc::EXPECT } else if mine == gc::OTHER { found } else { CONTENT };
            assert!(mine != gc::OTHER || owner == A || owner == THIRD, "L22 nobody else becomes the owner");
            assert!(inv(w1, owner1, ra, rb, rt), "L23 a step of any thread keeps the invariant");
            assert!(gc::possible(w1, mine), "L21 every thread's view follows from the invariant");
            // and A relied on nothing else
            gc::ROLE = ra;
            let content = if found1 == found { gc::KEEP } else if found1 == 0 { gc::TAKEN } else { gc::FILLED };
            assert!(gc::rely(w, seen_by(A, owner), w1, seen_by(A, owner1), content), "L24 a step of any thread is one the others rely on");
            kani::cover!(owner == FREE && owner1 == B && rb == gc::RX, "receiver takes the cell");
            kani::cover!(owner == FREE && owner1 == B && rb == gc::TX, "notifier takes the cell");
            kani::cover!(owner == B && owner1 == FREE && rb == gc::RX && w1 == 0, "receiver registered");
            kani::cover!(owner == B && owner1 == FREE && rb == gc::TX && content == gc::TAKEN, "notifier took the waiter");
            kani::cover!(owner == A && w1 != w, "notified while A owns the cell");
            kani::cover!(owner == THIRD && w1 != w, "notified while another owns the cell");
        }
    }

    #[kani::proof]
    fn lem_cell_steps() {
        unsafe {
            bits();
            gc::ROLE = any_role();
            let (w, w1, w2): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
            let (o, o1, o2): (u8, u8, u8) = (kani::any(), kani::any(), kani::any());
            let (k1, k2): (u8, u8) = (kani::any(), kani::any());
            kani::assume(k1 <= gc::FILLED && k2 <= gc::FILLED);
            kani::assume(gc::possible(w, o));
            assert!(gc::rely(w, o, w, o, gc::KEEP), "L25 others may do nothing");
            kani::assume(gc::rely(w, o, w1, o1, k1) && gc::rely(w1, o1, w2, o2, k2));
            assert!(gc::possible(w2, o2), "L26 what a thread knows stays true while others run");
            let k = if k2 == gc::KEEP { k1 } else { k2 };
            assert!(gc::rely(w, o, w2, o2, k), "L27 two steps of others are again one");
            kani::cover!(w != w1 && w1 != w2 && o == gc::ME, "changed twice under the owner");
        }
    }
}

/// The wait queue: any number of senders waiting, notifying or closing.
mod queue_lemma {
    use super::*;
    const FREE: u8 = 0;
    const A: u8 = 1;
    const B: u8 = 2;
    const THIRD: u8 = 3;
    unsafe fn states() {
        let (e, w, k, c): (usize, usize, usize, usize) = kani::any();
        kani::assume(e != w && e != k && e != c && w != k && w != c && k != c);
        gq::E = e; gq::W = w; gq::K = k; gq::C = c;
    }
    static mut EMPTY: bool = false;
    unsafe fn list_empty() -> bool { EMPTY }
    unsafe fn valid(s: usize) -> bool { s == gq::E || s == gq::W || s == gq::K || s == gq::C }
    /// The invariant: `holder` has the lock, A's node is in the list, its word.
    unsafe fn inv(s: usize, holder: u8, empty: bool, linked: bool, word: usize) -> bool {
        valid(s) && holder <= THIRD
            && (holder != FREE || gq::consistent(s, empty))
            && (!linked || !empty && word == gq::W)
    }

    #[kani::proof]
    fn lem_queue_initial() {
        unsafe {
            states();
            assert!(inv(gq::E, FREE, true, false, kani::any()), "L30 a new queue satisfies the invariant");
        }
    }

    #[kani::proof]
    fn lem_queue_step() {
        unsafe {
            states();
            let (s, holder, empty, linked, word): (usize, u8, bool, bool, usize) = kani::any();
            kani::assume(inv(s, holder, empty, linked, word));
            static mut STATE: usize = 0;
            STATE = s;
            gq::STATE = core::ptr::addr_of_mut!(STATE);
            gq::LIST_EMPTY = list_empty;
            let (mut s1, mut holder1, mut empty1, mut linked1, mut word1) = (s, holder, empty, linked, word);
            // B's step, which keeps B's guarantee
            g::LEMMA = true;
            mutex::LOCKED = holder == B;
            match kani::any() {
                0u8 => {
                    s1 = kani::any();
                    gq::wrote(s, s1, core::sync::atomic::Ordering::AcqRel, kani::any());
                    kani::cover!(s1 == gq::C && s == gq::W && holder == A, "closed under A's lock");
                    kani::cover!(s1 == gq::K && s == gq::E && holder == A, "remembered under A's lock");
                    kani::cover!(s1 == gq::E && s == gq::W && holder == B, "declared empty");
                }
                1 => {
                    kani::assume(holder == FREE);
                    holder1 = B;
                }
                2 => {
                    // G52: the list changes in the hands of the lock's holder;
                    // G50, G54: a waiter stays in it until told otherwise
                    kani::assume(holder == B);
                    empty1 = kani::any();
                    kani::assume(!linked || !empty1);
                }
                3 => {
                    // A's node, which B has taken off the list (G54), is handed back
                    kani::assume(linked);
                    word1 = kani::any();
                    gq::NODE_IDX = 1;
                    gq::wrote_node(word, word1, core::sync::atomic::Ordering::Release);
                    linked1 = false;
                    empty1 = kani::any();
                    kani::cover!(word1 == gq::K, "A notified");
                    kani::cover!(word1 == gq::C, "A told that the queue closed");
                }
                _ => {
                    kani::assume(holder == B);
                    EMPTY = empty;
                    gq::ON = true; gq::ENV = false;
                    gq::before_unlock();
                    holder1 = FREE;
                    kani::cover!(linked, "unlocked");
                }
            }
            g::LEMMA = false;
            assert!(inv(s1, holder1, empty1, linked1, word1), "L31 a step of any thread keeps the invariant");
            assert!(gq::rely(s, s1, holder == A), "L32 a step of any thread is one the others rely on");
            assert!(holder != A || holder1 == A && empty1 == empty && linked1 == linked, "L33 the list is left alone while another holds the lock");
            assert!(if linked1 { word1 == word } else { !linked || gq::told(word1, s1) }, "L34 a waiter is taken off the list only by being told to go on");
            assert!(linked || word1 == word && !linked1, "L35 a waiter that is not queued is left alone");
            if holder1 == FREE && linked1 { assert!(gq::consistent(s1, false), "L36 while a waiter is queued the queue says so (or is closed)"); }
        }
    }

    #[kani::proof]
    fn lem_queue_steps() {
        unsafe {
            states();
            let (s, s1, s2, v): (usize, usize, usize, usize) = kani::any();
            let locked: bool = kani::any();
            kani::assume(valid(s));
            assert!(gq::rely(s, s, locked), "L37 others may do nothing");
            kani::assume(gq::rely(s, s1, locked) && gq::rely(s1, s2, locked));
            assert!(gq::rely(s, s2, locked), "L38 two steps of others are again one");
            if gq::told(v, s1) { assert!(gq::told(v, s2), "L39 what a waiter was told stays true while others run"); }
            kani::cover!(locked && s != s1 && s1 != s2, "changed twice under the lock");
        }
    }
}

/// The spin lock, the split flag and the sender count.
mod word_lemma {
    use super::*;
    const A: u8 = 1;
    const B: u8 = 2;
    fn seen_by(t: u8, owner: u8) -> u8 { if owner == t { 1 } else if owner == 0 { 0 } else { 2 } }

    #[kani::proof]
    fn lem_spin_step() {
        unsafe {
            // 0 free, 1 A, 2 B, 3 a third thread
            let (w, owner): (usize, u8) = (kani::any(), kani::any());
            assert!(gs::possible(0, 0), "L40 a new lock satisfies the invariant");
            kani::assume(owner <= 3 && gs::possible(w, seen_by(A, owner)));
            g::LEMMA = true;
            gs::OWNER = seen_by(B, owner);
            let w1: usize = kani::any();
            gs::wrote(w, w1, core::sync::atomic::Ordering::AcqRel);
            g::LEMMA = false;
            let owner1 = match gs::OWNER { 0 => 0, 1 => B, _ => owner };
            assert!(gs::possible(w1, gs::OWNER), "L41 a step of any thread keeps the invariant");
            assert!(gs::rely(w, seen_by(A, owner), w1, seen_by(A, owner1)), "L42 a step of any thread is one the others rely on");
            kani::cover!(owner == 0 && owner1 == B, "taken");
            kani::cover!(owner == B && owner1 == 0, "released");
            // several steps
            let (v1, o1, v2, o2): (usize, u8, usize, u8) = kani::any();
            let o = seen_by(A, owner);
            kani::assume(gs::rely(w, o, v1, o1) && gs::rely(v1, o1, v2, o2));
            assert!(gs::rely(w, o, w, o) && gs::rely(w, o, v2, o2), "L43 any number of steps of others are again one");
        }
    }

    #[kani::proof]
    fn lem_split_step() {
        unsafe {
            let (f, n): (usize, usize) = kani::any();
            assert!(gp::possible(0, 0), "L50 an unsplit channel satisfies the invariant");
            kani::assume(gp::possible(f, n));
            g::LEMMA = true;
            gp::WINNERS = n;
            let f1: usize = kani::any();
            gp::wrote(f, f1);
            g::LEMMA = false;
            assert!(gp::rely(f, f1, gp::WINNERS), "L51 a step of any thread is one the others rely on");
            kani::cover!(f != f1, "split");
            let (f2, n2, f3, n3): (usize, usize, usize, usize) = kani::any();
            kani::assume(gp::rely(f, f2, n2) && gp::rely(f2, f3, n3));
            assert!(gp::rely(f, f, n) && gp::rely(f, f3, n3), "L52 any number of steps of others are again one");
        }
    }

    #[kani::proof]
    fn lem_count_step() {
        unsafe {
            let (a, b, third): (usize, usize, usize) = kani::any();
            kani::assume(a <= cnt::MANY && b <= cnt::MANY && third <= cnt::MANY && b + third < cnt::MANY);
            let w = a + b + third;
            g::LEMMA = true;
            cnt::MINE = b;
            let w1: usize = kani::any();
            cnt::wrote(w, w1, core::sync::atomic::Ordering::AcqRel, kani::any());
            g::LEMMA = false;
            assert!(w1 == a + cnt::MINE + third, "L60 the count is the number of living senders");
            assert!(cnt::rely(a, b + third, w1, cnt::MINE + third), "L61 a step of any thread is one the others rely on");
            kani::cover!(w1 > w && b == 0, "cloned another's sender");
            kani::cover!(w1 == 0 && w == 1, "last sender dropped");
            let (w2, o2, w3, o3): (usize, usize, usize, usize) = kani::any();
            kani::assume(cnt::rely(a, b + third, w2, o2) && cnt::rely(a, o2, w3, o3));
            assert!(cnt::rely(a, b + third, w, b + third) && cnt::rely(a, b + third, w3, o3), "L62 any number of steps of others are again one");
        }
    }
}
