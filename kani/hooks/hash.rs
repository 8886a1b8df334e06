// The capacity policy for HashMap and HashSet, against the documented
// contracts of the two collections (stubs over a ghost length and capacity).
use crate::recycling::{Recycle, WithCapacity};
use core::hash::{BuildHasher, Hash, Hasher};
use std::alloc::Allocator;
use std::collections::{HashMap, HashSet};

#[derive(Default)]
struct Hash0;
struct Hasher0;
impl Hasher for Hasher0 {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for Hash0 {
    type Hasher = Hasher0;
    fn build_hasher(&self) -> Hasher0 { Hasher0 }
}

/// Ghost state of the one collection in play.
static mut LEN: usize = 0;
static mut CAP: usize = 0;

unsafe fn shrink(n: usize) {
    let want = if n > LEN { n } else { LEN };
    if want < CAP { CAP = want; }
}
unsafe fn reserve(n: usize) {
    if CAP - LEN < n {
        let c: usize = kani::any();
        kani::assume(c >= LEN + n);
        CAP = c;
    }
}
unsafe fn create(n: usize) {
    LEN = 0;
    CAP = kani::any();
    kani::assume(CAP >= n);
}

struct M<K, V, S, A>(K, V, S, A);
impl<K, V, S, A: Allocator> M<K, V, S, A> {
    fn clear(_: &mut HashMap<K, V, S, A>) { unsafe { LEN = 0 } }
    fn capacity(_: &HashMap<K, V, S, A>) -> usize { unsafe { CAP } }
    fn len(_: &HashMap<K, V, S, A>) -> usize { unsafe { LEN } }
    fn is_empty(_: &HashMap<K, V, S, A>) -> bool { unsafe { LEN == 0 } }
}
impl<K: Eq + Hash, V, S: BuildHasher, A: Allocator> M<K, V, S, A> {
    fn shrink_to(_: &mut HashMap<K, V, S, A>, n: usize) { unsafe { shrink(n) } }
    fn shrink_to_fit(_: &mut HashMap<K, V, S, A>) { unsafe { shrink(0) } }
    fn reserve(_: &mut HashMap<K, V, S, A>, n: usize) { unsafe { reserve(n) } }
}
struct M3<K, V, S>(K, V, S);
impl<K, V, S> M3<K, V, S> {
    fn with_capacity_and_hasher(n: usize, s: S) -> HashMap<K, V, S> { unsafe { create(n) } HashMap::with_hasher(s) }
}
struct U<T, S, A>(T, S, A);
impl<T, S, A: Allocator> U<T, S, A> {
    fn clear(_: &mut HashSet<T, S, A>) { unsafe { LEN = 0 } }
    fn capacity(_: &HashSet<T, S, A>) -> usize { unsafe { CAP } }
    fn len(_: &HashSet<T, S, A>) -> usize { unsafe { LEN } }
    fn is_empty(_: &HashSet<T, S, A>) -> bool { unsafe { LEN == 0 } }
}
impl<T: Eq + Hash, S: BuildHasher, A: Allocator> U<T, S, A> {
    fn shrink_to(_: &mut HashSet<T, S, A>, n: usize) { unsafe { shrink(n) } }
    fn shrink_to_fit(_: &mut HashSet<T, S, A>) { unsafe { shrink(0) } }
    fn reserve(_: &mut HashSet<T, S, A>, n: usize) { unsafe { reserve(n) } }
}
struct U2<T, S>(T, S);
impl<T, S> U2<T, S> {
    fn with_capacity_and_hasher(n: usize, s: S) -> HashSet<T, S> { unsafe { create(n) } HashSet::with_hasher(s) }
}

macro_rules! spec {
    ($t:ty) => { unsafe {
        let (min, max): (usize, usize) = (kani::any(), kani::any());
        let p = WithCapacity::new().with_min_capacity(min).with_max_capacity(max);
        kani::assume(min < usize::MAX / 2);
        let mut e: $t = p.new_element();
        assert!(LEN == 0 && CAP >= min, "Y22 a new collection is empty and has the minimum capacity");
        LEN = kani::any();
        CAP = kani::any();
        kani::assume(LEN <= CAP);
        let before = CAP;
        p.recycle(&mut e);
        assert!(LEN == 0, "Y23 a recycled collection is empty");
        assert!(if before <= max { CAP == before } else { CAP < before && CAP >= max }, "Y24 recycling shrinks exactly the collections above the maximum");
        kani::cover!(before > max, "shrunk");
        kani::cover!(before <= max && before > 0, "kept");
        core::mem::forget(e);
    } };
}
#[kani::proof]
#[kani::stub(std::collections::HashMap::clear, M::clear)]
#[kani::stub(std::collections::HashMap::capacity, M::capacity)]
#[kani::stub(std::collections::HashMap::len, M::len)]
#[kani::stub(std::collections::HashMap::is_empty, M::is_empty)]
#[kani::stub(std::collections::HashMap::shrink_to, M::shrink_to)]
#[kani::stub(std::collections::HashMap::shrink_to_fit, M::shrink_to_fit)]
#[kani::stub(std::collections::HashMap::reserve, M::reserve)]
#[kani::stub(std::collections::HashMap::with_capacity_and_hasher, M3::with_capacity_and_hasher)]
fn con_capacity_map() { spec!(HashMap<u8, u8, Hash0>) }

#[kani::proof]
#[kani::stub(std::collections::HashSet::clear, U::clear)]
#[kani::stub(std::collections::HashSet::capacity, U::capacity)]
#[kani::stub(std::collections::HashSet::len, U::len)]
#[kani::stub(std::collections::HashSet::is_empty, U::is_empty)]
#[kani::stub(std::collections::HashSet::shrink_to, U::shrink_to)]
#[kani::stub(std::collections::HashSet::shrink_to_fit, U::shrink_to_fit)]
#[kani::stub(std::collections::HashSet::reserve, U::reserve)]
#[kani::stub(std::collections::HashSet::with_capacity_and_hasher, U2::with_capacity_and_hasher)]
fn con_capacity_set() { spec!(HashSet<u8, Hash0>) }
