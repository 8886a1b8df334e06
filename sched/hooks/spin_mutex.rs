// Two threads using the lock of the no_std build.
#[no_mangle]
pub fn verif_spin_model() {
    use loom::sync::Arc;
    struct S(super::Mutex<(usize, usize)>);
    unsafe impl Send for S {}
    unsafe impl Sync for S {}
    let m = Arc::new(S(super::const_mutex((0, 0))));
    let hs: Vec<_> = (0..2).map(|_| {
        let m = m.clone();
        loom::thread::spawn(move || {
            for _ in 0..2 {
                let mut g = m.0.lock();
                assert!(g.0 == g.1, "[C15] two holders of the lock at once");
                g.0 += 1;
                loom::thread::yield_now();
                g.1 += 1;
            }
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
    assert!(*m.0.lock() == (4, 4), "[C15] an update under the lock was lost");
}
