//! Work split over threads: every index is handled exactly once, results are merged in no particular order.
use crate::explore::nthreads;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;

/// Returns the accumulators and whether every index was handled before the deadline.
pub fn each<A: Default + Send>(n: u64, chunk: u64, deadline: Instant, f: impl Fn(u64, &mut A) + Sync) -> (Vec<A>, bool) {
    let next = AtomicU64::new(0);
    let cut = AtomicBool::new(false);
    let accs = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nthreads())
            .map(|_| {
                sc.spawn(|| {
                    let mut a = A::default();
                    loop {
                        let i = next.fetch_add(chunk, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        if Instant::now() > deadline {
                            cut.store(true, Ordering::Relaxed);
                            break;
                        }
                        for k in i..(i + chunk).min(n) {
                            f(k, &mut a);
                        }
                    }
                    a
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    (accs, !cut.load(Ordering::Relaxed))
}
