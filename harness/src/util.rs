//! Helpers shared by the scenarios.
use std::cell::UnsafeCell;
use std::sync::Arc;

/// Host-side state of a scenario (histories, models). Touched only by the thread that holds the
/// baton, outside of the simulated machine: it survives crashes and is never a scheduling point.
pub struct Host<T>(Arc<UnsafeCell<T>>);
unsafe impl<T> Send for Host<T> {}
unsafe impl<T> Sync for Host<T> {}
impl<T> Clone for Host<T> {
    fn clone(&self) -> Self {
        Host(self.0.clone())
    }
}
impl<T> Host<T> {
    pub fn new(t: T) -> Self {
        Host(Arc::new(UnsafeCell::new(t)))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let _g = sim::OsGuard::new();
        f(unsafe { &mut *self.0.get() })
    }
}

/// A single-threaded runtime, as the simulated node's main function would build.
pub fn rt1() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
/// A multi-threaded runtime.
pub fn rtn(n: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_all().build().unwrap()
}
/// Pick a scheduling intensity for the run.
pub fn swarm_sched() {
    let p = [0.05, 0.2, 0.5, 0.01][sim::pick(4) as usize];
    sim::cfg().p_switch = p;
    if sim::chance(0.3) {
        sim::cfg().p_stall = 0.005;
        sim::cfg().max_stall_ns = [1_000_000, 50_000_000][sim::pick(2) as usize];
    }
}
