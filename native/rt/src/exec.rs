//! Polling a future by hand on the current thread.
use hyperdrive::futures::executor::{self, Notify, NotifyHandle};
use hyperdrive::futures::{Async, Future};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

pub struct Count(pub AtomicUsize);
impl Notify for Count {
    fn notify(&self, _: usize) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

pub enum Run<T, E> {
    Done(Result<T, E>),
    Panic(String),
    /// Returned NotReady without arranging a wakeup, or never completes
    Stuck,
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}

pub fn drive<F: Future>(f: impl FnOnce() -> F) -> Run<F::Item, F::Error> {
    let count = Arc::new(Count(AtomicUsize::new(0)));
    let handle: NotifyHandle = count.clone().into();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut spawn = executor::spawn(f());
        for _ in 0..100_000 {
            let before = count.0.load(Ordering::SeqCst);
            match spawn.poll_future_notify(&handle, 0) {
                Ok(Async::Ready(v)) => return Run::Done(Ok(v)),
                Err(e) => return Run::Done(Err(e)),
                Ok(Async::NotReady) => {
                    if count.0.load(Ordering::SeqCst) == before {
                        return Run::Stuck;
                    }
                }
            }
        }
        Run::Stuck
    }));
    match r {
        Ok(r) => r,
        Err(p) => Run::Panic(panic_text(&*p)),
    }
}
