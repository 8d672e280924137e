//! Stand-in for `tokio`'s current-thread runtime: polls the future until it resolves.
pub mod runtime {
    pub mod current_thread {
        #[derive(Debug)]
        pub struct Runtime;
        impl Runtime {
            pub fn new() -> std::io::Result<Runtime> { Ok(Runtime) }
            pub fn block_on<F: futures::Future>(&mut self, mut f: F) -> Result<F::Item, F::Error> {
                loop {
                    match f.poll() {
                        Ok(futures::Async::Ready(x)) => { std::mem::forget(f); return Ok(x); }
                        Ok(futures::Async::NotReady) => {}
                        Err(e) => { std::mem::forget(f); return Err(e); }
                    }
                }
            }
        }
    }
}
