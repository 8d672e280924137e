//! Stand-in for `tokio-threadpool`: whether a blocking slot is granted is scripted.
#[derive(Debug)]
pub struct BlockingError;
impl std::fmt::Display for BlockingError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("blocking error") } }
impl std::error::Error for BlockingError {}
/// Slots: 0 granted at once; n not available for the next n calls; u8::MAX: cannot block at all.
pub static mut SLOT: u8 = 0;
pub static mut GRANTED: u32 = 0;
pub fn blocking<F, T>(f: F) -> futures::Poll<T, BlockingError> where F: FnOnce() -> T {
    unsafe {
        match SLOT {
            0 => { GRANTED += 1; Ok(futures::Async::Ready(f())) }
            u8::MAX => Err(BlockingError),
            _ => { SLOT -= 1; Ok(futures::Async::NotReady) }
        }
    }
}
