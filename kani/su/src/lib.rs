//! Stand-in: records exactly which bytes were handed to the decoder; the outcome is scripted.
use serde::de::{self, Visitor};
pub static mut SEEN: [u8; 8] = [0; 8];
pub static mut LEN: usize = 0;
/// don't copy the bytes, only record where they are
pub static mut OPAQUE: bool = false;
pub static mut CALLS: u32 = 0;
pub static mut PTR: usize = 0;
pub static mut FAIL: Option<u32> = None;
pub static mut VALUE: u32 = 0;
#[derive(Debug)]
pub struct Error(pub u32);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("decode error") } }
impl std::error::Error for Error {}
impl de::Error for Error { fn custom<T: std::fmt::Display>(_: T) -> Self { Error(u32::MAX) } }
pub struct De;
impl<'de> de::Deserializer<'de> for De {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        unsafe { match FAIL { Some(i) => Err(Error(i)), None => v.visit_u32(VALUE) } }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn record(b: &[u8]) {
    unsafe {
        CALLS += 1;
        PTR = b.as_ptr() as usize;
        LEN = b.len();
        if OPAQUE { return; }
        let mut i = 0;
        while i < b.len() && i < 8 { SEEN[i] = b[i]; i += 1; }
    }
}
pub fn from_slice<'a, T: de::Deserialize<'a>>(b: &'a [u8]) -> Result<T, Error> { record(b); T::deserialize(De) }
pub fn from_bytes<'a, T: de::Deserialize<'a>>(b: &'a [u8]) -> Result<T, Error> { record(b); T::deserialize(De) }
pub fn from_str<'a, T: de::Deserialize<'a>>(b: &'a str) -> Result<T, Error> { record(b.as_bytes()); T::deserialize(De) }
pub mod de_mod {}
