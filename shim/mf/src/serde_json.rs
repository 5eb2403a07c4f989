//! serde_json by contract: whether (and as what kind of value) a byte string parses is an arbitrary
//! function of the bytes
use crate::nd::any;
#[derive(Clone, Debug, PartialEq, Default)] pub struct Map;
#[derive(Clone, Debug, PartialEq)] pub enum Value { Null, Object(Map), Array(crate::vecs::Vec<()>), Bool(bool) }
#[derive(Debug, Clone, PartialEq)] pub struct Error;
/// 0 = does not parse, 1 = null, 2 = object, 3 = anything else
pub static mut ORACLE: Option<fn(&[u8]) -> u8> = None;
static mut MEMO: crate::vecs::Lazy<(crate::vecs::Vec<u8>, u8)> = crate::vecs::Lazy::new();
static mut LAST: u8 = 0;
pub fn reset() { unsafe { MEMO.clear() } }
impl Default for Value { fn default() -> Self { unsafe { match LAST { 1 => Value::Null, 2 => Value::Object(Map), _ => Value::Bool(true) } } } }
pub fn kind(b: &[u8]) -> u8 { unsafe { if let Some(f) = ORACLE { return f(b); } let mut i = 0; while i < MEMO.len() { if MEMO[i].0.as_slice() == b { return MEMO[i].1; } i += 1; } let r: u8 = crate::nd::below_u8(4); MEMO.push((crate::vecs::Vec::from(b), r)); r } }
pub fn from_slice<T: Default>(b: &[u8]) -> Result<T, Error> { let k = kind(b); unsafe { LAST = k; } if k != 0 { Ok(T::default()) } else { Err(Error) } }
pub fn from_str<T: Default>(b: &str) -> Result<T, Error> { from_slice(b.as_bytes()) }
