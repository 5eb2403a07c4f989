//! multibase decoding by contract: an arbitrary function of the text; the last call is recorded
use crate::vecs::Vec;
#[derive(Debug, Clone, Copy, PartialEq)] pub enum Base { Base32Lower, Other }
#[derive(Debug)] pub struct Error;
pub static mut ORACLE: Option<fn(&str) -> Option<Vec<u8>>> = None;
static mut LAST: Option<(Vec<u8>, Option<Vec<u8>>)> = None;
pub fn last() -> Option<(Vec<u8>, Option<Vec<u8>>)> { unsafe { match &LAST { Some((t, r)) => Some((t.clone(), r.clone())), None => None } } }
pub fn reset() { unsafe { LAST = None } }
/// decoded bytes drawn at most
pub const MAX: usize = 4;
pub fn decode<T: AsRef<str>>(t: T) -> Result<(Base, Vec<u8>), Error> {
    let s = t.as_ref();
    let r = unsafe { match ORACLE { Some(f) => f(s), None => if crate::nd::any::<bool>() { Some(crate::nd::nd_vec_max::<u8>(MAX)) } else { None } } };
    unsafe { LAST = Some((Vec::from(s.as_bytes()), r.clone())) }
    match r { Some(v) => Ok((Base::Base32Lower, v)), None => Err(Error) }
}
/// encoding by contract: injective
#[cfg(any(kani, mf_av))]
pub fn encode<T: AsRef<[u8]>>(_b: Base, t: T) -> crate::alloc::string::String { let mut v = Vec::new(); v.push(b'b'); v.extend_from_slice(t.as_ref()); crate::alloc::string::String::raw(v) }
#[cfg(not(any(kani, mf_av)))]
pub fn encode<T: AsRef<[u8]>>(_b: Base, t: T) -> String { let mut s = String::from("b"); for b in t.as_ref() { s.push((b'a' + (b >> 4)) as char); s.push((b'a' + (b & 15)) as char); } s }
