//! CID parsing by contract: an arbitrary function of the bytes; the last call is recorded
use crate::vecs::Vec;
pub struct Cid; #[derive(Debug)] pub struct Error;
pub static mut ORACLE: Option<fn(&[u8]) -> bool> = None;
static mut LAST: Option<(Vec<u8>, bool)> = None;
pub fn last() -> Option<(Vec<u8>, bool)> { unsafe { match &LAST { Some((v, b)) => Some((v.clone(), *b)), None => None } } }
pub fn reset() { unsafe { LAST = None } }
impl Cid { pub fn read_bytes(b: &[u8]) -> Result<Cid, Error> { let ok = unsafe { match ORACLE { Some(f) => f(b), None => crate::nd::any::<bool>() } }; unsafe { LAST = Some((Vec::from(b), ok)) } if ok { Ok(Cid) } else { Err(Error) } } }
impl TryFrom<&[u8]> for Cid { type Error = Error; fn try_from(b: &[u8]) -> Result<Cid, Error> { Cid::read_bytes(b) } }
