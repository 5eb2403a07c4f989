//! Mini-FRAME: the substrate surface the Frequency pallets compile against, with symbolic storage.
#![allow(dead_code, unused, static_mut_refs, clippy::all)]
extern crate self as mf;
pub use mf_macros::{pallet, Decode, Encode, MaxEncodedLen, TypeInfo};
pub mod nd;
pub mod codec;
pub mod av;
pub mod alloc;
pub mod vecs;
pub mod arith;
pub mod storage;
pub mod bounded;
pub mod sp_runtime;
pub mod sp_core;
pub mod sp_std;
pub mod sp_io;
pub mod frame_support;
pub mod frame_system;
pub mod scale_info;
pub mod enumflags2;
pub mod numtoa;
pub mod log;
pub mod serde;
pub mod serde_json;
pub mod balances;
pub mod pallet_transaction_payment;
pub mod misc;

#[cfg(kani)]
#[inline(always)]
pub fn abs() -> bool { true }
#[cfg(not(kani))]
pub static mut REPLAY: bool = false;
/// whether hash / rounding primitives are replaced by their contracts (always under Kani; natively
/// when a Kani counterexample is being replayed)
#[cfg(not(kani))]
pub fn abs() -> bool { unsafe { REPLAY } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Never {}
impl codec::Encode for Never { fn encode_to(&self, _: &mut crate::vecs::Vec<u8>) { match *self {} } }
impl codec::Decode for Never { fn decode<I: codec::Input>(_: &mut I) -> Result<Self, codec::Error> { Err("never".into()) } }
impl nd::Nd for Never { fn nd() -> Self { unreachable!() } fn dup(&self) -> Self { *self } }

/// argument that can stand for a storage key of type K (EncodeLike in FRAME)
pub trait KeyArg<K> { fn key(self) -> K; }
impl<K> KeyArg<K> for K { fn key(self) -> K { self } }
impl<K: Clone> KeyArg<K> for &K { fn key(self) -> K { self.clone() } }
impl<K: Clone> KeyArg<K> for &&K { fn key(self) -> K { (*self).clone() } }
impl<K: Clone> KeyArg<K> for &mut K { fn key(self) -> K { self.clone() } }
pub mod sp_api { #[macro_export] macro_rules! decl_runtime_apis { ($($t:tt)*) => {} } pub use crate::decl_runtime_apis; pub struct ApiError; }
pub mod impl_serde { pub mod serialize { pub fn serialize() {} } }
pub mod smallvec { #[macro_export] macro_rules! mf_smallvec { ($($t:tt)*) => { vec![$($t)*] } } pub use crate::mf_smallvec as smallvec; pub type SmallVec<A> = crate::vecs::Vec<A>; }
pub mod sp_weights { pub use crate::frame_support::weights::*; }
pub mod cid;
pub mod multibase;
pub mod hex { pub fn encode<T: AsRef<[u8]>>(t: T) -> String { let mut s = String::new(); for b in t.as_ref() { s.push_str(&format!("{:02x}", b)); } s } #[derive(Debug)] pub struct FromHexError; pub fn decode<T: AsRef<[u8]>>(_t: T) -> Result<crate::vecs::Vec<u8>, FromHexError> { if crate::nd::any::<bool>() { Ok(crate::nd::nd_vec_max::<u8>(32)) } else { Err(FromHexError) } } }
pub mod twox_hash;
pub mod pallet_balances { pub use crate::balances::*; }
pub mod num;
pub mod rt;
pub mod text;
