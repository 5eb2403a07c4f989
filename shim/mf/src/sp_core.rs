use crate::codec::*;
use crate::nd::Nd;
pub use crate::frame_support::traits::{ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get};
pub use mf_macros::RuntimeDebug;
#[derive(Clone, Copy, Eq, Debug, Default, PartialOrd, Ord)]
pub struct H256(pub [u8; 32]);
fn words(a: &[u8; 32]) -> [u64; 4] { unsafe { core::mem::transmute_copy(a) } }
/// loop-free comparison
fn same32(a: &[u8; 32], b: &[u8; 32]) -> bool { let (a, b) = (words(a), words(b)); a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] }
impl PartialEq for H256 { fn eq(&self, o: &Self) -> bool { same32(&self.0, &o.0) } }
impl core::hash::Hash for H256 { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
#[cfg(not(mf_tok))] impl Encode for H256 { fn encode_to(&self, o: &mut crate::vecs::Vec<u8>) { o.extend_from_slice(&self.0) } }
    #[cfg(mf_tok)] impl Encode for H256 { fn encode_to(&self, _o: &mut crate::vecs::Vec<u8>) { crate::codec::tok::word(u64::from_le_bytes([self.0[0], self.0[1], self.0[2], self.0[3], self.0[4], self.0[5], self.0[6], self.0[7]]), 32) } }
impl EncodeLike for H256 {}
impl Decode for H256 { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let mut b = [0; 32]; i.read(&mut b)?; Ok(H256(b)) } }
impl MaxEncodedLen for H256 { fn max_encoded_len() -> usize { 32 } }
impl Nd for H256 { fn dup(&self) -> Self { *self } fn nd() -> Self { let mut a = [0u8; 32]; let x: u64 = Nd::nd(); a[..8].copy_from_slice(&x.to_le_bytes()); H256(a) } }
impl crate::scale_info::TypeInfo for H256 { type Identity = Self; fn type_info() -> crate::scale_info::Type { crate::scale_info::Type::opaque() } }
impl AsRef<[u8]> for H256 { fn as_ref(&self) -> &[u8] { &self.0 } }
pub mod crypto {
    use super::*;
    /// 32-byte account; symbolic values only use the first 8 bytes (ids are opaque to the pallets)
    #[derive(Clone, Eq, Debug, PartialOrd, Ord)]
    pub struct AccountId32(pub [u8; 32]);
    impl PartialEq for AccountId32 { fn eq(&self, o: &Self) -> bool { same32(&self.0, &o.0) } }
    impl core::hash::Hash for AccountId32 { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
    impl AccountId32 { pub const fn new(b: [u8; 32]) -> Self { AccountId32(b) } }
    impl AccountId32 { pub fn from_id(x: u64) -> Self { let mut a = [0u8; 32]; a[..8].copy_from_slice(&x.to_le_bytes()); AccountId32(a) } pub fn id(&self) -> u64 { u64::from_le_bytes([self.0[0], self.0[1], self.0[2], self.0[3], self.0[4], self.0[5], self.0[6], self.0[7]]) } }
    #[cfg(not(mf_tok))] impl Encode for AccountId32 { fn encode_to(&self, o: &mut crate::vecs::Vec<u8>) { o.extend_from_slice(&self.0) } }
    #[cfg(mf_tok)] impl Encode for AccountId32 { fn encode_to(&self, _o: &mut crate::vecs::Vec<u8>) { crate::codec::tok::word(self.id(), 32) } }
    impl EncodeLike for AccountId32 {}
    impl Decode for AccountId32 { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let mut b = [0; 32]; i.read(&mut b)?; Ok(AccountId32(b)) } }
    impl MaxEncodedLen for AccountId32 { fn max_encoded_len() -> usize { 32 } }
    impl Nd for AccountId32 { fn dup(&self) -> Self { AccountId32(self.0) } fn nd() -> Self { Self::from_id(Nd::nd()) } }
    impl crate::scale_info::TypeInfo for AccountId32 { type Identity = Self; fn type_info() -> crate::scale_info::Type { crate::scale_info::Type::opaque() } }
    impl AsRef<[u8]> for AccountId32 { fn as_ref(&self) -> &[u8] { &self.0 } }
    impl AsRef<[u8; 32]> for AccountId32 { fn as_ref(&self) -> &[u8; 32] { &self.0 } }
    impl From<[u8; 32]> for AccountId32 { fn from(b: [u8; 32]) -> Self { AccountId32(b) } }
    impl From<AccountId32> for [u8; 32] { fn from(a: AccountId32) -> [u8; 32] { a.0 } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct KeyTypeId(pub [u8; 4]);
}
pub mod bounded { pub use crate::bounded::BoundedVec; pub use crate::bounded::BoundedBTreeMap; }
pub use crate::bounded::BoundedVec;
pub mod serde { pub use crate::serde::*; }
macro_rules! sig { ($m:ident) => { pub mod $m {
    use super::*;
    /// opaque signature token (the pallets never look inside)
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, crate::Encode, crate::Decode, crate::MaxEncodedLen, crate::TypeInfo)]
    pub struct Signature(pub u64);
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, crate::Encode, crate::Decode, crate::MaxEncodedLen, crate::TypeInfo)]
    pub struct Public(pub [u8; 32]);
} } }
sig!(sr25519); sig!(ed25519); sig!(ecdsa);
pub mod hexdisplay { pub struct HexDisplay; }
pub mod offchain { pub type Timestamp = u64; #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Duration(pub u64); impl Duration { pub const fn from_millis(m: u64) -> Self { Duration(m) } } }
pub use crate::parameter_types;
