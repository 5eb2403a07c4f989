use crate::codec::*;
use crate::nd::{self, Nd};
pub use crate::arith::{Perbill, Saturating, SaturatedConversion, FixedPointOperand};
pub use crate::bounded::{BoundedBTreeMap, BoundedVec, TryCollect};
pub use crate::sp_core::crypto::AccountId32;
pub use mf_macros::RuntimeDebug;

#[derive(Clone, Copy, PartialEq, Eq, Debug, crate::Encode, crate::Decode, crate::TypeInfo, crate::MaxEncodedLen)]
pub enum ArithmeticError { Underflow, Overflow, DivisionByZero }
#[derive(Clone, Copy, PartialEq, Eq, Debug, crate::Encode, crate::Decode, crate::TypeInfo, crate::MaxEncodedLen)]
pub enum TokenError { FundsUnavailable, OnlyProvider, BelowMinimum, CannotCreate, UnknownAsset, Frozen, Unsupported, CannotCreateHold, NotExpendable, Blocked }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ModuleError { pub index: u8, pub error: [u8; 4], pub message: Option<&'static str> }
impl Encode for ModuleError { fn encode_to(&self, o: &mut crate::vecs::Vec<u8>) { o.push(self.index); o.extend_from_slice(&self.error) } }
impl Decode for ModuleError { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(ModuleError { index: u8::decode(i)?, error: <[u8; 4]>::decode(i)?, message: None }) } }
impl Nd for ModuleError { fn dup(&self) -> Self { *self } fn nd() -> Self { ModuleError { index: Nd::nd(), error: [Nd::nd(), 0, 0, 0], message: None } } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, crate::Encode, crate::Decode)]
pub enum DispatchError { Other(#[codec(skip)] &'static str), CannotLookup, BadOrigin, Module(ModuleError), ConsumerRemaining, NoProviders, TooManyConsumers, Token(TokenError), Arithmetic(ArithmeticError), Exhausted, Corruption, Unavailable, RootNotAllowed }
impl Nd for &'static str { fn dup(&self) -> Self { *self } fn nd() -> Self { "" } }
#[allow(non_snake_case)]
impl From<&'static str> for DispatchError { fn from(s: &'static str) -> Self { DispatchError::Other(s) } }
impl From<ArithmeticError> for DispatchError { fn from(e: ArithmeticError) -> Self { DispatchError::Arithmetic(e) } }
impl From<TokenError> for DispatchError { fn from(e: TokenError) -> Self { DispatchError::Token(e) } }
impl From<traits::BadOrigin> for DispatchError { fn from(_: traits::BadOrigin) -> Self { DispatchError::BadOrigin } }
impl From<traits::LookupError> for DispatchError { fn from(_: traits::LookupError) -> Self { DispatchError::CannotLookup } }
impl From<DispatchError> for &'static str { fn from(e: DispatchError) -> &'static str { match e { DispatchError::Other(s) => s, DispatchError::BadOrigin => "Bad origin", DispatchError::Module(m) => m.message.unwrap_or("Unknown module error"), _ => "Dispatch error" } } }
pub type DispatchResult = Result<(), DispatchError>;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct DispatchErrorWithPostInfo<Info> { pub post_info: Info, pub error: DispatchError }
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
impl<T: Default, E: Into<DispatchError>> From<E> for DispatchErrorWithPostInfo<T> { fn from(e: E) -> Self { DispatchErrorWithPostInfo { post_info: Default::default(), error: e.into() } } }
pub type TryRuntimeError = DispatchError;

#[derive(Clone, Copy, PartialEq, Eq, Debug, crate::Encode, crate::Decode, crate::MaxEncodedLen, crate::TypeInfo, PartialOrd, Ord, Hash)]
pub enum MultiSignature { Ed25519(crate::sp_core::ed25519::Signature), Sr25519(crate::sp_core::sr25519::Signature), Ecdsa(crate::sp_core::ecdsa::Signature) }
impl From<crate::sp_core::sr25519::Signature> for MultiSignature { fn from(s: crate::sp_core::sr25519::Signature) -> Self { MultiSignature::Sr25519(s) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, crate::Encode, crate::Decode)]
pub enum MultiSigner { Ed25519(crate::sp_core::ed25519::Public), Sr25519(crate::sp_core::sr25519::Public), Ecdsa(crate::sp_core::ecdsa::Public) }
impl traits::IdentifyAccount for MultiSigner { type AccountId = AccountId32; fn into_account(self) -> AccountId32 { match self { MultiSigner::Ed25519(p) => AccountId32(p.0), MultiSigner::Sr25519(p) => AccountId32(p.0), MultiSigner::Ecdsa(p) => AccountId32(p.0) } } }
/// one call of a signature check
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VerifyCall { pub sig: MultiSignature, pub msg: crate::vecs::Vec<u8>, pub signer: AccountId32, pub result: u8 }
pub const VERIFY_CAP: usize = 6;
pub static mut VERIFY_LOG: crate::vecs::Lazy<VerifyCall> = crate::vecs::Lazy::new();
/// natively a harness may fix which (sig, msg, signer) triples are valid
pub static mut VERIFY_ORACLE: Option<fn(&MultiSignature, &[u8], &AccountId32) -> bool> = None;
pub fn verify_log() -> &'static crate::vecs::Lazy<VerifyCall> { unsafe { &VERIFY_LOG } }
pub fn verify_reset() { unsafe { VERIFY_LOG.clear() } }
impl traits::Verify for MultiSignature {
    type Signer = MultiSigner;
    /// the outcome of a signature check is an arbitrary function of (signature, message, signer)
    fn verify<L: traits::Lazy<[u8]>>(&self, mut msg: L, signer: &AccountId32) -> bool {
        unsafe {
            let msg = msg.get();
            let mut i = 0;
            while i < VERIFY_LOG.len() { let e = &VERIFY_LOG[i]; if e.sig == *self && e.signer == *signer && e.msg.len() == msg.len() && e.msg.as_slice() == msg { return e.result == 1; } i += 1; }
            #[cfg(kani)] let r = nd::any::<bool>(); #[cfg(not(kani))] let r = match VERIFY_ORACLE { Some(f) => f(self, msg, signer), None => nd::any::<bool>() };
            if VERIFY_LOG.len() >= VERIFY_CAP { if cfg!(kani) { nd::limit("verify log") } else { VERIFY_LOG.clear() } }
            VERIFY_LOG.push(VerifyCall { sig: *self, msg: crate::vecs::Vec::from(msg), signer: signer.clone(), result: r as u8 });
            r
        }
    }
}
#[derive(Clone, PartialEq, Eq, Debug, crate::Encode, crate::Decode, crate::TypeInfo)]
pub enum MultiAddress<A, I> { Id(A), Index(I), Raw(crate::vecs::Vec<u8>), Address32([u8; 32]), Address20([u8; 20]) }
impl<A, I> From<A> for MultiAddress<A, I> { fn from(a: A) -> Self { MultiAddress::Id(a) } }
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct OpaqueExtrinsic(pub crate::vecs::Vec<u8>);
pub mod generic {
    pub struct Block<H, E>(core::marker::PhantomData<(H, E)>);
    pub struct BlockId<B>(core::marker::PhantomData<B>);
    #[derive(Clone, PartialEq, Eq, Debug)] pub struct Header<N, H>(pub N, core::marker::PhantomData<H>);
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct DigestItem;
}
pub mod traits {
    use super::*;
    pub use crate::arith::*;
    pub use crate::frame_support::traits::Get;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)] pub struct BadOrigin;
    impl From<BadOrigin> for &'static str { fn from(_: BadOrigin) -> &'static str { "Bad origin" } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)] pub struct LookupError;
    impl From<LookupError> for &'static str { fn from(_: LookupError) -> &'static str { "LookupError" } }
    pub trait Lazy<T: ?Sized> { fn get(&mut self) -> &T; }
    impl<'a> Lazy<[u8]> for &'a [u8] { fn get(&mut self) -> &[u8] { self } }
    impl<'a> Lazy<[u8]> for &'a crate::vecs::Vec<u8> { fn get(&mut self) -> &[u8] { self } }
    pub trait IdentifyAccount { type AccountId; fn into_account(self) -> Self::AccountId; }
    pub trait Verify { type Signer: IdentifyAccount; fn verify<L: Lazy<[u8]>>(&self, msg: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool; }
    pub trait Convert<A, B> { fn convert(a: A) -> B; }
    impl<A, B: Default> Convert<A, B> for () { fn convert(_: A) -> B { Default::default() } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Identity;
    impl<T> Convert<T, T> for Identity { fn convert(a: T) -> T { a } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct ConvertInto;
    impl<A, B: From<A>> Convert<A, B> for ConvertInto { fn convert(a: A) -> B { a.into() } }
    pub trait StaticLookup { type Source: Clone + PartialEq + core::fmt::Debug + Encode + Decode + Nd; type Target; fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>; fn unlookup(t: Self::Target) -> Self::Source; }
    pub struct IdentityLookup<T>(core::marker::PhantomData<T>);
    impl<T: Clone + PartialEq + core::fmt::Debug + Encode + Decode + Nd> StaticLookup for IdentityLookup<T> { type Source = T; type Target = T; fn lookup(s: T) -> Result<T, LookupError> { Ok(s) } fn unlookup(t: T) -> T { t } }
    pub trait BlockNumberProvider { type BlockNumber; fn current_block_number() -> Self::BlockNumber; #[cfg(any(feature = "std", test))] fn set_block_number(_b: Self::BlockNumber) {} }
    pub trait MaybeDisplay {} impl<T> MaybeDisplay for T {}
    pub trait MaybeSerializeDeserialize {} impl<T> MaybeSerializeDeserialize for T {}
    pub trait MaybeSerialize {} impl<T> MaybeSerialize for T {}
    pub trait MaybeDebug {} impl<T> MaybeDebug for T {}
    pub trait Member: Send + Sync + Sized + core::fmt::Debug + Eq + PartialEq + Clone + 'static {}
    impl<T: Send + Sync + Sized + core::fmt::Debug + Eq + PartialEq + Clone + 'static> Member for T {}
    pub trait Dispatchable { type RuntimeOrigin; type Config; type Info; type PostInfo: Clone + Default + core::fmt::Debug; fn dispatch(self, origin: Self::RuntimeOrigin) -> super::DispatchResultWithInfo<Self::PostInfo>; }
    pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
    pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
    pub trait Printable { fn print(&self) {} }
    pub trait Hash { type Output; fn hash(b: &[u8]) -> Self::Output; fn hash_of<S: Encode>(s: &S) -> Self::Output { s.using_encoded(Self::hash) } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct BlakeTwo256;
    impl Hash for BlakeTwo256 { type Output = crate::sp_core::H256; fn hash(b: &[u8]) -> Self::Output { crate::sp_core::H256(crate::sp_io::hashing::blake2_256(b)) } }
    pub trait Header { type Number; } pub trait Block { type Extrinsic; }
    pub trait AccountIdConversion<A> { fn into_account_truncating(&self) -> A; }
    pub trait TrailingZeroInputTrait {}
    pub struct TrailingZeroInput<'a>(pub &'a [u8]);
    use transaction_validity::*;
    pub trait SignedExtension: Encode + Decode + core::fmt::Debug + Sync + Send + Clone + Eq + PartialEq {
        const IDENTIFIER: &'static str;
        type AccountId; type Call: Dispatchable; type AdditionalSigned; type Pre;
        fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
        fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity { Ok(ValidTransaction::default()) }
        fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError>;
        fn validate_unsigned(_call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity { Ok(ValidTransaction::default()) }
        fn pre_dispatch_unsigned(_call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> Result<(), TransactionValidityError> { Ok(()) }
        fn post_dispatch(_pre: Option<Self::Pre>, _info: &DispatchInfoOf<Self::Call>, _post: &PostDispatchInfoOf<Self::Call>, _len: usize, _r: &super::DispatchResult) -> Result<(), TransactionValidityError> { Ok(()) }
    }
    pub trait ValidateUnsigned { type Call; fn validate_unsigned(source: TransactionSource, call: &Self::Call) -> TransactionValidity; fn pre_dispatch(_call: &Self::Call) -> Result<(), TransactionValidityError> { Ok(()) } }
    pub trait Extrinsic {} pub trait GetRuntimeBlockType {} pub trait SignaturePayload {}
}
pub mod transaction_validity {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum InvalidTransaction { Call, Payment, Future, Stale, BadProof, AncientBirthBlock, ExhaustsResources, Custom(u8), BadMandatory, MandatoryValidation, BadSigner }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum UnknownTransaction { CannotLookup, NoUnsignedValidator, Custom(u8) }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum TransactionValidityError { Invalid(InvalidTransaction), Unknown(UnknownTransaction) }
    impl From<InvalidTransaction> for TransactionValidityError { fn from(e: InvalidTransaction) -> Self { TransactionValidityError::Invalid(e) } }
    impl From<UnknownTransaction> for TransactionValidityError { fn from(e: UnknownTransaction) -> Self { TransactionValidityError::Unknown(e) } }
    impl From<InvalidTransaction> for TransactionValidity { fn from(e: InvalidTransaction) -> Self { Err(TransactionValidityError::Invalid(e)) } }
    impl From<UnknownTransaction> for TransactionValidity { fn from(e: UnknownTransaction) -> Self { Err(TransactionValidityError::Unknown(e)) } }
    impl InvalidTransaction { pub fn exhausted_resources(&self) -> bool { matches!(self, Self::ExhaustsResources) } }
    pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
    pub type TransactionPriority = u64; pub type TransactionLongevity = u64; pub type TransactionTag = crate::vecs::Vec<u8>;
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub struct ValidTransaction { pub priority: u64, pub requires: crate::vecs::Vec<crate::vecs::Vec<u8>>, pub provides: crate::vecs::Vec<crate::vecs::Vec<u8>>, pub longevity: u64, pub propagate: bool }
    impl Default for ValidTransaction { fn default() -> Self { ValidTransaction { priority: 0, requires: crate::vecs::Vec::new(), provides: crate::vecs::Vec::new(), longevity: u64::MAX, propagate: true } } }
    impl From<ValidTransaction> for TransactionValidity { fn from(v: ValidTransaction) -> Self { Ok(v) } }
    impl ValidTransaction {
        pub fn with_tag_prefix(p: &'static str) -> ValidTransactionBuilder { ValidTransactionBuilder { prefix: Some(p), validity: Default::default() } }
        pub fn combine_with(mut self, mut o: ValidTransaction) -> Self { ValidTransaction { priority: self.priority.saturating_add(o.priority), requires: { self.requires.append(&mut o.requires); self.requires }, provides: { self.provides.append(&mut o.provides); self.provides }, longevity: self.longevity.min(o.longevity), propagate: self.propagate && o.propagate } }
    }
    #[derive(Default, Clone)]
    pub struct ValidTransactionBuilder { prefix: Option<&'static str>, validity: ValidTransaction }
    impl ValidTransactionBuilder {
        pub fn priority(mut self, p: u64) -> Self { self.validity.priority = p; self }
        pub fn longevity(mut self, p: u64) -> Self { self.validity.longevity = p; self }
        pub fn propagate(mut self, p: bool) -> Self { self.validity.propagate = p; self }
        pub fn and_provides(mut self, t: impl Encode) -> Self { if cfg!(mf_tok) { return self; } let v = match self.prefix { Some(p) => (p, t).encode(), None => t.encode() }; self.validity.provides.push(v); self }
        pub fn and_requires(mut self, t: impl Encode) -> Self { let v = match self.prefix { Some(p) => (p, t).encode(), None => t.encode() }; self.validity.requires.push(v); self }
        pub fn build(self) -> TransactionValidity { Ok(self.validity) }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum TransactionSource { InBlock, Local, External }
}
pub mod offchain {
    pub use crate::sp_core::offchain::Duration;
    pub mod storage {
        use crate::codec::*;
        #[derive(Debug, PartialEq, Eq, Clone, Copy)] pub enum StorageRetrievalError { Undecodable }
        #[derive(Debug, PartialEq, Eq, Clone, Copy)] pub enum MutateStorageError<T, E> { ConcurrentModification(T), ValueFunctionFailed(E) }
        pub static mut LOCAL: crate::vecs::Dyn<(crate::vecs::Vec<u8>, crate::vecs::Vec<u8>)> = crate::vecs::Dyn::new();
        pub fn raw_get(k: &[u8]) -> Option<crate::vecs::Vec<u8>> { unsafe { LOCAL.iter().find(|e| e.0 == k).map(|e| e.1.clone()) } }
        pub fn raw_set(k: &[u8], v: crate::vecs::Vec<u8>) { unsafe { LOCAL.retain(|e| e.0 != k); LOCAL.push((crate::vecs::Vec::from(k), v)) } }
        pub fn raw_clear(k: &[u8]) { unsafe { LOCAL.retain(|e| e.0 != k) } }
        pub struct StorageValueRef<'a> { key: &'a [u8] }
        impl<'a> StorageValueRef<'a> {
            pub fn persistent(key: &'a [u8]) -> Self { StorageValueRef { key } }
            pub fn local(key: &'a [u8]) -> Self { StorageValueRef { key } }
            pub fn set(&self, v: &impl Encode) { raw_set(self.key, v.encode()) }
            pub fn clear(&mut self) { raw_clear(self.key) }
            pub fn get<T: Decode>(&self) -> Result<Option<T>, StorageRetrievalError> { match raw_get(self.key) { None => Ok(None), Some(v) => T::decode(&mut &v[..]).map(Some).map_err(|_| StorageRetrievalError::Undecodable) } }
            pub fn mutate<T: Encode + Decode, E, F: FnOnce(Result<Option<T>, StorageRetrievalError>) -> Result<T, E>>(&self, f: F) -> Result<T, MutateStorageError<T, E>> { let v = self.get::<T>(); let n = f(v).map_err(MutateStorageError::ValueFunctionFailed)?; self.set(&n); Ok(n) }
        }
    }
    /// the node's HTTP endpoint: arbitrary answers
    pub mod http {
        use crate::nd::any;
        #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum Error { DeadlineReached, IoError, Unknown }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum HttpError { DeadlineReached, IoError, Invalid }
        pub struct Request; pub struct PendingRequest; pub struct Response { pub code: u16 }
        impl Request { pub fn post<T>(_u: &str, _b: crate::vecs::Vec<T>) -> Self { Request } pub fn add_header(self, _a: &str, _b: &str) -> Self { self } pub fn deadline<D>(self, _d: D) -> Self { self } pub fn send(self) -> Result<PendingRequest, HttpError> { if any::<bool>() { Ok(PendingRequest) } else { Err(HttpError::IoError) } } }
        impl PendingRequest { pub fn try_wait<D>(self, _d: D) -> Result<Result<Response, Error>, PendingRequest> { if any::<bool>() { Ok(Ok(Response { code: any() })) } else { Err(self) } } }
        impl Response { pub fn body(&self) -> crate::vecs::IntoIter<u8> { crate::vecs::Vec::new().into_iter() } }
    }
    pub mod storage_lock {
        pub struct Time; pub struct BlockAndTime<B>(core::marker::PhantomData<B>);
        pub struct StorageLock<'a, L>(&'a [u8], core::marker::PhantomData<L>);
        pub struct Guard;
        impl Guard { pub fn forget(self) {} pub fn extend_lock(&mut self) -> Result<(), ()> { Ok(()) } }
        impl<'a, L> StorageLock<'a, L> {
            pub fn new(k: &'a [u8]) -> Self { StorageLock(k, core::marker::PhantomData) }
            pub fn with_deadline(k: &'a [u8], _d: super::Duration) -> Self { StorageLock(k, core::marker::PhantomData) }
            pub fn with_block_deadline(k: &'a [u8], _d: u32) -> Self { StorageLock(k, core::marker::PhantomData) }
            pub fn with_block_and_time_deadline(k: &'a [u8], _b: u32, _d: super::Duration) -> Self { StorageLock(k, core::marker::PhantomData) }
            pub fn try_lock(&mut self) -> Result<Guard, crate::sp_core::offchain::Timestamp> { Ok(Guard) }
            pub fn lock(&mut self) -> Guard { Guard }
        }
    }
}
pub trait RuntimeAppPublic {}
pub fn print_dummy() {}
pub mod app_crypto {}
impl crate::scale_info::TypeInfo for DispatchError { type Identity = Self; fn type_info() -> crate::scale_info::Type { crate::scale_info::Type::opaque() } }
