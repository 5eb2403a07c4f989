pub use crate::bounded::{BoundedBTreeMap, BoundedVec};
pub use crate::storage;
pub use crate::{sp_io, sp_runtime, sp_std};
pub use mf_macros::{pallet, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound};
pub use crate::{assert_err, assert_noop, assert_ok, ensure, fail, parameter_types, construct_runtime, storage_alias};
pub use hashers::*;
pub use crate::storage::{StorageDoubleMap, StorageMap, StorageNMap, StorageValue};
pub use crate::frame_support::traits::Get;

#[macro_export] macro_rules! ensure { ($x:expr, $y:expr $(,)?) => {{ if !$x { return ::core::result::Result::Err(::core::convert::Into::into($y)); } }} }
#[macro_export] macro_rules! fail { ($y:expr) => {{ return ::core::result::Result::Err(::core::convert::Into::into($y)); }} }
#[macro_export] macro_rules! assert_ok { ($x:expr $(,)?) => { assert!(($x).is_ok()) }; ($x:expr, $y:expr $(,)?) => { assert_eq!($x, Ok($y)) } }
#[macro_export] macro_rules! assert_err { ($x:expr, $y:expr $(,)?) => { assert_eq!($x, Err(::core::convert::Into::into($y))) } }
#[macro_export] macro_rules! assert_noop { ($x:expr, $y:expr $(,)?) => { assert_eq!($x, Err(::core::convert::Into::into($y))) } }
#[macro_export] macro_rules! construct_runtime { ($($t:tt)*) => {} }
#[macro_export] macro_rules! storage_alias { ($($t:tt)*) => {} }
#[macro_export] macro_rules! parameter_types {
    ($($(#[$m:meta])* pub const $n:ident : $t:ty = $e:expr;)*) => { $(pub struct $n; impl $n { pub const fn get() -> $t { $e } } impl<I: From<$t>> $crate::frame_support::traits::Get<I> for $n { fn get() -> I { I::from($e) } })* };
    ($($(#[$m:meta])* pub $n:ident : $t:ty = $e:expr;)*) => { $(pub struct $n; impl $n { pub fn get() -> $t { $e } } impl<I: From<$t>> $crate::frame_support::traits::Get<I> for $n { fn get() -> I { I::from($e) } })* };
}

pub mod hashers {
    use crate::codec::Encode;
    pub trait StorageHasher: 'static { type Output: AsRef<[u8]>; fn hash(x: &[u8]) -> Self::Output; fn max_len<K>() -> usize { 0 } }
    macro_rules! h { ($($n:ident $f:ident $l:tt),*) => { $(#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct $n; impl StorageHasher for $n { type Output = [u8; $l]; fn hash(x: &[u8]) -> [u8; $l] { crate::sp_io::hashing::$f(x) } } impl $n { pub fn hash(x: &[u8]) -> [u8; $l] { crate::sp_io::hashing::$f(x) } })* } }
    use crate::sp_io::hashing::{L128, L64};
    h!(Blake2_128 blake2_128 {L128}, Blake2_256 blake2_256 32, Twox128 twox_128 {L128}, Twox256 twox_256 32, Twox64 twox_64 {L64});
    macro_rules! hc { ($($n:ident $f:ident),*) => { $(#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct $n; impl StorageHasher for $n { type Output = crate::vecs::Vec<u8>; fn hash(x: &[u8]) -> crate::vecs::Vec<u8> { let mut v = crate::vecs::Vec::from(&crate::sp_io::hashing::$f(x)[..]); v.extend_from_slice(x); v } })* } }
    hc!(Blake2_128Concat blake2_128, Twox64Concat twox_64);
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Identity;
    impl StorageHasher for Identity { type Output = crate::vecs::Vec<u8>; fn hash(x: &[u8]) -> crate::vecs::Vec<u8> { crate::vecs::Vec::from(x) } }
    pub trait Hashable: Sized { fn twox_64(&self) -> [u8; crate::sp_io::hashing::L64]; fn blake2_256(&self) -> [u8; 32]; }
    impl<T: Encode> Hashable for T { fn twox_64(&self) -> [u8; crate::sp_io::hashing::L64] { crate::sp_io::hashing::twox_64(&self.encode()) } fn blake2_256(&self) -> [u8; 32] { crate::sp_io::hashing::blake2_256(&self.encode()) } }
}

pub trait Parameter: crate::codec::Encode + crate::codec::Decode + Clone + Eq + PartialEq + core::fmt::Debug + crate::nd::Nd + 'static {}
impl<T: crate::codec::Encode + crate::codec::Decode + Clone + Eq + PartialEq + core::fmt::Debug + crate::nd::Nd + 'static> Parameter for T {}

pub mod weights {
    use crate::codec::*;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default, crate::Encode, crate::Decode, crate::MaxEncodedLen, crate::TypeInfo)]
    pub struct Weight { #[codec(compact)] pub(crate) ref_time: u64, #[codec(compact)] pub(crate) proof_size: u64 }
    impl Weight {
        pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
        pub const fn zero() -> Self { Weight { ref_time: 0, proof_size: 0 } }
        pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self { Weight { ref_time, proof_size } }
        pub const fn from_all(x: u64) -> Self { Weight { ref_time: x, proof_size: x } }
        pub const fn ref_time(&self) -> u64 { self.ref_time }
        pub const fn proof_size(&self) -> u64 { self.proof_size }
        pub const fn saturating_add(self, o: Self) -> Self { Weight { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) } }
        pub const fn saturating_sub(self, o: Self) -> Self { Weight { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) } }
        pub const fn saturating_mul(self, n: u64) -> Self { Weight { ref_time: self.ref_time.saturating_mul(n), proof_size: self.proof_size.saturating_mul(n) } }
        pub fn checked_add(&self, o: &Self) -> Option<Self> { Some(Weight { ref_time: self.ref_time.checked_add(o.ref_time)?, proof_size: self.proof_size.checked_add(o.proof_size)? }) }
        pub fn any_gt(self, o: Self) -> bool { self.ref_time > o.ref_time || self.proof_size > o.proof_size }
        pub fn all_lte(self, o: Self) -> bool { self.ref_time <= o.ref_time && self.proof_size <= o.proof_size }
        pub fn min(&self, o: Self) -> Self { Weight { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) } }
        pub fn max(&self, o: Self) -> Self { Weight { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) } }
        pub fn saturating_accrue(&mut self, o: Self) { *self = self.saturating_add(o) }
        pub fn is_zero(&self) -> bool { self.ref_time == 0 && self.proof_size == 0 }
    }
    impl core::ops::Add for Weight { type Output = Self; fn add(self, o: Self) -> Self { Weight { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size } } }
    impl core::ops::AddAssign for Weight { fn add_assign(&mut self, o: Self) { *self = *self + o } }
    impl core::ops::Sub for Weight { type Output = Self; fn sub(self, o: Self) -> Self { Weight { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size } } }
    impl crate::arith::Zero for Weight { fn zero() -> Self { Weight::zero() } fn is_zero(&self) -> bool { Weight::is_zero(self) } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub struct RuntimeDbWeight { pub read: u64, pub write: u64 }
    impl RuntimeDbWeight { pub const fn reads(self, n: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(n), 0) } pub const fn writes(self, n: u64) -> Weight { Weight::from_parts(self.write.saturating_mul(n), 0) } pub const fn reads_writes(self, r: u64, w: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0) } }
    pub mod constants {
        use super::*;
        pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000; pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000; pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000; pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
        pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
        pub struct RocksDbWeight;
        impl RocksDbWeight { pub const fn get() -> RuntimeDbWeight { RuntimeDbWeight { read: 25_000_000, write: 100_000_000 } } }
        impl crate::frame_support::traits::Get<RuntimeDbWeight> for RocksDbWeight { fn get() -> RuntimeDbWeight { RuntimeDbWeight { read: 25_000_000, write: 100_000_000 } } }
        pub struct ExtrinsicBaseWeight; impl ExtrinsicBaseWeight { pub const fn get() -> Weight { Weight::from_parts(113_638 * 1000, 0) } }
        pub struct BlockExecutionWeight; impl BlockExecutionWeight { pub const fn get() -> Weight { Weight::from_parts(431_614 * 1000, 0) } }
    }
    pub trait WeightToFee { type Balance; fn weight_to_fee(w: &Weight) -> Self::Balance; }
    pub trait WeightToFeePolynomial { type Balance; fn polynomial() -> WeightToFeeCoefficients<Self::Balance>; }
    #[derive(Clone, Debug)] pub struct WeightToFeeCoefficient<B> { pub coeff_integer: B, pub coeff_frac: crate::arith::Perbill, pub negative: bool, pub degree: u8 }
    pub type WeightToFeeCoefficients<B> = crate::vecs::Vec<WeightToFeeCoefficient<B>>;
    impl<T: WeightToFeePolynomial> WeightToFee for T where T::Balance: crate::arith::AtLeast32BitUnsigned + Copy {
        type Balance = T::Balance;
        fn weight_to_fee(w: &Weight) -> T::Balance {
            use crate::arith::*;
            let mut acc: T::Balance = Zero::zero();
            for a in T::polynomial() { let x: T::Balance = T::Balance::saturated_from(w.ref_time()).saturating_pow(a.degree as usize); let frac = a.coeff_frac * UniqueSaturatedInto::<u128>::unique_saturated_into(x); let int = a.coeff_integer.saturating_mul(x); let frac = T::Balance::saturated_from(frac); if a.negative { acc = acc.saturating_sub(frac).saturating_sub(int) } else { acc = acc.saturating_add(frac).saturating_add(int) } }
            acc
        }
    }
    pub struct ConstantMultiplier<T, M>(core::marker::PhantomData<(T, M)>);
    impl<T: crate::arith::AtLeast32BitUnsigned + Copy, M: crate::frame_support::traits::Get<T>> WeightToFee for ConstantMultiplier<T, M> { type Balance = T; fn weight_to_fee(w: &Weight) -> T { use crate::arith::*; T::saturated_from(w.ref_time()).saturating_mul(M::get()) } }
    pub struct IdentityFee<T>(core::marker::PhantomData<T>);
    impl<T: crate::arith::AtLeast32BitUnsigned + Copy> WeightToFee for IdentityFee<T> { type Balance = T; fn weight_to_fee(w: &Weight) -> T { use crate::arith::*; T::saturated_from(w.ref_time()) } }
    pub use crate::frame_support::dispatch::{DispatchClass, Pays, GetDispatchInfo, DispatchInfo, PostDispatchInfo};
}

pub mod dispatch {
    use super::weights::Weight;
    pub use crate::sp_runtime::{DispatchError, DispatchErrorWithPostInfo, DispatchResult, DispatchResultWithInfo};
    pub use crate::sp_runtime::traits::Dispatchable;
    pub use crate::frame_support::traits::UnfilteredDispatchable;
    pub use crate::frame_support::Parameter;
    pub use crate::frame_system::RawOrigin;
    pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo<PostDispatchInfo>>;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default, crate::Encode, crate::Decode, crate::TypeInfo)] pub enum Pays { #[default] Yes, No }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default, crate::Encode, crate::Decode, crate::TypeInfo)] pub enum DispatchClass { #[default] Normal, Operational, Mandatory }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default, crate::Encode, crate::Decode, crate::TypeInfo)] pub struct DispatchInfo { pub weight: Weight, pub class: DispatchClass, pub pays_fee: Pays }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default, crate::Encode, crate::Decode, crate::TypeInfo)] pub struct PostDispatchInfo { pub actual_weight: Option<Weight>, pub pays_fee: Pays }
    impl crate::sp_runtime::traits::Printable for PostDispatchInfo {}
    impl PostDispatchInfo { pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight { match self.actual_weight { Some(w) => w.min(info.weight), None => info.weight } } pub fn calc_unspent(&self, info: &DispatchInfo) -> Weight { info.weight.saturating_sub(self.calc_actual_weight(info)) } pub fn pays_fee(&self, info: &DispatchInfo) -> Pays { if info.pays_fee == Pays::No || self.pays_fee == Pays::No { Pays::No } else { Pays::Yes } } }
    impl From<()> for PostDispatchInfo { fn from(_: ()) -> Self { Self::default() } }
    impl From<Option<Weight>> for PostDispatchInfo { fn from(w: Option<Weight>) -> Self { PostDispatchInfo { actual_weight: w, pays_fee: Default::default() } } }
    impl From<(Option<Weight>, Pays)> for PostDispatchInfo { fn from(w: (Option<Weight>, Pays)) -> Self { PostDispatchInfo { actual_weight: w.0, pays_fee: w.1 } } }
    impl From<Pays> for PostDispatchInfo { fn from(p: Pays) -> Self { PostDispatchInfo { actual_weight: None, pays_fee: p } } }
    pub trait GetDispatchInfo { fn get_dispatch_info(&self) -> DispatchInfo; }
    pub trait GetCallName { fn get_call_name(&self) -> &'static str; }
    pub trait IntoInfo { fn into_info(self) -> DispatchInfo; }
    impl IntoInfo for Weight { fn into_info(self) -> DispatchInfo { DispatchInfo { weight: self, ..Default::default() } } }
    impl IntoInfo for u64 { fn into_info(self) -> DispatchInfo { DispatchInfo { weight: Weight::from_parts(self, 0), ..Default::default() } } }
    impl IntoInfo for (Weight, Pays) { fn into_info(self) -> DispatchInfo { DispatchInfo { weight: self.0, pays_fee: self.1, ..Default::default() } } }
    impl IntoInfo for (Weight, DispatchClass) { fn into_info(self) -> DispatchInfo { DispatchInfo { weight: self.0, class: self.1, ..Default::default() } } }
    impl IntoInfo for (Weight, DispatchClass, Pays) { fn into_info(self) -> DispatchInfo { DispatchInfo { weight: self.0, class: self.1, pays_fee: self.2 } } }
    pub trait IntoPostResult { fn into_post(self) -> DispatchResultWithPostInfo; }
    impl IntoPostResult for DispatchResult { fn into_post(self) -> DispatchResultWithPostInfo { match self { Ok(()) => Ok(Default::default()), Err(e) => Err(DispatchErrorWithPostInfo { post_info: Default::default(), error: e }) } } }
    impl IntoPostResult for DispatchResultWithPostInfo { fn into_post(self) -> DispatchResultWithPostInfo { self } }
    pub trait WithPostDispatchInfo { fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo<PostDispatchInfo>; }
    impl<T: Into<DispatchError>> WithPostDispatchInfo for T { fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo<PostDispatchInfo> { DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Default::default() }, error: self.into() } } }
    pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Weight { match r { Ok(p) => p.calc_actual_weight(info), Err(e) => e.post_info.calc_actual_weight(info) } }
}

pub mod traits {
    use super::*;
    pub use crate::sp_runtime::traits::{Bounded as BoundedNum, SaturatedConversion};
    pub trait Get<T> { fn get() -> T; }
    impl<T: Default> Get<T> for () { fn get() -> T { T::default() } }
    pub struct GetDefault;
    impl<T: Default> Get<T> for GetDefault { fn get() -> T { T::default() } }
    macro_rules! consts { ($($n:ident $t:ty),*) => { $(#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Default)] pub struct $n<const T: $t>; impl<const T: $t> Get<$t> for $n<T> { fn get() -> $t { T } } impl<const T: $t> Get<Option<$t>> for $n<T> { fn get() -> Option<$t> { Some(T) } })* } }
    consts!(ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI32 i32, ConstBool bool);
    pub trait TypedGet { type Type; fn get() -> Self::Type; }
    pub trait Len { fn len(&self) -> usize; fn is_empty(&self) -> bool { self.len() == 0 } }
    impl<T> Len for crate::vecs::Vec<T> { fn len(&self) -> usize { crate::vecs::Vec::len(self) } }
    impl<T> Len for [T] { fn len(&self) -> usize { <[T]>::len(self) } }
    impl<T, S> Len for crate::bounded::BoundedVec<T, S> { fn len(&self) -> usize { self.0.len() } }
    pub trait IsType<T>: Into<T> + From<T> { fn into_ref(&self) -> &T; fn from_ref(t: &T) -> &Self; }
    impl<T> IsType<T> for T { fn into_ref(&self) -> &T { self } fn from_ref(t: &T) -> &T { t } }
    pub trait IsSubType<T> { fn is_sub_type(&self) -> Option<&T>; }
    pub trait UnfilteredDispatchable { type RuntimeOrigin; fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> crate::frame_support::dispatch::DispatchResultWithPostInfo; }
    pub trait EnsureOrigin<O> { type Success; fn ensure_origin(o: O) -> Result<Self::Success, crate::sp_runtime::traits::BadOrigin> { Self::try_origin(o).map_err(|_| crate::sp_runtime::traits::BadOrigin) } fn try_origin(o: O) -> Result<Self::Success, O>; }
    pub trait OriginTrait: Sized { type Call; type PalletsOrigin; type AccountId; fn none() -> Self; fn root() -> Self; fn signed(a: Self::AccountId) -> Self; }
    pub trait Contains<T> { fn contains(t: &T) -> bool; }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Everything; impl<T> Contains<T> for Everything { fn contains(_: &T) -> bool { true } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Nothing; impl<T> Contains<T> for Nothing { fn contains(_: &T) -> bool { false } }
    pub trait InstanceFilter<T>: Sized + Send + Sync { fn filter(&self, _: &T) -> bool; fn is_superset(&self, _: &Self) -> bool { false } }
    pub trait BuildGenesisConfig { fn build(&self); }
    pub trait Hooks<B> { fn on_initialize(_n: B) -> super::weights::Weight { super::weights::Weight::zero() } fn on_finalize(_n: B) {} fn on_idle(_n: B, _w: super::weights::Weight) -> super::weights::Weight { super::weights::Weight::zero() } fn offchain_worker(_n: B) {} fn on_runtime_upgrade() -> super::weights::Weight { super::weights::Weight::zero() } fn integrity_test() {} }
    pub trait OnRuntimeUpgrade { fn on_runtime_upgrade() -> super::weights::Weight { super::weights::Weight::zero() } }
    pub trait OnInitialize<B> { fn on_initialize(_n: B) -> super::weights::Weight { super::weights::Weight::zero() } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)] pub struct StorageVersion(pub u16);
    impl StorageVersion { pub const fn new(n: u16) -> Self { StorageVersion(n) } pub fn put<P>(&self) {} pub fn get<P>() -> Self { StorageVersion(0) } }
    pub trait GetStorageVersion { fn on_chain_storage_version() -> StorageVersion { StorageVersion(0) } }
    pub type LockIdentifier = [u8; 8];
    pub trait LockableCurrency<A>: Currency<A> { type Moment; type MaxLocks; fn remove_lock(id: LockIdentifier, who: &A); fn set_lock(id: LockIdentifier, who: &A, amount: Self::Balance); }
    pub trait Currency<A> { type Balance; fn free_balance(a: &A) -> Self::Balance; }
    pub trait Imbalance<B> { fn peek(&self) -> B; }
    pub trait OnUnbalanced<I> { fn on_unbalanced(_: I) {} }
    pub trait SameOrOther {}
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct PalletInfoAccess;
    pub trait ConstU {}
    pub trait Randomness {}
    pub trait EqualPrivilegeOnly {}
    pub trait PrivilegeCmp<O> {}
    pub trait VariantCount { const VARIANT_COUNT: u32; }
    pub trait CallerTrait {}
    pub mod tokens {
        pub use super::fungible as fungible;
        #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Preservation { Expendable, Protect, Preserve }
        #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Fortitude { Polite, Force }
        #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Precision { Exact, BestEffort }
        #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Provenance { Minted, Extant }
        #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum WithdrawConsequence<B> { BalanceLow, WouldDie, UnknownAsset, Underflow, Overflow, Frozen, ReducedToZero(B), Success }
        #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum DepositConsequence { BelowMinimum, CannotCreate, UnknownAsset, Overflow, Success, Blocked }
        impl DepositConsequence { pub fn into_result(self) -> Result<(), crate::sp_runtime::DispatchError> { match self { DepositConsequence::Success => Ok(()), _ => Err(crate::sp_runtime::DispatchError::Token(crate::sp_runtime::TokenError::BelowMinimum)) } } }
        impl<B: Default> WithdrawConsequence<B> { pub fn into_result(self, _keep: bool) -> Result<B, crate::sp_runtime::DispatchError> { match self { WithdrawConsequence::Success => Ok(B::default()), WithdrawConsequence::ReducedToZero(b) => Ok(b), _ => Err(crate::sp_runtime::DispatchError::Token(crate::sp_runtime::TokenError::FundsUnavailable)) } } }
        pub trait Balance: crate::arith::AtLeast32BitUnsigned + crate::codec::Encode + crate::codec::Decode + crate::codec::CompactEnc + crate::codec::HasCompact + crate::codec::MaxEncodedLen + Copy + Default + core::fmt::Debug + crate::nd::Nd + crate::arith::FixedPointOperand + Send + Sync + crate::scale_info::TypeInfo + 'static {}
        impl<T: crate::arith::AtLeast32BitUnsigned + crate::codec::Encode + crate::codec::Decode + crate::codec::CompactEnc + crate::codec::HasCompact + crate::codec::MaxEncodedLen + Copy + Default + core::fmt::Debug + crate::nd::Nd + crate::arith::FixedPointOperand + Send + Sync + crate::scale_info::TypeInfo + 'static> Balance for T {}
    }
    pub mod fungible {
        use super::tokens::*;
        use crate::sp_runtime::{DispatchError, DispatchResult};
        pub trait Inspect<A>: Sized {
            type Balance: Balance;
            fn total_issuance() -> Self::Balance;
            fn minimum_balance() -> Self::Balance;
            fn total_balance(who: &A) -> Self::Balance;
            fn balance(who: &A) -> Self::Balance;
            fn reducible_balance(who: &A, p: Preservation, f: Fortitude) -> Self::Balance;
            fn can_deposit(who: &A, amount: Self::Balance, p: Provenance) -> DepositConsequence;
            fn can_withdraw(who: &A, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
        }
        pub trait Mutate<A>: Inspect<A> {
            fn transfer(from: &A, to: &A, amount: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError>;
            fn mint_into(who: &A, amount: Self::Balance) -> Result<Self::Balance, DispatchError>;
            fn burn_from(who: &A, amount: Self::Balance, prec: Precision, f: Fortitude) -> Result<Self::Balance, DispatchError>;
            fn set_balance(who: &A, amount: Self::Balance) -> Self::Balance;
        }
        pub trait InspectFreeze<A>: Inspect<A> {
            type Id: crate::codec::Encode + 'static;
            fn balance_frozen(id: &Self::Id, who: &A) -> Self::Balance;
            fn balance_freezable(who: &A) -> Self::Balance { Self::total_balance(who) }
            fn can_freeze(id: &Self::Id, who: &A) -> bool;
        }
        pub trait MutateFreeze<A>: InspectFreeze<A> {
            fn set_freeze(id: &Self::Id, who: &A, amount: Self::Balance) -> DispatchResult;
            fn extend_freeze(id: &Self::Id, who: &A, amount: Self::Balance) -> DispatchResult;
            fn thaw(id: &Self::Id, who: &A) -> DispatchResult;
            fn set_frozen(id: &Self::Id, who: &A, amount: Self::Balance, _f: Fortitude) -> DispatchResult { Self::set_freeze(id, who, amount) }
            fn increase_frozen(id: &Self::Id, who: &A, amount: Self::Balance) -> DispatchResult { let a = Self::balance_frozen(id, who); match crate::arith::CheckedAdd::checked_add(&a, &amount) { Some(x) => Self::set_freeze(id, who, x), None => Err(crate::sp_runtime::ArithmeticError::Overflow.into()) } }
            fn decrease_frozen(id: &Self::Id, who: &A, amount: Self::Balance) -> DispatchResult { let a = Self::balance_frozen(id, who); match crate::arith::CheckedSub::checked_sub(&a, &amount) { Some(x) => Self::set_freeze(id, who, x), None => Err(crate::sp_runtime::ArithmeticError::Underflow.into()) } }
        }
        pub mod freeze {}
    }
}
pub mod unsigned { pub use crate::sp_runtime::traits::ValidateUnsigned; pub use crate::sp_runtime::transaction_validity::*; }
pub mod pallet_prelude {
    pub use crate::codec::{Codec, Decode, Encode, MaxEncodedLen, HasCompact};
    pub use crate::{ensure, fail};
    pub use super::dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays, UnfilteredDispatchable};
    pub use super::hashers::*;
    pub use super::storage;
    pub use super::storage::{CountedStorageMap, Key as NMapKey, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery, Key};
    pub use super::traits::{BuildGenesisConfig, ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, StorageVersion, TypedGet};
    pub use super::weights::Weight;
    pub use super::{CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound};
    pub use crate::bounded::{BoundedBTreeMap, BoundedVec};
    pub use crate::scale_info::TypeInfo;
    pub use crate::sp_runtime::traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned, Zero};
    pub use crate::sp_runtime::transaction_validity::{InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction};
    pub use core::marker::PhantomData;
    pub use crate::sp_std::{vec, vec::Vec};
}
