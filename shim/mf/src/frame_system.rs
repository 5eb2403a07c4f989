use crate::codec::*;
use crate::frame_support::traits::*;
use crate::frame_support::weights::RuntimeDbWeight;
use crate::frame_support::Parameter;
use crate::nd::Nd;
use crate::sp_runtime::traits::*;
use crate::sp_runtime::DispatchError;
pub use crate::sp_runtime::traits::BadOrigin;
#[derive(Clone, PartialEq, Eq, Debug, crate::Encode, crate::Decode, crate::TypeInfo, crate::MaxEncodedLen)]
pub enum RawOrigin<A> { Root, Signed(A), None }
impl<A> From<Option<A>> for RawOrigin<A> { fn from(o: Option<A>) -> Self { match o { Some(a) => RawOrigin::Signed(a), None => RawOrigin::None } } }
impl<A: Clone> RawOrigin<A> { pub fn as_signed(&self) -> Option<&A> { match self { RawOrigin::Signed(a) => Some(a), _ => None } } pub fn is_root(&self) -> bool { matches!(self, RawOrigin::Root) } pub fn is_none(&self) -> bool { matches!(self, RawOrigin::None) } }

pub trait Config: 'static + Eq + Clone + PartialEq {
    type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>> + From<RawOrigin<Self::AccountId>> + Clone + OriginTrait<AccountId = Self::AccountId, Call = Self::RuntimeCall>;
    type RuntimeCall;
    type RuntimeEvent: Clone + PartialEq + core::fmt::Debug + 'static;
    type AccountId: Parameter + Member + MaxEncodedLen + Ord + crate::scale_info::TypeInfo;
    type Nonce: Parameter + Member + Default + AtLeast32BitUnsigned + Copy + MaxEncodedLen + One + core::fmt::Display + crate::scale_info::TypeInfo;
    type BlockNumber: Parameter + Member + AtLeast32BitUnsigned + Default + Copy + MaxEncodedLen + CompactEnc + HasCompact + crate::scale_info::TypeInfo + core::hash::Hash + Into<u64> + core::fmt::Display;
    type Hash: Parameter + Member + Copy + Default + AsRef<[u8]> + MaxEncodedLen;
    type Hashing: crate::sp_runtime::traits::Hash<Output = Self::Hash>;
    type Lookup: StaticLookup<Target = Self::AccountId>;
    type DbWeight: Get<RuntimeDbWeight>;
    type AccountData: Parameter + Member + Default + MaxEncodedLen;
    type BaseCallFilter: Contains<Self::RuntimeCall>;
}
pub mod pallet_prelude {
    pub type BlockNumberFor<T> = <T as super::Config>::BlockNumber;
    pub type OriginFor<T> = <T as super::Config>::RuntimeOrigin;
    pub type AccountIdFor<T> = <T as super::Config>::AccountId;
    pub use super::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root, RawOrigin};
}
pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, BadOrigin> { match o.into() { Ok(RawOrigin::Signed(a)) => Ok(a), _ => Err(BadOrigin) } }
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> { match o.into() { Ok(RawOrigin::Root) => Ok(()), _ => Err(BadOrigin) } }
pub fn ensure_none<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> { match o.into() { Ok(RawOrigin::None) => Ok(()), _ => Err(BadOrigin) } }
pub fn ensure_signed_or_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<Option<A>, BadOrigin> { match o.into() { Ok(RawOrigin::Root) => Ok(None), Ok(RawOrigin::Signed(a)) => Ok(Some(a)), _ => Err(BadOrigin) } }
pub struct EnsureRoot<A>(core::marker::PhantomData<A>);
impl<A, O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>> EnsureOrigin<O> for EnsureRoot<A> { type Success = (); fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|r| match r { RawOrigin::Root => Ok(()), r => Err(O::from(r)) }) } }
pub struct EnsureSigned<A>(core::marker::PhantomData<A>);
impl<A, O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>> EnsureOrigin<O> for EnsureSigned<A> { type Success = A; fn try_origin(o: O) -> Result<A, O> { o.into().and_then(|r| match r { RawOrigin::Signed(a) => Ok(a), r => Err(O::from(r)) }) } }

pub struct Pallet<T>(core::marker::PhantomData<T>);
pub const EVENT_CAP: usize = 8;
static mut BLOCK: Option<Box<[u8; 16]>> = None;
static mut BLOCK_SET: bool = false;
static mut BLOCK_RAW: u128 = 0;
static mut EVENTS: *mut () = core::ptr::null_mut();
pub fn mf_init<T: Config>() { Account::<T>::mf_init(); Pallet::<T>::block_number(); Pallet::<T>::ev(); }
static mut EVENT_COUNT: usize = 0;
pub static mut SCRATCH_RESETTERS: crate::vecs::Dyn<fn()> = crate::vecs::Dyn::new();
impl<T: Config> Pallet<T> {
    /// the current block number: arbitrary, constant until changed by the harness
    pub fn block_number() -> T::BlockNumber { unsafe { if !BLOCK_SET { let b = T::BlockNumber::nd(); BLOCK_RAW = b.unique_saturated_into(); BLOCK_SET = true; } T::BlockNumber::saturated_from(BLOCK_RAW) } }
    pub fn set_block_number(b: T::BlockNumber) { unsafe { BLOCK_RAW = b.unique_saturated_into(); BLOCK_SET = true } }
    pub fn current_block_number() -> T::BlockNumber { Self::block_number() }
    fn ev() -> &'static mut crate::vecs::Vec<T::RuntimeEvent> { unsafe { if EVENTS.is_null() { EVENTS = Box::into_raw(Box::new(crate::vecs::Vec::<T::RuntimeEvent>::with_capacity(EVENT_CAP))) as *mut (); } &mut *(EVENTS as *mut crate::vecs::Vec<T::RuntimeEvent>) } }
    pub fn deposit_event(e: impl Into<T::RuntimeEvent>) { unsafe { EVENT_COUNT += 1; } let v = Self::ev(); if v.len() >= EVENT_CAP && cfg!(kani) { crate::nd::limit("events") } v.push(e.into()) }
    pub fn events() -> &'static crate::vecs::Vec<T::RuntimeEvent> { Self::ev() }
    pub fn event_count() -> usize { unsafe { EVENT_COUNT } }
    pub fn reset_events() { Self::ev().clear() }
    pub fn block_hash(_b: T::BlockNumber) -> T::Hash { unsafe { match GENESIS_HASH { Some(_) => T::Hash::default(), None => T::Hash::nd() } } }
    pub fn account_nonce(a: &T::AccountId) -> T::Nonce { Account::<T>::get(a).nonce }
    pub fn inc_account_nonce(a: &T::AccountId) { Account::<T>::mutate(a, |x| x.nonce += T::Nonce::one()) }
    pub fn parent_hash() -> T::Hash { T::Hash::default() }
    pub fn extrinsic_index() -> Option<u32> { Some(0) }
    pub fn digest() -> () { }
}
pub static mut GENESIS_HASH: Option<u8> = Some(0);
impl<T: Config> BlockNumberProvider for Pallet<T> { type BlockNumber = T::BlockNumber; fn current_block_number() -> T::BlockNumber { Self::block_number() } }
#[cfg(not(kani))]
pub fn reset_native() { unsafe { BLOCK_SET = false; EVENT_COUNT = 0; for f in SCRATCH_RESETTERS.iter() { f() } } crate::sp_runtime::verify_reset(); }
#[derive(Clone, PartialEq, Eq, Debug, Default, crate::Encode, crate::Decode, crate::TypeInfo, crate::MaxEncodedLen)]
pub struct AccountInfo<N, D> { pub nonce: N, pub consumers: u32, pub providers: u32, pub sufficients: u32, pub data: D }
pub type RefCount = u32;
pub struct __InstAccount<T>(core::marker::PhantomData<T>);
impl<T> crate::storage::StorageInstance for __InstAccount<T> { const NAME: &'static str = "Account"; fn slot() -> *mut *mut () { static mut S: *mut () = core::ptr::null_mut(); core::ptr::addr_of_mut!(S) } }
pub type Account<T> = crate::storage::StorageMap<__InstAccount<T>, crate::frame_support::Blake2_128Concat, <T as Config>::AccountId, AccountInfo<<T as Config>::Nonce, <T as Config>::AccountData>, crate::storage::ValueQuery>;
pub mod limits { pub struct BlockWeights; }
#[derive(Clone, PartialEq, Eq, Debug)] pub enum Phase { ApplyExtrinsic(u32), Finalization, Initialization }
#[derive(Clone, PartialEq, Eq, Debug)] pub struct EventRecord<E, T> { pub phase: Phase, pub event: E, pub topics: crate::vecs::Vec<T> }
#[derive(Clone, PartialEq, Eq, Debug, crate::Encode, crate::Decode)]
pub enum Call<T: Config> { remark { remark: crate::vecs::Vec<u8> }, set_heap_pages { pages: u64 }, set_code { code: crate::vecs::Vec<u8> }, #[codec(index = 200)] __Ignore(core::marker::PhantomData<T>, crate::Never) }
