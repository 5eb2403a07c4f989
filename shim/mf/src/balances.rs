//! The currency, by contract: free balances and named freezes.  `transfer` moves exactly `amount`
//! when the sender's usable (unfrozen, minimum-keeping) balance covers it; `set_freeze` replaces the
//! named freeze without looking at the balance (as pallet-balances does), amount zero removes it.
use crate::frame_support::traits::fungible::*;
use crate::frame_support::traits::tokens::*;
use crate::nd::{any, assume, Nd};
use crate::sp_runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};
use crate::storage::*;
use core::marker::PhantomData;
pub struct Balances<A, Id, B = u128>(PhantomData<(A, Id, B)>);
pub trait Ccy: Balance + Copy {}
impl<T: Balance + Copy> Ccy for T {}
pub struct InstFree<B>(PhantomData<B>);
impl<B> StorageInstance for InstFree<B> { const NAME: &'static str = "Free"; fn slot() -> *mut *mut () { static mut S: *mut () = core::ptr::null_mut(); core::ptr::addr_of_mut!(S) } }
pub struct InstFrozen<B>(PhantomData<B>);
impl<B> StorageInstance for InstFrozen<B> { const NAME: &'static str = "Frozen"; fn slot() -> *mut *mut () { static mut S: *mut () = core::ptr::null_mut(); core::ptr::addr_of_mut!(S) } }
pub type Free<A, B> = StorageMap<InstFree<B>, (), A, B, ValueQuery>;
pub type Frozen<A, Id, B> = StorageDoubleMap<InstFrozen<B>, (), Id, (), A, B, ValueQuery>;
/// existential deposit; set per harness
pub static mut ED: u128 = 1;
pub trait FreezeId: Clone + PartialEq + Nd + crate::codec::Encode + 'static {}
impl<T: Clone + PartialEq + Nd + crate::codec::Encode + 'static> FreezeId for T {}
impl<A: KeyT, Id: FreezeId, B: Ccy + 'static> Balances<A, Id, B> {
    pub fn mf_init() { Free::<A, B>::mf_init(); Frozen::<A, Id, B>::mf_init(); }
    pub fn free(a: &A) -> B { Free::<A, B>::get(a) }
    pub fn set_free(a: &A, b: B) { Free::<A, B>::raw_set(a, Some(b)) }
    pub fn frozen(id: &Id, a: &A) -> B { Frozen::<A, Id, B>::get(id, a) }
    pub fn set_frozen_raw(id: &Id, a: &A, b: B) { Frozen::<A, Id, B>::raw_set(id, a, Some(b)) }
    pub fn free_orig(a: &A) -> B { Free::<A, B>::orig(a).unwrap_or_default() }
    pub fn frozen_orig(id: &Id, a: &A) -> B { Frozen::<A, Id, B>::orig(id, a).unwrap_or_default() }
    pub fn frozen_unchanged_except(f: impl Fn(&Id, &A) -> bool) -> bool { Frozen::<A, Id, B>::touched().into_iter().all(|((i, a), o, v)| f(&i, &a) || o.unwrap_or_default() == v.unwrap_or_default()) }
    pub fn free_unchanged_except(f: impl Fn(&A) -> bool) -> bool { Free::<A, B>::touched().into_iter().all(|(a, o, v)| f(&a) || o.unwrap_or_default() == v.unwrap_or_default()) }
    fn max_frozen(a: &A) -> B { let mut m = B::default(); for (k, _, v) in Frozen::<A, Id, B>::touched() { if k.1 == *a { if let Some(v) = v { if v > m { m = v } } } } m }
    fn ed() -> B { B::unique_saturated_from(unsafe { ED }) }
}
use crate::arith::*;
impl<A: KeyT, Id: FreezeId, B: Ccy + 'static> Inspect<A> for Balances<A, Id, B> {
    type Balance = B;
    fn total_issuance() -> B { B::max_value() }
    fn minimum_balance() -> B { Self::ed() }
    fn total_balance(w: &A) -> B { Self::free(w) }
    fn balance(w: &A) -> B { Self::free(w) }
    fn reducible_balance(w: &A, p: Preservation, f: Fortitude) -> B {
        let keep = if matches!(p, Preservation::Expendable) { B::default() } else { Self::ed() };
        let fr = if matches!(f, Fortitude::Force) { B::default() } else { Self::max_frozen(w) };
        Self::free(w).saturating_sub(if fr > keep { fr } else { keep })
    }
    fn can_deposit(w: &A, amount: B, _p: Provenance) -> DepositConsequence { if Self::free(w).checked_add(&amount).is_none() { DepositConsequence::Overflow } else { DepositConsequence::Success } }
    fn can_withdraw(w: &A, amount: B) -> WithdrawConsequence<B> { if Self::free(w) < amount { WithdrawConsequence::BalanceLow } else if amount > Self::reducible_balance(w, Preservation::Expendable, Fortitude::Polite) { WithdrawConsequence::Frozen } else { WithdrawConsequence::Success } }
}
impl<A: KeyT, Id: FreezeId, B: Ccy + 'static> Mutate<A> for Balances<A, Id, B> {
    fn transfer(from: &A, to: &A, amount: B, p: Preservation) -> Result<B, DispatchError> {
        if amount > Self::reducible_balance(from, p, Fortitude::Polite) { return Err(DispatchError::Token(TokenError::FundsUnavailable)); }
        if from == to { return Ok(amount); }
        let t = Self::free(to).checked_add(&amount).ok_or(DispatchError::Arithmetic(ArithmeticError::Overflow))?;
        Free::<A, B>::insert(from, Self::free(from).saturating_sub(amount));
        Free::<A, B>::insert(to, t);
        Ok(amount)
    }
    fn mint_into(w: &A, amount: B) -> Result<B, DispatchError> { let t = Self::free(w).checked_add(&amount).ok_or(DispatchError::Arithmetic(ArithmeticError::Overflow))?; Free::<A, B>::insert(w, t); Ok(amount) }
    fn burn_from(w: &A, amount: B, _p: Precision, _f: Fortitude) -> Result<B, DispatchError> { let t = Self::free(w).checked_sub(&amount).ok_or(DispatchError::Token(TokenError::FundsUnavailable))?; Free::<A, B>::insert(w, t); Ok(amount) }
    fn set_balance(w: &A, amount: B) -> B { Free::<A, B>::insert(w, amount); amount }
}
impl<A: KeyT, Id: FreezeId, B: Ccy + 'static> InspectFreeze<A> for Balances<A, Id, B> {
    type Id = Id;
    fn balance_frozen(id: &Id, w: &A) -> B { Self::frozen(id, w) }
    fn can_freeze(_id: &Id, _w: &A) -> bool { true }
}
impl<A: KeyT, Id: FreezeId, B: Ccy + 'static> MutateFreeze<A> for Balances<A, Id, B> {
    fn set_freeze(id: &Id, w: &A, amount: B) -> DispatchResult { Frozen::<A, Id, B>::insert(id, w, amount); Ok(()) }
    fn extend_freeze(id: &Id, w: &A, amount: B) -> DispatchResult { let c = Self::frozen(id, w); Self::set_freeze(id, w, if c > amount { c } else { amount }) }
    fn thaw(id: &Id, w: &A) -> DispatchResult { Frozen::<A, Id, B>::insert(id, w, B::default()); Ok(()) }
}
