//! Contracts of pallet-time-release (real source), over arbitrary state.
use mf::arith::*;
use mf::frame_support::traits::*;
use mf::nd::*;
use mf::num::*;
use mf::sp_runtime::DispatchError;
use mf::vecs::Vec;
use mf::{cov, ob};
use pallet_time_release as rel;
use pallet_time_release::ReleaseSchedule;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Test;
mf::mock_event!(Ev { Rel(rel::Event<Test>) });
mf::mock_system!(Test, u64, u32, (), Ev);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Reason(pub u8);
impl Nd for Reason { fn nd() -> Self { Reason(Nd::nd()) } fn dup(&self) -> Self { *self } }
impl mf::codec::Encode for Reason { fn encode_to(&self, o: &mut Vec<u8>) { o.push(self.0) } }
impl From<rel::FreezeReason> for Reason { fn from(_: rel::FreezeReason) -> Self { ID } }
pub const ID: Reason = Reason(3);
pub type Bal = u64;
pub type Ccy = mf::balances::Balances<u64, Reason, Bal>;
mf::constants! { MinTransfer: Bal, MaxSchedules: u32, Now: u32 }
pub struct Clock;
impl mf::sp_runtime::traits::BlockNumberProvider for Clock { type BlockNumber = u32; fn current_block_number() -> u32 { Now::get() } }
mf::oracle!(MayTransfer: u64);
pub struct From_;
impl EnsureOrigin<O> for From_ { type Success = u64; fn try_origin(o: O) -> Result<u64, O> { match &o.0 { mf::frame_system::RawOrigin::Signed(a) if MayTransfer::ask(*a) => Ok(*a), _ => Err(o) } } }
impl rel::Config for Test { type RuntimeEvent = Ev; type RuntimeFreezeReason = Reason; type Balance = Bal; type Currency = Ccy; type MinReleaseTransfer = MinTransfer; type TransferOrigin = From_; type WeightInfo = (); type MaxReleaseSchedules = MaxSchedules; type BlockNumberProvider = Clock; }
pub type R = rel::Pallet<Test>;
pub type O = mf::rt::Origin<u64, ()>;
pub type S = ReleaseSchedule<u32, Bal>;
pub type Scheds = rel::ReleaseSchedules<Test>;
const LIM: Bal = 1 << 48;
/// schedules drawn per account
pub const LEN: usize = 2;
pub fn setup() { init_constants(); mf::frame_system::mf_init::<Test>(); Ccy::mf_init(); rel::module::mf_init::<Test>(); MayTransfer::reset(); #[cfg(kani)] { Total::reset(); End::reset(); Frozen::reset(); } }
pub fn init() { set_len(LEN); setup(); assume(MinTransfer::get() > 0); }

/// amounts stay below this (total issuance), counts and block numbers are arbitrary
const TOTAL: Bal = 1 << 40;
fn draw() -> S { let s = S { start: any(), period: any(), period_count: any(), per_period: any() }; assume(small(&s)); s }
/// no total beyond the issuance
fn small(s: &S) -> bool { match total(s) { Some(x) => x <= TOTAL, None => true } }
/// what a schedule is worth and when it ends, as the schedule itself says; proved exact in `schedule`
fn total(s: &S) -> Option<Bal> { #[cfg(kani)] { total_contract(s) } #[cfg(not(kani))] { s.total_amount() } }
fn end(s: &S) -> Option<u32> { #[cfg(kani)] { end_contract(s) } #[cfg(not(kani))] { s.end() } }
fn left(s: &S, t: u32) -> Bal { #[cfg(kani)] { frozen_contract(s, t) } #[cfg(not(kani))] { if s.period == 0 { 0 } else { frozen_at(s, t) } } }
/// the specification: what is still frozen at block `t` - whole periods only, none before `start`
pub fn frozen_at(s: &S, t: u32) -> Bal {
    let done = if t <= s.start { 0 } else { (t - s.start) / s.period };
    if done >= s.period_count { 0 } else { s.per_period.wrapping_mul((s.period_count - done) as Bal) }
}
// the contracts callers are checked against: the results are arbitrary functions of the schedule
// (and block), with the bounds that `schedule` proves of the real ones
#[cfg(kani)] mf::lookup!(Total: (u32, u32, u32, Bal) => Option<Bal>);
#[cfg(kani)] mf::lookup!(End: (u32, u32, u32, Bal) => Option<u32>);
#[cfg(kani)] mf::lookup!(Frozen: (u32, u32, u32, Bal, u32) => Bal);
#[cfg(kani)] fn total_contract<BlockNumber: AtLeast32Bit + Copy, Balance: AtLeast32Bit + mf::codec::MaxEncodedLen + mf::codec::HasCompact + Copy>(s: &ReleaseSchedule<BlockNumber, Balance>) -> Option<Balance> {
    Total::ask(key(s)).map(|x| Balance::unique_saturated_from(x))
}
#[cfg(kani)] fn end_contract<BlockNumber: AtLeast32Bit + Copy, Balance: AtLeast32Bit + mf::codec::MaxEncodedLen + mf::codec::HasCompact + Copy>(s: &ReleaseSchedule<BlockNumber, Balance>) -> Option<BlockNumber> {
    End::ask(key(s)).map(|x| BlockNumber::unique_saturated_from(x))
}
#[cfg(kani)] fn frozen_contract<BlockNumber: AtLeast32Bit + Copy, Balance: AtLeast32Bit + mf::codec::MaxEncodedLen + mf::codec::HasCompact + Copy>(s: &ReleaseSchedule<BlockNumber, Balance>, t: BlockNumber) -> Balance {
    let k = key(s); let t: u32 = t.unique_saturated_into();
    ob!("T01 frozen.only-asked-of-valid-schedules", k.1 > 0 && Total::ask(k).is_some());
    let r = Frozen::ask((k.0, k.1, k.2, k.3, t));
    if let Some(x) = Total::ask(k) { assume(r <= x); }
    Balance::unique_saturated_from(r)
}
#[cfg(kani)] fn key<BlockNumber: AtLeast32Bit + Copy, Balance: AtLeast32Bit + mf::codec::MaxEncodedLen + mf::codec::HasCompact + Copy>(s: &ReleaseSchedule<BlockNumber, Balance>) -> (u32, u32, u32, Bal) { (s.start.unique_saturated_into(), s.period.unique_saturated_into(), s.period_count, s.per_period.unique_saturated_into()) }
pub fn list(w: u64) -> Vec<S> { R::release_schedules(&w).into_inner() }
fn sum(v: &Vec<S>, t: u32) -> Bal { let mut r = 0; let mut i = 0; while i < LEN + 1 { if i < v.len() { r += left(&v[i], t); } i += 1; } r }
fn valid(s: &S) -> bool { s.period > 0 && s.period_count > 0 && end(s).is_some() && match total(s) { Some(x) => x >= MinTransfer::get(), None => false } }
/// stored schedules are valid, and the freeze covers what is still unvested
fn state(w: u64) -> bool {
    let v = list(w); let mut ok = true; let mut i = 0;
    while i < LEN + 1 { if i < v.len() { if !(small(&v[i]) && valid(&v[i])) { ok = false; } } i += 1; }
    ok && Ccy::free(&w) < LIM
}
fn covered(w: u64) -> bool { Ccy::frozen(&ID, &w) >= sum(&list(w), Now::get()) }
/// the vested ones are gone, the others are there in order
fn pruned(old: &Vec<S>, new: &Vec<S>, t: u32, extra: usize) -> bool {
    let mut ok = true; let mut j = 0; let mut i = 0;
    while i < LEN { if i < old.len() && left(&old[i], t) > 0 { if !(j < new.len() && new[j] == old[i]) { ok = false; } j += 1; } i += 1; }
    ok && new.len() == j + extra
}

mf::contracts! {
    // the arithmetic of one schedule, over numbers whose products and quotients are by contract
    schedule(8) {
        N32::reset(); N64::reset();
        let s = ReleaseSchedule::<N32, N64> { start: Nd::nd(), period: Nd::nd(), period_count: any(), per_period: Nd::nd() };
        let t: N32 = Nd::nd();
        let prod = N64::product(s.per_period.0, s.period_count as u64);
        ob!("T01+T02 schedule.total-is-exact", s.total_amount().map(|x| x.0 as u128) == if prod <= u64::MAX as u128 { Some(prod) } else { None });
        let end = N32::product(s.period.0, s.period_count) + s.start.0 as u64;
        ob!("T01+T02 schedule.end-is-exact", s.end().map(|x| x.0 as u64) == if end < 1 << 32 { Some(end) } else { None });
        assume(s.period.0 > 0 && prod <= u64::MAX as u128);
        let f = s.frozen_amount(t).0;
        let done = if t.0 <= s.start.0 { 0 } else { N32::quotient(t.0 - s.start.0, s.period.0) };
        ob!("T01 schedule.whole-periods-only", f as u128 == if done >= s.period_count { 0 } else { N64::product(s.per_period.0, (s.period_count - done) as u64) });
        ob!("T01 schedule.never-more-than-the-total", f as u128 <= prod);
        if t.0 < s.start.0 || t.0 - s.start.0 < s.period.0 { ob!("T01 schedule.nothing-before-the-first-period", f as u128 == prod); }
        if end < 1 << 32 && t.0 as u64 >= end { ob!("T01 schedule.everything-at-the-end", f == 0); }
        cov!("T01+T02 part of a schedule is released", f > 0 && (f as u128) < prod);
    }
    #[cfg_attr(kani, kani::stub(pallet_time_release::ReleaseSchedule::total_amount, super::total_contract))]
    #[cfg_attr(kani, kani::stub(pallet_time_release::ReleaseSchedule::end, super::end_contract))]
    #[cfg_attr(kani, kani::stub(pallet_time_release::ReleaseSchedule::frozen_amount, super::frozen_contract))]
    claim(8) {
        let (caller, w): (u64, u64) = (any(), any()); let me: bool = any();
        let w = if me { caller } else { w };
        let t = Now::get();
        assume(state(w)); assume(covered(w));
        let v0 = list(w);
        let r = if me { R::claim(O::signed(caller)) } else { R::claim_for(O::signed(caller), w) };
        let v1 = list(w);
        cov!("T01+T03 something stays frozen", r.is_ok() && Ccy::frozen(&ID, &w) > 0 && v1.len() < v0.len());
        ob!("T03 claim.always-possible", r.is_ok());
        ob!("T01 claim.exactly-the-unvested-part-stays-frozen", Ccy::frozen(&ID, &w) == sum(&v0, t));
        ob!("T01 claim.schedules-end-only-when-vested", pruned(&v0, &v1, t, 0));
        ob!("T03 claim.moves-nothing", Ccy::free_unchanged_except(|_| false) && Ccy::frozen_unchanged_except(|i, a| *i == ID && *a == w) && Scheds::unchanged_except(|k| *k == w));
    }
    #[cfg_attr(kani, kani::stub(pallet_time_release::ReleaseSchedule::total_amount, super::total_contract))]
    #[cfg_attr(kani, kani::stub(pallet_time_release::ReleaseSchedule::end, super::end_contract))]
    #[cfg_attr(kani, kani::stub(pallet_time_release::ReleaseSchedule::frozen_amount, super::frozen_contract))]
    transfer(8) {
        let (a, b): (u64, u64) = (any(), any()); let s = draw();
        let t = Now::get();
        assume(state(b) && covered(b)); assume(Ccy::free(&a) < LIM);
        let (fa, fb, za) = (Ccy::free(&a), Ccy::free(&b), Ccy::frozen(&ID, &a));
        let v0 = list(b); let mine = if a == b { za } else { 0 };
        let r = R::transfer(O::signed(a), b, s.clone());
        let amount = total(&s).unwrap_or(0);
        cov!("T01+T02+T03 a schedule can be added to another", r.is_ok() && v0.len() == LEN && list(b).len() > 1);
        if r.is_ok() {
            let v1 = list(b);
            ob!("T02 transfer.by-the-allowed-origin", MayTransfer::said(a) == Some(true));
            ob!("T02 transfer.valid-schedule", valid(&s));
            ob!("T02 transfer.from-unfrozen-funds", amount + za <= fa);
            ob!("T02 transfer.moves-exactly-the-total", if a == b { Ccy::free(&a) == fa } else { Ccy::free(&a) + amount == fa && Ccy::free(&b) == fb + amount });
            ob!("T01 transfer.freezes-it-all", Ccy::frozen(&ID, &b) == sum(&v0, t) + amount);
            ob!("T01 transfer.new-schedule-is-stored", v1.len() > 0 && v1[v1.len() - 1] == s && pruned(&v0, &v1, t, 1));
            ob!("T01 transfer.unvested-stays-frozen", Ccy::frozen(&ID, &b) >= sum(&v1, t));
            ob!("T02 transfer.within-the-number-of-schedules", v1.len() <= MaxSchedules::get() as usize);
            ob!("T03 transfer.nobody-else", Ccy::free_unchanged_except(|x| *x == a || *x == b) && Ccy::frozen_unchanged_except(|i, x| *i == ID && *x == b) && Scheds::unchanged_except(|k| *k == b));
        }
        let _ = mine;
    }
    #[cfg_attr(kani, kani::stub(pallet_time_release::ReleaseSchedule::total_amount, super::total_contract))]
    #[cfg_attr(kani, kani::stub(pallet_time_release::ReleaseSchedule::end, super::end_contract))]
    #[cfg_attr(kani, kani::stub(pallet_time_release::ReleaseSchedule::frozen_amount, super::frozen_contract))]
    update(8) {
        let w: u64 = any(); let root: bool = any();
        let v: Vec<S> = { let mut v = Vec::new(); let n: u8 = any(); assume(n as usize <= LEN); let mut i = 0; while i < LEN { if i < n as usize { v.push(draw()); } i += 1; } v };
        assume(Ccy::free(&w) < LIM);
        let o = if root { O::root() } else { O::signed(any()) };
        let r = R::update_release_schedules(o, w, v.clone());
        cov!("T03 schedules can be replaced", r.is_ok() && v.len() == LEN);
        if r.is_ok() {
            let mut sum = 0; let mut ok = true; let mut i = 0;
            while i < LEN { if i < v.len() { sum += total(&v[i]).unwrap_or(0); if !valid(&v[i]) { ok = false; } } i += 1; }
            ob!("T03 update.only-by-root", root);
            ob!("T03 update.valid-and-covered", ok && sum <= Ccy::free(&w) && v.len() <= MaxSchedules::get() as usize);
            ob!("T01 update.freezes-the-new-total", Ccy::frozen(&ID, &w) == sum && list(w) == v);
            ob!("T03 update.moves-nothing", Ccy::free_unchanged_except(|_| false) && Ccy::frozen_unchanged_except(|i, x| *i == ID && *x == w) && Scheds::unchanged_except(|k| *k == w));
        }
    }
    #[cfg_attr(kani, kani::stub(pallet_time_release::ReleaseSchedule::total_amount, super::total_contract))]
    #[cfg_attr(kani, kani::stub(pallet_time_release::ReleaseSchedule::end, super::end_contract))]
    #[cfg_attr(kani, kani::stub(pallet_time_release::ReleaseSchedule::frozen_amount, super::frozen_contract))]
    unsigned(8) {
        let w: u64 = any(); let root: bool = any(); let s = draw();
        let o = || if root { O::root() } else { O::none() };
        let (a, b, c) = (R::claim(o()), R::claim_for(o(), w), R::transfer(o(), w, s));
        ob!("T03 unsigned.refused", a.is_err() && b.is_err() && c.is_err());
        ob!("T03 unsigned.changes-nothing", Ccy::free_unchanged_except(|_| false) && Ccy::frozen_unchanged_except(|_, _| false) && Scheds::unchanged_except(|_| false));
    }
}
