//! Contracts of pallet-capacity (real source), over arbitrary state.
use common_primitives::capacity::*;
use mf::frame_support::traits::*;
use mf::nd::*;
use mf::{cov, ob};
use pallet_capacity as cap;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Test;
mf::mock_event!(Ev { Cap(cap::Event<Test>) });
mf::mock_system!(Test, u64, u32, (), Ev);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Reason(pub u8);
impl Nd for Reason { fn nd() -> Self { Reason(Nd::nd()) } fn dup(&self) -> Self { *self } }
impl mf::codec::Encode for Reason { fn encode_to(&self, o: &mut mf::vecs::Vec<u8>) { o.push(self.0) } }
impl From<cap::FreezeReason> for Reason { fn from(_: cap::FreezeReason) -> Self { ID } }
#[cfg(not(b64))] pub type Bal = u128;
#[cfg(b64)] pub type Bal = u64;
pub type Ccy = mf::balances::Balances<u64, Reason, Bal>;
mf::oracle!(Val: u64);
impl TargetValidator for Val { fn validate(t: u64) -> bool { Val::ask(t) } }
mf::constants! { MinStake: Bal, MinBal: Bal, Thaw: u16, MaxEpoch: u32 }
pub struct Per;
impl Get<mf::arith::Perbill> for Per { fn get() -> mf::arith::Perbill { mf::arith::Perbill::from_percent(2) } }
impl cap::Config for Test {
    type RuntimeEvent = Ev; type RuntimeFreezeReason = Reason; type WeightInfo = (); type Currency = Ccy; type TargetValidator = Val;
    type MinimumStakingAmount = MinStake; type MinimumTokenBalance = MinBal; type MaxUnlockingChunks = ConstU32<4>;
    type UnstakingThawPeriod = Thaw; type MaxEpochLength = MaxEpoch; type EpochNumber = u32; type CapacityPerToken = Per;
}
pub type C = cap::Pallet<Test>;
pub type Acct = cap::StakingAccountLedger<Test>;
pub type Tgt = cap::StakingTargetLedger<Test>;
pub type Led = cap::CapacityLedger<Test>;
pub type Unl = cap::UnstakeUnlocks<Test>;
pub type Chunk = cap::types::UnlockChunk<Bal, u32>;
pub const ID: Reason = Reason(7);
/// token amounts never exceed the total issuance, taken to be below 2^96
const LIM: Bal = 1 << (Bal::BITS * 3 / 4);
pub fn setup() { init_constants(); mf::frame_system::mf_init::<Test>(); Ccy::mf_init(); cap::pallet::mf_init::<Test>(); Val::reset(); }
pub fn init() { setup(); assume(MinStake::get() < LIM && MinStake::get() > 0 && MinBal::get() < LIM); }

fn active(s: u64) -> Bal { match Acct::get(s) { Some(d) => d.active, None => 0 } }
fn active0(s: u64) -> Bal { match Acct::orig(s) { Some(d) => d.active, None => 0 } }
fn tgt(s: u64, t: u64) -> (Bal, Bal) { match Tgt::get(s, t) { Some(d) => (d.amount, d.capacity), None => (0, 0) } }
fn tgt0(s: u64, t: u64) -> (Bal, Bal) { match Tgt::orig(s, t) { Some(d) => (d.amount, d.capacity), None => (0, 0) } }
/// (remaining, staked, issued, last epoch)
fn led(d: Option<cap::types::CapacityDetails<Bal, u32>>) -> (Bal, Bal, Bal, u32) { match d { Some(d) => (d.remaining_capacity, d.total_tokens_staked, d.total_capacity_issued, d.last_replenished_epoch), None => (0, 0, 0, 0) } }
/// number of chunks, total value
fn sum(u: &Option<cap::types::UnlockChunkList<Test>>) -> (usize, Bal) {
    match u { None => (0, 0), Some(v) => { let mut s = (0 as Bal); let mut i = 0; while i < 4 { if i < v.len() { s += v[i].value; } i += 1; } (v.len(), s) } }
}
fn nth(u: &Option<cap::types::UnlockChunkList<Test>>, i: usize) -> Option<(Bal, u32)> { match u { None => None, Some(v) => if i < v.len() { Some((v[i].value, v[i].thaw_at)) } else { None } } }
/// the state invariant, at the keys a call touches
fn assume_state(s: u64, t: u64) {
    assume(Ccy::free(&s) < LIM);
    assume(active(s) < LIM);
    let u = Unl::get(s);
    if let Some(v) = &u { let mut i = 0; while i < 4 { if i < v.len() { assume(v[i].value < LIM); } i += 1; } }
    let (a, b, (c, d, e, _)) = (tgt(s, t).0, tgt(s, t).1, led(Led::get(t)));
    assume(a < LIM && b < LIM && c < LIM && d < LIM && e < LIM && c <= e && a <= d && b <= e && a <= active(s));
    assume(Ccy::frozen(&ID, &s) == active(s) + sum(&u).1);
    assume(Ccy::frozen(&ID, &s) <= Ccy::free(&s));
}
fn check_freeze(s: u64) -> bool { Ccy::frozen(&ID, &s) == active(s) + sum(&Unl::get(s)).1 }
fn only(s: u64, t: u64) -> bool {
    Acct::unchanged_except(|k| *k == s) && Tgt::unchanged_except(|a, b| *a == s && *b == t) && Led::unchanged_except(|k| *k == t)
        && Unl::unchanged_except(|k| *k == s) && Ccy::frozen_unchanged_except(|i, a| *i == ID && *a == s) && Ccy::free_unchanged_except(|_| false)
}
fn ledgers_same() -> bool { Acct::unchanged_except(|_| false) && Tgt::unchanged_except(|_, _| false) && Led::unchanged_except(|_| false) }
fn epochs_same() -> bool { cap::CurrentEpoch::<Test>::is_unchanged() && cap::CurrentEpochInfo::<Test>::is_unchanged() && cap::EpochLength::<Test>::is_unchanged() }
fn state_same() -> bool { ledgers_same() && epochs_same() && Unl::unchanged_except(|_| false) && Ccy::frozen_unchanged_except(|_, _| false) && Ccy::free_unchanged_except(|_| false) }

mf::contracts! {
    /// stake: exactly min(requested, what is free above the minimum balance) moves into every ledger
    stake(8) {
        let s: u64 = any(); let t: u64 = any(); let amt: Bal = any();
        assume_state(s, t);
        let (tok0, l0) = (tgt0(s, t), led(Led::orig(t)));
        let r = C::stake(mf::rt::Origin::signed(s), t, amt);
        cov!("C01+C02+C06 stake can succeed", r.is_ok());
        cov!("C06 stake can fail", r.is_err());
        if r.is_ok() {
            let d = active(s) - active0(s);
            let free = Ccy::free(&s);
            let c = Per::get() * d;
            ob!("C01 stake.amount-positive-and-at-most-requested", d > 0 && d <= amt);
            ob!("C06 stake.target-is-a-valid-provider", Val::said(t) == Some(true));
            ob!("C06 stake.minimum-active-stake", active(s) >= MinStake::get());
            ob!("C06 stake.never-more-than-owned-less-minimum-balance", active(s) + sum(&Unl::get(s)).1 + MinBal::get() <= free);
            ob!("C06 stake.stakes-all-that-was-asked-when-available", d == amt || free - MinBal::get() - (active0(s) + sum(&Unl::orig(s)).1) == d);
            let tk = tgt(s, t); let l = led(Led::get(t));
            ob!("C01 stake.target-ledger-tokens", tk.0 == tok0.0 + d);
            ob!("C01 stake.capacity-ledger-tokens", l.1 == l0.1 + d);
            ob!("C01 stake.capacity-issued-per-token", tk.1 == tok0.1 + c && l.2 == l0.2 + c);
            ob!("C01+C03 stake.capacity-available-at-once", l.0 == l0.0 + c);
            ob!("C03 stake.replenish-epoch-untouched", l.3 == l0.3);
            ob!("C02 stake.freeze-covers-stake-and-unlocking", check_freeze(s));
            ob!("C04 stake.unlocks-untouched", Unl::unchanged_except(|_| false));
            ob!("C01+C02 stake.nothing-else-changes", only(s, t) && epochs_same());
        }
    }
    stake_needs_signature(8) {
        let t: u64 = any(); let amt: Bal = any();
        let o = if any() { mf::rt::Origin::root() } else { mf::rt::Origin::none() };
        let r = match any::<u8>() % 3 { 0 => C::stake(o, t, amt), 1 => C::unstake(o, t, amt), _ => C::withdraw_unstaked(o) };
        ob!("C06 capacity.calls-need-a-signer", r.is_err() && state_same());
    }
    /// unstake, when no more is unstaked than is staked to that target
    unstake(8) {
        let s: u64 = any(); let t: u64 = any(); let amt: Bal = any();
        assume_state(s, t);
        let ep = cap::CurrentEpoch::<Test>::get();
        let (tok0, l0, u0) = (tgt0(s, t), led(Led::orig(t)), Unl::orig(s));
        let (n0, sum0) = sum(&u0);
        let r = C::unstake(mf::rt::Origin::signed(s), t, amt);
        cov!("C01+C02+C04 unstake can succeed", r.is_ok());
        if r.is_ok() {
            let a = active0(s) - active(s);
            let u1 = Unl::get(s); let (n, sm) = sum(&u1);
            ob!("C01 unstake.amount-positive-and-owned", amt > 0 && amt <= active0(s) && a >= amt);
            ob!("C04 unstake.leaves-nothing-or-more-than-minimum", active(s) == 0 || (a == amt && active(s) > MinStake::get()));
            ob!("C04 unstake.everything-only-at-or-below-minimum", a == amt || active0(s) - amt <= MinStake::get());
            ob!("C04 unstake.goes-to-unlocking", n == n0 + 1 && sm == sum0 + a);
            ob!("C04 unstake.chunk-limit", n <= 4);
            ob!("C04 unstake.thaws-after-full-period", { let x = nth(&u1, n0); x == Some((a, ep.saturating_add(Thaw::get() as u32))) });
            ob!("C04 unstake.old-chunks-kept", { let mut ok = true; let mut i = 0; while i < 4 { if i < n0 && nth(&u1, i) != nth(&u0, i) { ok = false; } i += 1; } ok });
            ob!("C02 unstake.tokens-stay-frozen", check_freeze(s) && Ccy::frozen_unchanged_except(|_, _| false));
            ob!("C01 unstake.relationship-exists", Tgt::orig(s, t).is_some());
            ob!("C01+C02 unstake.nothing-else-changes", only(s, t) && epochs_same());
            if a <= tok0.0 {
                let tk = tgt(s, t); let l = led(Led::get(t));
                let c = if a == tok0.0 { tok0.1 } else { mf::arith::Perbill::from_rational(a, l0.1).mul_ceil(l0.2) };
                cov!("C01 unstake of part of a target", a < tok0.0);
                ob!("C01 unstake.target-ledger-tokens", tk.0 == tok0.0 - a);
                ob!("C01 unstake.capacity-ledger-tokens", l.1 == l0.1 - a);
                ob!("C01 unstake.capacity-reduced-pro-rata", l.2 == l0.2.saturating_sub(c) && (tk.0 == 0 || tk.1 == tok0.1.saturating_sub(c)));
                ob!("C01+C03 unstake.available-capacity-reduced", l.0 == l0.0.saturating_sub(c));
                ob!("C01+C03 unstake.available-at-most-issued", l.0 <= l.2);
            }
        }
    }
    /// the finding: more is unstaked than was staked to the target
    unstake_over_target(8) {
        let s: u64 = any(); let t: u64 = any(); let amt: Bal = any();
        assume_state(s, t);
        let (tok0, l0) = (tgt0(s, t), led(Led::orig(t)));
        let r = C::unstake(mf::rt::Origin::signed(s), t, amt);
        if r.is_ok() { ob!("C01 unstake.never-more-than-staked-to-target", active0(s) - active(s) <= tok0.0); }
    }
    withdraw(8) {
        let s: u64 = any(); let t: u64 = any();
        assume_state(s, t);
        let ep = cap::CurrentEpoch::<Test>::get();
        let u0 = Unl::orig(s); let (n0, sum0) = sum(&u0);
        let r = C::withdraw_unstaked(mf::rt::Origin::signed(s));
        cov!("C02+C04 withdraw can succeed", r.is_ok());
        let mut thawed = (0 as Bal); let mut i = 0;
        while i < 4 { if let Some((v, at)) = nth(&u0, i) { if ep >= at { thawed += v; } } i += 1; }
        ob!("C04 withdraw.succeeds-iff-something-thawed", r.is_ok() == (thawed > 0));
        if r.is_ok() {
            let u1 = Unl::get(s); let (n, sm) = sum(&u1);
            ob!("C02+C04 withdraw.releases-exactly-the-thawed", sm + thawed == sum0 && Ccy::frozen(&ID, &s) + thawed == Ccy::frozen_orig(&ID, &s));
            // the unthawed chunks stay, in order
            let mut j = 0; let mut ok = true; let mut i = 0;
            while i < 4 { if let Some((v, at)) = nth(&u0, i) { if ep < at { if nth(&u1, j) != Some((v, at)) { ok = false; } j += 1; } } i += 1; }
            ob!("C04 withdraw.unthawed-chunks-stay", ok && j == n && n <= n0);
            ob!("C02 withdraw.freeze-covers-stake-and-unlocking", check_freeze(s));
            ob!("C01+C04 withdraw.stake-ledgers-untouched", ledgers_same() && epochs_same() && only(s, t));
        } else { ob!("C01 withdraw.failure-changes-no-ledger", ledgers_same() && epochs_same()); }
    }
    deduct(8) {
        let m: u64 = any(); let a: Bal = any();
        let l0 = led(Led::get(m));
        assume(l0.0 <= l0.2);
        let r = <C as Nontransferable>::deduct(m, a);
        let l = led(Led::get(m));
        cov!("C03 deduct can succeed", r.is_ok());
        ob!("C03 deduct.succeeds-iff-covered", r.is_ok() == (Led::orig(m).is_some() && a <= l0.0));
        if r.is_ok() { ob!("C03 deduct.takes-exactly-the-amount", l.0 + a == l0.0 && (l.1, l.2, l.3) == (l0.1, l0.2, l0.3)); }
        else { ob!("C03 deduct.failure-takes-nothing", l == l0); }
        ob!("C03 deduct.nothing-else-changes", Led::unchanged_except(|k| *k == m) && Acct::unchanged_except(|_| false) && Tgt::unchanged_except(|_, _| false) && epochs_same() && Unl::unchanged_except(|_| false) && Ccy::frozen_unchanged_except(|_, _| false) && Ccy::free_unchanged_except(|_| false));
        ob!("C03 balance-is-remaining", <C as Nontransferable>::balance(m) == l.0);
    }
    /// at most one refill per MSA and epoch, to exactly what was issued
    replenish(8) {
        let m: u64 = any();
        let l0 = led(Led::get(m)); let had = Led::orig(m).is_some();
        let ep = cap::CurrentEpoch::<Test>::get();
        ob!("C03 replenish.allowed-iff-not-yet-this-epoch", <C as Replenishable>::can_replenish(m) == (had && l0.3 < ep));
        let r = <C as Replenishable>::replenish_all_for(m);
        let l = led(Led::get(m));
        cov!("C03 replenish can succeed", r.is_ok());
        ob!("C03 replenish.succeeds-iff-capacity-exists", r.is_ok() == had);
        if r.is_ok() {
            ob!("C03 replenish.refills-to-issued", l.0 == l0.2);
            ob!("C03 replenish.totals-untouched", (l.1, l.2) == (l0.1, l0.2));
            ob!("C03 replenish.marks-the-epoch", l.3 == ep && !<C as Replenishable>::can_replenish(m));
        } else { ob!("C03 replenish.failure-changes-nothing", Led::orig(m).is_none() && Led::get(m).is_none()); }
        ob!("C03 replenish.nothing-else-changes", Led::unchanged_except(|k| *k == m) && Acct::unchanged_except(|_| false) && Tgt::unchanged_except(|_, _| false) && epochs_same());
    }
    /// capacity granted through the Nontransferable interface keeps remaining <= issued
    grant(8) {
        let m: u64 = any(); let a: Bal = any();
        let l0 = led(Led::get(m));
        assume(a < LIM && l0.0 < LIM && l0.1 < LIM && l0.2 < LIM && l0.0 <= l0.2);
        let r = <C as Nontransferable>::deposit(m, a);
        let l = led(Led::get(m)); let c = Per::get() * a;
        ob!("C03 grant.needs-existing-ledger", r.is_ok() == Led::orig(m).is_some());
        if r.is_ok() { ob!("C03 grant.adds-tokens-and-capacity", l == (l0.0 + c, l0.1 + a, l0.2 + c, l0.3)); }
    }
    epoch(8) {
        let now: u32 = any();
        let (e0, st, len) = (cap::CurrentEpoch::<Test>::get(), cap::CurrentEpochInfo::<Test>::get().epoch_start, cap::EpochLength::<Test>::get());
        let _ = <C as Hooks<u32>>::on_initialize(now);
        let (e1, st1) = (cap::CurrentEpoch::<Test>::get(), cap::CurrentEpochInfo::<Test>::get().epoch_start);
        let due = now.saturating_sub(st) >= len;
        cov!("C05 an epoch can start", due);
        cov!("C05 an epoch can continue", !due);
        ob!("C05 epoch.advances-exactly-when-due", e1 == if due { e0.saturating_add(1) } else { e0 });
        ob!("C05 epoch.start-recorded", st1 == if due { now } else { st });
        ob!("C05 epoch.length-untouched", cap::EpochLength::<Test>::get() == len);
        ob!("C05 epoch.ledgers-untouched", ledgers_same() && Unl::unchanged_except(|_| false));
    }
    epoch_length(8) {
        let x: u32 = any(); let root: bool = any(); let s: u64 = any();
        let o = if root { mf::rt::Origin::root() } else if any() { mf::rt::Origin::none() } else { mf::rt::Origin::signed(s) };
        let l0 = cap::EpochLength::<Test>::get();
        let r = C::set_epoch_length(o, x);
        cov!("C05 length can be set", r.is_ok());
        ob!("C05 epoch-length.root-and-bounded", r.is_ok() == (root && x <= MaxEpoch::get()));
        ob!("C05 epoch-length.set", cap::EpochLength::<Test>::get() == if r.is_ok() { x } else { l0 });
        ob!("C05 epoch-length.nothing-else-changes", ledgers_same() && cap::CurrentEpoch::<Test>::is_unchanged() && cap::CurrentEpochInfo::<Test>::is_unchanged() && Unl::unchanged_except(|_| false));
    }
}
