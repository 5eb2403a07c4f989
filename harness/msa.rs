//! Contracts of pallet-msa (real source), over arbitrary state.
use common_primitives::capacity::TargetValidator;
use common_primitives::handles::{HandleProvider, HandleResponse};
use common_primitives::msa::*;
use common_primitives::node::ProposalProvider;
use common_primitives::schema::{SchemaId, SchemaValidator};
use common_primitives::utils::wrap_binary_data;
use mf::codec::Encode;
use mf::frame_support::traits::*;
use mf::nd::*;
use mf::sp_runtime::traits::{Convert, SignedExtension};
use mf::sp_runtime::{AccountId32, DispatchError, MultiSignature};
use mf::vecs::Vec;
use mf::{cov, ob};
use pallet_msa as msa;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Test;
mf::mock_event!(Ev { Msa(msa::Event<Test>) });
mf::mock_call!(RC(msa::Call<Test>));
mf::mock_system!(Test, u64, u32, RC, Ev);
pub struct To32;
impl Convert<u64, AccountId32> for To32 { fn convert(a: u64) -> AccountId32 { AccountId32::from_id(a) } }
mf::oracle!(Sch: u64);
impl SchemaValidator<SchemaId> for Sch { fn are_all_schema_ids_valid(s: &Vec<SchemaId>) -> bool { let mut k = s.len() as u64; let mut i = 0; while i < 3 { if i < s.len() { k = k << 16 | s[i] as u64; } i += 1; } Sch::ask(k) } }
mf::oracle!(Hnd: u64);
impl HandleProvider for Hnd { fn get_handle_for_msa(k: u64) -> Option<HandleResponse> { if Hnd::ask(k) { Some(HandleResponse { base_handle: Vec::new(), canonical_base: Vec::new(), suffix: 0 }) } else { None } } }
pub struct Prop;
static mut PROPOSED: Option<(u64, RC)> = None;
pub fn proposed() -> Option<(u64, RC)> { unsafe { PROPOSED.clone() } }
impl ProposalProvider<u64, RC> for Prop {
    fn propose(w: u64, _t: u32, p: Box<RC>) -> Result<(u32, u32), DispatchError> { unsafe { PROPOSED = Some((w, *p)); } Ok((1, 1)) }
    fn propose_with_simple_majority(w: u64, p: Box<RC>) -> Result<(u32, u32), DispatchError> { unsafe { PROPOSED = Some((w, *p)); } Ok((1, 1)) }
}
#[cfg(not(any(g1, g2)))] pub type Grants = ConstU32<3>;
#[cfg(g1)] pub type Grants = ConstU32<1>;
#[cfg(g1)] pub const LISTED: usize = 1;
#[cfg(not(g1))] pub const LISTED: usize = 2;
#[cfg(g2)] pub type Grants = ConstU32<2>;
mf::constants! { MaxKeys: u8, Window: u32, SigCap: u32 }
pub struct SigMax;
impl Get<Option<u32>> for SigMax { fn get() -> Option<u32> { Some(SigCap::get()) } }
pub struct Gov;
impl EnsureOrigin<mf::rt::Origin<u64, RC>> for Gov { type Success = (); fn try_origin(o: mf::rt::Origin<u64, RC>) -> Result<(), mf::rt::Origin<u64, RC>> { match &o.0 { mf::frame_system::RawOrigin::Root => Ok(()), _ => Err(o) } } }
impl msa::Config for Test {
    type RuntimeEvent = Ev; type WeightInfo = (); type ConvertIntoAccountId32 = To32; type MaxPublicKeysPerMsa = MaxKeys;
    type MaxSchemaGrantsPerDelegation = Grants; type MaxProviderNameSize = ConstU32<2>; type SchemaValidator = Sch; type HandleProvider = Hnd;
    type MortalityWindowSize = Window; type MaxSignaturesStored = SigMax; type CreateProviderViaGovernanceOrigin = Gov; type Proposal = RC; type ProposalProvider = Prop;
}
pub type M = msa::Pallet<Test>;
pub type O = mf::rt::Origin<u64, RC>;
pub type Keys = msa::PublicKeyToMsaId<Test>;
pub type Dlg = msa::DelegatorAndProviderToDelegation<Test>;
pub type Reg = msa::ProviderToRegistryEntry<Test>;
pub type MaxId = msa::CurrentMsaIdentifierMaximum<Test>;
pub type D = Delegation<SchemaId, u32, Grants>;
pub type Sys = mf::frame_system::Pallet<Test>;
pub type Free = msa::CheckFreeExtrinsicUse<Test>;
pub fn setup() { init_constants(); mf::frame_system::mf_init::<Test>(); msa::pallet::mf_init::<Test>(); Sch::reset(); Hnd::reset(); unsafe { PROPOSED = None; } }
pub fn init() { setup(); assume(MaxKeys::get() > 0); assume(SigCap::get() > 1 && SigCap::get() < 1 << 30 && Window::get() < 1 << 30); assume(Sys::block_number() < 1 << 30 && Sys::block_number() > 0); }

pub fn now() -> u32 { Sys::block_number() }
pub fn count(m: u64) -> u8 { M::get_public_key_count_by_msa_id(m) }
/// invariant of one registered key: it belongs to an issued id whose key count is positive and within the limit
fn key_ok(k: u64) { if let Some(m) = Keys::get(k) { assume(m >= 1 && m <= MaxId::get() && count(m) >= 1 && count(m) <= MaxKeys::get()); } }
/// two different keys of one MSA are both counted
fn two_ok(a: u64, b: u64) { if a != b { if let (Some(x), Some(y)) = (Keys::get(a), Keys::get(b)) { assume(x != y || count(x) >= 2); } } }
/// an id that was not issued yet has no keys
fn fresh_ok(m: u64) { assume(m <= MaxId::get() || count(m) == 0); }
/// was this signature accepted over the wrapped encoding of `p` by key `k`?
fn signed<P: Encode>(s: &MultiSignature, p: &P, k: u64) -> bool {
    let w = wrap_binary_data(p.encode());
    let a = AccountId32::from_id(k);
    let l = mf::sp_runtime::verify_log();
    let mut r = false; let mut i = 0;
    while i < 3 { if i < l.len() && l[i].sig == *s && l[i].signer == a && l[i].msg == w && l[i].result == 1 { r = true; } i += 1; }
    r
}
/// token mode: the wrapping, by its contract (injective, and different from what it wraps)
#[cfg(kani)]
fn wrap_contract(d: Vec<u8>) -> Vec<u8> { let mut o = Vec::new(); o.push(0xE1); let mut i = 0; while i < 2 { if i < d.len() { o.push(d[i]); } i += 1; } o }
fn ids(n: usize) -> Vec<SchemaId> { let v: Vec<SchemaId> = mf::nd::nd_vec_max(n); v }
fn has(v: &Vec<SchemaId>, s: SchemaId) -> bool { let mut r = false; let mut i = 0; while i < 4 { if i < v.len() && v[i] == s { r = true; } i += 1; } r }
/// what a delegation says of a schema: None (never granted), Some(0) active, Some(b) revoked at b
fn grant_of(d: &Option<D>, s: SchemaId) -> Option<u32> { match d { None => None, Some(d) => d.schema_permissions.get(&s).copied() } }
fn revoked_at(d: &Option<D>) -> Option<u32> { d.as_ref().map(|d| d.revoked_at) }
fn dlg_ok(d: &Option<D>) { if let Some(d) = d { assume(d.revoked_at <= now()); } }
fn others(except: u64) -> bool { Keys::unchanged_except(|k| *k == except) }
fn delegations_same() -> bool { Dlg::unchanged_except(|_, _| false) }
fn providers_same() -> bool { Reg::unchanged_except(|_| false) }
pub fn payload(auth: u64, ids: Vec<SchemaId>, exp: u32) -> msa::AddProvider { msa::AddProvider { authorized_msa_id: auth, schema_ids: ids, expiration: exp } }
/// a signature is spent: it is in the registry with the given expiry
fn spent(s: &MultiSignature, e: u32) -> bool {
    let a = match M::get_payload_signature_registry(*s) { Some((x, _)) => x == e, None => false };
    let b = match M::get_payload_signature_pointer() { Some(p) => p.count != 0 && p.newest == *s && p.newest_expires_at == e, None => false };
    a || b
}
fn not_full() { if let Some(p) = M::get_payload_signature_pointer() { assume(p.count < SigCap::get()); } }

mf::contracts! {
    create(8) {
        let k: u64 = any(); let other: u64 = any();
        let m0 = MaxId::get(); let k0 = Keys::get(k);
        key_ok(k); if m0 < u64::MAX { fresh_ok(m0 + 1); }
        let c0 = count(other);
        let r = M::create(O::signed(k));
        cov!("M01 create can succeed", r.is_ok());
        ob!("M01 create.succeeds-iff-key-is-free", r.is_ok() == (k0.is_none() && m0 < u64::MAX));
        if r.is_ok() {
            ob!("M01 create.next-identifier", Keys::get(k) == Some(m0 + 1) && MaxId::get() == m0 + 1);
            ob!("M01 create.new-msa-has-one-key", count(m0 + 1) == 1);
            ob!("M01 create.nothing-else-changes", others(k) && delegations_same() && providers_same() && (other == m0 + 1 || count(other) == c0));
        }
    }
    #[cfg_attr(kani, kani::stub(common_primitives::utils::wrap_binary_data, super::wrap_contract))]
    add_key(8) {
        let (s, owner, nk): (u64, u64, u64) = (any(), any(), any());
        let (p1, p2): (MultiSignature, MultiSignature) = (Nd::nd(), Nd::nd());
        let pl = msa::AddKeyData::<Test> { msa_id: any(), expiration: any(), new_public_key: nk };
        not_full(); key_ok(owner); key_ok(nk); two_ok(owner, nk);
        let (o0, n0, c0) = (Keys::get(owner), Keys::get(nk), count(pl.msa_id));
        let e = pl.expiration;
        let known = spent(&p1, e) || spent(&p2, e);
        let r = M::add_public_key_to_msa(O::signed(s), owner, p1, p2, pl.clone());
        cov!("M01+M02+M05 a key can be added", r.is_ok());
        if r.is_ok() {
            ob!("M01 add-key.key-was-free", n0.is_none());
            ob!("M01 add-key.key-joins-the-msa", Keys::get(nk) == Some(pl.msa_id));
            ob!("M01 add-key.count-grows-within-the-limit", count(pl.msa_id) == c0 + 1 && c0 < MaxKeys::get());
            ob!("M01 add-key.nothing-else-changes", others(nk) && MaxId::is_unchanged() && delegations_same() && providers_same());
            ob!("M02 add-key.by-a-key-of-that-msa", o0 == Some(pl.msa_id));
            ob!("M02 add-key.owner-signed", signed(&p1, &pl, owner));
            ob!("M02 add-key.new-key-signed", signed(&p2, &pl, nk));
            ob!("M05 add-key.within-the-window", e > now() && e < now() + Window::get());
            ob!("M05 add-key.signatures-were-unused", !known);
            ob!("M05 add-key.signatures-are-spent", spent(&p1, e) && spent(&p2, e));
        }
    }
    #[cfg_attr(kani, kani::stub(common_primitives::utils::wrap_binary_data, super::wrap_contract))]
    sponsored(8) {
        let (pk, dk): (u64, u64) = (any(), any()); let pf: MultiSignature = Nd::nd();
        let pl = payload(any(), ids(LISTED), any()); let sid: SchemaId = any();
        not_full(); key_ok(pk); key_ok(dk);
        let m0 = MaxId::get(); if m0 < u64::MAX { fresh_ok(m0 + 1); assume(Dlg::get(DelegatorId(m0 + 1), ProviderId(pl.authorized_msa_id)).is_none()); }
        let (pm, d0) = (Keys::get(pk), Keys::get(dk));
        let known = spent(&pf, pl.expiration);
        let r = M::create_sponsored_account_with_delegation(O::signed(pk), dk, pf, pl.clone());
        cov!("M01+M02+M04+M05 an account can be sponsored", r.is_ok());
        if r.is_ok() {
            let (m, p) = (m0 + 1, pl.authorized_msa_id);
            ob!("M02 sponsored.owner-signed", signed(&pf, &pl, dk));
            ob!("M02 sponsored.by-the-authorised-provider", pm == Some(p) && Reg::contains_key(ProviderId(p)));
            ob!("M01 sponsored.fresh-identifier-for-a-free-key", d0.is_none() && Keys::get(dk) == Some(m) && MaxId::get() == m && count(m) == 1);
            ob!("M01 sponsored.nothing-else-changes", others(dk) && providers_same());
            let d = Dlg::get(DelegatorId(m), ProviderId(p));
            ob!("M04 sponsored.delegation-to-the-provider", revoked_at(&d) == Some(0));
            ob!("M04 sponsored.grants-exactly-the-listed", grant_of(&d, sid) == if has(&pl.schema_ids, sid) { Some(0) } else { None });
            ob!("M04 sponsored.no-other-delegation", Dlg::unchanged_except(|a, b| a.0 == m && b.0 == p));
            ob!("M05 sponsored.within-the-window", pl.expiration > now() && pl.expiration < now() + Window::get());
            ob!("M05 sponsored.signature-once", !known && spent(&pf, pl.expiration));
        }
    }
    #[cfg_attr(kani, kani::stub(common_primitives::utils::wrap_binary_data, super::wrap_contract))]
    grant(8) {
        let (pk, dk): (u64, u64) = (any(), any()); let pf: MultiSignature = Nd::nd();
        let pl = payload(any(), ids(LISTED), any()); let sid: SchemaId = any();
        not_full(); key_ok(pk); key_ok(dk);
        let (pm, dm) = (Keys::get(pk), Keys::get(dk));
        let d0 = match (pm, dm) { (Some(p), Some(d)) => Dlg::get(DelegatorId(d), ProviderId(p)), _ => None };
        dlg_ok(&d0);
        let known = spent(&pf, pl.expiration);
        let r = M::grant_delegation(O::signed(pk), dk, pf, pl.clone());
        cov!("M02+M04+M05 a delegation can be granted", r.is_ok());
        cov!("M04 a delegation can be updated", r.is_ok() && d0.is_some());
        if r.is_ok() {
            ob!("M02 grant.delegator-signed", signed(&pf, &pl, dk));
            ob!("M02 grant.by-the-authorised-provider", pm == Some(pl.authorized_msa_id) && Reg::contains_key(ProviderId(pl.authorized_msa_id)));
            ob!("M02 grant.not-to-oneself", dm.is_some() && dm != pm);
            let (p, d) = (ProviderId(pm.unwrap_or(0)), DelegatorId(dm.unwrap_or(0)));
            let d1 = Dlg::get(d, p);
            ob!("M04 grant.delegation-active", revoked_at(&d1) == Some(0));
            ob!("M04 grant.listed-schemas-active", !has(&pl.schema_ids, sid) || grant_of(&d1, sid) == Some(0));
            ob!("M04 grant.unlisted-schemas-end-now", has(&pl.schema_ids, sid) || grant_of(&d1, sid) == match grant_of(&d0, sid) { Some(0) => Some(now()), x => x });
            ob!("M04 grant.nothing-else-changes", Dlg::unchanged_except(|a, b| *a == d && *b == p) && others_none() && providers_same() && MaxId::is_unchanged());
            ob!("M05 grant.within-the-window", pl.expiration > now() && pl.expiration < now() + Window::get());
            ob!("M05 grant.signature-once", !known && spent(&pf, pl.expiration));
        }
    }
    /// the registry, full or not: an accepted signature stays spent until its payload has expired
    #[cfg_attr(kani, kani::stub(common_primitives::utils::wrap_binary_data, super::wrap_contract))]
    registry(8) {
        let (pk, dk): (u64, u64) = (any(), any()); let (pf, old): (MultiSignature, MultiSignature) = (Nd::nd(), Nd::nd());
        let e: u32 = any(); let oe: u32 = any();
        let was = spent(&old, oe);
        assume(was);
        // a registered signature has one entry: in the list, or as the newest
        let p0 = M::get_payload_signature_pointer();
        if let Some(p) = &p0 { assume(p.count <= SigCap::get() && p.count > 0); assume(M::get_payload_signature_registry(p.newest).is_none()); }
        let r = M::grant_delegation(O::signed(pk), dk, pf, payload(any(), Vec::new(), e));
        cov!("M05 another signature can be used", r.is_ok());
        if r.is_ok() {
            ob!("M05 registry.spent-until-expired", spent(&old, oe) || oe < now());
            ob!("M05 registry.used-signature-is-rejected", !(pf == old) || oe < now());
            ob!("M05 registry.new-signature-spent", spent(&pf, e));
            ob!("M05 registry.within-the-window", e > now() && e < now() + Window::get());
            ob!("M05 registry.bounded", match M::get_payload_signature_pointer() { Some(p) => p.count <= SigCap::get() && p.count > 0, None => false });
        }
    }
    revoke(8) {
        let (k, x): (u64, u64) = (any(), any()); let by_delegator: bool = any(); let sid: SchemaId = any();
        let m = Keys::get(k);
        let (d, p) = match m { Some(m) => if by_delegator { (m, x) } else { (x, m) }, None => (0, 0) };
        let (d, p) = (DelegatorId(d), ProviderId(p));
        let d0 = if m.is_some() { Dlg::get(d, p) } else { None };
        let r = if by_delegator { M::revoke_delegation_by_delegator(O::signed(k), x) } else { M::revoke_delegation_by_provider(O::signed(k), x) };
        cov!("M02+M04 a delegation can be revoked", r.is_ok() && m.is_some());
        if m.is_none() { ob!("M02 revoke.stranger-changes-nothing", delegations_same()); }
        else { ob!("M04 revoke.succeeds-iff-active", r.is_ok() == (revoked_at(&d0) == Some(0))); }
        if r.is_ok() && m.is_some() {
            let d1 = Dlg::get(d, p);
            ob!("M04 revoke.ends-at-this-block", revoked_at(&d1) == Some(now()));
            ob!("M04 revoke.schema-grants-kept", grant_of(&d1, sid) == grant_of(&d0, sid));
            ob!("M02 revoke.only-own-delegation", Dlg::unchanged_except(|a, b| *a == d && *b == p));
        }
        ob!("M02 revoke.nothing-else-changes", others_none() && providers_same() && MaxId::is_unchanged());
    }
    revoke_schemas(8) {
        let (k, x): (u64, u64) = (any(), any()); let l = ids(LISTED); let sid: SchemaId = any();
        let m = Keys::get(k);
        let d0 = match m { Some(m) => Dlg::get(DelegatorId(m), ProviderId(x)), None => None };
        #[allow(deprecated)]
        let r = M::revoke_schema_permissions(O::signed(k), x, l.clone());
        cov!("M04 schemas can be revoked", r.is_ok());
        if r.is_ok() {
            let (d, p) = (DelegatorId(m.unwrap_or(0)), ProviderId(x));
            let d1 = Dlg::get(d, p);
            ob!("M04 revoke-schemas.of-an-existing-delegation", m.is_some() && d0.is_some());
            ob!("M04 revoke-schemas.listed-were-granted", !has(&l, sid) || grant_of(&d0, sid).is_some());
            ob!("M04 revoke-schemas.listed-end-now-others-stay", grant_of(&d1, sid) == if has(&l, sid) { Some(now()) } else { grant_of(&d0, sid) });
            ob!("M04 revoke-schemas.delegation-stays", revoked_at(&d1) == revoked_at(&d0));
            ob!("M04 revoke-schemas.nothing-else-changes", Dlg::unchanged_except(|a, b| *a == d && *b == p) && others_none() && providers_same());
        }
    }
    validity(8) {
        let (d, p) = (DelegatorId(any()), ProviderId(any())); let sid: SchemaId = any(); let b: u32 = any(); let now_q: bool = any();
        let d0 = Dlg::get(d, p);
        let at = if now_q { now() } else { b };
        let r = <M as DelegationValidator>::ensure_valid_delegation(p, d, if now_q { None } else { Some(b) });
        cov!("M03 a delegation can be valid", r.is_ok());
        cov!("M03 a delegation can be invalid", r.is_err());
        let live = match revoked_at(&d0) { Some(x) => x == 0 || at <= x, None => false };
        ob!("M03 validity.exactly-while-not-revoked", r.is_ok() == (at <= now() && live));
        if let Ok(x) = r { ob!("M03 validity.answers-with-the-delegation", Some(x) == d0); }
        let g = <M as SchemaGrantValidator<u32>>::ensure_valid_schema_grant(p, d, sid, at);
        let granted = match grant_of(&d0, sid) { Some(x) => x == 0 || at <= x, None => false };
        cov!("M03 a grant can be valid", g.is_ok());
        ob!("M03 validity.schema-grant-needs-delegation-and-schema", g.is_ok() == (at <= now() && live && granted));
        ob!("M03 validity.reads-only", delegations_same());
    }
    /// what the chain reports about grants agrees with what it enforces
    reported(8) {
        let (d, p) = (DelegatorId(any()), ProviderId(any())); let sid: SchemaId = any(); let b: u32 = any();
        let d0 = Dlg::get(d, p);
        let l = M::get_granted_schemas_by_msa_id(d, Some(p));
        assume(b <= now() && b > 0);
        let g = <M as SchemaGrantValidator<u32>>::ensure_valid_schema_grant(p, d, sid, b).is_ok();
        cov!("M03 grants can be listed", l.is_ok());
        match l {
            Ok(l) => {
                ob!("M03 reported.one-provider", l.len() == 1 && l[0].provider_id == p);
                let mut said = false; let mut n = 0; let mut i = 0;
                while i < 3 { if l.len() == 1 && i < l[0].permissions.len() && l[0].permissions[i].schema_id == sid { n += 1; let x = l[0].permissions[i].revoked_at; said = x == 0 || b <= x; } i += 1; }
                ob!("M03 reported.each-grant-once", n == if grant_of(&d0, sid).is_some() { 1 } else { 0 });
                ob!("M03 reported.agrees-with-enforcement", said == g);
            }
            Err(_) => ob!("M03 reported.nothing-enforced-when-not-reported", !g),
        }
    }
    delete_key(8) {
        let (k, x, o): (u64, u64, u64) = (any(), any(), any());
        key_ok(k); key_ok(x); two_ok(k, x);
        let (km, xm) = (Keys::get(k), Keys::get(x)); let c0 = match km { Some(m) => count(m), None => 0 }; let oc = count(o);
        let v = free(&k, RC(msa::Call::delete_msa_public_key { public_key_to_delete: x }));
        ob!("M02+M07 delete-key.only-by-another-key-of-the-same-msa", v == (k != x && km.is_some() && km == xm));
        ob!("M07 validate.reads-only", Keys::unchanged_except(|_| false) && delegations_same());
        if v {
            let r = M::delete_msa_public_key(O::signed(k), x);
            cov!("M01+M02+M07 a key can be deleted", r.is_ok());
            ob!("M07 delete-key.accepted-calls-succeed", r.is_ok());
            if r.is_ok() {
                ob!("M01 delete-key.key-is-free-again", Keys::get(x).is_none());
                ob!("M01 delete-key.count-shrinks", match km { Some(m) => count(m) == c0 - 1 && c0 >= 2 && (o == m || count(o) == oc), None => false });
                ob!("M01 delete-key.nothing-else-changes", others(x) && MaxId::is_unchanged() && delegations_same() && providers_same());
            }
        }
    }
    retire(8) {
        let (k, o): (u64, u64) = (any(), any());
        let m = Keys::get(k); key_ok(k); key_ok(o); two_ok(k, o);
        let mi = m.unwrap_or(0); let c0 = count(mi); let some_p = ProviderId(any());
        let d0 = Dlg::get(DelegatorId(mi), some_p);
        let reg = Reg::contains_key(ProviderId(mi));
        let v = Free::new().validate(&k, &RC(msa::Call::retire_msa {}), &Default::default(), 0).is_ok();
        if v {
            ob!("M06 retire.needs-an-msa", m.is_some());
            ob!("M06 retire.not-a-provider", !reg);
            ob!("M06 retire.no-handle", Hnd::said(mi) == Some(false));
            ob!("M06 retire.last-key", c0 == 1 && (o == k || Keys::get(o) != m));
            ob!("M06 retire.no-active-delegation", match revoked_at(&d0) { None => true, Some(x) => x != 0 && x < now() });
            let r = M::retire_msa(O::signed(k));
            cov!("M06+M07 an msa can be retired", r.is_ok());
            ob!("M07 retire.accepted-calls-succeed", r.is_ok());
            if r.is_ok() {
                ob!("M06 retire.no-key-left", Keys::get(k).is_none() && count(mi) == 0);
                ob!("M06 retire.identifier-is-never-reissued", MaxId::is_unchanged() && mi <= MaxId::get());
                ob!("M06 retire.nothing-else-changes", others(k) && delegations_same() && providers_same());
            }
        }
    }
    retire_block(8) {
        let k: u64 = any(); key_ok(k);
        free(&k, RC(msa::Call::retire_msa {}));
    }
    free_revoke_d(8) {
        let (k, x): (u64, u64) = (any(), any());
        let d0 = Keys::get(k).and_then(|m| Dlg::get(DelegatorId(m), ProviderId(x))); dlg_ok(&d0);
        let v = free(&k, RC(msa::Call::revoke_delegation_by_delegator { provider_msa_id: x }));
        cov!("M07 a free revocation can be accepted", v);
        ob!("M07 free-revoke.by-delegator.accepted-iff-active", v == (revoked_at(&d0) == Some(0)));
        if v { ob!("M07 free-revoke.by-delegator.accepted-calls-succeed", M::revoke_delegation_by_delegator(O::signed(k), x).is_ok()); }
    }
    free_revoke_p(8) {
        let (k, x): (u64, u64) = (any(), any());
        let d0 = Keys::get(k).and_then(|m| Dlg::get(DelegatorId(x), ProviderId(m))); dlg_ok(&d0);
        let v = free(&k, RC(msa::Call::revoke_delegation_by_provider { delegator: x }));
        cov!("M07 a free revocation can be accepted", v);
        ob!("M07 free-revoke.by-provider.accepted-iff-active", v == (revoked_at(&d0) == Some(0)));
        if v { ob!("M07 free-revoke.by-provider.accepted-calls-succeed", M::revoke_delegation_by_provider(O::signed(k), x).is_ok()); }
    }
    free_nothing_else(8) {
        let k: u64 = any();
        ob!("M07 free.other-calls-pass-through", free(&k, RC(msa::Call::create {})) && free(&k, RC(msa::Call::create_provider { provider_name: Vec::new() })) && Keys::unchanged_except(|_| false));
    }
    provider(8) {
        let (k, s): (u64, u64) = (any(), any()); let name: Vec<u8> = mf::nd::nd_vec_max(3); let gov: bool = any(); let root: bool = any();
        let m = Keys::get(k); let mi = ProviderId(m.unwrap_or(0)); let r0 = Reg::contains_key(mi);
        let len = name.len();
        let r = if gov { M::create_provider_via_governance(if root { O::root() } else { O::signed(s) }, k, name) } else { M::create_provider(O::signed(k), name) };
        cov!("M08 a provider can register", r.is_ok());
        ob!("M08 provider.registers-once-with-an-msa", r.is_ok() == (m.is_some() && !r0 && len <= 2 && (!gov || root)));
        if r.is_ok() {
            ob!("M08 provider.registered", Reg::contains_key(mi) && <M as TargetValidator>::validate(mi.0));
            ob!("M08 provider.nothing-else-changes", Reg::unchanged_except(|p| *p == mi) && others_none() && delegations_same() && MaxId::is_unchanged());
        } else { ob!("M08 provider.failure-changes-nothing", providers_same() && others_none()); }
    }
    propose(8) {
        let s: u64 = any(); let name: Vec<u8> = mf::nd::nd_vec_max(3); let n = name.clone();
        let m = Keys::get(s);
        let r = M::propose_to_be_provider(O::signed(s), name);
        cov!("M08 a provider can be proposed", r.is_ok());
        ob!("M08 propose.needs-an-msa-and-a-short-name", r.is_ok() == (m.is_some() && n.len() <= 2));
        if r.is_ok() { ob!("M08 propose.for-the-proposer-itself", proposed() == Some((s, RC(msa::Call::create_provider_via_governance { provider_key: s, provider_name: n })))); }
        ob!("M08 propose.registers-nothing", providers_same());
    }
    unsigned(8) {
        let o = if any() { O::root() } else { O::none() }; let x: u64 = any();
        let r = match any::<u8>() % 7 { 0 => M::create(o), 1 => M::revoke_delegation_by_delegator(o, x), 2 => M::revoke_delegation_by_provider(o, x), 3 => M::delete_msa_public_key(o, x), 4 => M::retire_msa(o), 5 => M::create_provider(o, Vec::new()), _ => M::propose_to_be_provider(o, Vec::new()) };
        ob!("M02 msa.calls-need-a-signer", r.is_err() && others_none() && delegations_same() && providers_same());
    }
    /// lookups answer from the key table
    lookup(8) {
        let (k, m): (u64, u64) = (any(), any());
        ob!("M01 lookup.key-to-msa", <M as MsaLookup>::get_msa_id(&k) == Keys::get(k) && <M as MsaValidator>::ensure_valid_msa_key(&k).ok() == Keys::get(k));
        ob!("M08 lookup.provider", <M as TargetValidator>::validate(m) == Reg::contains_key(ProviderId(m)));
    }
}
/// does the node accept the free transaction, into its pool and into a block?
fn free(k: &u64, c: RC) -> bool {
    let v = Free::new().validate(k, &c, &Default::default(), 0).is_ok();
    let p = Free::new().pre_dispatch(k, &c, &Default::default(), 0).is_ok();
    ob!("M07 free.pool-and-block-agree", v == p);
    v
}
fn others_none() -> bool { Keys::unchanged_except(|_| false) }
