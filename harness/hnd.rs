//! Contracts of pallet-handles (real source), over arbitrary state.
use common_primitives::handles::*;
use common_primitives::msa::*;
use common_primitives::utils::wrap_binary_data;
use handles_utils::{ascii, info, suffix_at, Info, TL};
use mf::bounded::BoundedVec;
use mf::codec::Encode;
use mf::frame_support::traits::*;
use mf::nd::*;
use mf::numtoa::NumToA;
use mf::sp_runtime::traits::{Convert, SignedExtension};
use mf::sp_runtime::{AccountId32, DispatchError, MultiSignature};
use mf::vecs::Vec;
use mf::{cov, ob};
use pallet_handles as handles;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Test;
mf::mock_event!(Ev { Handles(handles::Event<Test>) });
mf::mock_call!(RC(handles::Call<Test>));
mf::mock_system!(Test, u64, u32, RC, Ev);
mf::lookup!(MsaOf: u64 => Option<u64>);
impl MsaLookup for MsaOf { type AccountId = u64; fn get_msa_id(k: &u64) -> Option<u64> { MsaOf::ask(*k) } }
impl MsaValidator for MsaOf { type AccountId = u64; fn ensure_valid_msa_key(k: &u64) -> Result<u64, DispatchError> { MsaOf::ask(*k).ok_or(DispatchError::Other("no msa")) } }
pub struct To32;
impl Convert<u64, AccountId32> for To32 { fn convert(a: u64) -> AccountId32 { AccountId32::from_id(a) } }
mf::constants! { Min: u16, Max: u16, Window: u32 }
impl handles::Config for Test {
    type RuntimeEvent = Ev; type WeightInfo = (); type ConvertIntoAccountId32 = To32; type MsaInfoProvider = MsaOf; type HandleSuffixMin = Min; type HandleSuffixMax = Max; type MortalityWindowSize = Window;
}
pub type P = handles::Pallet<Test>;
pub type O = mf::rt::Origin<u64, RC>;
pub type Entries = handles::CanonicalBaseHandleAndSuffixToMSAId<Test>;
pub type Names = handles::MSAIdToDisplayName<Test>;
pub type Index = handles::CanonicalBaseHandleToSuffixIndex<Test>;
pub type Free = handles::handles_signed_extension::HandlesSignedExtension<Test>;
pub type Sys = mf::frame_system::Pallet<Test>;
pub type Text = Vec<u8>;
pub fn now() -> u32 { Sys::block_number() }
pub fn setup() { init_constants(); mf::frame_system::mf_init::<Test>(); handles::pallet::mf_init::<Test>(); MsaOf::reset(); handles_utils::reset(); mf::sp_runtime::verify_reset(); }
pub fn init() { set_len(TL); setup(); assume(Window::get() < 1 << 30 && now() < 1 << 30); assume(Min::get() <= Max::get()); }
pub fn text() -> Text { ascii(nd_vec_max(TL)) }
pub fn bv<S>(t: &Text) -> BoundedVec<u8, S> { BoundedVec(t.clone(), core::marker::PhantomData) }
pub fn display(b: &Text, s: u16) -> DisplayHandle { let mut v = b.clone(); v.push(b'.'); let mut d = [0u8; SUFFIX_MAX_DIGITS]; v.extend_from_slice(s.numtoa(10, &mut d)); BoundedVec(v, core::marker::PhantomData) }
pub fn canon(b: &Text) -> Text { info(b.as_slice()).canon.clone() }
fn origin(k: u8, who: u64) -> O { match k { 0 => O::none(), 1 => O::root(), _ => O::signed(who) } }
/// what makes a text a valid handle
pub fn valid(b: &Text) -> bool { let i = info(b.as_slice()); let (n, c) = (b.len(), i.canon.len()); !i.reserved && !i.blocked && n >= 3 && n <= 20 && c >= 3 && c <= 20 && info(i.canon.as_slice()).supported }
/// the index of the next suffix of a canonical text
pub fn next(c: &Text) -> Option<u16> { match Index::get::<CanonicalBase>(bv(c)) { None => Some(0), Some((k, m)) => if m != Min::get() { Some(0) } else if k == u16::MAX { None } else { Some(k + 1) } } }
pub fn entry(c: &Text, s: u16) -> Option<u64> { Entries::get::<CanonicalBase, u16>(bv(c), s) }
/// invariant: a suffix of the current range that is taken is one of those given out so far
fn given_out(c: &Text, s: u16) -> bool {
    if entry(c, s).is_none() || s < Min::get() || s > Max::get() { return true; }
    match Index::get::<CanonicalBase>(bv(c)) { Some((k, m)) => { let j: u16 = any(); m == Min::get() && j <= k && suffix_at(Min::get(), Max::get(), c.as_slice(), j as usize) == Some(s) } None => false }
}
fn signed<T: Encode>(s: &MultiSignature, p: &T, k: u64) -> bool {
    let w = wrap_binary_data(p.encode());
    let a = AccountId32::from_id(k);
    let l = mf::sp_runtime::verify_log();
    let mut r = false; let mut i = 0;
    while i < 2 { if i < l.len() && l[i].sig == *s && l[i].signer == a && l[i].msg == w && l[i].result == 1 { r = true; } i += 1; }
    r
}
fn asked_signature() -> bool { mf::sp_runtime::verify_log().len() > 0 && mf::sp_runtime::verify_log()[0].result != 1 }
#[cfg(kani)]
fn wrap_contract(d: Vec<u8>) -> Vec<u8> { let mut o = Vec::new(); o.push(0xE1); let mut i = 0; while i < 2 { if i < d.len() { o.push(d[i]); } i += 1; } o }
#[cfg(kani)]
fn utf8(v: &[u8]) -> Result<&str, core::str::Utf8Error> { Ok(unsafe { core::str::from_utf8_unchecked(v) }) }
/// characters of a text: the bytes that do not continue one
#[cfg(kani)]
fn count(s: &str) -> usize { let v = s.as_bytes(); let (mut n, mut i) = (0, 0); while i < v.len() { if v[i] & 0xC0 != 0x80 { n += 1; } i += 1; } n }
macro_rules! stubbed { ($($(#[$m:meta])* $id:ident $body:block)*) => {
    mf::contracts! { $(
        #[cfg_attr(kani, kani::stub(common_primitives::utils::wrap_binary_data, super::wrap_contract))]
        #[cfg_attr(kani, kani::stub(core::str::from_utf8, super::utf8))]
        #[cfg_attr(kani, kani::stub(core::str::count::count_chars, super::count))]
        $(#[$m])* $id(8) $body )* }
} }

stubbed! {
    claim {
        let k: u8 = any(); assume(k < 3); let (who, owner): (u64, u64) = (any(), any());
        let b = text(); let expiration: u32 = any(); assume(expiration < 1 << 31);
        let p = ClaimHandlePayload { base_handle: b.clone(), expiration }; let sig: MultiSignature = Nd::nd();
        let c = canon(&b); let n = next(&c);
        let s = match n { Some(i) => suffix_at(Min::get(), Max::get(), c.as_slice(), i as usize), None => None };
        let m = MsaOf::ask(owner);
        let had = match m { Some(m) => Names::get(m).is_some(), None => false };
        let taken = match s { Some(s) => { assume(given_out(&c, s)); entry(&c, s) } None => None };
        let r = P::claim_handle(origin(k, who), owner, sig.clone(), p.clone());
        let good = valid(&b);
        cov!("N01+N02+N03+N04 a handle can be claimed", r.is_ok());
        ob!("N01+N02 claim.other-handles-stay", Names::unchanged_except(|x| m == Some(*x)) && Entries::unchanged_except(|x, y| x.0 == c && Some(*y) == s) && Index::unchanged_except(|x| x.0 == c));
        if r.is_ok() {
            ob!("N01 claim.one-handle-at-a-time", !had);
            ob!("N01 claim.handle-was-nobody's", s.is_some() && taken.is_none());
            if let (Some(m), Some(s), Some(i)) = (m, s, n) {
                ob!("N01 claim.handle-and-owner-point-at-each-other", entry(&c, s) == Some(m) && Names::get(m) == Some((display(&b, s), expiration)));
                ob!("N02 claim.next-suffix-of-the-series", Index::get::<CanonicalBase>(bv(&c)) == Some((i, Min::get())));
                ob!("N02 claim.suffix-in-range", s >= Min::get() && s <= Max::get());
            }
            ob!("N03 claim.only-signed", k == 2);
            ob!("N03 claim.for-an-existing-msa", m.is_some());
            ob!("N03 claim.with-the-owner's-signature", signed(&sig, &p, owner));
            ob!("N03 claim.before-the-payload-expires", now() < expiration && expiration < now() + Window::get());
            ob!("N04 claim.only-valid-handles", good);
        } else { ob!("N01+N02+N03+N04 claim.refused-only-with-a-reason", k != 2 || m.is_none() || had || !good || s.is_none() || asked_signature() || expiration <= now() || expiration >= now() + Window::get()); }
    }
    retire {
        let k: u8 = any(); assume(k < 3); let who: u64 = any();
        let m = MsaOf::ask(who); let mi = m.unwrap_or(0);
        let (b, s): (Text, u16) = (text(), any()); let e: u32 = any(); let named: bool = any();
        assume(!info(b.as_slice()).blocked);
        let d = display(&b, s); let c = canon(&b);
        Names::raw_set(mi, if named { Some((d, e)) } else { None });
        let v = Free::new().validate(&who, &RC(handles::Call::retire_handle {}), &Default::default(), 0);
        ob!("N05 validate.reads-only", Names::unchanged_except(|_| false) && Entries::unchanged_except(|_, _| false) && Index::unchanged_except(|_| false));
        let w = Free::new().pre_dispatch(&who, &RC(handles::Call::retire_handle {}), &Default::default(), 0);
        ob!("N05 validate.pool-and-block-agree", v.is_ok() == w.is_ok());
        ob!("N05 validate.exactly-when-past-its-lifetime", v.is_ok() == (m.is_some() && named && e <= now()));
        let r = P::retire_handle(origin(k, who));
        cov!("N01+N03+N05 a handle can be retired", r.is_ok() && v.is_ok());
        ob!("N05 validate.accepted-calls-succeed", !v.is_ok() || k != 2 || r.is_ok());
        ob!("N01+N03 retire.other-handles-stay", Names::unchanged_except(|x| m == Some(*x)) && Entries::unchanged_except(|x, y| x.0 == c && *y == s));
        ob!("N01+N02 retire.suffix-is-never-given-out-again", Index::unchanged_except(|_| false));
        if r.is_ok() {
            ob!("N03 retire.only-by-a-key-of-the-msa", k == 2 && m.is_some() && named);
            ob!("N01 retire.nothing-left", Names::get(mi).is_none() && entry(&c, s).is_none());
        } else { ob!("N01+N03 retire.refused-only-with-a-reason", k != 2 || m.is_none() || !named); }
    }
    change {
        let k: u8 = any(); assume(k < 3); let (who, owner): (u64, u64) = (any(), any());
        let b = text(); let expiration: u32 = any(); assume(expiration < 1 << 31);
        let p = ClaimHandlePayload { base_handle: b.clone(), expiration }; let sig: MultiSignature = Nd::nd();
        let m = MsaOf::ask(owner); let mi = m.unwrap_or(0);
        let (ob_, os): (Text, u16) = (text(), any()); let named: bool = any();
        assume(!info(ob_.as_slice()).blocked);
        let oc = canon(&ob_);
        Names::raw_set(mi, if named { Some((display(&ob_, os), any())) } else { None });
        let c = canon(&b); let n = next(&c);
        let s = match n { Some(i) => suffix_at(Min::get(), Max::get(), c.as_slice(), i as usize), None => None };
        let taken = match s { Some(s) => { assume(given_out(&c, s)); entry(&c, s) } None => None };
        let r = P::change_handle(origin(k, who), owner, sig.clone(), p.clone());
        let good = valid(&b);
        cov!("N01+N02+N03+N04 a handle can be changed", r.is_ok());
        ob!("N01+N02 change.other-handles-stay", Names::unchanged_except(|x| m == Some(*x)) && Entries::unchanged_except(|x, y| (x.0 == c && Some(*y) == s) || (x.0 == oc && *y == os)) && Index::unchanged_except(|x| x.0 == c));
        if r.is_ok() {
            ob!("N01 change.had-a-handle", named);
            ob!("N01 change.handle-was-nobody's", s.is_some() && taken.is_none());
            if let (Some(m), Some(s), Some(i)) = (m, s, n) {
                ob!("N01 change.handle-and-owner-point-at-each-other", entry(&c, s) == Some(m) && Names::get(m) == Some((display(&b, s), expiration)));
                ob!("N01 change.old-handle-is-gone", (c == oc && s == os) || entry(&oc, os).is_none());
                ob!("N02 change.next-suffix-of-the-series", Index::get::<CanonicalBase>(bv(&c)) == Some((i, Min::get())));
                ob!("N02 change.suffix-in-range", s >= Min::get() && s <= Max::get());
            }
            ob!("N03 change.only-signed-for-an-existing-msa", k == 2 && m.is_some());
            ob!("N03 change.with-the-owner's-signature", signed(&sig, &p, owner));
            ob!("N03 change.before-the-payload-expires", now() < expiration && expiration < now() + Window::get());
            ob!("N04 change.only-valid-handles", good);
        } else { ob!("N01+N02+N03+N04 change.refused-only-with-a-reason", k != 2 || m.is_none() || !named || !good || s.is_none() || asked_signature() || expiration <= now() || expiration >= now() + Window::get()); }
    }
    /// a handle resolves to its owner, and an owner to the handle
    resolve {
        let m: u64 = any(); let (b, s): (Text, u16) = (text(), any());
        assume(!info(b.as_slice()).blocked);
        let d = display(&b, s); let c = canon(&b); let named: bool = any();
        Names::raw_set(m, if named { Some((d.clone(), any())) } else { None });
        if named { Entries::raw_set::<CanonicalBase, u16>(bv(&c), s, Some(m)); }
        let owner = entry(&c, s);
        let r = P::get_handle_for_msa(m); let q = <P as HandleProvider>::get_handle_for_msa(m);
        cov!("N01 a handle resolves", r.is_some());
        ob!("N01 resolve.handle-of-the-msa", r == if named { Some(HandleResponse { base_handle: b.clone(), canonical_base: c.clone(), suffix: s }) } else { None } && q == r);
        ob!("N01 resolve.msa-of-the-handle", P::get_msa_id_for_handle(d) == owner && (!named || owner == Some(m)));
        ob!("N01 resolve.reads-only", Names::unchanged_except(|_| false) && Entries::unchanged_except(|_, _| false));
    }
    /// the suffixes announced are the ones given out next
    announced {
        assume(Max::get() - Min::get() < 3);
        let b = text(); let n: u16 = any(); assume(n >= 1 && n <= 3); let i: usize = any(); assume(i < 3);
        let c = canon(&b); let f = next(&c); assume(f.is_some()); let f = f.unwrap_or(0) as usize;
        assume(f <= 3);
        let r = P::get_next_suffixes(bv(&b), n);
        cov!("N02 suffixes are announced", r.suffixes.len() == 2);
        let left = (Max::get() - Min::get()) as usize + 1;
        let want = if f >= left { 0 } else if left - f < n as usize { left - f } else { n as usize };
        ob!("N02 announced.as-many-as-are-left", r.suffixes.len() == want && r.base_handle == b);
        ob!("N02 announced.in-the-order-given-out", i >= r.suffixes.len() || Some(r.suffixes[i]) == suffix_at(Min::get(), Max::get(), c.as_slice(), f + i));
    }
    /// asking whether a text would do as a handle
    asked {
        let b = text();
        let r = P::validate_handle(b.clone());
        cov!("N04 a text is found valid", r);
        ob!("N04 asked.exactly-the-valid-handles", r == valid(&b));
    }
    /// texts whose canonical form is longer than can be stored (33 bytes in 11 characters)
    long {
        let mut b: Text = Vec::new(); let mut c: Text = Vec::new();
        let mut i = 0; while i < 11 { c.push(0xE1); c.push(0x84); c.push(0x80); if i < 3 { b.push(b'k'); } i += 1; }
        handles_utils::suppose(Info { text: b.clone(), canon: c.clone(), reserved: false, blocked: false, supported: true });
        handles_utils::suppose(Info { text: c.clone(), canon: c, reserved: false, blocked: false, supported: true });
        let (who, owner): (u64, u64) = (any(), any()); let expiration: u32 = any();
        let sig: MultiSignature = Nd::nd();
        let r = P::claim_handle(O::signed(who), owner, sig, ClaimHandlePayload { base_handle: b.clone(), expiration });
        ob!("N01+N04 long.refused-as-it-cannot-be-told-apart", r.is_err());
        ob!("N04 long.not-announced-as-valid", !P::validate_handle(b));
    }
    others {
        let who: u64 = any();
        let p = ClaimHandlePayload { base_handle: Vec::new(), expiration: any() }; let sig: MultiSignature = Nd::nd();
        let c = if any() { handles::Call::claim_handle { msa_owner_key: who, proof: sig, payload: p } } else { handles::Call::change_handle { msa_owner_key: who, proof: sig, payload: p } };
        ob!("N05 others.pass-through", Free::new().validate(&who, &RC(c), &Default::default(), 0).is_ok());
    }
}
