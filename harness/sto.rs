//! Contracts of pallet-stateful-storage (real source), over arbitrary state.
use common_primitives::msa::*;
use common_primitives::schema::*;
use common_primitives::utils::wrap_binary_data;
use mf::codec::{Decode, Encode};
use mf::frame_support::traits::*;
use mf::nd::*;
use mf::sp_runtime::traits::Convert;
use mf::sp_runtime::{AccountId32, DispatchError, DispatchResult, MultiSignature};
use mf::bounded::BoundedVec;
use mf::vecs::Vec;
use mf::{cov, ob};
use pallet_stateful_storage as sto;
use pallet_stateful_storage::stateful_child_tree::StatefulChildTree;
use pallet_stateful_storage::types::*;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Test;
mf::mock_event!(Ev { Sto(sto::Event<Test>) });
mf::mock_system!(Test, u64, u32, (), Ev);
mf::lookup!(MsaOf: u64 => Option<u64>);
mf::lookup!(SchemaAt: u16 => Option<u8>);
mf::oracle!(Granted: (u64, u64, u16, u32));
/// a schema as answered: location in the two low bits, then its settings
pub fn loc(x: u8) -> PayloadLocation { match x & 3 { 0 => PayloadLocation::OnChain, 1 => PayloadLocation::IPFS, 2 => PayloadLocation::Itemized, _ => PayloadLocation::Paginated } }
pub fn append_only(x: u8) -> bool { x & 4 != 0 }
pub fn signature_required(x: u8) -> bool { x & 8 != 0 }
pub fn settings(x: u8) -> Vec<SchemaSetting> { let mut v = Vec::new(); if append_only(x) { v.push(SchemaSetting::AppendOnly) } if signature_required(x) { v.push(SchemaSetting::SignatureRequired) } v }
impl MsaLookup for MsaOf { type AccountId = u64; fn get_msa_id(k: &u64) -> Option<u64> { MsaOf::ask(*k) } }
impl MsaValidator for MsaOf { type AccountId = u64; fn ensure_valid_msa_key(k: &u64) -> Result<u64, DispatchError> { MsaOf::ask(*k).ok_or(DispatchError::Other("no msa")) } }
impl SchemaGrantValidator<u32> for Granted { fn ensure_valid_schema_grant(p: ProviderId, d: DelegatorId, s: u16, b: u32) -> DispatchResult { if Granted::ask((p.0, d.0, s, b)) { Ok(()) } else { Err(DispatchError::Other("no grant")) } } }
impl SchemaProvider<u16> for SchemaAt {
    fn get_schema_by_id(s: u16) -> Option<SchemaResponse> { SchemaAt::ask(s).map(|l| SchemaResponse { schema_id: s, model: Vec::new(), model_type: ModelType::AvroBinary, payload_location: loc(l), settings: settings(l) }) }
    fn get_schema_info_by_id(s: u16) -> Option<SchemaInfoResponse> { SchemaAt::ask(s).map(|l| SchemaInfoResponse { schema_id: s, model_type: ModelType::AvroBinary, payload_location: loc(l), settings: settings(l) }) }
}
pub struct To32;
impl Convert<u64, AccountId32> for To32 { fn convert(a: u64) -> AccountId32 { AccountId32::from_id(a) } }
/// the key hasher by contract (collision-free); natively xxHash
pub struct KeyHash;
impl mf::frame_support::StorageHasher for KeyHash { type Output = [u8; mf::sp_io::hashing::L128]; fn hash(x: &[u8]) -> Self::Output { mf::sp_io::hashing::twox_128(x) } }
impl sto::stateful_child_tree::MultipartKeyStorageHasher for KeyHash { type HashSize = ConstU8<{ mf::sp_io::hashing::L128 as u8 }>; }
mf::constants! { MaxPageId: u16, Window: u32, ItemPageN: u32, PageN: u32, BlobN: u32 }
macro_rules! size { ($n:ident $c:ident) => { #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)] pub struct $n; impl mf::codec::MaxEncodedLen for $n { fn max_encoded_len() -> usize { 0 } } impl Get<u32> for $n { fn get() -> u32 { $c::get() } } } }
size!(ItemPage ItemPageN); size!(PagePage PageN); size!(Blob BlobN);
impl sto::Config for Test {
    type RuntimeEvent = Ev; type WeightInfo = (); type MsaInfoProvider = MsaOf; type SchemaGrantValidator = Granted; type SchemaProvider = SchemaAt;
    type MaxItemizedPageSizeBytes = ItemPage; type MaxPaginatedPageSizeBytes = PagePage; type MaxItemizedBlobSizeBytes = Blob; type MaxPaginatedPageId = MaxPageId;
    type MaxItemizedActionsCount = ConstU32<2>; type KeyHasher = KeyHash; type ConvertIntoAccountId32 = To32; type MortalityWindowSize = Window;
}
pub type P = sto::Pallet<Test>;
pub type O = mf::rt::Origin<u64, ()>;
pub type Tree = StatefulChildTree<KeyHash>;
pub type Sys = mf::frame_system::Pallet<Test>;
pub type IPage = ItemizedPage<Test>;
pub type PPage = PaginatedPage<Test>;
pub type Action = ItemAction<Blob>;
pub type Actions = BoundedVec<Action, ConstU32<2>>;
/// bytes of a page and of an item that are drawn
pub const LEN: usize = 3;
pub const ITEM_LEN: usize = 4;
/// actions drawn
pub const ACTS: usize = 1;
pub fn setup() { init_constants(); mf::frame_system::mf_init::<Test>(); MsaOf::reset(); SchemaAt::reset(); Granted::reset(); mf::twox_hash::reset(); mf::storage::child::reset(); mf::sp_runtime::verify_reset(); #[cfg(all(kani, mf_tok))] tree::reset(); }
pub fn init() { set_len(LEN); setup(); assume(Window::get() < 1 << 30 && now() < 1 << 30); assume(PageN::get() >= 1 && ItemPageN::get() >= 3 && BlobN::get() >= 1); }
pub fn now() -> u32 { Sys::block_number() }

/// the address of a page
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Addr { pub paged: bool, pub msa: u64, pub schema: u16, pub page: u16 }
pub fn item(msa: u64, schema: u16) -> Addr { Addr { paged: false, msa, schema, page: 0 } }
pub fn page(msa: u64, schema: u16, page: u16) -> Addr { Addr { paged: true, msa, schema, page } }
pub fn any_addr() -> Addr { let a = Addr { paged: any(), msa: any(), schema: any(), page: any() }; if a.paged { a } else { item(a.msa, a.schema) } }
/// what is stored: nothing, something that is no page, or a page
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Seen { Nothing, Corrupt, Page(u16, Vec<u8>) }
pub fn read(a: Addr) -> Seen {
    macro_rules! go { ($t:ty, $s:expr, $k:expr) => { match Tree::try_read::<_, $t>(&a.msa, PALLET_STORAGE_PREFIX, $s, &$k) { Ok(None) => Seen::Nothing, Err(_) => Seen::Corrupt, Ok(Some(p)) => Seen::Page(p.nonce, p.data.0) } } }
    if a.paged { go!(PPage, PAGINATED_STORAGE_PREFIX, (a.schema, a.page)) } else { go!(IPage, ITEMIZED_STORAGE_PREFIX, (a.schema,)) }
}
fn put<V: Encode>(a: Addr, v: V) { if a.paged { Tree::write(&a.msa, PALLET_STORAGE_PREFIX, PAGINATED_STORAGE_PREFIX, &(a.schema, a.page), v) } else { Tree::write(&a.msa, PALLET_STORAGE_PREFIX, ITEMIZED_STORAGE_PREFIX, &(a.schema,), v) } }
/// arbitrary content at an address
pub fn given(a: Addr) -> Seen {
    let k: u8 = any(); let nonce: u16 = any();
    if k & 3 == 0 { return Seen::Nothing }
    if k & 3 == 1 { put(a, 7u8); return Seen::Corrupt }
    if a.paged { let data: BoundedVec<u8, PagePage> = Nd::nd(); let d = data.0.clone(); put(a, PPage { nonce, data }); Seen::Page(nonce, d) }
    else { let data: BoundedVec<u8, ItemPage> = Nd::nd(); let d = data.0.clone(); put(a, IPage { nonce, data }); Seen::Page(nonce, d) }
}
/// the content hash a caller must quote
pub fn hash_of(s: &Seen) -> Option<u32> { match s { Seen::Nothing => Some(0), Seen::Corrupt => None, Seen::Page(nonce, d) => Some(PPage { nonce: *nonce, data: BoundedVec(d.clone(), core::marker::PhantomData) }.get_hash()) } }
pub fn nonce_of(s: &Seen) -> u16 { match s { Seen::Page(n, _) => *n, _ => 0 } }
pub fn bytes_of(s: &Seen) -> Vec<u8> { match s { Seen::Page(_, d) => d.clone(), _ => Vec::new() } }

/// may `schema` be written at location `l`, by the owner (or with the owner's signature), deleting?
fn schema_allows(schema: u16, l: PayloadLocation, owner: bool, deleting: bool) -> Option<bool> {
    SchemaAt::said(schema).map(|x| match x { None => false, Some(x) => loc(x) == l && (owner || !signature_required(x)) && !(deleting && append_only(x)) })
}
/// is the caller the owner, or granted this schema by the owner in this block?
fn caller_allowed(who: u64, owner: u64, schema: u16) -> Option<bool> {
    match MsaOf::said(who) { None => None, Some(None) => Some(false), Some(Some(m)) => if m == owner { Some(true) } else { Granted::said((m, owner, schema, now())) } }
}
fn is_owner(who: u64, owner: u64) -> bool { MsaOf::said(who) == Some(Some(owner)) }
fn signed<P: Encode>(s: &MultiSignature, p: &P, k: u64) -> bool {
    let w = wrap_binary_data(p.encode());
    let a = AccountId32::from_id(k);
    let l = mf::sp_runtime::verify_log();
    let mut r = false; let mut i = 0;
    while i < 3 { if i < l.len() && l[i].sig == *s && l[i].signer == a && l[i].msg == w && l[i].result == 1 { r = true; } i += 1; }
    r
}
#[cfg(all(kani, mf_tok))]
fn wrap_contract(d: Vec<u8>) -> Vec<u8> { let mut o = Vec::new(); o.push(0xE1); let mut i = 0; while i < 2 { if i < d.len() { o.push(d[i]); } i += 1; } o }

/// the contract of the child tree: a map from (storage, MSA, key) to values (proved of the real
/// code, byte for byte, in `node`)
#[cfg(all(kani, mf_tok))]
mod tree {
    use super::*;
    use mf::codec::tok::{words, Words, W};
    #[derive(Clone, Copy)]
    struct E { on: bool, name: u32, msa: u64, key: [u64; W], kn: usize, val: Option<([u64; W], usize)> }
    const CAP: usize = 3;
    static mut T: [E; CAP] = [E { on: false, name: 0, msa: 0, key: [0; W], kn: 0, val: None }; CAP];
    pub fn reset() { unsafe { let mut i = 0; while i < CAP { T[i].on = false; i += 1; } } }
    fn name(p: &[u8], s: &[u8]) -> u32 { (p[0] as u32) << 24 | (p.len() as u32) << 16 | (s[0] as u32) << 8 | s.len() as u32 }
    fn find<K: Encode>(msa: u64, p: &[u8], s: &[u8], k: &K) -> usize {
        unsafe {
            let (w, n) = words(k); let nm = name(p, s);
            let mut i = 0;
            while i < CAP {
                if !T[i].on { T[i] = E { on: true, name: nm, msa, key: w, kn: n, val: None }; return i; }
                if T[i].name == nm && T[i].msa == msa && T[i].kn == n && T[i].key[0] == w[0] && T[i].key[1] == w[1] && T[i].key[2] == w[2] { return i; }
                i += 1;
            }
            mf::nd::limit("lookup")
        }
    }
    pub struct C<H>(core::marker::PhantomData<H>);
    impl<H> C<H> {
    pub fn try_read<K: Encode, V: Decode + Sized>(msa: &u64, p: &[u8], s: &[u8], k: &K) -> Result<Option<V>, ()> { let i = find(*msa, p, s, k); unsafe { match T[i].val { None => Ok(None), Some((w, n)) => V::decode(&mut Words { w, n, pos: 0 }).map(Some).map_err(|_| ()) } } }
    pub fn write<K: Encode, V: Encode + Sized>(msa: &u64, p: &[u8], s: &[u8], k: &K, v: V) { let i = find(*msa, p, s, k); unsafe { T[i].val = Some(words(&v)) } }
    pub fn kill<K: Encode>(msa: &u64, p: &[u8], s: &[u8], k: &K) { let i = find(*msa, p, s, k); unsafe { T[i].val = None } }
    }
}


fn get_node(a: Addr, paged: bool) -> Result<Option<u8>, ()> { if paged { Tree::try_read::<_, u8>(&a.msa, PALLET_STORAGE_PREFIX, PAGINATED_STORAGE_PREFIX, &(a.schema, a.page)) } else { Tree::try_read::<_, u8>(&a.msa, PALLET_STORAGE_PREFIX, ITEMIZED_STORAGE_PREFIX, &(a.schema,)) } }
fn two_addrs(paged: bool) -> (Addr, Addr) { let (a, x) = (Addr { paged, ..any_addr() }, any_addr()); let a = if paged { a } else { Addr { page: 0, ..a } }; assume(x != a); (a, x) }
/// a write to one address is read there, and nothing else changes
fn wrote(paged: bool) {
    let (a, x) = two_addrs(paged);
    let (v, w): (u8, u8) = (any(), any());
    put(x, w);
    if paged { Tree::write(&a.msa, PALLET_STORAGE_PREFIX, PAGINATED_STORAGE_PREFIX, &(a.schema, a.page), v) } else { Tree::write(&a.msa, PALLET_STORAGE_PREFIX, ITEMIZED_STORAGE_PREFIX, &(a.schema,), v) }
    cov!("S05 two addresses of one schema", a.msa == x.msa && a.schema == x.schema);
    ob!("S05 node.what-was-written-is-read", get_node(a, paged) == Ok(Some(v)));
    ob!("S05 node.nothing-else-is-written", get_node(x, x.paged) == Ok(Some(w)));
}
fn removed(paged: bool) {
    let (a, x) = two_addrs(paged);
    let w: u8 = any();
    put(x, w);
    if paged { Tree::kill(&a.msa, PALLET_STORAGE_PREFIX, PAGINATED_STORAGE_PREFIX, &(a.schema, a.page)) } else { Tree::kill(&a.msa, PALLET_STORAGE_PREFIX, ITEMIZED_STORAGE_PREFIX, &(a.schema,)) }
    ob!("S05 node.what-was-removed-is-gone", get_node(a, paged) == Ok(None));
    ob!("S05 node.nothing-else-is-removed", get_node(x, x.paged) == Ok(Some(w)));
}

macro_rules! stubbed { ($($(#[$m:meta])* $id:ident $body:block)*) => {
    mf::contracts! { $(
        #[cfg_attr(all(kani, mf_tok), kani::stub(pallet_stateful_storage::stateful_child_tree::StatefulChildTree::try_read, super::tree::C::try_read))]
        #[cfg_attr(all(kani, mf_tok), kani::stub(pallet_stateful_storage::stateful_child_tree::StatefulChildTree::write, super::tree::C::write))]
        #[cfg_attr(all(kani, mf_tok), kani::stub(pallet_stateful_storage::stateful_child_tree::StatefulChildTree::kill, super::tree::C::kill))]
        #[cfg_attr(all(kani, mf_tok), kani::stub(common_primitives::utils::wrap_binary_data, super::wrap_contract))]
        $(#[$m])* $id(8) $body
    )* }
} }
/// a write succeeds only against the hash of what is stored now
macro_rules! fresh { ($n:literal, $r:expr, $target:expr, $h0:expr) => { ob!(concat!("S01 ", $n, ".current-hash-was-quoted"), !$r.is_ok() || $h0 == Some($target)); } }
/// the page is the payload, one version further
macro_rules! written { ($n:literal, $a:expr, $s0:expr, $p0:expr, $x:expr, $x0:expr, $r:expr) => {
    ob!(concat!("S05 ", $n, ".no-other-page-changes"), read($x) == $x0);
    if $r.is_ok() {
        ob!(concat!("S01 ", $n, ".page-is-the-payload-in-its-next-version"), read($a) == Seen::Page(nonce_of(&$s0).wrapping_add(1), $p0.clone()));
        ob!(concat!("S05 ", $n, ".page-within-the-limit"), $a.page <= MaxPageId::get() && $p0.len() <= PageN::get() as usize);
    }
} }
macro_rules! deleted { ($n:literal, $a:expr, $s0:expr, $x:expr, $x0:expr, $r:expr) => {
    ob!(concat!("S05 ", $n, ".no-other-page-changes"), read($x) == $x0);
    if $r.is_ok() { ob!(concat!("S01 ", $n, ".page-is-gone"), read($a) == Seen::Nothing); }
} }
/// the items of the page after a successful call are those the actions describe (what they describe is S02)
macro_rules! itemized { ($n:literal, $a:expr, $s0:expr, $acts:expr, $x:expr, $x0:expr, $r:expr) => {
    ob!(concat!("S05 ", $n, ".no-other-page-changes"), read($x) == $x0);
    if $r.is_ok() {
        match expected(&bytes_of(&$s0), &$acts) {
            Some(d) => {
                ob!(concat!("S02 ", $n, ".all-actions-applied"), bytes_of(&read($a)) == d);
                ob!(concat!("S02 ", $n, ".an-emptied-page-is-removed"), d.len() > 0 || read($a) == Seen::Nothing);
                ob!(concat!("S01 ", $n, ".next-version"), d.len() == 0 || nonce_of(&read($a)) == nonce_of(&$s0).wrapping_add(1));
                ob!(concat!("S05 ", $n, ".page-within-the-limit"), d.len() <= ItemPageN::get() as usize);
            }
            None => { ob!(concat!("S02 ", $n, ".invalid-actions-are-refused"), false); }
        }
    }
} }
/// who may write without the owner's signature
macro_rules! access { ($n:literal, $who:expr, $owner:expr, $schema:expr, $loc:expr, $del:expr, $r:expr) => {
    if $r.is_ok() {
        ob!(concat!("S03 ", $n, ".by-the-owner-or-with-a-grant"), caller_allowed($who, $owner, $schema) == Some(true));
        ob!(concat!("S03 ", $n, ".schema-allows-it"), schema_allows($schema, $loc, is_owner($who, $owner), $del) == Some(true));
    }
} }
/// who may write with the owner's signature
macro_rules! by_signature { ($n:literal, $proof:expr, $pl:expr, $key:expr, $owner:expr, $schema:expr, $exp:expr, $loc:expr, $del:expr, $r:expr) => {
    if $r.is_ok() {
        ob!(concat!("S04 ", $n, ".owner-signed-this-payload"), signed(&$proof, &$pl, $key));
        ob!(concat!("S04 ", $n, ".within-the-window"), $exp > now() && $exp < now() + Window::get());
        ob!(concat!("S04 ", $n, ".key-belongs-to-the-owner"), is_owner($key, $owner));
        ob!(concat!("S03 ", $n, ".schema-allows-it"), schema_allows($schema, $loc, true, $del) == Some(true));
    }
} }
/// the owner of a V2 payload is the MSA of the signing key
fn owner_of(key: u64) -> u64 { match MsaOf::ask(key) { Some(m) => m, None => 0 } }
fn action() -> Action { if any() { let data: BoundedVec<u8, Blob> = BoundedVec(nd_vec_max(1), core::marker::PhantomData); assume(data.0.len() <= BlobN::get() as usize); ItemAction::Add { data } } else { ItemAction::Delete { index: any() } } }
fn actions(n: usize) -> Actions { let mut v = Vec::new(); let k: u8 = any(); assume(k as usize <= n); let (a, b) = (action(), action()); if k > 0 { v.push(a); } if k > 1 { v.push(b); } BoundedVec(v, core::marker::PhantomData) }
fn pruning(a: &Actions) -> bool { let mut r = false; let mut i = 0; while i < 2 { if i < a.0.len() { if let ItemAction::Delete { .. } = a.0[i] { r = true; } } i += 1; } r }
/// where the `k`-th item of a page starts and ends (None: no such item); `bad`: the bytes are no list of items
fn span(d: &Vec<u8>, k: u16) -> Option<(usize, usize)> {
    let mut at = 0; let mut n = 0u16; let mut i = 0; let mut r = None;
    while i < MAXI { if at + 2 <= d.len() { let e = at + 2 + (d[at] as usize | (d[at + 1] as usize) << 8); if e <= d.len() { if n == k { r = Some((at, e)); } } at = e; n += 1; } i += 1; }
    r
}
fn well_formed(d: &Vec<u8>) -> bool { let mut at = 0; let mut i = 0; while i < MAXI { if at + 2 <= d.len() { at = at + 2 + (d[at] as usize | (d[at + 1] as usize) << 8); } i += 1; } at == d.len() }
/// no more items than this fit the pages drawn
const MAXI: usize = 2;
/// the specification: remaining items in order, then the added ones, each under its two-byte length
pub fn expected(d: &Vec<u8>, a: &Actions) -> Option<Vec<u8>> {
    if !well_formed(d) { return None; }
    let (mut d0, mut d1) = (None, None);
    let mut ok = true; let mut o = Vec::new();
    if a.0.len() > 0 { if let ItemAction::Delete { index } = &a.0[0] { d0 = Some(*index); if span(d, *index).is_none() { ok = false; } } }
    if a.0.len() > 1 { if let ItemAction::Delete { index } = &a.0[1] { d1 = Some(*index); if span(d, *index).is_none() || d0 == d1 { ok = false; } } }
    if !ok { return None; }
    let (g0, g1) = (d0.and_then(|k| span(d, k)), d1.and_then(|k| span(d, k)));
    let within = |g: Option<(usize, usize)>, i: usize| match g { Some((s, e)) => i >= s && i < e, None => false };
    let mut i = 0;
    while i < ITEM_LEN { if i < d.len() && !within(g0, i) && !within(g1, i) { o.push(d[i]); } i += 1; }
    let mut j = 0;
    while j < 2 { if j < a.0.len() { if let ItemAction::Add { data } = &a.0[j] { o.push(data.0.len() as u8); o.push(0); if data.0.len() > 0 { o.push(data.0[0]); } } } j += 1; }
    Some(o)
}
fn paginated(payload: &Vec<u8>) -> BoundedVec<u8, PagePage> { BoundedVec(payload.clone(), core::marker::PhantomData) }
fn payload() -> Vec<u8> { let p: BoundedVec<u8, PagePage> = Nd::nd(); p.0 }

stubbed! {
    upsert {
        let (who, owner, schema, pid, target): (u64, u64, u16, u16, u32) = (any(), any(), any(), any(), any());
        let p0 = payload();
        let a = page(owner, schema, pid); let x = any_addr(); assume(x != a);
        let (s0, x0) = (given(a), given(x));
        let h0 = hash_of(&s0);
        let r = P::upsert_page(O::signed(who), owner, schema, pid, target, paginated(&p0));
        cov!("S01+S03+S05 a page can be written for somebody else", r.is_ok() && !is_owner(who, owner));
        fresh!("upsert", r, target, h0);
        written!("upsert", a, s0, p0, x, x0, r);
        access!("upsert", who, owner, schema, PayloadLocation::Paginated, false, r);
        if r.is_err() { ob!("S01+S03 upsert.refused-only-with-a-reason", h0 != Some(target) || pid > MaxPageId::get() || caller_allowed(who, owner, schema) == Some(false) || schema_allows(schema, PayloadLocation::Paginated, is_owner(who, owner), false) == Some(false)); }
    }
    delete {
        let (who, owner, schema, pid, target): (u64, u64, u16, u16, u32) = (any(), any(), any(), any(), any());
        let a = page(owner, schema, pid); let x = any_addr(); assume(x != a);
        let (s0, x0) = (given(a), given(x));
        let h0 = hash_of(&s0);
        let r = P::delete_page(O::signed(who), owner, schema, pid, target);
        cov!("S01+S03+S05 a page can be deleted for somebody else", r.is_ok() && !is_owner(who, owner) && s0 != Seen::Nothing);
        if s0 != Seen::Nothing { fresh!("delete", r, target, h0); }
        deleted!("delete", a, s0, x, x0, r);
        access!("delete", who, owner, schema, PayloadLocation::Paginated, true, r);
        if r.is_err() { ob!("S01+S03 delete.refused-only-with-a-reason", h0 != Some(target) || pid > MaxPageId::get() || caller_allowed(who, owner, schema) == Some(false) || schema_allows(schema, PayloadLocation::Paginated, is_owner(who, owner), true) == Some(false)); }
    }
    apply {
        set_len(ITEM_LEN);
        let (who, owner, schema, target): (u64, u64, u16, u32) = (any(), any(), any(), any());
        let acts = actions(1); let a0 = acts.clone();
        let a = item(owner, schema); let x = any_addr(); assume(x != a);
        assume(ItemPageN::get() as usize <= ITEM_LEN + 1); let s0 = given(a); set_len(1); let x0 = given(x);
        let h0 = hash_of(&s0);
        let r = P::apply_item_actions(O::signed(who), owner, schema, target, acts);
        cov!("S01+S02+S03+S05 items can be changed for somebody else", r.is_ok() && !is_owner(who, owner) && pruning(&a0));
        fresh!("apply", r, target, h0);
        itemized!("apply", a, s0, a0, x, x0, r);
        access!("apply", who, owner, schema, PayloadLocation::Itemized, pruning(&a0), r);
        if r.is_err() { ob!("S02+S03 apply.refused-only-with-a-reason", h0 != Some(target) || caller_allowed(who, owner, schema) == Some(false) || schema_allows(schema, PayloadLocation::Itemized, is_owner(who, owner), pruning(&a0)) == Some(false)
            || match expected(&bytes_of(&s0), &a0) { None => true, Some(d) => d.len() > ItemPageN::get() as usize }); }
    }
    signed_upsert {
        let (who, key): (u64, u64) = (any(), any()); let proof: MultiSignature = Nd::nd();
        let p0 = payload();
        let pl = PaginatedUpsertSignaturePayload::<Test> { msa_id: any(), schema_id: any(), page_id: any(), target_hash: any(), expiration: any(), payload: paginated(&p0) };
        let a = page(pl.msa_id, pl.schema_id, pl.page_id); let x = any_addr(); assume(x != a);
        let (s0, x0) = (given(a), given(x));
        let h0 = hash_of(&s0);
        #[allow(deprecated)] let r = P::upsert_page_with_signature(O::signed(who), key, proof.clone(), pl.clone());
        cov!("S01+S03+S04+S05 a signed page can be written", r.is_ok());
        fresh!("signed-upsert", r, pl.target_hash, h0);
        written!("signed-upsert", a, s0, p0, x, x0, r);
        by_signature!("signed-upsert", proof, pl, key, pl.msa_id, pl.schema_id, pl.expiration, PayloadLocation::Paginated, false, r);
    }
    signed_upsert_v2 {
        let (who, key): (u64, u64) = (any(), any()); let proof: MultiSignature = Nd::nd();
        let p0 = payload();
        let pl = PaginatedUpsertSignaturePayloadV2::<Test> { schema_id: any(), page_id: any(), target_hash: any(), expiration: any(), payload: paginated(&p0) };
        let owner = owner_of(key);
        let a = page(owner, pl.schema_id, pl.page_id); let x = any_addr(); assume(x != a);
        let (s0, x0) = (given(a), given(x));
        let h0 = hash_of(&s0);
        let r = P::upsert_page_with_signature_v2(O::signed(who), key, proof.clone(), pl.clone());
        cov!("S01+S03+S04+S05 a signed page can be written (v2)", r.is_ok());
        fresh!("signed-upsert-v2", r, pl.target_hash, h0);
        written!("signed-upsert-v2", a, s0, p0, x, x0, r);
        by_signature!("signed-upsert-v2", proof, pl, key, owner, pl.schema_id, pl.expiration, PayloadLocation::Paginated, false, r);
    }
    signed_delete {
        let (who, key): (u64, u64) = (any(), any()); let proof: MultiSignature = Nd::nd();
        let pl = PaginatedDeleteSignaturePayload::<Test> { msa_id: any(), schema_id: any(), page_id: any(), target_hash: any(), expiration: any() };
        let a = page(pl.msa_id, pl.schema_id, pl.page_id); let x = any_addr(); assume(x != a);
        let (s0, x0) = (given(a), given(x));
        let h0 = hash_of(&s0);
        #[allow(deprecated)] let r = P::delete_page_with_signature(O::signed(who), key, proof.clone(), pl.clone());
        cov!("S01+S03+S04+S05 a page can be deleted by signature", r.is_ok() && s0 != Seen::Nothing);
        if s0 != Seen::Nothing { fresh!("signed-delete", r, pl.target_hash, h0); }
        deleted!("signed-delete", a, s0, x, x0, r);
        by_signature!("signed-delete", proof, pl, key, pl.msa_id, pl.schema_id, pl.expiration, PayloadLocation::Paginated, true, r);
    }
    signed_delete_v2 {
        let (who, key): (u64, u64) = (any(), any()); let proof: MultiSignature = Nd::nd();
        let pl = PaginatedDeleteSignaturePayloadV2::<Test> { schema_id: any(), page_id: any(), target_hash: any(), expiration: any() };
        let owner = owner_of(key);
        let a = page(owner, pl.schema_id, pl.page_id); let x = any_addr(); assume(x != a);
        let (s0, x0) = (given(a), given(x));
        let h0 = hash_of(&s0);
        let r = P::delete_page_with_signature_v2(O::signed(who), key, proof.clone(), pl.clone());
        cov!("S01+S03+S04+S05 a page can be deleted by signature (v2)", r.is_ok() && s0 != Seen::Nothing);
        if s0 != Seen::Nothing { fresh!("signed-delete-v2", r, pl.target_hash, h0); }
        deleted!("signed-delete-v2", a, s0, x, x0, r);
        by_signature!("signed-delete-v2", proof, pl, key, owner, pl.schema_id, pl.expiration, PayloadLocation::Paginated, true, r);
    }
    signed_apply {
        let (who, key): (u64, u64) = (any(), any()); let proof: MultiSignature = Nd::nd();
        set_len(ITEM_LEN); let acts = actions(1);
        let pl = ItemizedSignaturePayload::<Test> { msa_id: any(), schema_id: any(), target_hash: any(), expiration: any(), actions: acts.clone() };
        let a = item(pl.msa_id, pl.schema_id); let x = any_addr(); assume(x != a);
        assume(ItemPageN::get() as usize <= ITEM_LEN + 1); let s0 = given(a); set_len(1); let x0 = given(x);
        let h0 = hash_of(&s0);
        #[allow(deprecated)] let r = P::apply_item_actions_with_signature(O::signed(who), key, proof.clone(), pl.clone());
        cov!("S01+S02+S03+S04+S05 items can be changed by signature", r.is_ok() && pruning(&acts));
        fresh!("signed-apply", r, pl.target_hash, h0);
        itemized!("signed-apply", a, s0, acts, x, x0, r);
        by_signature!("signed-apply", proof, pl, key, pl.msa_id, pl.schema_id, pl.expiration, PayloadLocation::Itemized, pruning(&acts), r);
    }
    signed_apply_v2 {
        let (who, key): (u64, u64) = (any(), any()); let proof: MultiSignature = Nd::nd();
        set_len(ITEM_LEN); let acts = actions(1);
        let pl = ItemizedSignaturePayloadV2::<Test> { schema_id: any(), target_hash: any(), expiration: any(), actions: acts.clone() };
        let owner = owner_of(key);
        let a = item(owner, pl.schema_id); let x = any_addr(); assume(x != a);
        assume(ItemPageN::get() as usize <= ITEM_LEN + 1); let s0 = given(a); set_len(1); let x0 = given(x);
        let h0 = hash_of(&s0);
        let r = P::apply_item_actions_with_signature_v2(O::signed(who), key, proof.clone(), pl.clone());
        cov!("S01+S02+S03+S04+S05 items can be changed by signature (v2)", r.is_ok() && pruning(&acts));
        fresh!("signed-apply-v2", r, pl.target_hash, h0);
        itemized!("signed-apply-v2", a, s0, acts, x, x0, r);
        by_signature!("signed-apply-v2", proof, pl, key, owner, pl.schema_id, pl.expiration, PayloadLocation::Itemized, pruning(&acts), r);
    }
    /// the item function itself
    items {
        set_len(ITEM_LEN);
        let data: BoundedVec<u8, ItemPage> = Nd::nd(); let d0 = data.0.clone();
        let p = IPage { nonce: any(), data };
        let acts = actions(ACTS);
        let r = ItemizedOperations::<Test>::apply_item_actions(&p, &acts.0[..]);
        let e = expected(&d0, &acts);
        cov!("S02 an item can be replaced", r.is_ok() && pruning(&acts));
        ob!("S02 items.page-is-left-alone", p.data.0 == d0);
        match r {
            Ok(n) => { ob!("S02 items.remaining-items-then-added-ones", e == Some(n.data.0.clone())); ob!("S02+S05 items.page-within-the-limit", n.data.0.len() <= ItemPageN::get() as usize); }
            Err(PageError::ErrorParsing(_)) => { ob!("S02 items.only-malformed-pages-fail-to-parse", !well_formed(&d0)); }
            Err(_) => { ob!("S02 items.refused-only-with-a-reason", match e { None => true, Some(d) => d.len() > ItemPageN::get() as usize }); }
        }
    }
    /// two actions together
    items2 {
        set_len(2);
        let data: BoundedVec<u8, ItemPage> = Nd::nd(); let d0 = data.0.clone();
        let p = IPage { nonce: any(), data };
        let (x, y) = (action(), action()); let mut v = Vec::new(); v.push(x); v.push(y);
        let acts: Actions = BoundedVec(v, core::marker::PhantomData);
        let r = ItemizedOperations::<Test>::apply_item_actions(&p, &acts.0[..]);
        let e = expected(&d0, &acts);
        cov!("S02 an item can be removed and another added", r.is_ok() && pruning(&acts));
        match r {
            Ok(n) => { ob!("S02 items2.remaining-items-then-added-ones", e == Some(n.data.0.clone())); ob!("S02+S05 items2.page-within-the-limit", n.data.0.len() <= ItemPageN::get() as usize); }
            Err(PageError::ErrorParsing(_)) => { ob!("S02 items2.only-malformed-pages-fail-to-parse", !well_formed(&d0)); }
            Err(_) => { ob!("S02 items2.refused-only-with-a-reason", match e { None => true, Some(d) => d.len() > ItemPageN::get() as usize }); }
        }
    }
    /// a schema that only grows is never pruned, whichever of the actions would
    pruned {
        set_len(2);
        let (who, owner, schema, target): (u64, u64, u16, u32) = (any(), any(), any(), any());
        let (b, c) = (action(), action()); let mut v = Vec::new(); v.push(b); v.push(c);
        let acts: Actions = BoundedVec(v, core::marker::PhantomData);
        let del = pruning(&acts);
        let _s0 = given(item(owner, schema));
        let r = P::apply_item_actions(O::signed(who), owner, schema, target, acts);
        cov!("S03 an item can be removed and another added", r.is_ok() && del);
        access!("pruned", who, owner, schema, PayloadLocation::Itemized, del, r);
    }
    /// two pages with the same content hash are the same version of the same content
    identifies {
        unsafe { mf::twox_hash::IDEAL = true; }
        let (a, b) = (PPage { nonce: any(), data: Nd::nd() }, PPage { nonce: any(), data: Nd::nd() });
        let (x, y) = (a.get_hash(), b.get_hash());
        cov!("S01 two pages can have the same hash", x == y);
        ob!("S01 identifies.empty-pages-hash-to-zero", a.data.0.len() > 0 || x == 0);
        ob!("S01 identifies.one-hash-one-version", x != y || (a.data.0.len() == 0 && b.data.0.len() == 0) || (a.nonce == b.nonce && a.data.0 == b.data.0));
    }
    nobody {
        let o = if any() { O::none() } else { O::root() };
        let a = any_addr(); let s0 = given(a);
        let r = if any() { P::upsert_page(o, any(), any(), any(), any(), paginated(&payload())) } else { P::delete_page(o, any(), any(), any(), any()) };
        ob!("S03 nobody.unsigned-calls-change-nothing", r.is_err() && read(a) == s0);
    }
    nobody_items {
        let o = if any() { O::none() } else { O::root() };
        let a = any_addr(); let s0 = given(a);
        let r = P::apply_item_actions(o, any(), any(), any(), actions(1));
        ob!("S03 nobody-items.unsigned-calls-change-nothing", r.is_err() && read(a) == s0);
    }
    /// the child tree: a map from addresses to values, byte for byte
    node { wrote(true); }
    node_items { wrote(false); }
    node_removed { removed(true); }
    node_items_removed { removed(false); }
    /// the items of a page are reported in order
    reported {
        set_len(ITEM_LEN);
        let a = item(any(), any());
        let s0 = given(a);
        let d = bytes_of(&s0);
        match P::get_itemized_storage(a.msa, a.schema) {
            Ok(v) => {
                cov!("S02 two items are reported", v.items.len() == 2);
                ob!("S02 reported.only-itemized-schemas", matches!(SchemaAt::said(a.schema), Some(Some(l)) if loc(l) == PayloadLocation::Itemized));
                ob!("S02 reported.version-and-hash", v.msa_id == a.msa && v.schema_id == a.schema && v.nonce == nonce_of(&s0) && hash_of(&s0) == Some(v.content_hash));
                ob!("S02 reported.nothing-omitted", s0 != Seen::Corrupt && well_formed(&d) && span(&d, v.items.len() as u16).is_none());
                let mut i = 0;
                while i < MAXI { if i < v.items.len() { match span(&d, i as u16) {
                    Some((b, e)) => { let t = &v.items[i]; let mut same = t.index == i as u16 && t.payload.len() == e - b - 2; let mut j = 0; while j < ITEM_LEN { if j < t.payload.len() && b + 2 + j < d.len() && t.payload[j] != d[b + 2 + j] { same = false; } j += 1; } ob!("S02 reported.item-as-stored", same); }
                    None => { ob!("S02 reported.no-item-invented", false); }
                } } i += 1; }
            }
            Err(_) => { ob!("S02 reported.refused-only-with-a-reason", s0 == Seen::Corrupt || !well_formed(&d) || match SchemaAt::said(a.schema) { Some(None) => true, Some(Some(l)) => loc(l) != PayloadLocation::Itemized, None => false }); }
        }
    }
}
