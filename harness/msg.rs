//! Contracts of pallet-messages (real source), over arbitrary state.
use common_primitives::messages::{BlockPaginationRequest, BlockPaginationResponse};
use common_primitives::msa::*;
use common_primitives::schema::*;
use mf::codec::Encode;
use mf::frame_support::traits::*;
use mf::nd::*;
use mf::sp_runtime::{DispatchError, DispatchResult};
use mf::vecs::Vec;
use mf::{cov, ob};
use pallet_messages as messages;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Test;
mf::mock_event!(Ev { Messages(messages::Event<Test>) });
mf::mock_system!(Test, u64, u32, (), Ev);
mf::lookup!(MsaOf: u64 => Option<u64>);
mf::lookup!(SchemaAt: u16 => Option<u8>);
mf::oracle!(Granted: (u64, u64, u16, u32));
pub fn loc(x: u8) -> PayloadLocation { match x & 3 { 0 => PayloadLocation::OnChain, 1 => PayloadLocation::IPFS, 2 => PayloadLocation::Itemized, _ => PayloadLocation::Paginated } }
impl MsaLookup for MsaOf { type AccountId = u64; fn get_msa_id(k: &u64) -> Option<u64> { MsaOf::ask(*k) } }
impl MsaValidator for MsaOf { type AccountId = u64; fn ensure_valid_msa_key(k: &u64) -> Result<u64, DispatchError> { MsaOf::ask(*k).ok_or(DispatchError::Other("no msa")) } }
impl SchemaGrantValidator<u32> for Granted { fn ensure_valid_schema_grant(p: ProviderId, d: DelegatorId, s: u16, b: u32) -> DispatchResult { if Granted::ask((p.0, d.0, s, b)) { Ok(()) } else { Err(DispatchError::Other("no grant")) } } }
impl SchemaProvider<u16> for SchemaAt {
    fn get_schema_by_id(s: u16) -> Option<SchemaResponse> { SchemaAt::ask(s).map(|l| SchemaResponse { schema_id: s, model: Vec::new(), model_type: ModelType::AvroBinary, payload_location: loc(l), settings: Vec::new() }) }
    fn get_schema_info_by_id(s: u16) -> Option<SchemaInfoResponse> { SchemaAt::ask(s).map(|l| SchemaInfoResponse { schema_id: s, model_type: ModelType::AvroBinary, payload_location: loc(l), settings: Vec::new() }) }
}
mf::constants! { MaxPayloadN: u32 }
#[derive(Clone, Debug, PartialEq)] pub struct MaxPayload;
impl mf::codec::MaxEncodedLen for MaxPayload { fn max_encoded_len() -> usize { 0 } }
impl Get<u32> for MaxPayload { fn get() -> u32 { MaxPayloadN::get() } }
impl messages::Config for Test { type RuntimeEvent = Ev; type WeightInfo = (); type MsaInfoProvider = MsaOf; type SchemaGrantValidator = Granted; type SchemaProvider = SchemaAt; type MessagesMaxPayloadSizeBytes = MaxPayload; }
pub type P = messages::Pallet<Test>;
pub type O = mf::rt::Origin<u64, ()>;
pub type Msgs = messages::MessagesV2<Test>;
pub type Index = messages::BlockMessageIndex<Test>;
pub type Sys = mf::frame_system::Pallet<Test>;
/// longest payload drawn
pub const LEN: usize = 3;
pub fn setup() { init_constants(); mf::frame_system::mf_init::<Test>(); messages::pallet::mf_init::<Test>(); MsaOf::reset(); SchemaAt::reset(); Granted::reset(); mf::cid::reset(); mf::multibase::reset(); }
pub fn init() { set_len(LEN); setup(); }
fn now() -> u32 { Sys::block_number() }
/// payload, provider, author of a stored message
pub type Seen = Option<(Vec<u8>, u64, Option<u64>)>;
pub fn at(b: u32, s: u16, i: u16) -> Seen { match P::get_messages_v2((b, s, i)) { Some(m) => Some((m.payload.0, m.provider_msa_id, m.msa_id)), None => None } }
/// state invariant: messages exist only in past blocks and, in the current one, below the counter
fn inv(b: u32, s: u16, i: u16) -> bool { !Msgs::contains_key((b, s, i)) || b < now() || (b == now() && i < P::get_message_index()) }

mf::contracts! {
    onchain(8) {
        let who: u64 = any(); let behalf: Option<u64> = Nd::nd(); let s: u16 = any();
        let payload: Vec<u8> = nd_vec_max(LEN); let p0 = payload.clone();
        let x: (u32, u16, u16) = (any(), any(), any());
        let idx = P::get_message_index();
        assume(idx < u16::MAX);
        assume(inv(now(), s, idx) && inv(x.0, x.1, x.2));
        let x0 = at(x.0, x.1, x.2);
        let r = P::add_onchain_message(O::signed(who), behalf, s, payload);
        let msa = MsaOf::said(who); let l = SchemaAt::said(s);
        cov!("G01+G02 a message can be stored on behalf of an author", r.is_ok() && behalf.is_some());
        ob!("G01 onchain.stored-messages-never-change", match x0 { Some(_) => at(x.0, x.1, x.2) == x0, None => true });
        ob!("G01 onchain.nothing-beyond-the-counter", inv(x.0, x.1, x.2));
        if r.is_ok() {
            let m = match msa { Some(Some(m)) => m, _ => 0 };
            let author = match behalf { Some(d) => d, None => m };
            ob!("G01 onchain.next-index", P::get_message_index() == idx + 1);
            ob!("G01 onchain.stored-at-the-next-index", at(now(), s, idx) == Some((p0.clone(), m, Some(author))));
            ob!("G01 onchain.nothing-else-stored", Msgs::unchanged_except(|k| *k == (now(), s, idx)));
            ob!("G02 onchain.by-a-key-of-the-provider", matches!(msa, Some(Some(_))));
            ob!("G02 onchain.schema-stores-on-chain", l == Some(Some(0)) || matches!(l, Some(Some(z)) if loc(z) == PayloadLocation::OnChain));
            ob!("G02 onchain.payload-within-the-limit", p0.len() <= MaxPayloadN::get() as usize);
            ob!("G02 onchain.grant-held-in-this-block", match behalf { Some(d) => Granted::said((m, d, s, now())) == Some(true), None => true });
        } else {
            ob!("G02 onchain.refused-only-with-a-reason", p0.len() > MaxPayloadN::get() as usize || matches!(l, Some(None)) || matches!(l, Some(Some(z)) if loc(z) != PayloadLocation::OnChain)
                || msa == Some(None) || (behalf.is_some() && matches!(msa, Some(Some(m)) if Granted::said((m, behalf.unwrap_or(0), s, now())) == Some(false))));
        }
    }
    ipfs(8) {
        set_len(4);
        let who: u64 = any(); let s: u16 = any(); let len: u32 = any();
        let cid: Vec<u8> = nd_vec_max(4); let c0 = cid.clone();
        let x: (u32, u16, u16) = (any(), any(), any());
        let idx = P::get_message_index();
        assume(idx < u16::MAX);
        assume(inv(now(), s, idx) && inv(x.0, x.1, x.2));
        let x0 = at(x.0, x.1, x.2);
        let r = P::add_ipfs_message(O::signed(who), s, cid, len);
        let msa = MsaOf::said(who); let l = SchemaAt::said(s);
        cov!("G01+G02 an off-chain message can be stored", r.is_ok());
        ob!("G01 ipfs.stored-messages-never-change", match x0 { Some(_) => at(x.0, x.1, x.2) == x0, None => true });
        ob!("G01 ipfs.nothing-beyond-the-counter", inv(x.0, x.1, x.2));
        if r.is_ok() {
            let m = match msa { Some(Some(m)) => m, _ => 0 };
            let (text, bytes) = match mf::multibase::last() { Some((t, Some(b))) => (Some(t), b), _ => (None, Vec::new()) };
            let enc = (bytes.clone(), len).encode();
            ob!("G01 ipfs.next-index", P::get_message_index() == idx + 1);
            ob!("G01 ipfs.stored-at-the-next-index", at(now(), s, idx) == Some((enc.clone(), m, None)));
            ob!("G01 ipfs.nothing-else-stored", Msgs::unchanged_except(|k| *k == (now(), s, idx)));
            ob!("G02 ipfs.by-a-key-of-the-provider", matches!(msa, Some(Some(_))));
            ob!("G02 ipfs.schema-stores-off-chain", matches!(l, Some(Some(z)) if loc(z) == PayloadLocation::IPFS));
            ob!("G02 ipfs.payload-within-the-limit", enc.len() <= MaxPayloadN::get() as usize);
            ob!("G02 ipfs.valid-cid-of-the-text", text == Some(c0.clone()) && mf::cid::last() == Some((bytes, true)));
            ob!("G02 ipfs.no-version-0-cid", c0.len() > 2 && !(c0[0] == b'Q' && c0[1] == b'm'));
        }
    }
    block_start(8) {
        let b = now();
        let x: (u32, u16, u16) = (any(), any(), any());
        assume(b > 0 && inv(x.0, x.1, x.2));
        // the previous block is over: nothing is stored for the new one
        assume(x.0 < b || !Msgs::contains_key(x));
        let x0 = at(x.0, x.1, x.2);
        <P as Hooks<u32>>::on_initialize(b);
        cov!("G01 a message survives", x0.is_some());
        ob!("G01 block.numbering-restarts", P::get_message_index() == 0);
        ob!("G01 block.messages-stay", at(x.0, x.1, x.2) == x0 && Msgs::unchanged_except(|_| false));
        ob!("G01 block.nothing-beyond-the-counter", inv(x.0, x.1, x.2));
    }
    nobody(8) {
        let s: u16 = any(); let root: bool = any();
        let o = || if root { O::root() } else { O::none() };
        let a = P::add_onchain_message(o(), Nd::nd(), s, nd_vec_max(LEN));
        let b = P::add_ipfs_message(o(), s, nd_vec_max(LEN), any());
        ob!("G02 nobody.needs-a-signed-origin", a.is_err() && b.is_err());
        ob!("G02 nobody.changes-nothing", Msgs::unchanged_except(|_| false) && Index::is_unchanged());
    }
    retrieve(8) {
        let (b, s): (u32, u16) = (any(), any()); let i: u16 = any();
        let l: u8 = any();
        let stored = at(b, s, i);
        let v = P::get_messages_by_schema_and_block(s, loc(l), b);
        let on = loc(l) == PayloadLocation::OnChain;
        let n = v.len();
        let mut sorted = true; let mut hits = 0; let mut ok = true;
        let mut j = 0;
        while j < 3 { if j < n {
            if j > 0 && v[j - 1].index >= v[j].index { sorted = false; }
            if v[j].block_number != b { ok = false; }
            if v[j].index == i { hits += 1; if let Some((p, prov, author)) = &stored {
                if v[j].provider_msa_id != *prov { ok = false; }
                if on && (v[j].payload != Some(p.clone()) || v[j].msa_id != *author || v[j].cid.is_some() || v[j].payload_length.is_some()) { ok = false; }
                if !on && (v[j].payload.is_some() || v[j].msa_id.is_some()) { ok = false; }
            } }
        } j += 1; }
        let direct = loc(l) == PayloadLocation::Itemized || loc(l) == PayloadLocation::Paginated;
        cov!("G03 two messages can be retrieved", n == 2 && hits == 1);
        ob!("G03 retrieve.nothing-for-other-locations", !direct || n == 0);
        ob!("G03 retrieve.in-index-order-without-repeats", sorted);
        ob!("G03 retrieve.each-stored-message-once", direct || hits == if stored.is_some() { 1 } else { 0 });
        ob!("G03 retrieve.content-as-stored", ok);
        ob!("G03 retrieve.changes-nothing", Msgs::unchanged_except(|_| false) && Index::is_unchanged());
    }
    retrieve_ipfs(8) {
        set_len(7); mf::storage::set_iter_max(0);
        let (b, s, i): (u32, u16, u16) = (any(), any(), any());
        let cid: Vec<u8> = nd_vec_max(2); let len: u32 = any();
        let prov: u64 = any();
        assume(MaxPayloadN::get() as usize >= 7);
        let payload = (cid.clone(), len).encode();
        Msgs::insert((b, s, i), messages::Message { payload: mf::bounded::BoundedVec::try_from(payload).unwrap_or_default(), provider_msa_id: prov, msa_id: None });
        let v = P::get_messages_by_schema_and_block(s, PayloadLocation::IPFS, b);
        ob!("G03 retrieve-ipfs.one", v.len() == 1);
        if v.len() == 1 {
            let text = mf::multibase::encode(mf::multibase::Base::Base32Lower, cid.as_slice());
            ob!("G03 retrieve-ipfs.reference-and-length-as-stored", v[0].cid == Some(Vec::from(text.as_bytes())) && v[0].payload_length == Some(len) && v[0].provider_msa_id == prov && v[0].index == i);
        }
    }
    paging(8) {
        set_len(4);
        let q = BlockPaginationRequest { from_block: any(), from_index: any(), to_block: any(), page_size: any() };
        ob!("G03 paging.valid-requests", q.validate() == (q.page_size > 0 && q.page_size <= 10000 && q.from_block < q.to_block && q.to_block - q.from_block <= 50000));
        let mut r = BlockPaginationResponse::<u8>::new(); r.content = nd_vec_max(4);
        let n = r.content.len();
        let (b, i, size): (u32, u32, u32) = (any(), any(), any());
        assume(q.validate() && i < size && b >= q.from_block && b < q.to_block);
        let full = r.check_end_condition_and_set_next_pagination(b, i, size, &q);
        cov!("G03 a page can end inside the range", full && r.has_next);
        ob!("G03 paging.page-ends-when-full", full == (n as u32 == q.page_size));
        let last = i + 1 == size;
        let next = if last { (b + 1, 0) } else { (b, i + 1) };
        ob!("G03 paging.resumes-at-the-successor", !full || (r.has_next == (next.0 < q.to_block) && (!r.has_next || (r.next_block == Some(next.0) && r.next_index == Some(next.1)))));
        ob!("G03 paging.no-next-otherwise", r.has_next || (r.next_block.is_none() && r.next_index.is_none()));
        ob!("G03 paging.content-untouched", r.content.len() == n);
    }
}
