//! Contracts of pallet-schemas (real source), over arbitrary state.
use common_primitives::node::ProposalProvider;
use common_primitives::schema::*;
use mf::bounded::BoundedVec;
use mf::frame_support::traits::*;
use mf::nd::*;
use mf::sp_runtime::DispatchError;
use mf::vecs::Vec;
use mf::{cov, ob};
use pallet_schemas as schemas;
use schemas::types::*;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Test;
mf::mock_event!(Ev { Schemas(schemas::Event<Test>) });
mf::mock_call!(RC(schemas::Call<Test>));
mf::mock_system!(Test, u64, u32, RC, Ev);
pub struct Prop;
static mut PROPOSED: Option<(u64, RC)> = None;
pub fn proposed() -> Option<(u64, RC)> { unsafe { PROPOSED.clone() } }
impl ProposalProvider<u64, RC> for Prop {
    fn propose(w: u64, _t: u32, p: Box<RC>) -> Result<(u32, u32), DispatchError> { unsafe { PROPOSED = Some((w, *p)); } Ok((1, 1)) }
    fn propose_with_simple_majority(w: u64, p: Box<RC>) -> Result<(u32, u32), DispatchError> { unsafe { PROPOSED = Some((w, *p)); } Ok((1, 1)) }
}
pub struct Gov;
impl EnsureOrigin<O> for Gov { type Success = (); fn try_origin(o: O) -> Result<(), O> { match &o.0 { mf::frame_system::RawOrigin::Root => Ok(()), _ => Err(o) } } }
mf::constants! { MinModel: u32, ModelN: u32, MaxReg: u16 }
#[derive(Clone, Debug, PartialEq, Eq, Default)] pub struct ModelMax;
impl mf::codec::MaxEncodedLen for ModelMax { fn max_encoded_len() -> usize { 0 } }
impl Get<u32> for ModelMax { fn get() -> u32 { ModelN::get() } }
impl schemas::Config for Test {
    type RuntimeEvent = Ev; type WeightInfo = (); type MinSchemaModelSizeBytes = MinModel; type SchemaModelMaxBytesBoundedVecLimit = ModelMax; type MaxSchemaRegistrations = MaxReg;
    type CreateSchemaViaGovernanceOrigin = Gov; type Proposal = RC; type ProposalProvider = Prop; type MaxSchemaSettingsPerSchema = ConstU32<2>;
}
pub type P = schemas::Pallet<Test>;
pub type O = mf::rt::Origin<u64, RC>;
pub type Infos = schemas::pallet::SchemaInfos<Test>;
pub type Models = schemas::pallet::SchemaPayloads<Test>;
pub type Names = schemas::pallet::SchemaNameToIds<Test>;
pub type MaxId = schemas::pallet::CurrentSchemaIdentifierMaximum<Test>;
pub type MaxBytes = schemas::pallet::GovernanceSchemaModelMaxBytes<Test>;
pub type Model = BoundedVec<u8, ModelMax>;
pub type Settings = BoundedVec<SchemaSetting, ConstU32<2>>;
/// names are told apart by their parsed form
pub type Name = (SchemaNamespace, SchemaDescriptor);
pub const LEN: usize = 2;
pub fn setup() { init_constants(); mf::frame_system::mf_init::<Test>(); schemas::pallet::mf_init::<Test>(); mf::serde_json::reset(); unsafe { PROPOSED = None; } #[cfg(kani)] parse::reset(); }
pub fn init() { set_len(LEN); setup(); }

/// the name parser by contract: an arbitrary partial function from payloads to names (what it computes is H04)
#[cfg(kani)]
pub mod parse {
    use super::*;
    static mut MEMO: [Option<(u8, usize, Option<(u8, u8)>)>; 2] = [None; 2];
    /// whether names without a descriptor are at hand (only non-strict parsing accepts them)
    static mut WHOLE: bool = false;
    static mut KIND: u8 = 0;
    pub fn reset() { unsafe { MEMO = [None; 2]; WHOLE = any(); KIND = 0 } }
    pub fn whole() -> bool { unsafe { WHOLE } }
    /// every text parses, to a whole namespace or to a name
    pub fn always(whole: bool) { unsafe { WHOLE = whole; KIND = 1 } }
    pub fn never() { unsafe { KIND = 2 } }
    pub fn name(n: u8, d: u8) -> SchemaName { let (mut a, mut b) = (Vec::new(), Vec::new()); a.push(n); b.push(d); SchemaName { namespace: BoundedVec(a, core::marker::PhantomData), descriptor: BoundedVec(b, core::marker::PhantomData) } }
    pub fn of(p: &SchemaNamePayload) -> Option<(u8, u8)> { unsafe {
        let k = (if p.0.len() > 0 { p.0[0] } else { 0 }, p.0.len());
        let mut i = 0;
        while i < 2 { match MEMO[i] { Some((a, b, r)) => if (a, b) == k { return r; }, None => { let r: Option<(u8, u8)> = if KIND == 1 || (KIND == 0 && any()) { Some((any(), any())) } else { None }; MEMO[i] = Some((k.0, k.1, r)); return r; } } i += 1; }
        limit("oracle")
    } }
    pub struct C;
    impl C { pub fn try_parse<T>(p: SchemaNamePayload, strict: bool) -> Result<SchemaName, DispatchError> { match of(&p) { Some((n, d)) => { let mut x = name(n, d); if !strict && whole() { x.descriptor = Default::default(); } Ok(x) } None => Err(DispatchError::Other("no name")) } } }
}
/// the name a payload stands for
pub fn named(p: &SchemaNamePayload) -> Option<Name> {
    #[cfg(kani)] return match parse::of(p) { Some((n, d)) => { let x = parse::name(n, d); Some((x.namespace, x.descriptor)) } None => None };
    #[cfg(not(kani))] return SchemaName::try_parse::<Test>(p.clone(), true).ok().map(|x| (x.namespace, x.descriptor));
}
#[cfg(kani)]
pub fn name_payload() -> SchemaNamePayload { let mut v = Vec::new(); v.push(any()); BoundedVec(v, core::marker::PhantomData) }
#[cfg(not(kani))]
pub fn name_payload() -> SchemaNamePayload { let k: u8 = any(); let s: &[u8] = match k % 6 { 5 => b"abc", 0 => b"abc.d", 1 => b" ABC.D", 2 => b"abc.e", 3 => b"xyz.d", _ => b"-" }; BoundedVec(Vec::from(s), core::marker::PhantomData) }
#[cfg(kani)]
pub fn any_name() -> Name { let x = parse::name(any(), any()); (x.namespace, x.descriptor) }
#[cfg(not(kani))]
pub fn any_name() -> Name { loop { if let Some(n) = named(&name_payload()) { return n; } } }
pub fn ids(n: &Name) -> Vec<u16> { Names::get(&n.0, &n.1).ids.0 }
pub fn has(v: &Vec<u16>, s: u16) -> bool { let mut r = false; let mut i = 0; while i < LEN + 1 { if i < v.len() && v[i] == s { r = true; } i += 1; } r }
pub fn extended(a: &Vec<u16>, s: u16, b: &Vec<u16>) -> bool { let mut c = a.clone(); c.push(s); c == *b }
fn model_type() -> ModelType { if any() { ModelType::AvroBinary } else { ModelType::Parquet } }
fn location() -> PayloadLocation { let k: u8 = any(); match k & 3 { 0 => PayloadLocation::OnChain, 1 => PayloadLocation::IPFS, 2 => PayloadLocation::Itemized, _ => PayloadLocation::Paginated } }
fn settings() -> Settings {
    let mut v = Vec::new(); let k: u8 = any(); assume(k < 7);
    if k & 1 != 0 { v.push(SchemaSetting::AppendOnly) } if k & 2 != 0 { v.push(SchemaSetting::SignatureRequired) } if k > 3 { v.push(if k == 4 { SchemaSetting::SignatureRequired } else { SchemaSetting::AppendOnly }) }
    if k == 4 { v.push(SchemaSetting::AppendOnly) }
    BoundedVec(v, core::marker::PhantomData)
}
fn listed(s: &Settings, x: SchemaSetting) -> bool { (s.0.len() > 0 && s.0[0] == x) || (s.0.len() > 1 && s.0[1] == x) }
fn appends(s: &Settings) -> bool { listed(s, SchemaSetting::AppendOnly) }
fn demands(s: &Settings) -> bool { listed(s, SchemaSetting::SignatureRequired) }
/// does the text parse as a schema of this type?
fn valid(t: ModelType, m: &Vec<u8>) -> bool { let k = mf::serde_json::kind(m); match t { ModelType::Parquet => k != 0, ModelType::AvroBinary => k == 2 } }
fn origin(k: u8, who: u64) -> O { match k { 0 => O::none(), 1 => O::root(), _ => O::signed(who) } }
/// state invariant: only issued ids have a schema, with its model; a named schema knows it is named; no schema has two names
fn inv(x: u16, y: &Name, z: &Name) -> bool {
    let i = Infos::get(x); let m = MaxId::get();
    let (a, b) = (has(&ids(y), x), has(&ids(z), x));
    i.is_some() == Models::get(x).is_some() && (i.is_none() || (x <= m && x > 0))
        && (!(a || b) || match &i { Some(i) => i.has_name, None => false }) && (y == z || !(a && b))
}
macro_rules! stubbed { ($($(#[$m:meta])* $id:ident $body:block)* ; $($rest:tt)*) => {
    mf::contracts! { $( #[cfg_attr(kani, kani::stub(pallet_schemas::types::SchemaName::try_parse, super::parse::C::try_parse))] $(#[$m])* $id(8) $body )* $($rest)* }
} }
/// the state a call may look at: the id about to be issued, an arbitrary id, the name asked for and two others
macro_rules! given { ($m0:ident $new:ident $x:ident $y:ident $z:ident $i0:ident $p0:ident $y0:ident) => {
    let $m0 = MaxId::get(); let $new = $m0.wrapping_add(1);
    let $x: u16 = any(); let ($y, $z) = (any_name(), any_name());
    assume(inv($x, &$y, &$z)); assume(inv($new, &$y, &$z));
    let ($i0, $p0, $y0) = (Infos::get($x), Models::get($x), ids(&$y));
} }
/// what every successful creation guarantees
macro_rules! created { ($n:literal, $r:expr, $m0:expr, $new:expr, $x:expr, $y:expr, $z:expr, $i0:expr, $p0:expr, $y0:expr, $model:expr, $mt:expr, $l:expr, $st:expr, $nm:expr, $target:expr, $t0:expr) => {
    ob!(concat!("H01 ", $n, ".existing-schemas-never-change"), match $i0 { Some(_) => Infos::get($x) == $i0 && Models::get($x) == $p0, None => true });
    ob!(concat!("H01+H02 ", $n, ".invariant-kept"), $r.is_err() || inv($x, &$y, &$z));
    ob!(concat!("H02 ", $n, ".other-names-keep-their-versions"), $r.is_err() || $target == Some($y.clone()) || ids(&$y) == $y0);
    if $r.is_ok() {
        ob!(concat!("H01 ", $n, ".next-id"), $m0 < u16::MAX && MaxId::get() == $m0 + 1);
        ob!(concat!("H01 ", $n, ".stored-as-given"), Models::get($new).map(|m| m.0) == Some($model.clone()) && match Infos::get($new) { Some(i) => i.model_type == $mt && i.payload_location == $l && i.settings.is_enabled(SchemaSetting::AppendOnly) == appends(&$st) && i.settings.is_enabled(SchemaSetting::SignatureRequired) == demands(&$st), None => false });
        ob!(concat!("H02 ", $n, ".named-if-asked"), match Infos::get($new) { Some(i) => i.has_name == $nm.is_some(), None => false });
        ob!(concat!("H02 ", $n, ".becomes-the-newest-version"), match (&$nm, &$target) { (Some(_), Some(t)) => extended(&$t0, $new, &ids(t)), (Some(_), None) => false, (None, _) => true });
        ob!(concat!("H03 ", $n, ".model-is-valid"), valid($mt, &$model));
        ob!(concat!("H03 ", $n, ".size-within-the-limits"), $model.len() >= MinModel::get() as usize && $model.len() <= MaxBytes::get() as usize);
        ob!(concat!("H03 ", $n, ".append-only-is-for-items"), !appends(&$st) || $l == PayloadLocation::Itemized);
    }
} }
macro_rules! refused { ($n:literal, $auth:expr, $m0:expr, $model:expr, $mt:expr, $l:expr, $st:expr, $nm:expr, $target:expr, $full:expr) => {
    ob!(concat!("H03 ", $n, ".refused-only-with-a-reason"), !$auth || !valid($mt, &$model) || $model.len() < MinModel::get() as usize || $model.len() > MaxBytes::get() as usize || (appends(&$st) && $l != PayloadLocation::Itemized) || $m0 == u16::MAX || ($nm.is_some() && $target.is_none()) || $full);
} }

/// what a text asks for: a name, or a whole namespace
pub fn asked(p: &SchemaNamePayload) -> Option<(SchemaNamespace, Option<SchemaDescriptor>)> {
    #[cfg(kani)] return match parse::of(p) { Some((n, d)) => { let x = parse::name(n, d); Some(if parse::whole() { (x.namespace, None) } else { (x.namespace, Some(x.descriptor)) }) } None => None };
    #[cfg(not(kani))] return SchemaName::try_parse::<Test>(p.clone(), false).ok().map(|x| { let d = x.descriptor_exists().then(|| x.descriptor.clone()); (x.namespace, d) });
}
pub fn full(n: &Name) -> Vec<u8> { let mut v = n.0.0.clone(); v.push(b'.'); v.extend_from_slice(&n.1.0); v }
/// the longest text drawn freely
pub const TEXT: usize = 7;
fn letter(b: u8) -> bool { (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') }
fn low(b: u8) -> u8 { if b >= b'A' && b <= b'Z' { b + 32 } else { b } }
fn blank(b: u8) -> bool { b == b' ' || (b >= 9 && b <= 13) }
stubbed! {
    create {
        let k: u8 = any(); assume(k < 3); let who: u64 = any();
        let (mt, l, st) = (model_type(), location(), settings());
        let model: Model = Nd::nd(); let m = model.0.clone();
        let nm: Option<SchemaNamePayload> = if any() { Some(name_payload()) } else { None };
        let target = match &nm { Some(p) => named(p), None => None };
        given!(m0 new x y z i0 p0 y0);
        let t0 = match &target { Some(t) => ids(t), None => Vec::new() };
        if let Some(t) = &target { assume(inv(new, t, &y)); assume(inv(x, t, &y)); assume(inv(x, t, &z)); }
        let r = P::create_schema_v3(origin(k, who), model, mt, l, st.clone(), nm.clone());
        cov!("H01+H02+H03 a named schema can be created", r.is_ok() && nm.is_some());
        ob!("H03 create.only-signed", r.is_err() || k == 2);
        created!("create", r, m0, new, x, y, z, i0, p0, y0, m, mt, l, st, nm, target, t0);
        if r.is_err() { refused!("create", k == 2, m0, m, mt, l, st, nm, target, t0.len() >= 254); }
    }
    create_gov {
        let k: u8 = any(); assume(k < 3); let who: u64 = any(); let by: u64 = any();
        let (mt, l, st) = (model_type(), location(), settings());
        let model: Model = Nd::nd(); let m = model.0.clone();
        let nm: Option<SchemaNamePayload> = if any() { Some(name_payload()) } else { None };
        let target = match &nm { Some(p) => named(p), None => None };
        given!(m0 new x y z i0 p0 y0);
        let t0 = match &target { Some(t) => ids(t), None => Vec::new() };
        if let Some(t) = &target { assume(inv(new, t, &y)); assume(inv(x, t, &y)); assume(inv(x, t, &z)); }
        let r = P::create_schema_via_governance_v2(origin(k, who), by, model, mt, l, st.clone(), nm.clone());
        cov!("H01+H02+H03 governance can create a named schema", r.is_ok() && nm.is_some());
        ob!("H03 create-gov.only-by-governance", r.is_err() || k == 1);
        created!("create-gov", r, m0, new, x, y, z, i0, p0, y0, m, mt, l, st, nm, target, t0);
        if r.is_err() { refused!("create-gov", k == 1, m0, m, mt, l, st, nm, target, t0.len() >= 254); }
    }
    /// the older calls
    create_old {
        let k: u8 = any(); assume(k < 3); let who: u64 = any(); let by: u64 = any(); let v: u8 = any(); assume(v < 3);
        let (mt, l) = (model_type(), location()); let st = if v == 0 { BoundedVec(Vec::new(), core::marker::PhantomData) } else { settings() };
        let model: Model = Nd::nd(); let m = model.0.clone();
        given!(m0 new x y z i0 p0 y0);
        #[allow(deprecated)]
        let r = match v { 0 => P::create_schema(origin(k, who), model, mt, l), 1 => P::create_schema_v2(origin(k, who), model, mt, l, st.clone()), _ => P::create_schema_via_governance(origin(k, who), by, model, mt, l, st.clone()) };
        let nm: Option<SchemaNamePayload> = None; let target: Option<Name> = None; let t0: Vec<u16> = Vec::new();
        cov!("H01+H03 the oldest call works", r.is_ok() && v == 0);
        ob!("H03 create-old.only-signed-or-by-governance", r.is_err() || k == if v == 2 { 1 } else { 2 });
        created!("create-old", r, m0, new, x, y, z, i0, p0, y0, m, mt, l, st, nm, target, t0);
        if r.is_err() { refused!("create-old", k == if v == 2 { 1 } else { 2 }, m0, m, mt, l, st, nm, target, false); }
    }
    name {
        let k: u8 = any(); assume(k < 3); let who: u64 = any(); let s: u16 = any();
        let nm = name_payload(); let target = named(&nm);
        given!(m0 new x y z i0 p0 y0);
        let s0 = Infos::get(s);
        let t0 = match &target { Some(t) => ids(t), None => Vec::new() };
        assume(inv(s, &y, &z));
        if let Some(t) = &target { assume(inv(x, t, &y)); assume(inv(x, t, &z)); assume(inv(s, t, &y)); assume(inv(s, t, &z)); }
        let r = P::create_schema_name_via_governance(origin(k, who), s, nm);
        cov!("H02 a schema can be named later", r.is_ok());
        ob!("H02+H03 name.only-by-governance", r.is_err() || k == 1);
        ob!("H01 name.nothing-issued", MaxId::get() == m0 && MaxId::is_unchanged());
        ob!("H01 name.schemas-keep-their-content", Models::get(x) == p0 && match (&i0, &Infos::get(x)) { (Some(a), Some(b)) => a.model_type == b.model_type && a.payload_location == b.payload_location && a.settings == b.settings && (a.has_name == b.has_name || x == s), (None, None) => true, _ => false });
        ob!("H02 name.other-names-keep-their-versions", target == Some(y.clone()) || ids(&y) == y0);
        if r.is_ok() {
            ob!("H02 name.schema-existed-without-a-name", matches!(&s0, Some(i) if !i.has_name));
            ob!("H02 name.becomes-the-newest-version", match &target { Some(t) => extended(&t0, s, &ids(t)), None => false });
            ob!("H02 name.schema-has-one-name-now", matches!(Infos::get(s), Some(i) if i.has_name));
            ob!("H02 name.invariant-kept", inv(x, &y, &z));
        } else { ob!("H02 name.refused-only-with-a-reason", k != 1 || target.is_none() || t0.len() >= 254 || match &s0 { Some(i) => i.has_name, None => true }); }
    }
    /// proposals carry exactly what was proposed, and change nothing themselves
    propose {
        let k: u8 = any(); assume(k < 3); let who: u64 = any(); let v: u8 = any(); assume(v < 3);
        let (mt, l, st) = (model_type(), location(), settings());
        let model: Model = Nd::nd(); let s: u16 = any(); let nm = name_payload();
        let opt = if any() { Some(nm.clone()) } else { None };
        let x: u16 = any(); let y = any_name(); let (i0, p0, y0, m0) = (Infos::get(x), Models::get(x), ids(&y), MaxId::get());
        #[allow(deprecated)]
        let r = match v { 0 => P::propose_to_create_schema(origin(k, who), model.clone(), mt, l, st.clone()), 1 => P::propose_to_create_schema_v2(origin(k, who), model.clone(), mt, l, st.clone(), opt.clone()), _ => P::propose_to_create_schema_name(origin(k, who), s, nm.clone()) };
        cov!("H03 a schema can be proposed", r.is_ok() && v == 1);
        ob!("H01+H02+H03 propose.changes-nothing", Infos::get(x) == i0 && Models::get(x) == p0 && ids(&y) == y0 && MaxId::get() == m0);
        ob!("H03 propose.only-signed", r.is_err() || k == 2);
        #[allow(deprecated)]
        let want = match v {
            0 => RC(schemas::Call::create_schema_via_governance { creator_key: who, model, model_type: mt, payload_location: l, settings: st }),
            1 => RC(schemas::Call::create_schema_via_governance_v2 { creator_key: who, model, model_type: mt, payload_location: l, settings: st, schema_name: opt }),
            _ => RC(schemas::Call::create_schema_name_via_governance { schema_id: s, schema_name: nm }),
        };
        ob!("H03 propose.exactly-what-was-asked", if r.is_ok() { proposed() == Some((who, want)) } else { proposed().is_none() });
    }
    limits {
        let k: u8 = any(); assume(k < 3); let n: u32 = any(); let b0 = MaxBytes::get();
        let r = P::set_max_schema_model_bytes(origin(k, any()), n);
        cov!("H03 the limit can be changed", r.is_ok());
        ob!("H03 limits.only-root", r.is_err() || k == 1);
        ob!("H03 limits.within-the-bound", r.is_err() || n <= ModelN::get());
        ob!("H03 limits.set-or-kept", MaxBytes::get() == if r.is_ok() { n } else { b0 });
        ob!("H03 limits.refused-only-with-a-reason", r.is_ok() || k != 1 || n > ModelN::get());
    }
    /// schemas are reported as stored, and only issued ids are valid
    reported {
        let x: u16 = any(); let (y, z) = (any_name(), any_name()); assume(inv(x, &y, &z));
        let (i, p) = (Infos::get(x), Models::get(x));
        let r = <P as SchemaProvider<u16>>::get_schema_by_id(x); let q = <P as SchemaProvider<u16>>::get_schema_info_by_id(x);
        cov!("H01 a schema is reported", r.is_some());
        let set = |v: &Vec<SchemaSetting>, i: &SchemaInfo| { let (mut a, mut b) = (false, false); let mut j = 0; while j < 2 { if j < v.len() { if v[j] == SchemaSetting::AppendOnly { a = true } else { b = true } } j += 1; } a == i.settings.is_enabled(SchemaSetting::AppendOnly) && b == i.settings.is_enabled(SchemaSetting::SignatureRequired) };
        ob!("H01 reported.schema-as-stored", match (&r, &i, &p) { (Some(r), Some(i), Some(p)) => r.schema_id == x && r.model == p.0 && r.model_type == i.model_type && r.payload_location == i.payload_location && set(&r.settings, i), (None, None, None) => true, _ => false });
        ob!("H01 reported.settings-as-stored", match (&q, &i) { (Some(r), Some(i)) => r.schema_id == x && r.model_type == i.model_type && r.payload_location == i.payload_location && set(&r.settings, i), (None, None) => true, _ => false });
        let v: Vec<u16> = nd_vec_max(2); let m = MaxId::get();
        let mut all = true; let mut j = 0; while j < 2 { if j < v.len() && v[j] > m { all = false; } j += 1; }
        ob!("H01 reported.ids-not-issued-are-invalid", <P as SchemaValidator<u16>>::are_all_schema_ids_valid(&v) == all);
    }
    /// the versions of a name
    versions {
        #[cfg(kani)] parse::always(false);
        let p = name_payload(); let q = asked(&p);
        assume(matches!(q, Some((_, Some(_)))));
        let r = P::get_schema_versions(p.0);
        let e: usize = any(); assume(e < LEN);
        ob!("H02 versions.known-names-only", r.is_some() == q.is_some());
        if let (Some(r), Some((n, Some(d)))) = (r, q) {
            let y = (n, d); let l = ids(&y);
            cov!("H02 two versions are listed", r.len() == 2);
            ob!("H02 versions.all-listed", r.len() == l.len());
            ob!("H02 versions.in-order", e >= l.len() || (r[e].schema_version as usize == e + 1 && r[e].schema_id == l[e] && r[e].schema_name == full(&y)));
        }
    }
    /// only what parses is a name
    versions_none {
        #[cfg(kani)] parse::never();
        let p = name_payload(); assume(asked(&p).is_none());
        ob!("H02 versions-none.nothing-listed", P::get_schema_versions(p.0).is_none());
    }
    /// the versions of every name in a namespace
    versions_all {
        set_len(1); setup(); mf::storage::set_iter_max(1);
        #[cfg(kani)] parse::always(true);
        let p = name_payload(); let y = any_name(); let q = asked(&p);
        assume(matches!(q, Some((_, None))));
        let l = ids(&y);
        let r = P::get_schema_versions(p.0);
        ob!("H02 versions-all.known", r.is_some());
        if let (Some(r), Some((n, _))) = (r, q) {
            cov!("H02 two names of a namespace are listed", r.len() == 2);
            let (mut hits, mut mine) = (0, 0); let f = full(&y); let mut i = 0;
            while i < 2 { if i < r.len() && r[i].schema_name == f { mine += 1; if l.len() > 0 && r[i].schema_id == l[0] && r[i].schema_version == 1 { hits += 1; } } i += 1; }
            ob!("H02 versions-all.each-name-of-the-namespace-once", n != y.0 || (hits == l.len() && mine == hits));
            ob!("H02 versions-all.no-other-namespace", n == y.0 || mine == 0);
        }
    }
;
    /// what a text means as a name
    parsed(8) {
        set_len(TEXT); let t: Vec<u8> = nd_vec_max(TEXT); let strict: bool = any();
        let n = t.len();
        let (mut a, mut e) = (n, 0); let mut i = 0;
        while i < TEXT { if i < n && !blank(t[i]) { if a == n { a = i; } e = i + 1; } i += 1; }
        let (mut ok, mut dots, mut dot) = (true, 0, e); let mut i = 0;
        while i < TEXT { if i < n && i >= a && i < e { let b = t[i]; if b == b'.' { dots += 1; dot = i; } else if !letter(b) && b != b'-' { ok = false; } } else if i < n && t[i] >= 128 { ok = false; } i += 1; }
        if e < a { e = a; }
        if dot < a { dot = a; }
        let edges = |f: usize, l: usize| f < l && t[f] != b'-' && t[l - 1] != b'-';
        let good = ok && (dots == 1 || (dots == 0 && !strict)) && dot >= a + 3 && edges(a, dot) && (dots == 0 || edges(dot + 1, e));
        let r = SchemaName::try_parse::<Test>(BoundedVec(t.clone(), core::marker::PhantomData), strict);
        cov!("H04 a name with spaces and capitals is accepted", r.is_ok() && a > 0 && t[a] == b'A' && strict);
        ob!("H04 parsed.exactly-the-valid-names", r.is_ok() == good);
        if let Ok(x) = r {
            let k: usize = any(); assume(k < TEXT);
            ob!("H04 parsed.namespace", x.namespace.0.len() == dot - a && (k >= dot - a || x.namespace.0[k] == low(t[a + k])));
            let d = if dots == 1 { e - dot - 1 } else { 0 };
            ob!("H04 parsed.descriptor", x.descriptor.0.len() == d && (k >= d || x.descriptor.0[k] == low(t[dot + 1 + k])));
            ob!("H04 parsed.descriptor-exists", x.descriptor_exists() == (dots == 1));
            let c = x.get_combined_name();
            ob!("H04 parsed.combined", c.len() == dot - a + 1 + d && (k >= c.len() || c[k] == if k < dot - a { low(t[a + k]) } else if k == dot - a { b'.' } else { low(t[a + k]) }));
        }
    }
    /// the length limits, for texts up to the longest
    lengths(8) {
        let (a, d): (usize, usize) = (any(), any()); assume(a <= 32 && d <= 32 && a + d <= 32); let strict: bool = any();
        let mut t: Vec<u8> = Vec::new(); let mut i = 0;
        while i < 32 { if i < a + d { t.push(if i == a { b'.' } else { b'x' }); } i += 1; }
        let r = SchemaName::try_parse::<Test>(BoundedVec(t, core::marker::PhantomData), strict);
        cov!("H04 the longest name is accepted", r.is_ok() && a + d == 32);
        ob!("H04 lengths.exactly-the-allowed", r.is_ok() == (a >= 3 && a <= 30 && if d == 0 { !strict } else { d >= 2 && d <= 29 }));
        if let Ok(x) = r { ob!("H04 lengths.kept", x.namespace.0.len() == a && x.descriptor.0.len() == if d == 0 { 0 } else { d - 1 }); }
    }
}
