//! runtime scaffolding for harnesses
use crate::frame_system::RawOrigin;
use core::marker::PhantomData;
#[derive(PartialEq, Eq, Debug)]
pub struct Origin<A, C>(pub RawOrigin<A>, PhantomData<C>);
impl<A: Clone, C> Clone for Origin<A, C> { fn clone(&self) -> Self { Origin(self.0.clone(), PhantomData) } }
impl<A, C> From<RawOrigin<A>> for Origin<A, C> { fn from(r: RawOrigin<A>) -> Self { Origin(r, PhantomData) } }
impl<A, C> From<Origin<A, C>> for Result<RawOrigin<A>, Origin<A, C>> { fn from(o: Origin<A, C>) -> Self { Ok(o.0) } }
impl<A, C> crate::frame_support::traits::OriginTrait for Origin<A, C> {
    type Call = C; type PalletsOrigin = RawOrigin<A>; type AccountId = A;
    fn none() -> Self { Origin(RawOrigin::None, PhantomData) }
    fn root() -> Self { Origin(RawOrigin::Root, PhantomData) }
    fn signed(a: A) -> Self { Origin(RawOrigin::Signed(a), PhantomData) }
}
impl<A: crate::nd::Nd, C> Origin<A, C> {
    pub fn signed(a: A) -> Self { Origin(RawOrigin::Signed(a), PhantomData) }
    pub fn root() -> Self { Origin(RawOrigin::Root, PhantomData) }
    pub fn none() -> Self { Origin(RawOrigin::None, PhantomData) }
}
#[macro_export] macro_rules! mock_system { ($t:ident, $acc:ty, $bn:ty, $call:ty, $ev:ty) => {
    impl $crate::frame_system::Config for $t {
        type RuntimeOrigin = $crate::rt::Origin<$acc, $call>;
        type RuntimeCall = $call; type RuntimeEvent = $ev; type AccountId = $acc; type Nonce = u32; type BlockNumber = $bn;
        type Hash = $crate::sp_core::H256; type Hashing = $crate::sp_runtime::traits::BlakeTwo256;
        type Lookup = $crate::sp_runtime::traits::IdentityLookup<$acc>;
        type DbWeight = (); type AccountData = (); type BaseCallFilter = $crate::frame_support::traits::Everything;
    }
} }
#[macro_export] macro_rules! mock_event { ($n:ident { $($v:ident ( $t:ty )),* $(,)? }) => {
    #[derive(Clone, PartialEq, Debug)] pub enum $n { $($v($t)),* }
    $(impl From<$t> for $n { fn from(e: $t) -> Self { $n::$v(e) } })*
} }
/// declares the contract harnesses of a file: under Kani each becomes a proof; natively they are
/// listed so that a counterexample can be replayed on the compiled code
#[macro_export] macro_rules! contracts { ($( $(#[$m:meta])* $id:ident ($u:expr) $body:block )*) => {
    $( pub fn $id() { init(); $body } )*
    #[cfg(kani)] mod proofs { $( #[kani::proof] $(#[$m])* pub fn $id() { super::$id() } )* }
    pub const ALL: &[(&'static str, fn())] = &[ $( (stringify!($id), $id as fn()) ),* ];
} }
/// is an obligation (name: "P01+P02 text") part of the property selected by MF_PROP (unset: all)?
pub const fn wants(name: &str, prop: Option<&str>) -> bool {
    match prop {
        None => true,
        Some(p) => {
            let (n, p) = (name.as_bytes(), p.as_bytes());
            let mut i = 0;
            while i + p.len() <= n.len() && n[i] != b' ' {
                let mut j = 0;
                while j < p.len() && n[i + j] == p[j] { j += 1; }
                if j == p.len() { return true; }
                i += 1;
            }
            false
        }
    }
}
/// a named proof obligation
#[cfg(kani)]
#[macro_export] macro_rules! ob { ($n:expr, $c:expr) => { if const { $crate::rt::wants($n, option_env!("MF_PROP")) } { kani::assert($c, concat!("OB:", $n)) } } }
#[cfg(not(kani))]
#[macro_export] macro_rules! ob { ($n:expr, $c:expr) => { if const { $crate::rt::wants($n, option_env!("MF_PROP")) } { if !($c) { panic!(concat!("OB:", $n)) } } } }
/// reachability witness: must be satisfiable, else the harness is vacuous
#[cfg(kani)]
#[macro_export] macro_rules! cov { ($n:expr, $c:expr) => { if const { $crate::rt::wants($n, option_env!("MF_PROP")) } { kani::cover($c, concat!("COV:", $n)) } } }
#[cfg(not(kani))]
#[macro_export] macro_rules! cov { ($n:expr, $c:expr) => { let _ = $c; } }
/// configuration constants drawn once: the contracts hold for every configuration
#[macro_export] macro_rules! constants { ($($n:ident : $t:ty),* $(,)?) => {
    $( pub struct $n; impl $n { fn cell() -> *mut $t { static mut C: $t = 0; core::ptr::addr_of_mut!(C) } pub fn set(x: $t) { unsafe { *Self::cell() = x } } }
       impl mf::frame_support::traits::Get<$t> for $n { fn get() -> $t { unsafe { *Self::cell() } } } )*
    pub fn init_constants() { $( $n::set(mf::nd::any()); )* }
} }
/// an arbitrary but functional predicate over a key (memoised), with a record of what was answered
#[macro_export] macro_rules! oracle { ($n:ident : $k:ty) => {
    pub struct $n;
    impl $n {
        fn cell() -> *mut [Option<($k, bool)>; 3] { static mut C: [Option<($k, bool)>; 3] = [None; 3]; core::ptr::addr_of_mut!(C) }
        pub fn reset() { unsafe { *Self::cell() = [None; 3] } }
        pub fn answer(i: usize, k: $k, b: bool) { unsafe { (*Self::cell())[i] = Some((k, b)) } }
        pub fn said(k: $k) -> Option<bool> { let m = unsafe { &*Self::cell() }; let mut i = 0; while i < 3 { if let Some((a, b)) = m[i] { if a == k { return Some(b); } } i += 1; } None }
        pub fn ask(k: $k) -> bool { if let Some(b) = Self::said(k) { return b; } let m = unsafe { &mut *Self::cell() }; let b: bool = mf::nd::any(); let mut i = 0; while i < 3 { if m[i].is_none() { m[i] = Some((k, b)); return b; } i += 1; } mf::nd::limit("oracle") }
    }
} }

/// an arbitrary but functional map from a key to a value (memoised)
#[macro_export] macro_rules! lookup { ($n:ident : $k:ty => $v:ty) => {
    pub struct $n;
    impl $n {
        fn cell() -> *mut [Option<($k, $v)>; 3] { static mut C: [Option<($k, $v)>; 3] = [None; 3]; core::ptr::addr_of_mut!(C) }
        pub fn reset() { unsafe { *Self::cell() = [None; 3] } }
        pub fn answer(i: usize, k: $k, v: $v) { unsafe { (*Self::cell())[i] = Some((k, v)) } }
        /// what was answered for this key (None: never asked)
        pub fn said(k: $k) -> Option<$v> { let m = unsafe { &*Self::cell() }; let mut i = 0; while i < 3 { if let Some((a, b)) = m[i] { if a == k { return Some(b); } } i += 1; } None }
        pub fn ask(k: $k) -> $v { if let Some(b) = Self::said(k) { return b; } let m = unsafe { &mut *Self::cell() }; let b: $v = mf::nd::Nd::nd(); let mut i = 0; while i < 3 { if m[i].is_none() { m[i] = Some((k, b)); return b; } i += 1; } mf::nd::limit("oracle") }
    }
} }

/// a runtime call wrapping one pallet's calls
#[macro_export] macro_rules! mock_call { ($n:ident ( $t:ty )) => {
    #[derive(Clone, PartialEq, Eq, Debug)] pub struct $n(pub $t);
    impl From<$t> for $n { fn from(c: $t) -> Self { $n(c) } }
    impl $crate::codec::Encode for $n { fn encode_to(&self, o: &mut $crate::vecs::Vec<u8>) { self.0.encode_to(o) } }
    impl $crate::codec::Decode for $n { fn decode<I: $crate::codec::Input>(i: &mut I) -> Result<Self, $crate::codec::Error> { Ok($n($crate::codec::Decode::decode(i)?)) } }
    impl $crate::nd::Nd for $n { fn nd() -> Self { $crate::nd::limit("arbitrary call") } fn dup(&self) -> Self { self.clone() } }
    impl $crate::frame_support::traits::IsSubType<$t> for $n { fn is_sub_type(&self) -> Option<&$t> { Some(&self.0) } }
    impl $crate::frame_support::dispatch::GetDispatchInfo for $n { fn get_dispatch_info(&self) -> $crate::frame_support::dispatch::DispatchInfo { self.0.get_dispatch_info() } }
    impl $crate::sp_runtime::traits::Dispatchable for $n {
        type RuntimeOrigin = <Test as $crate::frame_system::Config>::RuntimeOrigin; type Config = (); type Info = $crate::frame_support::dispatch::DispatchInfo; type PostInfo = $crate::frame_support::dispatch::PostDispatchInfo;
        fn dispatch(self, o: Self::RuntimeOrigin) -> $crate::frame_support::dispatch::DispatchResultWithPostInfo { use $crate::frame_support::traits::UnfilteredDispatchable; self.0.dispatch_bypass_filter(o) }
    }
} }
