pub use mf_macros::TypeInfo;
#[derive(Clone, Debug)] pub struct Type;
impl Type { pub fn opaque() -> Type { Type } pub fn builder() -> Builder { Builder } }
pub struct Builder;
impl Builder { pub fn path(self, _: Path) -> Self { self } pub fn type_params(self, _: crate::vecs::Vec<TypeParameter>) -> Self { self } pub fn composite(self, _: build::FieldsB) -> Type { Type } }
pub struct Path; impl Path { pub fn new(_: &str, _: &str) -> Self { Path } }
pub struct TypeParameter; impl TypeParameter { pub fn new(_: &str, _: Option<MetaType>) -> Self { TypeParameter } }
pub struct MetaType; pub fn meta_type<T>() -> MetaType { MetaType }
pub mod build { pub struct Fields; pub struct FieldsB; pub struct FieldB; impl Fields { pub fn unnamed() -> FieldsB { FieldsB } pub fn named() -> FieldsB { FieldsB } } impl FieldsB { pub fn field(self, f: impl FnOnce(FieldB) -> FieldB) -> Self { f(FieldB); self } } impl FieldB { pub fn ty<T>(self) -> Self { self } pub fn type_name(self, _: &str) -> Self { self } pub fn name(self, _: &str) -> Self { self } } }
pub trait TypeInfo { type Identity: ?Sized; fn type_info() -> Type; }
pub trait StaticTypeInfo {} impl<T: TypeInfo> StaticTypeInfo for T {}
macro_rules! ti { ($($t:ty),*) => { $(impl TypeInfo for $t { type Identity = Self; fn type_info() -> Type { Type } })* } }
ti!(u8, u16, u32, u64, u128, bool, (), String);
impl<T> TypeInfo for crate::vecs::Vec<T> { type Identity = Self; fn type_info() -> Type { Type } }
impl<T> TypeInfo for Option<T> { type Identity = Self; fn type_info() -> Type { Type } }
impl<T> TypeInfo for Box<T> { type Identity = Self; fn type_info() -> Type { Type } }
impl<T> TypeInfo for core::marker::PhantomData<T> { type Identity = Self; fn type_info() -> Type { Type } }
impl<T, const N: usize> TypeInfo for [T; N] { type Identity = Self; fn type_info() -> Type { Type } }
impl<A, B> TypeInfo for (A, B) { type Identity = Self; fn type_info() -> Type { Type } }
impl<T, S> TypeInfo for crate::bounded::BoundedVec<T, S> { type Identity = Self; fn type_info() -> Type { Type } }
impl<K, V, S> TypeInfo for crate::bounded::BoundedBTreeMap<K, V, S> { type Identity = Self; fn type_info() -> Type { Type } }
pub mod prelude { pub use std::*; pub mod string { pub use std::string::*; } pub mod vec { pub use std::vec::*; } }
