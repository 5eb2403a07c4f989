pub use mf_macros::{Deserialize, Serialize};
pub trait Serialize {} impl<T> Serialize for T {}
pub trait Deserialize<'de> {} impl<'de, T> Deserialize<'de> for T {}
pub mod de { pub trait DeserializeOwned {} impl<T> DeserializeOwned for T {} }
