#[macro_export] macro_rules! __nolog { ($($t:tt)*) => { () } }
pub use crate::{__nolog as error, __nolog as warn, __nolog as info, __nolog as debug, __nolog as trace, __nolog as log};
