//! A collection of common use items.

pub use crate::cast::{As, CastFrom};
pub use crate::BInt;
pub use crate::BUint;
