//! stand-in for reborrow
pub use faer::reborrow::*;
