//! Pulls in figment with every feature so that the facts driver sees the whole crate.
pub use figment;
