//! Frozen copy of adhoc_audio 0.1.3 as first published (repository commit "base"): the old node of
//! the version-skew simulation (C19).  Never edited.
#![allow(warnings)]
pub mod codec;
mod collections;
mod math;
pub use codec::{adhoc::AdhocCodec, wav::WavCodec, StreamInfo, Streamable};
pub use std::io::SeekFrom;
