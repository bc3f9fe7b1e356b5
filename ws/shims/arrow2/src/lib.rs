//! Stand-in for the private arrow2 fork (not available offline). It implements the part of the
//! arrow2 API the repository uses, with arrow2's documented semantics; arrays are plain vectors.
//! It is part of the trusted base of the storage checks (see DESIGN.md).
pub mod array;
pub mod bitmap;
pub mod buffer;
pub mod chunk;
pub mod compute;
pub mod datatypes;
pub mod error;
pub mod ffi;
pub mod io;
pub mod offset;
pub mod types;
