//! The same histories against the crate compiled without instrumentation.
#![allow(dead_code)]
pub use ::xtra_plain as x;
/// Ask a dispatch for its span (its type has no public name).
macro_rules! span_id_plain {
    ($d:expr) => {{
        let _ = &$d; None
    }};
}
pub(crate) use span_id_plain as span_id;
#[path = "seq/world.rs"]
pub mod world;
