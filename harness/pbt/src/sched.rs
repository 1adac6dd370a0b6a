//! The same histories against the crate compiled with shuttle's locks (used to decide whether a
//! history that does not return is a deadlock).
#![allow(dead_code)]
pub use ::xtra_sched as x;
/// Ask a dispatch for its span (its type has no public name).
macro_rules! span_id_sched {
    ($d:expr) => {{
        let _ = &$d; None
    }};
}
pub(crate) use span_id_sched as span_id;
#[path = "seq/world.rs"]
pub mod world;
