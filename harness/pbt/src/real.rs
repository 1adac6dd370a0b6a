pub use ::xtra as x;
/// Ask a dispatch for its span (its type has no public name).
macro_rules! span_id_real {
    ($d:expr) => {{
        let s = $d.span().clone(); s.id().map(|i| i.into_u64())
    }};
}
pub(crate) use span_id_real as span_id;
#[path = "seq/world.rs"]
pub mod world;
