pub mod engine;
pub mod model;
pub mod ops;
