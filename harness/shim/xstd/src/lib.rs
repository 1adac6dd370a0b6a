//! The standard library, with the blocking and atomic primitives of `std::sync` replaced by
//! shuttle's, so that a crate compiled against this as its `std` runs under a controlled schedule.
pub use std::*;
pub mod sync {
    pub use ::std::sync::*;
    pub use shuttle::sync::{
        Barrier, BarrierWaitResult, Condvar, Mutex, MutexGuard, Once, OnceState, RwLock,
        RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult,
    };
    pub mod atomic {
        pub use shuttle::sync::atomic::*;
    }
}
pub mod hint {
    pub use ::std::hint::*;
    pub use shuttle::hint::spin_loop;
}
