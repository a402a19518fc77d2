//! The standard library with loom's atomics.
pub use ::std::*;
pub mod sync {
    pub use ::std::sync::*;
    pub mod atomic {
        pub use ::std::sync::atomic::Ordering;
        pub use ::std::sync::atomic::compiler_fence;
        pub use loom::sync::atomic::{
            AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr,
            AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, fence,
        };
    }
}
