pub mod alloc;
pub mod engine;
pub mod model;
pub mod api;
pub mod tree;
pub use engine::{Cx, Family, Tier, family, guard};
pub mod world;
pub use rowan;
pub mod asts;
pub mod fx;
pub mod huge;
pub mod probe;
