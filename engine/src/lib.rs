//! A symbolic-execution runtime for generic Rust numeric code.
//!
//! The code under test is instantiated with the scalar type `Sym`. Arithmetic on `Sym` builds terms,
//! every comparison is a branch that is recorded as a path condition, and an SMT solver decides,
//! for each path, whether the other side of each branch is reachable and whether the property
//! assertion can fail. See `explore` for the search and `arena` for the encoding.
pub mod alloc;
pub mod arena;
pub mod bvfp;
pub mod ctx;
pub mod enc;
pub mod engine;
pub mod explore;
pub mod json;
pub mod py;
pub mod solver;
pub mod sym;

pub use ctx::{all, any, Ctx, Mode, Scalar};
pub use engine::B;
pub use sym::Sym;
