pub mod big;
#[macro_use]
pub mod engine;
pub mod gen;
pub use engine::*;
pub mod points;
pub mod params;
pub mod prog;
pub mod gprog;
pub mod cs;
pub mod sponge;
pub mod proto;
pub mod defer;
pub mod repair;
pub mod sha;
